#include "node_env.h"
using namespace nd;
namespace nd { void run_ledger(Check&); void run_evil(Check&); void run_forks(Check&); void run_votes(Check&); void run_crash(Check&); }

static void run_smoke(Check& ck)
{
	World w(ck, 1);
	auto t0 = std::chrono::steady_clock::now();
	auto el = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
	w.make_plots(12);
	size_t n = 0; for(auto& p : w.plots) n += p.table.size();
	fprintf(stderr, "plots %zu proofs, %.1f s\n", n, el());
	NodeBox a(w, "A", ck.scratch + "/a"), b(w, "B", ck.scratch + "/b");
	if(!a.start()) { fprintf(stderr, "start failed: %s\n", a.error.c_str()); exit(77); }
	fprintf(stderr, "genesis %.1f s, height %u\n", el(), a.height());
	if(!b.start()) { fprintf(stderr, "start failed: %s\n", b.error.c_str()); exit(77); }
	auto g = a.api->get_block_at(0);
	for(auto& tx : g->tx_list) { auto t = std::dynamic_pointer_cast<const Transaction>(tx); fprintf(stderr, "tx %s %d outs %zu cost %u\n", t->id.to_string().c_str(), int(t->calc_hash() == t->id), t->outputs.size(), t->static_cost); }
	for(int i = 0; i < 40; ++i) {
		const bool ok = w.grow(a, {&b});
		if(!ok) { fprintf(stderr, "no block: %s\n", a.last_warn().c_str()); }
		if(a.height()) w.feed(a, b, a.height());
		fprintf(stderr, "%.1f s height %u / %u vdf, B %u, proofs %zu reward %lu\n", el(), a.height(), a.api->get_vdf_height(), b.height(), a.peak()->proof.size(), (unsigned long)a.peak()->reward_amount);
	}
	for(auto& l : b.log) fprintf(stderr, "B: %s\n", l.c_str());
	for(auto& l : a.log) fprintf(stderr, "A: %s\n", l.c_str());
}

static void run_readtx(Check& ck)
{
	World w(ck, 1);
	for(auto* n : {"offer_binary", "swap_binary", "token_binary", "plot_nft_binary", "nft_binary", "template_binary", "escrow_binary", "time_lock_binary", "relay_binary", "project_relay"}) {
		auto tx = vnx::read_from_file<Transaction>("data/mainnet/tx_" + std::string(n) + ".dat");
		fprintf(stderr, "%s: id %d content %d cost %d (%u %lu)\n", n, tx->id == tx->calc_hash(), tx->content_hash == tx->calc_hash(true), tx->static_cost == tx->calc_cost(w.params), tx->static_cost, (unsigned long)tx->calc_cost(w.params));
		if(std::string(n) == "project_relay") fprintf(stderr, "%s\n", str(*tx).c_str());
	}
}

int main(int argc, char** argv)
{
	Check ck(argc, argv);
	mmx::secp256k1_init();
	if(ck.has("smoke")) run_smoke(ck);
	if(ck.has("readtx")) run_readtx(ck);
	if(ck.has("ledger")) run_ledger(ck);
	else if(ck.has("evil")) run_evil(ck);
	else if(ck.has("forks")) run_forks(ck);
	else if(ck.has("votes")) run_votes(ck);
	else if(ck.has("crash")) run_crash(ck);
	const int rc = ck.finish();
	fflush(stdout); fflush(stderr);
	_exit(rc);
}
