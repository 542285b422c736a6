// Chains of random transactions on two nodes; every block and every answer is compared with the ledger.
#include "node_net.h"
namespace nd {

void run_ledger(Check& ck)
{
	int mix = 0; for(auto& a : ck.args) if(a.compare(0, 3, "mix") == 0) mix = atoi(a.c_str() + 3);
	const int rounds = ck.n(36, 130), per = 14;
	Net N(ck, 50);
	auto& O = N.O; auto& L = N.L; auto& a = N.a; auto& b = N.b; auto& w = N.w; auto& rng = N.rng; auto& gen = N.gen;
	for(int i = 0; i < 7; ++i) N.step();
	for(int r = 0; r < rounds; ++r) {
		auto items = gen.round(std::max<int>(1, rng.range(per / 2, per * 3 / 2)), r < 3 ? 0 : mix);
		bool contested = false;
		std::map<hash_t, Item*> by;
		std::map<hash_t, std::string> predicted;
		// fee limits around what the transaction costs
		for(auto& it : items) if(it.keys.size() && rng.chance(1, 2)) try {
			const auto res = a.api->validate(vnx::clone(it.tx));
			if(res.did_fail) continue;
			const u128 fee = u128(res.total_cost) * it.tx->fee_ratio / 1024;
			const u128 io = u128(res.inputs.size() + res.outputs.size()) * 5000;
			const u128 less = rng.pick(std::vector<u128>{0, 1, io / 2, io, io + 1, 2000, 20000});
			if(less >= fee || fee - less < Gen::FEE_ROOM / 1000) continue;
			auto t = vnx::clone(it.tx); t->exec_result = nullptr; t->max_fee_amount = uint64_t(fee - less); World::sign(t, w.params, it.keys); it.tx = t; it.kind += "+tight"; if(it.expect == SUCCEED) it.expect = ANY;
			gen.plan[t->id] = {it.kind, it.expect}; gen.old.push_back(t); ck.count(less ? "fee_limit_below_cost" : "fee_limit_at_cost");
		} catch(const std::exception& ex) { ck.count("tight_refused"); }
		for(auto& it : items) { by[it.tx->id] = &it; if(!it.kind.compare(0, 6, "replay") || it.kind == "malleated") contested = true; }
		for(auto& it : items) {
			ck.count("kind:" + it.kind.substr(0, it.kind.find('+')));
			if(rng.chance(1, 3)) { // what the node says about it beforehand
				try {
					auto t = vnx::clone(it.tx); if(t->exec_result) { t->reset(w.params); }
					const auto res = a.api->validate(t);
					predicted[it.tx->id] = std::to_string(bool(res.did_fail)) + std::to_string(res.total_cost);
					O(it.expect != REJECT, "P51 P52 P54", "validate-accepts-" + it.kind, [&]() { return "the node accepts a transaction of kind " + it.kind; });
					O(it.expect != FAIL || res.did_fail, it.kind.compare(0, 5, "steal") && it.kind.compare(0, 8, "multisig") && it.kind.compare(0, 6, "forged") ? "P50 P51 P53" : "P52", "validate-passes-" + it.kind, [&]() { return "the node finds no fault in a transaction of kind " + it.kind; });
				} catch(const std::exception& ex) { ck.count("validate_refused"); }
			}
			a.deliver(it.tx);
			if(rng.chance(1, 4)) b.deliver(it.tx);
		}
		a.validate(); b.validate();
		// storage of contracts before the block
		std::vector<addr_t> watch; for(auto& k : gen.of("")) if(k.kind != "multisig" && k.kind != "data" && k.kind != "webdata" && k.kind != "pubkey" && k.kind != "tokenbase") watch.push_back(k.addr);
		while(watch.size() > 12) watch.erase(watch.begin() + rng.below(watch.size()));
		std::map<addr_t, std::string> before; for(auto& c : watch) before[c] = N.dump(a, c);
		const uint32_t h0 = L.height();
		if(!N.step()) { O(!a.logged("Block validation failed"), "P60", "own-block-refused", [&]() { return "A refused its own block: " + a.last_warn(); }); ck.count("no_block"); continue; }
		O(!a.logged("Block validation failed"), "P60", "own-block-refused", [&]() { return "A refused its own block"; });
		O(!b.logged("Block validation failed"), "P60", "follower-validation", [&]() { return "B refused A's block: " + b.last_warn(); });
		ck.eval();
		std::set<hash_t> got; size_t nfail = 0;
		std::set<addr_t> touched;
		for(uint32_t h = h0 + 1; h <= L.height(); ++h) {
			for(auto& t : L.blocks[h]->tx_list) {
				got.insert(t->id); nfail += t->did_fail();
				const auto pl = gen.plan.find(t->id);
				if(pl == gen.plan.end()) { O(false, "P51 P52", "tx-unknown", [&]() { return "a transaction nobody made is in block " + std::to_string(h); }); continue; }
				const auto& kind = pl->second.first;
				ck.nontrivial(kind + "/" + (t->did_fail() ? t->exec_result->get_error_msg().substr(0, 40) : "ok") + std::to_string(t->exec_result->inputs.size()) + std::to_string(t->exec_result->outputs.size()) + std::to_string(t->inputs.size()) + std::to_string(t->outputs.size()));
				ck.count(t->did_fail() ? "tx_failed" : "tx_ok");
				ck.count((t->did_fail() ? "fail:" : "ok:") + kind.substr(0, kind.find('+')));
				const bool auth = !kind.compare(0, 5, "steal") || !kind.compare(0, 8, "multisig") || !kind.compare(0, 6, "forged") || !kind.compare(0, 6, "sender");
				O(pl->second.second != REJECT, auth ? "P52" : "P51 P54 P50", "included-" + kind, [&]() { return "a transaction of kind " + kind + " is in block " + std::to_string(h); });
				O(pl->second.second != FAIL || t->did_fail(), auth ? "P52" : "P50 P51 P53", "succeeded-" + kind, [&]() { return "a transaction of kind " + kind + " succeeded at height " + std::to_string(h); });
				if(!contested) O(pl->second.second != SUCCEED || !t->did_fail(), "P50 P52 P60", "failed-" + kind, [&]() { return "a valid transaction of kind " + kind + " failed at height " + std::to_string(h) + ": " + t->exec_result->get_error_msg(); });
				if(t->did_fail()) { ck.sample(kind + " -> " + t->exec_result->get_error_msg(), 8); }
			}
			for(auto& c : L.touched_at) if(c.second.count(h)) touched.insert(c.first);
		}
		if(!contested) for(auto& it : items) if(it.expect == SUCCEED && !got.count(it.tx->id)) O(false, "P60", "left-out-" + it.kind, [&]() { return "a valid transaction of kind " + it.kind + " was not included at height " + std::to_string(L.height()) + " (" + a.last_warn() + ")"; });
		for(auto& c : watch) {
			const auto now = N.dump(a, c);
			if(!touched.count(c)) { O(now == before[c], "P53 P59", "storage-changed", [&]() { return "storage of contract " + S(c) + " changed at height " + std::to_string(L.height()) + " though no successful transaction calls it"; }); ck.count("storage_untouched"); }
			else ck.count("storage_touched");
			O(now == N.dump(b, c), "P60 P64 P53", "storage-differs", [&]() { return "storage of contract " + S(c) + " differs between two nodes at height " + std::to_string(L.height()); });
		}
		N.aud.balances(a, L);
		if(r % 3 == 0) { N.aud.balances(b, L); }
		// failed deployments leave nothing
		for(auto& t : L.blocks.back()->tx_list) if(t->did_fail() && t->deploy) { O(!a.api->get_contract(t->id), "P53", "failed-deploy-exists", [&]() { return "contract of a failed deployment exists"; }); ck.count("failed_deploys"); }
		if(O.on("P61")) { N.aud.queries(a, L, rng, 6); N.aud.queries(b, L, rng, 3); }
	}
	N.aud.queries(a, L, rng, O.on("P61") ? 60 : 5);
	N.aud.queries(b, L, rng, O.on("P61") ? 60 : 5);
	N.aud.balances(b, L);
	ck.max("max_height", L.height()); ck.count("contracts", L.contracts.size()); ck.count("txs", L.tx_order.size());
}

} // nd
