// A small network of real nodes in one process: parameters, plots, farmers, accounts, VDF stand-in.
#ifndef VERIF_NODE_ENV_H_
#define VERIF_NODE_ENV_H_
#include "common.h"
#include <vnx/vnx.h>
#include <mmx/Node.h>
#include <mmx/NodeClient.hxx>
#include <mmx/ChainParams.hxx>
#include <mmx/Block.hxx>
#include <mmx/Transaction.hxx>
#include <mmx/Challenge.hxx>
#include <mmx/IntervalRequest.hxx>
#include <mmx/VDF_Point.hxx>
#include <mmx/ValidatorVote.hxx>
#include <mmx/ProofResponse.hxx>
#include <mmx/ProofOfSpaceOG.hxx>
#include <mmx/ProofOfSpaceNFT.hxx>
#include <mmx/Farmer_sign_block.hxx>
#include <mmx/Farmer_sign_block_return.hxx>
#include <mmx/Farmer_sign_vote.hxx>
#include <mmx/Farmer_sign_vote_return.hxx>
#include <mmx/solution/PubKey.hxx>
#include <mmx/solution/MultiSig.hxx>
#include <mmx/contract/Binary.hxx>
#include <mmx/contract/Executable.hxx>
#include <mmx/contract/MultiSig.hxx>
#include <mmx/contract/PubKey.hxx>
#include <mmx/contract/TokenBase.hxx>
#include <mmx/contract/Data.hxx>
#include <mmx/contract/WebData.hxx>
#include <mmx/operation/Execute.hxx>
#include <mmx/operation/Deposit.hxx>
#include <mmx/pos/verify.h>
#include <mmx/pos/mem_hash.h>
#include <mmx/utils.h>
#include <mmx/helpers.h>
#include <sys/stat.h>
#include <condition_variable>

namespace vnx {
extern std::atomic<int64_t> g_wall_time_offset, g_wall_time_fixed;
}

namespace nd {
using namespace verif;
using namespace mmx;
typedef std::shared_ptr<const Block> BlockPtr;
typedef std::shared_ptr<const Transaction> TxPtr;

inline std::string str(const vnx::Value& v) { std::ostringstream s; s << v; return s.str(); }

struct Account { skey_t skey; pubkey_t pub; addr_t addr; std::string name; };

struct Plot {
	hash_t id, seed; int k = 0; int farmer = 0; addr_t contract; bool nft = false;
	std::vector<std::pair<uint32_t, std::vector<uint32_t>>> table;		// (Y, X values) of proofs which verify
};

struct World;

struct NodeBox {
	World& w;
	std::string name, dir;
	std::shared_ptr<Node> node;
	std::thread th;
	std::mutex m; std::condition_variable cv;
	bool ready = false, stop = false, done = false;
	std::string error;
	std::map<uint32_t, std::shared_ptr<const IntervalRequest>> intervals;
	std::map<uint32_t, std::shared_ptr<const Challenge>> challenges;
	std::vector<std::pair<std::string, std::shared_ptr<const vnx::Value>>> published;		// other than the above
	std::deque<std::string> log;
	std::shared_ptr<NodeClient> api;

	NodeBox(World& w_, const std::string& n, const std::string& d) : w(w_), name(n), dir(d) {}
	~NodeBox() { close(); }
	bool start();
	void close();
	void on_main() {
		std::unique_lock<std::mutex> lock(m);
		ready = true; cv.notify_all();
		cv.wait(lock, [this]() { return stop; });
	}
	void deliver(std::shared_ptr<const vnx::Value> v, const std::string& topic = "network", vnx::Hash64 src = vnx::Hash64(uint64_t(77))) { node->vnx_deliver(v, topic, src); }
	void pending() { node->vnx_run_pending(); }
	void timer(int64_t ms) { for(auto& t : node->vnx_timers_()) if(t->interval_micros == ms * 1000 && t->active) { std::lock_guard<std::recursive_mutex> lock(node->exec_mutex); t->func(); } pending(); }
	void update() { timer(777); }
	void validate() { timer(333333); }
	uint32_t height() { return api->get_height(); }
	std::shared_ptr<const BlockHeader> peak() { return api->get_header_at(api->get_height()); }
	bool logged(const std::string& text) { std::lock_guard<std::mutex> lock(m); for(auto& l : log) if(l.find(text) != std::string::npos) return true; return false; }
	std::string last_warn() { std::lock_guard<std::mutex> lock(m); return log.empty() ? "" : log.back(); }
};

inline std::map<std::string, NodeBox*>& boxes() { static std::map<std::string, NodeBox*> m; return m; }
inline std::mutex& boxes_mutex() { static std::mutex m; return m; }
inline NodeBox* box_of(const std::string& name) { std::lock_guard<std::mutex> lock(boxes_mutex()); auto i = boxes().find(name); return i != boxes().end() ? i->second : nullptr; }

struct Farmer_ { Account key; addr_t reward; vnx::Hash64 mac; bool refuse = false; int64_t signed_blocks = 0; };

struct World {
	Check& ck; Rng rng;
	std::shared_ptr<ChainParams> params;
	std::vector<Account> acc;
	std::vector<Farmer_> farmers;
	std::vector<Plot> plots;
	std::map<std::string, int> config;
	std::function<void(std::shared_ptr<BlockHeader>)> tweak_header;		// what a farmer may still change before signing
	uint64_t nonce = 1;
	int64_t step_ms = 10000;
	int threads = 3;
	size_t max_proofs = 3;		// per challenge

	static Account account(const std::string& name) {
		Account a; a.name = name; const hash_t h("account/" + name);
		a.skey = skey_t(h); a.pub = pubkey_t(a.skey); a.addr = a.pub.get_addr(); return a;
	}
	World(Check& c, uint64_t stream) : ck(c), rng(c.rng(stream)) {
		params = ChainParams::create();
		auto& p = *params;
		p.port = 11337; p.network = "mainnet";
		p.min_ksize = 8; p.plot_filter = 2; p.post_filter = 2;
		p.infuse_delay = 1; p.challenge_delay = 3; p.challenge_interval = 16; p.commit_delay = 6;
		p.avg_proof_count = 2; p.max_proof_count = 4; p.max_validators = 5; p.max_space_fork_len = 4;
		p.vdf_segment_size = 10; p.time_diff_constant = 20; p.time_diff_divider = 100; p.initial_time_diff = 6; p.initial_space_diff = 1; p.space_diff_constant = 2;
		p.initial_time_stamp = 1737119420000;
		p.min_reward = 500000000; p.vdf_reward = 20000000; p.vdf_reward_interval = 5;
		p.reward_adjust_div = 100; p.reward_adjust_interval = 10; p.reward_adjust_tick = 1000;
		p.reward_activation = 1; p.transaction_activation = 2;
		p.fixed_project_reward = 50000; p.project_ratio.value = 1; p.project_ratio.inverse = 100;
		p.min_txfee = 20000; p.min_txfee_io = 10000; p.min_txfee_sign = 10000; p.min_txfee_memo = 5000; p.min_txfee_exec = 10000; p.min_txfee_deploy = 20000;
		p.min_txfee_depend = 10000; p.min_txfee_byte = 100; p.min_txfee_read = 2000; p.min_txfee_read_kbyte = 2000;
		p.max_block_size = 250000000; p.max_block_cost = 1000000000; p.max_tx_cost = 25000000; p.max_rcall_depth = 3; p.max_rcall_width = 5;
		p.min_fee_ratio = {1, 2, 3, 5, 10};
		p.hardfork1_height = 0; p.hardfork2_height = 0;
		auto rd = [this](const char* n) { std::ifstream f(ck.repo + "/config/mainnet/chain/params/" + n); std::string s; f >> s; return addr_t(s); };
		p.nft_binary = rd("nft_binary"); p.swap_binary = rd("swap_binary"); p.offer_binary = rd("offer_binary"); p.token_binary = rd("token_binary"); p.plot_nft_binary = rd("plot_nft_binary");
		p.escrow_binary = rd("escrow_binary"); p.time_lock_binary = rd("time_lock_binary"); p.relay_binary = rd("relay_binary");
		for(int i = 0; i < 8; ++i) acc.push_back(account("a" + std::to_string(i)));
		for(int i = 0; i < 3; ++i) { Farmer_ f; f.key = account("f" + std::to_string(i)); f.reward = acc[i].addr; f.mac = vnx::Hash64(uint64_t(0xFA00 + i)); farmers.push_back(f); }
		::symlink((ck.repo + "/data").c_str(), (ck.scratch + "/data").c_str());
		if(::chdir(ck.scratch.c_str())) {}
		vnx::g_wall_time_fixed = p.initial_time_stamp * 1000;
		for(auto& f : farmers) vnx::open_pipe(f.mac, nullptr);
		hooks();
	}
	void apply_params() { vnx::write_config("chain.params", std::shared_ptr<const ChainParams>(params)); }
	void tick(int64_t ms) { vnx::g_wall_time_fixed += ms * 1000; }

	void hooks() {
		vnx::g_main_hook = [](vnx::Module* mod) { if(auto* b = box_of(mod->vnx_name)) b->on_main(); };
		vnx::g_log_hook = [](int level, const std::string& mod, const std::string& msg) {
			if(auto* b = box_of(mod)) { if(level <= 2) { std::lock_guard<std::mutex> lock(b->m); b->log.push_back(msg); if(b->log.size() > 200) b->log.pop_front(); } }
			static const bool verbose = ::getenv("NODE_LOG");
			if(verbose) fprintf(stderr, "[%s] %s\n", mod.c_str(), msg.c_str());
		};
		vnx::g_publish_hook = [](vnx::Module* mod, const std::string& topic, std::shared_ptr<const vnx::Value> v) {
			auto* b = box_of(mod->vnx_name);
			if(!b) return;
			std::lock_guard<std::mutex> lock(b->m);
			if(auto r = std::dynamic_pointer_cast<const IntervalRequest>(v)) b->intervals[r->vdf_height] = r;
			else if(auto c = std::dynamic_pointer_cast<const Challenge>(v)) b->challenges[c->vdf_height] = c;
			else b->published.emplace_back(topic, v);
		};
		vnx::g_request_hook = [this](vnx::Hash64 dst, std::shared_ptr<const vnx::Value> method) { return request(dst, method); };
	}
	std::shared_ptr<const vnx::Value> request(vnx::Hash64 dst, std::shared_ptr<const vnx::Value> method) {
		for(auto& f : farmers) if(f.mac == dst) {
			if(auto r = std::dynamic_pointer_cast<const Farmer_sign_block>(method)) {
				auto ret = Farmer_sign_block_return::create();
				if(f.refuse || !r->block) return ret;
				ret->_ret_0 = sign(r->block, f);
				return ret;
			}
			if(auto r = std::dynamic_pointer_cast<const Farmer_sign_vote>(method)) {
				auto ret = Farmer_sign_vote_return::create();
				ret->_ret_0 = sign_vote(r->vote);
				return ret;
			}
		}
		return nullptr;
	}
	const Farmer_* farmer_by_key(const pubkey_t& k) const { for(auto& f : farmers) if(f.key.pub == k) return &f; return nullptr; }
	signature_t sign_vote(std::shared_ptr<const ValidatorVote> v) const {
		if(auto* f = farmer_by_key(v->farmer_key)) return signature_t::sign(f->key.skey, hash_t("MMX/validator/vote/" + v->hash + v->farmer_key));
		return signature_t();
	}
	std::shared_ptr<BlockHeader> sign(std::shared_ptr<const BlockHeader> block, Farmer_& f) {
		auto out = vnx::clone(block);
		out->nonce = rng.next();
		if(!out->reward_addr) out->reward_addr = f.reward;
		if(out->reward_contract) out->reward_account = f.reward;
		if(tweak_header) tweak_header(out);
		resign(*out);
		f.signed_blocks++;
		return out;
	}
	// makes hash, signature and content hash of a (changed) header consistent again, if we know the farmer's key
	bool resign(BlockHeader& b) {
		b.hash = b.calc_hash(params);
		bool ok = false;
		if(b.proof.size() && b.proof[0]) if(auto* f = farmer_by_key(b.proof[0]->farmer_key)) { b.farmer_sig = signature_t::sign(f->key.skey, b.hash); ok = true; }
		b.content_hash = b.calc_content_hash();
		return ok;
	}

	// small plots hold no proofs at all or far too many, except for some seeds
	void make_plots(size_t n) {
		static const int seeds[] = {30, 31, 418, 419, 431, 459, 448, 411, 10, 216, 233, 425};
		for(int s : seeds) {
			if(plots.size() >= n) break;
			Plot p; p.k = 10; p.farmer = s % 3; p.seed = hash_t("seed/" + std::to_string(s));
			compute(p);
			plots.push_back(p);
		}
	}
	void compute(Plot& p) {
		const uint8_t ks = p.k; const auto& fk = farmers[p.farmer].key.pub;
		p.id = p.nft ? hash_t(std::string("MMX/PLOTID/NFT") + bytes_t<1>(&ks, 1) + p.seed + fk + p.contract) : hash_t(std::string("MMX/PLOTID/OG") + bytes_t<1>(&ks, 1) + p.seed + fk);
		std::vector<uint32_t> X(size_t(1) << p.k), out;
		for(uint32_t i = 0; i < X.size(); ++i) X[i] = i;
		const auto res = pos::compute(X, &out, p.id, p.k, 0);
		for(size_t i = 0; i < res.size(); ++i) p.table.emplace_back(res[i].first, std::vector<uint32_t>(out.begin() + i * 256, out.begin() + (i + 1) * 256));
	}
	std::shared_ptr<ProofOfSpace> proof_for(const Plot& p, const Challenge& c, const std::vector<uint32_t>& xs) {
		auto fill = [&](auto proof) {
			proof->plot_id = p.id; proof->challenge = c.challenge; proof->difficulty = c.difficulty; proof->farmer_key = farmers[p.farmer].key.pub; proof->ksize = p.k; proof->seed = p.seed; proof->proof_xs = xs;
			proof->score = get_proof_score(proof->calc_proof_hash());
		};
		if(p.nft) { auto q = ProofOfSpaceNFT::create(); q->contract = p.contract; fill(q); return q; }
		auto q = ProofOfSpaceOG::create(); fill(q); return q;
	}
	// all proofs the plots hold for a challenge
	std::vector<std::shared_ptr<const ProofResponse>> farm(const Challenge& c, const std::set<int>& which = {}) {
		std::vector<std::shared_ptr<const ProofResponse>> res;
		for(size_t n = 0, first = rng.below(plots.size()); n < plots.size(); ++n) {
			auto& p = plots[(first + n) % plots.size()];
			if(res.size() >= max_proofs) break;
			if(which.size() && !which.count(p.farmer)) continue;
			if(!check_plot_filter(params, c.challenge, p.id)) continue;
			const auto pc = get_plot_challenge(c.challenge, p.id);
			const uint32_t mask = uint32_t((uint64_t(1) << p.k) - 1);
			uint32_t y0 = 0; ::memcpy(&y0, pc.data(), 4); y0 &= mask;
			for(auto& e : p.table) {
				if(res.size() >= max_proofs) break;
				if(e.first < y0 || e.first >= uint64_t(y0) + (1u << params->plot_filter)) continue;
				auto proof = proof_for(p, c, e.second);
				try {
					const bool hf = c.vdf_height >= params->hardfork1_height;
					const auto q = pos::verify(e.second, pc, p.id, params->plot_filter, params->post_filter, p.k, hf);
					if(!check_proof_threshold(params, p.k, q, c.difficulty, hf)) continue;
				} catch(const std::exception&) { continue; }
				res.push_back(response(proof, c.vdf_height));
			}
		}
		return res;
	}
	std::shared_ptr<ProofResponse> response(std::shared_ptr<const ProofOfSpace> proof, uint32_t vdf_height) {
		auto r = ProofResponse::create();
		r->vdf_height = vdf_height; r->proof = proof; r->hash = r->calc_hash();
		for(auto& f : farmers) if(f.key.pub == proof->farmer_key) { r->farmer_sig = signature_t::sign(f.key.skey, r->hash); r->farmer_addr = f.mac; }
		r->content_hash = r->calc_content_hash();
		return r;
	}
	static std::shared_ptr<ProofResponse> remote(std::shared_ptr<const ProofResponse> r) { auto q = vnx::clone(r); q->farmer_addr = vnx::Hash64(); return q; }

	std::shared_ptr<VDF_Point> point(const IntervalRequest& r, const hash_t& input, const addr_t& reward) {
		auto p = VDF_Point::create();
		p->vdf_height = r.vdf_height; p->start = r.start; p->num_iters = r.end - r.start; p->input = input; p->prev = r.infuse; p->reward_addr = reward;
		{ const uint64_t n = p->num_iters; p->output = hash_t(std::string("vdf") + input + r.infuse + reward + bytes_t<8>(&n, 8)); }
		p->content_hash = p->calc_hash();
		return p;
	}

	// One step of the chain on node a: VDF points are delivered until a block appears. Returns false when none came.
	std::set<int> active;		// farmers which take part (empty: all)
	std::vector<std::shared_ptr<const VDF_Point>> all_points;
	std::function<addr_t()> vdf_addr;
	bool grow(NodeBox& a, std::vector<NodeBox*> others = {}, int max_points = 12) {
		const auto peak = a.peak();
		hash_t input = peak->vdf_output;
		tick(step_ms);
		for(int i = 1; i <= max_points; ++i) {
			const uint32_t vh = peak->vdf_height + i;
			std::shared_ptr<const IntervalRequest> req; std::shared_ptr<const Challenge> ch;
			{ std::lock_guard<std::mutex> lock(a.m); if(a.intervals.count(vh)) req = a.intervals[vh]; if(a.challenges.count(vh)) ch = a.challenges[vh]; }
			if(!req) { a.update(); std::lock_guard<std::mutex> lock(a.m); if(a.intervals.count(vh)) req = a.intervals[vh]; if(a.challenges.count(vh)) ch = a.challenges[vh]; }
			if(!req) throw std::logic_error("harness: no interval request for VDF height " + std::to_string(vh) + " (" + a.last_warn() + ")");
			if(ch) for(auto& r : farm(*ch, active)) { a.deliver(r); for(auto* o : others) o->deliver(remote(r)); }
			auto pt = point(*req, input, vdf_addr ? vdf_addr() : acc[3 + rng.below(2)].addr);
			all_points.push_back(pt);
			input = pt->output;
			a.deliver(pt);
			for(auto* o : others) { o->deliver(pt); }
			a.pending(); a.update();
			for(int t = 0; t < 3 && a.height() == peak->height; ++t) a.update();
			if(a.height() > peak->height) return true;
			ck.count("vdf_without_block");
		}
		return false;
	}
	// passes blocks of a from `from` on to b
	void feed(NodeBox& a, NodeBox& b, uint32_t from) {
		for(uint32_t h = from; h <= a.height(); ++h) if(auto blk = a.api->get_block_at(h)) b.deliver(blk);
		b.pending(); b.update(); b.update();
	}

	// ---- transactions
	std::shared_ptr<Transaction> tx(const Account& from, uint32_t height) {
		auto t = Transaction::create();
		t->version = get_transaction_version(params, height);
		t->network = params->network; t->nonce = nonce++; t->sender = from.addr; t->max_fee_amount = 0xFFFFFFFF;
		return t;
	}
	static void sign(std::shared_ptr<Transaction> t, std::shared_ptr<const ChainParams> params, const std::vector<const Account*>& keys) {
		// keys[i] signs solution i
		t->solutions.clear();
		for(size_t i = 0; i < keys.size(); ++i) t->solutions.push_back(nullptr);
		std::vector<std::shared_ptr<solution::PubKey>> s;
		for(auto* k : keys) { auto x = solution::PubKey::create(); x->pubkey = k->pub; s.push_back(x); }
		for(size_t i = 0; i < keys.size(); ++i) t->solutions[i] = s[i];
		t->static_cost = t->calc_cost(params);
		t->id = t->calc_hash();
		for(size_t i = 0; i < keys.size(); ++i) { s[i]->signature = signature_t::sign(keys[i]->skey, t->id); }
		t->content_hash = t->calc_hash(true);
	}
};

inline bool NodeBox::start() {
	ready = stop = done = false; error.clear();
	intervals.clear(); challenges.clear(); published.clear();
	w.apply_params();
	::mkdir(dir.c_str(), 0755);
	auto cfg = [this](const std::string& k, const vnx::Variant& v) { vnx::write_config(name + "." + k, v); };
	cfg("storage_path", vnx::Variant(dir + "/")); cfg("database_path", vnx::Variant(dir + "/db/"));
	cfg("do_sync", vnx::Variant(false)); cfg("vdf_slave_mode", vnx::Variant(true)); cfg("opencl_device", vnx::Variant(int32_t(-1)));
	cfg("num_threads", vnx::Variant(uint32_t(w.threads))); cfg("num_db_threads", vnx::Variant(uint32_t(2))); cfg("num_api_threads", vnx::Variant(uint32_t(2)));
	cfg("validate_interval_ms", vnx::Variant(int32_t(333333))); cfg("update_interval_ms", vnx::Variant(int32_t(777)));
	for(auto& e : w.config) cfg(e.first, vnx::Variant(int64_t(e.second)));
	{ std::lock_guard<std::mutex> lock(boxes_mutex()); boxes()[name] = this; }
	node = std::make_shared<Node>(name);
	th = std::thread([this]() {
		try { node->vnx_start_(); } catch(const std::exception& ex) { std::lock_guard<std::mutex> lock(m); error = ex.what(); if(error.empty()) error = "?"; }
		std::lock_guard<std::mutex> lock(m); done = true; ready = true; cv.notify_all();
	});
	{ std::unique_lock<std::mutex> lock(m); cv.wait(lock, [this]() { return ready; }); }
	if(!error.empty() || done) { th.join(); node = nullptr; return false; }
	api = std::make_shared<NodeClient>(vnx::Hash64(name));
	node->vnx_run_pending();
	return true;
}
inline void NodeBox::close() {
	if(!node) return;
	{ std::lock_guard<std::mutex> lock(m); stop = true; cv.notify_all(); }
	if(th.joinable()) th.join();
	{ std::lock_guard<std::mutex> lock(boxes_mutex()); boxes().erase(name); }
	api = nullptr;
	node = nullptr;
}

} // nd
#endif
