// A farmer who makes blocks against the rules: node B has to refuse them and take the honest ones.
#include "node_net.h"
namespace nd {

struct Evil {
	Net& N; World& w; Tree& T; Rng& rng; const ChainParams& p;
	Evil(Net& n, Tree& t) : N(n), w(n.w), T(t), rng(n.rng), p(*n.w.params) {}

	// ---- headers
	struct tamper_t { std::string name; std::function<bool(Block&)> f; };
	std::vector<tamper_t> list;
	hash_t junk() { return hash_t("junk" + std::to_string(rng.next())); }
	template<typename T> void nudge(T& v) { const auto d = rng.pick(std::vector<int64_t>{1, 1, 1, 2, 1000}); if(rng.chance(1, 2) && uint64_t(v) >= uint64_t(d)) v -= d; else v += d; }
	// a proof which belongs to another challenge, or is changed
	std::shared_ptr<ProofOfSpaceOG> copy(const Block& b, size_t i) { return vnx::clone(std::dynamic_pointer_cast<const ProofOfSpaceOG>(b.proof[i])); }

	bool redo(Block& b) { T.derive(b, false); return true; }

	void header_tampers() {
		auto add = [&](const std::string& n, const std::function<bool(Block&)>& f) { list.push_back({n, f}); };
		// single fields, everything else as before
		add("version", [&](Block& b) { b.version = 1 + rng.below(3); return true; });
		add("height", [&](Block& b) { b.height += rng.chance(1, 2) ? 1 : -1; return b.height > 0; });
		add("prev-unknown", [&](Block& b) { b.prev = junk(); return true; });
		add("prev-older", [&](Block& b) { auto q = T.find(b.prev); if(!q->height) return false; b.prev = q->prev; return true; });
		add("prev-older-height", [&](Block& b) { auto q = T.find(b.prev); if(!q->height) return false; b.prev = q->prev; b.height--; return true; });
		add("time-stamp", [&](Block& b) { auto q = T.find(b.prev); const int64_t lo = int64_t(b.vdf_count) * p.block_interval_ms / 2, hi = int64_t(b.vdf_count) * p.block_interval_ms * 2; b.time_stamp = rng.pick(std::vector<int64_t>{-1, q->time_stamp, q->time_stamp + lo - 1, q->time_stamp + hi + 1, q->time_stamp + lo, q->time_stamp + hi, int64_t(1) << 62, std::numeric_limits<int64_t>::max() / 2}); return true; });
		add("vdf-height", [&](Block& b) { nudge(b.vdf_height); return true; });
		add("vdf-count", [&](Block& b) { if(rng.chance(1, 2)) { b.vdf_count++; b.vdf_reward_addr.push_back(w.acc[0].addr); } else { b.vdf_count = rng.chance(1, 2) ? 0 : b.vdf_count - 1; b.vdf_reward_addr.resize(b.vdf_count); } if(rng.chance(1, 2)) b.vdf_height = T.find(b.prev)->vdf_height + b.vdf_count; return true; });
		add("vdf-count-large", [&](Block& b) { b.vdf_count = p.max_vdf_count + 1; b.vdf_reward_addr.resize(b.vdf_count); b.vdf_height = T.find(b.prev)->vdf_height + b.vdf_count; return true; });
		add("vdf-iters", [&](Block& b) { nudge(b.vdf_iters); return true; });
		add("vdf-output", [&](Block& b) { b.vdf_output = junk(); return true; });
		add("vdf-output-prev", [&](Block& b) { b.vdf_output = T.find(b.prev)->vdf_output; return true; });
		add("vdf-reward-addr", [&](Block& b) { b.vdf_reward_addr[rng.below(b.vdf_reward_addr.size())] = w.acc[rng.below(3)].addr; return true; });
		add("vdf-reward-addr-count", [&](Block& b) { if(rng.chance(1, 2)) b.vdf_reward_addr.push_back(w.acc[1].addr); else b.vdf_reward_addr.pop_back(); return true; });
		add("vdf-payout", [&](Block& b) { if(b.vdf_reward_payout && rng.chance(1, 3)) b.vdf_reward_payout = nullptr; else { vnx::optional<addr_t> a; a = w.acc[rng.below(8)].addr; b.vdf_reward_payout = a; } return true; });
		add("time-diff", [&](Block& b) { auto q = T.find(b.prev); const uint64_t lim = std::max<uint64_t>(q->time_diff >> p.max_diff_adjust, 1); switch(rng.below(5)) { case 0: b.time_diff = q->time_diff + lim + 1; break; case 1: b.time_diff = q->time_diff - lim - 1; break; case 2: b.time_diff = rng.chance(1, 2) ? 0 : p.time_diff_divider - 1; break; case 3: b.time_diff = q->time_diff + lim; break; default: b.time_diff = q->time_diff * 2; } return true; });
		add("space-diff", [&](Block& b) { nudge(b.space_diff); return true; });
		add("space-diff-zero", [&](Block& b) { b.space_diff = 0; return true; });
		add("weight", [&](Block& b) { b.weight = W(U(b.weight) + rng.range(1, 5)); if(rng.chance(1, 2)) b.total_weight = W(U(T.find(b.prev)->total_weight) + U(b.weight)); return true; });
		add("weight-less", [&](Block& b) { b.weight = W(U(b.weight) - 1); b.total_weight = W(U(T.find(b.prev)->total_weight) + U(b.weight)); return true; });
		add("total-weight", [&](Block& b) { b.total_weight = W(U(b.total_weight) + (u128(1) << rng.below(127))); return true; });
		add("proof-hash", [&](Block& b) { b.proof_hash = junk(); return true; });
		add("proof-hash-derived", [&](Block& b) { auto q = T.find(b.prev); b.proof_hash = junk(); b.proof_chain = T.next_proof_chain(b, *q); bool f; b.challenge = T.next_challenge(b, *q, f); follow(b, *q, f); return true; });
		add("proof-chain", [&](Block& b) { b.proof_chain = junk(); return true; });
		add("proof-chain-derived", [&](Block& b) { auto q = T.find(b.prev); b.proof_chain = rng.chance(1, 2) ? junk() : b.proof_hash; bool f; b.challenge = T.next_challenge(b, *q, f); follow(b, *q, f); return true; });
		add("challenge", [&](Block& b) { b.challenge = rng.chance(1, 2) ? junk() : T.find(b.prev)->challenge; return true; });
		add("space-fork-flip", [&](Block& b) { auto q = T.find(b.prev); const bool f = !b.is_space_fork; const auto c = Tree::advance(q->challenge, b.vdf_count); if(rng.chance(2, 3)) b.challenge = f ? H("challenge_infusion" + B(c) + B(b.proof_chain)) : c; follow(b, *q, f); return true; });
		add("space-fork-flag", [&](Block& b) { b.is_space_fork = !b.is_space_fork; return true; });
		add("space-fork-len", [&](Block& b) { nudge(b.space_fork_len); return true; });
		add("space-fork-proofs", [&](Block& b) { nudge(b.space_fork_proofs); return true; });
		add("reward-more", [&](Block& b) { if(!b.reward_addr) return false; b.reward_amount += rng.pick(std::vector<uint64_t>{1, 1000, 1000000000000ull}); return true; });
		add("reward-less", [&](Block& b) { if(!b.reward_amount) return false; b.reward_amount -= rng.range(1, b.reward_amount); return true; });
		add("reward-nobody", [&](Block& b) { b.reward_addr = nullptr; if(rng.chance(1, 2)) b.reward_amount = 0; return true; });		// without amount: allowed
		add("reward-contract", [&](Block& b) { vnx::optional<addr_t> a; a = rng.chance(1, 2) ? addr_t(junk()) : p.relay_binary; b.reward_contract = a; return true; });
		add("reward-vote", [&](Block& b) { const int8_t v = rng.pick(std::vector<int>{2, -2, 100, -100}); b.reward_vote_sum += v - b.reward_vote; b.reward_vote_count += (v ? 1 : 0) - (b.reward_vote ? 1 : 0); b.reward_vote = v; return true; });
		add("reward-vote-sum", [&](Block& b) { b.reward_vote_sum += rng.chance(1, 2) ? 1 : -1; return true; });
		add("reward-vote-count", [&](Block& b) { b.reward_vote_count += rng.chance(1, 2) ? 1 : -1; return true; });
		add("reward-vote-uncounted", [&](Block& b) { b.reward_vote = b.reward_vote ? 0 : 1; return true; });
		add("base-reward", [&](Block& b) { nudge(b.base_reward); return true; });
		add("project-addr", [&](Block& b) { b.project_addr = w.acc[rng.below(8)].addr; return true; });
		add("txfee-buffer", [&](Block& b) { nudge(b.txfee_buffer); return true; });
		add("static-cost", [&](Block& b) { nudge(b.static_cost); return true; });
		add("total-cost", [&](Block& b) { nudge(b.total_cost); return true; });
		add("tx-fees", [&](Block& b) { nudge(b.tx_fees); if(rng.chance(1, 2) && b.reward_addr) b.reward_amount = T.reward(b, *T.find(b.prev), b.tx_fees); return true; });
		add("tx-count", [&](Block& b) { b.tx_count += rng.chance(1, 2) ? 1 : -1; return true; });
		add("tx-hash", [&](Block& b) { b.tx_hash = junk(); return true; });
		// proofs; headers follow them, so that only the proof itself is at fault
		add("proof-none", [&](Block& b) { b.proof.clear(); return true; });
		add("proof-null", [&](Block& b) { b.proof[rng.below(b.proof.size())] = nullptr; return true; });
		add("proof-null-added", [&](Block& b) { b.proof.push_back(nullptr); b.space_fork_proofs++; return true; });
		add("proof-twice", [&](Block& b) { b.proof.insert(b.proof.begin(), b.proof[rng.below(b.proof.size())]); return redo(b); });
		add("proof-swapped", [&](Block& b) { if(b.proof.size() < 2) return false; auto q = T.find(b.prev); std::swap(b.proof[0], b.proof.back()); b.proof_hash = T.proof_hash(*b.proof[0]); b.proof_chain = T.next_proof_chain(b, *q); bool f; b.challenge = T.next_challenge(b, *q, f); follow(b, *q, f); return true; });
		add("proof-swapped-tail", [&](Block& b) { if(b.proof.size() < 3) return false; std::swap(b.proof[1], b.proof[2]); return true; });
		add("proof-dropped-first", [&](Block& b) { if(b.proof.size() < 2) return false; b.proof.erase(b.proof.begin()); return redo(b); });		// allowed
		add("proof-dropped-last", [&](Block& b) { if(b.proof.size() < 2) return false; b.proof.pop_back(); return redo(b); });		// allowed
		auto change = [&](const std::string& n, const std::function<bool(ProofOfSpaceOG&, Block&)>& f) { add("proof-" + n, [this, f](Block& b) { const size_t i = rng.below(b.proof.size()); auto x = copy(b, i); if(!f(*x, b)) return false; if(rng.chance(1, 3)) { b.proof.push_back(x); if(b.proof.size() > p.max_proof_count) b.proof.erase(b.proof.begin()); } else b.proof[i] = x; return redo(b); }); };
		change("xs", [&](ProofOfSpaceOG& x, Block&) { x.proof_xs[rng.below(x.proof_xs.size())] ^= uint32_t(1) << rng.below(x.ksize); x.score = get_proof_score(T.proof_hash(x)); return true; });
		change("xs-swapped", [&](ProofOfSpaceOG& x, Block&) { const size_t h = x.proof_xs.size() / 2; std::rotate(x.proof_xs.begin(), x.proof_xs.begin() + h, x.proof_xs.end()); x.score = get_proof_score(T.proof_hash(x)); return true; });
		change("xs-short", [&](ProofOfSpaceOG& x, Block&) { x.proof_xs.resize(rng.pick(std::vector<size_t>{0, 1, 16, 255})); x.score = get_proof_score(T.proof_hash(x)); return true; });
		change("xs-long", [&](ProofOfSpaceOG& x, Block&) { x.proof_xs.push_back(x.proof_xs[0]); x.score = get_proof_score(T.proof_hash(x)); return true; });
		change("score", [&](ProofOfSpaceOG& x, Block&) { x.score += rng.chance(1, 2) ? 1 : -1; return true; });
		change("difficulty", [&](ProofOfSpaceOG& x, Block&) { x.difficulty += rng.chance(1, 2) ? 1 : -1; return true; });
		change("ksize", [&](ProofOfSpaceOG& x, Block&) { x.ksize += rng.chance(1, 2) ? 1 : -1; return true; });
		change("ksize-id", [&](ProofOfSpaceOG& x, Block&) { x.ksize += rng.chance(1, 2) ? 1 : -1; x.plot_id = H("MMX/PLOTID/OG" + std::string(1, char(x.ksize)) + B(x.seed) + B(x.farmer_key)); return true; });
		change("plot-id", [&](ProofOfSpaceOG& x, Block&) { x.plot_id = rng.chance(1, 2) ? junk() : w.plots[rng.below(w.plots.size())].id; return true; });
		change("seed", [&](ProofOfSpaceOG& x, Block&) { x.seed = junk(); if(rng.chance(1, 2)) x.plot_id = H("MMX/PLOTID/OG" + std::string(1, char(x.ksize)) + B(x.seed) + B(x.farmer_key)); return true; });
		change("farmer", [&](ProofOfSpaceOG& x, Block&) { auto k = w.farmers[rng.below(3)].key.pub; if(k == x.farmer_key) return false; x.farmer_key = k; if(rng.chance(1, 2)) x.plot_id = H("MMX/PLOTID/OG" + std::string(1, char(x.ksize)) + B(x.seed) + B(x.farmer_key)); return true; });
		change("old", [&](ProofOfSpaceOG& x, Block& b) { auto q = T.back(T.find(b.prev), rng.below(5)); if(!q->height) return false; auto o = std::dynamic_pointer_cast<const ProofOfSpaceOG>(q->proof[0]); const auto c = x.challenge; const auto d = x.difficulty; x = *o; if(rng.chance(1, 2)) { x.challenge = c; x.difficulty = d; x.score = get_proof_score(T.proof_hash(x)); } return true; });
		change("challenge", [&](ProofOfSpaceOG& x, Block& b) { auto q = T.find(b.prev); x.challenge = rng.chance(1, 2) ? q->challenge : b.challenge; x.score = get_proof_score(T.proof_hash(x)); return true; });
		add("proof-for-later", [&](Block& b) { // a true proof, for the challenge of another VDF height
			auto q = T.find(b.prev); const int64_t v = int64_t(b.vdf_height) - p.challenge_delay + (rng.chance(1, 2) ? 1 : -1); const auto c = T.challenge_at(*q, v); auto ch = Challenge::create(); ch->vdf_height = b.vdf_height; ch->challenge = c.first; ch->difficulty = c.second;
			const auto rs = w.farm(*ch); if(rs.empty()) return false; b.proof = {rs[0]->proof}; T.derive(b, false); return true; });
		add("proof-weak", [&](Block& b) { // of a plot which passes the filter, but not good enough or for another value
			const auto c = T.challenge_at(b, int64_t(b.vdf_height) - p.challenge_delay); Challenge ch; ch.challenge = c.first; ch.difficulty = c.second;
			for(int k = 0; k < 40; ++k) { auto& pl = w.plots[rng.below(w.plots.size())]; if(pl.table.empty()) continue; auto x = w.proof_for(pl, ch, pl.table[rng.below(pl.table.size())].second); if(check_plot_filter(w.params, c.first, pl.id) || rng.chance(1, 10)) { b.proof = {x}; T.derive(b, false); return true; } }
			return false; });
		add("nonce", [&](Block& b) { b.nonce = rng.next(); return true; });		// allowed
		add("support-flags", [&](Block& b) { b.support_flags = rng.next(); return true; });		// allowed
		add("reward-to-other", [&](Block& b) { vnx::optional<addr_t> a; a = w.acc[rng.below(8)].addr; b.reward_addr = a; b.reward_amount = T.reward(b, *T.find(b.prev), b.tx_fees); return true; });		// allowed
		add("vote", [&](Block& b) { b.reward_vote = int(rng.below(3)) - 1; return redo(b); });		// allowed
		add("no-transactions", [&](Block& b) { b.tx_list.clear(); return redo(b); });		// allowed
	}
	// what follows from whether the block forks the space
	void follow(Block& b, const Block& q, bool f) {
		b.is_space_fork = f; b.space_diff = f ? T.next_space_diff(q) : q.space_diff; b.space_fork_len = (f ? 0 : q.space_fork_len) + b.vdf_count; b.space_fork_proofs = (f ? 0 : q.space_fork_proofs) + b.proof.size();
	}

	// ---- transactions
	static std::shared_ptr<Transaction> seal(std::shared_ptr<Transaction> t, const exec_result_t& r, const ChainParams& p, std::shared_ptr<const ChainParams> pp) { t->exec_result = r; t->static_cost = t->calc_cost(pp); t->content_hash = t->calc_hash(true); return t; }
	exec_result_t price(std::shared_ptr<const Transaction> t, exec_result_t r) {
		auto x = vnx::clone(t); x->exec_result = r; const uint64_t c = x->calc_cost(w.params);
		r.total_cost = std::max<uint64_t>(r.total_cost, c); r.total_fee = uint32_t(std::min<u128>(u128(r.total_cost) * t->fee_ratio / 1024, t->max_fee_amount)); return r;
	}
	// the result a liar would give: all went well
	std::shared_ptr<Transaction> pretend(std::shared_ptr<const Transaction> t_) {
		auto t = vnx::clone(t_); t->exec_result = nullptr;
		exec_result_t r; r.did_fail = false;
		return seal(t, price(t, r), p, w.params);
	}
	std::shared_ptr<Transaction> pretend_failed(std::shared_ptr<const Transaction> t_, const exec_result_t* truth) {
		auto t = vnx::clone(t_); t->exec_result = nullptr;
		exec_result_t r; r.did_fail = true; exec_error_t e; e.message = "failed"; if(rng.chance(1, 2)) e.code = rng.below(30); r.error = e; if(truth) r.total_cost = truth->total_cost - uint32_t(rng.chance(1, 2) ? truth->calc_cost(w.params) : 0);
		return seal(t, price(t, r), p, w.params);
	}
	// changes a true result
	bool lie(exec_result_t& r, std::string& name, std::string& props) {
		const addr_t me = w.acc[rng.below(8)].addr;
		switch(rng.below(14)) {
			case 0: name = "result-output-more"; props = "P50"; if(r.outputs.empty()) return false; { auto& o = r.outputs[rng.below(r.outputs.size())]; o.amount = W(U(o.amount) + 1 + rng.below(1000)); } return true;
			case 1: name = "result-output-added"; props = "P50"; { txout_t o; o.address = me; o.contract = r.outputs.size() && rng.chance(1, 2) ? r.outputs[0].contract : addr_t(); o.amount = W(1 + rng.below(1000000)); r.outputs.push_back(o); } return true;
			case 2: name = "result-output-dropped"; props = "P50"; if(r.outputs.empty()) return false; r.outputs.erase(r.outputs.begin() + rng.below(r.outputs.size())); return true;
			case 3: name = "result-output-other"; props = "P50"; if(r.outputs.empty()) return false; { auto& o = r.outputs[rng.below(r.outputs.size())]; if(o.address == me) return false; o.address = me; } return true;
			case 4: name = "result-output-currency"; props = "P50"; if(r.outputs.empty()) return false; { auto& o = r.outputs[rng.below(r.outputs.size())]; o.contract = o.contract == addr_t() ? addr_t(hash_t("tok")) : addr_t(); } return true;
			case 5: name = "result-memo"; props = "P57"; if(r.outputs.empty()) return false; { auto& o = r.outputs[rng.below(r.outputs.size())]; if(o.memo) o.memo = nullptr; else o.memo = "x"; } return true;
			case 6: name = "result-input-less"; props = "P50"; if(r.inputs.empty()) return false; { auto& o = r.inputs[rng.below(r.inputs.size())]; if(U(o.amount) < 2) return false; o.amount = W(U(o.amount) - 1); } return true;
			case 7: name = "result-input-dropped"; props = "P50"; if(r.inputs.empty()) return false; r.inputs.erase(r.inputs.begin() + rng.below(r.inputs.size())); return true;
			case 8: name = "result-input-added"; props = "P50 P52"; { txin_t o; o.address = me; o.amount = W(1 + rng.below(1000)); r.inputs.push_back(o); txout_t q; q.address = w.acc[rng.below(8)].addr; q.amount = o.amount; r.outputs.push_back(q); } return true;
			case 9: name = "result-input-other"; props = "P50 P52"; if(r.inputs.empty()) return false; { auto& o = r.inputs[rng.below(r.inputs.size())]; if(o.address == me) return false; o.address = me; } return true;
			case 10: name = "result-cost"; props = "P54"; r.total_cost += rng.chance(1, 2) ? 1 : 1000; return true;
			case 11: name = "result-cost-less"; props = "P54"; r.total_cost -= rng.range(1, 100); return true;
			case 12: name = "result-fee-less"; props = "P54"; r.total_fee -= rng.chance(1, 2) ? 1 : r.total_fee; return true;
			case 13: name = "result-fee-more"; props = "P54"; r.total_fee += rng.range(1, 100); return true;
		}
		return false;
	}
};

struct Case { std::string name, props; std::shared_ptr<Block> block; bool bad_tx = false; };

void run_evil(Check& ck)
{
	int mode = 0; for(auto& a : ck.args) if(a.compare(0, 3, "mix") == 0) mode = atoi(a.c_str() + 3);
	Net N(ck, 57, [&](World& w) { if(mode == 2) { w.params->max_block_size = 1600000; w.params->max_block_cost = 3000000; w.params->max_tx_cost = 320000; } if(mode == 1) { w.params->max_vdf_count = 5; w.params->time_diff_divider = 10; w.params->initial_time_diff = 400; w.params->time_diff_constant = 20; } });
	auto& O = N.O; auto& L = N.L; auto& a = N.a; auto& b = N.b; auto& w = N.w; auto& rng = N.rng; auto& gen = N.gen;
	Tree T(w); T.add(L.blocks[0]);
	Evil E(N, T); E.header_tampers();
	const bool headers = O.on("P62"), txs = O.on("P57 P50 P51 P52 P53 P54");
	const int rounds = ck.n(14, 60);
	auto follow_chain = [&]() { T.pull_points(); for(auto& x : L.blocks) if(!T.find(x->hash)) {
		T.add(x); const auto f = T.faults(*x); ck.eval(); std::string s; for(auto& e : f) s += e + " ";
		for(auto& e : f) O(false, "P62 P60", "adopted:" + e, [&]() { return "block " + std::to_string(x->height) + " made by A breaks: " + s; }); } };
	for(int i = 0; i < 7; ++i) N.step();
	follow_chain();
	size_t next_tamper = rng.below(1000);
	for(int r = 0; r < rounds; ++r) {
		ck.mark("round " + std::to_string(r));
		// honest work
		auto items = gen.round(r < 2 ? 10 : 8, r < 2 ? 0 : r % 4);
		std::map<std::string, Item> extra;		// not given to A
		std::vector<Item> spare;
		for(auto& it : items) { if(r > 1 && (it.expect == FAIL || it.expect == REJECT || rng.chance(1, 2)) && it.kind.compare(0, 4, "trap")) spare.push_back(it); else a.deliver(it.tx); }
		if(txs && r > 1) for(int k = 0; k < 14; ++k) { auto it = k % 7 < 2 ? gen.bad_amounts() : k % 7 < 4 ? gen.steal() : k % 7 == 4 ? gen.expired() : k % 7 == 5 ? gen.wrong_static() : gen.execute(); if(it.tx) spare.push_back(it); }
		a.validate();
		// true results, as of the present state
		std::map<hash_t, exec_result_t> truth;
		for(auto& it : spare) try { auto t = vnx::clone(it.tx); if(t->exec_result) t->reset(w.params); truth[it.tx->id] = a.api->validate(t); } catch(const std::exception& ex) { ck.count("spare_refused"); }
		if(!w.grow(a, {&b})) { ck.count("no_block"); continue; }
		T.pull_points();
		const auto honest = a.api->get_block_at(L.height() + 1);
		if(!honest || a.height() != L.height() + 1) throw std::logic_error("harness: A grew by more than one block");
		{ const auto f = T.faults(*honest); std::string s; for(auto& e : f) s += e + " "; for(auto& e : f) O(false, "P62 P60", "made:" + e, [&]() { return "block " + std::to_string(honest->height) + " made by A breaks: " + s; }); }
		T.add(honest);
		auto fresh = [&]() { auto x = vnx::clone(honest); return x; };

		std::vector<Case> cases;
		if(headers) for(int k = 0; k < 34; ++k) {
			auto& t = E.list[next_tamper++ % E.list.size()];
			Case c; c.name = t.name; c.props = "P62"; c.block = fresh();
			try { if(!t.f(*c.block)) continue; } catch(const std::exception& ex) { fprintf(stderr, "tamper %s: %s\n", t.name.c_str(), ex.what()); throw; }
			bool null = c.block->proof.empty(); for(auto& x : c.block->proof) null |= !x;
			if(!null) w.resign(*c.block); else { if(c.block->proof.empty()) { c.block->hash = c.block->calc_hash(w.params); c.block->content_hash = c.block->calc_content_hash(); } }
			cases.push_back(c);
		}
		if(headers) for(int k = 0; k < 6; ++k) { // signatures and hashes
			Case c; c.props = "P62 P58"; c.block = fresh(); auto& x = *c.block; x.nonce = rng.next(); w.resign(x);
			switch(rng.below(7)) {
				case 0: c.name = "no-signature"; x.farmer_sig = nullptr; x.content_hash = x.calc_content_hash(); break;
				case 1: c.name = "other-signature"; { signature_t s = *x.farmer_sig; s.data()[rng.below(64)] ^= 1 << rng.below(8); x.farmer_sig = s; x.content_hash = x.calc_content_hash(); } break;
				case 2: c.name = "other-signer"; { auto& f = w.farmers[rng.below(3)]; if(f.key.pub == x.proof[0]->farmer_key) continue; x.farmer_sig = signature_t::sign(f.key.skey, x.hash); x.content_hash = x.calc_content_hash(); } break;
				case 3: c.name = "signature-of-other"; x.farmer_sig = honest->farmer_sig; x.content_hash = x.calc_content_hash(); break;
				case 4: c.name = "stale-hash"; { const auto h = x.hash; E.list[rng.below(E.list.size())].f(x); bool null = x.proof.empty(); for(auto& y : x.proof) null |= !y; if(null || x.calc_hash(w.params) == h) continue; x.hash = h; x.farmer_sig = signature_t::sign(w.farmer_by_key(x.proof[0]->farmer_key)->key.skey, h); x.content_hash = x.calc_content_hash(); } break;
				case 5: c.name = "content-hash"; x.content_hash = E.junk(); break;
				case 6: c.name = "honest-hash-other-body"; x = *honest; x.time_stamp += 1; break;		// carries the hash of the honest block
			}
			cases.push_back(c);
		}
		// lies about transactions
		auto with = [&](std::vector<TxPtr> add, bool alone) {
			auto x = fresh(); if(alone) x->tx_list.clear();
			std::set<hash_t> have; for(auto& t : x->tx_list) have.insert(t->id);
			for(auto& t : add) { auto i = x->tx_list.begin(); while(i != x->tx_list.end() && (*i)->fee_ratio >= t->fee_ratio) ++i; x->tx_list.insert(i, t); }
			T.totals(*x); w.resign(*x); return x;
		};
		if(txs) {
			auto put = [&](const std::string& name, const std::string& props, std::vector<TxPtr> add, bool alone = true) {
				if(!O.on(props)) return;
				Case c; c.name = name; c.props = props; c.block = with(add, alone); c.bad_tx = true; cases.push_back(c);
			};
			auto props_of = [](const std::string& k) { const bool auth = !k.compare(0, 5, "steal") || !k.compare(0, 8, "multisig") || !k.compare(0, 6, "forged") || !k.compare(0, 6, "sender"); return std::string(auth ? "P52 P57" : !k.compare(0, 6, "replay") || !k.compare(0, 7, "expired") || k == "bad-network" || k == "bad-version" || k == "wrong-id" ? "P51 P57" : k == "bad-static-cost" || k == "fee-limit-too-low" || k == "bad-fee-ratio" || k == "poor-sender" ? "P54 P57" : !k.compare(0, 4, "exec") || !k.compare(0, 6, "deploy") ? "P53 P57" : "P50 P57"); };
			for(auto& it : spare) {
				const bool alone = rng.chance(2, 3);
				if(it.kind == "malleated") continue;
				if(it.expect == REJECT) {
					auto t = it.tx->exec_result ? vnx::clone(it.tx) : E.pretend(it.tx);
					if(it.kind == "bad-static-cost") { t->static_cost -= 1000; t->content_hash = t->calc_hash(true); }		// (pretending corrects these)
					if(it.kind == "wrong-content-hash") t->content_hash = E.junk();
					put("lie-" + it.kind, props_of(it.kind), {t}, alone); continue;
				}
				if(!truth.count(it.tx->id) || L.txs.count(it.tx->id)) continue;
				auto tr = truth[it.tx->id];
				bool in_block = false; for(auto& t : honest->tx_list) in_block |= t->id == it.tx->id;
				if(in_block) continue;
				auto base = vnx::clone(it.tx); base->exec_result = nullptr;
				if(tr.did_fail) {
					put("lie-" + it.kind, props_of(it.kind) + " P53", {E.pretend(it.tx)}, alone);
					if(rng.chance(1, 3)) { // a failed transaction which pays less, or still moves funds
						auto x = tr; std::string n = "failed-"; std::string pr;
						switch(rng.below(5)) { case 0: x.total_fee -= 1; n += "fee-less"; pr = "P54 P57"; break; case 1: x.total_fee = 0; x.total_cost = 0; n += "free"; pr = "P54 P57"; break;
							case 2: { txout_t o; o.address = w.acc[0].addr; o.amount = 1000; x.outputs.push_back(o); n += "with-output"; pr = "P50 P53 P57"; break; }
							case 3: x.error = nullptr; n += "no-error"; pr = "P57"; break;
							case 4: x.error->code += 1; n += "other-code"; pr = "P57"; break; }
						put(n, pr, {E.seal(vnx::clone(base), x, E.p, w.params)}, alone);
					}
					continue;
				}
				if(rng.chance(1, 4)) put("pretend-failed", "P53 P57", {E.pretend_failed(it.tx, rng.chance(2, 3) ? &tr : nullptr)}, alone);
				for(int k = 0; k < 2; ++k) { auto x = tr; std::string n, pr; if(!E.lie(x, n, pr)) continue; if(n.compare(0, 11, "result-cost") && n.compare(0, 10, "result-fee") && rng.chance(3, 4)) { // cost and fee as if it was true
						const int64_t delta = int64_t(x.calc_cost(w.params)) - int64_t(tr.calc_cost(w.params)); x.total_cost += delta; x.total_fee = uint32_t(std::min<u128>(u128(x.total_cost) * base->fee_ratio / 1024, base->max_fee_amount)); }
					else if(n.compare(0, 11, "result-cost") == 0 && rng.chance(1, 2)) x.total_fee = uint32_t(std::min<u128>(u128(x.total_cost) * base->fee_ratio / 1024, base->max_fee_amount));
					put(n, pr + " P57", {E.seal(vnx::clone(base), x, E.p, w.params)}, alone); }
				if(rng.chance(1, 4)) { auto t = TxPtr(E.seal(vnx::clone(base), tr, E.p, w.params)); put("tx-twice", "P51 P57", {t, t}); }
				if(rng.chance(1, 8)) { auto t = E.seal(vnx::clone(base), tr, E.p, w.params); auto t2 = vnx::clone(t); if(t2->inputs.size()) { t2->inputs[0].flags ^= 4; t2->content_hash = t2->calc_hash(true); put("tx-twice-other-content", "P51 P57", {t, t2}); } }
			}
			// from the chain once more
			if(L.tx_order.size() > 12) for(int k = 0; k < 3; ++k) { const auto& t = L.txs.at(rng.pick(L.tx_order)); if(t.first) put("included-before", "P51 P57", {t.second}); }
			{ auto t = honest->tx_list.size() ? honest->tx_list[rng.below(honest->tx_list.size())] : nullptr; if(t) put("tx-repeated", "P51 P57", {t}, false); }
			// together more than there is
			for(int k = 0; k < 3; ++k) {
				auto& x = gen.any(); const u128 bal = L.balance(x.addr); if(bal < 10 * Gen::FEE_ROOM) continue;
				std::vector<TxPtr> two; const int how = rng.below(3);
				for(int j = 0; j < 2; ++j) {
					auto t = gen.base(x); t->expires = -1; const u128 v = how == 0 ? bal / 2 + 1 : how == 1 ? (j ? 1000 : bal - Gen::FEE_ROOM / 4) : bal / 2;
					txin_t in; in.address = x.addr; in.amount = W(v); in.solution = 0; t->inputs.push_back(in); t->add_output(addr_t(), w.acc[rng.below(8)].addr, W(v)); gen.finish(t, {&x}); two.push_back(E.pretend(t));
				}
				if(how == 1) { // the fee of the second is missing: sum of all is one more than the balance
					u128 fees = 0; for(auto& t : two) fees += t->exec_result->total_fee; auto t = vnx::clone(std::dynamic_pointer_cast<const Transaction>(two[0])); t->exec_result = nullptr; const u128 v = bal - fees - 1000 + 1; t->inputs[0].amount = W(v); t->outputs[0].amount = W(v); gen.finish(t, {&x}); two[0] = E.pretend(t); }
				put("spends-too-much-together", "P50 P54 P57", two);
			}
			{ // money which arrives in the same block
				Account poor = World::account("poor" + std::to_string(rng.below(1000000))); const Account* x = gen.rich(10 * Gen::FEE_ROOM);
				if(x) { auto t1 = gen.base(*x); t1->fee_ratio = 2048; t1->expires = -1; const u128 v = 5 * Gen::FEE_ROOM; txin_t in; in.address = x->addr; in.amount = W(v); in.solution = 0; t1->inputs.push_back(in); t1->add_output(addr_t(), poor.addr, W(v)); gen.finish(t1, {x});
					auto t2 = gen.base(rng.chance(1, 2) ? poor : *x); t2->fee_ratio = 1024; t2->expires = -1; in.address = poor.addr; in.amount = W(v / 2); in.solution = *t2->sender == poor.addr ? 0 : 1; t2->inputs.push_back(in); t2->add_output(addr_t(), x->addr, W(v / 2)); if(*t2->sender == poor.addr) gen.finish(t2, {&poor}); else gen.finish(t2, {x, &poor});
					put("spends-same-block", "P57", {E.pretend(t1), E.pretend(t2)}); }
			}
			if(O.on("P57")) { // order, null, missing results
				auto x = fresh();
				if(x->tx_list.size() > 1 && x->tx_list.front()->fee_ratio != x->tx_list.back()->fee_ratio) { std::swap(x->tx_list.front(), x->tx_list.back()); T.totals(*x); w.resign(*x); cases.push_back({"fee-order", "P57", x}); }
				x = fresh(); if(x->tx_list.size()) { auto t = vnx::clone(x->tx_list[0]); t->exec_result = nullptr; t->static_cost = t->calc_cost(w.params); t->content_hash = t->calc_hash(true); x->tx_list[0] = t; T.totals(*x); w.resign(*x); cases.push_back({"no-result", "P57", x}); }
				x = fresh(); x->tx_list.push_back(nullptr); x->tx_count++; w.resign(*x); cases.push_back({"null-transaction", "P57", x});
				x = fresh(); if(x->tx_list.size()) { auto t = vnx::clone(x->tx_list[0]); t->content_hash = E.junk(); x->tx_list[0] = t; T.totals(*x); w.resign(*x); cases.push_back({"content-hash-of-tx", "P57", x}); }
				x = fresh(); if(x->tx_list.size()) { x->tx_list.erase(x->tx_list.begin() + rng.below(x->tx_list.size())); w.resign(*x); cases.push_back({"tx-removed-only", "P57", x}); }
			}
			if(mode == 2 && O.on("P57 P54")) { // more than a block holds, or too cheap for its size
				std::vector<TxPtr> many; u128 sum = 0; const u128 target = rng.chance(1, 2) ? w.params->max_block_size * 21 / 20 : w.params->max_block_size * rng.range(3, 9) / 10; const uint32_t ratio = rng.chance(1, 2) ? 10240 : 1024;
				for(auto& x : w.acc) for(int k = 0; k < 4 && sum < target; ++k) { auto t = gen.base(x); t->fee_ratio = ratio; t->expires = -1; if(L.balance(x.addr) < 10 * Gen::FEE_ROOM) break; txin_t in; in.address = x.addr; in.amount = 30; in.solution = 0; t->inputs.push_back(in); for(int z = 0; z < 6; ++z) t->add_output(addr_t(), w.acc[z].addr, uint128(5)); gen.finish(t, {&x}); auto q = E.pretend(t); sum += q->static_cost; many.push_back(q); }
				Case c; c.name = "large-block"; c.props = "P57 P54"; c.block = with(many, true); cases.push_back(c);
			}
		}
		for(size_t i = cases.size(); i > 1; --i) std::swap(cases[i - 1], cases[rng.below(i)]);

		// B sees them one by one
		const auto parent = b.peak()->hash;
		std::vector<Case> allowed;
		std::set<hash_t> bad;
		hash_t last = parent;
		auto refused = [&](const Case& c, const std::string& why) {
			const auto pk = b.peak(); const bool moved = !(pk->hash == last); last = pk->hash;
			O(!moved || !bad.count(pk->hash), c.props, "took:" + c.name, [&]() { return "B took a block at height " + std::to_string(c.block->height) + " which breaks a rule (" + c.name + ": " + why + ")"; });
			O(!moved || bad.count(pk->hash), c.props, "left:" + c.name, [&]() { return "B left its peak after a bad block (" + c.name + ")"; });
		};
		for(auto& c : cases) {
			std::vector<std::string> f; bool null = false; for(auto& t : c.block->tx_list) null |= !t;
			try { f = T.faults(*c.block); } catch(const std::exception& ex) { f.push_back(std::string("exception ") + ex.what()); }
			if(f.empty() && !c.bad_tx) { if(c.block->hash == honest->hash) continue; allowed.push_back(c); ck.count("allowed"); continue; }
			std::string why; for(auto& e : f) why += e + " ";
			if(c.block->hash != honest->hash) bad.insert(c.block->hash);
			ck.mark("round " + std::to_string(r) + " case " + c.name + " " + why);
			try { b.deliver(c.block); } catch(const std::exception& ex) { ck.count("deliver_threw"); }
			b.pending(); b.update();
			ck.eval(); ck.count("refused_expected"); ck.count("case:" + c.name); ck.nontrivial(c.name + "/" + why);
			refused(c, why);
			// and what is built upon it
			if(c.bad_tx && rng.chance(1, 4) && !null) {
				T.add(c.block);
				Tree::make_t o; o.vdf_addr = {}; std::vector<std::shared_ptr<const VDF_Point>> pts;
				for(o.count = 1; o.count < 3; ++o.count) if(auto child = T.make(c.block, o, pts)) { for(auto& x : pts) b.deliver(x); b.deliver(child); b.pending(); b.update(); bad.insert(child->hash); Case cc = c; cc.name += "+child"; refused(cc, "built on a bad block"); ck.count("children_of_bad"); break; }
				T.all.erase(c.block->hash);
			}
		}
		// one which is different, but keeps the rules
		BlockPtr expect = honest;
		if(allowed.size()) {
			auto& c = allowed[rng.below(allowed.size())];
			b.deliver(c.block); b.pending(); b.update(); b.update();
			ck.eval(); ck.count("allowed:" + c.name);
			O(b.peak()->hash == c.block->hash, "P60 P62 P57", "refused:" + c.name, [&]() { return "B does not take a block which keeps all rules (" + c.name + "): " + b.last_warn(); });
			if(b.peak()->hash == c.block->hash) {
				T.add(c.block);
				if(rng.chance(1, 3)) { Ledger L2 = L; L2.push(c.block, O); N.aud.balances(b, L2); ck.count("variant_audited"); }
				if(num_lower(c.block->hash, honest->hash)) expect = c.block;
			}
		}
		b.deliver(vnx::clone(honest)); b.pending(); b.update(); b.update();
		O(b.peak()->hash == expect->hash || b.peak()->hash == honest->hash, "P60 P62 P57", "honest-refused", [&]() { return "B does not take the honest block " + std::to_string(honest->height) + " after " + std::to_string(cases.size()) + " bad ones: " + b.last_warn(); });
		O(b.peak()->hash == expect->hash, "P65", "tie", [&]() { return "of two blocks of equal weight and votes B does not keep the one with the lower hash"; });
		L.push(honest, O); ck.count("blocks");
		if(auto x = b.api->get_block(honest->hash)) O(str(*x) == str(*honest), "P62 P58", "body", [&]() { return "B holds another body under the hash of the honest block"; });
		N.aud.balances(a, L);
		if(b.peak()->hash == honest->hash) N.aud.balances(b, L);
		// the next honest block settles it
		N.step(); follow_chain(); N.aud.balances(b, L); b.update();
	}
	ck.max("max_height", L.height()); ck.count("txs", L.tx_order.size());
}

} // nd
