// The rules a block header has to obey, written down a second time; and a maker of blocks on any branch.
#ifndef VERIF_NODE_CHAIN_H_
#define VERIF_NODE_CHAIN_H_
#include "node_model.h"

namespace nd {

inline hash_t H(const std::string& s) { hash_t h; const auto r = ref::sha256(s); ::memcpy(h.data(), r.data(), 32); return h; }
template<typename T> std::string B(const T& x) { return std::string((const char*)x.data(), x.size()); }


inline bool num_lower(const hash_t& a, const hash_t& b) { return ::memcmp(a.data(), b.data(), 32) < 0; }

struct Tree {
	World& w;
	std::map<hash_t, BlockPtr> all;
	std::map<hash_t, std::shared_ptr<const VDF_Point>> points;		// by output
	explicit Tree(World& w_) : w(w_) {}
	const ChainParams& p() const { return *w.params; }
	void add(BlockPtr b) { all[b->hash] = b; }
	void add(std::shared_ptr<const VDF_Point> x) { points[x->output] = x; }
	size_t points_seen = 0;
	void pull_points() { for(; points_seen < w.all_points.size(); ++points_seen) add(w.all_points[points_seen]); }
	BlockPtr find(const hash_t& h) const { auto i = all.find(h); return i != all.end() ? i->second : nullptr; }
	BlockPtr prev(const BlockHeader& b) const { return b.height ? find(b.prev) : nullptr; }
	BlockPtr back(BlockPtr b, uint32_t n) const { while(n-- && b && b->height) b = prev(*b); return b; }

	static hash_t advance(hash_t c, uint32_t n) { while(n--) c = H("next_challenge" + B(c)); return c; }
	// challenge and difficulty which hold at VDF height v on the chain ending with b
	std::pair<hash_t, uint64_t> challenge_at(const BlockHeader& b, int64_t v) const {
		if(v >= int64_t(b.vdf_height)) return {advance(b.challenge, v - b.vdf_height), b.space_diff};
		if(!b.height) { hash_t c = b.challenge; for(int64_t k = b.vdf_height; k > v; --k) c = H("prev_challenge" + B(c)); return {c, b.space_diff}; }
		auto q = prev(b);
		return challenge_at(*q, v);
	}
	// hash infused into, and iterations of, the i-th VDF step after q
	std::pair<hash_t, uint64_t> infusion(BlockPtr q, uint32_t i) const {
		if(i < p().infuse_delay) {
			const int64_t target = std::max<int64_t>(int64_t(q->vdf_height) - (p().infuse_delay - i), 0);
			while(int64_t(q->vdf_height) > target) q = prev(*q);
		}
		return {q->hash, back(q, p().commit_delay)->time_diff / p().time_diff_divider * p().time_diff_constant};
	}
	vnx::optional<addr_t> vdf_winner(const BlockHeader& b) const {
		std::map<addr_t, uint32_t> num;
		BlockPtr q = prev(b); hash_t seed = b.proof_hash;
		for(uint32_t i = 0; i < p().vdf_reward_interval && q; ++i) { for(auto& a : q->vdf_reward_addr) num[a]++; seed = q->proof_hash; q = prev(*q); }
		vnx::optional<addr_t> out; uint32_t most = 0; hash_t best;
		for(auto& e : num) { const auto h = H(B(e.first) + B(seed)); if(e.second > most || (e.second == most && num_lower(h, best))) { out = e.first; most = e.second; best = h; } }
		return out;
	}
	hash_t proof_hash(const ProofOfSpace& x) const {
		std::vector<uint32_t> xs; if(auto q = dynamic_cast<const ProofOfSpaceOG*>(&x)) xs = q->proof_xs; else if(auto q = dynamic_cast<const ProofOfSpaceNFT*>(&x)) xs = q->proof_xs;
		return H(B(x.challenge) + B(H(std::string((const char*)xs.data(), xs.size() * 4))));
	}
	hash_t tx_root(const Block& b) const {
		std::vector<hash_t> v; for(auto& t : b.tx_list) v.push_back(t->content_hash);
		while(v.size() > 1) { std::vector<hash_t> n; for(size_t i = 0; i < v.size(); i += 2) n.push_back(i + 1 < v.size() ? H(B(v[i]) + B(v[i + 1])) : v[i]); v = n; }
		return v.empty() ? hash_t() : v[0];
	}
	uint64_t next_buffer(const BlockHeader& q) const { return q.txfee_buffer - deduction(q.txfee_buffer) + q.tx_fees; }
	static uint64_t deduction(uint64_t buf) { return std::min<uint64_t>(std::max<uint64_t>(buf / 8640, 1000), buf); }
	uint64_t next_base(const BlockHeader& q) const {
		if(q.reward_vote_count < p().reward_adjust_interval / 2) return q.base_reward;
		const int64_t step = std::max<int64_t>(q.base_reward / p().reward_adjust_div, p().reward_adjust_tick);
		int64_t r = q.base_reward; if(q.reward_vote_sum > 0) r += step; if(q.reward_vote_sum < 0) r -= step;
		return std::max<int64_t>(0, std::min<int64_t>(r, 4200000000000ll));
	}
	uint64_t next_space_diff(const BlockHeader& q) const {
		const uint64_t d = q.space_diff;
		if(d >> 48) return d - d / 1024;
		if(!q.space_fork_len) return d;
		const uint64_t exp = uint64_t(q.space_fork_len) * p().avg_proof_count;
		const uint64_t nd = uint64_t(u128(d) * q.space_fork_proofs / exp);
		const uint64_t div = std::max<uint64_t>(16 * p().challenge_interval / q.space_fork_len, 1);
		if(q.space_fork_proofs > exp) return d + std::max<uint64_t>((nd - d) / div, 1);
		const uint64_t adj = std::max<uint64_t>((d - nd) / div, 1);
		return d > adj ? d - adj : 1;
	}
	uint64_t reward(const BlockHeader& b, const BlockHeader& q, u128 fees) const {
		if(b.height < p().reward_activation) return 0;
		const uint64_t ded = deduction(q.txfee_buffer);
		u128 r = q.base_reward + (p().min_reward > ded ? p().min_reward - ded : 0);
		const u128 project = std::min<u128>(p().fixed_project_reward + fees * p().project_ratio.value / p().project_ratio.inverse, fees / 2);
		return uint64_t(r + (fees - std::max<u128>(fees / 2, project)));
	}
	bool forced_fork(const BlockHeader& b, const BlockHeader& q) const { return q.space_fork_len + b.vdf_count > p().max_space_fork_len * p().challenge_interval && b.height >= p().hardfork2_height; }
	hash_t next_challenge(const BlockHeader& b, const BlockHeader& q, bool& fork) const {
		const auto c = advance(q.challenge, b.vdf_count);
		const auto& infuse = b.height >= p().hardfork2_height ? b.proof_chain : b.proof_hash;
		fork = H("proof_infusion_check" + B(c) + B(infuse)).to_uint256() % p().challenge_interval == 0 || forced_fork(b, q);
		return fork ? H("challenge_infusion" + B(c) + B(infuse)) : c;
	}
	hash_t next_proof_chain(const BlockHeader& b, const BlockHeader& q) const { return q.height >= p().hardfork2_height ? H("proof_chain" + B(q.proof_chain) + B(b.proof_hash)) : b.proof_hash; }

	// what is wrong with a proof at VDF height v, if the challenge is c
	std::string proof_fault(const ProofOfSpace& x, const std::pair<hash_t, uint64_t>& c, uint32_t v) const {
		if(!(x.challenge == c.first)) return "proof-challenge";
		if(x.difficulty != c.second || !c.second) return "proof-difficulty";
		uint8_t k = 0; std::vector<uint32_t> xs; hash_t id;
		if(auto q = dynamic_cast<const ProofOfSpaceOG*>(&x)) { k = q->ksize; xs = q->proof_xs; id = H("MMX/PLOTID/OG" + std::string(1, char(k)) + B(q->seed) + B(q->farmer_key)); }
		else if(auto q = dynamic_cast<const ProofOfSpaceNFT*>(&x)) { k = q->ksize; xs = q->proof_xs; id = H("MMX/PLOTID/NFT" + std::string(1, char(k)) + B(q->seed) + B(q->farmer_key) + B(q->contract)); }
		else return "proof-type";
		if(!(id == x.plot_id)) return "proof-plot-id";
		if(k < p().min_ksize || k > p().max_ksize) return "proof-ksize";
		if((H("plot_filter" + B(id) + B(c.first)).to_uint256() >> (256 - p().plot_filter)) != 0) return "proof-filter";
		if(x.score != proof_hash(x).bytes[0]) return "proof-score";
		const auto pc = H("plot_challenge" + B(id) + B(c.first));
		const bool hf = v >= p().hardfork1_height;
		try {
			const auto q = pos::verify(xs, pc, id, p().plot_filter, p().post_filter, k, hf);
			uint256_t val = q.to_uint256(); if(hf) val >>= p().post_filter;
			const uint256_t thr = ((uint256_t(1) << 255) / (uint128_t(c.second) * p().space_diff_constant)) * (2 * k + 1);
			if(!((val >> (k - 1)) < thr)) return "proof-quality";
		} catch(const std::exception& ex) { return "proof-invalid"; }
		return "";
	}

	// which rules block b breaks (those which do not need the state of accounts and contracts)
	std::vector<std::string> faults(const Block& b) const {
		std::vector<std::string> f;
		auto need = [&](bool ok, const char* what) { if(!ok) f.push_back(what); };
		const auto q_ = find(b.prev);
		if(!q_ || !b.height) { f.push_back("prev"); return f; }
		const auto& q = *q_;
		if(b.proof.empty()) { f.push_back("no-proof"); return f; }
		for(auto& x : b.proof) if(!x) { f.push_back("null-proof"); return f; }
		need(b.version == 0, "version");
		need(b.hash == b.calc_hash(w.params), "hash");
		need(b.content_hash == (b.farmer_sig ? H(B(b.hash) + B(*b.farmer_sig)) : H(B(b.hash))), "content-hash");
		need(b.farmer_sig && ref_verify(b.proof[0]->farmer_key, *b.farmer_sig, b.hash), "signature");
		need(b.height == q.height + 1, "height");
		need(b.vdf_count >= 1 && b.vdf_count <= p().max_vdf_count, "vdf-count");
		if(b.vdf_count < 1 || b.vdf_count > 1000) return f;
		need(b.vdf_height == q.vdf_height + b.vdf_count, "vdf-height");
		need(b.vdf_reward_addr.size() == b.vdf_count, "vdf-reward-addr-count");
		{ // VDF
			uint64_t it = q.vdf_iters; std::vector<std::pair<hash_t, uint64_t>> steps;
			for(uint32_t i = 0; i < b.vdf_count; ++i) { steps.push_back(infusion(q_, i)); it += steps.back().second; }
			need(b.vdf_iters == it, "vdf-iters");
			hash_t out = b.vdf_output; bool ok = true, pay = true;
			for(uint32_t i = b.vdf_count; ok && i--;) {
				auto x = points.find(out);
				if(x == points.end() || !(x->second->prev == steps[i].first) || x->second->num_iters != steps[i].second) { ok = false; break; }
				out = x->second->input; if(i >= b.vdf_reward_addr.size() || !(b.vdf_reward_addr[i] == x->second->reward_addr)) pay = false;
			}
			need(ok && out == q.vdf_output, "vdf-output");
			need(!ok || pay, "vdf-reward-addr");
		}
		need(b.time_stamp >= 0 && b.time_stamp - q.time_stamp <= int64_t(b.vdf_count) * p().block_interval_ms * 2 && b.time_stamp - q.time_stamp >= int64_t(b.vdf_count) * p().block_interval_ms / 2, "time-stamp");
		{ const uint64_t lim = std::max<uint64_t>(q.time_diff >> p().max_diff_adjust, 1); const uint64_t d = b.time_diff > q.time_diff ? b.time_diff - q.time_diff : q.time_diff - b.time_diff; need(d <= lim && b.time_diff >= p().time_diff_divider, "time-diff"); }
		// proofs
		need(b.proof.size() <= p().max_proof_count, "proof-count");
		{ std::vector<hash_t> hs; for(auto& x : b.proof) hs.push_back(proof_hash(*x));
			for(size_t i = 1; i < hs.size(); ++i) { need(!num_lower(hs[i], hs[i - 1]), "proof-order"); for(size_t k = 0; k < i; ++k) need(!(hs[i] == hs[k]), "proof-twice"); }
			need(b.proof_hash == hs[0], "proof-hash");
			const auto c = challenge_at(b, int64_t(b.vdf_height) - p().challenge_delay);
			for(auto& x : b.proof) { const auto e = proof_fault(*x, c, b.vdf_height); if(e.size()) f.push_back(e); }
		}
		need(b.proof_chain == next_proof_chain(b, q) || b.height < p().hardfork2_height, "proof-chain");
		bool fork = false; const auto nc = next_challenge(b, q, fork);
		need(b.challenge == nc, "challenge"); need(b.is_space_fork == fork, "is-space-fork");
		need(b.space_diff == (fork ? next_space_diff(q) : q.space_diff), "space-diff");
		need(b.space_fork_len == (fork ? 0 : q.space_fork_len) + b.vdf_count, "space-fork-len");
		need(b.space_fork_proofs == (fork ? 0 : q.space_fork_proofs) + b.proof.size(), "space-fork-proofs");
		need(b.space_fork_len <= p().challenge_interval * 100, "space-fork-too-long");
		const u128 weight = u128((b.vdf_iters - q.vdf_iters) / b.vdf_count / p().time_diff_constant) * b.proof[0]->difficulty * p().avg_proof_count;
		need(U(b.weight) == weight, "weight"); need(U(b.total_weight) == U(q.total_weight) + U(b.weight), "total-weight");
		// rewards
		need(b.reward_vote >= -1 && b.reward_vote <= 1, "reward-vote");
		const bool adj = b.height % p().reward_adjust_interval == 0;
		need(b.base_reward == (adj ? next_base(q) : q.base_reward), "base-reward");
		need(b.reward_vote_sum == (adj ? 0 : q.reward_vote_sum) + b.reward_vote, "vote-sum");
		need(b.reward_vote_count == (adj ? 0 : q.reward_vote_count) + (b.reward_vote ? 1u : 0u), "vote-count");
		need(b.txfee_buffer == next_buffer(q), "txfee-buffer");
		need(b.project_addr == q.project_addr, "project-addr");
		vnx::optional<addr_t> win; if(b.height % p().vdf_reward_interval == 0) win = vdf_winner(b);
		need(bool(win) == bool(b.vdf_reward_payout) && (!win || *win == *b.vdf_reward_payout), "vdf-payout");
		const auto nft = std::dynamic_pointer_cast<const ProofOfSpaceNFT>(b.proof[0]);
		need(nft && b.reward_addr ? b.reward_contract && *b.reward_contract == nft->contract : !b.reward_contract, "reward-contract");
		// totals
		u128 fees = 0, cost = 0, size = 0; bool whole = true;
		for(auto& t : b.tx_list) { if(!t || !t->exec_result) { whole = false; continue; } fees += t->exec_result->total_fee; cost += t->exec_result->total_cost; size += t->static_cost; if(!(t->content_hash == t->calc_hash(true))) whole = false; }
		need(whole, "transactions");
		if(whole) { need(b.tx_hash == tx_root(b), "tx-hash"); need(b.tx_fees == fees, "tx-fees"); need(b.total_cost == cost, "total-cost"); need(b.static_cost == size, "static-cost"); }
		need(b.tx_count == b.tx_list.size(), "tx-count");
		need(b.tx_list.empty() || b.height >= p().transaction_activation, "not-activated");
		need(size <= p().max_block_size && cost <= p().max_block_cost, "block-size");
		need(b.reward_addr ? b.reward_amount == reward(b, q, fees) : !b.reward_amount, "reward-amount");
		uint64_t ratio = ~0ull; std::set<hash_t> ids;
		for(auto& t : b.tx_list) if(t) { need(t->fee_ratio <= ratio, "fee-order"); ratio = t->fee_ratio; need(ids.insert(t->id).second, "tx-repeated"); need(bool(t->sender), "no-sender"); }
		if(const size_t N = p().min_fee_ratio.size()) { // the cheapest fill the lowest bands
			u128 total = 0; size_t band = 0;
			for(auto i = b.tx_list.rbegin(); i != b.tx_list.rend(); ++i) if(*i) { total += (*i)->static_cost; while(band < N && total > u128(band + 1) * p().max_block_size / N) band++; if(band >= N) { f.push_back("block-size"); break; } need((*i)->fee_ratio >= u128(p().min_fee_ratio[band]) * 1024, "fee-band"); }
		}
		return f;
	}

	// fills in all that follows from the previous block and the given parts, and signs
	void derive(Block& b, bool sign = true) {
		const auto q_ = find(b.prev); const auto& q = *q_;
		b.version = 0; b.height = q.height + 1; b.vdf_height = q.vdf_height + b.vdf_count;
		b.vdf_iters = q.vdf_iters; for(uint32_t i = 0; i < b.vdf_count; ++i) b.vdf_iters += infusion(q_, i).second;
		b.project_addr = q.project_addr; b.txfee_buffer = next_buffer(q);
		std::vector<std::pair<hash_t, std::shared_ptr<const ProofOfSpace>>> ps; for(auto& x : b.proof) ps.emplace_back(proof_hash(*x), x);
		std::sort(ps.begin(), ps.end(), [](auto& l, auto& r) { return num_lower(l.first, r.first); });
		b.proof.clear(); for(auto& e : ps) b.proof.push_back(e.second);
		b.proof_hash = ps[0].first; b.proof_chain = next_proof_chain(b, q);
		bool fork = false; b.challenge = next_challenge(b, q, fork); b.is_space_fork = fork;
		b.space_diff = fork ? next_space_diff(q) : q.space_diff; b.space_fork_len = (fork ? 0 : q.space_fork_len) + b.vdf_count; b.space_fork_proofs = (fork ? 0 : q.space_fork_proofs) + b.proof.size();
		b.weight = W(u128((b.vdf_iters - q.vdf_iters) / b.vdf_count / p().time_diff_constant) * b.proof[0]->difficulty * p().avg_proof_count); b.total_weight = W(U(q.total_weight) + U(b.weight));
		const bool adj = b.height % p().reward_adjust_interval == 0;
		b.base_reward = adj ? next_base(q) : q.base_reward; b.reward_vote_sum = (adj ? 0 : q.reward_vote_sum) + b.reward_vote; b.reward_vote_count = (adj ? 0 : q.reward_vote_count) + (b.reward_vote ? 1 : 0);
		b.vdf_reward_payout = nullptr; if(b.height % p().vdf_reward_interval == 0) b.vdf_reward_payout = vdf_winner(b);
		b.reward_contract = nullptr; if(b.reward_addr) if(auto n = std::dynamic_pointer_cast<const ProofOfSpaceNFT>(b.proof[0])) b.reward_contract = n->contract;
		totals(b);
		if(sign) w.resign(b);
	}
	void totals(Block& b) {
		b.static_cost = b.total_cost = b.tx_fees = 0;
		for(auto& t : b.tx_list) if(t) { b.static_cost += t->static_cost; if(t->exec_result) { b.total_cost += t->exec_result->total_cost; b.tx_fees += t->exec_result->total_fee; } }
		b.tx_count = b.tx_list.size(); bool null = false; for(auto& t : b.tx_list) null |= !t; if(!null) b.tx_hash = tx_root(b);
		b.reward_amount = b.reward_addr ? reward(b, *find(b.prev), b.tx_fees) : 0;
	}

	struct make_t {
		uint32_t count = 1; std::set<int> who; size_t max_proofs = 3; int64_t delta_ms = 10000; int time_diff = 0; int vote = 0; vnx::optional<addr_t> reward; bool no_reward = false;
		std::vector<TxPtr> txs; std::vector<addr_t> vdf_addr; uint64_t salt = 0;
	};
	// a block which obeys the rules, on any block of the tree; its VDF points go to `out`. Null if nobody has a proof at that height.
	std::shared_ptr<Block> make(BlockPtr q, const make_t& o, std::vector<std::shared_ptr<const VDF_Point>>& out) {
		auto b = Block::create();
		b->prev = q->hash; b->height = q->height + 1; b->vdf_count = o.count; b->vdf_height = q->vdf_height + o.count; b->challenge = q->challenge; b->space_diff = q->space_diff;
		// the challenge may lie in the part which is not yet decided by this block, but its own infusion acts only later
		std::pair<hash_t, uint64_t> c;
		{ const int64_t v = int64_t(b->vdf_height) - p().challenge_delay; c = v >= int64_t(q->vdf_height) ? std::make_pair(advance(q->challenge, v - q->vdf_height), q->space_diff) : challenge_at(*q, v); }
		auto ch = Challenge::create(); ch->vdf_height = b->vdf_height; ch->challenge = c.first; ch->difficulty = c.second;
		const auto keep = w.max_proofs; w.max_proofs = o.max_proofs; const auto rs = w.farm(*ch, o.who); w.max_proofs = keep;
		if(rs.empty()) return nullptr;
		for(auto& r : rs) b->proof.push_back(r->proof);
		hash_t in = q->vdf_output; uint64_t it = q->vdf_iters;
		for(uint32_t i = 0; i < o.count; ++i) {
			const auto inf = infusion(q, i);
			IntervalRequest req; req.vdf_height = q->vdf_height + i + 1; req.start = it; req.end = it + inf.second; req.infuse = inf.first;
			const addr_t a = i < o.vdf_addr.size() ? o.vdf_addr[i] : w.acc[3 + w.rng.below(2)].addr;
			auto pt = w.point(req, in, a); out.push_back(pt); add(pt); in = pt->output; it = req.end; b->vdf_reward_addr.push_back(a);
		}
		b->vdf_output = in;
		b->time_stamp = q->time_stamp + o.delta_ms; b->time_diff = q->time_diff + o.time_diff; b->reward_vote = o.vote; b->nonce = w.rng.next() + o.salt; b->support_flags = 3;
		std::sort(b->proof.begin(), b->proof.end(), [this](auto& l, auto& r) { return num_lower(proof_hash(*l), proof_hash(*r)); });
		if(!o.no_reward) { b->reward_addr = o.reward ? *o.reward : w.farmer_by_key(b->proof[0]->farmer_key)->reward; }
		b->tx_list = o.txs;
		derive(*b);
		return b;
	}
};

} // nd
#endif
