// Nodes which hear of several branches, in any order, some of them restarted: they have to agree on the chain, and their state has to be what that chain means.
#include "node_net.h"
#include "trace.h"
namespace nd {

struct Forks {
	Check& ck; Oracle O; World w; Rng rng; Tree T; Auditor aud;
	std::vector<std::unique_ptr<NodeBox>> boxes;
	std::vector<std::unique_ptr<Ledger>> led;		// of the makers
	std::vector<std::unique_ptr<Gen>> gen;
	std::map<hash_t, std::shared_ptr<Block>> full;
	std::vector<std::shared_ptr<const VDF_Point>> made_points;		// for blocks which no node made
	Forks(Check& c, const std::function<void(World&)>& tune) : ck(c), O(c), w(c, 90), rng(c.rng(91)), T(w), aud(O, w) {
		if(O.on("P55")) { O.want.insert("P50"); O.want.insert("P61"); O.want.insert("P53"); }
		tune(w); w.make_plots(12);
	}
	NodeBox& box(size_t i) { return *boxes[i]; }

	std::unique_ptr<Ledger> ledger_at(const hash_t& h) {
		std::vector<BlockPtr> v; for(auto b = T.find(h); b; b = T.prev(*b)) v.push_back(b);
		auto L = std::make_unique<Ledger>(w.params); Oracle quiet(ck); quiet.want = {"P00"};
		for(auto i = v.rbegin(); i != v.rend(); ++i) L->push(*i, quiet);
		return L;
	}
	std::string dump(NodeBox& n, const addr_t& c) {
		std::ostringstream o; for(auto& e : n.api->dump_storage(c, -1)) o << e.first << "=" << vm::to_string(e.second.get()) << ";"; return o.str();
	}
	// everything a node says about its chain, in one text
	std::string state(NodeBox& n, const Ledger& L) {
		std::ostringstream o; auto& api = *n.api;
		std::set<addr_t> as; for(auto& e : L.bal) as.insert(e.first.first); for(auto& e : L.contracts) as.insert(e.first);
		const std::vector<addr_t> list(as.begin(), as.end());
		for(auto& e : api.get_all_balances(list, {}, -1)) o << S(e.first.first) << S(e.first.second) << "=" << S(U(e.second)) << "\n";
		query_filter_t f; for(auto& e : api.get_history(list, f)) o << str(e) << "\n";
		for(auto& e : L.contracts) { o << S(e.first) << " "; if(auto c = api.get_contract(e.first)) o << str(*c); if(std::dynamic_pointer_cast<const contract::Executable>(e.second.contract)) o << dump(n, e.first); for(auto& x : api.get_exec_history(e.first, -1, false)) o << str(x); o << "\n"; }
		for(uint32_t h = 0; h <= L.height(); ++h) { o << api.get_header_at(h)->hash.to_string() << " "; for(auto& t : api.get_tx_ids_at(h)) o << t.to_string(); o << "\n"; }
		for(auto& a : w.acc) for(auto& e : api.get_contracts_owned_by({a.addr}, nullptr)) o << S(e);
		for(auto& e : api.get_swaps(0, vnx::optional<addr_t>(), vnx::optional<addr_t>(), -1)) o << str(e) << "\n";
		for(auto& e : api.get_offers(0, false)) o << str(e) << "\n";
		for(auto& e : api.get_recent_offers(-1, false)) o << str(e) << "\n";
		for(auto& e : api.get_trade_history(-1, 0)) o << str(e) << "\n";
		for(auto& fa : w.farmers) o << str(api.get_farmed_block_summary({fa.key.pub}, 0));
		{ std::map<std::string, uint32_t> r; for(auto& e : api.get_farmer_ranking(-1)) if(e.second) r[e.first.to_string()] += e.second; for(auto& e : r) o << e.first << e.second << " "; }		// (equal ranks in any order)
		return o.str();
	}
	template<typename T_> static std::string str(const T_& x) { std::ostringstream o; vnx::PrettyPrinter p(o); x.accept(p); return o.str(); }

	void give(NodeBox& n, const std::vector<BlockPtr>& blocks, bool in_order) {
		std::vector<std::shared_ptr<const vnx::Value>> v;
		for(auto& p : w.all_points) v.push_back(p);
		for(auto& p : made_points) v.push_back(p);
		if(v.size() > 120) v.erase(v.begin(), v.end() - 120);
		if(!in_order) for(auto& b : blocks) v.push_back(b);
		for(size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[rng.below(i)]);
		if(in_order) for(auto& b : blocks) v.push_back(b);
		for(auto& x : v) { n.deliver(x); if(rng.chance(1, 12)) { n.pending(); n.update(); } }
		n.pending();
	}
	void settle(NodeBox& n) { hash_t last; for(int i = 0; i < 12; ++i) { n.pending(); n.update(); const auto h = n.peak()->hash; if(h == last) break; last = h; } }
	BlockPtr best_of(const std::vector<BlockPtr>& v) { BlockPtr r; for(auto& b : v) if(!r || b->height > r->height || (b->height == r->height && num_lower(b->hash, r->hash))) r = b; return r; }
};

void run_forks(Check& ck)
{
	int mode = 0; for(auto& a : ck.args) if(a.compare(0, 3, "mix") == 0) mode = atoi(a.c_str() + 3);
	Forks F(ck, [&](World& w) { if(mode == 2) w.params->max_vdf_count = 5; });
	auto& O = F.O; auto& w = F.w; auto& rng = F.rng; auto& T = F.T;
	const size_t makers = 2, nodes = 4;
	for(size_t i = 0; i < nodes; ++i) { F.boxes.emplace_back(new NodeBox(w, std::string(1, char('A' + i)), ck.scratch + "/n" + std::to_string(i))); if(!F.box(i).start()) { fprintf(stderr, "start failed: %s\n", F.box(i).error.c_str()); exit(77); } }
	T.add(F.box(0).api->get_block_at(0));
	for(size_t i = 0; i < makers; ++i) { F.led.emplace_back(new Ledger(w.params)); F.led[i]->push(T.all.begin()->second, O); F.gen.emplace_back(new Gen(w, *F.led[i], 92 + i)); }
	auto all_agree = [&](const std::string& when, const hash_t& expect, const Ledger& L, bool deep) {
		for(auto& n : F.boxes) {
			const auto pk = n->peak();
			O(pk->hash == expect, "P65", std::string(deep ? "deep-" : "") + "choice", [&]() { return n->name + " " + when + " stands at height " + std::to_string(pk->height) + " hash " + S(pk->hash) + " instead of height " + std::to_string(L.height()) + " hash " + S(expect) + ": " + n->last_warn(); });
			ck.eval();
			if(pk->hash == expect) {
				F.aud.balances(*n, L); F.aud.queries(*n, L, rng, 4);
			}
		}
	};
	auto grow = [&](size_t m) {
		auto& n = F.box(m); const auto h0 = n.height();
		if(!w.grow(n)) return false;
		T.pull_points();
		for(uint32_t h = h0 + 1; h <= n.height(); ++h) { auto b = n.api->get_block_at(h); T.add(b); F.led[m]->push(b, O); ck.count("blocks"); ck.count("txs", b->tx_list.size()); }
		return true;
	};
	// common start
	for(int k = 0; k < 8; ++k) {
		if(!grow(0)) continue;
		auto b = T.find(F.box(0).peak()->hash);
		for(size_t i = 1; i < nodes; ++i) { F.give(F.box(i), {b}, true); F.settle(F.box(i)); }
		F.led[1]->push(b, O);
	}
	std::string ref;
	const int rounds = ck.n(12, 40);
	for(int r = 0; r < rounds; ++r) {
		const bool deep = mode == 1 && r % 2;
		const auto base = T.find(F.box(0).peak()->hash);
		ck.mark("round " + std::to_string(r) + " from height " + std::to_string(base->height));
		// transactions, some of which go to both sides
		std::vector<BlockPtr> branch[2];
		std::map<hash_t, TxPtr> sent[2];
		size_t len[2] = {size_t(rng.range(1, 4)), size_t(rng.range(1, 4))};
		if(deep) { len[0] = rng.range(7, 9); len[1] = len[0] + rng.range(2, 4); if(rng.chance(1, 2)) std::swap(len[0], len[1]); }
		for(size_t m = 0; m < makers; ++m) {
			std::set<int> who; if(rng.chance(1, 2)) { who.insert(rng.below(3)); who.insert(rng.below(3)); } w.active = who;
			for(size_t k = 0; k < len[m] * 3 && branch[m].size() < len[m]; ++k) {
				for(auto& it : F.gen[m]->round(deep ? 3 : 9, 0)) { F.box(m).deliver(it.tx); sent[m][it.tx->id] = it.tx; if(rng.chance(1, 4)) { F.box(1 - m).deliver(it.tx); } if(rng.chance(1, 4)) F.box(2).deliver(it.tx); }
				for(auto& n : F.boxes) n->validate();
				if(grow(m)) branch[m].push_back(T.find(F.box(m).peak()->hash));
			}
			w.active.clear();
		}
		// further blocks nobody expected, on any block of this round
		std::vector<BlockPtr> extra;
		if(!deep) for(int k = rng.below(4); k--;) {
			std::vector<BlockPtr> on = extra; on.push_back(base); for(auto& v : branch) on.insert(on.end(), v.begin(), v.end());
			auto q = rng.pick(on); if(q->height > base->height + 4) continue;
			Tree::make_t o; o.delta_ms = rng.range(6000, 19000); o.max_proofs = rng.range(1, 3); o.vote = int(rng.below(3)) - 1;
			for(o.count = 1; o.count <= w.params->max_vdf_count; ++o.count) { o.delta_ms = 10000 * o.count; std::vector<std::shared_ptr<const VDF_Point>> pts; if(auto b = T.make(q, o, pts)) { T.add(b); F.made_points.insert(F.made_points.end(), pts.begin(), pts.end()); extra.push_back(b); ck.count("extra_blocks"); break; } }
		}
		std::vector<BlockPtr> all = extra; for(auto& v : branch) all.insert(all.end(), v.begin(), v.end());
		if(all.empty()) continue;
		auto expect = F.best_of(all);
		// who hears what in which order
		size_t ci = 0;
		for(auto& n : F.boxes) {
			auto v = all; if(rng.chance(1, 4)) { auto more = all; v.insert(v.end(), more.begin(), more.end()); }
			bool ordered = deep || rng.chance(1, 3);
			if(ordered) std::stable_sort(v.begin(), v.end(), [](auto& l, auto& r) { return l->height < r->height; });
			if(ci >= makers && rng.chance(1, 2)) { // hears one branch first, then the others
				const size_t s = rng.below(2); F.give(*n, branch[s], true); F.settle(*n); ck.count("branch_first");
				if(branch[s].size()) { const auto L1 = F.ledger_at(n->peak()->hash); F.aud.balances(*n, *L1); if(!deep) O(n->peak()->hash == branch[s].back()->hash, "P65", "branch", [&]() { return n->name + " does not follow the only branch it knows: " + n->last_warn(); }); }
			}
			if(ci >= makers && rng.chance(1, 3)) { // restarted in between
				const auto before = n->peak()->hash; n->close(); if(!n->start()) { O(false, "P55 P56", "restart", [&]() { return n->name + " does not start again: " + n->error; }); return; }
				n->pending(); n->update(); ck.count("restarts");
				O(n->peak()->hash == before, "P55 P56", "restart-peak", [&]() { return n->name + " stands at height " + std::to_string(n->height()) + " after a restart, which is not where it stopped"; });
				const auto L1 = F.ledger_at(n->peak()->hash); F.aud.balances(*n, *L1); F.aud.queries(*n, *L1, rng, 3);
			}
			F.give(*n, v, ordered); F.settle(*n);
			if(!deep && !(n->peak()->hash == expect->hash)) { F.give(*n, v, true); F.settle(*n); ck.count("given_again"); }
			++ci;
		}
		if(deep) { F.settle(F.box(0)); }
		const auto L = F.ledger_at(expect->hash);
		size_t moved = 0; for(size_t m = 0; m < makers; ++m) if(branch[m].size() && !(branch[m].back()->hash == expect->hash)) moved++;
		ck.count("reorgs", moved); ck.nontrivial("fork " + std::to_string(branch[0].size()) + "/" + std::to_string(branch[1].size()) + "/" + std::to_string(extra.size()) + "/" + std::to_string(moved) + "/" + expect->hash.to_string().substr(0, 6));
		all_agree("after round " + std::to_string(r), expect->hash, *L, deep);
		// transactions of blocks which were undone
		for(size_t m = 0; m < makers; ++m) for(auto& e : F.gen[m]->deployed) F.gen[1 - m]->deployed.insert(e);
		for(size_t m = 0; m < makers; ++m) { *F.led[m] = *L; auto& n = F.box(m); std::lock_guard<std::mutex> lock(n.m); n.intervals.clear(); n.challenges.clear(); }
		for(size_t m = 0; m < makers; ++m) F.box(m).update();
		if(!deep && O.on("P66")) {
			const size_t m = rng.below(2);
			std::map<hash_t, TxPtr> undone; std::set<hash_t> line; for(auto b = expect; b && b->height > base->height; b = T.prev(*b)) for(auto& t : b->tx_list) line.insert(t->id);
			for(auto& b : branch[m]) for(auto& t : b->tx_list) if(!line.count(t->id) && !t->did_fail()) undone[t->id] = t;
			for(auto i = undone.begin(); i != undone.end();) { bool fine = false; try { auto t = vnx::clone(i->second); t->reset(w.params); fine = !F.box(m).api->validate(t).did_fail && t->expires > base->height + 20; } catch(...) {} if(!fine) i = undone.erase(i); else ++i; }
			F.box(m).validate();
			if(undone.size() && grow(m)) {
				auto b = T.find(F.box(m).peak()->hash); std::set<hash_t> in; for(auto& t : b->tx_list) in.insert(t->id);
				ck.count("undone_txs", undone.size());
				std::map<addr_t, int> senders; for(auto& e : undone) senders[*e.second->sender]++;
				for(auto& e : undone) O(in.count(e.first) || senders[*e.second->sender] > 1, "P66", "undone-lost", [&]() { return "a transaction of a block which was undone is still valid, but not in the next block (height " + std::to_string(b->height) + ")"; });
				for(size_t i = 0; i < nodes; ++i) if(i != m) { F.give(F.box(i), {b}, true); F.settle(F.box(i)); }
				*F.led[1 - m] = *F.led[m];
				all_agree("one later", b->hash, *F.led[m], false);
			}
		}
		const auto LL = F.ledger_at(F.box(0).peak()->hash);
		// all say the same about everything
		if(r % 2 == 0 || r + 1 == rounds) {
			const auto want = F.state(F.box(0), *LL);
			for(size_t i = 1; i < nodes; ++i) if(F.box(i).peak()->hash == F.box(0).peak()->hash) { const auto s = F.state(F.box(i), *LL); ck.eval(); O(s == want, "P55", "state-differs", [&]() { size_t k = 0; while(k < s.size() && k < want.size() && s[k] == want[k]) ++k; return "two nodes on the same chain (height " + std::to_string(LL->height()) + ") tell different things: ..." + want.substr(k > 80 ? k - 80 : 0, 160) + " / " + s.substr(k > 80 ? k - 80 : 0, 160); }); }
		}
	}
	// one which never saw anything but the chain
	{
		NodeBox fresh(w, "Z", ck.scratch + "/z"); if(!fresh.start()) { fprintf(stderr, "start failed: %s\n", fresh.error.c_str()); exit(77); }
		std::vector<BlockPtr> line; for(auto b = T.find(F.box(0).peak()->hash); b && b->height; b = T.prev(*b)) line.push_back(b);
		for(auto i = line.rbegin(); i != line.rend(); ++i) {
			hash_t out = (*i)->vdf_output; for(uint32_t k = 0; k < (*i)->vdf_count; ++k) { auto p = T.points.find(out); if(p == T.points.end()) break; fresh.deliver(p->second); out = p->second->input; }
			fresh.deliver(*i); F.settle(fresh);
		}
		const auto L = F.ledger_at(F.box(0).peak()->hash);
		O(fresh.peak()->hash == L->blocks.back()->hash, "P55 P65", "fresh", [&]() { return "a fresh node does not take the chain: stands at height " + std::to_string(fresh.height()) + " of " + std::to_string(L->height()) + ": " + fresh.last_warn(); });
		if(fresh.peak()->hash == L->blocks.back()->hash) {
			const auto want = F.state(fresh, *L); ck.count("state_bytes", want.size());
			F.aud.balances(fresh, *L);
			for(auto& n : F.boxes) { const auto s = F.state(*n, *L); ck.eval(); O(s == want, "P55", "state-history", [&]() { size_t k = 0; while(k < s.size() && k < want.size() && s[k] == want[k]) ++k; return "a node which went through forks tells something else than one which only saw the chain: ..." + want.substr(k > 80 ? k - 80 : 0, 160) + " / " + s.substr(k > 80 ? k - 80 : 0, 160); }); }
		}
		ck.max("max_height", L->height());
	}
}


// Votes of validators decide between branches; nothing else may count as a vote.
void run_votes(Check& ck)
{
	int mode = 0; for(auto& a : ck.args) if(a.compare(0, 3, "mix") == 0) mode = atoi(a.c_str() + 3);
	Forks F(ck, [&](World& w) { if(mode == 1) { w.params->max_vdf_count = 5; w.params->max_validators = 2; } });
	auto& O = F.O; auto& w = F.w; auto& rng = F.rng; auto& T = F.T;
	F.boxes.emplace_back(new NodeBox(w, "A", ck.scratch + "/a")); F.boxes.emplace_back(new NodeBox(w, "B", ck.scratch + "/b"));
	for(auto& n : F.boxes) if(!n->start()) { fprintf(stderr, "start failed: %s\n", n->error.c_str()); exit(77); }
	T.add(F.box(0).api->get_block_at(0));
	auto grow = [&]() { w.active.clear(); if(rng.chance(2, 3)) { w.active.insert(rng.below(3)); if(rng.chance(1, 2)) w.active.insert(rng.below(3)); } const bool ok = w.grow(F.box(0)); w.active.clear(); if(!ok) return; T.pull_points(); auto b = F.box(0).api->get_block_at(F.box(0).height()); T.add(b); F.give(F.box(1), {b}, true); F.settle(F.box(1)); };
	for(int k = 0; k < 12; ++k) grow();
	std::map<hash_t, hash_t> best;		// challenge -> best proof heard of
	auto vote = [&](const hash_t& block, const Account& k, int how) {
		auto v = ValidatorVote::create(); v->hash = block; v->farmer_key = k.pub; v->farmer_sig = signature_t::sign(k.skey, hash_t("MMX/validator/vote/" + v->hash + v->farmer_key));
		if(how == 1) { signature_t s = v->farmer_sig; s.data()[rng.below(64)] ^= 1 << rng.below(8); v->farmer_sig = s; }
		if(how == 2) v->farmer_sig = signature_t::sign(k.skey, v->hash);
		if(how == 3) v->farmer_sig = signature_t::sign(w.acc[0].skey, hash_t("MMX/validator/vote/" + v->hash + v->farmer_key));
		v->content_hash = v->calc_content_hash();
		if(how == 4) v->content_hash = hash_t("other");
		return v;
	};
	auto validators = [&](BlockPtr b) { std::set<std::string> s; BlockPtr q = b; for(uint32_t k = 0; k < w.params->commit_delay && q; ++k) q = q->height ? T.prev(*q) : nullptr; for(; q && s.size() < w.params->max_validators; q = q->height ? T.prev(*q) : nullptr) if(q->proof.size()) s.insert(B(q->proof[0]->farmer_key)); return s; };
	const int rounds = ck.n(24, 150);
	for(int r = 0; r < rounds; ++r) {
		auto& n = F.box(r % 2);
		const auto base = T.find(n.peak()->hash);
		ck.mark("round " + std::to_string(r) + " at height " + std::to_string(base->height));
		// a small tree of blocks
		std::vector<BlockPtr> all; std::vector<std::shared_ptr<const VDF_Point>> pts;
		for(int k = 0, want = rng.range(2, 6); k < 20 && int(all.size()) < want; ++k) {
			auto q = all.size() && rng.chance(1, 3) ? rng.pick(all) : base; if(q->height > base->height + 2) continue;
			Tree::make_t o; o.max_proofs = rng.range(1, 2); if(rng.chance(2, 3)) o.who.insert(rng.below(3));
			for(o.count = 1 + rng.below(2); o.count <= w.params->max_vdf_count; ++o.count) { o.delta_ms = 10000 * o.count; auto b = T.make(q, o, pts); if(!b) continue; T.add(b); all.push_back(b); break; }
		}
		if(all.empty()) { grow(); continue; }
		// best proofs, as far as the node knows them
		for(auto& b : all) { auto& h = best[b->proof[0]->challenge]; if(h == hash_t() || num_lower(b->proof_hash, h)) h = b->proof_hash; }
		std::vector<std::shared_ptr<const ProofResponse>> known;
		if(rng.chance(1, 3)) { // a proof without a block: better ones than it get no less votes
			auto b = rng.pick(all); auto x = World::remote(w.response(b->proof[0], b->vdf_height)); known.push_back(x); }
		// votes
		std::vector<std::shared_ptr<const vnx::Value>> votes; std::map<hash_t, std::set<std::string>> counts;
		std::vector<Account> outsiders; for(int k = 0; k < 4; ++k) outsiders.push_back(World::account("out" + std::to_string(k)));
		for(auto& b : all) {
			const auto vs = validators(b);
			if(rng.chance(1, 4)) continue;
			for(auto& f : w.farmers) if(rng.chance(1, 2)) { const int how = rng.chance(1, 3) ? 1 + rng.below(4) : 0; const bool twice = rng.chance(1, 3); for(int k = 0; k < 1 + twice; ++k) votes.push_back(vote(b->hash, f.key, how)); if(!how && vs.count(B(f.key.pub)) && best[b->proof[0]->challenge] == b->proof_hash) counts[b->hash].insert(B(f.key.pub)); ck.count(how ? "votes_forged" : vs.count(B(f.key.pub)) ? "votes_valid" : "votes_not_validator"); }
			for(auto& x : outsiders) if(rng.chance(1, 3)) { votes.push_back(vote(b->hash, x, 0)); ck.count("votes_outsider"); }
		}
		if(rng.chance(1, 4)) votes.push_back(vote(hash_t("unknown"), w.farmers[0].key, 0));
		for(size_t i = votes.size(); i > 1; --i) std::swap(votes[i - 1], votes[rng.below(i)]);
		for(auto& x : pts) n.deliver(x);
		const bool first = rng.chance(1, 2);
		if(first) for(auto& x : votes) n.deliver(x);		// before anything is known about the blocks
		for(auto& b : all) n.deliver(b);
		for(auto& x : known) n.deliver(x);
		n.pending();
		if(!first) { n.update(); for(auto& x : votes) n.deliver(x); n.pending(); }
		F.settle(n);
		// what has to come out
		auto total = [&](BlockPtr b) { size_t s = 0; for(auto q = b; q && q->height > base->height; q = T.prev(*q)) s += counts[q->hash].size(); return s; };
		BlockPtr expect; for(auto& b : all) { if(!expect) { expect = b; continue; } const auto x = std::make_pair(total(b), b->height), y = std::make_pair(total(expect), expect->height); if(x > y || (x == y && num_lower(b->hash, expect->hash))) expect = b; }
		ck.eval(); ck.nontrivial("v" + std::to_string(all.size()) + "/" + std::to_string(votes.size()) + "/" + std::to_string(total(expect)) + "/" + std::to_string(expect->height - base->height) + "/" + S(expect->hash));
		const auto pk = n.peak();
		O(pk->hash == expect->hash, "P65", "votes", [&]() { auto g = T.find(pk->hash); return n.name + " chose a block at height " + std::to_string(pk->height) + " with " + (g ? std::to_string(total(g)) : "?") + " votes, not the one at height " + std::to_string(expect->height) + " with " + std::to_string(total(expect)) + " (of " + std::to_string(all.size()) + " blocks on height " + std::to_string(base->height) + "): " + n.last_warn(); });
		if(!(T.find(pk->hash))) throw std::logic_error("harness: unknown peak");
		// the other one hears of it, too
		auto& m = F.box((r + 1) % 2);
		for(auto& x : pts) m.deliver(x);
		for(auto& b : all) m.deliver(b);
		for(auto& x : known) m.deliver(x);
		m.pending(); m.update(); for(auto& x : votes) m.deliver(x); m.pending(); F.settle(m);
		O(m.peak()->hash == n.peak()->hash, "P65", "votes-differ", [&]() { return "two nodes with the same blocks and votes stand on different ones"; });
		for(auto& x : F.boxes) { x->update(); std::lock_guard<std::mutex> lock(x->m); x->intervals.clear(); x->challenges.clear(); }
		for(auto& x : F.boxes) x->update();
		ck.count("trees"); ck.count("tree_blocks", all.size());
		if(rng.chance(1, 3)) grow();
	}
	const auto L = F.ledger_at(F.box(0).peak()->hash); for(auto& x : F.boxes) if(x->peak()->hash == L->blocks.back()->hash) F.aud.balances(*x, *L);
	ck.max("max_height", F.box(0).height());
}


// A node whose process ends at any file operation starts again on a block it had, in the state that block means, and goes on from there.
void run_crash(Check& ck)
{
	int mode = 0; for(auto& a : ck.args) if(a.compare(0, 3, "mix") == 0) mode = atoi(a.c_str() + 3);
	Forks F(ck, [](World&) {});
	auto& O = F.O; auto& w = F.w; auto& rng = F.rng; auto& T = F.T;
	if(O.on("P56")) { O.want.insert("P50"); O.want.insert("P61"); }
	DirTrace trace; trace.cut = ck.rng(95);
	vnx::g_fs_hook = &trace;
	F.boxes.emplace_back(new NodeBox(w, "M", ck.scratch + "/m")); F.boxes.emplace_back(new NodeBox(w, "S", ck.scratch + "/s")); F.boxes.emplace_back(new NodeBox(w, "V", ck.scratch + "/v"));
	for(auto& n : F.boxes) if(!n->start()) { fprintf(stderr, "start failed: %s\n", n->error.c_str()); exit(77); }
	auto& M = F.box(0); auto& S_ = F.box(1); auto& V = F.box(2);
	T.add(M.api->get_block_at(0));
	for(int m = 0; m < 2; ++m) { F.led.emplace_back(new Ledger(w.params)); F.led[m]->push(T.all.begin()->second, O); F.gen.emplace_back(new Gen(w, *F.led[m], 96 + m)); }
	struct Shot { image_t img; std::string op; hash_t from, to; };
	std::vector<Shot> shots; size_t want = 0, per = 40; Rng pick = ck.rng(98); std::mutex sm;
	trace.on_state = [&](const image_t& img, const char* op) { std::lock_guard<std::mutex> l(sm); if(want && pick.chance(1, per)) { Shot x; x.img = img; x.op = op; shots.push_back(std::move(x)); want--; } };
	trace.root = ck.scratch + "/v/db/"; trace.load();
	auto grow = [&](size_t m) {
		auto& n = F.box(m);
		const uint32_t h0 = n.height(); if(!w.grow(n)) return BlockPtr(); T.pull_points(); BlockPtr b;
		for(uint32_t h = h0 + 1; h <= n.height(); ++h) { b = n.api->get_block_at(h); T.add(b); F.led[m]->push(b, O); ck.count("blocks"); ck.count("txs", b->tx_list.size()); }
		return b;
	};
	// V goes on, and images of its files are taken meanwhile
	auto play = [&](const std::vector<BlockPtr>& v, size_t shots_wanted) {
		const auto from = V.peak()->hash; const size_t n0 = shots.size(); const auto ops0 = trace.ops;
		{ std::lock_guard<std::mutex> l(sm); want = shots_wanted; }
		F.give(V, v, true);
		F.settle(V);
		{ std::lock_guard<std::mutex> l(sm); want = 0; }
		const auto to = V.peak()->hash;
		for(size_t i = n0; i < shots.size(); ++i) { shots[i].from = from; shots[i].to = to; }
		if(trace.ops > ops0) per = std::max<size_t>(2, (trace.ops - ops0) / 8);
		ck.max("file_ops", trace.ops);
	};
	auto path = [&](const hash_t& from, const hash_t& to) { std::set<hash_t> a, r; auto x = T.find(from), y = T.find(to); while(x && y && !(x->hash == y->hash)) { if(x->height >= y->height) { r.insert(x->hash); x = T.prev(*x); } else { r.insert(y->hash); y = T.prev(*y); } } if(x) r.insert(x->hash); r.insert(from); r.insert(to); return r; };
	int num = 0;
	auto line_to = [&](const hash_t& tip) { std::vector<BlockPtr> v; for(auto b = T.find(tip); b && b->height; b = T.prev(*b)) v.insert(v.begin(), b); return v; };
	std::function<void(const Shot&, int)> reopen = [&](const Shot& x, int level) {
		const std::string dir = ck.scratch + "/c" + std::to_string(num++); const std::string at = "a crash (" + x.op + ") between height " + std::to_string(T.find(x.from)->height) + " and " + std::to_string(T.find(x.to)->height);
		ck.mark(at);
		materialise(x.img, level ? x.img.begin()->first.substr(0, x.img.begin()->first.find("/db/") + 4) : ck.scratch + "/v/db/", dir + "/db/");
		std::vector<Shot> inner; auto keep = trace.on_state; const auto root = trace.root;
		const bool nest = !level && rng.chance(1, 3);
		if(nest) { trace.root = dir + "/db/"; trace.load(); size_t left = 1; trace.on_state = [&](const image_t& img, const char* op) { if(left && pick.chance(1, 4)) { Shot y = x; y.img = img; y.op = x.op + std::string(", then ") + op + " in recovery"; inner.push_back(std::move(y)); left--; } }; }
		else trace.root.clear();
		{
			NodeBox C(w, "C" + std::to_string(num), dir);
			const bool up = C.start();
			O(up, "P56", "no-start", [&]() { return "the node does not start after " + at + ": " + C.error; });
			ck.eval(); ck.count("crashes"); ck.count(std::string("op:") + x.op.substr(0, 12));
			ck.nontrivial(S(x.from) + S(x.to) + x.op + std::to_string(x.img.size()) + std::to_string([&]() { size_t s = 0; for(auto& e : x.img) s += e.second->size(); return s; }()));
			if(up) {
				trace.on_state = nullptr;
				const auto pk = C.peak();
				O(pk && path(x.from, x.to).count(pk->hash), "P56", "lost", [&]() { return "after " + at + " the node stands at height " + (pk ? std::to_string(pk->height) + " on " + S(pk->hash) : std::string("nothing")) + ", neither before nor after the step"; });
				if(pk && T.find(pk->hash)) {
					if(pk->hash == x.to) ck.count("came_after"); else ck.count("came_before");
					const auto L = F.ledger_at(pk->hash);
					F.aud.balances(C, *L); F.aud.queries(C, *L, rng, 2);
					// on to where V stands
					const auto tip = V.peak()->hash;
					for(auto& b : line_to(tip)) if(b->height > L->height() || T.find(x.from)->height < 1 || b->height + 8 > L->height()) {
						hash_t out = b->vdf_output; for(uint32_t k = 0; k < b->vdf_count; ++k) { auto p = T.points.find(out); if(p == T.points.end()) break; C.deliver(p->second); out = p->second->input; }
						C.deliver(b); C.pending(); C.update();
					}
					F.settle(C);
					const auto L2 = F.ledger_at(tip);
					O(C.peak()->hash == tip, "P56", "stuck", [&]() { return "after " + at + " the node does not get back to the chain: height " + std::to_string(C.height()) + " of " + std::to_string(L2->height()) + ": " + C.last_warn(); });
					if(C.peak()->hash == tip) { F.aud.balances(C, *L2); const auto s = F.state(C, *L2), t = F.state(V, *L2); O(s == t, "P56", "state", [&]() { size_t k = 0; while(k < s.size() && k < t.size() && s[k] == t[k]) ++k; return "after " + at + " the node tells something else than before: ..." + t.substr(k > 80 ? k - 80 : 0, 160) + " / " + s.substr(k > 80 ? k - 80 : 0, 160); }); }
				}
			}
			trace.on_state = nullptr;
		}
		trace.root.clear(); trace.on_state = keep;
		for(auto& y : inner) reopen(y, 1);
		std::error_code ec; std::filesystem::remove_all(dir, ec);
		(void)root;
	};
	for(int k = 0; k < 7; ++k) if(auto b = grow(0)) { F.give(S_, {b}, true); F.settle(S_); F.led[1]->push(b, O); play({b}, mode == 1 && k < 2 ? 3 : 0); }
	const int rounds = ck.n(6, 30);
	for(int r = 0; r < rounds; ++r) {
		// a few honest blocks, sometimes after a branch which loses
		const auto base = M.peak()->hash; const bool fork = rng.chance(2, 3);
		std::vector<BlockPtr> main, side;
		auto items = [&](size_t m) { for(auto& it : F.gen[m]->round(9, 0)) { F.box(m).deliver(it.tx); if(rng.chance(1, 4)) F.box(1 - m).deliver(it.tx); } for(auto& n : F.boxes) n->validate(); };
		const size_t ns = fork ? rng.range(1, 3) : 0, nm = ns + rng.range(1, 2);
		for(size_t k = 0; k < nm * 3 && main.size() < nm; ++k) { items(0); if(auto b = grow(0)) main.push_back(b); }
		for(size_t k = 0; k < ns * 3 && side.size() < ns; ++k) { items(1); if(auto b = grow(1)) side.push_back(b); }
		if(main.size() <= side.size()) side.clear();
		if(side.size()) play(side, rng.below(4));
		play(main, side.size() ? 6 : 4);
		if(side.size()) ck.count("reorgs");
		if(rng.chance(1, 3)) { // an orderly restart is traced, too
			const auto h = V.peak()->hash; const size_t n0 = shots.size(); { std::lock_guard<std::mutex> l(sm); want = 2; per = 5; }
			V.close(); const bool up = V.start(); { std::lock_guard<std::mutex> l(sm); want = 0; per = 20; }
			O(up && V.peak()->hash == h, "P56", "restart", [&]() { return "V does not stand where it stopped: " + V.error; }); if(!up) return;
			V.update(); for(size_t i = n0; i < shots.size(); ++i) shots[i].from = shots[i].to = h; ck.count("restarts");
		}
		F.give(S_, main, true); F.settle(S_);
		const auto tip = V.peak()->hash; const auto L = F.ledger_at(tip);
		for(size_t m = 0; m < 2; ++m) { for(auto& e : F.gen[m]->deployed) F.gen[1 - m]->deployed.insert(e); }
		if(!(S_.peak()->hash == M.peak()->hash) || !(tip == M.peak()->hash)) { O(false, "P56 P65", "harness-diverged", [&]() { return "S " + std::to_string(S_.height()) + " M " + std::to_string(M.height()) + " V " + std::to_string(V.height()) + ": " + V.last_warn() + " / " + S_.last_warn(); }); return; }
		for(size_t m = 0; m < 2; ++m) { *F.led[m] = *L; auto& n = F.box(m); { std::lock_guard<std::mutex> lock(n.m); n.intervals.clear(); n.challenges.clear(); } n.update(); }
		const auto root = trace.root;
		for(auto& x : shots) reopen(x, 0);
		shots.clear();
		trace.root = root; trace.load();
	}
	vnx::g_fs_hook = nullptr;
	ck.max("max_height", V.height());
}

} // nd
