// What a chain of blocks means: balances, history, authorisation, fees - recomputed independently of the node.
#ifndef VERIF_NODE_MODEL_H_
#define VERIF_NODE_MODEL_H_
#include "node_env.h"
#include "ref.h"
#include <mmx/tx_entry_t.hxx>
#include <mmx/query_filter_t.hxx>
#include <mmx/tx_info_t.hxx>
#include <mmx/exec_entry_t.hxx>
#include <mmx/balance_t.hxx>
#include <mmx/farmed_block_summary_t.hxx>
#include <secp256k1.h>

namespace nd {
typedef unsigned __int128 u128;
inline u128 U(const uint128& v) { return (u128(v.upper()) << 64) | v.lower(); }
inline uint128 W(u128 v) { return uint128((uint128_t(uint64_t(v >> 64)) << 64) + uint128_t(uint64_t(v))); }
inline std::string S(u128 v) { if(!v) return "0"; std::string r; while(v) { r.insert(r.begin(), char('0' + int(v % 10))); v /= 10; } return r; }
inline std::string S(const addr_t& a) { return a.to_string().substr(0, 14); }
inline std::string S(const hash_t& a) { return a.to_string().substr(0, 12); }

// Which properties this run reports, and the reporting.
struct Oracle {
	Check& ck; std::set<std::string> want;
	explicit Oracle(Check& c) : ck(c) { for(auto& a : c.args) if(a.size() == 3 && a[0] == 'P') want.insert(a); }
	bool on(const std::string& props) const { if(want.empty()) return true; std::istringstream s(props); std::string p; while(s >> p) if(want.count(p)) return true; return false; }
	bool operator()(bool ok, const std::string& props, const std::string& key, const std::function<std::string()>& what) {
		if(!ok) { if(on(props)) ck.violation(key, what()); else { ck.count("other:" + key); if(::getenv("NODE_ALL")) fprintf(stderr, "other %s: %s\n", key.c_str(), what().c_str()); } }
		return ok;
	}
};

inline const secp256k1_context* secp() { static auto* c = secp256k1_context_create(SECP256K1_CONTEXT_VERIFY); return c; }
inline addr_t ref_addr(const pubkey_t& k) {
	addr_t a; const auto h = ref::sha256(std::string((const char*)k.data(), k.size())); ::memcpy(a.data(), h.data(), 32); return a;
}
inline bool ref_verify(const pubkey_t& k, const signature_t& s, const hash_t& msg) {
	static std::map<std::string, bool> cache; static std::mutex m;
	const std::string key = std::string((const char*)k.data(), k.size()) + std::string((const char*)s.data(), s.size()) + std::string((const char*)msg.data(), 32);
	{ std::lock_guard<std::mutex> l(m); auto i = cache.find(key); if(i != cache.end()) return i->second; }
	secp256k1_pubkey pk; secp256k1_ecdsa_signature sg;
	const bool ok = secp256k1_ec_pubkey_parse(secp(), &pk, k.data(), k.size()) && secp256k1_ecdsa_signature_parse_compact(secp(), &sg, s.data()) && secp256k1_ecdsa_verify(secp(), &sg, msg.data(), &pk);
	std::lock_guard<std::mutex> l(m); cache[key] = ok; return ok;
}
inline bool ref_pubkey(std::shared_ptr<const Solution> sol, const addr_t& addr, const hash_t& txid) {
	auto p = std::dynamic_pointer_cast<const solution::PubKey>(sol);
	return p && ref_addr(p->pubkey) == addr && ref_verify(p->pubkey, p->signature, txid);
}

struct Entry { addr_t address, currency; u128 amount = 0; vnx::optional<std::string> memo; hash_t txid; uint32_t height = 0; int64_t time = 0; int type = 0; };
struct ExecRow { addr_t address; uint32_t height; int64_t time; hash_t txid; std::string method; size_t nargs; vnx::optional<addr_t> user; vnx::optional<std::pair<addr_t, u128>> deposit; };
struct Deployed { std::shared_ptr<const Contract> contract; uint32_t height; hash_t txid; vnx::optional<addr_t> sender; };

typedef std::pair<addr_t, addr_t> acur_t;

struct Ledger {
	std::shared_ptr<const ChainParams> params;
	std::vector<BlockPtr> blocks;
	std::map<acur_t, u128> bal;
	std::map<hash_t, std::pair<uint32_t, TxPtr>> txs;
	std::vector<hash_t> tx_order;			// as in the chain
	std::map<addr_t, Deployed> contracts;
	std::vector<addr_t> deploy_order;
	std::vector<std::vector<Entry>> entries;		// per height
	std::vector<ExecRow> execs;
	std::set<addr_t> touched;			// contracts a successful transaction of the last block may have changed
	std::map<addr_t, std::set<uint32_t>> touched_at;

	explicit Ledger(std::shared_ptr<const ChainParams> p) : params(p) {}
	uint32_t height() const { return blocks.size() - 1; }
	u128 balance(const addr_t& a, const addr_t& c = addr_t()) const { auto i = bal.find({a, c}); return i != bal.end() ? i->second : 0; }
	std::map<addr_t, u128> supply() const { std::map<addr_t, u128> r; for(auto& e : bal) if(e.second) r[e.first.second] += e.second; return r; }
	std::shared_ptr<const Contract> contract(const addr_t& a) const { auto i = contracts.find(a); return i != contracts.end() ? i->second.contract : nullptr; }

	bool may_act(const addr_t& who, std::shared_ptr<const Solution> sol, const hash_t& txid) const {
		auto c = contract(who);
		if(!c) return ref_pubkey(sol, who, txid);
		if(auto k = std::dynamic_pointer_cast<const contract::PubKey>(c)) return ref_pubkey(sol, k->address, txid);
		if(auto m = std::dynamic_pointer_cast<const contract::MultiSig>(c)) {
			std::set<addr_t> signers;
			if(auto s = std::dynamic_pointer_cast<const solution::PubKey>(sol)) { const auto a = ref_addr(s->pubkey); if(m->owners.count(a) && ref_pubkey(sol, a, txid)) signers.insert(a); }
			if(auto s = std::dynamic_pointer_cast<const solution::MultiSig>(sol)) for(auto& e : s->solutions) if(m->owners.count(e.first) && ref_pubkey(e.second, e.first, txid)) signers.insert(e.first);
			return m->num_required > 0 && signers.size() >= m->num_required;
		}
		return false;
	}
	static u128 io_cost(const ChainParams& p, const txio_t& io) { return u128(p.min_txfee_io) + (io.memo ? u128(std::max<size_t>((io.memo->size() + 31) / 32, 1)) * p.min_txfee_memo : 0); }
	void deps(const addr_t& a, std::set<addr_t>& out) const {
		if(!out.insert(a).second) return;
		if(auto e = std::dynamic_pointer_cast<const contract::Executable>(contract(a))) for(auto& d : e->depends) deps(d.second, out);
	}

	void push(BlockPtr b, Oracle& O) {
		const auto& p = *params;
		const uint32_t h = b->height;
		auto id = [&](const hash_t& x) { return "tx " + S(x) + " at height " + std::to_string(h); };
		O(h == blocks.size() && (!h || b->prev == blocks.back()->hash), "P50 P55 P61", "chain-link", [&]() { return "block at height " + std::to_string(h) + " does not follow the previous one"; });
		std::vector<Entry> outs, ins;
		auto add = [&](std::vector<Entry>& v, const addr_t& a, const addr_t& c, u128 amount, const vnx::optional<std::string>& memo, const hash_t& txid, int type) {
			Entry e; e.address = a; e.currency = c; e.amount = amount; e.memo = memo; e.txid = txid; e.height = h; e.time = b->time_stamp; e.type = type; v.push_back(e);
		};
		auto credit = [&](const addr_t& a, const addr_t& c, u128 v) { bal[{a, c}] += v; };
		auto debit = [&](const addr_t& a, const addr_t& c, u128 v, const char* what, const hash_t& t) {
			auto& x = bal[{a, c}];
			O(v <= x, "P50 P51 P54", std::string("overdraft-") + what, [&]() { return id(t) + ": " + what + " takes " + S(v) + " from " + S(a) + " which holds " + S(x); });
			x = v <= x ? x - v : 0;
		};
		u128 fees = 0, cost = 0, scost = 0;
		touched.clear();
		// what the header pays
		for(auto& tx : b->tx_list) if(tx->exec_result) { fees += tx->exec_result->total_fee; cost += tx->exec_result->total_cost; }
		for(auto& tx : b->tx_list) scost += tx->static_cost;
		std::vector<std::pair<addr_t, u128>> pays;
		if(b->vdf_reward_payout) { add(outs, *b->vdf_reward_payout, addr_t(), p.vdf_reward, nullptr, b->hash, tx_type_e::VDF_REWARD); pays.emplace_back(*b->vdf_reward_payout, p.vdf_reward); }
		if(b->reward_addr && b->reward_amount) { add(outs, *b->reward_addr, addr_t(), b->reward_amount, nullptr, b->hash, tx_type_e::REWARD); pays.emplace_back(*b->reward_addr, b->reward_amount); }
		const u128 project = std::min<u128>(p.fixed_project_reward + fees * p.project_ratio.value / p.project_ratio.inverse, fees / 2);
		if(project) { add(outs, b->project_addr, addr_t(), project, nullptr, b->hash, tx_type_e::PROJECT_REWARD); pays.emplace_back(b->project_addr, project); }
		O(fees == b->tx_fees && cost == b->total_cost && scost == b->static_cost && b->tx_count == b->tx_list.size(), "P54 P62", "block-totals", [&]() { return "fee and cost totals of block " + std::to_string(h) + " differ from its transactions"; });

		for(auto& t : b->tx_list) {
			const auto& tx = *t;
			const bool ok = !tx.exec_result || !tx.exec_result->did_fail;
			if(!h) { // genesis: no sender, no fee, creates coins
				for(auto& o : tx.outputs) { add(outs, o.address, o.contract, U(o.amount), o.memo, tx.id, tx_type_e::RECEIVE); credit(o.address, o.contract, U(o.amount)); }
			} else {
				O(!txs.count(tx.id), "P51", "tx-twice", [&]() { return id(tx.id) + " is already in the chain at height " + std::to_string(txs[tx.id].first); });
				O(bool(tx.exec_result) && bool(tx.sender), "P50 P54", "tx-incomplete", [&]() { return id(tx.id) + " has no result or no sender"; });
				if(!tx.exec_result || !tx.sender) continue;
				const auto& r = *tx.exec_result;
				O(tx.id == tx.calc_hash() && tx.content_hash == tx.calc_hash(true), "P52 P58 P57", "tx-hash", [&]() { return id(tx.id) + " has a wrong id or content hash"; });
				O(tx.network == p.network, "P51 P52", "tx-network", [&]() { return id(tx.id) + " is for network " + tx.network; });
				O(ok ? tx.expires >= h : true, "P51", "tx-expired", [&]() { return id(tx.id) + " succeeded but expired at " + std::to_string(tx.expires); });
				// who agreed
				O(tx.solutions.size() && ref_pubkey(tx.solutions[0], *tx.sender, tx.id), "P52", "sender-signature", [&]() { return id(tx.id) + " pays its fee without the sender's signature"; });
				auto sol = [&](uint32_t i) { return i < tx.solutions.size() ? tx.solutions[i] : nullptr; };
				if(ok) {
					for(auto& in : tx.inputs) {
						const bool good = in.flags & txin_t::IS_EXEC ? contract(in.address) && may_act(in.address, sol(in.solution), tx.id) : ref_pubkey(sol(in.solution), in.address, tx.id);
						O(good, "P52", "input-signature", [&]() { return id(tx.id) + " spends " + S(U(in.amount)) + " of " + S(in.address) + " without authorisation"; });
					}
					for(auto& op : tx.execute) if(auto e = std::dynamic_pointer_cast<const operation::Execute>(op)) if(e->user)
						O(may_act(*e->user, sol(e->solution), tx.id), "P52", "user-signature", [&]() { return id(tx.id) + " calls " + e->method + " as " + S(*e->user) + " without authorisation"; });
				}
				// cost and fee
				u128 st = p.min_txfee + u128(p.min_txfee_exec) * tx.execute.size(), dyn = 0;
				for(auto& x : tx.inputs) st += io_cost(p, x);
				for(auto& x : tx.outputs) st += io_cost(p, x);
				for(auto& x : r.inputs) dyn += io_cost(p, x);
				for(auto& x : r.outputs) dyn += io_cost(p, x);
				for(auto& s : tx.solutions) { st += p.min_txfee_sign; if(auto m = std::dynamic_pointer_cast<const solution::MultiSig>(s)) st += u128(p.min_txfee_sign) * m->solutions.size(); }
				if(tx.deploy) { st += p.min_txfee_deploy + u128(p.min_txfee_byte) * tx.deploy->num_bytes(); if(auto e = std::dynamic_pointer_cast<const contract::Executable>(tx.deploy)) st += u128(p.min_txfee_depend) * e->depends.size(); }
				for(auto& op : tx.execute) if(auto e = std::dynamic_pointer_cast<const operation::Execute>(op)) { u128 n = e->method.size(); for(auto& a : e->args) n += get_num_bytes(a); st += n * p.min_txfee_byte; }
				O(tx.static_cost == st + dyn, "P54", "static-cost", [&]() { return id(tx.id) + " has static cost " + std::to_string(tx.static_cost) + " instead of " + S(st + dyn); });
				O(r.total_cost >= st + (ok ? dyn : 0), "P54", "cost-too-low", [&]() { return id(tx.id) + " costs " + std::to_string(r.total_cost) + ", less than its static cost " + S(st + dyn); });
				if(tx.execute.empty() && !std::dynamic_pointer_cast<const contract::Executable>(tx.deploy)) {
					bool exec_in = false; for(auto& in : tx.inputs) exec_in |= in.flags & txin_t::IS_EXEC;
					if(ok && !exec_in) O(r.total_cost == st + dyn, "P54", "cost-exact", [&]() { return id(tx.id) + " (no execution) costs " + std::to_string(r.total_cost) + " instead of " + S(st + dyn); });
				}
				O(!ok || r.total_cost <= p.max_tx_cost, "P54", "cost-limit", [&]() { return id(tx.id) + " exceeds the limit on cost"; });
				const u128 fee = std::min<u128>(u128(r.total_cost) * tx.fee_ratio / 1024, tx.max_fee_amount);
				O(r.total_fee == fee, "P54", "fee", [&]() { return id(tx.id) + " pays " + std::to_string(r.total_fee) + " instead of " + S(fee); });
				O(r.total_fee <= tx.max_fee_amount, "P54", "fee-limit", [&]() { return id(tx.id) + " pays more than the sender's limit"; });
				O(!ok || u128(r.total_cost) * tx.fee_ratio / 1024 <= tx.max_fee_amount, "P54", "fee-overrun", [&]() { return id(tx.id) + " succeeded though it costs more than the sender's limit"; });
				if(!ok) O(r.inputs.empty() && r.outputs.empty(), "P53", "failed-with-effects", [&]() { return id(tx.id) + " failed but moves funds"; });
				// money
				add(ins, *tx.sender, addr_t(), r.total_fee, nullptr, tx.id, tx_type_e::TXFEE);
				debit(*tx.sender, addr_t(), r.total_fee, "fee", tx.id);
				if(ok) {
					std::map<addr_t, u128> in_sum, out_sum, minted;
					for(auto& x : tx.inputs) { add(ins, x.address, x.contract, U(x.amount), x.memo, tx.id, tx_type_e::SPEND); debit(x.address, x.contract, U(x.amount), "input", tx.id); in_sum[x.contract] += U(x.amount); }
					for(auto& x : r.inputs) {
						add(ins, x.address, x.contract, U(x.amount), x.memo, tx.id, tx_type_e::SPEND); debit(x.address, x.contract, U(x.amount), "contract input", tx.id); in_sum[x.contract] += U(x.amount);
						O(std::dynamic_pointer_cast<const contract::Executable>(contract(x.address)) != nullptr || (x.address == tx.id && tx.deploy), "P52 P50", "exec-input-owner", [&]() { return id(tx.id) + " has a contract input from " + S(x.address) + " which is no contract"; });
					}
					for(auto& x : tx.outputs) { add(outs, x.address, x.contract, U(x.amount), x.memo, tx.id, tx_type_e::RECEIVE); credit(x.address, x.contract, U(x.amount)); out_sum[x.contract] += U(x.amount); }
					for(auto& x : r.outputs) { add(outs, x.address, x.contract, U(x.amount), x.memo, tx.id, tx_type_e::RECEIVE); credit(x.address, x.contract, U(x.amount)); out_sum[x.contract] += U(x.amount); }
					// contracts this transaction may run
					std::set<addr_t> called;
					for(auto& op : tx.execute) deps(op->address == addr_t() ? addr_t(tx.id) : op->address, called);
					if(tx.deploy) { called.insert(tx.id); if(auto e = std::dynamic_pointer_cast<const contract::Executable>(tx.deploy)) for(auto& d : e->depends) deps(d.second, called); }
					std::set<addr_t> all; for(auto& e : in_sum) all.insert(e.first); for(auto& e : out_sum) all.insert(e.first);
					for(auto& c : all) {
						const bool mintable = called.count(c) && c != addr_t();
						O(mintable ? out_sum[c] >= in_sum[c] : out_sum[c] == in_sum[c], "P50", "conservation", [&]() { return id(tx.id) + ": " + S(in_sum[c]) + " in, " + S(out_sum[c]) + " out of currency " + S(c); });
					}
					for(auto& a : called) { touched.insert(a); touched_at[a].insert(h); }
				}
			}
			txs[tx.id] = {h, t}; tx_order.push_back(tx.id);
			if(ok) {
				if(tx.deploy) { contracts[tx.id] = {tx.deploy, h, tx.id, tx.sender}; deploy_order.push_back(tx.id); }
				for(auto& op : tx.execute) if(auto e = std::dynamic_pointer_cast<const operation::Execute>(op)) {
					ExecRow x; x.address = op->address == addr_t() ? addr_t(tx.id) : op->address; x.height = h; x.time = b->time_stamp; x.txid = tx.id; x.method = e->method; x.nargs = e->args.size(); x.user = e->user;
					if(auto d = std::dynamic_pointer_cast<const operation::Deposit>(op)) x.deposit = std::make_pair(d->currency, U(d->amount));
					execs.push_back(x);
				}
			}
		}
		// rewards of this block cannot be spent in it
		for(auto& e : pays) credit(e.first, addr_t(), e.second);
		outs.insert(outs.end(), ins.begin(), ins.end());
		entries.push_back(outs);
		blocks.push_back(b);
	}
	void reset() { *this = Ledger(params); }
};

inline bool has_memo(const Entry& e, const vnx::optional<std::string>& m) { return bool(e.memo) == bool(m) && (!m || *e.memo == *m); }

// compares what a node answers with the ledger
struct Auditor {
	Oracle& O; Check& ck; World& w;
	Auditor(Oracle& o, World& w_) : O(o), ck(o.ck), w(w_) {}

	void balances(NodeBox& n, const Ledger& L) {
		auto& api = *n.api;
		std::set<addr_t> addrs, curs;
		for(auto& e : L.bal) { addrs.insert(e.first.first); curs.insert(e.first.second); }
		for(auto& a : w.acc) addrs.insert(a.addr);
		for(auto& e : L.contracts) { addrs.insert(e.first); curs.insert(e.first); }
		const std::vector<addr_t> list(addrs.begin(), addrs.end());
		const auto all = api.get_all_balances(list, {}, -1);
		std::map<acur_t, u128> got; for(auto& e : all) got[e.first] = U(e.second);
		std::map<acur_t, u128> exp; for(auto& e : L.bal) if(e.second) exp[e.first] = e.second;
		ck.eval(exp.size());
		if(got != exp) for(auto& a : exp) { const auto g = got.count(a.first) ? got[a.first] : 0; O(g == a.second, "P50 P61", "balance", [&]() { return n.name + " at height " + std::to_string(L.height()) + ": balance of " + S(a.first.first) + " in " + S(a.first.second) + " is " + S(g) + ", the blocks add up to " + S(a.second); }); }
		if(got != exp) for(auto& a : got) O(exp.count(a.first), "P50 P61", "balance-extra", [&]() { return n.name + ": " + S(a.first.first) + " holds " + S(a.second) + " of " + S(a.first.second) + ", the blocks add up to nothing"; });
		const auto sup = L.supply();
		for(auto& c : curs) { auto i = sup.find(c); const u128 e = i != sup.end() ? i->second : 0; const u128 g = U(api.get_total_supply(c)); O(g == e, "P50 P61", c == addr_t() ? "supply-mmx" : "supply-token", [&]() { return n.name + " at height " + std::to_string(L.height()) + ": supply of " + S(c) + " is " + S(g) + ", all balances add up to " + S(e); }); ck.eval(); }
	}
	template<typename F> static auto guarded(F f) -> decltype(f()) { return f(); }

	void queries(NodeBox& n, const Ledger& L, Rng& rng, int num) {
		auto& api = *n.api;
		std::vector<addr_t> addrs; { std::set<addr_t> s; for(auto& e : L.bal) s.insert(e.first.first); for(auto& e : L.contracts) s.insert(e.first); for(auto& a : w.acc) s.insert(a.addr); addrs.assign(s.begin(), s.end()); }
		std::vector<addr_t> curs; { std::set<addr_t> s; for(auto& e : L.bal) s.insert(e.first.second); curs.assign(s.begin(), s.end()); }
		std::vector<std::string> memos; for(auto& v : L.entries) for(auto& e : v) if(e.memo) memos.push_back(*e.memo);
		auto some = [&](size_t max) { std::vector<addr_t> v; for(size_t i = 0, k = rng.range(1, max); i < k; ++i) v.push_back(rng.chance(1, 12) ? addr_t(hash_t("nobody")) : rng.chance(1, 2) ? w.acc[rng.below(w.acc.size())].addr : rng.pick(addrs)); return v; };
		for(int i = 0; i < num; ++i) {
			ck.eval();
			const auto v = some(4);
			query_filter_t f;
			if(rng.chance(1, 2)) f.since = rng.below(L.height() + 2);
			if(rng.chance(1, 2)) f.until = rng.below(L.height() + 2);
			if(rng.chance(1, 3)) f.limit = rng.pick(std::vector<int>{0, 1, 2, 3, 5, 20, 100});
			if(rng.chance(1, 3) && curs.size()) for(int k = rng.range(1, 2); k--;) f.currency.insert(rng.pick(curs));
			if(rng.chance(1, 4)) f.type = tx_type_e(tx_type_e::enum_t(rng.pick(std::vector<uint32_t>{tx_type_e::SPEND, tx_type_e::RECEIVE, tx_type_e::TXFEE, tx_type_e::REWARD, tx_type_e::VDF_REWARD, tx_type_e::PROJECT_REWARD})));
			if(rng.chance(1, 4) && memos.size()) { f.memo = rng.pick(memos); if(f.limit > 0) f.limit = -1; }
			const std::set<addr_t> as(v.begin(), v.end());
			typedef std::tuple<uint32_t, std::string, uint32_t, std::string, std::string, std::string, std::string, int64_t> row_t;
			auto row = [](uint32_t h, const hash_t& t, uint32_t ty, const addr_t& c, const addr_t& a, const vnx::optional<std::string>& m, u128 am, int64_t time) { return row_t(h, t.to_string(), ty, c.to_string(), a.to_string(), m ? "+" + *m : "", S(am), time); };
			std::vector<row_t> exp;
			for(auto& hv : L.entries) for(auto& e : hv) if(as.count(e.address) && e.height >= f.since && e.height <= f.until && (f.currency.empty() || f.currency.count(e.currency)) && (!f.type || uint32_t(*f.type) == uint32_t(e.type)) && (!f.memo || (e.memo && *e.memo == *f.memo)))
				exp.push_back(row(e.height, e.txid, e.type, e.currency, e.address, e.memo, e.amount, e.time));
			auto newest = [](const row_t& a, const row_t& b) { return std::get<0>(a) != std::get<0>(b) ? std::get<0>(a) > std::get<0>(b) : a > b; };
			std::sort(exp.begin(), exp.end(), newest);
			if(f.limit == 0) exp.clear();
			if(f.limit > 0 && exp.size() > size_t(f.limit)) { size_t k = f.limit - 1; const auto cut = std::get<0>(exp[k]); while(k < exp.size() && std::get<0>(exp[k]) == cut) ++k; exp.resize(k); }
			const auto res = api.get_history(v, f);
			std::vector<row_t> got;
			bool sorted = true; uint32_t last = -1;
			for(auto& e : res) { got.push_back(row(e.height, e.txid, uint32_t(e.type), e.contract, e.address, e.memo, U(e.amount), e.time_stamp)); if(e.height > last) sorted = false; last = e.height; }
			std::sort(got.begin(), got.end(), newest);
			O(got == exp && sorted, "P61", f.memo ? "history-memo" : "history", [&]() { return n.name + ": history of " + std::to_string(as.size()) + " addresses has " + std::to_string(got.size()) + " entries instead of " + std::to_string(exp.size()) + (sorted ? "" : " (not newest first)") + " (since " + std::to_string(f.since) + " until " + std::to_string(f.until) + " limit " + std::to_string(f.limit) + ")"; });
			if(exp.size()) ck.nontrivial("hist" + std::to_string(std::hash<std::string>()(std::get<1>(exp[0]) + std::get<1>(exp.back()))) + "/" + std::to_string(exp.size()));
			ck.count("history_entries", exp.size());

			// balances in other forms
			{
				const auto c = curs.size() && rng.chance(2, 3) ? rng.pick(curs) : addr_t();
				u128 sum = 0; for(auto& a : as) sum += L.balance(a, c);
				const auto g = U(api.get_total_balance(v, c));
				O(g == sum, "P61 P50", "total-balance", [&]() { return n.name + ": total balance " + S(g) + " instead of " + S(sum); });
				std::set<addr_t> wl; if(rng.chance(1, 2) && curs.size()) for(int k = rng.range(1, 3); k--;) wl.insert(rng.pick(curs));
				std::map<addr_t, u128> tot; for(auto& e : L.bal) if(e.second && as.count(e.first.first) && (wl.empty() || wl.count(e.first.second))) tot[e.first.second] += e.second;
				std::map<addr_t, u128> gt; for(auto& e : api.get_total_balances(v, wl, -1)) gt[e.first] = U(e.second);
				O(gt == tot, "P61 P50", "total-balances", [&]() { return n.name + ": total balances of " + std::to_string(as.size()) + " addresses differ"; });
				const auto a = v[0]; std::map<addr_t, u128> own; for(auto& e : L.bal) if(e.second && e.first.first == a && (wl.empty() || wl.count(e.first.second))) own[e.first.second] = e.second;
				std::map<addr_t, u128> go; for(auto& e : api.get_balances(a, wl, -1)) go[e.first] = U(e.second);
				O(go == own, "P61 P50", "balances", [&]() { return n.name + ": balances of " + S(a) + " differ"; });
				std::map<addr_t, u128> gc; try { for(auto& e : api.get_contract_balances(a, wl, -1)) { gc[e.first] = U(e.second.total); O(U(e.second.locked) + U(e.second.spendable) == U(e.second.total), "P61", "contract-balance-split", [&]() { return "locked + spendable != total"; }); } } catch(const std::exception& ex) { gc = own; ck.count("contract_balances_threw"); }
				O(gc == own, "P61 P50", "contract-balances", [&]() { return n.name + ": contract balances of " + S(a) + " differ"; });
			}
			// transactions
			if(L.tx_order.size()) {
				const auto id = rng.pick(L.tx_order);
				const auto& rec = L.txs.at(id);
				const auto hh = api.get_tx_height(id);
				O(hh && *hh == rec.first, "P61", "tx-height", [&]() { return n.name + ": height of tx " + S(id); });
				auto t = api.get_transaction(id, rng.chance(1, 2));
				O(t && t->content_hash == rec.second->content_hash && str(*t) == str(*rec.second), "P61", "get-transaction", [&]() { return n.name + ": tx " + S(id) + " is not returned as included"; });
				auto inf = api.get_tx_info(id);
				bool good = bool(inf);
				if(good) {
					const auto& b = L.blocks[rec.first];
					good &= inf->id == id && inf->height && *inf->height == rec.first && inf->time_stamp && *inf->time_stamp == b->time_stamp && inf->block && *inf->block == b->hash && inf->expires == rec.second->expires;
					std::map<addr_t, u128> is, os; for(auto& x : rec.second->inputs) is[x.contract] += U(x.amount); for(auto& x : rec.second->outputs) os[x.contract] += U(x.amount);
					if(auto& r = rec.second->exec_result) { good &= inf->fee == r->total_fee && inf->cost == r->total_cost && inf->did_fail == r->did_fail; for(auto& x : r->inputs) is[x.contract] += U(x.amount); for(auto& x : r->outputs) os[x.contract] += U(x.amount); }
					std::map<addr_t, u128> gi, go; for(auto& e : inf->input_amounts) gi[e.first] = U(e.second); for(auto& e : inf->output_amounts) go[e.first] = U(e.second);
					good &= gi == is && go == os && inf->operations.size() == rec.second->execute.size() && bool(inf->deployed) == bool(rec.second->deploy);
				}
				O(good, "P61", "tx-info", [&]() { return n.name + ": info on tx " + S(id) + " differs"; });
				const auto nope = hash_t("nope" + std::to_string(rng.next()));
				O(!api.get_tx_height(nope) && !api.get_tx_info(nope) && !api.get_transaction(nope, true), "P61", "tx-unknown", [&]() { return "an unknown tx is reported"; });
				std::vector<hash_t> ids; for(int k = rng.range(1, 4); k--;) ids.push_back(rng.pick(L.tx_order));
				const auto ts = api.get_transactions(ids);
				bool same = ts.size() == ids.size(); for(size_t k = 0; same && k < ids.size(); ++k) same = ts[k] && ts[k]->id == ids[k];
				O(same, "P61", "get-transactions", [&]() { return n.name + ": get_transactions differs"; });
			}
			{
				const uint32_t h = rng.below(L.height() + 2);
				std::vector<hash_t> at, since, newest_ids;
				for(uint32_t k = 0; k < L.blocks.size(); ++k) for(auto& t : L.blocks[k]->tx_list) { if(k == h) at.push_back(t->id); if(k >= h) since.push_back(t->id); }
				O(api.get_tx_ids_at(h) == at, "P61", "tx-ids-at", [&]() { return n.name + ": transactions at height " + std::to_string(h); });
				O(api.get_tx_ids_since(h) == since, "P61", "tx-ids-since", [&]() { return n.name + ": transactions since height " + std::to_string(h); });
				const uint32_t lim = rng.pick(std::vector<uint32_t>{1, 2, 3, 7, 30, 1000});
				for(int64_t k = L.height(); k >= 0; --k) for(auto& t : L.blocks[k]->tx_list) if(newest_ids.size() < lim) newest_ids.push_back(t->id);
				O(api.get_tx_ids(lim) == newest_ids, "P61", "tx-ids", [&]() { return n.name + ": newest " + std::to_string(lim) + " transactions"; });
				auto blk = api.get_block_at(h); auto hd = api.get_header_at(h); auto bh = api.get_block_hash(h); auto bx = api.get_block_hash_ex(h);
				if(h < L.blocks.size()) {
					const auto& b = L.blocks[h];
					auto by = api.get_block(b->hash); auto hy = api.get_header(b->hash);
					O(blk && by && str(*blk) == str(*b) && str(*by) == str(*b), "P61", "get-block", [&]() { return n.name + ": block at height " + std::to_string(h); });
					O(hd && hy && hd->hash == b->hash && hd->content_hash == b->content_hash && str(*hd->get_header()) == str(*b->get_header()) && hy->hash == b->hash && blk->calc_hash(L.params) == b->hash, "P61", "get-header", [&]() { return n.name + ": header at height " + std::to_string(h) + " is " + (hd ? str(*hd->get_header()) : "null") + "\ninstead of " + str(*b->get_header()); });
					O(bh && *bh == b->hash && bx && bx->first == b->hash && bx->second == b->content_hash, "P61", "block-hash", [&]() { return n.name + ": block hash at height " + std::to_string(h); });
				} else O(!blk && !hd && !bh && !bx, "P61", "block-beyond", [&]() { return n.name + ": a block above the peak is reported"; });
			}
			// contracts
			if(L.deploy_order.size()) {
				const auto c = rng.pick(L.deploy_order); const auto& d = L.contracts.at(c);
				auto g = api.get_contract(c);
				O(g && str(*g) == str(*d.contract), "P61 P53", "get-contract", [&]() { return n.name + ": contract " + S(c); });
				O(!api.get_contract(w.acc[0].addr), "P61", "contract-unknown", [&]() { return n.name + ": an account is reported as a contract"; });
				std::vector<addr_t> by; for(auto& a : v) for(auto& x : L.deploy_order) { auto& e = L.contracts.at(x); if(e.sender && *e.sender == a) by.push_back(x); }
				O(api.get_contracts_by(v, nullptr) == by, "P61 P53", "contracts-by", [&]() { return n.name + ": contracts deployed by " + std::to_string(v.size()) + " addresses: " + std::to_string(api.get_contracts_by(v, nullptr).size()) + " instead of " + std::to_string(by.size()); });
				// executions
				const auto a = L.execs.size() && rng.chance(3, 4) ? L.execs[rng.below(L.execs.size())].address : c;
				std::vector<const ExecRow*> rows; for(auto& x : L.execs) if(x.address == a) rows.push_back(&x);
				const bool recent = rng.chance(1, 2); const int lim = rng.pick(std::vector<int>{-1, 1, 2, 5, 100});
				if(recent) std::reverse(rows.begin(), rows.end());
				if(lim >= 0 && rows.size() > size_t(lim)) rows.resize(lim);
				const auto ge = api.get_exec_history(a, lim, recent);
				bool same = ge.size() == rows.size();
				for(size_t k = 0; same && k < rows.size(); ++k) { auto& e = ge[k]; auto& r = *rows[k]; same = e.height == r.height && e.txid == r.txid && e.method == r.method && e.args.size() == r.nargs && e.time_stamp == r.time && bool(e.user) == bool(r.user) && (!e.user || *e.user == *r.user) && bool(e.deposit) == bool(r.deposit) && (!e.deposit || (e.deposit->first == r.deposit->first && U(e.deposit->second) == r.deposit->second)); }
				O(same, "P61 P53", "exec-history", [&]() { return n.name + ": executions of " + S(a) + ": " + std::to_string(ge.size()) + " instead of " + std::to_string(rows.size()); });
			}
			// farmers
			{
				std::vector<pubkey_t> keys; for(auto& f : w.farmers) if(rng.chance(1, 2)) keys.push_back(f.key.pub);
				const uint32_t since = rng.chance(1, 2) ? rng.below(L.height() + 2) : 0;
				std::vector<std::pair<uint32_t, hash_t>> exp; uint64_t total = 0; std::map<addr_t, uint64_t> rew; std::set<pubkey_t> ks(keys.begin(), keys.end());
				for(uint32_t k = std::max<uint32_t>(since, 1); k < L.blocks.size(); ++k) { auto& b = L.blocks[k]; if(ks.count(b->proof[0]->farmer_key)) { exp.emplace_back(k, b->hash); total += b->reward_amount; rew[b->reward_addr ? *b->reward_addr : addr_t()] += b->reward_amount; } }
				const auto sum = api.get_farmed_block_summary(keys, since);
				std::map<addr_t, uint64_t> gr; for(auto& e : sum.reward_map) if(e.second) gr[e.first] = e.second; for(auto i = rew.begin(); i != rew.end();) i = i->second ? std::next(i) : rew.erase(i);
				O(sum.num_blocks == exp.size() && sum.total_rewards == total && gr == rew && (exp.empty() || sum.last_height == exp.back().first), "P61", "farmed-summary", [&]() { return n.name + ": " + std::to_string(sum.num_blocks) + " farmed blocks with rewards " + std::to_string(sum.total_rewards) + " instead of " + std::to_string(exp.size()) + " with " + std::to_string(total); });
				std::map<pubkey_t, uint32_t> rank; for(uint32_t k = 1; k < L.blocks.size(); ++k) rank[L.blocks[k]->proof[0]->farmer_key]++;
				std::map<pubkey_t, uint32_t> got; uint32_t prev = -1; bool desc = true; for(auto& e : api.get_farmer_ranking(-1)) { if(e.second) got[e.first] = e.second; if(e.second > prev) desc = false; prev = e.second; }
				O(got == rank && desc, "P61", "farmer-ranking", [&]() { return n.name + ": farmer ranking differs from the blocks"; });
				if(keys.size()) {
					auto fb = api.get_farmed_blocks(keys, false, since, 1000);
					std::vector<std::pair<uint32_t, hash_t>> g; for(auto& b : fb) if(b) g.emplace_back(b->height, b->hash);
					std::sort(g.begin(), g.end());
					O(g == exp, "P61", "farmed-blocks", [&]() { return n.name + ": " + std::to_string(g.size()) + " farmed blocks instead of " + std::to_string(exp.size()); });
				}
			}
		}
	}
};

} // nd
#endif
