// Random transactions against the state of a ledger, with what has to become of them.
#ifndef VERIF_NODE_GEN_H_
#define VERIF_NODE_GEN_H_
#include "node_model.h"

namespace nd {

enum expect_t { ANY, FAIL, REJECT, SUCCEED };		// FAIL: if included, then as failed; REJECT: never included
struct Item { std::shared_ptr<Transaction> tx; std::string kind; expect_t expect = ANY; std::vector<const Account*> keys; };

struct Known { addr_t addr; std::string kind; int owner = -1; addr_t token; addr_t cur[2]; uint32_t height = 0; uint32_t unlock = 0; u128 price = 0; bool is_token = false; };

struct Gen {
	World& w; const Ledger& L; Rng rng;
	std::map<acur_t, u128> used;			// spent by transactions of this round
	std::map<hash_t, Known> deployed;		// by tx id, known once included
	std::vector<std::shared_ptr<Transaction>> old;		// everything ever made
	std::map<hash_t, std::pair<std::string, expect_t>> plan;
	bool contend = true;		// whether spending may exceed balances in total
	Gen(World& w_, const Ledger& l, uint64_t stream) : w(w_), L(l), rng(w_.ck.rng(stream)) {}

	uint32_t height() const { return L.height() + 1; }
	u128 avail(const addr_t& a, const addr_t& c = addr_t()) { const u128 b = L.balance(a, c), u = used[{a, c}]; return b > u ? b - u : 0; }
	void use(const addr_t& a, u128 v, const addr_t& c = addr_t()) { used[{a, c}] += v; }
	const Account& any() { return w.acc[rng.below(w.acc.size())]; }
	// an account with at least v left
	const Account* rich(u128 v) { const size_t s = rng.below(w.acc.size()); for(size_t i = 0; i < w.acc.size(); ++i) { auto& a = w.acc[(s + i) % w.acc.size()]; if(avail(a.addr) >= v) return &a; } return nullptr; }
	std::vector<Known> of(const std::string& kind) { std::vector<Known> r; for(auto& e : deployed) if(L.contracts.count(addr_t(e.first)) && (kind.empty() || e.second.kind == kind)) r.push_back(e.second); return r; }
	const Account* account(const addr_t& a) const { for(auto& x : w.acc) if(x.addr == a) return &x; return nullptr; }

	std::string memo() {
		switch(rng.below(7)) {
			case 0: return "";
			case 1: { std::string s; for(size_t i = 0, n = rng.pick(std::vector<size_t>{1, 31, 32, 33, 63, 64}); i < n; ++i) s += char('a' + rng.below(26)); return s; }
			default: return "memo" + std::to_string(rng.below(4));
		}
	}
	// signs solution i with keys[i]; then sets the fee limit (0: generous)
	void finish(std::shared_ptr<Transaction> t, const std::vector<const Account*>& keys) { World::sign(t, w.params, keys); }
	u128 static_fee(const Transaction& t) { return u128(t.static_cost) * t.fee_ratio / 1024; }
	std::shared_ptr<Transaction> base(const Account& from) {
		auto t = w.tx(from, height());
		t->fee_ratio = rng.chance(2, 3) ? 1024 : rng.pick(std::vector<uint32_t>{1025, 1500, 2048, 4096, 10240});
		t->note = tx_note_e(tx_note_e::enum_t(rng.pick(std::vector<uint32_t>{tx_note_e::TRANSFER, tx_note_e::EXECUTE, tx_note_e::DEPLOY})));
		if(rng.chance(1, 5)) t->expires = height() + rng.below(50);
		return t;
	}
	static constexpr uint64_t FEE_ROOM = 4000000;

	Item pay() {
		Item it; it.kind = "pay";
		auto* a = rich(FEE_ROOM); if(!a) return it;
		auto t = base(*a);
		std::vector<const Account*> keys = {a};
		// currencies the sender owns
		std::vector<addr_t> curs = {addr_t()};
		for(auto& e : L.bal) if(e.first.first == a->addr && e.first.second != addr_t() && avail(a->addr, e.first.second)) curs.push_back(e.first.second);
		for(int i = rng.range(1, 2); i--;) {
			const addr_t c = rng.pick(curs);
			const u128 room = avail(a->addr, c); const u128 keep = c == addr_t() ? FEE_ROOM : 0;
			if(room <= keep) continue;
			const u128 amount = std::max<u128>(1, c == addr_t() ? (room - keep) / (2 + rng.below(30)) : (room - keep) / (1 + rng.below(4)));
			txin_t in; in.address = a->addr; in.contract = c; in.amount = W(amount); in.solution = 0; if(rng.chance(1, 6)) in.memo = memo();
			t->inputs.push_back(in); use(a->addr, amount, c);
			u128 left = amount; const int n = rng.range(1, 3);
			for(int k = 0; k < n && left; ++k) {
				const u128 v = k == n - 1 ? left : std::max<u128>(1, left / (2 + rng.below(3)));
				vnx::optional<std::string> m; if(rng.chance(1, 3)) m = memo();
				addr_t dst = any().addr;
				if(rng.chance(1, 8)) { auto ks = of(""); if(ks.size()) dst = rng.pick(ks).addr; }
				if(rng.chance(1, 12)) dst = addr_t(hash_t("hole" + std::to_string(rng.below(3))));
				t->add_output(c, dst, W(v), m); left -= v;
			}
		}
		if(rng.chance(1, 3)) { // another signer adds an input
			auto* b = rich(1000000); if(b && b != a) { const u128 v = std::max<u128>(1, avail(b->addr) / (20 + rng.below(20))); txin_t in; in.address = b->addr; in.amount = W(v); in.solution = 1; t->inputs.push_back(in); keys.push_back(b); use(b->addr, v); t->add_output(addr_t(), any().addr, W(v)); it.kind = "pay2"; }
		}
		use(a->addr, 1000000);
		finish(t, keys); it.tx = t; it.expect = SUCCEED;
		return it;
	}
	// all that is left, to the last unit; one more fails
	Item sweep() {
		Item it; auto* a = rich(FEE_ROOM); if(!a || used.count({a->addr, addr_t()})) return it;
		const bool over = rng.chance(1, 2); it.kind = over ? "sweep+1" : "sweep";
		auto t = base(*a); t->add_input(addr_t(), a->addr, uint128(1)); t->inputs[0].solution = 0; t->add_output(addr_t(), any().addr, uint128(1));
		finish(t, {a});
		const u128 v = L.balance(a->addr) - static_fee(*t) + (over ? 1 : 0);
		t->inputs[0].amount = W(v); t->outputs[0].amount = W(v);
		finish(t, {a}); it.tx = t; it.expect = over ? FAIL : SUCCEED; use(a->addr, L.balance(a->addr));
		return it;
	}
	Item bad_amounts() {
		Item it; auto* a = rich(FEE_ROOM * 2); if(!a) return it;
		auto t = base(*a); const u128 v = 1000 + rng.below(100000);
		txin_t in; in.address = a->addr; in.amount = W(v); in.solution = 0; t->inputs.push_back(in);
		it.expect = FAIL;
		switch(rng.below(6)) {
			case 0: it.kind = "out>in"; t->add_output(addr_t(), any().addr, W(v + 1)); break;
			case 1: it.kind = "out<in"; t->add_output(addr_t(), any().addr, W(v - 1)); break;
			case 2: it.kind = "zero-out"; t->add_output(addr_t(), any().addr, W(v)); t->add_output(addr_t(), any().addr, uint128(0)); break;
			case 3: { it.kind = "out-other-currency"; t->add_output(addr_t(hash_t("token")), any().addr, W(v)); break; }
			case 4: { it.kind = "overflow"; // sums which wrap around at 2^128
				const u128 big = ~u128(0); t->add_output(addr_t(), a->addr, W(big)); t->add_output(addr_t(), any().addr, W(v + 1)); break; }
			case 5: { it.kind = "overflow-in"; txin_t x = in; x.amount = W(~u128(0) - v + 1); t->inputs.push_back(x); t->add_output(addr_t(), any().addr, W(v)); break; }
		}
		use(a->addr, v + 1000000);
		finish(t, {a}); it.tx = t; return it;
	}
	// somebody else's money
	Item steal() {
		Item it; auto* a = rich(FEE_ROOM); auto* b = rich(FEE_ROOM); if(!a || !b || a == b) return it;
		auto t = base(*a); const u128 v = 1000 + rng.below(1000);
		txin_t in; in.address = b->addr; in.amount = W(v); in.solution = 0; t->inputs.push_back(in); t->add_output(addr_t(), a->addr, W(v));
		it.expect = FAIL;
		const int k = rng.below(8);
		switch(k) {
			case 0: it.kind = "steal-own-sig"; finish(t, {a}); break;
			case 1: it.kind = "steal-no-solution"; t->inputs[0].solution = rng.chance(1, 2) ? 1 : txin_t::NO_SOLUTION; finish(t, {a}); break;
			case 2: { it.kind = "steal-stale-sig"; t->inputs[0].solution = 1; finish(t, {a, b}); // b's signature is for something else
				auto s = solution::PubKey::create(); s->pubkey = b->pub; s->signature = signature_t::sign(b->skey, hash_t("other" + std::to_string(rng.next()))); t->solutions[1] = s; t->content_hash = t->calc_hash(true); break; }
			case 3: { it.kind = "steal-key-swap"; t->inputs[0].solution = 1; finish(t, {a, b}); auto s = solution::PubKey::create(); s->pubkey = b->pub; s->signature = signature_t::sign(a->skey, t->id); t->solutions[1] = s; t->content_hash = t->calc_hash(true); break; }
			case 4: { it.kind = "forged-sender"; it.expect = REJECT; t->sender = b->addr; t->inputs[0].address = a->addr; finish(t, {a}); break; }
			case 5: { it.kind = "sender-second-sig"; it.expect = REJECT; t->sender = b->addr; t->inputs[0].address = a->addr; t->inputs[0].solution = 0; auto t2 = base(*a); txin_t x = t->inputs[0]; x.address = b->addr; x.solution = 1; t->inputs.push_back(x); t->add_output(addr_t(), a->addr, W(v)); finish(t, {a, b}); break; }
			case 6: { it.kind = "steal-exec-flag"; t->inputs[0].flags = txin_t::IS_EXEC; finish(t, {a}); break; }
			case 7: { it.kind = "steal-changed-after"; t->inputs[0].solution = 1; finish(t, {a, b}); // both signed, then the amount grows
				it.expect = REJECT; t->inputs[0].amount = W(v + 1); t->outputs[0].amount = W(v + 1); t->static_cost = t->calc_cost(w.params); if(rng.chance(1, 2)) t->id = t->calc_hash(); t->content_hash = t->calc_hash(true); break; }
		}
		use(a->addr, 1000000); use(b->addr, 1000000 + v);
		it.tx = t; return it;
	}
	// same id, other solution indices or flags: the id does not commit to them
	Item malleate() {
		Item it; if(old.empty()) return it;
		auto t = vnx::clone(rng.pick(old)); if(t->inputs.empty()) return it;
		it.kind = "malleated"; auto& in = t->inputs[rng.below(t->inputs.size())];
		if(rng.chance(1, 2)) in.flags ^= txin_t::IS_EXEC; else in.solution ^= 1;
		t->content_hash = t->calc_hash(true); it.tx = t; it.expect = ANY; return it;
	}
	Item replay() {
		Item it; if(old.empty()) return it;
		it.kind = "replay"; it.tx = vnx::clone(rng.pick(old)); it.expect = L.txs.count(it.tx->id) ? REJECT : ANY;
		if(it.expect == REJECT && rng.chance(1, 2)) { // from the chain, with its result
			it.tx = vnx::clone(L.txs.at(it.tx->id).second); it.kind = "replay-included"; }
		return it;
	}
	Item expired() {
		Item it = pay(); if(!it.tx) return it;
		const int d = rng.below(3);		// expires at the height before, at, after the next block
		it.kind = d == 0 ? "expired" : "expires-now"; it.tx->expires = height() - 1 + d;
		std::vector<const Account*> keys; for(auto& s : it.tx->solutions) keys.push_back(account(std::dynamic_pointer_cast<const solution::PubKey>(s)->pubkey.get_addr()));
		finish(it.tx, keys); it.expect = d == 0 ? FAIL : SUCCEED; return it;
	}
	Item wrong_static() {
		Item it; auto* a = rich(FEE_ROOM); if(!a) return it;
		auto t = base(*a); txin_t in; in.address = a->addr; in.amount = 1000; in.solution = 0; t->inputs.push_back(in); t->add_output(addr_t(), any().addr, uint128(1000));
		it.expect = REJECT; finish(t, {a});
		auto sig = [&](bool id) { if(id) t->id = t->calc_hash(); auto s = solution::PubKey::create(); s->pubkey = a->pub; s->signature = signature_t::sign(a->skey, t->id); t->solutions[0] = s; t->content_hash = t->calc_hash(true); };
		switch(rng.below(12)) {
			case 0: it.kind = "bad-network"; t->network = rng.chance(1, 2) ? "testnet12" : ""; sig(true); break;
			case 1: it.kind = "bad-version"; t->version = rng.chance(1, 2) ? 0 : 2; sig(true); break;
			case 2: it.kind = "bad-static-cost"; t->static_cost -= rng.range(1, 1000); sig(true); break;
			case 3: it.kind = "bad-fee-ratio"; t->fee_ratio = rng.chance(1, 2) ? 1023 : 0; sig(true); break;
			case 4: it.kind = "fee-limit-too-low"; t->max_fee_amount = uint32_t(static_fee(*t)) - 1; sig(true); break;
			case 5: it.kind = "no-nonce"; t->nonce = 0; sig(true); break;
			case 6: it.kind = "no-sender"; t->sender = nullptr; sig(true); break;
			case 7: it.kind = "no-solution"; t->solutions.clear(); t->static_cost = t->calc_cost(w.params); t->id = t->calc_hash(); t->content_hash = t->calc_hash(true); break;
			case 8: it.kind = "wrong-id"; t->id = hash_t("wrong" + std::to_string(rng.next())); t->content_hash = t->calc_hash(true); break;
			case 9: it.kind = "wrong-content-hash"; t->content_hash = hash_t("wrong" + std::to_string(rng.next())); break;
			case 10: { it.kind = "unused-solution"; auto& b = any(); auto s = solution::PubKey::create(); s->pubkey = b.pub; t->solutions.push_back(s); t->static_cost = t->calc_cost(w.params); t->id = t->calc_hash(); s->signature = signature_t::sign(b.skey, t->id); auto s0 = solution::PubKey::create(); s0->pubkey = a->pub; s0->signature = signature_t::sign(a->skey, t->id); t->solutions[0] = s0; t->content_hash = t->calc_hash(true); break; }
			case 11: { it.kind = "poor-sender"; Account p = World::account("poor" + std::to_string(rng.next())); t->sender = p.addr; t->inputs.clear(); t->outputs.clear(); World::sign(t, w.params, {&p}); break; }
		}
		it.tx = t; return it;
	}
	void token_fields(std::shared_ptr<contract::TokenBase> c, const std::string& sym, int dec) { c->name = "Token " + sym; c->symbol = sym; c->decimals = dec; }
	static vnx::Variant V(const std::string& s) { return vnx::Variant(s); }
	static vnx::Variant V(const addr_t& a) { return vnx::Variant(a.to_string()); }
	static vnx::Variant V(u128 v) { return W(v).to_var_arg(); }
	static vnx::Variant N(uint64_t v) { return vnx::Variant(v); }

	Item deploy(const std::string& what_ = "") {
		Item it; auto* a = rich(FEE_ROOM * 2); if(!a) return it;
		static const std::vector<std::string> kinds = {"token", "token", "time_lock", "escrow", "relay", "offer", "offer", "swap", "nft", "plot_nft", "multisig", "multisig", "data", "webdata", "pubkey", "tokenbase", "bad-binary", "bad-depends", "bad-init"};
		const std::string k = what_.empty() ? rng.pick(kinds) : what_;
		auto t = base(*a); Known kn; kn.kind = k; kn.owner = a - &w.acc[0];
		auto exec = contract::Executable::create();
		it.expect = SUCCEED; it.kind = "deploy-" + k;
		const int ow = rng.below(w.acc.size());
		if(k == "token") { token_fields(exec, "TOK", 6); exec->binary = w.params->token_binary; exec->init_args = {V(w.acc[ow].addr)}; kn.owner = ow; kn.is_token = true; }
		else if(k == "time_lock") { exec->binary = w.params->time_lock_binary; kn.unlock = height() + rng.below(8); exec->init_args = {V(w.acc[ow].addr), N(kn.unlock)}; kn.owner = ow; }
		else if(k == "escrow") { exec->binary = w.params->escrow_binary; exec->init_args = {V(any().addr), V(w.acc[ow].addr), V(any().addr)}; kn.owner = ow; }
		else if(k == "relay") { exec->binary = w.params->relay_binary; exec->init_args = {V(w.acc[ow].addr)}; kn.owner = ow; }
		else if(k == "plot_nft") { exec->binary = w.params->plot_nft_binary; exec->init_args = {V(w.acc[ow].addr)}; kn.owner = ow; exec->name = "nft"; }
		else if(k == "nft") { token_fields(exec, "NFT", 0); exec->binary = w.params->nft_binary; exec->init_args = {V(a->addr)}; kn.is_token = true; }
		else if(k == "offer" || k == "swap") {
			auto tok = of("token"); if(tok.empty()) return deploy("token");
			kn.cur[0] = rng.pick(tok).addr; kn.cur[1] = addr_t(); if(k == "offer" && rng.chance(1, 2)) std::swap(kn.cur[0], kn.cur[1]);
			if(k == "swap") { exec->binary = w.params->swap_binary; exec->init_args = {V(kn.cur[0]), V(kn.cur[1])}; }
			else { exec->binary = w.params->offer_binary; kn.price = (u128(1) << 64) / rng.range(1, 20) * rng.range(1, 20); exec->init_args = {V(a->addr), V(kn.cur[0]), V(kn.cur[1]), V(kn.price), vnx::Variant()}; }
		}
		else if(k == "bad-binary") { exec->binary = rng.chance(1, 2) ? addr_t(hash_t("none")) : a->addr; exec->init_args = {V(a->addr)}; it.expect = FAIL; }
		else if(k == "bad-depends") { token_fields(exec, "TOK", 6); exec->binary = w.params->token_binary; exec->init_args = {V(a->addr)}; exec->depends["x"] = addr_t(hash_t("none")); it.expect = FAIL; }
		else if(k == "bad-init") { exec->binary = w.params->time_lock_binary; switch(rng.below(4)) { case 0: exec->init_args = {V(std::string("nonsense")), N(1)}; break; case 1: exec->init_method = "withdraw"; break; case 2: exec->init_method = "nope"; break; default: exec->init_args = {V(a->addr), V(std::string("x1"))}; } it.expect = FAIL; }
		if(k == "multisig") { auto m = contract::MultiSig::create(); const int n = rng.range(1, 3); while(int(m->owners.size()) < n) m->owners.insert(any().addr); m->num_required = rng.range(1, n); t->deploy = m; }
		else if(k == "data") { auto d = contract::Data::create(); d->value = rng.chance(1, 2) ? V(std::string("some data ") + std::to_string(rng.next())) : N(rng.next()); t->deploy = d; }
		else if(k == "webdata") { auto d = contract::WebData::create(); d->mime_type = "text/plain"; d->payload = vnx::Buffer(std::string("hello " + std::to_string(rng.next()))); t->deploy = d; }
		else if(k == "pubkey") { auto d = contract::PubKey::create(); d->address = w.acc[ow].addr; kn.owner = ow; t->deploy = d; }
		else if(k == "tokenbase") { auto d = contract::TokenBase::create(); token_fields(d, "BASE", 3); t->deploy = d; }
		else t->deploy = exec;
		if(rng.chance(1, 4)) { // with an implicit deposit
			const u128 v = 1000 + rng.below(1000000); txin_t in; in.address = a->addr; in.amount = W(v); in.solution = 0; t->inputs.push_back(in); use(a->addr, v);
		}
		use(a->addr, 3000000);
		finish(t, {a}); it.tx = t; kn.addr = t->id; kn.height = height(); deployed[t->id] = kn;
		return it;
	}
	void call(Transaction& t, const addr_t& c, const std::string& m, const std::vector<vnx::Variant>& args, const Account* user, int sol) {
		auto op = operation::Execute::create(); op->address = c; op->method = m; op->args = args; op->solution = sol; if(user) op->user = user->addr; t.execute.push_back(op);
	}
	void deposit(Transaction& t, const addr_t& c, const std::string& m, const std::vector<vnx::Variant>& args, const Account* user, int sol, const addr_t& cur, u128 v) {
		auto op = operation::Deposit::create(); op->address = c; op->method = m; op->args = args; op->solution = sol; if(user) op->user = user->addr; op->currency = cur; op->amount = W(v); t.execute.push_back(op);
	}
	void input(Transaction& t, const Account& a, const addr_t& c, u128 v, int sol = 0) { txin_t in; in.address = a.addr; in.contract = c; in.amount = W(v); in.solution = sol; t.inputs.push_back(in); use(a.addr, v, c); }

	Item execute(const std::string& kind = "") {
		Item it; auto ks = of(kind); if(ks.empty()) return kind.empty() ? deploy() : it;
		const Known k = rng.pick(ks);
		auto* a = rich(FEE_ROOM); if(!a) return it;
		const Account& owner = k.owner >= 0 ? w.acc[k.owner] : any();
		const bool by_owner = rng.chance(3, 4);
		if(by_owner && avail(owner.addr) >= FEE_ROOM && rng.chance(2, 3)) a = &owner;
		const Account* user = by_owner ? &owner : &any();
		auto t = base(*a); std::vector<const Account*> keys = {a};
		const bool forged = user != a && rng.chance(1, 5);
		int sol = 0; if(user != a && !forged) { sol = 1; }
		bool uses_user = true;
		it.kind = "exec-" + k.kind; it.expect = ANY;
		std::vector<addr_t> curs = {addr_t()}; for(auto& e : L.bal) if(e.first.first == k.addr && e.second) curs.push_back(e.first.second);
		const addr_t cur = rng.pick(curs); const u128 held = L.balance(k.addr, cur);
		auto some = [&](u128 v) -> u128 { return rng.chance(1, 4) ? v : rng.chance(1, 6) ? v + 1 : v ? v / (1 + rng.below(5)) : rng.below(3); };
		if(k.kind == "token") {
			switch(rng.below(5)) {
				case 0: case 1: case 2: { const u128 v = rng.chance(1, 8) ? (u128(1) << (60 + rng.below(19))) : 1000 + rng.below(100000000); call(*t, k.addr, "mint_to", {V(any().addr), V(v), vnx::Variant()}, user, sol); if(rng.chance(1, 3)) call(*t, k.addr, "mint_to", {V(any().addr), V(v), V(std::string("mm"))}, user, sol); break; }
				case 3: call(*t, k.addr, "recover", {V(some(held)), V(cur)}, user, sol); break;
				case 4: call(*t, k.addr, rng.chance(1, 2) ? "nope" : "check_owner", {}, user, sol); it.expect = FAIL; break;
			}
		} else if(k.kind == "time_lock") {
			switch(rng.below(4)) {
				case 0: { const u128 v = 1 + rng.below(1000000); input(*t, *a, addr_t(), v); deposit(*t, k.addr, "deposit", {}, nullptr, 0, addr_t(), v); uses_user = false; break; }
				case 1: case 2: call(*t, k.addr, "withdraw", {V(any().addr), V(some(held)), V(cur)}, user, sol); if(height() < k.unlock) it.expect = FAIL; if(user->addr != owner.addr) it.expect = FAIL; break;
				case 3: call(*t, k.addr, "set_unlock_height", {N(height() + rng.below(4))}, user, sol); break;
			}
		} else if(k.kind == "escrow") {
			if(rng.chance(1, 2)) { const u128 v = 1 + rng.below(1000000); input(*t, *a, addr_t(), v); deposit(*t, k.addr, "deposit", {}, nullptr, 0, addr_t(), v); uses_user = false; }
			else { call(*t, k.addr, rng.chance(1, 2) ? "unlock" : "cancel", {cur == addr_t() && rng.chance(1, 2) ? vnx::Variant() : V(cur)}, user, sol); if(user->addr != owner.addr) it.expect = FAIL; }
		} else if(k.kind == "relay") {
			switch(rng.below(5)) { case 0: case 1: if(!held) { const u128 v = 1 + rng.below(1000000); input(*t, *a, addr_t(), v); t->add_output(addr_t(), k.addr, W(v)); } call(*t, k.addr, "claim_all", {cur == addr_t() && rng.chance(1, 2) ? vnx::Variant() : V(cur)}, user, sol); break; case 2: case 3: call(*t, k.addr, "transfer", {V(any().addr)}, user, sol); break; default: call(*t, k.addr, "complete", {}, user, sol); }
		} else if(k.kind == "plot_nft") {
			switch(rng.below(4)) { case 0: call(*t, k.addr, "lock", {V(any().addr), V(std::string("http://x"))}, user, sol); break; case 1: call(*t, k.addr, "unlock", {}, user, sol); break; case 2: if(rng.chance(1, 2)) { const u128 v = 1 + rng.below(1000000); input(*t, *a, addr_t(), v); t->add_output(addr_t(), k.addr, W(v)); } call(*t, k.addr, "claim_all", {V(cur)}, user, sol); break; default: call(*t, k.addr, "transfer", {V(w.acc[k.owner].addr)}, user, sol); }
		} else if(k.kind == "nft") {
			call(*t, k.addr, "mint_to", {V(any().addr), vnx::Variant()}, user, sol);
		} else if(k.kind == "offer") {
			const addr_t bid = k.cur[0], ask = k.cur[1];
			switch(rng.below(6)) {
				case 0: case 1: { const u128 v = avail(a->addr, bid) / (2 + rng.below(50)); if(!v) { call(*t, k.addr, "cancel", {}, user, sol); break; } input(*t, *a, bid, v); deposit(*t, k.addr, "deposit", {}, user, sol, bid, v); break; }
				case 2: case 3: { const u128 v = avail(a->addr, ask) / (2 + rng.below(500)); if(!v) { call(*t, k.addr, "withdraw", {}, user, sol); break; } input(*t, *a, ask, v); const u128 pr = rng.chance(1, 6) ? k.price + 1 : k.price; deposit(*t, k.addr, rng.chance(1, 2) ? "trade" : "accept", {V(any().addr), V(pr)}, nullptr, 0, ask, v); uses_user = false; if(pr != k.price) it.expect = FAIL; break; }
				case 4: call(*t, k.addr, rng.chance(1, 2) ? "cancel" : "withdraw", {}, user, sol); break;
				case 5: call(*t, k.addr, "set_price", {V(k.price + 5)}, user, sol); it.expect = FAIL; break;
			}
		} else if(k.kind == "swap") {
			const int i = rng.below(2);
			switch(rng.below(6)) {
				case 0: case 1: case 2: { const u128 v = avail(a->addr, k.cur[i]) / (2 + rng.below(20)); if(!v) { call(*t, k.addr, "payout", {}, user, sol); break; } input(*t, *a, k.cur[i], v); deposit(*t, k.addr, "add_liquid", {N(i), N(rng.below(4))}, a, 0, k.cur[i], v); uses_user = false; break; }
				case 3: case 4: { const u128 v = avail(a->addr, k.cur[i]) / (10 + rng.below(1000)); if(!v) { call(*t, k.addr, "payout", {}, user, sol); break; } input(*t, *a, k.cur[i], v); deposit(*t, k.addr, "trade", {N(i), V(any().addr), rng.chance(1, 3) ? V(v) : vnx::Variant(), N(rng.range(1, 8))}, nullptr, 0, k.cur[i], v); uses_user = false; break; }
				case 5: if(rng.chance(1, 2)) call(*t, k.addr, "payout", {}, user, sol); else call(*t, k.addr, "rem_liquid", {N(i), N(1 + rng.below(100000)), vnx::Variant(false)}, user, sol); break;
			}
		} else if(k.kind == "multisig") { return multisig(k); }
		else { // not callable
			call(*t, k.addr, "anything", {}, nullptr, 0); uses_user = false; it.expect = FAIL; }
		if(uses_user && sol == 1) keys.push_back(user);
		if(uses_user && forged) { it.kind = "forged-user"; it.expect = FAIL; if(t->execute.size()) { auto op = vnx::clone(std::dynamic_pointer_cast<const operation::Execute>(t->execute[0])); op->solution = rng.chance(1, 2) ? 0 : 7; t->execute[0] = op; } }
		if(rng.chance(1, 6)) { // a second operation decides over the first
			call(*t, k.addr, "does_not_exist", {}, nullptr, 0); it.kind += "+fail"; it.expect = FAIL; }
		else if(rng.chance(1, 8)) t->execute.push_back(t->execute.back());
		use(a->addr, 3000000);
		finish(t, keys);
		if(rng.chance(1, 5)) { // little gas
			t->max_fee_amount = uint32_t(static_fee(*t)) + rng.pick(std::vector<uint32_t>{0, 1, 1000, 3000, 10000, 20000, 60000}); finish(t, keys); it.kind += "+gas"; if(it.expect == SUCCEED) it.expect = ANY; }
		it.tx = t; it.keys = keys; return it;
	}
	Item multisig(const Known& k) {
		Item it; auto m = std::dynamic_pointer_cast<const contract::MultiSig>(L.contract(k.addr)); if(!m) return it;
		auto* a = rich(FEE_ROOM); if(!a) return it;
		auto t = base(*a); const u128 held = L.balance(k.addr), left = avail(k.addr);
		if(!held || rng.chance(1, 4)) { const u128 v = 100000 + rng.below(10000000); if(avail(a->addr) < v + FEE_ROOM) return it; input(*t, *a, addr_t(), v); t->add_output(addr_t(), k.addr, W(v)); use(a->addr, 1000000); finish(t, {a}); it.tx = t; it.kind = "multisig-fund"; it.expect = SUCCEED; return it; }
		if(!left) return it;
		const u128 v = std::max<u128>(1, left / (1 + rng.below(6)));
		txin_t in; in.address = k.addr; in.amount = W(v); in.solution = 1; in.flags = txin_t::IS_EXEC; t->inputs.push_back(in); use(k.addr, v); t->add_output(addr_t(), any().addr, W(v));
		std::vector<const Account*> own; for(auto& o : m->owners) own.push_back(account(o));
		const int mode = rng.below(7);
		auto s = solution::MultiSig::create(); s->num_required = m->num_required;
		std::vector<std::pair<addr_t, const Account*>> who;
		it.kind = "multisig-" + std::to_string(mode); it.expect = SUCCEED;
		size_t n = m->num_required;
		if(mode == 1) { n--; it.expect = FAIL; }
		if(mode == 2) { s->num_required = n > 1 ? n - 1 : n + 1; n = std::min<size_t>(n, s->num_required); it.expect = FAIL; }
		for(size_t i = 0; i < n && i < own.size(); ++i) who.emplace_back(own[i]->addr, own[i]);
		if(mode == 3 && who.size()) { who.back().second = &w.acc[rng.below(w.acc.size())]; if(who.back().second->addr != who.back().first) it.expect = FAIL; }		// someone else's key under an owner's name
		if(mode == 4) { auto& o = any(); if(!m->owners.count(o.addr)) { who.emplace_back(o.addr, &o); it.expect = FAIL; } }
		if(mode == 5 && m->owners.size() > n) { it.expect = SUCCEED; for(size_t i = n; i < own.size(); ++i) who.emplace_back(own[i]->addr, own[i]); }
		if(mode == 6 && m->num_required == 1) { // a plain signature of one owner
			auto* o = rng.chance(1, 2) ? own[rng.below(own.size())] : &any(); if(!m->owners.count(o->addr)) it.expect = FAIL;
			if(o == a) { t->inputs[0].solution = 0; finish(t, {a}); } else finish(t, {a, o});
			use(a->addr, 1000000); it.tx = t; return it;
		}
		std::map<addr_t, std::shared_ptr<solution::PubKey>> sols;
		for(auto& e : who) { auto x = solution::PubKey::create(); x->pubkey = e.second->pub; sols[e.first] = x; }
		auto set = [&]() { s->solutions.clear(); for(auto& e : sols) s->solutions[e.first] = e.second; };
		set();
		auto s0 = solution::PubKey::create(); s0->pubkey = a->pub;
		t->solutions = {s0, s}; t->static_cost = t->calc_cost(w.params); t->id = t->calc_hash();
		for(auto& e : who) sols[e.first]->signature = signature_t::sign(e.second->skey, t->id);
		if(rng.chance(1, 10) && who.size()) { sols[who[0].first]->signature = signature_t::sign(who[0].second->skey, hash_t("x")); if(n <= m->num_required || mode != 5) it.expect = FAIL; else it.expect = ANY; it.kind += "-badsig"; }
		s0->signature = signature_t::sign(a->skey, t->id);
		t->content_hash = t->calc_hash(true);
		if(who.empty() || m->num_required < 1) it.expect = FAIL;
		use(a->addr, 1000000); it.tx = t; return it;
	}

	// a fee larger than all that a block creates
	Item bigfee() {
		Item it; auto* a = rich(u128(3) << 30); if(!a) return it;
		auto t = base(*a); const u128 v = 1 + rng.below(1000); txin_t in; in.address = a->addr; in.amount = W(v); in.solution = 0; t->inputs.push_back(in); t->add_output(addr_t(), any().addr, W(v));
		finish(t, {a}); t->fee_ratio = uint32_t(std::min<u128>((u128(1024) << 30) * (5 + rng.below(6)) / 4 / t->static_cost, 0xFFFFFFFF)); finish(t, {a});
		use(a->addr, (u128(1) << 32) + v); it.tx = t; it.kind = "bigfee"; it.expect = SUCCEED; return it;
	}
	// a call which works by itself but not together with a payment of its sender, and a call of somebody else which works only after it
	std::vector<Item> trap() {
		std::vector<Item> r;
		auto ks = of("relay"); for(auto& k : of("token")) ks.push_back(k);
		if(ks.empty()) return r;
		const Known k = rng.pick(ks); const Account* o = &w.acc[k.owner]; const Account* n = &any();
		if(o == n || avail(o->addr) < 4 * FEE_ROOM || used.count({o->addr, addr_t()}) || avail(n->addr) < FEE_ROOM) return r;
		auto pay = base(*o), call1 = base(*o), call2 = base(*n);
		pay->fee_ratio = 8192; call1->fee_ratio = 4096; call2->fee_ratio = rng.chance(1, 2) ? 1024 : 2048;
		const u128 bal = L.balance(o->addr), v = bal - 4 * FEE_ROOM, u = 5 * FEE_ROOM <= bal / 2 ? 5 * FEE_ROOM : bal / 2;
		input(*pay, *o, addr_t(), v); pay->add_output(addr_t(), o->addr, W(v));
		input(*call1, *o, addr_t(), u); call1->add_output(addr_t(), o->addr, W(u));
		call(*call1, k.addr, "transfer", {V(n->addr)}, o, 0);
		if(k.kind == "relay") call(*call2, k.addr, "complete", {}, n, 0); else call(*call2, k.addr, "mint_to", {V(n->addr), V(u128(12345)), vnx::Variant()}, n, 0);
		finish(pay, {o}); finish(call1, {o}); finish(call2, {n});
		use(o->addr, bal); use(n->addr, FEE_ROOM);
		const bool three = rng.chance(3, 4);
		r.resize(three ? 3 : 2);
		r[0].tx = pay; r[0].kind = "trap-pay"; r[0].expect = SUCCEED;
		r[1].tx = call1; r[1].kind = "trap-call";
		if(three) { r[2].tx = call2; r[2].kind = "trap-next"; }
		return r;
	}

	Item next(int mix) {
		Item it;
		const int r = rng.below(100);
		if(mix == 1) it = r < 30 ? pay() : r < 38 ? sweep() : r < 50 ? bad_amounts() : r < 60 ? execute() : r < 70 ? deploy() : r < 80 ? expired() : r < 90 ? replay() : wrong_static();	// value
		else if(mix == 2) it = r < 15 ? pay() : r < 50 ? steal() : r < 65 ? execute("multisig") : r < 80 ? execute() : r < 90 ? deploy() : wrong_static();		// authorisation
		else if(mix == 3) it = r < 10 ? pay() : r < 35 ? deploy() : execute();			// contracts
		else it = r < 22 ? pay() : r < 27 ? sweep() : r < 34 ? bad_amounts() : r < 42 ? steal() : r < 46 ? replay() : r < 50 ? expired() : r < 54 ? wrong_static() : r < 56 ? malleate() : r < 70 ? deploy() : execute();
		return it;
	}
	std::vector<Item> round(int n, int mix) {
		used.clear();
		std::vector<Item> v;
		if(mix != 2 && rng.chance(1, 2)) { v = trap(); }
		if(mix < 2 && rng.chance(1, 4)) { auto it = bigfee(); if(it.tx) v.push_back(it); }
		for(int i = 0; i < n * 3 && int(v.size()) < n; ++i) { auto it = next(mix); if(it.tx) { v.push_back(it); } }
		for(auto& it : v) {
			if(it.kind.compare(0, 6, "replay") && it.kind != "malleated") { plan[it.tx->id] = {it.kind, it.expect}; old.push_back(it.tx); }
			if(old.size() > 300) old.erase(old.begin());
			w.ck.count("tx_made");
		}
		return v;
	}
};

} // nd
#endif
