// The runs of h_vm.cpp.

static std::string rstr_(Rng& r) { return gen::rbin(r, 16); }

// the same call with less to spend
static void sweep(Check& ck, const std::string& mode, RealWorld& r, Call call, const Result& want, Rng& rng)
{
	const uint64_t used = want.gas;
	std::vector<uint64_t> limits = {used, used ? used - 1 : 0, 0, used + 1 + rng.below(1000)};
	for(int i = 0; i < 5; ++i) limits.push_back(rng.below(used + 1));
	for(auto l : limits) {
		call.limit = l;
		const Result got = r.exec(call, false);
		ck.eval();
		ck.count("limits_tried");
		if(l >= used) {
			Result w = want;
			if(!w.same(got, false)) { ck.violation(sigkey(mode, "limit-exact"), "with a limit of " + std::to_string(l) + " the call gave " + got.str() + ", with more gas " + want.str()); return; }
		} else {
			if(got.ok) { ck.violation(sigkey(mode, "limit-ignored"), "the call needs " + std::to_string(used) + " gas and succeeded with " + std::to_string(l)); return; }
			if(got.gas <= l && got.code != uint32_t(error_code_e::TXFEE_OVERRUN)) ck.count("failed_in_child");
			if(got.code != uint32_t(error_code_e::TXFEE_OVERRUN) && got.gas > l) { ck.violation(sigkey(mode, "limit-code"), "a call that ran out of gas reports code " + std::to_string(got.code)); return; }
			// one instruction can not overshoot by more than its own bounded work
			if(got.gas > l + 52500000) { ck.violation(sigkey(mode, "limit-overshoot"), "gas " + std::to_string(got.gas) + " with limit " + std::to_string(l)); return; }
		}
	}
}

static void run_diff(Check& ck, const std::string& mode)
{
	const bool gas = mode == "gas", iso = mode == "isolation", per = mode == "persist", back = mode == "backends", diff = mode == "diff";
	Rng rng = ck.rng(diff ? 1 : gas ? 2 : iso ? 3 : per ? 4 : 5);
	const uint64_t worlds = ck.n(diff ? 260 : 90, diff ? 6000 : 2000);
	const uint64_t calls_per = diff || gas || iso ? 24 : 30;
	std::map<int, uint64_t> ops;
	uint64_t ok_calls = 0, steps = 0, remote = 0, out_n = 0, dbn = 0;
	for(uint64_t w = 0; w < worlds; ++w) {
		std::vector<gen::Contract> defs;
		gen::Maker maker(rng, defs);
		maker.hostile = w % 3 == 0 ? 6 : 1;
		maker.store_bias = back || per ? (w % 2 ? 40 : 15) : w % 4 ? 6 : 30;
		{
			for(int i = 0; i < 2; ++i) {
				hash_t h(rstr_(rng));
				auto sk = skey_t(hash_t("k" + std::to_string(i) + rstr_(rng)));
				auto pk = pubkey_t(sk);
				auto sig = signature_t::sign(sk, h);
				maker.signed_.push_back({raw(h), raw(pk), raw(sig)});
			}
			maker.extra_consts = [&](std::vector<rv::V>& k) { for(auto& t : maker.signed_) for(auto& s : t) k.push_back(rv::V::B(s)); };
		}
		maker.make_contracts(3);
		ModelWorld model(defs, maker);
		model.env.addr_decode = [](const std::string& s, std::string& out) { try { out = raw(addr_t(s)); return true; } catch(...) { return false; } };
		model.env.addr_encode = [](const std::string& s) { return addr_of(s).to_string(); };
		model.env.verify = [](const std::string& sig, const std::string& key, const std::string& msg, bool& ok) {
			if(sig.size() != 64 || key.size() != 33 || msg.size() != 32) return false;
			try {
				const signature_t s(std::vector<uint8_t>(sig.begin(), sig.end())); const pubkey_t k(std::vector<uint8_t>(key.begin(), key.end()));
				ok = s.verify(k, hash_t::from_bytes(std::vector<uint8_t>(msg.begin(), msg.end())));
			} catch(...) { return false; }
			return true;
		};
		std::vector<std::unique_ptr<RealWorld>> reals;
		auto add = [&](const std::string& n) { reals.push_back(std::make_unique<RealWorld>(ck, mode, n, defs)); return reals.back().get(); };
		add("ram")->open_ram();
		const bool with_db = back || per || w % 6 == 0;
		if(back) { auto r = add("ram+cache"); r->open_ram(); r->block_cache = true; }
		if(with_db) { const std::string p = ck.scratch + "/db" + std::to_string(dbn++) + "/"; vnx::Directory(p).create(); auto r = add("db+cache"); r->open_db(p); r->block_cache = true; }
		if(back) { const std::string p = ck.scratch + "/db" + std::to_string(dbn++) + "/"; vnx::Directory(p).create(); add("db")->open_db(p); }
		if(iso || (gas && w % 2)) reals[0]->step_mode = true;
		if(iso) for(auto& r : reals) r->spy_on = true;
		for(int c = 0; c < 3; ++c) for(auto& cur : maker.currencies) {
			const rv::u128 amount = rng.below(3) ? rng.any64() : ((rv::u128)rng.next() << 60);
			model.st.bal[{c, cur}] = amount;
			for(auto& r : reals) r->set_balance(defs[c].address, addr_of(cur), amount);
		}
		std::map<uint32_t, rv::Store> snaps;
		uint32_t height = 0;
		snaps[0] = model.st;
		for(auto& r : reals) { r->drain(); r->past[0] = r->balances; }
		for(uint64_t n = 0; n < calls_per; ++n) {
			Call call;
			call.contract = int(rng.below(8)); call.contract = call.contract < 5 ? 0 : call.contract < 7 ? 1 : 2;
			call.method = "m" + std::to_string(rng.chance(1, 8) ? 5 : rng.below(4));
			call.is_const = defs[call.contract].is_const[call.method];
			for(int i = rng.below(4); i > 0; --i) call.args.push_back(gen::any_var(rng, 3));
			call.has_user = rng.chance(2, 3); call.user = gen::any256(rng);
			call.deposit = !call.is_const && rng.chance(1, 3);
			if(call.deposit) { call.dep_cur = rng.pick(maker.currencies); call.dep_amount = rng.below(1000000); }
			call.late_setup = call.is_const || rng.chance(1, 2);
			call.limit = rng.chance(1, 4) ? rng.below(60000) : rng.chance(1, 20) ? rng.below(3000) : 3000000;
			call.height = uint32_t(rng.next()); call.txid = gen::rbin(rng, 32); call.version = rng.chance(3, 4) ? 1 : 0;
			model.ops.clear(); model.steps = 0; model.remote = 0;
			ck.mark("world " + std::to_string(w) + " call " + std::to_string(n) + " model");
			g_tr[0].clear(); g_tr[1].clear();
			const rv::Store before = gas || per ? model.st : rv::Store();
			const Result want = model.exec(call);
			for(auto& e : model.ops) ops[e.first] += e.second;
			steps += model.steps; remote += model.remote;
			if(want.ok) { ok_calls++; out_n += want.outs.size(); }
			for(auto& d : defs) seal_code(d);
			ck.mark("world " + std::to_string(w) + " call " + std::to_string(n) + " " + defs[call.contract].name + "." + call.method + " real\n" + listing(defs[0]) + "--\n" + listing(defs[1]) + "--\n" + listing(defs[2]));
			const bool free_gas = model.unordered && !want.ok;
			if(free_gas) ck.count("gas_not_compared");
			for(auto& r : reals) {
				if(gas && want.ok && !call.is_const && r == reals[0]) sweep(ck, mode, *r, call, want, rng);
				const Result got = r->exec(call, true);
				ck.eval();
				if(!want.same(got, free_gas)) {
					const std::string kind = want.ok != got.ok ? "outcome" : want.outs != got.outs ? "outputs" : want.gas != got.gas ? "gas" : want.ret != got.ret ? "return" : "error";
					std::string at;
					const uint32_t ea = want.addr != uint32_t(-1) ? want.addr : got.addr;
					if(ea < defs[call.contract].code.size()) at = ":" + op_name(defs[call.contract].code[ea].code);
					ck.violation(sigkey(mode, kind + at), r->name + ": " + defs[call.contract].name + "." + call.method + " gave " + got.str() + ", expected " + want.str(), listing(defs[0], 300) + "--\n" + listing(defs[1], 300) + "--\n" + listing(defs[2], 300));
					if(g_trace) {
						printf("model %s\nreal %s\n", want.str().c_str(), got.str().c_str());
						for(auto& a : call.args) printf("arg %s\n", variant_of(a).to_string().c_str());
						for(int i = 0; i < 2; ++i) { printf("%s:", i ? "real" : "model"); for(auto& t : g_tr[i]) printf(" | %s", t.c_str()); printf("\n"); }
						printf("%s--\n%s", listing(defs[0], 300).c_str(), listing(defs[1], 300).c_str());
						exit(3);
					}
					goto next_world;
				}
			}
			ck.nontrivial(std::hash<std::string>()(want.str()) ^ w * 1315423911u ^ n * 2654435761u);
			if(n % 4 == 3 || n + 1 == calls_per) {
				for(auto& r : reals) r->seal();
				snaps[++height] = model.st;
				if((per || back) && rng.chance(1, 3)) { for(auto& r : reals) r->reopen(); ck.count("restarts"); }
				for(auto& r : reals) compare_store(ck, mode, model, *r, defs);
				if(per && rng.chance(1, 2)) { const uint32_t h = uint32_t(rng.below(height)); for(auto& r : reals) if(r->db) compare_past(ck, mode, snaps[h + 1], *r, defs, h); }
				if(per && w % 2 && rng.chance(1, 3)) {		// a fork: the last blocks are undone
					const uint32_t h = uint32_t(rng.below(height + 1));
					for(size_t i = reals.size(); i-- > 0;) if(!reals[i]->db) reals.erase(reals.begin() + i);
					ck.mark("world " + std::to_string(w) + " revert to " + std::to_string(h));
					for(auto& r : reals) r->revert(h);
					height = h; model.st = snaps[h]; snaps.erase(snaps.upper_bound(h), snaps.end());
					ck.count("reverts"); ck.max("deepest_revert", height);
					if(rng.chance(1, 2)) { for(auto& r : reals) r->reopen(); ck.count("restarts"); }
					for(auto& r : reals) compare_store(ck, mode, model, *r, defs);
				}
			} else if(per && n % 2) for(auto& r : reals) compare_store(ck, mode, model, *r, defs);
		}
		next_world:
		if(w < 2) ck.sample(listing(defs[0], 25));
		for(auto& r : reals) { const std::string p = r->path; r.reset(); if(p.size()) std::filesystem::remove_all(p); }
	}
	ck.count("calls_succeeded", ok_calls); ck.count("instructions", steps); ck.count("remote_calls", remote); ck.count("outputs", out_n);
	for(auto& e : ops) ck.count("op_" + op_name(e.first), e.second);
}

