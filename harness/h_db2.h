// Typed tables and concurrent use.
static mmx::hash_t small_hash(Rng& r) { mmx::hash_t h; uint8_t b[32] = {}; b[0] = r.below(3); b[31] = r.below(3); b[15] = r.chance(1, 4) ? 0xff : 0; ::memcpy(h.data(), b, 32); return h; }
static uint32_t small_u32(Rng& r) { return r.pick(std::vector<uint32_t>{0, 1, 2, 3, 7, 8, 255, 256, 257, 65535, 65536, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu}); }

template<typename T> str kstr(const T& v) { return std::to_string(v); }
inline str kstr(const mmx::hash_t& v) { return v.to_string().substr(0, 64); }
inline str kstr(const mmx::addr_t& v) { return hex(v.data(), 32); }
template<typename A, typename B> str kstr(const std::pair<A, B>& v) { return "(" + kstr(v.first) + "," + kstr(v.second) + ")"; }
template<typename A, typename B, typename C> str kstr(const std::tuple<A, B, C>& v) { return "(" + kstr(std::get<0>(v)) + "," + kstr(std::get<1>(v)) + "," + kstr(std::get<2>(v)) + ")"; }

// table in which K's own order is the stored order
template<typename TABLE, typename K, typename LESS>
void typed_one(Check& c, const str& name, Rng& r, const str& dir, std::function<K()> gen, LESS less) {
	fs::remove_all(dir);
	TABLE t;
	t.open(dir);
	std::map<K, std::map<uint32_t, str>, LESS> m(less);
	auto value = [&]() { str s(r.below(30), 'a'); for(auto& x : s) x = 'a' + r.below(26); return s; };
	uint32_t curr = 0;
	str log;
	auto fail = [&](const str& op, const str& what) { c.violation("typed:" + name + ":" + op, op + " " + what + " [" + log + "]"); };
	auto last = [](const std::map<uint32_t, str>& v) { return v.rbegin()->second; };
	const int steps = r.range(3, 25);
	for(int s = 0; s < steps; ++s) {
		for(int n = r.below(6); n > 0; --n) { const auto k = gen(); const auto v = value(); t.insert(k, v); m[k][curr] = v; }
		if(r.chance(1, 2)) t.commit(); else t.commit(curr + 1);
		curr++;
		if(r.chance(1, 3)) { t.flush(); log += " flush"; }
		if(r.chance(1, 8) && curr) {
			const uint32_t w = curr - r.range(1, std::min(curr, 3u));
			t.revert(w);
			for(auto it = m.begin(); it != m.end();) { it->second.erase(it->second.lower_bound(w), it->second.end()); it = it->second.empty() ? m.erase(it) : std::next(it); }
			curr = w;
			log += " revert" + std::to_string(w);
		}
		if(r.chance(1, 8)) { t.close(); t.open(dir); log += " open"; }
		log += " c" + std::to_string(curr);
	}
	c.eval();
	if(t.current_version() != curr) fail("version", std::to_string(t.current_version()) + " instead of " + std::to_string(curr));
	for(int q = 0; q < 12; ++q) {
		auto a = gen(), b = gen();
		const size_t limit = r.pick(std::vector<size_t>{0, 1, 2, 5, size_t(-1), size_t(-1)});
		c.eval(6);
		{	// find
			str v = "?";
			const bool got = t.find(a, v);
			const auto it = m.find(a);
			if(got != (it != m.end()) || (got && v != last(it->second))) fail("find", kstr(a) + " gave " + (got ? v : "nothing"));
			if(t.count(a) != got) fail("count", kstr(a));
			const uint32_t h = r.below(curr + 2);
			const bool got2 = t.find(a, v, h);
			bool want = false; str wv;
			if(it != m.end()) { auto jt = it->second.upper_bound(h); if(jt != it->second.begin()) { want = true; wv = std::prev(jt)->second; } }
			if(got2 != want || (want && v != wv)) fail("find at version", kstr(a) + " at " + std::to_string(h) + " gave " + (got2 ? v : "nothing"));
		}
		{	// ranges
			std::vector<std::pair<K, str>> res, exp;
			std::vector<str> vals;
			t.find_range(a, b, res, limit);
			t.find_range(a, b, vals, limit);
			for(auto it = m.lower_bound(a); it != m.end() && less(it->first, b) && exp.size() < limit; ++it) exp.emplace_back(it->first, last(it->second));
			if(res != exp) fail("find_range", kstr(a) + " to " + kstr(b) + " limit " + std::to_string(limit) + " gave " + std::to_string(res.size()) + " entries, should be " + std::to_string(exp.size()));
			std::vector<str> ev; for(auto& e : exp) ev.push_back(e.second);
			if(vals != ev) fail("find_range values", kstr(a) + " to " + kstr(b));
			if(exp.size()) c.count("ranges_with_entries");
			exp.clear();
			t.find_last_range(a, b, res, limit);
			t.find_last_range(a, b, vals, limit);
			for(auto it = m.lower_bound(b); it != m.begin() && exp.size() < limit;) { --it; if(less(it->first, a)) break; exp.emplace_back(it->first, last(it->second)); }
			if(res != exp) fail("find_last_range", kstr(a) + " to " + kstr(b) + " limit " + std::to_string(limit) + " gave " + std::to_string(res.size()) + " entries, should be " + std::to_string(exp.size()));
			ev.clear(); for(auto& e : exp) ev.push_back(e.second);
			if(vals != ev) fail("find_last_range values", kstr(a) + " to " + kstr(b));
			ev.clear();
			for(auto it = m.lower_bound(a); it != m.end() && ev.size() < limit; ++it) ev.push_back(last(it->second));
			t.find_greater_equal(a, vals, limit);
			if(vals != ev) fail("find_greater_equal", kstr(a) + " gave " + std::to_string(vals.size()) + " entries, should be " + std::to_string(ev.size()));
		}
		c.nontrivial(name + kstr(a) + kstr(b) + std::to_string(limit) + log + std::to_string(r.s[0]));
	}
	{
		K k; str v;
		c.eval(4);
		const bool f = t.find_first(k, v);
		if(f != !m.empty() || (f && (less(k, m.begin()->first) || less(m.begin()->first, k) || v != last(m.begin()->second)))) fail("find_first", "wrong");
		const bool l = t.find_last(k, v);
		if(l != !m.empty() || (l && (less(k, m.rbegin()->first) || less(m.rbegin()->first, k) || v != last(m.rbegin()->second)))) fail("find_last", "wrong");
		const size_t stop = r.below(m.size() + 2);
		std::vector<std::pair<K, str>> res, exp;
		t.scan([&](const K& k, const str& v) { res.emplace_back(k, v); return res.size() < stop; });
		for(auto& e : m) { exp.emplace_back(e.first, last(e.second)); if(exp.size() >= stop) break; }
		if(res != exp) fail("scan", "gave " + std::to_string(res.size()) + " entries, should be " + std::to_string(exp.size()));
		res.clear(); exp.clear();
		t.reverse_scan([&](const K& k, const str& v) { res.emplace_back(k, v); return res.size() < stop; });
		for(auto it = m.rbegin(); it != m.rend(); ++it) { exp.emplace_back(it->first, last(it->second)); if(exp.size() >= stop) break; }
		if(res != exp) fail("reverse_scan", "gave " + std::to_string(res.size()) + " entries, should be " + std::to_string(exp.size()));
	}
	c.count("typed_" + name);
}

// many values per key, in order of insertion
template<typename TABLE, typename K, typename LESS>
void multi_one(Check& c, const str& name, Rng& r, const str& dir, std::function<K()> gen, LESS less) {
	fs::remove_all(dir);
	TABLE t;
	t.open(dir);
	typedef std::map<K, std::vector<std::pair<uint32_t, str>>, LESS> model_t;
	model_t m(less);
	uint32_t curr = 0;
	str log;
	auto fail = [&](const str& op, const str& what) { c.violation("multi:" + name + ":" + op, op + " " + what + " [" + log + "]"); };
	uint64_t serial = 0;
	const int steps = r.range(3, 25);
	for(int s = 0; s < steps; ++s) {
		for(int n = r.below(6); n > 0; --n) {
			const auto k = gen();
			if(r.chance(1, 3)) {
				std::vector<str> vs;
				for(int q = r.chance(1, 30) ? r.range(250, 700) : r.below(4); q > 0; --q) vs.push_back("v" + std::to_string(serial++));
				t.insert_many(k, vs);
				for(auto& v : vs) m[k].emplace_back(curr, v);
			} else { const auto v = "v" + std::to_string(serial++); t.insert(k, v); m[k].emplace_back(curr, v); }
		}
		curr++;
		t.commit(curr);
		if(r.chance(1, 3)) { t.flush(); log += " flush"; }
		if(r.chance(1, 6)) {
			const uint32_t w = curr - r.range(1, std::min(curr, 3u));
			t.revert(w);
			for(auto& e : m) while(!e.second.empty() && e.second.back().first >= w) e.second.pop_back();
			curr = w;
			log += " revert" + std::to_string(w);
		}
		if(r.chance(1, 8)) { t.close(); t.open(dir); log += " open"; }
		log += " c" + std::to_string(curr);
	}
	for(int q = 0; q < 12; ++q) {
		const auto a = gen(), b = gen();
		const size_t limit = r.pick(std::vector<size_t>{1, 2, 5, size_t(-1)});
		std::vector<str> got, exp;
		c.eval(5);
		t.find(a, got);
		if(m.count(a)) for(auto& e : m[a]) exp.push_back(e.second);
		if(got != exp) fail("find", kstr(a) + " gave " + std::to_string(got.size()) + " values, should be " + std::to_string(exp.size()));
		if(t.count(a) != exp.size()) fail("count", kstr(a));
		if(exp.size() > 1) c.count("keys_with_many_values");
		std::reverse(exp.begin(), exp.end());
		if(exp.size() > limit) exp.resize(limit);
		t.find_last(a, got, limit);
		if(got != exp) fail("find_last", kstr(a) + " limit " + std::to_string(limit) + " gave " + std::to_string(got.size()) + " values, should be " + std::to_string(exp.size()));
		exp.clear();
		for(auto it = m.lower_bound(a); it != m.end(); ++it) for(auto& e : it->second) exp.push_back(e.second);
		t.find(a, got, true);
		if(got != exp) fail("find greater_equal", kstr(a));
		exp.clear();
		std::vector<std::pair<K, str>> gp, ep;
		for(auto it = m.lower_bound(a); it != m.end() && less(it->first, b); ++it) for(auto& e : it->second) { exp.push_back(e.second); ep.emplace_back(it->first, e.second); }
		t.find_range(a, b, got);
		t.find_range(a, b, gp);
		if(got != exp) fail("find_range", kstr(a) + " to " + kstr(b) + " gave " + std::to_string(got.size()) + " values, should be " + std::to_string(exp.size()));
		if(gp != ep) fail("find_range pairs", kstr(a) + " to " + kstr(b));
		c.nontrivial("m" + name + kstr(a) + kstr(b) + log + std::to_string(r.s[0]));
	}
	std::vector<std::pair<K, str>> gp, ep;
	t.scan([&](const K& k, const str& v) { gp.emplace_back(k, v); return true; });
	for(auto& e : m) for(auto& v : e.second) ep.emplace_back(e.first, v.second);
	c.eval();
	if(gp != ep) fail("scan", "gave " + std::to_string(gp.size()) + " entries, should be " + std::to_string(ep.size()));
	c.count("multi_" + name);
}

struct bytes_less {
	template<typename A> static int cmp_hash(const A& a, const A& b) { return ::memcmp(a.data(), b.data(), a.size()); }
	bool operator()(const mmx::hash_t& a, const mmx::hash_t& b) const { return cmp_hash(a, b) < 0; }
};

static void run_typed(Check& c) {
	using namespace mmx;
	auto rng = c.rng(45);
	const str dir = c.scratch + "/typed";
	const auto N = c.n(60, 1500);
	for(uint64_t i = 0; i < N && c.violations.size() < 6; ++i) {
		Rng r(rng.next());
		c.mark("typed " + std::to_string(i));
		auto u32 = [&]() { return small_u32(r); };
		auto hsh = [&]() { return small_hash(r); };
		auto adr = [&]() { return addr_t(small_hash(r)); };
		typed_one<uint_table<uint32_t, str>, uint32_t>(c, "uint", r, dir, u32, std::less<uint32_t>());
		typed_one<uint_table<uint64_t, str>, uint64_t>(c, "uint64", r, dir, [&]() { return uint64_t(u32()) << r.pick(std::vector<int>{0, 1, 31, 32}); }, std::less<uint64_t>());
		typed_one<uint_uint_table<uint32_t, uint32_t, str>, std::pair<uint32_t, uint32_t>>(c, "uint_uint", r, dir, [&]() { const auto a = u32(); return std::make_pair(a, u32()); }, std::less<std::pair<uint32_t, uint32_t>>());
		typed_one<hash_table<hash_t, str>, hash_t>(c, "hash", r, dir, hsh, std::less<hash_t>());
		typed_one<hash_table<addr_t, str>, addr_t>(c, "addr", r, dir, adr, std::less<addr_t>());
		typed_one<hash_uint_table<hash_t, uint32_t, str>, std::pair<hash_t, uint32_t>>(c, "hash_uint", r, dir, [&]() { const auto a = hsh(); return std::make_pair(a, u32()); }, std::less<std::pair<hash_t, uint32_t>>());
		typed_one<hash_uint_uint_table<addr_t, uint32_t, uint32_t, str>, std::tuple<addr_t, uint32_t, uint32_t>>(c, "hash_uint_uint", r, dir, [&]() { const auto a = adr(); const auto b = u32(); return std::make_tuple(a, b, u32()); }, std::less<std::tuple<addr_t, uint32_t, uint32_t>>());
		typed_one<balance_table_t<str>, std::pair<addr_t, addr_t>>(c, "balance", r, dir, [&]() { const auto a = adr(); return std::make_pair(a, adr()); }, std::less<std::pair<addr_t, addr_t>>());
		multi_one<uint_multi_table<uint32_t, str>, uint32_t>(c, "uint", r, dir, u32, std::less<uint32_t>());
		multi_one<hash_multi_table<hash_t, str>, hash_t>(c, "hash", r, dir, hsh, std::less<hash_t>());
		multi_one<hash_uint_multi_table<addr_t, uint32_t, str>, std::pair<addr_t, uint32_t>>(c, "hash_uint", r, dir, [&]() { const auto a = adr(); return std::make_pair(a, u32()); }, std::less<std::pair<addr_t, uint32_t>>());
	}
	fs::remove_all(dir);
}

// Readers share the store as the node's API threads do (reader/writer lock around commits), commits flush tables in parallel.
static void run_threads(Check& c) {
	auto rng = c.rng(46);
	const str top = c.scratch + "/threads";
	const auto N = c.n(12, 200);
	for(uint64_t i = 0; i < N && c.violations.size() < 6; ++i) {
		Rng r(rng.next());
		c.mark("threads " + std::to_string(i));
		fs::remove_all(top);
		const size_t nt = r.range(2, 6);
		Multi x;
		for(size_t k = 0; k < nt; ++k) {
			Table::options_t o;
			o.level_factor = r.range(2, 3);
			o.max_block_size = r.pick(std::vector<size_t>{1, 200, 1000, 5000});
			o.force_flush_threshold = r.pick(std::vector<size_t>{1, 5, 100000});
			x.opt.push_back(o);
		}
		x.open(top, r.range(2, 6));
		// one key space: key k of table t has value "t:k:v" with v the version of its last change; a second table of counters
		std::shared_mutex lock;
		std::vector<std::map<str, std::map<uint32_t, str>, order_t>> model(nt);
		std::atomic<bool> stop{false};
		std::atomic<uint64_t> reads{0}, overlap{0};
		std::atomic<int> inside{0};
		std::vector<std::thread> readers;
		const int nr = r.range(2, 5);
		for(int k = 0; k < nr; ++k) readers.emplace_back([&, k, seed = r.next()]() {
			Rng q(seed);
			while(!stop) {
				std::shared_lock<std::shared_mutex> l(lock);
				if(inside++ > 0) overlap++;
				const size_t t = q.below(nt);
				const auto& mm = model[t];
				Model view;
				view.data = mm;
				if(q.chance(2, 3)) {
					for(int n = 0; n < 10 && !mm.empty(); ++n) {
						auto it = std::next(mm.begin(), q.below(mm.size()));
						const uint32_t v = q.chance(1, 2) ? uint32_t(-1) : q.below(40);
						const auto got = x.t[t]->find(val(it->first), v);
						const auto* want = view.find(it->first, v);
						if(!got != !want || (got && got->to_string() != *want)) c.violation("threads:find", "a concurrent find gave a wrong result");
						reads++;
					}
				} else {
					Table::Iterator it(x.t[t].get());
					if(q.chance(1, 2)) {
						it.seek_begin();
						for(auto& e : mm) {
							if(!it.is_valid() || it.key()->to_string() != e.first || it.value()->to_string() != e.second.rbegin()->second) { c.violation("threads:iterate", "a concurrent iteration gave a wrong result"); break; }
							it.next();
							reads++;
						}
					} else {
						it.seek_last();
						for(auto e = mm.rbegin(); e != mm.rend(); ++e) {
							if(!it.is_valid() || it.key()->to_string() != e->first || it.value()->to_string() != e->second.rbegin()->second) { c.violation("threads:iterate", "a concurrent backward iteration gave a wrong result"); break; }
							it.prev();
							reads++;
						}
					}
				}
				inside--;
				l.unlock();
				if(q.chance(1, 4)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(300)));
			}
		});
		uint32_t curr = 0;
		const int steps = c.n(25, 60);
		for(int s = 0; s < steps; ++s) {
			{
				std::unique_lock<std::shared_mutex> l(lock);
				for(size_t k = 0; k < nt; ++k) for(int n = r.below(8); n > 0; --n) {
					str key(1, char(r.below(30)));
					const auto v = std::to_string(k) + ":" + std::to_string(curr) + ":" + std::to_string(r.below(1000)) + str(r.below(40), 'x');
					x.t[k]->insert(val(key), val(v));
					model[k][key][curr] = v;
				}
				curr++;
				x.db->commit(curr);
				if(r.chance(1, 8)) {
					const auto w = curr - r.range(1, std::min(curr, 3u));
					x.db->revert(w);
					for(auto& m : model) for(auto it = m.begin(); it != m.end();) { it->second.erase(it->second.lower_bound(w), it->second.end()); it = it->second.empty() ? m.erase(it) : std::next(it); }
					curr = w;
				}
			}
			std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000)));
		}
		const auto n_min = c.n(400, 2000);
		while(reads < n_min) std::this_thread::sleep_for(std::chrono::milliseconds(1));
		stop = true;
		for(auto& t : readers) t.join();
		c.eval(reads);
		c.count("concurrent_reads", reads);
		c.count("overlapping_sections", overlap);
		c.count("commits", steps);
		Model all;
		for(auto& m : model) { all.data = m; c.nontrivial(hash_of(all) + i); }
		x.close();
	}
	fs::remove_all(top);
}
