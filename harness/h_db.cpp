// Key-value store: DataBase.cpp, table.h, multi_table.h against an in-memory model, with crash points from the traced file operations.
#include "common.h"
#include <mmx/DataBase.h>
#include <mmx/table.h>
#include <mmx/multi_table.h>
#include <mmx/hash_t.hpp>
#include <mmx/addr_t.hpp>
#include <vnx/vnx.h>
#include <sys/stat.h>
#include <filesystem>
#include <thread>
#include <atomic>
#include <shared_mutex>

using namespace verif;
using mmx::Table;
using mmx::DataBase;
using mmx::db_val_t;
typedef std::string str;
namespace fs = std::filesystem;

static std::shared_ptr<db_val_t> val(const str& s) { return std::make_shared<db_val_t>(s); }

struct order_t {		// the store's documented default order: shorter first, then bytes
	bool operator()(const str& a, const str& b) const {
		if(a.size() != b.size()) return a.size() < b.size();
		return ::memcmp(a.data(), b.data(), a.size()) < 0;
	}
};
struct lex_t {
	bool operator()(const str& a, const str& b) const { return a < b; }
};

// ------------------------------------------------------------------------------------------------ model
typedef std::map<str, std::map<uint32_t, str>, order_t> hist_t;

struct Model {
	hist_t data;
	uint32_t curr = 0;
	void insert(const str& k, const str& v) { data[k][curr] = v; }
	void revert(uint32_t w) {
		for(auto it = data.begin(); it != data.end();) {
			it->second.erase(it->second.lower_bound(w), it->second.end());
			it = it->second.empty() ? data.erase(it) : std::next(it);
		}
		curr = w;
	}
	const str* find(const str& k, uint32_t max_version = -1) const {
		auto it = data.find(k);
		if(it == data.end()) return nullptr;
		auto jt = it->second.upper_bound(max_version);
		if(jt == it->second.begin()) return nullptr;
		return &std::prev(jt)->second;
	}
	bool same(const Model& o) const { return curr == o.curr && data == o.data; }
};

struct Gen {
	Rng& r;
	std::vector<str> keys;
	int style;
	Gen(Rng& r) : r(r) {
		style = r.below(4);
		const int n = r.range(2, style == 3 ? 60 : 24);
		for(int i = 0; i < n; ++i) keys.push_back(new_key());
		std::sort(keys.begin(), keys.end());
		keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
	}
	str new_key() {
		switch(style) {
			case 0: { str s(r.below(4), 0); for(auto& c : s) c = r.below(3) ? r.below(3) : 0xff; return s; }
			case 1: { str s(4, 0); s[3] = r.below(40); return s; }
			case 2: { str s(r.range(1, 40), 0); r.fill(&s[0], s.size()); return s; }
			default: { str s(2, 0); s[0] = r.below(3); s[1] = r.below(256); return s; }
		}
	}
	str key() { return r.chance(1, 12) ? new_key() : r.pick(keys); }
	str value() {
		size_t n;
		switch(r.below(12)) { case 0: n = 0; break; case 1: n = r.range(200, 1500); break; case 2: n = r.chance(1, 6) ? r.range(8000, 20000) : 1; break; default: n = r.below(40); }
		str s(n, 0);
		r.fill(&s[0], s.size());
		return s;
	}
	Table::options_t options() {
		Table::options_t o;
		o.level_factor = r.pick(std::vector<size_t>{0, 1, 2, 2, 3, 4});
		o.max_block_size = r.pick(std::vector<size_t>{1, 60, 200, 600, 3000, 4 * 1024 * 1024});
		o.force_flush_threshold = r.pick(std::vector<size_t>{1, 2, 4, 10, 100000, 100000});
		return o;
	}
	str describe() const { return "style " + std::to_string(style) + " keys " + std::to_string(keys.size()); }
};
static str show(const Table::options_t& o) {
	return "level_factor " + std::to_string(o.level_factor) + " max_block " + std::to_string(o.max_block_size) + " force_flush " + std::to_string(o.force_flush_threshold);
}
static str hx(const str& s) { return s.size() > 24 ? hex(s.data(), 24) + "..(" + std::to_string(s.size()) + ")" : hex(s.data(), s.size()); }
static uint64_t hash_of(const Model& m) {
	uint64_t h = m.curr;
	std::hash<str> f;
	for(auto& e : m.data) { h = Rng::mix(h ^ f(e.first)); for(auto& v : e.second) h = Rng::mix(h ^ v.first ^ f(v.second)); }
	return h;
}

// ------------------------------------------------------------------------------------------------ comparison
struct Cmp {
	Check& c;
	str prefix;		// violation key prefix
	str where;
	bool ok = true;
	void fail(const str& key, const str& what) { ok = false; c.violation(prefix + key, what + " [" + where + "]"); }

	void entry(const std::shared_ptr<db_val_t>& got, const str* want, const str& k, uint32_t v) {
		c.eval();
		if(!got != !want) {
			fail(want ? "lost" : "ghost", "find(" + hx(k) + ", " + (v == uint32_t(-1) ? "-" : std::to_string(v)) + ") " + (want ? "found nothing, should be " + hx(*want) : "found " + hx(got->to_string()) + ", should be nothing"));
		} else if(got && got->to_string() != *want) {
			fail("value", "find(" + hx(k) + ", " + std::to_string(v) + ") returned " + hx(got->to_string()) + " instead of " + hx(*want));
		}
	}
	void finds(const Table& t, const Model& m, const std::vector<str>& absent) {
		for(auto& e : m.data) {
			entry(t.find(val(e.first)), m.find(e.first), e.first, -1);
			std::set<uint32_t> vs;
			for(auto& v : e.second) { vs.insert(v.first); vs.insert(v.first + 1); if(v.first) vs.insert(v.first - 1); }
			vs.insert(m.curr); vs.insert(0);
			for(auto v : vs) entry(t.find(val(e.first), v), m.find(e.first, v), e.first, v);
			if(!ok) return;
		}
		for(auto& k : absent) if(!m.data.count(k)) entry(t.find(val(k)), nullptr, k, -1);
	}
	void at(const Table::Iterator& it, const Model& m, hist_t::const_iterator x, bool valid, const str& op) {
		c.eval();
		if(it.is_valid() != valid) { fail(valid ? "iter_short" : "iter_long", op + (valid ? " gave no entry, should be " + hx(x->first) : " gave " + hx(it.key()->to_string()) + ", should be at the end")); return; }
		if(!valid) return;
		const auto k = it.key()->to_string(), v = it.value()->to_string();
		if(k != x->first) { fail("iter_key", op + " gave " + hx(k) + ", should be " + hx(x->first)); return; }
		if(v != x->second.rbegin()->second) { fail("iter_value", op + " gave an old or wrong value for " + hx(k) + ": " + hx(v)); return; }
		if(it.version() != x->second.rbegin()->first) fail("iter_version", op + " gave version " + std::to_string(it.version()) + " of " + hx(k) + ", should be " + std::to_string(x->second.rbegin()->first));
	}
	void scans(const Table& t, const Model& m) {
		{
			Table::Iterator it(&t);
			it.seek_begin();
			auto x = m.data.begin();
			while(ok) { at(it, m, x, x != m.data.end(), "forward scan"); if(x == m.data.end() || !ok) break; it.next(); ++x; }
		}
		if(ok) {
			Table::Iterator it(&t);
			it.seek_last();
			auto x = m.data.end();
			while(ok) {
				const bool valid = x != m.data.begin();
				if(valid) --x;
				at(it, m, x, valid, "backward scan");
				if(!valid || !ok) break;
				it.prev();
			}
		}
	}
	void walks(const Table& t, const Model& m, Gen& g, int n) {
		Table::Iterator it(&t);
		for(int i = 0; i < n && ok; ++i) {
			const auto k = g.key();
			const auto lo = m.data.lower_bound(k), up = m.data.upper_bound(k);
			hist_t::const_iterator x;
			bool valid = true;
			str op;
			switch(g.r.below(6)) {
				case 0: it.seek_begin(); x = m.data.begin(); valid = x != m.data.end(); op = "seek_begin"; break;
				case 1: it.seek_last(); valid = !m.data.empty(); if(valid) x = std::prev(m.data.end()); op = "seek_last"; break;
				case 2: it.seek(val(k)); x = lo; valid = x != m.data.end(); op = "seek " + hx(k); break;
				case 3: it.seek_prev(val(k)); valid = lo != m.data.begin(); if(valid) x = std::prev(lo); op = "seek_prev " + hx(k); break;
				case 4: it.seek_next(val(k)); x = up; valid = x != m.data.end(); op = "seek_next " + hx(k); break;
				default: it.seek_for_prev(val(k)); valid = up != m.data.begin(); if(valid) x = std::prev(up); op = "seek_for_prev " + hx(k);
			}
			at(it, m, x, valid, op);
			c.count("seeks");
			int steps = g.r.below(6);
			while(valid && ok && steps--) {
				if(g.r.chance(1, 2)) { op += ", next"; it.next(); ++x; valid = x != m.data.end(); }
				else { op += ", prev"; it.prev(); valid = x != m.data.begin(); if(valid) --x; }
				at(it, m, x, valid, op);
				c.count("iterator_steps");
			}
		}
	}
	bool all(const Table& t, const Model& m, Gen& g, int n_walks = 6) {
		c.eval();
		if(t.current_version() != m.curr) fail("version", "version is " + std::to_string(t.current_version()) + ", should be " + std::to_string(m.curr));
		finds(t, m, g.keys);
		if(ok) scans(t, m);
		if(ok && n_walks) walks(t, m, g, n_walks);
		c.nontrivial(hash_of(m));
		return ok;
	}
};

// ------------------------------------------------------------------------------------------------ file system trace
typedef std::map<str, std::shared_ptr<const str>> image_t;

struct Tracer : vnx::fs_hook_t {
	std::mutex mutex;
	str root;
	image_t image;
	std::function<void(const image_t&, const char* op)> on_state;
	uint64_t ops = 0;
	bool mine(const str& p) const { return p.compare(0, root.size(), root) == 0; }
	void state(const char* op) { ops++; if(on_state) on_state(image, op); }
	void load() {
		image.clear();
		for(auto& e : fs::recursive_directory_iterator(root)) if(e.is_regular_file() && e.path().filename() != "debug.log") {
			std::ifstream f(e.path(), std::ios::binary);
			std::stringstream s; s << f.rdbuf();
			image[e.path().string()] = std::make_shared<str>(s.str());
		}
	}
	void on_create(const str& p) override { if(!mine(p)) return; std::lock_guard<std::mutex> l(mutex); image[p] = std::make_shared<str>(); state("create"); }
	void on_truncate(const str& p) override { if(!mine(p)) return; std::lock_guard<std::mutex> l(mutex); image[p] = std::make_shared<str>(); state("truncate"); }
	void on_rename(const str& a, const str& b) override { if(!mine(a)) return; std::lock_guard<std::mutex> l(mutex); image[b] = image[a]; if(a != b) image.erase(a); state("rename"); }
	void on_remove(const str& p) override { if(!mine(p)) return; std::lock_guard<std::mutex> l(mutex); image.erase(p); state("remove"); }
	Rng cut{7};
	bool torn = true;
	void on_write(const str& p, int64_t pos, const void* data, size_t len) override {
		if(!mine(p)) return;
		std::lock_guard<std::mutex> l(mutex);
		const auto old = image[p];
		auto put = [&](size_t n) {
			auto s = std::make_shared<str>(old ? *old : str());
			if(s->size() < pos + n) s->resize(pos + n);
			::memcpy(&(*s)[pos], data, n);
			image[p] = s;
		};
		if(torn && len > 1) {
			put(cut.range(1, len - 1)); state("torn write");
			if(cut.chance(1, 3)) { put(len - 1); state("torn write"); }
		}
		put(len);
		state("write");
	}
};
static void materialise(const image_t& img, const str& from, const str& to) {
	fs::create_directories(to);
	for(auto& e : img) {
		const auto p = to + e.first.substr(from.size());
		fs::create_directories(fs::path(p).parent_path());
		std::ofstream f(p, std::ios::binary);
		f.write(e.second->data(), e.second->size());
	}
}
static uint64_t image_hash(const image_t& img, size_t skip) {
	uint64_t h = 1;
	std::hash<str> f;
	for(auto& e : img) h = Rng::mix(h ^ f(e.first.substr(skip)) ^ Rng::mix(f(*e.second)));
	return h;
}

// ------------------------------------------------------------------------------------------------ histories on one table
struct History {
	Check& c;
	Rng& r;
	Gen g;
	str dir;
	Table::options_t opt;
	std::shared_ptr<Table> t;
	Model m;
	std::set<uint32_t> committed;
	str log;
	std::function<void(const str&, uint32_t)> before = [](const str&, uint32_t) {};		// operation about to start
	std::function<void()> after = []() {};
	History(Check& c, Rng& r, const str& dir) : c(c), r(r), g(r), dir(dir) { opt = g.options(); }
	void note(const str& s) { log += log.empty() ? s : "; " + s; if(log.size() > 1500) log = "..." + log.substr(log.size() - 1200); }
	void open() { before("open", 0); t.reset(); t = std::make_shared<Table>(dir, opt); after(); note("open"); c.count("opens"); }
	void insert() {
		const int n = r.chance(1, 20) ? r.range(20, 80) : r.range(0, 5);
		before("insert", 0);
		for(int i = 0; i < n; ++i) {
			const auto k = g.key(), v = g.value();
			t->insert(val(k), val(v));
			m.insert(k, v);
		}
		after();
		note("insert*" + std::to_string(n)); c.count("inserts", n);
	}
	void commit() {
		const uint32_t v = m.curr + (r.chance(1, 8) ? r.range(2, 12) : 1);
		before("commit", v);
		t->commit(v);
		m.curr = v;
		after();
		note("commit " + std::to_string(v)); c.count("commits");
	}
	void flush() { before("flush", 0); t->flush(); after(); note("flush"); c.count("flushes"); }
	void revert() {
		uint32_t w;
		switch(r.below(6)) {
			case 0: w = m.curr; break;
			case 1: w = r.below(m.curr + 1); break;
			case 2: w = r.chance(1, 4) ? 0 : r.below(m.curr + 1); break;
			default: w = m.curr - std::min<uint32_t>(m.curr, r.range(1, 4));
		}
		before("revert", w);
		t->revert(w);
		m.revert(w);
		after();
		note("revert " + std::to_string(w)); c.count("reverts");
	}
	void refused() {	// operations which have to be refused without any effect
		auto expect = [&](const char* what, std::function<void()> f) {
			c.eval();
			try { f(); c.violation(str("accepted:") + what, str(what) + " was not refused [" + log + "]"); } catch(const std::exception&) { c.count("refused"); }
		};
		expect("commit of an old version", [&]() { t->commit(m.curr - std::min<uint32_t>(m.curr, r.below(3))); });
		expect("commit of version -1", [&]() { t->commit(-1); });
		expect("revert to a future version", [&]() { t->revert(m.curr + r.range(1, 5)); });
		expect("insert without value", [&]() { t->insert(val("a"), nullptr); });
		Table::Iterator it(t.get());
		it.seek_begin();
		expect("insert while iterating", [&]() { t->insert(val(g.key()), val("x")); });
		expect("revert while iterating", [&]() { t->revert(m.curr); });
		expect("flush while iterating", [&]() { t->flush(); });
		note("refused ops");
	}
	bool compare(const str& prefix) { Cmp x{c, prefix, log + " | " + show(opt) + " | " + g.describe()}; return x.all(*t, m, g); }
};

static void run_map(Check& c, bool reverts, uint64_t stream) {
	auto rng = c.rng(stream);
	const str top = c.scratch + "/db";
	const auto N = c.n(reverts ? 260 : 260, 6000);
	for(uint64_t i = 0; i < N && c.violations.size() < 5; ++i) {
		Rng r(rng.next());
		c.mark("history " + std::to_string(i));
		fs::remove_all(top);
		History h(c, r, top + "/table");
		h.open();
		const int steps = r.range(10, 70);
		const bool mostly_commit = r.chance(2, 3);
		bool ok = true;
		for(int s = 0; s < steps && ok; ++s) {
			c.mark("history " + std::to_string(i) + ": " + h.log);
			const int x = r.below(100);
			if(x < 45) { h.insert(); if(mostly_commit) h.commit(); }
			else if(x < 65) h.commit();
			else if(x < 70) { h.commit(); h.flush(); }
			else if(x < 78) { if(r.chance(1, 2)) h.commit(); else h.m.revert(h.m.curr); h.open(); }		// what was not committed is gone after a restart
			else if(x < 80) h.refused();
			else if(reverts && x < 95) { h.revert(); ok = h.compare("revert_"); if(ok && r.chance(1, 3)) { h.open(); ok = h.compare("revert_reopen_"); } }
			else { ok = h.compare(""); }
		}
		if(ok) ok = h.compare("");
		if(ok) { h.commit(); h.open(); ok = h.compare("reopen_"); }
		if(i < 4) c.sample(h.log + " | " + show(h.opt));
		c.max("max_version", h.m.curr);
		size_t files = 0;
		for(auto& e : fs::directory_iterator(h.dir)) files += e.path().extension() == ".dat";
		c.max("max_files", files);
	}
	// a table with its own key order
	for(uint64_t i = 0; i < c.n(30, 400) && c.violations.size() < 5; ++i) {
		Rng r(rng.next());
		Gen g(r);
		fs::remove_all(top);
		auto opt = g.options();
		opt.comparator = [](const db_val_t& a, const db_val_t& b) -> int { return a.to_string().compare(b.to_string()); };
		std::map<str, str> m;
		Table t(top + "/table", opt);
		for(int s = 0; s < 20; ++s) {
			for(int k = r.below(6); k > 0; --k) { const auto key = g.key(), v = g.value(); t.insert(val(key), val(v)); m[key] = v; }
			t.commit(t.current_version() + 1);
		}
		Table::Iterator it(&t);
		it.seek_begin();
		for(auto& e : m) {
			c.eval();
			if(!it.is_valid() || it.key()->to_string() != e.first || it.value()->to_string() != e.second) { c.violation("order", "iteration with an own comparator misses " + hx(e.first) + " | " + show(opt)); break; }
			it.next();
		}
		c.count("own_order");
	}
	fs::remove_all(top);
}

// ------------------------------------------------------------------------------------------------ crashes
struct Expect { std::vector<std::shared_ptr<const Model>> any; str op; };
struct Point { image_t image; std::shared_ptr<const Expect> expect; str op; };

static bool matches(const Table& t, const Model& m, str& why, const std::vector<str>& keys) {
	if(t.current_version() != m.curr) { why = "version " + std::to_string(t.current_version()) + " instead of " + std::to_string(m.curr); return false; }
	for(auto& e : m.data) {
		for(auto& v : e.second) {
			for(uint32_t d = 0; d < 2; ++d) {
				const auto got = t.find(val(e.first), v.first + d);
				const auto* want = m.find(e.first, v.first + d);
				if(!got || got->to_string() != *want) { why = "entry " + hx(e.first) + " version " + std::to_string(v.first + d) + (got ? " has another value" : " is lost"); return false; }
			}
		}
		if(e.second.begin()->first) if(t.find(val(e.first), e.second.begin()->first - 1)) { why = "entry " + hx(e.first) + " exists before its first version"; return false; }
	}
	for(auto& k : keys) if(!m.data.count(k) && t.find(val(k))) { why = "entry " + hx(k) + " exists although it was never committed or was reverted"; return false; }
	Table::Iterator it(&t);
	it.seek_begin();
	for(auto& e : m.data) {
		if(!it.is_valid()) { why = "iteration ends before " + hx(e.first); return false; }
		if(it.key()->to_string() != e.first || it.value()->to_string() != e.second.rbegin()->second || it.version() != e.second.rbegin()->first) { why = "iteration gives " + hx(it.key()->to_string()) + " version " + std::to_string(it.version()) + " at " + hx(e.first); return false; }
		it.next();
	}
	if(it.is_valid()) { why = "iteration gives " + hx(it.key()->to_string()) + " which should not exist"; return false; }
	return true;
}

static std::shared_ptr<Model> committed_state(const Model& m) { auto s = std::make_shared<Model>(m); s->revert(s->curr); return s; }

static void run_crash(Check& c) {
	auto rng = c.rng(43);
	const str top = c.scratch + "/crash";
	const auto N = c.n(60, 900);
	std::set<uint64_t> seen;
	for(uint64_t i = 0; i < N && c.violations.size() < 6; ++i) {
		Rng r(rng.next());
		fs::remove_all(top);
		fs::create_directories(top);
		const str base = top + "/live";
		fs::create_directories(base);
		Tracer tr;
		tr.root = base;
		tr.cut = Rng(r.next());
		std::vector<Point> points;
		std::shared_ptr<const Expect> cur;
		auto pr = Rng(r.next());
		const uint32_t keep = r.range(1, 3);
		tr.on_state = [&](const image_t& img, const char* op) { if(cur && pr.chance(keep, 6)) points.push_back({img, cur, cur->op + "/" + op}); };
		History h(c, r, base + "/table");
		if(h.opt.max_block_size > 1000 && r.chance(2, 3)) h.opt.max_block_size = 100;
		if(r.chance(1, 2)) h.opt.level_factor = 2;
		h.before = [&](const str& op, uint32_t v) {
			auto e = std::make_shared<Expect>();
			e->op = op;
			e->any.push_back(committed_state(h.m));
			if(op == "commit") { auto n = std::make_shared<Model>(h.m); n->curr = v; e->any.push_back(n); }
			if(op == "revert") { auto n = std::make_shared<Model>(h.m); n->revert(v); e->any.push_back(n); }
			std::lock_guard<std::mutex> l(tr.mutex);
			cur = e;
		};
		h.after = [&]() {
			std::lock_guard<std::mutex> l(tr.mutex);
			auto e = std::make_shared<Expect>();
			e->op = cur->op + " done";
			e->any.push_back(committed_state(h.m));
			cur = e;
			if(pr.chance(1, 4)) points.push_back({tr.image, cur, cur->op});
		};
		vnx::g_fs_hook = &tr;
		h.open();
		const int steps = r.range(8, 30);
		for(int s = 0; s < steps; ++s) {
			c.mark("crash history " + std::to_string(i) + ": " + h.log);
			const int x = r.below(100);
			if(x < 60) { h.insert(); if(r.chance(5, 6)) h.commit(); }
			else if(x < 72) h.commit();
			else if(x < 78) { h.commit(); h.flush(); }
			else if(x < 88) h.revert();
			else { h.m.revert(h.m.curr); h.open(); }
		}
		vnx::g_fs_hook = nullptr;
		h.t.reset();
		c.count("file_operations", tr.ops);

		// restart from every recorded state
		const size_t limit = c.n(60, 200);
		while(points.size() > limit) { points[pr.below(points.size())] = points.back(); points.pop_back(); }
		int np = 0;
		for(auto& p : points) {
			if(!seen.insert(image_hash(p.image, top.size())).second) continue;
			c.mark("crash history " + std::to_string(i) + " at " + p.op + ": " + h.log);
			struct todo_t { image_t image; int depth; str op; };
			std::vector<todo_t> todo = {{p.image, 0, p.op}};
			while(!todo.empty()) {
				const auto cp = todo.back();
				todo.pop_back();
				const str dir = top + "/p" + std::to_string(np++);
				materialise(cp.image, base, dir);
				Tracer tn;
				tn.root = dir;
				tn.cut = Rng(pr.next());
				tn.load();
				if(cp.depth < 2) {
					tn.on_state = [&](const image_t& img, const char* op) {
						if(todo.size() < 3 && pr.chance(1, cp.depth ? 12 : 6)) {
							image_t moved;
							for(auto& e : img) moved[base + e.first.substr(dir.size())] = e.second;
							todo.push_back({moved, cp.depth + 1, cp.op + ", again while recovering (" + op + ")"});
						}
					};
				}
				vnx::g_fs_hook = &tn;
				str why, last;
				bool good = false;
				std::shared_ptr<const Model> got;
				std::shared_ptr<Table> t;
				try {
					t = std::make_shared<Table>(dir + "/table", h.opt);
					tn.on_state = nullptr;
					for(auto& m : p.expect->any) if(matches(*t, *m, last, h.g.keys)) { good = true; got = m; break; } else why += (why.empty() ? "" : "; or ") + last;
				} catch(const std::exception& ex) { tn.on_state = nullptr; why = str("exception: ") + ex.what(); }
				c.eval();
				c.count(cp.depth ? "recoveries_after_second_crash" : "recoveries");
				c.count("crash_in_" + p.expect->op.substr(0, p.expect->op.find(' ')));
				c.nontrivial(image_hash(cp.image, top.size()));
				const str where = " [" + h.log + " | crash at " + cp.op + " | " + show(h.opt) + "]";
				if(!good) {
					c.violation("crash:" + p.expect->op, "after a crash the table is neither in the state before nor after the operation: " + why + where);
				} else if(cp.depth == 0 && pr.chance(1, 2)) {
					// the recovered table has to keep working
					Model m = *got;
					try {
						for(int s = 0; s < 4 && good; ++s) {
							for(int k = pr.below(8); k > 0; --k) { const auto a = h.g.key(), b = h.g.value(); t->insert(val(a), val(b)); m.insert(a, b); }
							m.curr++;
							t->commit(m.curr);
							if(pr.chance(1, 5)) { const auto w = m.curr - pr.below(std::min(m.curr, 4u) + 1); t->revert(w); m.revert(w); }
							if(pr.chance(1, 3)) { t.reset(); t = std::make_shared<Table>(dir + "/table", h.opt); }
						}
						good = matches(*t, m, why, h.g.keys);
						if(good) { t.reset(); t = std::make_shared<Table>(dir + "/table", h.opt); good = matches(*t, m, why, h.g.keys); }
					} catch(const std::exception& ex) { good = false; why = str("exception: ") + ex.what(); }
					c.eval();
					c.count("continued");
					if(!good) c.violation("crash_continue:" + p.expect->op, "a table which recovered from a crash goes wrong later: " + why + where);
				}
				t.reset();
				vnx::g_fs_hook = nullptr;
				fs::remove_all(dir);
			}
		}
		if(i < 4) c.sample(h.log + " | " + std::to_string(tr.ops) + " file operations, " + std::to_string(points.size()) + " crash points | " + show(h.opt));
	}
	fs::remove_all(top);
}

// ------------------------------------------------------------------------------------------------ several tables
struct Multi {
	str dir;
	std::vector<Table::options_t> opt;
	std::unique_ptr<DataBase> db;
	std::vector<std::shared_ptr<Table>> t;
	void open(const str& d, int threads) {
		close();
		dir = d;
		db.reset(new DataBase(threads));
		for(size_t i = 0; i < opt.size(); ++i) {
			t.push_back(std::make_shared<Table>(dir + "/t" + std::to_string(i), opt[i]));
			db->add(t.back());
		}
	}
	void close() { db.reset(); t.clear(); }
};

static void run_multi(Check& c) {
	auto rng = c.rng(44);
	const str top = c.scratch + "/multi";
	const auto N = c.n(26, 400);
	std::set<uint64_t> seen;
	for(uint64_t i = 0; i < N && c.violations.size() < 6; ++i) {
		Rng r(rng.next());
		fs::remove_all(top);
		const str base = top + "/live";
		fs::create_directories(base);
		const size_t nt = r.range(2, 5);
		const int threads = r.range(1, 4);
		std::vector<Gen> g;
		std::vector<Model> m(nt);
		Multi x;
		for(size_t k = 0; k < nt; ++k) {
			g.emplace_back(r);
			auto o = g.back().options();
			if(o.max_block_size > 1000) o.max_block_size = r.pick(std::vector<size_t>{1, 100, 500});
			if(r.chance(1, 2)) o.level_factor = 2;
			x.opt.push_back(o);
		}
		const std::vector<uint32_t> activity = [&]() { std::vector<uint32_t> a; for(size_t k = 0; k < nt; ++k) a.push_back(r.pick(std::vector<uint32_t>{0, 1, 3, 6})); return a; }();
		struct mpoint_t { image_t image; std::vector<std::vector<Model>> any; str op; };
		struct cur_t { std::vector<std::vector<Model>> any; str op; };
		std::shared_ptr<cur_t> cur;
		std::vector<std::pair<image_t, std::pair<std::shared_ptr<cur_t>, str>>> points;
		Tracer tr;
		tr.root = base;
		tr.cut = Rng(r.next());
		auto pr = Rng(r.next());
		tr.on_state = [&](const image_t& img, const char* op) { if(cur && pr.chance(1, 4)) points.push_back({img, {cur, op}}); };
		auto begin = [&](const str& op, std::function<void(Model&)> f) {
			auto e = std::make_shared<cur_t>();
			e->op = op;
			std::vector<Model> a, b;
			for(auto& y : m) { a.push_back(*committed_state(y)); auto z = y; f(z); b.push_back(z); }
			e->any = {a};
			if(op == "commit" || op == "revert") e->any.push_back(b);
			std::lock_guard<std::mutex> l(tr.mutex);
			cur = e;
		};
		auto end = [&]() {
			auto e = std::make_shared<cur_t>();
			e->op = cur->op + " done";
			std::vector<Model> a;
			for(auto& y : m) a.push_back(*committed_state(y));
			e->any = {a};
			std::lock_guard<std::mutex> l(tr.mutex);
			cur = e;
			if(pr.chance(1, 4)) points.push_back({tr.image, {cur, "idle"}});
		};
		str log;
		vnx::g_fs_hook = &tr;
		begin("open", [](Model&) {});
		x.open(base, threads);
		end();
		const int steps = r.range(6, 22);
		for(int s = 0; s < steps; ++s) {
			c.mark("multi history " + std::to_string(i) + ": " + log);
			const int w = r.below(100);
			if(w < 70) {
				begin("insert", [](Model&) {});
				int n = 0;
				for(size_t k = 0; k < nt; ++k) for(int q = r.below(activity[k] + 1); q > 0; --q) { const auto a = g[k].key(), b = g[k].value(); x.t[k]->insert(val(a), val(b)); m[k].insert(a, b); n++; }
				end();
				const auto v = m[0].curr + (r.chance(1, 10) ? r.range(2, 6) : 1);
				begin("commit", [v](Model& y) { y.curr = v; });
				x.db->commit(v);
				for(auto& y : m) y.curr = v;
				end();
				log += "; insert*" + std::to_string(n) + " commit " + std::to_string(v);
			} else if(w < 85) {
				const auto v = m[0].curr - r.below(std::min(m[0].curr, 5u) + 1);
				begin("revert", [v](Model& y) { y.revert(v); });
				x.db->revert(v);
				for(auto& y : m) y.revert(v);
				end();
				log += "; revert " + std::to_string(v);
			} else {
				begin("open", [](Model&) {});
				x.close();
				x.open(base, threads);
				x.db->recover();
				end();
				log += "; open";
			}
			c.eval();
			if(x.db->version() != m[0].curr || x.db->min_version() != m[0].curr) c.violation("multi_version", "database version " + std::to_string(x.db->version()) + "/" + std::to_string(x.db->min_version()) + ", should be " + std::to_string(m[0].curr) + " [" + log + "]");
			for(size_t k = 0; k < nt; ++k) { str why; if(!matches(*x.t[k], m[k], why, g[k].keys)) c.violation("multi_live", "table " + std::to_string(k) + ": " + why + " [" + log + "]"); }
		}
		vnx::g_fs_hook = nullptr;
		x.close();
		c.count("file_operations", tr.ops);
		const size_t limit = c.n(40, 120);
		while(points.size() > limit) { points[pr.below(points.size())] = points.back(); points.pop_back(); }
		int np = 0;
		for(auto& p : points) {
			if(!seen.insert(image_hash(p.first, top.size())).second) continue;
			const str op = p.second.first->op + "/" + p.second.second;
			c.mark("multi history " + std::to_string(i) + " at " + op + ": " + log);
			std::vector<std::pair<image_t, int>> todo = {{p.first, 0}};
			while(!todo.empty()) {
				const auto cp = todo.back();
				todo.pop_back();
				const str dir = top + "/p" + std::to_string(np++);
				materialise(cp.first, base, dir);
				Tracer tn;
				tn.root = dir;
				tn.cut = Rng(pr.next());
				tn.load();
				if(cp.second < 2) tn.on_state = [&](const image_t& img, const char*) {
					if(todo.size() < 2 && pr.chance(1, 12)) { image_t mv; for(auto& e : img) mv[base + e.first.substr(dir.size())] = e.second; todo.push_back({mv, cp.second + 1}); }
				};
				vnx::g_fs_hook = &tn;
				str why, last;
				bool good = false;
				Multi y;
				y.opt = x.opt;
				try {
					y.open(dir, threads);
					std::set<uint32_t> vs;
					for(auto& t : y.t) vs.insert(t->current_version());
					if(vs.size() > 1) c.count("recovered_from_unequal_versions");
					const auto v = y.db->recover();
					tn.on_state = nullptr;
					for(auto& a : p.second.first->any) {
						bool all = v == a[0].curr;
						last = "version " + std::to_string(v) + " instead of " + std::to_string(a[0].curr);
						for(size_t k = 0; k < nt && all; ++k) if(!matches(*y.t[k], a[k], last, g[k].keys)) { all = false; last = "table " + std::to_string(k) + ": " + last; }
						if(all) { good = true; break; }
						why += (why.empty() ? "" : "; or ") + last;
					}
				} catch(const std::exception& ex) { tn.on_state = nullptr; why = str("exception: ") + ex.what(); }
				c.eval();
				c.count(cp.second ? "recoveries_after_second_crash" : "recoveries");
				c.nontrivial(image_hash(cp.first, top.size()));
				if(!good) c.violation("multi_crash:" + p.second.first->op, "after a crash the tables are not all in the state before or after the operation: " + why + " [" + log + " | crash at " + op + (cp.second ? " and again while recovering" : "") + "]");
				y.close();
				vnx::g_fs_hook = nullptr;
				fs::remove_all(dir);
			}
		}
		if(i < 4) c.sample(std::to_string(nt) + " tables, " + std::to_string(threads) + " threads" + log + " | " + std::to_string(points.size()) + " crash points");
	}
	fs::remove_all(top);
}

#include "h_db2.h"

int main(int argc, char** argv) {
	Check c(argc, argv);
	if(c.scratch.empty()) { c.scratch = "/tmp/h_db." + std::to_string(getpid()); }
	fs::create_directories(c.scratch);
	if(c.has("map")) run_map(c, false, 41);
	else if(c.has("revert")) run_map(c, true, 42);
	else if(c.has("crash")) run_crash(c);
	else if(c.has("multi")) run_multi(c);
	else if(c.has("typed")) run_typed(c);
	else if(c.has("threads")) run_threads(c);
	else return 77;
	return c.finish();
}
