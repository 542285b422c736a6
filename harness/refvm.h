// Reference interpreter for the contract VM: value semantics over plain maps, 256-bit compiler integers, exact costs.
// Written against the VM's documented behaviour; shares no code with src/vm.
#ifndef VERIF_REFVM_H_
#define VERIF_REFVM_H_

#include <cstdint>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <vector>
#include <tuple>
#include <functional>
#include <algorithm>
#include "ref.h"

namespace rv {

typedef unsigned _BitInt(256) u256;
typedef unsigned __int128 u128;
typedef uint64_t u64;

enum { T_NIL, T_FALSE, T_TRUE, T_REF, T_UINT, T_STR, T_BIN, T_ARR, T_MAP };
enum { F_DIRTY = 1, F_CONST = 2, F_STORED = 4, F_DEL = 8, F_KEY = 16 };

static const u64 SEG = 0x4000000, EXTERN_BASE = SEG, STACK_BASE = 2 * SEG, STATIC_BASE = STACK_BASE + 16 * SEG, HEAP = u64(1) << 32, NEXT = HEAP + 1;
static const u64 STACK_LEN = 16 * SEG;

struct Fail { std::string why; };

struct V {
	int type = T_NIL;
	u256 num = 0;
	std::string bin;
	u64 addr = 0;
	uint32_t size = 0;
	uint8_t flags = 0;
	uint32_t rc = 0;
	V(int t = T_NIL) : type(t) {}
	static V U(u256 v) { V r(T_UINT); r.num = v; return r; }
	static V S(const std::string& s) { V r(T_STR); r.bin = s; return r; }
	static V B(const std::string& s) { V r(T_BIN); r.bin = s; return r; }
	static V R(u64 a) { V r(T_REF); r.addr = a; return r; }
	static V Bool(bool b) { return V(b ? T_TRUE : T_FALSE); }
	size_t bytes() const { switch(type) { case T_REF: return 8; case T_UINT: return 32; case T_STR: case T_BIN: return bin.size(); case T_ARR: return 12; case T_MAP: return 8; } return 0; }
	// identity as a key: type and value
	std::string id() const {
		std::string r(1, char(type));
		switch(type) {
			case T_REF: case T_ARR: case T_MAP: r.append((const char*)&addr, 8); break;
			case T_UINT: r.append((const char*)&num, 32); break;
			case T_STR: case T_BIN: r += bin; break;
		}
		return r;
	}
	bool truthy() const { switch(type) { case T_NIL: case T_FALSE: return false; case T_UINT: return num != 0; case T_STR: case T_BIN: return bin.size(); } return true; }
	std::string text() const {
		static const char* H = "0123456789abcdef";
		std::string r = std::to_string(type) + ":";
		switch(type) {
			case T_REF: case T_MAP: r += std::to_string(addr); break;
			case T_ARR: r += std::to_string(addr) + "," + std::to_string(size); break;
			case T_UINT: { u256 x = num; std::string s; do { s += H[int(x & 15)]; x >>= 4; } while(x); std::reverse(s.begin(), s.end()); r += s; break; }
			case T_STR: case T_BIN: for(unsigned char c : bin) { r += H[c >> 4]; r += H[c & 15]; } break;
		}
		return r;
	}
};

inline int cmp(const V& l, const V& r) {
	auto c = [](auto a, auto b) { return a == b ? 0 : (a < b ? -1 : 1); };
	if(l.type != r.type) return l.type < r.type ? -1 : 1;
	switch(l.type) {
		case T_REF: case T_ARR: case T_MAP: return c(l.addr, r.addr);
		case T_UINT: return c(l.num, r.num);
		case T_STR: case T_BIN:
			if(l.bin.size() != r.bin.size()) return c(l.bin.size(), r.bin.size());
			for(size_t i = 0; i < l.bin.size(); ++i) if(l.bin[i] != r.bin[i]) return (unsigned char)l.bin[i] < (unsigned char)r.bin[i] ? -1 : 1;
			return 0;
	}
	return 0;
}

struct Instr { uint8_t code = 0, flags = 0; uint32_t a = 0, b = 0, c = 0, d = 0; };
struct Out { std::string contract, address; u128 amount = 0; bool has_memo = false; std::string memo;
	bool operator==(const Out& o) const { return contract == o.contract && address == o.address && amount == o.amount && has_memo == o.has_memo && memo == o.memo; } };

// committed state of all contracts
struct Store {
	std::map<std::pair<int, u64>, V> mem;
	std::map<std::tuple<int, u64, u64>, V> ent;
	std::map<std::pair<int, std::string>, u64> idx;
	std::map<std::pair<int, std::string>, u128> bal;
	std::set<std::pair<int, u64>> fresh;		// keys created by the running operation
};

// value handed in from outside (arguments, contract fields)
struct Var {
	enum { NUL, BOOL, INT, NEG, STR, BIN, LIST, MAP, OBJ, REAL } kind = NUL;
	u64 num = 0; std::string s; std::vector<Var> list; std::vector<std::pair<Var, Var>> map;
};

struct Env {		// what the surrounding node provides
	bool can_call = false, can_read = false;
	std::function<void(class Vm&, const std::string& name, const std::string& method, uint32_t nargs)> call;
	std::function<Var(const std::string& address, const std::string& field)> field;
	std::function<bool(const std::string& addr_text, std::string& out)> addr_decode;
	std::function<std::string(const std::string& raw)> addr_encode;
	std::function<bool(const std::string& sig, const std::string& key, const std::string& msg, bool& valid)> verify;	// false: malformed
};

class Vm {
public:
	int C; std::string self;
	Store& st; Env& env; bool read_only; uint32_t version;
	u64 gas = 0, limit = 0; uint32_t err_code = 0, err_addr = -1;
	bool unordered = false;		// failed while evaluating operands whose order the language leaves open: gas may differ
	std::vector<Instr>* code = nullptr;
	std::function<void(Vm&, u64)> on_fetch;		// may generate code
	struct Frame { u64 ip = 0, sp = 0; };
	std::vector<Frame> stack;
	std::vector<Out> outputs, mints;
	std::map<u64, std::unique_ptr<V>> mem;
	std::map<std::pair<u64, u64>, std::unique_ptr<V>> ent;
	std::map<std::string, u64> keys;
	std::map<std::string, u128> bal;
	bool inited = false, first = true; u64 new_base = -1; int depth = 0;
	u64 steps = 0; std::map<int, u64> ops;
	std::map<std::string, u64>* cover = nullptr;

	Vm(int C, const std::string& self, Store& st, Env& env, bool ro, uint32_t version) : C(C), self(self), st(st), env(env), read_only(ro), version(version) {}
	// a copy to try things on (storage is not touched before commit)
	Vm(const Vm& o) : C(o.C), self(o.self), st(o.st), env(o.env), read_only(o.read_only), version(o.version), gas(o.gas), limit(o.limit), code(o.code), stack(o.stack), outputs(o.outputs), mints(o.mints),
		keys(o.keys), bal(o.bal), inited(o.inited), first(o.first), new_base(o.new_base), depth(o.depth) {
		for(auto& e : o.mem) mem.emplace_hint(mem.end(), e.first, e.second ? std::make_unique<V>(*e.second) : nullptr);
		for(auto& e : o.ent) ent.emplace_hint(ent.end(), e.first, e.second ? std::make_unique<V>(*e.second) : nullptr);
	}
	[[noreturn]] void fail(const std::string& s) { throw Fail{s}; }
	void check() { if(gas > limit) { err_code = 1001 /*TXFEE_OVERRUN, translated by the harness*/; over = true; fail("out of gas"); } }
	bool over = false;

	// ---- storage
	std::unique_ptr<V> from_store(const V* p) {
		std::unique_ptr<V> r;
		if(p && !(p->flags & F_DEL)) { r = std::make_unique<V>(*p); r->flags &= ~F_DIRTY; r->flags |= F_STORED; if(read_only) r->flags |= F_CONST; }
		gas += 2000 + (r ? r->bytes() / 32 * 50 : 0);
		check();
		return r;
	}
	std::unique_ptr<V> s_read(u64 a) { auto i = st.mem.find({C, a}); return from_store(i == st.mem.end() ? nullptr : &i->second); }
	std::unique_ptr<V> s_read(u64 a, u64 k) { auto i = st.ent.find({C, a, k}); return from_store(i == st.ent.end() ? nullptr : &i->second); }

	// ---- memory
	V* read(u64 a, bool mem_only = false) {
		auto i = mem.find(a);
		if(i != mem.end()) { V* v = i->second.get(); return v && (v->flags & F_DEL) ? nullptr : v; }
		if(mem_only || a < STATIC_BASE) return nullptr;
		auto v = s_read(a);
		if(!v) return nullptr;
		return (mem[a] = std::move(v)).get();
	}
	V& need(u64 a) { V* v = read(a); if(!v) fail("read fail"); return *v; }
	V& need(u64 a, int type) { V& v = need(a); if(v.type != type) fail("type"); return v; }
	V* entry(u64 a, u64 k) {
		auto i = ent.find({a, k});
		if(i != ent.end()) { V* v = i->second.get(); return v && (v->flags & F_DEL) ? nullptr : v; }
		if(a < STATIC_BASE) return nullptr;
		auto v = s_read(a, k);
		if(!v) return nullptr;
		return (ent[{a, k}] = std::move(v)).get();
	}
	V& need_entry(u64 a, u64 k) { V* v = entry(a, k); if(!v) fail("entry"); return *v; }

	void addref(u64 a) { if(V* v = read(a, true)) if(!(v->flags & F_STORED)) { v->flags |= F_DIRTY; v->rc++; } }
	void unref(u64 a) {
		V* v = read(a, true);
		if(!v || (v->flags & F_STORED)) return;
		if(!v->rc) fail("unref underflow");
		v->flags |= F_DIRTY;
		if(--v->rc == 0) erase(a);
	}
	void clear(V& v) {
		switch(v.type) {
			case T_REF: unref(v.addr); break;
			case T_ARR: case T_MAP:
				if(v.flags & F_STORED) fail("stored container");
				erase_entries(v.addr);
		}
	}
	void erase_entries(u64 a) { for(auto i = ent.lower_bound({a, 0}); i != ent.end() && i->first.first == a; ++i) { erase_cell(i->second); check(); } }
	void erase_cell(std::unique_ptr<V>& p) {
		if(!p) return;
		if(p->flags & F_CONST) fail("const");
		if(p->flags & F_DEL) return;
		if(p->rc) fail("rc");
		if(++depth > 100) fail("depth");
		gas += 50; check();
		clear(*p);
		const uint8_t f = p->flags & F_STORED ? (p->flags | F_DIRTY | F_DEL) : F_DEL;
		p = std::make_unique<V>();
		p->flags = f;
		depth--;
	}
	void erase(u64 a) {
		auto i = mem.find(a);
		if(i != mem.end()) erase_cell(i->second);
		else if(a >= STATIC_BASE) { if(auto v = s_read(a)) erase_cell(mem[a] = std::move(v)); }
	}
	// replaces the value of a cell
	V* put(std::unique_ptr<V>& cell, V value) {
		value.flags = 0; value.rc = 0;
		if(cell) {
			if(cell->flags & F_CONST) fail("const");
			value.flags = cell->flags; value.rc = cell->rc;
			clear(*cell);
		}
		if(value.bytes() > 1024 * 1024) fail("size");
		gas += 50 + value.bytes() * 30 / 32;
		value.flags |= F_DIRTY; value.flags &= ~F_DEL;
		cell = std::make_unique<V>(value);
		if(value.type == T_REF) addref(value.addr);
		return cell.get();
	}
	std::unique_ptr<V>& cell(u64 dst) {
		if(inited && dst < EXTERN_BASE) fail("init");
		auto& c = mem[dst];
		if(!c && dst >= STATIC_BASE && dst < new_base) c = s_read(dst);
		return c;
	}
	V* assign(u64 dst, V v) { if(inited && dst < EXTERN_BASE) fail("init"); if(v.type == T_ARR || v.type == T_MAP) v.addr = dst; return put(cell(dst), v); }
	V* write(u64 dst, const V& src) { return write_cell(cell(dst), &dst, src); }
	V* write_opt(u64 dst, const V* src) { return src ? write(dst, *src) : write(dst, V()); }
	V* write_cell(std::unique_ptr<V>& c, const u64* dst, const V& src) {
		if(c.get() == &src) return c.get();
		if(src.flags & F_DEL) fail("deleted src");
		const V s = src;		// by value
		if(c) {
			if(c->flags & F_CONST) fail("const");
			if(c->flags & F_DEL) { c->flags |= F_DIRTY; c->flags &= ~F_DEL; }
			const bool simple = s.type <= T_TRUE && c->type <= T_TRUE;
			if(simple) { if(c->type != s.type) { c->flags |= F_DIRTY; c->type = s.type; } return c.get(); }
			if(s.type == T_REF && c->type == T_REF) {
				if(c->addr != s.addr) { unref(c->addr); c->flags |= F_DIRTY; c->addr = s.addr; addref(s.addr); }
				return c.get();
			}
			if(s.type == T_UINT && c->type == T_UINT) { if(c->num != s.num) { c->flags |= F_DIRTY; c->num = s.num; } return c.get(); }
		}
		switch(s.type) {
			case T_ARR:
				if(!dst) fail("array here");
				{ V n(T_ARR); n.size = s.size; n.addr = *dst; put(c, n); }
				for(u64 i = 0; i < s.size; ++i) { write_entry(*dst, i, need_entry(s.addr, i)); check(); }
				return c.get();
			case T_MAP:
				if(!dst) fail("map here");
				if(s.flags & F_STORED) fail("stored map");
				{ V n(T_MAP); n.addr = *dst; put(c, n); }
				for(auto i = ent.lower_bound({s.addr, 0}); i != ent.end() && i->first.first == s.addr; ++i)
					if(i->second && !(i->second->flags & F_DEL)) { write_entry(*dst, i->first.second, *i->second); check(); }
				return c.get();
			default: {
				V n = s; n.flags = 0; n.rc = 0;
				return put(c, n);
			}
		}
	}
	V* write_entry(u64 dst, u64 key, const V& src) {
		if(inited && dst < EXTERN_BASE) fail("init");
		if(need(dst).flags & F_CONST) fail("const");
		return write_cell(ent[{dst, key}], nullptr, src);
	}
	u64 alloc() {
		V* o = read(NEXT);
		if(o && o->type != T_UINT) fail("type");
		if(!o) { new_base = HEAP; o = assign(NEXT, V::U(HEAP + 0x1000)); if(!(o->flags & F_STORED) && !o->rc) { o->rc = 1; o->flags |= F_DIRTY; } }
		if(o->num >= u64(-1)) fail("memory");
		o->flags |= F_DIRTY;
		if(first) { first = false; new_base = u64(o->num); }
		const u64 r = u64(o->num);
		o->num += 1;
		return r;
	}
	u64 lookup(const V& var_, bool ro) {
		const V var = var_;
		if(var.type == T_NIL) fail("key type");
		if(var.bytes() > 4096) fail("key size");
		auto i = keys.find(var.id());
		if(i != keys.end()) return i->second;
		gas += 2000 + var.bytes() / 32 * 50; check();
		auto j = st.idx.find({C, var.id()});
		if(j != st.idx.end() && j->second) {
			V& v = need(j->second);
			if(!(v.flags & F_CONST) || !(v.flags & F_KEY)) fail("key flags");
			keys[v.id()] = j->second;
			return j->second;
		}
		if(ro) return 0;
		const u64 k = alloc();
		V* v = write(k, var_);
		v->flags |= F_CONST | F_KEY;
		if(!(v->flags & F_STORED)) { v->flags |= F_DIRTY; v->rc++; }
		keys[v->id()] = k;
		return k;
	}
	void push_back(u64 dst, const V& v) {
		V& a = need(dst, T_ARR);
		if(a.size == uint32_t(-1)) fail("size");
		a.size++;
		write_entry(dst, a.size - 1, v);
		a.flags |= F_DIRTY;
	}
	void erase_entry(u64 dst, u64 key) {
		auto i = ent.find({dst, key});
		if(i == ent.end() && dst >= STATIC_BASE && (need(dst).flags & F_STORED)) { if(auto v = s_read(dst, key)) i = ent.emplace(std::make_pair(dst, key), std::move(v)).first; }
		if(i != ent.end()) erase_cell(i->second);
	}
	void init() {
		for(auto i = mem.lower_bound(1); i != mem.end() && i->first < EXTERN_BASE; ++i) if(i->second && i->second->bytes() <= 4096) keys.emplace(i->second->id(), i->first);
		inited = true;
	}
	void begin(u64 ip) {
		for(auto i = mem.begin(); i != mem.end() && i->first < STACK_BASE; ++i) if(i->second) { i->second->flags |= F_CONST; i->second->flags &= ~F_DIRTY; }
		stack.push_back({ip, 0});
	}
	void run() { while(stack.size()) step(); }
	void step() {
		const u64 ip = stack.back().ip;
		if(on_fetch) on_fetch(*this, ip);
		if(ip >= code->size()) fail("code bounds");
		try { ops[(*code)[ip].code]++; steps++; exec((*code)[ip]); check(); } catch(...) { err_addr = uint32_t(ip); throw; }
	}
	void clear_stack(u64 off) {
		for(auto i = mem.lower_bound(STACK_BASE + off); i != mem.end() && i->first < STATIC_BASE;) { if(i->second) clear(*i->second); i = mem.erase(i); check(); }
	}
	bool ret() { clear_stack(stack.back().sp + 1); stack.pop_back(); return stack.empty(); }
	Frame& frame() { if(stack.empty()) fail("no frame"); return stack.back(); }
	// operand: effective address, one level of reference if asked for
	u64 local(uint32_t a) { if(a >= STACK_BASE && a < STATIC_BASE) { if(a + frame().sp >= STATIC_BASE) fail("stack"); return a + frame().sp; } return a; }
	u64 adr(uint32_t a, bool r) { const u64 x = local(a); if(!r) return x; V& v = need(x); return v.type == T_REF ? v.addr : x; }
	u64 val(uint32_t a, bool r) { return r ? u64(need(local(a), T_UINT).num) : a; }

	void store(u64 a, const V& v) {
		if(read_only) fail("read only");
		if(v.type == T_REF && v.addr < STATIC_BASE) fail("ref");
		if((v.flags & F_KEY) && !(v.flags & F_CONST)) fail("key");
		gas += (2000 + v.bytes() * 50) * (v.flags & F_KEY ? 2 : 1); check();
		if(st.fresh.count({C, a})) fail("overwrite key");
		st.mem[{C, a}] = v;
		if(v.flags & F_KEY) st.fresh.insert({C, a});
		if(v.flags & F_KEY) st.idx[{C, v.id()}] = a;
	}
	void store(u64 a, u64 k, const V& v) {
		if(read_only) fail("read only");
		if(v.type == T_REF && v.addr < STATIC_BASE) fail("ref");
		if(v.rc) fail("rc");
		gas += 2000 + v.bytes() * 50; check();
		st.ent[{C, a, k}] = v;
	}
	void commit() {
		clear_stack(0);
		for(auto i = mem.lower_bound(STATIC_BASE); i != mem.end(); ++i) if(i->second && (i->second->flags & F_DIRTY)) { store(i->first, *i->second); i->second->flags &= ~F_DIRTY; }
		for(auto i = ent.lower_bound({STATIC_BASE, 0}); i != ent.end(); ++i) if(i->second && (i->second->flags & F_DIRTY)) { store(i->first.first, i->first.second, *i->second); i->second->flags &= ~F_DIRTY; }
		check();
	}
	u128& balance(u64 cur) {
		const V& c = need(cur, T_BIN);
		if(c.bin.size() != 32) fail("address");
		auto i = bal.find(c.bin);
		if(i != bal.end()) return i->second;
		gas += 50;
		gas += 2000; check();
		auto j = st.bal.find({C, c.bin});
		return bal[c.bin] = j == st.bal.end() ? 0 : j->second;
	}
	std::string addr_of(u64 a) { const V& v = need(a, T_BIN); if(v.bin.size() != 32) fail("address"); return v.bin; }
	void memo_of(u64 a, Out& o) {
		const V& v = need(a);
		if(v.type == T_NIL) return;
		if(v.type != T_STR) fail("memo type");
		if(v.bin.size() > 64) fail("memo size");
		if(v.bin.size()) { o.has_memo = true; o.memo = v.bin; }
	}
	static std::string digits(u256 v, int base) {
		std::string s;
		do { const int d = int(v % (u256)base); s += char(d < 10 ? '0' + d : 'a' + d - 10); v /= (u256)base; } while(v);
		std::reverse(s.begin(), s.end());
		return s;
	}
	static std::string be32(u256 v, bool big) { std::string s(32, 0); for(int i = 0; i < 32; ++i) { s[big ? 31 - i : i] = char(uint8_t(v)); v >>= 8; } return s; }

	// in-coming values
	void assign_var(u64 dst, const Var& v) { assign_rec(dst, nullptr, v, 1); }
	void take(u64 dst, const u64* key, const V& v) { if(key) write_entry(dst, *key, v); else assign(dst, v); }
	void assign_rec(u64 dst, const u64* key, const Var& v, size_t level) {
		switch(v.kind) {
			case Var::NUL: take(dst, key, V()); break;
			case Var::BOOL: take(dst, key, V::Bool(v.num)); break;
			case Var::INT: take(dst, key, V::U(v.num)); break;
			case Var::NEG: fail("negative"); break;
			case Var::REAL: fail("float"); break;
			case Var::STR: take(dst, key, V::S(v.s)); break;
			case Var::BIN: take(dst, key, V::B(v.s)); break;
			case Var::LIST: {
				if(level >= 100) fail("recursion");
				const u64 a = alloc();
				V n(T_ARR); n.size = v.list.size(); assign(a, n);
				for(u64 i = 0; i < v.list.size(); ++i) assign_rec(a, &i, v.list[i], level + 1);
				take(dst, key, V::R(a));
				break;
			}
			default: {
				if(level >= 100) fail("recursion");
				const u64 a = alloc();
				assign(a, V(T_MAP));
				for(auto& e : v.map) {
					V k;
					switch(e.first.kind) {
						case Var::INT: k = V::U(e.first.num); break;
						case Var::STR: k = V::S(e.first.s); break;
						case Var::BIN: k = V::B(e.first.s); break;
						default: fail("key type");
					}
					const u64 id = lookup(k, false);
					assign_rec(a, &id, e.second, level + 1);
				}
				take(dst, key, V::R(a));
			}
		}
	}
	// copies a value between two running contracts
	static void transfer(Vm& dst, Vm& src, u64 da, const u64* dk, V* var, size_t level) {
		if(++level > 100) dst.fail("recursion");
		V out; bool have = false;
		if(var) switch(var->type) {
			case T_REF: {
				const u64 target = var->addr;
				const u64 h = dst.alloc();
				transfer(dst, src, h, nullptr, src.read(target), level);
				out = V::R(h); have = true;
				break;
			}
			case T_ARR: {
				if(dk) dst.fail("array here");
				V n(T_ARR); n.size = var->size; const u64 from = var->addr; const uint32_t size = var->size;
				dst.assign(da, n);
				for(u64 i = 0; i < size; ++i) transfer(dst, src, da, &i, src.entry(from, i), level);
				break;
			}
			case T_MAP: {
				if(dk) dst.fail("map here");
				if(var->flags & F_STORED) dst.fail("stored map");
				const u64 from = var->addr;
				dst.assign(da, V(T_MAP));
				std::vector<u64> ks;
				for(auto i = src.ent.lower_bound({from, 0}); i != src.ent.end() && i->first.first == from; ++i) if(i->second && !(i->second->flags & F_DEL)) ks.push_back(i->first.second);
				for(u64 k : ks) {
					V* kv = src.read(k);
					const u64 id = kv ? dst.lookup(*kv, false) : 0;
					transfer(dst, src, da, &id, src.ent[{from, k}].get(), level);
				}
				break;
			}
			default: out = *var; have = true;
		}
		if(have) { out.flags &= ~F_DEL; if(dk) dst.write_entry(da, *dk, out); else dst.write(da, out); }
		dst.check();
	}
	static void transfer(Vm& dst, Vm& src, u64 da, u64 sa) { transfer(dst, src, da, nullptr, src.read(sa), 0); }

	u256 uint_at(u64 a) { return need(a, T_UINT).num; }
	// operands of one instruction evaluated in the order written; a failure here may also be met in another order
	struct Operands { u64 a, b, c, d; };
	// spec: 'a' address, 'v' value, '-' unused
	Operands args(const Instr& x, const char* spec) {
		Operands o = {0, 0, 0, 0};
		u64* p[4] = {&o.a, &o.b, &o.c, &o.d};
		const uint32_t raw[4] = {x.a, x.b, x.c, x.d};
		int refs = 0;
		for(int i = 0; spec[i]; ++i) if((x.flags >> i) & 1) refs++;
		try {
			for(int i = 0; spec[i]; ++i) if(spec[i] != '-') *p[i] = spec[i] == 'a' ? adr(raw[i], (x.flags >> i) & 1) : val(raw[i], (x.flags >> i) & 1);
		} catch(...) { if(refs > 1) unordered = true; throw; }
		return o;
	}
	Operands seq(const Instr& x, const char* spec) { const bool was = unordered; try { return args(x, spec); } catch(...) { unordered = was; throw; } }

	void exec(const Instr& x) {
		gas += 20;
		const bool fa = x.flags & 1, fb = x.flags & 2;
		switch(x.code) {
		case 0x00: break;
		case 0x01: if(fa) fail("flag"); erase(x.a); break;
		case 0x02: { auto o = args(x, "aa"); if(o.a != o.b) write(o.a, need(o.b)); break; }
		case 0x03: { auto o = args(x, "aa"); const u64 h = alloc(); write(h, need(o.b)); write(o.a, V::R(h)); break; }
		case 0x04: frame().ip = val(x.a, fa); return;
		case 0x05: case 0x06:
			if(need(adr(x.b, fb)).truthy() == (x.code == 0x05)) { const u64 t = val(x.a, fa); frame().ip = t; return; }
			break;
		case 0x07: {
			if(fb) fail("flag");
			const u64 t = val(x.a, fa), sp = x.b;
			if(sp >= STACK_LEN) fail("stack");
			if(stack.size() >= 1000) fail("recursion");
			gas += 30;
			stack.push_back({t, frame().sp + sp});
			return;
		}
		case 0x08: if(ret()) return; break;
		case 0x20: case 0x21: case 0x22: case 0x23: case 0x24: case 0x44: case 0x45: {
			auto o = seq(x, "aaa");
			const u256 L = uint_at(o.b), R = uint_at(o.c);
			u256 D = 0;
			const bool ovf = x.flags & 32;
			switch(x.code) {
				case 0x20: D = L + R; if(ovf && (u256)~L < R) fail("overflow"); break;
				case 0x21: D = L - R; if(ovf && L < R) fail("overflow"); break;
				case 0x22: {
					gas += (L >> 64) || (R >> 64) ? 200 : 50;
					D = L * R;
					if(ovf) {
						if(version >= 1) { typedef unsigned _BitInt(512) u512; if(((u512)L * (u512)R) >> 256) fail("overflow"); }
						else if(D < L && D < R) fail("overflow");
					}
					break;
				}
				case 0x23: case 0x24:
					if(R == 0) fail("div");
					gas += (L >> 128) ? 5000 : (L >> 64) ? 1000 : 50;
					D = x.code == 0x23 ? L / R : L % R;
					break;
				case 0x44: D = L < R ? L : R; break;
				case 0x45: D = L > R ? L : R; break;
			}
			write(o.a, V::U(D));
			break;
		}
		case 0x40: {
			auto o = seq(x, "aa");
			const V v = need(o.b);
			if(x.flags & 64) {
				if(v.type == T_UINT) write(o.a, V::U(~v.num));
				else if(v.type == T_BIN) { V r = V::B(v.bin); for(auto& c : r.bin) c = ~c; assign(o.a, r); }
				else fail("type");
			} else write(o.a, V::Bool(!v.truthy()));
			break;
		}
		case 0x41: case 0x42: case 0x43: {
			auto o = seq(x, "aaa");
			need(o.b); need(o.c);
			const V L = need(o.b), R = need(o.c);
			auto f = [&](auto l, auto r) { return x.code == 0x41 ? l ^ r : x.code == 0x42 ? l & r : l | r; };
			if(x.flags & 64) {
				if(L.type != R.type) fail("type");
				if(L.type == T_UINT) write(o.a, V::U(f(L.num, R.num)));
				else if(L.type == T_BIN) {
					if(L.bin.size() != R.bin.size()) fail("length");
					V r = V::B(L.bin);
					for(size_t i = 0; i < r.bin.size(); ++i) r.bin[i] = char(f(uint8_t(L.bin[i]), uint8_t(R.bin[i])));
					assign(o.a, r);
				} else fail("type");
			} else write(o.a, V::Bool(f(int(L.truthy()), int(R.truthy()))));
			break;
		}
		case 0x46: case 0x47: {
			auto o = seq(x, "aav");
			const u256 v = uint_at(o.b);
			write(o.a, V::U(o.c >= 256 ? (u256)0 : x.code == 0x46 ? v << int(o.c) : v >> int(o.c)));
			break;
		}
		case 0x60: case 0x61: case 0x62: case 0x63: case 0x64: case 0x65: {
			auto o = seq(x, "aaa");
			need(o.b); need(o.c);
			const V &L = need(o.b), &R = need(o.c);
			if(x.code > 0x61 && L.type != R.type) fail("type");
			const int c = cmp(L, R);
			const bool r[6] = {c == 0, c != 0, c < 0, c > 0, c <= 0, c >= 0};
			write(o.a, V::Bool(r[x.code - 0x60]));
			break;
		}
		case 0x80: { auto o = seq(x, "aa"); write(o.a, V::U((unsigned)need(o.b).type)); break; }
		case 0x81: {
			auto o = seq(x, "aa");
			const V& v = need(o.b);
			if(v.type == T_STR || v.type == T_BIN) write(o.a, V::U((u64)v.bin.size())); else if(v.type == T_ARR) write(o.a, V::U(v.size)); else fail("type");
			break;
		}
		case 0x82: {
			auto o = args(x, "aaa");
			const V v = need(o.b);
			if(v.type == T_ARR) {
				const u256 i = uint_at(o.c);
				if(i < v.size) write(o.a, need_entry(o.b, u64(i)));
				else if(x.flags & 16) fail("bounds");
				else write(o.a, V());
			} else if(v.type == T_MAP) {
				const u64 k = lookup(need(o.c), true);
				write_opt(o.a, k ? entry(o.b, k) : nullptr);
			} else if(x.flags & 16) fail("type");
			else write(o.a, V());
			break;
		}
		case 0x83: {
			auto o = args(x, "aaa");
			const V v = need(o.a);
			if(v.type == T_ARR) {
				const u256 i = uint_at(o.b);
				if(i >= v.size) fail("bounds");
				write_entry(o.a, u64(i), need(o.c));
			} else if(v.type == T_MAP) {
				V* src = &need(o.c);
				const u64 k = lookup(need(o.b), false);
				write_entry(o.a, k, *src);
			} else fail("type");
			break;
		}
		case 0x84: {
			auto o = args(x, "aa");
			if(need(o.a).type != T_MAP) fail("type");
			if(const u64 k = lookup(need(o.b), true)) erase_entry(o.a, k);
			break;
		}
		case 0x85: { auto o = args(x, "aa"); if(o.a == o.b) fail("same"); push_back(o.a, need(o.b)); break; }
		case 0x86: {
			auto o = args(x, "aa");
			if(o.a == o.b) fail("same");
			V& a = need(o.b, T_ARR);
			if(a.flags & F_CONST) fail("const");
			if(!a.size) fail("empty");
			const u64 i = a.size - 1;
			write(o.a, need_entry(o.b, i));
			erase_entry(o.b, i);
			if(V* p = read(o.b, true)) { p->size--; p->flags |= F_DIRTY; }		// gone if only the destination referred to it
			break;
		}
		case 0xA0: { auto o = args(x, "aavv"); conv(o.a, o.b, o.c, o.d); break; }
		case 0xA1: {
			auto o = args(x, "aaa");
			need(o.b); need(o.c);
			const V L = need(o.b), R = need(o.c);
			if(L.type != R.type) fail("type");
			if(L.type == T_STR || L.type == T_BIN) { V r(L.type); r.bin = L.bin + R.bin; assign(o.a, r); }
			else if(L.type == T_ARR) {
				if(o.a == o.b || o.a == o.c) fail("same");
				const u64 h = alloc();
				assign(h, V(T_ARR));
				for(u64 i = 0; i < L.size; ++i) { push_back(h, need_entry(L.addr, i)); check(); }
				for(u64 i = 0; i < R.size; ++i) { push_back(h, need_entry(R.addr, i)); check(); }
				write(o.a, V::R(h));
			} else fail("type");
			break;
		}
		case 0xA2: {
			auto o = args(x, "aavv");
			const V v = need(o.b);
			if(v.type != T_STR && v.type != T_BIN) fail("type");
			if(o.d > v.bin.size() || o.c > v.bin.size() - o.d) fail("bounds");
			V r(v.type); r.bin = v.bin.substr(o.d, o.c);
			assign(o.a, r);
			break;
		}
		case 0xA3: {
			auto o = args(x, "aa");
			const V& v = need(o.b);
			if(v.type != T_STR && v.type != T_BIN) fail("type");
			gas += (v.bin.size() + 63) / 64 * 2000; check();
			const auto h = ref::sha256(v.bin.data(), v.bin.size());
			write(o.a, V::B(std::string((const char*)h.data(), h.size())));
			break;
		}
		case 0xA4: {
			auto o = args(x, "aaaa");
			gas += 20000; check();
			unordered = true;
			const std::string sig = need(o.d, T_BIN).bin, key = need(o.c, T_BIN).bin, msg = need(o.b, T_BIN).bin;
			bool ok = false;
			if(!env.verify || !env.verify(sig, key, msg, ok)) fail("verify");
			unordered = false;
			write(o.a, V::Bool(ok));
			break;
		}
		case 0xC0: args(x, "va"); break;
		case 0xC1: {
			auto o = args(x, "aaaa");
			const u256 n = uint_at(o.b);
			if(n == 0) break;
			if(n >> 128) fail("amount");
			if(o.c == 0) fail("currency");
			u128& b = balance(o.c);
			if(b < u128(n)) fail("funds");
			b -= u128(n);
			Out t; t.contract = addr_of(o.c); t.address = addr_of(o.a); t.amount = u128(n);
			memo_of(o.d, t);
			outputs.push_back(t);
			break;
		}
		case 0xC2: {
			auto o = args(x, "aaa");
			const u256 n = uint_at(o.b);
			if(n == 0) break;
			if(n >> 80) fail("amount");
			Out t; t.contract = self; t.address = addr_of(o.a); t.amount = u128(n);
			memo_of(o.c, t);
			mints.push_back(t);
			break;
		}
		case 0xC3: args(x, "aa"); break;
		case 0xC4: err_code = uint32_t(val(x.b, fb)); read(adr(x.a, fa)); fail("FAIL");
		case 0xC5: {
			auto o = args(x, "aavv");
			if(o.c >= STACK_LEN) fail("stack");
			if(stack.size() >= 1000) fail("recursion");
			if(o.d > 4096) fail("nargs");
			if(!env.can_call) fail("no calls");
			gas += 30;
			Frame f = frame();
			f.sp += o.c;
			stack.push_back(f);
			unordered = true;
			const std::string name = need(o.a, T_STR).bin, method = need(o.b, T_STR).bin;
			unordered = false;
			env.call(*this, name, method, uint32_t(o.d));
			ret();
			break;
		}
		case 0xC6: {
			auto o = args(x, "aaa");
			if(!env.can_read) fail("no reads");
			unordered = true;
			const std::string a = addr_of(o.b), f = need(o.c, T_STR).bin;
			unordered = false;
			assign_var(o.a, env.field(a, f));
			check();
			break;
		}
		case 0xC7: { auto o = args(x, "aa"); const u128 b = balance(o.b); write(o.a, V::U(b)); break; }
		default: fail("op");
		}
		frame().ip++;
	}
	enum { CV_DEF, CV_B2, CV_B8, CV_B10, CV_B16, CV_BOOL, CV_UINT, CV_STR, CV_BIN, CV_ARR, CV_ADDR, CV_BE, CV_LE };
	void conv(u64 dst, u64 src, u64 df, u64 sf) {
		const int d0 = df & 255, d1 = (df >> 8) & 255, s0 = sf & 255;
		const V v = need(src);
		if(d0 == CV_BOOL) { write(dst, V::Bool(v.truthy())); return; }
		auto base_of = [&](int f, int dflt) { switch(f) { case CV_DEF: return dflt; case CV_B2: return 2; case CV_B8: return 8; case CV_B10: return 10; case CV_B16: return 16; } fail("base"); };
		switch(v.type) {
			case T_NIL: if(d0 == CV_UINT) write(dst, V::U(0)); else if(d0 == CV_ADDR) write(dst, V::B(std::string(32, 0))); else fail("conv"); break;
			case T_TRUE: case T_FALSE: if(d0 != CV_UINT) fail("conv"); write(dst, V::U((unsigned)(v.type == T_TRUE))); break;
			case T_UINT:
				if(d0 == CV_UINT) write(dst, need(src));
				else if(d0 == CV_STR) {
					const int base = base_of(d1, 10);
					if(v.num >> 128) { if(base == 10) fail("base"); gas += 250000; }
					else if(v.num >> 64) gas += 25000;
					else if(v.num >> 32) gas += 1000;
					else gas += 500;
					check();
					assign(dst, V::S(digits(v.num, base)));
				} else if(d0 == CV_BIN) {
					if(d1 != CV_DEF && d1 != CV_BE && d1 != CV_LE) fail("endian");
					assign(dst, V::B(be32(v.num, d1 != CV_LE)));
				} else fail("conv");
				break;
			case T_STR:
				if(d0 == CV_UINT) {
					std::string s = v.bin;
					const std::string pre = s.substr(0, 2);
					const int base = base_of(s0, pre == "0x" ? 16 : pre == "0b" ? 2 : 10);
					if(pre == "0x" || pre == "0b") s = s.substr(2);
					u256 n = 0;
					for(char c : s) {
						const int dg = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : -1;
						if(dg < 0 || dg >= base) fail("digit");
						n = n * (u256)base + (u256)dg;
					}
					gas += s.size() * 200; check();
					write(dst, V::U(n));
				} else if(d0 == CV_STR) write(dst, need(src));
				else if(d0 == CV_BIN) {
					if(s0 == CV_DEF) assign(dst, V::B(v.bin));
					else if(s0 == CV_B16) {
						if(v.bin.size() % 2) fail("odd");
						std::string r;
						for(size_t i = v.bin.substr(0, 2) == "0x" ? 2 : 0; i < v.bin.size(); ++i) if(!isxdigit((unsigned char)v.bin[i])) fail("hex");
						for(size_t i = v.bin.substr(0, 2) == "0x" ? 2 : 0; i + 1 < v.bin.size(); i += 2) r += char(strtol(v.bin.substr(i, 2).c_str(), nullptr, 16));
						assign(dst, V::B(r));
					} else fail("base");
				} else if(d0 == CV_ADDR) {
					gas += 1000; check();
					std::string r;
					if(!env.addr_decode || !env.addr_decode(v.bin, r)) fail("address");
					assign(dst, V::B(r));
				} else fail("conv");
				break;
			case T_BIN:
				if(d0 == CV_UINT) {
					if(v.bin.size() != 32) fail("size");
					if(s0 != CV_DEF && s0 != CV_BE && s0 != CV_LE) fail("endian");
					u256 n = 0;
					for(int i = 0; i < 32; ++i) n = (n << 8) | (u256)uint8_t(v.bin[s0 == CV_LE ? 31 - i : i]);
					write(dst, V::U(n));
				} else if(d0 == CV_STR) {
					if(d1 == CV_ADDR) { gas += 1000; check(); if(v.bin.size() != 32) fail("address"); assign(dst, V::S(env.addr_encode(v.bin))); }
					else if(d1 == CV_B16) { std::string r; static const char* H = "0123456789ABCDEF"; for(unsigned char c : v.bin) { r += H[c >> 4]; r += H[c & 15]; } assign(dst, V::S(r)); }
					else if(d1 == CV_DEF) assign(dst, V::S(v.bin));
					else fail("base");
				} else if(d0 == CV_BIN) write(dst, need(src));
				else if(d0 == CV_ADDR) { if(v.bin.size() != 32) fail("size"); write(dst, need(src)); }
				else fail("conv");
				break;
			default: fail("conv");
		}
	}
};

} // rv
#endif
