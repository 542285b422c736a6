// Generates contract code while the reference interpreter runs it, so that most instructions meet operands they can work with.
#ifndef VERIF_VMGEN_H_
#define VERIF_VMGEN_H_

#include "common.h"
#include "refvm.h"
#include <mmx/addr_t.hpp>
#include <mmx/contract/Binary.hxx>

namespace gen {

using rv::V; using rv::u256; using rv::u64; using verif::Rng;

struct Contract {
	std::string name; mmx::addr_t address;
	std::vector<V> consts;
	std::vector<rv::Instr> code; std::vector<bool> have;
	std::map<std::string, u64> entry; std::map<std::string, bool> is_public, is_const;
	std::map<std::string, int> depends;
	std::shared_ptr<const mmx::contract::Binary> binary;
};

inline u256 any256(Rng& r) {
	switch(r.below(9)) {
		case 0: return r.below(8);
		case 1: return r.below(1000);
		case 2: return r.next();
		case 3: return ((u256)1 << int(r.below(256))) - (u256)r.below(2);
		case 4: return ~(u256)0 - (u256)r.below(3);
		case 5: return ((u256)r.next() << 64) | r.next();
		case 6: return (u256)r.below(3) + ((u256)1 << int(64 * r.range(1, 3)));
		case 7: return (u256)r.below(5) << int(r.below(250));
		default: { u256 v = 0; for(int i = 0; i < 4; ++i) v = (v << 64) | r.next(); return v >> int(r.below(256)); }
	}
}
inline std::string rstr(Rng& r, size_t n) { std::string s; for(size_t i = 0; i < n; ++i) s += char(r.range(32, 126)); return s; }
inline std::string rbin(Rng& r, size_t n) { auto b = r.bytes(n); return std::string(b.begin(), b.end()); }

inline rv::Var any_var(Rng& r, int depth) {
	rv::Var v;
	switch(r.below(depth > 0 ? 12 : 8)) {
		case 0: v.kind = rv::Var::NUL; break;
		case 1: v.kind = rv::Var::BOOL; v.num = r.below(2); break;
		case 2: case 3: case 4: v.kind = rv::Var::INT; v.num = r.chance(1, 3) ? r.any64() >> 1 : r.below(20); break;
		case 5: v.kind = rv::Var::STR; v.s = rstr(r, r.below(40)); break;
		case 6: v.kind = rv::Var::BIN; v.s = rbin(r, r.chance(1, 2) ? 32 : r.below(70)); break;
		case 7: if(r.chance(1, 20)) { v.kind = r.chance(1, 2) ? rv::Var::NEG : rv::Var::REAL; v.num = 20 + r.below(100); } else { v.kind = rv::Var::INT; v.num = r.below(5); } break;
		case 8: case 9: { v.kind = rv::Var::LIST; const int n = r.below(4); for(int i = 0; i < n; ++i) v.list.push_back(any_var(r, depth - 1)); break; }
		case 10: {
			v.kind = rv::Var::OBJ;
			std::set<std::string> names;
			for(int i = r.below(4); i > 0; --i) names.insert(std::string(1, char('a' + r.below(6))));
			for(auto& n : names) { rv::Var k; k.kind = rv::Var::STR; k.s = n; v.map.emplace_back(k, any_var(r, depth - 1)); }
			break;
		}
		case 11: { v.kind = rv::Var::MAP; rv::Var k; k.kind = rv::Var::INT; k.num = r.below(9); v.map.emplace_back(k, any_var(r, depth - 1)); break; }
	}
	return v;
}
inline rv::Var field_value(const std::string& address, const std::string& field) {
	u64 h = 7;
	for(unsigned char c : address + "/" + field) h = h * 1099511628211ull + c;
	rv::Var v;
	if(field == "none") { v.kind = rv::Var::NEG; v.num = 1; return v; }
	Rng r(h);
	return any_var(r, 2);
}

struct Maker {
	Rng& rng;
	std::vector<Contract>& defs;
	std::vector<std::string> actors, currencies;		// 32 bytes each
	int hostile = 0;		// percent of operands taken at random
	static constexpr u64 REGION = 48, METHODS = 6, FUNCS = 6;
	Maker(Rng& rng, std::vector<Contract>& defs) : rng(rng), defs(defs) {}

	void make_contracts(int n) {
		defs.clear();
		for(int i = 0; i < n; ++i) {
			Contract c;
			c.name = std::string("C") + char('0' + i);
			c.address = mmx::addr_t::from_bytes((const uint8_t*)rbin(rng, 32).data());
			defs.push_back(c);
		}
		actors.clear(); currencies.clear();
		for(int i = 0; i < 3; ++i) actors.push_back(rbin(rng, 32));
		for(int i = 0; i < 2; ++i) currencies.push_back(rbin(rng, 32));
		for(auto& c : defs) {
			const int me = int(&c - &defs[0]);		// a contract can only depend on one that was there before it
			if(me + 1 < n) { c.depends["ext"] = int(rng.range(me + 1, n - 1)); if(rng.chance(3, 4)) c.depends["ext2"] = int(rng.range(me + 1, n - 1)); }
			c.code.assign((METHODS + FUNCS) * REGION, rv::Instr());
			c.have.assign(c.code.size(), false);
			for(u64 i = 0; i < METHODS; ++i) { const std::string m = "m" + std::to_string(i); c.entry[m] = i * REGION; c.is_public[m] = i != 4; c.is_const[m] = i == 5; }
			make_consts(c);
		}
	}
	void make_consts(Contract& c) {
		auto& k = c.consts;
		k.push_back(V());		// address 0
		k.push_back(V(rv::T_TRUE)); k.push_back(V(rv::T_FALSE)); k.push_back(V(rv::T_ARR)); k.push_back(V(rv::T_MAP));
		for(auto& s : {"ext", "ext2", "m0", "m1", "m2", "m3", "owner", "x", "none", "m4", "m9", "e0"}) k.push_back(V::S(s));
		for(auto& a : actors) k.push_back(V::B(a));
		for(auto& a : currencies) k.push_back(V::B(a));
		for(auto& d : defs) k.push_back(V::B(std::string((const char*)d.address.data(), 32)));
		for(int i = 0; i < 6; ++i) k.push_back(V::U((u64)i));
		for(int i = 0; i < 8; ++i) k.push_back(V::U(any256(rng)));
		k.push_back(V::S("")); k.push_back(V::B(""));
		k.push_back(V::S("0x" + rv::Vm::digits(any256(rng), 16))); k.push_back(V::S(rv::Vm::digits(any256(rng) >> 100, 10))); k.push_back(V::S("0b" + rv::Vm::digits(any256(rng), 2)));
		k.push_back(V::S(rv::Vm::digits(any256(rng), 8)));
		k.push_back(V::S("00ff7A")); k.push_back(V::S(mmx::addr_t::from_bytes((const uint8_t*)rbin(rng, 32).data()).to_string()));
		for(int i = 0; i < 3; ++i) k.push_back(V::S(rstr(rng, rng.below(80))));
		for(int i = 0; i < 3; ++i) k.push_back(V::B(rbin(rng, rng.below(80))));
		k.push_back(V::B(rbin(rng, rng.range(3900, 4100)))); k.push_back(V::S(rstr(rng, 64))); k.push_back(V::S(rstr(rng, 65)));
		extra_consts(k);
	}
	std::function<void(std::vector<V>&)> extra_consts = [](std::vector<V>&) {};

	// ---- operand selection
	struct Cell { uint32_t raw; u64 addr; };
	std::vector<Cell> cells(rv::Vm& v, const Contract& c) {
		std::vector<Cell> r;
		for(size_t i = 0; i < c.consts.size(); ++i) r.push_back({uint32_t(i), i});
		for(int i = 0; i < 7; ++i) r.push_back({uint32_t(rv::EXTERN_BASE + i), rv::EXTERN_BASE + i});
		const u64 sp = v.frame().sp;
		for(int i = 0; i < 14; ++i) { r.push_back({uint32_t(rv::STACK_BASE + i), rv::STACK_BASE + sp + i}); r.push_back({uint32_t(rv::STACK_BASE + i), rv::STACK_BASE + sp + i}); }
		for(int i = 0; i < 6; ++i) { r.push_back({uint32_t(rv::STATIC_BASE + i), rv::STATIC_BASE + i}); r.push_back({uint32_t(rv::STATIC_BASE + i), rv::STATIC_BASE + i}); }
		return r;
	}
	// looks without being charged
	const V* peek(rv::Vm& v, u64 a) {
		auto i = v.mem.find(a);
		if(i != v.mem.end()) return i->second && !(i->second->flags & rv::F_DEL) ? i->second.get() : nullptr;
		auto j = v.st.mem.find({v.C, a});
		if(j != v.st.mem.end() && !(j->second.flags & rv::F_DEL)) return &j->second;
		return nullptr;
	}
	const V* peek_entry(rv::Vm& v, u64 a, u64 k) {
		auto i = v.ent.find({a, k});
		if(i != v.ent.end()) return i->second && !(i->second->flags & rv::F_DEL) ? i->second.get() : nullptr;
		auto j = v.st.ent.find({v.C, a, k});
		if(j != v.st.ent.end() && !(j->second.flags & rv::F_DEL)) return &j->second;
		return nullptr;
	}
	struct Pick { uint32_t raw = 0; bool ref = false; u64 addr = 0; const V* v = nullptr; bool found = false; };
	Pick find(rv::Vm& v, const Contract& c, const std::function<bool(const V&)>& want) {
		std::vector<Pick> ok;
		for(auto& x : cells(v, c)) {
			const V* p = peek(v, x.addr);
			if(!p) continue;
			if(want(*p)) { Pick k; k.raw = x.raw; k.addr = x.addr; k.v = p; k.found = true; k.ref = p->type != rv::T_REF && rng.chance(1, 6); ok.push_back(k); }
			if(p->type == rv::T_REF) if(const V* t = peek(v, p->addr)) if(want(*t)) { Pick k; k.raw = x.raw; k.ref = true; k.addr = p->addr; k.v = t; k.found = true; ok.push_back(k); ok.push_back(k); }
		}
		if(ok.empty() || int(rng.below(100)) < hostile) return any(v, c);
		return ok[rng.below(ok.size())];
	}
	Pick any(rv::Vm& v, const Contract& c) {
		auto cs = cells(v, c);
		Pick k;
		if(rng.chance(1, 12)) { k.raw = uint32_t(rng.any64()); k.ref = rng.chance(1, 3); return k; }
		for(int t = 0; t < 6; ++t) {		// mostly something readable
			auto& x = cs[rng.below(cs.size())];
			k.raw = x.raw; k.addr = x.addr; k.ref = rng.chance(1, 4); k.v = peek(v, x.addr);
			if(k.v) { if(k.ref && k.v->type == rv::T_REF) { k.addr = k.v->addr; k.v = peek(v, k.addr); if(!k.v) k.ref = false; } return k; }
		}
		return k;
	}
	Pick dst(rv::Vm& v, const Contract& c) {
		Pick k;
		switch(rng.below(10)) {
			case 0: k.raw = rv::STATIC_BASE + rng.below(6); break;
			case 1: case 2: {		// through a reference
				std::vector<Cell> ok;
				for(auto& x : cells(v, c)) { const V* p = peek(v, x.addr); if(p && p->type == rv::T_REF) { const V* t = peek(v, p->addr); if(!t || !(t->flags & rv::F_CONST)) ok.push_back(x); } }
				if(ok.size()) { k.raw = ok[rng.below(ok.size())].raw; k.ref = true; break; }
			}
			// fall through
			default: k.raw = rv::STACK_BASE + rng.below(13);
		}
		if(rng.chance(1, 60) || int(rng.below(300)) < hostile) k = any(v, c);
		return k;
	}
	static bool is(const V& v, int t) { return v.type == t; }

	void emit(rv::Instr& x, uint8_t op, std::initializer_list<Pick> a, uint8_t fl = 0) {
		x.code = op; x.flags = fl;
		uint32_t* p[4] = {&x.a, &x.b, &x.c, &x.d};
		int i = 0;
		for(auto& k : a) { *p[i] = k.raw; if(k.ref) x.flags |= 1 << i; i++; }
	}
	Pick imm(uint64_t n) { Pick k; k.raw = uint32_t(n); return k; }

	// called by the interpreter before it looks at an instruction
	void fetch(rv::Vm& v, Contract& c, u64 ip) {
		if(ip >= c.code.size() || c.have[ip]) return;
		c.have[ip] = true;
		auto& x = c.code[ip];
		const u64 off = ip % REGION;
		// the address part of the stack can not be moved around with random flags
		const u64 len = 8 + (ip / REGION * 7) % 36;
		if(off >= std::min<u64>(len, REGION - 1)) { x.code = 0x08; return; }
		for(int t = 0; t < 10; ++t) {
			x = rv::Instr();
			make(v, c, ip, x);
			if(x.code == 0xC5 || x.code == 0xC4 || rng.below(1000) < u64(1 + hostile * 5)) return;
			try { rv::Vm w(v); w.exec(x); w.check(); return; } catch(const rv::Fail&) {}
		}
		x = rv::Instr(); x.code = 0x08;
	}
	void make(rv::Vm& v, Contract& c, u64 ip, rv::Instr& x) {
		auto U = [&]() { return find(v, c, [](const V& v) { return v.type == rv::T_UINT; }); };
		auto T = [&](int t) { return find(v, c, [t](const V& v) { return v.type == t; }); };
		auto bs = [&]() { const int t = rng.chance(1, 2) ? rv::T_STR : rv::T_BIN; return T(t); };
		auto val = [&](u64 n) { Pick k; if(rng.chance(1, 4)) { k = find(v, c, [n](const V& v) { return v.type == rv::T_UINT && v.num == n; }); if(k.found) { k.ref = true; if(peek(v, k.addr) && k.raw != uint32_t(k.addr) && k.raw < rv::STACK_BASE) k = imm(n); return k; } } return imm(n); };
		const Pick d = dst(v, c);
		const bool heavy = rng.chance(1, 3);
		if(int(rng.below(100)) < store_bias) { stored(v, c, x, d); return; }
		switch(rng.below(34)) {
			case 0: emit(x, rng.chance(1, 3) ? 0x00 : 0x01, {rng.chance(3, 4) ? imm(rv::STATIC_BASE + rng.below(6)) : imm(rv::STACK_BASE + rng.below(13))}); if(rng.chance(1, 30)) x.flags = 1; break;
			case 1: case 2: { Pick s = rng.chance(1, 2) ? any(v, c) : find(v, c, [](const V& v) { return v.type >= rv::T_UINT; }); if(rng.chance(1, 12)) { s = find(v, c, [](const V& v) { return v.type == rv::T_ARR || v.type == rv::T_MAP; }); Pick o = s; o.ref = false; emit(x, 0x02, {o, s}); break; } emit(x, 0x02, {d, s}); break; }
			case 3: case 4: emit(x, 0x03, {d, heavy ? T(rng.chance(1, 2) ? rv::T_ARR : rv::T_MAP) : any(v, c)}); break;
			case 5: {		// branches
				const u64 t = rng.chance(1, 60) ? rng.below(c.code.size()) : ip + rng.range(1, 4);
				if(rng.chance(1, 5)) emit(x, 0x04, {imm(t)}); else emit(x, rng.chance(1, 2) ? 0x05 : 0x06, {imm(t), any(v, c)});
				break;
			}
			case 6: {		// mostly calls further down, which ends the recursion
				const u64 here = ip / REGION, low = here < METHODS ? METHODS : here + 1;
				if(low >= METHODS + FUNCS && !rng.chance(1, 20)) { emit(x, 0x80, {d, any(v, c)}); break; }
				emit(x, 0x07, {imm((rng.chance(1, 25) || low >= METHODS + FUNCS ? METHODS + rng.below(FUNCS) : low + rng.below(METHODS + FUNCS - low)) * REGION), imm(rng.range(8, 20))});
				break;
			}
			case 7: if(rng.chance(1, 6)) x.code = 0x08; else emit(x, 0x02, {d, U()}); break;
			case 8: case 9: emit(x, 0x20, {d, U(), U()}, rng.chance(1, 4) ? 32 : 0); break;
			case 10: emit(x, 0x21, {d, U(), U()}, rng.chance(1, 6) ? 32 : 0); break;
			case 11: emit(x, 0x22, {d, U(), U()}, rng.chance(1, 4) ? 32 : 0); break;
			case 12: { auto nz = find(v, c, [](const V& v) { return v.type == rv::T_UINT && v.num != 0; }); emit(x, rng.chance(1, 2) ? 0x23 : 0x24, {d, U(), nz}); break; }
			case 13: { auto s = rng.chance(1, 2) ? U() : T(rv::T_BIN); emit(x, 0x40, {d, rng.chance(1, 3) ? any(v, c) : s}, rng.chance(2, 3) ? 64 : 0); break; }
			case 14: case 15: {
				const uint8_t op = 0x41 + rng.below(3);
				if(rng.chance(1, 3)) emit(x, op, {d, any(v, c), any(v, c)});
				else if(rng.chance(1, 3)) { auto l = T(rv::T_BIN); const size_t n = l.v ? l.v->bin.size() : 0; emit(x, op, {d, l, find(v, c, [n](const V& v) { return v.type == rv::T_BIN && v.bin.size() == n; })}, 64); }
				else emit(x, op, {d, U(), U()}, 64);
				break;
			}
			case 16: emit(x, rng.chance(1, 2) ? 0x44 : 0x45, {d, U(), U()}); break;
			case 17: emit(x, rng.chance(1, 2) ? 0x46 : 0x47, {d, U(), rng.chance(1, 3) ? U() : imm(rng.chance(1, 5) ? rng.any64() : rng.below(270))}); if(x.flags & 4) {} break;
			case 18: case 19: {
				auto l = any(v, c); const int t = l.v ? l.v->type : rv::T_UINT;
				emit(x, 0x60 + rng.below(6), {d, l, rng.chance(1, 5) ? any(v, c) : T(t)});
				break;
			}
			case 20: emit(x, 0x80, {d, any(v, c)}); break;
			case 21: emit(x, 0x81, {d, find(v, c, [](const V& v) { return v.type == rv::T_STR || v.type == rv::T_BIN || v.type == rv::T_ARR; })}); break;
			case 22: case 23: case 24: container(v, c, x, d); break;
			case 25: case 26: {		// arrays
				auto a = find(v, c, [](const V& v) { return v.type == rv::T_ARR && !(v.flags & rv::F_CONST); });
				if(rng.chance(2, 3) || !a.v || !a.v->size) emit(x, 0x85, {a, rng.chance(1, 4) ? any(v, c) : find(v, c, [](const V& v) { return v.type != rv::T_ARR && v.type != rv::T_MAP; })});
				else { Pick o = d; if(rng.chance(1, 10)) { o = a; o.ref = false; } emit(x, 0x86, {o, a}); }
				break;
			}
			case 27: case 28: conv(v, c, x, d); break;
			case 29: {
				if(rng.chance(1, 3)) { auto a = T(rv::T_ARR), b = T(rv::T_ARR); emit(x, 0xA1, {d, a, b}); break; }
				auto l = bs(); const int t = l.v ? l.v->type : rv::T_STR;
				emit(x, 0xA1, {d, l, T(t)});
				break;
			}
			case 30: {
				auto s = bs(); const u64 n = s.v ? s.v->bin.size() : 0; u64 o = rng.below(n + 1), k = rng.below(n - o + 1);
				if(rng.chance(1, 15)) { if(rng.chance(1, 2)) k = n - o + 1; else o = n + 1; }
				emit(x, 0xA2, {d, s, val(k), val(o)});
				break;
			}
			case 31: if(rng.chance(1, 4)) verify(v, c, x, d); else emit(x, 0xA3, {d, bs()}); break;
			case 32: system(v, c, x, d); break;
			default: {
				if(rng.chance(1, 2)) { system(v, c, x, d); break; }
				x.code = uint8_t(rng.chance(1, 2) ? 0x80 : rng.next()); x.flags = uint8_t(rng.chance(1, 2) ? 0 : rng.next());
				Pick k[4]; for(auto& p : k) p = any(v, c);
				x.a = k[0].raw; x.b = k[1].raw; x.c = k[2].raw; x.d = k[3].raw;
				if(rng.chance(3, 4)) { x.code = 0x02; x.flags = 0; x.a = d.raw; if(d.ref) x.flags |= 1; }
			}
		}
	}
	// works on the same few stored containers and keys again and again
	int store_bias = 8;
	void stored(rv::Vm& v, Contract& c, rv::Instr& x, const Pick& d) {
		const uint32_t j = uint32_t(rng.below(3)), cell = rv::STATIC_BASE + 6 + j;
		const int t = j == 1 ? rv::T_ARR : rv::T_MAP;
		const V* p = peek(v, cell); const V* q = p && p->type == rv::T_REF ? peek(v, p->addr) : nullptr;
		auto konst = [&](const std::function<bool(const V&)>& f) { std::vector<uint32_t> ok; for(size_t i = 0; i < c.consts.size(); ++i) if(f(c.consts[i])) ok.push_back(uint32_t(i)); Pick k; k.raw = ok.empty() ? 0 : ok[rng.below(ok.size())]; return k; };
		if(!q || q->type != t || rng.chance(1, 40)) { emit(x, 0x03, {imm(cell), konst([t](const V& v) { return v.type == t; })}); return; }
		Pick a; a.raw = cell; a.ref = true; a.addr = p->addr; a.v = q;
		const Pick key = konst([](const V& v) { return v.type == rv::T_UINT && v.num < 4; });
		if(t == rv::T_MAP) switch(rng.below(7)) {
			case 0: case 1: emit(x, 0x82, {d, a, key}); break;
			case 2: case 3: emit(x, 0x84, {a, key}); break;
			default: emit(x, 0x83, {a, key, rng.chance(1, 3) ? konst([](const V& v) { return v.type <= rv::T_TRUE; }) : find(v, c, [](const V& v) { return v.type != rv::T_ARR && v.type != rv::T_MAP; })});
		} else switch(rng.below(6)) {
			case 0: emit(x, 0x82, {d, a, key}); break;
			case 1: emit(x, 0x83, {a, key, any(v, c)}); break;
			case 2: case 3: emit(x, 0x86, {d, a}); break;
			default: emit(x, 0x85, {a, find(v, c, [](const V& v) { return v.type != rv::T_ARR && v.type != rv::T_MAP; })});
		}
	}
	void container(rv::Vm& v, Contract& c, rv::Instr& x, const Pick& d) {
		const int kind = rng.below(3);		// get, set, erase
		auto a = find(v, c, [&](const V& v) { if(v.type == rv::T_MAP) return kind == 0 || !(v.flags & rv::F_CONST); return kind < 2 && v.type == rv::T_ARR && v.size > 0 && (kind == 0 || !(v.flags & rv::F_CONST)); });
		if(!a.v) { Pick m; for(size_t i = 0; i < c.consts.size(); ++i) if(c.consts[i].type == (rng.chance(1, 2) ? rv::T_MAP : rv::T_ARR)) m.raw = uint32_t(i); emit(x, 0x03, {imm(rv::STACK_BASE + rng.below(13)), m}); return; }
		const bool map = a.v->type == rv::T_MAP; const u64 n = a.v->size; const bool miss = rng.chance(1, 25);
		Pick k = map ? (rng.chance(2, 3) ? find(v, c, [](const V& v) { return (v.type == rv::T_UINT && v.num < 4) || (v.type == rv::T_STR && v.bin.size() && v.bin.size() < 4); })
				: find(v, c, [](const V& v) { return v.type != rv::T_NIL && v.type != rv::T_ARR && v.type != rv::T_MAP; }))
				: find(v, c, [n, miss](const V& v) { return v.type == rv::T_UINT && (miss ? v.num >= n : v.num < n); });
		if(kind == 0) { Pick o = d; if(rng.chance(1, 10)) { o = a; o.ref = false; } emit(x, 0x82, {o, a, k}, rng.chance(1, 4) ? 16 : 0); }
		else if(kind == 1) emit(x, 0x83, {a, k, rng.chance(1, 3) ? any(v, c) : find(v, c, [](const V& v) { return v.type != rv::T_ARR && v.type != rv::T_MAP; })}, rng.chance(1, 8) ? 16 : 0);
		else emit(x, 0x84, {a, k});
	}
	void conv(rv::Vm& v, Contract& c, rv::Instr& x, const Pick& d) {
		auto s = any(v, c); const int t = s.v ? s.v->type : 0;
		u64 df = 6, sf = 0;
		static const int bases[] = {0, 1, 2, 3, 4};
		switch(t) {
			case rv::T_UINT: df = rng.range(5, 8); if(df == 7) df |= bases[rng.below(5)] << 8; else if(df == 8) df |= (rng.chance(1, 3) ? 0 : rng.range(11, 12)) << 8; break;
			case rv::T_STR: {
				if(rng.chance(1, 2)) s = find(v, c, [](const V& v) { return v.type == rv::T_STR && v.bin.size() > 0 && isxdigit((unsigned char)v.bin[0]) && isxdigit((unsigned char)v.bin.back()); });
				df = rng.range(5, 8); if(df == 6 || df == 8) sf = bases[rng.below(5)]; if(df == 8 && rng.chance(1, 2)) sf = 0;
				if(rng.chance(1, 6)) { df = 10; s = find(v, c, [](const V& v) { return v.type == rv::T_STR && v.bin.substr(0, 4) == "mmx1"; }); }
				break;
			}
			case rv::T_BIN:
				df = rng.range(5, 8); if(rng.chance(1, 5)) df = 10;
				if(df == 6 || df == 10 || rng.chance(1, 3)) s = find(v, c, [](const V& v) { return v.type == rv::T_BIN && v.bin.size() == 32; });
				if(df == 6) sf = rng.chance(1, 2) ? 0 : rng.range(11, 12);
				if(df == 7) { static const int o[] = {0, 4, 10}; df |= o[rng.below(3)] << 8; }
				break;
			case rv::T_NIL: df = rng.chance(1, 3) ? 10 : rng.range(5, 6); break;
			default: df = rng.range(5, 6);
		}
		if(rng.chance(1, 20)) { df = rng.below(14) | rng.below(14) << 8; sf = rng.below(14); }
		emit(x, 0xA0, {d, s, imm(df), imm(sf)});
	}
	std::vector<std::array<std::string, 3>> signed_;		// message, key, signature
	void verify(rv::Vm& v, Contract& c, rv::Instr& x, const Pick& d) {
		if(signed_.empty()) { emit(x, 0xA3, {d, find(v, c, [](const V& v) { return v.type == rv::T_BIN; })}); return; }
		auto& t = signed_[rng.below(signed_.size())]; auto& o = signed_[rng.below(signed_.size())];
		auto eq = [&](const std::string& s) { return find(v, c, [&s](const V& v) { return v.type == rv::T_BIN && v.bin == s; }); };
		emit(x, 0xA4, {d, eq(rng.chance(1, 4) ? o[0] : t[0]), eq(rng.chance(1, 6) ? o[1] : t[1]), eq(t[2])});
	}
	int look = 0;		// look at a balance soon
	void system(rv::Vm& v, Contract& c, rv::Instr& x, const Pick& d) {
		auto B32 = [&]() { return find(v, c, [](const V& v) { return v.type == rv::T_BIN && v.bin.size() == 32; }); };
		auto memo = [&]() { return find(v, c, [](const V& v) { return v.type == rv::T_NIL || (v.type == rv::T_STR && v.bin.size() <= 64); }); };
		auto str = [&](std::initializer_list<const char*> l) { std::vector<std::string> n(l.begin(), l.end()); const std::string s = n[rng.below(n.size())]; return find(v, c, [s](const V& v) { return v.type == rv::T_STR && v.bin == s; }); };
		auto cur = [&]() { return find(v, c, [&](const V& x) { return x.type == rv::T_BIN && (x.bin == currencies[0] || x.bin == currencies[1]); }); };
		if(look && look-- && rng.chance(1, 2)) { emit(x, 0xC7, {d, cur()}); return; }
		switch(rng.below(11)) {
			case 0: emit(x, 0xC0, {imm(rng.below(5)), find(v, c, [](const V& v) { return v.type == rv::T_STR; })}); break;
			case 1: case 2: {
				auto k = cur(); rv::u128 b = 0;
				if(k.v) { auto i = v.bal.find(k.v->bin); if(i != v.bal.end()) b = i->second; else { auto j = v.st.bal.find({v.C, k.v->bin}); if(j != v.st.bal.end()) b = j->second; } }
				const bool over = rng.chance(1, 12);
				auto to = B32();
				if(rng.chance(1, 5)) { to = find(v, c, [&v](const V& x) { return x.type == rv::T_BIN && x.bin == v.self; }); }	// to itself
				emit(x, 0xC1, {to, find(v, c, [&](const V& v) { return v.type == rv::T_UINT && (over ? v.num > b : v.num <= b); }), k, memo()});
				look = 3;
				break;
			}
			case 3: emit(x, 0xC2, {B32(), find(v, c, [&](const V& v) { return v.type == rv::T_UINT && (v.num >> 80 == 0 || rng.chance(1, 10)); }), memo()}); break;
			case 4: emit(x, 0xC3, {find(v, c, [](const V& v) { return v.type == rv::T_STR; }), any(v, c)}); break;
			case 5: if(rng.chance(1, 3)) emit(x, 0xC4, {any(v, c), rng.chance(1, 2) ? imm(rng.next()) : find(v, c, [](const V& v) { return v.type == rv::T_UINT; })}); else emit(x, 0xC7, {d, cur()}); break;
			case 6: case 7: case 8:
				if(!rng.chance(1, 15)) {		// a contract further down
					std::string n;
					for(auto& e : c.depends) if(&defs[e.second] > &c) n = e.first;
					if(n.empty()) { emit(x, 0xC7, {d, cur()}); break; }
					emit(x, 0xC5, {str({n.c_str()}), rng.chance(1, 25) ? str({"m4", "m9"}) : str({"m0", "m1", "m2", "m3"}), imm(rng.range(0, 8)), imm(rng.below(4))});
					break;
				}
				emit(x, 0xC5, {str({"ext", "ext2"}), rng.chance(1, 25) ? str({"m4", "m9"}) : str({"m0", "m1", "m2", "m3"}), imm(rng.range(0, 8)), imm(rng.below(4))}); break;
			case 9: emit(x, 0xC6, {d, B32(), rng.chance(1, 15) ? str({"none"}) : str({"owner", "x", "e0", "m1"})}); break;
			default: emit(x, 0xC7, {d, cur()});
		}
	}
};

} // gen
#endif
