// Hostile binaries, arguments and storage; serialization.

#include <csignal>
#include <sstream>
#include <thread>

// reports a run that does not come back
struct Watchdog {
	Check& ck; std::atomic<uint64_t> tick{0}; std::atomic<bool> stop{false}; std::string key; std::thread th;
	Watchdog(Check& ck, const std::string& key, int seconds) : ck(ck), key(key) {
		th = std::thread([this, seconds] {
			uint64_t last = 0; int same = 0;
			while(!stop) {
				std::this_thread::sleep_for(std::chrono::milliseconds(500));
				const uint64_t t = tick;
				same = t == last ? same + 1 : 0; last = t;
				if(same > seconds * 2) { this->ck.violation(this->key, "a case did not end within " + std::to_string(seconds) + " seconds", this->ck.current); this->ck.finish(); fflush(nullptr); _exit(1); }
			}
		});
	}
	~Watchdog() { stop = true; th.join(); }
};

namespace hx {
static const uint64_t HEAP = uint64_t(1) << 32;
using rv::V;
struct Prog {
	std::vector<V> consts; std::vector<vm::instr_t> code;
	uint32_t k(const V& v) { consts.push_back(v); return uint32_t(consts.size() - 1); }
	void op(int c, uint32_t a = 0, uint32_t b = 0, uint32_t cc = 0, uint32_t d = 0, int f = 0) { code.emplace_back(vm::opcode_e(c), uint8_t(f), a, b, cc, d); }
};
static uint32_t S(uint32_t i) { return uint32_t(rv::STACK_BASE) + i; }
static uint32_t M(uint32_t i) { return uint32_t(rv::STATIC_BASE) + i; }
static V odd_const(Rng& r, int refs = 10) {
	V v;
	switch(r.chance(1, refs) ? 1 : (r.below(9) + 2) % 10) {
		case 0: v = V(int(r.below(3))); break;
		case 1: { v = V(rv::T_REF); static const uint64_t A[] = {0, 1, rv::EXTERN_BASE + 4, rv::STACK_BASE, rv::STACK_BASE + 3, rv::STATIC_BASE, rv::STATIC_BASE + 1, HEAP, HEAP + 1, HEAP + 0x1000, HEAP + 0x1001, ~uint64_t(0)}; v.addr = r.chance(4, 5) ? A[r.below(12)] : r.any64(); break; }
		case 2: v = V::U(gen::any256(r)); break;
		case 3: v = V::S(gen::rstr(r, r.below(60))); break;
		case 4: v = V::B(gen::rbin(r, r.chance(1, 8) ? r.below(100000) : r.below(70))); break;
		case 5: { v = V(rv::T_ARR); v.addr = r.chance(1, 2) ? r.below(20) : r.any64(); v.size = r.chance(1, 2) ? r.below(4) : r.chance(1, 2) ? uint32_t(-1) : r.below(100000); break; }
		case 6: { v = V(rv::T_MAP); v.addr = r.chance(1, 2) ? r.below(20) : r.any64(); break; }
		case 7: v = V::B(gen::rbin(r, 32)); break;
		case 8: v = V::U(r.below(10)); break;
		default: v = V::S(r.chance(1, 2) ? "ext" : "m0");
	}
	return v;
}
// small programs that build awkward shapes
static Prog shape(Rng& r, int which) {
	Prog p;
	p.k(V());
	const uint32_t arr = p.k(V(rv::T_ARR)), map = p.k(V(rv::T_MAP)), one = p.k(V::U(1)), zero = p.k(V::U(0)), ext = p.k(V::S("ext")), m0 = p.k(V::S("m0")), m1 = p.k(V::S("m1"));
	const uint32_t big = p.k(V::B(gen::rbin(r, 60000)));
	const uint32_t n = p.k(V::U(r.range(2, 4000)));
	switch(which) {
		case 0: p.op(0x03, S(1), arr); p.op(0x85, S(1), S(1), 0, 0, 1); p.op(0x02, S(0), S(1)); p.op(0x08); break;		// an array that contains itself
		case 1: p.op(0x03, S(1), map); p.op(0x83, S(1), one, S(1), 0, 1); p.op(0x02, S(0), S(1)); p.op(0x08); break;		// a map that contains itself
		case 2: {		// two arrays that contain each other
			p.op(0x03, S(1), arr); p.op(0x03, S(2), arr); p.op(0x85, S(1), S(2), 0, 0, 1); p.op(0x85, S(2), S(1), 0, 0, 1); p.op(0x02, S(0), S(2)); if(r.chance(1, 2)) { p.op(0x01, S(1)); p.op(0x01, S(2)); } p.op(0x08);
			break;
		}
		case 3: {		// each level twice in the next
			p.op(0x03, S(1), arr); p.op(0x85, S(1), one, 0, 0, 1);
			for(uint64_t i = r.range(5, 60); i > 0; --i) { p.op(0x03, S(2), arr); p.op(0x85, S(2), S(1), 0, 0, 1); p.op(0x85, S(2), S(1), 0, 0, 1); p.op(0x02, S(1), S(2)); }
			p.op(0x02, S(0), S(1)); p.op(0x08);
			break;
		}
		case 4: {		// a deep chain, then dropped, stored or returned
			p.op(0x02, S(3), zero);
			p.op(0x03, S(1), arr);
			const uint32_t loop = uint32_t(p.code.size());
			p.op(0x03, S(2), arr); p.op(0x85, S(2), S(1), 0, 0, 1); p.op(0x02, S(1), S(2)); p.op(0x20, S(3), S(3), one); p.op(0x62, S(4), S(3), n); p.op(0x05, loop, S(4));
			p.op(0x01, S(2));
			switch(r.below(4)) { case 0: p.op(0x01, S(1)); break; case 1: p.op(0x02, M(5), S(1)); break; case 2: p.op(0x02, S(0), S(1)); break; default: p.op(0x02, S(1), one); }
			p.op(0x08);
			break;
		}
		case 5: p.op(0x07, 0, uint32_t(r.range(0, 20))); p.op(0x08); break;		// endless recursion
		case 6: p.op(0x04, 0); break;
		case 7: {		// a lot of memory
			p.op(0x03, S(1), arr); p.op(0x02, S(2), big);
			const uint32_t loop = uint32_t(p.code.size());
			p.op(0xA1, S(2), S(2), S(2)); p.op(0x85, S(1), S(2), 0, 0, 1); p.op(0x04, loop);
			break;
		}
		case 8: {		// calls the other contract with what this one built, which comes back
			p.op(0x03, S(9), r.chance(1, 2) ? arr : map); if(p.code[0].b == arr) p.op(0x85, S(9), S(9), 0, 0, 1); else p.op(0x83, S(9), one, S(9), 0, 1);
			p.op(0xC5, ext, r.chance(1, 2) ? m0 : m1, 8, uint32_t(r.below(3))); p.op(0x02, S(0), S(8)); p.op(0x08);
			break;
		}
		case 9: {		// stores a cycle and reads it back
			p.op(0x03, M(7), arr); p.op(0x85, M(7), M(7), 0, 0, 1); p.op(0x02, S(0), M(7)); p.op(0x08);
			break;
		}
		case 10: {		// copies over its own reference
			p.op(0x03, S(1), r.chance(1, 2) ? arr : map); p.op(0x83, S(1), zero, one, 0, 1); p.op(0x02, S(1), S(1), 0, 0, 2); p.op(0x86, S(1), S(1), 0, 0, 2); p.op(0x02, S(1), S(1), 0, 0, 2); p.op(0x82, S(1), S(1), zero, 0, 2); p.op(0x08);
			break;
		}
		case 12: {		// a constant that refers to memory: an array without end
			V a(rv::T_ARR); a.size = uint32_t(-1); const uint32_t huge = p.k(a);
			V f(rv::T_REF); f.addr = huge; const uint32_t ref = p.k(f);
			p.op(0x02, S(9), ref); p.op(0xC5, ext, m0, 8, 1); p.op(0x02, S(0), S(9)); p.op(0x08);
			break;
		}
		case 13: {		// a constant that refers to a cell which goes away while it is being written
			V f(rv::T_REF); f.addr = M(5); const uint32_t ref = p.k(f);
			V g(rv::T_REF); g.addr = M(6); const uint32_t ref2 = p.k(g);
			p.op(0x03, M(5), arr); p.op(0x02, S(1), ref); p.op(0x85, M(5), S(1), 0, 0, 1); p.op(0x01, S(1)); p.op(0x02, M(5), r.chance(1, 2) ? ref2 : arr); p.op(0x08);
			break;
		}
		case 14: {		// a constant that refers to the allocator's own cell
			V f(rv::T_REF); f.addr = HEAP + 1; const uint32_t ref = p.k(f);
			p.op(0x03, S(1), arr); p.op(0x02, ref, zero, 0, 0, 1); p.op(0x03, S(2), map); p.op(0x02, ref, S(1), 0, 0, 1); p.op(0x03, S(3), map); p.op(0x08);
			break;
		}
		default: {		// shifts through the stack with calls
			for(int i = 0; i < 6; ++i) p.op(0x02, S(uint32_t(r.below(40))), uint32_t(r.below(p.consts.size())));
			p.op(0x07, 0, 0xFFFFFFF0u - uint32_t(r.below(64))); p.op(0x08);
		}
	}
	return p;
}
static uint32_t operand(Rng& r, size_t nconst, size_t ncode) {
	switch(r.below(12)) {
		case 0: case 1: case 2: return uint32_t(r.below(nconst + 2));
		case 3: return uint32_t(rv::EXTERN_BASE + r.below(9));
		case 4: case 5: case 6: case 7: return S(uint32_t(r.below(10)));
		case 8: return M(uint32_t(r.below(8)));
		case 9: return uint32_t(r.below(ncode + 2));
		case 10: { static const uint32_t E[] = {0xFFFFFFFFu, uint32_t(rv::STATIC_BASE - 1), uint32_t(rv::STACK_BASE - 1), uint32_t(rv::EXTERN_BASE - 1), 0x7FFFFFFFu, 0x80000000u}; return E[r.below(6)]; }
		default: return uint32_t(r.any64());
	}
}
static Prog noise(Rng& r) {
	Prog p;
	const size_t nc = r.range(1, 24), ni = r.range(1, 60);
	for(size_t i = 0; i < nc; ++i) p.k(odd_const(r, 200));
	static const uint8_t ops[] = {0,1,2,2,2,3,3,3,4,5,6,7,8,0x20,0x21,0x22,0x23,0x24,0x40,0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x60,0x61,0x62,0x63,0x64,0x65,0x80,0x81,0x82,0x83,0x83,0x84,0x85,0x85,0x85,0x86,0x86,0xA0,0xA1,0xA2,0xA3,0xA4,0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7};
	for(size_t i = 0; i < ni; ++i) {
		const uint8_t c = r.chance(1, 60) ? uint8_t(r.next()) : ops[r.below(sizeof(ops))];
		p.op(c, operand(r, nc, ni), operand(r, nc, ni), operand(r, nc, ni), operand(r, nc, ni), r.chance(1, 2) ? int(r.below(8)) : r.chance(1, 8) ? int(r.next() & 255) : 0);
		if(c >= 4 && c <= 7 && r.chance(4, 5)) p.code.back().a = uint32_t(i + r.range(1, 5));
	}
	return p;
}
// operands of the right types with numbers at the limits: gets past the type checks
static Prog typed(Rng& r) {
	Prog p;
	p.k(V());
	std::vector<uint32_t> num, bin, str, arr, map, key;
	const uint64_t len = r.pick(std::vector<uint64_t>{0, 1, 31, 32, 33, 64, 100, r.below(5000), r.chance(1, 6) ? 65536 + r.below(100000) : 7});
	bin.push_back(p.k(V::B(gen::rbin(r, len)))); str.push_back(p.k(V::S(gen::rstr(r, r.chance(1, 2) ? len : r.below(70)))));
	bin.push_back(p.k(V::B(gen::rbin(r, 32)))); str.push_back(p.k(V::S(r.chance(1, 2) ? "0x" + gen::rstr(r, r.below(80)) : std::string(r.below(90), char('0' + r.below(10))))));
	str.push_back(p.k(V::S("ext"))); str.push_back(p.k(V::S("m0"))); str.push_back(p.k(V::S("m1")));
	bin.push_back(p.k(V::B(gen::rbin(r, r.pick(std::vector<uint64_t>{33, 64, 1, 0})))));
	auto near = [&]() -> rv::u256 {
		rv::u256 b = r.chance(1, 3) ? rv::u256(len) : r.chance(1, 3) ? rv::u256(r.below(8)) : rv::u256(1) << r.pick(std::vector<int>{16, 31, 32, 40, 62, 63, 64, 64, 64, 80, 127, 128, 255});
		if(r.chance(1, 12)) return ~rv::u256(0) - r.below(4);
		const uint64_t d = r.chance(1, 4) ? len + r.below(3) : r.below(r.chance(1, 2) ? 3 : 70);
		return r.chance(2, 3) ? b - d : b + d;
	};
	for(int i = 0; i < 8; ++i) num.push_back(p.k(V::U(near())));
	const uint32_t A = p.k(V(rv::T_ARR)), B = p.k(V(rv::T_MAP));
	// containers to work on, by reference
	const bool stored = r.chance(1, 4);
	const uint32_t a1 = stored ? M(1) : S(1), m1 = stored ? M(2) : S(2);
	p.op(vm::OP_CLONE, a1, A); p.op(vm::OP_CLONE, m1, B);
	for(int i = r.below(4); i > 0; --i) p.op(vm::OP_PUSH_BACK, a1, r.pick(r.chance(1, 2) ? num : bin), 0, 0, vm::OPFLAG_REF_A);
	for(int i = r.below(4); i > 0; --i) p.op(vm::OP_SET, m1, r.pick(r.chance(1, 2) ? num : bin), r.pick(str), 0, vm::OPFLAG_REF_A);
	auto any_value = [&]() -> uint32_t { switch(r.below(8)) { case 0: return r.pick(str); case 1: return r.pick(bin); case 2: return a1; case 3: return m1; case 4: return uint32_t(rv::EXTERN_BASE + r.below(5)); case 5: return S(uint32_t(3 + r.below(6))); default: return r.pick(num); } };
	auto dst = [&]() -> uint32_t { return r.chance(1, 10) ? a1 : r.chance(1, 8) ? M(uint32_t(r.below(6))) : S(uint32_t(r.below(9))); };
	auto blob = [&]() -> uint32_t { return r.pick(r.chance(1, 2) ? bin : str); };
	const int n = r.chance(1, 4) ? r.range(3, 40) : r.range(1, 8);
	for(int i = 0; i < n; ++i) {
		const int RA = vm::OPFLAG_REF_A, RB = vm::OPFLAG_REF_B, RC = vm::OPFLAG_REF_C, RD = vm::OPFLAG_REF_D;
		switch(r.below(26)) {
			case 0: case 1: case 2: p.op(vm::OP_MEMCPY, dst(), blob(), r.pick(num), r.pick(num), RC | RD); break;
			case 3: p.op(vm::OP_MEMCPY, dst(), blob(), uint32_t(r.chance(1, 2) ? r.below(len + 3) : r.any64()), r.pick(num), RD); break;
			case 4: p.op(vm::OP_GET, dst(), a1, r.pick(num), 0, RB); break;
			case 5: p.op(vm::OP_SET, a1, r.pick(num), any_value(), 0, RA); break;
			case 6: p.op(vm::OP_GET, dst(), m1, any_value(), 0, RB); break;
			case 7: p.op(vm::OP_SET, m1, any_value(), any_value(), 0, RA); break;
			case 8: p.op(vm::OP_ERASE, m1, any_value(), 0, 0, RA); break;
			case 9: p.op(vm::OP_POP_BACK, dst(), a1, 0, 0, RB | (r.chance(1, 4) ? RA : 0)); break;
			case 10: p.op(vm::OP_PUSH_BACK, a1, any_value(), 0, 0, RA | (r.chance(1, 4) ? RB : 0)); break;
			case 11: p.op(r.chance(1, 2) ? vm::OP_SHL : vm::OP_SHR, dst(), r.pick(num), r.pick(num), 0, RC); break;
			case 12: { static const uint8_t O[] = {vm::OP_ADD, vm::OP_SUB, vm::OP_MUL, vm::OP_DIV, vm::OP_MOD, vm::OP_MIN, vm::OP_MAX}; p.op(O[r.below(7)], S(uint32_t(3 + r.below(6))), r.pick(num), r.pick(num), 0, r.chance(1, 2) ? vm::OPFLAG_CATCH_OVERFLOW : 0); break; }
			case 13: { const uint32_t d = S(uint32_t(3 + r.below(5))), src = blob(); p.op(vm::OP_CONCAT, d, src, src); for(int k = r.below(14); k > 0; --k) p.op(vm::OP_CONCAT, d, d, d); break; }
			case 14: p.op(vm::OP_CONV, dst(), any_value(), uint32_t(r.below(10) | r.below(10) << 8), uint32_t(r.below(10))); break;
			case 15: p.op(vm::OP_SHA256, dst(), blob()); break;
			case 16: p.op(vm::OP_VERIFY, dst(), r.pick(bin), r.pick(bin), r.pick(bin)); break;
			case 17: p.op(vm::OP_RCALL, str[2], r.pick(str), uint32_t(r.below(12)), r.chance(1, 4) ? r.pick(num) : uint32_t(r.below(6)), r.chance(1, 4) ? RD : 0); break;
			case 18: p.op(vm::OP_RCALL, str[2], str[3], r.pick(num), r.pick(num), RC | RD); break;
			case 19: p.op(vm::OP_CALL, uint32_t(p.code.size() + 1), r.chance(1, 2) ? uint32_t(r.below(20)) : uint32_t(near())); break;
			case 20: if(r.chance(1, 3)) p.op(vm::OP_JUMP, r.pick(num), 0, 0, 0, RA); else p.op(vm::OP_JUMPI, r.pick(num), any_value(), 0, 0, RA); break;
			case 21: p.op(vm::OP_SEND, bin[1], r.pick(num), bin[1], r.pick(str)); break;
			case 22: p.op(vm::OP_MINT, bin[1], r.pick(num), r.pick(str)); break;
			case 23: p.op(vm::OP_CLR, S(uint32_t(r.below(9)))); break;
			case 24: p.op(vm::OP_COPY, dst(), any_value(), 0, 0, (r.chance(1, 4) ? RA : 0) | (r.chance(1, 3) ? RB : 0)); break;
			default: p.op(vm::OP_CLONE, dst(), any_value(), 0, 0, r.chance(1, 3) ? RB : 0);
		}
		if(r.chance(1, 3)) p.op(vm::OP_JUMP, uint32_t(p.code.size() + 1));		// harmless
	}
	if(r.chance(1, 2)) p.op(vm::OP_COPY, S(0), r.chance(1, 2) ? a1 : m1);
	p.op(vm::OP_RET);
	return p;
}
static void mutate(Prog& p, Rng& r) {
	for(int n = r.range(1, 4); n > 0 && p.code.size(); --n) {
		const size_t i = r.below(p.code.size());
		switch(r.below(6)) {
			case 0: p.code.erase(p.code.begin() + i); break;
			case 1: p.code.insert(p.code.begin() + i, p.code[r.below(p.code.size())]); break;
			case 2: p.code[i].a = operand(r, p.consts.size(), p.code.size()); break;
			case 3: p.code[i].b = operand(r, p.consts.size(), p.code.size()); break;
			case 4: p.code[i].flags ^= uint8_t(1 << r.below(8)); break;
			default: if(p.consts.size()) p.consts[r.below(p.consts.size())] = odd_const(r, 200);
		}
	}
}
static std::vector<uint8_t> constants_of(const Prog& p) { std::vector<uint8_t> o; for(auto& k : p.consts) { auto v = real_of(k); auto s = vm::serialize(*v, false, false); o.insert(o.end(), s.first.get(), s.first.get() + s.second); } return o; }
static void corrupt(std::vector<uint8_t>& b, Rng& r) {
	switch(r.below(5)) {
		case 0: if(b.size()) b.resize(r.below(b.size())); break;
		case 1: { auto t = r.bytes(r.below(40)); b.insert(b.end(), t.begin(), t.end()); break; }
		case 2: b = r.bytes(r.below(200)); break;
		default: for(int n = r.range(1, 6); n > 0 && b.size(); --n) b[r.below(b.size())] = r.chance(1, 2) ? uint8_t(r.next()) : uint8_t(b[r.below(b.size())] ^ (1 << r.below(8)));
	}
}
static vnx::Variant deep(Rng& r, int levels) { vnx::Variant v(uint64_t(1)); for(int i = 0; i < levels; ++i) { if(r.chance(1, 2)) v = vnx::Variant(std::vector<vnx::Variant>{v}); else { vnx::Object o; o["a"] = v; v = vnx::Variant(o); } } return v; }
} // hx

static void run_hostile(Check& ck)
{
	const std::string mode = "hostile";
	Rng rng = ck.rng(7);
	Watchdog dog(ck, "hostile:endless", 60);
	const uint64_t cases = ck.n(5000, 100000);
	uint64_t ok = 0, failed = 0, rejected = 0, committed = 0, converted = 0, remote = 0;
	std::map<std::string, uint64_t> why;
	for(uint64_t n = 0; n < cases; ++n) {
		dog.tick++;
		std::shared_ptr<contract::Binary> bin[2];
		std::string text;
		const int which = rng.chance(1, 3) ? int(rng.below(16)) : -1;
		for(int i = 0; i < 2; ++i) {
			const bool fit = which < 0 && rng.chance(1, 2);
			hx::Prog p = which >= 0 && i == 0 ? hx::shape(rng, which) : fit ? hx::typed(rng) : rng.chance(1, 3) ? hx::shape(rng, int(rng.below(16))) : hx::noise(rng);
			if(rng.chance(1, fit ? 4 : 2)) hx::mutate(p, rng);
			bin[i] = contract::Binary::create();
			bin[i]->constant = hx::constants_of(p);
			bin[i]->binary = vm::serialize(p.code);
			if(rng.chance(1, 12)) hx::corrupt(rng.chance(1, 2) ? bin[i]->constant : bin[i]->binary, rng);
			contract::method_t m; m.name = "m0"; m.is_public = true; bin[i]->methods["m0"] = m; m.name = "m1"; m.entry_point = uint32_t(rng.below(p.code.size() + 1)); bin[i]->methods["m1"] = m; m.name = "c"; m.is_const = true; m.entry_point = 0; bin[i]->methods["c"] = m;
			text += "constants";
			for(auto& k : p.consts) text += " " + k.text().substr(0, 80);
			text += "\n";
			for(size_t k = 0; k < p.code.size(); ++k) text += std::to_string(k) + ": " + vm::to_string(p.code[k]) + " flags " + std::to_string(p.code[k].flags) + "\n";
			text += "--\n";
		}
		ck.mark("case " + std::to_string(n) + " shape " + std::to_string(which) + "\n" + text);
		if(n < 2) ck.sample(text);
		auto base = std::make_shared<vm::StorageRAM>();
		addr_t address[2] = {addr_t(hash_t("a")), addr_t(hash_t("b"))};
		for(auto& a : address) base->set_balance(a, addr_t(), uint128_t(1000000));
		const uint64_t limit = rng.chance(1, 6) ? 50000000 : rng.chance(1, 3) ? rng.below(100000) : 3000000;
		for(int call = 0; call < 3; ++call) {
			auto cache = std::make_shared<vm::StorageCache>(base);
			const bool is_const = rng.chance(1, 4);
			const int me = int(rng.below(2));
			auto e = std::make_shared<vm::Engine>(address[me], is_const ? std::shared_ptr<vm::Storage>(base) : cache, is_const, 1);
			e->gas_limit = limit;
			std::function<void(std::shared_ptr<vm::Engine>, int, int)> hook = [&](std::shared_ptr<vm::Engine> e, int me, int depth) {
				std::weak_ptr<vm::Engine> w = e;
				e->remote_call = [&, w, me, depth](const std::string& name, const std::string& method, const uint32_t nargs) {
					auto e = w.lock();
					if(depth > 3) throw std::logic_error("depth");
					remote++;
					e->gas_used += CALL_FEE; e->check_gas();
					auto child = std::make_shared<vm::Engine>(address[1 - me], cache, false, 1);
					child->gas_limit = e->gas_limit - std::min(e->gas_used, e->gas_limit);
					auto m = vm::find_method(bin[1 - me], method);
					if(!m) throw std::logic_error("no method");
					vm::load(child, bin[1 - me]);
					const auto sp = e->get_stack_ptr();
					for(uint32_t i = 0; i < nargs; ++i) vm::copy(child, e, vm::MEM_STACK + 1 + i, sp + 1 + i);
					hook(child, 1 - me, depth + 1);
					vm::execute(child, *m, true);
					vm::copy(e, child, sp, vm::MEM_STACK);
					e->gas_used += child->gas_used;
					e->check_gas();
				};
				e->read_contract = [&, w](const addr_t& address, const std::string& field, const uint64_t dst) { vm::assign(w.lock(), dst, rng.chance(1, 3) ? hx::deep(rng, int(rng.below(150))) : variant_of(gen::any_var(rng, 4))); };
			};
			bool good = false;
			try {
				vm::load(e, bin[me]);
				if(rng.chance(1, 3)) vm::set_deposit(e, addr_t(), uint128_t(5));
				std::vector<vnx::Variant> args;
				for(int i = rng.below(4); i > 0; --i) args.push_back(rng.chance(1, 6) ? hx::deep(rng, int(rng.range(90, 130))) : variant_of(gen::any_var(rng, 4)));
				vm::set_args(e, args);
				hook(e, me, 0);
				auto& m = bin[me]->methods.at(is_const ? "c" : rng.chance(1, 2) ? "m0" : "m1");
				vm::execute(e, m, true);
				good = true;
			} catch(const std::exception& ex) {
				failed++;
				std::string w = std::string(ex.what()).substr(0, 24);
				for(auto& c : w) if(isdigit((unsigned char)c)) c = '#';
				why[w]++;
			}
			ck.eval();
			ck.max("max_call_depth", e->call_stack.size());
			if(e->code.empty()) rejected++;
			ck.nontrivial(std::hash<std::string>()(std::to_string(e->gas_used) + "/" + std::to_string(e->error_addr) + text.substr(0, 4000)));
			// gas can pass the limit by the work of one instruction only
			if(e->gas_used > limit + 60000000) ck.violation("hostile:gas", "gas used " + std::to_string(e->gas_used) + " of " + std::to_string(limit), text);
			try {
				ck.mark("case " + std::to_string(n) + " shape " + std::to_string(which) + " result\n" + text);
				auto v = vm::read(e, vm::MEM_STACK);
				const auto t = v.to_string();
				ck.max("max_result_text", t.size());
				converted++;
			} catch(const std::exception& ex) { ck.count("results_refused"); }
			if(good) {
				ok++;
				if(!is_const) { cache->commit(); committed++; }
			}
			// what developers do with a contract
			if(rng.chance(1, 8)) { std::ostringstream o; try { vm::dump_code(o, bin[me], nullptr); } catch(const std::exception&) {} }
		}
		ck.max("max_rss_mb", [] { std::ifstream f("/proc/self/statm"); uint64_t a = 0, b = 0; f >> a >> b; return b * 4096 / 1000000; }());
	}
	ck.count("executions_ok", ok); ck.count("executions_failed", failed); ck.count("binaries_refused", rejected); ck.count("commits", committed); ck.count("results_converted", converted); ck.count("remote_calls", remote);
	ck.count("distinct_errors", why.size());
}

static void run_serial(Check& ck)
{
	Rng rng = ck.rng(8);
	const uint64_t cases = ck.n(60000, 1500000);
	for(uint64_t n = 0; n < cases; ++n) {
		rv::V v = hx::odd_const(rng);
		v.flags = uint8_t(rng.next()); v.rc = rng.chance(1, 2) ? uint32_t(rng.below(3)) : uint32_t(rng.any64());
		if(n % 500 == 0) { v.type = rng.chance(1, 2) ? rv::T_STR : rv::T_BIN; v.bin = gen::rbin(rng, rng.range(1000, 1048576)); }
		if(v.type == rv::T_UINT && rng.chance(1, 3)) v.num = (rv::u256)1 << int(rng.pick(std::vector<int>{15, 16, 31, 32, 63, 64, 127, 128, 255}));
		if(v.type == rv::T_UINT && rng.chance(1, 3)) v.num -= 1;
		const bool rc = rng.chance(1, 2), vf = rng.chance(1, 2);
		auto real = real_of(v);
		ck.mark("value " + v.text().substr(0, 2000));
		const auto s = vm::serialize(*real, rc, vf);
		// exact bytes: optional reference count and flags, type, then the payload, integers in the shortest of 16, 32, 64, 128, 256 bits
		std::string want;
		auto put = [&](const void* p, size_t k) { want.append((const char*)p, k); };
		if(rc) put(&v.rc, 4);
		if(vf) put(&v.flags, 1);
		uint8_t t = uint8_t(v.type);
		switch(v.type) {
			case rv::T_UINT: {
				int bits = v.num >> 128 ? 256 : v.num >> 64 ? 128 : v.num >> 32 ? 64 : v.num >> 16 ? 32 : 16;
				t = uint8_t(bits == 16 ? vm::TYPE_UINT16 : bits == 32 ? vm::TYPE_UINT32 : bits == 64 ? vm::TYPE_UINT64 : bits == 128 ? vm::TYPE_UINT128 : vm::TYPE_UINT256);
				put(&t, 1);
				for(int i = 0; i < bits / 8; ++i) { uint8_t b = uint8_t((unsigned)(v.num >> (8 * i)) & 255); put(&b, 1); }
				break;
			}
			case rv::T_STR: case rv::T_BIN: { put(&t, 1); uint32_t k = uint32_t(v.bin.size()); put(&k, 4); put(v.bin.data(), k); break; }
			case rv::T_ARR: { put(&t, 1); uint64_t a = v.addr; put(&a, 8); uint32_t k = uint32_t(v.size); put(&k, 4); break; }
			case rv::T_REF: case rv::T_MAP: { put(&t, 1); uint64_t a = v.addr; put(&a, 8); break; }
			default: put(&t, 1);
		}
		ck.eval();
		if(std::string((const char*)s.first.get(), s.second) != want) ck.violation("serial:bytes", "the stored form of " + v.text().substr(0, 200) + " differs");
		// into an exactly sized heap block, so that reading past the end is seen
		auto decode = [&](const std::string& d, std::unique_ptr<vm::var_t>& out) { std::unique_ptr<uint8_t[]> b(new uint8_t[d.size()]); ::memcpy(b.get(), d.data(), d.size()); return vm::deserialize(out, b.get(), d.size(), rc, vf); };
		std::unique_ptr<vm::var_t> back;
		try {
			const std::string tail = rng.chance(1, 2) ? gen::rbin(rng, rng.below(20)) : "";
			const size_t used = decode(want + tail, back);
			if(used != want.size()) ck.violation("serial:length", "reading " + v.text().substr(0, 200) + " consumed " + std::to_string(used) + " of " + std::to_string(want.size()));
			if(!back) { ck.violation("serial:null", "nothing read"); continue; }
			rv::V m = model_of(*back);
			if(m.text() != v.text() || (rc && m.rc != v.rc) || (vf && m.flags != v.flags) || (!rc && m.rc) || (!vf && m.flags)) ck.violation("serial:round-trip", v.text().substr(0, 200) + " came back as " + m.text().substr(0, 200));
			// ordering and cloning agree with the value
			auto cl = vm::clone(*real);
			if(vm::compare(*cl, *real) != 0 || vm::compare(*back, *real) != 0) ck.violation("serial:equal", "a copy of " + v.text().substr(0, 200) + " is not equal");
			rv::V o = hx::odd_const(rng);
			if(rng.chance(1, 3)) { o = v; if(o.type == rv::T_UINT) o.num += 1; else if(o.bin.size()) o.bin[rng.below(o.bin.size())] ^= 1; else o.addr++; }
			auto other = real_of(o);
			const int c1 = vm::compare(*real, *other), c2 = vm::compare(*other, *real), c = rv::cmp(v, o);
			auto sg = [](int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; };
			if(sg(c1) != -sg(c2) || sg(c1) != c) ck.violation("serial:order", v.text().substr(0, 100) + " against " + o.text().substr(0, 100) + ": " + std::to_string(c1) + ", " + std::to_string(c2) + ", expected " + std::to_string(c));
		} catch(const std::exception& ex) { ck.violation("serial:refused", "reading back " + v.text().substr(0, 200) + " failed: " + ex.what()); }
		// every proper prefix is refused
		for(int k = 0; k < 2; ++k) {
			const std::string cut = want.substr(0, rng.below(want.size()));
			std::unique_ptr<vm::var_t> out;
			bool threw = false;
			try { decode(cut, out); } catch(const std::exception&) { threw = true; }
			ck.eval();
			if(!threw) ck.violation("serial:truncated", "a truncated value was accepted");
		}
		if(n % 3 == 0) {		// noise: refused, or stable
			std::string d = rng.chance(1, 2) ? gen::rbin(rng, rng.below(60)) : want;
			if(d.size() && rng.chance(2, 3)) d[rng.below(std::min<size_t>(d.size(), 10))] = char(rng.next());
			std::unique_ptr<vm::var_t> out;
			try {
				const size_t used = decode(d, out);
				if(used > d.size()) ck.violation("serial:overrun", "consumed more than there was");
				auto s2 = vm::serialize(*out, rc, vf);
				std::unique_ptr<vm::var_t> again;
				vm::deserialize(again, s2.first.get(), s2.second, rc, vf);
				if(vm::compare(*out, *again) != 0) ck.violation("serial:unstable", "a value changes when written and read again");
				ck.count("noise_accepted");
			} catch(const std::exception&) { ck.count("noise_refused"); }
			ck.eval();
		}
		ck.nontrivial(want.substr(0, 100) + std::to_string(want.size()));
	}
	// code
	const uint64_t programs = ck.n(3000, 60000);
	for(uint64_t n = 0; n < programs; ++n) {
		std::vector<vm::instr_t> code;
		std::vector<uint32_t> pool;
		const size_t np = n % 97 == 0 ? 40000 : n % 11 == 0 ? 300 : 20;
		const size_t ni = n % 97 == 0 ? 20000 : rng.range(0, 200);
		for(size_t i = 0; i < ni; ++i) {
			static const uint8_t ops[] = {0,1,2,3,4,5,6,7,8,0x20,0x21,0x22,0x23,0x24,0x40,0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x60,0x61,0x62,0x63,0x64,0x65,0x80,0x81,0x82,0x83,0x84,0x85,0x86,0xA0,0xA1,0xA2,0xA3,0xA4,0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7};
			uint32_t a[4];
			for(auto& x : a) { if(pool.size() < np) { x = rng.chance(1, 2) ? uint32_t(rng.any64()) : uint32_t(rng.below(1000)); pool.push_back(x); } else x = pool[rng.below(pool.size())]; }
			const auto op = vm::opcode_e(ops[rng.below(sizeof(ops))]);
			const int na = vm::get_opcode_info(op).nargs;
			for(int k = na; k < 4; ++k) a[k] = 0;
			code.emplace_back(op, uint8_t(rng.next()), a[0], a[1], a[2], a[3]);
		}
		ck.eval();
		try {
			const auto data = vm::serialize(code);
			std::vector<vm::instr_t> back;
			std::unique_ptr<uint8_t[]> b(new uint8_t[data.size()]);
			::memcpy(b.get(), data.data(), data.size());
			const size_t used = vm::deserialize(back, b.get(), data.size());
			bool same = back.size() == code.size() && used == data.size();
			for(size_t i = 0; same && i < code.size(); ++i) same = back[i].code == code[i].code && back[i].flags == code[i].flags && back[i].a == code[i].a && back[i].b == code[i].b && back[i].c == code[i].c && back[i].d == code[i].d;
			if(!same) ck.violation("serial:code", "a program of " + std::to_string(code.size()) + " instructions did not come back (" + std::to_string(used) + " of " + std::to_string(data.size()) + " bytes)");
			ck.count("instructions_coded", code.size());
			ck.nontrivial(std::string(data.begin(), data.begin() + std::min<size_t>(data.size(), 200)));
			for(int k = 0; k < 3; ++k) {
				std::vector<uint8_t> d = data;
				if(k == 0) d.resize(rng.below(d.size())); else hx::corrupt(d, rng);
				std::unique_ptr<uint8_t[]> m(new uint8_t[d.size()]);
				::memcpy(m.get(), d.data(), d.size());
				std::vector<vm::instr_t> out;
				ck.eval();
				try {
					const size_t used = vm::deserialize(out, m.get(), d.size());
					if(used > d.size()) ck.violation("serial:code-overrun", "consumed more than there was");
					if(k == 0) ck.violation("serial:code-truncated", "a truncated program was accepted");
					for(auto& i : out) vm::to_string(i);
					ck.count("code_noise_accepted");
				} catch(const std::exception&) { ck.count("code_noise_refused"); }
			}
		} catch(const std::exception& ex) {
			// more different operands than can be numbered
			std::set<uint32_t> syms; for(auto& i : code) { const int na = vm::get_opcode_info(i.code).nargs; const uint32_t a[4] = {i.a, i.b, i.c, i.d}; for(int k = 0; k < na; ++k) syms.insert(a[k]); }
			if(syms.size() < 0x7FFF) ck.violation("serial:code-refused", "a program with " + std::to_string(syms.size()) + " different operands was refused: " + ex.what());
			else ck.count("too_many_symbols");
		}
	}
}
