// Primitives: hashes, symbol coding, proof of space, addresses, keys and signatures, seed phrases, amounts.
#include "common.h"
#include "ref.h"

#include <mmx/hash_t.hpp>
#include <mmx/hash_512_t.hpp>
#include <mmx/hmac_sha512.hpp>
#include <mmx/addr_t.hpp>
#include <mmx/skey_t.hpp>
#include <mmx/pubkey_t.hpp>
#include <mmx/signature_t.hpp>
#include <mmx/mnemonic.h>
#include <mmx/fixed128.hpp>
#include <mmx/utils.h>
#include <mmx/pos/encoding.h>
#include <mmx/pos/mem_hash.h>
#include <mmx/pos/verify.h>
#include <mmx/pos/util.h>
#include <mmx/ECDSA_Wallet.h>
#include <mmx/Transaction.hxx>
#include <mmx/operation/Execute.hxx>
#include <mmx/solution/PubKey.hxx>
#include <mmx/ChainParams.hxx>
#include <sha256_ni.h>
#include <sha256_avx2.h>
#include <sha256_arm.h>
#include <sha512.h>
#include <hmac_sha512.h>
#include <vnx/SHA256.h>
#include <thread>
#include <sys/mman.h>

using namespace mmx;
using verif::Rng;
typedef std::vector<uint8_t> bytes;

// A copy of `data` which ends right before (or starts right after) an inaccessible page: any access outside of
// the buffer by vector code (which the sanitizer's red zones may not catch) faults.
struct Guarded {
	uint8_t* base; size_t total; uint8_t* p;
	Guarded(const void* data, size_t n, bool at_end) {
		const size_t pg = 4096, body = (n + pg - 1) / pg * pg + pg;
		total = body + 2 * pg;
		base = (uint8_t*)mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		mprotect(base, pg, PROT_NONE);
		mprotect(base + total - pg, pg, PROT_NONE);
		p = at_end ? base + total - pg - n : base + pg;
		if(n) memcpy(p, data, n);
	}
	~Guarded() { munmap(base, total); }
};

// ------------------------------------------------------------------------------------------- P01
static void run_hash(verif::Check& c)
{
	auto rng = c.rng(1);
	// the reference itself, against published vectors
	auto hx = [](const auto& a) { return verif::hex(a.data(), a.size()); };
	if(hx(ref::sha256(std::string("abc"))) != "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"
		|| hx(ref::sha512("abc", 3)) != "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f"
		|| hx(ref::hmac512(bytes(20, 0x0b), bytes({'H','i',' ','T','h','e','r','e'}))) != "87aa7cdea5ef619d4ff0b4241a1d6cb02379f4e2ce4ec2787ad0b30545e17cdedaa833b7d6b8a702038b274eaea3f4e4be9d914eeb61f1702e696c203a126854")
	{
		fprintf(stderr, "reference is wrong\n"); exit(77);
	}
	const bool ni = sha256_ni_available(), avx = avx2_available();
	c.counts["have_sha_ni"] = ni; c.counts["have_avx2"] = avx;
	auto hash_case = [&](const bytes& m, bool guard) {
		const auto ex = ref::sha256(m);
		const auto ex5 = ref::sha512(m);
		c.eval();
		c.nontrivial(verif::Rng::mix(m.size() * 1315423911u + (m.size() ? m[0] + m[m.size() / 2] * 256 + m.back() * 65536 : 0)));
		std::string where = "length " + std::to_string(m.size());
		for(int mode = 0; mode < (guard ? 2 : 1); ++mode) {
			Guarded g(m.data(), m.size(), mode == 0);
			const auto shift = 0;
			const uint8_t* p = g.p + shift;
			c.mark("sha256 " + where);
			const hash_t h(p, m.size());
			c.check(memcmp(h.data(), ex.data(), 32) == 0, "hash_t", [&]{ return "hash_t differs from SHA-256 for " + where; });
			if(ni) {
				uint8_t out[32] = {};
				sha256_ni(out, p, m.size());
				c.check(memcmp(out, ex.data(), 32) == 0, "sha256_ni", [&]{ return "sha256_ni differs for " + where; });
				c.count("sha256_ni_cases");
			}
			c.mark("sha512 " + where);
			const hash_512_t h5(p, m.size());
			c.check(memcmp(h5.data(), ex5.data(), 64) == 0, "hash_512_t", [&]{ return "hash_512_t differs from SHA-512 for " + where; });
		}
		// incremental SHA-512 with random split points
		{
			SHA512 ctx;
			size_t pos = 0;
			while(pos < m.size()) { const auto n = std::min<size_t>(m.size() - pos, rng.chance(1, 3) ? rng.below(4) : rng.below(200)); ctx.Write(m.data() + pos, n); pos += n; c.count("sha512_pieces"); }
			uint8_t out[64];
			c.check(ctx.Size() == m.size(), "sha512-size", [&]{ return "SHA512::Size() wrong"; });
			ctx.Finalize(out);
			c.check(memcmp(out, ex5.data(), 64) == 0, "sha512-split", [&]{ return "SHA512 in pieces differs for " + where; });
			ctx.Reset();
			ctx.Write(m.data(), m.size()).Finalize(out);
			c.check(memcmp(out, ex5.data(), 64) == 0, "sha512-reset", [&]{ return "SHA512 after Reset() differs for " + where; });
		}
	};
	// all lengths up to 1100 (every padding case of 64 and 128 byte blocks several times), then long ones
	for(size_t n = 0; n <= c.n(1100, 4500); ++n) {
		for(int k = 0; k < (int)c.n(1, 3); ++k) hash_case(rng.bytes(n), true);
	}
	for(size_t n = 0; n <= 300; ++n) { hash_case(bytes(n, 0), false); hash_case(bytes(n, 0xff), false); hash_case(bytes(n, 0x80), false); }
	for(uint64_t i = 0; i < c.n(40, 400); ++i) hash_case(rng.bytes(rng.range(1100, 40000)), true);
	hash_case(rng.bytes(1 << 20), false);
	if(c.thorough()) hash_case(rng.bytes((16 << 20) + 5), false);

	// 8 lanes of up to 55 bytes
	for(size_t n = 0; n <= 55; ++n) for(uint64_t k = 0; k < c.n(6, 60); ++k) {
		bytes in = rng.bytes(512);
		if(k == 0) for(int l = 0; l < 8; ++l) for(int i = 0; i < 64; ++i) in[l*64+i] = l;
		c.eval(); c.count("x8_cases");
		c.nontrivial(Rng::mix(n * 131 + k) ^ 0x88);
		for(int path = 0; path < (avx ? 2 : 1); ++path) {
			c.mark("sha256 x8 path " + std::to_string(path) + " length " + std::to_string(n));
			Guarded gi(in.data(), 512, true), go(bytes(256).data(), 256, true);
			uint8_t* pi = gi.p, *po = go.p;
			if(path) sha256_avx2_64_x8(po, pi, n); else sha256_64_x8(po, pi, n);
			for(int l = 0; l < 8; ++l) {
				const auto ex = ref::sha256(in.data() + l * 64, n);
				c.check(memcmp(po + l * 32, ex.data(), 32) == 0, path ? "avx2_x8" : "sha256_64_x8", [&]{ return "lane " + std::to_string(l) + " differs for length " + std::to_string(n); });
			}
		}
	}
	{
		bool thrown = false;
		bytes in(512), out(256);
		try { sha256_64_x8(out.data(), in.data(), 56); } catch(const std::exception&) { thrown = true; }
		c.check(thrown, "x8-length", []{ return "sha256_64_x8 accepts a length that does not fit one block"; });
	}
	// iterated hashing (VDF)
	if(ni) for(uint64_t k = 0; k < c.n(300, 5000); ++k) {
		const auto it = k < 40 ? k : rng.range(1, 400);
		auto a = rng.bytes(64);
		if(k % 10 == 0) memset(a.data(), k / 10, 64);
		std::array<uint8_t, 32> ex[2];
		memcpy(&ex[0], a.data(), 32); memcpy(&ex[1], a.data() + 32, 32);
		for(uint64_t i = 0; i < it; ++i) { ex[0] = ref::sha256(ex[0].data(), 32); ex[1] = ref::sha256(ex[1].data(), 32); }
		c.eval(); c.count("recursive_cases"); c.nontrivial(Rng::mix(it * 977 + a[0]) ^ 0x99);
		c.mark("recursive sha256 " + std::to_string(it));
		Guarded g1(a.data(), 32, true), g2(a.data(), 64, true);
		recursive_sha256_ni(g1.p, it);
		c.check(memcmp(g1.p, &ex[0], 32) == 0, "recursive_ni", [&]{ return "recursive_sha256_ni differs after " + std::to_string(it) + " iterations"; });
		recursive_sha256_ni_x2(g2.p, it);
		c.check(memcmp(g2.p, &ex[0], 32) == 0 && memcmp(g2.p + 32, &ex[1], 32) == 0, "recursive_ni_x2", [&]{ return "recursive_sha256_ni_x2 differs after " + std::to_string(it) + " iterations"; });
	}
	// HMAC and key derivation
	for(uint64_t k = 0; k < c.n(1500, 20000); ++k) {
		const auto key = rng.bytes(k < 300 ? k : rng.below(400)), msg = rng.bytes(rng.below(300));
		const auto ex = ref::hmac512(key, msg);
		c.mark("hmac key " + std::to_string(key.size()));
		HMAC_SHA512 f(key.data(), key.size());
		size_t pos = 0;
		while(pos < msg.size()) { const auto n = std::min<size_t>(msg.size() - pos, 1 + rng.below(150)); f.Write(msg.data() + pos, n); pos += n; }
		uint8_t out[64];
		f.Finalize(out);
		c.eval(); c.count("hmac_cases"); c.nontrivial(Rng::mix(key.size() * 1000 + msg.size()) ^ 0xaa);
		c.check(memcmp(out, ex.data(), 64) == 0, "hmac", [&]{ return "HMAC-SHA512 differs for a key of " + std::to_string(key.size()) + " bytes"; });
		if(k % 10 == 0) {
			const auto seed = hash_t::from_bytes(rng.bytes(32)), ky = hash_t::from_bytes(rng.bytes(32));
			const uint32_t idx = rng.any64();
			bytes m = seed.to_vector();
			const auto a = mmx::hmac_sha512(seed, ky);
			auto e = ref::hmac512(ky.to_vector(), m);
			c.check(memcmp(a.first.data(), e.data(), 32) == 0 && memcmp(a.second.data(), e.data() + 32, 32) == 0, "hmac_sha512", []{ return "hmac_sha512() differs"; });
			for(int i = 3; i >= 0; --i) m.push_back(idx >> (8 * i));
			const auto b = mmx::hmac_sha512_n(seed, ky, idx);
			e = ref::hmac512(ky.to_vector(), m);
			c.check(memcmp(b.first.data(), e.data(), 32) == 0 && memcmp(b.second.data(), e.data() + 32, 32) == 0, "hmac_sha512_n", [&]{ return "hmac_sha512_n() differs for index " + std::to_string(idx); });
			const uint32_t it = 1 + rng.below(20);
			const auto d = mmx::kdf_hmac_sha512(seed, ky, it);
			e = ref::hmac512(ky.to_vector(), seed.to_vector());
			for(uint32_t i = 1; i < it; ++i) e = ref::hmac512(bytes(e.begin(), e.end()), seed.to_vector());
			c.check(memcmp(d.first.data(), e.data(), 32) == 0 && memcmp(d.second.data(), e.data() + 32, 32) == 0, "kdf", []{ return "kdf_hmac_sha512() differs"; });
		}
	}
	c.sample("SHA-256/512 of every length 0.." + std::to_string(c.n(1100, 4500)) + " next to guard pages, 8-lane, recursive and HMAC paths");
}

// ------------------------------------------------------------------------------------------- P02
static void run_coding(verif::Check& c)
{
	auto rng = c.rng(2);
	// textbook coding of a symbol: 2 bits per unit, 3 = continue
	auto ref_encode = [](const bytes& syms, uint64_t& total) {
		std::vector<bool> b;
		for(auto s : syms) {
			for(int i = 0; i < s / 3; ++i) { b.push_back(1); b.push_back(1); }
			b.push_back((s % 3) & 1); b.push_back((s % 3) >> 1);
		}
		total = b.size();
		std::vector<uint64_t> r((b.size() + 63) / 64, 0);
		for(size_t i = 0; i < b.size(); ++i) if(b[i]) r[i / 64] |= uint64_t(1) << (i % 64);
		return r;
	};
	for(uint64_t k = 0; k < c.n(60000, 1500000); ++k) {
		const int maxsym = k % 5 == 0 ? 47 : k % 5 == 1 ? 2 : k % 5 == 2 ? 8 : k % 5 == 3 ? 17 : 1 + rng.below(47);
		const size_t n = k < 64 ? k : rng.below(rng.chance(1, 20) ? 2000 : 120);
		bytes s(n);
		for(auto& x : s) x = rng.chance(1, 3) ? maxsym - std::min<int>(maxsym, rng.below(3)) : rng.below(maxsym + 1);
		uint64_t bits = 0, ebits = 0;
		c.mark("encode " + verif::hex(s));
		const auto enc = pos::encode(s, bits);
		const auto ex = ref_encode(s, ebits);
		c.eval();
		c.nontrivial(Rng::mix(std::hash<std::string>()(std::string(s.begin(), s.end()))));
		c.check(bits == ebits && enc == ex, "encode", [&]{ return "encode() gives a different bit stream for symbols " + verif::hex(s); });
		try {
			c.mark("decode " + verif::hex(s));
			const auto dec = pos::decode(enc, n);
			c.check(dec == s, "decode-roundtrip", [&]{ return "decode(encode(s)) != s for " + verif::hex(s); });
		} catch(const std::exception& e) {
			c.violation("decode-throws", std::string("decode(encode(s)) throws '") + e.what() + "' for " + verif::hex(s));
		}
		// a stream at a bit offset (as within a park): prefix symbols, then decode from the offset
		if(n) {
			const size_t skip = rng.below(n);
			uint64_t off = 0;
			ref_encode(bytes(s.begin(), s.begin() + skip), off);
			try {
				const auto dec = pos::decode(enc, n - skip, off);
				c.check(dec == bytes(s.begin() + skip, s.end()), "decode-offset", [&]{ return "decode() at bit offset " + std::to_string(off) + " differs for " + verif::hex(s); });
				c.count("offset_decodes");
			} catch(const std::exception& e) {
				c.violation("decode-throws", std::string("decode() throws '") + e.what() + "' at bit offset " + std::to_string(off) + " for " + verif::hex(s));
			}
		}
		// hostile streams: bounded, either decoded to symbols in range or rejected
		if(k % 4 == 0) {
			std::vector<uint64_t> junk(rng.below(6));
			for(auto& x : junk) x = rng.chance(1, 3) ? ~uint64_t(0) : rng.next();
			const auto want = rng.below(400), off = rng.below(500);
			c.mark("decode junk");
			try {
				const auto dec = pos::decode(junk, want, off);
				c.check(dec.size() == want, "junk-size", []{ return "decode() returns another number of symbols"; });
				for(auto x : dec) c.check(x <= 48, "junk-range", [&]{ return "symbol out of range"; });
				c.count("junk_decoded");
			} catch(const std::logic_error&) { c.count("junk_rejected"); }
		}
	}
	for(int sym = 48; sym < 256; ++sym) {
		uint64_t bits = 0;
		bool thrown = false;
		c.mark("encode out of range");
		try { pos::encode(bytes(1, sym), bits); } catch(const std::exception&) { thrown = true; }
		c.check(thrown, "encode-range", [&]{ return "encode() accepts symbol " + std::to_string(sym); });
	}
	// line point <-> pair
	auto line = [&](uint32_t x, uint32_t y) {	// x > y
		const unsigned __int128 lp = (unsigned __int128)x * (x - 1) / 2 + y;
		const auto r = pos::LinePointToSquare(uint64_t(lp));
		c.eval(); c.count("line_points"); c.nontrivial(Rng::mix(uint64_t(x) << 32 | y) ^ 0x77);
		c.check(r.first == x && r.second == y, "line-point", [&]{ return "LinePointToSquare differs for x=" + std::to_string(x) + " y=" + std::to_string(y); });
		c.check(pos::GetXEnc(x) == uint64_t((unsigned __int128)x * (x - 1) / 2), "x-enc", [&]{ return "GetXEnc differs for " + std::to_string(x); });
	};
	for(uint32_t x = 1; x < 300; ++x) for(uint32_t y = 0; y < x; ++y) line(x, y);
	for(uint64_t k = 0; k < c.n(200000, 3000000); ++k) {
		uint32_t x = std::max<uint32_t>(1, rng.any64()), y = k % 3 == 0 ? x - 1 : k % 3 == 1 ? 0 : rng.below(x);
		line(x, y);
		// pairs with x >= y, encoded with both incremented resp. for distinct unordered pairs
		uint32_t a = rng.any64() >> 1, b = rng.below(uint64_t(a) + 1);
		a &= 0x7fffffff;
		if(b > a) std::swap(a, b);
		{
			const uint64_t X = uint64_t(a) + 1, Y = uint64_t(b) + 1;		// 1 <= Y <= X
			const uint64_t lp = X == Y ? X * (X + 1) / 2 : X * (X - 1) / 2 + Y;	// see LinePointToSquare3
			const auto r3 = pos::LinePointToSquare3(lp);
			if(X != Y) {
				c.check(r3.first == X && r3.second == Y, "line-point3", [&]{ return "LinePointToSquare3 differs"; });
				const auto r2 = pos::LinePointToSquare2(lp);
				c.check(r2.first == a && r2.second == b, "line-point2", [&]{ return "LinePointToSquare2 differs"; });
			} else {
				c.check(r3.first == X && r3.second == X, "line-point3-eq", [&]{ return "LinePointToSquare3 differs for x == y == " + std::to_string(X); });
			}
		}
	}
	// packed bit fields
	for(uint64_t k = 0; k < c.n(20000, 300000); ++k) {
		const auto nf = 1 + rng.below(40);
		std::vector<std::pair<uint64_t, uint32_t>> f;
		uint64_t total = rng.below(200);
		const auto begin = total;
		for(uint64_t i = 0; i < nf; ++i) { const uint32_t nb = 1 + rng.below(64); f.emplace_back(rng.any64(), nb); total += nb; }
		std::vector<uint64_t> buf((total + 63) / 64, 0);
		uint64_t off = begin;
		for(auto& e : f) off = pos::write_bits(buf.data(), e.first, off, e.second);
		c.eval(); c.count("bit_fields", nf); c.nontrivial(Rng::mix(buf[0] + total) ^ 0x55);
		c.check(off == total, "write_bits-offset", []{ return "write_bits() returns a wrong offset"; });
		off = begin;
		for(auto& e : f) {
			const auto v = pos::read_bits(buf.data(), off, e.second);
			const auto ex = e.second == 64 ? e.first : e.first & ((uint64_t(1) << e.second) - 1);
			c.check(v == ex, "bits-roundtrip", [&]{ return "read_bits() != write_bits() for " + std::to_string(e.second) + " bits at " + std::to_string(off); });
			off += e.second;
		}
	}
	c.sample("60000+ symbol streams with symbols 0..47, offsets, junk streams, line points up to 2^63, packed fields of 1..64 bits");
}

// ------------------------------------------------------------------------------------------- P03 proof of space
namespace refpos {
// restatement of the plot function from its definition
static void mem_hash(const uint8_t key[64], uint8_t out[128])
{
	static const uint32_t INIT[16] = {0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174};
	std::vector<std::array<uint32_t, 32>> mem(32);
	uint32_t st[32];
	for(int i = 0; i < 16; ++i) { st[i] = uint32_t(key[4*i]) | uint32_t(key[4*i+1]) << 8 | uint32_t(key[4*i+2]) << 16 | uint32_t(key[4*i+3]) << 24; st[16+i] = INIT[i]; }
	uint32_t b = 0, c = 0;
	auto rol = ref::rol;
	for(int row = 0; row < 32; ++row) {
		for(int j = 0; j < 64; ++j) {
			uint32_t& a = st[j % 16]; uint32_t& d = st[16 + j % 16];
			a += b; d = rol(d ^ a, 16); c += d; b = rol(b ^ c, 12); a += b; d = rol(d ^ a, 8); c += d; b = rol(b ^ c, 7);
		}
		for(int k = 0; k < 32; ++k) mem[row][k] = st[k];
	}
	std::array<uint32_t, 32> s = mem[31];
	for(int it = 0; it < 256; ++it) {
		uint32_t sum = 0;
		for(int i = 0; i < 32; ++i) sum += rol(s[i], i);
		const uint32_t dir = sum * ((1u << 22) + (1u << 11) + 1u);
		const int bits = (dir >> 22) & 31, row = dir >> 27;
		for(int i = 0; i < 32; ++i) s[i] += rol(mem[row][(it + i) % 32], bits) ^ sum;
		for(int i = 0; i < 32; ++i) mem[row][i] ^= s[i];
	}
	for(int i = 0; i < 32; ++i) for(int k = 0; k < 4; ++k) out[4*i+k] = s[i] >> (8 * k);
}
struct entry { uint32_t y; std::array<uint32_t, 14> m; std::vector<uint32_t> x; };
static entry finish(const std::array<uint8_t, 64>& h, int k) {
	entry e; e.y = 0;
	const uint32_t mask = (uint64_t(1) << k) - 1;
	for(int i = 0; i < 14; ++i) { const uint32_t v = uint32_t(h[4*i]) | uint32_t(h[4*i+1]) << 8 | uint32_t(h[4*i+2]) << 16 | uint32_t(h[4*i+3]) << 24; e.y ^= v; e.m[i] = v & mask; }
	e.y &= mask;
	return e;
}
static entry f1(uint32_t x, const hash_t& id, int k) {
	bytes msg(36);
	for(int i = 0; i < 4; ++i) msg[i] = x >> (8 * i);
	memcpy(msg.data() + 4, id.data(), 32);
	const auto key = ref::sha512(msg);
	bytes mh(64 + 128);
	memcpy(mh.data(), key.data(), 64);
	mem_hash(key.data(), mh.data() + 64);
	auto e = finish(ref::sha512(mh), k);
	e.x = {x};
	return e;
}
// every entry of the last table derivable from the given x values; left = smaller y
static std::vector<entry> evaluate(const std::set<uint32_t>& xs, const hash_t& id, int k, int& dead_table, size_t cap = 1 << 16) {
	std::vector<entry> t;
	for(auto x : xs) t.push_back(f1(x, id, k));
	dead_table = 0;
	for(int n = 2; n <= 9; ++n) {
		std::multimap<uint32_t, const entry*> by_y;
		for(auto& e : t) by_y.emplace(e.y, &e);
		std::vector<entry> next;
		for(auto& L : t) {
			if(L.y == uint32_t(-1)) continue;
			auto r = by_y.equal_range(L.y + 1);
			for(auto i = r.first; i != r.second; ++i) {
				bytes msg;
				for(const auto* m : {(const std::array<uint32_t, 14>*)&L.m, &i->second->m}) for(auto v : *m) for(int b = 0; b < 4; ++b) msg.push_back(v >> (8 * b));
				auto e = finish(ref::sha512(msg), k);
				e.x = L.x;
				e.x.insert(e.x.end(), i->second->x.begin(), i->second->x.end());
				next.push_back(e);
			}
			if(next.size() > cap) { dead_table = -1; return {}; }	// small plots can grow without bound from table to table
		}
		t.swap(next);
		if(t.empty()) { dead_table = n; return t; }
	}
	return t;
}
} // refpos

static void run_pos(verif::Check& c)
{
	auto rng = c.rng(3);
	// memory hard function and f1
	for(uint64_t k = 0; k < c.n(300, 3000); ++k) {
		const auto key = rng.bytes(64);
		uint8_t ex[128], out[128];
		refpos::mem_hash(key.data(), ex);
		std::vector<uint32_t> mem(1024);
		c.mark("mem_hash " + verif::hex(key));
		pos::gen_mem_array(mem.data(), key.data(), 1024);
		pos::calc_mem_hash(mem.data(), out, 256);
		c.eval(); c.count("mem_hashes"); c.nontrivial(std::string(key.begin(), key.end()));
		c.check(memcmp(ex, out, 128) == 0, "mem_hash", [&]{ return "calc_mem_hash differs for key " + verif::hex(key); });
	}
	// whole small plots
	struct plot_t { hash_t id; int k; std::vector<refpos::entry> proofs; };
	std::vector<plot_t> plots;
	const uint64_t num_plots = c.n(24, 120);
	for(uint64_t p = 0; p < num_plots; ++p) {
		plot_t pl;
		pl.id = hash_t::from_bytes(rng.bytes(32));
		pl.k = c.thorough() ? 8 + p % 5 : 8 + p % 3;
		int dead = 0;
		std::set<uint32_t> all;
		for(uint32_t x = 0; x < (1u << pl.k); ++x) all.insert(x);
		auto ref_list = refpos::evaluate(all, pl.id, pl.k, dead, 3 << pl.k);
		if(dead < 0) { c.count("plots_skipped_growth"); continue; }
		c.mark("compute plot k=" + std::to_string(pl.k));
		std::vector<uint32_t> X_out;
		std::vector<std::pair<uint32_t, bytes_t<pos::META_BYTES_OUT>>> res;
		const int xbits = p % 3 == 0 ? pl.k : p % 3 == 1 ? pl.k - 2 : 0;
		std::vector<uint32_t> X_in;
		for(uint32_t x = 0; x < (1u << (pl.k - xbits)); ++x) X_in.push_back(x);
		try {
			res = pos::compute(X_in, &X_out, pl.id, pl.k, xbits);
		} catch(const std::logic_error& e) {
			c.check(dead != 0, "compute-throws", [&]{ return std::string("compute() throws ") + e.what() + " where a proof exists"; });
			c.count("plots_without_proof");
			continue;
		}
		c.eval();
		// the plot's proofs as a set of (y, meta); metas are unique in the result
		std::set<std::pair<uint32_t, std::string>> a, b;
		for(auto& e : ref_list) { std::string m; for(int i = 0; i < 12; ++i) for(int k = 0; k < 4; ++k) m += char(e.m[i] >> (8*k)); b.emplace(e.y, m); }
		for(auto& e : res) a.emplace(e.first, std::string((const char*)e.second.data(), e.second.size()));
		c.count("plot_proofs", res.size());
		c.check(a == b, "compute-set", [&]{ return "compute() finds " + std::to_string(a.size()) + " outputs, the definition gives " + std::to_string(b.size()); });
		// unique x-paths per meta
		std::map<std::array<uint32_t, 14>, int> metas;
		for(auto& e : ref_list) metas[e.m]++;
		for(auto& e : ref_list) if(metas[e.m] == 1) pl.proofs.push_back(e);
		if(xbits == 0) {
			bool order = X_out.size() == res.size() * 256;
			c.check(order, "compute-x", [&]{ return "compute() returns " + std::to_string(X_out.size()) + " x values for " + std::to_string(res.size()) + " proofs"; });
		}
		c.count("plots");
		plots.push_back(pl);
	}
	// genuine proofs are accepted with the right quality, others are refused
	uint64_t genuine = 0, refused = 0;
	for(auto& pl : plots) {
		uint64_t done = 0;
		for(auto& pr : pl.proofs) {
			if(done++ >= c.n(6, 40)) break;
			// the canonical order puts equal inputs deterministically; skip paths whose x set spawns several proofs
			int dead = 0;
			const std::set<uint32_t> xs(pr.x.begin(), pr.x.end());
			const auto sub = refpos::evaluate(xs, pl.id, pl.k, dead);
			std::set<std::array<uint32_t, 14>> sm;
			for(auto& e : sub) sm.insert(e.m);
			const uint32_t mask = (uint64_t(1) << pl.k) - 1;
			const int filter = rng.below(5);		// window of 2^filter y values
			const bool fork = rng.chance(1, 2);
			const int post = fork ? rng.below(4) : 0;
			hash_t challenge;
			// window start such that y is inside: offsets first / last / random
			auto challenge_for = [&](uint32_t off) {
				challenge = hash_t::from_bytes(rng.bytes(32));
				const uint32_t y0 = (pr.y - off) & mask;
				uint32_t v = (uint32_t(rng.next()) & ~mask) | y0;
				for(int i = 0; i < 4; ++i) challenge[i] = v >> (8 * i);
				return y0;
			};
			auto expect_quality = [&](const std::vector<uint32_t>& x) {
				bytes m;
				std::string meta; for(int i = 0; i < 12; ++i) for(int k = 0; k < 4; ++k) meta += char(pr.m[i] >> (8*k));
				if(fork) {
					bytes xb; for(auto v : x) for(int k = 0; k < 4; ++k) xb.push_back(v >> (8*k));
					const auto xh = ref::sha256(xb);
					m = challenge.to_vector(); m.insert(m.end(), xh.begin(), xh.end());
				} else {
					const std::string s = "proof_quality" + std::string((const char*)challenge.data(), 32) + meta;
					m.assign(s.begin(), s.end());
				}
				const auto h = ref::sha256(m);
				return hash_t::from_bytes(h.data());
			};
			auto post_ok = [&]() {
				std::string meta; for(int i = 0; i < 12; ++i) for(int k = 0; k < 4; ++k) meta += char(pr.m[i] >> (8*k));
				const auto h = ref::sha256("post_filter" + std::string((const char*)challenge.data(), 32) + meta);
				if(!fork || !post) return true;
				return (h[31] >> (8 - post)) == 0;		// 256-bit little endian number
			};
			auto run = [&](const std::vector<uint32_t>& x, const hash_t& id, int k, int post_) -> std::pair<bool, hash_t> {
				try { return {true, pos::verify(x, challenge, id, filter, post_, k, fork)}; }
				catch(const std::logic_error&) { return {false, hash_t()}; }
			};
			const uint32_t span = 1u << filter;
			for(int w = 0; w < 4; ++w) {
				const uint32_t off = w == 0 ? 0 : w == 1 ? span - 1 : w == 2 ? span : uint32_t(-1);
				const bool inside = w < 2;
				const auto y0 = challenge_for(off);
				const bool wraps = inside && pr.y < y0;		// window does not wrap around
				c.mark("verify k=" + std::to_string(pl.k) + " window case " + std::to_string(w));
				const auto r = run(pr.x, pl.id, pl.k, post);
				c.eval(); c.nontrivial(Rng::mix(pr.y * 8 + w) ^ pr.m[0]);
				const bool ok = inside && !wraps && sm.size() == 1 && post_ok();
				if(ok != r.first) {
					c.violation(ok ? "genuine-refused" : "window-accepted", "verify() " + std::string(r.first ? "accepts" : "refuses") + " k=" + std::to_string(pl.k) + " y=" + std::to_string(pr.y) + " y0=" + std::to_string(y0) + " filter=" + std::to_string(filter) + " proofs in x set: " + std::to_string(sm.size()));
				}
				if(r.first && ok) {
					genuine++;
					c.check(r.second == expect_quality(pr.x), "quality", [&]{ return "verify() returns another quality"; });
				}
			}
			// the proof found again with a challenge that fits, then mutated
			uint32_t y0 = challenge_for(rng.below(span));
			for(int t = 0; t < 50 && (pr.y < y0 || !post_ok()); ++t) y0 = challenge_for(rng.below(span));
			if(sm.size() != 1 || pr.y < y0 || !post_ok()) continue;
			const auto good = run(pr.x, pl.id, pl.k, post);
			if(!c.check(good.first, "genuine-refused", []{ return "verify() refuses a genuine proof"; })) continue;
			genuine++;
			for(int mut = 0; mut < 12; ++mut) {
				auto x = pr.x;
				auto id = pl.id;
				auto k = pl.k;
				std::string what;
				switch(mut) {
					case 0: x[rng.below(256)] ^= 1u << rng.below(pl.k); what = "one x changed"; break;
					case 1: { const auto i = rng.below(255); std::swap(x[i], x[i + 1]); what = "two x swapped"; break; }
					case 2: std::swap_ranges(x.begin(), x.begin() + 128, x.begin() + 128); what = "halves swapped"; break;
					case 3: std::sort(x.begin(), x.end()); what = "sorted"; break;
					case 4: x.pop_back(); what = "one x less"; break;
					case 5: x.push_back(x[0]); what = "one x more"; break;
					case 6: x.clear(); what = "empty"; break;
					case 7: id[rng.below(32)] ^= 1 << rng.below(8); what = "other plot id"; break;
					case 8: k = pl.k + 1; what = "other k"; break;
					case 9: x[rng.below(256)] += 1u << pl.k; what = "x beyond 2^k"; break;
					case 10: x[0] = x[1] = x[2]; what = "repeated x"; break;
					case 11: { const auto i = 2 * rng.below(128); std::swap(x[i], x[i + 1]); what = "pair swapped"; break; }
				}
				if(x == pr.x && id == pl.id && k == pl.k) continue;
				c.mark("verify mutated proof: " + what);
				const auto r = run(x, id, k, post);
				c.eval(); c.count("mutated_proofs");
				// mutated x values which are accepted must be a proof by definition
				bool legit = false;
				if(x.size() == 256) {
					int d = 0;
					const auto list = refpos::evaluate(std::set<uint32_t>(x.begin(), x.end()), id, k, d);
					for(auto& e : list) if(e.x == x && e.y >= (y0 & ((uint64_t(1) << k) - 1))) legit = true;
				}
				if(r.first && !legit) c.violation("forged-accepted", "verify() accepts a proof with " + what + " (k=" + std::to_string(pl.k) + ")");
				if(!r.first) refused++;
			}
		}
	}
	c.counts["genuine_accepted"] = genuine;
	c.counts["mutants_refused"] = refused;
	for(int k : {-1, 0, 1, 7, 33, 64}) {
		bool thrown = false;
		try { pos::compute({1, 2, 3}, nullptr, hash_t(), k, 0); } catch(const std::exception&) { thrown = true; }
		c.check(thrown, "ksize-range", [&]{ return "compute() accepts k=" + std::to_string(k); });
	}
	c.sample("plots of k=8.. evaluated from the definition; proofs verified at the first and last y of the window and one off; 12 kinds of mutated proofs");
}

#include "h_prim2.h"

int main(int argc, char** argv)
{
	verif::Check c(argc, argv);
	secp256k1_init();
	if(c.has("hash")) run_hash(c);
	if(c.has("coding")) run_coding(c);
	if(c.has("pos")) run_pos(c);
	run_prim2(c);
	return c.finish();
}
