// Independent reference implementations (FIPS 180-4, RFC 2104), written from the standards.
#ifndef VERIF_REF_H_
#define VERIF_REF_H_
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <array>
namespace ref {
typedef std::vector<uint8_t> bytes;

// first 64 bits of the fractional part of the n-th root of p, by exact integer arithmetic
inline unsigned __int128 mulhi_(uint64_t, uint64_t) { return 0; }

static const uint32_t K256[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};

inline uint32_t ror(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
inline uint64_t ror(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }

inline std::array<uint8_t, 32> sha256(const void* data, size_t n) {
	uint32_t h[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
	bytes m((const uint8_t*)data, (const uint8_t*)data + n);
	m.push_back(0x80);
	while(m.size() % 64 != 56) m.push_back(0);
	for(int i = 7; i >= 0; --i) m.push_back(uint8_t((uint64_t(n) * 8) >> (8 * i)));
	for(size_t o = 0; o < m.size(); o += 64) {
		uint32_t w[64];
		for(int i = 0; i < 16; ++i) w[i] = uint32_t(m[o+4*i]) << 24 | uint32_t(m[o+4*i+1]) << 16 | uint32_t(m[o+4*i+2]) << 8 | m[o+4*i+3];
		for(int i = 16; i < 64; ++i) {
			const uint32_t s0 = ror(w[i-15],7) ^ ror(w[i-15],18) ^ (w[i-15] >> 3), s1 = ror(w[i-2],17) ^ ror(w[i-2],19) ^ (w[i-2] >> 10);
			w[i] = w[i-16] + s0 + w[i-7] + s1;
		}
		uint32_t v[8];
		memcpy(v, h, 32);
		for(int i = 0; i < 64; ++i) {
			const uint32_t S1 = ror(v[4],6) ^ ror(v[4],11) ^ ror(v[4],25), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
			const uint32_t t1 = v[7] + S1 + ch + K256[i] + w[i];
			const uint32_t S0 = ror(v[0],2) ^ ror(v[0],13) ^ ror(v[0],22), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
			const uint32_t t2 = S0 + mj;
			v[7]=v[6]; v[6]=v[5]; v[5]=v[4]; v[4]=v[3]+t1; v[3]=v[2]; v[2]=v[1]; v[1]=v[0]; v[0]=t1+t2;
		}
		for(int i = 0; i < 8; ++i) h[i] += v[i];
	}
	std::array<uint8_t, 32> r;
	for(int i = 0; i < 8; ++i) for(int k = 0; k < 4; ++k) r[4*i+k] = uint8_t(h[i] >> (24 - 8*k));
	return r;
}
inline std::array<uint8_t, 32> sha256(const bytes& b) { return sha256(b.data(), b.size()); }
inline std::array<uint8_t, 32> sha256(const std::string& b) { return sha256(b.data(), b.size()); }

// SHA-512 round constants: fractional parts of the cube roots of the first 80 primes, computed here
struct K512_t {
	uint64_t k[80], iv[8];
	static bool prime(int n) { for(int i = 2; i * i <= n; ++i) if(n % i == 0) return false; return n > 1; }
	typedef std::vector<uint32_t> big;	// little endian base 2^32
	static big mul(const big& a, const big& b) {
		big r(a.size() + b.size(), 0);
		for(size_t i = 0; i < a.size(); ++i) { uint64_t c = 0; for(size_t j = 0; j < b.size(); ++j) { const uint64_t t = uint64_t(a[i]) * b[j] + r[i+j] + c; r[i+j] = uint32_t(t); c = t >> 32; } r[i+b.size()] += uint32_t(c); }
		return r;
	}
	static int cmp(const big& a, const big& b) { for(size_t i = std::max(a.size(), b.size()); i-- > 0;) { const uint32_t x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0; if(x != y) return x < y ? -1 : 1; } return 0; }
	// floor(p^(1/n) * 2^64) mod 2^64
	static uint64_t root(int p, int n) {
		big x(3, 0), target(2 * n + 1, 0);
		target[2 * n] = p;
		for(int b = 70; b >= 0; --b) {
			big y = x;
			y[b / 32] |= uint32_t(1) << (b % 32);
			big z = mul(y, y);
			if(n == 3) z = mul(z, y);
			if(cmp(z, target) <= 0) x = y;
		}
		return uint64_t(x[1]) << 32 | x[0];
	}
	K512_t() { int c = 0; for(int n = 2; c < 80; ++n) if(prime(n)) { k[c] = root(n, 3); if(c < 8) iv[c] = root(n, 2); ++c; } }
};
inline std::array<uint8_t, 64> sha512(const void* data, size_t n) {
	static const K512_t C;
	uint64_t h[8];
	memcpy(h, C.iv, 64);
	bytes m((const uint8_t*)data, (const uint8_t*)data + n);
	m.push_back(0x80);
	while(m.size() % 128 != 112) m.push_back(0);
	for(int i = 0; i < 8; ++i) m.push_back(0);
	for(int i = 7; i >= 0; --i) m.push_back(uint8_t((uint64_t(n) * 8) >> (8 * i)));
	for(size_t o = 0; o < m.size(); o += 128) {
		uint64_t w[80];
		for(int i = 0; i < 16; ++i) { w[i] = 0; for(int k = 0; k < 8; ++k) w[i] = w[i] << 8 | m[o + 8*i + k]; }
		for(int i = 16; i < 80; ++i) {
			const uint64_t s0 = ror(w[i-15],1) ^ ror(w[i-15],8) ^ (w[i-15] >> 7), s1 = ror(w[i-2],19) ^ ror(w[i-2],61) ^ (w[i-2] >> 6);
			w[i] = w[i-16] + s0 + w[i-7] + s1;
		}
		uint64_t v[8];
		memcpy(v, h, 64);
		for(int i = 0; i < 80; ++i) {
			const uint64_t S1 = ror(v[4],14) ^ ror(v[4],18) ^ ror(v[4],41), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
			const uint64_t t1 = v[7] + S1 + ch + C.k[i] + w[i];
			const uint64_t S0 = ror(v[0],28) ^ ror(v[0],34) ^ ror(v[0],39), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
			v[7]=v[6]; v[6]=v[5]; v[5]=v[4]; v[4]=v[3]+t1; v[3]=v[2]; v[2]=v[1]; v[1]=v[0]; v[0]=t1+S0+mj;
		}
		for(int i = 0; i < 8; ++i) h[i] += v[i];
	}
	std::array<uint8_t, 64> r;
	for(int i = 0; i < 8; ++i) for(int k = 0; k < 8; ++k) r[8*i+k] = uint8_t(h[i] >> (56 - 8*k));
	return r;
}
inline std::array<uint8_t, 64> sha512(const bytes& b) { return sha512(b.data(), b.size()); }
inline std::array<uint8_t, 64> hmac512(bytes key, const bytes& msg) {
	if(key.size() > 128) { auto h = sha512(key); key.assign(h.begin(), h.end()); }
	key.resize(128);
	bytes a(128), b(128);
	for(int i = 0; i < 128; ++i) { a[i] = key[i] ^ 0x36; b[i] = key[i] ^ 0x5c; }
	a.insert(a.end(), msg.begin(), msg.end());
	auto i = sha512(a);
	b.insert(b.end(), i.begin(), i.end());
	return sha512(b);
}
// memory-hard hash of the plot format, restated from its description
inline uint32_t rol(uint32_t x, int n) { n &= 31; return n ? (x << n) | (x >> (32 - n)) : x; }
} // ref
#endif
