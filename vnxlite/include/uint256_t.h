// Stand-in for calccrypto uint256_t (the submodule is absent from the pinned tree).
#ifndef VNXLITE_UINT256_T_H_
#define VNXLITE_UINT256_T_H_

#include "uint128_t.h"

class uint256_t {
public:
	uint256_t() = default;
	uint256_t(const uint256_t&) = default;
	uint256_t(uint256_t&&) = default;
	uint256_t(const uint128_t& v) : LOWER(v) {}
	uint256_t(const uint128_t& upper, const uint128_t& lower) : LOWER(lower), UPPER(upper) {}

	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
	uint256_t(const T& v) : LOWER(v), UPPER(std::is_signed<T>::value && v < T(0) ? uint128_max : uint128_0) {}

	template<typename S, typename T, typename = typename std::enable_if<std::is_integral<S>::value && std::is_integral<T>::value>::type>
	uint256_t(const S& upper, const T& lower) : LOWER(lower), UPPER(upper) {}

	template<typename R, typename S, typename T, typename U, typename = typename std::enable_if<std::is_integral<R>::value && std::is_integral<S>::value && std::is_integral<T>::value && std::is_integral<U>::value>::type>
	uint256_t(const R& a, const S& b, const T& c, const U& d) : LOWER(c, d), UPPER(a, b) {}

	uint256_t(const std::string& s, uint8_t base) { init(s, base); }
	uint256_t(const char* s, uint8_t base) { init(s, base); }

	uint256_t& operator=(const uint256_t&) = default;
	uint256_t& operator=(uint256_t&&) = default;
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
	uint256_t& operator=(const T& v) { *this = uint256_t(v); return *this; }
	uint256_t& operator=(const uint128_t& v) { UPPER = 0; LOWER = v; return *this; }

	operator bool() const { return bool(UPPER) || bool(LOWER); }
	operator uint8_t() const { return uint8_t(LOWER); }
	operator uint16_t() const { return uint16_t(LOWER); }
	operator uint32_t() const { return uint32_t(LOWER); }
	operator uint64_t() const { return uint64_t(LOWER); }
	explicit operator int32_t() const { return uint64_t(LOWER); }
	explicit operator int64_t() const { return uint64_t(LOWER); }
	operator uint128_t() const { return LOWER; }

	const uint128_t& upper() const { return UPPER; }
	const uint128_t& lower() const { return LOWER; }

	uint16_t bits() const { return UPPER ? 128 + UPPER.bits() : LOWER.bits(); }

	std::string str(uint8_t base = 10, const unsigned int& len = 0) const {
		if(base < 2 || base > 36) throw std::invalid_argument("Base must be in the range 2-36");
		std::string out;
		uint256_t v = *this;
		if(!v) out = "0";
		while(v) {
			uint32_t rem = v.div_small(base);
			out += "0123456789abcdefghijklmnopqrstuvwxyz"[rem];
		}
		while(out.size() < len) out += '0';
		std::reverse(out.begin(), out.end());
		return out;
	}

	uint256_t operator+(const uint256_t& b) const {
		uint256_t r;
		r.LOWER = LOWER + b.LOWER;
		r.UPPER = UPPER + b.UPPER + (r.LOWER < LOWER ? 1 : 0);
		return r;
	}
	uint256_t operator-(const uint256_t& b) const {
		uint256_t r;
		r.LOWER = LOWER - b.LOWER;
		r.UPPER = UPPER - b.UPPER - (LOWER < b.LOWER ? 1 : 0);
		return r;
	}
	uint256_t operator*(const uint256_t& o) const {
		uint64_t a[4], b[4], r[4] = {};
		limbs(a); o.limbs(b);
		for(int i = 0; i < 4; ++i) {
			uint64_t carry = 0;
			for(int j = 0; i + j < 4; ++j) {
				const unsigned __int128 t = (unsigned __int128)a[i] * b[j] + r[i+j] + carry;
				r[i+j] = uint64_t(t);
				carry = uint64_t(t >> 64);
			}
		}
		return uint256_t(r[3], r[2], r[1], r[0]);
	}
	static std::pair<uint256_t, uint256_t> divmod(const uint256_t& lhs, const uint256_t& rhs) {
		if(!rhs) throw std::domain_error("Error: division or modulus by 0");
		if(lhs < rhs) return {uint256_t(), lhs};
		if(!lhs.UPPER && !rhs.UPPER) {
			return {uint256_t(lhs.LOWER / rhs.LOWER), uint256_t(lhs.LOWER % rhs.LOWER)};
		}
		uint256_t q, r;
		for(int i = int(lhs.bits()) - 1; i >= 0; --i) {
			const bool ovf = bool(r.UPPER >> 127);
			r = r << 1;
			if(lhs.bit(i)) r.LOWER |= 1;
			if(ovf || r >= rhs) { r = r - rhs; q.set_bit(i); }
		}
		return {q, r};
	}
	uint256_t operator/(const uint256_t& b) const { return divmod(*this, b).first; }
	uint256_t operator%(const uint256_t& b) const { return divmod(*this, b).second; }
	uint256_t operator&(const uint256_t& b) const { return uint256_t(UPPER & b.UPPER, LOWER & b.LOWER); }
	uint256_t operator|(const uint256_t& b) const { return uint256_t(UPPER | b.UPPER, LOWER | b.LOWER); }
	uint256_t operator^(const uint256_t& b) const { return uint256_t(UPPER ^ b.UPPER, LOWER ^ b.LOWER); }
	uint256_t operator<<(const uint256_t& s) const {
		if(s.UPPER || s.LOWER >= 256) return uint256_t();
		const unsigned n = uint32_t(s.LOWER);
		if(n == 0) return *this;
		if(n >= 128) return uint256_t(LOWER << (n - 128), uint128_0);
		return uint256_t((UPPER << n) | (LOWER >> (128 - n)), LOWER << n);
	}
	uint256_t operator>>(const uint256_t& s) const {
		if(s.UPPER || s.LOWER >= 256) return uint256_t();
		const unsigned n = uint32_t(s.LOWER);
		if(n == 0) return *this;
		if(n >= 128) return uint256_t(uint128_0, UPPER >> (n - 128));
		return uint256_t(UPPER >> n, (LOWER >> n) | (UPPER << (128 - n)));
	}
	bool operator==(const uint256_t& b) const { return UPPER == b.UPPER && LOWER == b.LOWER; }
	bool operator!=(const uint256_t& b) const { return !(*this == b); }
	bool operator<(const uint256_t& b) const { return UPPER == b.UPPER ? LOWER < b.LOWER : UPPER < b.UPPER; }
	bool operator>(const uint256_t& b) const { return b < *this; }
	bool operator<=(const uint256_t& b) const { return !(b < *this); }
	bool operator>=(const uint256_t& b) const { return !(*this < b); }

#define VNXLITE_ENABLE typename = typename std::enable_if<std::is_integral<T>::value || std::is_same<T, uint128_t>::value>::type
#define VNXLITE_OP(op) \
	template<typename T, VNXLITE_ENABLE> uint256_t operator op(const T& b) const { return *this op uint256_t(b); } \
	uint256_t& operator op##=(const uint256_t& b) { *this = *this op b; return *this; } \
	template<typename T, VNXLITE_ENABLE> uint256_t& operator op##=(const T& b) { *this = *this op uint256_t(b); return *this; }
	VNXLITE_OP(+) VNXLITE_OP(-) VNXLITE_OP(*) VNXLITE_OP(/) VNXLITE_OP(%) VNXLITE_OP(&) VNXLITE_OP(|) VNXLITE_OP(^) VNXLITE_OP(<<) VNXLITE_OP(>>)
#undef VNXLITE_OP
#define VNXLITE_CMP(op) template<typename T, VNXLITE_ENABLE> bool operator op(const T& b) const { return *this op uint256_t(b); }
	VNXLITE_CMP(==) VNXLITE_CMP(!=) VNXLITE_CMP(<) VNXLITE_CMP(>) VNXLITE_CMP(<=) VNXLITE_CMP(>=)
#undef VNXLITE_CMP

	bool operator!() const { return !bool(*this); }
	template<typename T> bool operator&&(const T& b) const { return bool(*this) && bool(b); }
	template<typename T> bool operator||(const T& b) const { return bool(*this) || bool(b); }
	uint256_t operator~() const { return uint256_t(~UPPER, ~LOWER); }
	uint256_t operator-() const { return uint256_t() - *this; }
	uint256_t operator+() const { return *this; }
	uint256_t& operator++() { *this = *this + uint256_t(1); return *this; }
	uint256_t operator++(int) { auto t = *this; ++*this; return t; }
	uint256_t& operator--() { *this = *this - uint256_t(1); return *this; }
	uint256_t operator--(int) { auto t = *this; --*this; return t; }

private:
	void limbs(uint64_t* a) const { a[0] = LOWER.lower(); a[1] = LOWER.upper(); a[2] = UPPER.lower(); a[3] = UPPER.upper(); }
	bool bit(int i) const { return i < 128 ? bool((LOWER >> i) & 1) : bool((UPPER >> (i - 128)) & 1); }
	void set_bit(int i) { if(i < 128) LOWER |= (uint128_1 << i); else UPPER |= (uint128_1 << (i - 128)); }
	uint32_t div_small(uint32_t d) {
		uint64_t a[4];
		limbs(a);
		unsigned __int128 rem = 0;
		for(int i = 3; i >= 0; --i) {
			const unsigned __int128 t = (rem << 64) | a[i];
			a[i] = uint64_t(t / d);
			rem = t % d;
		}
		*this = uint256_t(a[3], a[2], a[1], a[0]);
		return uint32_t(rem);
	}
	void init(const std::string& s, uint8_t base) {
		uint256_t v;
		size_t i = 0;
		if(base == 16 && s.size() > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) i = 2;
		for(; i < s.size(); ++i) {
			const char c = s[i];
			int d = -1;
			if(c >= '0' && c <= '9') d = c - '0';
			else if(c >= 'a' && c <= 'z') d = c - 'a' + 10;
			else if(c >= 'A' && c <= 'Z') d = c - 'A' + 10;
			if(d < 0 || d >= base) break;
			v = v * uint256_t(base) + uint256_t(d);
		}
		*this = v;
	}

	uint128_t LOWER;
	uint128_t UPPER;
};

const uint256_t uint256_0 = uint256_t(0);
const uint256_t uint256_1 = uint256_t(1);
const uint256_t uint256_128 = uint256_t(128);
const uint256_t uint256_256 = uint256_t(256);
const uint256_t uint256_max = uint256_t(uint128_max, uint128_max);

#define VNXLITE_LHS(op, R) \
template<typename T, VNXLITE_ENABLE> inline R operator op(const T& a, const uint256_t& b) { return uint256_t(a) op b; }
VNXLITE_LHS(+, uint256_t) VNXLITE_LHS(-, uint256_t) VNXLITE_LHS(*, uint256_t) VNXLITE_LHS(/, uint256_t) VNXLITE_LHS(%, uint256_t)
VNXLITE_LHS(&, uint256_t) VNXLITE_LHS(|, uint256_t) VNXLITE_LHS(^, uint256_t)
VNXLITE_LHS(==, bool) VNXLITE_LHS(!=, bool) VNXLITE_LHS(<, bool) VNXLITE_LHS(>, bool) VNXLITE_LHS(<=, bool) VNXLITE_LHS(>=, bool)
#undef VNXLITE_LHS
#undef VNXLITE_ENABLE

inline std::ostream& operator<<(std::ostream& out, const uint256_t& v) {
	if(out.flags() & out.hex) return out << v.str(16);
	return out << v.str(10);
}

#endif
