// Stand-in for calccrypto uint128_t (the submodule is absent from the pinned tree).
#ifndef VNXLITE_UINT128_T_H_
#define VNXLITE_UINT128_T_H_

#include <cstdint>
#include <cstddef>
#include <string>
#include <stdexcept>
#include <ostream>
#include <istream>
#include <type_traits>
#include <algorithm>
#include <utility>

class uint128_t {
public:
	typedef unsigned __int128 raw_t;

	uint128_t() = default;
	uint128_t(const uint128_t&) = default;
	uint128_t(uint128_t&&) = default;

	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
	uint128_t(const T& v) : LOWER(uint64_t(v)), UPPER(std::is_signed<T>::value && v < T(0) ? ~uint64_t(0) : 0) {}

	template<typename S, typename T, typename = typename std::enable_if<std::is_integral<S>::value && std::is_integral<T>::value>::type>
	uint128_t(const S& upper, const T& lower) : LOWER(uint64_t(lower)), UPPER(uint64_t(upper)) {}

	uint128_t(const std::string& s, uint8_t base) { init(s, base); }
	uint128_t(const char* s, uint8_t base) { init(s, base); }

	static uint128_t from_raw(raw_t v) { uint128_t r; r.LOWER = uint64_t(v); r.UPPER = uint64_t(v >> 64); return r; }
	raw_t raw() const { return (raw_t(UPPER) << 64) | LOWER; }

	uint128_t& operator=(const uint128_t&) = default;
	uint128_t& operator=(uint128_t&&) = default;

	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
	uint128_t& operator=(const T& v) { *this = uint128_t(v); return *this; }

	operator bool() const { return (UPPER | LOWER) != 0; }
	operator uint8_t() const { return LOWER; }
	operator uint16_t() const { return LOWER; }
	operator uint32_t() const { return LOWER; }
	operator uint64_t() const { return LOWER; }
	explicit operator int32_t() const { return LOWER; }
	explicit operator int64_t() const { return LOWER; }

	const uint64_t& upper() const { return UPPER; }
	const uint64_t& lower() const { return LOWER; }

	uint8_t bits() const {
		if(UPPER) return 128 - __builtin_clzll(UPPER);
		if(LOWER) return 64 - __builtin_clzll(LOWER);
		return 0;
	}
	std::string str(uint8_t base = 10, const unsigned int& len = 0) const {
		if(base < 2 || base > 16) throw std::invalid_argument("Base must be in the range [2, 16]");
		std::string out;
		raw_t v = raw();
		if(!v) out = "0";
		while(v) { out += "0123456789abcdef"[size_t(v % base)]; v /= base; }
		while(out.size() < len) out += '0';
		std::reverse(out.begin(), out.end());
		return out;
	}

#define VNXLITE_OP(op) \
	uint128_t operator op(const uint128_t& b) const { return from_raw(raw() op b.raw()); } \
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> \
	uint128_t operator op(const T& b) const { return from_raw(raw() op uint128_t(b).raw()); } \
	uint128_t& operator op##=(const uint128_t& b) { *this = *this op b; return *this; } \
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> \
	uint128_t& operator op##=(const T& b) { *this = *this op b; return *this; }
	VNXLITE_OP(+) VNXLITE_OP(-) VNXLITE_OP(*) VNXLITE_OP(&) VNXLITE_OP(|) VNXLITE_OP(^)
#undef VNXLITE_OP
#define VNXLITE_DIV(op) \
	uint128_t operator op(const uint128_t& b) const { if(!b) throw std::domain_error("Error: division or modulus by 0"); return from_raw(raw() op b.raw()); } \
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> \
	uint128_t operator op(const T& b) const { return *this op uint128_t(b); } \
	uint128_t& operator op##=(const uint128_t& b) { *this = *this op b; return *this; } \
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> \
	uint128_t& operator op##=(const T& b) { *this = *this op b; return *this; }
	VNXLITE_DIV(/) VNXLITE_DIV(%)
#undef VNXLITE_DIV
#define VNXLITE_CMP(op) \
	bool operator op(const uint128_t& b) const { return raw() op b.raw(); } \
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> \
	bool operator op(const T& b) const { return raw() op uint128_t(b).raw(); }
	VNXLITE_CMP(==) VNXLITE_CMP(!=) VNXLITE_CMP(<) VNXLITE_CMP(>) VNXLITE_CMP(<=) VNXLITE_CMP(>=)
#undef VNXLITE_CMP

	uint128_t operator<<(const uint128_t& s) const { return (s.UPPER || s.LOWER >= 128) ? uint128_t() : from_raw(raw() << s.LOWER); }
	uint128_t operator>>(const uint128_t& s) const { return (s.UPPER || s.LOWER >= 128) ? uint128_t() : from_raw(raw() >> s.LOWER); }
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
	uint128_t operator<<(const T& s) const { return *this << uint128_t(s); }
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
	uint128_t operator>>(const T& s) const { return *this >> uint128_t(s); }
	template<typename T> uint128_t& operator<<=(const T& s) { *this = *this << s; return *this; }
	template<typename T> uint128_t& operator>>=(const T& s) { *this = *this >> s; return *this; }

	bool operator!() const { return !(UPPER | LOWER); }
	bool operator&&(const uint128_t& b) const { return bool(*this) && bool(b); }
	bool operator||(const uint128_t& b) const { return bool(*this) || bool(b); }
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
	bool operator&&(const T& b) const { return bool(*this) && b; }
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
	bool operator||(const T& b) const { return bool(*this) || b; }
	uint128_t operator~() const { return from_raw(~raw()); }
	uint128_t operator-() const { return from_raw(-raw()); }
	uint128_t operator+() const { return *this; }
	uint128_t& operator++() { *this = from_raw(raw() + 1); return *this; }
	uint128_t operator++(int) { auto t = *this; ++*this; return t; }
	uint128_t& operator--() { *this = from_raw(raw() - 1); return *this; }
	uint128_t operator--(int) { auto t = *this; --*this; return t; }

protected:
	void init(const std::string& s, uint8_t base) {
		// like the original: parses leading digits, wraps on overflow
		raw_t v = 0;
		size_t i = 0;
		while(i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) ++i;
		if(base == 16 && s.size() > i + 2 && s[i] == '0' && (s[i+1] == 'x' || s[i+1] == 'X')) i += 2;
		for(; i < s.size(); ++i) {
			const char c = s[i];
			int d = -1;
			if(c >= '0' && c <= '9') d = c - '0';
			else if(c >= 'a' && c <= 'z') d = c - 'a' + 10;
			else if(c >= 'A' && c <= 'Z') d = c - 'A' + 10;
			if(d < 0 || d >= base) break;
			v = v * base + d;
		}
		*this = from_raw(v);
	}

private:
	uint64_t LOWER = 0;
	uint64_t UPPER = 0;
};

const uint128_t uint128_0 = uint128_t(0);
const uint128_t uint128_1 = uint128_t(1);
const uint128_t uint128_64 = uint128_t(64);
const uint128_t uint128_128 = uint128_t(128);
const uint128_t uint128_max = uint128_t(~uint64_t(0), ~uint64_t(0));

#define VNXLITE_LHS(op, R) \
template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> \
inline R operator op(const T& a, const uint128_t& b) { return uint128_t(a) op b; }
VNXLITE_LHS(+, uint128_t) VNXLITE_LHS(-, uint128_t) VNXLITE_LHS(*, uint128_t) VNXLITE_LHS(/, uint128_t) VNXLITE_LHS(%, uint128_t)
VNXLITE_LHS(&, uint128_t) VNXLITE_LHS(|, uint128_t) VNXLITE_LHS(^, uint128_t)
VNXLITE_LHS(==, bool) VNXLITE_LHS(!=, bool) VNXLITE_LHS(<, bool) VNXLITE_LHS(>, bool) VNXLITE_LHS(<=, bool) VNXLITE_LHS(>=, bool)
#undef VNXLITE_LHS

inline std::ostream& operator<<(std::ostream& out, const uint128_t& v) {
	if(out.flags() & out.hex) return out << v.str(16);
	return out << v.str(10);
}

template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
inline T& operator +=(T& lhs, const uint128_t& rhs) { return lhs = T(uint64_t(uint128_t(lhs) + rhs)); }
template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
inline T& operator -=(T& lhs, const uint128_t& rhs) { return lhs = T(uint64_t(uint128_t(lhs) - rhs)); }
template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
inline T& operator *=(T& lhs, const uint128_t& rhs) { return lhs = T(uint64_t(uint128_t(lhs) * rhs)); }
template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
inline T& operator /=(T& lhs, const uint128_t& rhs) { return lhs = T(uint64_t(uint128_t(lhs) / rhs)); }
template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
inline T& operator %=(T& lhs, const uint128_t& rhs) { return lhs = T(uint64_t(uint128_t(lhs) % rhs)); }
template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
inline T& operator &=(T& lhs, const uint128_t& rhs) { return lhs = T(uint64_t(uint128_t(lhs) & rhs)); }
template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
inline T& operator |=(T& lhs, const uint128_t& rhs) { return lhs = T(uint64_t(uint128_t(lhs) | rhs)); }
template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
inline T& operator ^=(T& lhs, const uint128_t& rhs) { return lhs = T(uint64_t(uint128_t(lhs) ^ rhs)); }
#endif
