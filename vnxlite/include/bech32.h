// Stand-in for libbech32 (submodule absent): BIP-173 / BIP-350.
#ifndef VNXLITE_BECH32_H_
#define VNXLITE_BECH32_H_
#include <string>
#include <vector>
#include <cstdint>
#include <stdexcept>
namespace bech32 {

enum Encoding { Invalid, Bech32, Bech32m };

struct DecodedResult {
	Encoding encoding = Invalid;
	std::string hrp;
	std::vector<unsigned char> dp;
};

static const char* const charset_ = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";

inline uint32_t polymod_(const std::vector<unsigned char>& v) {
	uint32_t c = 1;
	for(auto x : v) {
		const uint8_t c0 = c >> 25;
		c = ((c & 0x1ffffff) << 5) ^ x;
		if(c0 & 1) c ^= 0x3b6a57b2;
		if(c0 & 2) c ^= 0x26508e6d;
		if(c0 & 4) c ^= 0x1ea119fa;
		if(c0 & 8) c ^= 0x3d4233dd;
		if(c0 & 16) c ^= 0x2a1462b3;
	}
	return c;
}
inline std::vector<unsigned char> expand_(const std::string& hrp) {
	std::vector<unsigned char> out;
	for(unsigned char c : hrp) out.push_back(c >> 5);
	out.push_back(0);
	for(unsigned char c : hrp) out.push_back(c & 31);
	return out;
}
inline std::string encode(const std::string& hrp, const std::vector<unsigned char>& dp) {
	if(hrp.empty() || hrp.size() > 83) throw std::runtime_error("HRP must be at least one character");
	for(auto c : dp) if(c > 31) throw std::runtime_error("data value is out of range");
	auto v = expand_(hrp);
	v.insert(v.end(), dp.begin(), dp.end());
	v.resize(v.size() + 6);
	const uint32_t mod = polymod_(v) ^ 0x2bc830a3;
	std::string out = hrp + '1';
	for(auto c : dp) out += charset_[c];
	for(int i = 0; i < 6; ++i) out += charset_[(mod >> (5 * (5 - i))) & 31];
	return out;
}
inline DecodedResult decode(const std::string& str_) {
	DecodedResult res;
	if(str_.size() > 90) throw std::runtime_error("bech32 string too long");
	if(str_.size() < 8) throw std::runtime_error("bech32 string too short");
	bool lower = false, upper = false;
	std::string str;
	for(unsigned char c : str_) {
		if(c < 33 || c > 126) throw std::runtime_error("bech32 string value out of range");
		if(c >= 'a' && c <= 'z') lower = true;
		if(c >= 'A' && c <= 'Z') { upper = true; c = c - 'A' + 'a'; }
		str += char(c);
	}
	if(lower && upper) throw std::runtime_error("bech32 string is mixed case");
	const auto pos = str.rfind('1');
	if(pos == std::string::npos) throw std::runtime_error("bech32 string is missing separator character");
	if(pos == 0) throw std::runtime_error("HRP must be at least one character");
	if(pos + 7 > str.size()) throw std::runtime_error("bech32 data too short");
	const auto hrp = str.substr(0, pos);
	std::vector<unsigned char> dp;
	for(size_t i = pos + 1; i < str.size(); ++i) {
		int d = -1;
		for(int k = 0; k < 32; ++k) if(charset_[k] == str[i]) d = k;
		if(d < 0) throw std::runtime_error("bech32 data contains invalid character");
		dp.push_back(d);
	}
	auto v = expand_(hrp);
	v.insert(v.end(), dp.begin(), dp.end());
	const uint32_t mod = polymod_(v);
	if(mod == 1) res.encoding = Bech32;
	else if(mod == 0x2bc830a3) res.encoding = Bech32m;
	else return res;	// invalid checksum
	dp.resize(dp.size() - 6);
	res.hrp = hrp;
	res.dp = dp;
	return res;
}

} // bech32
#endif
