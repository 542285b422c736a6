// Shared by all harnesses: seeded random numbers, violation reporting, coverage report.
#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_

#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <memory>
#include <mutex>
#include <unistd.h>
#include <fcntl.h>

namespace verif {

struct Rng {
	uint64_t s[2];
	explicit Rng(uint64_t seed = 1) { s[0] = mix(seed); s[1] = mix(s[0] ^ 0x9E3779B97F4A7C15ull); if(!s[0] && !s[1]) s[0] = 1; }
	static uint64_t mix(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
	uint64_t next() { uint64_t a = s[0]; const uint64_t b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s[1] + b; }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
	bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
	template<typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
	void fill(void* p, size_t n) { auto* q = (uint8_t*)p; for(size_t i = 0; i < n; ++i) q[i] = uint8_t(next() >> 11); }
	std::vector<uint8_t> bytes(size_t n) { std::vector<uint8_t> r(n); fill(r.data(), n); return r; }
	// integers of all magnitudes
	uint64_t any64() {
		switch(below(6)) {
			case 0: return below(4);
			case 1: return below(256);
			case 2: return next() >> below(64);
			case 3: return uint64_t(0) - below(4);
			case 4: return (uint64_t(1) << below(64)) + below(3) - 1;
			default: return next();
		}
	}
};

inline std::string jstr(const std::string& s) {
	std::string r = "\"";
	for(unsigned char c : s) {
		if(c == '"' || c == '\\') { r += '\\'; r += c; }
		else if(c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}
inline std::string hex(const void* p, size_t n) { std::string r; char b[3]; for(size_t i = 0; i < n; ++i) { snprintf(b, 3, "%02x", ((const uint8_t*)p)[i]); r += b; } return r; }
inline std::string hex(const std::vector<uint8_t>& v) { return hex(v.data(), v.size()); }

// One check run: options from the command line, result as JSON in --out.
struct Check {
	std::string out, tier = "quick", scratch, repo = "/repo", replay;
	uint64_t seed = 1;
	std::vector<std::string> args;
	uint64_t evaluations = 0;
	std::set<uint64_t> distinct;			// hashes of distinct non-trivial cases
	uint64_t distinct_extra = 0;
	std::map<std::string, uint64_t> counts;	// measured counters
	std::vector<std::string> samples;
	struct viol_t { std::string key, what, detail; };
	std::vector<viol_t> violations;
	std::set<std::string> viol_keys;
	std::string current;					// description of the case being run (for crashes)
	std::recursive_mutex mutex;

	static Check*& instance() { static Check* p = nullptr; return p; }

	Check(int argc, char** argv) {
		instance() = this;
		for(int i = 1; i < argc; ++i) {
			const std::string a = argv[i];
			auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
			if(a == "--out") out = val();
			else if(a == "--tier") tier = val();
			else if(a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
			else if(a == "--scratch") scratch = val();
			else if(a == "--repo") repo = val();
			else if(a == "--replay") replay = val();
			else args.push_back(a);
		}
	}
	bool thorough() const { return tier == "thorough"; }
	// number of cases: quick / thorough
	uint64_t n(uint64_t quick, uint64_t deep) const { return thorough() ? deep : quick; }
	bool has(const std::string& a) const { return std::find(args.begin(), args.end(), a) != args.end(); }
	Rng rng(uint64_t stream) const { return Rng(seed * 1000003 + stream); }

	void count(const std::string& k, uint64_t n = 1) { std::lock_guard<std::recursive_mutex> lock(mutex); counts[k] += n; }
	void max(const std::string& k, uint64_t v) { std::lock_guard<std::recursive_mutex> lock(mutex); if(v > counts[k]) counts[k] = v; }
	void sample(const std::string& s, size_t limit = 6) { std::lock_guard<std::recursive_mutex> lock(mutex); if(samples.size() < limit) samples.push_back(s.substr(0, 600)); }
	void nontrivial(uint64_t h) { std::lock_guard<std::recursive_mutex> lock(mutex); distinct.insert(h); }
	void nontrivial(const std::string& s) { nontrivial(std::hash<std::string>()(s)); }
	void eval(uint64_t n = 1) { std::lock_guard<std::recursive_mutex> lock(mutex); evaluations += n; }

	// key: stable identification of what fails (matched against the known findings)
	void violation(const std::string& key, const std::string& what, const std::string& detail = "") {
		std::lock_guard<std::recursive_mutex> lock(mutex);
		counts["violations_seen"]++;
		if(viol_keys.insert(key).second && violations.size() < 50) {
			violations.push_back({key, what, detail});
			fprintf(stderr, "violation %s: %s\n", key.c_str(), what.c_str());
		}
	}
	bool check(bool ok, const std::string& key, const std::function<std::string()>& what) {
		if(!ok) violation(key, what());
		return ok;
	}
	int finish() {
		std::ostringstream s;
		s << "{\"evaluations\": " << evaluations << ", \"distinct_nontrivial\": " << (distinct.size() + distinct_extra) << ", \"counts\": {";
		bool first = true;
		for(auto& e : counts) { s << (first ? "" : ", ") << jstr(e.first) << ": " << e.second; first = false; }
		s << "}, \"samples\": [";
		first = true;
		for(auto& e : samples) { s << (first ? "" : ", ") << jstr(e); first = false; }
		s << "], \"violations\": [";
		first = true;
		for(auto& v : violations) { s << (first ? "" : ", ") << "{\"key\": " << jstr(v.key) << ", \"what\": " << jstr(v.what) << ", \"detail\": " << jstr(v.detail) << "}"; first = false; }
		s << "]}\n";
		if(out.empty()) std::cout << s.str();
		else { std::ofstream f(out); f << s.str(); }
		return violations.empty() ? 0 : 1;
	}
	// progress marker, so that a crash can be attributed to a case
	void mark(const std::string& what) {
		std::lock_guard<std::recursive_mutex> lock(mutex);
		current = what;
		if(!out.empty()) {
			static int fd = -1;
			if(fd < 0) { fd = open_mark((out + ".mark").c_str()); }
			if(fd >= 0) { if(::ftruncate(fd, 0) == 0) { ssize_t r = ::pwrite(fd, what.data(), std::min<size_t>(what.size(), 65536), 0); (void)r; } }
		}
	}
	static int open_mark(const char* p) { return ::open(p, O_RDWR | O_CREAT | O_TRUNC, 0644); }
};

} // verif
#endif
