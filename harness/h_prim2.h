// Included by h_prim.cpp: addresses, keys and signatures, seed phrases and wallet keys, amounts, consensus arithmetic.
#include <boost/multiprecision/cpp_int.hpp>
#include <mmx/contract/PubKey.hxx>
#include <mmx/contract/MultiSig.hxx>
#include <mmx/solution/MultiSig.hxx>
#include <mmx/BlockHeader.hxx>
#include <mmx/ProofOfSpaceOG.hxx>
#include <mmx/ProofOfSpaceNFT.hxx>
#include <mmx/account_t.hxx>
#include <mmx/spend_options_t.hxx>
#include <atomic>

typedef boost::multiprecision::cpp_int big;

static big to_big(const uint128_t& v) { return (big(uint64_t(v.upper())) << 64) + big(uint64_t(v.lower())); }
static uint128_t from_big(const big& v) { return uint128_t(uint64_t(v >> 64), uint64_t(v & big(~uint64_t(0)))); }
static const big B128 = big(1) << 128;
static std::string str(const big& b) { std::ostringstream s; s << b; return s.str(); }
template<typename F> static bool throws(F f) { try { f(); } catch(const std::exception&) { return true; } return false; }

// ------------------------------------------------------------------------------------------- P05 addresses
namespace refaddr {
static const char* CS = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
static uint32_t polymod(const std::vector<uint8_t>& v) {
	static const uint32_t G[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3};
	uint32_t chk = 1;
	for(auto x : v) { const uint8_t top = chk >> 25; chk = (chk & 0x1ffffff) << 5 ^ x; for(int i = 0; i < 5; ++i) if((top >> i) & 1) chk ^= G[i]; }
	return chk;
}
static std::string encode(const std::string& hrp, const std::vector<uint8_t>& dp, uint32_t konst) {
	std::vector<uint8_t> v;
	for(char ch : hrp) v.push_back(ch >> 5);
	v.push_back(0);
	for(char ch : hrp) v.push_back(ch & 31);
	v.insert(v.end(), dp.begin(), dp.end());
	auto w = v; w.resize(w.size() + 6);
	const uint32_t pm = polymod(w) ^ konst;
	std::string s = hrp + "1";
	for(auto d : dp) s += CS[d];
	for(int i = 0; i < 6; ++i) s += CS[(pm >> (5 * (5 - i))) & 31];
	return s;
}
// 256-bit big endian bit string of the little endian number, in groups of five, padded with zero bits
static std::vector<uint8_t> groups(const uint8_t* le) {
	std::vector<int> bits;
	for(int i = 31; i >= 0; --i) for(int b = 7; b >= 0; --b) bits.push_back((le[i] >> b) & 1);
	while(bits.size() % 5) bits.push_back(0);
	std::vector<uint8_t> r;
	for(size_t i = 0; i < bits.size(); i += 5) { int x = 0; for(int k = 0; k < 5; ++k) x = x * 2 + bits[i + k]; r.push_back(x); }
	return r;
}
}

static void run_addr(verif::Check& c)
{
	auto rng = c.rng(5);
	auto accepts = [](const std::string& s) { try { addr_t a; a.from_string(s); return true; } catch(const std::exception&) { return false; } };
	for(uint64_t k = 0; k < c.n(3000, 60000); ++k) {
		auto raw = rng.bytes(32);
		if(k < 256) { std::fill(raw.begin(), raw.end(), 0); raw[k / 8] = 1 << (k % 8); }
		else if(k < 300) { std::fill(raw.begin(), raw.end(), k % 2 ? 0xff : 0); raw[rng.below(32)] = rng.next(); }
		const addr_t a(hash_t::from_bytes(raw));
		c.mark("address " + verif::hex(raw));
		const auto s = a.to_string();
		const auto ex = refaddr::encode("mmx", refaddr::groups(raw.data()), 0x2bc830a3);
		c.eval(); c.nontrivial(s);
		c.check(s == ex, "addr-encode", [&]{ return "to_string() = " + s + ", bech32m is " + ex; });
		addr_t b;
		try { b.from_string(ex); } catch(const std::exception& e) { c.violation("addr-decode-throws", std::string("from_string(") + ex + ") throws " + e.what()); continue; }
		c.check(b == a, "addr-roundtrip", [&]{ return "from_string(to_string()) differs for " + s; });
		c.check(addr_t(ex) == a, "addr-ctor", [&]{ return "addr_t(string) differs for " + s; });
		// any substitution of one character is refused; random multi-character errors too
		for(int m = 0; m < 12; ++m) {
			auto t = s;
			const auto i = rng.below(t.size());
			std::string what;
			switch(m % 6) {
				case 0: case 1: t[i] = refaddr::CS[rng.below(32)]; what = "substitution"; break;
				case 2: { const auto j = rng.below(t.size()); t[i] = refaddr::CS[rng.below(32)]; t[j] = refaddr::CS[rng.below(32)]; what = "two substitutions"; break; }
				case 3: if(i + 1 < t.size()) std::swap(t[i], t[i + 1]); what = "transposition"; break;
				case 4: t.erase(i, 1); what = "deletion"; break;
				case 5: t.insert(i, 1, refaddr::CS[rng.below(32)]); what = "insertion"; break;
			}
			if(t == s) continue;
			c.count("corrupted"); c.eval();
			c.mark("corrupted address " + t);
			c.check(!accepts(t), "addr-corrupt-" + what, [&]{ return "address with a " + what + " is accepted: " + t; });
		}
		// another checksum variant, another prefix, another length
		if(k % 10 == 0) {
			const auto dp = refaddr::groups(raw.data());
			c.check(!accepts(refaddr::encode("mmx", dp, 1)), "addr-bech32", []{ return "plain bech32 checksum accepted"; });
			auto d2 = dp; d2.pop_back();
			c.check(!accepts(refaddr::encode("mmx", d2, 0x2bc830a3)), "addr-short", []{ return "51 symbols accepted"; });
			d2 = dp; d2.push_back(0);
			c.check(!accepts(refaddr::encode("mmx", d2, 0x2bc830a3)), "addr-long", []{ return "53 symbols accepted"; });
			c.count("wrong_format", 3);
			std::string junk; for(size_t i = rng.below(100); i > 0; --i) junk += char(rng.below(256));
			c.mark("junk address");
			c.check(!accepts(junk) || junk == "MMX", "addr-junk", [&]{ return "junk accepted: " + verif::hex(junk.data(), junk.size()); });
			// as a value in serialized form: string, bytes and variant
			std::stringstream ss;
			vnx::write(ss, a);
			addr_t d;
			vnx::read(ss, d);
			c.check(d == a, "addr-json", [&]{ return "JSON round trip differs for " + s; });
			c.check(vnx::Variant(s).to<addr_t>() == a, "addr-variant-string", [&]{ return "address from a string variant differs: " + s; });
			c.check(vnx::Variant(a).to<addr_t>() == a, "addr-variant", [&]{ return "address from a variant differs: " + s; });
			c.check(hash_t(hash_t::super_t(a.hash_t::super_t::to_string())) == hash_t(a) || hash_t::from_bytes(bytes_t<32>(a.bytes_t<32>::to_string()).bytes) == hash_t(a), "hex-roundtrip", []{ return "hex round trip differs"; });
		}
	}
	c.check(addr_t(std::string("MMX")) == addr_t(), "addr-MMX", []{ return "\"MMX\" is not the native currency"; });
	c.sample("single-bit and random hashes against an independent bech32m encoder; substitutions, transpositions, insertions, deletions, wrong checksum constant and lengths refused");
}

// ------------------------------------------------------------------------------------------- P06 signatures
static void run_sig(verif::Check& c)
{
	auto rng = c.rng(6);
	struct kp { skey_t s; pubkey_t p; };
	std::vector<kp> keys;
	for(int i = 0; i < 24; ++i) { auto b = rng.bytes(32); b[31] &= 0x7f; b[0] |= 1; b[0] &= 0x7f; kp k; k.s = skey_t(hash_t::from_bytes(b)); k.p = pubkey_t(k.s); keys.push_back(k); }
	auto verify = [](const signature_t& s, const pubkey_t& p, const hash_t& h) { try { return s.verify(p, h); } catch(const std::exception&) { return false; } };

	struct sig_t { int key; hash_t msg; signature_t sig; };
	std::vector<sig_t> sigs;
	for(uint64_t k = 0; k < c.n(1500, 30000); ++k) {
		sig_t e;
		e.key = rng.below(keys.size());
		e.msg = hash_t::from_bytes(rng.bytes(32));
		if(k % 40 == 0) e.msg = hash_t::from_bytes(std::vector<uint8_t>(32, k % 80 ? 0xFF : 1));
		c.mark("sign");
		e.sig = signature_t::sign(keys[e.key].s, e.msg);
		c.eval(); c.nontrivial(e.sig.to_string());
		const bool warm = rng.chance(1, 2);
		if(warm) c.check(verify(e.sig, keys[e.key].p, e.msg), "sig-own", []{ return "own signature refused"; });
		// forgeries, with the genuine signature in the cache or not; also after a genuine verification again
		for(int m = 0; m < 7; ++m) {
			auto s = e.sig; auto p = keys[e.key].p; auto h = e.msg;
			std::string what;
			switch(m) {
				case 0: s[rng.below(64)] ^= 1 << rng.below(8); what = "signature bit"; break;
				case 1: h[rng.below(32)] ^= 1 << rng.below(8); what = "message bit"; break;
				case 2: p = keys[(e.key + 1 + rng.below(keys.size() - 1)) % keys.size()].p; what = "other key"; break;
				case 3: p[1 + rng.below(32)] ^= 1 << rng.below(8); what = "key bit"; break;
				case 4: p[0] ^= 1; what = "key parity"; break;
				case 5: { if(sigs.empty()) continue; const auto& o = rng.pick(sigs); if(o.msg == h) continue; s = o.sig; } what = "signature of another message"; break;
				case 6: s = signature_t(); what = "zero signature"; break;
			}
			c.count("forgeries"); c.eval();
			c.mark("verify forged: " + what);
			c.check(!verify(s, p, h), "sig-forged-" + what, [&]{ return "forged signature accepted (" + what + "), genuine one cached: " + std::to_string(warm); });
		}
		c.check(verify(e.sig, keys[e.key].p, e.msg), "sig-own", []{ return "own signature refused"; });
		c.check(verify(e.sig, keys[e.key].p, e.msg), "sig-own", []{ return "own signature refused the second time"; });
		c.check(e.sig.normalized() == e.sig, "sig-normal", []{ return "sign() gives a signature that is not normalized"; });
		// s -> n - s is a different encoding of the same signature and must not verify
		{
			static const char* N = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";
			big n("0x" + std::string(N)), s = 0;
			for(int i = 0; i < 32; ++i) s = s * 256 + e.sig[32 + i];
			s = n - s;
			auto t = e.sig;
			for(int i = 31; i >= 0; --i) { t[32 + i] = uint8_t(s & 0xff); s >>= 8; }
			c.count("high_s"); c.mark("verify high s");
			c.check(!verify(t, keys[e.key].p, e.msg), "sig-malleable", []{ return "the (n - s) twin of a signature is accepted"; });
			c.check(t.normalized() == e.sig, "sig-normalize", []{ return "normalized() does not give the low-s form"; });
		}
		sigs.push_back(e);
		const auto addr = keys[e.key].p.get_addr();
		const auto ex = ref::sha256(keys[e.key].p.data(), 33);
		c.check(memcmp(addr.data(), ex.data(), 32) == 0, "pubkey-addr", []{ return "address is not the SHA-256 of the public key"; });
	}
	// many threads, one cache: same answers
	{
		std::atomic<uint64_t> n{0}, bad{0};
		std::vector<std::thread> th;
		const auto N = c.n(150, 1500);
		for(int t = 0; t < 8; ++t) th.emplace_back([&, t]() {
			Rng r(c.seed * 77 + t);
			for(uint64_t i = 0; i < N; ++i) {
				const auto& e = sigs[r.below(std::min<size_t>(sigs.size(), 40))];
				auto h = e.msg;
				const bool forged = r.chance(1, 2);
				if(forged) h[r.below(32)] ^= 1;
				if(verify(e.sig, keys[e.key].p, h) == forged) bad++;
				n++;
			}
		});
		for(auto& t : th) t.join();
		c.eval(n); c.count("threaded_verifications", n);
		c.check(bad == 0, "sig-threads", [&]{ return std::to_string(bad.load()) + " wrong answers with 8 threads"; });
	}
	// who may spend: contract::PubKey and contract::MultiSig
	for(uint64_t k = 0; k < c.n(400, 6000); ++k) {
		const auto txid = hash_t::from_bytes(rng.bytes(32));
		auto make = [&](int key, const hash_t& msg) { auto s = solution::PubKey::create(); s->pubkey = keys[key].p; s->signature = signature_t::sign(keys[key].s, msg); return s; };
		const uint32_t ver = rng.below(2);
		if(k % 4 == 0) {
			auto con = contract::PubKey::create();
			const int owner = rng.below(keys.size());
			con->address = keys[owner].p.get_addr();
			const int signer = rng.chance(1, 2) ? owner : rng.below(keys.size());
			const bool right = rng.chance(2, 3);
			auto msg = txid; if(!right) msg[3] ^= 4;
			std::shared_ptr<const Solution> sol = make(signer, msg);
			if(rng.chance(1, 20)) sol = nullptr;
			else if(rng.chance(1, 20)) sol = solution::MultiSig::create();
			const bool ok = sol && std::dynamic_pointer_cast<const solution::PubKey>(sol) && signer == owner && right;
			c.eval(); c.count("pubkey_contracts");
			c.mark("contract::PubKey::validate");
			c.check(throws([&]{ con->validate(sol, txid, ver); }) == !ok, "pubkey-validate", [&]{ return std::string("contract::PubKey ") + (ok ? "refuses the owner" : "accepts a solution which is not the owner's"); });
			continue;
		}
		auto con = contract::MultiSig::create();
		const int num = 1 + rng.below(5);
		std::vector<int> ow;
		while((int)ow.size() < num) { int x = rng.below(keys.size()); if(std::find(ow.begin(), ow.end(), x) == ow.end()) ow.push_back(x); }
		for(int x : ow) con->owners.insert(keys[x].p.get_addr());
		con->num_required = 1 + rng.below(num);
		if(rng.chance(1, 4)) {
			// a single signature is enough iff one is required
			const int signer = rng.chance(2, 3) ? rng.pick(ow) : (int)rng.below(keys.size());
			const bool right = rng.chance(3, 4);
			auto msg = txid; if(!right) msg[0] ^= 1;
			auto sol = make(signer, msg);
			const bool ok = con->num_required == 1 && right && std::find(ow.begin(), ow.end(), signer) != ow.end();
			c.eval(); c.count("multisig_single");
			c.mark("contract::MultiSig::validate single");
			c.check(throws([&]{ con->validate(sol, txid, ver); }) == !ok, ok ? "multisig-single-refused" : "multisig-single-accepted", [&]{ return "MultiSig " + std::to_string(con->num_required) + " of " + std::to_string(num) + " with one signature"; });
			continue;
		}
		auto sol = solution::MultiSig::create();
		sol->num_required = rng.chance(5, 6) ? con->num_required : rng.below(6);
		uint32_t good = 0; bool bad = false, foreign = false, wrong_type = false;
		for(int x : ow) {
			if(rng.chance(1, 3)) continue;
			const int how = rng.below(16);
			const auto a = keys[x].p.get_addr();
			if(how == 0) { auto msg = txid; msg[9] ^= 2; sol->solutions[a] = make(x, msg); bad = true; }						// other message
			else if(how == 1) { sol->solutions[a] = make((x + 1) % keys.size(), txid); bad = true; }								// signed by someone else
			else if(how == 2) { auto s = make((x + 1) % keys.size(), txid); s->pubkey = keys[x].p; sol->solutions[a] = s; bad = true; }	// someone else's signature under the owner's key
			else if(how == 3) { sol->solutions[a] = solution::MultiSig::create(); wrong_type = true; }
			else { sol->solutions[a] = make(x, txid); good++; }
		}
		if(rng.chance(1, 3)) {	// signatures of people who are not owners never count
			for(int t = 0; t < 1 + (int)rng.below(3); ++t) { const int x = rng.below(keys.size()); if(std::find(ow.begin(), ow.end(), x) == ow.end()) { sol->solutions[keys[x].p.get_addr()] = make(x, txid); foreign = true; } }
		}
		bool ok = good >= (uint32_t)con->num_required && !bad;
		if(ver >= 1 && (foreign || wrong_type || sol->num_required != con->num_required)) ok = false;
		c.eval(); c.count(ok ? "multisig_valid" : "multisig_invalid"); c.nontrivial(Rng::mix(good * 100 + num * 10 + con->num_required + bad * 1000 + foreign * 2000 + ver * 4000 + wrong_type * 8000 + sol->num_required * 16000));
		c.mark("contract::MultiSig::validate");
		c.check(throws([&]{ con->validate(sol, txid, ver); }) == !ok, ok ? "multisig-refused" : "multisig-accepted", [&]{
			return "MultiSig " + std::to_string(con->num_required) + " of " + std::to_string(num) + " with " + std::to_string(good) + " good signatures, bad=" + std::to_string(bad) + " foreign=" + std::to_string(foreign) + " wrong type=" + std::to_string(wrong_type) + " tx version " + std::to_string(ver) + (ok ? " is refused" : " is accepted"); });
	}
	c.sample("signatures by 24 keys, seven kinds of forgery each with a warm or cold cache, (n-s) twins, 8 threads sharing the cache; PubKey and k-of-n MultiSig contracts");
}

// ------------------------------------------------------------------------------------------- P07 seed phrases, wallet keys
static void run_seed(verif::Check& c)
{
	auto rng = c.rng(7);
	const auto& wl = mnemonic::wordlist_en;
	c.check(wl.size() == 2048 && std::set<std::string>(wl.begin(), wl.end()).size() == 2048 && std::is_sorted(wl.begin(), wl.end()), "wordlist", []{ return "word list is not 2048 distinct sorted words"; });
	{
		std::string all; for(auto& w : wl) { all += w; all += '\n'; }
		const auto h = ref::sha256(all);
		c.check(verif::hex(h.data(), 32) == "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda", "wordlist-hash", []{ return "not the BIP-39 english word list"; });
	}
	for(uint64_t k = 0; k < c.n(1500, 60000); ++k) {
		auto raw = rng.bytes(32);
		if(k < 256) { std::fill(raw.begin(), raw.end(), 0); raw[k / 8] = 1 << (k % 8); }
		if(k == 256) std::fill(raw.begin(), raw.end(), 0);
		if(k == 257) std::fill(raw.begin(), raw.end(), 0xff);
		const auto seed = hash_t::from_bytes(raw);
		c.mark("seed_to_words " + verif::hex(raw));
		const auto words = mnemonic::seed_to_words(seed);
		// BIP-39 over the big endian number
		bytes be(raw.rbegin(), raw.rend());
		const auto cs = ref::sha256(be)[0];
		std::vector<int> bits;
		for(auto b : be) for(int i = 7; i >= 0; --i) bits.push_back((b >> i) & 1);
		for(int i = 7; i >= 0; --i) bits.push_back((cs >> i) & 1);
		std::vector<std::string> ex;
		for(int w = 0; w < 24; ++w) { int x = 0; for(int i = 0; i < 11; ++i) x = x * 2 + bits[w * 11 + i]; ex.push_back(wl[x]); }
		c.eval(); c.nontrivial(verif::hex(raw));
		c.check(words == ex, "seed-words", [&]{ return "seed_to_words() differs from BIP-39 for " + verif::hex(raw); });
		hash_t back;
		try { back = mnemonic::words_to_seed(words); c.check(back == seed, "seed-roundtrip", [&]{ return "words_to_seed(seed_to_words()) differs for " + verif::hex(raw); }); }
		catch(const std::exception& e) { c.violation("seed-throws", std::string("words_to_seed() throws ") + e.what()); }
		c.check(mnemonic::string_to_words(mnemonic::words_to_string(words)) == words, "seed-string", []{ return "phrase text round trip differs"; });
		// a changed word is detected by the checksum (both accepted byte orders)
		for(int m = 0; m < 6; ++m) {
			auto w = words;
			bool must_throw = false;
			switch(m) {
				case 0: w[rng.below(24)] = "notaword"; must_throw = true; break;
				case 1: w.pop_back(); must_throw = true; break;
				case 2: w.push_back(w[0]); must_throw = true; break;
				default: w[rng.below(24)] = wl[rng.below(2048)];
			}
			if(w == words) continue;
			c.mark("words_to_seed changed");
			bool ok = true; hash_t got;
			try { got = mnemonic::words_to_seed(w); } catch(const std::exception&) { ok = false; }
			c.count(ok ? "changed_accepted" : "changed_refused"); c.eval();
			if(must_throw) { c.check(!ok, "seed-malformed", []{ return "malformed phrase accepted"; }); continue; }
			std::vector<int> b2;
			for(auto& x : w) { const int i = std::lower_bound(wl.begin(), wl.end(), x) - wl.begin(); for(int t = 10; t >= 0; --t) b2.push_back((i >> t) & 1); }
			bytes e2(32); int cs2 = 0;
			for(int i = 0; i < 256; ++i) e2[i / 8] = e2[i / 8] * 2 + b2[i];
			for(int i = 0; i < 8; ++i) cs2 = cs2 * 2 + b2[256 + i];
			bytes le(e2.rbegin(), e2.rend());
			const bool valid = cs2 == ref::sha256(e2)[0] || cs2 == ref::sha256(le)[0];
			c.check(ok == valid, valid ? "seed-valid-refused" : "seed-checksum", [&]{ return std::string("phrase with ") + (valid ? "valid checksum refused" : "wrong checksum accepted"); });
			if(ok && valid) c.check(got == hash_t::from_bytes(le), "seed-value", []{ return "another seed for changed words"; });
		}
	}
	// keys derived from seed and passphrase
	auto params = ChainParams::create();
	auto h512 = [](const bytes& key, const bytes& msg) { auto a = ref::hmac512(key, msg); return std::make_pair(bytes(a.begin(), a.begin() + 32), bytes(a.begin() + 32, a.end())); };
	auto kdf = [&](const bytes& seed, const bytes& key) { auto t = ref::hmac512(key, seed); for(int i = 1; i < 4096; ++i) t = ref::hmac512(bytes(t.begin(), t.end()), seed); return std::make_pair(bytes(t.begin(), t.begin() + 32), bytes(t.begin() + 32, t.end())); };
	auto idx = [](bytes m, uint32_t i) { for(int k = 3; k >= 0; --k) m.push_back(i >> (8 * k)); return m; };
	for(uint64_t k = 0; k < c.n(5, 60); ++k) {
		const auto seed = hash_t::from_bytes(rng.bytes(32));
		account_t cfg;
		cfg.index = k % 3; cfg.num_addresses = 1 + rng.below(8);
		const std::string pass = k % 2 ? "" : "pass " + std::to_string(rng.next());
		cfg.with_passphrase = !pass.empty();
		if(cfg.with_passphrase) cfg.finger_print = get_finger_print(seed, vnx::optional<std::string>(pass));
		c.mark("ECDSA_Wallet");
		ECDSA_Wallet w(seed, cfg, params);
		c.check(w.is_locked(), "wallet-locked", []{ return "a new wallet is not locked"; });
		if(cfg.with_passphrase) {
			c.check(throws([&]{ w.unlock(pass + "x"); }) && w.is_locked(), "wallet-wrong-pass", []{ return "wallet unlocks with a wrong passphrase"; });
			c.check(throws([&]{ w.unlock(); }) && w.is_locked(), "wallet-no-pass", []{ return "wallet unlocks without its passphrase"; });
		}
		w.unlock(pass);
		const auto ph = ref::sha256("MMX/seed/" + pass);
		const auto master = kdf(seed.to_vector(), bytes(ph.begin(), ph.end()));
		const auto chain = h512(master.second, idx(master.first, 11337));
		const auto acc = h512(chain.second, idx(chain.first, cfg.index));
		for(uint32_t i = 0; i < cfg.num_addresses; ++i) {
			const auto key = h512(acc.second, idx(acc.first, i)).first;
			c.eval(); c.count("wallet_keys"); c.nontrivial(verif::hex(key));
			c.check(w.get_skey(i).to_vector() == key, "wallet-key", [&]{ return "key " + std::to_string(i) + " is not the one derived from the seed"; });
			const auto pk = pubkey_t(skey_t(hash_t::from_bytes(key)));
			c.check(w.get_pubkey(i) == pk && w.get_address(i) == pk.get_addr() && w.find_address(pk.get_addr()) == (ssize_t)i, "wallet-address", []{ return "address does not belong to the key"; });
		}
		const auto addrs = w.get_all_addresses();
		const auto fh = ref::sha256(std::string("MMX/farmer_keys"));
		const auto fm = kdf(seed.to_vector(), bytes(fh.begin(), fh.end()));
		c.check(w.get_farmer_key().first.to_vector() == h512(fm.second, idx(fm.first, 0)).first, "farmer-key", []{ return "farmer key is not the one derived from the seed"; });
		w.lock();
		c.check(w.is_locked() && throws([&]{ w.sign_msg(addrs[0], hash_t()); }) && throws([&]{ w.get_skey(0); }) && !w.find_keypair(addrs[0]), "wallet-lock", []{ return "a locked wallet still has keys"; });
		// known addresses: another passphrase is noticed even without fingerprint
		account_t cfg2 = cfg; cfg2.with_passphrase = false;
		ECDSA_Wallet w2(seed, addrs, cfg2, params);
		c.check(throws([&]{ w2.unlock(pass + "y"); }), "wallet-other-pass", []{ return "wallet with known addresses unlocks with another passphrase"; });
		w2.unlock(pass);
		c.check(w2.get_all_addresses() == addrs, "wallet-same", []{ return "addresses differ after unlocking again"; });
	}
	c.sample("24-word phrases of single-bit and random seeds against BIP-39; changed words; keys of wallets with and without passphrase against the derivation");
}

// ------------------------------------------------------------------------------------------- P09 amounts
static void run_amounts(verif::Check& c)
{
	auto rng = c.rng(9);
	auto any128 = [&]() { uint128_t v(rng.chance(1, 2) ? 0 : rng.any64(), rng.any64()); return v; };
	for(uint64_t k = 0; k < c.n(30000, 800000); ++k) {
		const auto v = any128();
		const auto b = to_big(v);
		c.eval();
		c.mark("amount " + str(b));
		const uint128 u(v);
		// text and binary forms of uint128
		c.check(u.to_string() == str(b), "u128-string", [&]{ return "to_string() = " + u.to_string() + " for " + str(b); });
		c.check(uint128(u.to_string()) == u && uint128(u.to_hex_string()) == u, "u128-parse", [&]{ return "text round trip differs for " + str(b); });
		c.check(u.to_var_arg().to<uint128>() == u, "u128-var-arg", [&]{ return "to_var_arg() round trip differs for " + str(b); });
		c.check(vnx::Variant(u).to<uint128>() == u, "u128-variant", [&]{ return "binary round trip differs for " + str(b); });
		{ std::stringstream ss; vnx::write(ss, u); uint128 r; vnx::read(ss, r); c.check(r == u, "u128-json", [&]{ return "JSON round trip differs for " + str(b); }); }
		if(k % 16 == 0) {
			const big over = B128 + big(rng.any64());
			c.check(throws([&]{ uint128 x(str(over)); }), "u128-overflow", [&]{ return "uint128(\"" + str(over) + "\") does not throw"; });
			c.count("overflow_strings");
		}
		// fixed point decimals
		fixed128 f; f.fixed = u;
		std::string ds = str(b / 1000000000000000ull);
		{ std::string fr = str(b % 1000000000000000ull); fr = std::string(15 - fr.size(), '0') + fr; while(!fr.empty() && fr.back() == '0') fr.pop_back(); if(!fr.empty()) ds += "." + fr; }
		c.check(f.to_string() == ds, "fixed-string", [&]{ return "fixed128::to_string() = " + f.to_string() + " for " + ds; });
		try { c.check(fixed128(ds).fixed == u, "fixed-parse", [&]{ return "fixed128(\"" + ds + "\") differs"; }); } catch(const std::exception& e) { c.violation("fixed-parse-throws", "fixed128(\"" + ds + "\") throws " + e.what()); }
		for(int dec : {0, 1, 6, 9, 15, 16, 18}) {
			big ex = b;
			for(int i = dec; i < 15; ++i) ex /= 10;
			for(int i = 15; i < dec; ++i) ex *= 10;
			bool thrown = false; uint128 got;
			try { got = f.to_amount(dec); } catch(const std::exception&) { thrown = true; }
			if(ex >= B128) c.check(thrown, "fixed-to_amount-overflow", [&]{ return "to_amount(" + std::to_string(dec) + ") of " + ds + " wraps around"; });
			else c.check(!thrown && to_big(got) == ex, "fixed-to_amount", [&]{ return "to_amount(" + std::to_string(dec) + ") of " + ds + " is " + got.to_string(); });
			// amount with decimals -> fixed
			big ex2 = b * 1000000000000000ull;
			for(int i = 0; i < dec; ++i) ex2 /= 10;
			bool th = false; fixed128 g;
			try { g = fixed128(v, dec); } catch(const std::exception&) { th = true; }
			if(ex2 >= B128) c.check(th, "fixed-ctor-overflow", [&]{ return "fixed128(" + str(b) + ", " + std::to_string(dec) + ") wraps around"; });
			else c.check(!th && to_big(g.fixed) == ex2, "fixed-ctor", [&]{ return "fixed128(" + str(b) + ", " + std::to_string(dec) + ") = " + g.to_string(); });
		}
		// decimal text with fraction and exponent
		{
			std::string ip = str(rng.chance(1, 12) ? b : big(rng.any64())), fp;
			const int nf = rng.below(6);
			for(int i = 0; i < nf; ++i) fp += char('0' + rng.below(10));
			std::string s = ip;
			if(nf) s += (rng.chance(1, 2) ? "." : ",") + fp;
			int e10 = 0;
			const bool has_e = rng.chance(1, 2);
			if(has_e) { e10 = int(rng.below(31)) - 15; s += (rng.chance(1, 2) ? "e" : "E") + std::to_string(e10); }
			big m = big(ip) * 1000000000000000ull;
			{ std::string t = fp; t.resize(15, '0'); m += big(std::stoull(t)); }
			for(int i = 0; i < e10; ++i) m *= 10;
			for(int i = e10; i < 0; ++i) m /= 10;
			bool th = false; fixed128 g;
			c.mark("fixed128 " + s);
			try { g = fixed128(s); } catch(const std::exception&) { th = true; }
			c.count("decimal_strings"); c.nontrivial(s);
			if(m >= B128 || big(ip) * 1000000000000000ull >= B128) c.check(th, "fixed-string-overflow", [&]{ return "fixed128(\"" + s + "\") wraps around to " + g.to_string(); });
			else if(!th) c.check(to_big(g.fixed) == m, "fixed-string-value", [&]{ return "fixed128(\"" + s + "\") = " + g.to_string(); });
			else c.check(has_e, "fixed-string-refused", [&]{ return "fixed128(\"" + s + "\") throws"; });
		}
		// fees
		{
			const uint64_t cost = rng.any64(); const uint32_t ratio = std::max<uint32_t>(1, rng.any64());
			const big fee = big(cost) * ratio / 1024, back = big(cost) * 1024 / ratio;
			bool th = false; uint64_t got = 0;
			try { got = cost_to_fee<std::logic_error>(cost, ratio); } catch(const std::logic_error&) { th = true; }
			c.check(fee >> 64 ? th : !th && big(got) == fee, "cost_to_fee", [&]{ return "cost_to_fee(" + std::to_string(cost) + ", " + std::to_string(ratio) + ") = " + std::to_string(got); });
			th = false;
			try { got = fee_to_cost<std::logic_error>(cost, ratio); } catch(const std::logic_error&) { th = true; }
			c.check(back >> 64 ? th : !th && big(got) == back, "fee_to_cost", [&]{ return "fee_to_cost(" + std::to_string(cost) + ", " + std::to_string(ratio) + ") = " + std::to_string(got); });
			c.count("fees");
		}
		// floating point amounts entered by a user
		{
			const int dec = rng.below(19);
			const uint64_t n = rng.next() >> (13 + rng.below(50));		// < 2^51
			const auto x = to_value(uint128_t(n), dec);
			c.mark("to_amount " + std::to_string(x) + " " + std::to_string(dec));
			bool th = false; uint128 got;
			try { got = to_amount(x, dec); } catch(const std::exception&) { th = true; }
			c.check(!th && to_big(got) == n, "to_amount-roundtrip", [&]{ return "to_amount(" + std::to_string(n) + "e-" + std::to_string(dec) + ", " + std::to_string(dec) + ") = " + got.to_string(); });
			c.count("double_amounts");
		}
	}
	// values which are no amounts are refused, not converted to something
	const double inf = std::numeric_limits<double>::infinity();
	struct { const char* name; double v; } bad[] = {{"nan", std::numeric_limits<double>::quiet_NaN()}, {"inf", inf}, {"-inf", -inf}, {"-1", -1}, {"2^128", std::ldexp(1, 128)}, {"2^200", std::ldexp(1, 200)}, {"1e300", 1e300}};
	for(auto& e : bad) for(int dec : {0, 6, 18}) {
		c.mark(std::string("to_amount ") + e.name);
		c.eval(); c.count("bad_doubles");
		c.check(throws([&]{ to_amount(e.v, dec); }), std::string("to_amount-") + e.name, [&]{ return std::string("to_amount(") + e.name + ", " + std::to_string(dec) + ") does not throw"; });
	}
	for(double v : {std::ldexp(1, 64), std::ldexp(1, 100), std::ldexp(1, 127), 1.5 * std::ldexp(1, 64)}) {
		c.mark("to_amount large");
		const big ex = big(v);
		c.check(to_big(to_amount(v, 0)) == ex, "to_amount-large", [&]{ return "to_amount() differs for " + std::to_string(v); });
	}
	for(const char* s : {"", ".", "e5", "1e16", "1e-16", "1.5e15", "-1.5", ".5", ",5", "-1e2", "0x10", "abc", "1 2", "+1"}) {
		c.mark(std::string("fixed128 malformed ") + s);
		c.eval(); c.count("malformed_decimals");
		c.check(throws([&]{ fixed128 x{std::string(s)}; }), std::string("fixed-malformed:") + s, [&]{ return std::string("fixed128(\"") + s + "\") does not throw"; });
	}
	c.sample("uint128 / fixed128 of all magnitudes against arbitrary precision integers: text, binary, decimals 0..18, exponents, overflow; fees; doubles incl. NaN, inf, 2^128");
}

// ------------------------------------------------------------------------------------------- P10 consensus arithmetic
static void run_math(verif::Check& c)
{
	auto rng = c.rng(10);
	auto params = ChainParams::create();
	auto reset_params = [&]() {
		params = ChainParams::create();
		if(rng.chance(1, 2)) return;
		params->plot_filter = rng.below(9);
		params->post_filter = rng.below(13);
		params->challenge_interval = 1 + rng.below(100);
		params->max_diff_adjust = 1 + rng.below(20);
		params->avg_proof_count = 1 + rng.below(10);
		params->reward_adjust_div = 1 + rng.below(1000);
		params->reward_adjust_tick = rng.below(100000);
		params->reward_adjust_interval = 1 + rng.below(10000);
		params->max_space_fork_len = 1 + rng.below(20);
		params->time_diff_constant = 1 + rng.below(10000000);
		params->time_diff_divider = 1 + rng.below(10000);
		params->space_diff_constant = 1 + rng.below(1000000000);
		params->fixed_project_reward = rng.below(1000000);
		params->hardfork2_height = rng.chance(1, 2) ? 0 : rng.below(1000);
	};
	auto hint = [&](const hash_t& h) { big r = 0; for(int i = 31; i >= 0; --i) r = r * 256 + h[i]; return r; };
	auto H = [](const std::string& s) { const auto r = ref::sha256(s); return hash_t::from_bytes(r.data()); };
	auto S = [](const hash_t& h) { return std::string((const char*)h.data(), 32); };
	for(uint64_t k = 0; k < c.n(20000, 400000); ++k) {
		if(k % 50 == 0) { reset_params(); params->project_ratio.value = rng.below(5); params->project_ratio.inverse = 1 + rng.below(100); }
		auto prev = BlockHeader::create();
		c.eval();
		c.mark("consensus arithmetic case " + std::to_string(k));
		// space difficulty
		{
			prev->space_diff = 1 + (rng.any64() >> rng.below(40));
			if(k % 3) prev->space_diff &= (uint64_t(1) << 48) - 1;
			if(!prev->space_diff) prev->space_diff = 1;
			prev->space_fork_len = rng.below(params->challenge_interval * 3);
			const uint32_t expect = prev->space_fork_len * params->avg_proof_count;
			prev->space_fork_proofs = rng.chance(1, 4) ? expect : rng.chance(1, 3) ? rng.below(2 * expect + 2) : rng.below(50 * prev->space_fork_len + 1);
			const auto d = calc_new_space_diff(params, prev);
			c.nontrivial(Rng::mix(d) ^ prev->space_fork_proofs);
			const big D = prev->space_diff;
			if(prev->space_diff >> 48) c.check(big(d) == D - D / 1024, "diff-clamp", [&]{ return "space difficulty above 48 bits is not reduced by 1/1024"; });
			else if(!prev->space_fork_len) c.check(big(d) == D, "diff-genesis", []{ return "space difficulty changes without a fork length"; });
			else {
				const big nd = D * prev->space_fork_proofs / expect;
				const bool inc = prev->space_fork_proofs > expect;
				const big delta = inc ? nd - D : D - nd;
				big adj = delta / std::max(big(16) * params->challenge_interval / prev->space_fork_len, big(1));
				if(adj < 1) adj = 1;
				big ex = inc ? D + adj : D > adj ? D - adj : big(1);
				c.check(big(d) == ex, "space-diff", [&]{ return "calc_new_space_diff(" + str(D) + ", " + std::to_string(prev->space_fork_proofs) + " proofs of " + std::to_string(expect) + ", len " + std::to_string(prev->space_fork_len) + ") = " + std::to_string(d) + ", expected " + str(ex); });
				c.check(d >= 1 && (inc ? d > prev->space_diff : d <= prev->space_diff), "space-diff-direction", [&]{ return "space difficulty moves in the wrong direction"; });
			}
			c.count("space_diff");
		}
		// proof threshold
		{
			const int ks = 8 + rng.below(25);
			const uint64_t sd = rng.chance(1, 30) ? 0 : rng.any64() >> rng.below(30);
			auto q = hash_t::from_bytes(rng.bytes(32));
			const bool hf = rng.chance(1, 2);
			big th = 0;
			if(sd) th = ((big(1) << 255) / (big(sd) * params->space_diff_constant)) * (2 * ks + 1);
			if(sd && rng.chance(3, 4)) {	// place the quality right at the threshold
				big v = th;
				if(rng.chance(1, 2)) v -= 1;
				v <<= (ks - 1);
				if(hf) v <<= params->post_filter;
				if(v >= 0 && !(v >> 256)) { for(int i = 0; i < 32; ++i) { q[i] = uint8_t(v & 0xff); v >>= 8; } c.count("at_threshold"); }
			}
			big v = hint(q);
			if(hf) v >>= params->post_filter;
			const bool ex = sd && (v >> (ks - 1)) < th;
			c.check(check_proof_threshold(params, ks, q, sd, hf) == ex, "proof-threshold", [&]{ return "check_proof_threshold(k=" + std::to_string(ks) + ", diff " + std::to_string(sd) + ", hard fork " + std::to_string(hf) + ") should be " + std::to_string(ex); });
		}
		// plot filter, challenge chain
		{
			const auto ch = hash_t::from_bytes(rng.bytes(32)), id = hash_t::from_bytes(rng.bytes(32)), ph = hash_t::from_bytes(rng.bytes(32)), pc = hash_t::from_bytes(rng.bytes(32));
			c.check(check_plot_filter(params, ch, id) == ((hint(H("plot_filter" + S(id) + S(ch))) >> (256 - params->plot_filter)) == 0), "plot-filter", []{ return "check_plot_filter differs"; });
			c.check(get_plot_challenge(ch, id) == H("plot_challenge" + S(id) + S(ch)), "plot-challenge", []{ return "get_plot_challenge differs"; });
			prev->height = rng.below(1200); prev->challenge = ch; prev->proof_chain = pc; prev->space_fork_len = rng.below(params->challenge_interval * (params->max_space_fork_len + 2) + 1);
			auto blk = BlockHeader::create();
			blk->height = prev->height + 1; blk->vdf_count = 1 + rng.below(6); blk->proof_hash = ph; blk->proof_chain = hash_t::from_bytes(rng.bytes(32));
			hash_t out = ch;
			for(uint32_t i = 0; i < blk->vdf_count; ++i) out = H("next_challenge" + S(out));
			const auto inf = blk->height >= params->hardfork2_height ? blk->proof_chain : blk->proof_hash;
			bool fork = hint(H("proof_infusion_check" + S(out) + S(inf))) % params->challenge_interval == 0;
			if(uint64_t(prev->space_fork_len) + blk->vdf_count > uint64_t(params->max_space_fork_len) * params->challenge_interval && prev->height + 1 >= params->hardfork2_height) fork = true;
			if(fork) out = H("challenge_infusion" + S(out) + S(inf));
			bool got_fork = false;
			const auto got = calc_next_challenge(params, prev, blk, got_fork);
			c.check(got_fork == fork && got == out, "next-challenge", []{ return "calc_next_challenge differs"; });
			c.count(fork ? "space_forks" : "no_space_fork");
			c.check(calc_proof_chain(params, prev, ph) == (prev->height >= params->hardfork2_height ? H("proof_chain" + S(pc) + S(ph)) : ph), "proof-chain", []{ return "calc_proof_chain differs"; });
		}
		// rewards
		{
			const uint64_t fees = rng.any64() >> 12, reward = rng.any64() >> 12, buf = rng.any64() >> 4;
			const auto fb = calc_final_block_reward(params, reward, fees);
			const big proj = std::min(big(params->fixed_project_reward) + big(params->project_ratio.value) * fees / params->project_ratio.inverse, big(fees / 2));
			c.check(big(calc_project_reward(params, fees)) == proj, "project-reward", []{ return "calc_project_reward differs"; });
			c.check(big(fb) == big(reward) + fees - std::max(big(fees / 2), proj), "final-reward", [&]{ return "calc_final_block_reward(" + std::to_string(reward) + ", " + std::to_string(fees) + ") = " + std::to_string(fb); });
			c.check(fb >= reward && fb - reward + calc_project_reward(params, fees) <= fees, "reward-from-fees", []{ return "more is paid out of the fees than there is"; });
			const auto ded = calc_min_reward_deduction(params, buf);
			c.check(ded <= buf && ded == std::min(std::max<uint64_t>(buf / 8640, 1000), buf), "min-reward-deduction", []{ return "calc_min_reward_deduction differs"; });
			prev->txfee_buffer = buf; prev->tx_fees = fees;
			c.check(calc_new_txfee_buffer(params, prev) == buf - ded + fees, "txfee-buffer", []{ return "calc_new_txfee_buffer differs"; });
			prev->base_reward = rng.any64() >> (16 + rng.below(30));
			if(rng.chance(1, 5)) prev->base_reward = 4200000000000ull - rng.below(3);
			if(rng.chance(1, 8)) prev->base_reward = rng.below(params->reward_adjust_tick + 2);
			prev->reward_vote_count = rng.below(params->reward_adjust_interval + 1);
			prev->reward_vote_sum = int64_t(rng.below(2001)) - 1000;
			if(rng.chance(1, 4)) prev->reward_vote_sum = int64_t(rng.below(3)) - 1;
			const auto br = calc_new_base_reward(params, prev);
			big ex = prev->base_reward;
			if(prev->reward_vote_count >= params->reward_adjust_interval / 2) {
				const big step = std::max(big(prev->base_reward / params->reward_adjust_div), big(params->reward_adjust_tick));
				if(prev->reward_vote_sum > 0) ex += step;
				if(prev->reward_vote_sum < 0) ex -= step;
				ex = std::max(std::min(ex, big(4200000000000ull)), big(0));
			}
			c.check(big(br) == ex, "base-reward", [&]{ return "calc_new_base_reward(" + std::to_string(prev->base_reward) + ", sum " + std::to_string(prev->reward_vote_sum) + ", count " + std::to_string(prev->reward_vote_count) + ") = " + std::to_string(br) + ", expected " + str(ex); });
			c.count("rewards");
		}
		// weight, netspace ratio, block iterations
		{
			const uint64_t ratio = rng.below((uint64_t(1) << (2 * params->max_diff_adjust)) + 1);
			const bool og = rng.chance(1, 2);
			const auto nr = calc_new_netspace_ratio(params, ratio, og);
			const big ex = (big(ratio) * ((big(1) << params->max_diff_adjust) - 1) + (og ? big(1) << (2 * params->max_diff_adjust) : big(0))) >> params->max_diff_adjust;
			c.check(big(nr) == ex && nr <= (uint64_t(1) << (2 * params->max_diff_adjust)), "netspace-ratio", []{ return "calc_new_netspace_ratio differs or leaves its range"; });
			const uint64_t td = rng.any64() >> 24;
			c.check(get_block_iters(params, td) == (td / params->time_diff_divider) * params->time_diff_constant, "block-iters", []{ return "get_block_iters differs"; });
			auto blk = BlockHeader::create();
			blk->vdf_count = 1 + rng.below(5);
			prev->vdf_iters = rng.below(1ull << 50);
			blk->vdf_iters = prev->vdf_iters + rng.below(1ull << 40);
			c.check(calc_block_weight(params, blk, prev) == uint128_t(0), "weight-empty", []{ return "a block without proof has weight"; });
			auto p = ProofOfSpaceOG::create(); p->difficulty = rng.any64() >> 20;
			blk->proof.push_back(p);
			const big w = big((blk->vdf_iters - prev->vdf_iters) / blk->vdf_count / params->time_diff_constant) * p->difficulty * params->avg_proof_count;
			c.check(to_big(calc_block_weight(params, blk, prev)) == w, "weight", [&]{ return "calc_block_weight differs from " + str(w); });
			c.count("weights");
		}
	}
	c.sample("difficulty, reward, challenge, weight functions against arbitrary precision integers with random chain parameters, at and around thresholds");
}

static void run_prim2(verif::Check& c) {
	if(c.has("addr")) run_addr(c);
	if(c.has("sig")) run_sig(c);
	if(c.has("seed")) run_seed(c);
	if(c.has("amounts")) run_amounts(c);
	if(c.has("math")) run_math(c);
}
