#include <vnx/core.h>

#include <unistd.h>
#include <sys/random.h>

namespace vnx {

const Hash64 Value::VNX_TYPE_HASH(0ull);
const Hash64 Value::VNX_CODE_HASH(0ull);

// ---------------------------------------------------------------- hashing / random / time

static const uint64_t* crc64_table() {
	static uint64_t table[256];
	static bool init = [](){
		for(int i = 0; i < 256; ++i) {
			uint64_t c = i;
			for(int k = 0; k < 8; ++k) c = (c & 1) ? (c >> 1) ^ 0xC96C5795D7870F42ull : c >> 1;
			table[i] = c;
		}
		return true;
	}();
	(void)init;
	return table;
}
void CRC64::update(const void* data, size_t size) {
	const auto* t = crc64_table();
	uint64_t c = ~crc;
	for(size_t i = 0; i < size; ++i) c = t[(c ^ ((const uint8_t*)data)[i]) & 0xFF] ^ (c >> 8);
	crc = ~c;
}
uint64_t hash64(const void* data, size_t size) { CRC64 c; c.update(data, size); return c.get(); }
uint64_t hash64(const std::string& s) { return hash64(s.data(), s.size()); }

uint64_t rand64() { uint64_t v = 0; secure_random_bytes(&v, 8); return v; }
void secure_random_bytes(void* dst, size_t n) {
	char* p = (char*)dst;
	while(n) { const auto r = ::getrandom(p, n, 0); if(r > 0) { p += r; n -= r; } }
}
std::vector<uint8_t> secure_random_bytes(size_t n) { std::vector<uint8_t> v(n); if(n) secure_random_bytes(v.data(), n); return v; }
std::string Hash64::to_string() const { char b[32]; ::snprintf(b, sizeof(b), "0x%llx", (unsigned long long)value); return b; }

int64_t get_time_micros() { return std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
int64_t get_time_millis() { return get_time_micros() / 1000; }
int64_t get_time_seconds() { return get_time_micros() / 1000000; }
std::atomic<int64_t> g_wall_time_offset {0};	// micros, harness controlled
std::atomic<int64_t> g_wall_time_fixed {0};		// if set: the clock stands still there (plus the offset)
int64_t get_wall_time_micros() { if(const int64_t t = g_wall_time_fixed) return t + g_wall_time_offset; return std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::system_clock::now().time_since_epoch()).count() + g_wall_time_offset; }
int64_t get_wall_time_millis() { return get_wall_time_micros() / 1000; }
int64_t get_wall_time_seconds() { return get_wall_time_micros() / 1000000; }
int64_t get_sync_time_micros() { return get_wall_time_micros(); }
std::string get_date_string(bool, int64_t) { return "1970-01-01"; }
std::string get_date_string_ex(const std::string&, bool, int64_t) { return "1970"; }
std::string input_password(const std::string&) { return ""; }


// plain FIPS 180-4 implementation
void SHA256::finalize(uint8_t* hash) {
	static const uint32_t K[64] = {
		0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
		0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
		0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
		0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2 };
	uint32_t H[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
	std::vector<uint8_t> m = buf;
	const uint64_t bits = uint64_t(m.size()) * 8;
	m.push_back(0x80);
	while(m.size() % 64 != 56) m.push_back(0);
	for(int i = 7; i >= 0; --i) m.push_back(uint8_t(bits >> (8 * i)));
	auto rotr = [](uint32_t x, int n) { return (x >> n) | (x << (32 - n)); };
	for(size_t off = 0; off < m.size(); off += 64) {
		uint32_t w[64];
		for(int i = 0; i < 16; ++i) w[i] = (uint32_t(m[off+4*i]) << 24) | (uint32_t(m[off+4*i+1]) << 16) | (uint32_t(m[off+4*i+2]) << 8) | m[off+4*i+3];
		for(int i = 16; i < 64; ++i) w[i] = w[i-16] + (rotr(w[i-15],7) ^ rotr(w[i-15],18) ^ (w[i-15] >> 3)) + w[i-7] + (rotr(w[i-2],17) ^ rotr(w[i-2],19) ^ (w[i-2] >> 10));
		uint32_t v[8];
		for(int i = 0; i < 8; ++i) v[i] = H[i];
		for(int i = 0; i < 64; ++i) {
			const uint32_t t1 = v[7] + (rotr(v[4],6) ^ rotr(v[4],11) ^ rotr(v[4],25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K[i] + w[i];
			const uint32_t t2 = (rotr(v[0],2) ^ rotr(v[0],13) ^ rotr(v[0],22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
			v[7]=v[6]; v[6]=v[5]; v[5]=v[4]; v[4]=v[3]+t1; v[3]=v[2]; v[2]=v[1]; v[1]=v[0]; v[0]=t1+t2;
		}
		for(int i = 0; i < 8; ++i) H[i] += v[i];
	}
	for(int i = 0; i < 8; ++i) for(int k = 0; k < 4; ++k) hash[4*i+k] = uint8_t(H[i] >> (24 - 8*k));
}

// ---------------------------------------------------------------- strings

std::string escape_json(const std::string& s) {
	std::string out = "\"";
	for(unsigned char c : s) {
		switch(c) {
			case '"': out += "\\\""; break;
			case '\\': out += "\\\\"; break;
			case '\b': out += "\\b"; break;
			case '\f': out += "\\f"; break;
			case '\n': out += "\\n"; break;
			case '\r': out += "\\r"; break;
			case '\t': out += "\\t"; break;
			default:
				if(c < 0x20) { char b[8]; ::snprintf(b, sizeof(b), "\\u%04x", c); out += b; }
				else out += char(c);
		}
	}
	return out + "\"";
}

std::string to_hex_string(const void* data_, size_t size, bool big_endian, bool with_prefix) {
	static const char* hex = "0123456789ABCDEF";
	const auto* data = (const uint8_t*)data_;
	std::string out = with_prefix ? "0x" : "";
	for(size_t i = 0; i < size; ++i) {
		const uint8_t c = big_endian ? data[size - i - 1] : data[i];
		out += hex[c >> 4];
		out += hex[c & 15];
	}
	return out;
}
std::string to_hex_string(const uint64_t& v, bool with_prefix) { char b[32]; ::snprintf(b, sizeof(b), "%s%llx", with_prefix ? "0x" : "", (unsigned long long)v); return b; }

std::vector<uint8_t> from_hex_string(const std::string& str) {
	size_t i = 0;
	if(str.size() >= 2 && str[0] == '0' && (str[1] == 'x' || str[1] == 'X')) i = 2;
	auto nib = [](char c) -> int {
		if(c >= '0' && c <= '9') return c - '0';
		if(c >= 'a' && c <= 'f') return c - 'a' + 10;
		if(c >= 'A' && c <= 'F') return c - 'A' + 10;
		throw std::logic_error("invalid hex string");
	};
	std::vector<uint8_t> out;
	if((str.size() - i) % 2) { out.push_back(nib(str[i])); ++i; }
	for(; i + 1 < str.size(); i += 2) out.push_back((nib(str[i]) << 4) | nib(str[i+1]));
	return out;
}
std::vector<std::string> string_split(const std::string& str, char sep, bool skip_empty) {
	std::vector<std::string> out;
	std::string cur;
	for(char c : str) { if(c == sep) { if(!skip_empty || cur.size()) out.push_back(cur); cur.clear(); } else cur += c; }
	if(!skip_empty || cur.size()) out.push_back(cur);
	return out;
}
std::string string_subs(const std::string& str, const std::string& from, const std::string& to) {
	std::string out;
	size_t i = 0;
	while(i < str.size()) {
		if(from.size() && str.compare(i, from.size(), from) == 0) { out += to; i += from.size(); }
		else out += str[i++];
	}
	return out;
}
std::string to_pretty_string(const Value& v) { std::ostringstream ss; v.write(ss); return ss.str(); }

// ---------------------------------------------------------------- type codes

namespace {
struct registry_t {
	std::recursive_mutex mutex;
	std::map<uint64_t, std::shared_ptr<TypeCode>> by_type, by_code;
	std::map<std::string, std::shared_ptr<TypeCode>> by_name;
};
registry_t& registry() { static auto* r = new registry_t(); return *r; }
}

void TypeCode::build() {
	total_field_size = 0;
	ext_fields.clear();
	field_map.clear();
	for(size_t i = 0; i < fields.size(); ++i) {
		auto& f = fields[i];
		f.native_index = i;
		if(f.is_extended) { ext_fields.push_back(&f); field_map.push_back(nullptr); }
		else { f.offset = total_field_size; total_field_size += f.data_size; field_map.push_back(&f); }
	}
	if(!parents.empty()) super = parents[0];
}
const TypeCode* get_type_code(const Hash64& h) {
	auto& r = registry();
	std::lock_guard<std::recursive_mutex> lock(r.mutex);
	auto it = r.by_type.find(h);
	return it != r.by_type.end() ? it->second.get() : nullptr;
}
const TypeCode* get_type_code(const std::string& name) {
	auto& r = registry();
	std::lock_guard<std::recursive_mutex> lock(r.mutex);
	auto it = r.by_name.find(name);
	return it != r.by_name.end() ? it->second.get() : nullptr;
}
const TypeCode* get_type_code_by_code_hash(const Hash64& h) {
	auto& r = registry();
	std::lock_guard<std::recursive_mutex> lock(r.mutex);
	auto it = r.by_code.find(h);
	return it != r.by_code.end() ? it->second.get() : nullptr;
}
const TypeCode* register_type_code(std::shared_ptr<TypeCode> tc) {
	auto& r = registry();
	std::lock_guard<std::recursive_mutex> lock(r.mutex);
	auto it = r.by_type.find(tc->type_hash);
	if(it != r.by_type.end()) return it->second.get();
	tc->build();
	r.by_type[tc->type_hash] = tc;
	r.by_code[tc->code_hash] = tc;
	r.by_name[tc->name] = tc;
	return tc.get();
}
std::vector<const TypeCode*> get_all_type_codes() {
	auto& r = registry();
	std::lock_guard<std::recursive_mutex> lock(r.mutex);
	std::vector<const TypeCode*> out;
	for(auto& e : r.by_type) out.push_back(e.second.get());
	return out;
}
std::shared_ptr<Value> create(const Hash64& h) { auto* tc = get_type_code(h); return tc && tc->create_value ? tc->create_value() : nullptr; }
std::shared_ptr<Value> create(const std::string& n) { auto* tc = get_type_code(n); return tc && tc->create_value ? tc->create_value() : nullptr; }

// ---------------------------------------------------------------- dynamic codes

static size_t read_code_rec(TypeInput& in, uint16_t* code, size_t off, size_t depth) {
	if(depth > 100 || off + 64 > VNX_MAX_BYTE_CODE_SIZE) throw std::runtime_error("read_byte_code(): code overflow");
	in.read(code + off, 2);
	const size_t base = off;
	switch(code[off++]) {
		case CODE_ARRAY: case CODE_ALT_ARRAY:
			in.read(code + off++, 2);
			return read_code_rec(in, code, off, depth + 1);
		case CODE_LIST: case CODE_ALT_LIST: case CODE_OPTIONAL: case CODE_ALT_OPTIONAL:
			return read_code_rec(in, code, off, depth + 1);
		case CODE_MAP: {
			in.read(code + off++, 2);
			off = read_code_rec(in, code, off, depth + 1);
			if(code[base + 1] != off - base) throw std::runtime_error("read_byte_code(): bad map offset");
			return read_code_rec(in, code, off, depth + 1);
		}
		case CODE_TUPLE: {
			in.read(code + off++, 2);
			const size_t n = code[base + 1];
			if(off + n + 64 > VNX_MAX_BYTE_CODE_SIZE) throw std::runtime_error("read_byte_code(): code overflow");
			for(size_t i = 0; i < n; ++i) in.read(code + off++, 2);
			for(size_t i = 0; i < n; ++i) {
				if(code[base + 2 + i] != off - base) throw std::runtime_error("read_byte_code(): bad tuple offset");
				off = read_code_rec(in, code, off, depth + 1);
			}
			return off;
		}
		case CODE_STRUCT: case CODE_ALT_STRUCT:
			in.read(code + off++, 2);
			return off;
	}
	return off;
}
// a dynamic value starts with the number of code words, followed by the words
size_t read_byte_code(TypeInput& in, uint16_t* code) {
	uint16_t n = 0;
	in.read(&n, 2);
	const size_t len = read_code_rec(in, code, 0, 0);
	if(len != n) throw std::runtime_error("read_byte_code(): bad code size");
	return len;
}
static void append_code(std::vector<uint8_t>& out, const uint16_t* code, size_t len) {
	const uint16_t n = len;
	out.insert(out.end(), (const uint8_t*)&n, (const uint8_t*)(&n + 1));
	out.insert(out.end(), (const uint8_t*)code, (const uint8_t*)(code + len));
}

void skip(TypeInput& in, const TypeCode* tc, const uint16_t* code) {
	TypeInput::recursion_t tag(in);
	if(!code) {
		if(tc) {
			in.read(tc->total_field_size);
			for(const auto* f : tc->ext_fields) skip(in, tc, f->code.data());
		} else {
			read(in);
		}
		return;
	}
	switch(code[0]) {
		case CODE_NULL: return;
		case CODE_BOOL: case CODE_ALT_BOOL: case CODE_UINT8: case CODE_INT8: case CODE_ALT_UINT8: case CODE_ALT_INT8: in.read(1); return;
		case CODE_UINT16: case CODE_INT16: case CODE_ALT_UINT16: case CODE_ALT_INT16: in.read(2); return;
		case CODE_UINT32: case CODE_INT32: case CODE_FLOAT: case CODE_ALT_UINT32: case CODE_ALT_INT32: case CODE_ALT_FLOAT: in.read(4); return;
		case CODE_UINT64: case CODE_INT64: case CODE_DOUBLE: case CODE_ALT_UINT64: case CODE_ALT_INT64: case CODE_ALT_DOUBLE: in.read(8); return;
		case CODE_STRING: case CODE_ALT_STRING: {
			uint64_t n = detail::read_size(in, code[0] == CODE_ALT_STRING);
			while(n) { const size_t k = std::min<uint64_t>(n, 65536); in.read(k); n -= k; }
			return;
		}
		case CODE_ARRAY: for(size_t i = 0; i < code[1]; ++i) skip(in, tc, code + 2); return;
		case CODE_LIST: case CODE_ALT_LIST: { const size_t n = detail::read_size(in, code[0] == CODE_ALT_LIST); for(size_t i = 0; i < n; ++i) { skip(in, tc, code + 1); if(code[1] == CODE_NULL) break; } return; }
		case CODE_OPTIONAL: { uint8_t f = 0; in.read(&f, 1); if(f) skip(in, tc, code + 1); return; }
		case CODE_MAP: { const size_t n = detail::read_size(in, false); for(size_t i = 0; i < n; ++i) { skip(in, tc, code + 2); skip(in, tc, code + code[1]); } return; }
		case CODE_TUPLE: for(size_t i = 0; i < code[1]; ++i) skip(in, tc, code + code[2 + i]); return;
		case CODE_OBJECT: case CODE_ALT_OBJECT: { Object tmp; read(in, tmp, tc, code); return; }
		case CODE_DYNAMIC: case CODE_ALT_DYNAMIC: { uint16_t tmp[VNX_MAX_BYTE_CODE_SIZE]; read_byte_code(in, tmp); skip(in, nullptr, tmp); return; }
		case CODE_ANY: case CODE_ALT_ANY: { read(in); return; }
		case CODE_STRUCT: if(tc) skip(in, tc->depends.at(code[1]), nullptr); return;
	}
	throw std::runtime_error("skip(): invalid code " + std::to_string(code[0]));
}

// copies one value while skipping it
static void copy_value(TypeInput& in, std::vector<uint8_t>& out, const uint16_t* code, size_t depth) {
	if(depth > 100) throw std::runtime_error("maximum recursion reached");
	auto raw = [&](size_t n) { const auto* p = (const uint8_t*)in.read(n); out.insert(out.end(), p, p + n); };
	auto size = [&]() { uint32_t n = 0; in.read(&n, 4); const auto* p = (const uint8_t*)&n; out.insert(out.end(), p, p + 4); return n; };
	auto bulk = [&](uint64_t n) { while(n) { const size_t k = std::min<uint64_t>(n, 65536); raw(k); n -= k; } };
	switch(code[0]) {
		case CODE_NULL: return;
		case CODE_BOOL: case CODE_ALT_BOOL: case CODE_UINT8: case CODE_INT8: case CODE_ALT_UINT8: case CODE_ALT_INT8: raw(1); return;
		case CODE_UINT16: case CODE_INT16: case CODE_ALT_UINT16: case CODE_ALT_INT16: raw(2); return;
		case CODE_UINT32: case CODE_INT32: case CODE_FLOAT: case CODE_ALT_UINT32: case CODE_ALT_INT32: raw(4); return;
		case CODE_UINT64: case CODE_INT64: case CODE_DOUBLE: case CODE_ALT_UINT64: case CODE_ALT_INT64: raw(8); return;
		case CODE_STRING: bulk(size()); return;
		case CODE_ALT_STRING: bulk(flip_bytes(size())); return;
		case CODE_ARRAY: for(size_t i = 0; i < code[1]; ++i) copy_value(in, out, code + 2, depth + 1); return;
		case CODE_LIST: {
			const size_t n = size();
			if(code[1] == CODE_UINT8) { bulk(n); return; }
			if(code[1] == CODE_NULL) return;
			for(size_t i = 0; i < n; ++i) copy_value(in, out, code + 1, depth + 1);
			return;
		}
		case CODE_OPTIONAL: { raw(1); if(out.back()) copy_value(in, out, code + 1, depth + 1); return; }
		case CODE_MAP: { const size_t n = size(); for(size_t i = 0; i < n; ++i) { copy_value(in, out, code + 2, depth + 1); copy_value(in, out, code + code[1], depth + 1); } return; }
		case CODE_TUPLE: for(size_t i = 0; i < code[1]; ++i) copy_value(in, out, code + code[2 + i], depth + 1); return;
		case CODE_OBJECT: {
			const size_t n = size();
			for(size_t i = 0; i < n; ++i) {
				bulk(size());
				uint16_t tmp[VNX_MAX_BYTE_CODE_SIZE];
				const size_t len = read_byte_code(in, tmp);
				append_code(out, tmp, len);
				copy_value(in, out, tmp, depth + 1);
			}
			return;
		}
		case CODE_DYNAMIC: {
			uint16_t tmp[VNX_MAX_BYTE_CODE_SIZE];
			const size_t len = read_byte_code(in, tmp);
			append_code(out, tmp, len);
			copy_value(in, out, tmp, depth + 1);
			return;
		}
		case CODE_ANY: {
			auto value = read(in);
			VectorOutputStream stream(&out);
			TypeOutput tmp(&stream);
			write(tmp, std::shared_ptr<const Value>(value));
			tmp.flush();
			return;
		}
	}
	throw std::runtime_error("read_dynamic(): invalid code " + std::to_string(code[0]));
}

void read_dynamic(TypeInput& in, Variant& value) {
	TypeInput::recursion_t tag(in);
	uint16_t code[VNX_MAX_BYTE_CODE_SIZE];
	const size_t len = read_byte_code(in, code);
	if(len == 1 && code[0] == CODE_NULL) { value.clear(); return; }
	if(code[0] == CODE_DYNAMIC) { read_dynamic(in, value); return; }
	value.data.clear();
	append_code(value.data, code, len);
	copy_value(in, value.data, code, 0);
}

void read(TypeInput& in, Variant& value, const TypeCode* tc, const uint16_t* code) {
	if(!code || code[0] == CODE_DYNAMIC || code[0] == CODE_ALT_DYNAMIC) { read_dynamic(in, value); return; }
	if(code[0] == CODE_NULL) { value.clear(); return; }
	if(code[0] == CODE_STRUCT) { skip(in, tc, code); value.clear(); return; }
	// non-dynamic code: take it over as is
	uint16_t tmp[VNX_MAX_BYTE_CODE_SIZE];
	size_t len = code_size(code);
	::memcpy(tmp, code, len * 2);
	value.data.clear();
	append_code(value.data, tmp, len);
	copy_value(in, value.data, tmp, 0);
}
size_t code_size(const uint16_t* code) {
	switch(code[0]) {
		case CODE_ARRAY: case CODE_ALT_ARRAY: return 2 + code_size(code + 2);
		case CODE_LIST: case CODE_ALT_LIST: case CODE_OPTIONAL: case CODE_ALT_OPTIONAL: return 1 + code_size(code + 1);
		case CODE_MAP: return code[1] + code_size(code + code[1]);
		case CODE_TUPLE: return code[1] ? code[1 + code[1]] + code_size(code + code[1 + code[1]]) : 2;
		case CODE_STRUCT: return 2;
	}
	return 1;
}
void write(TypeOutput& out, const Variant& value, const TypeCode*, const uint16_t*) {
	if(value.data.size() < 4) { const uint16_t c[2] = {1, 0}; out.write(c, 4); }
	else out.write(value.data.data(), value.data.size());
}

// ---------------------------------------------------------------- scalars

template<typename T>
static void read_scalar(TypeInput& in, T& value, const TypeCode* tc, const uint16_t* code) {
	if(!code) { in.read(&value, sizeof(T)); return; }
	uint8_t buf[8];
	switch(code[0]) {
		case CODE_BOOL: case CODE_ALT_BOOL: case CODE_UINT8: case CODE_ALT_UINT8: { in.read(buf, 1); value = T(buf[0]); return; }
		case CODE_INT8: case CODE_ALT_INT8: { in.read(buf, 1); value = T(int8_t(buf[0])); return; }
		case CODE_UINT16: case CODE_INT16: in.read(buf, 2); break;
		case CODE_UINT32: case CODE_INT32: case CODE_FLOAT: in.read(buf, 4); break;
		case CODE_UINT64: case CODE_INT64: case CODE_DOUBLE: in.read(buf, 8); break;
		case CODE_ALT_UINT16: { uint16_t t; in.read(&t, 2); value = T(flip_bytes(t)); return; }
		case CODE_ALT_UINT32: { uint32_t t; in.read(&t, 4); value = T(flip_bytes(t)); return; }
		case CODE_ALT_UINT64: { uint64_t t; in.read(&t, 8); value = T(flip_bytes(t)); return; }
		case CODE_ALT_INT16: { int16_t t; in.read(&t, 2); value = T(flip_bytes(t)); return; }
		case CODE_ALT_INT32: { int32_t t; in.read(&t, 4); value = T(flip_bytes(t)); return; }
		case CODE_ALT_INT64: { int64_t t; in.read(&t, 8); value = T(flip_bytes(t)); return; }
		case CODE_DYNAMIC: case CODE_ALT_DYNAMIC: read_dynamic(in, value); return;
		case CODE_OPTIONAL: { in.read(buf, 1); if(buf[0]) read_scalar(in, value, tc, code + 1); else value = T(); return; }
		case CODE_STRING: case CODE_ALT_STRING: { std::string s; read(in, s, tc, code); std::istringstream ss(s); double d = 0; int64_t i = 0; if(ss >> i) value = T(i); (void)d; return; }
		default: value = T(); skip(in, tc, code); return;
	}
	read_value(buf, value, code);
}
template<typename T>
static void write_scalar(TypeOutput& out, const T& value, const uint16_t* code) {
	if(code && code[0] == CODE_DYNAMIC) { write(out, Variant(value), nullptr, code); return; }
	::memcpy(out.write(sizeof(T)), &value, sizeof(T));
}

#define NUM(T) \
	void read(TypeInput& in, T& value, const TypeCode* tc, const uint16_t* code) { read_scalar(in, value, tc, code); } \
	void write(TypeOutput& out, const T& value, const TypeCode*, const uint16_t* code) { write_scalar(out, value, code); } \
	void read(std::istream& in, T& value) { value = vnx::read(in).to<T>(); } \
	void accept(Visitor& v, const T& value) { visit_(v, value); }
static void visit_(Visitor& v, const bool& x) { v.visit(x); }
template<typename T> static typename std::enable_if<std::is_unsigned<T>::value>::type visit_(Visitor& v, const T& x) { v.visit(uint64_t(x)); }
template<typename T> static typename std::enable_if<std::is_signed<T>::value && std::is_integral<T>::value>::type visit_(Visitor& v, const T& x) { v.visit(int64_t(x)); }
template<typename T> static typename std::enable_if<std::is_floating_point<T>::value>::type visit_(Visitor& v, const T& x) { v.visit(double(x)); }
VNXLITE_SCALARS(NUM)
#undef NUM
void write(std::ostream& out, const bool& v) { out << (v ? "true" : "false"); }
void write(std::ostream& out, const uint8_t& v) { out << uint32_t(v); }
void write(std::ostream& out, const int8_t& v) { out << int32_t(v); }
void write(std::ostream& out, const char& v) { out << int32_t(v); }
void write(std::ostream& out, const uint16_t& v) { out << v; }
void write(std::ostream& out, const uint32_t& v) { out << v; }
void write(std::ostream& out, const uint64_t& v) { out << v; }
void write(std::ostream& out, const int16_t& v) { out << v; }
void write(std::ostream& out, const int32_t& v) { out << v; }
void write(std::ostream& out, const int64_t& v) { out << v; }
void write(std::ostream& out, const long long& v) { out << v; }
void write(std::ostream& out, const unsigned long long& v) { out << v; }
static void write_double(std::ostream& out, double v, int prec) { if(std::isfinite(v)) { char b[64]; ::snprintf(b, sizeof(b), "%.*g", prec, v); std::string s = b; if(s.find_first_of(".eE") == std::string::npos) s += ".0"; out << s; } else out << "null"; }
void write(std::ostream& out, const float& v) { write_double(out, v, 9); }
void write(std::ostream& out, const double& v) { write_double(out, v, 17); }

// Hash64
void read(TypeInput& in, Hash64& v, const TypeCode* tc, const uint16_t* code) { read_scalar(in, v.value, tc, code); }
void write(TypeOutput& out, const Hash64& v, const TypeCode*, const uint16_t* code) { write_scalar(out, v.value, code); }
void read(std::istream& in, Hash64& v) { v.value = vnx::read(in).to<uint64_t>(); }
void write(std::ostream& out, const Hash64& v) { out << '"' << v.to_string() << '"'; }
void accept(Visitor& vis, const Hash64& v) { vis.visit(v.value); }

// TypeCode (only passed through the module interface)
void read(TypeInput& in, TypeCode&, const TypeCode* tc, const uint16_t* code) { std::string s; read(in, s, tc, code); }
void write(TypeOutput& out, const TypeCode& v, const TypeCode* tc, const uint16_t* code) { write(out, v.name, tc, code); }
void read(std::istream& in, TypeCode&) { vnx::read(in); }
void write(std::ostream& out, const TypeCode& v) { write(out, v.name); }
void accept(Visitor& vis, const TypeCode& v) { vis.visit(v.name); }

// Buffer
void read(TypeInput& in, Buffer& v, const TypeCode* tc, const uint16_t* code) { std::vector<uint8_t> t; read(in, t, tc, code); v = Buffer(t); }
void write(TypeOutput& out, const Buffer& v, const TypeCode* tc, const uint16_t* code) { write(out, v.as_vector(), tc, code); }
void read(std::istream& in, Buffer& v) { v = Buffer(vnx::read(in).to<std::vector<uint8_t>>()); }
void write(std::ostream& out, const Buffer& v) { write(out, v.as_vector()); }
void accept(Visitor& vis, const Buffer& v) { vis.visit(v.data(), v.size()); }

// string
void read(TypeInput& in, std::string& v, const TypeCode* tc, const uint16_t* code) {
	v.clear();
	if(code) {
		switch(code[0]) {
			case CODE_STRING: case CODE_ALT_STRING: break;
			case CODE_DYNAMIC: case CODE_ALT_DYNAMIC: read_dynamic(in, v); return;
			case CODE_OPTIONAL: { uint8_t f = 0; in.read(&f, 1); if(f) read(in, v, tc, code + 1); return; }
			case CODE_LIST:
				if(code[1] == CODE_UINT8 || code[1] == CODE_INT8) break;
				// fallthrough
			default: {
				Variant tmp;
				read(in, tmp, tc, code);
				v = tmp.to_string();
				return;
			}
		}
	}
	uint64_t n = detail::read_size(in, code && code[0] == CODE_ALT_STRING);
	while(n) {
		const size_t k = std::min<uint64_t>(n, 65536);
		const auto* p = in.InputBuffer::read(k);
		v.append(p, k);
		n -= k;
	}
}
void write(TypeOutput& out, const std::string& v, const TypeCode*, const uint16_t* code) {
	if(code && code[0] == CODE_DYNAMIC) { write(out, Variant(v), nullptr, code); return; }
	detail::write_size(out, v.size());
	out.OutputBuffer::write(v.data(), v.size());
}
void read(std::istream& in, std::string& v) { v = vnx::read(in).to_string_value(); }
void write(std::ostream& out, const std::string& v) { out << escape_json(v); }
void write(std::ostream& out, const char* v) { out << escape_json(v); }
void accept(Visitor& vis, const std::string& v) { vis.visit(v); }

// Object
void read(TypeInput& in, Object& v, const TypeCode* tc, const uint16_t* code) {
	TypeInput::recursion_t tag(in);
	v.clear();
	if(code) {
		switch(code[0]) {
			case CODE_OBJECT: case CODE_ALT_OBJECT: break;
			case CODE_DYNAMIC: case CODE_ALT_DYNAMIC: read_dynamic(in, v); return;
			case CODE_ANY: { if(auto val = vnx::read(in)) v = val->to_object(); return; }
			case CODE_MAP: { std::map<std::string, Variant> tmp; read(in, tmp, tc, code); v.field = tmp; return; }
			default: skip(in, tc, code); return;
		}
	}
	const size_t n = detail::read_size(in, code && code[0] == CODE_ALT_OBJECT);
	for(size_t i = 0; i < n; ++i) {
		std::string key;
		const uint16_t sc = code && code[0] == CODE_ALT_OBJECT ? CODE_ALT_STRING : CODE_STRING;
		read(in, key, nullptr, &sc);
		read_dynamic(in, v.field[key]);
	}
}
void write(TypeOutput& out, const Object& v, const TypeCode*, const uint16_t* code) {
	if(code && code[0] == CODE_DYNAMIC) { write(out, Variant(v), nullptr, code); return; }
	detail::write_size(out, v.field.size());
	for(const auto& e : v.field) { write(out, e.first); write(out, e.second); }
}
void read(std::istream& in, Object& v) { v = vnx::read(in).to_object(); }
void write(std::ostream& out, const Object& v) {
	out << "{";
	size_t i = 0;
	for(const auto& e : v.field) { if(i++) out << ", "; out << escape_json(e.first) << ": "; write(out, e.second); }
	out << "}";
}
void accept(Visitor& vis, const Object& v) {
	vis.map_begin(v.field.size());
	size_t i = 0;
	for(const auto& e : v.field) { vis.map_key(i); vis.visit(e.first); vis.map_value(i); accept(vis, e.second); ++i; }
	vis.map_end(v.field.size());
}
std::string Object::get_type_name() const { return (*this)["__type"].to_string_value(); }
std::string Object::to_string() const { std::ostringstream ss; vnx::write(ss, *this); return ss.str(); }

// ---------------------------------------------------------------- polymorphic values

static void read_type_code_blob(TypeInput& in) {
	// skips a serialized type code (only needed for files written by the original library)
	auto u8 = [&]() { uint8_t v; in.read(&v, 1); return v; };
	auto u16 = [&]() { uint16_t v; in.read(&v, 2); return v; };
	auto u32 = [&]() { uint32_t v; in.read(&v, 4); return v; };
	auto str = [&]() { std::string s; read(in, s); return s; };
	u16(); u16();
	in.InputBuffer::read(16);
	u32(); u32();
	for(uint32_t n = u32(); n; --n) in.InputBuffer::read(8);
	for(uint32_t n = u32(); n; --n) in.InputBuffer::read(8);
	str();
	auto fields = [&]() {
		for(uint32_t n = u32(); n; --n) {
			u16(); u16();
			u8(); str();
			for(uint32_t k = u32(); k; --k) u16();
			str();
			u16(); u16();
			u8();
		}
	};
	fields();
	fields();
	u32();
	for(uint32_t n = u32(); n; --n) { u32(); str(); }
	(void)u8;
	// trailer
	for(int i = 0; i < 13; ++i) u16();
	in.InputBuffer::read(8);
}

std::shared_ptr<Value> read(TypeInput& in) {
	TypeInput::recursion_t tag(in);
	while(true) {
		uint16_t code = 0;
		in.InputBuffer::read(&code, 2);
		switch(code) {
			case CODE_NULL: return nullptr;
			case CODE_MAGIC: in.InputBuffer::read(2); break;
			case CODE_TYPE_CODE: read_type_code_blob(in); break;
			case CODE_CLASS: {
				uint64_t hash = 0;
				in.InputBuffer::read(&hash, 8);
				const auto* tc = get_type_code_by_code_hash(Hash64(hash));
				if(!tc || !tc->create_value) throw std::runtime_error("vnx::read(): unknown type code");
				auto value = tc->create_value();
				value->read(in, tc, nullptr);
				return value;
			}
			default: throw std::runtime_error("vnx::read(): invalid code " + std::to_string(code));
		}
	}
}
void read(TypeInput& in, std::shared_ptr<Value>& value, const TypeCode* tc, const uint16_t* code) {
	value = nullptr;
	if(code) {
		switch(code[0]) {
			case CODE_ANY: case CODE_ALT_ANY: break;
			case CODE_NULL: return;
			case CODE_DYNAMIC: case CODE_ALT_DYNAMIC: {
				Variant tmp;
				read_dynamic(in, tmp);
				value = tmp.to_value();
				return;
			}
			case CODE_OBJECT: case CODE_ALT_OBJECT: {
				Object obj;
				read(in, obj, tc, code);
				value = create(obj.get_type_name());
				if(value) value->from_object(obj);
				return;
			}
			case CODE_OPTIONAL: { uint8_t f = 0; in.InputBuffer::read(&f, 1); if(f) read(in, value, tc, code + 1); return; }
			default: skip(in, tc, code); return;
		}
	}
	value = read(in);
}
void read(TypeInput& in, std::shared_ptr<const Value>& value, const TypeCode* tc, const uint16_t* code) {
	std::shared_ptr<Value> tmp; read(in, tmp, tc, code); value = tmp;
}
void write(TypeOutput& out, const std::shared_ptr<const Value>& value, const TypeCode*, const uint16_t* code) {
	if(code && code[0] == CODE_DYNAMIC) { Variant tmp; assign_value_(tmp, value); write(out, tmp, nullptr, code); return; }
	if(!value) { const uint16_t c = 0; out.write(&c, 2); return; }
	value->write(out, nullptr, nullptr);
}
void write_value_ptr(std::ostream& out, const Value* value) { if(value) value->write(out); else out << "null"; }
void accept_value_ptr(Visitor& v, const Value* value) { if(value) value->accept(v); else v.visit_null(); }

void assign_value_(Variant& var, const std::shared_ptr<const Value>& value) {
	var.data.clear();
	if(!value) return;
	VectorOutputStream stream(&var.data);
	TypeOutput out(&stream);
	const uint16_t c[2] = {1, CODE_ANY};
	out.write(c, 4);
	write(out, value, nullptr, nullptr);
	out.flush();
}

// ---------------------------------------------------------------- Variant

static bool to_int(const Variant& v, int64_t& i, bool& neg) {
	if(v.is_ulong()) { uint64_t u; v.to(u); i = int64_t(u); neg = false; return true; }
	if(v.is_long()) { v.to(i); neg = i < 0; return true; }
	return false;
}
int Variant::compare(const Variant& o) const {
	if(data == o.data) return 0;
	int64_t a, b; bool na, nb;
	if(to_int(*this, a, na) && to_int(o, b, nb)) {
		if(na != nb) return na ? -1 : 1;
		if(na) return a < b ? -1 : (a > b ? 1 : 0);
		return uint64_t(a) < uint64_t(b) ? -1 : (uint64_t(a) > uint64_t(b) ? 1 : 0);
	}
	if(is_string() && o.is_string()) { const auto x = to<std::string>(), y = o.to<std::string>(); return x < y ? -1 : (x == y ? 0 : 1); }
	return data < o.data ? -1 : 1;
}
Object Variant::to_object() const {
	if(is_object()) return to<Object>();
	if(get_code() == CODE_MAP) { Object o; o.field = to<std::map<std::string, Variant>>(); return o; }
	return Object();
}
std::shared_ptr<Value> Variant::to_value() const {
	if(get_code() == CODE_ANY) {
		VectorInputStream stream(&data);
		TypeInput in(&stream);
		in.InputBuffer::read(4);
		return read(in);
	}
	if(is_object()) {
		const auto obj = to_object();
		auto value = create(obj.get_type_name());
		if(value) value->from_object(obj);
		return value;
	}
	return nullptr;
}
Variant Variant::operator[](const std::string& key) const { return to_object()[key]; }
Variant::operator bool() const {
	if(is_null()) return false;
	if(is_bool()) return to<bool>();
	if(is_ulong()) return to<uint64_t>() != 0;
	if(is_long()) return to<int64_t>() != 0;
	if(is_double()) return to<double>() != 0;
	return true;
}
template<> void Variant::to(std::string& value) const {
	if(is_string()) {
		VectorInputStream stream(&data);
		TypeInput in(&stream);
		in.InputBuffer::read(4);
		const uint16_t c = get_code();
		read(in, value, nullptr, &c);
	} else if(is_null()) {
		value.clear();
	} else {
		value = to_string();
	}
}
template<> void Variant::to(bool& value) const {
	if(is_bool()) value = data.size() > 4 && data[4];
	else if(is_string()) { const auto s = to<std::string>(); value = s == "true"; }
	else value = bool(*this);
}

static void print(std::ostream& out, TypeInput& in, const uint16_t* code, size_t depth) {
	if(depth > 100) throw std::runtime_error("maximum recursion reached");
	switch(code[0]) {
		case CODE_NULL: out << "null"; return;
		case CODE_BOOL: case CODE_ALT_BOOL: { uint8_t b; in.InputBuffer::read(&b, 1); out << (b ? "true" : "false"); return; }
		case CODE_UINT8: case CODE_UINT16: case CODE_UINT32: case CODE_UINT64:
		case CODE_ALT_UINT8: case CODE_ALT_UINT16: case CODE_ALT_UINT32: case CODE_ALT_UINT64: { uint64_t v; read(in, v, nullptr, code); out << v; return; }
		case CODE_INT8: case CODE_INT16: case CODE_INT32: case CODE_INT64:
		case CODE_ALT_INT8: case CODE_ALT_INT16: case CODE_ALT_INT32: case CODE_ALT_INT64: { int64_t v; read(in, v, nullptr, code); out << v; return; }
		case CODE_FLOAT: case CODE_DOUBLE: { double v; read(in, v, nullptr, code); write(out, v); return; }
		case CODE_STRING: case CODE_ALT_STRING: { std::string v; read(in, v, nullptr, code); out << escape_json(v); return; }
		case CODE_LIST: case CODE_ARRAY: {
			const size_t n = code[0] == CODE_LIST ? detail::read_size(in, false) : code[1];
			out << "[";
			for(size_t i = 0; i < n; ++i) { if(i) out << ", "; print(out, in, code + (code[0] == CODE_LIST ? 1 : 2), depth + 1); }
			out << "]";
			return;
		}
		case CODE_TUPLE:
			out << "[";
			for(size_t i = 0; i < code[1]; ++i) { if(i) out << ", "; print(out, in, code + code[2 + i], depth + 1); }
			out << "]";
			return;
		case CODE_MAP: {
			const size_t n = detail::read_size(in, false);
			const bool s = code[2] == CODE_STRING;
			out << (s ? "{" : "[");
			for(size_t i = 0; i < n; ++i) {
				if(i) out << ", ";
				if(!s) out << "[";
				print(out, in, code + 2, depth + 1);
				out << (s ? ": " : ", ");
				print(out, in, code + code[1], depth + 1);
				if(!s) out << "]";
			}
			out << (s ? "}" : "]");
			return;
		}
		case CODE_OPTIONAL: { uint8_t f; in.InputBuffer::read(&f, 1); if(f) print(out, in, code + 1, depth + 1); else out << "null"; return; }
		case CODE_OBJECT: {
			const size_t n = detail::read_size(in, false);
			out << "{";
			for(size_t i = 0; i < n; ++i) {
				std::string key; read(in, key);
				if(i) out << ", ";
				out << escape_json(key) << ": ";
				uint16_t tmp[VNX_MAX_BYTE_CODE_SIZE];
				read_byte_code(in, tmp);
				print(out, in, tmp, depth + 1);
			}
			out << "}";
			return;
		}
		case CODE_DYNAMIC: { uint16_t tmp[VNX_MAX_BYTE_CODE_SIZE]; read_byte_code(in, tmp); print(out, in, tmp, depth + 1); return; }
		case CODE_ANY: { auto v = read(in); write_value_ptr(out, v.get()); return; }
	}
	throw std::runtime_error("Variant::to_string(): invalid code");
}
void write(std::ostream& out, const Variant& v) {
	if(v.empty()) { out << "null"; return; }
	VectorInputStream stream(&v.data);
	TypeInput in(&stream);
	const uint16_t c = CODE_DYNAMIC;
	print(out, in, &c, 0);
}
std::string Variant::to_string() const { std::ostringstream ss; vnx::write(ss, *this); return ss.str(); }
std::string Variant::to_string_value() const { if(is_string()) return to<std::string>(); return to_string(); }
void Variant::accept(Visitor& v) const { vnx::accept(v, *this); }

static void accept_dyn(Visitor& vis, const Variant& v) {
	if(v.is_null()) vis.visit_null();
	else if(v.is_bool()) vis.visit(v.to<bool>());
	else if(v.is_ulong()) vis.visit(v.to<uint64_t>());
	else if(v.is_long()) vis.visit(v.to<int64_t>());
	else if(v.is_double()) vis.visit(v.to<double>());
	else if(v.is_string()) vis.visit(v.to<std::string>());
	else if(v.is_array()) {
		uint16_t c[2] = {};
		if(v.size() >= 6) ::memcpy(c, v.data.data() + 2, 4);
		if((c[0] == CODE_LIST || c[0] == CODE_ALT_LIST) && c[1] == CODE_UINT8) accept(vis, v.to<std::vector<uint8_t>>());
		else accept(vis, v.to<std::vector<Variant>>());
	}
	else if(v.get_code() == CODE_MAP || v.get_code() == CODE_ALT_MAP) accept(vis, v.to<std::map<Variant, Variant>>());
	else if(v.is_value()) { auto p = v.to_value(); accept_value_ptr(vis, p.get()); }
	else if(v.is_object()) accept(vis, v.to_object());
	else vis.visit_null();
}
void accept(Visitor& vis, const Variant& v) { accept_dyn(vis, v); }
void read(std::istream& in, Variant& v) { v = vnx::read(in); }

// ---------------------------------------------------------------- JSON

static void ws(std::istream& in) {
	while(true) {
		const int c = in.peek();
		if(c == ' ' || c == '\t' || c == '\n' || c == '\r') in.get();
		else if(c == '/') {	// comments
			in.get();
			if(in.peek() == '/') { while(in.good() && in.get() != '\n'); }
			else if(in.peek() == '*') { in.get(); int p = 0; while(in.good()) { const int d = in.get(); if(p == '*' && d == '/') break; p = d; } }
			else { in.unget(); return; }
		}
		else return;
	}
}
static void utf8(std::string& out, uint32_t c) {
	if(c < 0x80) out += char(c);
	else if(c < 0x800) { out += char(0xC0 | (c >> 6)); out += char(0x80 | (c & 63)); }
	else if(c < 0x10000) { out += char(0xE0 | (c >> 12)); out += char(0x80 | ((c >> 6) & 63)); out += char(0x80 | (c & 63)); }
	else { out += char(0xF0 | (c >> 18)); out += char(0x80 | ((c >> 12) & 63)); out += char(0x80 | ((c >> 6) & 63)); out += char(0x80 | (c & 63)); }
}
static std::string read_quoted(std::istream& in) {
	std::string out;
	const char q = in.get();
	while(true) {
		int c = in.get();
		if(!in.good()) throw std::runtime_error("JSON: unexpected end of string");
		if(c == q) break;
		if(c == '\\') {
			c = in.get();
			switch(c) {
				case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break;
				case 'r': out += '\r'; break; case 't': out += '\t'; break;
				case 'u': { char b[5] = {}; in.read(b, 4); utf8(out, std::strtoul(b, nullptr, 16)); break; }
				default: out += char(c);
			}
		} else out += char(c);
	}
	return out;
}
static Variant parse_token(const std::string& t, bool is_quoted) {
	if(is_quoted) return Variant(t);
	if(t == "null") return Variant();
	if(t == "true") return Variant(true);
	if(t == "false") return Variant(false);
	bool num = !t.empty(), dot = false, digit = false;
	for(size_t i = 0; i < t.size(); ++i) {
		const char c = t[i];
		if(c >= '0' && c <= '9') digit = true;
		else if((c == '-' || c == '+') && (i == 0 || t[i-1] == 'e' || t[i-1] == 'E')) {}
		else if((c == '.' || c == 'e' || c == 'E') && digit) dot = true;
		else { num = false; break; }
	}
	if(num && digit) {
		try {
			if(!dot) {
				if(t[0] == '-') return Variant(int64_t(std::stoll(t)));
				return Variant(uint64_t(std::stoull(t)));
			}
			return Variant(std::stod(t));
		} catch(const std::out_of_range&) {
			return Variant(std::stod(t));
		}
	}
	return Variant(t);
}
static Variant parse(std::istream& in, int depth) {
	if(depth > 100) throw std::runtime_error("JSON: maximum recursion reached");
	ws(in);
	const int c = in.peek();
	if(c == '{') {
		in.get();
		Object obj;
		while(true) {
			ws(in);
			int d = in.peek();
			if(d == '}') { in.get(); break; }
			if(d == ',') { in.get(); continue; }
			if(!in.good()) throw std::runtime_error("JSON: unexpected end");
			std::string key;
			if(d == '"' || d == '\'') key = read_quoted(in);
			else while(in.good() && in.peek() != ':' && in.peek() != ' ') key += char(in.get());
			ws(in);
			if(in.get() != ':') throw std::runtime_error("JSON: expected ':'");
			obj.field[key] = parse(in, depth + 1);
		}
		return Variant(obj);
	}
	if(c == '[') {
		in.get();
		std::vector<Variant> list;
		while(true) {
			ws(in);
			int d = in.peek();
			if(d == ']') { in.get(); break; }
			if(d == ',') { in.get(); continue; }
			if(!in.good()) throw std::runtime_error("JSON: unexpected end");
			list.push_back(parse(in, depth + 1));
		}
		return Variant(list);
	}
	if(c == '"' || c == '\'') return parse_token(read_quoted(in), true);
	std::string tok;
	while(true) {
		const int d = in.peek();
		if(!in.good() || d == ',' || d == ']' || d == '}' || d == ':' || d == ' ' || d == '\n' || d == '\t' || d == '\r') break;
		tok += char(in.get());
	}
	if(tok.empty()) return Variant();
	return parse_token(tok, false);
}
Variant read(std::istream& in) { return parse(in, 0); }

template<> void from_string_value(const std::string& str, Variant& value) {
	if(str.empty()) { value = Variant(str); return; }
	const char c = str[0];
	if(c == '{' || c == '[') { std::istringstream ss(str); value = parse(ss, 0); return; }
	if(c == '"') { std::istringstream ss(str); value = parse(ss, 0); return; }
	value = parse_token(str, false);
}

} // vnx
