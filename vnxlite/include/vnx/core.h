// vnxlite: a small, independent stand-in for the parts of vnx-base that mmx-node needs.
// Only used by the verification harnesses; the submodule is absent from the pinned tree.
#ifndef VNXLITE_CORE_H_
#define VNXLITE_CORE_H_

#include <cstdint>
#include <cstring>
#include <cstdio>
#include <string>
#include <vector>
#include <array>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <functional>
#include <stdexcept>
#include <iostream>
#include <sstream>
#include <limits>
#include <mutex>
#include <atomic>
#include <condition_variable>
#include <thread>
#include <tuple>
#include <type_traits>
#include <optional>
#include <algorithm>
#include <cmath>
#include <queue>
#include <deque>
#include <chrono>
#include <fstream>
#include <iomanip>
#include <random>

#define VNX_EXPORT
#define VNX_ADDONS_EXPORT
#define VNX_MAX_BYTE_CODE_SIZE 4096

namespace vnx {

typedef float float32_t;
typedef double float64_t;

typedef bool bool_t;

enum code_e : uint16_t {
	CODE_NULL = 0, CODE_UINT8 = 1, CODE_UINT16 = 2, CODE_UINT32 = 3, CODE_UINT64 = 4,
	CODE_INT8 = 5, CODE_INT16 = 6, CODE_INT32 = 7, CODE_INT64 = 8, CODE_FLOAT = 9, CODE_DOUBLE = 10,
	CODE_ARRAY = 11, CODE_LIST = 12, CODE_MAP = 13, CODE_TYPE_CODE = 14, CODE_CLASS = 15, CODE_ANY = 16,
	CODE_DYNAMIC = 17, CODE_STRUCT = 19, CODE_TUPLE = 23, CODE_OBJECT = 24, CODE_BOOL = 31, CODE_STRING = 32,
	CODE_OPTIONAL = 33, CODE_MAGIC = 0xFFFF,
#define VNXLITE_ALT(x) CODE_ALT_##x = uint16_t(uint16_t(CODE_##x) << 8)
	VNXLITE_ALT(UINT8), VNXLITE_ALT(UINT16), VNXLITE_ALT(UINT32), VNXLITE_ALT(UINT64),
	VNXLITE_ALT(INT8), VNXLITE_ALT(INT16), VNXLITE_ALT(INT32), VNXLITE_ALT(INT64),
	VNXLITE_ALT(FLOAT), VNXLITE_ALT(DOUBLE), VNXLITE_ALT(ARRAY), VNXLITE_ALT(LIST), VNXLITE_ALT(MAP),
	VNXLITE_ALT(TYPE_CODE), VNXLITE_ALT(CLASS), VNXLITE_ALT(ANY), VNXLITE_ALT(DYNAMIC), VNXLITE_ALT(STRUCT),
	VNXLITE_ALT(TUPLE), VNXLITE_ALT(OBJECT), VNXLITE_ALT(BOOL), VNXLITE_ALT(STRING), VNXLITE_ALT(OPTIONAL)
#undef VNXLITE_ALT
};

inline uint8_t flip_bytes(const uint8_t& v) { return v; }
inline int8_t flip_bytes(const int8_t& v) { return v; }
inline uint16_t flip_bytes(const uint16_t& v) { return __builtin_bswap16(v); }
inline uint32_t flip_bytes(const uint32_t& v) { return __builtin_bswap32(v); }
inline uint64_t flip_bytes(const uint64_t& v) { return __builtin_bswap64(v); }
inline int16_t flip_bytes(const int16_t& v) { return __builtin_bswap16(v); }
inline int32_t flip_bytes(const int32_t& v) { return __builtin_bswap32(v); }
inline int64_t flip_bytes(const int64_t& v) { return __builtin_bswap64(v); }
template<typename T> T to_little_endian(T v) { return v; }
template<typename T> T from_little_endian(T v) { return v; }
template<typename T> T to_big_endian(T v) { return flip_bytes(v); }
template<typename T> T from_big_endian(T v) { return flip_bytes(v); }

uint64_t hash64(const std::string& str);
uint64_t hash64(const void* data, size_t size);
uint64_t rand64();

class CRC64 {
public:
	void update(const void* data, size_t size);
	void update(const std::string& s) { update(s.data(), s.size()); }
	template<typename T> void update(const T& v) { update(&v, sizeof(v)); }
	uint64_t get() const { return crc; }
private:
	uint64_t crc = 0;
};

class Hash64 {
public:
	uint64_t value = 0;
	Hash64() {}
	template<typename I, typename = typename std::enable_if<std::is_integral<I>::value>::type>
	explicit Hash64(I v) : value(v) {}
	explicit Hash64(const std::string& s) : value(hash64(s)) {}
	explicit Hash64(const char* s) : value(hash64(std::string(s))) {}
	Hash64(const void* data, size_t size) : value(hash64(data, size)) {}
	Hash64(const Hash64& a, const Hash64& b) { const uint64_t t[2] = {a.value, b.value}; value = hash64(t, 16); }
	static Hash64 rand() { return Hash64(rand64()); }
	operator uint64_t() const { return value; }
	bool operator==(const Hash64& o) const { return value == o.value; }
	bool operator!=(const Hash64& o) const { return value != o.value; }
	bool operator<(const Hash64& o) const { return value < o.value; }
	bool is_zero() const { return value == 0; }
	std::string to_string() const;
};
inline std::ostream& operator<<(std::ostream& out, const Hash64& h) { return out << h.to_string(); }

} // vnx
namespace std {
template<> struct hash<vnx::Hash64> { size_t operator()(const vnx::Hash64& x) const { return x.value; } };
}
namespace vnx {

typedef Hash64 hash64_t;

// ---------------------------------------------------------------- optional

template<typename T>
class optional {
public:
	typedef T value_type;
	optional() {}
	optional(std::nullptr_t) {}
	optional(const optional&) = default;
	optional(optional&&) = default;
	optional(const T& v) : val(v) {}
	template<typename U, typename = typename std::enable_if<std::is_convertible<U, T>::value && !std::is_same<typename std::decay<U>::type, optional<T>>::value
		&& !std::is_same<typename std::decay<U>::type, std::nullptr_t>::value && !std::is_same<typename std::decay<U>::type, T>::value>::type>
	optional(const U& v) : val(T(v)) {}
	optional(const std::shared_ptr<T>& p) { if(p) val = *p; }
	optional(const T* p) { if(p) val = *p; }
	optional& operator=(const optional&) = default;
	optional& operator=(optional&&) = default;
	optional& operator=(const T& v) { val = v; return *this; }
	template<typename U, typename = typename std::enable_if<std::is_convertible<U, T>::value && !std::is_same<typename std::decay<U>::type, optional<T>>::value
		&& !std::is_same<typename std::decay<U>::type, std::nullptr_t>::value && !std::is_same<typename std::decay<U>::type, T>::value>::type>
	optional& operator=(const U& v) { val = T(v); return *this; }
	optional& operator=(std::nullptr_t) { val.reset(); return *this; }
	void reset() { val.reset(); }
	void reset(const T& v) { val = v; }
	operator bool() const { return val.has_value(); }
	bool has_value() const { return val.has_value(); }
	T& operator*() { return check(); }
	const T& operator*() const { return check(); }
	T* operator->() { return &check(); }
	const T* operator->() const { return &check(); }
	T* get() { return val ? &*val : nullptr; }
	const T* get() const { return val ? &*val : nullptr; }
	bool operator==(const optional& o) const { return val == o.val; }
	bool operator!=(const optional& o) const { return !(val == o.val); }
	template<typename U, typename = typename std::enable_if<std::is_convertible<U, T>::value && !std::is_same<typename std::decay<U>::type, optional<T>>::value>::type>
	bool operator==(const U& o) const { return val && *val == T(o); }
	template<typename U, typename = typename std::enable_if<std::is_convertible<U, T>::value && !std::is_same<typename std::decay<U>::type, optional<T>>::value>::type>
	bool operator!=(const U& o) const { return !(val && *val == T(o)); }
	bool operator==(std::nullptr_t) const { return !val; }
	bool operator!=(std::nullptr_t) const { return bool(val); }
	bool operator<(const optional& o) const { return val < o.val; }
private:
	T& check() { if(!val) throw std::logic_error("optional: null dereference"); return *val; }
	const T& check() const { if(!val) throw std::logic_error("optional: null dereference"); return *val; }
	std::optional<T> val;
};

// ---------------------------------------------------------------- streams

class InputStream {
public:
	virtual ~InputStream() {}
	virtual size_t read(void* buf, size_t len) = 0;	// 0 = EOF
};
class OutputStream {
public:
	virtual ~OutputStream() {}
	virtual void write(const void* buf, size_t len) = 0;
	virtual void flush() {}
};
class VectorInputStream : public InputStream {
public:
	VectorInputStream(const std::vector<uint8_t>* v) : vec(v) {}
	size_t read(void* buf, size_t len) override {
		const size_t n = std::min(len, vec->size() - pos);
		if(n) ::memcpy(buf, vec->data() + pos, n);
		pos += n;
		return n;
	}
private:
	const std::vector<uint8_t>* vec;
	size_t pos = 0;
};
class VectorOutputStream : public OutputStream {
public:
	VectorOutputStream(std::vector<uint8_t>* v) : vec(v) {}
	void write(const void* buf, size_t len) override { vec->insert(vec->end(), (const uint8_t*)buf, (const uint8_t*)buf + len); }
private:
	std::vector<uint8_t>* vec;
};
class PointerInputStream : public InputStream {
public:
	PointerInputStream(const void* d, size_t n) : data((const uint8_t*)d), size(n) {}
	size_t read(void* buf, size_t len) override {
		const size_t n = std::min(len, size - pos);
		if(n) ::memcpy(buf, data + pos, n);
		pos += n;
		return n;
	}
private:
	const uint8_t* data;
	size_t size, pos = 0;
};
class Memory {
public:
	void clear() { data.clear(); }
	size_t get_size() const { return data.size(); }
	void add(const void* buf, size_t len) { data.insert(data.end(), (const uint8_t*)buf, (const uint8_t*)buf + len); }
	const std::vector<uint8_t>& get() const { return data; }
private:
	std::vector<uint8_t> data;
};
class MemoryOutputStream : public OutputStream {
public:
	MemoryOutputStream(Memory* m) : mem(m) {}
	void write(const void* buf, size_t len) override { mem->add(buf, len); }
private:
	Memory* mem;
};
class Buffer {
public:
	Buffer() {}
	Buffer(const Memory& m) : vec(m.get()) {}
	Buffer(const std::vector<uint8_t>& v) : vec(v) {}
	Buffer(const std::string& s) : vec(s.begin(), s.end()) {}
	Buffer& operator=(const Memory& m) { vec = m.get(); return *this; }
	Buffer& operator=(const std::string& s) { vec.assign(s.begin(), s.end()); return *this; }
	const uint8_t* data() const { return vec.data(); }
	uint8_t* data() { return vec.data(); }
	template<typename T> const T* data_at(size_t i) const { return (const T*)(vec.data() + i); }
	size_t size() const { return vec.size(); }
	size_t capacity() const { return vec.capacity(); }
	void resize(size_t n) { vec.resize(n); }
	void reserve(size_t n) { vec.reserve(n); }
	void clear() { vec.clear(); }
	bool empty() const { return vec.empty(); }
	const std::vector<uint8_t>& as_vector() const { return vec; }
	std::string as_string() const { return std::string(vec.begin(), vec.end()); }
	bool operator==(const Buffer& o) const { return vec == o.vec; }
	bool operator<(const Buffer& o) const { return vec < o.vec; }
private:
	std::vector<uint8_t> vec;
};

class InputBuffer {
public:
	InputBuffer(InputStream* s) : stream(s) {}
	virtual ~InputBuffer() {}
	// pointer valid until next read
	const char* read(size_t len) {
		if(end - pos < len) fetch(len);
		const char* p = buf.data() + pos;
		pos += len;
		return p;
	}
	void read(void* dst, size_t len) {
		char* out = (char*)dst;
		while(len) {
			size_t n = end - pos;
			if(n == 0) {
				if(len >= 4096) {
					n = stream->read(out, len);
					if(n == 0) throw std::underflow_error("EOF");
					direct += n;
					out += n; len -= n;
					continue;
				}
				fetch(1);
				n = end - pos;
			}
			n = std::min(n, len);
			::memcpy(out, buf.data() + pos, n);
			pos += n; out += n; len -= n;
		}
	}
	int64_t get_input_pos() const { return int64_t(total + direct) - int64_t(end - pos); }
	void reset() { pos = end = 0; total = direct = 0; }
	void reset(int64_t p) { reset(); total = p; }
private:
	void fetch(size_t len) {
		if(pos) {
			::memmove(buf.data(), buf.data() + pos, end - pos);
			end -= pos; pos = 0;
		}
		const size_t want = std::max<size_t>(len, 4096);
		if(buf.size() < want) buf.resize(want);
		while(end < len) {
			const size_t n = stream->read(buf.data() + end, buf.size() - end);
			if(n == 0) throw std::underflow_error("EOF");
			end += n; total += n;
		}
	}
protected:
	InputStream* stream;
private:
	std::vector<char> buf;
	size_t pos = 0, end = 0;
	uint64_t total = 0, direct = 0;
};

class OutputBuffer {
public:
	OutputBuffer(OutputStream* s) : stream(s), buf(16384) {}
	virtual ~OutputBuffer() {}
	char* write(size_t len) {
		if(buf.size() - pos < len) {
			flush_buffer();
			if(buf.size() < len) buf.resize(len);
		}
		char* p = buf.data() + pos;
		pos += len;
		return p;
	}
	void write(const void* src, size_t len) {
		if(len == 0) return;
		if(buf.size() - pos < len) {
			flush_buffer();
			if(len > buf.size()) {
				stream->write(src, len);
				total += len;
				return;
			}
		}
		::memcpy(buf.data() + pos, src, len);
		pos += len;
	}
	void flush() { flush_buffer(); stream->flush(); }
	void reset() { pos = 0; total = 0; }
	void reset(int64_t p) { pos = 0; total = p; }
	int64_t get_output_pos() const { return total + pos; }
	const void* get_buffer() const { return buf.data(); }
	size_t get_buffer_pos() const { return pos; }
private:
	void flush_buffer() {
		if(pos) {
			stream->write(buf.data(), pos);
			total += pos;
			pos = 0;
		}
	}
protected:
	OutputStream* stream;
private:
	std::vector<char> buf;
	size_t pos = 0;
	uint64_t total = 0;
};

class TypeCode;

class TypeInput : public InputBuffer {
public:
	TypeInput(InputStream* s) : InputBuffer(s) {}
	static const size_t MAX_RECURSION = 100;
	struct recursion_t {
		TypeInput& in;
		recursion_t(TypeInput& i) : in(i) {
			if(++in.recursion > MAX_RECURSION) { --in.recursion; throw std::runtime_error("TypeInput: maximum recursion reached"); }
		}
		~recursion_t() { --in.recursion; }
	};
	std::unordered_map<uint64_t, const TypeCode*> type_code_map;
private:
	size_t recursion = 0;
};

class TypeOutput : public OutputBuffer {
public:
	TypeOutput(OutputStream* s) : OutputBuffer(s) {}
	bool disable_type_codes = true;
	void write_type_code(const TypeCode*) {}	// reader and writer always share the native types here
};

typedef TypeInput BinaryInput;

// ---------------------------------------------------------------- forward declarations

class Value;
class Variant;
class Object;
class Visitor;
class Module;
struct TypeField;

template<typename T, typename Enable = void> struct type;
template<typename T> struct is_equivalent { bool operator()(const uint16_t*, const TypeCode*) { return false; } };

#define VNXLITE_SCALARS(X) X(bool) X(uint8_t) X(uint16_t) X(uint32_t) X(uint64_t) X(int8_t) X(int16_t) X(int32_t) X(int64_t) X(float) X(double) X(char) X(long long) X(unsigned long long)

#define X(T) \
	void read(TypeInput& in, T& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr); \
	void write(TypeOutput& out, const T& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr); \
	void read(std::istream& in, T& value); \
	void write(std::ostream& out, const T& value); \
	void accept(Visitor& visitor, const T& value);
VNXLITE_SCALARS(X)
X(std::string)
X(Variant)
X(Object)
X(Hash64)
X(Buffer)
X(TypeCode)
#undef X
void write(std::ostream& out, const char* value);

void read(TypeInput& in, std::shared_ptr<Value>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
void read(TypeInput& in, std::shared_ptr<const Value>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
void write(TypeOutput& out, const std::shared_ptr<const Value>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
inline void write(TypeOutput& out, std::nullptr_t, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr) { const uint16_t c = 0; out.write(&c, 2); }
void write_value_ptr(std::ostream& out, const Value* value);
void accept_value_ptr(Visitor& visitor, const Value* value);
std::shared_ptr<Value> read(TypeInput& in);

Variant read(std::istream& in);

// containers
#define VNXLITE_CONT(TEMPL, ...) \
	template<TEMPL> void read(TypeInput& in, __VA_ARGS__& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr); \
	template<TEMPL> void write(TypeOutput& out, const __VA_ARGS__& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr); \
	template<TEMPL> void read(std::istream& in, __VA_ARGS__& value); \
	template<TEMPL> void write(std::ostream& out, const __VA_ARGS__& value); \
	template<TEMPL> void accept(Visitor& visitor, const __VA_ARGS__& value);
#define VNXLITE_COMMA ,
VNXLITE_CONT(typename T, std::vector<T>)
VNXLITE_CONT(typename T, std::list<T>)
VNXLITE_CONT(typename T, std::set<T>)
VNXLITE_CONT(typename T, std::unordered_set<T>)
VNXLITE_CONT(typename T VNXLITE_COMMA size_t N, std::array<T VNXLITE_COMMA N>)
VNXLITE_CONT(typename K VNXLITE_COMMA typename V, std::map<K VNXLITE_COMMA V>)
VNXLITE_CONT(typename K VNXLITE_COMMA typename V, std::unordered_map<K VNXLITE_COMMA V>)
VNXLITE_CONT(typename K VNXLITE_COMMA typename V, std::pair<K VNXLITE_COMMA V>)
VNXLITE_CONT(typename T, optional<T>)
VNXLITE_CONT(typename T, std::shared_ptr<T>)
#undef VNXLITE_CONT
template<typename... Args> void read(TypeInput& in, std::tuple<Args...>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename... Args> void write(TypeOutput& out, const std::tuple<Args...>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename... Args> void read(std::istream& in, std::tuple<Args...>& value);
template<typename... Args> void write(std::ostream& out, const std::tuple<Args...>& value);
template<typename... Args> void accept(Visitor& visitor, const std::tuple<Args...>& value);

void skip(TypeInput& in, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
size_t read_byte_code(TypeInput& in, uint16_t* code);
size_t code_size(const uint16_t* code);	// number of words

// raw memory values
template<typename T> void write_value(void* buf, const T& value) { ::memcpy(buf, &value, sizeof(T)); }
inline void write_value(void* buf, const bool& value) { *(uint8_t*)buf = value ? 1 : 0; }
template<typename T, typename S> void convert_value_(const void* buf, T& value) { S tmp; ::memcpy(&tmp, buf, sizeof(S)); value = T(tmp); }
template<typename T>
void read_value(const void* buf, T& value, const uint16_t* code) {
	switch(code[0]) {
		case CODE_BOOL: case CODE_ALT_BOOL:
		case CODE_UINT8: case CODE_ALT_UINT8: convert_value_<T, uint8_t>(buf, value); break;
		case CODE_UINT16: convert_value_<T, uint16_t>(buf, value); break;
		case CODE_UINT32: convert_value_<T, uint32_t>(buf, value); break;
		case CODE_UINT64: convert_value_<T, uint64_t>(buf, value); break;
		case CODE_INT8: case CODE_ALT_INT8: convert_value_<T, int8_t>(buf, value); break;
		case CODE_INT16: convert_value_<T, int16_t>(buf, value); break;
		case CODE_INT32: convert_value_<T, int32_t>(buf, value); break;
		case CODE_INT64: convert_value_<T, int64_t>(buf, value); break;
		case CODE_FLOAT: convert_value_<T, float>(buf, value); break;
		case CODE_DOUBLE: convert_value_<T, double>(buf, value); break;
		default: throw std::runtime_error("read_value: unsupported code");
	}
}

template<typename T, size_t N>
void read_value(const void* buf, std::array<T, N>& value, const uint16_t* code) {
	value = std::array<T, N>{};
	if(code[0] != CODE_ARRAY || code[2] != (std::is_same<T, double>::value ? CODE_DOUBLE : std::is_same<T, float>::value ? CODE_FLOAT : sizeof(T) == 1 ? CODE_UINT8 : code[2])) return;
	::memcpy(value.data(), buf, sizeof(T) * std::min<size_t>(N, code[1]));
}

// ---------------------------------------------------------------- type codes

struct TypeField {
	bool is_extended = false;
	uint32_t data_size = 0;
	std::string name;
	std::string value;
	std::vector<uint16_t> code;
	uint32_t offset = 0;
	int32_t native_index = -1;
};

class TypeCode {
public:
	std::string name;
	Hash64 type_hash, code_hash;
	bool is_native = false, is_class = false, is_enum = false, is_method = false, is_return = false, is_const = false, is_async = false;
	Hash64 return_type_hash;
	size_t native_size = 0;
	const TypeCode* super = nullptr;
	const TypeCode* return_type = nullptr;
	std::string permission;
	std::vector<const TypeCode*> parents, depends, methods;
	std::vector<TypeField> fields, static_fields;
	std::vector<const TypeField*> ext_fields, field_map;
	std::map<uint32_t, std::string> enum_map;
	std::function<std::shared_ptr<Value>()> create_value;
	size_t total_field_size = 0;
	bool is_matched = true, is_equivalent = true;
	void build();
	bool is_void() const { return fields.empty(); }
};

const TypeCode* get_type_code(const Hash64& type_hash);
const TypeCode* get_type_code(const std::string& name);
const TypeCode* get_type_code_by_code_hash(const Hash64& code_hash);
const TypeCode* register_type_code(std::shared_ptr<TypeCode> type_code);
std::vector<const TypeCode*> get_all_type_codes();

template<typename T> void write_class_header(TypeOutput& out) {
	char* p = out.write(10);
	const uint16_t c = CODE_CLASS;
	const uint64_t h = T::VNX_CODE_HASH.value;
	::memcpy(p, &c, 2); ::memcpy(p + 2, &h, 8);
}

// ---------------------------------------------------------------- Variant / Object

template<typename T> struct is_object_s : std::false_type {};

class Variant {
public:
	std::vector<uint8_t> data;	// number of code words, code, value

	Variant() {}
	Variant(const Variant&) = default;
	Variant(Variant&&) = default;
	Variant(std::nullptr_t) {}
	template<typename T, typename = typename std::enable_if<!std::is_same<typename std::decay<T>::type, Variant>::value>::type>
	explicit Variant(const T& v) { assign(v); }
	Variant& operator=(const Variant&) = default;
	Variant& operator=(Variant&&) = default;
	Variant& operator=(std::nullptr_t) { data.clear(); return *this; }
	template<typename T, typename = typename std::enable_if<!std::is_same<typename std::decay<T>::type, Variant>::value>::type>
	Variant& operator=(const T& v) { assign(v); return *this; }

	void clear() { data.clear(); }
	bool empty() const { return data.empty(); }
	size_t size() const { return data.size(); }
	uint16_t get_code() const { uint16_t c = 0; if(data.size() >= 4) ::memcpy(&c, data.data() + 2, 2); return c; }

	bool is_null() const { const auto c = get_code(); return c == CODE_NULL; }
	bool is_bool() const { const auto c = get_code(); return c == CODE_BOOL || c == CODE_ALT_BOOL; }
	bool is_ulong() const { switch(get_code()) { case CODE_UINT8: case CODE_UINT16: case CODE_UINT32: case CODE_UINT64:
		case CODE_ALT_UINT8: case CODE_ALT_UINT16: case CODE_ALT_UINT32: case CODE_ALT_UINT64: return true; } return false; }
	bool is_long() const { switch(get_code()) { case CODE_INT8: case CODE_INT16: case CODE_INT32: case CODE_INT64:
		case CODE_ALT_INT8: case CODE_ALT_INT16: case CODE_ALT_INT32: case CODE_ALT_INT64: return true; } return false; }
	bool is_integral() const { return is_ulong() || is_long(); }
	bool is_double() const { const auto c = get_code(); return c == CODE_FLOAT || c == CODE_DOUBLE; }
	bool is_string() const { const auto c = get_code(); return c == CODE_STRING || c == CODE_ALT_STRING; }
	bool is_array() const { switch(get_code()) { case CODE_ARRAY: case CODE_LIST: case CODE_ALT_ARRAY: case CODE_ALT_LIST: case CODE_TUPLE: case CODE_ALT_TUPLE: return true; } return false; }
	bool is_object() const { switch(get_code()) { case CODE_OBJECT: case CODE_ALT_OBJECT: case CODE_ANY: return true; } return false; }
	bool is_value() const { return get_code() == CODE_ANY; }

	template<typename T> void to(T& value) const;
	template<typename T> T to() const { T tmp = T(); to(tmp); return tmp; }
	Object to_object() const;
	std::shared_ptr<Value> to_value() const;
	std::string to_string() const;			// JSON
	std::string to_string_value() const;	// without quotes
	std::string to_string_value_full() const { return to_string_value(); }

	void accept(Visitor& visitor) const;

	operator bool() const;

	bool operator==(const Variant& o) const { return compare(o) == 0; }
	bool operator!=(const Variant& o) const { return compare(o) != 0; }
	bool operator<(const Variant& o) const { return compare(o) < 0; }
	int compare(const Variant& o) const;

	template<typename T> void assign(const T& value);
	void assign(const char* s) { assign(std::string(s)); }
	Variant operator[](const std::string& key) const;
};

class Object {
public:
	std::map<std::string, Variant> field;
	Object() {}
	template<typename T> Object(const std::map<std::string, T>& m) { for(const auto& e : m) field[e.first] = Variant(e.second); }
	Variant& operator[](const std::string& n) { return field[n]; }
	const Variant& operator[](const std::string& n) const { static const Variant null_; auto it = field.find(n); return it != field.end() ? it->second : null_; }
	bool operator==(const Object& o) const { return field == o.field; }
	bool operator!=(const Object& o) const { return field != o.field; }
	bool operator<(const Object& o) const { return field < o.field; }
	const std::map<std::string, Variant>& get_fields() const { return field; }
	bool empty() const { return field.empty(); }
	size_t size() const { return field.size(); }
	void clear() { field.clear(); }
	void erase(const std::string& n) { field.erase(n); }
	size_t count(const std::string& n) const { return field.count(n); }
	std::string get_type_name() const;
	Object& operator+=(const Object& o) { for(auto& e : o.field) field[e.first] = e.second; return *this; }
	Object to_object() const { return *this; }
	const Object& to_object_ref() const { return *this; }
	void to_object(const Object& o) { *this = o; }
	std::string to_string() const;
};
inline std::ostream& operator<<(std::ostream& out, const Object& v) { write(out, v); return out; }
inline std::ostream& operator<<(std::ostream& out, const Variant& v) { write(out, v); return out; }

// ---------------------------------------------------------------- Visitor

class Visitor {
public:
	bool enable_binary = false;
	virtual ~Visitor() {}
	virtual void visit_null() {}
	virtual void visit(const bool&) {}
	virtual void visit(const uint8_t& v) { visit(uint64_t(v)); }
	virtual void visit(const uint16_t& v) { visit(uint64_t(v)); }
	virtual void visit(const uint32_t& v) { visit(uint64_t(v)); }
	virtual void visit(const uint64_t&) {}
	virtual void visit(const int8_t& v) { visit(int64_t(v)); }
	virtual void visit(const int16_t& v) { visit(int64_t(v)); }
	virtual void visit(const int32_t& v) { visit(int64_t(v)); }
	virtual void visit(const int64_t&) {}
	virtual void visit(const float& v) { visit(double(v)); }
	virtual void visit(const double&) {}
	virtual void visit(const std::string&) {}
	virtual void visit(const uint8_t* p, size_t n) { list_begin(n); for(size_t i = 0; i < n; ++i) { list_element(i); visit(p[i]); } list_end(n); }
	virtual void list_begin(size_t) {}
	virtual void list_element(size_t) {}
	virtual void list_end(size_t) {}
	virtual void map_begin(size_t) {}
	virtual void map_key(size_t) {}
	virtual void map_value(size_t) {}
	virtual void map_end(size_t) {}
	virtual void type_begin(const TypeCode&) {}
	virtual void type_field(const TypeField&, size_t) {}
	virtual void type_end(const TypeCode&) {}
	virtual void enum_value(uint32_t, const std::string&) {}
	template<typename T> void accept(const T& v) { type<T>().accept(*this, v); }
};

// ---------------------------------------------------------------- Value

class Value : public std::enable_shared_from_this<Value> {
public:
	static const Hash64 VNX_TYPE_HASH;
	static const Hash64 VNX_CODE_HASH;
	static constexpr uint64_t VNX_TYPE_ID = 0;
	virtual ~Value() {}
	virtual Hash64 get_type_hash() const { return Hash64(); }
	virtual std::string get_type_name() const { return "vnx.Value"; }
	virtual const TypeCode* get_type_code() const { return nullptr; }
	virtual std::shared_ptr<Value> clone() const { return nullptr; }
	virtual void read(TypeInput&, const TypeCode*, const uint16_t*) {}
	virtual void write(TypeOutput&, const TypeCode*, const uint16_t*) const {}
	virtual void read(std::istream&) {}
	virtual void write(std::ostream& out) const { out << "null"; }
	virtual void accept(Visitor& v) const { v.visit_null(); }
	template<typename T> void accept_generic(T& v) const {}
	virtual Object to_object() const { return Object(); }
	virtual void from_object(const Object&) {}
	virtual Variant get_field(const std::string&) const { return Variant(); }
	virtual void set_field(const std::string&, const Variant&) {}
	virtual Variant get_field_by_index(size_t i) const {
		const auto* tc = get_type_code();
		if(tc && i < tc->fields.size()) return get_field(tc->fields[i].name);
		return Variant();
	}
	bool is_void() const { const auto* tc = get_type_code(); return !tc || tc->fields.empty(); }
	bool is_a(const TypeCode* t) const { for(auto* p = get_type_code(); p; p = p->super) if(p == t) return true; return false; }
	static const TypeCode* static_get_type_code() { return nullptr; }
	virtual std::shared_ptr<Value> vnx_call_switch(std::shared_ptr<const Value>) { return nullptr; }
};
inline std::ostream& operator<<(std::ostream& out, const Value& v) { v.write(out); return out; }

class struct_t {};

template<typename T>
class Struct : public Value {
public:
	T value;
	Struct() {}
	Struct(const T& v) : value(v) {}
	Hash64 get_type_hash() const override { return value.get_type_hash(); }
	std::string get_type_name() const override { return value.get_type_name(); }
	const TypeCode* get_type_code() const override { return value.get_type_code(); }
	std::shared_ptr<Value> clone() const override { return std::make_shared<Struct<T>>(*this); }
	void read(TypeInput& in, const TypeCode* t, const uint16_t* c) override { value.read(in, t, c); }
	void write(TypeOutput& out, const TypeCode* t, const uint16_t* c) const override { value.write(out, t, c); }
	void read(std::istream& in) override { value.read(in); }
	void write(std::ostream& out) const override { value.write(out); }
	void accept(Visitor& v) const override { value.accept(v); }
	Object to_object() const override { return value.to_object(); }
	void from_object(const Object& o) override { value.from_object(o); }
	Variant get_field(const std::string& n) const override { return value.get_field(n); }
	void set_field(const std::string& n, const Variant& v) override { value.set_field(n, v); }
};

std::shared_ptr<Value> create(const Hash64& type_hash);
std::shared_ptr<Value> create(const std::string& type_name);

template<typename T> std::shared_ptr<T> clone(const std::shared_ptr<T>& v) { return v ? std::dynamic_pointer_cast<T>(v->clone()) : nullptr; }
template<typename T> std::shared_ptr<T> clone(const std::shared_ptr<const T>& v) { return v ? std::dynamic_pointer_cast<T>(v->clone()) : nullptr; }
template<typename T> std::shared_ptr<T> clone(const T& v) { return std::dynamic_pointer_cast<T>(std::shared_ptr<Value>(v.clone())); }

// ---------------------------------------------------------------- type<>

// scalars (and anything with vnx::read/write overloads declared above)
template<typename T, typename Enable>
struct type {
	void read(TypeInput& in, T& value, const TypeCode* tc, const uint16_t* code) { vnx::read(in, value, tc, code); }
	void write(TypeOutput& out, const T& value, const TypeCode* tc, const uint16_t* code) { vnx::write(out, value, tc, code); }
	void read(std::istream& in, T& value) { vnx::read(in, value); }
	void write(std::ostream& out, const T& value) { vnx::write(out, value); }
	void accept(Visitor& v, const T& value) { vnx::accept(v, value); }
	const TypeCode* get_type_code() { return nullptr; }
	void create_dynamic_code(std::vector<uint16_t>& code) { code.push_back(native_code()); }
	void create_dynamic_code(std::vector<uint16_t>& code, const T&, bool special = false) { code.push_back(native_code()); }
	static uint16_t native_code() {
		if(std::is_same<T, bool>::value) return CODE_BOOL;
		if(std::is_same<T, float>::value) return CODE_FLOAT;
		if(std::is_same<T, double>::value) return CODE_DOUBLE;
		if(std::is_integral<T>::value) {
			const int off = std::is_signed<T>::value ? 4 : 0;
			switch(sizeof(T)) { case 1: return 1 + off; case 2: return 2 + off; case 4: return 3 + off; case 8: return 4 + off; }
		}
		throw std::logic_error("vnxlite: no native code for type");
	}
};
template<typename T>
struct type<T, typename std::enable_if<std::is_enum<T>::value>::type> {
	void read(TypeInput& in, T& value, const TypeCode* tc, const uint16_t* code) { uint32_t t = 0; vnx::read(in, t, tc, code); value = T(t); }
	void write(TypeOutput& out, const T& value, const TypeCode* tc, const uint16_t* code) { vnx::write(out, uint32_t(value), tc, code); }
	void read(std::istream& in, T& value) { uint32_t t = 0; vnx::read(in, t); value = T(t); }
	void write(std::ostream& out, const T& value) { vnx::write(out, uint32_t(value)); }
	void accept(Visitor& v, const T& value) { vnx::accept(v, uint32_t(value)); }
	const TypeCode* get_type_code() { return nullptr; }
	void create_dynamic_code(std::vector<uint16_t>& code) { code.push_back(CODE_UINT32); }
	void create_dynamic_code(std::vector<uint16_t>& code, const T&, bool special = false) { code.push_back(CODE_UINT32); }
};
#define VNXLITE_TYPE_COMMON(T_) \
	void read(TypeInput& in, T_& value, const TypeCode* tc, const uint16_t* code) { vnx::read(in, value, tc, code); } \
	void write(TypeOutput& out, const T_& value, const TypeCode* tc, const uint16_t* code) { vnx::write(out, value, tc, code); } \
	void read(std::istream& in, T_& value) { vnx::read(in, value); } \
	void write(std::ostream& out, const T_& value) { vnx::write(out, value); } \
	void accept(Visitor& v, const T_& value) { vnx::accept(v, value); } \
	const TypeCode* get_type_code() { return nullptr; }
template<> struct type<std::string, void> { VNXLITE_TYPE_COMMON(std::string)
	void create_dynamic_code(std::vector<uint16_t>& code) { code.push_back(CODE_STRING); }
	void create_dynamic_code(std::vector<uint16_t>& code, const std::string&, bool = false) { code.push_back(CODE_STRING); } };
template<> struct type<Hash64, void> { VNXLITE_TYPE_COMMON(Hash64)
	void create_dynamic_code(std::vector<uint16_t>& code) { code.push_back(CODE_UINT64); }
	void create_dynamic_code(std::vector<uint16_t>& code, const Hash64&, bool = false) { code.push_back(CODE_UINT64); } };
template<> struct type<Buffer, void> { VNXLITE_TYPE_COMMON(Buffer)
	void create_dynamic_code(std::vector<uint16_t>& code) { code.push_back(CODE_LIST); code.push_back(CODE_UINT8); }
	void create_dynamic_code(std::vector<uint16_t>& code, const Buffer&, bool = false) { create_dynamic_code(code); } };
template<> struct type<Variant, void> { VNXLITE_TYPE_COMMON(Variant)
	void create_dynamic_code(std::vector<uint16_t>& code) { code.push_back(CODE_DYNAMIC); }
	void create_dynamic_code(std::vector<uint16_t>& code, const Variant&, bool = false) { code.push_back(CODE_DYNAMIC); } };
template<> struct type<Object, void> { VNXLITE_TYPE_COMMON(Object)
	void create_dynamic_code(std::vector<uint16_t>& code) { code.push_back(CODE_OBJECT); }
	void create_dynamic_code(std::vector<uint16_t>& code, const Object&, bool = false) { code.push_back(CODE_OBJECT); } };
template<> struct type<TypeCode, void> { VNXLITE_TYPE_COMMON(TypeCode)
	void create_dynamic_code(std::vector<uint16_t>& code) { code.push_back(CODE_STRING); }
	void create_dynamic_code(std::vector<uint16_t>& code, const TypeCode&, bool = false) { code.push_back(CODE_STRING); } };
#define VNXLITE_TYPE_LIST(CONT) \
template<typename T> struct type<CONT<T>, void> { VNXLITE_TYPE_COMMON(CONT<T>) \
	void create_dynamic_code(std::vector<uint16_t>& code) { code.push_back(CODE_LIST); type<T>().create_dynamic_code(code); } \
	void create_dynamic_code(std::vector<uint16_t>& code, const CONT<T>&, bool = false) { create_dynamic_code(code); } };
VNXLITE_TYPE_LIST(std::vector) VNXLITE_TYPE_LIST(std::list) VNXLITE_TYPE_LIST(std::set) VNXLITE_TYPE_LIST(std::unordered_set)
template<typename T, size_t N> struct type<std::array<T, N>, void> { typedef std::array<T, N> C; VNXLITE_TYPE_COMMON(C)
	void create_dynamic_code(std::vector<uint16_t>& code) { code.push_back(CODE_ARRAY); code.push_back(N); type<T>().create_dynamic_code(code); }
	void create_dynamic_code(std::vector<uint16_t>& code, const C&, bool = false) { create_dynamic_code(code); } };
template<typename T> struct type<optional<T>, void> { VNXLITE_TYPE_COMMON(optional<T>)
	void create_dynamic_code(std::vector<uint16_t>& code) { code.push_back(CODE_OPTIONAL); type<T>().create_dynamic_code(code); }
	void create_dynamic_code(std::vector<uint16_t>& code, const optional<T>&, bool = false) { create_dynamic_code(code); } };
#define VNXLITE_TYPE_MAP(CONT) \
template<typename K, typename V> struct type<CONT<K, V>, void> { typedef CONT<K, V> C; VNXLITE_TYPE_COMMON(C) \
	void create_dynamic_code(std::vector<uint16_t>& code) { const size_t p = code.size(); code.push_back(CODE_MAP); code.push_back(0); type<K>().create_dynamic_code(code); code[p + 1] = code.size() - p; type<V>().create_dynamic_code(code); } \
	void create_dynamic_code(std::vector<uint16_t>& code, const C&, bool = false) { create_dynamic_code(code); } };
VNXLITE_TYPE_MAP(std::map) VNXLITE_TYPE_MAP(std::unordered_map)
template<typename K, typename V> struct type<std::pair<K, V>, void> { typedef std::pair<K, V> C; VNXLITE_TYPE_COMMON(C)
	void create_dynamic_code(std::vector<uint16_t>& code) {
		const size_t p = code.size();
		code.push_back(CODE_TUPLE); code.push_back(2); code.push_back(0); code.push_back(0);
		code[p + 2] = code.size() - p; type<K>().create_dynamic_code(code);
		code[p + 3] = code.size() - p; type<V>().create_dynamic_code(code);
	}
	void create_dynamic_code(std::vector<uint16_t>& code, const C&, bool = false) { create_dynamic_code(code); } };
template<typename... Args> struct type<std::tuple<Args...>, void> { typedef std::tuple<Args...> C; VNXLITE_TYPE_COMMON(C)
	void create_dynamic_code(std::vector<uint16_t>& code) {
		const size_t p = code.size(), n = sizeof...(Args);
		code.push_back(CODE_TUPLE); code.push_back(n);
		for(size_t i = 0; i < n; ++i) code.push_back(0);
		size_t i = 0;
		(void)std::initializer_list<int>{(code[p + 2 + i] = code.size() - p, ++i, type<Args>().create_dynamic_code(code), 0)...};
	}
	void create_dynamic_code(std::vector<uint16_t>& code, const C&, bool = false) { create_dynamic_code(code); } };
template<typename T> struct type<std::shared_ptr<T>, void> { VNXLITE_TYPE_COMMON(std::shared_ptr<T>)
	void create_dynamic_code(std::vector<uint16_t>& code) { code.push_back(CODE_ANY); }
	void create_dynamic_code(std::vector<uint16_t>& code, const std::shared_ptr<T>&, bool = false) { code.push_back(CODE_ANY); } };

// ---------------------------------------------------------------- container implementation

template<typename T>
void read_dynamic(TypeInput& in, T& value) {
	uint16_t code[VNX_MAX_BYTE_CODE_SIZE];
	read_byte_code(in, code);
	type<T>().read(in, value, nullptr, code);
}
void read_dynamic(TypeInput& in, Variant& value);

namespace detail {

inline uint32_t read_size(TypeInput& in, bool alt) {
	uint32_t n = 0;
	in.read(&n, 4);
	return alt ? flip_bytes(n) : n;
}
inline void write_size(TypeOutput& out, uint32_t n) { ::memcpy(out.write(4), &n, 4); }

inline uint16_t fix_(const uint16_t* code, size_t i, bool alt) { return alt ? flip_bytes(code[i]) : code[i]; }

template<typename T> void push_(std::vector<T>& c, T&& v) { c.push_back(std::move(v)); }
template<typename T> void push_(std::list<T>& c, T&& v) { c.push_back(std::move(v)); }
template<typename T> void push_(std::set<T>& c, T&& v) { c.insert(std::move(v)); }
template<typename T> void push_(std::unordered_set<T>& c, T&& v) { c.insert(std::move(v)); }

template<typename T, typename C>
void read_list(TypeInput& in, C& value, const TypeCode* tc, const uint16_t* code) {
	TypeInput::recursion_t tag(in);
	value.clear();
	std::vector<uint16_t> def;
	if(!code) { type<C>().create_dynamic_code(def); code = def.data(); }
	size_t n = 0;
	const uint16_t* inner = nullptr;
	switch(code[0]) {
		case CODE_LIST: case CODE_ALT_LIST: n = read_size(in, code[0] == CODE_ALT_LIST); inner = code + 1; break;
		case CODE_ARRAY: case CODE_ALT_ARRAY: n = fix_(code, 1, code[0] == CODE_ALT_ARRAY); inner = code + 2; break;
		case CODE_DYNAMIC: case CODE_ALT_DYNAMIC: read_dynamic(in, value); return;
		case CODE_OPTIONAL: { uint8_t f = 0; in.read(&f, 1); if(f) read_list<T>(in, value, tc, code + 1); return; }
		case CODE_TUPLE: {
			for(size_t i = 0; i < code[1]; ++i) {
				T tmp = T();
				type<T>().read(in, tmp, tc, code + code[2 + i]);
				push_(value, std::move(tmp));
			}
			return;
		}
		default: skip(in, tc, code); return;
	}
	for(size_t i = 0; i < n; ++i) {
		T tmp = T();
		type<T>().read(in, tmp, tc, inner);
		push_(value, std::move(tmp));
	}
}
template<typename T, typename C>
void write_list(TypeOutput& out, const C& value, const TypeCode* tc, const uint16_t* code) {
	std::vector<uint16_t> def;
	if(!code || code[0] == CODE_ANY) { type<C>().create_dynamic_code(def); code = def.data(); }
	if(code[0] == CODE_DYNAMIC) { write(out, Variant(value), nullptr, code); return; }
	if(code[0] != CODE_LIST) throw std::logic_error("vnxlite: write_list: invalid code");
	write_size(out, value.size());
	for(const auto& v : value) type<T>().write(out, v, tc, code + 1);
}
template<typename C>
void write_json_list(std::ostream& out, const C& value) {
	out << "[";
	size_t i = 0;
	for(const auto& v : value) {
		if(i++) out << ", ";
		type<typename std::decay<decltype(v)>::type>().write(out, v);
	}
	out << "]";
}
template<typename C>
void accept_list(Visitor& vis, const C& value) {
	if constexpr(std::is_same_v<C, std::vector<uint8_t>>) { vis.visit(value.data(), value.size()); return; } else {
	vis.list_begin(value.size());
	size_t i = 0;
	for(const auto& v : value) {
		vis.list_element(i++);
		type<typename std::decay<decltype(v)>::type>().accept(vis, v);
	}
	vis.list_end(value.size());
	}
}

template<typename K, typename V, typename C>
void read_map(TypeInput& in, C& value, const TypeCode* tc, const uint16_t* code) {
	TypeInput::recursion_t tag(in);
	value.clear();
	std::vector<uint16_t> def;
	if(!code) { type<C>().create_dynamic_code(def); code = def.data(); }
	switch(code[0]) {
		case CODE_MAP: case CODE_ALT_MAP: {
			const bool alt = code[0] == CODE_ALT_MAP;
			const size_t n = read_size(in, alt);
			const size_t off = fix_(code, 1, alt);
			for(size_t i = 0; i < n; ++i) {
				K k = K(); V v = V();
				type<K>().read(in, k, tc, code + 2);
				type<V>().read(in, v, tc, code + off);
				value[std::move(k)] = std::move(v);
			}
			break;
		}
		case CODE_LIST: {
			const size_t n = read_size(in, false);
			for(size_t i = 0; i < n; ++i) {
				std::pair<K, V> tmp;
				type<std::pair<K, V>>().read(in, tmp, tc, code + 1);
				value[tmp.first] = tmp.second;
			}
			break;
		}
		case CODE_OBJECT: case CODE_ALT_OBJECT: {
			Object obj;
			vnx::read(in, obj, tc, code);
			for(const auto& e : obj.field) {
				K k = K(); V v = V();
				Variant(e.first).to(k);
				e.second.to(v);
				value[k] = v;
			}
			break;
		}
		case CODE_DYNAMIC: case CODE_ALT_DYNAMIC: read_dynamic(in, value); break;
		default: skip(in, tc, code);
	}
}
template<typename K, typename V, typename C>
void write_map(TypeOutput& out, const C& value, const TypeCode* tc, const uint16_t* code) {
	std::vector<uint16_t> def;
	if(!code) { type<C>().create_dynamic_code(def); code = def.data(); }
	if(code[0] == CODE_DYNAMIC) { write(out, Variant(value), nullptr, code); return; }
	if(code[0] != CODE_MAP) throw std::logic_error("vnxlite: write_map: invalid code");
	write_size(out, value.size());
	for(const auto& e : value) {
		type<K>().write(out, e.first, tc, code + 2);
		type<V>().write(out, e.second, tc, code + code[1]);
	}
}
template<typename K, typename V, typename C>
void write_json_map(std::ostream& out, const C& value) {
	const bool is_str = std::is_same<K, std::string>::value;
	out << (is_str ? "{" : "[");
	size_t i = 0;
	for(const auto& e : value) {
		if(i++) out << ", ";
		if(!is_str) out << "[";
		type<K>().write(out, e.first);
		out << (is_str ? ": " : ", ");
		type<V>().write(out, e.second);
		if(!is_str) out << "]";
	}
	out << (is_str ? "}" : "]");
}
template<typename K, typename V, typename C>
void accept_map(Visitor& vis, const C& value) {
	vis.map_begin(value.size());
	size_t i = 0;
	for(const auto& e : value) {
		vis.map_key(i); type<K>().accept(vis, e.first);
		vis.map_value(i); type<V>().accept(vis, e.second);
		++i;
	}
	vis.map_end(value.size());
}
} // detail

#define VNXLITE_IMPL_LIST(CONT) \
template<typename T> void read(TypeInput& in, CONT<T>& value, const TypeCode* tc, const uint16_t* code) { detail::read_list<T>(in, value, tc, code); } \
template<typename T> void write(TypeOutput& out, const CONT<T>& value, const TypeCode* tc, const uint16_t* code) { detail::write_list<T>(out, value, tc, code); } \
template<typename T> void read(std::istream& in, CONT<T>& value) { vnx::read(in).to(value); } \
template<typename T> void write(std::ostream& out, const CONT<T>& value) { detail::write_json_list(out, value); } \
template<typename T> void accept(Visitor& v, const CONT<T>& value) { detail::accept_list(v, value); }
VNXLITE_IMPL_LIST(std::vector) VNXLITE_IMPL_LIST(std::list) VNXLITE_IMPL_LIST(std::set) VNXLITE_IMPL_LIST(std::unordered_set)

#define VNXLITE_IMPL_MAP(CONT) \
template<typename K, typename V> void read(TypeInput& in, CONT<K, V>& value, const TypeCode* tc, const uint16_t* code) { detail::read_map<K, V>(in, value, tc, code); } \
template<typename K, typename V> void write(TypeOutput& out, const CONT<K, V>& value, const TypeCode* tc, const uint16_t* code) { detail::write_map<K, V>(out, value, tc, code); } \
template<typename K, typename V> void read(std::istream& in, CONT<K, V>& value) { vnx::read(in).to(value); } \
template<typename K, typename V> void write(std::ostream& out, const CONT<K, V>& value) { detail::write_json_map<K, V>(out, value); } \
template<typename K, typename V> void accept(Visitor& v, const CONT<K, V>& value) { detail::accept_map<K, V>(v, value); }
VNXLITE_IMPL_MAP(std::map) VNXLITE_IMPL_MAP(std::unordered_map)

template<typename T, size_t N> void read(TypeInput& in, std::array<T, N>& value, const TypeCode* tc, const uint16_t* code) {
	TypeInput::recursion_t tag(in);
	std::vector<uint16_t> def;
	if(!code) { type<std::array<T, N>>().create_dynamic_code(def); code = def.data(); }
	value = std::array<T, N>{};
	size_t n = 0;
	const uint16_t* inner = nullptr;
	switch(code[0]) {
		case CODE_LIST: case CODE_ALT_LIST: n = detail::read_size(in, code[0] == CODE_ALT_LIST); inner = code + 1; break;
		case CODE_ARRAY: case CODE_ALT_ARRAY: n = detail::fix_(code, 1, code[0] == CODE_ALT_ARRAY); inner = code + 2; break;
		case CODE_DYNAMIC: case CODE_ALT_DYNAMIC: read_dynamic(in, value); return;
		default: skip(in, tc, code); return;
	}
	if(std::is_same<T, uint8_t>::value && inner[0] == CODE_UINT8 && n == N) { in.read((void*)value.data(), N); return; }
	for(size_t i = 0; i < n; ++i) {
		T tmp = T();
		type<T>().read(in, tmp, tc, inner);
		if(i < N) value[i] = std::move(tmp);
	}
}
template<typename T, size_t N> void write(TypeOutput& out, const std::array<T, N>& value, const TypeCode* tc, const uint16_t* code) {
	std::vector<uint16_t> def;
	if(!code || code[0] == CODE_ANY) { type<std::array<T, N>>().create_dynamic_code(def); code = def.data(); }
	switch(code[0]) {
		case CODE_LIST: detail::write_size(out, N); ++code; break;
		case CODE_ARRAY: code += 2; break;
		case CODE_DYNAMIC: write(out, Variant(value), nullptr, code); return;
		default: throw std::logic_error("vnxlite: write(array): invalid code");
	}
	if(std::is_same<T, uint8_t>::value && code[0] == CODE_UINT8) { out.write((const void*)value.data(), N); return; }
	for(const auto& v : value) type<T>().write(out, v, tc, code);
}
template<typename T, size_t N> void read(std::istream& in, std::array<T, N>& value) { vnx::read(in).to(value); }
template<typename T, size_t N> void write(std::ostream& out, const std::array<T, N>& value) { detail::write_json_list(out, value); }
template<typename T, size_t N> void accept(Visitor& v, const std::array<T, N>& value) { detail::accept_list(v, value); }

template<typename K, typename V> void read(TypeInput& in, std::pair<K, V>& value, const TypeCode* tc, const uint16_t* code) {
	TypeInput::recursion_t tag(in);
	std::vector<uint16_t> def;
	if(!code) { type<std::pair<K, V>>().create_dynamic_code(def); code = def.data(); }
	value = std::pair<K, V>();
	switch(code[0]) {
		case CODE_TUPLE:
			for(size_t i = 0; i < code[1]; ++i) {
				if(i == 0) type<K>().read(in, value.first, tc, code + code[2]);
				else if(i == 1) type<V>().read(in, value.second, tc, code + code[3]);
				else skip(in, tc, code + code[2 + i]);
			}
			break;
		case CODE_LIST: case CODE_ARRAY: {
			const bool l = code[0] == CODE_LIST;
			const size_t n = l ? detail::read_size(in, false) : code[1];
			const uint16_t* inner = code + (l ? 1 : 2);
			for(size_t i = 0; i < n; ++i) {
				if(i == 0) type<K>().read(in, value.first, tc, inner);
				else if(i == 1) type<V>().read(in, value.second, tc, inner);
				else skip(in, tc, inner);
			}
			break;
		}
		case CODE_DYNAMIC: case CODE_ALT_DYNAMIC: read_dynamic(in, value); break;
		default: skip(in, tc, code);
	}
}
template<typename K, typename V> void write(TypeOutput& out, const std::pair<K, V>& value, const TypeCode* tc, const uint16_t* code) {
	std::vector<uint16_t> def;
	if(!code) { type<std::pair<K, V>>().create_dynamic_code(def); code = def.data(); }
	if(code[0] == CODE_DYNAMIC) { write(out, Variant(value), nullptr, code); return; }
	if(code[0] != CODE_TUPLE || code[1] != 2) throw std::logic_error("vnxlite: write(pair): invalid code");
	type<K>().write(out, value.first, tc, code + code[2]);
	type<V>().write(out, value.second, tc, code + code[3]);
}
template<typename K, typename V> void read(std::istream& in, std::pair<K, V>& value) { vnx::read(in).to(value); }
template<typename K, typename V> void write(std::ostream& out, const std::pair<K, V>& value) {
	out << "["; type<K>().write(out, value.first); out << ", "; type<V>().write(out, value.second); out << "]";
}
template<typename K, typename V> void accept(Visitor& v, const std::pair<K, V>& value) {
	v.list_begin(2); v.list_element(0); type<K>().accept(v, value.first); v.list_element(1); type<V>().accept(v, value.second); v.list_end(2);
}

namespace detail {
template<size_t I, typename... Args> struct tuple_io {
	typedef std::tuple<Args...> C;
	static void read(TypeInput& in, C& v, const TypeCode* tc, const uint16_t* code, bool list, size_t n) {
		if constexpr(I < sizeof...(Args)) {
			if(I >= n) return;
			typedef typename std::tuple_element<I, C>::type T;
			type<T>().read(in, std::get<I>(v), tc, list ? code : code + code[2 + I]);
			tuple_io<I + 1, Args...>::read(in, v, tc, code, list, n);
		} else {
			for(size_t i = I; i < n; ++i) skip(in, tc, list ? code : code + code[2 + i]);
		}
	}
	static void write(TypeOutput& out, const C& v, const TypeCode* tc, const uint16_t* code) {
		if constexpr(I < sizeof...(Args)) {
			typedef typename std::tuple_element<I, C>::type T;
			type<T>().write(out, std::get<I>(v), tc, code + code[2 + I]);
			tuple_io<I + 1, Args...>::write(out, v, tc, code);
		}
	}
	static void json(std::ostream& out, const C& v) {
		if constexpr(I < sizeof...(Args)) {
			typedef typename std::tuple_element<I, C>::type T;
			if(I) out << ", ";
			type<T>().write(out, std::get<I>(v));
			tuple_io<I + 1, Args...>::json(out, v);
		}
	}
	static void accept(Visitor& vis, const C& v) {
		if constexpr(I < sizeof...(Args)) {
			typedef typename std::tuple_element<I, C>::type T;
			vis.list_element(I);
			type<T>().accept(vis, std::get<I>(v));
			tuple_io<I + 1, Args...>::accept(vis, v);
		}
	}
};
} // detail
template<typename... Args> void read(TypeInput& in, std::tuple<Args...>& value, const TypeCode* tc, const uint16_t* code) {
	TypeInput::recursion_t tag(in);
	std::vector<uint16_t> def;
	if(!code) { type<std::tuple<Args...>>().create_dynamic_code(def); code = def.data(); }
	value = std::tuple<Args...>();
	switch(code[0]) {
		case CODE_TUPLE: detail::tuple_io<0, Args...>::read(in, value, tc, code, false, code[1]); break;
		case CODE_LIST: { const auto n = detail::read_size(in, false); detail::tuple_io<0, Args...>::read(in, value, tc, code + 1, true, n); break; }
		case CODE_ARRAY: detail::tuple_io<0, Args...>::read(in, value, tc, code + 2, true, code[1]); break;
		case CODE_DYNAMIC: case CODE_ALT_DYNAMIC: read_dynamic(in, value); break;
		default: skip(in, tc, code);
	}
}
template<typename... Args> void write(TypeOutput& out, const std::tuple<Args...>& value, const TypeCode* tc, const uint16_t* code) {
	std::vector<uint16_t> def;
	if(!code) { type<std::tuple<Args...>>().create_dynamic_code(def); code = def.data(); }
	if(code[0] == CODE_DYNAMIC) { write(out, Variant(value), nullptr, code); return; }
	if(code[0] != CODE_TUPLE || code[1] != sizeof...(Args)) throw std::logic_error("vnxlite: write(tuple): invalid code");
	detail::tuple_io<0, Args...>::write(out, value, tc, code);
}
template<typename... Args> void read(std::istream& in, std::tuple<Args...>& value) { vnx::read(in).to(value); }
template<typename... Args> void write(std::ostream& out, const std::tuple<Args...>& value) { out << "["; detail::tuple_io<0, Args...>::json(out, value); out << "]"; }
template<typename... Args> void accept(Visitor& v, const std::tuple<Args...>& value) { v.list_begin(sizeof...(Args)); detail::tuple_io<0, Args...>::accept(v, value); v.list_end(sizeof...(Args)); }

template<typename T> void read(TypeInput& in, optional<T>& value, const TypeCode* tc, const uint16_t* code) {
	TypeInput::recursion_t tag(in);
	std::vector<uint16_t> def;
	if(!code) { type<optional<T>>().create_dynamic_code(def); code = def.data(); }
	value = nullptr;
	switch(code[0]) {
		case CODE_OPTIONAL: case CODE_ALT_OPTIONAL: {
			uint8_t f = 0;
			in.read(&f, 1);
			if(f) { T tmp = T(); type<T>().read(in, tmp, tc, code + 1); value = tmp; }
			break;
		}
		case CODE_NULL: break;
		case CODE_DYNAMIC: case CODE_ALT_DYNAMIC: {
			Variant tmp;
			vnx::read(in, tmp, tc, code);
			if(!tmp.is_null()) value = tmp.to<T>();
			break;
		}
		default: { T tmp = T(); type<T>().read(in, tmp, tc, code); value = tmp; }
	}
}
template<typename T> void write(TypeOutput& out, const optional<T>& value, const TypeCode* tc, const uint16_t* code) {
	std::vector<uint16_t> def;
	if(!code) { type<optional<T>>().create_dynamic_code(def); code = def.data(); }
	if(code[0] == CODE_DYNAMIC) { write(out, value ? Variant(*value) : Variant(), nullptr, code); return; }
	if(code[0] != CODE_OPTIONAL) throw std::logic_error("vnxlite: write(optional): invalid code");
	*out.write(1) = value ? 1 : 0;
	if(value) type<T>().write(out, *value, tc, code + 1);
}
template<typename T> void read(std::istream& in, optional<T>& value) { const Variant v = vnx::read(in); if(v.is_null()) value = nullptr; else value = v.to<T>(); }
template<typename T> void write(std::ostream& out, const optional<T>& value) { if(value) type<T>().write(out, *value); else out << "null"; }
template<typename T> void accept(Visitor& v, const optional<T>& value) { if(value) type<T>().accept(v, *value); else v.visit_null(); }

template<typename T> void read(TypeInput& in, std::shared_ptr<T>& value, const TypeCode* tc, const uint16_t* code) {
	std::shared_ptr<Value> tmp;
	vnx::read(in, tmp, tc, code);
	value = std::dynamic_pointer_cast<T>(tmp);
}
template<typename T> void write(TypeOutput& out, const std::shared_ptr<T>& value, const TypeCode* tc, const uint16_t* code) {
	vnx::write(out, std::shared_ptr<const Value>(value), tc, code);
}
template<typename T> void read(std::istream& in, std::shared_ptr<T>& value) { vnx::read(in).to(value); }
template<typename T> void write(std::ostream& out, const std::shared_ptr<T>& value) { write_value_ptr(out, value.get()); }
template<typename T> void accept(Visitor& v, const std::shared_ptr<T>& value) { accept_value_ptr(v, value.get()); }

template<typename V, typename T> void accept_generic(V& visitor, const std::shared_ptr<T>& value) { if(value) value->accept_generic(visitor); }

// ---------------------------------------------------------------- Variant templates

void assign_value_(Variant& var, const std::shared_ptr<const Value>& value);

namespace detail {
template<typename T> struct var_assign { static void go(Variant& var, const T& value) {
	std::vector<uint16_t> code;
	type<T>().create_dynamic_code(code, value, true);
	var.data.clear();
	VectorOutputStream stream(&var.data);
	TypeOutput out(&stream);
	const uint16_t len = code.size();
	::memcpy(out.write(2), &len, 2);
	out.write(code.data(), code.size() * 2);
	type<T>().write(out, value, nullptr, code.data());
	out.flush();
} };
template<typename T> struct var_assign<optional<T>> { static void go(Variant& var, const optional<T>& value) { if(value) var.assign(*value); else var.clear(); } };
template<typename T> struct var_assign<std::shared_ptr<T>> { static void go(Variant& var, const std::shared_ptr<T>& value) { assign_value_(var, value); } };
template<size_t N> struct var_assign<char[N]> { static void go(Variant& var, const char* value) { var.assign(std::string(value)); } };
template<> struct var_assign<Value> { static void go(Variant& var, const Value& value) { assign_value_(var, value.clone()); } };
}
template<typename T> void Variant::assign(const T& value) { detail::var_assign<T>::go(*this, value); }

template<typename T> void Variant::to(T& value) const {
	if(empty()) { value = T(); return; }
	VectorInputStream stream(&data);
	TypeInput in(&stream);
	read_dynamic(in, value);
}
template<> inline void Variant::to(Variant& value) const { value = *this; }
template<> void Variant::to(std::string& value) const;
template<> void Variant::to(bool& value) const;

// ---------------------------------------------------------------- strings

std::string escape_json(const std::string& s);

template<typename T> std::string to_string(const T& v) { std::ostringstream ss; type<T>().write(ss, v); return ss.str(); }
template<typename T> std::string to_string_value(const T& v) {
	std::ostringstream ss; type<T>().write(ss, v);
	auto s = ss.str();
	if(s.size() >= 2 && s.front() == '"' && s.back() == '"') s = s.substr(1, s.size() - 2);
	return s;
}
template<typename T> std::string to_string_value_full(const T& v) { return vnx::to_string_value(v); }
template<> inline std::string to_string_value(const std::string& s) { return s; }
template<> inline std::string to_string_value(const Variant& v) { return v.to_string_value(); }
inline std::string to_string(const char* s) { return escape_json(s); }
inline std::string to_string(int v) { return std::to_string(v); }

template<typename T> void from_string(const std::string& str, T& value) { std::istringstream ss(str); type<T>().read(ss, value); }
template<typename T> T from_string(const std::string& str) { T tmp = T(); from_string(str, tmp); return tmp; }
template<typename T> void from_string_value(const std::string& str, T& value) { std::istringstream ss(str); type<T>().read(ss, value); }
template<> inline void from_string_value(const std::string& str, std::string& value) { value = str; }
template<> void from_string_value(const std::string& str, Variant& value);
template<typename T> T from_string_value(const std::string& str) { T tmp = T(); from_string_value(str, tmp); return tmp; }

template<typename T> constexpr bool is_object() { return std::is_base_of<Value, T>::value || is_object_s<T>::value; }

std::string to_hex_string(const void* data, size_t size, bool big_endian = false, bool with_prefix = true);
std::string to_hex_string(const uint64_t& v, bool with_prefix = true);
std::vector<uint8_t> from_hex_string(const std::string& str);
std::vector<std::string> string_split(const std::string& str, char sep, bool skip_empty = false);
std::string string_subs(const std::string& str, const std::string& from, const std::string& to);
std::string to_pretty_string(const Value& v);
template<typename T> std::string to_pretty_string(const T& v) { return to_string(v); }

int64_t get_time_micros();
int64_t get_time_millis();
int64_t get_time_seconds();
int64_t get_wall_time_micros();
int64_t get_wall_time_millis();
int64_t get_wall_time_seconds();
int64_t get_sync_time_micros();
std::string get_date_string(bool with_time = false, int64_t time = -1);
std::string get_date_string_ex(const std::string& format, bool utc = false, int64_t time = -1);
std::vector<uint8_t> secure_random_bytes(size_t n);
void secure_random_bytes(void* dst, size_t n);
std::string input_password(const std::string& prompt);

class SHA256 {
public:
	void update(const void* data, size_t n) { buf.insert(buf.end(), (const uint8_t*)data, (const uint8_t*)data + n); }
	void update(const std::string& s) { update(s.data(), s.size()); }
	void finalize(uint8_t* hash);
private:
	std::vector<uint8_t> buf;
};


} // vnx

#endif
