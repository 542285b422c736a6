// vnxlite: modules, clients, timers, thread pools. A deterministic, harness-driven event loop:
// nothing runs unless the harness asks for it (see g_main_hook / Module::vnx_run_pending).
#ifndef VNXLITE_MODULE_H_
#define VNXLITE_MODULE_H_

#include <vnx/file.h>

namespace vnx {

// ---------------------------------------------------------------- simple built-in value classes

template<typename T> const TypeCode* simple_type_code_(const char* name, const Hash64& h, const TypeCode* super = nullptr) {
	auto tc = get_type_code(h);
	if(!tc) {
		auto n = std::make_shared<TypeCode>();
		n->name = name; n->type_hash = h; n->code_hash = h; n->is_class = true; n->is_native = true; n->super = super;
		n->create_value = []() -> std::shared_ptr<Value> { return std::make_shared<T>(); };
		n->build();
		tc = register_type_code(n);
	}
	return tc;
}

#define VNXLITE_CLASS(CLASS, SUPER, NAME, HASH) \
	static constexpr uint64_t VNX_TYPE_ID = HASH; \
	static Hash64 vnx_hash_() { return Hash64(uint64_t(HASH)); } \
	static std::shared_ptr<CLASS> create() { return std::make_shared<CLASS>(); } \
	static const TypeCode* static_get_type_code() { return simple_type_code_<CLASS>(NAME, vnx_hash_(), SUPER::static_get_type_code()); } \
	Hash64 get_type_hash() const override { return vnx_hash_(); } \
	std::string get_type_name() const override { return NAME; } \
	const TypeCode* get_type_code() const override { return static_get_type_code(); } \
	std::shared_ptr<Value> clone() const override { return std::make_shared<CLASS>(*this); }

class Exception : public Value {
public:
	VNXLITE_CLASS(Exception, Value, "vnx.Exception", 0x3a7c2e8fbb1d9a01ull)
	std::string what;
	std::vector<std::string> dependency_error;
	void write(std::ostream& out) const override { out << "{\"__type\": \"" << get_type_name() << "\", \"what\": " << escape_json(what) << "}"; }
	Object to_object() const override { Object o; o["__type"] = get_type_name(); o["what"] = what; return o; }
};
class InternalError : public Exception { public: VNXLITE_CLASS(InternalError, Exception, "vnx.InternalError", 0x3a7c2e8fbb1d9a02ull) };
class OverflowException : public Exception { public: VNXLITE_CLASS(OverflowException, Exception, "vnx.OverflowException", 0x3a7c2e8fbb1d9a03ull) };
class PermissionDenied : public Exception { public: VNXLITE_CLASS(PermissionDenied, Exception, "vnx.PermissionDenied", 0x3a7c2e8fbb1d9a05ull) };
class NoSuchMethod : public Exception { public: VNXLITE_CLASS(NoSuchMethod, Exception, "vnx.NoSuchMethod", 0x3a7c2e8fbb1d9a04ull) std::string method; };

class exception : public std::runtime_error {
public:
	exception(std::shared_ptr<const Value> v) : std::runtime_error(get_what(v)), val(v) {}
	exception(const std::string& w) : std::runtime_error(w) { auto e = Exception::create(); e->what = w; val = e; }
	std::shared_ptr<const Value> value() const { return val; }
private:
	static std::string get_what(std::shared_ptr<const Value> v) { if(auto e = std::dynamic_pointer_cast<const Exception>(v)) return e->what; return v ? v->get_type_name() : "null"; }
	std::shared_ptr<const Value> val;
};

class permission_e : public struct_t {
public:
	enum enum_t : uint32_t { VIEW = 1, CONST_REQUEST = 2, REQUEST = 3, READ_CONFIG = 4, WRITE_CONFIG = 5, SHUTDOWN = 6 };
	uint32_t value = 0;
	permission_e() {}
	permission_e(enum_t v) : value(v) {}
	operator Hash64() const { return Hash64(uint64_t(value)); }
	std::string to_string() const { return std::to_string(value); }
	std::string to_string_value() const { return std::to_string(value); }
	std::string to_string_value_full() const { return "vnx.permission_e." + std::to_string(value); }
};
class permission_denied : public std::runtime_error {
public:
	permission_denied(const std::string& s = "permission denied") : std::runtime_error(s) {}
	template<typename T> permission_denied(const T&) : std::runtime_error("permission denied") {}
};

struct request_id_t {
	Hash64 client, session;
	uint64_t id = 0;
	bool operator==(const request_id_t& o) const { return client == o.client && session == o.session && id == o.id; }
	bool operator<(const request_id_t& o) const { return std::tie(client.value, session.value, id) < std::tie(o.client.value, o.session.value, o.id); }
	std::string to_string() const { return std::to_string(id); }
};

} // vnx
namespace std {
template<> struct hash<vnx::request_id_t> { size_t operator()(const vnx::request_id_t& x) const { return x.client.value ^ (x.session.value * 31) ^ (x.id * 0x9E3779B97F4A7C15ull); } };
}
namespace vnx {

class Topic { public: std::string name; std::string get_name() const { return name; } };
class TopicPtr {
public:
	std::string name;
	TopicPtr() {}
	TopicPtr(const char* n) : name(n) {}
	TopicPtr(const std::string& n) : name(n) {}
	operator bool() const { return !name.empty(); }
	bool operator==(const TopicPtr& o) const { return name == o.name; }
	bool operator<(const TopicPtr& o) const { return name < o.name; }
	std::string get_name() const { return name; }
	std::string to_string() const { return name; }
	const TopicPtr* operator->() const { return this; }
};
void read(TypeInput& in, TopicPtr& value, const TypeCode* tc = nullptr, const uint16_t* code = nullptr);
void write(TypeOutput& out, const TopicPtr& value, const TypeCode* tc = nullptr, const uint16_t* code = nullptr);
void read(std::istream& in, TopicPtr& value);
void write(std::ostream& out, const TopicPtr& value);
void accept(Visitor& v, const TopicPtr& value);
template<> struct type<TopicPtr> {
	void read(TypeInput& in, TopicPtr& v, const TypeCode* tc, const uint16_t* c) { vnx::read(in, v, tc, c); }
	void write(TypeOutput& out, const TopicPtr& v, const TypeCode* tc, const uint16_t* c) { vnx::write(out, v, tc, c); }
	void read(std::istream& in, TopicPtr& v) { vnx::read(in, v); }
	void write(std::ostream& out, const TopicPtr& v) { vnx::write(out, v); }
	void accept(Visitor& vis, const TopicPtr& v) { vnx::accept(vis, v); }
	void create_dynamic_code(std::vector<uint16_t>& code) { code = {12, 5}; }
	void create_dynamic_code(std::vector<uint16_t>& code, const TopicPtr&, bool special = false) { code = {12, 5}; }
};
inline std::ostream& operator<<(std::ostream& out, const TopicPtr& t) { return out << t.name; }

// ---------------------------------------------------------------- logging

class LogMsg : public Value {
public:
	VNXLITE_CLASS(LogMsg, Value, "vnx.LogMsg", 0x3a7c2e8fbb1d9a10ull)
	static const int ERROR = 1, WARN = 2, INFO = 3, DEBUG = 4;
	int level = 0; int64_t time = 0; std::string process, module, message, user;
	int display_level = 0;
	std::string get_output() const { return message; }
};
// receives every log line; null = discard
extern std::function<void(int level, const std::string& module, const std::string& msg)> g_log_hook;
class LogStream_ {
public:
	LogStream_(int l, const std::string& m) : level(l), mod(m) {}
	LogStream_(LogStream_&& o) : level(o.level), mod(o.mod), ss(std::move(o.ss)) { o.level = 0; }
	~LogStream_() { if(level && g_log_hook) g_log_hook(level, mod, ss.str()); }
	template<typename T> LogStream_& operator<<(const T& v) { ss << v; return *this; }
	LogStream_& operator<<(std::ostream& (*f)(std::ostream&)) { ss << f; return *this; }
private:
	int level; std::string mod; std::ostringstream ss;
};
inline LogStream_ log_error() { return LogStream_(1, ""); }
inline LogStream_ log_warn() { return LogStream_(2, ""); }
inline LogStream_ log_info() { return LogStream_(3, ""); }
inline LogStream_ log_debug() { return LogStream_(4, ""); }

// ---------------------------------------------------------------- config

extern std::map<std::string, Variant> g_config;
extern std::mutex g_config_mutex;
Variant get_config(const std::string& key, bool fail = false);
template<typename T> bool read_config(const std::string& key, T& value) {
	std::lock_guard<std::mutex> lock(g_config_mutex);
	auto it = g_config.find(key);
	if(it == g_config.end()) return false;
	it->second.to(value);
	return true;
}
template<typename T> void write_config(const std::string& key, const T& value) { std::lock_guard<std::mutex> lock(g_config_mutex); g_config[key] = Variant(value); }
template<typename T> void set_config(const std::string& key, const T& value, bool protect = false) { write_config(key, value); }
inline bool is_config_protected(const std::string&) { return false; }
inline std::map<std::string, Variant> get_all_configs(bool skip_protected = false) { std::lock_guard<std::mutex> lock(g_config_mutex); return g_config; }
template<typename T> void write_config_file(const std::string&, const T&) {}
inline Object read_config_file(const std::string&) { return Object(); }

// ---------------------------------------------------------------- JSON values

class JSON_Value_ : public Value {
public:
	Variant var;
	JSON_Value_() {}
	JSON_Value_(const Variant& v) : var(v) {}
	Object to_object() const override { return var.to_object(); }
	Variant get_field(const std::string& n) const override { return var.to_object()[n]; }
	void write(std::ostream& out) const override { vnx::write(out, var); }
	std::string to_string() const { return var.to_string(); }
};
class JSON_Array : public JSON_Value_ {
public:
	JSON_Array(const Variant& v) : JSON_Value_(v) { for(auto& e : v.to<std::vector<Variant>>()) elems.push_back(std::make_shared<JSON_Value_>(e)); }
	const std::vector<std::shared_ptr<JSON_Value_>>& get_values() const { return elems; }
	std::vector<std::shared_ptr<JSON_Value_>> elems;
};
std::shared_ptr<JSON_Value_> read_json(std::istream& in, bool until_eof = false);

// JSON text printers for the CLI tools / web API
class DefaultPrinter : public Visitor { public: DefaultPrinter(std::ostream& o) : out(o) {} std::ostream& out; };
class PrettyPrinter : public DefaultPrinter { public: PrettyPrinter(std::ostream& o) : DefaultPrinter(o) {} };

// ---------------------------------------------------------------- threads

class ThreadPool {
public:
	ThreadPool(int num_threads = -1, int max_queue_size = -1);
	~ThreadPool() { close(); }
	int64_t add_task(const std::function<void()>& task);
	void sync();
	void sync(const std::vector<int64_t>& jobs);
	void close();
	size_t get_num_threads() const { return num; }
	size_t get_num_pending() const { std::lock_guard<std::mutex> lock(mutex); return queue.size() + busy; }
private:
	void loop();
	mutable std::mutex mutex;
	std::condition_variable cv, cv_done;
	std::deque<std::pair<int64_t, std::function<void()>>> queue;
	std::set<int64_t> active;
	int64_t next_id = 0;
	std::vector<std::thread> threads;
	size_t num = 0, busy = 0, limit = 0;
	bool closed = false;
	std::exception_ptr error;
};

class Timer {
public:
	std::function<void()> func;
	int64_t interval_micros = 0;	// 0 = one shot
	bool active = false;
	bool is_timeout = false;
	void set_millis(int64_t ms) { interval_micros = ms * 1000; active = true; }
	void set_micros(int64_t us) { interval_micros = us; active = true; }
	void start() { active = true; }
	void reset() { active = true; }
	void stop() { active = false; }
	bool is_active() const { return active; }
};

// ---------------------------------------------------------------- modules and clients

class Module;
class AsyncClient;

class Sample : public Value {
public:
	VNXLITE_CLASS(Sample, Value, "vnx.Sample", 0x3a7c2e8fbb1d9a11ull)
	Hash64 src_mac; uint64_t seq_num = 0; int64_t time = 0; int64_t recv_time = 0; TopicPtr topic; std::shared_ptr<const Value> value;
};
class Session_ { public: std::shared_ptr<int> user; bool has_permission(const permission_e&) const { return true; } bool has_permission(Hash64) const { return true; } std::string get_login() const { return ""; } };
typedef Session_ Session;
class Request_ { public: Hash64 session; Hash64 src_mac; std::shared_ptr<const Value> method; };
class ModuleInfo : public Value { public: VNXLITE_CLASS(ModuleInfo, Value, "vnx.ModuleInfo", 0x3a7c2e8fbb1d9a12ull) };

class Pipe {
public:
	Hash64 addr;
	Module* module = nullptr;
	void close() {}
	void pause() {}
	void resume() {}
};
typedef std::shared_ptr<Pipe> pipe_ptr_;
std::shared_ptr<Pipe> open_pipe(Hash64 addr, Module* mod, int max_queue_ms = 0);
inline std::shared_ptr<Pipe> open_pipe(const std::string& addr, Module* mod, int max_queue_ms = 0) { return open_pipe(Hash64(addr), mod, max_queue_ms); }
std::shared_ptr<Pipe> get_pipe(Hash64 addr);
inline std::shared_ptr<Pipe> get_pipe(const std::string& addr) { return get_pipe(Hash64(addr)); }
void close_pipe_(Module* mod);
inline void open_flow(std::shared_ptr<Pipe>, std::shared_ptr<Pipe>) {}

// called from Module::main() (i.e. where the real event loop would run)
extern std::function<void(Module*)> g_main_hook;
// sees every published sample
extern std::function<void(Module* src, const std::string& topic, std::shared_ptr<const Value> value)> g_publish_hook;
// answers a request made through a Client/AsyncClient to a service which is not registered;
// return value = method return object (X_return) or Exception; null = no answer (AsyncClient) / error (Client)
extern std::function<std::shared_ptr<const Value>(Hash64 dst, std::shared_ptr<const Value> method)> g_request_hook;

class Module : public Value {
public:
	typedef Value Super;
	std::string vnx_name;

	Module(const std::string& name) : vnx_name(name) { static std::atomic<uint64_t> next{0x1000}; id = Hash64(uint64_t(++next)); }
	~Module();

	static const TypeCode* static_get_type_code() { return nullptr; }

	virtual void init() {}
	virtual void main() { if(g_main_hook) g_main_hook(this); }

	// harness interface
	void vnx_start_() { init(); main(); }
	size_t vnx_run_pending();				// execute queued tasks, async replies; returns number executed
	void vnx_fire_timers();					// each active timer once
	std::vector<std::shared_ptr<Timer>> vnx_timers_() { std::lock_guard<std::mutex> lock(queue_mutex); return timers; }
	void vnx_deliver(std::shared_ptr<const Value> value, const std::string& topic = "", Hash64 src = Hash64());
	std::shared_ptr<const Value> vnx_execute(std::shared_ptr<const Value> method, Hash64 session = Hash64());	// blocking, waits for async return
	bool vnx_is_subscribed_(const std::string& topic) const { return topics.count(topic); }

	virtual void handle(std::shared_ptr<const Value> value) {}
	virtual void vnx_handle_switch(std::shared_ptr<const Value> value) { handle(value); }
	using Value::vnx_call_switch;
	virtual std::shared_ptr<Value> vnx_call_switch(std::shared_ptr<const Value> method, const request_id_t& request_id) { return nullptr; }

	bool vnx_do_run() const { return !do_stop; }
	Hash64 vnx_get_id() const { return id; }
	void exit() { do_stop = true; }

protected:
	static const int ERROR = 1, WARN = 2, INFO = 3, DEBUG = 4;
	LogStream_ log(int level) const { return LogStream_(level, vnx_name); }

	void subscribe(const TopicPtr& topic, int max_queue_ms = 0) { topics.insert(topic.name); }
	void unsubscribe(const TopicPtr& topic) { topics.erase(topic.name); }
	static constexpr int BLOCKING = 1;
	void publish(std::shared_ptr<const Value> value, const TopicPtr& topic, int flags = 0) const;
	void publish(const Value& value, const TopicPtr& topic, int flags = 0) const { publish(value.clone(), topic, flags); }
	void send_to(std::shared_ptr<const Value>, std::shared_ptr<Pipe>) {}

	std::shared_ptr<Timer> add_timer(const std::function<void()>& func);
	std::shared_ptr<Timer> set_timer_millis(int64_t ms, const std::function<void()>& func);
	std::shared_ptr<Timer> set_timeout_millis(int64_t ms, const std::function<void()>& func);
	std::shared_ptr<Timer> set_timer_micros(int64_t us, const std::function<void()>& func) { return set_timer_millis(us / 1000, func); }
public:
	void add_task(const std::function<void()>& task) const;
protected:
	void add_async_client(std::shared_ptr<AsyncClient> client);
	template<typename T> void add_async_client(std::shared_ptr<T> client, typename std::enable_if<!std::is_base_of<AsyncClient, T>::value>::type* = nullptr) {}

	void vnx_async_return(const request_id_t& request_id, std::shared_ptr<const Value> value) const;
	void vnx_async_return_ex(const request_id_t& request_id, const std::exception& ex) const;
	void vnx_async_return_ex_what(const request_id_t& request_id, const std::string& what) const;

	Variant vnx_get_config(const std::string& name) const { return get_field(name); }
	Object vnx_get_config_object() const { return to_object(); }
	void vnx_set_config(const std::string& name, const Variant& value) { set_field(name, value); }
	void vnx_set_config_object(const Object& config) { from_object(config); }
	std::shared_ptr<const ModuleInfo> vnx_get_module_info() const { return ModuleInfo::create(); }
	TypeCode vnx_get_type_code() const { return *get_type_code(); }
	void vnx_restart() { do_stop = true; }
	void vnx_stop() { do_stop = true; }
	bool vnx_self_test() const { return true; }
	void vnx_setup_() {}

	mutable std::shared_ptr<const Request_> vnx_request = std::make_shared<Request_>();
	std::shared_ptr<const Sample> vnx_sample = std::make_shared<Sample>();

public:
	mutable std::recursive_mutex exec_mutex;	// serialises everything that runs "in the module's thread"
private:
	struct result_t { std::shared_ptr<const Value> value; };
	Hash64 id;
	std::atomic<bool> do_stop{false};
	std::set<std::string> topics;
	std::vector<std::shared_ptr<Timer>> timers;
	mutable std::mutex queue_mutex;
	mutable std::deque<std::function<void()>> queue;
	mutable std::mutex return_mutex;
	mutable std::condition_variable return_cv;
	mutable std::map<uint64_t, std::shared_ptr<const Value>> returns;
	mutable std::map<uint64_t, std::function<void(std::shared_ptr<const Value>)>> return_callbacks;
	std::atomic<uint64_t> next_request{1};
	friend class AsyncClient;
};

class Client {
public:
	Client(Hash64 addr) : dst(addr) {}
	virtual ~Client() {}
	void vnx_set_non_blocking(bool) {}
	void vnx_set_session_id(Hash64) {}
protected:
	std::shared_ptr<const Value> vnx_request(std::shared_ptr<const Value> method, bool is_async);
	Hash64 dst;
};

class AsyncClient {
public:
	AsyncClient(Hash64 addr) : dst(addr) {}
	virtual ~AsyncClient() {}
	void vnx_set_non_blocking(bool) {}
	void vnx_set_session_id(Hash64) {}
	bool vnx_is_pending(uint64_t id) const { std::lock_guard<std::mutex> lock(vnx_mutex); return vnx_pending.count(id); }
	size_t vnx_get_num_pending() const { std::lock_guard<std::mutex> lock(vnx_mutex); return vnx_pending.size(); }
	Module* vnx_owner_ = nullptr;

	virtual std::vector<uint64_t> vnx_get_pending_ids() const { std::lock_guard<std::mutex> lock(vnx_mutex); std::vector<uint64_t> r; for(auto& e : vnx_pending) r.push_back(e.first); return r; }
	virtual int32_t vnx_purge_request(uint64_t id, const exception& ex) = 0;
	virtual int32_t vnx_callback_switch(uint64_t id, std::shared_ptr<const Value> value) = 0;
protected:
	void vnx_request(std::shared_ptr<const Value> method, uint64_t id);
	mutable std::mutex vnx_mutex;
	std::map<uint64_t, int32_t> vnx_pending;
	std::atomic<uint64_t> vnx_next_id{0};
	Hash64 dst;
};

template<typename T>
class Handle {
public:
	Handle() {}
	Handle(T* m) : mod(m) {}
	Handle(std::shared_ptr<T> m) : mod(m) {}
	Handle& operator=(T* m) { mod.reset(m); return *this; }
	T* operator->() const { return mod.get(); }
	T& operator*() const { return *mod; }
	explicit operator bool() const { return bool(mod); }
	std::shared_ptr<T> get() const { return mod; }
	Hash64 get_id() const { return mod ? mod->vnx_get_id() : Hash64(); }
	// modules are not given a thread of their own here
	void start() {}
	void start_detached() {}
	void wait() {}
	void close() {}
	void reset() { mod.reset(); }
private:
	std::shared_ptr<T> mod;
};

// ---------------------------------------------------------------- process level

inline void init(const std::string&, int, char**, const std::map<std::string, std::string>& = {}) {}
inline void close() {}
inline void wait() {}
inline bool do_run() { return true; }
inline std::string get_host_name() { return "localhost"; }
inline std::string resolve_host(const std::string& n) { return n; }
inline bool is_valid_ip_addr(const std::string&) { return true; }

class TcpEndpoint : public Value {
public:
	static const int default_port = 4444;
	std::string host_name; int port = 0;
};

// methods of vnx.ModuleInterface
#define VNXLITE_METHOD(NAME, HASH, FIELDS) class NAME : public Value { public: VNXLITE_CLASS(NAME, Value, #NAME, HASH) FIELDS };
VNXLITE_METHOD(ModuleInterface_vnx_get_config, 0xbbc7f1a01044d294ull, std::string name;)
VNXLITE_METHOD(ModuleInterface_vnx_get_config_return, 0x3a7c2e8fbb1d9b01ull, Variant _ret_0;)
VNXLITE_METHOD(ModuleInterface_vnx_get_config_object, 0x17f58f68bf83abc0ull, )
VNXLITE_METHOD(ModuleInterface_vnx_get_config_object_return, 0x3a7c2e8fbb1d9b02ull, Object _ret_0;)
VNXLITE_METHOD(ModuleInterface_vnx_get_module_info, 0xf6d82bdf66d034a1ull, )
VNXLITE_METHOD(ModuleInterface_vnx_get_module_info_return, 0x3a7c2e8fbb1d9b03ull, std::shared_ptr<const ModuleInfo> _ret_0;)
VNXLITE_METHOD(ModuleInterface_vnx_get_type_code, 0x305ec4d628960e5dull, )
VNXLITE_METHOD(ModuleInterface_vnx_get_type_code_return, 0x3a7c2e8fbb1d9b04ull, TypeCode _ret_0;)
VNXLITE_METHOD(ModuleInterface_vnx_restart, 0x9e95dc280cecca1bull, )
VNXLITE_METHOD(ModuleInterface_vnx_restart_return, 0x3a7c2e8fbb1d9b05ull, )
VNXLITE_METHOD(ModuleInterface_vnx_self_test, 0x6ce3775b41a42697ull, )
VNXLITE_METHOD(ModuleInterface_vnx_self_test_return, 0x3a7c2e8fbb1d9b06ull, bool _ret_0 = false;)
VNXLITE_METHOD(ModuleInterface_vnx_set_config, 0x362aac91373958b7ull, std::string name; Variant value;)
VNXLITE_METHOD(ModuleInterface_vnx_set_config_return, 0x3a7c2e8fbb1d9b07ull, )
VNXLITE_METHOD(ModuleInterface_vnx_set_config_object, 0xca30f814f17f322full, Object config;)
VNXLITE_METHOD(ModuleInterface_vnx_set_config_object_return, 0x3a7c2e8fbb1d9b08ull, )
VNXLITE_METHOD(ModuleInterface_vnx_stop, 0x7ab49ce3d1bfc0d2ull, )
VNXLITE_METHOD(ModuleInterface_vnx_stop_return, 0x3a7c2e8fbb1d9b09ull, )

namespace addons {
typedef std::pair<std::string, std::string> pair_t_;
class HttpRequest : public Value { public: VNXLITE_CLASS(HttpRequest, Value, "vnx.addons.HttpRequest", 0x3a7c2e8fbb1d9c01ull)
	std::string path, method; std::map<std::string, std::string> query_params; std::vector<pair_t_> headers; Buffer payload; Hash64 session; Hash64 stream; };
class HttpResponse : public Value { public: VNXLITE_CLASS(HttpResponse, Value, "vnx.addons.HttpResponse", 0x3a7c2e8fbb1d9c02ull)
	int32_t status = 0; Buffer payload; std::string content_type; std::string text() const { return payload.as_string(); } bool is_json() const { return true; } Variant parse_json() const { std::istringstream ss(text()); return vnx::read(ss); } };
class HttpData : public Value { public: VNXLITE_CLASS(HttpData, Value, "vnx.addons.HttpData", 0x3a7c2e8fbb1d9c03ull) Buffer data; bool is_eof = true; };
class HttpComponent_http_request : public Value { public: VNXLITE_CLASS(HttpComponent_http_request, Value, "vnx.addons.HttpComponent.http_request", 0xe0b6c38f619bad92ull)
	std::shared_ptr<const HttpRequest> request; std::string sub_path; };
class HttpComponent_http_request_return : public Value { public: VNXLITE_CLASS(HttpComponent_http_request_return, Value, "vnx.addons.HttpComponent.http_request.return", 0x3a7c2e8fbb1d9c04ull)
	std::shared_ptr<const HttpResponse> _ret_0; };
class HttpComponent_http_request_chunk : public Value { public: VNXLITE_CLASS(HttpComponent_http_request_chunk, Value, "vnx.addons.HttpComponent.http_request_chunk", 0x97e79d08440406d5ull)
	std::shared_ptr<const HttpRequest> request; std::string sub_path; int64_t offset = 0; int64_t max_bytes = 0; };
class HttpComponent_http_request_chunk_return : public Value { public: VNXLITE_CLASS(HttpComponent_http_request_chunk_return, Value, "vnx.addons.HttpComponent.http_request_chunk.return", 0x3a7c2e8fbb1d9c05ull)
	std::shared_ptr<const HttpData> _ret_0; };

template<typename T> class HttpInterface {
public:
	HttpInterface(T*, const std::string&) {}
	void http_request(std::shared_ptr<const HttpRequest>, const std::string&, const request_id_t&, Hash64 = Hash64()) const {}
};

struct http_request_options_t { std::map<std::string, std::string> query; std::map<std::string, std::string> headers; bool follow_redirects = true; int connect_timeout_ms = 0; int max_redirects = 0; };
class HttpClient : public Module { public: HttpClient(const std::string& n) : Module(n) {} int connection_timeout_ms = 0; bool show_info = false; TopicPtr output_response; };
class HttpClientAsyncClient : public AsyncClient {
public:
	HttpClientAsyncClient(Hash64 a) : AsyncClient(a) {}
	uint64_t get_json(const std::string& url, const http_request_options_t& opt, const std::function<void(const Variant&)>& cb, const std::function<void(const exception&)>& err) { return 0; }
	uint64_t post_json(const std::string& url, const std::string& data, const http_request_options_t& opt, const std::function<void(std::shared_ptr<const HttpResponse>)>& cb, const std::function<void(const exception&)>& err) { return 0; }
	uint64_t post_json(const std::string& url, const Variant& data, const http_request_options_t& opt, const std::function<void(std::shared_ptr<const HttpResponse>)>& cb, const std::function<void(const exception&)>& err) { return 0; }
	int32_t vnx_purge_request(uint64_t, const exception&) override { return 0; }
	int32_t vnx_callback_switch(uint64_t, std::shared_ptr<const Value>) override { return 0; }
};

class MsgServerBase : public Module { public: MsgServerBase(const std::string& n) : Module(n) {} static const TypeCode* static_get_type_code() { return simple_type_code_<Exception>("vnx.addons.MsgServer", Hash64(uint64_t(0x3a7c2e8fbb1d9c10ull))); } };
class TcpServerBase { public: static const TypeCode* static_get_type_code() { return simple_type_code_<Exception>("vnx.addons.TcpServer", Hash64(uint64_t(0x3a7c2e8fbb1d9c11ull))); } };

class MsgServer : public MsgServerBase {
public:
	int32_t port = 0; std::string host; int32_t max_connections = -1; int32_t listen_queue_size = 10; int32_t stats_interval_ms = 0; int32_t connection_timeout_ms = 0;
	int32_t send_buffer_size = 0; int32_t receive_buffer_size = 0; bool tcp_no_delay = false; bool tcp_keepalive = true; bool show_warnings = false;
	int32_t compress_level = 1; int32_t max_msg_size = 1048576; int32_t max_write_queue = 1024;
	struct peer_t {
		virtual ~peer_t() {}
		uint64_t client = 0; bool is_blocked = false; int64_t bytes_send = 0, bytes_recv = 0, bytes_send_raw = 0, bytes_recv_raw = 0; size_t write_queue_size = 0;
		uint64_t next_seq = 0;
	};
	MsgServer(const std::string& n) : MsgServerBase(n) {}
	// harness side of the wire
	static std::function<bool(MsgServer* src, uint64_t client, std::shared_ptr<const Value> msg)> net_send_;
	static std::function<void(MsgServer* src, uint64_t client)> net_disconnect_;
	static std::function<uint64_t(MsgServer* src, const std::string& address)> net_connect_;
	virtual void on_msg(uint64_t client, std::shared_ptr<const Value> msg) {}
	virtual void on_pause(uint64_t client) {}
	virtual void on_resume(uint64_t client) {}
	virtual void on_connect(uint64_t client, const std::string& address) {}
	virtual void on_disconnect(uint64_t client, const std::string& address) {}
	virtual std::shared_ptr<peer_t> get_peer_base(uint64_t client) const = 0;
	virtual void print_stats() {}
	bool send_to(std::shared_ptr<peer_t> peer, std::shared_ptr<const Value> msg) { return net_send_ ? net_send_(this, peer->client, msg) : true; }
	void disconnect(uint64_t client) { if(net_disconnect_) net_disconnect_(this, client); }
	uint64_t connect_client(const TcpEndpoint& peer) { return net_connect_ ? net_connect_(this, peer.host_name) : 0; }
	void pause(uint64_t) {}
	void resume(uint64_t) {}
};
} // addons

namespace test {
template<typename A, typename B> void expect(const A& a, const B& b) { if(!(a == b)) { std::ostringstream ss; ss << "expect failed"; throw std::logic_error(ss.str()); } }
}

} // vnx
#endif
