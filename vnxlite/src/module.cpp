#include <vnx/module.h>

namespace vnx {

std::function<void(int, const std::string&, const std::string&)> g_log_hook;
std::map<std::string, Variant> g_config;
std::mutex g_config_mutex;
std::function<void(Module*)> g_main_hook;
std::function<void(Module*, const std::string&, std::shared_ptr<const Value>)> g_publish_hook;
std::function<std::shared_ptr<const Value>(Hash64, std::shared_ptr<const Value>)> g_request_hook;

namespace addons {
std::function<bool(MsgServer*, uint64_t, std::shared_ptr<const Value>)> MsgServer::net_send_;
std::function<void(MsgServer*, uint64_t)> MsgServer::net_disconnect_;
std::function<uint64_t(MsgServer*, const std::string&)> MsgServer::net_connect_;
}

Variant get_config(const std::string& key, bool fail) {
	std::lock_guard<std::mutex> lock(g_config_mutex);
	auto it = g_config.find(key);
	if(it != g_config.end()) return it->second;
	if(fail) throw std::runtime_error("no such config: " + key);
	return Variant();
}

std::shared_ptr<JSON_Value_> read_json(std::istream& in, bool) {
	const Variant v = vnx::read(in);
	if(v.empty()) return nullptr;
	if(v.is_array()) return std::make_shared<JSON_Array>(v);
	return std::make_shared<JSON_Value_>(v);
}

void read(TypeInput& in, TopicPtr& value, const TypeCode* tc, const uint16_t* code) {
	// dynamic list<int>: see write()
	std::vector<uint8_t> tmp;
	if(code && (code[0] == CODE_STRING || code[0] == CODE_ALT_STRING)) { vnx::read(in, value.name, tc, code); return; }
	vnx::read(in, tmp, tc, code);
	value.name.assign(tmp.begin(), tmp.end());
}
void write(TypeOutput& out, const TopicPtr& value, const TypeCode*, const uint16_t*) {
	const uint32_t n = value.name.size();
	out.write(&n, 4);
	for(auto c : value.name) { const int8_t x = c; out.write(&x, 1); }
}
void read(std::istream& in, TopicPtr& value) { value.name = vnx::read(in).to_string_value(); }
void write(std::ostream& out, const TopicPtr& value) { out << escape_json(value.name); }
void accept(Visitor& v, const TopicPtr& value) { v.visit(value.name); }

// ---------------------------------------------------------------- ThreadPool

ThreadPool::ThreadPool(int n, int max_queue) {
	if(n < 1) n = std::max(1u, std::thread::hardware_concurrency());
	num = n;
	limit = max_queue > 0 ? max_queue : 0;
}
int64_t ThreadPool::add_task(const std::function<void()>& task) {
	std::unique_lock<std::mutex> lock(mutex);
	if(closed) return -1;
	while(limit && queue.size() >= limit) cv_done.wait(lock);
	const auto id = next_id++;
	active.insert(id);
	queue.emplace_back(id, task);
	if(threads.size() < num && threads.size() < queue.size() + busy) threads.emplace_back(&ThreadPool::loop, this);
	cv.notify_one();
	return id;
}
void ThreadPool::sync() {
	std::unique_lock<std::mutex> lock(mutex);
	while(!queue.empty() || busy) cv_done.wait(lock);
	if(error) { auto e = error; error = nullptr; std::rethrow_exception(e); }
}
void ThreadPool::sync(const std::vector<int64_t>& jobs) {
	std::unique_lock<std::mutex> lock(mutex);
	for(auto id : jobs) while(active.count(id)) cv_done.wait(lock);
	if(error) { auto e = error; error = nullptr; std::rethrow_exception(e); }
}
void ThreadPool::close() {
	{
		std::lock_guard<std::mutex> lock(mutex);
		closed = true;
		cv.notify_all();
	}
	for(auto& t : threads) if(t.joinable()) t.join();
	threads.clear();
}
void ThreadPool::loop() {
	std::unique_lock<std::mutex> lock(mutex);
	while(true) {
		while(queue.empty() && !closed) cv.wait(lock);
		if(queue.empty()) return;
		const auto id = queue.front().first;
		auto task = std::move(queue.front().second);
		queue.pop_front();
		busy++;
		lock.unlock();
		std::exception_ptr ex;
		try { task(); } catch(...) { ex = std::current_exception(); }
		task = nullptr;
		lock.lock();
		if(ex && !error) error = ex;
		busy--;
		active.erase(id);
		cv_done.notify_all();
	}
}

// ---------------------------------------------------------------- pipes

static std::mutex g_pipe_mutex;
static std::map<uint64_t, std::shared_ptr<Pipe>>& pipes() { static auto* m = new std::map<uint64_t, std::shared_ptr<Pipe>>(); return *m; }

std::shared_ptr<Pipe> open_pipe(Hash64 addr, Module* mod, int) {
	std::lock_guard<std::mutex> lock(g_pipe_mutex);
	auto p = std::make_shared<Pipe>();
	p->addr = addr; p->module = mod;
	pipes()[addr.value] = p;
	return p;
}
std::shared_ptr<Pipe> get_pipe(Hash64 addr) {
	std::lock_guard<std::mutex> lock(g_pipe_mutex);
	auto it = pipes().find(addr.value);
	return it != pipes().end() ? it->second : nullptr;
}
void close_pipe_(Module* mod) {
	std::lock_guard<std::mutex> lock(g_pipe_mutex);
	for(auto it = pipes().begin(); it != pipes().end();) { if(it->second->module == mod) it = pipes().erase(it); else ++it; }
}

// ---------------------------------------------------------------- Module

Module::~Module() { close_pipe_(this); }

void Module::add_task(const std::function<void()>& task) const {
	std::lock_guard<std::mutex> lock(queue_mutex);
	queue.push_back(task);
}
size_t Module::vnx_run_pending() {
	size_t n = 0;
	while(true) {
		std::function<void()> task;
		{
			std::lock_guard<std::mutex> lock(queue_mutex);
			if(queue.empty()) break;
			task = std::move(queue.front());
			queue.pop_front();
		}
		std::lock_guard<std::recursive_mutex> lock(exec_mutex);
		task();
		n++;
	}
	return n;
}
void Module::vnx_fire_timers() {
	std::vector<std::shared_ptr<Timer>> list;
	{ std::lock_guard<std::mutex> lock(queue_mutex); list = timers; }
	for(auto& t : list) {
		if(!t->active) continue;
		if(t->is_timeout || !t->interval_micros) t->active = false;
		std::lock_guard<std::recursive_mutex> lock(exec_mutex);
		t->func();
	}
	std::lock_guard<std::mutex> lock(queue_mutex);
	for(auto it = timers.begin(); it != timers.end();) { if((*it)->is_timeout && !(*it)->active && it->use_count() <= 2) it = timers.erase(it); else ++it; }
}
void Module::vnx_deliver(std::shared_ptr<const Value> value, const std::string& topic, Hash64 src) {
	std::lock_guard<std::recursive_mutex> lock(exec_mutex);
	auto s = Sample::create();
	s->value = value; s->topic = topic; s->src_mac = src; s->time = get_time_micros(); s->recv_time = s->time;
	vnx_sample = s;
	vnx_handle_switch(value);
}
void Module::publish(std::shared_ptr<const Value> value, const TopicPtr& topic, int) const {
	if(topic && g_publish_hook) g_publish_hook(const_cast<Module*>(this), topic.name, value);
}
std::shared_ptr<Timer> Module::add_timer(const std::function<void()>& func) {
	auto t = std::make_shared<Timer>();
	t->func = func;
	std::lock_guard<std::mutex> lock(queue_mutex);
	timers.push_back(t);
	return t;
}
std::shared_ptr<Timer> Module::set_timer_millis(int64_t ms, const std::function<void()>& func) {
	auto t = add_timer(func);
	t->set_millis(ms);
	return t;
}
std::shared_ptr<Timer> Module::set_timeout_millis(int64_t ms, const std::function<void()>& func) {
	auto t = add_timer(func);
	t->is_timeout = true;
	t->set_millis(ms);
	return t;
}
void Module::add_async_client(std::shared_ptr<AsyncClient> client) { if(client) client->vnx_owner_ = this; }

void Module::vnx_async_return(const request_id_t& r, std::shared_ptr<const Value> value) const {
	std::function<void(std::shared_ptr<const Value>)> cb;
	{
		std::lock_guard<std::mutex> lock(return_mutex);
		auto it = return_callbacks.find(r.id);
		if(it != return_callbacks.end()) { cb = it->second; return_callbacks.erase(it); }
		else returns[r.id] = value;
		return_cv.notify_all();
	}
	if(cb) cb(value);
}
void Module::vnx_async_return_ex(const request_id_t& r, const std::exception& ex) const { vnx_async_return_ex_what(r, ex.what()); }
void Module::vnx_async_return_ex_what(const request_id_t& r, const std::string& what) const {
	auto e = Exception::create();
	e->what = what;
	vnx_async_return(r, e);
}
static std::shared_ptr<const Value> make_ex(const std::string& what) { auto e = Exception::create(); e->what = what; return e; }

std::shared_ptr<const Value> Module::vnx_execute(std::shared_ptr<const Value> method, Hash64 session) {
	request_id_t rid;
	rid.id = next_request++;
	rid.session = session;
	std::shared_ptr<const Value> ret;
	{
		std::lock_guard<std::recursive_mutex> lock(exec_mutex);
		auto req = std::make_shared<Request_>();
		req->session = session; req->method = method;
		vnx_request = req;
		try { ret = vnx_call_switch(method, rid); } catch(const exception& ex) { return ex.value(); } catch(const std::exception& ex) { return make_ex(ex.what()); }
	}
	if(ret) return ret;
	std::unique_lock<std::mutex> lock(return_mutex);
	while(!returns.count(rid.id)) {
		if(return_cv.wait_for(lock, std::chrono::seconds(120)) == std::cv_status::timeout) throw std::logic_error("vnxlite: no async return for " + method->get_type_name());
	}
	ret = returns[rid.id];
	returns.erase(rid.id);
	return ret;
}

std::shared_ptr<const Value> Client::vnx_request(std::shared_ptr<const Value> method, bool is_async) {
	std::shared_ptr<const Value> ret;
	auto pipe = get_pipe(dst);
	if(pipe && pipe->module) ret = pipe->module->vnx_execute(method);
	else if(g_request_hook) ret = g_request_hook(dst, method);
	else throw exception(std::string("no such service"));
	if(std::dynamic_pointer_cast<const Exception>(ret)) { if(is_async) return nullptr; throw exception(ret); }
	return ret;
}

void AsyncClient::vnx_request(std::shared_ptr<const Value> method, uint64_t id) {
	auto reply = [this, id](std::shared_ptr<const Value> ret) {
		if(!vnx_is_pending(id)) return;
		if(std::dynamic_pointer_cast<const Exception>(ret)) vnx_purge_request(id, exception(ret));
		else vnx_callback_switch(id, ret);
	};
	auto pipe = get_pipe(dst);
	if(pipe && pipe->module) {
		auto* mod = pipe->module;
		auto* owner = vnx_owner_;
		// executed in the callee's "thread", answered in the caller's
		mod->add_task([mod, owner, method, reply]() {
			request_id_t rid;
			rid.id = mod->next_request++;
			{
				std::lock_guard<std::mutex> lock(mod->return_mutex);
				mod->return_callbacks[rid.id] = [owner, reply](std::shared_ptr<const Value> v) { if(owner) owner->add_task([reply, v]() { reply(v); }); else reply(v); };
			}
			std::shared_ptr<const Value> ret;
			try { ret = mod->vnx_call_switch(method, rid); } catch(const exception& ex) { ret = ex.value(); } catch(const std::exception& ex) { ret = make_ex(ex.what()); }
			if(ret) mod->vnx_async_return(rid, ret);
		});
		return;
	}
	if(g_request_hook) {
		auto ret = g_request_hook(dst, method);
		if(ret) { if(vnx_owner_) vnx_owner_->add_task([reply, ret]() { reply(ret); }); else reply(ret); }
	}
}

} // vnx
