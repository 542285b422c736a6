// Contract VM: differential execution against the reference interpreter, isolation and gas monitors, hostile input.
#include "common.h"
#include "refvm.h"
#include "vmgen.h"

#include <mmx/vm/Engine.h>
#include <mmx/vm/StorageProxy.h>
#include <mmx/vm/StorageRAM.h>
#include <mmx/vm/StorageCache.h>
#include <mmx/vm/StorageDB.h>
#include <mmx/vm/instr_t.h>
#include <mmx/vm_interface.h>
#include <mmx/secp256k1.hpp>
#include <mmx/contract/Binary.hxx>
#include <mmx/error_code_e.hxx>
#include <mmx/skey_t.hpp>
#include <mmx/pubkey_t.hpp>
#include <mmx/signature_t.hpp>
#include <mmx/DataBase.h>
#include <filesystem>
#include <vnx/vnx.h>

using namespace verif;
static const bool g_trace = getenv("VMTRACE");
static std::vector<std::string> g_tr[2];
static void tr(int i, const std::string& what, uint64_t gas) { if(g_trace) g_tr[i].push_back(what + " " + std::to_string(gas)); }
using namespace mmx;
typedef rv::u256 u256;

static std::string sigkey(const std::string& mode, const std::string& s) { return mode + ":" + s; }

static u256 to_u256(const uint256_t& v) {
	u256 r = 0;
	for(int i = 0; i < 4; ++i) r |= (u256)(uint64_t((v >> (64 * i)) & uint256_t(~uint64_t(0)))) << (64 * i);
	return r;
}
static uint256_t from_u256(u256 v) {
	uint256_t r = 0;
	for(int i = 3; i >= 0; --i) { r = r << 64; r = r | uint256_t(uint64_t(v >> (64 * i))); }
	return r;
}
static rv::V model_of(const vm::var_t& v) {
	rv::V r(int(v.type));
	switch(v.type) {
		case vm::TYPE_REF: r.addr = ((const vm::ref_t&)v).address; break;
		case vm::TYPE_UINT: r.num = to_u256(((const vm::uint_t&)v).value); break;
		case vm::TYPE_STRING: case vm::TYPE_BINARY: r.bin = ((const vm::binary_t&)v).to_string(); break;
		case vm::TYPE_ARRAY: r.addr = ((const vm::array_t&)v).address; r.size = ((const vm::array_t&)v).size; break;
		case vm::TYPE_MAP: r.addr = ((const vm::map_t&)v).address; break;
		default: break;
	}
	r.flags = v.flags; r.rc = v.ref_count;
	return r;
}
static std::unique_ptr<vm::var_t> real_of(const rv::V& v) {
	std::unique_ptr<vm::var_t> r;
	switch(v.type) {
		case rv::T_REF: r = std::make_unique<vm::ref_t>(v.addr); break;
		case rv::T_UINT: r = std::make_unique<vm::uint_t>(from_u256(v.num)); break;
		case rv::T_STR: r = vm::binary_t::alloc(v.bin); break;
		case rv::T_BIN: r = vm::binary_t::alloc(v.bin.data(), v.bin.size()); break;
		case rv::T_ARR: { auto a = std::make_unique<vm::array_t>(v.size); a->address = v.addr; r = std::move(a); break; }
		case rv::T_MAP: { auto a = std::make_unique<vm::map_t>(); a->address = v.addr; r = std::move(a); break; }
		default: r = std::make_unique<vm::var_t>(vm::vartype_e(v.type));
	}
	r->flags = v.flags; r->ref_count = v.rc;
	return r;
}
static vnx::Variant variant_of(const rv::Var& v) {
	switch(v.kind) {
		case rv::Var::NUL: return vnx::Variant(nullptr);
		case rv::Var::BOOL: return vnx::Variant(bool(v.num));
		case rv::Var::INT: if(v.num >> 32) return vnx::Variant(uint64_t(v.num)); else if(v.num >> 16) return vnx::Variant(uint32_t(v.num)); else return v.num & 1 ? vnx::Variant(uint16_t(v.num)) : vnx::Variant(int64_t(v.num));
		case rv::Var::NEG: return vnx::Variant(int64_t(-int64_t(v.num >> 2) - 1));
		case rv::Var::REAL: return vnx::Variant(double(v.num));
		case rv::Var::STR: return vnx::Variant(v.s);
		case rv::Var::BIN: return vnx::Variant(std::vector<uint8_t>(v.s.begin(), v.s.end()));
		case rv::Var::LIST: { std::vector<vnx::Variant> r; for(auto& e : v.list) r.push_back(variant_of(e)); return vnx::Variant(r); }
		case rv::Var::OBJ: { vnx::Object o; for(auto& e : v.map) o[e.first.s] = variant_of(e.second); return vnx::Variant(o); }
		default: { std::map<vnx::Variant, vnx::Variant> r; for(auto& e : v.map) r[variant_of(e.first)] = variant_of(e.second); return vnx::Variant(r); }
	}
}
static addr_t addr_of(const std::string& raw) { return addr_t::from_bytes((const uint8_t*)raw.data()); }
template<typename T> static std::string raw(const T& a) { return std::string((const char*)a.data(), a.size()); }

// -------------------------------------------------------------------------------------------------------------
// observes what an engine does to storage
class Spy : public vm::Storage {
public:
	std::shared_ptr<vm::Storage> inner; addr_t own; Check& ck; bool allow_write = false, read_only = false; uint64_t writes = 0, foreign = 0, early = 0; std::string mode;
	Spy(std::shared_ptr<vm::Storage> inner, const addr_t& own, Check& ck, const std::string& mode) : inner(inner), own(own), ck(ck), mode(mode) {}
	void own_only(const addr_t& c, const char* what) const { if(c != own) ck.violation(sigkey(mode, "foreign-storage"), std::string(what) + " of another contract's storage"); }
	std::unique_ptr<vm::var_t> read(const addr_t& c, const uint64_t a) const override { own_only(c, "read"); return inner->read(c, a); }
	std::unique_ptr<vm::var_t> read(const addr_t& c, const uint64_t a, const uint64_t k) const override { own_only(c, "read"); return inner->read(c, a, k); }
	void wr(const addr_t& c, uint64_t a, const vm::var_t& v) {
		own_only(c, "write");
		writes++;
		if(read_only) ck.violation(sigkey(mode, "read-only-write"), "a read-only execution wrote storage at " + std::to_string(a));
		if(!allow_write) ck.violation(sigkey(mode, "early-write"), "storage written before the execution was committed");
		if(a < vm::MEM_STATIC) ck.violation(sigkey(mode, "non-static-write"), "storage written below static memory");
		if(v.type == vm::TYPE_REF && ((const vm::ref_t&)v).address < vm::MEM_STATIC) ck.violation(sigkey(mode, "stored-stack-ref"), "reference to the stack stored");
	}
	void write(const addr_t& c, const uint64_t a, const vm::var_t& v) override { wr(c, a, v); inner->write(c, a, v); }
	void write(const addr_t& c, const uint64_t a, const uint64_t k, const vm::var_t& v) override { wr(c, a, v); inner->write(c, a, k, v); }
	uint64_t lookup(const addr_t& c, const vm::var_t& v) const override { own_only(c, "lookup"); return inner->lookup(c, v); }
	std::unique_ptr<uint128> get_balance(const addr_t& c, const addr_t& cur) override { own_only(c, "balance"); return inner->get_balance(c, cur); }
};

struct Call {			// one transaction operation
	int contract = 0; std::string method; std::vector<rv::Var> args; u256 user = 0; bool has_user = false, deposit = false, late_setup = true; std::string dep_cur; rv::u128 dep_amount = 0;
	bool is_const = false; uint64_t limit = 0; uint32_t height = 0; std::string txid; uint32_t version = 1;
};
struct Result {
	bool ok = false; uint64_t gas = 0; uint32_t code = 0, addr = -1; std::vector<rv::Out> outs; std::string what, ret;
	std::string str() const { return (ok ? "ok" : "fail") + std::string(" gas=") + std::to_string(gas) + " code=" + std::to_string(code) + " addr=" + std::to_string(addr) + " outs=" + std::to_string(outs.size()) + (ret.size() ? " ret=" + ret.substr(0, 200) : "") + (what.size() ? " (" + what.substr(0, 120) + ")" : ""); }
	bool same(const Result& o, bool gas_free) const { return ok == o.ok && (gas_free || gas == o.gas) && code == o.code && addr == o.addr && outs == o.outs && ret == o.ret; }
};
static const uint64_t CALL_FEE = 20000;

// -------------------------------------------------------------------------------------------------------------
struct RealWorld {
	Check& ck; std::string mode, name;
	std::vector<gen::Contract>& defs;
	std::shared_ptr<vm::Storage> backend, mid; std::shared_ptr<DataBase> db; std::shared_ptr<vm::StorageDB> sdb; std::string path; uint32_t version = 0; bool block_cache = false;
	std::map<std::pair<std::string, std::string>, rv::u128> balances;		// what the node would keep in its own tables
	bool spy_on = false, step_mode = false;
	std::map<int, uint64_t>* opcount = nullptr;

	RealWorld(Check& ck, const std::string& mode, const std::string& name, std::vector<gen::Contract>& defs) : ck(ck), mode(mode), name(name), defs(defs) {}
	void open_ram() { backend = std::make_shared<vm::StorageRAM>(); }
	void open_db(const std::string& p) {
		path = p;
		db = std::make_shared<DataBase>(2);
		sdb = std::make_shared<vm::StorageDB>(path, db);
		sdb->read_balance = [this](const addr_t& a, const addr_t& c) -> std::unique_ptr<uint128> {
			auto i = balances.find({raw(a), raw(c)});
			if(i == balances.end()) return nullptr;
			return std::make_unique<uint128>(uint128_t(uint64_t(i->second >> 64), uint64_t(i->second)));
		};
		sdb->write_balance = [this](const addr_t& a, const addr_t& c, const uint128& v) { balances[{raw(a), raw(c)}] = ((rv::u128)uint64_t(v >> 64) << 64) | uint64_t(v); };
		backend = sdb;
	}
	void reopen() { if(!db) return; mid = nullptr; backend = nullptr; sdb = nullptr; db = nullptr; open_db(path); const auto v = db->recover(); if(v != version) ck.violation(sigkey(mode, "db-version"), name + ": database came back with version " + std::to_string(v) + " instead of " + std::to_string(version)); }
	void drain() { if(mid) { std::dynamic_pointer_cast<vm::StorageCache>(mid)->commit(); mid = nullptr; } }
	// end of a block
	void seal() {
		drain();
		if(db) db->commit(++version);
		past[version] = balances;
	}
	std::map<uint32_t, std::map<std::pair<std::string, std::string>, rv::u128>> past;
	void revert(uint32_t v) { mid = nullptr; db->revert(v); version = v; balances = past.at(v); }
	std::shared_ptr<vm::Storage> top() {
		if(!block_cache) return backend;
		if(!mid) mid = std::make_shared<vm::StorageCache>(backend);
		return mid;
	}
	void set_balance(const addr_t& c, const addr_t& cur, rv::u128 v) { top()->set_balance(c, cur, uint128_t(uint64_t(v >> 64), uint64_t(v))); }

	std::shared_ptr<const contract::Binary> binary(int c) { return defs[c].binary; }

	void run_engine(std::shared_ptr<vm::Engine> e, const contract::method_t& m, bool commit, std::shared_ptr<Spy> spy, int c) {
		if(g_trace) {
			e->begin(m.entry_point);
			while(!e->call_stack.empty()) { const auto ip = e->call_stack.back().instr_ptr; try { e->step(); } catch(...) { tr(1, std::to_string(ip) + "!", e->gas_used); throw; } tr(1, std::to_string(ip), e->gas_used); }
			if(!m.is_const && commit) e->commit();
			tr(1, "commit", e->gas_used);
			e->check_gas();
			return;
		}
		if(!step_mode) {
			if(spy) { spy->allow_write = commit && !m.is_const; }
			vm::execute(e, m, commit);
			return;
		}
		// the same, one instruction at a time, under observation
		e->begin(m.entry_point);
		std::vector<std::string> fixed;
		std::vector<uint64_t> addrs;
		for(uint64_t a = 0; a < defs[c].consts.size(); ++a) addrs.push_back(a);
		for(uint64_t a = vm::MEM_EXTERN; a < vm::MEM_EXTERN + 8; ++a) addrs.push_back(a);
		auto snap = [&](uint64_t a) { auto* v = e->read(a, true); std::string s = v ? model_of(*v).text() : "-"; if(v && v->type == vm::TYPE_ARRAY) for(auto& x : e->find_entries(a)) s += "," + model_of(*x.second).text(); return s; };
		for(auto a : addrs) fixed.push_back(snap(a));
		uint64_t n = 0;
		while(!e->call_stack.empty()) {
			const auto before = e->gas_used;
			const auto ip = e->call_stack.back().instr_ptr;
			const auto code = ip < e->code.size() ? e->code[ip].code : vm::OP_NOP;
			bool threw = false;
			try { e->step(); } catch(...) { threw = true; if(ip < e->code.size()) gas_step(before, e->gas_used, e->gas_limit, threw, code); throw; }
			gas_step(before, e->gas_used, e->gas_limit, threw, code);
			n++;
			if(e->call_stack.size() > 1000) ck.violation(sigkey(mode, "call-depth"), "call stack deeper than the limit");
			if(n % 7 == 0 || e->call_stack.empty()) check_fixed(e, addrs, fixed, snap);
		}
		ck.count("monitored_steps", n);
		if(spy) spy->allow_write = commit && !m.is_const;
		if(!m.is_const && commit) e->commit();
		e->check_gas();
	}
	void check_fixed(std::shared_ptr<vm::Engine> e, const std::vector<uint64_t>& addrs, const std::vector<std::string>& fixed, const std::function<std::string(uint64_t)>& snap) {
		ck.eval();
		for(size_t i = 0; i < addrs.size(); ++i) if(fixed[i] != "-" && snap(addrs[i]) != fixed[i]) { ck.violation(sigkey(mode, "const-changed"), "constant or environment memory at " + std::to_string(addrs[i]) + " changed from " + fixed[i] + " to " + snap(addrs[i])); return; }
	}
	void gas_step(uint64_t before, uint64_t after, uint64_t limit, bool threw, int code) {
		ck.eval();
		if(after < before + 20) ck.violation(sigkey(mode, "gas-free-step"), "an instruction (op " + std::to_string(code) + ") was charged " + std::to_string(int64_t(after - before)) + " gas");
		if(!threw && after > limit) ck.violation(sigkey(mode, "gas-overrun"), "execution goes on with gas " + std::to_string(after) + " over the limit " + std::to_string(limit) + " (op " + std::to_string(code) + ")");
	}

	Result exec(const Call& call, bool keep) {
		Result r;
		auto cache = std::make_shared<vm::StorageCache>(top());
		const int c = call.contract;
		const auto addr = defs[c].address;
		const auto bin = binary(c);
		const auto& m = bin->methods.at(call.method);
		std::shared_ptr<Spy> spy;
		std::shared_ptr<vm::Storage> st = call.is_const ? std::shared_ptr<vm::Storage>(top()) : cache;
		if(spy_on) { spy = std::make_shared<Spy>(st, addr, ck, mode); spy->read_only = call.is_const; st = spy; }
		auto e = std::make_shared<vm::Engine>(addr, st, call.is_const, call.version);
		e->gas_limit = call.limit;
		std::vector<rv::Out> outs;
		try {
			if(call.is_const) {
				vm::load(e, bin);
				e->write(vm::MEM_EXTERN + vm::EXTERN_TXID, vm::var_t());
				e->write(vm::MEM_EXTERN + vm::EXTERN_HEIGHT, vm::uint_t(call.height));
				e->write(vm::MEM_EXTERN + vm::EXTERN_ADDRESS, vm::to_binary(addr));
				e->write(vm::MEM_EXTERN + vm::EXTERN_NETWORK, vm::to_binary(std::string("test")));
				e->write(vm::MEM_EXTERN + vm::EXTERN_USER, vm::var_t());
				vm::set_args(e, args_of(call));
				run_engine(e, m, false, spy, c);
				r.ret = vm::read(e, vm::MEM_STACK).to_string();
			} else {
				if(call.has_user) e->write(vm::MEM_EXTERN + vm::EXTERN_USER, vm::to_binary(addr_of(rv::Vm::be32(call.user, true))));
				else e->write(vm::MEM_EXTERN + vm::EXTERN_USER, vm::var_t());
				e->write(vm::MEM_EXTERN + vm::EXTERN_ADDRESS, vm::to_binary(addr));
				e->write(vm::MEM_EXTERN + vm::EXTERN_NETWORK, vm::to_binary(std::string("test")));
				if(call.deposit) {
					const auto cur = addr_of(call.dep_cur);
					uint128 amount = uint128_t(uint64_t(call.dep_amount >> 64), uint64_t(call.dep_amount));
					if(auto v = cache->get_balance(addr, cur)) amount += *v;
					cache->set_balance(addr, cur, amount);
				}
				auto setup = [&](std::shared_ptr<vm::Engine> x) {
					if(call.deposit) vm::set_deposit(x, addr_of(call.dep_cur), uint128_t(uint64_t(call.dep_amount >> 64), uint64_t(call.dep_amount)));
					vm::set_args(x, args_of(call));
				};
				if(!call.late_setup) setup(e);
				inner(e, c, call, m, cache, outs, setup, spy, 0);
			}
			r.ok = true;
		} catch(const std::exception& ex) {
			r.what = ex.what();
		}
		r.gas = e->gas_used; r.code = r.ok ? 0 : e->error_code; r.addr = r.ok ? -1 : e->error_addr;
		if(r.ok) { r.outs = outs; if(keep && !call.is_const) cache->commit(); }
		return r;
	}
	std::vector<vnx::Variant> args_of(const Call& call) { std::vector<vnx::Variant> r; for(auto& a : call.args) r.push_back(variant_of(a)); return r; }

	void inner(std::shared_ptr<vm::Engine> e, int c, const Call& call, const contract::method_t& m, std::shared_ptr<vm::StorageCache> cache, std::vector<rv::Out>& outs,
			const std::function<void(std::shared_ptr<vm::Engine>)>& setup, std::shared_ptr<Spy> spy, int depth) {
		const auto bin = binary(c);
		tr(1, "enter", e->gas_used);
		vm::load(e, bin);
		tr(1, "load", e->gas_used);
		if(call.late_setup) setup(e);
		tr(1, "setup", e->gas_used);
		std::weak_ptr<vm::Engine> w = e;
		e->remote_call = [&, w, c, depth](const std::string& name, const std::string& method, const uint32_t nargs) {
			auto e = w.lock();
			auto i = defs[c].depends.find(name);
			if(i == defs[c].depends.end()) throw std::runtime_error("no such external contract");
			const int t = i->second;
			e->gas_used += CALL_FEE;
			e->check_gas();
			std::shared_ptr<Spy> cspy;
			std::shared_ptr<vm::Storage> st = cache;
			if(spy_on) { cspy = std::make_shared<Spy>(cache, defs[t].address, ck, mode); st = cspy; }
			auto child = std::make_shared<vm::Engine>(defs[t].address, st, false, call.version);
			child->gas_limit = e->gas_limit - std::min(e->gas_used, e->gas_limit);
			const auto sp = e->get_stack_ptr();
			auto csetup = [&](std::shared_ptr<vm::Engine> x) {
				for(uint32_t i = 0; i < nargs; ++i) vm::copy(x, e, vm::MEM_STACK + 1 + i, sp + 1 + i);
				x->write(vm::MEM_EXTERN + vm::EXTERN_USER, vm::to_binary(e->contract));
				x->write(vm::MEM_EXTERN + vm::EXTERN_ADDRESS, vm::to_binary(defs[t].address));
				x->write(vm::MEM_EXTERN + vm::EXTERN_NETWORK, vm::to_binary(std::string("test")));
			};
			if(!call.late_setup) csetup(child);
			auto b = binary(t);
			auto mi = vm::find_method(b, method);
			if(!mi) throw std::logic_error("no such method");
			if(!mi->is_public) throw std::logic_error("method is not public");
			inner(child, t, call, *mi, cache, outs, csetup, cspy, depth + 1);
			vm::copy(e, child, sp, vm::MEM_STACK);
			e->gas_used += child->gas_used;
			e->check_gas();
		};
		e->read_contract = [&, w](const addr_t& address, const std::string& field, const uint64_t dst) {
			auto e = w.lock();
			rv::Var v = gen::field_value(raw(address), field);
			if(v.kind == rv::Var::NEG && v.num == 1) throw std::logic_error("no such contract");
			vm::assign(e, dst, variant_of(v));
			e->check_gas();
		};
		e->write(vm::MEM_EXTERN + vm::EXTERN_HEIGHT, vm::uint_t(call.height));
		e->write(vm::MEM_EXTERN + vm::EXTERN_TXID, vm::to_binary(addr_of(call.txid)));
		run_engine(e, m, true, spy, c);
		for(auto& o : e->outputs) {
			auto amount = cache->get_balance(e->contract, o.contract);
			if(!amount || o.amount > *amount) throw std::logic_error("contract over-spend");
			*amount -= o.amount;
			cache->set_balance(e->contract, o.contract, *amount);
			outs.push_back(conv(o));
		}
		for(auto& o : e->mint_outputs) outs.push_back(conv(o));
	}
	static rv::Out conv(const txout_t& o) {
		rv::Out r; r.contract = raw(o.contract); r.address = raw(o.address); r.amount = ((rv::u128)uint64_t(o.amount >> 64) << 64) | uint64_t(o.amount);
		if(o.memo) { r.has_memo = true; r.memo = *o.memo; }
		return r;
	}
};

// -------------------------------------------------------------------------------------------------------------
struct ModelWorld {
	rv::Store st; std::vector<gen::Contract>& defs; gen::Maker& maker; rv::Env env;
	std::map<int, uint64_t> ops; uint64_t steps = 0, remote = 0; bool unordered = false; std::map<std::string, uint64_t> cover;
	const Call* cur = nullptr;
	ModelWorld(std::vector<gen::Contract>& defs, gen::Maker& maker) : defs(defs), maker(maker) {}

	void prime(rv::Vm& v, int c) {
		v.code = &defs[c].code;
		v.on_fetch = [this, c](rv::Vm& v, uint64_t ip) { tr(0, "at " + std::to_string(ip), v.gas); maker.fetch(v, defs[c], ip); };
	}
	void load(rv::Vm& v, int c) {
		uint64_t a = 0;
		for(auto& k : defs[c].consts) v.assign(a++, k);
		v.init(); v.check();
	}
	void ext(rv::Vm& v, int i, const rv::V& x) { v.write(rv::EXTERN_BASE + i, x); }
	void inner(rv::Vm& v, int c, const Call& call, const std::string& method, rv::Store& st, std::vector<rv::Out>& outs, const std::function<void(rv::Vm&)>& setup) {
		prime(v, c);
		tr(0, "enter", v.gas);
		load(v, c);
		tr(0, "load", v.gas);
		if(call.late_setup) setup(v);
		tr(0, "setup", v.gas);
		rv::Env env = this->env;
		v.env.can_call = v.env.can_read = true;
		ext(v, vm::EXTERN_HEIGHT, rv::V::U(call.height));
		ext(v, vm::EXTERN_TXID, rv::V::B(call.txid));
		rv::Env local;
		v.begin(defs[c].entry.at(method));
		struct Tally { ModelWorld& w; rv::Vm& v; ~Tally() { for(auto& e : v.ops) w.ops[e.first] += e.second; w.steps += v.steps; if(v.unordered) w.unordered = true; } } tally{*this, v};
		v.run();
		v.commit();
		tr(0, "commit", v.gas);
		v.check();
		for(auto& o : v.outputs) {
			auto& b = st.bal[{c, o.contract}];
			if(o.amount > b) v.fail("over-spend");
			b -= o.amount;
			outs.push_back(o);
		}
		for(auto& o : v.mints) outs.push_back(o);
	}
	void set_args(rv::Vm& v, const Call& call) { for(size_t i = 0; i < call.args.size(); ++i) v.assign_var(rv::STACK_BASE + 1 + i, call.args[i]); }
	void deposit(rv::Vm& v, const Call& call) {
		const uint64_t a = rv::EXTERN_BASE + vm::EXTERN_DEPOSIT;
		v.assign(a, rv::V(rv::T_ARR));
		v.push_back(a, rv::V::B(call.dep_cur));
		v.push_back(a, rv::V::U(call.dep_amount));
	}
	Result exec(const Call& call, rv::Store* other = nullptr) {
		Result r;
		rv::Store& base = other ? *other : st;
		rv::Store work = base;
		work.fresh.clear();
		unordered = false;
		cur = &call;
		const int c = call.contract;
		rv::Env env = this->env;
		std::vector<rv::Out> outs;
		env.field = [](const std::string& a, const std::string& f) { rv::Var v = gen::field_value(a, f); if(v.kind == rv::Var::NEG && v.num == 1) throw rv::Fail{"no contract"}; return v; };
		env.call = [&](rv::Vm& p, const std::string& name, const std::string& method, uint32_t nargs) {
			int me = p.C;
			auto i = defs[me].depends.find(name);
			if(i == defs[me].depends.end()) p.fail("no external");
			const int t = i->second;
			p.gas += CALL_FEE; p.check();
			remote++;
			rv::Vm child(t, raw(defs[t].address), work, env, false, call.version);
			child.limit = p.limit - std::min(p.gas, p.limit);
			const uint64_t sp = rv::STACK_BASE + p.frame().sp;
			auto csetup = [&](rv::Vm& x) {
				for(uint32_t i = 0; i < nargs; ++i) rv::Vm::transfer(x, p, rv::STACK_BASE + 1 + i, sp + 1 + i);
				ext(x, vm::EXTERN_USER, rv::V::B(raw(defs[me].address)));
				ext(x, vm::EXTERN_ADDRESS, rv::V::B(raw(defs[t].address)));
				ext(x, vm::EXTERN_NETWORK, rv::V::S("test"));
			};
			if(!call.late_setup) csetup(child);
			if(!defs[t].entry.count(method)) p.fail("no method");
			if(!defs[t].is_public.at(method)) p.fail("not public");
			inner(child, t, call, method, work, outs, csetup);
			rv::Vm::transfer(p, child, sp, rv::STACK_BASE);
			p.gas += child.gas; p.check();
		};
		rv::Vm v(c, raw(defs[c].address), work, env, call.is_const, call.version);
		v.limit = call.limit;
		const bool over_before = false; (void)over_before;
		try {
			if(call.is_const) {
				prime(v, c);
				load(v, c);
				ext(v, vm::EXTERN_TXID, rv::V());
				ext(v, vm::EXTERN_HEIGHT, rv::V::U(call.height));
				ext(v, vm::EXTERN_ADDRESS, rv::V::B(raw(defs[c].address)));
				ext(v, vm::EXTERN_NETWORK, rv::V::S("test"));
				ext(v, vm::EXTERN_USER, rv::V());
				set_args(v, call);
				v.begin(defs[c].entry.at(call.method));
				v.run();
				v.check();
				r.ret = value_text(v, v.read(rv::STACK_BASE), 0).to_string();
			} else {
				ext(v, vm::EXTERN_USER, call.has_user ? rv::V::B(rv::Vm::be32(call.user, true)) : rv::V());
				ext(v, vm::EXTERN_ADDRESS, rv::V::B(raw(defs[c].address)));
				ext(v, vm::EXTERN_NETWORK, rv::V::S("test"));
				if(call.deposit) work.bal[{c, call.dep_cur}] += call.dep_amount;
				auto setup = [&](rv::Vm& x) { if(call.deposit) deposit(x, call); set_args(x, call); };
				if(!call.late_setup) setup(v);
				inner(v, c, call, call.method, work, outs, setup);
			}
			r.ok = true;
		} catch(const rv::Fail& f) {
			r.what = f.why;
		}
		if(call.is_const) { for(auto& e : v.ops) ops[e.first] += e.second; steps += v.steps; unordered |= v.unordered; }
		r.gas = v.gas; r.code = r.ok ? 0 : v.err_code == 1001 && v.over ? uint32_t(error_code_e::TXFEE_OVERRUN) : v.err_code; r.addr = r.ok ? -1 : v.err_addr;
		if(r.ok) { r.outs = outs; if(!call.is_const) base = std::move(work); }
		return r;
	}
	// what a caller from outside gets to see
	vnx::Variant value_text(rv::Vm& v, const rv::V* p, int level) {
		if(++level > 100) throw rv::Fail{"recursion"};
		v.gas += 50 + (p ? p->bytes() : 0) * 30 / 32; v.check();
		if(!p) return vnx::Variant();
		switch(p->type) {
			case rv::T_NIL: return vnx::Variant(nullptr);
			case rv::T_TRUE: return vnx::Variant(true);
			case rv::T_FALSE: return vnx::Variant(false);
			case rv::T_REF: return value_text(v, v.read(p->addr), level);
			case rv::T_UINT: if(p->num >> 64 == 0) return vnx::Variant(uint64_t(p->num)); return vnx::Variant("0x" + rv::Vm::digits(p->num, 16));
			case rv::T_STR: return vnx::Variant(p->bin);
			case rv::T_BIN: return vnx::Variant(std::vector<uint8_t>(p->bin.begin(), p->bin.end()));
			case rv::T_ARR: { std::vector<vnx::Variant> r; const rv::V a = *p; for(uint64_t i = 0; i < a.size; ++i) r.push_back(value_text(v, v.entry(a.addr, i), level)); return vnx::Variant(r); }
			case rv::T_MAP: {
				if(p->flags & rv::F_STORED) throw rv::Fail{"stored map"};
				const uint64_t a = p->addr;
				std::vector<uint64_t> ks;
				for(auto i = v.ent.lower_bound({a, 0}); i != v.ent.end() && i->first.first == a; ++i) if(i->second && !(i->second->flags & rv::F_DEL)) ks.push_back(i->first.second);
				std::map<vnx::Variant, vnx::Variant> r;
				bool obj = true;
				for(auto k : ks) { auto val = value_text(v, v.ent[{a, k}].get(), level); auto kk = value_text(v, v.read(k), level); if(!kk.is_string()) obj = false; r[kk] = val; }
				if(obj) { vnx::Object o; for(auto& e : r) o[e.first.to_string_value()] = e.second; return vnx::Variant(o); }
				return vnx::Variant(r);
			}
		}
		return vnx::Variant();
	}
};

static void seal_code(gen::Contract& d) {
	// the binary as it would be deployed
	auto b = contract::Binary::create();
	b->name = d.name;
	for(auto& k : d.consts) { auto v = real_of(k); auto s = vm::serialize(*v, false, false); b->constant.insert(b->constant.end(), s.first.get(), s.first.get() + s.second); }
	std::vector<vm::instr_t> code;
	for(auto& i : d.code) code.emplace_back(vm::opcode_e(i.code), i.flags, i.a, i.b, i.c, i.d);
	b->binary = vm::serialize(code);
	for(auto& e : d.entry) { contract::method_t m; m.name = e.first; m.entry_point = e.second; m.is_public = d.is_public[e.first]; m.is_const = d.is_const[e.first]; b->methods[e.first] = m; }
	d.binary = b;
}

static std::string listing(const gen::Contract& d, size_t limit = 60) {
	std::string s;
	size_t n = 0;
	for(size_t i = 0; i < d.code.size() && n < limit; ++i) if(d.have[i]) { const auto& x = d.code[i]; s += std::to_string(i) + ": " + vm::to_string(vm::instr_t(vm::opcode_e(x.code), x.flags, x.a, x.b, x.c, x.d)) + "\n"; n++; }
	return s;
}

static std::string op_name(int c) { try { return vm::get_opcode_info(vm::opcode_e(c)).name; } catch(...) { return std::to_string(c); } }

// compares a model with what is stored
static void compare_store(Check& ck, const std::string& mode, const ModelWorld& m, RealWorld& w, std::vector<gen::Contract>& defs) {
	auto st = w.top();
	uint64_t n = 0;
	for(auto& e : m.st.mem) {
		auto v = st->read(defs[e.first.first].address, e.first.second);
		n++;
		const std::string want = e.second.text() + "/" + std::to_string(e.second.flags & (rv::F_CONST | rv::F_DEL | rv::F_KEY)), got = v ? model_of(*v).text() + "/" + std::to_string(v->flags & (rv::F_CONST | rv::F_DEL | rv::F_KEY)) : "-";
		if(want != got) { ck.violation(sigkey(mode, "stored-value"), w.name + ": contract " + std::to_string(e.first.first) + " address " + std::to_string(e.first.second) + " holds " + got + ", expected " + want); return; }
	}
	for(auto& e : m.st.ent) {
		auto v = st->read(defs[std::get<0>(e.first)].address, std::get<1>(e.first), std::get<2>(e.first));
		n++;
		const std::string want = e.second.text() + "/" + std::to_string(e.second.flags & rv::F_DEL), got = v ? model_of(*v).text() + "/" + std::to_string(v->flags & rv::F_DEL) : "-";
		if(want != got) { ck.violation(sigkey(mode, "stored-entry"), w.name + ": entry " + std::to_string(std::get<1>(e.first)) + "[" + std::to_string(std::get<2>(e.first)) + "] holds " + got + ", expected " + want); return; }
	}
	for(auto& e : m.st.idx) {
		auto i = m.st.mem.find({e.first.first, e.second});
		if(i == m.st.mem.end()) continue;
		if(i->second.type == rv::T_ARR || i->second.type == rv::T_MAP || i->second.type == rv::T_REF) continue;
		n++;
		if(st->lookup(defs[e.first.first].address, *real_of(i->second)) != e.second) { ck.violation(sigkey(mode, "key-index"), w.name + ": key " + i->second.text() + " is not found at its address"); return; }
	}
	for(auto& e : m.st.bal) {
		auto v = st->get_balance(defs[e.first.first].address, addr_of(e.first.second));
		const rv::u128 got = v ? ((rv::u128)uint64_t(*v >> 64) << 64 | uint64_t(*v)) : 0;
		if(got != e.second) { ck.violation(sigkey(mode, "balance"), w.name + ": balance differs"); return; }
	}
	if(w.sdb && !w.mid) {		// nothing else is stored, and ranges list exactly what exists
		for(size_t c = 0; c < defs.size(); ++c) {
			std::map<uint64_t, std::string> want, got;
			std::map<uint64_t, std::map<uint64_t, std::string>> we;
			for(auto& e : m.st.mem) if(e.first.first == int(c)) want[e.first.second] = e.second.text();
			for(auto& e : w.sdb->find_range(defs[c].address, 0, -1)) got[e.first] = model_of(*e.second).text();
			n++;
			if(want != got) { ck.violation(sigkey(mode, "range"), w.name + ": listing the storage shows " + std::to_string(got.size()) + " values, expected " + std::to_string(want.size())); return; }
			for(auto& e : m.st.ent) if(std::get<0>(e.first) == int(c)) we[std::get<1>(e.first)][std::get<2>(e.first)] = e.second.text();
			for(auto& e : we) {
				std::map<uint64_t, std::string> ge;
				for(auto& x : w.sdb->find_entries(defs[c].address, e.first)) ge[x.first] = model_of(*x.second).text();
				n++;
				if(ge != e.second) { ck.violation(sigkey(mode, "entries"), w.name + ": listing the entries of " + std::to_string(e.first) + " shows " + std::to_string(ge.size()) + ", expected " + std::to_string(e.second.size())); return; }
			}
		}
	}
	ck.count("compared_values", n);
	ck.eval(n);
}

// what the database says about an earlier height
static void compare_past(Check& ck, const std::string& mode, const rv::Store& st, RealWorld& w, std::vector<gen::Contract>& defs, uint32_t height) {
	uint64_t n = 0;
	auto say = [&](const char* what, const std::string& got, const std::string& want) { ck.violation(sigkey(mode, what), w.name + " at height " + std::to_string(height) + " of " + std::to_string(w.version) + ": " + got + ", expected " + want); };
	for(size_t c = 0; c < defs.size(); ++c) {
		std::map<uint64_t, std::string> want, got;
		std::map<uint64_t, std::map<uint64_t, std::string>> we;
		for(auto& e : st.mem) if(e.first.first == int(c)) want[e.first.second] = e.second.text();
		for(auto& e : w.sdb->find_range(defs[c].address, 0, -1, height)) got[e.first] = model_of(*e.second).text();
		n++;
		if(want != got) { say("past-range", std::to_string(got.size()) + " values", std::to_string(want.size())); return; }
		for(auto& e : want) { auto v = w.sdb->read_ex(defs[c].address, e.first, height); n++; if(!v || model_of(*v).text() != e.second) { say("past-value", v ? model_of(*v).text() : "-", e.second); return; } }
		for(auto& e : st.ent) if(std::get<0>(e.first) == int(c)) we[std::get<1>(e.first)][std::get<2>(e.first)] = e.second.text();
		for(auto& e : we) {
			std::map<uint64_t, std::string> ge;
			for(auto& x : w.sdb->find_entries(defs[c].address, e.first, height)) ge[x.first] = model_of(*x.second).text();
			n++;
			if(ge != e.second) { say("past-entries", std::to_string(ge.size()), std::to_string(e.second.size())); return; }
			for(auto& x : e.second) { auto v = w.sdb->read_ex(defs[c].address, e.first, x.first, height); n++; if(!v || model_of(*v).text() != x.second) { say("past-entry", v ? model_of(*v).text() : "-", x.second); return; } }
		}
	}
	ck.count("compared_past_values", n);
	ck.eval(n);
}

#include "h_vm2.h"
#include "h_vm3.h"

int main(int argc, char** argv)
{
	Check ck(argc, argv);
	mmx::secp256k1_init();
	vnx::init("h_vm", 0, nullptr);
	try {
		if(ck.has("diff")) run_diff(ck, "diff");
		else if(ck.has("backends")) run_diff(ck, "backends");
		else if(ck.has("gas")) run_diff(ck, "gas");
		else if(ck.has("isolation")) run_diff(ck, "isolation");
		else if(ck.has("persist")) run_diff(ck, "persist");
		else if(ck.has("hostile")) run_hostile(ck);
		else if(ck.has("serial")) run_serial(ck);
		else { fprintf(stderr, "no mode\n"); return 77; }
	} catch(const std::exception& ex) {
		fprintf(stderr, "harness failure: %s\n", ex.what());
		return 77;
	}
	return ck.finish();
}
