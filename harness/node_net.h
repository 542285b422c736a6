// Two nodes on one chain, and the ledger which follows them.
#ifndef VERIF_NODE_NET_H_
#define VERIF_NODE_NET_H_
#include "node_gen.h"
#include "node_chain.h"
#include <mmx/vm/varptr_t.hpp>
namespace nd {

struct Net {
	Check& ck; Oracle O; World w; NodeBox a, b; Ledger L; Auditor aud; Gen gen; Rng rng;
	bool ok = false;
	std::map<addr_t, std::string> stores;		// content of contracts' storage, for those looked at
	Net(Check& c, uint64_t stream, const std::function<void(World&)>& tune = {}) : ck(c), O(c), w(c, stream), a(w, "A", c.scratch + "/a"), b(w, "B", c.scratch + "/b"), L(w.params), aud(O, w), gen(w, L, stream + 1), rng(c.rng(stream + 2)) {
		if(tune) tune(w);
		w.make_plots(12);
		if(!a.start() || !b.start()) { fprintf(stderr, "start failed: %s %s\n", a.error.c_str(), b.error.c_str()); exit(77); }
		L.push(a.api->get_block_at(0), O);
		aud.balances(a, L);
		ok = true;
	}
	std::string dump(NodeBox& n, const addr_t& c) {
		std::string s; std::ostringstream o;
		for(auto& e : n.api->dump_storage(c, -1)) o << e.first << "=" << vm::to_string(e.second.get()) << ";";
		return o.str();
	}
	// one block on A, given to B
	bool step(bool give_b = true) {
		if(!w.grow(a, give_b ? std::vector<NodeBox*>{&b} : std::vector<NodeBox*>{})) return false;
		for(uint32_t h = L.height() + 1; h <= a.height(); ++h) { auto blk = a.api->get_block_at(h); ck.mark("block " + std::to_string(h) + " with " + std::to_string(blk->tx_list.size()) + " transactions"); L.push(blk, O); ck.count("blocks"); }
		if(give_b) {
			w.feed(a, b, L.height());
			O(b.height() == L.height() && b.peak()->hash == L.blocks.back()->hash, "P60", "follower-refused", [&]() { return "block " + std::to_string(L.height()) + " made by A is not taken by B: " + b.last_warn(); });
		}
		return true;
	}
};


} // nd
#endif
