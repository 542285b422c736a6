"""What is built and run for each property."""
IFACE_POS = ["IFACE", "pos/mem_hash", "pos/encoding", "pos/verify", "pos/verify_full"]
TARGETS = {
    "vm": dict(harness=["h_vm"], srcs=["IFACE", "VM", "DB", "vm/varptr_t"]),
    "db": dict(harness=["h_db"], srcs=["IFACE", "DB"]),
    "db_tsan": dict(harness=["h_db"], srcs=["IFACE", "DB"], flavour="tsan"),
    "node": dict(harness=["h_node", "node_ledger", "node_evil", "node_forks", "node_stubs"], srcs=["IFACE", "VM", "DB", "POS", "NODE", "Router", "vm/varptr_t", "upnp_mapper"], gen="full", hplain=True, plain=["Router", "upnp_mapper"], libs="-lsecp256k1 -lpthread -Wl,--allow-multiple-definition"),
    "prim": dict(harness=["h_prim"], srcs=IFACE_POS),
}
HOOKS = dict(guard="none", enable="no hooks: the harnesses compile the repository's sources unchanged against /verif/vnxlite", source_commits=[])
SAN = "ASan+UBSan run with "
CHECKS = {}
NOT_APPLICABLE = {}

def prop(pid, runs, technique, note, rule, level="exploration", assumptions=(), workers=8):
    CHECKS[pid] = dict(runs=runs, technique=technique, note=note, rule=rule, level=level, assumptions=list(assumptions), workers=workers)

ASSUME = ("the generated interface code and the vnx run time are replaced by /verif/vnxlite (the vnx-base submodule is absent), whose serialization follows the type definitions in /repo/interface",
          "128 and 256 bit integers come from a stand-in for the absent uint256_t submodule")

prop("P01", [dict(target="prim", args=["hash"])], SAN + "an online reference oracle (independent SHA-256, SHA-512, HMAC) and guard pages around every buffer",
     "every message length 0..1100 at least once on every path this CPU offers, random contents and splits; ARM paths cannot run here",
     "a message / lane set / iteration count / key, counted by length and content class", assumptions=["the CPU offers SHA-NI and AVX2, otherwise those paths are not exercised (see observed.have_*)"])
prop("P02", [dict(target="prim", args=["coding"])], SAN + "round-trip and reference-layout oracles over generated symbol lists, pairs, bit fields and hostile streams",
     "random symbol lists of all value ranges, offsets at every symbol, pairs at the limits of the square root's precision", "a symbol list, a pair or a bit field, by content")
prop("P03", [dict(target="prim", args=["pos"], shards=dict(quick=2, thorough=8))], SAN + "a plot evaluated from the definition as oracle for genuine and mutated proofs",
     "whole plots of k = 8..10 (thorough 12); larger k only shares the code, not the run", "a verification of a proof at a window position, by y and metadata", assumptions=["k up to 12 stands for larger k"])
prop("P05", [dict(target="prim", args=["addr"])], SAN + "an independent bech32m encoder and corruption of valid addresses", "substitutions, transpositions, insertions, deletions, wrong constants and lengths",
     "a distinct address text", assumptions=ASSUME)
prop("P06", [dict(target="prim", args=["sig"])], SAN + "an oracle over forgeries: every changed signature, message, key, owner set and order must be refused, with cold and warm cache, 8 threads on one cache",
     "random keys and messages; libsecp256k1 itself is trusted", "a distinct signature", assumptions=ASSUME + ("libsecp256k1 is correct",))
prop("P07", [dict(target="prim", args=["seed"])], SAN + "an independent derivation (PBKDF-style HMAC chain, checksum words) as oracle", "random seeds, word corruption, passphrases, indices, wallet-signed transactions",
     "a distinct seed or key path", assumptions=ASSUME)
prop("P09", [dict(target="prim", args=["amounts"])], SAN + "arbitrary-precision arithmetic as oracle", "values of all magnitudes, exact limits, malformed text, NaN and infinities", "a distinct value or text", assumptions=ASSUME)
prop("P10", [dict(target="prim", args=["math"])], SAN + "arbitrary-precision arithmetic as oracle, undefined-behaviour sanitizer on every intermediate result", "header fields, parameters and votes of all magnitudes",
     "a distinct combination of header fields and parameters", assumptions=ASSUME)

VMA = ASSUME + ("contracts call each other without cycles, as the chain only allows dependencies on contracts which exist already",)
prop("P08", [dict(target="vm", args=["serial"])], SAN + "an independent byte-level encoder and order as oracle, exactly sized heap blocks around every read", "all types, integer limits, sizes up to 1 MB, truncations, bit flips, random code",
     "a stored value, by its bytes", assumptions=ASSUME)
prop("P20", [dict(target="vm", args=["hostile"], shards=dict(quick=2, thorough=8))], SAN + "limits on call depth, recursion, time, gas and memory watched while hostile binaries run",
     "random and mutated instruction streams, self-referencing and mutually referencing structures, huge arrays, hostile constants, remote calls between them", "a binary, by code, constants and outcome", assumptions=VMA)
prop("P21", [dict(target="vm", args=["backends"], shards=dict(quick=2, thorough=8))], SAN + "online differential comparison of four storage arrangements (RAM, database, cache over each, with restarts) and a reference model", "generated contracts which call each other, histories of calls",
     "a call, by contract, arguments, outcome and state", assumptions=VMA)
prop("P22", [dict(target="vm", args=["gas"], shards=dict(quick=2, thorough=8))], SAN + "a monitor on gas after every instruction, a reference cost model, and re-execution of calls at exact gas limits", "generated contracts, limits one below, at and above each instruction's total",
     "a call with a gas limit, by contract, arguments and outcome", assumptions=VMA)
prop("P23", [dict(target="vm", args=["diff"], shards=dict(quick=3, thorough=8))], SAN + "an independent reference interpreter for every instruction as oracle", "generated contracts over all instructions with operands at their limits; hash and signature functions of the reference are independent or trusted libraries",
     "a call, by contract, arguments, outcome and return value", assumptions=VMA)
prop("P24", [dict(target="vm", args=["isolation"], shards=dict(quick=2, thorough=8))], SAN + "a monitor on constant and environment memory after every step, a spying storage under each contract, and the reference model", "generated contracts which write to all addresses, const methods, read-only calls",
     "a call, by contract, arguments and outcome", assumptions=VMA)
prop("P25", [dict(target="vm", args=["persist"], shards=dict(quick=2, thorough=8))], SAN + "offline comparison of the complete stored state with a reference model after every call, revert and restart", "histories of calls over several contracts, failing calls, reverts, restarts",
     "a call, by contract, arguments, outcome and stored state", assumptions=VMA)

DBA = ("the vnx file classes are those of /verif/vnxlite (the vnx-base submodule is absent): buffered writes reach the file in order, a crash keeps a prefix of the write calls made so far, the last one possibly in part; loss of completed writes (power failure without fsync) is not modelled",)
prop("P40", [dict(target="db", args=["map"])], SAN + "an in-memory multi-version map as online oracle for lookups at every version, scans, seeks and mixed iterator walks", "generated histories with tiny block sizes, so that every level of flush and merge happens within tens of commits",
     "a table content (all keys, versions and values) which was compared completely", assumptions=DBA)
prop("P41", [dict(target="db", args=["revert"])], SAN + "the same oracle after reverts to every kind of version, before and after a restart, and through the history which follows", "generated histories with one revert in seven operations",
     "a table content (all keys, versions and values) which was compared completely", assumptions=DBA)
prop("P42", [dict(target="db", args=["crash"], shards=dict(quick=2, thorough=8))], SAN + "an offline checker over recorded file operations: the directory is rebuilt as of sampled operations (with torn writes), reopened and compared with the model; crashes are repeated during recovery", "a sample of the crash points of each generated history",
     "a directory state at a crash point, by content of all files", assumptions=DBA)
prop("P43", [dict(target="db", args=["multi"], shards=dict(quick=3, thorough=8))], SAN + "the same over two to five tables which commit, flush and revert in several threads", "a sample of the crash points of each generated history; thread schedules as they happen",
     "a state of all directories at a crash point, by content of all files", assumptions=DBA)
prop("P44", [dict(target="db_tsan", args=["threads"])], "ThreadSanitizer over concurrent readers, iterators and parallel flushes, results compared with a model", "up to five readers and six flush threads, schedules as they happen",
     "a final content of a table in a concurrent run", assumptions=DBA + ("readers and writers are separated by a reader/writer lock, as the node does",))
prop("P45", [dict(target="db", args=["typed"])], SAN + "ordered maps as oracle for every query of the typed and multi-value tables", "generated keys at the limits of each key type, limits 0, 1, few, unlimited",
     "a query (table type, bounds, limit) on a generated content", assumptions=DBA)

NDA = ("the vnx run time is the one of /verif/vnxlite (the vnx-base submodule is absent): modules run in the harness' own thread, messages are delivered in the order the workload chooses",
	"consensus parameters of the main network, except plot size, difficulty, rewards and hard fork heights, which are lowered so that a chain grows in a sandbox; the genesis is the one of the main network", "the binaries of the standard contracts are the committed ones, as their compiler's parser library is absent")
def ledger(pid, mixes):
	return [dict(target="node", args=["ledger", pid, "mix%d" % m], shards=dict(quick=q, thorough=6)) for m, q in mixes]
def mode(mode, pid, mixes):
	return [dict(target="node", args=[mode, pid, "mix%d" % m], shards=dict(quick=q, thorough=6)) for m, q in mixes]
def evil(pid, mixes):
	return [dict(target="node", args=["evil", pid, "mix%d" % m], shards=dict(quick=q, thorough=6)) for m, q in mixes]
LEDGER = "an independent ledger, which is fed the blocks of the chain only, as online oracle after every block"
GENTX = "generated transactions of some forty kinds (payments, sweeps, overflows, forgeries, replays, deployments and calls of all standard contracts, fee limits at the exact cost) on chains of some thirty (thorough: 130) blocks from the main network's genesis"
TXRULE = "a confirmed transaction, by kind, outcome and numbers of inputs and outputs"
prop("P50", ledger("P50", [(0, 2), (1, 2), (3, 1)]) + evil("P50", [(0, 1), (2, 1)]), SAN + LEDGER + ": all balances, supplies and the conservation of value per transaction and block", GENTX, TXRULE, assumptions=NDA)
prop("P51", ledger("P51", [(0, 2), (1, 2)]) + evil("P51", [(0, 1)]), SAN + LEDGER + ": ids seen, expiry, network and version of everything which took effect", GENTX, TXRULE, assumptions=NDA)
prop("P52", ledger("P52", [(2, 3), (0, 1)]) + evil("P52", [(0, 1)]), SAN + LEDGER + ": every signature recomputed with independent hashing and libsecp256k1, plus the generator's knowledge of which transactions are forged", GENTX, TXRULE, assumptions=NDA)
prop("P53", ledger("P53", [(3, 3), (0, 1)]) + evil("P53", [(0, 1)]), SAN + LEDGER + " together with dumps of contract storage before and after each block", GENTX, TXRULE, assumptions=NDA)
prop("P54", ledger("P54", [(0, 2), (3, 2)]) + evil("P54", [(0, 1), (2, 1)]), SAN + LEDGER + ": fee, cost, limits and block totals recomputed", GENTX, TXRULE, assumptions=NDA)
prop("P60", ledger("P60", [(3, 3), (0, 1), (1, 1)]), SAN + "online comparison of two nodes: what one makes the other has to take, with equal storage, and the generator's knowledge of which transactions have to be in", GENTX, TXRULE, assumptions=NDA)
prop("P61", ledger("P61", [(0, 3), (3, 1)]), SAN + LEDGER + " for every query of the node with random filters", GENTX, "a confirmed transaction, by kind, outcome and numbers of inputs and outputs (queries are counted as evaluations)", assumptions=NDA)
EVIL = "a second implementation of the rules as oracle for what the real node adopts when a farmer with valid proofs offers it "
prop("P57", evil("P57", [(0, 3), (2, 2)]), SAN + EVIL + "blocks with false transactions", "some sixty ways to lie about a transaction (its outcome, amounts, cost, fee, order, repetition, signature) in blocks which are right otherwise; one in four with a child",
     "a block with a false transaction which was offered, by kind of lie", assumptions=NDA)
prop("P62", evil("P62", [(0, 3), (1, 2)]), SAN + EVIL + "tampered headers", "some sixty ways to tamper with a header, its proofs or its signature, with everything else derived anew, plus variants which are allowed and have to be adopted",
     "a tampered header which was offered, by tampering and rules broken", assumptions=NDA)
FORKS = "an independent ledger per branch and a fresh node which only saw the winning chain as oracle for four real nodes "
prop("P55", mode("forks", "P55", [(0, 2), (1, 2), (2, 1)]), SAN + FORKS + "which hear of blocks in different orders and restart", "trees of blocks by two farmers and a block maker of the harness's own, forks up to beyond the commit delay",
     "a change of forks, by depth, height and hash", assumptions=NDA)
prop("P56", mode("crash", "P56", [(0, 3), (1, 2)]), SAN + "crash injection at file operations (an image of the node's directory is kept at chosen operations, some in the middle of a write; a new node is started on it), with an independent ledger and the node which went on as oracle",
     "blocks, changes of forks, restarts and recoveries of a node", "a crash point, by block, operation and contents of the files", assumptions=NDA)
prop("P65", mode("votes", "P65", [(0, 2), (1, 2)]) + mode("forks", "P65", [(0, 1), (1, 1), (2, 1)]), SAN + "an independent choice of the best chain as oracle for real nodes which get blocks, proofs, VDF points and votes in random orders", "small trees of blocks on one parent with votes of validators, of others and forged ones; long forks",
     "a choice between blocks, by numbers of blocks and votes and the block chosen", assumptions=NDA)
prop("P66", mode("forks", "P66", [(0, 3), (2, 2)]), SAN + FORKS + "with knowledge of the transactions in undone blocks", "trees of blocks with conflicting and independent transactions on both sides", "a change of forks, by depth, height and hash", assumptions=NDA)
