"""The properties (written to properties.jsonl by run.py gen-manifest)."""
PROPS = []

def P(pid, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=pid, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b) for a, b in state]
    PROPS.append(d)

# ------------------------------------------------------------------------------------------- primitives
P("P01", "Every hashing path computes standard SHA-256, SHA-512 and HMAC",
  """For every message of every length, each SHA-256 implementation (portable, SHA-NI, AVX2 8-lane, the iterated ones used by the VDF), SHA-512
  (in one piece or in any split), HMAC-SHA512 and the key derivation built on it return exactly the standard value, no matter which CPU path is taken,
  and never touch memory outside of the message and the result.""",
  ["inputs", "configurations"], "all messages and lengths, all ways to split them, all keys, iteration counts and CPU paths",
  "No test covers these; a wrong padding case or lane splits the network between CPU types and only shows at certain lengths.",
  ["src/sha256_ni.cpp", "src/sha256_avx2.cpp", "src/sha512.cpp", "src/hmac_sha512.cpp", "src/sha256_64_x8.cpp", "include/mmx/hash_t.hpp", "include/mmx/hmac_sha512.hpp"],
  [("SHA-NI compression and padding", "src/sha256_ni.cpp"), ("8-lane compression", "src/sha256_avx2.cpp"), ("buffering and padding", "src/sha512.cpp"), ("key block handling", "src/hmac_sha512.cpp")])
P("P02", "Plot symbol coding and line points are lossless",
  """Encoding any list of symbols and decoding it again, from the start or from any symbol's bit offset, gives back the same symbols, and the stream has the
  documented layout (two bits per unit, 3 = continue). Converting a pair to its line point and back gives the same pair over the whole 64-bit range, bit
  fields written to a buffer read back unchanged without touching their neighbours, and hostile streams are decoded or refused without reading outside of them.""",
  ["inputs"], "all symbol lists, offsets, pairs (x > y) of 32 bits, bit positions and widths, arbitrary streams",
  "The one stable test encodes a few random lists; it misses lists which end within the last bits of a 64-bit word, large symbols, offsets and hostile streams.",
  ["src/pos/encoding.cpp", "include/mmx/pos/util.h"],
  [("encode / decode", "src/pos/encoding.cpp"), ("LinePointToSquare", "src/pos/encoding.cpp"), ("write_bits / read_bits", "include/mmx/pos/util.h")])
P("P03", "Proof-of-space verification accepts exactly genuine proofs",
  """Every proof taken from a genuinely constructed plot (tables and matches built for its plot id) is accepted with the quality it really has, for every
  plot size supported by the parameters. A proof with any x value changed, exchanged, repeated or out of range, of another plot, another challenge, or of the
  wrong length is refused, or yields a quality which the same definition assigns to those x values.""",
  ["inputs", "configurations"], "all plot ids, challenges, plot sizes k, x value lists and mutations of them",
  "No test constructs a plot; verification is only exercised in operation.",
  ["src/pos/verify.cpp", "src/pos/mem_hash.cpp", "include/mmx/pos/verify.h", "include/mmx/pos/config.h"],
  [("compute", "src/pos/verify.cpp"), ("verify", "src/pos/verify.cpp"), ("mem hash", "src/pos/mem_hash.cpp")])
P("P05", "Addresses round-trip through text and damaged text is refused",
  """Every address converts to bech32m text with the network prefix and back to the same address, equal to the independently computed encoding. Text with any
  one to four changed characters, another prefix, other length, mixed or damaged checksum never parses to an address, and the all-zero
  address keeps its native-currency meaning.""",
  ["inputs"], "all 32-byte addresses; all texts, in particular up to four substitutions",
  "No test covers addresses; a checksum that is not verified only shows with a typo.",
  ["src/addr_t.cpp", "include/mmx/addr_t.hpp"], [("from_string / to_string", "src/addr_t.cpp"), ("bech32 polymod", "src/addr_t.cpp")])
P("P06", "A signature verifies only for its own message and key",
  """A signature made with a key verifies for that key and message, as public key solution or as threshold multi-signature with at least the required number
  of distinct valid owners. Nothing else verifies: not after changing any bit of signature, message or key, not for another owner, not with
  too few or repeated owners, and not because a genuine signature was verified (and cached) before, in any order and from any thread.""",
  ["inputs", "histories", "schedules"], "all keys, messages, signatures, owner sets, orders of verification",
  "No test signs anything; results depend on a cache shared by all verifications.",
  ["src/signature_t.cpp", "src/pubkey_t.cpp", "src/contract/PubKey.cpp", "src/contract/MultiSig.cpp", "include/mmx/signature_t.hpp"],
  [("signature cache", "src/signature_t.cpp"), ("recovery of public keys", "src/pubkey_t.cpp"), ("owner counting", "src/contract/MultiSig.cpp")])
P("P07", "Seed phrases and wallet keys derive as specified",
  """Every 32-byte seed converts to 24 words and back to itself, word lists with a wrong checksum, unknown words or wrong count are refused, and keys, addresses
  and transaction signatures derived from seed, passphrase and index equal the documented hierarchical derivation, distinct for every index and passphrase.""",
  ["inputs"], "all seeds, word lists, passphrases, account and address indices",
  "No test covers it; a wrong derivation means that funds cannot be recovered from the phrase.",
  ["src/mnemonic.cpp", "include/mmx/mnemonic.h", "include/mmx/ECDSA_Wallet.h", "include/mmx/hmac_sha512.hpp"],
  [("words", "src/mnemonic.cpp"), ("key derivation", "include/mmx/ECDSA_Wallet.h")])
P("P09", "Amounts convert exactly or are refused",
  """128-bit amounts, decimal fixed-point values and fees convert between text, binary, decimals and floating point exactly (rounding toward zero where digits
  are dropped) and never wrap around: a value that does not fit its type, is negative or is not a number is refused. Fee from cost and cost from fee are exact or
  refused.""",
  ["inputs"], "all 128-bit values, decimals 0..18, decimal texts with fraction and exponent, all doubles",
  "No test converts amounts; wrap-around needs values near the type's limits.",
  ["src/fixed128.cpp", "include/mmx/fixed128.hpp", "include/mmx/uint128.hpp", "include/mmx/utils.h", "src/uint128.cpp"],
  [("fixed128", "src/fixed128.cpp"), ("to_amount", "include/mmx/utils.h"), ("cost_to_fee", "include/mmx/utils.h")])
P("P10", "Consensus arithmetic is exact for every chain state",
  """Difficulty, block weight, netspace ratio, rewards, fee buffer, base reward, challenges, proof thresholds and iteration counts equal their definition in
  unbounded integers for every header, parameter set and vote, stay within their stated ranges, and never pay out more of the fees than were collected. No
  intermediate result overflows, divides by zero or depends on undefined behaviour.""",
  ["inputs", "configurations"], "all header field values, chain parameters, proofs and votes",
  "No test covers it; errors show only at extreme values, after many adjustments, or after a hard fork height.",
  ["include/mmx/utils.h", "src/utils.cpp"],
  [("calc_new_space_diff / calc_new_time_diff", "include/mmx/utils.h"), ("calc_block_weight", "include/mmx/utils.h"), ("rewards", "include/mmx/utils.h"), ("get_proof_score / thresholds", "include/mmx/utils.h")])

# ------------------------------------------------------------------------------------------- contract machine
VMF = ["src/vm/Engine.cpp", "src/vm_interface.cpp", "src/vm/var_t.cpp", "src/vm/instr_t.cpp", "src/vm/StorageProxy.cpp", "src/vm/StorageCache.cpp", "src/vm/StorageRAM.cpp", "src/vm/StorageDB.cpp"]
P("P08", "Contract values and code round-trip through their stored form",
  """Every contract machine value (any type, with or without reference count and flags) written and read again is the same value and has the documented bytes, with integers in
  their shortest form; comparing values is a total order consistent with their content. Contract code written and read again is the same list of instructions. Truncated or
  arbitrary bytes are refused or read without touching memory outside of them, and what they read to is stable.""",
  ["inputs"], "all values of all types and sizes, all instruction lists, all byte strings",
  "No test covers these; contract state of every node passes through them, and boundary widths decide whether two nodes store the same state.",
  ["src/vm/var_t.cpp", "src/vm/instr_t.cpp", "include/mmx/vm/var_t.h"],
  [("serialize / deserialize / compare", "src/vm/var_t.cpp"), ("code", "src/vm/instr_t.cpp")])
P("P20", "No contract can crash, hang or exhaust a node",
  """Executing any binary at all (arbitrary constants, instructions, flags, operands, arguments, deposits, nested remote calls, on fresh or earlier storage) and converting whatever
  it returns ends with a result or an error, without undefined behaviour, within its gas limit, and within bounded call depth, recursion, time and memory.""",
  ["inputs", "histories"], "all contract binaries, arguments, storage contents and gas limits",
  "A contract is data sent by an adversary; unit tests run well-formed compiled code only.",
  VMF, [("instructions", "src/vm/Engine.cpp Engine::exec"), ("reference counted memory", "src/vm/Engine.cpp assign / write / clear / erase"), ("constants", "src/vm_interface.cpp load"), ("result conversion", "src/vm_interface.cpp convert")])
P("P21", "Contract execution gives the same result on every storage back end",
  """The same history of contract calls gives the same result, return value, error, gas, outputs and stored state whether state is kept in RAM, in the database, in a cache on top of
  either, and whether or not the node was restarted or the cache was re-created in between: validating nodes cannot diverge because of what they happen to have cached.""",
  ["histories", "configurations", "crash_points"], "all histories of calls, all placements of restarts and cache boundaries",
  "Tests execute on one back end, without restart.",
  VMF, [("cache over storage", "src/vm/StorageCache.cpp"), ("database layout", "src/vm/StorageDB.cpp"), ("RAM", "src/vm/StorageRAM.cpp"), ("first load of a stored value", "src/vm/StorageProxy.cpp")])
P("P22", "Gas bounds execution and is charged exactly once",
  """No execution continues once its gas exceeds the limit: with any limit the outcome is either the one without a limit or a failure for lack of gas, and success needs a limit of at least
  the gas used. Gas used by any instruction is positive, equals the documented cost of what it did (values, bytes, hash blocks, storage reads and writes), never decreases and is added from successful remote calls.""",
  ["inputs", "histories"], "all programs, all gas limits",
  "Tests run with ample gas and compare no cost; a missing check only shows at the exact limit.",
  VMF, [("check_gas", "src/vm/Engine.cpp"), ("storage cost", "src/vm/StorageProxy.cpp"), ("remote calls", "src/vm_interface.cpp execute")])
P("P23", "Every contract instruction does what it is defined to do",
  """For every program, each instruction (integer arithmetic with its overflow and width checks, comparison, conversion, strings and bytes, hashing, signature verification, arrays, maps, copies, jumps, calls,
  send, mint, balances, remote calls, events) yields exactly the value, error and error location which the instruction's definition gives, including at limits: 256-bit overflow, division by
  zero, negative shifts, 64-bit and 80-bit amount limits, out-of-range indices, and unsupported operand types.""",
  ["inputs", "histories"], "all programs, operands and flags",
  "The test suite for the machine covers a handful of sequences (and is not among the tests which run here).",
  VMF, [("instructions", "src/vm/Engine.cpp Engine::exec"), ("jumps and calls", "src/vm/Engine.cpp"), ("mint/send outputs", "src/vm/Engine.cpp")])
P("P24", "A contract can only change its own storage",
  """Whatever a contract executes, its constants and the environment it is given (caller, own address, deposit, height, transaction) never change, a const method never changes any stored value or balance nor creates
  outputs, and storage of another contract only changes through that contract's own public methods. Failed operations inside one contract leave every other contract's storage untouched.""",
  ["inputs", "histories"], "all programs and call graphs between contracts",
  "Isolation violations need deliberately hostile instruction sequences.",
  VMF, [("FLAG_CONST, FLAG_READ_ONLY", "src/vm/Engine.cpp"), ("StorageProxy read_only", "src/vm/StorageProxy.cpp"), ("address ranges", "include/mmx/vm/Engine.h")])
P("P25", "Contract state persists exactly, and failed calls leave no trace",
  """After a successful call the stored state is exactly what the call left in static memory and in values reachable from it, readable unchanged by the next call, by range listings, by key look-up, at an earlier height
  after a revert and after restarts; a failed call changes nothing at all (no value, entry, key, balance or output).""",
  ["histories", "crash_points"], "all histories of succeeding and failing calls, reverts and restarts",
  "Tests never chain many calls over one state with garbage collection, reverts and restarts.",
  VMF, [("commit", "src/vm/Engine.cpp Engine::commit"), ("garbage collection", "src/vm/Engine.cpp clear / erase / unref"), ("history", "src/vm/StorageDB.cpp"), ("StorageCache::commit", "src/vm/StorageCache.cpp")])

# ------------------------------------------------------------------------------------------- data base
P("P40", "A table is an exact ordered map with all committed versions",
  """Looking up a key gives the newest inserted value, and looking it up at an older version gives the value it had at the end of that version, for every key and version,
  no matter how entries are spread over memory, flushed blocks, merge levels and restarts. Iterating in either direction, from either end or from any present or absent key, with any mix of
  steps, visits every live key exactly once in key order with its newest value. Inserts, flushes and reverts while an iterator exists, commits which do not advance and reverts into the future are refused without effect.""",
  ["inputs", "histories", "configurations"], "all sequences of inserts, commits, flushes and restarts; all key orders, block sizes and level factors",
  "No test covers the store; merging blocks over levels only starts after many commits, and iterators combine any number of blocks.",
  ["src/DataBase.cpp", "include/mmx/DataBase.h"],
  [("find", "src/DataBase.cpp"), ("Iterator", "src/DataBase.cpp"), ("flush / rewrite / check_rewrite", "src/DataBase.cpp")])
P("P41", "Reverting a table restores exactly the earlier state",
  """After revert(v) the table contains exactly what had been inserted before version v, at every older version as well, and its version is v. It stays so after a restart, and whatever is inserted and committed afterwards
  behaves as if the reverted entries had never existed, no matter whether they were in memory, in the log or in blocks of any level.""",
  ["histories", "configurations"], "all histories with reverts to any version, followed by any operations and restarts",
  "No test covers reverts; wrong leftovers only show for certain combinations of flushed blocks and versions.",
  ["src/DataBase.cpp"], [("revert", "src/DataBase.cpp"), ("replay of the write log", "src/DataBase.cpp")])
P("P42", "A crash at any point loses nothing that was committed",
  """If the process dies at any point, in the middle of a write, commit, flush, merge, revert or restart, then opening the table again gives exactly the state of the last completed commit (or revert), or of the one in progress,
  never a mixture, with all older versions intact. This also holds if recovery itself is interrupted again, and the recovered table keeps working correctly.""",
  ["crash_points", "histories"], "all crash points, including torn writes and crashes during recovery",
  "No test kills the process; a crash point between two file operations is hit by chance only.",
  ["src/DataBase.cpp"], [("write log", "src/DataBase.cpp"), ("block replacement by rename", "src/DataBase.cpp"), ("removal of overlapping blocks", "src/DataBase.cpp")])
P("P43", "All tables of a database recover to one common version",
  """DataBase::commit and revert move all tables to the new version, also when their flushes run in parallel. After a crash at any point, recover() brings all tables to one version, which is that before or after the operation in progress, with exactly
  the content each table had at that version.""",
  ["crash_points", "schedules", "histories"], "all crash points and thread schedules, tables with different activity and flush moments",
  "No test covers it; tables flush and revert at different moments, so that a crash leaves them at different versions.",
  ["src/DataBase.cpp", "include/mmx/DataBase.h"], [("commit / revert / recover", "src/DataBase.cpp"), ("min_version", "src/DataBase.cpp")])
P("P44", "Concurrent readers of the store are race free and see consistent data",
  """Any number of threads may look up and iterate tables at the same time, while commits flush and merge several tables in parallel threads (writers and readers being separated by a lock): there is no data race, and every reader sees exactly the committed and inserted
  entries.""",
  ["schedules"], "all schedules of readers, iterators and parallel flush tasks",
  "Unit tests are single threaded; races show under load only.",
  ["src/DataBase.cpp", "include/mmx/DataBase.h"], [("iterator write lock", "src/DataBase.cpp"), ("positional reads", "src/DataBase.cpp"), ("flush tasks", "src/DataBase.cpp")])
P("P45", "Typed tables answer range queries completely and in key order",
  """For every key type (integers, hashes, addresses and their combinations) numeric and lexicographic key order is the iteration order: range, last-range, greater-equal, first, last, forward and backward scans return exactly the entries within the bounds, in order, up to the limit,
  with their newest values. Multi-value tables keep all values of a key in order of insertion, also after reverts, flushes and restarts.""",
  ["inputs", "histories"], "all key types, keys at their limits, bounds and limits",
  "No test covers it; a wrong byte order or bound only shows for certain keys.",
  ["include/mmx/table.h", "include/mmx/multi_table.h"], [("key encodings", "include/mmx/table.h"), ("find_range / find_last_range", "include/mmx/table.h"), ("insert_many", "include/mmx/multi_table.h")])

# ------------------------------------------------------------------------------------------- node: ledger
NODE_FILES = ["src/Node.cpp", "src/Node_validate.cpp", "src/Node_update.cpp", "src/Transaction.cpp", "src/Block.cpp", "src/BlockHeader.cpp"]
P("P50", "Balances and supply are exactly the sum of all confirmed transfers",
  """After every block, the balance of every address in every currency equals what all confirmed inputs and outputs (rewards, fees, payments, executions, mints) add up to,
  no balance is ever spent below zero, and the reported total supply of a currency equals the sum of all its balances. Within a transaction no currency gains value: outputs
  never exceed inputs except by what a contract mints of its own token, and a block creates no MMX beyond the reward its header is entitled to.""",
  ["histories", "inputs"], "all chains of blocks with any transactions: payments, sweeps, overflowing sums, zero amounts, deposits, contract payouts, failing ones, fees larger than rewards",
  "Only the sum over a whole history shows value created or lost; unit tests look at single transactions, if any.",
  NODE_FILES + ["include/mmx/balance_cache_t.h", "src/exec_result_t.cpp"],
  [("applying a block to the tables", "src/Node.cpp"), ("input/output accounting", "src/Node_validate.cpp"), ("block inputs and outputs", "src/Block.cpp")])
P("P51", "A transaction takes effect at most once and never after it expired",
  """No transaction id appears twice in a chain, whatever copies, re-signed variants or variants with other side data of it are submitted, before or after it confirmed, and
  a transaction included past its expiry height has no effect. A transaction for another network, version or without nonce is never included.""",
  ["histories"], "all submissions and resubmissions at all times, copies with changed solutions or execution results, expiry heights around the current height",
  "Needs a chain over time with transactions submitted repeatedly.", NODE_FILES, [("duplicate check", "src/Node_validate.cpp"), ("transaction queue and pool", "src/Node_update.cpp")])
P("P52", "Only the owner can spend or act: every effect is signed for",
  """A confirmed, successful transaction carries, for its sender, for each spent address and for the user in whose name a contract is called, a valid signature over the
  transaction's id by the key that hashes to that address, or by enough of the named owners for a multi-signature contract. A transaction with a missing, foreign, copied,
  stale or insufficient signature never moves that address's funds.""",
  ["inputs", "histories"], "all kinds of forged transactions: no or other solution, swapped key, signature of another transaction, changed after signing, multi-signature below threshold, foreign keys under an owner's name",
  "Signature checks are spread over sender, inputs, operations and contracts; tests would have to guess the combination that is not checked.",
  NODE_FILES + ["src/contract/PubKey.cpp", "src/contract/MultiSig.cpp", "src/solution/PubKey.cpp", "src/solution/MultiSig.cpp"],
  [("sender and input solutions", "src/Node_validate.cpp"), ("ownership checks", "src/contract/MultiSig.cpp"), ("user of an execution", "src/Node_validate.cpp")])
P("P53", "A failed transaction changes nothing but the fee its sender pays",
  """When a transaction is confirmed as failed (over-spend, expired, failing contract call, out of gas), no balance except the sender's by the fee, no contract's storage, no
  deployed contract and no history entry other than that fee results from it, even if earlier operations of the same transaction had succeeded.""",
  ["histories", "inputs"], "all ways to fail, at any operation, in transactions with several operations and deposits",
  "Partial effects of a multi-step transaction only show by comparing the complete state.", NODE_FILES, [("execution context and commit", "src/Node_validate.cpp"), ("application of results", "src/Node.cpp")])
P("P54", "Fees follow from cost and ratio and never exceed the sender's limit",
  """The fee charged for each confirmed transaction equals its total cost times its fee ratio, capped at the limit its sender set, its static cost is what its content
  costs by the chain parameters, and block totals (cost, fees, size, count) equal the sums over their transactions and stay below the limits. A transaction whose static fee
  exceeds its limit or which states another static cost is never included.""",
  ["inputs", "histories"], "all transactions with fee limits around their cost, all fee ratios, wrong stated costs, failing ones", "Depends on execution cost, rounding and outcome together.",
  NODE_FILES + ["include/mmx/utils.h"], [("cost and fee", "src/Node_validate.cpp"), ("static cost", "src/Transaction.cpp"), ("block totals", "src/Block.cpp")])
P("P60", "Blocks a farmer makes are valid and carry the pooled transactions",
  """Every block a node creates from its transaction pool, whatever transactions users submitted, is accepted by the node itself and by any other node on the same chain,
  and leads both to the same contract storage. Valid transactions without conflict are in the next block; invalid ones do not keep others out.""",
  ["histories", "inputs"], "all contents of the pool: conflicting spends, dependent contract calls, transactions that fail by gas at any point, fee limits at the exact cost, replays",
  "A combination of transactions each valid by itself can make a block invalid, which stops the farmer or the chain.",
  ["src/Node_update.cpp", "src/Node_validate.cpp", "src/Node.cpp"], [("selection for a block", "src/Node_update.cpp"), ("block validation", "src/Node_validate.cpp")])
P("P61", "Queries report exactly what is in the chain",
  """At every height, what the node answers about balances, histories (any address set, height range, currency, type, memo, limit), memos, contracts by type, owner or creator,
  contract balances, execution history, blocks, headers, transactions, their heights and ids, farmed blocks and rewards is exactly what the blocks of the chain contain.""",
  ["histories", "inputs"], "all chains and all queries with all filters and limits", "Indices are updated in a dozen places; a missing or duplicated entry shows only by comparison with the blocks.",
  ["src/Node_api.cpp", "src/Node.cpp", "include/mmx/table.h", "include/mmx/multi_table.h"], [("queries", "src/Node_api.cpp"), ("index updates", "src/Node.cpp")])
P("P57", "No block with a false, invalid or misplaced transaction is ever adopted",
  """A node never adopts a block, nor anything built upon it, which holds a transaction that is invalid by itself (signature, id, network, version, expiry, limits) or whose stated outcome
  (success or failure, inputs, outputs, cost, fee, error) differs from what executing it on the parent's state yields. The same goes for transactions which are repeated, out of fee order, spend more together than there is
  or spend what only arrives in the same block, and for blocks above their size or fee limits. Whatever such blocks were offered before, the honest block is still adopted.""",
  ["inputs", "histories"], "all transactions and all false claims about them", "Blocks come from anybody; tests only validate blocks the node made itself.",
  ["src/Node_validate.cpp", "src/Node_update.cpp", "src/Transaction.cpp", "src/exec_result_t.cpp"], [("validation of blocks and transactions", "src/Node_validate.cpp"), ("adoption and forks", "src/Node_update.cpp")])
P("P62", "Every header of an adopted block follows from its parent, its VDF and its proofs",
  """A node never adopts a block unless its height, time stamp, VDF output, iterations and timelord addresses, proofs of space (valid, for this challenge and difficulty, distinct, in order), difficulties, weights, challenge,
  votes, rewards, totals, hashes and the signature by the farmer of its first proof are what the chain parameters, the parent and the known VDF points prescribe. Blocks which keep all rules are adopted,
  whatever bad blocks were offered before.""",
  ["inputs", "histories"], "all headers on all chains", "Each field has a rule of its own; a missing check never shows with blocks made by honest farmers.",
  ["src/Node_validate.cpp", "src/Node_verify.cpp", "src/Node.cpp", "src/BlockHeader.cpp", "src/Block.cpp", "src/utils.cpp"], [("header rules", "src/Node_validate.cpp"), ("proof and VDF rules", "src/Node_verify.cpp"), ("VDF points of a block", "src/Node.cpp")])
P("P55", "The state depends on the chain only, not on the way a node got there",
  """Two nodes which stand on the same block tell exactly the same about balances, contracts and their storage, histories, headers, offers, swaps, trades, farmers and rewards, whichever forks they followed and undid
  before (also ones deeper than the commit delay), in whichever order blocks arrived and however often they were restarted. It is what a fresh node which only ever saw the chain's blocks tells.""",
  ["histories", "schedules"], "all orders of arrival of all blocks of all trees of blocks, with restarts in between", "Undoing a block has to take back changes in some thirty tables and caches; only the comparison after long histories shows what was forgotten.",
  ["src/Node.cpp", "src/Node_update.cpp", "src/DataBase.cpp", "include/mmx/table.h", "include/mmx/multi_table.h"], [("revert, reset and commit", "src/Node.cpp"), ("fork handling", "src/Node_update.cpp")])
P("P56", "A crash at any file operation leaves a node which starts on a block it had",
  """If the process of a node ends at any of its file operations (also in the middle of a write, also during recovery from an earlier crash), the node starts again, stands on a block of the step that was
  interrupted, tells exactly what that block's chain means, follows the chain to its tip and then tells the same as a node which never crashed. After an orderly shutdown it stands where it stood.""",
  ["crash_points", "histories"], "all file operations while a node adopts blocks, changes forks, starts and recovers", "Several files are written one after another; only stopping between any two of them shows what is inconsistent.",
  ["src/Node.cpp", "src/DataBase.cpp", "src/Node_update.cpp"], [("start and load", "src/Node.cpp"), ("write logs and versions", "src/DataBase.cpp")])
P("P65", "A node stands on the best chain it knows, and nodes which know the same agree",
  """Among the valid chains it can check which fork off no deeper than the commit delay, a node stands on the one with the most validator votes, then the greatest height, then the lowest hash, in whatever order blocks, proofs, VDF points and votes
  arrived; nodes which know the same stand on the same block. A vote counts once per validator and block, only if its signature is right, its farmer is a validator for that block (found a block within the window which the parameters define)
  and no better proof for the same challenge is known. Deeper forks win by weight.""",
  ["schedules", "histories"], "all trees of blocks, all sets of votes (forged, repeated, by outsiders, for unknown blocks), all orders of arrival", "Agreement of a network is a statement about all orders of messages.",
  ["src/Node.cpp", "src/Node_update.cpp", "src/Node_validate.cpp"], [("choice of fork", "src/Node.cpp"), ("votes", "src/Node_update.cpp")])
P("P66", "Transactions of undone blocks return to the pool and get confirmed again",
  """When a node leaves a fork for a better one which branched off no deeper than the commit delay, each transaction of the blocks undone which is not in the new chain, still valid and not in conflict is in the next block this node makes.""",
  ["histories", "schedules"], "all changes of forks with all sets of transactions on both sides", "A transaction that is lost in a change of forks is one a user believed to be confirmed.",
  ["src/Node.cpp", "src/Node_update.cpp"], [("fork_to / revert", "src/Node.cpp"), ("transaction pool", "src/Node_update.cpp")])
