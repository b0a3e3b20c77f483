#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here, one place to edit)."""
import json, os
MB = "src/merkle_bit.rs"; TU = "src/utils/tree_utils.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "A live root reads back exactly the map that was written to it",
  "For every root returned by an insert and not since removed, reading any set of keys from it, in one batch or one at a time, returns for each key exactly the value that the chain of inserts leading to that root last gave it, and absence for every key the chain never wrote. A batch read answers exactly the keys it was asked for. Valid reads and inserts succeed.",
  ["inputs", "histories"], "All histories of batch and single inserts (first inserts, updates, forks from any live root), all key sets including adversarially shared bit prefixes, absent keys that leave a path at any bit, any values (empty, huge, equal), read in any grouping and order.",
  "Tests read a few hand-picked or random keys, almost always those just inserted; whether a walk skips, misroutes or invents a key depends on the combination of bits of all keys in the batch with the split bits of the tree, which sampling a few cases does not reach (one such defect was found and repaired).",
  [MB, TU], [("batch read walk", MB+" get"), ("single read walk", MB+" get_one"), ("selection of the keys beneath a branch", TU+" check_descendants, calc_min_split_index, split_pairs"), ("tree construction", MB+" create_tree, merge_nodes")],
  [("stored nodes", "content-addressed branches, leaves and data", "Database")], ["results of get and get_one", "roots returned by insert and insert_one"])

p("C02", "Writing never changes what an existing root reads",
  "Once an insert has returned a root, no later insert from any root (updates, forks, re-inserting what is already there, going back to earlier values) changes the result of any read or the validity of any proof under that root, until that root is itself removed.",
  ["histories", "inputs"], "All interleavings of inserts over a growing set of live roots, with every earlier root re-read after later operations.",
  "The tests check at most a couple of earlier roots after one or two more inserts; the property quantifies over every earlier root and every later history.",
  [MB], [("copy-on-write paths", MB+" insert, insert_one, traverse_tree"), ("content addressing", MB+" create_leaves, merge_nodes")],
  [("stored nodes", "shared between versions", "Database")], ["reads of all live roots after every operation"])

p("C03", "Removing a root never damages another live root",
  "Removing a root leaves every read and every proof under every other live root unchanged, whichever nodes the versions share and in whatever order versions are created and removed. A root that was returned more than once stays readable until it has been removed as often as it was returned.",
  ["histories", "inputs"], "All histories of inserts and removals over versions that share subtrees, single keys, whole trees, or are re-created after removal.",
  "Tests remove one root of two; damage needs several versions that share nodes in particular ways and a particular order of creation and removal (a data loss of this kind was found and repaired).",
  [MB], [("reference counting", MB+" insert (references acquired), remove (references released)")],
  [("references", "how many stored parents and roots keep a node", "Node::get_references")], ["reads of all live roots after each remove"])

p("C04", "Storage holds exactly the nodes that live roots need",
  "After every completed operation the storage holds exactly the nodes reachable from the live roots: what versions share is stored once, nothing needed is missing, and nothing else is left behind. In particular a removed root can no longer be read, and removing all roots empties the storage.",
  ["histories", "inputs"], "All histories of inserts, repeated inserts, rejected inserts and removals in any order, on storage that starts empty.",
  "Tests never look at what is left in storage; a leak or a missing node appears only for particular sharing patterns and removal orders.",
  [MB], [("reference counting and reclaim", MB+" insert, remove"), ("deduplication by location", MB)],
  [("references", "how many stored parents and roots keep a node", "Node::get_references")], ["contents of the Database after each operation"])

p("C05", "The root depends only on the contents, not on the history",
  "Any two ways of arriving at the same set of key/value pairs - any order, any split into batches or single inserts, any starting version, any intermediate values later overwritten, with or without removals of other versions in between - give the same root.",
  ["histories", "inputs"], "All maps and all pairs of histories building them, across batch sizes, orders, update chains and removals of other versions.",
  "Tests compare one or two orders of a small batch; canonical form must survive every split of the writes over versions and every bit pattern of keys.",
  [MB, TU], [("sorting and merging of references by split bit", MB+" create_tree, merge_nodes; "+TU+" generate_tree_ref_queue")],
  [], ["roots returned by independent histories"])

p("C06", "Different contents never share a root",
  "Two different sets of key/value pairs never have the same root, as long as the hash function has no collision; the same holds for every subtree, leaf and value stored, even when keys and values are chosen to imitate hashes or encodings of other nodes.",
  ["inputs", "histories"], "All pairs of maps, including ones that differ in one bit of one key or value, move bytes between key and value, or embed recorded hashes and hash inputs of other nodes in keys and values.",
  "Tests never compare roots of different maps systematically and use a hash where an accidental collision cannot be told apart from a structural one.",
  [MB], [("tagged hash inputs for data, leaf and branch", MB+" create_leaves, merge_nodes")],
  [], ["hash inputs and outputs recorded by an injective hasher", "roots returned by insert"])

p("C07", "Every key in a version has a proof that verifies; absent keys have none",
  "For every live root and every key it contains, generating an inclusion proof succeeds and the proof verifies against that root, that key and its value. For a key that the version does not contain, generation returns an error.",
  ["inputs", "histories"], "All live roots of all histories, every present key, absent keys leaving the path at every possible bit.",
  "Tests generate proofs for a few small trees; a proof goes wrong for particular shapes, updated or shared subtrees and near-miss absent keys.",
  [MB], [("proof generation", MB+" generate_inclusion_proof"), ("verification", MB+" verify_inclusion_proof")], [], ["result of generate_inclusion_proof and verify_inclusion_proof"])

p("C08", "A proof is accepted only for a pair that the root really contains",
  "If verification accepts (root, key, value, proof), then the version identified by root contains exactly that value under that key, whatever the proof consists of: altered, shortened, extended, spliced from other proofs, or built from hashes and stored nodes by someone who knows the whole storage.",
  ["inputs", "histories"], "All proofs an adversary can build from the hashes and nodes of any number of versions, for any claimed key and value, assuming no hash collision.",
  "Tests flip a few fields of one proof; soundness is a statement about every byte string, and structural attacks (node-type confusion, wrong side, wrong length) need knowledge of recorded hash inputs.",
  [MB], [("verification folds the path back to the root", MB+" verify_inclusion_proof"), ("tagged hash inputs", MB)], [], ["result of verify_inclusion_proof on forged input"])

p("C09", "Batches, single operations and key order are interchangeable",
  "Inserting a batch equals inserting its pairs one at a time in any order; permuting a batch together with its values changes nothing; reading a batch equals reading each key alone, whatever the order or repetition of the keys requested. A call may reorder its caller's list of keys, but the list holds the same keys afterwards.",
  ["inputs", "histories"], "All batches over all tree shapes, all permutations, repeated keys in reads, single-key batches against the single-key calls.",
  "Single-key calls have their own code path and tests compare the two on a handful of keys.",
  [MB], [("insert and insert_one", MB), ("get and get_one", MB), ("in-place sorting of the caller's keys", MB+" insert, get")], [], ["roots and results of both call forms"])

p("C10", "Rejected and read-only operations change nothing",
  "An insert that is rejected (keys and values of different number, nothing to insert, the same key twice, an unknown starting root, a path beyond the depth limit, a value that cannot be encoded) returns an error and leaves the storage exactly as it was; so do reads, proof generation and verification, and the removal of a root that does not exist. The tree stays fully usable afterwards.",
  ["inputs", "histories"], "All invalid calls at any point of any history, and all read-only calls, on storage with immediate and with queued writes.",
  "Tests check that some invalid calls return an error, never what they did to the storage before failing (several rejected calls did change it; repaired).",
  [MB], [("argument checks", MB+" insert"), ("write only after the new tree is complete", MB+" insert, insert_one")],
  [("pending writes", "writes queued but not committed", "Database")], ["storage contents and pending writes before and after the call"])

p("C11", "The depth limit is one sharp line for all operations",
  "With a limit of d, a key lying beneath at most d branches can be read singly and in batches and can be proved, and a key lying deeper gives an error from all three - never a wrong value or a false absence. A key that is not there is reported absent by both reads when its path ends within the limit, and gives an error otherwise. An insert is rejected exactly when it would have to follow a path deeper than the limit in the version it starts from, and otherwise gives the correct root.",
  ["inputs", "histories"], "All tree shapes, every key, every limit from 0 to beyond the tree's height (and the largest possible limit).",
  "Tests exercise the limit on one chain-like tree with one call; the three operations have separate loops that must agree at every boundary (they did not; repaired).",
  [MB], [("depth checks", MB+" get, get_one, generate_inclusion_proof, traverse_tree")], [("depth", "maximum permitted depth", "MerkleBIT")], ["results at limits around the depth of each key"])

p("C12", "Storage and encoding failures surface and do no damage",
  "If any call to the storage fails, or a value cannot be encoded or decoded, the running operation returns an error - it neither panics nor reports success. A store that cannot be opened gives an error too, not an empty tree. Versions other than the one being removed read exactly as before, and once the fault is gone later operations work correctly, including a retry of the failed one.",
  ["fault_sequences", "histories"], "A failure injected at every single storage call of every operation of many histories, single and repeated, on storage with immediate or queued writes, at every encode and decode of a value, over undecodable stored bytes, and at opening stores of which a file is damaged or missing.",
  "No test uses a failing storage; each swallowed error needs a fault at one particular call.",
  [MB], [("error propagation", MB+" every db call"), ("children are written before parents", MB)], [("references", "may stay too high after a failure, never too low", "Node::get_references")], ["result of the operation under fault", "reads of all live versions afterwards"])

p("C13", "A crash at any point leaves every completed version intact",
  "If the process dies at any point and the storage is reopened, every version whose insert had returned, and which was not being removed, reads exactly as before. On storage that commits a batch atomically an interrupted insert is either entirely there or leaves no trace; further inserts, reads and removals after reopening work correctly.",
  ["crash_points", "histories"], "A crash at every storage call of inserts and removals over many histories, on model storage with immediate and queued writes and on RocksDB with the process killed, followed by reopening and continued use.",
  "No test interrupts an operation; damage depends on the exact write at which the process stops.",
  [MB, "src/tree_db/rocksdb.rs"], [("one batch per insert", MB+" insert; src/tree_db/rocksdb.rs batch_write"), ("order of writes and releases", MB+" insert, remove")], [("pending writes", "lost in a crash", "src/tree_db/rocksdb.rs")], ["storage state after reopening"])

p("C14", "What an operation did is committed when it returns",
  "When an insert or a removal returns, its whole effect is committed: nothing is left pending, the effect is visible after closing and reopening the storage, and after taking the tree apart and rebuilding it on the same storage with any depth. Opening a new store starts empty; opening an existing one continues it.",
  ["histories", "configurations"], "All operations (including ones that add nothing new) of all histories, each followed by reopening or handing the storage over, on RocksDB, the hash-map stores and model storage with queued writes.",
  "Tests read back through the same open handle, where uncommitted state is invisible or harmless.",
  [MB, "src/tree_db/rocksdb.rs", "src/rocks_tree.rs", "src/hash_tree.rs"], [("commit at the end of each operation", MB+" insert, remove; src/tree_db/rocksdb.rs batch_write"), ("decompose and from_db", MB)], [("pending_inserts", "writes queued for the next commit", "src/tree_db/rocksdb.rs")], ["contents after reopening", "pending writes after each operation"])

p("C15", "All storage backends and build configurations behave the same",
  "The same history gives the same results - values, absences, errors and proofs verifying - on the in-memory tree, the RocksDB tree, and the generic tree over any correct storage, with either hash-map implementation and with or without serialization support. With the same hash function the roots and proofs are identical too.",
  ["configurations", "histories"], "All histories replayed in lockstep on every backend and feature set available in this repository.",
  "Each feature set runs the same few tests on its own; none compares results across backends or configurations.",
  ["src/hash_tree.rs", "src/rocks_tree.rs", "src/tree_db/hashmap.rs", "src/tree_db/hashbrown.rs", "src/tree_db/rocksdb.rs", "src/lib.rs"], [("thin wrappers over one generic tree", "src/hash_tree.rs, src/rocks_tree.rs"), ("storage adapters", "src/tree_db")], [], ["transcripts of the same history per configuration"])

p("C16", "Stored nodes survive every serialization format unchanged",
  "For every supported serialization format and every node, decoding what was encoded gives back an equal node, for every key width, every byte of keys and hashes, any value including the empty one, and all counts, split positions and reference counts that a tree can reach. Bytes that encode no node (truncated, or of another width) are an error or another well-formed node, never a panic.",
  ["inputs", "configurations"], "All nodes (three kinds) over six formats (bincode, JSON, CBOR, YAML, pickle, RON) and several key widths; truncations and corruptions of encodings.",
  "No test round-trips a node in most formats; five of the six could not decode branches and leaves at all (repaired).",
  ["src/lib.rs", "src/tree/tree_node.rs", "src/tree/tree_branch.rs", "src/tree/tree_leaf.rs", "src/tree/tree_data.rs"], [("Encode/Decode per format", "src/tree"), ("Array serialization", "src/lib.rs")], [], ["decode(encode(x))"])

p("C17", "Each hash option computes the digest it is named after",
  "For every hash option, hashing any sequence of chunks yields the named algorithm's digest of their concatenation, cut to the key width or padded with zeros beyond the digest's length where the digest has a fixed length; how the input is split into chunks does not matter for byte-oriented digests. Trees built with each option use that digest.",
  ["inputs", "configurations"], "All 17 hash options and the default, random and boundary-length inputs, random chunkings, key widths below, at and above the digest length.",
  "Tests only check that a tree works with the option, which any deterministic function satisfies.",
  ["src/tree_hasher/mod.rs", "src/tree_hasher/blake2b_rfc.rs", "src/tree_hasher/default.rs", "src/tree_hasher/fx.rs", "src/tree_hasher/keccak.rs", "src/tree_hasher/seahasher.rs", "src/tree_hasher/sha256.rs", "src/tree_hasher/sha3_openssl.rs", "src/traits.rs"], [("hasher adapters", "src/tree_hasher"), ("blanket implementation for digests", "src/traits.rs")], [], ["digests against independent implementations"])

p("C18", "The stored tree has the documented shape",
  "Beneath every live root: each branch's count is the number of leaves under it; its split position is larger than its parent's and separates its leaves, those with a 0 bit on the zero side and those with a 1 bit on the one side, which agree on all earlier bits with each other and with the branch's key; each leaf holds its key and points to its value. Every node is stored under the hash of its own content, and a version with n keys has n leaves, n values and n-1 branches.",
  ["histories", "inputs"], "Every node of every live version after every operation of all histories.",
  "Tests look at reads only; a wrong count, key or split position stays invisible until some later insert or read of an unlucky key.",
  [MB, TU], [("branch construction", MB+" merge_nodes"), ("split positions", TU+" generate_tree_ref_queue")], [("count, split_index, key, zero, one", "fields of a branch", "src/tree/tree_branch.rs")], ["nodes in the Database after each operation"])

p("C19", "No call panics or runs away",
  "Whatever roots (unknown, interior nodes, leaves, values), keys, values, depth limits, proofs and call orders a caller uses, and whichever stored nodes are missing, of the wrong kind or without references, every call returns a result or an error: it does not panic, abort, overflow the stack or loop without bound (a removal excepted where stored nodes lie beneath themselves).",
  ["inputs", "histories", "configurations"], "All API calls with arbitrary arguments in any order, limits 0 to the maximum, deep and wide trees, storage with missing and exchanged nodes.",
  "Tests call the API in valid ways; a crash needs an unusual argument or state (a proof request with a large depth limit aborted the process; repaired).",
  [MB, TU], [("checked accesses and error returns", MB+"; "+TU)], [], ["panics, aborts and step counts of each call"])

p("C20", "A tree can be read from many threads at once",
  "In-memory trees, and generic trees over storage that can be shared, can be shared and sent between threads, and a RocksDB tree can be sent to another thread. Any number of threads reading, proving and verifying on a shared tree at the same time get exactly the results a single thread would, and with writers excluded by a lock every thread sees, for every root it knows, that root's exact contents, whatever other threads have written.",
  ["schedules", "histories"], "Many concurrent histories of readers over a shared tree, and of readers and writers under a read-write lock, with randomly varied timing; and trees handed from thread to thread between any two operations.",
  "All tests are single-threaded.",
  [MB, "src/hash_tree.rs", "src/tree_db"], [("reads take a shared reference and keep no hidden state", MB+" get, get_one, generate_inclusion_proof")], [], ["results recorded per thread"])

p("C21", "Behaviour does not depend on the key width",
  "For every key width from one byte up, odd widths and widths beyond 32 included, all operations behave alike: reads, proofs, removals and roots follow the same rules, keys that differ only in their first or in their very last bit are kept apart, and no byte of a key is ignored.",
  ["configurations", "inputs"], "Widths from 1 to 256 bytes, keys differing in every single bit position, histories of inserts, reads, proofs and removals at each width.",
  "Tests run a few widths with random keys, which differ in their first bytes.",
  [MB, TU, "src/constants.rs"], [("bit arithmetic over the whole width", TU), ("generic width", "src/lib.rs Array")], [], ["results at each width against the reference model"])

p("C22", "Node components keep what is put in them",
  "A branch, leaf, value or node returns from its getters, from taking it apart and from cloning exactly what was last set, for each field independently; wrapping a component in a node and unwrapping it changes nothing; a new node has no references. The hash-map store returns for each location exactly the node last stored and not removed, and hands over its full contents when taken apart.",
  ["inputs", "histories"], "All orders of setter calls with all field values; all sequences of store operations.",
  "Tests set and read a field or two, in one order.",
  ["src/tree/tree_branch.rs", "src/tree/tree_leaf.rs", "src/tree/tree_data.rs", "src/tree/tree_node.rs", "src/tree_db/hashmap.rs", "src/tree_db/hashbrown.rs"], [("setters and getters", "src/tree"), ("store adapters", "src/tree_db")], [], ["getter results after random setter sequences"])

p("C23", "Work depends on the paths touched, not on the size of the tree",
  "A single read or proof accesses only a number of stored nodes proportional to the length of its path, a batch read or insert only proportional to the paths of the keys in the batch, an insert writes only nodes on those paths, and removing a version costs no more than the nodes it releases and their direct children. None of these grows with the number of other keys or versions stored.",
  ["inputs", "histories"], "All operations on trees from one to many thousand keys, dense and deep shapes, counting every storage access.",
  "Tests never count storage accesses, so visiting the whole tree would go unnoticed.",
  [MB], [("walk only into sides that hold requested keys", MB+" get, traverse_tree"), ("release stops at shared nodes", MB+" remove")], [], ["numbers of storage reads, writes and removals per operation"])

p("C24", "Arrays behave like the byte arrays they wrap",
  "The fixed-size array type used for keys and hashes behaves like the plain byte array of its width: conversion in both directions, equality, order, hashing, indexing, slicing, iteration, copying and in-place changes all agree with the byte array, copies are independent, and a default one is all zeros. Serializing and deserializing returns an equal array, and a sequence of any other length, or with an element that is no byte, is rejected.",
  ["inputs", "histories", "configurations"], "All arrays of widths from 1 to 300 bytes, pairs that differ in any one place, all sequences of changes, as keys of maps and sets, with and without serialization support.",
  "Tests convert a few arrays; an order or equality that ignores some byte shows only on the keys that differ there, and only in serialization builds, where the type is a struct of its own.",
  ["src/lib.rs"], [("wrapper type and its trait implementations", "src/lib.rs Array"), ("visitor for sequences", "src/lib.rs ArrayVisitor")], [], ["results of each operation against the byte array"])

p("C25", "The public bit helpers compute what they document",
  "choose_zero tells whether the given bit (counted from the most significant bit of the first byte) of a key is zero and errs beyond the key's end; split_pairs cuts sorted keys that agree before the bit into those with a zero and those with a one there; check_descendants returns exactly those of the sorted keys that agree with the branch's key on all bits before its split position; calc_min_split_index is the first bit in which the sorted keys and the branch's key do not all agree; generate_tree_ref_queue lists, for each pair of neighbouring references, the first bit in which their keys differ, and errs on equal keys; generate_leaf_map holds exactly the given keys, all without a value; fast_log_2 is the whole part of the binary logarithm.",
  ["inputs"], "All keys of widths from 1 to 257 bytes, all bit positions, sets of keys with any common prefix, within what each function requires of its caller.",
  "Tests call each helper with a few two- or three-byte keys.",
  [TU, "src/utils/tree_ref.rs", "src/constants.rs"], [("bit extraction and search for the first difference", TU), ("logarithm by multiplication and table", TU+" fast_log_2; src/constants.rs")], [], ["return values of each helper"])

p("C26", "The RocksDB storage keeps what was committed",
  "On the RocksDB storage used by itself, after a commit every location holds exactly the node last stored there and not removed since, and no other location holds anything; between commits a location holds what it held before or what it will hold after; closing, reopening, taking apart and rebuilding the store change nothing that was committed. Separate stores are independent, and opening a store that is open already, or of which a file is damaged or missing, is an error and changes nothing.",
  ["histories", "inputs"], "All sequences of storing, removing, committing, reading, closing and reopening, with all kinds of nodes, replaced nodes, empty and repeated commits, and commits of thousands of nodes.",
  "Tests use the store only through a tree with a few keys, which never replaces a node by a different one and never commits twice.",
  ["src/tree_db/rocksdb.rs", "src/tree/tree_node.rs"], [("batch of waiting writes", "src/tree_db/rocksdb.rs insert, batch_write"), ("direct reads and removals", "src/tree_db/rocksdb.rs get_node, remove")], [("pending_inserts", "writes queued for the next commit", "src/tree_db/rocksdb.rs")], ["get_node after each step, full contents after commits"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
