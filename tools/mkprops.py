#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements are easy to edit and diff)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ASM = ["ssz/sha256_shani.asm", "ssz/sha256_avx.asm", "ssz/sha256_avx_one_block.asm", "ssz/sha256_avx2.asm", "ssz/transpose_avx2.asm"]
HASH = ["ssz/hasher.cpp", "ssz/hasher.hpp"] + ASM
CONT = ["common/containers.hpp", "beacon-chain/attestation.hpp", "beacon-chain/attestation.cpp", "beacon-chain/beacon_block.hpp", "beacon-chain/beacon_state.hpp", "beacon-chain/deposits.hpp", "beacon-chain/eth1data.hpp", "beacon-chain/validator.hpp", "beacon-chain/validator.cpp"]
BASIC = ["common/bytes.hpp", "common/slot.hpp", "common/boolean.hpp", "common/bitlist.hpp", "common/bitlist.cpp", "common/bitvector.hpp"]
SSZ = ["ssz/ssz_container.cpp", "ssz/ssz_container.hpp"] + BASIC + CONT
TREE = ["ssz/hashtree.cpp", "ssz/hashtree.hpp"]

prop("C01", "Every hashing implementation computes SHA-256 of each 64-byte block",
 "Hashing n 64-byte blocks, with the default hasher or with any implementation the CPU supports, writes at output position i exactly the SHA-256 digest of input block i, for every i < n. It holds for every block count (any remainder of the lane widths included), every block content and every byte alignment of either buffer, and on every call whatever was hashed before.",
 ["inputs", "configurations"], "all block counts, contents, buffer alignments, implementations (SSE, AVX, AVX2, SHA-NI, default) and sequences of calls",
 "The four stable tests hash one fixed input of exactly 1, 4, 8 and 8 blocks, one per implementation: no tail path, no second loop iteration, no other content or alignment, and never the default dispatch.",
 HASH, [("lane-parallel kernels and their tail paths", "ssz/sha256_*.asm"), ("implementation dispatch", "ssz/hasher.cpp")], ["ssz::Hasher::hash_64b_blocks"])

prop("C02", "Hashing reads and writes exactly its own buffers",
 "Hashing n 64-byte blocks reads no byte outside the 64*n input bytes and writes exactly the 32*n output bytes, leaving the input and all other caller memory unchanged. With n = 0 it touches neither buffer, whatever the pointers.",
 ["inputs", "configurations"], "all block counts and placements of the buffers (next to unmapped pages included), all implementations",
 "The tests hash a constexpr array inside an executable: an out of bounds access of the assembly lands in mapped memory, and assembly is invisible to compiler sanitizers.",
 HASH, [("lane loads, tail loops, output stores", "ssz/sha256_*.asm")], ["ssz::Hasher::hash_64b_blocks"])

prop("C03", "Hashing preserves the machine state its caller relies on",
 "When a hashing call returns, the stack pointer and all callee-saved registers hold what they held at the call, the direction flag is clear, the floating point control state and the x87 tag state are unchanged, and no byte of the caller's stack frames changed. It holds for every implementation and every block count.",
 ["inputs", "configurations"], "all implementations and block counts, arbitrary prior contents of every register",
 "Whether a clobbered register shows in a test depends on what the compiler kept in it at the one call site of that test.",
 HASH, [("prologues, epilogues and stack frames of the kernels", "ssz/sha256_*.asm")], ["ssz::Hasher::hash_64b_blocks (register and stack snapshot around the call)"])

prop("C04", "Concurrent hashing calls do not disturb each other",
 "Hashing calls running at the same time on different buffers, on any threads and with any mix of implementations, each produce the digests they would produce alone. It holds wherever in a call another call is interposed, one that runs to completion at any single instruction included.",
 ["schedules"], "all interleavings of concurrent hashing calls, all pairs of implementations",
 "No test hashes on two threads; a shared scratch variable needs a switch inside a window of a few dozen instructions.",
 HASH, [("per-call state kept in registers and on the stack", "ssz/sha256_*.asm"), ("shared const hasher", "ssz/hashtree.cpp")], ["ssz::Hasher::hash_64b_blocks"],
 [("saved midstates", "state of the block(s) between the data rounds and the padding rounds", "ssz/sha256_*.asm")])

prop("C05", "Reported hashing implementations are exactly those the CPU can run",
 "On every CPU, an implementation that the capability query reports can be selected and hashes correctly there without faulting, and each implementation whose instruction-set extensions (AVX, AVX2, SHA-NI) the CPU has, and the operating system enables, is reported, while one whose extension CPUID does not announce (or announces only in a leaf above the highest it supports) is not. Whenever at least one is reported, the default hasher runs one of them and hashes correctly.",
 ["configurations"], "CPU models, from ones without any extension through AVX only, AVX2, SHA-NI without AVX, to everything, with and without operating system support for AVX",
 "The test suite runs on the host CPU and on one emulated CPU with every extension: wrong detection elsewhere is never executed.",
 ["ssz/hasher.cpp", "ssz/hasher.hpp"], [("cpuid queries", "ssz/hasher.cpp Hasher::implemented"), ("default choice", "ssz/hasher.cpp Hasher::best_sha256_implementation")], ["ssz::Hasher::implemented", "ssz::Hasher constructors"])

prop("C06", "Merkle roots follow the SSZ merkleization rules",
 "The root of a tree built from any non-empty sequence of 32-byte chunks, or any byte string (zero-padded to whole chunks, one zero chunk if empty), equals the SSZ merkleization of these chunks padded with zero chunks up to the next power of two of the limit, or of the chunk count if the limit is 0. Each length mixed in afterwards replaces the root r by SHA-256(r followed by the length as a 32-byte little-endian integer). It holds for every chunk count and every limit not below it, up to 2^64-1.",
 ["inputs"], "all chunk counts and contents, all limits (powers of two and not), all lengths mixed in",
 "Nothing that builds here tests the tree at all; upstream's vectors hold a handful of list sizes and limits.",
 TREE + ["helpers/math.hpp"], [("layer loop with zero-hash siblings", "ssz/hashtree.cpp merkleize"), ("zero hashes", "ssz/hashtree.cpp zero_hash_array"), ("packing", "ssz/hashtree.cpp pack_and_pad")], ["ssz::HashTree::hash_tree_root", "ssz::HashTree::mix_in"])

prop("C07", "The cached partial Merkle tree is complete and consistent",
 "The nodes a tree exposes are, level by level from the parents of the leaves up to the root and left to right, exactly the ceil(count/2^k) non-padding nodes of each level k of the tree, each equal to the hash of its two children (a missing right child being the zero hash of that height), followed by one node per mixed-in length. The last node is the root; a single chunk without padding is its own and only node.",
 ["inputs"], "all chunk counts, contents, limits and mixed-in lengths",
 "No test looks at anything but the root, and a cache that is laid out wrongly gives wrong roots only once partial updates are made from it.",
 TREE + ["assets/design.md"], [("cache layout", "ssz/hashtree.cpp merkleize, resize"), ("design of the cache", "assets/design.md")], ["ssz::HashTree::hash_tree"])

prop("C08", "Merkleization is memory safe and refuses chunks beyond the limit",
 "Building a tree never reads or writes outside its input and its own storage, whatever the chunk count, byte count and limit. A tree asked to hold no chunk, or more chunks than a non-zero limit, fails with a standard exception instead of producing a root.",
 ["inputs"], "all chunk counts and limits, limits below the count and above 2^42 included",
 "Overflows of a few chunks in a heap block are silent without a sanitizer, and no test exceeds a limit.",
 TREE, [("cache sizing", "ssz/hashtree.cpp HashTree::HashTree"), ("zero hash table", "ssz/hashtree.cpp")], ["ssz::HashTree constructors, under address and undefined-behaviour sanitizers"])

prop("C09", "Serialization follows the SSZ specification for every type",
 "The serialization of every value of every type (integers, booleans, byte vectors, bitvectors, bitlists, vectors, lists of fixed- and variable-size elements, and all phase-0 containers with their fields in specification order) is byte for byte its SSZ encoding. The reported fixed size is the length of the encoding for fixed-size types and 0 for variable-size ones.",
 ["inputs", "configurations"], "all values of all types, in the minimal and mainnet presets",
 "The upstream spec vectors are not in the repository and their runner is not built: no serialization test runs here.",
 SSZ, [("offsets and field order", "ssz/ssz_container.cpp serialize_"), ("lists of variable-size parts", "common/containers.hpp"), ("declared sizes", "ssz_size members")], ["ssz::Container::serialize", "ssz::Container::get_ssz_size"])

prop("C10", "Decoding an encoding restores the encoded value",
 "For every value of every type, deserializing its serialization succeeds and yields an object equal to the original in every field, whatever the target object held before and wherever the bytes lie in a larger buffer.",
 ["inputs", "histories"], "all values of all types, all previous contents of the target, all positions of the input",
 "Upstream's runner decodes a handful of vectors into fresh objects at aligned addresses; it is not built here.",
 SSZ, [("field walk with offsets", "ssz/ssz_container.cpp deserialize_"), ("element decoding", "common/containers.hpp")], ["ssz::Container::deserialize", "ssz::Container::serialize"])

prop("C11", "Decoding accepts exactly the canonical SSZ encodings",
 "Deserialization returns true exactly for byte strings that are the SSZ encoding of some value of the type: wrong lengths, trailing bytes, bad offsets (out of order, out of range, first one not right after the fixed part), booleans other than 0 and 1, bitlists without delimiter, set padding bits and lists over their limit are all refused. Whatever it accepts, the decoded object serializes back to the same bytes.",
 ["inputs"], "all byte strings, near misses of valid encodings in particular, for every type",
 "Only valid encodings are ever fed to the decoder by upstream's tests.",
 SSZ, [("offset checks", "ssz/ssz_container.cpp deserialize_"), ("length, limit and padding checks", "common/*.hpp, common/bitlist.cpp")], ["ssz::Container::deserialize"])

prop("C12", "Decoding arbitrary bytes is memory safe and terminates",
 "Deserializing any byte string into any type never reads outside the given range, never has undefined behaviour and always returns; refusals are by the return value. The object can afterwards be decoded into again, serialized, compared and destroyed.",
 ["inputs", "histories"], "all byte strings of any length, for every type, into fresh and used objects",
 "Out of bounds reads of a few bytes do not fail tests, and no test decodes hostile input.",
 SSZ, [("range checks before every read", "ssz/ssz_container.cpp, common/containers.hpp, common/bitlist.cpp")], ["ssz::Container::deserialize, under address and undefined-behaviour sanitizers and in buffers ending at unmapped pages"])

prop("C13", "The hash tree root of every object is its SSZ hash tree root",
 "For every value of every type the hash tree root equals the one the SSZ specification defines: basic values packed, lists merkleized to their limit with their length mixed in, containers over their fields' roots in order. It holds however the value came to be in the object (decoded, read from YAML, assigned or edited in place).",
 ["inputs", "configurations"], "all values of all types, in the minimal and mainnet presets",
 "The upstream spec vectors are not in the repository and their runner is not built: no root of any object is tested here.",
 SSZ + TREE, [("field roots", "ssz/ssz_container.cpp hash_tree_"), ("chunk limits", "hash_tree members of lists and bitlists")], ["ssz::Container::hash_tree_root"])

prop("C14", "YAML encoding has the consensus test format and round-trips",
 "Every value is encoded to YAML as the consensus test format has it: unsigned decimal integers, true/false, lowercase 0x-prefixed hex of the SSZ bytes for byte vectors and bitfields, sequences for vectors and lists, and maps keyed by the specification's field names in order. Decoding that node, or the text emitted from it, gives back an equal object, whatever the target held before.",
 ["inputs", "histories"], "all values of all types, all previous contents of the target",
 "Upstream's tests only decode YAML, from files that are not in the repository; nothing ever encodes.",
 SSZ + ["helpers/bytes_to_int.hpp", "helpers/bytes_to_string.hpp"], [("field names", "encode/decode members"), ("hex text", "to_string, from_string, from_hexstring")], ["ssz::Container::encode", "ssz::Container::decode", "YAML node.as<T>()"])

prop("C15", "Decoding arbitrary YAML or hex text is memory safe and fails cleanly",
 "Decoding any YAML node into any type, or any string as hex, terminates without undefined behaviour; it either succeeds or reports failure by a false return or a standard exception. Strings without the 0x prefix, byte strings longer than the type, odd-length or delimiter-less bitfields, missing fields, nodes of another kind where a scalar, a map or a sequence belongs (nothing at all may stand for an empty list), sequences over a list's limit, vectors of another length, booleans that are no boolean word and integers that are no number or do not fit are reported as failures.",
 ["inputs"], "all node trees and all strings, bytes outside ASCII included",
 "Upstream's tests decode valid files only.",
 SSZ + ["helpers/bytes_to_int.hpp"], [("prefix and length checks", "common/bytes.hpp, common/bitlist.cpp, common/bitvector.hpp"), ("digit table", "helpers/bytes_to_int.hpp")], ["ssz::Container::decode, from_string, from_hexstring, under address and undefined-behaviour sanitizers"])

prop("C16", "Byte strings, bitfields and integers convert exactly",
 "For every N and value: hex parsing (either digit case) and printing (lowercase, two digits per byte) are inverse; an integer of w bytes becomes its w little-endian bytes followed by zeros and reads back as itself; concatenation is the bytes of the left operand followed by those of the right; xor is bytewise; element access, iteration and comparison with a byte vector agree with the bytes; and streaming a bitfield prints its bits in index order. The hex text of a bitfield is that of its SSZ bytes.",
 ["inputs"], "all lengths, contents and integer widths",
 "bytes_test.cpp converts four constants and does not build here.",
 ["common/bytes.hpp", "common/bitlist.hpp", "common/bitlist.cpp", "common/bitvector.hpp", "helpers/bytes_to_int.hpp", "helpers/bytes_to_string.hpp", "common/slot.hpp"], [("conversions", "common/bytes.hpp"), ("digit table", "helpers/bytes_to_int.hpp")], ["eth::Bytes, eth::Bitvector, eth::Bitlist, helpers::"])

prop("C17", "Equality of objects is equality of their values",
 "Two objects of the same type (and list limits) compare equal if and only if every field, element and bit of them is equal, that is if their serializations are; != is the negation. A difference in any single field, at any depth and position, makes them unequal.",
 ["inputs"], "all pairs of values of every type, those differing in one byte or one element in particular",
 "Upstream's tests only ever assert that equal objects are equal.",
 SSZ, [("defaulted comparisons over the base class's", "operator== members"), ("base comparison", "ssz/ssz_container.hpp")], ["operator== and operator!= of every type"])

prop("C18", "Slashable attestation data is exactly double and surround votes",
 "Attestation data a is slashable against b if and only if they differ (in any field) and have the same target epoch, or a's source epoch is lower than b's and a's target epoch is higher than b's.",
 ["inputs"], "all pairs of attestation data",
 "No test calls the predicate.",
 ["beacon-chain/attestation.cpp", "beacon-chain/attestation.hpp", "common/containers.hpp"], [("predicate", "beacon-chain/attestation.cpp AttestationData::is_slashable")], ["eth::AttestationData::is_slashable"])

prop("C19", "Indexed attestations are valid only with sorted, distinct indices",
 "An indexed attestation is reported valid if and only if its list of attesting indices is non-empty and strictly increasing as unsigned 64-bit integers, for every list length up to the committee limit and whatever the other fields and the state hold. (Signatures are not checked by this code base.)",
 ["inputs"], "all index lists, a single repetition or inversion at any position included",
 "No test calls the predicate.",
 ["beacon-chain/attestation.cpp", "beacon-chain/attestation.hpp", "common/slot.hpp"], [("predicate", "beacon-chain/attestation.cpp IndexedAttestation::is_valid")], ["eth::IndexedAttestation::is_valid"])

prop("C20", "Validator status predicates follow the specification",
 "A validator is active at epoch e iff activation_epoch <= e < exit_epoch; eligible for the activation queue iff its activation_eligibility_epoch is the far-future epoch and its effective balance is the maximum; slashable at e iff it is not slashed and activation_epoch <= e < withdrawable_epoch. Epochs compare as unsigned 64-bit integers.",
 ["inputs"], "all validators and epochs, boundaries and the far-future epoch included",
 "No test calls the predicates.",
 ["beacon-chain/validator.cpp", "beacon-chain/validator.hpp", "config/constants.hpp", "common/slot.hpp"], [("predicates", "beacon-chain/validator.cpp")], ["eth::Validator::is_active, is_eligible_for_activation_queue, is_slashable"])

prop("C21", "Integer square root and ceiling logarithm are exact",
 "For every unsigned integer x of 8, 16, 32 or 64 bits the integer square root is the largest r with r*r <= x in exact arithmetic, and for every one of 32 or 64 bits the ceiling base-2 logarithm is the smallest k with 2^k >= x (0 for x = 0). Both are free of undefined behaviour and terminate.",
 ["inputs"], "all unsigned integers of each width",
 "No test calls them; floating point rounding and overflow near 2^64 only show on rare inputs.",
 ["helpers/math.hpp"], [("floating point estimate and correction", "helpers/math.hpp integer_squareroot"), ("bit counting", "helpers/math.hpp log2ceil")], ["helpers::integer_squareroot", "helpers::log2ceil"])

prop("C22", "Network presets and constants are the specification's",
 "In the minimal and the mainnet preset every configuration value and constant that the code defines equals that of the phase-0 consensus specification. The state's vector lengths and every list's limit, as they show in sizes, in roots and in what decoding accepts, are those of the selected preset.",
 ["configurations"], "both presets, all constants, all vector lengths and list limits",
 "The tests build one preset and use none of its values.",
 ["config/minimal.hpp.in", "config/mainnet.hpp.in", "config/constants.hpp", "beacon-chain/beacon_state.hpp", "beacon-chain/beacon_block.hpp", "beacon-chain/attestation.hpp"], [("preset tables", "config/*.hpp.in"), ("limits", "member initialisers of the containers")], ["namespace constants; limits probed by decoding and hashing"])

prop("C23", "Read-only use of shared objects from many threads is race free",
 "Serializing, hashing, comparing, printing and evaluating predicates of shared objects, and building trees, from any number of threads at once, with no thread modifying them, gives on each thread the result it would give alone and is free of data races. The same holds for threads decoding and mutating objects of their own.",
 ["schedules"], "all interleavings of read-only operations on shared objects and of any operations on unshared ones",
 "No test has a second thread.",
 SSZ + TREE + ["ssz/hasher.cpp"], [("absence of mutable shared state", "all const members"), ("shared const hasher and zero hashes", "ssz/hashtree.cpp")], ["all const operations, under the thread sanitizer and in release builds"])

prop("C24", "Results depend only on an object's current value, not on its history",
 "After any sequence of decodings (failed ones followed by a successful one included), YAML decodings, copies, moves, assignments, swaps, in-place edits (through references acquired before queries or copies too) and queries on a set of objects, each object's serialization, root, equality and predicates are those of its current value alone. Read-only operations change nothing, and changing a copy never changes the original. The same goes for hash trees: their nodes and root are those of the chunks they were built from and the lengths mixed into them, whatever happens to copies of them.",
 ["histories"], "all sequences of operations on objects of all types",
 "Upstream's tests use each object for one conversion in each direction.",
 SSZ + TREE, [("state fully replaced on decode", "deserialize/decode members"), ("value semantics", "defaulted copies and moves")], ["all public operations of all types"])

prop("C25", "Default-constructed objects hold the SSZ default value",
 "A default-constructed object of every type (or one constructed with just its limit) holds the SSZ default value (zeros, empty lists, false, zero bits), in whatever memory it is constructed. Its serialization, root and YAML encoding are those of that value. A list or bitlist constructed without a limit behaves as one constructed with the limit 0.",
 ["inputs", "configurations"], "all types, any prior contents of the storage",
 "Fresh pages are zero, so reading an uninitialised member usually looks right in a test.",
 SSZ, [("member initialisers", "constructors and default member initialisers")], ["default constructors, on poisoned storage"])

prop("C26", "Roots and digests are the same on every CPU",
 "The same sequence of hashing, merkleization and object-root operations gives bit-identical results on every CPU model that has at least one supported extension, whichever implementation is dispatched.",
 ["configurations", "inputs"], "CPU models with each dispatchable implementation, all inputs",
 "The tests compare single implementations on fixed inputs and never compare dispatch paths.",
 HASH + TREE, [("dispatch", "ssz/hasher.cpp"), ("tail paths that differ per implementation", "ssz/sha256_*.asm")], ["ssz::Hasher default, ssz::HashTree, ssz::Container::hash_tree_root"])

prop("C27", "Decoding and hashing cost only in proportion to the actual data",
 "Decoding n bytes, accepted or refused, allocates memory and makes allocations at most linear in n (beyond the fixed size of the type); hashing an object or tree allocates at most linear in its actual data, independent of list limits. Everything allocated is released when the objects are gone, refusals and exceptions included.",
 ["inputs", "histories"], "all inputs, hostile offsets, lengths and limits up to 2^64-1 included",
 "Tests do not measure memory, and amplification needs hostile input.",
 SSZ + TREE, [("allocation after checks", "common/containers.hpp, ssz/ssz_container.cpp"), ("cache sizing by count, not limit", "ssz/hashtree.cpp")], ["global allocation functions around deserialize, hash_tree_root, HashTree"])

prop("C28", "Every object exposes the Merkle tree of its parts",
 "The nodes an object's hash_tree() returns are exactly those of the partial Merkle tree over its parts, by level from the parents of the leaves to the root: over the roots of its fields or elements, or over its packed bytes or bits, under the limit of a list or bitlist, with one last node for the mixed-in length. The last node is its hash tree root. It holds for every type and value, after any edits and changes of limit, and asking for the tree changes nothing.",
 ["inputs", "histories"], "all types, values, limits and ways of bringing an object to a value",
 "Tests look at roots only; a tree over the wrong leaves, under the wrong limit or in the wrong order shows once proofs or partial updates are made from it.",
 TREE + SSZ + ["assets/design.md"], [("trees of containers, vectors, lists and bitlists", "ssz/ssz_container.cpp hash_tree_, common/containers.hpp, common/bitlist.cpp"), ("design of the cache", "assets/design.md")], ["ssz::Container::hash_tree"])

prop("C29", "Work grows at most linearly with the input",
 "Decoding bytes (accepted or refused), serializing, hashing, comparing and copying objects, converting them to and from hex text and YAML nodes, building trees and validating indexed attestations take a number of steps at most linear in the size of the bytes, object or chunks concerned, independent of list limits.",
 ["inputs"], "all types and inputs, from empty to hundreds of kilobytes, hostile ones and any limits included",
 "Tests run on small inputs and do not measure work: quadratic behaviour shows on blocks and states of realistic size only.",
 SSZ + TREE, [("sequence decoding and growing", "common/containers.hpp, ssz/ssz_container.cpp"), ("bit and hex conversions", "common/bitlist.cpp, common/bytes.hpp, common/bitvector.hpp"), ("layer loops", "ssz/hashtree.cpp")], ["deserialize, serialize, hash_tree_root, ==, =, encode, decode, from_hexstring, to_string, HashTree, IndexedAttestation::is_valid"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
