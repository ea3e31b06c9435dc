// Reference model of SSZ: types, values, serialization, strict deserialization, merkleization, written from the phase-0
// specification and independent of the code under test. Compiled without sanitizers.
#pragma once
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "hc.hpp"
#include "sha.hpp"

namespace ref {
using hc::Bytes;
using u64 = std::uint64_t;
enum Kind { U64, BOOL, BYTES, BITVEC, BITLIST, VECTOR, LIST, CONTAINER };
struct Desc;
using DescP = std::shared_ptr<const Desc>;
struct Desc {
    Kind kind;
    u64 n = 0;  // bytes, bits, elements; or the limit of a list or bitlist
    DescP elem;
    std::vector<std::pair<std::string, DescP>> fields;
    std::string name;
};
DescP t_u64();
DescP t_bool();
DescP t_bytes(u64 n);
DescP t_bitvec(u64 n);
DescP t_bitlist(u64 limit);
DescP t_vector(DescP e, u64 n);
DescP t_list(DescP e, u64 limit);
DescP t_container(std::string name, std::vector<std::pair<std::string, DescP>> f);

struct Val {
    u64 u = 0;           // U64, BOOL
    Bytes b;             // BYTES; one 0/1 byte per bit for BITVEC and BITLIST
    std::vector<Val> e;  // VECTOR, LIST, CONTAINER
    bool operator==(const Val &) const = default;
};

bool fixed(const Desc &);
u64 size(const Desc &);  // of a fixed type
Bytes ser(const Desc &, const Val &);
// Strict: false unless the bytes are the canonical encoding of a value. why, if given, names the first reason.
bool deser(const Desc &, const std::uint8_t *p, std::size_t n, Val &, std::string *why = nullptr);
inline bool deser(const Desc &d, const Bytes &b, Val &v, std::string *why = nullptr) { return deser(d, b.data(), b.size(), v, why); }
Hash root(const Desc &, const Val &);
Hash merkleize(std::vector<Hash> chunks, u64 limit);
std::vector<Hash> pack(const Bytes &);
Hash mix_in(const Hash &, u64 len);
Hash zero_hash(unsigned depth);
unsigned log2up(u64);
// All nodes a tree over these chunks keeps, level by level, then one per mixed-in length
std::vector<Hash> nodes(const std::vector<Hash> &chunks, u64 limit, const std::vector<u64> &mixed);
std::vector<Hash> tree_nodes(const Desc &, const Val &);  // those of the tree of an object
Val zero(const Desc &);
// budget bounds the number of leaves a random value may grow to
extern bool big_values;  // long lists and bitlists, far past 16 bits
extern bool giant_values;  // with big_values: past 24 bits, where offsets need their fourth byte
struct GenOpt { long budget = 400; int style = -1; };
Val gen(const Desc &, hc::Rng &, GenOpt &);
Val gen(const Desc &, hc::Rng &, long budget = 400);
std::string show(const Desc &, const Val &, std::size_t max = 400);
// Python-readable description of the type, for the cross-check of this model by tools/sszmodel.py
std::string pydesc(const Desc &);
// Paths of all leaves; a leaf is a U64, BOOL, one byte of BYTES, one bit of a bitfield, or the length of a list/bitlist
struct Leaf { std::vector<std::uint32_t> path; const Desc *d; };
void leaves(const Desc &, const Val &, std::vector<Leaf> &, std::vector<std::uint32_t> &path);
Val *at(Val &, const std::vector<std::uint32_t> &path);
// Changes one leaf (any kind) at random so that the value differs; false if there is nothing to change
bool mutate_leaf(const Desc &, Val &, hc::Rng &, std::string *what = nullptr);
// YAML text in the consensus test format; style varies flow/block and quoting
std::string yaml(const Desc &, const Val &, int style);
// Serialization with the positions of its parts
struct Mark { std::size_t pos, len; Kind kind; bool offset; u64 n; };
Bytes ser_marks(const Desc &, const Val &, std::vector<Mark> &);
// A byte string to decode: valid, slightly wrong or arbitrary. what names how it was made.
Bytes mutant(const Desc &, hc::Rng &, long budget, std::string &what);
std::string hexstr(const Bytes &);
Bytes bits_to_bytes(const Bytes &bits, bool delimiter);
}  // namespace ref
