// Objects under test and the checks shared by the SSZ commands.
#pragma once
#include <cxxabi.h>
#include <typeinfo>

#include "ops.hpp"

using namespace hc;
using ref::Desc;
using ref::Val;
using u64 = std::uint64_t;

extern std::vector<Ops> types;

inline void clobber(void *p) { asm volatile("" : : "r"(p) : "memory"); }
struct Obj {
    const Ops *o;
    void *mem;
    u64 limit;
    enum How { DEFAULT, VALUE };
    static void *storage(const Ops &t, int poison) {
        void *m = ::operator new(t.size, std::align_val_t(t.align < 16 ? 16 : t.align));
        if (poison >= 0) std::memset(m, poison, t.size);
        clobber(m);
        return m;
    }
    explicit Obj(const Ops &t, int poison = 0xa5, How how = DEFAULT) : o(&t), mem(storage(t, poison)), limit(t.limit) { (how == DEFAULT ? t.ctor : t.ctor_value)(mem, t.limit); clobber(mem); }
    struct Bare { int how; };
    Obj(const Ops &t, int poison, Bare b) : o(&t), mem(storage(t, poison)), limit(0) { t.ctor_bare(mem, b.how); clobber(mem); }
    struct Limit { u64 n; };
    Obj(const Ops &t, int poison, Limit l) : o(&t), mem(storage(t, poison)), limit(l.n) { t.ctor(mem, l.n); clobber(mem); }
    Obj(const Obj &q) : o(q.o), mem(storage(*q.o, 0x5a)), limit(q.limit) { o->copy_ctor(mem, q.mem); }
    struct Move {};
    Obj(Obj &q, Move) : o(q.o), mem(storage(*q.o, 0x5a)), limit(q.limit) { o->move_ctor(mem, q.mem); }
    Obj &operator=(const Obj &) = delete;
    ~Obj() { o->dtor(mem); ::operator delete(mem, std::align_val_t(o->align < 16 ? 16 : o->align)); }
    ssz::Container &c() { return *o->base(mem); }
    const ssz::Container &c() const { return *o->base(mem); }
    // exact heap copy, so that a sanitizer sees any access outside of it
    bool deser(const Bytes &b) {
        Bytes e(b.begin(), b.end());
        e.shrink_to_fit();
        const Bytes &k = e;
        return c().deserialize(k.cbegin(), k.cend());
    }
    bool eq(const Obj &q) const { return o->eq(mem, q.mem); }
    bool ne(const Obj &q) const { return o->ne(mem, q.mem); }
};
inline std::string current_exception_text() {
    try { throw; }
    catch (const std::exception &e) { int st; char *n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st); std::string s = fmt("%s: %s", n ? n : "?", e.what()); free(n); return s; }
    catch (...) { return "something that is not a std::exception"; }
}
// Runs f; an exception is a violation
template <class F> auto valid(const std::string &key, const std::string &what, F f) -> decltype(f()) {
    try { return f(); }
    catch (...) { fail(key + ":exception", what + ": unexpected exception " + current_exception_text()); }
}
inline std::string diff(const Bytes &a, const Bytes &b) {
    std::size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    std::size_t f = i > 8 ? i - 8 : 0;
    auto part = [&](const Bytes &x) { return f < x.size() ? hex(x.data() + f, x.size() - f, 40) : std::string(); };
    return fmt("lengths %zu and %zu, first difference at %zu: ..%s and ..%s", a.size(), b.size(), i, part(a).c_str(), part(b).c_str());
}
inline bool same_root(const ssz::Chunk &c, const ref::Hash &h) { return std::equal(c.begin(), c.end(), h.begin(), h.end()); }
inline std::string rhex(const ssz::Chunk &c) { return hex(c.data(), c.size()); }

// Puts v into o by the given way; false if the object does not hold v afterwards (then some other property is broken)
enum Way { BUILD, DECODE, YAMLTEXT, AS, COPY, EDIT, MOVE, WAYS };
extern const char *WAY[];
bool put(Obj &o, const Val &v, int way, Rng &r);
bool holds(const Obj &o, const Val &v);

struct Plan { const Args &a; std::string cmd; u64 seed; };
// Calls f(type, case index, rng) for every type selected and a number of cases given by iters and the cost of the type
void each(const Args &a, const std::function<void(const Ops &, u64, Rng &)> &f, u64 default_iters);
long big_budget(Rng &r);  // while ref::big_values is set
// 0 match, otherwise a message
std::string node_mismatch(const Desc &d, const Val &v, const YAML::Node &n, const std::string &path = "");

// Single cases, for the coverage-guided drivers
void accept_case(const Ops &t, Obj &o, const Bytes &b, const std::string &what, bool exact = true);
void tree_case_obj(const Ops &t, Obj &o, const Desc &d, const Val &v, const std::string &w);
void pair_of_data(const Bytes &x, const Bytes &y, Rng &r);
void list_of_indices(const std::vector<u64> &v, Rng &r);
void validator_at(const Bytes &enc, const std::vector<u64> &epochs, Rng &r);
bool yaml_document(const Ops &t, Obj &o, const std::string &text);  // false if the text is no YAML or too deep
bool yaml_leaf(const Ops &t, Obj &o, Rng &r, const std::string &text);
void hex_text(const Ops &t, Obj &o, const std::string &s);
