// Types composed of /repo's the way its containers are, for what the phase-0 types do not have: empty and nested elements
// of variable size, limits of nested lists, containers of one or 33 fields or of variable fields only.
#include "types.hpp"
#ifndef NO_USER
namespace user {
using namespace eth;
#define WITH_LIMIT(T, BASE, LIMIT)                       \
    struct T : BASE {                                    \
        static constexpr std::size_t fixed_limit = LIMIT; \
        T() : BASE(LIMIT) {}                             \
        bool operator==(const T &) const = default;      \
    };
WITH_LIMIT(Bits1, Bitlist, 1)
WITH_LIMIT(Bits9, Bitlist, 9)
WITH_LIMIT(Bits300, Bitlist, 300)
WITH_LIMIT(Slots3, ListFixedSizedParts<Slot>, 3)
WITH_LIMIT(Bools5, ListFixedSizedParts<Boolean>, 5)
WITH_LIMIT(Roots2, ListFixedSizedParts<Bytes32>, 2)
WITH_LIMIT(Lists2, ListVariableSizedParts<Slots3>, 2)
WITH_LIMIT(Lists3, ListVariableSizedParts<Bits300>, 3)
WITH_LIMIT(Pages, ListFixedSizedParts<Bytes<4096>>, 1ull << 24)
#define A1(P) P(a)
#define A2(P) P(a), P(b)
#define A3(P) P(a), P(b), P(c)
#define A4(P) P(a), P(b), P(c), P(d)
#define A9(P) P(a), P(b), P(c), P(d), P(e), P(f), P(g), P(h), P(i)
#define A33(P) P(f0), P(f1), P(f2), P(f3), P(f4), P(f5), P(f6), P(f7), P(f8), P(f9), P(f10), P(f11), P(f12), P(f13), P(f14), P(f15), P(f16), P(f17), P(f18), P(f19), P(f20), P(f21), P(f22), P(f23), P(f24), P(f25), P(f26), P(f27), P(f28), P(f29), P(f30), P(f31), P(f32)
#define ADDR(x) &x
#define NAMED(x) {#x, &x}
#define CONTAINER(T, ARGS)                                                                                                          \
    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({ARGS(ADDR)}); }                                         \
    std::vector<std::uint8_t> serialize() const override { return serialize_({ARGS(ADDR)}); }                                       \
    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override { return deserialize_(it, end, {ARGS(ADDR)}); }             \
    bool operator==(const T &) const = default;                                                                                     \
    YAML::Node encode() const override { return encode_({ARGS(NAMED)}); }                                                           \
    bool decode(const YAML::Node &node) override { return decode_(node, {ARGS(NAMED)}); }
#define FIXED(n)                             \
    static constexpr std::size_t ssz_size = n; \
    std::size_t get_ssz_size() const override { return ssz_size; }
struct OneBits : ssz::Container { Bits9 a; CONTAINER(OneBits, A1) };
struct OneSlot : ssz::Container { Slot a; FIXED(8) CONTAINER(OneSlot, A1) };
struct TwoLists : ssz::Container { Slots3 a; Bools5 b; CONTAINER(TwoLists, A2) };
struct Inner : ssz::Container { Boolean a; Bitvector<9> b; OneSlot c; FIXED(11) CONTAINER(Inner, A3) };
struct Mixed : ssz::Container {
    Boolean a;
    ListVariableSizedParts<Bits9> b{4};
    Bytes1 c;
    TwoLists d;
    Bitvector<9> e;
    OneBits f;
    VectorFixedSizedParts<Inner, 3> g;
    ListVariableSizedParts<TwoLists> h{2};
    Roots2 i;
    CONTAINER(Mixed, A9)
};
struct Wide : ssz::Container {
    Boolean f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15;
    Slot f16;
    Bytes4 f17;
    Boolean f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31;
    Bitvector<2> f32;
    FIXED(16 + 8 + 4 + 14 + 1)
    CONTAINER(Wide, A33)
};
struct TwoPages : ssz::Container { Slot a; Pages b; Boolean c; Pages d; CONTAINER(TwoPages, A4) };
struct Deep : ssz::Container { Lists2 a; Mixed b; ListVariableSizedParts<Mixed> c{2}; CONTAINER(Deep, A3) };
}  // namespace user
namespace ad {
template <class B, class T> struct TrLimit {
    static DescP desc(u64 = 0) { return Tr<B>::desc(T::fixed_limit); }
    static void build(T &o, const Val &v, const Desc &d) { Tr<B>::build(o, v, d); }
    static bool read(const T &o, Val &v, const Desc &d) { return Tr<B>::read(o, v, d); }
    static void edit(T &o, Val &v, const Desc &d, Rng &r) { Tr<B>::edit(o, v, d, r); }
    static Held hold(T &o, const Val &v, const Desc &d, Rng &r) { return hold_in<B>(o, v, d, r); }
};
template <> struct Tr<user::Bits1> : TrLimit<eth::Bitlist, user::Bits1> {};
template <> struct Tr<user::Bits9> : TrLimit<eth::Bitlist, user::Bits9> {};
template <> struct Tr<user::Bits300> : TrLimit<eth::Bitlist, user::Bits300> {};
template <> struct Tr<user::Slots3> : TrLimit<eth::ListFixedSizedParts<eth::Slot>, user::Slots3> {};
template <> struct Tr<user::Bools5> : TrLimit<eth::ListFixedSizedParts<eth::Boolean>, user::Bools5> {};
template <> struct Tr<user::Roots2> : TrLimit<eth::ListFixedSizedParts<eth::Bytes32>, user::Roots2> {};
template <> struct Tr<user::Lists2> : TrLimit<eth::ListVariableSizedParts<user::Slots3>, user::Lists2> {};
template <> struct Tr<user::Lists3> : TrLimit<eth::ListVariableSizedParts<user::Bits300>, user::Lists3> {};
template <> struct Tr<user::Pages> : TrLimit<eth::ListFixedSizedParts<eth::Bytes<4096>>, user::Pages> {};
#define OBJ(x) o.x
#define FIELDS_OF(T, ARGS, ...)                                                                   \
    template <> struct Fields<user::T> {                                                          \
        template <class O> static auto tie(O &o) { return std::tie(ARGS(OBJ)); }                  \
        static DescP desc() { return ref::t_container(#T, std::vector<std::pair<std::string, DescP>>__VA_ARGS__); } \
    };
using namespace user;
FIELDS_OF(OneBits, A1, {{"a", D<Bits9>()}})
FIELDS_OF(OneSlot, A1, {{"a", U()}})
FIELDS_OF(TwoLists, A2, ({{"a", D<Slots3>()}, {"b", D<Bools5>()}}))
FIELDS_OF(Inner, A3, ({{"a", ref::t_bool()}, {"b", ref::t_bitvec(9)}, {"c", D<OneSlot>()}}))
FIELDS_OF(Mixed, A9, ({{"a", ref::t_bool()}, {"b", ref::t_list(D<Bits9>(), 4)}, {"c", B(1)}, {"d", D<TwoLists>()}, {"e", ref::t_bitvec(9)}, {"f", D<OneBits>()}, {"g", ref::t_vector(D<Inner>(), 3)}, {"h", ref::t_list(D<TwoLists>(), 2)}, {"i", D<Roots2>()}}))
static std::vector<std::pair<std::string, DescP>> wide() {
    std::vector<std::pair<std::string, DescP>> r;
    for (int k = 0; k < 33; ++k) r.push_back({hc::fmt("f%d", k), k == 16 ? U() : k == 17 ? B(4) : k == 32 ? ref::t_bitvec(2) : ref::t_bool()});
    return r;
}
FIELDS_OF(Wide, A33, (wide()))
FIELDS_OF(TwoPages, A4, ({{"a", U()}, {"b", D<Pages>()}, {"c", ref::t_bool()}, {"d", D<Pages>()}}))
FIELDS_OF(Deep, A3, ({{"a", D<Lists2>()}, {"b", D<Mixed>()}, {"c", ref::t_list(D<Mixed>(), 2)}}))
}  // namespace ad
#endif
using namespace ad;
#if PART == 0
void reg_user0([[maybe_unused]] std::vector<Ops> &r) {
#ifndef NO_USER
    for (auto l : {1ull, 4ull, 1000ull}) r.push_back(make<eth::ListVariableSizedParts<Bits9>>(l, "ListVariable"));
    r.push_back(make<eth::ListVariableSizedParts<Bits1>>(9, "ListVariable"));
    for (auto l : {2ull, 5ull, 1ull << 30}) r.push_back(make<eth::ListVariableSizedParts<Slots3>>(l, "ListVariable"));
    r.push_back(make<eth::ListVariableSizedParts<Bools5>>(7, "ListVariable"));
    r.push_back(make<eth::ListVariableSizedParts<Lists2>>(3, "ListVariable"));
    r.push_back(make<eth::ListVariableSizedParts<Lists3>>(5, "ListVariable"));
    r.push_back(make<Slots3>());
    r.push_back(make<Lists2>());
#endif
}
#else
void reg_user1([[maybe_unused]] std::vector<Ops> &r) {
#ifndef NO_USER
    r.push_back(make<OneBits>());
    r.push_back(make<OneSlot>());
    r.push_back(make<TwoLists>());
    r.push_back(make<Inner>());
    r.push_back(make<Mixed>());
    r.push_back(make<Wide>());
    r.push_back(make<Deep>());
    r.push_back(make<TwoPages>());
    r.push_back(make<eth::ListVariableSizedParts<Pages>>(6, "ListVariable"));
    r.push_back(make<eth::ListVariableSizedParts<Mixed>>(3, "ListVariable"));
    r.push_back(make<eth::ListVariableSizedParts<TwoLists>>(6, "ListVariable"));
    r.push_back(make<eth::ListVariableSizedParts<OneBits>>(40, "ListVariable"));
    r.push_back(make<eth::ListFixedSizedParts<Inner>>(6, "ListFixed"));
    r.push_back(make<eth::VectorFixedSizedParts<OneSlot, 3>>(0, "Vector"));
    r.push_back(make<eth::VectorFixedSizedParts<Wide, 2>>(0, "Vector"));
    r.push_back(make<eth::VectorFixedSizedParts<eth::VectorFixedSizedParts<eth::Slot, 3>, 5>>(0, "Vector"));
    r.push_back(make<eth::ListFixedSizedParts<eth::Bitvector<9>>>(5, "ListFixed"));
#endif
}
#endif
