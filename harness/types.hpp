// Adapters between the reference model and the types under test: how a value is put into an object through the public
// interface, read back through it (not through serialization), and edited in place.
#pragma once
#include <functional>
#include <sstream>
#include <tuple>

#include "beacon-chain/attestation.hpp"
#include "beacon-chain/beacon_block.hpp"
#include "beacon-chain/beacon_state.hpp"
#include "beacon-chain/deposits.hpp"
#include "beacon-chain/eth1data.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
#include "ops.hpp"

namespace ad {
using ref::Bytes;
using ref::Desc;
using ref::DescP;
using ref::u64;
using ref::Val;
using hc::Rng;

// Limits and lengths of the phase-0 presets, from the specification
#ifdef PRESET_MINIMAL
constexpr u64 SLOTS_PER_HISTORICAL_ROOT = 64, EPOCHS_PER_HISTORICAL_VECTOR = 64, EPOCHS_PER_SLASHINGS_VECTOR = 64, SLOTS_PER_EPOCH = 8, EPOCHS_PER_ETH1_VOTING_PERIOD = 4;
#else
constexpr u64 SLOTS_PER_HISTORICAL_ROOT = 8192, EPOCHS_PER_HISTORICAL_VECTOR = 65536, EPOCHS_PER_SLASHINGS_VECTOR = 8192, SLOTS_PER_EPOCH = 32, EPOCHS_PER_ETH1_VOTING_PERIOD = 64;
#endif
constexpr u64 HISTORICAL_ROOTS_LIMIT = 1ull << 24, VALIDATOR_REGISTRY_LIMIT = 1ull << 40, MAX_VALIDATORS_PER_COMMITTEE = 2048;
constexpr u64 MAX_PROPOSER_SLASHINGS = 16, MAX_ATTESTER_SLASHINGS = 2, MAX_ATTESTATIONS = 128, MAX_DEPOSITS = 16, MAX_VOLUNTARY_EXITS = 16;

template <class T> struct Tr;
// A reference into an object (itself, a field, an element, a list's vector), acquired now and written through later
using Held = std::function<void(Val &, Rng &)>;
template <class T> Held hold_in(T &o, const Val &v, const Desc &d, Rng &r) {
    if constexpr (requires { Tr<T>::hold(o, v, d, r); }) return Tr<T>::hold(o, v, d, r);
    else return [p = &o, pd = &d](Val &w, Rng &q) { Tr<T>::edit(*p, w, *pd, q); };
}
template <class T> void decode_into(T &o, const Desc &d, const Val &v) {
    auto b = ref::ser(d, v);
    o.deserialize(b.cbegin(), b.cend());
}

template <> struct Tr<eth::Slot> {
    static DescP desc(u64 = 0) { return ref::t_u64(); }
    static void build(eth::Slot &o, const Val &v, const Desc &) { o = eth::Slot{v.u}; }
    static bool read(const eth::Slot &o, Val &v, const Desc &) { v = Val{}; v.u = o; return true; }
    static void edit(eth::Slot &o, Val &v, const Desc &d, Rng &r) {
        Val n = ref::gen(d, r);
        switch (r.below(4)) {
            case 0: o = n.u; break;
            case 1: static_cast<std::uint64_t &>(o) = n.u; break;
            case 2: { std::uint64_t &x = o; x += 1; n.u = v.u + 1; break; }
            default: { eth::Slot t(n.u); o = t; }
        }
        v.u = n.u;
    }
    static Held hold(eth::Slot &o, const Val &, const Desc &, Rng &r) {
        std::uint64_t &x = o;
        if (r.chance(1, 3)) return [p = &o](Val &v, Rng &q) { v.u = q.next(); *p = v.u; };
        return [p = &x](Val &v, Rng &q) { if (q.chance(1, 2)) v.u = ++*p; else *p = v.u = q.next() >> q.below(64); };
    }
};
template <> struct Tr<eth::Boolean> {
    static DescP desc(u64 = 0) { return ref::t_bool(); }
    static void build(eth::Boolean &o, const Val &v, const Desc &) { o = eth::Boolean{v.u != 0}; }
    static bool read(const eth::Boolean &o, Val &v, const Desc &) { v = Val{}; v.u = static_cast<bool>(o) ? 1 : 0; return true; }
    static void edit(eth::Boolean &o, Val &v, const Desc &, Rng &r) {
        v.u = r.below(2);
        if (r.chance(1, 2)) o = eth::Boolean{v.u != 0}; else static_cast<bool &>(o) = v.u != 0;
    }
    static Held hold(eth::Boolean &o, const Val &, const Desc &, Rng &) { return [p = &static_cast<bool &>(o)](Val &v, Rng &) { v.u = !v.u; *p = v.u != 0; }; }
};
template <std::size_t N> struct Tr<eth::Bytes<N>> {
    using T = eth::Bytes<N>;
    static DescP desc(u64 = 0) { static auto d = ref::t_bytes(N); return d; }
    static void build(T &o, const Val &v, const Desc &) {
        std::array<std::uint8_t, N> a;
        std::copy(v.b.begin(), v.b.end(), a.begin());
        o = T{a};
    }
    static bool read(const T &o, Val &v, const Desc &) {
        v = Val{};
        for (std::size_t i = 0; i < N; ++i) v.b.push_back(o[i]);
        return true;
    }
    static void edit(T &o, Val &v, const Desc &d, Rng &r) {
        switch (r.below(6)) {
            case 0: { auto i = r.below(N); auto x = std::uint8_t(r.next()); o[i] = x; v.b[i] = x; break; }
            case 1: { auto i = r.below(N); auto x = std::uint8_t(r.next()); o.data()[i] = x; v.b[i] = x; break; }
            case 2: { auto n = ref::gen(d, r); T t; build(t, n, d); o ^= t; for (std::size_t i = 0; i < N; ++i) v.b[i] ^= n.b[i]; break; }
            case 3: { v = ref::gen(d, r); o.from_string(ref::hexstr(v.b)); break; }
            case 4: { auto x = std::uint8_t(r.next()); for (auto &b : o) b = std::uint8_t(b + x); for (auto &b : v.b) b = std::uint8_t(b + x); break; }
            default: { v = ref::gen(d, r); build(o, v, d); }
        }
    }
    static Held hold(T &o, const Val &, const Desc &d, Rng &r) {
        auto i = r.below(N);
        switch (r.below(4)) {
            case 0: return [p = &o[i], i](Val &v, Rng &q) { *p = v.b[i] = std::uint8_t(v.b[i] + q.range(1, 255)); };
            case 1: return [p = &*o.data(), i](Val &v, Rng &q) { p[i] = v.b[i] = std::uint8_t(v.b[i] + q.range(1, 255)); };
            case 2: return [it = o.begin(), i](Val &v, Rng &q) mutable { *(it + std::ptrdiff_t(i)) = v.b[i] = std::uint8_t(v.b[i] + q.range(1, 255)); };
            default: return [p = &o, pd = &d](Val &w, Rng &q) { edit(*p, w, *pd, q); };
        }
    }
};
template <unsigned N> struct Tr<eth::Bitvector<N>> {
    using T = eth::Bitvector<N>;
    static DescP desc(u64 = 0) { static auto d = ref::t_bitvec(N); return d; }
    static void build(T &o, const Val &v, const Desc &) {
        std::array<bool, N> a;
        for (unsigned i = 0; i < N; ++i) a[i] = v.b[i];
        o = T{a};
    }
    static bool read(const T &o, Val &v, const Desc &) {
        std::ostringstream s;
        s << o;
        v = Val{};
        for (char c : s.str()) v.b.push_back(std::uint8_t(c == '1'));
        return v.b.size() == N;
    }
    static void edit(T &o, Val &v, const Desc &d, Rng &r) {
        v = ref::gen(d, r);
        if (r.chance(1, 2)) o.from_hexstring(ref::hexstr(ref::bits_to_bytes(v.b, false))); else build(o, v, d);
    }
};
template <> struct Tr<eth::Bitlist> {
    using T = eth::Bitlist;
    static DescP desc(u64 limit) { return ref::t_bitlist(limit); }
    static void build(T &o, const Val &v, const Desc &) { o.from_hexstring(ref::hexstr(ref::bits_to_bytes(v.b, true))); }
    static bool read(const T &o, Val &v, const Desc &) {
        std::ostringstream s;
        s << o;
        v = Val{};
        for (char c : s.str()) v.b.push_back(std::uint8_t(c == '1'));
        return v.b.size() == o.size();
    }
    static void edit(T &o, Val &v, const Desc &d, Rng &r) {
        v = ref::gen(d, r);
        if (r.chance(1, 2)) build(o, v, d);
        else { T t{d.n}; build(t, v, d); if (r.chance(1, 2)) o = t; else o = std::move(t); }
    }
};
template <class E, std::size_t N> struct Tr<eth::VectorFixedSizedParts<E, N>> {
    using T = eth::VectorFixedSizedParts<E, N>;
    static DescP desc(u64 = 0) { static auto d = ref::t_vector(Tr<E>::desc(0), N); return d; }
    static void build(T &o, const Val &v, const Desc &d) {
        std::size_t i = 0;
        for (auto it = o.begin(); it != o.end(); ++it) Tr<E>::build(*it, v.e.at(i++), *d.elem);
    }
    static bool read(const T &o, Val &v, const Desc &d) {
        v = Val{};
        for (auto it = o.cbegin(); it != o.cend(); ++it) { v.e.emplace_back(); if (!Tr<E>::read(*it, v.e.back(), *d.elem)) return false; }
        return true;
    }
    static void edit(T &o, Val &v, const Desc &d, Rng &r) { auto i = r.below(N); Tr<E>::edit(*(o.begin() + std::ptrdiff_t(i)), v.e[i], *d.elem, r); }
    static Held hold(T &o, const Val &v, const Desc &d, Rng &r) {
        auto i = r.below(N);
        if (r.chance(1, 4)) return [it = o.begin(), i, pd = &d](Val &w, Rng &q) { Tr<E>::edit(*(it + std::ptrdiff_t(i)), w.e[i], *pd->elem, q); };
        return [f = hold_in(*(o.begin() + std::ptrdiff_t(i)), v.e[i], *d.elem, r), i](Val &w, Rng &q) { f(w.e[i], q); };
    }
};
template <class E> struct Tr<eth::ListFixedSizedParts<E>> {
    using T = eth::ListFixedSizedParts<E>;
    static DescP desc(u64 limit) { return ref::t_list(Tr<E>::desc(0), limit); }
    static void build(T &o, const Val &v, const Desc &d) {
        o.data().clear();
        for (auto &x : v.e) { o.data().emplace_back(); Tr<E>::build(o.data().back(), x, *d.elem); }
    }
    static bool read(const T &o, Val &v, const Desc &d) {
        v = Val{};
        for (auto it = o.cbegin(); it != o.cend(); ++it) { v.e.emplace_back(); if (!Tr<E>::read(*it, v.e.back(), *d.elem)) return false; }
        return v.e.size() == o.size();
    }
    static void change(auto &a, Val &v, const Desc &d, Rng &r) {  // a list's vector
        switch (r.below(6)) {
            case 0: case 4: if (v.e.size() < d.n) { Val n = ref::gen(*d.elem, r); E e; Tr<E>::build(e, n, *d.elem); a.push_back(e); v.e.push_back(n); } break;
            case 1: if (!v.e.empty()) { a.pop_back(); v.e.pop_back(); } break;
            case 2: if (!v.e.empty()) { auto i = std::ptrdiff_t(r.below(v.e.size())); a.erase(a.begin() + i); v.e.erase(v.e.begin() + i); } break;
            case 3: if (r.chance(1, 4)) { a.clear(); v.e.clear(); } break;
            default: if (!v.e.empty()) { auto i = r.below(v.e.size()); Tr<E>::edit(a[i], v.e[i], *d.elem, r); }
        }
    }
    static Held hold(T &o, const Val &v, const Desc &d, Rng &r) {
        if (v.e.empty() || r.chance(1, 3)) return [p = &o.data(), pd = &d](Val &w, Rng &q) { change(*p, w, *pd, q); };
        auto i = r.below(v.e.size());
        E &e = r.chance(1, 2) ? *(o.begin() + std::ptrdiff_t(i)) : o.data()[i];
        return [f = hold_in(e, v.e[i], *d.elem, r), i](Val &w, Rng &q) { f(w.e[i], q); };
    }
    static void edit(T &o, Val &v, const Desc &d, Rng &r) {
        switch (r.below(6)) {
            case 0: case 1: case 2: case 3: change(o.data(), v, d, r); break;
            default: if (!v.e.empty()) { auto i = r.below(v.e.size()); Tr<E>::edit(*(o.begin() + std::ptrdiff_t(i)), v.e[i], *d.elem, r); }
        }
    }
};
template <class E> struct Tr<eth::ListVariableSizedParts<E>> {
    using T = eth::ListVariableSizedParts<E>;
    static DescP desc(u64 limit) { return ref::t_list(Tr<E>::desc(0), limit); }
    static void build(T &o, const Val &v, const Desc &d) {
        // there is no way to grow it but to decode: first default elements, then each in place
        Val z;
        for (std::size_t i = 0; i < v.e.size(); ++i) z.e.push_back(ref::zero(*d.elem));
        decode_into(o, d, z);
        std::size_t i = 0;
        for (auto it = o.begin(); it != o.end() && i < v.e.size(); ++it) Tr<E>::build(*it, v.e[i++], *d.elem);
    }
    static bool read(const T &o, Val &v, const Desc &d) {
        v = Val{};
        for (auto it = o.cbegin(); it != o.cend(); ++it) { v.e.emplace_back(); if (!Tr<E>::read(*it, v.e.back(), *d.elem)) return false; }
        return v.e.size() == o.size();
    }
    static void edit(T &o, Val &v, const Desc &d, Rng &r) {
        if (!v.e.empty() && r.chance(2, 3)) { auto i = r.below(v.e.size()); Tr<E>::edit(*(o.begin() + std::ptrdiff_t(i)), v.e[i], *d.elem, r); }
        else { v = ref::gen(d, r, 60); decode_into(o, d, v); }
    }
    static Held hold(T &o, const Val &v, const Desc &d, Rng &r) {
        if (v.e.empty()) return [p = &o, pd = &d](Val &w, Rng &q) { edit(*p, w, *pd, q); };
        auto i = r.below(v.e.size());
        return [f = hold_in(*(o.begin() + std::ptrdiff_t(i)), v.e[i], *d.elem, r), i](Val &w, Rng &q) { f(w.e[i], q); };
    }
};

// Structures with public members
template <class T> struct Fields;  // name(), names, tie()
template <class T> concept Tied = requires(T &t) { Fields<T>::tie(t); };
template <class M> constexpr u64 member_limit() { return 0; }
template <Tied T> struct Tr<T> {
    static DescP desc(u64 = 0) { static auto d = Fields<T>::desc(); return d; }
    static void build(T &o, const Val &v, const Desc &d) {
        auto t = Fields<T>::tie(o);
        [&]<std::size_t... I>(std::index_sequence<I...>) { (Tr<std::remove_cvref_t<std::tuple_element_t<I, decltype(t)>>>::build(std::get<I>(t), v.e.at(I), *d.fields.at(I).second), ...); }(std::make_index_sequence<std::tuple_size_v<decltype(t)>>{});
    }
    static bool read(const T &o, Val &v, const Desc &d) {
        auto t = Fields<T>::tie(o);
        v = Val{};
        v.e.resize(d.fields.size());
        return [&]<std::size_t... I>(std::index_sequence<I...>) { return (Tr<std::remove_cvref_t<std::tuple_element_t<I, decltype(t)>>>::read(std::get<I>(t), v.e.at(I), *d.fields.at(I).second) && ...); }(std::make_index_sequence<std::tuple_size_v<decltype(t)>>{});
    }
    static void edit(T &o, Val &v, const Desc &d, Rng &r) {
        auto t = Fields<T>::tie(o);
        constexpr std::size_t n = std::tuple_size_v<decltype(t)>;
        std::size_t k = r.below(n);
        [&]<std::size_t... I>(std::index_sequence<I...>) { ((I == k ? Tr<std::remove_cvref_t<std::tuple_element_t<I, decltype(t)>>>::edit(std::get<I>(t), v.e.at(I), *d.fields.at(I).second, r) : void()), ...); }(std::make_index_sequence<n>{});
    }
    static Held hold(T &o, const Val &v, const Desc &d, Rng &r) {
        auto t = Fields<T>::tie(o);
        constexpr std::size_t n = std::tuple_size_v<decltype(t)>;
        std::size_t k = r.below(n);
        Held f;
        [&]<std::size_t... I>(std::index_sequence<I...>) { ((I == k ? void(f = hold_in(std::get<I>(t), v.e.at(I), *d.fields.at(I).second, r)) : void()), ...); }(std::make_index_sequence<n>{});
        return [f, k](Val &w, Rng &q) { f(w.e.at(k), q); };
    }
};
#define FIELDS1(T, D, ...)                                                                  \
    template <> struct Fields<eth::T> {                                                     \
        template <class O> static auto tie(O &o) { return std::tie(__VA_ARGS__); }          \
        static DescP desc() { using namespace ref; return t_container(#T, D); }             \
    }
#define L(...) {__VA_ARGS__}
template <class T> DescP D(u64 limit = 0) { return Tr<T>::desc(limit); }
using FieldList = std::vector<std::pair<std::string, DescP>>;
inline DescP B(u64 n) { return ref::t_bytes(n); }
inline DescP U() { return ref::t_u64(); }

FIELDS1(Fork, (FieldList{{"previous_version", B(4)}, {"current_version", B(4)}, {"epoch", U()}}), o.previous_version, o.current_version, o.epoch);
FIELDS1(ForkData, (FieldList{{"current_version", B(4)}, {"genesis_validators_root", B(32)}}), o.current_version, o.genesis_validators_root);
FIELDS1(Checkpoint, (FieldList{{"epoch", U()}, {"root", B(32)}}), o.epoch, o.root);
FIELDS1(SigningData, (FieldList{{"object_root", B(32)}, {"domain", B(32)}}), o.object_root, o.domain);
FIELDS1(AttestationData, (FieldList{{"slot", U()}, {"index", U()}, {"beacon_block_root", B(32)}, {"source", D<eth::Checkpoint>()}, {"target", D<eth::Checkpoint>()}}), o.slot, o.index, o.beacon_block_root, o.source, o.target);
FIELDS1(IndexedAttestation, (FieldList{{"attesting_indices", t_list(U(), MAX_VALIDATORS_PER_COMMITTEE)}, {"data", D<eth::AttestationData>()}, {"signature", B(96)}}), o.attesting_indices, o.data, o.signature);
FIELDS1(PendingAttestation, (FieldList{{"aggregation_bits", t_bitlist(MAX_VALIDATORS_PER_COMMITTEE)}, {"data", D<eth::AttestationData>()}, {"inclusion_delay", U()}, {"proposer_index", U()}}), o.aggregation_bits, o.data, o.inclusion_delay, o.proposer_index);
FIELDS1(Attestation, (FieldList{{"aggregation_bits", t_bitlist(MAX_VALIDATORS_PER_COMMITTEE)}, {"data", D<eth::AttestationData>()}, {"signature", B(96)}}), o.aggregation_bits, o.data, o.signature);
FIELDS1(Eth1Data, (FieldList{{"deposit_root", B(32)}, {"deposit_count", U()}, {"block_hash", B(32)}}), o.deposit_root, o.deposit_count, o.block_hash);
FIELDS1(DepositMessage, (FieldList{{"pubkey", B(48)}, {"withdrawal_credentials", B(32)}, {"amount", U()}}), o.pubkey, o.withdrawal_credentials, o.amount);
FIELDS1(DepositData, (FieldList{{"pubkey", B(48)}, {"withdrawal_credentials", B(32)}, {"amount", U()}, {"signature", B(96)}}), o.pubkey, o.withdrawal_credentials, o.amount, o.signature);
FIELDS1(Deposit, (FieldList{{"proof", t_vector(B(32), 33)}, {"data", D<eth::DepositData>()}}), o.proof, o.data);
FIELDS1(BeaconBlockHeader, (FieldList{{"slot", U()}, {"proposer_index", U()}, {"parent_root", B(32)}, {"state_root", B(32)}, {"body_root", B(32)}}), o.slot, o.proposer_index, o.parent_root, o.state_root, o.body_root);
FIELDS1(VoluntaryExit, (FieldList{{"epoch", U()}, {"validator_index", U()}}), o.epoch, o.validator_index);
FIELDS1(SignedVoluntaryExit, (FieldList{{"message", D<eth::VoluntaryExit>()}, {"signature", B(96)}}), o.message, o.signature);
FIELDS1(SignedBeaconBlockHeader, (FieldList{{"message", D<eth::BeaconBlockHeader>()}, {"signature", B(96)}}), o.message, o.signature);
FIELDS1(ProposerSlashing, (FieldList{{"signed_header_1", D<eth::SignedBeaconBlockHeader>()}, {"signed_header_2", D<eth::SignedBeaconBlockHeader>()}}), o.signed_header_1, o.signed_header_2);
FIELDS1(AttesterSlashing, (FieldList{{"attestation_1", D<eth::IndexedAttestation>()}, {"attestation_2", D<eth::IndexedAttestation>()}}), o.attestation_1, o.attestation_2);

inline DescP validator_desc() {
    static auto d = ref::t_container("Validator", {{"pubkey", B(48)}, {"withdrawal_credentials", B(32)}, {"effective_balance", U()}, {"slashed", ref::t_bool()}, {"activation_eligibility_epoch", U()}, {"activation_epoch", U()}, {"exit_epoch", U()}, {"withdrawable_epoch", U()}});
    return d;
}
// Validator has no accessors: it is filled by decoding
template <> struct Tr<eth::Validator> {
    using T = eth::Validator;
    static DescP desc(u64 = 0) { return validator_desc(); }
    static void build(T &o, const Val &v, const Desc &d) { decode_into(o, d, v); }
    static bool read(const T &o, Val &v, const Desc &d) {
        if (!read_view) return ref::deser(d, o.serialize(), v);
        auto n = o.encode();
        v = Val{};
        for (auto &f : d.fields) {
            v.e.emplace_back();
            auto s = n[f.first].template as<std::string>();
            if (f.second->kind == ref::U64) v.e.back().u = std::strtoull(s.c_str(), nullptr, 10);
            else if (f.second->kind == ref::BOOL) v.e.back().u = s == "true";
            else for (std::size_t i = 2; i + 1 < s.size(); i += 2) v.e.back().b.push_back(std::uint8_t(std::stoul(s.substr(i, 2), nullptr, 16)));
        }
        return true;
    }
    static void edit(T &o, Val &v, const Desc &d, Rng &r) {
        ref::mutate_leaf(d, v, r);
        switch (r.below(3)) {
            case 0: decode_into(o, d, v); break;
            case 1: { T t; decode_into(t, d, v); o = t; break; }
            default: o.decode(YAML::Load(ref::yaml(d, v, 1)));
        }
    }
};

template <> struct Tr<eth::BeaconBlockBody> {
    using T = eth::BeaconBlockBody;
    static DescP desc(u64 = 0) {
        static auto d = ref::t_container("BeaconBlockBody", {{"randao_reveal", B(96)}, {"eth1_data", D<eth::Eth1Data>()}, {"graffiti", B(32)}, {"proposer_slashings", ref::t_list(D<eth::ProposerSlashing>(), MAX_PROPOSER_SLASHINGS)}, {"attester_slashings", ref::t_list(D<eth::AttesterSlashing>(), MAX_ATTESTER_SLASHINGS)}, {"attestations", ref::t_list(D<eth::Attestation>(), MAX_ATTESTATIONS)}, {"deposits", ref::t_list(D<eth::Deposit>(), MAX_DEPOSITS)}, {"voluntary_exits", ref::t_list(D<eth::SignedVoluntaryExit>(), MAX_VOLUNTARY_EXITS)}});
        return d;
    }
    static void build(T &o, const Val &v, const Desc &d) { decode_into(o, d, v); }
    static bool read(const T &o, Val &v, const Desc &d) {
        v = Val{};
        v.e.resize(8);
        auto t = std::tie(o.randao_reveal(), o.eth1_data(), o.graffiti(), o.proposer_slashings(), o.attester_slashings(), o.attestations(), o.deposits(), o.voluntary_exits());
        return [&]<std::size_t... I>(std::index_sequence<I...>) { return (Tr<std::remove_cvref_t<std::tuple_element_t<I, decltype(t)>>>::read(std::get<I>(t), v.e.at(I), *d.fields.at(I).second) && ...); }(std::make_index_sequence<8>{});
    }
    static void edit(T &o, Val &v, const Desc &d, Rng &r) {
        ref::mutate_leaf(d, v, r);
        decode_into(o, d, v);
    }
};
template <> struct Tr<eth::BeaconBlock> {
    using T = eth::BeaconBlock;
    static DescP desc(u64 = 0) {
        static auto d = ref::t_container("BeaconBlock", {{"slot", U()}, {"proposer_index", U()}, {"parent_root", B(32)}, {"state_root", B(32)}, {"body", D<eth::BeaconBlockBody>()}});
        return d;
    }
    static void build(T &o, const Val &v, const Desc &d) { decode_into(o, d, v); }
    static bool read(const T &o, Val &v, const Desc &d) {
        v = Val{};
        v.e.resize(5);
        eth::Slot s = o.slot(), p = o.proposer_index();
        v.e[0].u = s; v.e[1].u = p;
        return Tr<eth::Bytes32>::read(o.parent_root(), v.e[2], *d.fields[2].second) && Tr<eth::Bytes32>::read(o.state_root(), v.e[3], *d.fields[3].second) && Tr<eth::BeaconBlockBody>::read(o.body(), v.e[4], *d.fields[4].second);
    }
    static void edit(T &o, Val &v, const Desc &d, Rng &r) {
        ref::mutate_leaf(d, v, r);
        decode_into(o, d, v);
    }
};
FIELDS1(SignedBeaconBlock, (FieldList{{"message", D<eth::BeaconBlock>()}, {"signature", B(96)}}), o.message, o.signature);

template <> struct Tr<eth::BeaconState> {
    using T = eth::BeaconState;
    static DescP desc(u64 = 0) {
        using namespace ref;
        static auto d = t_container("BeaconState", {{"genesis_time", U()}, {"genesis_validators_root", B(32)}, {"slot", U()}, {"fork", D<eth::Fork>()}, {"latest_block_header", D<eth::BeaconBlockHeader>()}, {"block_roots", t_vector(B(32), SLOTS_PER_HISTORICAL_ROOT)}, {"state_roots", t_vector(B(32), SLOTS_PER_HISTORICAL_ROOT)}, {"historical_roots", t_list(B(32), HISTORICAL_ROOTS_LIMIT)}, {"eth1_data", D<eth::Eth1Data>()}, {"eth1_data_votes", t_list(D<eth::Eth1Data>(), EPOCHS_PER_ETH1_VOTING_PERIOD * SLOTS_PER_EPOCH)}, {"eth1_deposit_index", U()}, {"validators", t_list(validator_desc(), VALIDATOR_REGISTRY_LIMIT)}, {"balances", t_list(U(), VALIDATOR_REGISTRY_LIMIT)}, {"randao_mixes", t_vector(B(32), EPOCHS_PER_HISTORICAL_VECTOR)}, {"slashings", t_vector(U(), EPOCHS_PER_SLASHINGS_VECTOR)}, {"previous_epoch_attestations", t_list(D<eth::PendingAttestation>(), MAX_ATTESTATIONS * SLOTS_PER_EPOCH)}, {"current_epoch_attestations", t_list(D<eth::PendingAttestation>(), MAX_ATTESTATIONS * SLOTS_PER_EPOCH)}, {"justification_bits", t_bitvec(4)}, {"previous_justified_checkpoint", D<eth::Checkpoint>()}, {"current_justified_checkpoint", D<eth::Checkpoint>()}, {"finalized_checkpoint", D<eth::Checkpoint>()}});
        return d;
    }
    static void build(T &o, const Val &v, const Desc &d) { decode_into(o, d, v); }
    static bool read(const T &o, Val &v, const Desc &d) {
        v = Val{};
        v.e.resize(21);
        eth::Slot gt = o.genesis_time(), sl = o.slot();
        auto t = std::tie(gt, o.genesis_validators_root(), sl, o.fork(), o.latest_block_header(), o.block_roots(), o.state_roots(), o.historical_roots(), o.eth1_data(), o.eth1_data_votes(), o.eth1_deposit_index(), o.validators(), o.balances(), o.randao_mixes(), o.slashings(), o.previous_epoch_attestations(), o.current_epoch_attestations(), o.justification_bits(), o.previous_justified_checkpoint(), o.current_justified_checkpoint(), o.finalized_checkpoint());
        return [&]<std::size_t... I>(std::index_sequence<I...>) { return (Tr<std::remove_cvref_t<std::tuple_element_t<I, decltype(t)>>>::read(std::get<I>(t), v.e.at(I), *d.fields.at(I).second) && ...); }(std::make_index_sequence<21>{});
    }
    static void edit(T &o, Val &v, const Desc &d, Rng &r) { ref::mutate_leaf(d, v, r); decode_into(o, d, v); }
};

// --- type erasure --------------------------------------------------------------------------------------------------
template <class T> constexpr bool limited = requires(T t) { t.limit(std::size_t(1)); } && !requires { T::fixed_limit; };
template <class T> struct LimitCtor : std::bool_constant<limited<T>> {};
template <class T> struct LimitCtor<eth::ListVariableSizedParts<T>> : std::true_type {};
template <class T> struct Printed : std::false_type {};
template <> struct Printed<eth::Bitlist> : std::true_type {};
template <unsigned N> struct Printed<eth::Bitvector<N>> : std::true_type {};
// hash_tree() is public in some types and for derived classes in the others
template <class T> struct Peek : T {
    template <class P = Peek> static auto tree(const T &o) -> decltype((o.*(&P::hash_tree))()) { return (o.*(&P::hash_tree))(); }
};
template <class T> Ops make(u64 limit = 0, std::string cls = "") {
    Ops o;
    o.desc = Tr<T>::desc(limit);
    o.name = o.desc->name;
    o.cls = cls.empty() ? o.name : cls;
    o.limit = limit;
    if constexpr (requires { T::fixed_limit; }) o.limit = T::fixed_limit;
    o.limited = limited<T>;
    o.size = sizeof(T);
    o.align = alignof(T);
    o.ctor = [](void *p, u64 lim) { if constexpr (LimitCtor<T>::value) new (p) T(std::size_t(lim)); else new (p) T; };
    o.ctor_value = [](void *p, u64 lim) { if constexpr (limited<T>) { new (p) T{}; static_cast<T *>(p)->limit(std::size_t(lim)); } else if constexpr (LimitCtor<T>::value) new (p) T{std::size_t(lim)}; else new (p) T{}; };
    if constexpr (LimitCtor<T>::value && std::is_default_constructible_v<T>) o.ctor_bare = [](void *p, int how) { if (how == 0) new (p) T; else if (how == 1) new (p) T(std::size_t(0)); else new (p) T{}; };
    o.dtor = [](void *p) { static_cast<T *>(p)->~T(); };
    o.base = [](void *p) -> ssz::Container * { return static_cast<T *>(p); };
    o.copy_ctor = [](void *p, const void *q) { new (p) T(*static_cast<const T *>(q)); };
    o.move_ctor = [](void *p, void *q) { new (p) T(std::move(*static_cast<T *>(q))); };
    o.copy_assign = [](void *p, const void *q) { *static_cast<T *>(p) = *static_cast<const T *>(q); };
    o.move_assign = [](void *p, void *q) { *static_cast<T *>(p) = std::move(*static_cast<T *>(q)); };
    o.swap = [](void *p, void *q) { using std::swap; swap(*static_cast<T *>(p), *static_cast<T *>(q)); };
    o.eq = [](const void *p, const void *q) { return *static_cast<const T *>(p) == *static_cast<const T *>(q); };
    o.ne = [](const void *p, const void *q) { return *static_cast<const T *>(p) != *static_cast<const T *>(q); };
    o.set_limit = [](void *p, u64 lim) { if constexpr (limited<T>) static_cast<T *>(p)->limit(std::size_t(lim)); else (void)p, (void)lim; };
    o.count = [](const void *p) -> long { if constexpr (requires(const T &t) { t.size(); } && LimitCtor<T>::value) return long(static_cast<const T *>(p)->size()); else return -1; };
    if constexpr (!LimitCtor<T>::value) o.as = [](void *p, const YAML::Node &n) { *static_cast<T *>(p) = n.as<T>(); };
    if constexpr (requires(T &t, const std::string &s) { t.from_hexstring(s); }) o.hextext = [](void *p, const std::string &s) { static_cast<T *>(p)->from_hexstring(s); };
    else if constexpr (requires(T &t, const std::string &s) { t.from_string(s); }) o.hextext = [](void *p, const std::string &s) { static_cast<T *>(p)->from_string(s); };
    if constexpr (requires(const T &t) { { t.to_string() } -> std::convertible_to<std::string>; }) o.text = [](const void *p) -> std::string { return static_cast<const T *>(p)->to_string(); };
    if constexpr (Printed<T>::value) o.print = [](const void *p) { std::ostringstream s; s << *static_cast<const T *>(p); return s.str(); };
    if constexpr (requires(const T &t) { { t.hash_tree() } -> std::convertible_to<std::vector<ssz::Chunk>>; }) o.tree = [](const void *p) -> std::vector<ssz::Chunk> { return static_cast<const T *>(p)->hash_tree(); };
    else if constexpr (!std::is_final_v<T>) {
        if constexpr (requires(const T &t) { { Peek<T>::tree(t) } -> std::convertible_to<std::vector<ssz::Chunk>>; }) o.tree = [](const void *p) -> std::vector<ssz::Chunk> { return Peek<T>::tree(*static_cast<const T *>(p)); };
    }
    o.build = [](void *p, const Val &v, const Desc &d) { Tr<T>::build(*static_cast<T *>(p), v, d); };
    o.read = [](const void *p, Val &v, const Desc &d) { return Tr<T>::read(*static_cast<const T *>(p), v, d); };
    o.edit = [](void *p, Val &v, const Desc &d, Rng &r) { Tr<T>::edit(*static_cast<T *>(p), v, d, r); };
    o.hold = [](void *p, const Val &v, const Desc &d, Rng &r) { return hold_in(*static_cast<T *>(p), v, d, r); };
    return o;
}
}  // namespace ad
