// C18 to C20: predicates against their definition in the specification; and the shared read-only objects of C23.
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/beacon_state.hpp"
#include "beacon-chain/validator.hpp"
#include "ssz/hashtree.hpp"
#include "ssz_util.hpp"
#include "work.hpp"

namespace {
const u64 FF = ~0ull;
template <class T> bool decode_to(T &o, const Desc &d, const Val &v) {
    auto b = ref::ser(d, v);
    const Bytes &k = b;
    if (o.deserialize(k.cbegin(), k.cend())) return true;
    stats.add("not_put");
    return false;
}
const Ops &type(const char *n) { for (auto &t : types) if (t.name == n) return t; broken(std::string("no type ") + n); }

// fields: slot index root source{epoch root} target{epoch root}
void set(eth::AttestationData &o, const Val &v) {
    auto bytes = [](eth::Bytes32 &b, const Val &x) { std::array<std::uint8_t, 32> a; std::copy(x.b.begin(), x.b.end(), a.begin()); b = eth::Bytes32{a}; };
    o.slot = v.e[0].u; o.index = v.e[1].u;
    bytes(o.beacon_block_root, v.e[2]);
    o.source.epoch = v.e[3].e[0].u; bytes(o.source.root, v.e[3].e[1]);
    o.target.epoch = v.e[4].e[0].u; bytes(o.target.root, v.e[4].e[1]);
}
bool slashable(const Val &a, const Val &b) {
    bool dbl = !(a == b) && a.e[4].e[0].u == b.e[4].e[0].u;
    return dbl || (a.e[3].e[0].u < b.e[3].e[0].u && a.e[4].e[0].u > b.e[4].e[0].u);
}
void data_pair(const Desc &d, const Val &a, const Val &b, Rng &r, const char *what) {
    eth::AttestationData x, y;
    if (!r.chance(1, 8)) set(x, a); else if (!decode_to(x, d, a)) return;
    if (!r.chance(1, 8)) set(y, b); else if (!decode_to(y, d, b)) return;
    crumbf("slashable %s %s vs %s", what, ref::show(d, a).c_str(), ref::show(d, b).c_str());
    bool got = x.is_slashable(y), want = slashable(a, b);
    if (got != want) fail(std::string("slashable:") + (want ? "missed" : "wrong"), std::string("is_slashable is ") + (got ? "true" : "false") + " (" + what + ") for " + ref::show(d, a) + " against " + ref::show(d, b));
    if (x.is_slashable(y) != got) fail("slashable:unstable", "is_slashable changes from call to call");
    stats.add("pairs");
    stats.add(want ? "slashable_pairs" : "innocent_pairs");
    auto ea = ref::ser(d, a), eb = ref::ser(d, b);
    stats.seen("pairs", mix(hash64(ea.data(), ea.size()), hash64(eb.data(), eb.size())));
    if (stats.n["pairs"] % 9001 == 17) stats.sample(std::string(what) + " " + ref::show(d, a) + " vs " + ref::show(d, b) + (want ? " slashable" : " not"));
}
void slashable_all(const Args &a, u64 shard, u64 shards) {
    const Desc &d = *type("AttestationData").desc;
    Rng r(mix(a.num("seed", 1), mix(18, shard)));
    static const u64 E[] = {0, 1, 2, 3, 0xffffffffull, 1ull << 32, (1ull << 32) + 1, (1ull << 63) - 1, 1ull << 63, FF - 1, FF};
    const u64 N = 11;
    u64 k = 0;
    // every combination of the four epochs, with each kind of difference in the other fields
    for (u64 s1 = 0; s1 < N; ++s1) for (u64 t1 = 0; t1 < N; ++t1) for (u64 s2 = 0; s2 < N; ++s2) for (u64 t2 = 0; t2 < N; ++t2) {
        if (k++ % shards != shard) continue;
        Val x = ref::gen(d, r), y = x;
        for (int diff = 0; diff < 6; ++diff) {
            y = x;
            x.e[3].e[0].u = E[s1]; x.e[4].e[0].u = E[t1]; y.e[3].e[0].u = E[s2]; y.e[4].e[0].u = E[t2];
            switch (diff) {
                case 1: y.e[0].u ^= 1ull << r.below(64); break;
                case 2: y.e[1].u ^= 1ull << r.below(64); break;
                case 3: y.e[2].b[r.below(32)] ^= std::uint8_t(1 << r.below(8)); break;
                case 4: y.e[3].e[1].b[r.below(32)] ^= std::uint8_t(1 << r.below(8)); break;
                case 5: y.e[4].e[1].b[r.below(32)] ^= std::uint8_t(1 << r.below(8)); break;
            }
            data_pair(d, x, y, r, "grid");
        }
    }
    // equal but for a single bit anywhere
    if (shard == 0) {
        Val x = ref::gen(d, r);
        std::vector<ref::Leaf> ls;
        std::vector<std::uint32_t> path;
        ref::leaves(d, x, ls, path);
        for (auto &l : ls)
            for (int m = 0; m < 4; ++m) {
                Val y = x;
                if (!ref::mutate_leaf(*l.d, *ref::at(y, l.path), r)) continue;
                data_pair(d, x, y, r, "one leaf");
                data_pair(d, y, x, r, "one leaf");
            }
        data_pair(d, x, x, r, "same");
    }
    u64 n = a.num("random", 60000) / shards;
    for (u64 i = 0; i < n; ++i) {
        Val x = ref::gen(d, r), y = r.chance(1, 2) ? x : ref::gen(d, r);
        auto near = [&](u64 e) { return r.chance(1, 4) ? r.next() : e + r.below(5) - 2; };
        u64 base = r.chance(1, 2) ? r.below(1000) : r.next();
        for (auto v : {&x, &y}) { v->e[3].e[0].u = near(base); v->e[4].e[0].u = near(base + 1); }
        if (r.chance(1, 5)) y.e[4].e[0].u = x.e[4].e[0].u;
        if (r.chance(1, 5)) y.e[3].e[0].u = x.e[3].e[0].u;
        data_pair(d, x, y, r, "random");
    }
}

bool valid_indices(const std::vector<u64> &v) {
    if (v.empty()) return false;
    for (std::size_t i = 1; i < v.size(); ++i) if (!(v[i - 1] < v[i])) return false;
    return true;
}
const eth::BeaconState &state(Rng &r) {
    static std::vector<std::unique_ptr<eth::BeaconState>> pool = [] {
        std::vector<std::unique_ptr<eth::BeaconState>> p;
        auto &t = type("BeaconState");
        for (int i = 0; i < 4; ++i) {
            p.push_back(std::make_unique<eth::BeaconState>());
            Rng q(mix(99, u64(i)));
            if (i) decode_to(*p.back(), *t.desc, ref::gen(*t.desc, q, 200));
        }
        return p;
    }();
    return *pool[r.below(pool.size())];
}
void check_indices(const std::vector<u64> &v, Rng &r, const char *what) {
    const Ops &t = type("IndexedAttestation");
    eth::IndexedAttestation o;
    auto text = [&] { std::string s; for (std::size_t i = 0; i < v.size() && i < 60; ++i) s += std::to_string(v[i]) + " "; return fmt("%zu indices: ", v.size()) + s + "(" + what + ")"; };
    crumbf("is_valid %s", text().c_str());
    if (r.chance(1, 4)) {
        Val x = ref::gen(*t.desc, r, 30);
        x.e[0].e.clear();
        for (auto i : v) { Val q; q.u = i; x.e[0].e.push_back(q); }
        if (!decode_to(o, *t.desc, x)) return;
    } else for (auto i : v) o.attesting_indices.data().push_back(eth::ValidatorIndex{i});
    if (o.attesting_indices.size() != v.size()) { stats.add("not_put"); return; }
    auto &s = state(r);
    bool got = o.is_valid(s), want = valid_indices(v);
    if (got != want) fail(std::string("is_valid:") + (want ? "refuses" : "accepts"), std::string("is_valid is ") + (got ? "true" : "false") + " for " + text());
    if (o.is_valid(s) != got) fail("is_valid:unstable", "is_valid changes from call to call");
    stats.add("lists");
    stats.add(want ? "valid_lists" : "invalid_lists");
    stats.seen("lists", hash64(v.data(), 8 * v.size()));
    if (stats.n["lists"] % 4001 == 11) stats.sample(text());
}
void indexed_all(const Args &a, u64 shard, u64 shards) {
    Rng r(mix(a.num("seed", 1), mix(19, shard)));
    auto increasing = [&](std::size_t n, int kind) {
        std::vector<u64> v(n);
        u64 x = kind == 0 ? 0 : kind == 1 ? (1ull << 63) - n / 2 : kind == 2 ? FF - n + 1 : kind == 3 ? (1ull << 32) - n / 2 : r.below(1ull << 62);
        for (auto &e : v) { e = x; x += kind == 4 ? r.range(1, 1ull << 40) : kind == 5 ? r.range(1, 3) : 1; }
        return v;
    };
    check_indices({}, r, "empty");
    // every position of a repetition, of an inversion and of a far inversion, for all short lengths
    u64 k = 0;
    for (std::size_t n = 1; n <= a.num("maxlen", 80); ++n)
        for (int kind = 0; kind < 6; ++kind) {
            if (k++ % shards != shard) continue;
            auto v = increasing(n, kind);
            check_indices(v, r, "increasing");
            for (std::size_t p = 1; p < n; ++p) {
                auto w = v; w[p] = w[p - 1]; check_indices(w, r, "repetition");
                w = v; std::swap(w[p - 1], w[p]); check_indices(w, r, "inversion");
                if (r.chance(1, 3)) { w = v; w[p] = w[r.below(p)]; check_indices(w, r, "far repetition"); w = v; std::swap(w[p], w[r.below(p)]); check_indices(w, r, "far swap"); }
                if (p + 1 < n && r.chance(1, 3)) { w = v; w[p] = w[p + 1]; check_indices(w, r, "repetition"); }
            }
        }
    for (u64 q = 0, n = a.num("random", 6000) / shards; q < n; ++q) {
        std::size_t len = r.chance(1, 4) ? r.range(1, 2048) : r.chance(1, 8) ? 2048 : r.range(1, 300);
        auto v = increasing(len, int(r.below(6)));
        switch (r.below(7)) {
            case 0: break;
            case 1: if (len > 1) { auto p = r.range(1, len - 1); v[p] = v[p - 1]; } break;
            case 2: if (len > 1) { auto p = r.range(1, len - 1); std::swap(v[p - 1], v[p]); } break;
            case 3: std::reverse(v.begin(), v.end()); break;
            case 4: v[len - 1] = v[0]; break;
            case 5: if (len > 1) { v[len - 1] = v[len - 2]; } break;
            default: for (auto &e : v) e = r.below(len);
        }
        check_indices(v, r, "random");
    }
    // all lists of up to five of six values
    if (shard == 0) {
        static const u64 S[] = {0, 1, (1ull << 63) - 1, 1ull << 63, FF, 1ull << 32};
        for (std::size_t len = 1; len <= 5; ++len) {
            std::vector<u64> idx(len, 0);
            for (;;) {
                std::vector<u64> v;
                for (auto i : idx) v.push_back(S[i]);
                check_indices(v, r, "small");
                std::size_t p = 0;
                while (p < len && ++idx[p] == 6) idx[p++] = 0;
                if (p == len) break;
            }
        }
    }
}

// pubkey credentials balance slashed eligibility activation exit withdrawable
void validator_case(const Desc &d, const Val &v, const std::vector<u64> &epochs, Rng &r) {
    eth::Validator o;
    if (r.chance(1, 20)) { if (!o.decode(YAML::Load(ref::yaml(d, v, 1)))) { stats.add("not_put"); return; } } else if (!decode_to(o, d, v)) return;
    crumbf("validator %s", ref::show(d, v).c_str());
    u64 bal = v.e[2].u, sl = v.e[3].u, el = v.e[4].u, act = v.e[5].u, ex = v.e[6].u, wd = v.e[7].u;
    auto bad = [&](const char *p, bool got, u64 e) { fail(std::string("validator:") + p, fmt("%s is %s at epoch %lu for ", p, got ? "true" : "false", e) + ref::show(d, v)); };
    for (u64 e : epochs) {
        bool g = o.is_active(eth::Epoch{e});
        if (g != (act <= e && e < ex)) bad("is_active", g, e);
        stats.add(g ? "active" : "inactive");
        g = o.is_slashable(eth::Epoch{e});
        if (g != (!sl && act <= e && e < wd)) bad("is_slashable", g, e);
        stats.add(g ? "slashable" : "not_slashable");
        stats.add("evaluated", 2);
    }
    bool g = o.is_eligible_for_activation_queue();
    if (g != (el == FF && bal == 32000000000ull)) bad("is_eligible_for_activation_queue", g, 0);
    stats.add(g ? "eligible" : "not_eligible");
    stats.add("evaluated");
    auto e = ref::ser(d, v);
    stats.seen("validators", hash64(e.data(), e.size()));
    if (stats.n["evaluated"] % 30011 < 12) stats.sample(ref::show(d, v));
}
void validator_all(const Args &a, u64 shard, u64 shards) {
    const Desc &d = *type("Validator").desc;
    Rng r(mix(a.num("seed", 1), mix(20, shard)));
    static const std::vector<u64> E = {0, 1, 2, 3, 0x7fffffff, 0xffffffffull, 1ull << 32, (1ull << 63) - 1, 1ull << 63, FF - 1, FF};
    static const std::vector<u64> B = {0, 1, 31999999999ull, 32000000000ull, 32000000001ull, 31000000000ull, 1000000000ull, 32000000000ull + (1ull << 32), 32000000000ull & 0xffffffff, 16000000000ull, FF, 32000000000ull | 1ull << 63};
    u64 k = 0;
    for (u64 act : E) for (u64 ex : E) for (u64 wd : E) for (u64 sl = 0; sl < 2; ++sl) {
        if (k++ % shards != shard) continue;
        Val v = ref::gen(d, r);
        v.e[3].u = sl; v.e[5].u = act; v.e[6].u = ex; v.e[7].u = wd;
        if (r.chance(1, 2)) v.e[4].u = FF;
        if (r.chance(1, 2)) v.e[2].u = B[r.below(B.size())];
        validator_case(d, v, E, r);
    }
    for (u64 el : E) for (u64 b : B) for (u64 sl = 0; sl < 2; ++sl) for (u64 act : E) {
        if (k++ % shards != shard) continue;
        Val v = ref::gen(d, r);
        v.e[2].u = b; v.e[3].u = sl; v.e[4].u = el; v.e[5].u = act;
        validator_case(d, v, {0, act}, r);
    }
    for (u64 q = 0, n = a.num("random", 40000) / shards; q < n; ++q) {
        Val v = ref::gen(d, r);
        u64 base = r.chance(1, 2) ? r.below(1 << 20) : r.next();
        for (int i = 4; i < 8; ++i) if (r.chance(4, 5)) v.e[std::size_t(i)].u = r.chance(1, 8) ? FF : base + r.below(6);
        if (r.chance(1, 3)) v.e[2].u = r.chance(1, 2) ? 32000000000ull : 32000000000ull + (1ull << r.below(64));
        std::vector<u64> es;
        for (u64 i = 0; i < 8; ++i) es.push_back(base + i - 1);
        es.push_back(r.next());
        validator_case(d, v, es, r);
    }
}
}  // namespace

void pair_of_data(const Bytes &x, const Bytes &y, Rng &r) {
    static const Desc &d = *type("AttestationData").desc;
    Val a, b;
    if (ref::deser(d, x, a) && ref::deser(d, y, b)) data_pair(d, a, b, r, "guided");
}
void list_of_indices(const std::vector<u64> &v, Rng &r) { check_indices(v, r, "guided"); }
void validator_at(const Bytes &enc, const std::vector<u64> &epochs, Rng &r) {
    static const Desc &d = *type("Validator").desc;
    Val v;
    if (ref::deser(d, enc, v)) validator_case(d, v, epochs, r);
}
void work_predicates(Rng &r, u64 branches) {
    u64 n = r.chance(1, 2) ? 2048 : r.range(1000, 60000), x = r.below(1000);
    eth::IndexedAttestation o;
    for (u64 i = 0; i < n; ++i) o.attesting_indices.data().push_back(eth::ValidatorIndex{x += r.range(1, 9)});
    if (r.chance(1, 3)) o.attesting_indices.data().back() = *(o.attesting_indices.cend() - 2);
    auto &s = state(r);
    measured("is_valid", "is_valid", fmt("IndexedAttestation of %lu indices", n), 8 * n, {branches, branches}, [&] { (void)o.is_valid(s); });
    auto p = o;
    measured("IndexedAttestation", "compare", fmt("IndexedAttestation of %lu indices", n), 8 * n, {4 * branches, 16 * branches}, [&] { (void)(o == p); });
}
// C24: the predicates of an object with a history
void probe(const Ops &t, const void *p, const Val &v, const void *q, const Val &w, const std::string &log) {
    auto wrong = [&](const char *what, bool got) { fail(std::string("history:") + what, t.name + ": " + what + (got ? " is true" : " is false") + ", which is not that of the current value " + ref::show(*t.desc, v, 400) + "; " + log); };
    if (t.name == "AttestationData") {
        auto &x = *static_cast<const eth::AttestationData *>(p), &y = *static_cast<const eth::AttestationData *>(q);
        bool g = x.is_slashable(y);
        if (g != slashable(v, w)) wrong("is_slashable", g);
    } else if (t.name == "IndexedAttestation") {
        static const eth::BeaconState s;
        std::vector<u64> l;
        for (auto &e : v.e[0].e) l.push_back(e.u);
        bool g = static_cast<const eth::IndexedAttestation *>(p)->is_valid(s);
        if (g != valid_indices(l)) wrong("is_valid", g);
    } else if (t.name == "Validator") {
        auto &o = *static_cast<const eth::Validator *>(p);
        for (u64 e : {v.e[5].u, v.e[6].u, v.e[7].u, v.e[6].u - 1, w.e[5].u, w.e[6].u}) {
            bool g = o.is_active(eth::Epoch{e});
            if (g != (v.e[5].u <= e && e < v.e[6].u)) wrong("is_active", g);
            g = o.is_slashable(eth::Epoch{e});
            if (g != (!v.e[3].u && v.e[5].u <= e && e < v.e[7].u)) wrong("is_slashable", g);
        }
        bool g = o.is_eligible_for_activation_queue();
        if (g != (v.e[4].u == FF && v.e[2].u == 32000000000ull)) wrong("is_eligible_for_activation_queue", g);
    } else return;
    stats.add("predicates_verified");
}
void cmd_predicates(const Args &a) {
    u64 shard = a.num("shard", 0), shards = a.num("shards", 1);
    auto w = a.str("which", "all");
    if (w == "slashable" || w == "all") slashable_all(a, shard, shards);
    if (w == "indexed" || w == "all") indexed_all(a, shard, shards);
    if (w == "validator" || w == "all") validator_all(a, shard, shards);
}

// Shared immutable inputs used by all threads of C23: predicates, trees and the hasher
namespace {
struct SharedStatics {
    std::vector<eth::Validator> vals; std::vector<Val> vv;
    std::vector<eth::AttestationData> data; std::vector<Val> dv;
    std::vector<eth::IndexedAttestation> idx; std::vector<bool> iv;
    std::vector<ssz::Chunk> chunks;
    std::vector<ref::Hash> roots;  // of the first n chunks, limit 4096
    Bytes in, digests;
    ssz::Hasher hasher;
    eth::BeaconState st;
    SharedStatics() {
        Rng r(4711);
        auto &vd = *type("Validator").desc, &dd = *type("AttestationData").desc, &id = *type("IndexedAttestation").desc;
        for (int i = 0; i < 40; ++i) {
            vv.push_back(ref::gen(vd, r)); vals.emplace_back(); decode_to(vals.back(), vd, vv.back());
            dv.push_back(ref::gen(dd, r));
            if (i % 2 && i) { dv.back() = dv[std::size_t(i - 1)]; dv.back().e[0].u ^= 1; }
            data.emplace_back(); decode_to(data.back(), dd, dv.back());
            Val v = ref::gen(id, r, 60);
            if (i % 2) { u64 x = 5; for (auto &e : v.e[0].e) e.u = x += 3; }
            std::vector<u64> l; for (auto &e : v.e[0].e) l.push_back(e.u);
            idx.emplace_back(); decode_to(idx.back(), id, v); iv.push_back(valid_indices(l));
        }
        std::vector<ref::Hash> c;
        for (int i = 0; i < 70; ++i) { ssz::Chunk k; r.fill(k.data(), 32); chunks.push_back(k); ref::Hash h; std::copy(k.begin(), k.end(), h.begin()); c.push_back(h); roots.push_back(ref::merkleize(c, 4096)); }
        in.resize(64 * 64); digests.resize(32 * 64);
        r.fill(in.data(), in.size());
        for (int i = 0; i < 64; ++i) { auto h = ref::sha256(&in[std::size_t(64 * i)], 64); std::memcpy(&digests[std::size_t(32 * i)], h.data(), 32); }
    }
};
}
void mt_statics(Rng &r) {
    static const SharedStatics s;
    auto k = r.below(40), j = r.below(40);
    auto &v = s.vv[k];
    u64 e = r.chance(1, 2) ? v.e[5].u + r.below(3) - 1 : r.next();
    if (s.vals[k].is_active(eth::Epoch{e}) != (v.e[5].u <= e && e < v.e[6].u)) fail("mt:is_active", "is_active differs while threads read");
    if (s.vals[k].is_slashable(eth::Epoch{e}) != (!v.e[3].u && v.e[5].u <= e && e < v.e[7].u)) fail("mt:is_slashable", "Validator::is_slashable differs while threads read");
    if (s.vals[k].is_eligible_for_activation_queue() != (v.e[4].u == FF && v.e[2].u == 32000000000ull)) fail("mt:eligible", "is_eligible_for_activation_queue differs while threads read");
    if (s.data[k].is_slashable(s.data[j]) != slashable(s.dv[k], s.dv[j])) fail("mt:slashable", "is_slashable differs while threads read");
    if (s.idx[k].is_valid(s.st) != s.iv[k]) fail("mt:is_valid", "is_valid differs while threads read");
    auto n = r.range(1, 70);
    ssz::HashTree t{std::vector<ssz::Chunk>(s.chunks.begin(), s.chunks.begin() + std::ptrdiff_t(n)), 4096};
    if (!same_root(t.hash_tree_root(), s.roots[n - 1])) fail("mt:tree", fmt("root of %lu chunks differs while threads build trees", n));
    auto m = r.range(1, 24), at = r.below(64 - m);
    Bytes out(32 * m);
    s.hasher.hash_64b_blocks(out.data(), &s.in[64 * at], m);
    if (std::memcmp(out.data(), &s.digests[32 * at], 32 * m)) fail("mt:hasher", "digests of a shared hasher differ while threads hash");
    if (ssz::Hasher::IMPL::NONE == ssz::Hasher::implemented()) fail("mt:implemented", "implemented() reports nothing");
}
