// C06, C07, C08 and the tree part of C26 and C27: ssz::HashTree against a direct merkleization.
#include "ref.hpp"
#include "ssz/hashtree.hpp"
#include "work.hpp"

#include <atomic>
#include <exception>
#include <memory>
#include <thread>

using namespace hc;
using ref::Hash;
using u64 = std::uint64_t;
using ssz::Chunk;

struct AllocStats { u64 count, bytes, live_count, live_bytes, peak; };
extern "C" AllocStats *alloc_stats() __attribute__((weak));
extern "C" void guard_on(int) __attribute__((weak));
struct Guard { Guard() { if (guard_on) guard_on(1); } ~Guard() { if (guard_on) guard_on(0); } };

using ref::log2up;
using ref::nodes;
static std::string hx(const Chunk &c) { return hex(c.data(), 32); }
static bool same(const Chunk &c, const Hash &h) { return std::memcmp(c.data(), h.data(), 32) == 0; }
static void fill(std::vector<Chunk> &v, Rng &r) {
    int kind = int(r.below(6));
    u64 c = 0;
    for (auto &x : v) {
        if (kind == 0) std::memset(x.data(), 0, 32);
        else if (kind == 1) std::memset(x.data(), 0xff, 32);
        else if (kind == 2) { std::memset(x.data(), 0, 32); std::memcpy(x.data(), &++c, 8); }
        else if (kind == 3 && r.chance(1, 2)) std::memset(x.data(), 0, 32);
        else r.fill(x.data(), 32);
    }
}
static std::vector<Hash> hashes(const std::vector<Chunk> &v) { std::vector<Hash> h(v.size()); if (!v.empty()) std::memcpy(h.data(), v.data(), 32 * v.size()); return h; }
static std::vector<Hash> pack(const Bytes &b) {
    std::vector<Hash> h(std::max<std::size_t>(1, (b.size() + 31) / 32));
    for (auto &x : h) x.fill(0);
    if (!b.empty()) std::memcpy(h.data(), b.data(), b.size());
    return h;
}
static u64 random_limit(u64 n, Rng &r) {
    switch (r.below(9)) {
        case 0: return 0;
        case 1: return n;
        case 2: return n + r.below(4);
        case 3: { u64 p = 1; while (p < n) p *= 2; return p; }
        case 4: { u64 p = 1; while (p < n) p *= 2; return p + 1; }
        case 5: return std::max<u64>(n, 1ull << r.below(64));
        case 6: return std::max<u64>(n, (1ull << r.below(64)) + r.below(3) - 1);
        case 7: return r.chance(1, 2) ? ~0ull - r.below(3) : std::max<u64>(n, r.next() >> r.below(64));
        default: return n + r.below(5000);
    }
}
static u64 random_length(Rng &r) { static const u64 L[] = {0, 1, 255, 256, 65535, 65536, 0xffffffffull, 1ull << 32, ~0ull, 1ull << 63}; return r.chance(1, 2) ? L[r.below(10)] : r.next() >> r.below(64); }

enum What { ROOT = 1, CACHE = 2 };
static std::string W(u64 n, bool bytes, u64 limit) { return fmt("tree of %lu %s with limit %lu", n, bytes ? "bytes" : "chunks", limit); }
template <class T> static void one(const T &src, const std::vector<Hash> &chunks, u64 limit, int what, Rng &r, bool bytes) {
    crumbf("%s", W(src.size(), bytes, limit).c_str());
    auto snap = src;
    std::vector<u64> mixed;
    try {
        Guard g;
        ssz::HashTree t{src, limit};
        u64 mixes = r.chance(1, 2) ? 0 : r.range(1, 3);
        for (u64 k = 0;; ++k) {
            std::string desc = W(src.size(), bytes, limit);
            for (auto m : mixed) desc += fmt(" mixed with %lu", m);
            if (what & ROOT) {
                Hash e = ref::merkleize(chunks, limit ? limit : [&] { u64 p = 1; while (p < chunks.size()) p *= 2; return p; }());
                for (auto m : mixed) e = ref::mix_in(e, m);
                auto root = t.hash_tree_root();
                if (!same(root, e)) fail(mixed.empty() ? "tree:root" : "tree:mix_in", desc + ": root is " + hx(root) + ", should be " + hex(e.data(), 32));
                stats.add("roots");
            }
            if (what & CACHE) {
                auto e = nodes(chunks, limit, mixed);
                auto got = t.hash_tree();
                if (got.size() != e.size()) fail("tree:nodes:count", desc + fmt(": has %zu nodes, should have %zu", got.size(), e.size()));
                for (std::size_t i = 0; i < e.size(); ++i)
                    if (!same(got[i], e[i])) fail("tree:nodes:value", desc + fmt(": node %zu of %zu is ", i, e.size()) + hx(got[i]) + ", should be " + hex(e[i].data(), 32));
                if (!same(t.hash_tree_root(), e.back())) fail("tree:nodes:root", desc + ": the last node is not the root");
                stats.add("nodes", e.size());
            }
            if (k == mixes) break;
            u64 m = random_length(r);
            t.mix_in(m);
            mixed.push_back(m);
        }
        if (r.chance(1, 8)) { ssz::HashTree c{t}; ssz::HashTree d{std::move(c)}; if (d.hash_tree() != t.hash_tree()) fail("tree:copy", "a copied tree differs"); }
    } catch (const std::exception &e) { fail("tree:exception", W(src.size(), bytes, limit) + ": " + e.what()); }
    if (snap != src) fail("tree:input", W(src.size(), bytes, limit) + ": the input changed");
    stats.add("trees");
    stats.seen("shapes", fmt("%lu/%lu/%d", u64(src.size()), limit, bytes));
    if (stats.n["trees"] % 1201 == 7) stats.sample(W(src.size(), bytes, limit) + fmt(", %zu lengths mixed in", mixed.size()), 8);
}
static void chunks_case(u64 n, u64 limit, int what, Rng &r) {
    std::vector<Chunk> c(n);
    fill(c, r);
    one(c, hashes(c), limit, what, r, false);
}
static void bytes_case(u64 n, u64 limit_extra, int what, Rng &r) {
    Bytes b(n);
    r.fill(b.data(), n);
    if (r.chance(1, 4)) std::fill(b.begin(), b.end(), std::uint8_t(0xff));
    b.shrink_to_fit();
    auto h = pack(b);
    u64 limit = limit_extra == 0 ? 0 : random_limit(h.size(), r);
    if (limit && limit < h.size()) limit = h.size();
    one(b, h, limit, what, r, true);
}
static void cmd_large(const Args &a, int what);
static void cmd_tree(const Args &a, int what) {
    u64 shard = a.num("shard", 0), shards = a.num("shards", 1), maxn = a.num("maxn", 200), rnd = a.num("random", 3000), big = a.num("big", 20);
    Rng r(mix(mix(a.num("seed", 1), a.cmd), shard));
    // every count with every kind of limit
    for (u64 n = 1; n <= maxn; ++n) {
        if (n % shards != shard) continue;
        for (u64 l : {u64(0), n, n + 1, u64(1) << log2up(n), (u64(1) << log2up(n)) + 1, u64(2048), u64(1) << 24, u64(1) << 40, u64(1) << 42, u64(1) << 43, (u64(1) << 63) - 1, u64(1) << 63, (u64(1) << 63) + 1, ~u64(0)})
            if (l == 0 || l >= n) chunks_case(n, l, what, r);
        for (int k = 0; k < 3; ++k) { u64 l = random_limit(n, r); if (!l || l >= n) chunks_case(n, l, what, r); }
    }
    // every limit from one to 64 bits for a few counts
    for (u64 n : {u64(1), u64(2), u64(3), u64(7)})
        for (u64 k = shard; k < 64; k += shards)
            for (u64 dl = 0; dl < 3; ++dl) { u64 l = (u64(1) << k) + dl - 1; if (l >= n) chunks_case(n, l, what, r); }
    for (u64 n = shard; n <= 6 * 32 + 40; n += shards) { bytes_case(n, 0, what, r); bytes_case(n, 1, what, r); }
    for (u64 k = shard; k < rnd; k += shards) {
        u64 n = r.chance(1, 10) ? r.range(1, 3000) : r.range(1, 80);
        if (r.chance(1, 3)) bytes_case(32 * n - r.below(33), r.below(3), what, r);
        else { u64 l = random_limit(n, r); if (l == 0 || l >= n) chunks_case(n, l, what, r); }
    }
    for (u64 k = shard; k < big; k += shards) {
        u64 n = r.chance(1, 2) ? (1ull << r.range(10, 15)) + r.below(3) - 1 : r.range(3000, 40000);
        u64 l = random_limit(n, r);
        chunks_case(n, l < n ? 0 : l, what, r);
    }
    cmd_large(a, what);
}
// Trees of up to 2^20 chunks, where narrow counters wrap
static u64 large_count(Rng &r, u64 maxk) {
    switch (r.below(5)) {
        case 4: return (1ull << r.range(16, maxk)) * r.range(1, 3);  // where pieces of any size come out even
        case 0: return (1ull << r.range(15, maxk)) + r.below(5) - 2;
        case 1: return 65536 * r.range(1, 1ull << (maxk - 16)) + r.below(3) - 1;
        case 2: return (1ull << r.range(15, maxk)) - (1ull << r.range(0, 14)) + r.below(2);
        default: return r.range(65536, 1ull << maxk);
    }
}
static void cmd_large(const Args &a, int what) {
    u64 shard = a.num("shard", 0), shards = a.num("shards", 1), maxk = a.num("maxk", 18);
    Rng r(mix(mix(a.num("seed", 1), a.cmd + "-large"), shard));
    for (u64 k = shard; k < a.num("large", 16); k += shards) {
        u64 n = k % 16 == 13 ? (1ull << (maxk + 2)) >> r.below(2) : large_count(r, k % 8 == 7 ? maxk + 2 : maxk), l = random_limit(n, r);
        if (r.chance(1, 4)) bytes_case(32 * n - r.below(33), r.below(3), what, r);
        else chunks_case(n, l < n ? 0 : l, what, r);
        stats.add("large_trees");
    }
}
// One tree of more than 2^26 chunks (2^27 in the thorough tier): byte counts past 31 (32) bits. Chunks are made by number, so
// that the reference needs no copy of them.
static u64 mem_available() {
    u64 kb = 0;
    if (FILE *f = std::fopen("/proc/meminfo", "r")) { char l[200]; while (std::fgets(l, sizeof l, f)) if (std::sscanf(l, "MemAvailable: %lu", &kb) == 1) break; std::fclose(f); }
    return kb << 10;
}
static void cmd_huge(const Args &a) {
    const u64 seed = a.num("seed", 1), logn = a.num("logn", 26), n = (1ull << logn) + (mix(seed, u64(7)) % 3 ? 1 + mix(seed, u64(7)) % 1000 : 0);
    const std::string what = a.str("what", "root");
    const bool bytes = mix(seed, u64(9)) & 1, cache = what != "root";
    const u64 limit = mix(seed, u64(11)) & 1 ? 0 : 1ull << 40, nbytes = 32 * n - mix(seed, u64(13)) % 32, size = bytes ? nbytes : n;
    const u64 need = 32 * n * (bytes ? 4 : 3) + (cache ? 64 * n : 0) + (2ull << 30);
    if (mem_available() < need) { stats.add("huge_skipped_for_memory"); return; }
    const std::string w = W(size, bytes, limit);
    auto chunk = [&](u64 i) { Hash h; u64 x[4] = {i, seed, i * 0x9e3779b97f4a7c15ull, ~i}; std::memcpy(h.data(), x, 32); if (bytes && i == n - 1) std::memset(h.data() + (32 - (32 * n - nbytes)), 0, 32 * n - nbytes); return h; };
    auto parallel = [](u64 m, auto f) { std::vector<std::thread> ts; const u64 T = 8; for (u64 k = 0; k < T; ++k) ts.emplace_back([=] { f(m * k / T, m * (k + 1) / T); }); for (auto &t : ts) t.join(); };
    crumbf("huge: %s", w.c_str());
    std::unique_ptr<ssz::HashTree> t;
    try {
        if (bytes) {
            Bytes b(nbytes);
            parallel(n, [&](u64 lo, u64 hi) { for (u64 i = lo; i < hi; ++i) { auto h = chunk(i); std::memcpy(b.data() + 32 * i, h.data(), std::min<u64>(32, nbytes - 32 * i)); } });
            t = std::make_unique<ssz::HashTree>(b, limit);
        } else {
            std::vector<Chunk> c(n);
            parallel(n, [&](u64 lo, u64 hi) { for (u64 i = lo; i < hi; ++i) { auto h = chunk(i); std::memcpy(c[i].data(), h.data(), 32); } });
            t = std::make_unique<ssz::HashTree>(c, limit);
        }
    } catch (const std::exception &e) { fail("tree:exception", w + ": " + e.what()); }
    crumbf("huge: %s built", w.c_str());
    const unsigned depth = log2up(limit ? limit : n);
    if (!cache) {  // subtrees of 2^16 chunks, then their roots
        const u64 S = 16, m = (n + (1ull << S) - 1) >> S;
        std::vector<Hash> top(m);
        parallel(m, [&](u64 lo, u64 hi) {
            for (u64 k = lo; k < hi; ++k) {
                std::vector<Hash> l;
                for (u64 i = k << S; i < std::min(n, (k + 1) << S); ++i) l.push_back(chunk(i));
                for (unsigned h = 0; h < S; ++h) { for (u64 i = 0; i < l.size(); i += 2) l[i / 2] = ref::hash2(l[i], i + 1 < l.size() ? l[i + 1] : ref::zero_hash(h)); l.resize((l.size() + 1) / 2); }
                top[k] = l[0];
            }
        });
        for (unsigned h = S; h < depth; ++h) { for (u64 i = 0; i < top.size(); i += 2) top[i / 2] = ref::hash2(top[i], i + 1 < top.size() ? top[i + 1] : ref::zero_hash(h)); top.resize((top.size() + 1) / 2); }
        auto r = t->hash_tree_root();
        if (!same(r, top[0])) fail("tree:root", w + ": root is " + hx(r) + ", should be " + hex(top[0].data(), 32));
        stats.add("roots");
    } else {  // every level from the one below, which has been compared before
        auto got = t->hash_tree();
        u64 below = n, at = 0, prev = 0, total = 0;
        for (unsigned h = 0; h < depth; ++h) total += below = (below + 1) / 2;
        if (got.size() != total) fail("tree:nodes:count", w + fmt(": has %zu nodes, should have %lu", got.size(), total));
        below = n;
        for (unsigned h = 0; h < depth; ++h) {
            const u64 m = (below + 1) / 2;
            crumbf("huge: %s level %u", w.c_str(), h);
            auto child = [&, prev, h, below](u64 i) { if (i >= below) return ref::zero_hash(h); if (h == 0) return chunk(i); Hash x; std::memcpy(x.data(), got[prev + i].data(), 32); return x; };
            std::atomic<u64> bad{~0ull};
            parallel(m, [&](u64 lo, u64 hi) { for (u64 i = lo; i < hi; ++i) if (!same(got[at + i], ref::hash2(child(2 * i), child(2 * i + 1)))) { u64 b = bad; while (i < b && !bad.compare_exchange_weak(b, i)) {} break; } });
            if (bad != ~0ull) fail("tree:nodes:value", w + fmt(": node %lu is ", at + bad.load()) + hx(got[at + bad]) + fmt(", which is not the hash of its children (level %u, place %lu)", h + 1, bad.load()));
            prev = at;
            at += m;
            below = m;
        }
        stats.add("nodes", total);
    }
    stats.add("trees");
    stats.add("huge_trees");
    stats.seen("shapes", fmt("%lu/%lu/%d", size, limit, bytes));
    stats.sample(w);
}
// --- C08 -----------------------------------------------------------------------------------------------------------
static u64 large_count(Rng &r, u64 maxk);
static void cmd_refuse(const Args &a) {
    u64 shard = a.num("shard", 0), shards = a.num("shards", 1);
    Rng r(mix(mix(a.num("seed", 1), "refuse"), shard));
    auto refused = [&](const std::vector<Chunk> *c, const Bytes *b, u64 limit) {
        auto w = c ? W(c->size(), false, limit) : W(b->size(), true, limit);
        crumbf("refuse %s", w.c_str());
        bool ok = false;
        std::string root;
        try {
            Guard g;
            if (c) { ssz::HashTree t{*c, limit}; root = hx(t.hash_tree_root()); } else { ssz::HashTree t{*b, limit}; root = hx(t.hash_tree_root()); }
        } catch (const std::exception &) { ok = true; }
        catch (...) { fail("tree:refuse", w + ": throws something that is no std::exception"); }
        if (!ok) fail("tree:refuse", w + " gives root " + root + " instead of failing");
        stats.add("refusals");
        stats.seen("refused", w);
    };
    static const u64 LS[] = {0, 1, 2, 3, 4, 8, 1024, 1ull << 40, 1ull << 63, ~0ull};
    std::vector<Chunk> none;
    for (u64 l : LS) refused(&none, nullptr, l);
    for (u64 n = 2; n <= a.num("maxn", 140); ++n) {
        if (n % shards != shard) continue;
        std::vector<Chunk> c(n);
        fill(c, r);
        c.shrink_to_fit();
        for (u64 l = 1; l < n; l += n < 40 ? 1 : 1 + r.below(7)) refused(&c, nullptr, l);
        refused(&c, nullptr, n - 1);
        Bytes b(32 * n - r.below(32));
        r.fill(b.data(), b.size());
        for (int k = 0; k < 4; ++k) refused(nullptr, &b, r.range(1, n - 1));
        refused(nullptr, &b, n - 1);
    }
    for (u64 k = shard; k < a.num("random", 300); k += shards) {
        std::vector<Chunk> c(r.range(2, 5000));
        for (auto &x : c) x.fill(std::uint8_t(k));
        refused(&c, nullptr, r.chance(1, 3) ? c.size() - 1 : r.range(1, c.size() - 1));
    }
    for (u64 k = shard; k < 8; k += shards) {
        std::vector<Chunk> c(large_count(r, 18));
        for (u64 l : {c.size() - 1, c.size() / 2, std::size_t(1), std::size_t(65535)}) if (l < c.size()) refused(&c, nullptr, l);
    }
    cmd_tree(a, ROOT | CACHE);  // accepted shapes, watched for memory errors
}
// --- C24 -----------------------------------------------------------------------------------------------------------
// Trees built, copied, moved, exchanged and mixed with lengths in a pool, all of them compared after every step
struct Pooled { std::unique_ptr<ssz::HashTree> t; std::vector<Hash> chunks; u64 limit = 0; std::vector<u64> mixed; bool known = false; };
static void cmd_pool(const Args &a) {
    u64 shard = a.num("shard", 0), shards = a.num("shards", 1);
    static const char *ON[] = {"build", "build from bytes", "copy construct", "copy assign", "move construct", "move assign", "swap", "mix_in", "query", "edit what hash_tree() returned"};
    for (u64 k = shard; k < a.num("random", 2000); k += shards) {
        Rng r(mix(mix(a.num("seed", 1), "tree-pool"), k));
        std::vector<Pooled> pool(2 + r.below(4));
        std::string log = "history:";
        auto build = [&](Pooled &p, bool bytes) {
            u64 n = r.chance(1, 10) ? r.range(1, 400) : r.range(1, 20);
            p.limit = random_limit(n, r);
            if (p.limit && p.limit < n) p.limit = 0;
            if (bytes) {
                Bytes b(32 * n - r.below(32));
                r.fill(b.data(), b.size());
                p.chunks = pack(b);
                p.t = std::make_unique<ssz::HashTree>(b, p.limit);
            } else {
                std::vector<Chunk> c(n);
                fill(c, r);
                p.chunks = hashes(c);
                p.t = std::make_unique<ssz::HashTree>(c, p.limit);
            }
            p.mixed.clear();
            p.known = true;
        };
        auto like = [](Pooled &p, const Pooled &q) { p.chunks = q.chunks; p.limit = q.limit; p.mixed = q.mixed; p.known = q.known; };
        try {
            for (auto &p : pool) build(p, r.chance(1, 2));
            for (u64 s = 0; s < 30; ++s) {
                u64 x = r.below(pool.size()), y = r.below(pool.size());
                auto &p = pool[x];
                auto &q = pool[y];
                int op = int(r.below(10));
                log += fmt(" [%lu %s %lu]", x, ON[op], y);
                crumbf("pool case=%lu %s", k, log.c_str());
                switch (op) {
                    case 0: case 1: build(p, op); break;
                    case 2: if (q.known) { auto n = std::make_unique<ssz::HashTree>(*q.t); auto was = Pooled{nullptr, q.chunks, q.limit, q.mixed, true}; p.t = std::move(n); like(p, was); } break;
                    case 3: if (q.known) { *p.t = *q.t; if (x != y) like(p, q); } break;
                    case 4: if (q.known && x != y) { p.t = std::make_unique<ssz::HashTree>(std::move(*q.t)); like(p, q); q.known = false; } break;
                    case 5: if (q.known && x != y) { *p.t = std::move(*q.t); like(p, q); q.known = false; } break;
                    case 6: if (x != y) { using std::swap; swap(*p.t, *q.t); auto w = Pooled{nullptr, p.chunks, p.limit, p.mixed, p.known}; like(p, q); like(q, w); } break;
                    case 7: if (p.known) { u64 m = random_length(r); p.t->mix_in(m); p.mixed.push_back(m); } break;
                    case 9: if (p.known) { auto v = p.t->hash_tree(); for (auto &c : v) r.fill(c.data(), 32); } break;
                    default: for (auto &z : pool) if (z.known) { (void)z.t->hash_tree_root(); (void)z.t->hash_tree(); }
                }
                stats.add("tree_operations");
                for (std::size_t m = 0; m < pool.size(); ++m) {
                    auto &z = pool[m];
                    if (!z.known) continue;
                    auto e = nodes(z.chunks, z.limit, z.mixed);
                    auto got = z.t->hash_tree();
                    bool ok = got.size() == e.size();
                    for (std::size_t i = 0; ok && i < e.size(); ++i) ok = same(got[i], e[i]);
                    if (!ok) fail("tree:history:nodes", fmt("tree %zu (%zu chunks, limit %lu, %zu lengths mixed in) does not have its nodes any more; ", m, z.chunks.size(), z.limit, z.mixed.size()) + log);
                    if (!same(z.t->hash_tree_root(), e.back())) fail("tree:history:root", fmt("tree %zu has another root; ", m) + log);
                    stats.add("trees_verified");
                }
            }
        } catch (const std::exception &e) { fail("tree:history:exception", log + ": " + e.what()); }
        stats.add("operations", 30);
        stats.seen("histories", log);
        stats.add("cases");
        if (k % 401 == 3) stats.sample(log.substr(0, 400), 3);
    }
}
// --- C26 -----------------------------------------------------------------------------------------------------------
static void cmd_transcript(const Args &a) {
    Rng r(mix(a.num("seed", 1), "tree-transcript"));
    for (u64 k = 0; k < a.num("cases", 150); ++k) {
        u64 n = k < 40 ? k + 1 : r.range(1, 300), l = random_limit(n, r);
        if (l && l < n) l = 0;
        std::vector<Chunk> c(n);
        fill(c, r);
        crumbf("transcript %s", W(n, false, l).c_str());
        ssz::HashTree t{c, l};
        t.mix_in(random_length(r));
        auto v = t.hash_tree();
        printf("T tree %lu n=%lu limit=%lu nodes=%zu all=%016lx root=%s\n", k, n, l, v.size(), (unsigned long)hash64(v.data(), 32 * v.size()), hx(t.hash_tree_root()).c_str());
        stats.add("operations");
    }
}
// --- C27 -----------------------------------------------------------------------------------------------------------
static void cmd_alloc(const Args &a) {
    if (!alloc_stats) broken("not linked with the allocation hooks");
    auto &A = *alloc_stats();
    u64 shard = a.num("shard", 0), shards = a.num("shards", 1), KB = a.num("per_byte", 300), KC = a.num("allocs_per_byte", 2);
    Rng r(mix(mix(a.num("seed", 1), "tree-alloc"), shard));
    for (u64 k = shard; k < a.num("random", 3000); k += shards) {
        u64 n = k < 200 ? k : k / shards % 400 == 1 ? r.range(65000, 300000) : r.chance(1, 20) ? r.below(40000) : r.below(500), l = k % 3 == 0 ? r.next() >> r.below(64) : random_limit(std::max<u64>(n, 1), r);
        std::vector<Chunk> c(n);
        fill(c, r);
        crumbf("alloc %s", W(n, false, l).c_str());
        AllocStats s = A;
        bool ok = true;
        try { ssz::HashTree t{c, l}; t.mix_in(n); (void)t.hash_tree_root(); } catch (const std::exception &) { ok = false; }
        u64 b = A.bytes - s.bytes, m = A.count - s.count;
        if (b > 16384 + KB * 32 * n) fail("alloc:tree:bytes", W(n, false, l) + fmt(" allocates %lu bytes", b));
        if (m > 64 + KC * 32 * n) fail("alloc:tree:count", W(n, false, l) + fmt(" makes %lu allocations", m));
        if (A.live_bytes != s.live_bytes || A.live_count != s.live_count) fail("alloc:tree:leak", W(n, false, l) + fmt(": %ld bytes are still allocated after it is gone (%s)", long(A.live_bytes - s.live_bytes), ok ? "built" : "refused"));
        if (n > 100) { auto &x = stats.n["max_tree_alloc_bytes_per_chunk"]; x = std::max(x, b / n); }
        stats.add(ok ? "trees" : "refused");
        stats.seen("inputs", fmt("%lu/%lu", n, l));
        stats.add("cases");
    }
    stats.sample("trees of up to 40000 chunks, limits up to 2^64-1");
}
// --- C29 -----------------------------------------------------------------------------------------------------------
static void cmd_work(const Args &a) {
    u64 shard = a.num("shard", 0), shards = a.num("shards", 1);
    const Linear K{a.num("branches", 10), a.num("moved", 100)};
    Rng r(mix(mix(a.num("seed", 1), "tree-work"), shard));
    for (u64 k = shard; k < a.num("random", 3000); k += shards) {
        u64 n = k < 200 ? k + 1 : k / shards % 100 == 1 ? r.range(65000, 300000) : r.chance(1, 20) ? r.range(1, 40000) : r.range(1, 500), l = k % 3 == 0 ? r.next() >> r.below(64) : random_limit(n, r);
        crumbf("work %s", W(n, k & 1, l).c_str());
        bool ok = false;
        if (k & 1) {
            Bytes b(32 * n - r.below(32));
            r.fill(b.data(), std::min<u64>(b.size(), 4000));
            measured("tree", "tree", W(b.size(), true, l), 32 * n, K, [&] { ssz::HashTree t{b, l}; t.mix_in(n); (void)t.hash_tree_root(); (void)t.hash_tree(); ok = true; });
        } else {
            std::vector<Chunk> c(n);
            fill(c, r);
            measured("tree", "tree", W(n, false, l), 32 * n, K, [&] { ssz::HashTree t{c, l}; t.mix_in(n); (void)t.hash_tree_root(); (void)t.hash_tree(); ok = true; });
        }
        stats.add(ok ? "trees" : "refused");
        stats.seen("inputs", fmt("%lu/%lu", n, l));
        stats.add("cases");
    }
    stats.sample("trees of up to 300000 chunks, limits up to 2^64-1");
}
int main(int argc, char **argv) {
    Args a(argc, argv);
    ref::sha_selftest();
    if (a.cmd == "root") cmd_tree(a, ROOT);
    else if (a.cmd == "cache") cmd_tree(a, CACHE);
    else if (a.cmd == "refuse") cmd_refuse(a);
    else if (a.cmd == "pool") cmd_pool(a);
    else if (a.cmd == "huge") cmd_huge(a);
    else if (a.cmd == "transcript") cmd_transcript(a);
    else if (a.cmd == "alloc") cmd_alloc(a);
    else if (a.cmd == "work") cmd_work(a);
    else broken("unknown command " + a.cmd);
    stats.print();
    return 0;
}
