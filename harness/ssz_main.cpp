// Behavioural monitors of the SSZ layer: every command drives the real types and compares what they do with the
// reference model in ref.cpp.
#include <atomic>
#include <sstream>
#include <thread>

#include "guided.hpp"
#include "ssz_util.hpp"
#include "work.hpp"

struct AllocStats { u64 count, bytes, live_count, live_bytes, peak; };
extern "C" AllocStats *alloc_stats() __attribute__((weak));
void cmd_badyaml(const Args &);
void cmd_predicates(const Args &);

static long pick_budget(Rng &r, u64 i) {
    if (ref::big_values) return big_budget(r);
    if (i == 0) return 30;
    switch (r.below(40)) {
        case 0: return 20000;
        case 1: case 2: return 4000;
        case 3: case 4: case 5: case 6: return 1500;
        default: return r.chance(1, 2) ? 60 : 400;
    }
}
static std::string where(const Ops &t, const Val &v, int way = -1) { return t.name + (way >= 0 ? std::string(" ") + WAY[way] : "") + ", value " + ref::show(*t.desc, v, 600); }
static void note(const Ops &t, const Val &v, const Bytes &enc, const char *what = "") {
    stats.seen("values", mix(hash64(enc.data(), enc.size()), t.name));
    stats.add("bytes", enc.size());
    if (stats.n["cases"] % 211 == 7) stats.sample(std::string(what) + t.name + " " + ref::show(*t.desc, v, 120), 8);
}

// --- C09 -----------------------------------------------------------------------------------------------------------
static void cmd_ser(const Args &a) {
    each(a, [&](const Ops &t, u64 i, Rng &r) {
        Val v = ref::gen(*t.desc, r, pick_budget(r, i));
        int way = int(i % WAYS);
        Obj o(t, int(r.below(256)));
        if (!put(o, v, way, r)) { stats.add("not_put"); return; }
        Bytes e = ref::ser(*t.desc, v);
        auto check = [&](const char *what) {
            Bytes s = valid("ser:" + t.cls, where(t, v, way), [&] { return o.c().serialize(); });
            if (s != e) fail("ser:" + t.cls, where(t, v, way) + ": " + what + " gives " + diff(s, e) + " (expected)");
            stats.add("serializations");
        };
        check("serialize()");
        u64 z = o.c().get_ssz_size(), want = ref::fixed(*t.desc) ? ref::size(*t.desc) : 0;
        if (z != want) fail("size:" + t.cls, where(t, v) + fmt(": get_ssz_size() is %lu, should be %lu", z, want));
        check("a second serialize()");
        if (!holds(o, v)) fail("ser:" + t.cls + ":changed", where(t, v, way) + ": serialize() changed the object");
        note(t, v, e);
        stats.add(std::string("way_") + std::to_string(way));
    }, 100);
}
// --- C10 -----------------------------------------------------------------------------------------------------------
static void cmd_roundtrip(const Args &a) {
    each(a, [&](const Ops &t, u64 i, Rng &r) {
        Val v = ref::gen(*t.desc, r, pick_budget(r, i));
        Bytes e = ref::ser(*t.desc, v);
        // the bytes lie anywhere in a larger buffer; what surrounds them is arbitrary
        std::size_t pre = i % 3 == 0 ? 0 : r.below(70), post = i % 3 == 0 ? 0 : r.below(70);
        Bytes buf(pre + e.size() + post);
        r.fill(buf.data(), buf.size());
        std::copy(e.begin(), e.end(), buf.begin() + std::ptrdiff_t(pre));
        const Bytes snap = buf;
        Obj o(t, int(r.below(256)));
        std::string held = "fresh object";
        for (u64 k = i % 4 ? r.below(3) : 0; k--;) {
            Val w = ref::gen(*t.desc, r, pick_budget(r, i));
            if (put(o, w, int(r.below(WAYS)), r)) held = "object that held " + ref::show(*t.desc, w, 200);
            if (r.chance(1, 2)) (void)o.c().hash_tree_root();
        }
        if (r.chance(1, 6)) { std::string w; (void)o.deser(ref::mutant(*t.desc, r, 60, w)); held += ", then a decoding of " + w; }
        auto first = snap.cbegin() + std::ptrdiff_t(pre);
        bool ok = valid("roundtrip:" + t.cls, where(t, v) + " into a " + held, [&] { return o.c().deserialize(first, first + std::ptrdiff_t(e.size())); });
        if (!ok) fail("roundtrip:" + t.cls + ":refused", where(t, v) + " into a " + held + ": deserialize() refused its encoding " + hex(e, 600));
        if (snap != buf) fail("roundtrip:" + t.cls + ":input", where(t, v) + ": deserialize() changed its input");
        if (!holds(o, v)) { Val w; o.o->read(o.mem, w, *t.desc); fail("roundtrip:" + t.cls + ":value", where(t, v) + " into a " + held + ": decoded value reads " + ref::show(*t.desc, w, 600)); }
        Bytes s = valid("roundtrip:" + t.cls, where(t, v), [&] { return o.c().serialize(); });
        if (s != e) fail("roundtrip:" + t.cls + ":bytes", where(t, v) + " into a " + held + ": serializes again to " + diff(s, e) + " (expected)");
        Obj p(t);
        if (put(p, v, BUILD, r)) { stats.add("compared"); if (!o.eq(p) || !p.eq(o)) fail("roundtrip:" + t.cls + ":equal", where(t, v) + " into a " + held + ": not equal to the original"); }
        stats.add("decodings");
        note(t, v, e);
    }, 100);
}
// --- C11 -----------------------------------------------------------------------------------------------------------
void accept_case(const Ops &t, Obj &o, const Bytes &b, const std::string &what, bool exact) {
    Val v;
    std::string why;
    bool want = ref::deser(*t.desc, b, v, &why);
    bool got = valid("accept:" + t.cls, t.name + " given " + hex(b, 700) + " (" + what + ")", [&] { return exact ? o.deser(b) : o.c().deserialize(b.cbegin(), b.cend()); });
    if (got && !want) fail("accept:" + t.cls + ":" + why, t.name + " accepts " + hex(b, 700) + " (" + what + "), which is no encoding: " + why);
    if (!got && want) fail("accept:" + t.cls + ":refuses", t.name + " refuses " + hex(b, 700) + " (" + what + "), the encoding of " + ref::show(*t.desc, v, 300));
    if (got) {
        Bytes s = valid("accept:" + t.cls, t.name, [&] { return o.c().serialize(); });
        if (s != b) fail("accept:" + t.cls + ":reencode", t.name + " accepts " + hex(b, 700) + " (" + what + ") but serializes to " + diff(s, b));
        if (!holds(o, v)) fail("accept:" + t.cls + ":value", t.name + " accepts " + hex(b, 700) + " but does not hold its value");
        stats.add("accepted");
    } else { stats.add("refused"); stats.seen("refusal_reasons", t.cls + why); }
    stats.seen("inputs", mix(hash64(b.data(), b.size()), t.name));
}
static void cmd_accept(const Args &a) {
    u64 inner = a.num("inner", 20);
    each(a, [&](const Ops &t, u64 i, Rng &r) {
        Obj o(t);
        if (i < 8) {  // short strings: all of up to two bytes for small types, then small words; an eighth of them each
            bool tiny = !ref::fixed(*t.desc) || ref::size(*t.desc) <= 3;
            accept_case(t, o, {}, "empty");
            for (unsigned x = unsigned(i); x < 256 && tiny; x += 8) accept_case(t, o, {std::uint8_t(x)}, "one byte");
            for (unsigned x = unsigned(i); x < 65536 && tiny; x += (t.desc->kind == ref::CONTAINER ? 776 : 8)) accept_case(t, o, {std::uint8_t(x), std::uint8_t(x >> 8)}, "two bytes");
            if (!ref::fixed(*t.desc)) for (unsigned n = 3; n < 14; ++n) for (unsigned x = unsigned(i); x < 40; x += 8) { Bytes b(n, 0); b[0] = std::uint8_t(x); if (n > 4) b[4] = std::uint8_t(r.below(n + 2)); accept_case(t, o, b, "short"); }
            // every length around the fixed size
            if (ref::fixed(*t.desc) && ref::size(*t.desc) < 3000) { u64 z = ref::size(*t.desc); for (u64 n = i; n <= 2 * z + 40; n += 8) if (n + 12 > z || z < 200 || n / 8 % (1 + z / 480) == 0) accept_case(t, o, Bytes(n, 0), "zeros"); }
        }
        for (u64 k = 0; k < (ref::big_values ? 2 : inner); ++k) {
            std::string what;
            Bytes b = ref::mutant(*t.desc, r, ref::big_values ? big_budget(r) : r.chance(1, 40) ? 1500 : 80, what);
            crumbf("accept type=%s case=%lu/%lu %s %s", t.name.c_str(), i, k, what.c_str(), hex(b, 2000).c_str());
            if (r.chance(1, 4)) { Obj p(t, int(r.below(256))); accept_case(t, p, b, what); } else accept_case(t, o, b, what);
            stats.add("mutants");
            if (stats.n["mutants"] % 4001 == 5) stats.sample(t.name + " " + what + " " + hex(b, 60), 8);
        }
    }, 60);
}
// --- C12 -----------------------------------------------------------------------------------------------------------
static void cmd_fuzz(const Args &a) {
    u64 inner = a.num("inner", 12);
    each(a, [&](const Ops &t, u64 i, Rng &r) {
        Obj o(t, int(r.below(256)));
        for (u64 k = 0; k < (ref::big_values ? 2 : inner); ++k) {
            std::string what;
            Bytes b;
            if (!ref::big_values && r.chance(1, 6)) {  // another type's encoding
                auto &q = types[r.below(types.size())];
                if (ref::fixed(*q.desc) && ref::size(*q.desc) > 20000) continue;
                b = ref::mutant(*q.desc, r, 60, what);
                what = "of " + q.name + " " + what;
            } else b = ref::mutant(*t.desc, r, ref::big_values ? big_budget(r) : r.chance(1, 40) ? 3000 : 100, what);
            crumbf("fuzz type=%s case=%lu/%lu %s %s", t.name.c_str(), i, k, what.c_str(), hex(b, 2000).c_str());
            bool ok = valid("fuzz:" + t.cls, t.name + " given " + hex(b, 700), [&] { return o.deser(b); });
            stats.add(ok ? "accepted" : "refused");
            stats.seen("inputs", mix(hash64(b.data(), b.size()), t.name));
            // whatever happened the object can be used
            valid("fuzz:after:" + t.cls, t.name + " after " + hex(b, 700), [&] {
                auto s = o.c().serialize();
                Obj c(o);
                bool e = o.eq(c);
                (void)e;
                if (r.chance(1, 3)) {
                    Val v = ref::gen(*t.desc, r, 40);
                    Bytes enc = ref::ser(*t.desc, v);
                    if (!o.deser(enc) || o.c().serialize() != enc) fail("fuzz:reuse:" + t.cls, t.name + ": after decoding " + hex(b, 700) + " a valid encoding is not decoded");
                    stats.add("reused");
                }
                stats.add("used_afterwards");
            });
            if (stats.n["refused"] % 3001 == 5) stats.sample(t.name + " " + what + " " + hex(b, 60), 8);
        }
    }, 60);
}
// --- C13 -----------------------------------------------------------------------------------------------------------
static void cmd_root(const Args &a) {
    each(a, [&](const Ops &t, u64 i, Rng &r) {
        Val v = ref::gen(*t.desc, r, pick_budget(r, i));
        int way = int(i % WAYS);
        Obj o(t, int(r.below(256)));
        if (!put(o, v, way, r)) { stats.add("not_put"); return; }
        auto e = ref::root(*t.desc, v);
        auto check = [&](const Desc &d, const Val &x, const ref::Hash &h, const char *what) {
            auto c = valid("root:" + t.cls, where(t, x, way), [&] { return o.c().hash_tree_root(); });
            if (!same_root(c, h)) fail("root:" + t.cls, where(t, x, way) + ": hash_tree_root" + what + " is " + rhex(c) + ", should be " + rhex(h));
            (void)d;
            stats.add("roots");
        };
        std::function<void(Val &, Rng &)> held;  // a reference into the object from before any root was computed
        if (r.chance(1, 2)) held = t.hold(o.mem, v, *t.desc, r);
        check(*t.desc, v, e, "");
        check(*t.desc, v, e, " computed again");
        if (!holds(o, v)) fail("root:" + t.cls + ":changed", where(t, v, way) + ": hash_tree_root() changed the object");
        for (u64 k = held ? 1 + r.below(3) : 0; k--;) {
            Val w = v;
            try { held(w, r); } catch (const std::exception &) { break; }
            if (!holds(o, w)) { stats.add("not_put"); break; }
            v = w;
            check(*t.desc, v, ref::root(*t.desc, v), " after an edit through a reference held since before");
            stats.add("edited_by_reference");
        }
        for (u64 k = r.below(4); k--;) {  // and after edits in place
            Val w = v;
            try { o.o->edit(o.mem, w, *t.desc, r); } catch (const std::exception &) { break; }
            if (!holds(o, w)) { stats.add("not_put"); break; }
            v = w;
            check(*t.desc, v, ref::root(*t.desc, v), " after an edit in place");
            stats.add("edited");
        }
        if (t.limited && r.chance(1, 3)) {
            u64 n = u64(t.count(o.mem)), l = std::max<u64>(n, 1) + r.below(300);
            if (r.chance(1, 4)) l = std::max(l, u64(1) << (20 + r.below(20)));
            if (holds(o, v)) {
                Desc d = *t.desc;
                d.n = l;
                o.o->set_limit(o.mem, l);
                check(d, v, ref::root(d, v), fmt(" with the limit set to %lu", l).c_str());
                stats.add("relimited");
            }
        }
        note(t, v, ref::ser(*t.desc, v));
    }, 100);
}
// --- C28 -----------------------------------------------------------------------------------------------------------
void tree_case_obj(const Ops &t, Obj &o, const Desc &d, const Val &v, const std::string &w) {
    auto e = ref::tree_nodes(d, v);
    auto got = valid("objtree:" + t.cls, w, [&] { return t.tree(o.mem); });
    if (got.size() != e.size()) fail("objtree:count:" + t.cls, w + fmt(": the tree has %zu nodes, should have %zu", got.size(), e.size()));
    for (std::size_t i = 0; i < e.size(); ++i)
        if (!same_root(got[i], e[i])) fail("objtree:node:" + t.cls, w + fmt(": node %zu of %zu is ", i, e.size()) + rhex(got[i]) + ", should be " + rhex(e[i]));
    if (!same_root(o.c().hash_tree_root(), e.back())) fail("objtree:root:" + t.cls, w + ": the last node is not the hash tree root");
    stats.add("trees");
    stats.add("nodes", e.size());
}
static void cmd_objtree(const Args &a) {
    each(a, [&](const Ops &t, u64 i, Rng &r) {
        if (!t.tree) { stats.add("no_tree"); return; }
        Val v = ref::gen(*t.desc, r, pick_budget(r, i));
        int way = int(i % WAYS);
        Obj o(t, int(r.below(256)));
        if (!put(o, v, way, r)) { stats.add("not_put"); return; }
        std::function<void(Val &, Rng &)> held;
        if (r.chance(1, 2)) held = t.hold(o.mem, v, *t.desc, r);
        tree_case_obj(t, o, *t.desc, v, where(t, v, way));
        if (r.chance(1, 4)) tree_case_obj(t, o, *t.desc, v, where(t, v, way) + " (again)");
        if (!holds(o, v)) fail("objtree:changed:" + t.cls, where(t, v, way) + ": hash_tree() changed the object");
        for (u64 k = held ? 1 + r.below(2) : 0; k--;) {
            Val w = v;
            try { held(w, r); } catch (const std::exception &) { break; }
            if (!holds(o, w)) { stats.add("not_put"); break; }
            v = w;
            tree_case_obj(t, o, *t.desc, v, where(t, v, way) + " (edited through a reference held since before)");
            stats.add("edited_by_reference");
        }
        for (u64 k = r.below(3); k--;) {
            Val w = v;
            try { o.o->edit(o.mem, w, *t.desc, r); } catch (const std::exception &) { break; }
            if (!holds(o, w)) { stats.add("not_put"); break; }
            v = w;
            tree_case_obj(t, o, *t.desc, v, where(t, v, way) + " (edited in place)");
            stats.add("edited");
        }
        if (t.limited && r.chance(1, 3) && holds(o, v)) {
            u64 n = u64(t.count(o.mem)), l = std::max<u64>(n, 1) + r.below(300);
            if (r.chance(1, 4)) l = std::max(l, u64(1) << (20 + r.below(20)));
            Desc d = *t.desc;
            d.n = l;
            o.o->set_limit(o.mem, l);
            tree_case_obj(t, o, d, v, where(t, v, way) + fmt(" (limit set to %lu)", l));
            stats.add("relimited");
        }
        note(t, v, ref::ser(*t.desc, v));
    }, 100);
}
// --- C14 -----------------------------------------------------------------------------------------------------------
static void cmd_yaml(const Args &a) {
    each(a, [&](const Ops &t, u64 i, Rng &r) {
        Val v = ref::gen(*t.desc, r, pick_budget(r, i) / (ref::big_values ? 4 : 2) + 10);
        Obj o(t, int(r.below(256)));
        auto dirty = [&](Obj &p) { if (r.chance(1, 2)) { Val w = ref::gen(*t.desc, r, 60); put(p, w, int(r.below(3)), r); } };
        int style = int(r.below(16));
        std::string text = ref::yaml(*t.desc, v, style);
        auto decode = [&](Obj &p, const YAML::Node &n, const char *what) {
            bool ok = valid("yaml:decode:" + t.cls, where(t, v) + " from " + what, [&] { return p.c().decode(n); });
            if (!ok) fail("yaml:decode:" + t.cls, where(t, v) + ": decode() refuses " + what + ": " + text.substr(0, 600));
            if (!holds(p, v)) { Val w; p.o->read(p.mem, w, *t.desc); fail("yaml:decode:" + t.cls, where(t, v) + ": from " + what + " decodes to " + ref::show(*t.desc, w, 400)); }
            stats.add("decodings");
        };
        {
            Obj p(t, int(r.below(256)));
            dirty(p);
            decode(p, YAML::Load(text), "the consensus test format");
        }
        if (!put(o, v, i % 2 ? BUILD : DECODE, r)) { stats.add("not_put"); return; }
        auto n = valid("yaml:encode:" + t.cls, where(t, v), [&] { return o.c().encode(); });
        auto m = node_mismatch(*t.desc, v, n);
        if (!m.empty()) fail("yaml:encode:" + t.cls, where(t, v) + ": encode() differs at " + m);
        stats.add("encodings");
        { Obj p(t, int(r.below(256))); dirty(p); decode(p, n, "its own node"); if (!o.eq(p)) fail("yaml:equal:" + t.cls, where(t, v) + ": the object decoded from its node is not equal"); }
        YAML::Emitter em;
        em << n;
        std::string out = em.c_str();
        auto back = YAML::Load(out);
        m = node_mismatch(*t.desc, v, back);
        if (!m.empty()) fail("yaml:emit:" + t.cls, where(t, v) + ": emitted text differs at " + m);
        { Obj p(t, int(r.below(256))); dirty(p); decode(p, back, "its emitted text"); }
        if (t.as) {
            Obj p(t, int(r.below(256)));
            dirty(p);
            valid("yaml:as:" + t.cls, where(t, v), [&] { t.as(p.mem, back); });
            if (!holds(p, v)) fail("yaml:as:" + t.cls, where(t, v) + ": as<>() gives another value");
            stats.add("decodings");
        }
        if (!holds(o, v)) fail("yaml:encode:" + t.cls + ":changed", where(t, v) + ": encode() changed the object");
        note(t, v, ref::ser(*t.desc, v));
        if (stats.n["cases"] % 500 == 3) stats.sample(text, 8);
    }, 60);
}
// --- C17 -----------------------------------------------------------------------------------------------------------
static void cmd_eq(const Args &a) {
    each(a, [&](const Ops &t, u64 i, Rng &r) {
        Val v = ref::gen(*t.desc, r, ref::big_values ? big_budget(r) / 2 : i % 10 == 9 ? 1500 : 60);
        Obj x(t, int(r.below(256)));
        if (!put(x, v, int(r.below(WAYS)), r)) { stats.add("not_put"); return; }
        auto pair = [&](Obj &p, Obj &q, const Val &pv, const Val &qv, const std::string &what) {
            bool want = pv == qv;
            bool e = valid("eq:" + t.cls, t.name, [&] { return p.eq(q); }), n = valid("eq:" + t.cls, t.name, [&] { return p.ne(q); });
            if (e != want) fail("eq:" + t.cls + (want ? ":unequal" : ":equal"), t.name + (want ? " equal values compare unequal " : " different values compare equal, ") + what + ": " + ref::show(*t.desc, pv, 500) + " and " + ref::show(*t.desc, qv, 500));
            if (n == e) fail("eq:" + t.cls + ":ne", t.name + ": == and != agree on " + what);
            stats.add(want ? "equal_pairs" : "unequal_pairs");
        };
        pair(x, x, v, v, "itself");
        { Obj y(t, int(r.below(256))); if (put(y, v, int(r.below(WAYS)), r)) { pair(x, y, v, v, "same value"); pair(y, x, v, v, "same value"); } }
        // every leaf differs once on small values, otherwise a sample
        std::vector<ref::Leaf> ls;
        std::vector<std::uint32_t> path;
        u64 tries = ref::big_values ? 3 : a.num("leaves", 14);
        ref::leaves(*t.desc, v, ls, path);
        bool all = ls.size() <= 2 * tries;
        for (u64 k = 0; k < (all ? ls.size() : tries); ++k) {
            auto &l = all ? ls[k] : ls[r.below(ls.size())];
            Val w = v;
            std::string what;
            if (!ref::mutate_leaf(*l.d, *ref::at(w, l.path), r, &what)) continue;
            Obj y(t, int(r.below(256)));
            if (!put(y, w, int(r.below(2)), r)) { stats.add("not_put"); continue; }
            what = "differing in leaf " + std::to_string(all ? k : 0) + " of kind " + std::to_string(l.d->kind) + what;
            pair(x, y, v, w, what);
            pair(y, x, w, v, what);
            stats.seen("leaves", mix(mix(hash64(l.path.data(), 4 * l.path.size()), t.name), u64(l.path.size())));
        }
        for (int k = 0; k < 3; ++k) {
            Val w = k == 2 && !ref::big_values ? ref::gen(*t.desc, r, 60) : v;
            std::string what;
            for (u64 q = r.below(3) + 1; q-- && k < 2;) ref::mutate_leaf(*t.desc, w, r, &what);
            Obj y(t, int(r.below(256)));
            if (!put(y, w, int(r.below(WAYS)), r)) { stats.add("not_put"); continue; }
            pair(x, y, v, w, "differing in" + what);
            pair(y, x, w, v, "differing in" + what);
        }
        note(t, v, ref::ser(*t.desc, v));
    }, 60);
}
// --- C24 -----------------------------------------------------------------------------------------------------------
struct Tracked { std::unique_ptr<Obj> o; Val v; bool known = true; u64 limit = 0; };
static Desc own(const Ops &t, const Tracked &s) { Desc d = *t.desc; if (t.ctor_bare) d.n = s.limit; return d; }
static void verify(Tracked &s, const std::string &log) {
    auto &t = *s.o->o;
    if (!s.known) {  // an object some failed decoding left behind: its value is open, but reading does not change it
        auto b = s.o->c().serialize();
        (void)s.o->c().encode();
        if (s.o->c().serialize() != b) fail("history:" + t.cls + ":unstable", t.name + ": serialization changes by reading; " + log);
        return;
    }
    const Desc d = own(t, s);
    auto e = ref::ser(d, s.v);
    auto b = valid("history:" + t.cls, t.name + " " + log, [&] { return s.o->c().serialize(); });
    if (b != e) fail("history:" + t.cls + ":bytes", t.name + ": serialization is " + diff(b, e) + " (expected); " + log);
    auto h = valid("history:" + t.cls, t.name + " " + log, [&] { return s.o->c().hash_tree_root(); });
    if (!same_root(h, ref::root(d, s.v))) fail("history:" + t.cls + ":root", t.name + ": root is not that of the current value " + ref::show(*t.desc, s.v, 300) + "; " + log);
    if (!holds(*s.o, s.v)) fail("history:" + t.cls + ":value", t.name + ": does not hold its current value " + ref::show(*t.desc, s.v, 300) + "; " + log);
    stats.add("states_verified");
    stats.seen("states", mix(hash64(e.data(), e.size()), t.name));
}
void probe(const Ops &t, const void *p, const Val &v, const void *q, const Val &w, const std::string &log);
static void cmd_history(const Args &a) {
    u64 steps = a.num("steps", 25);
    static const char *ON[] = {"decode", "decode mutant", "yaml", "bad yaml", "copy assign", "move assign", "swap", "edit", "copy construct", "move construct", "query", "as", "held edit"};
    each(a, [&](const Ops &t, u64 i, Rng &r) {
        std::vector<Tracked> pool(2 + r.below(3));
        std::string log = "history:";
        // objects of the same limit, or of different ones
        const bool mixed = t.ctor_bare && r.chance(1, 3);
        auto fresh = [&](Tracked &s) {
            const u64 n = t.limit;
            s.limit = !mixed ? n : n < (1ull << 40) ? std::array<u64, 4>{n, n + 1, 2 * n, n + 100}[r.below(4)] : std::array<u64, 3>{n, n / 2, n - 1}[r.below(3)];
            s.o = std::make_unique<Obj>(t, int(r.below(256)), Obj::Limit{s.limit});
            s.v = ref::zero(*t.desc);
            s.known = true;
        };
        for (auto &s : pool) fresh(s);
        if (mixed) stats.add("histories_of_several_limits");
        auto budget = [&]() -> long { return ref::big_values && r.chance(2, 3) ? 70000 : 40; };
        bool heavy = ref::fixed(*t.desc) ? ref::size(*t.desc) > 5000 : t.name == "BeaconState";
        for (u64 k = 0; k < (ref::big_values ? 8 : heavy ? steps / 2 : steps); ++k) {
            u64 x = r.below(pool.size()), y = r.below(pool.size());
            auto &s = pool[x];
            auto &q = pool[y];
            int op = int(r.below(13));
            log += fmt(" [%lu %s %lu]", x, ON[op], y);
            crumbf("history type=%s case=%lu %s", t.name.c_str(), i, log.c_str());
            const Desc d = own(t, s);
            valid("history:" + t.cls, t.name + " " + log, [&] {
                switch (op) {
                    case 0: {
                        Val v = ref::gen(d, r, budget());
                        if (t.name == "IndexedAttestation" && r.chance(1, 2)) {  // as a valid one
                            u64 x = r.below(100);
                            for (auto &e : v.e[0].e) e.u = x += r.range(1, 9);
                        }
                        if (!s.o->deser(ref::ser(d, v))) fail("history:" + t.cls + ":refused", t.name + ": a valid encoding is refused; " + log);
                        s.v = v; s.known = true;
                        break;
                    }
                    case 1: {
                        std::string w;
                        Bytes b = ref::mutant(d, r, budget(), w);
                        if (s.o->deser(b)) { s.known = ref::deser(d, b, s.v); stats.add("mutants_accepted"); } else { s.known = false; stats.add("failed_decodings"); }
                        break;
                    }
                    case 2: case 11: {
                        Val v = ref::gen(d, r, 40);
                        auto n = YAML::Load(ref::yaml(d, v, int(r.below(16))));
                        if (op == 11 && t.as) t.as(s.o->mem, n);
                        else if (!s.o->c().decode(n)) fail("history:" + t.cls + ":refused", t.name + ": valid YAML is refused; " + log);
                        s.v = v; s.known = true;
                        break;
                    }
                    case 3: {
                        YAML::Node n = YAML::Load(ref::yaml(d, ref::gen(d, r, 40), 1));
                        if (d.kind == ref::CONTAINER) n.remove(d.fields[r.below(d.fields.size())].first);
                        else if (n.IsSequence()) n.push_back(YAML::Load("{a: b}"));
                        else n = YAML::Load("zz");
                        bool ok;
                        try { ok = s.o->c().decode(n); } catch (const std::exception &) { ok = false; }
                        s.known = false;
                        stats.add(ok ? "bad_yaml_accepted" : "failed_decodings");
                        break;
                    }
                    case 4: t.copy_assign(s.o->mem, q.o->mem); s.v = Val(q.v); s.known = q.known; s.limit = q.limit; break;
                    case 5: if (x != y) { t.move_assign(s.o->mem, q.o->mem); s.v = q.v; s.known = q.known; s.limit = q.limit; if (mixed) fresh(q); else q.known = false; } break;
                    case 6: if (x != y) { t.swap(s.o->mem, q.o->mem); std::swap(s.v, q.v); std::swap(s.known, q.known); std::swap(s.limit, q.limit); } break;
                    case 7: if (s.known) { t.edit(s.o->mem, s.v, d, r); } break;
                    case 8: { auto n = std::make_unique<Obj>(*q.o); auto v = q.v; bool kn = q.known; s.o = std::move(n); s.v = v; s.known = kn; s.limit = q.limit; break; }
                    case 9: if (x != y) { auto n = std::make_unique<Obj>(*q.o, Obj::Move{}); s.o = std::move(n); s.v = q.v; s.known = q.known; s.limit = q.limit; if (mixed) fresh(q); else q.known = false; } break;
                    case 12: {  // a reference is taken, the object read or copied, and then edited through the reference
                        if (!s.known) break;
                        auto f = t.hold(s.o->mem, s.v, d, r);
                        for (u64 m = 0; m < 3; ++m) {
                            switch (r.below(5)) {
                                case 0: (void)s.o->c().hash_tree_root(); break;
                                case 1: (void)s.o->c().serialize(); break;
                                case 2: (void)s.o->c().encode(); break;
                                case 3: (void)s.o->eq(*q.o); break;
                                default: if (x != y) { t.copy_assign(q.o->mem, s.o->mem); q.v = s.v; q.known = true; q.limit = s.limit; } break;
                            }
                            if (m && r.chance(2, 3)) f(s.v, r);
                        }
                        f(s.v, r);
                        stats.add("held_edits");
                        break;
                    }
                    default: for (auto &z : pool) { (void)z.o->c().serialize(); (void)z.o->c().encode(); if (z.known) (void)z.o->c().hash_tree_root(); }
                }
            });
            stats.add("operations");
            verify(s, log);
            if (y != x) verify(q, log);
            verify(pool[r.below(pool.size())], log);
            for (auto z : {&s, &q}) if (z->known) for (auto &m : pool) if (m.known) probe(t, z->o->mem, z->v, m.o->mem, m.v, log);
            for (std::size_t m = 0; m < pool.size(); ++m)
                for (std::size_t n = 0; n < pool.size() && k % 3 == 0; ++n)
                    if (pool[m].known && pool[n].known && pool[m].o->eq(*pool[n].o) != (pool[m].limit == pool[n].limit && pool[m].v == pool[n].v)) fail("history:" + t.cls + ":equality", t.name + fmt(": objects %zu and %zu compare wrong; ", m, n) + log);
            if (log.size() > 6000) log = "history: (earlier steps left out)";
        }
        if (stats.n["cases"] % 301 == 2) stats.sample(t.name + " " + log, 5);
        stats.seen("histories", log + t.name);
    }, 20);
}
// --- C25 -----------------------------------------------------------------------------------------------------------
static void cmd_default(const Args &a) {
    each(a, [&](const Ops &t, u64 i, Rng &r) {
        static const int P[] = {0xff, 0xa5, 0x01, 0x00, 0x80, 0x5a, 0x7f, 0xfe};
        int poison = i < 8 ? P[i] : int(r.below(256));
        for (int how = 0; how < 2; ++how) {
            crumbf("default type=%s poison=%02x how=%d", t.name.c_str(), poison, how);
            Obj o(t, poison, how ? Obj::VALUE : Obj::DEFAULT);
            Val z = ref::zero(*t.desc);
            std::string w = t.name + fmt(" default constructed (%s) in storage filled with %02x", how ? "T{}" : "T", poison);
            auto e = ref::ser(*t.desc, z);
            auto s = valid("default:" + t.cls, w, [&] { return o.c().serialize(); });
            if (s != e) fail("default:" + t.cls, w + ": serializes to " + diff(s, e) + " (expected)");
            auto h = valid("default:" + t.cls, w, [&] { return o.c().hash_tree_root(); });
            if (!same_root(h, ref::root(*t.desc, z))) fail("default:" + t.cls + ":root", w + ": root " + rhex(h) + ", should be " + rhex(ref::root(*t.desc, z)));
            auto m = valid("default:" + t.cls, w, [&] { return node_mismatch(*t.desc, z, o.c().encode()); });
            if (!m.empty()) fail("default:" + t.cls + ":yaml", w + ": YAML differs at " + m);
            if (!holds(o, z)) fail("default:" + t.cls + ":value", w + ": does not read as zero");
            if (t.count(o.mem) > 0) fail("default:" + t.cls + ":value", w + ": not empty");
            Obj p(t, 0x33);
            if (!o.eq(p) || o.ne(p)) fail("default:" + t.cls + ":equal", w + ": unequal to another one");
            stats.add("objects");
            stats.seen("object", fmt("%s/%d/%d", t.name.c_str(), poison, how));
            if (stats.n["objects"] % 397 == 1) stats.sample(w);
        }
        // without a limit in any memory: as with the limit of 0 that stands for none
        if (t.ctor_bare) {
            Val v = ref::gen(*t.desc, r, 60);
            auto e = ref::ser(*t.desc, v);
            Obj q(t, 0, Obj::Bare{1});
            bool want = q.deser(e);
            for (int how = 0; how < 3; ++how) {
                crumbf("bare type=%s poison=%02x how=%d", t.name.c_str(), poison, how);
                Obj o(t, poison, Obj::Bare{how}), n(t, poison ^ 0xff, Obj::Bare{how});
                std::string w = t.name + fmt(" constructed without a limit (%d) in storage filled with %02x", how, poison);
                if (!o.eq(n) || o.ne(n)) fail("default:" + t.cls + ":bare", w + ": unequal to another one");
                if (t.count(o.mem) > 0) fail("default:" + t.cls + ":bare", w + ": not empty");
                bool got = valid("default:" + t.cls + ":bare", w, [&] { return o.deser(e); });
                if (got != want || !o.eq(q)) fail("default:" + t.cls + ":bare", w + fmt(": decodes %zu elements otherwise (%d) than one with the limit 0 does (%d)", v.e.size(), got, want));
                if (want) {
                    auto h = valid("default:" + t.cls + ":bare", w, [&] { return o.c().hash_tree_root(); });
                    if (!same_root(h, q.c().hash_tree_root())) fail("default:" + t.cls + ":bare", w + ": has another root than one with the limit 0");
                }
                stats.add("bare");
            }
        }
        // elements appended by default in a list that held others before
        if (t.desc->kind == ref::LIST) {
            Obj o(t, poison);
            Val v = ref::gen(*t.desc, r, 60), z;
            put(o, v, DECODE, r);
            for (std::size_t k = 0; k < v.e.size(); ++k) z.e.push_back(ref::zero(*t.desc->elem));
            if (put(o, z, BUILD, r)) stats.add("default_elements", v.e.size());
        }
    }, 12);
}
// --- C26 -----------------------------------------------------------------------------------------------------------
static void cmd_transcript(const Args &a) {
    each(a, [&](const Ops &t, u64 i, Rng &r) {
        Val v = ref::gen(*t.desc, r, i ? 300 : 30);
        Bytes e = ref::ser(*t.desc, v);
        Obj o(t);
        bool ok = o.deser(e);
        auto h = o.c().hash_tree_root();
        auto s = o.c().serialize();
        printf("T ssz %s %lu ok=%d root=%s ser=%016lx eq=%d\n", t.name.c_str(), i, ok, rhex(h).c_str(), (unsigned long)hash64(s.data(), s.size()), o.eq(o));
        stats.add("operations");
        stats.seen("values", mix(hash64(e.data(), e.size()), t.name));
    }, 2);
}
// --- C27 -----------------------------------------------------------------------------------------------------------
static void cmd_alloc(const Args &a) {
    if (!alloc_stats) broken("not linked with the allocation hooks");
    auto &A = *alloc_stats();
    const u64 KB = a.num("per_byte", 300), KC = a.num("allocs_per_byte", 2);
    each(a, [&](const Ops &t, u64 i, Rng &r) {
        long budget = ref::big_values ? big_budget(r) : i % 8 == 7 ? 40000 : i % 8 == 6 ? 5000 : pick_budget(r, i);
        std::string what = "valid ";
        Bytes b = i % 2 ? ref::mutant(*t.desc, r, budget, what) : ref::ser(*t.desc, ref::gen(*t.desc, r, budget));
        u64 base = ref::fixed(*t.desc) ? ref::size(*t.desc) : ref::size(*t.desc), fixedpart = t.size;
        (void)base;
        std::string w = t.name + fmt(" %zu bytes, ", b.size()) + what;
        crumbf("alloc type=%s case=%lu %zu bytes %s %s", t.name.c_str(), i, b.size(), what.c_str(), hex(b, 3000).c_str());
        bool ok = false;
        {
            Obj o(t);
            AllocStats s = A;
            bool threw = false;
            try { ok = o.c().deserialize(b.cbegin(), b.cend()); } catch (...) { threw = true; }
            u64 db = A.bytes - s.bytes, dc = A.count - s.count;
            u64 lb = 16384 + 16 * fixedpart + KB * b.size(), lc = 64 + fixedpart / 8 + KC * b.size();
            if (db > lb) fail("alloc:decode:bytes:" + t.cls, w + fmt(": decoding allocates %lu bytes, more than %lu", db, lb));
            if (dc > lc) fail("alloc:decode:count:" + t.cls, w + fmt(": decoding makes %lu allocations, more than %lu", dc, lc));
            stats.add("decodings"); stats.add("decode_alloc_bytes", db); stats.add("decode_allocs", dc); stats.add("input_bytes", b.size());
            if (b.size() > 200) { auto &m = stats.n["max_decode_alloc_bytes_per_byte_x10"]; m = std::max(m, db * 10 / b.size()); }
            if (b.size() > 200) { auto &m = stats.n["max_decode_allocs_per_byte_x100"]; m = std::max(m, dc * 100 / b.size()); }
            if (ok && !threw) {
                u64 n = b.size() + fixedpart;
                auto hash = [&](const char *name, auto f) {
                    AllocStats q = A;
                    f();
                    u64 hb = A.bytes - q.bytes, hcnt = A.count - q.count;
                    if (hb > 16384 + KB * n) fail("alloc:" + std::string(name) + ":bytes:" + t.cls, w + fmt(": %s allocates %lu bytes, more than %lu", name, hb, 16384 + KB * n));
                    if (hcnt > 64 + KC * n) fail("alloc:" + std::string(name) + ":count:" + t.cls, w + fmt(": %s makes %lu allocations, more than %lu", name, hcnt, 64 + KC * n));
                    if (A.live_bytes != q.live_bytes || A.live_count != q.live_count) fail("alloc:" + std::string(name) + ":leak:" + t.cls, w + fmt(": %s leaves %ld blocks (%ld bytes) allocated", name, long(A.live_count - q.live_count), long(A.live_bytes - q.live_bytes)));
                    if (n > 200) { auto &m = stats.n[std::string("max_") + name + "_alloc_bytes_per_byte_x10"]; m = std::max(m, hb * 10 / n); }
                    stats.add(std::string(name) + "s");
                };
                hash("hash", [&] { (void)o.c().hash_tree_root(); });
                hash("serialize", [&] { (void)o.c().serialize(); });
                if (t.limited) {  // independent of the limit
                    AllocStats q = A;
                    (void)o.c().hash_tree_root();
                    u64 b1 = A.bytes - q.bytes;
                    t.set_limit(o.mem, (1ull << 50));
                    q = A;
                    (void)o.c().hash_tree_root();
                    u64 b2 = A.bytes - q.bytes;
                    if (b2 > 4 * b1 + 32768) fail("alloc:limit:" + t.cls, w + fmt(": hashing allocates %lu bytes with limit %lu but %lu with limit 2^50", b1, t.limit, b2));
                    t.set_limit(o.mem, t.limit);
                    stats.add("limits_compared");
                }
            }
        }
        // YAML and text, good and bad: what a refusal leaves behind
        std::vector<YAML::Node> nodes;
        std::vector<std::string> texts;
        if (!ref::big_values && i % 2 == 0 && !(ref::fixed(*t.desc) && ref::size(*t.desc) > 20000)) {
            Val v = ref::gen(*t.desc, r, 40);
            std::string y = ref::yaml(*t.desc, v, int(r.below(16)));
            nodes.push_back(YAML::Load(y));
            for (int k = 0; k < 3; ++k) {
                std::string z = y;
                std::size_t p = z.find_first_of("0123456789abcdef", r.below(z.size()));
                if (p == z.npos) p = z.find_first_of("0123456789abcdef");
                if (p != z.npos) switch (r.below(4)) { case 0: z[p] = 'z'; break; case 1: z.erase(p, 1); break; case 2: z.insert(p, "0"); break; default: z.insert(p, r.chance(1, 2) ? "[" : "-"); }
                try { nodes.push_back(YAML::Load(z)); } catch (const std::exception &) {}
            }
            for (const char *z : {"[]", "{}", "~", "0x", "''", "\"0x\"", "0x00", "[~]", "{a: b}", "[[]]"}) nodes.push_back(YAML::Load(z));
        }
        if (t.hextext) {
            Val v = ref::gen(*t.desc, r, budget);
            Bytes e = ref::ser(*t.desc, v);
            std::string s = ref::hexstr(e);
            texts = {s, s.substr(0, s.size() - 1), s + "00", s.substr(0, 2), "", "0", "x", s.substr(2), s.substr(0, s.size() / 2), s.substr(0, s.size() - 2) + "00", s + "0000000000", ref::hexstr(Bytes(e.size() + 600, 0)), ref::hexstr(Bytes(e.size() + 600, 1))};
            std::string z = s;
            if (z.size() > 2) { z[2 + r.below(z.size() - 2)] = 'g'; texts.push_back(z); }
        }
        // Everything is given back: nothing of the harness itself allocates in here
        for (int warm = 1; warm >= 0; --warm) {
            AllocStats before = A;
            {
                Obj o(t), q(t);
                try { (void)o.c().deserialize(b.cbegin(), b.cend()); } catch (...) {}
                if (ok) { (void)o.c().hash_tree_root(); (void)o.c().serialize(); }
                if (i % 4 == 0) { try { (void)o.c().encode(); } catch (...) {} try { (void)o.c().decode(YAML::Load("{slot: zz, a: [1]}")); } catch (...) {} }
                for (auto &n : nodes) { try { (void)q.c().decode(n); } catch (const std::exception &) {} if (t.as) { try { t.as(q.mem, n); } catch (const std::exception &) {} } }
                for (auto &s : texts) { try { t.hextext(q.mem, s); } catch (const std::exception &) {} }
                if (t.text) { try { (void)t.text(q.mem); (void)t.text(o.mem); } catch (const std::exception &) {} }
                if (t.print) { try { (void)t.print(q.mem); } catch (const std::exception &) {} }
                if (!nodes.empty()) { try { (void)q.c().encode(); } catch (const std::exception &) {} (void)q.c().serialize(); (void)q.c().hash_tree_root(); }
                if (i % 4 == 1) { Obj p(o); t.move_assign(q.mem, p.mem); t.copy_assign(p.mem, q.mem); (void)o.eq(q); }
                if (i % 4 == 2) { t.copy_assign(q.mem, o.mem); try { (void)q.c().deserialize(b.cbegin(), b.cbegin() + std::ptrdiff_t(b.size() / 2)); } catch (...) {} }
            }
            if (!warm && (A.live_bytes != before.live_bytes || A.live_count != before.live_count)) fail("alloc:leak:" + t.cls, w + fmt(": %ld blocks (%ld bytes) are still allocated after the objects are gone", long(A.live_count - before.live_count), long(A.live_bytes - before.live_bytes)));
            stats.add("leak_checks");
            stats.add("yaml_nodes_decoded", nodes.size());
            stats.add("texts_read", texts.size());
        }
        stats.seen("inputs", mix(hash64(b.data(), b.size()), t.name));
        if (stats.n["cases"] % 301 == 5) stats.sample(w + (ok ? " accepted" : " refused"));
    }, 64);
}
// --- C29 -----------------------------------------------------------------------------------------------------------
void work_predicates(Rng &r, u64 branches);
static bool has_bits(const Desc &d) {
    if (d.kind == ref::BITLIST || d.kind == ref::BITVEC) return true;
    if (d.elem) return has_bits(*d.elem);
    for (auto &f : d.fields) if (has_bits(*f.second)) return true;
    return false;
}
static void cmd_work(const Args &a) {
    const Linear PLAIN{a.num("branches", 40), a.num("moved", 120)}, BITS{a.num("bit_branches", 140), 2 * PLAIN.moved};
    each(a, [&](const Ops &t, u64 i, Rng &r) {
        const Linear K = has_bits(*t.desc) ? BITS : PLAIN;
        bool big = ref::big_values;
        long budget = big ? big_budget(r) : i % 8 == 7 ? 40000 : i % 8 == 6 ? 5000 : pick_budget(r, i);
        std::string what = "valid ";
        Bytes b = i % 3 ? ref::mutant(*t.desc, r, budget, what) : ref::ser(*t.desc, ref::gen(*t.desc, r, budget));
        // very many of the smallest elements, with an unlimited list
        // (not of those whose root is much more work than their encoding is long, for their depth)
        const bool many = t.desc->kind == ref::LIST && !(t.desc->elem->kind == ref::LIST && t.desc->elem->n > 1000000) && (big ? r.chance(1, 3) : i == 1);
        if (many) {
            Val v;
            v.e.assign(ref::fixed(*t.desc->elem) ? 30000 : big ? 40000 : 12000, ref::zero(*t.desc->elem));
            b = ref::ser(*t.desc, v);
            what = fmt("%zu default elements, ", v.e.size());
        }
        std::string w = t.name + fmt(" %zu bytes, ", b.size()) + what;
        crumbf("work type=%s case=%lu %zu bytes %s", t.name.c_str(), i, b.size(), what.c_str());
        const u64 n = b.size() + t.size;
        auto measured = [&](const char *name, u64 size, auto f) { ::measured(t.cls, name, w, size, K, f); };
        Obj o(t), p(t);
        bool ok = false;
        if (many) { t.dtor(o.mem); t.ctor(o.mem, 1ull << 40); t.dtor(p.mem); t.ctor(p.mem, 1ull << 40); }
        measured("decode", n, [&] { ok = o.c().deserialize(b.cbegin(), b.cend()); });
        if (ok) {
            measured("decode_again", 2 * n, [&] { (void)o.c().deserialize(b.cbegin(), b.cend()); });
            measured("serialize", n, [&] { (void)o.c().serialize(); });
            measured("hash", n, [&] { (void)o.c().hash_tree_root(); });
            if (t.tree) measured("tree", n, [&] { (void)t.tree(o.mem); });
            measured("copy", n, [&] { t.copy_assign(p.mem, o.mem); });
            measured("equal", n, [&] { (void)o.eq(p); });
            measured("unequal", n, [&] { (void)o.ne(p); });
            if (t.text) measured("text", n, [&] { (void)t.text(o.mem); });
            if (t.print) measured("print", n, [&] { (void)t.print(o.mem); });
            measured("move", 2 * n, [&] { t.move_assign(p.mem, o.mem); });
            if (t.limited) {
                t.set_limit(p.mem, 1ull << 56);
                measured("hash_limit", n, [&] { (void)p.c().hash_tree_root(); });
                measured("decode_limit", n, [&] { (void)p.c().deserialize(b.cbegin(), b.cend()); });
                t.set_limit(p.mem, t.limit);
            }
            if (!big && !many && b.size() < 60000) {
                YAML::Node y;
                measured("encode", n, [&] { y = o.c().encode(); });
                Obj q(t);
                measured("decode_yaml", n, [&] { (void)q.c().decode(y); });
            }
        }
        if (t.hextext) {
            std::string s = ref::hexstr(b);
            measured("hextext", 2 * n, [&] { t.hextext(p.mem, s); });
        }
        stats.seen("inputs", mix(hash64(b.data(), b.size()), t.name));
        if (stats.n["cases"] % 301 == 5) stats.sample(w + (ok ? " accepted" : " refused"));
    }, 64);
    Rng r(mix(mix(a.num("seed", 1), "work-predicates"), a.num("shard", 0)));
    for (u64 k = a.num("lists", 20); k--;) work_predicates(r, PLAIN.branches / 4);
}
// --- C23 -----------------------------------------------------------------------------------------------------------
struct Shared { const Ops *t; std::unique_ptr<Obj> o; Val v; Bytes enc; ref::Hash root; std::string yaml, text, print; };
void mt_statics(Rng &r);
static std::string emit(const YAML::Node &n) { YAML::Emitter e; e << n; return e.c_str(); }
static void cmd_mt(const Args &a) {
    u64 nt = a.num("threads", 8), ops = a.num("ops", 400), rounds = a.num("rounds", 2), seed = a.num("seed", 1);
    // yaml-cpp is not instrumented: the synchronisation of its own function statics is invisible, so they are made now
    for (auto s : {"true", "no", "Off", "1", "0x10", "x", ".inf", "{a: [1, 2], b: ~}"}) {
        auto n = YAML::Load(s);
        bool b; unsigned u; double d;
        (void)YAML::convert<bool>::decode(n, b); (void)YAML::convert<unsigned>::decode(n, u); (void)YAML::convert<double>::decode(n, d);
        YAML::Emitter e; e << n;
    }
    for (u64 round = 0; round < rounds; ++round) {
        std::vector<std::unique_ptr<Shared>> sh;
        for (auto &t : types) {
            Rng r(mix(mix(mix(seed, "mt"), t.name), round));
            if (ref::fixed(*t.desc) && ref::size(*t.desc) > 20000) continue;
            if (t.name == "BeaconState" && a.num("nostate", 0)) continue;
            auto s = std::make_unique<Shared>();
            s->t = &t;
            s->v = ref::gen(*t.desc, r, 60);
            s->o = std::make_unique<Obj>(t);
            if (!put(*s->o, s->v, int(r.below(2)), r)) { stats.add("not_put"); continue; }
            s->enc = ref::ser(*t.desc, s->v);
            s->root = ref::root(*t.desc, s->v);
            s->yaml = emit(YAML::Load(ref::yaml(*t.desc, s->v, 0)));
            if (t.text) s->text = t.text(s->o->mem);
            if (t.print) s->print = t.print(s->o->mem);
            sh.push_back(std::move(s));
        }
        crumbf("mt round=%lu", round);
        std::atomic<u64> ready{0}, inside{0}, overlaps{0}, total{0}, own{0};
        // Half of the rounds read state as it is first used, the others warm
        std::vector<std::thread> ts;
        for (u64 k = 0; k < nt; ++k)
            ts.emplace_back([&, k] {
                Rng r(mix(mix(seed, "mt-thread"), mix(round, k)));
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
                u64 hot = mix(seed, round) % sh.size();
                for (u64 j = 0; j < ops; ++j) {
                    auto &s = *sh[r.chance(1, 2) ? (hot + j / 8) % sh.size() : r.below(sh.size())];
                    if (inside.fetch_add(1, std::memory_order_relaxed)) overlaps.fetch_add(1, std::memory_order_relaxed);
                    auto bad = [&](const char *what) { fail(std::string("mt:") + what + ":" + s.t->cls, s.t->name + ": " + what + " differs while " + std::to_string(nt) + " threads read, value " + ref::show(*s.t->desc, s.v, 300)); };
                    try {
                        switch (r.below(9)) {
                            case 0: case 1: if (s.o->c().serialize() != s.enc) bad("serialize"); break;
                            case 2: case 3: if (!same_root(s.o->c().hash_tree_root(), s.root)) bad("root"); break;
                            case 4: if (!s.o->eq(*s.o)) bad("equality"); break;
                            case 5: if (!node_mismatch(*s.t->desc, s.v, s.o->c().encode()).empty()) bad("encode"); break;
                            case 6: { if (s.t->text && s.t->text(s.o->mem) != s.text) bad("text"); if (s.t->print && s.t->print(s.o->mem) != s.print) bad("print"); if (!holds(*s.o, s.v)) bad("accessors"); break; }
                            case 7: {  // an object of its own
                                Obj p(*s.t, 0x77);
                                if (!p.deser(s.enc) || p.c().serialize() != s.enc) bad("own decoding");
                                if (!p.eq(*s.o)) bad("comparison with a shared object");
                                Val v = s.v;
                                s.t->edit(p.mem, v, *s.t->desc, r);
                                if (!same_root(p.c().hash_tree_root(), ref::root(*s.t->desc, v))) bad("own edit");
                                if (p.deser(s.enc)) { if (!same_root(p.c().hash_tree_root(), s.root)) bad("own root"); }
                                own.fetch_add(1, std::memory_order_relaxed);
                                break;
                            }
                            default: { Obj p(*s.o); if (p.c().serialize() != s.enc) bad("copy of a shared object"); mt_statics(r); }
                        }
                    } catch (const std::exception &e) { fail("mt:exception:" + s.t->cls, s.t->name + " " + e.what()); }
                    inside.fetch_sub(1, std::memory_order_relaxed);
                    total.fetch_add(1, std::memory_order_relaxed);
                }
            });
        for (auto &t : ts) t.join();
        stats.add("operations", total);
        stats.add("operations_overlapping", overlaps);
        stats.add("own_objects", own);
        stats.add("shared_objects", sh.size());
        stats.add("threads", nt);
        for (auto &s : sh) stats.seen("shared_values", mix(hash64(s->enc.data(), s->enc.size()), s->t->name));
        stats.add("cases");
    }
    stats.sample(fmt("%lu threads x %lu operations on shared objects of every type", nt, ops));
}

// --- values past 2^31 bits and characters (C09, C12, C13, C15) -------------------------------------------------------
static void cmd_colossal(const Args &a) {
    const std::string what = a.str("what", "decode");
    Rng r(mix(mix(a.num("seed", 1), "colossal"), what));
    if (what == "hex") {
        const std::size_t n = (1ull << 31) + 2 + 2 * r.below(50);
        std::string s(n, '0');
        s[1] = 'x';
        for (std::size_t i = 2; i < n; i += 1 + r.below(4000)) s[i] = "0123456789abcdef"[r.below(16)];
        s[n - 1] = '1';
        for (auto &t : types) {
            if (!t.hextext || !((t.cls == "Bitlist" && t.limit == 8) || (t.cls == "Bitvector" && t.desc->n == 17))) continue;
            crumbf("colossal type=%s hex text of %zu characters", t.name.c_str(), n);
            Obj o(t);
            bool ok = true;
            try { t.hextext(o.mem, s); } catch (const std::exception &) { ok = false; }
            catch (...) { fail("colossal:hex:" + t.cls, t.name + fmt(" given %zu characters of hex throws something that is no std::exception", n)); }
            if (ok && t.cls == "Bitlist") fail("colossal:hex:" + t.cls, t.name + fmt(" accepts %zu characters of hex", n));
            stats.add(ok ? "hex_accepted" : "hex_refused");
            stats.add("colossal_texts");
            stats.add("cases");
        }
        stats.sample(fmt("hex text of %zu characters", n));
        return;
    }
    for (auto &t : types) {
        if (t.cls != "Bitlist" || t.limit != 1ull << 40) continue;
        const u64 bits = (1ull << 31) + 1 + r.below(1000);
        Bytes b(bits / 8 + 1);
        r.fill(b.data(), b.size());
        b.back() = std::uint8_t((b.back() & ((1u << bits % 8) - 1)) | 1u << bits % 8);
        const std::string w = t.name + fmt(", %lu bits", bits);
        crumbf("colossal type=%s %lu bits", t.name.c_str(), bits);
        Obj o(t);
        if (!valid("colossal:" + t.cls, w, [&] { return o.c().deserialize(b.cbegin(), b.cend()); })) fail("colossal:refused:" + t.cls, w + " is refused");
        if (u64(t.count(o.mem)) != bits) fail("colossal:count:" + t.cls, w + fmt(": decodes to %ld", t.count(o.mem)));
        crumbf("colossal type=%s %lu bits, decoded", t.name.c_str(), bits);
        if (what != "root" && valid("colossal:" + t.cls, w, [&] { return o.c().serialize(); }) != b) fail("colossal:ser:" + t.cls, w + ": serializes to other bytes");
        crumbf("colossal type=%s %lu bits, serialized", t.name.c_str(), bits);
        if (what != "ser") {
            auto c = valid("colossal:" + t.cls, w, [&] { return o.c().hash_tree_root(); });
            crumbf("colossal type=%s %lu bits, hashed", t.name.c_str(), bits);
            if (what == "root") {
                b.back() = std::uint8_t(b.back() ^ 1u << bits % 8);
                if (bits % 8 == 0) b.pop_back();
                auto e = ref::mix_in(ref::merkleize(ref::pack(b), 1ull << 32), bits);
                if (!same_root(c, e)) fail("colossal:root:" + t.cls, w + ": hash_tree_root is " + rhex(c) + ", should be " + rhex(e));
                stats.add("roots");
            }
        }
        stats.add("colossal_values");
        stats.add("cases");
        stats.sample(w);
    }
}
// Lines for the independent Python model: type, encoding, root
static void cmd_dump(const Args &a) {
    each(a, [&](const Ops &t, u64 i, Rng &r) {
        if (ref::fixed(*t.desc) && ref::size(*t.desc) > 20000) return;
        Val v = ref::gen(*t.desc, r, i % 2 ? 150 : 30);
        auto e = ref::ser(*t.desc, v);
        printf("D %s\t%s\t%s\n", ref::pydesc(*t.desc).c_str(), hex(e).c_str(), rhex(ref::root(*t.desc, v)).c_str());
        stats.add("dumped");
    }, 1);
}

int main(int argc, char **argv) {
    Args a(argc, argv);
    ref::sha_selftest();
    reg_all(types);
    std::map<std::string, void (*)(const Args &)> c = {{"ser", cmd_ser}, {"roundtrip", cmd_roundtrip}, {"accept", cmd_accept}, {"fuzz", cmd_fuzz}, {"root", cmd_root}, {"objtree", cmd_objtree}, {"yaml", cmd_yaml}, {"badyaml", cmd_badyaml}, {"eq", cmd_eq}, {"history", cmd_history}, {"default", cmd_default}, {"transcript", cmd_transcript}, {"alloc", cmd_alloc}, {"work", cmd_work}, {"mt", cmd_mt}, {"dump", cmd_dump}, {"colossal", cmd_colossal}, {"predicates", cmd_predicates}};
#ifdef HC_GUIDED
    c["guided"] = cmd_guided;
#endif
    auto f = c.find(a.cmd);
    if (f == c.end()) broken("unknown command " + a.cmd);
    f->second(a);
    stats.print();
    return 0;
}
