// Coverage- and comparison-guided search for inputs (libFuzzer's engine) with the monitors of the other commands as
// oracles. Inputs start from the reference's generators and mutators; what reaches new code of /repo, or gets closer to
// passing one of its comparisons, is kept and changed further.
#include "guided.hpp"
#include "ssz_util.hpp"

extern "C" std::size_t LLVMFuzzerMutate(std::uint8_t *d, std::size_t n, std::size_t max);

namespace {
std::vector<const Ops *> mine;
std::string mode;
u64 executions, runs;
const std::size_t MAX = 4096;

struct Stream {
    const std::uint8_t *p, *e;
    u64 word() { u64 v = 0; for (int i = 0; i < 8; ++i) v |= u64(p < e ? *p++ : 0) << 8 * i; return v; }
    std::uint8_t byte() { return p < e ? *p++ : 0; }
    Bytes rest() { return Bytes(p, e); }
};
std::string quote(const std::uint8_t *p, std::size_t n) { return mode + " guided input " + hex(p, n, 700); }

void use(const Ops &t, const Bytes &b) {  // C12
    Obj o(t, 0xa5);
    bool ok = valid("guided:" + t.cls, t.name, [&] { return o.deser(b); });
    stats.add(ok ? "accepted" : "refused");
    valid("guided:after:" + t.cls, t.name + " after " + hex(b, 700), [&] {
        (void)o.c().serialize();
        (void)o.c().hash_tree_root();
        Obj c(o);
        (void)o.eq(c);
        if (b.size() < 700) (void)c.c().encode();
    });
    stats.seen("inputs", mix(hash64(b.data(), b.size()), t.name));
}
void held(const Ops &t, const Bytes &b) {  // values of encodings: C09, C10, C13, C14
    Val v;
    if (!ref::deser(*t.desc, b, v)) return;
    Obj o(t, 0x5a);
    if (mode == "roundtrip") {
        if (!valid("roundtrip:" + t.cls, t.name, [&] { return o.deser(b); })) fail("roundtrip:" + t.cls + ":refused", t.name + " refuses the encoding " + hex(b, 700));
        if (!holds(o, v)) fail("roundtrip:" + t.cls + ":value", t.name + " decoded from " + hex(b, 700) + " does not hold its value");
        stats.add("decoded");
    } else {
        bool ok = false;
        try { ok = o.deser(b) && holds(o, v); } catch (const std::exception &) {}
        if (!ok) { stats.add("not_put"); return; }
        if (mode == "serialize") {
            auto s = valid("ser:" + t.cls, t.name, [&] { return o.c().serialize(); });
            if (s != b) fail("ser:" + t.cls, t.name + " holding " + ref::show(*t.desc, v, 500) + ": " + diff(s, b));
        } else if (mode == "root") {
            auto h = valid("root:" + t.cls, t.name, [&] { return o.c().hash_tree_root(); });
            if (!same_root(h, ref::root(*t.desc, v))) fail("root:" + t.cls, t.name + " holding " + ref::show(*t.desc, v, 500) + ": root is " + rhex(h));
        } else if (mode == "objtree") {
            if (!t.tree) return;
            tree_case_obj(t, o, *t.desc, v, t.name + " holding " + ref::show(*t.desc, v, 500));
        } else if (mode == "yaml") {
            auto n = valid("yaml:encode:" + t.cls, t.name, [&] { return o.c().encode(); });
            auto m = node_mismatch(*t.desc, v, n);
            if (!m.empty()) fail("yaml:encode:" + t.cls, t.name + " holding " + ref::show(*t.desc, v, 500) + ": encode() differs at " + m);
            Obj p(t, 1);
            if (!valid("yaml:decode:" + t.cls, t.name, [&] { return p.c().decode(n); }) || !holds(p, v)) fail("yaml:decode:" + t.cls, t.name + " holding " + ref::show(*t.desc, v, 500) + " is not decoded from its node");
        }
        stats.add("values");
    }
    stats.seen("inputs", mix(hash64(b.data(), b.size()), t.name));
}
int one(const std::uint8_t *data, std::size_t size) {
    if (!size) return 0;
    ++executions;
    crumb(quote(data, size));
    Rng r(hash64(data, size));
    Stream s{data, data + size};
    if (mode == "slashable") {
        auto flags = s.byte();
        Bytes x, y;
        for (int i = 0; i < 128; ++i) x.push_back(s.byte());
        if (flags & 1) { for (int i = 0; i < 128; ++i) y.push_back(s.byte()); }
        else { y = x; while (s.p + 1 < s.e) { auto at = s.byte(); y[at & 127] ^= s.byte(); } }
        pair_of_data(x, y, r);
        return 0;
    }
    if (mode == "indexed") {
        u64 x = s.word();
        std::vector<u64> v{x};
        auto kind = s.byte();
        while (s.p < s.e) { x += kind & 1 ? s.word() : u64(std::int8_t(s.byte())); v.push_back(x); }
        if (kind & 2) v.clear();
        list_of_indices(v, r);
        return 0;
    }
    if (mode == "validator") {
        Bytes b;
        for (int i = 0; i < 121; ++i) b.push_back(s.byte());
        b[88] &= 1;
        std::vector<u64> e;
        while (s.p < s.e && e.size() < 8) e.push_back(s.word());
        for (std::size_t k = 0; k < 4; ++k) { u64 w = 0; for (std::size_t i = 0; i < 8; ++i) w |= u64(b[89 + 8 * k + i]) << 8 * i; e.push_back(w); e.push_back(w - 1); }
        validator_at(b, e, r);
        return 0;
    }
    const Ops &t = *mine[s.byte() % mine.size()];
    if (mode == "badyaml") {
        auto kind = s.byte();
        std::string text(reinterpret_cast<const char *>(s.p), std::size_t(s.e - s.p));
        Obj o(t, kind);
        if (kind % 3 == 0 && t.hextext) hex_text(t, o, text);
        else if (kind % 3 == 1) { Rng q(kind); yaml_leaf(t, o, q, text); }
        else if (!yaml_document(t, o, text)) stats.add("no_yaml");
        return 0;
    }
    Bytes b = s.rest();
    if (mode == "accept") { Obj o(t, 0xa5); accept_case(t, o, b, "guided"); }
    else if (mode == "fuzz") use(t, b);
    else held(t, b);
    return 0;
}
Bytes fresh(Rng &r) {
    Bytes b;
    auto words = [&](u64 n) { for (u64 k = 0; k < n; ++k) { static const u64 B[] = {0, 1, ~0ull, 1ull << 63, 1ull << 32, 32000000000ull}; u64 w = r.chance(1, 3) ? B[r.below(6)] : r.next() >> r.below(64); for (int i = 0; i < 8; ++i) b.push_back(std::uint8_t(w >> 8 * i)); } };
    if (mode == "slashable") { b.push_back(std::uint8_t(r.next())); words(2); for (int i = 0; i < 32; ++i) b.push_back(std::uint8_t(r.next())); words(10); if (b[0] & 1) words(16); else { b.resize(129); for (u64 k = r.below(4); k--;) { b.push_back(std::uint8_t(r.below(128))); b.push_back(std::uint8_t(1 << r.below(8))); } } return b; }
    if (mode == "indexed") { words(1); b.push_back(std::uint8_t(r.chance(1, 2) ? 0 : 1)); if (b.back()) words(r.below(20)); else for (u64 k = r.below(60); k--;) b.push_back(std::uint8_t(r.range(1, 9))); return b; }
    if (mode == "validator") { for (int i = 0; i < 80; ++i) b.push_back(std::uint8_t(r.next())); words(1); b.push_back(std::uint8_t(r.below(2))); words(4 + r.below(6)); return b; }
    auto k = r.below(mine.size());
    auto &t = *mine[k];
    b.push_back(std::uint8_t(k));
    if (mode == "badyaml") {
        b.push_back(std::uint8_t(r.below(252) / 3 * 3 + (t.hextext ? r.below(3) : 1 + r.below(2))));
        std::string text;
        static const char *T[] = {"0", "18446744073709551615", "-1", "true", "0x00", "0x01ff", "~", "12", "[]", "99999999999999999999"};
        Val v = ref::gen(*t.desc, r, 12);
        if (b[1] % 3 == 1) text = T[r.below(10)];
        else text = ref::yaml(*t.desc, v, int(r.below(16)));
        if (b[1] % 3 == 0) while (!text.empty() && (text.back() == '\n' || text.back() == '"' || text.back() == '\'')) text.pop_back();
        if (b[1] % 3 == 0 && !text.empty() && text[0] != '0') text.erase(0, 1);
        b.insert(b.end(), text.begin(), text.end());
    } else {
        std::string what;
        Bytes m = mode == "accept" || mode == "fuzz" ? ref::mutant(*t.desc, r, r.chance(1, 2) ? 8 : 60, what) : ref::ser(*t.desc, ref::gen(*t.desc, r, r.chance(1, 2) ? 8 : 60));
        b.insert(b.end(), m.begin(), m.end());
    }
    return b;
}
}  // namespace

extern "C" std::size_t LLVMFuzzerCustomMutator(std::uint8_t *d, std::size_t n, std::size_t max, unsigned seed) {
    Rng r(mix(seed, executions));
    std::size_t head = mode == "badyaml" ? 2 : mine.empty() ? 0 : 1;
    if (n <= head || r.chance(1, 10)) {
        Bytes b = fresh(r);
        if (b.size() > max) b.resize(max);
        std::copy(b.begin(), b.end(), d);
        return b.size();
    }
    n = head + LLVMFuzzerMutate(d + head, n - head, max - head);
    if (head == 1 && !r.chance(1, 12)) {  // wrong lengths are refused at once: no use having many of them
        auto &t = *mine[d[0] % mine.size()]->desc;
        if (ref::fixed(t) && n != 1 + ref::size(t) && 1 + ref::size(t) <= max) {
            std::size_t want = 1 + ref::size(t);
            for (; n < want; ++n) d[n] = std::uint8_t(r.chance(1, 2) ? 0 : r.next());
            n = want;
        }
    }
    return n;
}
static void finish() {
    stats.add("executions", executions);
    stats.print();
}
// --runs N executions of --mode M; --input HEX runs a single one
void cmd_guided(const Args &a) {
    mode = a.str("mode");
    runs = a.num("runs", 20000);
    u64 shard = a.num("shard", 0), shards = a.num("shards", 1), k = 0;
    bool typed = mode != "slashable" && mode != "indexed" && mode != "validator";
    std::string only = a.str("only");
    if (typed) for (auto &t : types) if ((only.empty() || only == t.name) && !(ref::fixed(*t.desc) && ref::size(*t.desc) > MAX - 100) && k++ % shards == shard) mine.push_back(&t);
    if (typed && mine.empty()) broken("no types");
    if (a.has("input")) {
        auto h = a.str("input");
        Bytes b;
        for (std::size_t i = 0; i + 1 < h.size(); i += 2) b.push_back(std::uint8_t(std::strtoul(h.substr(i, 2).c_str(), nullptr, 16)));
        one(b.data(), b.size());
        return;
    }
    std::atexit(finish);
    drive(one, runs, mix(a.num("seed", 1), shard), MAX);
}
