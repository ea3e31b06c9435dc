#include "ssz_util.hpp"

std::vector<Ops> types;
const char *WAY[] = {"built field by field", "decoded", "read from YAML", "converted from YAML", "copied", "edited in place", "moved"};

bool holds(const Obj &o, const Val &v) {
    for (read_view = 0; read_view < 2; ++read_view) {
        Val w;
        bool ok = false;
        try { ok = o.o->read(o.mem, w, *o.o->desc) && w == v; } catch (const std::exception &) {}
        if (ok) { read_view = 0; return true; }
    }
    read_view = 0;
    return false;
}
static bool put1(Obj &o, const Val &v, int way, Rng &r) {
    auto &d = *o.o->desc;
    if (ref::giant_values && (way == YAMLTEXT || way == AS)) way = DECODE;
    try {
        switch (way) {
            case BUILD: o.o->build(o.mem, v, d); break;
            case DECODE: if (!o.deser(ref::ser(d, v))) return false; break;
            case YAMLTEXT: if (!o.c().decode(YAML::Load(ref::yaml(d, v, int(r.below(16)))))) return false; break;
            case AS: if (!o.o->as) return put(o, v, YAMLTEXT, r); o.o->as(o.mem, YAML::Load(ref::yaml(d, v, int(r.below(16))))); break;
            case COPY: { Obj t(*o.o); if (!put(t, v, int(r.below(2)), r)) return false; o.o->copy_assign(o.mem, t.mem); break; }
            case MOVE: { Obj t(*o.o); if (!put(t, v, int(r.below(2)), r)) return false; o.o->move_assign(o.mem, t.mem); break; }
            case EDIT: {  // from a neighbouring value into v by assignment of the whole or of parts
                Val w = v;
                for (u64 k = r.below(3) + 1; k--;) ref::mutate_leaf(d, w, r);
                if (!put(o, w, int(r.below(2)), r)) return false;
                (void)o.c().hash_tree_root();
                o.o->build(o.mem, v, d);
                break;
            }
        }
    } catch (const std::exception &) { return false; }
    return holds(o, v);
}
bool put(Obj &o, const Val &v, int way, Rng &r) {
    if (put1(o, v, way, r)) return true;
    for (int other : {int(YAMLTEXT), int(DECODE), int(BUILD)}) {  // one that works, so that a broken way in hides nothing behind it
        if (other == way || (other == YAMLTEXT && ref::big_values)) continue;
        if (put1(o, v, other, r)) { stats.add("put_otherwise"); return true; }
    }
    return false;
}
static u64 type_cost(const Desc &d) {
    switch (d.kind) {
        case ref::VECTOR: return d.n * type_cost(*d.elem);
        case ref::CONTAINER: { u64 s = 1; for (auto &f : d.fields) s += type_cost(*f.second); return s; }
        case ref::LIST: return 4 * type_cost(*d.elem);
        case ref::BYTES: return 1 + d.n / 64;
        default: return 1;
    }
}
static bool can_be_big(const Desc &d) {
    if (d.kind == ref::BITLIST) return d.n > 65536;
    if (d.kind == ref::LIST) return d.n >= 4096;
    for (auto &f : d.fields) if (f.second->kind == ref::LIST && can_be_big(*f.second)) return true;
    return false;
}
static bool can_be_giant(const Desc &d) {
    if (d.kind == ref::BITLIST) return d.n > 1u << 20;
    if (d.kind == ref::LIST) return ref::fixed(*d.elem) ? d.n >= 1u << 24 : d.n > 2 && d.elem->kind == ref::LIST && can_be_giant(*d.elem);
    for (auto &f : d.fields) if (f.second->kind == ref::LIST && can_be_giant(*f.second)) return true;
    return false;
}
static long big_cap = 1 << 30;
long big_budget(Rng &r) { if (ref::giant_values) return 2600000 + long(r.below(900000)); static const long B[] = {70000, 70000, 140000, 140000, 300000, 300000, 600000}; return std::min(big_cap, B[r.below(7)]); }
void each(const Args &a, const std::function<void(const Ops &, u64, Rng &)> &f, u64 default_iters) {
    u64 seed = a.num("seed", 1), iters = a.num("iters", default_iters), shard = a.num("shard", 0), shards = a.num("shards", 1), budget = a.num("cost", 60000);
    std::string only = a.str("only"), cls = a.str("class");
    bool done = false;
    for (auto &t : types) {
        if (!only.empty() && t.name != only) continue;
        if (!cls.empty() && t.cls != cls) continue;
        u64 n = iters, c = type_cost(*t.desc);
        if (n * c > budget * iters / 100) n = budget * iters / 100 / c;  // cost is per 100 iterations
        if (n < a.num("min", 2)) n = a.num("min", 2);
        for (u64 i = shard; i < n; i += shards) {
            if (a.has("case") && a.num("case", 0) != i) continue;
            Rng r(mix(mix(mix(seed, a.cmd), t.name), i));
            crumbf("%s type=%s case=%lu", a.cmd.c_str(), t.name.c_str(), i);
            f(t, i, r);
            done = true;
            stats.add("cases");
            stats.seen("types", t.name);
        }
    }
    // long values: the same with budgets far past 16 bits, on the types that can hold them
    u64 big = a.num("big", 0), slot = 0;
    big_cap = long(a.num("bigcap", 1 << 30));
    for (auto &t : types) {
        if ((!only.empty() && t.name != only) || (!cls.empty() && t.cls != cls) || !can_be_big(*t.desc)) continue;
        for (u64 i = 0; i < big; ++i, ++slot) {
            if (slot % shards != shard || (a.has("case") && a.num("case", 0) != i)) continue;
            Rng r(mix(mix(mix(seed, a.cmd + "-big"), t.name), i));
            crumbf("%s type=%s big case=%lu", a.cmd.c_str(), t.name.c_str(), i);
            ref::big_values = true;
            f(t, 1000 + i + r.below(64), r);
            ref::big_values = false;
            done = true;
            stats.add("cases");
            stats.add("big_cases");
        }
    }
    // a few of more than 2^24 bytes
    u64 giant = a.num("giant", 0);
    slot = 0;
    for (auto &t : types) {
        if ((!only.empty() && t.name != only) || (!cls.empty() && t.cls != cls) || !can_be_giant(*t.desc)) continue;
        for (u64 i = 0; i < giant; ++i, ++slot) {
            if (slot % shards != shard || (a.has("case") && a.num("case", 0) != i)) continue;
            Rng r(mix(mix(mix(seed, a.cmd + "-giant"), t.name), i));
            crumbf("%s type=%s giant case=%lu", a.cmd.c_str(), t.name.c_str(), i);
            ref::big_values = ref::giant_values = true;
            f(t, 1000 + i + r.below(64), r);
            ref::big_values = ref::giant_values = false;
            done = true;
            stats.add("cases");
            stats.add("giant_cases");
        }
    }
    if (!done && shard == 0) broken("no case was run");
}
std::string node_mismatch(const Desc &d, const Val &v, const YAML::Node &n, const std::string &path) {
    auto scalar = [&](const std::string &s) -> std::string {
        if (!n.IsScalar()) return path + ": not a scalar";
        if (n.Scalar() != s) return path + ": is \"" + n.Scalar().substr(0, 100) + "\", should be \"" + s.substr(0, 100) + "\"";
        return "";
    };
    switch (d.kind) {
        case ref::U64: return scalar(std::to_string(v.u));
        case ref::BOOL: return scalar(v.u ? "true" : "false");
        case ref::BYTES: return scalar(ref::hexstr(v.b));
        case ref::BITVEC: return scalar(ref::hexstr(ref::bits_to_bytes(v.b, false)));
        case ref::BITLIST: return scalar(ref::hexstr(ref::bits_to_bytes(v.b, true)));
        case ref::VECTOR: case ref::LIST: {
            if (!n.IsSequence()) return path + ": not a sequence";
            if (n.size() != v.e.size()) return path + fmt(": %zu elements, should be %zu", n.size(), v.e.size());
            std::size_t i = 0;
            for (auto it = n.begin(); it != n.end(); ++it, ++i) { auto m = node_mismatch(*d.elem, v.e[i], *it, path + fmt("[%zu]", i)); if (!m.empty()) return m; }
            return "";
        }
        case ref::CONTAINER: {
            if (!n.IsMap()) return path + ": not a map";
            if (n.size() != v.e.size()) return path + fmt(": %zu keys, should be %zu", n.size(), v.e.size());
            std::size_t i = 0;
            for (auto it = n.begin(); it != n.end(); ++it, ++i) {
                if (it->first.Scalar() != d.fields[i].first) return path + fmt(": key %zu is \"", i) + it->first.Scalar() + "\", should be \"" + d.fields[i].first + "\"";
                auto m = node_mismatch(*d.fields[i].second, v.e[i], it->second, path + "." + d.fields[i].first);
                if (!m.empty()) return m;
            }
            return "";
        }
    }
    return "";
}
