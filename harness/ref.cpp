#include "ref.hpp"

namespace ref {
using hc::Rng;
bool big_values = false, giant_values = false;
static DescP mk(Desc d) { return std::make_shared<const Desc>(std::move(d)); }
DescP t_u64() { static auto d = mk({U64, 8, nullptr, {}, "uint64"}); return d; }
DescP t_bool() { static auto d = mk({BOOL, 1, nullptr, {}, "boolean"}); return d; }
DescP t_bytes(u64 n) { return mk({BYTES, n, nullptr, {}, hc::fmt("Bytes%lu", n)}); }
DescP t_bitvec(u64 n) { return mk({BITVEC, n, nullptr, {}, hc::fmt("Bitvector[%lu]", n)}); }
DescP t_bitlist(u64 n) { return mk({BITLIST, n, nullptr, {}, hc::fmt("Bitlist[%lu]", n)}); }
DescP t_vector(DescP e, u64 n) { return mk({VECTOR, n, e, {}, hc::fmt("Vector[%s,%lu]", e->name.c_str(), n)}); }
DescP t_list(DescP e, u64 n) { return mk({LIST, n, e, {}, hc::fmt("List[%s,%lu]", e->name.c_str(), n)}); }
DescP t_container(std::string name, std::vector<std::pair<std::string, DescP>> f) { return mk({CONTAINER, 0, nullptr, std::move(f), std::move(name)}); }

static bool basic(const Desc &d) { return d.kind == U64 || d.kind == BOOL; }
bool fixed(const Desc &d) {
    switch (d.kind) {
        case BITLIST: case LIST: return false;
        case VECTOR: return fixed(*d.elem);
        case CONTAINER: for (auto &f : d.fields) if (!fixed(*f.second)) return false; return true;
        default: return true;
    }
}
u64 size(const Desc &d) {
    switch (d.kind) {
        case U64: return 8;
        case BOOL: return 1;
        case BYTES: return d.n;
        case BITVEC: return (d.n + 7) / 8;
        case VECTOR: return d.n * size(*d.elem);
        case CONTAINER: { u64 s = 0; for (auto &f : d.fields) s += size(*f.second); return s; }
        default: return 0;
    }
}
Bytes bits_to_bytes(const Bytes &bits, bool delim) {
    Bytes r((bits.size() + (delim ? 1 : 0) + 7) / 8, 0);
    for (std::size_t i = 0; i < bits.size(); ++i) if (bits[i]) r[i >> 3] = std::uint8_t(r[i >> 3] | 1u << (i & 7));
    if (delim) r[bits.size() >> 3] = std::uint8_t(r[bits.size() >> 3] | 1u << (bits.size() & 7));
    return r;
}
static void put32(Bytes &b, u64 v) { for (int i = 0; i < 4; ++i) b.push_back(std::uint8_t(v >> 8 * i)); }
static void ser_to(const Desc &d, const Val &v, Bytes &o, std::vector<Mark> *m = nullptr);
static void ser_seq(const std::vector<const Desc *> &ds, const std::vector<Val> &vs, Bytes &o, std::vector<Mark> *m) {
    u64 fl = 0;
    for (auto d : ds) fl += fixed(*d) ? size(*d) : 4;
    Bytes var;
    std::vector<Mark> vm;
    for (std::size_t i = 0; i < vs.size(); ++i) {
        if (fixed(*ds[i])) ser_to(*ds[i], vs[i], o, m);
        else {
            if (m) m->push_back({o.size(), 4, U64, true, 0});
            put32(o, fl + var.size());
            ser_to(*ds[i], vs[i], var, m ? &vm : nullptr);
        }
    }
    if (m) for (auto k : vm) { k.pos += o.size(); m->push_back(k); }
    o.insert(o.end(), var.begin(), var.end());
}
static void ser_to(const Desc &d, const Val &v, Bytes &o, std::vector<Mark> *m) {
    std::size_t at = o.size();
    switch (d.kind) {
        case U64: for (int i = 0; i < 8; ++i) o.push_back(std::uint8_t(v.u >> 8 * i)); break;
        case BOOL: o.push_back(std::uint8_t(v.u)); break;
        case BYTES: o.insert(o.end(), v.b.begin(), v.b.end()); break;
        case BITVEC: { auto b = bits_to_bytes(v.b, false); o.insert(o.end(), b.begin(), b.end()); break; }
        case BITLIST: { auto b = bits_to_bytes(v.b, true); o.insert(o.end(), b.begin(), b.end()); break; }
        case VECTOR: case LIST:
            if (fixed(*d.elem)) for (auto &x : v.e) ser_to(*d.elem, x, o, m);
            else ser_seq(std::vector<const Desc *>(v.e.size(), d.elem.get()), v.e, o, m);
            break;
        case CONTAINER: { std::vector<const Desc *> ds; for (auto &f : d.fields) ds.push_back(f.second.get()); ser_seq(ds, v.e, o, m); break; }
    }
    if (m) m->push_back({at, o.size() - at, d.kind, false, d.n});
}
Bytes ser_marks(const Desc &d, const Val &v, std::vector<Mark> &m) { Bytes o; ser_to(d, v, o, &m); return o; }
Bytes ser(const Desc &d, const Val &v) { Bytes o; ser_to(d, v, o); return o; }

static bool no(std::string *why, const std::string &s) { if (why && why->empty()) *why = s; return false; }
static u64 get32(const std::uint8_t *p) { return u64(p[0]) | u64(p[1]) << 8 | u64(p[2]) << 16 | u64(p[3]) << 24; }
bool deser(const Desc &d, const std::uint8_t *p, std::size_t n, Val &v, std::string *why) {
    v = Val{};
    switch (d.kind) {
        case U64: if (n != 8) return no(why, "uint64 length"); v.u = get32(p) | get32(p + 4) << 32; return true;
        case BOOL: if (n != 1) return no(why, "boolean length"); if (p[0] > 1) return no(why, "boolean value"); v.u = p[0]; return true;
        case BYTES: if (n != d.n) return no(why, "byte vector length"); v.b.assign(p, p + n); return true;
        case BITVEC:
            if (n != (d.n + 7) / 8) return no(why, "bitvector length");
            for (u64 i = 0; i < d.n; ++i) v.b.push_back(p[i >> 3] >> (i & 7) & 1);
            for (u64 i = d.n; i < 8 * n; ++i) if (p[i >> 3] >> (i & 7) & 1) return no(why, "bitvector padding");
            return true;
        case BITLIST: {
            if (n == 0) return no(why, "bitlist empty");
            if (p[n - 1] == 0) return no(why, "bitlist delimiter");
            int top = 7;
            while (!(p[n - 1] >> top & 1)) --top;
            u64 len = 8 * (n - 1) + u64(top);
            if (len > d.n) return no(why, "bitlist limit");
            for (u64 i = 0; i < len; ++i) v.b.push_back(p[i >> 3] >> (i & 7) & 1);
            return true;
        }
        case VECTOR: case LIST: {
            u64 count;
            bool fx = fixed(*d.elem);
            if (fx) {
                u64 s = size(*d.elem);
                if (n % s) return no(why, "sequence length not a multiple");
                count = n / s;
            } else if (n == 0) count = 0;
            else {
                if (n < 4) return no(why, "offset missing");
                u64 o = get32(p);
                if (o == 0 || o % 4) return no(why, "first offset");
                if (o > n) return no(why, "offset past the end");
                count = o / 4;
            }
            if (d.kind == VECTOR && count != d.n) return no(why, "vector length");
            if (d.kind == LIST && count > d.n) return no(why, "list limit");
            v.e.resize(count);
            if (fx) {
                u64 s = size(*d.elem);
                for (u64 i = 0; i < count; ++i) if (!deser(*d.elem, p + i * s, s, v.e[i], why)) return false;
                return true;
            }
            for (u64 i = 0; i < count; ++i) {
                u64 a = get32(p + 4 * i), b = i + 1 < count ? get32(p + 4 * i + 4) : n;
                if (a > n || b > n) return no(why, "offset past the end");
                if (b < a) return no(why, "offset order");
                if (!deser(*d.elem, p + a, b - a, v.e[i], why)) return false;
            }
            return true;
        }
        case CONTAINER: {
            u64 fl = 0;
            for (auto &f : d.fields) fl += fixed(*f.second) ? size(*f.second) : 4;
            if (n < fl) return no(why, "container too short");
            v.e.resize(d.fields.size());
            std::vector<std::pair<std::size_t, u64>> offs;
            u64 at = 0;
            for (std::size_t i = 0; i < d.fields.size(); ++i) {
                auto &f = *d.fields[i].second;
                if (fixed(f)) { if (!deser(f, p + at, size(f), v.e[i], why)) return false; at += size(f); }
                else { offs.push_back({i, get32(p + at)}); at += 4; }
            }
            if (offs.empty()) return n == fl ? true : no(why, "trailing bytes");
            if (offs[0].second != fl) return no(why, "first offset");
            for (std::size_t k = 0; k < offs.size(); ++k) {
                u64 a = offs[k].second, b = k + 1 < offs.size() ? offs[k + 1].second : n;
                if (a > n || b > n) return no(why, "offset past the end");
                if (b < a) return no(why, "offset order");
                if (!deser(*d.fields[offs[k].first].second, p + a, b - a, v.e[offs[k].first], why)) return false;
            }
            return true;
        }
    }
    return false;
}

Hash zero_hash(unsigned depth) {
    static const std::vector<Hash> z = [] { std::vector<Hash> r(1, Hash{}); while (r.size() < 66) r.push_back(hash2(r.back(), r.back())); return r; }();
    return z.at(depth);
}
static void set32(Bytes &b, std::size_t p, u64 v) { for (int i = 0; i < 4; ++i) b[p + i] = std::uint8_t(v >> 8 * i); }
// A value whose list or bitlist at a random place is longer than its limit; false if there is none of a feasible size
static bool overflow(const Desc &d, Val &v, Rng &r) {
    switch (d.kind) {
        case BITLIST: if (d.n > (big_values ? 1u << 20 : 5000u)) return false; { u64 n = d.n + 1 + (r.chance(1, 2) ? 0 : r.below(9)); while (v.b.size() < n) v.b.push_back(std::uint8_t(r.below(2))); } return true;
        case LIST: {
            if (!v.e.empty() && r.chance(1, 2) && overflow(*d.elem, v.e[r.below(v.e.size())], r)) return true;
            if (d.n > (big_values ? 5000 : 3000)) return false;
            u64 n = d.n + 1 + (r.chance(2, 3) ? 0 : r.below(4));
            Val z = zero(*d.elem);
            while (v.e.size() < n) v.e.push_back(z);
            return true;
        }
        case VECTOR: return false;
        case CONTAINER:
            for (int k = 0; k < 6; ++k) { auto i = r.below(v.e.size()); if (!fixed(*d.fields[i].second) && overflow(*d.fields[i].second, v.e[i], r)) return true; }
            return false;
        default: return false;
    }
}
Bytes mutant(const Desc &d, Rng &r, long budget, std::string &what) {
    what.clear();
    if (r.chance(1, 12)) {  // arbitrary
        Bytes b(r.chance(1, 2) && fixed(d) ? size(d) : r.below(r.chance(1, 4) ? 400 : 24));
        int k = int(r.below(3));
        for (auto &x : b) x = std::uint8_t(k == 0 ? r.next() : k == 1 ? r.below(8) * r.below(2) : r.chance(1, 4) ? r.below(32) : 0);
        what = "arbitrary";
        return b;
    }
    Val v = gen(d, r, budget);
    if (r.chance(1, 10) && overflow(d, v, r)) what = "over limit ";
    std::vector<Mark> m;
    Bytes b = ser_marks(d, v, m);
    if (!what.empty() && r.chance(7, 8)) return b;
    std::vector<Mark> offs, sp;
    for (auto &k : m) { if (k.offset) offs.push_back(k); else if (k.kind == BOOL || k.kind == BITVEC || k.kind == BITLIST) sp.push_back(k); }
    int rounds = r.chance(3, 4) ? 1 : int(2 + r.below(3));
    for (int q = 0; q < rounds; ++q) {
        int k = int(r.below(14));
        std::size_t n = b.size();
        auto live = [&](std::vector<Mark> &ms) -> const Mark * { if (ms.empty()) return nullptr; auto &x = ms[r.below(ms.size())]; return x.pos + x.len <= b.size() ? &x : nullptr; };
        switch (k) {
            case 0: what += "valid "; break;
            case 1: { std::size_t c = r.chance(1, 2) ? 1 + r.below(8) : r.below(n + 1); if (c > n) c = n; b.resize(n - c); what += "cut "; break; }
            case 2: { std::size_t c = 1 + r.below(r.chance(1, 4) ? 130 : 8); int f = int(r.below(4)); for (std::size_t i = 0; i < c; ++i) b.push_back(std::uint8_t(f == 0 ? 0 : f == 1 ? 0xff : f == 2 ? 1 : r.next())); what += "extended "; break; }
            case 3: if (n) { b[r.below(n)] ^= std::uint8_t(1 << r.below(8)); what += "bit flip "; } break;
            case 4: case 5: case 6: case 7:
                if (auto o = live(offs)) {
                    u64 x = get32(&b[o->pos]), y;
                    switch (r.below(10)) {
                        case 0: y = x + 1; break;
                        case 1: y = x - 1; break;
                        case 2: y = x + 4; break;
                        case 3: y = x - 4; break;
                        case 4: y = 0; break;
                        case 5: y = n + r.below(2); break;
                        case 6: y = 0xffffffffu - r.below(6); break;
                        case 7: y = r.below(n + 2); break;
                        case 8: y = x ^ (1ull << r.below(32)); break;
                        default: { auto p = offs[r.below(offs.size())].pos; y = get32(&b[p + 4 <= n ? p : o->pos]); }
                    }
                    set32(b, o->pos, y);
                    what += "offset ";
                }
                break;
            case 8: if (offs.size() > 1) {
                auto i = r.below(offs.size() - 1);
                auto p1 = offs[i].pos, p2 = offs[i + 1].pos;
                if (p1 + 4 <= n && p2 + 4 <= n) { u64 x = get32(&b[p1]), y = get32(&b[p2]); set32(b, p1, y); set32(b, p2, x); what += "swapped offsets "; }
                break;
            }
            [[fallthrough]];
            case 9: if (!m.empty()) {  // bytes inserted at a boundary, the offsets of the same level moved along or not
                auto &x = m[r.below(m.size())];
                if (x.pos > b.size()) break;
                std::size_t c = 1 + r.below(5);
                u64 at0 = x.pos;
                if (r.chance(2, 3)) for (auto &o : offs) if (o.pos + 4 <= b.size() && o.pos < at0 && get32(&b[o.pos]) >= at0) set32(b, o.pos, get32(&b[o.pos]) + c);
                b.insert(b.begin() + std::ptrdiff_t(at0), c, std::uint8_t(r.below(3)));
                what += "gap ";
            } break;
            case 10: case 11: case 12:
                if (auto s = live(sp)) {
                    if (s->kind == BOOL) { b[s->pos] = std::uint8_t(r.chance(1, 2) ? 2 + r.below(254) : 1 << r.below(8)); what += "boolean "; }
                    else if (s->kind == BITVEC && s->len) { b[s->pos + s->len - 1] |= std::uint8_t(1 << (r.chance(3, 4) && s->n % 8 ? s->n % 8 + r.below(8 - s->n % 8) : r.below(8))); what += "padding "; }
                    else if (s->len) { auto &l = b[s->pos + s->len - 1]; l = r.chance(1, 2) ? 0 : std::uint8_t(1 << r.below(8)); what += "delimiter "; }
                    break;
                }
                [[fallthrough]];
            default: if (n > 1) {  // cut out or double a part
                std::size_t a = r.below(n), c = 1 + r.below(n - a < 40 ? n - a : 40);
                if (r.chance(1, 2)) { b.erase(b.begin() + std::ptrdiff_t(a), b.begin() + std::ptrdiff_t(a + c)); what += "erased "; }
                else { Bytes t(b.begin() + std::ptrdiff_t(a), b.begin() + std::ptrdiff_t(a + c)); b.insert(b.begin() + std::ptrdiff_t(a), t.begin(), t.end()); what += "doubled "; }
            }
        }
    }
    if (what.empty()) what = "valid ";
    return b;
}
static unsigned clog2(u64 n) { unsigned k = 0; while (k < 64 && (k == 64 ? 0 : u64(1) << k) < n) ++k; return k; }
Hash merkleize(std::vector<Hash> c, u64 limit) {
    if (limit == 0) limit = c.size();
    unsigned depth = clog2(limit);
    if (c.empty()) return zero_hash(depth);
    for (unsigned k = 0; k < depth; ++k) {
        if (c.size() & 1) c.push_back(zero_hash(k));
        for (std::size_t i = 0; i < c.size() / 2; ++i) c[i] = hash2(c[2 * i], c[2 * i + 1]);
        c.resize(c.size() / 2);
    }
    return c[0];
}
std::vector<Hash> pack(const Bytes &b) {
    std::vector<Hash> r((b.size() + 31) / 32, Hash{});
    for (std::size_t i = 0; i < b.size(); ++i) r[i / 32][i % 32] = b[i];
    return r;
}
Hash mix_in(const Hash &h, u64 len) {
    Hash l{};
    for (int i = 0; i < 8; ++i) l[i] = std::uint8_t(len >> 8 * i);
    return hash2(h, l);
}
static u64 chunk_limit(u64 n, u64 esz) { return u64((static_cast<unsigned __int128>(n) * esz + 31) / 32); }
Hash root(const Desc &d, const Val &v) {
    switch (d.kind) {
        case U64: case BOOL: return pack(ser(d, v))[0];
        case BYTES: return merkleize(pack(v.b), (d.n + 31) / 32);
        case BITVEC: return merkleize(pack(bits_to_bytes(v.b, false)), (d.n + 255) / 256);
        case BITLIST: return mix_in(merkleize(pack(bits_to_bytes(v.b, false)), d.n / 256 + (d.n % 256 != 0)), v.b.size());
        case VECTOR: case LIST: {
            std::vector<Hash> c;
            u64 limit;
            if (basic(*d.elem)) { c = pack(ser(d, v)); limit = chunk_limit(d.n, size(*d.elem)); }
            else { for (auto &x : v.e) c.push_back(root(*d.elem, x)); limit = d.n; }
            auto r = merkleize(std::move(c), limit);
            return d.kind == LIST ? mix_in(r, v.e.size()) : r;
        }
        case CONTAINER: {
            std::vector<Hash> c;
            for (std::size_t i = 0; i < v.e.size(); ++i) c.push_back(root(*d.fields[i].second, v.e[i]));
            return merkleize(std::move(c), d.fields.size());
        }
    }
    return {};
}
unsigned log2up(u64 n) { unsigned k = 0; while (k < 64 && (k == 63 ? (1ull << 63) < n : (1ull << k) < n)) ++k; return k; }
// All nodes that the tree should expose
std::vector<Hash> nodes(const std::vector<Hash> &chunks, u64 limit, const std::vector<u64> &mixed) {
    u64 n = chunks.size();
    unsigned depth = log2up(limit ? limit : n);
    std::vector<Hash> out, level = chunks;
    if (depth == 0) out = chunks;
    for (unsigned k = 0; k < depth; ++k) {
        std::vector<Hash> up;
        for (std::size_t i = 0; i < level.size(); i += 2) up.push_back(hash2(level[i], i + 1 < level.size() ? level[i + 1] : zero_hash(k)));
        out.insert(out.end(), up.begin(), up.end());
        level = up;
    }
    for (u64 m : mixed) out.push_back(mix_in(out.back(), m));
    return out;
}
std::vector<Hash> tree_nodes(const Desc &d, const Val &v) {
    auto chunks = [](const Bytes &b) { auto c = pack(b); if (c.empty()) c.push_back(Hash{}); return c; };
    switch (d.kind) {
        case BITLIST: return nodes(chunks(bits_to_bytes(v.b, false)), d.n / 256 + (d.n % 256 != 0), {v.b.size()});
        case VECTOR: case LIST: {
            bool l = d.kind == LIST;
            std::vector<u64> m;
            if (l) m.push_back(v.e.size());
            if (basic(*d.elem)) return nodes(chunks(ser(d, v)), l ? chunk_limit(d.n, size(*d.elem)) : 0, m);
            std::vector<Hash> c;
            for (auto &x : v.e) c.push_back(root(*d.elem, x));
            if (c.empty()) c.push_back(Hash{});
            return nodes(c, l ? d.n : 0, m);
        }
        case CONTAINER: {
            std::vector<Hash> c;
            for (std::size_t i = 0; i < v.e.size(); ++i) c.push_back(root(*d.fields[i].second, v.e[i]));
            return nodes(c, 0, {});
        }
        default: return nodes(chunks(ser(d, v)), 0, {});
    }
}
Val zero(const Desc &d) {
    Val v;
    switch (d.kind) {
        case BYTES: case BITVEC: v.b.assign(d.n, 0); break;
        case VECTOR: v.e.assign(d.n, zero(*d.elem)); break;
        case CONTAINER: for (auto &f : d.fields) v.e.push_back(zero(*f.second)); break;
        default: break;
    }
    return v;
}
static u64 gen_u64(Rng &r) {
    switch (r.below(8)) {
        case 0: return r.below(4);
        case 1: return ~0ull - r.below(3);
        case 2: return 1ull << r.below(64);
        case 3: return (1ull << r.below(64)) - 1;
        case 4: return r.below(1000);
        case 5: { static const u64 K[] = {32000000000ull, 31999999999ull, 32000000001ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 16000000000ull}; return K[r.below(8)]; }
        default: return r.next();
    }
}
static u64 gen_len(Rng &r, u64 limit, long room) {
    if (room < 0) room = 0;
    u64 m = limit < u64(room) ? limit : u64(room);
    if (big_values && (m > 10000 || (giant_values && m > 1000))) {
        u64 l;
        if (giant_values) return m - r.below(m / 8);
        switch (r.below(5)) {
            case 0: l = (1ull << r.range(14, 20)) + r.below(3) - 1; break;
            case 1: l = 65536 * r.range(1, 16) + r.below(18) - 9; break;
            case 2: l = 8 * r.range(m / 16, m / 8); break;
            case 3: l = m - r.below(3); break;
            default: l = r.range(m / 4, m);
        }
        return l < m ? l : m;
    }
    switch (r.below(8)) {
        case 0: return 0;
        case 1: return m ? 1 : 0;
        case 2: return m;
        case 3: { u64 p = 1ull << r.below(12); u64 l = p + r.below(3) - 1; return l < m ? l : m; }
        case 4: case 5: return r.below((m < 6 ? m : 6) + 1);
        default: return r.below(m + 1);
    }
}
static long weight(const Desc &d) {
    switch (d.kind) {
        case BYTES: return 1 + long(d.n / 256);
        case VECTOR: return long(d.n) * weight(*d.elem);
        case CONTAINER: { long w = 1; for (auto &f : d.fields) w += weight(*f.second); return w; }
        default: return 1;
    }
}
Val gen(const Desc &d, Rng &r, GenOpt &o) {
    Val v;
    // style 0: everything zero, 1: everything ones, otherwise random leaf by leaf
    switch (d.kind) {
        case U64: v.u = o.style == 0 ? 0 : o.style == 1 ? ~0ull : gen_u64(r); break;
        case BOOL: v.u = o.style == 0 ? 0 : o.style == 1 ? 1 : r.below(2); break;
        case BYTES: {
            v.b.assign(d.n, 0);
            int k = o.style == 0 ? 0 : o.style == 1 ? 1 : int(r.below(6));
            if (k == 1) v.b.assign(d.n, 0xff);
            else if (k == 2 && d.n) v.b[r.below(d.n)] = std::uint8_t(1 << r.below(8));
            else if (k > 2) r.fill(v.b.data(), d.n);
            break;
        }
        case BITVEC: case BITLIST: {
            u64 n = d.kind == BITVEC ? d.n : gen_len(r, d.n, big_values && o.budget > 10000 ? (giant_values ? 8 : 4) * o.budget : o.budget > 40 ? (r.chance(1, 3) ? 5000 : 300) : 20);
            int k = o.style == 0 ? 0 : o.style == 1 ? 1 : int(r.below(5));
            v.b.resize(n);
            for (auto &b : v.b) b = k == 0 ? 0 : k == 1 ? 1 : std::uint8_t(r.below(2));
            break;
        }
        case VECTOR:
            v.e.reserve(d.n);
            for (u64 i = 0; i < d.n; ++i) v.e.push_back(gen(*d.elem, r, o));
            break;
        case LIST: {
            u64 n = gen_len(r, d.n, giant_values && o.budget > 1000000 && fixed(*d.elem) ? std::min(4000000l, 8 * o.budget / long(size(*d.elem))) : o.budget / weight(*d.elem));
            long keep = o.budget;
            // a list of giant lists: the last offsets are past 2^24
            const bool giants = giant_values && keep > 1000000 && d.elem->kind == LIST && d.elem->n >= 1u << 24 && fixed(*d.elem->elem);
            if (giants) n = std::min<u64>(d.n, r.range(3, 4));
            for (u64 i = 0; i < n; ++i) {
                GenOpt s = o;
                s.budget = giants ? 1000001 + long(r.below(300000)) : n > 1 ? keep / long(n) : keep / 2;
                v.e.push_back(gen(*d.elem, r, s));
            }
            break;
        }
        case CONTAINER:
            for (auto &f : d.fields) {
                GenOpt s = o;
                if (!fixed(*f.second)) s.budget = r.chance(1, 3) ? o.budget : r.chance(1, 2) ? o.budget / 4 : o.budget / 16;
                v.e.push_back(gen(*f.second, r, s));
            }
            break;
    }
    return v;
}
Val gen(const Desc &d, Rng &r, long budget) {
    GenOpt o;
    o.budget = budget;
    o.style = r.chance(1, 20) ? 0 : r.chance(1, 20) ? 1 : 2;
    return gen(d, r, o);
}
std::string hexstr(const Bytes &b) { return "0x" + hc::hex(b); }
static void show_to(const Desc &d, const Val &v, std::string &o, std::size_t max) {
    if (o.size() > max) return;
    switch (d.kind) {
        case U64: o += std::to_string(v.u); break;
        case BOOL: o += v.u ? "true" : "false"; break;
        case BYTES: o += hc::hex(v.b, 40); break;
        case BITVEC: case BITLIST: o += "b"; for (std::size_t i = 0; i < v.b.size() && i < 80; ++i) o += v.b[i] ? '1' : '0'; if (v.b.size() > 80) o += hc::fmt("..%zu", v.b.size()); break;
        case VECTOR: case LIST: o += hc::fmt("(%zu)[", v.e.size()); for (auto &x : v.e) { show_to(*d.elem, x, o, max); o += ' '; if (o.size() > max) break; } o += "]"; break;
        case CONTAINER: o += "{"; for (std::size_t i = 0; i < v.e.size(); ++i) { o += d.fields[i].first + ":"; show_to(*d.fields[i].second, v.e[i], o, max); o += ' '; if (o.size() > max) break; } o += "}"; break;
    }
}
std::string show(const Desc &d, const Val &v, std::size_t max) { std::string o = d.name + " "; show_to(d, v, o, max); return o.substr(0, max + 40); }
std::string pydesc(const Desc &d) {
    switch (d.kind) {
        case U64: return "('u64',)";
        case BOOL: return "('bool',)";
        case BYTES: return hc::fmt("('bytes',%lu)", d.n);
        case BITVEC: return hc::fmt("('bitvec',%lu)", d.n);
        case BITLIST: return hc::fmt("('bitlist',%lu)", d.n);
        case VECTOR: return "('vector'," + pydesc(*d.elem) + hc::fmt(",%lu)", d.n);
        case LIST: return "('list'," + pydesc(*d.elem) + hc::fmt(",%lu)", d.n);
        case CONTAINER: { std::string s = "('container',["; for (auto &f : d.fields) s += pydesc(*f.second) + ","; return s + "])"; }
    }
    return "";
}
void leaves(const Desc &d, const Val &v, std::vector<Leaf> &out, std::vector<std::uint32_t> &path) {
    switch (d.kind) {
        case VECTOR: case LIST:
            if (d.kind == LIST) out.push_back({path, &d});
            for (std::size_t i = 0; i < v.e.size(); ++i) { path.push_back(std::uint32_t(i)); leaves(*d.elem, v.e[i], out, path); path.pop_back(); }
            break;
        case CONTAINER:
            for (std::size_t i = 0; i < v.e.size(); ++i) { path.push_back(std::uint32_t(i)); leaves(*d.fields[i].second, v.e[i], out, path); path.pop_back(); }
            break;
        default: out.push_back({path, &d});
    }
}
Val *at(Val &v, const std::vector<std::uint32_t> &path) {
    Val *p = &v;
    for (auto i : path) p = &p->e[i];
    return p;
}
static const Desc *desc_at(const Desc &d, const std::vector<std::uint32_t> &path, std::string *s) {
    const Desc *p = &d;
    for (auto i : path) {
        if (p->kind == CONTAINER) { if (s) *s += "." + p->fields[i].first; p = p->fields[i].second.get(); }
        else { if (s) *s += "[" + std::to_string(i) + "]"; p = p->elem.get(); }
    }
    return p;
}
bool mutate_leaf(const Desc &d, Val &v, Rng &r, std::string *what) {
    // walk down at random, every field or element with the same chance
    std::vector<std::uint32_t> path;
    const Desc *p = &d;
    Val *q = &v;
    while (true) {
        if (p->kind == CONTAINER) { if (q->e.empty()) return false; auto i = r.below(q->e.size()); path.push_back(std::uint32_t(i)); p = p->fields[i].second.get(); q = &q->e[i]; }
        else if ((p->kind == VECTOR || p->kind == LIST) && !q->e.empty() && (p->kind == VECTOR || r.chance(3, 4))) {
            std::size_t m = q->e.size(), i = r.chance(1, 4) ? 0 : r.chance(1, 3) ? m - 1 : r.below(m);
            path.push_back(std::uint32_t(i)); p = p->elem.get(); q = &q->e[i];
        } else break;
    }
    if (what) { desc_at(d, path, what); }
    switch (p->kind) {
        case U64: { u64 o = q->u; if (r.chance(1, 2)) q->u ^= 1ull << r.below(64); else while (q->u == o) q->u = gen_u64(r); break; }
        case BOOL: q->u ^= 1; break;
        case BYTES: if (q->b.empty()) return false; { auto i = r.chance(1, 4) ? 0 : r.chance(1, 3) ? q->b.size() - 1 : r.below(q->b.size()); q->b[i] ^= std::uint8_t(1 << r.below(8)); if (what) *what += hc::fmt(" byte %zu", i); } break;
        case BITVEC: { auto i = r.below(q->b.size()); q->b[i] ^= 1; if (what) *what += hc::fmt(" bit %zu", i); break; }
        case BITLIST:
            if (q->b.empty() || (r.chance(1, 3) && q->b.size() < p->n)) { if (q->b.size() >= p->n) return false; q->b.push_back(std::uint8_t(r.below(2))); if (what) *what += " longer"; }
            else if (r.chance(1, 3)) { q->b.pop_back(); if (what) *what += " shorter"; }
            else { auto i = r.below(q->b.size()); q->b[i] ^= 1; if (what) *what += hc::fmt(" bit %zu", i); }
            break;
        case LIST:
            if (!q->e.empty() && r.chance(1, 2)) { q->e.pop_back(); if (what) *what += " shorter"; }
            else { if (q->e.size() >= p->n) return false; GenOpt o; o.budget = 8; o.style = r.chance(1, 2) ? 0 : 2; q->e.push_back(gen(*p->elem, r, o)); if (what) *what += " longer"; }
            break;
        default: return false;
    }
    return true;
}
static bool scalar(const Desc &d) { return d.kind != VECTOR && d.kind != LIST && d.kind != CONTAINER; }
static std::string scalar_text(const Desc &d, const Val &v, int style) {
    switch (d.kind) {
        case U64: return std::to_string(v.u);
        case BOOL: return v.u ? "true" : "false";
        default: {
            Bytes b = d.kind == BYTES ? v.b : bits_to_bytes(v.b, d.kind == BITLIST);
            std::string s = hexstr(b);
            if (style & 4) for (std::size_t i = 2; i < s.size(); ++i) s[i] = char(std::toupper(s[i]));
            return style & 2 ? "'" + s + "'" : style & 8 ? "\"" + s + "\"" : s;
        }
    }
}
static void yaml_to(const Desc &d, const Val &v, int style, int ind, std::string &o) {
    if (scalar(d)) { o += scalar_text(d, v, style); return; }
    bool flow = style & 1;
    if (d.kind == CONTAINER) {
        if (flow) {
            o += "{";
            for (std::size_t i = 0; i < v.e.size(); ++i) { o += (i ? ", " : "") + d.fields[i].first + ": "; yaml_to(*d.fields[i].second, v.e[i], style, ind, o); }
            o += "}";
        } else
            for (std::size_t i = 0; i < v.e.size(); ++i) {
                auto &f = *d.fields[i].second;
                if (i) o += "\n" + std::string(ind, ' ');
                o += d.fields[i].first + ":";
                if (scalar(f) || ((f.kind == LIST || f.kind == VECTOR) && v.e[i].e.empty())) { o += " "; yaml_to(f, v.e[i], style, ind, o); }
                else { int k = f.kind == CONTAINER ? ind + 2 : ind; o += "\n" + std::string(k, ' '); yaml_to(f, v.e[i], style, k, o); }
            }
        return;
    }
    if (v.e.empty()) { o += "[]"; return; }
    if (flow) {
        o += "[";
        for (std::size_t i = 0; i < v.e.size(); ++i) { if (i) o += ", "; yaml_to(*d.elem, v.e[i], style, ind, o); }
        o += "]";
    } else
        for (std::size_t i = 0; i < v.e.size(); ++i) {
            if (i) o += "\n" + std::string(ind, ' ');
            o += "- ";
            yaml_to(*d.elem, v.e[i], style, ind + 2, o);
        }
}
std::string yaml(const Desc &d, const Val &v, int style) { std::string o; yaml_to(d, v, style, 0, o); return o + "\n"; }
}  // namespace ref
