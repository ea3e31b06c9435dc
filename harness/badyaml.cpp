// C15: hostile YAML trees and hex strings. A reference decoder classifies each tree as a valid value, as one of the
// failures the property names, or as unspecified (then only safety and clean failure are checked).
#include "ssz_util.hpp"

namespace {
struct Y {
    enum K { SCALAR, SEQ, MAP, NONE } k = SCALAR;
    std::string s;
    struct Ent;
    std::vector<Ent> c;  // keys are empty in sequences
    Y();
    Y(const Y &);
    Y(Y &&) noexcept;
    Y &operator=(const Y &);
    Y &operator=(Y &&) noexcept;
    ~Y();
};
struct Y::Ent { std::string first; Y second; Ent(std::string f, Y s) : first(std::move(f)), second(std::move(s)) {} };
Y::Y() = default;
Y::Y(const Y &) = default;
Y::Y(Y &&) noexcept = default;
Y &Y::operator=(const Y &) = default;
Y &Y::operator=(Y &&) noexcept = default;
Y::~Y() = default;
enum Class { OK, FAIL, OPEN };
Y scalar(std::string s) { Y y; y.s = std::move(s); return y; }
Y from(const Desc &d, const Val &v) {
    Y y;
    switch (d.kind) {
        case ref::U64: return scalar(std::to_string(v.u));
        case ref::BOOL: return scalar(v.u ? "true" : "false");
        case ref::BYTES: return scalar(ref::hexstr(v.b));
        case ref::BITVEC: return scalar(ref::hexstr(ref::bits_to_bytes(v.b, false)));
        case ref::BITLIST: return scalar(ref::hexstr(ref::bits_to_bytes(v.b, true)));
        case ref::VECTOR: case ref::LIST: y.k = Y::SEQ; for (auto &e : v.e) y.c.emplace_back("", from(*d.elem, e)); return y;
        case ref::CONTAINER: y.k = Y::MAP; for (std::size_t i = 0; i < v.e.size(); ++i) y.c.emplace_back(d.fields[i].first, from(*d.fields[i].second, v.e[i])); return y;
    }
    return y;
}
YAML::Node node(const Y &y) {
    switch (y.k) {
        case Y::SCALAR: return YAML::Node(y.s);
        case Y::NONE: return YAML::Node(YAML::NodeType::Null);
        case Y::SEQ: { YAML::Node n(YAML::NodeType::Sequence); for (auto &c : y.c) n.push_back(node(c.second)); return n; }
        default: { YAML::Node n(YAML::NodeType::Map); for (auto &c : y.c) n.force_insert(c.first, node(c.second)); return n; }
    }
}
bool hexdigits(const std::string &s, std::size_t from) { for (std::size_t i = from; i < s.size(); ++i) if (!strchr("0123456789abcdefABCDEF", s[i]) || !s[i]) return false; return true; }
int hexval(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
Class hex_class(const Desc &d, const std::string &s) {
    if (s.rfind("0x", 0) != 0) return FAIL;
    if (d.kind == ref::BYTES) {
        if (s.size() > 2 * d.n + 2) return FAIL;
        return s.size() == 2 * d.n + 2 && hexdigits(s, 2) ? OK : OPEN;
    }
    if (s.size() % 2) return FAIL;
    if (!hexdigits(s, 2)) return OPEN;
    Bytes b;
    for (std::size_t i = 2; i < s.size(); i += 2) b.push_back(std::uint8_t(hexval(s[i]) * 16 + hexval(s[i + 1])));
    Val v;
    bool ok = ref::deser(d, b, v);
    if (d.kind == ref::BITLIST) return ok ? OK : FAIL;  // empty, no delimiter or over the limit
    return ok ? OK : OPEN;
}
Class classify(const Desc &d, const Y &y) {
    switch (d.kind) {
        case ref::U64: {
            if (y.k != Y::SCALAR) return FAIL;
            auto &s = y.s;
            if (s.empty()) return FAIL;
            bool digits = true;
            for (char c : s) digits &= c >= '0' && c <= '9';
            if (digits) {
                if (s[0] == '0' && s.size() > 1) return OPEN;  // may be octal
                if (s.size() > 20 || (s.size() == 20 && s > "18446744073709551615")) return FAIL;
                return OK;
            }
            if (s[0] == '-' && s.size() > 1 && s.find_first_not_of("0123456789", 1) == std::string::npos && s.find_first_of("123456789") != std::string::npos) return FAIL;
            // clearly no number
            if (s.find_first_of("0123456789") == std::string::npos) return FAIL;
            if (s == "12x" || s == "1.5" || s == "1 2") return FAIL;
            return OPEN;
        }
        case ref::BOOL: {
            if (y.k != Y::SCALAR) return FAIL;
            if (y.s == "true" || y.s == "false") return OK;
            std::string l;
            for (char c : y.s) l += char(tolower(static_cast<unsigned char>(c)));
            for (auto w : {"true", "false", "yes", "no", "on", "off", "y", "n", "1", "0"}) if (l == w) return OPEN;
            return FAIL;
        }
        case ref::BYTES: case ref::BITVEC: case ref::BITLIST: return y.k == Y::SCALAR ? hex_class(d, y.s) : FAIL;
        case ref::VECTOR: case ref::LIST: {
            // nothing at all may stand for the empty list
            if (y.k == Y::NONE || (y.k != Y::SEQ && d.kind == ref::LIST && (y.k == Y::MAP ? y.c.empty() : y.s.empty() || y.s == "~" || y.s == "null" || y.s == "Null" || y.s == "NULL"))) return d.kind == ref::VECTOR ? FAIL : OPEN;
            if (y.k != Y::SEQ) return FAIL;
            if (d.kind == ref::VECTOR ? y.c.size() != d.n : y.c.size() > d.n) return FAIL;
            Class r = OK;
            for (auto &c : y.c) { auto k = classify(*d.elem, c.second); if (k == FAIL) return FAIL; if (k == OPEN) r = OPEN; }
            return r;
        }
        case ref::CONTAINER: {
            if (y.k != Y::MAP) return FAIL;
            Class r = y.c.size() == d.fields.size() ? OK : OPEN;
            for (auto &f : d.fields) {
                const Y *found = nullptr;
                int times = 0;
                for (auto &c : y.c) if (c.first == f.first) { if (!times++) found = &c.second; }
                if (!times) return FAIL;
                if (times > 1) { r = OPEN; continue; }
                auto k = classify(*f.second, *found);
                if (k == FAIL) return FAIL;
                if (k == OPEN) r = OPEN;
            }
            return r;
        }
    }
    return OPEN;
}
std::string rnd_text(Rng &r, std::size_t max) {
    std::string s;
    std::size_t n = r.below(max + 1);
    int kind = int(r.below(4));
    for (std::size_t i = 0; i < n; ++i) s += kind == 0 ? char(r.next()) : kind == 1 ? char(r.range(32, 126)) : kind == 2 ? "0123456789abcdefABCDEF"[r.below(22)] : char(r.range(128, 255));
    return s;
}
std::string bad_hex(const std::string &cur, Rng &r) {
    std::string s = cur;
    switch (r.below(14)) {
        case 0: return s.size() >= 2 ? s.substr(2) : "";
        case 1: return "";
        case 2: return "0x";
        case 3: return s + "00";
        case 4: return s + "0";
        case 5: if (!s.empty()) s.pop_back(); return s;
        case 6: if (s.size() > 2) s[2 + r.below(s.size() - 2)] = char(r.next()); return s;
        case 7: for (u64 k = r.range(1, 4); k-- && s.size() > 2;) s[2 + r.below(s.size() - 2)] = char(r.range(128, 255)); return s;
        case 8: return "0x" + rnd_text(r, s.size() + 4);
        case 9: return rnd_text(r, 40);
        case 10: return s + std::string(2 * r.range(1, 400), r.chance(1, 2) ? 'f' : '0');
        case 11: if (s.size() >= 4) { s[s.size() - 1] = '0'; s[s.size() - 2] = '0'; } return s;
        case 12: { auto t = r.below(4); return t == 0 ? "0" : t == 1 ? "x" : t == 2 ? "0X" + (s.size() > 2 ? s.substr(2) : "") : " " + s; }
        default: return "0x" + std::string(2 * r.below(200), 'f');
    }
}
std::string bad_int(Rng &r) {
    static const char *T[] = {"-1", "18446744073709551616", "36893488147419103232", "184467440737095516150", "99999999999999999999999999", "abc", "", "1.5", "12x", "-9223372036854775808", "0x10", "010", "+5", " 5", "1e3", "1 2", "nan", "inf", "true", "-18446744073709551615", "-0", "5 ", "340282366920938463463374607431768211457", "~", "\xff\xfe"};
    if (r.chance(1, 6)) { std::string s = std::to_string(r.range(2, 9)); for (u64 k = r.range(19, 60); k--;) s += char('0' + r.below(10)); return s; }
    if (r.chance(1, 8)) return rnd_text(r, 30);
    return T[r.below(25)];
}
std::string bad_bool(Rng &r) {
    static const char *T[] = {"maybe", "2", "", "1", "0", "TRUE", "yes", "off", "tru", "truee", "0x01", "null", "-1", "falsetrue", "t"};
    return r.chance(1, 8) ? rnd_text(r, 20) : T[r.below(15)];
}
Y junk(Rng &r, int depth = 0) {
    switch (r.below(depth > 2 ? 3 : 6)) {
        case 0: { Y y; y.k = Y::NONE; return y; }
        case 1: return scalar(rnd_text(r, 60));
        case 2: return scalar(r.chance(1, 2) ? bad_int(r) : bad_hex("0x00ff", r));
        case 3: { Y y; y.k = Y::SEQ; for (u64 k = r.below(6); k--;) y.c.emplace_back("", junk(r, depth + 1)); return y; }
        case 4: { Y y; y.k = Y::MAP; for (u64 k = r.below(6); k--;) y.c.emplace_back(rnd_text(r, 8), junk(r, depth + 1)); return y; }
        default: { Y y; y.k = r.chance(1, 2) ? Y::SEQ : Y::MAP; return y; }
    }
}
// Changes one place of the tree
void mutate(const Desc &d, Y &y, Rng &r) {
    if (r.chance(1, 8)) { y = junk(r); return; }
    bool leaf = d.kind != ref::VECTOR && d.kind != ref::LIST && d.kind != ref::CONTAINER;
    if (leaf) {
        if (r.chance(1, 6)) y = junk(r);
        else y = scalar(d.kind == ref::U64 ? bad_int(r) : d.kind == ref::BOOL ? bad_bool(r) : bad_hex(y.s, r));
        return;
    }
    if (d.kind == ref::CONTAINER) {
        if (y.c.empty() || y.k != Y::MAP) { y = junk(r); return; }
        auto i = r.below(y.c.size());
        switch (r.below(8)) {
            case 0: y.c.erase(y.c.begin() + std::ptrdiff_t(i)); return;
            case 1: y.c[i].first += r.chance(1, 2) ? "x" : " "; return;
            case 2: y.c[i].first = y.c[r.below(y.c.size())].first; return;
            case 3: y.c.emplace_back("extra", junk(r)); return;
            default:
                for (auto &f : d.fields) if (f.first == y.c[i].first) { mutate(*f.second, y.c[i].second, r); return; }
        }
        return;
    }
    if (y.k != Y::SEQ) { y = junk(r); return; }
    if (r.chance(1, 10) && !y.c.empty()) {  // the elements as a map, or the first one alone
        if (r.chance(1, 3)) { Y z(y.c[0].second); y = z; return; }
        y.k = Y::MAP;
        for (std::size_t i = 0; i < y.c.size(); ++i) y.c[i].first = std::to_string(i);
        return;
    }
    switch (r.below(6)) {
        case 0: if (!y.c.empty()) { y.c.pop_back(); return; } break;
        case 1: y.c.emplace_back("", y.c.empty() ? junk(r) : Y(y.c[0].second)); return;
        case 2:
            if (d.kind == ref::LIST && d.n < 5000 && (d.n < 40 || r.chance(1, 12))) {  // over the limit by one or more
                Y z = y.c.empty() ? from(*d.elem, ref::zero(*d.elem)) : Y(y.c[0].second);
                while (y.c.size() <= d.n + (r.chance(1, 2) ? 0 : r.below(20))) y.c.emplace_back("", z);
                return;
            }
            break;
        default: break;
    }
    if (y.c.empty()) { y = junk(r); return; }
    mutate(*d.elem, y.c[r.below(y.c.size())].second, r);
}
std::string show(const Y &y, std::size_t max = 1500) {
    std::string s;
    std::function<void(const Y &)> f = [&](const Y &q) {
        if (s.size() > max) return;
        if (q.k == Y::SCALAR) s += jstr(q.s);
        else if (q.k == Y::NONE) s += "~";
        else { s += q.k == Y::SEQ ? "[" : "{"; for (auto &c : q.c) { if (q.k == Y::MAP) s += jstr(c.first) + ": "; f(c.second); s += ", "; } s += q.k == Y::SEQ ? "]" : "}"; }
    };
    f(y);
    return s.substr(0, max);
}
bool tree_case(const Ops &t, Obj &o, const Y &y, Rng &r, const std::string &where) {
    const Desc &d = *t.desc;
    Class c = classify(d, y);
    auto text = show(y);
    crumbf("badyaml type=%s %s %s", t.name.c_str(), where.c_str(), text.c_str());
    int got = -1;  // 1 success, 0 refused
    std::string how;
    int way = int(r.below(t.as ? 3 : 2));
    try {
        YAML::Node n = node(y);
        if (way == 1) { YAML::Emitter e; e << n; if (!e.good() || text.find("\\u") != std::string::npos) way = 0; else n = YAML::Load(e.c_str()); }
        // a plain null or a plain word may read back as another kind from text: classified from the tree only
        if (way == 1) c = c == FAIL ? OPEN : c;
        if (way == 2) { t.as(o.mem, n); got = 1; }
        else got = o.c().decode(n) ? 1 : 0;
    } catch (const std::exception &e) { got = 0; how = e.what(); }
    catch (...) { fail("badyaml:exception:" + t.cls, t.name + " given " + text + " throws something that is no std::exception"); }
    if (got == 1 && c == FAIL) fail("badyaml:accepts:" + t.cls, t.name + " reports success decoding " + text);
    stats.add(got ? "accepted" : "refused");
    stats.add(c == FAIL ? "must_fail" : c == OPEN ? "unspecified" : "valid");
    stats.seen("inputs", mix(hash64(text.data(), text.size()), t.name));
    if (!how.empty()) stats.add("exceptions");
    if (stats.n["must_fail"] % 1501 == 5 && c == FAIL) stats.sample(t.name + " " + text.substr(0, 200) + " -> " + (got ? "accepted" : "refused"), 8);
    return got == 1;
}
// Of a document; false if it is not a finite tree with scalar keys
bool tree_of(const YAML::Node &n, Y &y, int depth, long &budget) {
    if (depth > 12 || --budget < 0) return false;
    switch (n.Type()) {
        case YAML::NodeType::Scalar: y = scalar(n.Scalar()); return true;
        case YAML::NodeType::Sequence:
            y.k = Y::SEQ;
            for (auto it = n.begin(); it != n.end(); ++it) { Y z; if (!tree_of(*it, z, depth + 1, budget)) return false; y.c.emplace_back("", std::move(z)); }
            return true;
        case YAML::NodeType::Map:
            y.k = Y::MAP;
            for (auto it = n.begin(); it != n.end(); ++it) { Y z; if (!it->first.IsScalar() || !tree_of(it->second, z, depth + 1, budget)) return false; y.c.emplace_back(it->first.Scalar(), std::move(z)); }
            return true;
        default: y.k = Y::NONE; return true;
    }
}
void replace_leaf(Y &y, const std::string &text, Rng &r) {
    Y *p = &y;
    while (p->k != Y::SCALAR && !p->c.empty()) p = &p->c[r.below(p->c.size())].second;
    *p = scalar(text);
}
}  // namespace

void hex_text(const Ops &t, Obj &o, const std::string &s) {
    Class hc = hex_class(*t.desc, s);
    bool ok = true;
    std::string exact(s);
    exact.shrink_to_fit();
    try { t.hextext(o.mem, exact); }
    catch (const std::exception &) { ok = false; }
    catch (...) { fail("badyaml:exception:" + t.cls, t.name + " given " + jstr(s) + " throws something that is no std::exception"); }
    if (ok && hc == FAIL) fail("badyaml:hex:" + t.cls, t.name + " parses " + jstr(s) + " without failure");
    stats.add(ok ? "hex_accepted" : "hex_refused");
    stats.seen("hex_strings", mix(hash64(s.data(), s.size()), t.name));
}
bool yaml_document(const Ops &t, Obj &o, const std::string &text) {
    YAML::Node n;
    Y y;
    long budget = 4000;
    try { n = YAML::Load(text); if (!tree_of(n, y, 0, budget)) return false; } catch (const std::exception &) { return false; }
    Class c = classify(*t.desc, y);
    bool got = false;
    try { got = o.c().decode(n); }
    catch (const std::exception &) {}
    catch (...) { fail("badyaml:exception:" + t.cls, t.name + " given " + jstr(text) + " throws something that is no std::exception"); }
    if (got && c == FAIL) fail("badyaml:accepts:" + t.cls, t.name + " reports success decoding the text " + jstr(text));
    stats.add(got ? "accepted" : "refused");
    stats.add(c == FAIL ? "must_fail" : c == OPEN ? "unspecified" : "valid");
    stats.seen("inputs", mix(hash64(text.data(), text.size()), t.name));
    return true;
}
bool yaml_leaf(const Ops &t, Obj &o, Rng &r, const std::string &text) {
    Y y = from(*t.desc, ref::gen(*t.desc, r, 40));
    replace_leaf(y, text, r);
    return tree_case(t, o, y, r, "guided");
}

void cmd_badyaml(const Args &a) {
    u64 inner = a.num("inner", 10);
    each(a, [&](const Ops &t, u64 i, Rng &r) {
        const Desc &d = *t.desc;
        Obj o(t, int(r.below(256)));
        auto reuse = [&](const std::string &after) {
            Val v = ref::gen(d, r, 30);
            bool ok = valid("badyaml:reuse:" + t.cls, t.name + " after " + after, [&] { return o.c().decode(YAML::Load(ref::yaml(d, v, int(r.below(4))))) && holds(o, v); });
            if (!ok) fail("badyaml:reuse:" + t.cls, t.name + ": valid YAML is not decoded after " + after);
            stats.add("reused");
        };
        for (u64 k = 0; k < inner; ++k) {
            Y y = from(d, ref::gen(d, r, 60));
            for (u64 m = r.range(1, r.chance(1, 3) ? 4 : 1); m--;) mutate(d, y, r);
            bool got = tree_case(t, o, y, r, fmt("case=%lu/%lu", i, k));
            auto text = show(y);
            if (t.limited || r.chance(1, 3)) {
                if (r.chance(1, 4)) { valid("badyaml:after:" + t.cls, t.name + " after " + text, [&] { (void)o.c().serialize(); (void)o.c().encode(); Obj q(o); }); stats.add("used_afterwards"); }
                if (!got && r.chance(1, 4)) reuse(text);
            }
            if (t.hextext) {
                std::string cur = from(d, ref::gen(d, r, 60)).s, s = bad_hex(cur, r);
                if (r.chance(1, 4)) s = bad_hex(s, r);
                if (r.chance(1, 10)) s = cur;
                crumbf("badhex type=%s case=%lu/%lu %s", t.name.c_str(), i, k, jstr(s).c_str());
                hex_text(t, o, s);
            }
        }
        // raw text, aliases and odd documents
        if (i == 0) {
            static const char *DOCS[] = {"", "~", "null", "[]", "{}", "''", "0x", "- ", "[[[]]]", "{a: 1}", "&a [*a]", "!!binary aGk=", "!!str 5", "0", "1", "true", "---\n...\n", "? a\n: b", "[1, 2", "\"\\x00\"", "*x", "{? [a]: b}"};
            for (auto s : DOCS) {
                crumbf("badyaml type=%s document %s", t.name.c_str(), s);
                try { (void)o.c().decode(YAML::Load(s)); }
                catch (const std::exception &) {}
                catch (...) { fail("badyaml:exception:" + t.cls, t.name + " given document " + s + " throws something that is no std::exception"); }
                stats.add("documents");
            }
            reuse("odd documents");
        }
    }, 40);
}
