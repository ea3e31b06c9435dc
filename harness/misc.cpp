// C16: conversions of byte strings, bitfields and integers. C21: integer square root and logarithm.
#include <sstream>
#include <type_traits>

#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/boolean.hpp"
#include "common/bytes.hpp"
#include "common/slot.hpp"
#include "helpers/bytes_to_int.hpp"
#include "helpers/bytes_to_string.hpp"
#include "helpers/math.hpp"
#include "ref.hpp"

using namespace hc;
using u64 = std::uint64_t;

#define CHECK(cond, key, ...) do { stats.add("checks"); if (!(cond)) fail(key, fmt(__VA_ARGS__)); } while (0)
static std::string lower(const Bytes &b) { return "0x" + hex(b); }
static std::string cased(const Bytes &b, Rng &r, int mode) {
    std::string s = lower(b);
    for (std::size_t i = 2; i < s.size(); ++i) if (mode == 1 || (mode == 2 && r.chance(1, 2))) s[i] = char(toupper(s[i]));
    return s;
}
template <std::size_t N> static Bytes arr(const eth::Bytes<N> &b) { Bytes v; for (auto it = b.cbegin(); it != b.cend(); ++it) v.push_back(*it); return v; }
template <std::size_t N> static eth::Bytes<N> mk(const Bytes &v) { std::array<std::uint8_t, N> a; std::copy(v.begin(), v.end(), a.begin()); return eth::Bytes<N>{a}; }
static Bytes content(std::size_t n, Rng &r) {
    Bytes v(n);
    switch (r.below(5)) {
        case 0: std::fill(v.begin(), v.end(), std::uint8_t(r.chance(1, 2) ? 0 : 0xff)); break;
        case 1: for (auto &x : v) x = std::uint8_t(r.below(16)); break;
        case 2: for (auto &x : v) x = std::uint8_t(r.below(16) << 4); break;
        default: r.fill(v.data(), n);
    }
    return v;
}
template <class I, std::size_t N> static void from_int(Rng &r) {
    if constexpr (sizeof(I) <= N) {
        for (int k = 0; k < 6; ++k) {
            I v = k == 0 ? I(0) : k == 1 ? std::numeric_limits<I>::max() : k == 2 ? std::numeric_limits<I>::min() : I(r.next() >> r.below(64));
            eth::Bytes<N> b{v};
            Bytes e(N, 0);
            auto u = std::make_unsigned_t<I>(v);
            for (std::size_t i = 0; i < sizeof(I); ++i) e[i] = std::uint8_t(u64(u) >> 8 * i);
            CHECK(arr(b) == e, "bytes:int", "Bytes<%zu> of the %zu-byte integer %#lx is %s, should be %s", N, sizeof(I), u64(u), lower(arr(b)).c_str(), lower(e).c_str());
            if constexpr (std::is_unsigned_v<I> && sizeof(I) == N) {
                I back = b.template to_integer_little_endian<I>();
                CHECK(back == v, "bytes:toint", "Bytes<%zu> %s reads back as %#lx", N, lower(e).c_str(), u64(back));
            }
            stats.seen("values", mix(hash64(e.data(), N), N));
        }
    }
}
template <std::size_t N, std::size_t M> static void concat(Rng &r) {
    Bytes a = content(N, r), b = content(M, r), e = a;
    e.insert(e.end(), b.begin(), b.end());
    auto x = mk<N>(a);
    auto y = mk<M>(b);
    eth::Bytes<N + M> s = x + y;
    CHECK(arr(s) == e, "bytes:concat", "%s + %s is %s", lower(a).c_str(), lower(b).c_str(), lower(arr(s)).c_str());
    CHECK(arr(x) == a && arr(y) == b, "bytes:concat:operands", "operands of + changed");
}
template <std::size_t N> static void bytes_case(Rng &r) {
    Bytes v = content(N, r);
    crumbf("bytes N=%zu %s", N, hex(v).c_str());
    eth::Bytes<N> b = mk<N>(v);
    auto text = lower(v);
    CHECK(b.to_string() == text, "bytes:to_string", "Bytes<%zu> prints %s, should be %s", N, b.to_string().c_str(), text.c_str());
    CHECK(helpers::bytes_to_string(v) == text, "helpers:bytes_to_string", "bytes_to_string gives %s, should be %s", helpers::bytes_to_string(v).c_str(), text.c_str());
    for (int mode = 0; mode < 3; ++mode) {
        auto s = cased(v, r, mode);
        eth::Bytes<N> p{std::string_view(s)};
        CHECK(arr(p) == v, "bytes:parse", "Bytes<%zu> of %s is %s", N, s.c_str(), lower(arr(p)).c_str());
        eth::Bytes<N> q = mk<N>(content(N, r));
        q.from_string(s);
        CHECK(arr(q) == v, "bytes:from_string", "from_string(%s) gives %s", s.c_str(), lower(arr(q)).c_str());
        // a view of the text inside a longer one: nothing behind its end counts
        std::string behind = s;
        for (u64 k = r.range(1, 20); k--;) behind += "0123456789abcdefABCDEFx "[r.below(24)];
        auto end = std::string_view(behind).substr(0, s.size());
        eth::Bytes<N> w{end};
        CHECK(arr(w) == v, "bytes:parse:view", "Bytes<%zu> of the first %zu characters of %s is %s", N, s.size(), behind.c_str(), lower(arr(w)).c_str());
        CHECK(q.to_string() == text, "bytes:inverse", "%s prints back as %s", s.c_str(), q.to_string().c_str());
    }
    CHECK(b.serialize() == v, "bytes:serialize", "serialize of %s", text.c_str());
    CHECK(Bytes(b) == v, "bytes:vector", "conversion of %s to a vector", text.c_str());
    CHECK(b.size() == N && b.ssz_size == N, "bytes:size", "size of Bytes<%zu> is %zu", N, b.size());
    Bytes it;
    for (auto x : b) it.push_back(x);
    CHECK(it == v, "bytes:iterate", "iterating %s gives %s", text.c_str(), lower(it).c_str());
    const auto &cb = b;
    for (std::size_t i = 0; i < N; ++i) CHECK(b[i] == v[i] && cb[i] == v[i] && b.data()[i] == v[i] && b.to_array()[i] == v[i], "bytes:index", "byte %zu of %s", i, text.c_str());
    CHECK(b == v, "bytes:compare", "%s compares unequal to its bytes", text.c_str());
    for (std::size_t i = 0; i < N; ++i) {
        Bytes w = v;
        w[i] ^= std::uint8_t(1 << r.below(8));
        CHECK(!(b == w), "bytes:compare", "%s compares equal to %s", text.c_str(), lower(w).c_str());
        CHECK(!(b == mk<N>(w)), "bytes:compare", "%s compares equal to %s", text.c_str(), lower(w).c_str());
    }
    { Bytes w = v; w.push_back(0); CHECK(!(b == w), "bytes:compare:len", "%s compares equal to one byte more", text.c_str()); w = v; w.pop_back(); CHECK(!(b == w), "bytes:compare:len", "%s compares equal to one byte less", text.c_str()); }
    Bytes o = content(N, r), x = v;
    for (std::size_t i = 0; i < N; ++i) x[i] ^= o[i];
    { auto c = b; auto ob = mk<N>(o); c ^= ob; CHECK(arr(c) == x, "bytes:xor", "%s ^ %s is %s", text.c_str(), lower(o).c_str(), lower(arr(c)).c_str()); CHECK(arr(ob) == o, "bytes:xor:operand", "operand of ^= changed"); c ^= c; CHECK(arr(c) == Bytes(N, 0), "bytes:xor:self", "x ^= x is not zero"); }
    { auto c = b; auto i = r.below(N); auto y = std::uint8_t(r.next()); c[i] = y; Bytes w = v; w[i] = y; CHECK(arr(c) == w, "bytes:assign", "assigning byte %lu", i); }
    from_int<std::uint8_t, N>(r); from_int<std::uint16_t, N>(r); from_int<std::uint32_t, N>(r); from_int<std::uint64_t, N>(r);
    from_int<std::int8_t, N>(r); from_int<std::int16_t, N>(r); from_int<std::int32_t, N>(r); from_int<std::int64_t, N>(r);
    concat<N, 1>(r); concat<N, 3>(r); concat<N, 4>(r); concat<N, 32>(r); concat<N, 33>(r); concat<N, 96>(r); concat<1, N>(r); concat<N, N>(r);
    stats.seen("values", mix(hash64(v.data(), N), N));
    stats.add("cases");
    if (stats.n["cases"] % 1511 == 3) stats.sample(fmt("Bytes<%zu> ", N) + text, 8);
}
static std::string bitstr(const Bytes &bits) { std::string s; for (auto b : bits) s += b ? '1' : '0'; return s; }
template <unsigned N> static void bitvector_value(const Bytes &bits, Rng &r) {
    std::array<bool, N> a;
    for (unsigned i = 0; i < N; ++i) a[i] = bits[i];
    eth::Bitvector<N> v{a};
    auto s = bitstr(bits), h = ref::hexstr(ref::bits_to_bytes(bits, false));
    crumbf("bitvector N=%u %s", N, s.c_str());
    std::ostringstream os;
    os << v;
    CHECK(os.str() == s, "bitvector:print", "Bitvector<%u> %s prints as %s", N, s.c_str(), os.str().c_str());
    CHECK(v.to_string() == h, "bitvector:to_string", "Bitvector<%u> %s has text %s, should be %s", N, s.c_str(), v.to_string().c_str(), h.c_str());
    eth::Bitvector<N> w;
    std::array<bool, N> dirty;
    for (auto &x : dirty) x = r.chance(1, 2);
    w = eth::Bitvector<N>{dirty};
    w.from_hexstring(cased(ref::bits_to_bytes(bits, false), r, int(r.below(3))));
    std::ostringstream ow;
    ow << w;
    CHECK(ow.str() == s && w == v, "bitvector:from_hexstring", "Bitvector<%u> parsed from %s prints as %s, should be %s", N, h.c_str(), ow.str().c_str(), s.c_str());
    stats.seen("values", "v" + s);
    stats.add("cases");
}
template <unsigned N> static void bitvector_cases(Rng &r, u64 reps) {
    if constexpr (N <= 12)
        for (u64 x = 0; x < (1u << N); ++x) { Bytes b(N); for (unsigned i = 0; i < N; ++i) b[i] = x >> i & 1; bitvector_value<N>(b, r); }
    for (u64 k = 0; k < reps; ++k) { Bytes b(N); int den = 1 + int(r.below(8)); for (auto &x : b) x = k == 0 ? 1 : r.chance(1, unsigned(den)); bitvector_value<N>(b, r); }
    for (unsigned i = 0; i < N; ++i) { Bytes b(N, 0); b[i] = 1; bitvector_value<N>(b, r); }
}
static void bitlist_value(const Bytes &bits, Rng &r) {
    eth::Bitlist v{std::max<std::size_t>(1, bits.size()) + r.below(300)};
    auto by = ref::bits_to_bytes(bits, true);
    auto s = bitstr(bits), h = ref::hexstr(by);
    crumbf("bitlist %s", s.c_str());
    if (r.chance(1, 2)) { v.limit(100000); v.from_hexstring(cased(ref::bits_to_bytes(Bytes(r.below(300), 1), true), r, 2)); }
    v.from_hexstring(cased(by, r, int(r.below(3))));
    std::ostringstream os;
    os << v;
    CHECK(os.str() == s, "bitlist:print", "Bitlist parsed from %s prints as %s, should be %s", h.c_str(), os.str().c_str(), s.c_str());
    CHECK(v.size() == bits.size(), "bitlist:size", "Bitlist %s has size %zu", s.c_str(), v.size());
    CHECK(v.to_string() == h, "bitlist:to_string", "Bitlist %s has text %s, should be %s", s.c_str(), v.to_string().c_str(), h.c_str());
    stats.seen("values", "l" + s);
    stats.add("cases");
}
static void helpers_cases(Rng &r) {
    for (int c = 0; c < 256; ++c) {
        int want = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
        int got = helpers::hextoint(char(c));
        if (want >= 0) CHECK(got == want, "helpers:hextoint", "hextoint('%c') is %d", c, got);
    }
    const char *digits = "0123456789abcdefABCDEF";
    for (int i = 0; i < 22; ++i)
        for (int j = 0; j < 22; ++j) {
            char t[3] = {digits[i], digits[j], 0};
            int want = int(std::strtol(t, nullptr, 16));
            CHECK(helpers::strhex2int(t) == want, "helpers:strhex2int", "strhex2int(%s) is %d", t, helpers::strhex2int(t));
        }
    for (int k = 0; k < 2000; ++k) {
        std::string s;
        for (u64 n = r.range(1, 7); n--;) s += digits[r.below(22)];
        CHECK(helpers::strhex2int(s) == int(std::strtol(s.c_str(), nullptr, 16)), "helpers:strhex2int", "strhex2int(%s) is %d", s.c_str(), helpers::strhex2int(s));
    }
    std::vector<std::uint8_t> buf(80);
    for (int k = 0; k < 3000; ++k) {
        r.fill(buf.data(), buf.size());
        auto p = buf.data() + r.below(70);
        auto le = [&](int n) { u64 v = 0; for (int i = n; i--;) v = v << 8 | p[i]; return v; };
        CHECK(helpers::to_integer_little_endian<std::uint8_t>(p) == le(1) && helpers::to_integer_little_endian<std::uint16_t>(p) == le(2) && helpers::to_integer_little_endian<std::uint32_t>(p) == le(4) && helpers::to_integer_little_endian<std::uint64_t>(p) == le(8), "helpers:to_integer", "to_integer_little_endian of %s", hex(p, 8).c_str());
    }
    for (int k = 0; k < 3000; ++k) {
        u64 v = k < 4 ? (k == 0 ? 0 : k == 1 ? ~0ull : k == 2 ? 1ull << 63 : 1) : r.next() >> r.below(64);
        eth::Slot s{v};
        Bytes e(8);
        for (int i = 0; i < 8; ++i) e[std::size_t(i)] = std::uint8_t(v >> 8 * i);
        CHECK(arr(eth::Bytes8(s)) == e, "slot:bytes", "Slot %lu as Bytes8 is %s", v, lower(arr(eth::Bytes8(s))).c_str());
        CHECK(std::uint64_t(static_cast<const eth::Slot &>(s)) == v, "slot:int", "Slot %lu reads as another integer", v);
        std::uint64_t &x = s;
        x = ~v;
        CHECK(std::uint64_t(static_cast<const eth::Slot &>(s)) == ~v, "slot:ref", "Slot assigned through its reference");
        stats.seen("values", mix(v, "slot"));
    }
    for (bool b : {false, true}) { eth::Boolean o{b}; CHECK(arr(eth::Bytes1(o)) == Bytes{std::uint8_t(b)} && bool(static_cast<const eth::Boolean &>(o)) == b, "boolean", "Boolean %d converts wrong", b); }
}
template <std::size_t... N> static void all_bytes(Rng &r, u64 reps) { ([&] { for (u64 k = 0; k < reps; ++k) bytes_case<N>(r); }(), ...); }
template <unsigned... N> static void all_bitvectors(Rng &r, u64 reps) { (bitvector_cases<N>(r, reps), ...); }
static void cmd_conv(const Args &a) {
    Rng r(mix(mix(a.num("seed", 1), "conv"), a.num("shard", 0)));
    u64 reps = a.num("reps", 60);
    try {
        all_bytes<1, 2, 3, 4, 5, 7, 8, 16, 20, 31, 32, 33, 48, 63, 64, 65, 96, 97, 128, 255, 256, 300>(r, reps);
        all_bitvectors<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300>(r, reps);
        for (unsigned n = 0; n <= 12; ++n)
            for (u64 x = 0; x < (1u << n); ++x) { Bytes b(n); for (unsigned i = 0; i < n; ++i) b[i] = x >> i & 1; bitlist_value(b, r); }
        for (unsigned n = 0; n < 300; ++n)
            for (int k = 0; k < 3; ++k) { Bytes b(n); for (auto &x : b) x = k == 0 ? 0 : k == 1 ? 1 : r.chance(1, 2); bitlist_value(b, r); }
        for (u64 k = 0; k < reps; ++k) { Bytes b(r.below(5000)); for (auto &x : b) x = r.chance(1, 2); bitlist_value(b, r); }
        helpers_cases(r);
    } catch (const std::exception &e) { fail("conversion:exception", std::string("unexpected exception ") + e.what()); }
    stats.sample("Bitvector<n> and Bitlist values of up to 12 bits exhaustively; Bytes<N> for 22 lengths", 8);
}
// --- C21 -----------------------------------------------------------------------------------------------------------
template <class T> static inline void sqrt_one(T x) {
    T r = helpers::integer_squareroot<T>(x);
    unsigned __int128 q = (unsigned __int128)r, y = x;
    if (!(q * q <= y && (q + 1) * (q + 1) > y)) fail(fmt("sqrt:%zu", 8 * sizeof(T)), fmt("integer_squareroot of the %zu-bit %lu is %lu", 8 * sizeof(T), u64(x), u64(r)));
}
template <class T> static inline void log_one(T x) {
    long k = helpers::log2ceil(x);
    unsigned __int128 y = x;
    bool ok = x == 0 ? k == 0 : k >= 0 && k <= long(8 * sizeof(T)) && ((unsigned __int128)1 << k) >= y && (k == 0 || ((unsigned __int128)1 << (k - 1)) < y);
    if (!ok) fail(fmt("log:%zu", 8 * sizeof(T)), fmt("log2ceil of the %zu-bit %lu is %ld", 8 * sizeof(T), u64(x), k));
}
template <class T> static void both(T x) {
    sqrt_one<T>(x);
    if constexpr (sizeof(T) >= 4) log_one<T>(x);
    stats.n["evaluated"] += sizeof(T) >= 4 ? 2 : 1;
}
static void cmd_math(const Args &a) {
    u64 shard = a.num("shard", 0), shards = a.num("shards", 1);
    Rng r(mix(mix(a.num("seed", 1), "math"), shard));
    crumb("math 8 and 16 bits");
    for (u64 x = 0; x < 256; ++x) both<std::uint8_t>(std::uint8_t(x));
    for (u64 x = 0; x < 65536; ++x) both<std::uint16_t>(std::uint16_t(x));
    stats.add("exhaustive_8_16", 256 + 65536);
    crumb("math 32 bits");
    for (u64 q = shard; q < 65536; q += shards)
        for (u64 d = 0; d < 5; ++d) { u64 x = q * q + d - 2; both<std::uint32_t>(std::uint32_t(x)); stats.n["perfect_square_neighbours"]++; }
    crumb("math 64 bits");
    auto around = [&](u64 q) { for (u64 d = 0; d < 5; ++d) { both<std::uint64_t>(q * q + d - 2); stats.n["perfect_square_neighbours"]++; } };
    u64 dense = a.num("dense", 1 << 16);
    for (u64 q = shard; q < dense; q += shards) { around(q); around((1ull << 32) - 1 - q); around(94906265ull - dense / 2 + q); around((1ull << 31) + q); around(3037000499ull - dense / 2 + q); }
    for (u64 k = shard; k < a.num("random", 400000); k += shards) {
        around(r.next() >> (32 + r.below(31)));
        u64 x = r.next() >> r.below(64);
        both<std::uint64_t>(x);
        both<std::uint32_t>(std::uint32_t(x));
        both<unsigned long long>(x);
        stats.seen("random_values", x);
    }
    for (unsigned k = 0; k < 64; ++k)
        for (u64 d = 0; d < 200; ++d) { u64 x = (1ull << k) + d - 100; both<std::uint64_t>(x); both<std::uint32_t>(std::uint32_t(x)); both<std::uint64_t>(~x); }
    if (a.has("exhaustive32")) {
        for (u64 hi = shard; hi < 4096; hi += shards) {
            crumbf("math exhaustive %lu", hi);
            for (u64 lo = 0; lo < (1u << 20); ++lo) { auto x = std::uint32_t(hi << 20 | lo); sqrt_one<std::uint32_t>(x); log_one<std::uint32_t>(x); }
            stats.add("evaluated", 2u << 20);
            stats.add("exhaustive_32", 1u << 20);
        }
    }
    stats.sample("8 and 16 bits exhaustive; x = q*q-2 .. q*q+2 for 32-bit q near 0, 2^31, 2^32, sqrt(2^53), sqrt(2^63) and random q");
}
int main(int argc, char **argv) {
    Args a(argc, argv);
    if (a.cmd == "conv") cmd_conv(a);
    else if (a.cmd == "math") cmd_math(a);
    else broken("unknown command " + a.cmd);
    stats.print();
    return 0;
}
