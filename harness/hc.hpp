// Common plumbing of all harnesses: PRNG, arguments, failure reports, breadcrumbs, JSON statistics.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace hc {
using Bytes = std::vector<std::uint8_t>;

struct Rng {
    std::uint64_t s[4];
    static std::uint64_t splitmix(std::uint64_t &x) {
        std::uint64_t z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    explicit Rng(std::uint64_t seed = 1) { for (auto &v : s) v = splitmix(seed); }
    static std::uint64_t rotl(std::uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    std::uint64_t next() {
        std::uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    std::uint64_t range(std::uint64_t a, std::uint64_t b) { return a + below(b - a + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    void fill(std::uint8_t *p, std::size_t n) {
        while (n >= 8) { auto v = next(); std::memcpy(p, &v, 8); p += 8; n -= 8; }
        if (n) { auto v = next(); std::memcpy(p, &v, n); }
    }
};

// A stream of its own for every (seed, label, index): cases are replayable one by one.
inline std::uint64_t hash64(const void *d, std::size_t n, std::uint64_t h = 0xcbf29ce484222325ull) {
    auto p = static_cast<const unsigned char *>(d);
    for (std::size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 0x100000001b3ull;
    return h;
}
inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
    std::uint64_t x = a ^ Rng::rotl(b, 23);
    return Rng::splitmix(x) ^ (b * 0x9e3779b97f4a7c15ull);
}
inline std::uint64_t mix(std::uint64_t a, const std::string &s) { return mix(a, hash64(s.data(), s.size())); }

std::string hex(const std::uint8_t *p, std::size_t n, std::size_t max = SIZE_MAX);
inline std::string hex(const Bytes &b, std::size_t max = SIZE_MAX) { return hex(b.data(), b.size(), max); }
std::string jstr(const std::string &s);

// Options are --name value (all values are strings)
struct Args {
    std::string cmd;
    std::map<std::string, std::string> kv;
    Args(int argc, char **argv);
    std::string str(const std::string &k, const std::string &d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
    std::uint64_t num(const std::string &k, std::uint64_t d) const { auto i = kv.find(k); return i == kv.end() ? d : std::strtoull(i->second.c_str(), nullptr, 0); }
    bool has(const std::string &k) const { return kv.count(k) > 0; }
};

// The breadcrumb file is a shared mapping: it survives crashes. Layout: u64 progress counter, then text.
void crumb_open(const std::string &path);
void crumb(const std::string &text);
void crumbf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// Statistics: counters, distinct sets and samples; printed as one RESULT line at the end.
struct Stats {
    std::map<std::string, std::uint64_t> n;
    std::map<std::string, std::set<std::uint64_t>> distinct;
    std::vector<std::string> samples;
    void add(const std::string &k, std::uint64_t v = 1) { n[k] += v; }
    void seen(const std::string &k, std::uint64_t h) { if (distinct[k].size() < 2000000) distinct[k].insert(h); }
    void seen(const std::string &k, const std::string &s) { seen(k, hash64(s.data(), s.size())); }
    void sample(const std::string &s, std::size_t max = 6) { if (samples.size() < max) samples.push_back(s.substr(0, 600)); }
    void print() const;
};
extern Stats stats;

// Report a violation and stop (exit code 3). key is a stable identity of what failed, detail is free text.
[[noreturn]] void fail(const std::string &key, const std::string &detail);
// The harness itself is broken or cannot do its work (exit code 4).
[[noreturn]] void broken(const std::string &why);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
}  // namespace hc
