// C29: work done by a call, bounded linearly in a size
#pragma once
#include <algorithm>
#include <exception>

#include "hc.hpp"
#ifndef WORK_DEBUG
#define WORK_DEBUG 0
#endif
struct Work { std::uint64_t edges, bytes; };
extern "C" Work *work_count() __attribute__((weak));
inline Work &work_counters() {
    if (!work_count) hc::broken("not linked with the work counters");
    return *work_count();
}
// f may execute at most 50000 + branches * size branches, and move or compare 200000 + moved * size bytes
struct Linear { std::uint64_t branches, moved; };
template <class F> void measured(const std::string &key, const std::string &name, const std::string &w, std::uint64_t size, Linear k, F f) {
    using namespace hc;
    auto &W = work_counters();
    Work s = W;
    try { f(); } catch (const std::exception &) {}
    std::uint64_t e = W.edges - s.edges, b = W.bytes - s.bytes;
    if (e > 50000 + k.branches * size) fail("work:branches:" + name + ":" + key, w + fmt(": %s of %lu bytes executes %lu branches, more than %lu", name.c_str(), size, e, 50000 + k.branches * size));
    if (b > 200000 + k.moved * size) fail("work:moved:" + name + ":" + key, w + fmt(": %s of %lu bytes moves or compares %lu bytes, more than %lu", name.c_str(), size, b, 200000 + k.moved * size));
    stats.add("measured_" + name);
    stats.add("measured");
    stats.add("branches", e);
    stats.add("bytes_moved", b);
    auto most = [&](const std::string &n) {
        auto &m = stats.n["max_branches_per_byte_x10_" + n];
        m = std::max(m, e * 10 / size);
        auto &q = stats.n["max_bytes_moved_per_byte_x10_" + n];
        q = std::max(q, b * 10 / size);
        if (WORK_DEBUG) printf("%s %s %lu %lu %lu\n", key.c_str(), name.c_str(), size, e * 10 / size, b * 10 / size);
    };
    if (size > 2000) most(name);
    if (size > 100000) { most(name + "_large"); stats.add("measured_large"); }
}
