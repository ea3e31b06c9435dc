// C21 with libFuzzer's engine: comparisons inside the functions guide the search for their special cases.
#include <limits>

#include "guided.hpp"
#include "helpers/math.hpp"

using namespace hc;
using u64 = std::uint64_t;
namespace {
u64 executions;
template <class T> void math_one(T x) {
    T r = helpers::integer_squareroot<T>(x);
    unsigned __int128 q = r, y = x;
    if (!(q * q <= y && (q + 1) * (q + 1) > y)) fail(fmt("sqrt:%zu", 8 * sizeof(T)), fmt("integer_squareroot of the %zu-bit %lu is %lu", 8 * sizeof(T), u64(x), u64(r)));
    if constexpr (sizeof(T) >= 4) {
        long k = helpers::log2ceil(x);
        bool ok = x == 0 ? k == 0 : k >= 0 && k <= long(8 * sizeof(T)) && ((unsigned __int128)1 << k) >= y && (k == 0 || ((unsigned __int128)1 << (k - 1)) < y);
        if (!ok) fail(fmt("log:%zu", 8 * sizeof(T)), fmt("log2ceil of the %zu-bit %lu is %ld", 8 * sizeof(T), u64(x), k));
    }
    stats.n["evaluated"]++;
}
int one(const std::uint8_t *data, std::size_t size) {
    ++executions;
    crumb("math guided input " + hex(data, size));
    for (std::size_t i = 0; i < size; i += 8) {
        u64 x = 0;
        std::memcpy(&x, data + i, size - i < 8 ? size - i : 8);
        math_one<std::uint64_t>(x);
        math_one<std::uint32_t>(std::uint32_t(x));
        math_one<unsigned long long>(x);
        math_one<std::uint16_t>(std::uint16_t(x));
    }
    return 0;
}
void finish() {
    stats.add("executions", executions);
    stats.print();
}
}  // namespace
int main(int argc, char **argv) {
    Args a(argc, argv);
    std::atexit(finish);
    drive(one, a.num("runs", 20000), mix(a.num("seed", 1), a.num("shard", 0)), 64);
}
