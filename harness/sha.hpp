// Reference SHA-256, straight from FIPS 180-4; compiled without sanitizers and independent of the code under test.
#pragma once
#include <array>
#include <cstdint>
#include <cstddef>
namespace ref {
using Hash = std::array<std::uint8_t, 32>;
Hash sha256(const void *data, std::size_t n);
inline Hash hash2(const Hash &a, const Hash &b) {
    std::array<std::uint8_t, 64> s;
    for (int i = 0; i < 32; ++i) { s[i] = a[i]; s[32 + i] = b[i]; }
    return sha256(s.data(), 64);
}
void sha_selftest();
}
