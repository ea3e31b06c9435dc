#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <array>
// A plain SHA-256 of one 64-byte block
static std::uint32_t rr(std::uint32_t x, int n) { return x >> n | x << (32 - n); }
static std::array<std::uint8_t, 32> sha64(const std::uint8_t *p) {
    static const std::uint32_t K[64] = {0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
    std::uint32_t h[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    std::uint8_t m[128] = {};
    memcpy(m, p, 64); m[64] = 0x80; m[126] = 2;
    for (int b = 0; b < 2; ++b) {
        std::uint32_t w[64], s[8];
        for (int i = 0; i < 16; ++i) w[i] = m[64*b+4*i] << 24 | m[64*b+4*i+1] << 16 | m[64*b+4*i+2] << 8 | m[64*b+4*i+3];
        for (int i = 16; i < 64; ++i) w[i] = w[i-16] + w[i-7] + (rr(w[i-15],7)^rr(w[i-15],18)^w[i-15]>>3) + (rr(w[i-2],17)^rr(w[i-2],19)^w[i-2]>>10);
        memcpy(s, h, 32);
        for (int i = 0; i < 64; ++i) {
            std::uint32_t t1 = s[7] + (rr(s[4],6)^rr(s[4],11)^rr(s[4],25)) + ((s[4]&s[5])^(~s[4]&s[6])) + K[i] + w[i];
            std::uint32_t t2 = (rr(s[0],2)^rr(s[0],13)^rr(s[0],22)) + ((s[0]&s[1])^(s[0]&s[2])^(s[1]&s[2]));
            for (int k = 7; k; --k) s[k] = s[k-1];
            s[4] += t1; s[0] = t1 + t2;
        }
        for (int i = 0; i < 8; ++i) h[i] += s[i];
    }
    std::array<std::uint8_t, 32> r;
    for (int i = 0; i < 32; ++i) r[i] = h[i/4] >> (24 - 8*(i%4));
    return r;
}
#define CHECK(c) do { if (!(c)) { printf("broken: %s\n", #c); exit(1); } } while (0)

#include <sys/mman.h>
#include "ssz/hasher.hpp"
int main() {
    auto *m = static_cast<std::uint8_t *>(mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(m + 4096, 4096, PROT_NONE);
    std::uint8_t out[8 * 32];
    ssz::Hasher h{ssz::Hasher::IMPL::AVX};
    for (int n = 0; n < 9; ++n) h.hash_64b_blocks(out, m + 4096 - 64 * n, n);
}