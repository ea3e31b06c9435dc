#include <cstdint>
#include <cstdio>
#include "ssz/hasher.hpp"
extern "C" void sha256_1_avx(unsigned char *, const unsigned char *);
int main() {
    static unsigned char in[64], out[32];
    std::uint64_t got;
    asm volatile("mov $0x1122334455667788, %%r14\n\tlea %2, %%rsi\n\tlea %1, %%rdi\n\tmov %%rsp, %%rbx\n\tand $-64, %%rsp\n\tcall sha256_1_avx\n\tmov %%rbx, %%rsp\n\tmov %%r14, %0"
                 : "=r"(got) : "m"(out), "m"(in) : "rax", "rbx", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15", "memory", "cc");
    printf("%lx\n", got);
    return got != 0x1122334455667788;
}