// Counts of work for C28: edges executed in instrumented code (the project's, its templates included), and bytes moved,
// set and compared by the C library's functions, which are replaced here so that calls out of libraries count as well.
#include <cstddef>
#include <cstdint>
struct Work { std::uint64_t edges, bytes; };
static Work W;
extern "C" {
Work *work_count() { return &W; }
void __sanitizer_cov_trace_pc_guard_init(std::uint32_t *, std::uint32_t *) {}
void __sanitizer_cov_trace_pc_guard(std::uint32_t *) { ++W.edges; }
#define EXPORT __attribute__((visibility("default"), noinline))
EXPORT void *memcpy(void *d, const void *s, std::size_t n) {
    W.bytes += n;
    void *r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
EXPORT void *memmove(void *d, const void *s, std::size_t n) {
    W.bytes += n;
    auto x = static_cast<volatile unsigned char *>(d);
    auto y = static_cast<const volatile unsigned char *>(s);
    if (reinterpret_cast<std::uintptr_t>(d) - reinterpret_cast<std::uintptr_t>(s) >= n) { void *p = d; asm volatile("rep movsb" : "+D"(p), "+S"(s), "+c"(n) : : "memory"); }
    else while (n--) x[n] = y[n];
    return d;
}
EXPORT void *memset(void *d, int c, std::size_t n) {
    W.bytes += n;
    void *r = d;
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
EXPORT int memcmp(const void *a, const void *b, std::size_t n) {
    auto x = static_cast<const volatile unsigned char *>(a), y = static_cast<const volatile unsigned char *>(b);
    for (std::size_t i = 0; i < n; ++i)
        if (x[i] != y[i]) { W.bytes += i; return int(x[i]) - int(y[i]); }
    W.bytes += n;
    return 0;
}
EXPORT int bcmp(const void *a, const void *b, std::size_t n) { return memcmp(a, b, n); }
EXPORT std::size_t strlen(const char *s) {
    std::size_t n = 0;
    while (static_cast<const volatile char *>(s)[n]) ++n;
    W.bytes += n;
    return n;
}
EXPORT void *memchr(const void *s, int c, std::size_t n) {
    auto x = static_cast<const volatile unsigned char *>(s);
    for (std::size_t i = 0; i < n; ++i)
        if (x[i] == static_cast<unsigned char>(c)) { W.bytes += i; return const_cast<unsigned char *>(static_cast<const unsigned char *>(s)) + i; }
    W.bytes += n;
    return nullptr;
}
}
