// Counting allocation functions for C27. live_* count blocks that are allocated now.
#include <cstdint>
#include <cstdlib>
#include <new>
struct AllocStats { std::uint64_t count, bytes, live_count, live_bytes, peak; };
static AllocStats A;
extern "C" AllocStats *alloc_stats() { return &A; }
namespace {
struct Head { std::size_t size; void *raw; };
void *get(std::size_t n, std::size_t al) {
    if (al < 16) al = 16;
    auto raw = static_cast<char *>(std::malloc(n + al + sizeof(Head)));
    if (!raw) return nullptr;
    auto p = reinterpret_cast<char *>((reinterpret_cast<std::uintptr_t>(raw) + sizeof(Head) + al - 1) & ~(al - 1));
    *(reinterpret_cast<Head *>(p) - 1) = {n, raw};
    ++A.count; A.bytes += n; ++A.live_count; A.live_bytes += n;
    if (A.live_bytes > A.peak) A.peak = A.live_bytes;
    return p;
}
void put(void *p) {
    if (!p) return;
    Head h = *(static_cast<Head *>(p) - 1);
    --A.live_count; A.live_bytes -= h.size;
    std::free(h.raw);
}
void *must(void *p) { if (!p) throw std::bad_alloc(); return p; }
}
void *operator new(std::size_t n) { return must(get(n, 16)); }
void *operator new[](std::size_t n) { return must(get(n, 16)); }
void *operator new(std::size_t n, std::align_val_t a) { return must(get(n, std::size_t(a))); }
void *operator new[](std::size_t n, std::align_val_t a) { return must(get(n, std::size_t(a))); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return get(n, 16); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return get(n, 16); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, std::size_t) noexcept { put(p); }
void operator delete[](void *p, std::size_t) noexcept { put(p); }
void operator delete(void *p, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, std::align_val_t) noexcept { put(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }
