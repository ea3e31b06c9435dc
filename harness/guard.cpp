// Page-guarded allocation: while switched on, every block ends right before an unmapped page, so that code no sanitizer
// instruments (the assembly) faults on any access past it. Freed blocks stay unmapped. Single-threaded.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <unistd.h>
namespace {
const std::size_t ARENA = std::size_t(1) << 40, PAGE = 4096;
struct Head { std::size_t total, size; };
int on;
char *arena, *next;
void *get(std::size_t n, std::size_t al) {
    if (al < 16) al = 16;
    if (on && n >= 32 && arena) {
        std::size_t slack = (al - n % al) % al, pages = (n + slack + PAGE - 1) / PAGE, total = (pages + 3) * PAGE;  // header, guard, block, guard
        if (next + total <= arena + ARENA) {
            auto m = next;
            next += total;
            auto lo = m + 2 * PAGE, hi = lo + pages * PAGE, p = hi - n - slack;
            if (mprotect(m, PAGE, PROT_READ | PROT_WRITE) || mprotect(lo, pages * PAGE, PROT_READ | PROT_WRITE)) return nullptr;
            *reinterpret_cast<Head *>(m) = {total, n};
            std::memset(lo, 0x9d, std::size_t(p - lo));
            std::memset(p, 0xc7, n);
            std::memset(p + n, 0x9d, slack);
            // where the block starts is found from its end: the first header page below it
            *reinterpret_cast<char **>(m + sizeof(Head)) = p;
            return p;
        }
    }
    if (al == 16) return std::malloc(n ? n : 1);
    return aligned_alloc(al, (n + al - 1) / al * al);
}
[[noreturn]] void bad(const char *what, long at, std::size_t size) {
    printf("FAIL {\"key\": \"guard\", \"detail\": \"memory %ld bytes %s a block of %zu bytes was written\", \"crumb\": \"\"}\n", at, what, size);
    fflush(stdout);
    _exit(3);
}
void put(void *v) {
    auto p = static_cast<char *>(v);
    if (!p) return;
    if (!arena || p < arena || p >= arena + ARENA) { std::free(p); return; }
    auto lo = reinterpret_cast<char *>(reinterpret_cast<std::uintptr_t>(p) & ~(PAGE - 1)), m = lo - 2 * PAGE;
    auto h = *reinterpret_cast<Head *>(m);  // a second free faults here
    auto hi = m + h.total - PAGE;
    for (auto q = lo; q < p; ++q) if (*q != char(0x9d)) bad("below", long(p - q), h.size);
    for (auto q = p + h.size; q < hi; ++q) if (*q != char(0x9d)) bad("from the start of", long(q - p), h.size);
    madvise(m, h.total, MADV_DONTNEED);
    mprotect(m, h.total, PROT_NONE);
}
void *must(void *p) { if (!p) throw std::bad_alloc(); return p; }
}
extern "C" void guard_on(int v) {
    if (v && !arena) {
        auto a = mmap(nullptr, ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (a != MAP_FAILED) arena = next = static_cast<char *>(a);
    }
    on = v;
}
void *operator new(std::size_t n) { return must(get(n, 16)); }
void *operator new[](std::size_t n) { return must(get(n, 16)); }
void *operator new(std::size_t n, std::align_val_t a) { return must(get(n, std::size_t(a))); }
void *operator new[](std::size_t n, std::align_val_t a) { return must(get(n, std::size_t(a))); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, std::size_t) noexcept { put(p); }
void operator delete[](void *p, std::size_t) noexcept { put(p); }
void operator delete(void *p, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, std::align_val_t) noexcept { put(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { put(p); }
