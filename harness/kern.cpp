// Monitors of the SHA-256 kernels: digests (C01), memory confinement (C02), machine state (C03), interposition and
// threads (C04), capabilities (C05) and a transcript for cross-CPU comparison (C26).
#include <atomic>
#include <cpuid.h>
#include <csetjmp>
#include <csignal>
#include <sys/mman.h>
#include <sys/ucontext.h>
#include <thread>
#include <unistd.h>

#include "hc.hpp"
#include "sha.hpp"
#include "ssz/hasher.hpp"

using namespace hc;
using ssz::Hasher;
typedef void (*Fn)(unsigned char *, const unsigned char *, std::size_t);

// --- implementations -----------------------------------------------------------------------------------------------
struct Cpu { bool avx, avx2, sha; };
static Cpu cpu_probe() {
    Cpu c{};
    unsigned a, b, cc, d, max = __get_cpuid_max(0, nullptr);
    if (max >= 1) {
        __cpuid(1, a, b, cc, d);
        if ((cc >> 28 & 1) && (cc >> 27 & 1)) {  // AVX, and an operating system that enabled some of the extended state
            unsigned lo, hi;
            asm volatile("xgetbv" : "=a"(lo), "=d"(hi) : "c"(0));
            c.avx = (lo & 6) == 6;
        }
    }
    if (max >= 7) { __cpuid_count(7, 0, a, b, cc, d); c.avx2 = c.avx && (b >> 5 & 1); c.sha = b >> 29 & 1; }
    return c;
}
static const char *NAMES[5] = {"default", "SSE", "AVX", "AVX2", "SHA"};
static const Hasher::IMPL IMPLS[5] = {Hasher::IMPL::NONE, Hasher::IMPL::SSE, Hasher::IMPL::AVX, Hasher::IMPL::AVX2, Hasher::IMPL::SHA};
static Hasher *H[5];
template <int I> static void wrap(unsigned char *o, const unsigned char *i, std::size_t n) { H[I]->hash_64b_blocks(o, i, n); }
static const Fn WRAP[5] = {wrap<0>, wrap<1>, wrap<2>, wrap<3>, wrap<4>};
static std::vector<int> usable;  // indices of the implementations this CPU can run, by our own probe
static std::string only;

static void init(const Args &args) {
    ref::sha_selftest();
    auto c = cpu_probe();
    only = args.str("only");
    if (!(c.avx || c.sha)) return;  // nothing can be run here
    for (int i = 0; i < 5; ++i) {
        bool ok = i == 0 || (i == 1 && c.avx) || (i == 2 && c.avx) || (i == 3 && c.avx2) || (i == 4 && c.sha);
        if (!ok) continue;
        H[i] = i == 0 ? new Hasher() : new Hasher(IMPLS[i]);
        if (only.empty() || only == NAMES[i]) usable.push_back(i);
    }
}

// --- faults --------------------------------------------------------------------------------------------------------
static thread_local sigjmp_buf fault_env;
static thread_local volatile int fault_armed;
static volatile std::uint64_t fault_addr, fault_rip;
static volatile int fault_sig;
static void on_fault(int sig, siginfo_t *si, void *uc) {
    fault_sig = sig;
    fault_addr = std::uint64_t(si->si_addr);
    fault_rip = static_cast<ucontext_t *>(uc)->uc_mcontext.gregs[REG_RIP];
    if (fault_armed) { fault_armed = 0; siglongjmp(fault_env, 1); }
    signal(sig, SIG_DFL);
    raise(sig);
}
static void install_faults() {
    static char alt[1 << 17];
    stack_t ss{};
    ss.ss_sp = alt; ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = on_fault;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP}) sigaction(s, &sa, nullptr);
}
#define FAULTS_TO(key, ...)                                                                                             \
    if (sigsetjmp(fault_env, 1)) fail(key, fmt(__VA_ARGS__) + fmt(": signal %d, address %#lx", fault_sig, (unsigned long)fault_addr)); \
    fault_armed = 1

// --- trampoline ----------------------------------------------------------------------------------------------------
struct Tramp {
    std::uint64_t fn, out, in, n, stack;               // 0..32
    std::uint64_t gp_in[6], gp_out[6];                 // 40, 88
    std::uint64_t rsp_before, rsp_after, flags_after;  // 136, 144, 152
    std::uint32_t mxcsr_before, mxcsr_after;           // 160, 164
    std::uint64_t use_avx, flags_in;                   // 168, 176
    std::uint64_t junk[5];                             // 184: rcx r8 r9 r10 rax
    std::uint8_t pad[320 - 224];
    std::uint8_t fenv_before[40], fenv_after[40];      // 320, 360
    std::uint8_t vec[16 * 32];                         // 400
};
static_assert(offsetof(Tramp, vec) == 400 && offsetof(Tramp, fenv_before) == 320 && offsetof(Tramp, junk) == 184);
extern "C" void tramp_call(Tramp *);
extern "C" void step_call(Fn fn, unsigned char *, const unsigned char *, std::size_t);

static std::uint8_t *test_stack;  // 1 MiB: grows down from the middle
static const std::size_t STACK_BELOW = 1 << 19, STACK_ABOVE = 1 << 14;
struct StackKeeper { std::uint8_t snap[STACK_ABOVE]; };
static Tramp T;
// Calls through the trampoline with random registers, and checks the state afterwards.
static void call_checked(int impl, unsigned char *out, const unsigned char *in, std::size_t n, Rng &rng, bool check_state) {
    static StackKeeper keep;
    if (!test_stack) {
        test_stack = static_cast<std::uint8_t *>(mmap(nullptr, STACK_BELOW + STACK_ABOVE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (test_stack == MAP_FAILED) broken("mmap stack");
    }
    std::memset(&T, 0, sizeof T);
    T.fn = std::uint64_t(WRAP[impl]); T.out = std::uint64_t(out); T.in = std::uint64_t(in); T.n = n;
    auto top = test_stack + STACK_BELOW - 16 * rng.below(16);
    T.stack = std::uint64_t(top);
    for (auto &v : T.gp_in) v = rng.chance(1, 8) ? 0 : rng.next();
    for (auto &v : T.junk) v = rng.chance(1, 8) ? ~0ull : rng.next();
    T.use_avx = cpu_probe().avx;
    T.flags_in = 0x202 | (rng.next() & 0x8d5);  // CF PF AF ZF SF OF
    if (rng.chance(7, 8)) rng.fill(T.vec, sizeof T.vec); else std::memset(T.vec, 0xff, sizeof T.vec);
    std::size_t above = test_stack + STACK_BELOW + STACK_ABOVE - top;
    rng.fill(keep.snap, STACK_ABOVE > above ? above : STACK_ABOVE);
    std::size_t nk = STACK_ABOVE > above ? above : STACK_ABOVE;
    std::memcpy(top, keep.snap, nk);
    // Stale stack content below: code must not depend on it
    rng.fill(top - 8192, 8192);
    FAULTS_TO(fmt("fault:%s", NAMES[impl]), "%s n=%zu out=%p in=%p faulted", NAMES[impl], n, (void *)out, (const void *)in);
    tramp_call(&T);
    fault_armed = 0;
    if (!check_state) return;
    static const char *RN[6] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
    for (int i = 0; i < 6; ++i)
        if (T.gp_in[i] != T.gp_out[i]) fail(fmt("abi:%s:%s", NAMES[impl], RN[i]), fmt("%s n=%zu: %s was %#lx, is %#lx after the call", NAMES[impl], n, RN[i], T.gp_in[i], T.gp_out[i]));
    if (T.rsp_before != T.rsp_after) fail(fmt("abi:%s:rsp", NAMES[impl]), fmt("%s n=%zu: rsp moved by %ld", NAMES[impl], n, long(T.rsp_after - T.rsp_before)));
    if (T.flags_after & 0x400) fail(fmt("abi:%s:df", NAMES[impl]), fmt("%s n=%zu: direction flag set", NAMES[impl], n));
    if ((T.mxcsr_before ^ T.mxcsr_after) & 0xffc0) fail(fmt("abi:%s:mxcsr", NAMES[impl]), fmt("%s n=%zu: mxcsr control bits %#x -> %#x", NAMES[impl], n, T.mxcsr_before, T.mxcsr_after));
    if (std::memcmp(T.fenv_before, T.fenv_after, 2) || std::memcmp(T.fenv_before + 8, T.fenv_after + 8, 2))
        fail(fmt("abi:%s:x87", NAMES[impl]), fmt("%s n=%zu: x87 control or tag word changed (%s -> %s)", NAMES[impl], n, hex(T.fenv_before, 12).c_str(), hex(T.fenv_after, 12).c_str()));
    if (std::memcmp(top, keep.snap, nk)) {
        std::size_t k = 0;
        while (top[k] == keep.snap[k]) ++k;
        fail(fmt("abi:%s:stack", NAMES[impl]), fmt("%s n=%zu: the caller's stack changed %zu bytes above the stack pointer at the call", NAMES[impl], n, k));
    }
    stats.add("state_words_checked", 6 + 1 + 1 + 1 + 2);
    stats.add("stack_bytes_checked", nk);
}

// --- contents ------------------------------------------------------------------------------------------------------
static const char *CONTENT[] = {"random", "zero", "ones", "onebit", "counter", "same", "sparse", "allbutone"};
static int fill_content(std::uint8_t *p, std::size_t n, Rng &rng) {
    int k = rng.below(8);
    std::size_t bytes = 64 * n;
    switch (k) {
        case 0: rng.fill(p, bytes); break;
        case 1: std::memset(p, 0, bytes); break;
        case 2: std::memset(p, 0xff, bytes); break;
        case 3: std::memset(p, 0, bytes); for (std::size_t i = 0; i < n; ++i) p[64 * i + rng.below(64)] = std::uint8_t(1 << rng.below(8)); break;
        case 4: for (std::size_t i = 0; i < bytes; ++i) p[i] = std::uint8_t((i >> 6) * 7 + i); break;
        case 5: { std::uint8_t b[64]; rng.fill(b, 64); for (std::size_t i = 0; i < n; ++i) std::memcpy(p + 64 * i, b, 64); break; }
        case 6: std::memset(p, 0, bytes); for (std::size_t i = 0; i < n; ++i) if (rng.chance(1, 2)) rng.fill(p + 64 * i + 32 * rng.below(2), 32); break;
        default: std::memset(p, 0xff, bytes); for (std::size_t i = 0; i < n; ++i) p[64 * i + rng.below(64)] ^= std::uint8_t(1 << rng.below(8)); break;
    }
    return k;
}
static void check_digests(int impl, const std::uint8_t *out, const std::uint8_t *in, std::size_t n, const char *what) {
    for (std::size_t i = 0; i < n; ++i) {
        auto e = ref::sha256(in + 64 * i, 64);
        if (std::memcmp(e.data(), out + 32 * i, 32))
            fail(fmt("digest:%s", NAMES[impl]), fmt("%s %s: n=%zu block %zu: input %s digest %s expected %s", what, NAMES[impl], n, i, hex(in + 64 * i, 64).c_str(), hex(out + 32 * i, 32).c_str(), hex(e.data(), 32).c_str()));
    }
    stats.add("blocks_checked", n);
}

struct Buf {  // plain buffer with slack for any alignment and canaries around
    std::vector<std::uint8_t> v;
    std::uint8_t *p;
    std::size_t n;
    Buf(std::size_t bytes, std::size_t align, Rng &) : v(bytes + 256), n(bytes) {
        auto a = reinterpret_cast<std::uintptr_t>(v.data());
        p = v.data() + ((64 - a % 64) % 64) + 64 + align;
    }
};

static void digest_case(int impl, std::size_t n, std::size_t ia, std::size_t oa, Rng &rng, bool dirty) {
    crumbf("digest impl=%s n=%zu in_align=%zu out_align=%zu", NAMES[impl], n, ia, oa);
    Buf in(64 * n, ia, rng), out(32 * n, oa, rng);
    int k = fill_content(in.p, n, rng);
    std::memset(out.v.data(), 0xa5, out.v.size());
    if (dirty) call_checked(impl, out.p, in.p, n, rng, false);
    else {
        FAULTS_TO(fmt("fault:%s", NAMES[impl]), "%s n=%zu in_align=%zu out_align=%zu faulted", NAMES[impl], n, ia, oa);
        H[impl]->hash_64b_blocks(out.p, in.p, n);
        fault_armed = 0;
    }
    check_digests(impl, out.p, in.p, n, "hash_64b_blocks");
    stats.add("calls");
    stats.seen("case", fmt("%s/%zu/%zu/%zu/%s", NAMES[impl], n, ia, oa, CONTENT[k]));
    stats.add(std::string("calls_") + NAMES[impl]);
    if (stats.n["calls"] % 997 == 1) stats.sample(fmt("%s n=%zu in+%zu out+%zu %s", NAMES[impl], n, ia, oa, CONTENT[k]));
}

static void cmd_counts(Rng &rng);
static void cmd_digest(const Args &a, Rng &rng) {
    std::size_t maxn = a.num("maxn", 80), reps = a.num("reps", 3), rnd = a.num("random", 1500), big = a.num("big", 1);
    for (std::size_t r = 0; r < reps; ++r)
        for (std::size_t n = 0; n <= maxn; ++n)
            for (int impl : usable) digest_case(impl, n, r == 0 ? 0 : rng.below(64), r == 0 ? 0 : rng.below(64), rng, r != 1);
    // every alignment with every remainder
    for (std::size_t al = 0; al < 64; ++al)
        for (int impl : usable) { digest_case(impl, 1 + rng.below(19), al, rng.below(64), rng, false); digest_case(impl, 1 + rng.below(19), rng.below(64), al, rng, false); }
    for (std::size_t k = 0; k < rnd; ++k) {
        std::size_t n = rng.chance(1, 4) ? rng.below(600) : rng.below(40);
        digest_case(usable[rng.below(usable.size())], n, rng.below(64), rng.below(64), rng, rng.chance(1, 2));
    }
    if (a.num("counts", 1)) cmd_counts(rng);
    // state carried from call to call must not exist: short bursts over the same buffers
    if (big)
        for (int impl : usable)
            for (std::size_t n : {std::size_t(1023), std::size_t(4099), std::size_t(65535), std::size_t(65536), std::size_t(65537 + rng.below(8))})
                digest_case(impl, n, rng.below(64), rng.below(64), rng, false);
    if (big > 1)
        for (int impl : usable)
            for (std::size_t n : {std::size_t(1) << 20, (std::size_t(1) << 20) + 1 + rng.below(16), std::size_t(3000001)}) digest_case(impl, n, rng.below(64), rng.below(64), rng, false);
}

// Byte offsets past 2^32: the input and the output are small mappings repeated with a period that does not divide 2^32.
static std::uint8_t *repeated(std::size_t bytes, std::size_t chunk) {
    std::size_t maps = (bytes + chunk - 1) / chunk;
    int fd = memfd_create("rep", 0);
    if (fd < 0 || ftruncate(fd, off_t(chunk))) broken("memfd");
    auto base = static_cast<std::uint8_t *>(mmap(nullptr, maps * chunk, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (base == MAP_FAILED) broken("huge map");
    for (std::size_t i = 0; i < maps; ++i)
        if (mmap(base + i * chunk, chunk, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) broken("huge map part");
    close(fd);
    return base;
}
static void cmd_huge(const Args &a, Rng &rng) {
    std::size_t n = a.num("blocks", (std::size_t(1) << 26) + 5), period = (1 << 14) + 384;  // blocks; 64 and 32 bytes of them are whole pages
    auto in = repeated(64 * n, 64 * period), out = repeated(32 * n, 32 * period);
    rng.fill(in, 64 * period);
    std::vector<ref::Hash> expect(period);
    for (std::size_t i = 0; i < period; ++i) expect[i] = ref::sha256(in + 64 * i, 64);
    for (int impl : usable) {
        crumbf("huge impl=%s n=%zu", NAMES[impl], n);
        std::memset(out, 0, 32 * period);
        FAULTS_TO(fmt("fault:%s", NAMES[impl]), "%s n=%zu faulted", NAMES[impl], n);
        H[impl]->hash_64b_blocks(out, in, n);
        fault_armed = 0;
        for (std::size_t i = 0; i < period; ++i)
            if (std::memcmp(out + 32 * i, expect[i].data(), 32)) fail(fmt("digest:%s:huge", NAMES[impl]), fmt("%s n=%zu: wrong digest at a block number congruent to %zu mod %zu", NAMES[impl], n, i, period));
        stats.add("blocks_hashed_past_4GiB", n);
        stats.add("calls");
        stats.add(std::string("calls_") + NAMES[impl]);
        stats.seen("case", fmt("huge/%s/%zu", NAMES[impl], n));
        stats.sample(fmt("%s n=%zu (%zu GiB of input)", NAMES[impl], n, n >> 24));
    }
}
// Counts around 2^32 cannot be run to the end here. But a call that returns without having gone past the first few
// mapped blocks has not hashed the rest.
static void cmd_counts(Rng &rng) {
    std::size_t mapped = 1 << 20;
    auto region = [&](std::size_t total) {
        auto p = static_cast<std::uint8_t *>(mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (p == MAP_FAILED) return static_cast<std::uint8_t *>(nullptr);
        if (mprotect(p, mapped, PROT_READ | PROT_WRITE)) broken("mprotect");
        return p;
    };
    for (std::size_t n : {(std::size_t(1) << 31) + 1, std::size_t(1) << 32, (std::size_t(1) << 32) + 3, (std::size_t(1) << 33) + 8, (std::size_t(1) << 36) + 5}) {
        auto in = region(64 * n), out = region(32 * n);
        if (!in || !out) { stats.add("counts_unmappable"); continue; }
        rng.fill(in, mapped);
        for (int impl : usable) {
            crumbf("counts impl=%s n=%zu", NAMES[impl], n);
            if (!sigsetjmp(fault_env, 1)) {
                fault_armed = 1;
                H[impl]->hash_64b_blocks(out, in, n);
                fault_armed = 0;
                fail(fmt("digest:%s:count", NAMES[impl]), fmt("%s n=%zu returned without hashing past its first %zu blocks", NAMES[impl], n, mapped / 32));
            }
            stats.add("huge_counts_followed");
            stats.seen("case", fmt("count/%s/%zu", NAMES[impl], n));
        }
        munmap(in, 64 * n);
        munmap(out, 32 * n);
    }
}

// --- C02 -----------------------------------------------------------------------------------------------------------
struct Guarded {  // pages between two unmapped ones
    std::uint8_t *map, *lo, *hi;
    std::size_t total;
    explicit Guarded(std::size_t bytes) {
        std::size_t pages = (bytes + 4095) / 4096 + 1;
        total = (pages + 2) * 4096;
        map = static_cast<std::uint8_t *>(mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (map == MAP_FAILED) broken("mmap");
        lo = map + 4096; hi = lo + pages * 4096;
        writable();
    }
    void writable() { if (mprotect(lo, hi - lo, PROT_READ | PROT_WRITE)) broken("mprotect"); }
    void readonly() { if (mprotect(lo, hi - lo, PROT_READ)) broken("mprotect"); }
    ~Guarded() { munmap(map, total); }
};
static void confine_case(int impl, std::size_t n, int place_in, int place_out, Rng &rng, Guarded &gi, Guarded &go) {
    crumbf("confine impl=%s n=%zu in=%d out=%d", NAMES[impl], n, place_in, place_out);
    std::size_t ib = 64 * n, ob = 32 * n;
    gi.writable();
    rng.fill(gi.lo, gi.hi - gi.lo);
    rng.fill(go.lo, go.hi - go.lo);
    // place: 0 = starts at the lower guard, 1 = ends at the upper guard, 2 = anywhere unaligned in between
    auto at = [&](Guarded &g, std::size_t b, int pl) { return pl == 0 ? g.lo : pl == 1 ? g.hi - b : g.lo + rng.below(g.hi - g.lo - b + 1); };
    auto in = at(gi, ib, place_in), out = at(go, ob, place_out);
    fill_content(in, n, rng);
    Bytes in_snap(gi.lo, gi.hi), out_snap(go.lo, go.hi);
    gi.readonly();
    FAULTS_TO(fmt("confine:%s:fault", NAMES[impl]), "%s n=%zu in=[%p,%p) readable [%p,%p) out=[%p,%p) writable [%p,%p)", NAMES[impl], n, (void *)in, (void *)(in + ib), (void *)gi.lo, (void *)gi.hi, (void *)out, (void *)(out + ob), (void *)go.lo, (void *)go.hi);
    WRAP[impl](out, in, n);
    fault_armed = 0;
    if (std::memcmp(in_snap.data(), gi.lo, in_snap.size())) fail(fmt("confine:%s:input", NAMES[impl]), fmt("%s n=%zu: input memory changed", NAMES[impl], n));
    for (std::size_t i = 0; i < out_snap.size(); ++i)
        if (go.lo + i < out || go.lo + i >= out + ob) {
            if (go.lo[i] != out_snap[i]) fail(fmt("confine:%s:write", NAMES[impl]), fmt("%s n=%zu: byte at output%+ld written", NAMES[impl], n, long(go.lo + i - out)));
        }
    check_digests(impl, out, in, n, "confined");
    stats.add("calls");
    stats.add("guard_bytes_compared", out_snap.size() - ob + in_snap.size());
    stats.seen("case", fmt("%s/%zu/%d/%d", NAMES[impl], n, place_in, place_out));
    if (stats.n["calls"] % 613 == 1) stats.sample(fmt("%s n=%zu in@%d out@%d", NAMES[impl], n, place_in, place_out));
}
static void cmd_confine(const Args &a, Rng &rng) {
    std::size_t maxn = a.num("maxn", 70), reps = a.num("reps", 2), rnd = a.num("random", 300);
    {
        Guarded gi(64 * maxn), go(32 * maxn);
        for (std::size_t r = 0; r < reps; ++r)
            for (std::size_t n = 0; n <= maxn; ++n)
                for (int impl : usable)
                    for (int pi = 0; pi < 3; ++pi)
                        for (int po = 0; po < 3; ++po) confine_case(impl, n, pi, po, rng, gi, go);
    }
    {
        Guarded gi(64 * 2100), go(32 * 2100);
        for (std::size_t k = 0; k < rnd; ++k) confine_case(usable[rng.below(usable.size())], rng.below(2100), rng.below(3), rng.below(3), rng, gi, go);
    }
    for (std::size_t k = 0; k < a.num("large", 3); ++k) {
        std::size_t n = (std::size_t(1) << rng.range(12, 17)) + rng.below(20) - 9;
        Guarded gi(64 * n), go(32 * n);
        for (int impl : usable) confine_case(impl, n, rng.below(3), rng.below(3), rng, gi, go);
    }
    // nothing is touched for zero blocks, whatever the pointers
    Guarded g(4096);
    std::uint8_t *wild[] = {nullptr, g.map, g.map + 17, g.hi, g.hi + 4095, reinterpret_cast<std::uint8_t *>(0x10), reinterpret_cast<std::uint8_t *>(0xdead00000000ull)};
    for (int impl : usable)
        for (auto o : wild)
            for (auto i : wild) {
                crumbf("zero blocks impl=%s out=%p in=%p", NAMES[impl], (void *)o, (void *)i);
                FAULTS_TO(fmt("confine:%s:zero", NAMES[impl]), "%s n=0 out=%p in=%p touched memory", NAMES[impl], (void *)o, (void *)i);
                WRAP[impl](o, i, 0);
                fault_armed = 0;
                stats.add("calls");
                stats.seen("case", fmt("%s/zero/%p/%p", NAMES[impl], (void *)o, (void *)i));
            }
}

// --- C03 -----------------------------------------------------------------------------------------------------------
static void cmd_abi(const Args &a, Rng &rng) {
    std::size_t maxn = a.num("maxn", 70), reps = a.num("reps", 20), rnd = a.num("random", 3000);
    std::vector<std::uint8_t> in(64 * 3000 + 64), out(32 * 3000 + 64);
    auto one = [&](int impl, std::size_t n) {
        auto i = in.data() + rng.below(64), o = out.data() + rng.below(64);
        crumbf("abi impl=%s n=%zu", NAMES[impl], n);
        fill_content(i, n, rng);
        call_checked(impl, o, i, n, rng, true);
        if (n < 100) check_digests(impl, o, i, n, "dirty registers");
        stats.add("calls");
        stats.seen("case", fmt("%s/%zu", NAMES[impl], n));
        stats.seen("state", hash64(T.gp_in, sizeof T.gp_in));
        if (stats.n["calls"] % 1999 == 1) stats.sample(fmt("%s n=%zu rsp%%64=%lu rbx=%#lx", NAMES[impl], n, T.rsp_before % 64, T.gp_in[0]));
    };
    for (std::size_t r = 0; r < reps; ++r)
        for (std::size_t n = 0; n <= maxn; ++n)
            for (int impl : usable) one(impl, n);
    for (std::size_t k = 0; k < rnd; ++k) one(usable[rng.below(usable.size())], rng.chance(1, 10) ? rng.below(3000) : rng.below(200));
    in.resize((64 << 17) + 2048); out.resize((32 << 17) + 2048);
    for (std::size_t k = 0; k < a.num("large", 3); ++k)
        for (int impl : usable) one(impl, (std::size_t(1) << rng.range(12, 17)) + rng.below(20) - 9);
}

// --- C04 -----------------------------------------------------------------------------------------------------------
static struct {
    volatile int on;
    volatile std::uint64_t steps, nested, stride, phase;
    int impl;
    std::size_t n;
    const std::uint8_t *in, *expect;
    std::uint8_t *out;
    volatile int bad;
    volatile std::uint64_t bad_step;
} S;
static void on_step(int, siginfo_t *, void *) {
    if (!S.on) return;
    auto k = S.steps;
    S.steps = k + 1;
    if ((k + S.phase) % S.stride) return;
    std::memset(S.out, 0, 32 * S.n);
    WRAP[S.impl](S.out, S.in, S.n);
    S.nested = S.nested + 1;
    if (std::memcmp(S.out, S.expect, 32 * S.n) && !S.bad) { S.bad = 1; S.bad_step = k; }
}
static bool single_step_works() {
    alignas(64) static std::uint8_t in[64], out[32], in2[64], out2[32];
    S.on = 1; S.steps = 0; S.stride = 1; S.phase = 0; S.impl = usable[0]; S.n = 0; S.in = in2; S.out = out2; S.expect = out2;
    step_call(WRAP[usable[0]], out, in, 1);
    S.on = 0;
    return S.steps > 50;
}
static void cmd_step(const Args &a, Rng &rng) {
    struct sigaction sa{};
    sa.sa_sigaction = on_step;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGTRAP, &sa, nullptr);
    if (!single_step_works()) { stats.add("single_step_unavailable"); return; }
    std::size_t reps = a.num("reps", 1);
    std::vector<std::uint8_t> in(64 * 64 + 64), out(32 * 64 + 64), in2(64 * 64 + 64), out2(32 * 64 + 64), ex(32 * 64), ex2(32 * 64);
    for (std::size_t r = 0; r < reps; ++r)
        for (int ia : usable)
            for (int ib : usable)
                for (std::size_t na : {1, 2, 3, 5, 8, 13, 16}) {
                    if (ia != ib && ia == 0) continue;  // the default is one of the others
                    if ((std::size_t(ia) * 5 + std::size_t(ib) * 3 + na) % a.num("shards", 1) != a.num("shard", 0)) continue;
                    static const std::size_t NB[] = {1, 2, 3, 4, 8, 13};
                    std::size_t nb = NB[rng.below(6)];
                    if (ia == ib && r == 0) nb = na;
                    auto pi = in.data() + rng.below(64), po = out.data() + rng.below(64), pi2 = in2.data() + rng.below(64), po2 = out2.data() + rng.below(64);
                    fill_content(pi, na, rng); fill_content(pi2, nb, rng);
                    for (std::size_t i = 0; i < na; ++i) { auto h = ref::sha256(pi + 64 * i, 64); std::memcpy(&ex[32 * i], h.data(), 32); }
                    for (std::size_t i = 0; i < nb; ++i) { auto h = ref::sha256(pi2 + 64 * i, 64); std::memcpy(&ex2[32 * i], h.data(), 32); }
                    crumbf("step A=%s n=%zu B=%s n=%zu", NAMES[ia], na, NAMES[ib], nb);
                    std::memset(po, 0, 32 * na);
                    S.steps = 0; S.nested = 0; S.stride = a.num("stride", 1); S.phase = rng.below(S.stride); S.impl = ib; S.n = nb; S.in = pi2; S.out = po2; S.expect = ex2.data(); S.bad = 0; S.on = 1;
                    FAULTS_TO(fmt("step:%s:%s:fault", NAMES[ia], NAMES[ib]), "A=%s(%zu) B=%s(%zu) faulted at step %lu", NAMES[ia], na, NAMES[ib], nb, (unsigned long)S.steps);
                    step_call(WRAP[ia], po, pi, na);
                    fault_armed = 0;
                    S.on = 0;
                    if (S.bad) fail(fmt("step:%s:%s:inner", NAMES[ia], NAMES[ib]), fmt("a call of %s(%zu blocks) interposed at instruction %lu of %s(%zu) gave a wrong digest", NAMES[ib], nb, (unsigned long)S.bad_step, NAMES[ia], na));
                    if (std::memcmp(po, ex.data(), 32 * na)) {
                        // locate one interposition point that breaks it
                        std::uint64_t total = S.steps, culprit = ~0ull;
                        for (std::uint64_t p = 0; p < total && culprit == ~0ull; ++p) {
                            std::memset(po, 0, 32 * na);
                            S.steps = 0; S.stride = ~0ull; S.phase = ~0ull - p; S.on = 1;
                            step_call(WRAP[ia], po, pi, na);
                            S.on = 0;
                            if (std::memcmp(po, ex.data(), 32 * na)) culprit = p;
                        }
                        fail(fmt("step:%s:%s:outer", NAMES[ia], NAMES[ib]), fmt("%s(%zu blocks) gives a wrong digest when %s(%zu) runs between its instructions (%lu steps; first culprit instruction %ld)", NAMES[ia], na, NAMES[ib], nb, (unsigned long)total, long(culprit)));
                    }
                    stats.add("instructions_stepped", S.steps);
                    stats.add("calls_interposed", S.nested);
                    stats.add("outer_calls");
                    for (std::uint64_t k = 0; k < S.steps; k += S.stride) stats.seen("interleaving", mix(mix(k, fmt("%d/%d/%zu", ia, ib, na)), nb));
                    stats.sample(fmt("A=%s(%zu) stepped %lu instructions, B=%s(%zu) interposed %lu times", NAMES[ia], na, (unsigned long)S.steps, NAMES[ib], nb, (unsigned long)S.nested));
                }
}
static void cmd_threads(const Args &a, Rng &rng) {
    std::size_t nt = a.num("threads", 8), rounds = a.num("rounds", 3), iters = a.num("iters", 20000);
    const std::size_t POOL = 256;
    std::vector<std::uint8_t> pool(64 * POOL), digests(32 * POOL);
    rng.fill(pool.data(), pool.size());
    for (std::size_t i = 0; i < POOL; ++i) { auto h = ref::sha256(&pool[64 * i], 64); std::memcpy(&digests[32 * i], h.data(), 32); }
    for (std::size_t round = 0; round < rounds; ++round) {
        // one implementation on all threads, or a mix
        int fixed = round % 2 ? -1 : usable[(round / 2) % usable.size()];
        std::atomic<std::size_t> ready{0};
        std::atomic<std::uint64_t> calls{0}, overlaps{0}, active{0};
        std::vector<std::thread> ts;
        for (std::size_t t = 0; t < nt; ++t)
            ts.emplace_back([&, t, seed = rng.next()] {
                Rng r(seed);
                std::vector<std::uint8_t> out(32 * 40);
                ++ready;
                while (ready < nt) std::this_thread::yield();
                for (std::size_t k = 0; k < iters; ++k) {
                    int impl = fixed >= 0 ? fixed : usable[r.below(usable.size())];
                    std::size_t n = r.chance(1, 2) ? 2 : 1 + r.below(24), at = r.below(POOL - n);
                    if (active.fetch_add(1, std::memory_order_relaxed)) overlaps.fetch_add(1, std::memory_order_relaxed);
                    H[impl]->hash_64b_blocks(out.data(), &pool[64 * at], n);
                    active.fetch_sub(1, std::memory_order_relaxed);
                    if (std::memcmp(out.data(), &digests[32 * at], 32 * n)) fail(fmt("threads:%s", NAMES[impl]), fmt("thread %zu call %zu: %s(%zu blocks) gave a wrong digest while %zu threads hash", t, k, NAMES[impl], n, nt));
                    ++calls;
                    if (r.chance(1, 64)) std::this_thread::yield();
                }
            });
        for (auto &t : ts) t.join();
        crumbf("threads round=%zu", round);
        stats.add("thread_calls", calls);
        stats.add("overlapping_thread_calls", overlaps);
    }
}

// --- C05 -----------------------------------------------------------------------------------------------------------
static void cmd_caps(const Args &, Rng &rng) {
    auto c = cpu_probe();
    auto impl = Hasher::implemented();
    int bits = static_cast<int>(impl);
    printf("INFO cpu avx=%d avx2=%d sha=%d reported=%d\n", c.avx, c.avx2, c.sha, bits);
    auto rep = [&](Hasher::IMPL i) { return !!(impl & i); };
    struct { Hasher::IMPL i; bool has; const char *name; } want[] = {{Hasher::IMPL::AVX, c.avx, "AVX"}, {Hasher::IMPL::AVX2, c.avx2, "AVX2"}, {Hasher::IMPL::SHA, c.sha, "SHA"}};
    for (auto &w : want)
        if (w.has && !rep(w.i)) fail(fmt("caps:missing:%s", w.name), fmt("the CPU has %s, reported capabilities %d do not", w.name, bits));
        else if (!w.has && rep(w.i)) fail(fmt("caps:extra:%s", w.name), fmt("reported capabilities %d hold %s, which the CPU does not announce or the system does not enable", bits, w.name));
    if (bits & ~15) fail("caps:unknown", fmt("reported capabilities %d hold unknown bits", bits));
    for (int k = 0; k < 50; ++k)
        if (static_cast<int>(Hasher::implemented()) != bits) fail("caps:unstable", "the reported capabilities change from call to call");
    std::vector<std::uint8_t> in(64 * 40), out(32 * 40);
    auto run = [&](const Hasher &h, const char *name) {
        for (std::size_t n = 0; n < 40; ++n) {
            fill_content(in.data(), n, rng);
            crumbf("caps %s n=%zu", name, n);
            FAULTS_TO(fmt("caps:fault:%s", name), "%s, reported as supported (%d), faulted with n=%zu", name, bits, n);
            h.hash_64b_blocks(out.data(), in.data(), n);
            fault_armed = 0;
            for (std::size_t i = 0; i < n; ++i) {
                auto e = ref::sha256(&in[64 * i], 64);
                if (std::memcmp(e.data(), &out[32 * i], 32)) fail(fmt("caps:digest:%s", name), fmt("%s n=%zu block %zu wrong", name, n, i));
            }
            stats.add("calls");
        }
        stats.add("implementations_run");
    };
    for (int i = 1; i < 5; ++i)
        if (rep(IMPLS[i])) run(Hasher{IMPLS[i]}, NAMES[i]);
    if (bits) { run(Hasher{}, "default"); run(Hasher{Hasher::IMPL::NONE}, "default"); }
    stats.add("reported_bits", bits);
    stats.add("capability_checks", 3 + 50);
    stats.sample(fmt("cpu avx=%d avx2=%d sha=%d reported=%d", c.avx, c.avx2, c.sha, bits));
}

// --- C26 -----------------------------------------------------------------------------------------------------------
static void cmd_transcript(const Args &a, Rng &rng) {
    if (static_cast<int>(Hasher::implemented()) == 0) { printf("INFO no implementation\n"); return; }
    Hasher h;
    std::size_t cases = a.num("cases", 400);
    for (std::size_t k = 0; k < cases; ++k) {
        std::size_t n = k < 70 ? k : rng.below(300);
        std::vector<std::uint8_t> in(64 * n), out(32 * n);
        fill_content(in.data(), n, rng);
        crumbf("transcript kern %zu n=%zu", k, n);
        FAULTS_TO("transcript:fault", "default hasher faulted with n=%zu", n);
        h.hash_64b_blocks(out.data(), in.data(), n);
        fault_armed = 0;
        printf("T kern %zu n=%zu in=%016lx out=%016lx\n", k, n, (unsigned long)hash64(in.data(), in.size()), (unsigned long)hash64(out.data(), out.size()));
        stats.add("operations");
    }
}

int main(int argc, char **argv) {
    Args a(argc, argv);
    Rng rng(mix(mix(a.num("seed", 1), a.cmd), a.num("shard", 0)));
    install_faults();
    if (a.cmd == "caps") { ref::sha_selftest(); cmd_caps(a, rng); stats.print(); return 0; }
    if (a.cmd == "transcript") { ref::sha_selftest(); cmd_transcript(a, rng); stats.print(); return 0; }
    init(a);
    if (usable.empty()) { stats.add("no_usable_implementation"); stats.print(); return 0; }
    for (int i : usable) stats.add(std::string("impl_") + NAMES[i]);
    if (a.cmd == "digest") cmd_digest(a, rng);
    else if (a.cmd == "huge") cmd_huge(a, rng);
    else if (a.cmd == "confine") cmd_confine(a, rng);
    else if (a.cmd == "abi") cmd_abi(a, rng);
    else if (a.cmd == "step") cmd_step(a, rng);
    else if (a.cmd == "threads") cmd_threads(a, rng);
    else broken("unknown command " + a.cmd);
    stats.print();
    return 0;
}
