"""What every check runs: the workloads of each property, their sizes and what counts as an observation."""
import os

NS = 8  # processes a workload is divided over


class Job:
    def __init__(self, bin, args, wrap=(), mem=None, patience=60):
        self.bin, self.args, self.wrap, self.patience = bin, [str(a) for a in args], list(wrap), patience
        if mem is None:  # address space, MiB; sanitizers, page guards and CPU emulation reserve too much of it to be limited
            mem = 3000 if ("-rel" in bin or "-impl" in bin) and bin.startswith(("ssz", "tree", "misc")) and self.wrap[:1] in ([], ["env"]) else 0
        self.mem = mem


class Spec:
    def __init__(self, jobs, evals, distinct, rule, assume, need=(), after=None, distinct_counts=()):
        self.jobs, self.evals, self.distinct, self.rule, self.assume, self.need, self.after, self.distinct_counts = jobs, evals, distinct, rule, assume, list(need), after, list(distinct_counts)


TRUST = ["the reference model in harness/ref.cpp and sha.cpp (checked against known SHA-256 vectors at start-up and against tools/sszmodel.py)", "clang++ builds with the project's release flags behave as the project's own build"]
SAN = ["sanitizers see only what the workload executes; assembly is not instrumented (its memory accesses are watched by page guards in C02 and C08)"]


def sharded(bin, cmd, args=(), shards=NS, **kw):
    return [Job(bin, [cmd] + list(args) + ["--shard", i, "--shards", shards], **kw) for i in range(shards)]


def ssz(cmd, quick, thorough=12, extra=(), big=(0, 0), giant=0):
    """quick: {variant: iterations}; thorough multiplies them. big: long values per type, without and with sanitizers; giant: values past 2^24 bytes"""
    def jobs(tier, seed):
        out = []
        if giant:
            out += sharded("ssz-rel-minimal", cmd, ["--seed", seed, "--iters", 0, "--min", 0, "--giant", giant * (1 if tier == "quick" else 6)] + list(extra), patience=200, mem=8000)
        for var, it in quick.items():
            k = thorough if tier == "thorough" else 1
            n = big[0] if var == "rel-minimal" else big[1] if var == "asan-minimal" else 0
            out += sharded("ssz-" + var, cmd, ["--seed", seed, "--iters", it * k, "--big", n * min(k, 8), "--bigcap", 150000 if "asan" in var else 600000] + list(extra), patience=120 if n else 60)
        return out
    return jobs


def guided(mode, quick, thorough=40):
    """Coverage-guided search with the same oracle, by libFuzzer's engine"""
    def jobs(tier, seed):
        n = quick if tier == "quick" else thorough * quick
        return sharded("ssz-fuzz-minimal", "guided", ["--mode", mode, "--seed", seed, "--runs", n], patience=120)
    return jobs


def both(*fs):
    return lambda tier, seed: [j for f in fs for j in f(tier, seed)]


def colossal(what, var="rel"):
    """Values past 2^31 bits (or characters)"""
    big = ["env", "ASAN_OPTIONS=detect_leaks=0:handle_abort=0:exitcode=77"] if var == "asan" else []
    return lambda tier, seed: [Job("ssz-%s-minimal" % var, ["colossal", "--what", what, "--seed", seed], wrap=big, mem=0, patience=400)]


def deep(f):
    """In the thorough tier only"""
    return lambda tier, seed: f(tier, seed) if tier == "thorough" else []


def pred(which, quick=100000, thorough=1500000):
    def jobs(tier, seed):
        n = quick if tier == "quick" else thorough
        out = []
        for var, k in (("rel-minimal", 1), ("asan-minimal", 4)):
            out += sharded("ssz-" + var, "predicates", ["--which", which, "--seed", seed, "--random", n // k])
        return out
    return jobs


IMPLS = ["default", "SSE", "AVX", "AVX2", "SHA"]
# CPU models to run on besides this machine's: from none of the extensions to all of them, in most combinations
MODELS = ["qemu64", "core2duo", "Nehalem", "Westmere", "SandyBridge", "IvyBridge", "Haswell", "Denverton", "Snowridge", "Skylake-Client", "EPYC", "EPYC-Milan", "max",
          "max,-sha-ni", "max,-avx2", "max,-avx2,-sha-ni", "max,-avx,-avx2", "max,-avx,-avx2,-sha-ni", "Nehalem,+sha-ni", "SandyBridge,+sha-ni", "Haswell,+sha-ni",
          # extensions that neither kernel uses, other vendors, short cpuid tables, AVX not enabled by the operating system
          "Haswell,-bmi1,-bmi2,-fma,-movbe", "max,-bmi1,-bmi2,-adx,-fma,-rdrand,-rdseed", "max,-sse4.2,-popcnt,-aes,-pclmulqdq,-f16c", "max,vendor=CentaurHauls",
          "max,vendor=GenuineIntel,-erms,-fsgsbase", "Opteron_G4", "Opteron_G5", "KnightsMill", "Broadwell", "Denverton,-rdseed,-mpx", "Haswell,level=6", "Haswell,level=4", "max,level=6", "max,-xsave", "Haswell,-xsave", "max,-avx"]


# Those on which the library cannot hash at all (it says so): only C05 visits them
INCAPABLE = {"qemu64", "core2duo", "Nehalem", "Westmere", "max,-avx,-avx2,-sha-ni", "Haswell,-xsave"}


def cpu_flags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split())
    except OSError:
        pass
    return set()


def NATIVE():
    """The implementations this CPU can run"""
    f = cpu_flags()
    return [i for i, fl in (("SSE", "avx"), ("AVX", "avx"), ("AVX2", "avx2"), ("SHA", "sha_ni")) if fl in f]


def kern(cmd, quick, thorough, shards=NS, patience=60):
    """Natively, and whatever this CPU lacks under an emulated one that has everything."""
    def jobs(tier, seed):
        args = quick if tier == "quick" else thorough
        out = sharded("kern-rel", cmd, ["--seed", seed] + list(args), shards, patience=patience)
        f = cpu_flags()
        lacking = [i for i, fl in (("AVX", "avx"), ("SSE", "avx"), ("AVX2", "avx2"), ("SHA", "sha_ni")) if fl not in f]
        if f and lacking and cmd in ("digest", "confine", "abi", "threads"):
            for i in lacking:
                out.append(Job("kern-rel", [cmd, "--seed", seed, "--only", i, "--reps", 1, "--random", 60, "--large", 0, "--big", 0, "--counts", 0, "--iters", 200], wrap=["qemu-x86_64", "-cpu", "max"], patience=120))
        return out
    return jobs


def c01(tier, seed):
    out = kern("digest", ["--reps", 6, "--random", 6000], ["--reps", 60, "--random", 200000, "--maxn", 140, "--big", 2], patience=120)(tier, seed)
    blocks = [(1 << 26) + 5] if tier == "quick" else [(1 << 26) + 5, (1 << 27) + 11, (1 << 28) + 3]
    for b in blocks:
        out += [Job("kern-rel", ["huge", "--only", i, "--blocks", b, "--seed", seed], patience=400) for i in IMPLS]
    return out


def c04(tier, seed):
    out = sharded("kern-rel", "step", ["--seed", seed, "--reps", 1 if tier == "quick" else 12], patience=120)
    n = 3 if tier == "quick" else 12
    out += [Job("kern-rel", ["threads", "--seed", seed * 100 + k, "--rounds", 10, "--iters", 40000 if tier == "quick" else 200000], patience=200) for k in range(n)]
    return out


def c05(tier, seed):
    n = 1 if tier == "quick" else 8
    out = []
    for k in range(n):
        out.append(Job("kern-rel", ["caps", "--seed", seed * 100 + k]))
        out += [Job("kern-rel", ["caps", "--seed", seed * 100 + k], wrap=["qemu-x86_64", "-cpu", m], patience=120) for m in MODELS]
    return out


def c05_after(done, total, samples):
    total["cpu_models"] = len({tuple(j.wrap) for j, o in done})
    total["cpu_feature_sets"] = len({tuple(l for l in o.lines if l.startswith("INFO")) for j, o in done})
    return None


def c06(cmd, variants):
    def jobs(tier, seed):
        out = [Job("tree-rel", ["huge", "--what", cmd, "--seed", seed, "--logn", 26 if tier == "quick" else 27], mem=0, patience=400)]
        for var, k in variants:
            n = k if tier == "quick" else 15 * k
            large = {"rel": 48, "asan": 8, "guard": 8}[var]
            out += sharded("tree-" + var, cmd, ["--seed", seed, "--random", n, "--maxn", 260, "--big", 40 if tier == "quick" else 300, "--large", large if tier == "quick" else 8 * large, "--maxk", 18 if var == "rel" else 17], patience=120)
        # with each implementation of the hash function in the place of the best one
        for impl in NATIVE():
            out += sharded("tree-impl", cmd, ["--seed", seed, "--random", (4000 if tier == "quick" else 60000), "--maxn", 260, "--big", 10, "--large", 4, "--maxk", 17, "--impl", impl], shards=2, wrap=["env", "VERIF_IMPL=" + impl], patience=120)
        return out
    return jobs


def c16(tier, seed):
    m = 1 if tier == "quick" else 12
    return sharded("misc-rel", "conv", ["--seed", seed, "--reps", 120 * m]) + sharded("misc-asan", "conv", ["--seed", seed, "--reps", 40 * m])


def pool(quick):
    """Histories of trees"""
    def jobs(tier, seed):
        m = 1 if tier == "quick" else 20
        return [j for var, n in quick.items() for j in sharded("tree-" + var, "pool", ["--seed", seed, "--random", n * m], patience=120)]
    return jobs


def c21(tier, seed):
    x = ["--random", 8000000, "--dense", 1 << 18] if tier == "quick" else ["--random", 400000000, "--dense", 1 << 22, "--exhaustive32", 1]
    return sharded("misc-rel", "math", ["--seed", seed] + x, patience=600) + sharded("misc-asan", "math", ["--seed", seed, "--random", 2000000 if tier == "quick" else 40000000], patience=600) + sharded("mathguided-fuzz", "math", ["--seed", seed, "--runs", 200000 if tier == "quick" else 6000000], patience=600)


def c22(tier, seed):
    n = 1 if tier == "quick" else 6
    return [Job("presets-rel-" + p, ["presets", "--seed", seed * 100 + k, "--max", 5000 if tier == "quick" else 40000], patience=200) for p in ("minimal", "mainnet") for k in range(n)]


def c23(tier, seed):
    m = 1 if tier == "quick" else 10
    out = [Job("ssz-tsan-minimal", ["mt", "--seed", seed * 100 + k, "--threads", t, "--ops", o, "--rounds", r * m], patience=200) for k, (t, o, r) in enumerate([(8, 800, 4), (8, 800, 4), (3, 2500, 4), (16, 300, 4), (2, 3000, 4), (8, 60, 20)])]
    out += [Job("ssz-rel-minimal", ["mt", "--seed", seed * 100 + 50 + k, "--threads", t, "--ops", 3000, "--rounds", 6 * m], patience=200) for k, t in enumerate([8, 4, 16])]
    return out


def c26(tier, seed):
    out = []
    for k in range(1 if tier == "quick" else 4):
        for w in [[]] + [["qemu-x86_64", "-cpu", m] for m in MODELS if m not in INCAPABLE]:
            s = seed * 100 + k
            out.append(Job("kern-rel", ["transcript", "--seed", s], wrap=w, patience=200))
            out.append(Job("ssz-rel-minimal", ["transcript", "--seed", s, "--iters", 2 if tier == "quick" else 6], wrap=w, patience=200))
            out.append(Job("tree-rel", ["transcript", "--seed", s], wrap=w, patience=200))
        for i in NATIVE():
            w = ["env", "VERIF_IMPL=" + i]
            out.append(Job("ssz-impl-minimal", ["transcript", "--seed", s, "--iters", 2 if tier == "quick" else 6], wrap=w, patience=200))
            out.append(Job("tree-impl", ["transcript", "--seed", s], wrap=w, patience=200))
    return out


def c26_after(done, total, samples):
    """Groups the transcripts by program and seed: all have to be the same."""
    groups = {}
    for j, o in done:
        t = [l for l in o.lines if l.startswith("T ")]
        if t:
            groups.setdefault((j.bin.replace("-impl", "-rel"), tuple(j.args)), []).append((j, t))
    for (b, args), l in groups.items():
        ref = l[0]
        total["transcripts"] = total.get("transcripts", 0) + len(l)
        total["transcript_lines_compared"] = total.get("transcript_lines_compared", 0) + sum(len(t) for _, t in l[1:])
        for j, t in l[1:]:
            if t != ref[1]:
                d = next((x for x in zip(ref[1], t) if x[0] != x[1]), ("length %d" % len(ref[1]), "length %d" % len(t)))
                return j, "transcript:" + b, "results differ between CPUs: %s gives %s, %s gives %s" % (" ".join(ref[0].wrap) or "native", d[0], " ".join(j.wrap), d[1])
    total["cpu_models"] = len({tuple(j.wrap) for j, o in done if j.wrap[:1] != ["env"] and any(l.startswith("T ") for l in o.lines)})
    total["implementations_chosen"] = len({tuple(j.wrap) for j, o in done if j.wrap[:1] == ["env"]})
    samples.append(next((o.lines[3] for j, o in done if len(o.lines) > 5), "none"))
    return None


def c27(tier, seed):
    m = 1 if tier == "quick" else 15
    return sharded("ssz-alloc-minimal", "alloc", ["--seed", seed, "--iters", 400 * m, "--big", 4 * m]) + sharded("tree-alloc", "alloc", ["--seed", seed, "--random", 12000 * m])


def c29(tier, seed):
    m = 1 if tier == "quick" else 15
    return sharded("ssz-work-minimal", "work", ["--seed", seed, "--iters", 400 * m, "--big", 16 * m, "--lists", 40 * m], patience=120) + sharded("tree-work", "work", ["--seed", seed, "--random", 12000 * m])


R, M, A = "rel-minimal", "rel-mainnet", "asan-minimal"
SPECS = {
    "C01": Spec(c01, ["calls"], ["case"], "a case is a call with its implementation, block count, both alignments and kind of content; non-trivial and distinct if this tuple was not seen before; all digests of each are compared",
                TRUST, need=["blocks_checked", "calls_SHA" if "sha_ni" in cpu_flags() else "calls", "blocks_hashed_past_4GiB"]),
    "C02": Spec(kern("confine", ["--reps", 6, "--random", 3000], ["--reps", 60, "--random", 100000, "--maxn", 140]), ["calls"], ["case"], "a call with buffers ending or starting at unmapped pages, by implementation, count and placement; canaries compared after each",
                TRUST, need=["guard_bytes_compared"]),
    "C03": Spec(kern("abi", ["--reps", 10, "--random", 6000], ["--reps", 120, "--random", 200000, "--maxn", 140]), ["calls"], ["state"], "a call through a trampoline that loads random machine state and compares it afterwards; distinct by implementation, count and state",
                TRUST, need=["state_words_checked"]),
    "C04": Spec(c04, ["calls_interposed", "thread_calls"], ["interleaving"], "an interleaving is (outer implementation and count, inner ones, instruction at which the inner call runs to completion); calls of real threads are counted in thread_calls",
                TRUST + ["interposition runs the inner call on the same thread (from a trap handler), which exposes all state that is not per call"], need=["thread_calls"]),
    "C05": Spec(c05, ["capability_checks", "calls"], [], "a distinct case is a CPU feature set (native or emulated) on which the reported capabilities were compared with CPUID and every reported implementation was run",
                TRUST + ["qemu-user's CPU models stand for real CPUs"], after=c05_after, distinct_counts=["cpu_feature_sets"]),
    "C06": Spec(c06("root", [("rel", 40000), ("asan", 15000)]), ["roots"], ["shapes"], "a shape is (number of chunks or bytes, limit); every root is compared with a direct merkleization", TRUST),
    "C07": Spec(c06("cache", [("rel", 30000), ("asan", 12000)]), ["nodes"], ["shapes"], "a shape is (number of chunks or bytes, limit); every exposed node is compared", TRUST, need=["trees"]),
    "C08": Spec(c06("refuse", [("asan", 8000), ("guard", 5000)]), ["refusals", "trees"], ["shapes", "refused"], "a shape is (number of chunks or bytes, limit), accepted or to be refused, built under AddressSanitizer/UBSan and with every heap block at the end of a page", TRUST + SAN, need=["refusals"]),
    "C09": Spec(both(colossal("ser"), ssz("ser", {R: 600, M: 240, A: 320}, big=(6, 2), giant=3), deep(guided("serialize", 25000))), ["serializations"], ["values"], "a value of one of the types, put into an object in one of seven ways; distinct by type and encoding", TRUST + SAN),
    "C10": Spec(both(ssz("roundtrip", {R: 800, M: 320, A: 400}, big=(8, 2), giant=3), deep(guided("roundtrip", 25000))), ["decodings"], ["values"], "a value decoded from inside a larger buffer into a fresh or used object; distinct by type and encoding", TRUST + SAN),
    "C11": Spec(both(ssz("accept", {R: 360, M: 120, A: 80}, big=(16, 4), giant=6), guided("accept", 25000)), ["accepted", "refused"], ["inputs"], "a byte string (all of up to two bytes for small types, then structured mutations) judged by a reference decoder; distinct by type and bytes", TRUST + SAN, need=["accepted", "refused"]),
    "C12": Spec(both(deep(colossal("decode", "asan")), ssz("fuzz", {A: 900, M: 480}, big=(0, 8)), guided("fuzz", 12000)), ["accepted", "refused"], ["inputs"], "a byte string given to a type under AddressSanitizer/UBSan from an exactly sized heap block; distinct by type and bytes", TRUST + SAN, need=["used_afterwards", "reused"]),
    "C13": Spec(both(colossal("root"), ssz("root", {R: 500, M: 160, A: 160}, big=(6, 2), giant=2), deep(guided("root", 20000))), ["roots"], ["values"], "a value put into an object in one of seven ways and edited in place; distinct by type and encoding", TRUST + SAN, need=["edited", "edited_by_reference"]),
    "C14": Spec(both(ssz("yaml", {R: 320, M: 32, A: 100}, big=(3, 1)), deep(guided("yaml", 15000))), ["decodings", "encodings"], ["values"], "a value encoded, emitted as text and decoded from node, text and the consensus test format; distinct by type and encoding", TRUST + SAN + ["yaml-cpp parses and emits correctly"]),
    "C15": Spec(both(deep(colossal("hex", "asan")), ssz("badyaml", {A: 80, R: 80, M: 16}), guided("badyaml", 10000)), ["accepted", "refused", "hex_accepted", "hex_refused"], ["inputs", "hex_strings"], "a mutated YAML tree or hex string, classified by a reference as valid, to be refused or unspecified; distinct by type and content", TRUST + SAN, need=["must_fail"]),
    "C16": Spec(c16, ["checks"], ["values"], "a byte string, bitfield or integer converted every way; distinct by content", TRUST + SAN),
    "C17": Spec(ssz("eq", {R: 400, M: 80, A: 160}, big=(3, 1), giant=2), ["equal_pairs", "unequal_pairs"], ["values", "leaves"], "a pair of objects that hold the same value or differ in one leaf; distinct by value, and by the leaf that differs", TRUST + SAN, need=["unequal_pairs", "equal_pairs"]),
    "C18": Spec(both(pred("slashable"), guided("slashable", 25000)), ["pairs"], ["pairs"], "a pair of attestation data on a grid of boundary epochs or at random; distinct by both contents", TRUST, need=["slashable_pairs", "innocent_pairs"]),
    "C19": Spec(both(pred("indexed", 40000, 800000), guided("indexed", 25000)), ["lists"], ["lists"], "a list of indices, valid or with one repetition or swap at any place; distinct by content", TRUST, need=["valid_lists", "invalid_lists"]),
    "C20": Spec(both(pred("validator", 400000, 6000000), guided("validator", 25000)), ["evaluated"], ["validators"], "a validator with boundary epochs, evaluated at and around each of them; distinct by content", TRUST, need=["active", "inactive", "eligible", "not_eligible", "slashable", "not_slashable"]),
    "C21": Spec(c21, ["evaluated", "exhaustive_8_16"], ["random_values"], "an integer at which root and logarithm are compared with exact arithmetic; 8 and 16 bits exhaustively, squares and powers of two and their neighbours, random values (distinct ones counted)", TRUST, need=["evaluated"], distinct_counts=["perfect_square_neighbours"]),
    "C22": Spec(c22, ["constants", "acceptances", "roots"], ["constants", "limits"], "a constant compared with the specification's table, or a limit as lengths around it are accepted, refused and hashed", ["the table in harness/presets.cpp is transcribed from the phase-0 specification v1.0.1"], need=["preset_minimal", "preset_mainnet"]),
    "C23": Spec(c23, ["operations"], ["shared_values"], "an operation of a thread on an object that others read at the same time (operations_overlapping counts those that ran while others did); distinct by shared value", TRUST + ["ThreadSanitizer does not see the assembly (C04 does that part)"], need=["operations_overlapping"]),
    "C24": Spec(both(ssz("history", {R: 140, M: 8, A: 48}, big=(16, 3)), pool({"rel": 6000, "asan": 1600})), ["operations"], ["histories"], "a history is a sequence of operations on a pool of objects, each verified against its model after every step; distinct by the sequence", TRUST + SAN, need=["states_verified", "failed_decodings", "trees_verified", "held_edits", "predicates_verified"]),
    "C25": Spec(ssz("default", {R: 320, M: 24, A: 96}), ["objects"], ["object"], "a default construction by type, form and the byte the storage was filled with", TRUST + SAN),
    "C26": Spec(c26, ["operations"], ["values"], "a transcript line (digest, root, serialization) compared across CPU models", TRUST + ["qemu-user's CPU models stand for real CPUs"], after=c26_after, need=["transcript_lines_compared"]),
    "C27": Spec(c27, ["decodings", "hashs", "trees"], ["inputs"], "a byte string decoded (and hashed if accepted), or a tree built, with every allocation counted; distinct by type and bytes, or by shape", TRUST + ["the linear factors allowed (300 bytes and 2 allocations per byte) are several times what is observed"], need=["leak_checks"]),
    "C28": Spec(both(ssz("objtree", {R: 400, M: 120, A: 120}, big=(6, 2), giant=2), deep(guided("objtree", 20000))), ["nodes"], ["values"], "a value put into an object in one of seven ways and edited in place, every node of its tree compared; distinct by type and encoding", TRUST + SAN, need=["trees", "edited", "edited_by_reference"]),
    "C29": Spec(c29, ["measured"], ["inputs"], "an operation on an input or object of known size, its executed branches and moved bytes counted; distinct by type and bytes, or by tree shape", TRUST + ["the linear factor allowed (40 branches and 120 bytes moved per byte, more where there are bitfields) is several times what is observed", "work inside yaml-cpp shows only through the C library's functions it calls; the assembly's does not show"], need=["measured_large", "measured_decode", "measured_hash", "measured_is_valid"]),
}
