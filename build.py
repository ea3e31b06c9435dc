"""Builds the harness binaries from /repo's current working tree (nothing is read from /repo's own build folders)."""
import fcntl, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
H = os.path.join(VERIF, "harness")
CXX, YASM = "clang++", "yasm"
BASE = ["-std=c++20", "-Wno-everything", "-pthread"]
REL = ["-O3", "-m64", "-ffast-math"]  # the flags of the project's release build
ASAN = ["-O1", "-g1", "-m64", "-ffast-math", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
TSAN = ["-O1", "-g1", "-m64", "-ffast-math", "-fsanitize=thread"]
PLAIN = ["-O2"]
WORK = REL + ["-fsanitize-coverage=trace-pc-guard"]
FUZZ = ASAN + ["-fsanitize=fuzzer-no-link", "-DHC_GUIDED"]
DIRS = ("ssz", "common", "helpers", "beacon-chain", "config", "include")
DEF_SSZ = ["common/bitlist.cpp", "ssz/hasher.cpp", "ssz/hashtree.cpp", "ssz/sha256_shani.asm", "ssz/sha256_avx_one_block.asm", "ssz/sha256_avx.asm",
           "ssz/sha256_avx2.asm", "ssz/ssz_container.cpp", "beacon-chain/attestation.cpp", "beacon-chain/validator.cpp"]
DEF_SHA = ["ssz/hasher.cpp", "ssz/sha256_avx_one_block.asm", "ssz/sha256_avx.asm", "ssz/sha256_avx2.asm", "ssz/sha256_shani.asm"]


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])


def fuzzer_runtime():
    """libFuzzer's engine without its main()"""
    d = subprocess.run([CXX, "-print-resource-dir"], stdout=subprocess.PIPE, text=True).stdout.strip()
    for r, ds, fs in os.walk(os.path.join(d, "lib")):
        for f in ("libclang_rt.fuzzer_no_main-x86_64.a", "libclang_rt.fuzzer_no_main.a"):
            if f in fs:
                return os.path.join(r, f)
    raise BuildError("no libFuzzer runtime in " + d)


def sources():
    """The project's own lists of sources."""
    try:
        t = open(os.path.join(REPO, "CMakeLists.txt")).read()
    except OSError:
        return DEF_SSZ, DEF_SHA
    t = re.sub(r"#.*", "", t)

    def pick(rx, default):
        m = re.search(rx, t, re.S)
        l = re.findall(r"[\w./-]+\.(?:cpp|asm)", m.group(1)) if m else []
        l = [x for x in l if not os.path.basename(x).startswith("test_") and os.path.exists(os.path.join(REPO, x))]
        return l or default
    return pick(r"set\s*\(\s*ssz_sources\s(.*?)\)", DEF_SSZ), pick(r"add_executable\s*\(\s*test_sha256\s(.*?)\)", DEF_SHA)


def fold_files():
    for d in DIRS:
        for r, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".cpp", ".asm", ".in", ".inc")) and f != "acutest.h" and os.path.relpath(os.path.join(r, f), REPO) != "include/config.hpp":
                    yield os.path.join(r, f)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


WEIGHT = {"reg_user.cpp": 22, "reg_seq.cpp": 20, "reg_cont.cpp": 20, "reg_basic.cpp": 18, "pred.cpp": 16, "ssz_main.cpp": 14, "presets.cpp": 14, "badyaml.cpp": 6, "attestation.cpp": 5}


class Job:
    """A compilation; submitted later, heavy ones first."""
    def __init__(self, work, weight):
        self.work, self.weight, self.future = work, weight, None

    def result(self):
        return self.future.result()

    def exception(self):
        return self.future.exception()


class Builder:
    def __init__(self):
        self.ssz, self.sha = sources()
        self.repo_key = digest(list(fold_files()))
        self.h_key = digest(sorted(os.path.join(H, f) for f in os.listdir(H) if f.endswith(".hpp")))
        self.pool = ThreadPoolExecutor(os.cpu_count() or 8)
        self.jobs = {}
        os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)

    def gen(self, preset):
        d = os.path.join(OUT, "gen-" + preset)
        os.makedirs(os.path.join(d, "include"), exist_ok=True)
        t = open(os.path.join(REPO, "config", preset + ".hpp.in")).read()
        t = t.replace("@CMAKE_SOURCE_DIR@", REPO).replace("${CMAKE_SOURCE_DIR}", REPO)
        # both "config.hpp" and "include/config.hpp" are spellings the sources use
        for p, c in ((os.path.join(d, "include/config.hpp"), t), (os.path.join(d, "config.hpp"), '#pragma once\n#include "include/config.hpp"\n')):
            if not os.path.exists(p) or open(p).read() != c:
                open(p + ".tmp%d" % os.getpid(), "w").write(c)
                os.replace(p + ".tmp%d" % os.getpid(), p)
        return d

    def obj(self, src, flags, preset):
        """Schedules a compilation and returns a future of the object's path."""
        key = (src, tuple(flags), preset)
        if key in self.jobs:
            return self.jobs[key]
        inc = []
        if preset:
            inc = ["-I" + self.gen(preset)]
        inc += ["-I" + REPO, "-I" + H]
        plain = os.path.basename(src) in ("hc.cpp", "sha.cpp", "ref.cpp", "alloc.cpp", "guard.cpp", "work.cpp", "tramp.S")
        k = digest([src], repr((flags, preset, self.h_key, "" if plain else self.repo_key, BASE)))
        out = os.path.join(OUT, "obj", "%s-%s.o" % (os.path.basename(src), k))  # one per content and flags

        def work():
            if not os.path.exists(out):
                tmp = out + ".%d.tmp" % os.getpid()
                if src.endswith(".asm"):
                    cmd = [YASM, "-f", "elf64", "-I", REPO + "/", "-I", os.path.join(REPO, "ssz/"), "-o", tmp, src]
                elif src.endswith(".S"):
                    cmd = ["clang", "-c", "-o", tmp, src]
                else:
                    cmd = [CXX] + BASE + flags + inc + ["-c", "-o", tmp, src]
                try:
                    run(cmd)
                except BuildError:
                    # types composed for the checks are an extra: without them if the project's interface for that changed
                    if os.path.basename(src) != "reg_user.cpp":
                        raise
                    run(cmd + ["-DNO_USER"])
                os.replace(tmp, out)
            return out
        self.jobs[key] = j = Job(work, WEIGHT.get(os.path.basename(src), 1) * (2 if "-g1" in flags else 1))
        return j

    def repo_objs(self, files, flags, preset):
        return [self.obj(os.path.join(REPO, f), flags, preset) for f in files]

    def spec(self, name):
        """name: <program>-<variant>[-<preset>] -> (futures of objects, link flags)"""
        parts = name.split("-")
        prog, var = parts[0], parts[1]
        preset = parts[2] if len(parts) > 2 else None
        flags = {"rel": REL, "asan": ASAN, "tsan": TSAN, "alloc": REL, "guard": REL, "work": WORK, "fuzz": FUZZ, "impl": REL + ["-DCUSTOM_HASHER"]}[var]
        link = {"asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"], "work": ["-rdynamic"], "fuzz": ["-fsanitize=fuzzer-no-link,address,undefined"]}.get(var, [])
        h = lambda f, fl=PLAIN, p=None: self.obj(os.path.join(H, f), fl, p)
        tail = [h("hc.cpp"), h("sha.cpp")]
        if prog == "kern":
            return self.repo_objs(self.sha, flags, None) + [h("kern.cpp", flags), h("tramp.S")] + tail, link
        if prog == "mathguided":
            return [h("guided_math.cpp", flags)] + tail, [fuzzer_runtime()] + link
        preset = preset or "minimal"
        pf = flags + (["-DPRESET_MINIMAL"] if preset == "minimal" else [])
        objs = self.repo_objs(self.ssz, pf, preset)
        tail += [h("ref.cpp")]
        if var == "impl":
            objs += [h("impl.cpp", pf, preset)]
        if var == "alloc":
            tail += [h("alloc.cpp")]
        if var == "work":
            tail += [h("work.cpp", PLAIN + ["-fno-builtin"])]
        if var == "guard":
            tail += [h("guard.cpp")]
        link = link + ["-lyaml-cpp"]
        if prog == "tree":
            return objs + [h("tree.cpp", REL if var == "work" else pf, preset)] + tail, link
        if prog == "misc":
            return objs + [h("misc.cpp", pf, preset)] + tail, link
        files = ["ssz_util.cpp"]
        for f, n in (("reg_seq.cpp", 4), ("reg_cont.cpp", 3), ("reg_basic.cpp", 2), ("reg_user.cpp", 2)):
            objs += [h(f, pf + ["-DPART=%d" % i], preset) for i in range(n)]
        files += {"ssz": ["ssz_main.cpp", "badyaml.cpp", "pred.cpp"], "presets": ["presets.cpp"]}[prog]
        if var == "fuzz":
            files += ["guided.cpp"]
            link = [fuzzer_runtime()] + link
        # only the project's code guides the search and counts as work, not the monitors
        own = {"fuzz": ASAN + ["-DPRESET_MINIMAL"], "work": REL + ["-DPRESET_MINIMAL"]}
        return objs + [h(f, own[var] if var in own and (var == "work" or f in ("ssz_util.cpp", "badyaml.cpp", "pred.cpp")) else pf, preset) for f in files] + tail, link

    def build(self, names):
        specs = {n: self.spec(n) for n in names}

        for j in sorted(self.jobs.values(), key=lambda j: -j.weight):
            j.future = self.pool.submit(j.work)

        def link(n):
            futs, flags = specs[n]
            objs = [f.result() for f in futs]
            k = hashlib.sha256(repr((objs, flags)).encode()).hexdigest()[:16]
            out = os.path.join(OUT, "%s.%s" % (n, k))
            if not os.path.exists(out):
                tmp = out + ".%d.tmp" % os.getpid()
                run([CXX, "-pthread", "-o", tmp] + objs + flags)
                os.replace(tmp, out)
            return out
        for f in [f for s in specs.values() for f in s[0]]:
            f.exception()
        # an extra that rests on an interface only the project's benchmarks use
        for n in [n for n in specs if "-impl" in n and any(f.exception() for f in specs[n][0])]:
            print("left out: %s does not build: %s" % (n, next(f.exception() for f in specs[n][0] if f.exception())))
            del specs[n]
        errs = [f.exception() for s in specs.values() for f in s[0] if f.exception()]
        if errs:
            raise BuildError(str(errs[0]))
        return {n: link(n) for n in names if n in specs}


def build(names):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        return Builder().build(names)


ALL = ["kern-rel", "ssz-rel-minimal", "ssz-rel-mainnet", "ssz-asan-minimal", "ssz-tsan-minimal", "ssz-alloc-minimal", "ssz-work-minimal", "ssz-fuzz-minimal", "presets-rel-minimal", "presets-rel-mainnet",
       "tree-impl", "ssz-impl-minimal", "tree-rel", "tree-asan", "tree-guard", "tree-alloc", "tree-work", "misc-rel", "misc-asan", "mathguided-fuzz"]

if __name__ == "__main__":
    try:
        for n, p in build(sys.argv[1:] or ALL).items():
            print(n, p)
    except BuildError as e:
        print(e)
        sys.exit(2)
