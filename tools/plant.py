#!/usr/bin/env python3
"""plant.py <file.py> [id...] : makes seeded/<id>/ out of the bugs described in file.py and confirms each one.

file.py defines bug(id, prop, needs, breaks, edits=[(path, old, new)], demo="C++ source", flags="", srcs=True, files={}).
A bug is kept if its patch applies, /repo builds, the stable tests pass, and demo.sh fails with it and passes without it.
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO = r'''#!/bin/bash
# Exits 0 if the property holds for what demo.cpp tries, and not 0 otherwise. Run in /repo after its build.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
set -e
mkdir "$w/include"
sed "s|@CMAKE_SOURCE_DIR@|$PWD|g" config/@PRESET@.hpp.in > "$w/include/config.hpp"
printf '#pragma once\n#include "include/config.hpp"\n' > "$w/config.hpp"
objs=()
pids=()
for f in @SRCS@; do
  o="$w/$(basename "$f").o"
  objs+=("$o")
  case $f in
    *.asm) yasm -f elf64 -I ./ -I ssz/ -o "$o" "$f" & ;;
    /*|@HERE@*) clang++ @FLAGS@ -I "$w" -I . -I "$here" -c -o "$o" "$here/$(basename "$f")" & ;;
    *) clang++ @FLAGS@ -I "$w" -I . -c -o "$o" "$f" & ;;
  esac
  pids+=($!)
done
for p in "${pids[@]}"; do wait "$p"; done
clang++ @FLAGS@ -o "$w/demo" "${objs[@]}" -lyaml-cpp
cd "$w"
timeout 240 @RUN@ ./demo
'''
ALL = "common/bitlist.cpp ssz/hasher.cpp ssz/hashtree.cpp ssz/sha256_shani.asm ssz/sha256_avx_one_block.asm ssz/sha256_avx.asm ssz/sha256_avx2.asm ssz/ssz_container.cpp beacon-chain/attestation.cpp beacon-chain/validator.cpp"
KERN = "ssz/hasher.cpp ssz/sha256_shani.asm ssz/sha256_avx_one_block.asm ssz/sha256_avx.asm ssz/sha256_avx2.asm"
BUGS = {}


def bug(id, prop, needs, breaks, edits, demo, flags="", srcs=ALL, preset="minimal", run="", opt="-O2"):
    assert id not in BUGS, id
    BUGS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, flags=flags, srcs=srcs, preset=preset, run=run, opt=opt)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def clean():
    sh("git -C /repo checkout -- .")


def plant(id):
    b = BUGS[id]
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        for path, old, new in b["edits"]:
            p = os.path.join(REPO, path)
            t = open(p).read()
            if callable(old):
                u = old(t)
                if u == t:
                    return "nothing changed in " + path
            else:
                n = t.count(old)
                if n != 1:
                    return "%d matches in %s of: %s" % (n, path, old[:80])
                u = t.replace(old, new)
            open(p, "w").write(u)
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
        open(os.path.join(d, "demo.cpp"), "w").write(b["demo"].lstrip())
        flags = "-std=c++20 -w -pthread %s %s %s" % (b["opt"], "-DPRESET_MINIMAL" if b["preset"] == "minimal" else "", b["flags"])
        s = DEMO.replace("@PRESET@", b["preset"]).replace("@SRCS@", b["srcs"] + " @HERE@/demo.cpp").replace("@FLAGS@", flags).replace("@RUN@ ", b["run"] + " " if b["run"] else "")
        s = s.replace("/*|@HERE@*)", "HERE/*)").replace("@HERE@/", "HERE/")
        open(os.path.join(d, "demo.sh"), "w").write(s)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            return "does not build\n" + r.stdout[-1500:]
        r = sh("bash /opt/vp/test.sh /tmp/plant/out.json")
        out = json.load(open("/tmp/plant/out.json"))
        if set(out["passed"]) < {"hash_avx2_8", "hash_avx_1", "hash_avx_4", "hash_shani"}:
            return "fails tests: %s" % out
        r = sh(os.path.join(d, "demo.sh"), cwd=REPO)
        if r.returncode == 0:
            return "the demo passes with the bug\n" + r.stdout[-1500:]
        if ": error:" in r.stdout:
            return "the demo does not compile\n" + r.stdout[-3000:]
        with_bug = "exit %d: %s" % (r.returncode, r.stdout.strip()[-200:].replace("\n", " | "))
    finally:
        clean()
    sh("bash /opt/vp/build.sh")
    r = sh(os.path.join(d, "demo.sh"), cwd=REPO)
    if r.returncode:
        return "the demo fails without the bug\n" + r.stdout[-3000:]
    return "ok, with the bug " + with_bug


if __name__ == "__main__":
    sys.modules["plant"] = sys.modules["__main__"]
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), {})
    os.makedirs("/tmp/plant", exist_ok=True)
    for id in sys.argv[2:] or list(BUGS):
        r = plant(id)
        print(id, BUGS[id]["prop"], r, flush=True)
        if not r.startswith("ok"):
            print("   NOT KEPT")
            shutil.rmtree(os.path.join(V, "seeded", id), ignore_errors=True)
