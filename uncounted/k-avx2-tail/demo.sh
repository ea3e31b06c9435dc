#!/bin/bash
# Exits 0 if the property holds for what demo.cpp tries, and not 0 otherwise. Run in /repo after its build.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
set -e
mkdir "$w/include"
sed "s|@CMAKE_SOURCE_DIR@|$PWD|g" config/minimal.hpp.in > "$w/include/config.hpp"
printf '#pragma once\n#include "include/config.hpp"\n' > "$w/config.hpp"
objs=()
pids=()
for f in common/bitlist.cpp ssz/hasher.cpp ssz/hashtree.cpp ssz/sha256_shani.asm ssz/sha256_avx_one_block.asm ssz/sha256_avx.asm ssz/sha256_avx2.asm ssz/ssz_container.cpp beacon-chain/attestation.cpp beacon-chain/validator.cpp HERE/demo.cpp; do
  o="$w/$(basename "$f").o"
  objs+=("$o")
  case $f in
    *.asm) yasm -f elf64 -I ./ -I ssz/ -o "$o" "$f" & ;;
    HERE/*) clang++ -std=c++20 -w -pthread -O2 -DPRESET_MINIMAL  -I "$w" -I . -I "$here" -c -o "$o" "$here/$(basename "$f")" & ;;
    *) clang++ -std=c++20 -w -pthread -O2 -DPRESET_MINIMAL  -I "$w" -I . -c -o "$o" "$f" & ;;
  esac
  pids+=($!)
done
for p in "${pids[@]}"; do wait "$p"; done
clang++ -std=c++20 -w -pthread -O2 -DPRESET_MINIMAL  -o "$w/demo" "${objs[@]}" -lyaml-cpp
cd "$w"
timeout 240 qemu-x86_64 -cpu Haswell ./demo
