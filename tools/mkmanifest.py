#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("runtime monitor: digests of real calls compared with a reference SHA-256", "every digest written by every implementation this CPU has (the others under qemu-user), for every block count to 70 (140), all alignments, structured and random content, and one call of over 4 GiB each"),
 "C02": ("runtime monitor: page guards and canaries around the buffers of real calls", "buffers end and start at unmapped pages, canaries and the rest of the caller's memory are compared after each call; the input is mapped read-only"),
 "C03": ("runtime monitor: call trampoline with randomised machine state", "registers, flags, MXCSR, x87 control and tag words and the caller's frames are loaded with random content and compared after every call"),
 "C04": ("runtime monitor: single-step interposition of calls at every instruction, and thread stress", "each (outer, inner) pair of implementations, the inner call run to completion at every instruction of the outer one, and threads with digests checked; interposition finds state that is not per call deterministically"),
 "C05": ("runtime monitor: capability report against CPUID, every reported implementation run, natively and under 36 emulated CPU models", "trusts qemu-user's CPU models and CPUID"),
 "C06": ("runtime monitor: tree roots against a direct merkleization", "every chunk count to 260 with boundary limits, random and large counts, limits to 2^64-1, under release and ASan+UBSan builds"),
 "C07": ("runtime monitor: every exposed tree node against a reference tree", "as C06, all nodes compared"),
 "C08": ("AddressSanitizer, UBSan and page-guarded heap over tree construction, with a refusal oracle", "the assembly is covered by the page guards, the C++ by both"),
 "C09": ("runtime monitor: serializations against a reference encoder, under ASan+UBSan too", "values by a structured generator put into objects seven ways, both presets"),
 "C10": ("runtime monitor: decoded objects against the generated value, under ASan+UBSan too", "decoding from inside larger buffers, into fresh and used objects, all fields read back through accessors"),
 "C11": ("runtime monitor: acceptance against a reference decoder; coverage-guided search (libFuzzer) with the same oracle", "all inputs of up to two bytes for small types, then structured mutants of encodings, both presets"),
 "C12": ("AddressSanitizer and UBSan over structure-aware fuzzing of every decoder; coverage-guided search (libFuzzer) with the same oracle", "exactly sized heap inputs, objects used after refusals; stalls are watched with a per-case progress record"),
 "C13": ("runtime monitor: object roots against a reference hash_tree_root", "objects reached by decoding, YAML, assignment and in-place edits, both presets"),
 "C14": ("runtime monitor: YAML nodes and text against a reference, round-trips", "the reference writes and compares YAML on its own; yaml-cpp's parser and emitter are trusted"),
 "C15": ("AddressSanitizer, UBSan and an outcome oracle over mutated YAML and hex; coverage-guided search (libFuzzer) with the same oracle", "mutations classified by a reference as valid, to be refused, or unspecified (only safety is judged there)"),
 "C16": ("runtime monitor: conversions against a reference, under ASan+UBSan too", "every byte-vector width used in the code, integers of 1 to 8 bytes, bitfields of all small lengths"),
 "C17": ("runtime monitor: equality of objects that hold equal values or differ in one leaf", "leaf changes at every position class, both operand orders, == and !="),
 "C18": ("runtime monitor: predicate against its definition on a boundary grid and random pairs; coverage-guided search (libFuzzer) with the same oracle", "exhaustive over a grid of boundary epochs"),
 "C19": ("runtime monitor: predicate against its definition on generated index lists; coverage-guided search (libFuzzer) with the same oracle", "every length to the limit, one repetition, swap or equal pair at every place"),
 "C20": ("runtime monitor: predicates against their definitions on boundary epochs; coverage-guided search (libFuzzer) with the same oracle", "every combination of boundary epochs and evaluation epochs, random ones"),
 "C21": ("runtime monitor: results against exact arithmetic, under UBSan too; coverage-guided search (libFuzzer) with the same oracle", "8 and 16 bits exhaustively, 32 bits exhaustively in the thorough check, squares and powers of two and their neighbours at 64 bits"),
 "C22": ("runtime monitor: constants against the specification's table, limits by behaviour", "both presets built; limits judged by what is accepted, refused and hashed"),
 "C23": ("ThreadSanitizer and result checks over concurrent readers of shared objects", "assembly and yaml-cpp are not instrumented; results of every operation are checked against the value as well"),
 "C24": ("runtime monitor: histories of operations on a pool of objects against models, under ASan+UBSan too", "every live object is verified against its model after every step"),
 "C25": ("runtime monitor: default-constructed objects in poisoned storage, under ASan+UBSan too", "storage filled with eight and more patterns before construction"),
 "C26": ("runtime monitor: transcripts of digests and roots compared across CPU models", "native and 30 emulated CPU models of different extension sets; trusts qemu-user"),
 "C28": ("runtime monitor: every node of an object's tree against a reference tree, under ASan+UBSan too", "objects reached seven ways, edited in place and given other limits, both presets; trees that are for derived classes only are read through one"),
 "C29": ("runtime monitor: branches executed (compiler coverage instrumentation) and bytes moved per operation against a linear bound", "sizes to 600 kB, hostile inputs and limits; the bound is eight or nine times what is observed, so that smaller slowdowns pass"),
 "C27": ("runtime monitor: allocation accounting of decoding, hashing and destruction", "linear bounds several times above what is observed; leaks are exact"),
}
checks = [{"property": k, "quick_cmd": "VERIF_TIER=quick python3 check.py " + k, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + k, "evidence_file": "evidence/%s.json" % k,
           "technique": t, "level": "exploration", "level_note": "Held on the executions observed: " + n + ". The evidence file counts them."} for k, (t, n) in T.items()]
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = {}
assert set(ids) == set(T) | set(na), set(ids) ^ (set(T) | set(na))
m = {"version": 1, "setup_cmd": "python3 build.py", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
     "notes": "No hooks: everything is observed at the public interface, through sanitizers, page guards, traps and the allocator. Fixes of genuine defects are listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
