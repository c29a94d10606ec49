#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "explicit-state model checking of the implementation: "
T = {
 "C01": (MC + "exhaustive enumeration of groups, lanes, lengths and alignments on every codec and build, against an RFC 4648 reference", "model_checking",
   "Every 3-byte group, every byte value in every lane, every length to 900 and around powers of two to 4 MiB, on 11 builds (x86-64 gcc and clang, with and without inline assembly, OpenMP, i686, aarch64, armhf, s390x). Trusts the reference in harness/ref.h and qemu-user."),
 "C02": (MC + "exhaustive enumeration of groups, short strings, bad bytes at every position and length, against an RFC 4648 reference", "model_checking",
   "Every valid group, every string over a small alphabet to length 8, every byte value at every position of a 1200-character text, one bad byte at every position of every length to 1200, pairs of bad bytes; all codecs and builds. Trusts the reference and qemu-user."),
 "C03": (MC + "reachable product of stream state and reference state, closed under chunks; every chunk length from every position", "model_checking",
   "The product state space is closed (fixpoint) under all one-byte and empty chunks and all longer chunks tried, which gives chunking invariance for all sequences of such chunks by induction."),
 "C04": (MC + "reachable product of stream state and reference state, closed under chunks; bad bytes at every position of every chunk", "model_checking",
   "As C03, with every byte value in every product state, all classes in two- and three-byte chunks, and errors at every place of long chunks."),
 "C05": (MC + "all ended states of the product space, all continuations", "model_checking",
   "Every way to end a stream (including inside vector loops), every one-byte continuation to a fixpoint, longer ones and sequences of three."),
 "C06": (MC + "enumeration of lengths, positions, alignments and bad bytes between guard pages and canaries", "model_checking",
   "Page-granular guards detect any access past either end of either buffer; canaries detect writes for all alignments. Over-reads that stay inside the same page next to an unaligned end are covered because the buffers end exactly at the page."),
 "C16": (MC + "every call from every reachable stream state with several presets of outlen, and all codecs that are not in the build", "model_checking",
   "outlen and the written bytes are compared with the reference for two output backgrounds and four presets."),
 "C07": (MC + "all combinations of CPUID and XGETBV answers that codec selection can observe, on the real code with the instructions trapped", "model_checking",
   "cpuid and xgetbv in the compiled objects are replaced by trapping instructions and answered by the harness, lazily, so that every answer the code asks for is enumerated; the chosen codec must be the best one whose CPU and OS requirements hold. For builds with every subset of codecs. ARM has no run-time detection."),
 "C08": (MC + "reachable states of the library's globals and two streams under all calls with all flags, recorder codecs in place of the real ones", "model_checking",
   "Breadth-first search to a fixpoint, in every build configuration: each call must reach the codec that its flags or its stream ask for and report what that codec reports."),
 "C09": (MC + "reachable states of two interleaved streams and the library's globals under all calls, real codecs", "model_checking",
   "Breadth-first search to a fixpoint over an alphabet of calls; every result is compared with that of an independent reference for each stream."),
 "C10": (MC + "stateless exploration of thread interleavings of the implementation with a controlled scheduler, preemption-bounded", "model_checking",
   "Every memory access of the library is a scheduling point (compiler instrumentation). Two and three threads, all schedules up to a preemption bound. Sequentially consistent memory, and on first use stale reads of the library's data (per-location coherence, up to 2 stale reads); the lazy choice of a default codec writes the same pointer from every thread and is accepted as it is."),
 "C11": (MC + "stateless exploration of schedules of the OpenMP regions on a controlled OpenMP runtime, plus an exhaustive sweep over lengths, teams and error positions; conformance runs on libgomp", "model_checking",
   "Team sizes 1 to 8 and fewer threads than requested, delay-bounded schedules, every error position around part boundaries; the same inputs are run on the real libgomp."),
 "C12": (MC + "every input length, wrap width, arrival pattern and buffer size of the real utility code in a scripted environment; conformance runs of the program", "model_checking",
   "bin/base64.c is compiled with its main renamed and its I/O redirected; the read buffer and IOV_MAX take small values so that all boundary alignments occur, and their real values with inputs around them."),
 "C13": (MC + "all strings over an alphabet of character classes, all byte values at all positions, every buffer boundary, on the real utility code in a scripted environment", "model_checking",
   "All strings of up to 8 classes (thorough 10) with each option set and eight buffer sizes, texts of every length with line lengths to 80, errors and padding at every position; conformance runs of the program itself."),
 "C14": (MC + "stateless exploration of all answers of read, write, writev, malloc and fopen up to a bound on deviations", "model_checking",
   "Every system call may be short, interrupted or fail; up to three deviations (thorough four) anywhere in a run, and policies that shorten or interrupt every call; also the emulated writev(). Conformance runs with /dev/full, directories and slow pipes."),
 "C15": (MC + "all argument vectors up to length four over 46 tokens, against a reference model of getopt_long and the help text", "model_checking",
   "All vectors of at most four (thorough: five over a smaller alphabet), all option characters, all wrap spellings; conformance runs of the program."),
 "C17": (MC + "exhaustive enumeration of all table entries and of all groups through the codec built on committed and regenerated tables, both byte orders", "model_checking",
   "The generators run through the Makefile and CMake; the compiled tables are compared byte for byte for three targets; all 2^24 groups are encoded and decoded and all single and double bad characters of a group are rejected with them (little-endian 64 and 32 bits, big-endian 64 bits under qemu)."),
 "C18": (MC + "enumeration of lengths and error places around 2^31 and 2^32 for every codec on the real code", "model_checking",
   "Few points of a huge space: single calls on 1 to 4.3 GiB with every codec, streaming, OpenMP teams of several sizes, i686, aarch64 and armhf under qemu. Exhaustive over the codecs and stated lengths only."),
 "C19": (MC + "all subsets of codecs built from the tree, each codec of each build enumerated against the reference", "model_checking",
   "All 64 x86 subsets with gcc; the extreme ones (none, one, all but one, all) without inline assembly, with clang, for i686, with OpenMP, with -march=native, and by make and CMake themselves (CMake also cross, for every target, with default options); ARM and s390x under qemu. Each codec gets a digest of C01 to C04."),
 "C20": (MC + "single-stepping: after each instruction of a call, the state is saved, the interruption explored on it, and the state restored", "model_checking",
   "One interruption per call, by one whole call, at every instruction, or abandonment there; x86-64 and i686. Straight runs without saved states bear out a sample, and every report is replayed as a straight run."),
 "C21": (MC + "enumeration of calls through a register-checking trampoline with system calls and the allocator trapped and the stack painted", "model_checking",
   "All functions and codecs on x86-64, i686, aarch64, armhf and s390x, lengths to 700 (thorough 1100) with every split, errors everywhere to 300 (800). System calls are trapped on x86 only (syscall user dispatch)."),
 "C22": (MC + "the exhaustive explorations of library and utility once more, on instrumented code that stops at undefined behaviour", "model_checking",
   "ASan and UBSan with gcc and clang, MSan with clang (intrinsics instead of inline assembly), UBSan traps on i686, aarch64, armhf and s390x. Inline assembly is not instrumented (C06 sees its accesses). Aliasing violations are not detected as such."),
 "C23": (MC + "enumeration of build products, compilers and language versions, each with a program that enumerates lengths and splits through the public interface", "model_checking",
   "Six products (thorough 20) with 22 language versions and compilers on x86-64 Linux, eight (thorough 22) with six on i686, aarch64, armhf and s390x. The programs enumerate every length to 200 with splits between two translation units of different languages."),
 "C24": (MC + "enumeration of modes, sources, wrap widths, lengths around 2^31 and 2^32 and endings, with the program as a process whose input is made and output compared as it flows", "model_checking",
   "Few points of a huge space (30 runs of 2 to 5 GiB; thorough more than 150, to 12 GiB). Exhaustive over the modes and sources stated."),
 "C25": (MC + "enumeration of lengths, stream states, byte values and error places, with instruction counts by single-stepping (x86) and from qemu's trace (ARM) as the monitor", "model_checking",
   "Every length to 300 (thorough 1500). Instructions are counted, not time; limits are relative to the plain codec of the same build, with slack for other compilers' code. The counts of ARM codecs are taken at few lengths."),
 "C26": (MC + "enumeration of targets and, on each under qemu-user or node, of lengths, alignments, table entries, characters, endings and splits against the reference", "model_checking",
   "24 targets that Clang, lld and qemu-user support (32 and 64 bits, both byte orders, WebAssembly), freestanding; 600,000 to 900,000 calls on each (thorough several million, five optimization levels). The utility needs a C library and is not covered here."),
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
try:
    from manifest_more import MORE
    T.update(MORE)
except ImportError:
    pass
checks, na = [], []
for p in props:
    if p["id"] in T:
        t, l, n = T[p["id"]]
        checks.append(dict(property=p["id"], quick_cmd="./check %s" % p["id"], thorough_cmd="VERIF_TIER=thorough ./check %s" % p["id"], technique=t, level=l, level_note=n))
    else:
        na.append(dict(property=p["id"], reason="No check yet; being built."))
import subprocess
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
m = dict(version=1, setup_cmd="./check setup", hooks=dict(guard="BASE64_VERIF_RAW_SIZE", enable="-DBASE64_VERIF_RAW_SIZE=<bytes> when compiling bin/base64.c", source_commits=hooks),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
