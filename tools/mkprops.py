#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
assert True
LIB = ["lib/lib.c", "lib/arch/generic/", "lib/arch/ssse3/", "lib/arch/avx/", "lib/arch/avx2/", "lib/arch/avx512/",
       "lib/arch/neon32/", "lib/arch/neon64/", "lib/tables/tables.c"]
ST = [("base64_state.eof", "0 while running, 1 waiting for the second '=', 2 ended or failed", "include/libbase64.h, lib/env.h"),
      ("base64_state.bytes", "position within the 3-byte or 4-character group", "include/libbase64.h"),
      ("base64_state.carry", "bits left over from the previous input byte", "include/libbase64.h")]

p("C01", "One-shot encoding is RFC 4648 base64 for every input and every codec",
  "For every input of every length, base64_encode() writes exactly the RFC 4648 base64 text of the input (standard alphabet, with '=' padding, no line breaks) and sets outlen to its length. "
  "The result does not depend on which codec is used (plain, SSSE3, SSE4.1, SSE4.2, AVX, AVX2, AVX512, NEON32, NEON64), on the way it was built (inline assembly or intrinsics, compiler, 32 or 64 bits, byte order, OpenMP), or on the alignment of the buffers.",
  ["inputs", "configurations"],
  "All inputs (every byte triple in every lane of every vector loop, every length across all loop unrollings and tails), all codecs and build variants.",
  "The tests encode a few texts, a single incrementing byte table and some random data; they never visit every triple in every lane and every residual length, and skip AVX512.",
  LIB, [("vector encode loops, unrolled, then Duff's-device tail", "lib/arch/*/enc_loop*.c, lib/arch/generic/enc_tail.c"), ("final padding", "lib/lib.c base64_stream_encode_final")],
  ST, ["out and outlen of base64_encode()"])
p("C02", "One-shot decoding accepts exactly well-formed base64 and returns its bytes",
  "base64_decode() returns 1 exactly when the input is well-formed RFC 4648 base64 (a multiple of four characters of the standard alphabet, with one or two '=' at the very end only; unused trailing bits are not checked), and then the output is exactly the encoded bytes. "
  "For every other input (an invalid byte anywhere, '=' in any other place, anything after the padding, a truncated group) it returns 0, and the output is exactly the bytes that come before the offending character. "
  "All codecs and build variants agree.",
  ["inputs", "configurations"],
  "All inputs: every quad of alphabet characters in every lane, every byte value at every position of every length up to past the longest unrolled loop, pairs of bad positions; all codecs and builds.",
  "The tests try one bad byte position in a few strings; a vector range check that misclassifies one byte value in one lane, or one residual length, is outside what they reach.",
  LIB, [("vector validity checks that fall back to the byte-wise tail", "lib/arch/*/dec_loop*.c"), ("byte-wise tail and end-of-input check", "lib/arch/generic/dec_tail.c, lib/lib.c base64_decode")],
  ST, ["return value, out and outlen of base64_decode()"])
p("C03", "Streaming encode gives the same text however the input is cut",
  "However an input is cut into chunks (of any size, including empty ones) given to base64_stream_encode() one after the other, followed by base64_stream_encode_final(), the concatenated output is the RFC 4648 base64 text of the concatenated input. "
  "Each call sets outlen to the number of bytes it wrote. This holds for every codec and build variant, also when a chunk starts in the middle of a three-byte group.",
  ["histories", "inputs", "configurations"],
  "All sequences of chunks: closed by induction over the reachable stream states, every chunk length up to past the longest unrolled loop from every reachable state; all codecs and builds.",
  "test_streaming() cuts one 256-byte table at constant block sizes only.",
  LIB, [("carry and bytes kept in the stream state", "lib/arch/generic/enc_head.c, enc_tail.c"), ("final padding", "lib/lib.c base64_stream_encode_final")], ST, ["out and outlen of every stream call"])
p("C04", "Streaming decode gives the same bytes and verdict however the input is cut",
  "However a text is cut into non-empty chunks given to base64_stream_decode(), the calls return 1 and deliver the decoded bytes up to the first offending character, and the call that contains that character returns 0. "
  "An offending character is one outside the alphabet, a '=' that is not in third or fourth place of a group, anything but '=' after a '=' in third place, and anything after the padding. "
  "This holds for every codec and build variant, wherever the cuts fall (also between the two padding characters), and empty chunks before the padding change nothing.",
  ["histories", "inputs", "configurations"],
  "All sequences of chunks over all byte values: closed by induction over the reachable stream states, every chunk length up to past the longest unrolled loop from every reachable state, an offending byte at every place in it.",
  "The tests stream one valid table at constant block sizes and check a handful of invalid strings in one piece.",
  LIB, [("eof, bytes and carry kept in the stream state", "lib/arch/generic/dec_head.c, dec_tail.c")], ST, ["return value, out and outlen of every stream call"])
p("C05", "A decode stream that has ended or failed stays that way",
  "After base64_stream_decode() has accepted the end of the text (its padding) or has returned 0, every further non-empty call on that stream returns 0, sets outlen to 0 and writes nothing, whatever bytes it is given and however often it is called. "
  "Only base64_stream_decode_init() makes the stream usable again.",
  ["histories", "inputs"],
  "All ways to reach an ended or failed stream (every byte at every position of a group, in every codec's vector loop or tail), followed by all continuations.",
  "No test calls a stream again after an error or after the end.",
  LIB, [("eof flag checked on entry", "lib/arch/generic/dec_head.c"), ("eof flag set on every error path", "lib/arch/generic/dec_tail.c")], ST, ["return value, out and outlen of calls after the end"])
p("C06", "Reads and writes stay within the caller's buffers",
  "Every encode and decode call reads only the given input bytes and never modifies them, and writes only within the bytes that the output of an input of that length can take up: 4 for every started 3 bytes for one-shot encoding, 3 for every 4 characters for decoding, and the corresponding number for a stream call that starts in the middle of a group. "
  "This holds for every codec, every length including 0, every alignment of both buffers, every stream position, and for invalid input.",
  ["inputs", "histories", "configurations"],
  "All lengths up to past the longest unrolled loop, all stream positions, all alignments, buffers flush against an inaccessible page at either end, valid input and an invalid byte at any position.",
  "The tests use large static buffers, where reading or writing some bytes too many goes unnoticed.",
  LIB, [("loops stop early so that a full vector load or store stays inside the buffers", "lib/arch/*/{enc,dec}_loop*.c")], ST, ["page faults and canaries around src and out"])
p("C07", "Run-time detection never picks a codec that the CPU or the OS cannot run",
  "With flags 0 on x86, the library uses a SIMD codec only if CPUID reports the instruction set, and for AVX, AVX2 and AVX512 only if the OS has also enabled the register state that it needs (OSXSAVE and XCR0); XGETBV is not executed without OSXSAVE and CPUID leaves beyond the maximum leaf are not used. "
  "Among the codecs that are compiled in and usable it takes the best one (AVX512, AVX2, AVX, SSE4.2, SSE4.1, SSSE3, then plain), the same for encoding and decoding. AVX512 needs both VL and VBMI. The codecs themselves, the plain one included, execute no instruction beyond the set that they are chosen for, so that a CPU with just this set runs them; a build for ARM without NEON that includes the NEON codec executes no NEON instruction when the plain codec is forced.",
  ["configurations"],
  "All combinations of maximum CPUID leaf, the feature bits that are consulted, OSXSAVE, XCR0 bits, and compiled-in codecs, on 64-bit and 32-bit x86.",
  "The tests run on one machine's CPUID and XCR0 values and force codecs explicitly.",
  ["lib/codec_choose.c", "lib/lib.c", "cmake/config.h.in"], [("CPUID, OSXSAVE and XGETBV tests", "lib/codec_choose.c codec_choose_x86")],
  [("codec", "default codec, chosen on first use", "lib/lib.c")], ["which codec's functions get called"])
p("C08", "A codec flag applies to exactly the call or stream it was given to",
  "A call or stream that is given one of the BASE64_FORCE_ flags is carried out by exactly that codec; if that codec is not in the build, decoding returns -1 and encoding and decoding produce no output. "
  "A call or stream with flags 0 uses the default codec. Neither depends on which codecs were used before or are in use at the same time by other calls, streams or threads.",
  ["histories", "configurations"],
  "All sequences of calls with all flag values on several streams up to a depth, closed over the library's global state; all codecs and build configurations.",
  "Each test forces a codec and uses it at once; none of them returns to flags 0 or mixes codecs, and AVX512 is skipped.",
  ["lib/lib.c", "lib/codec_choose.c", "lib/codecs.h", "include/libbase64.h"], [("flags kept in the stream state, codec chosen from them", "lib/lib.c"), ("stubs for codecs not in the build", "lib/codecs.h")],
  [("codec", "default codec, chosen on first use", "lib/lib.c"), ("base64_state.flags", "flags given at init", "include/libbase64.h")], ["which codec's functions get called", "return value and outlen"])
p("C09", "Streams and calls are independent of each other and leave nothing behind",
  "The result of a call depends only on its arguments and its own stream state: any number of encoding and decoding streams and one-shot calls may be interleaved in any order without influencing each other. "
  "The init functions completely reset a stream, whatever the state structure held before (garbage, a finished or failed stream, a stream of the other kind), and a stream's state may be copied to fork the stream.",
  ["histories"],
  "All interleavings of init, encode, final, decode and one-shot calls on two streams up to a depth, from fresh and from garbage state, closed over stream states and library globals.",
  "The tests run one stream at a time, always on a zeroed or fresh structure.",
  ["lib/lib.c", "lib/arch/generic/"], [("all stream data is in the caller's structure", "include/libbase64.h base64_state"), ("init functions", "lib/lib.c")], ST, ["return values, outputs, stream states"])
p("C10", "Concurrent use is safe in every interleaving",
  "Threads that use the library at the same time on their own streams and buffers (sharing read-only input at most) get the same results as if each ran alone, in every interleaving. "
  "This includes threads that race to be the first to use the library, and threads that use different codec flags.",
  ["schedules"],
  "All interleavings of two and three threads (up to a bound on preemptions) at every access to memory that the threads share, in a process in which the library was not used before; there also with weak memory (stale reads of what other threads wrote without synchronization).",
  "The tests are single-threaded.",
  ["lib/lib.c", "lib/codec_choose.c"], [("idempotent lazy choice of the default codec; no other global state", "lib/lib.c")],
  [("codec", "default codec, chosen on first use", "lib/lib.c")], ["results of each thread"])
p("C11", "The OpenMP build gives the serial result for any number of threads",
  "In an OpenMP build, base64_encode() and base64_decode() give the same output, output length and return value as the serial build for every input, whatever number of threads the runtime provides (including one and fewer than requested) and however they are scheduled. "
  "This includes inputs just below and above the threshold, lengths that do not divide evenly, invalid characters and padding anywhere in the input, and nested parallel regions.",
  ["schedules", "inputs", "configurations"],
  "All team sizes up to a bound, all interleavings of the team up to a preemption bound, all residual lengths, a bad character or padding at every position around all the split points.",
  "The OpenMP tests run with two threads on inputs below the threshold, so that the parallel code is hardly executed and never with invalid input.",
  ["lib/lib_openmp.c", "lib/lib.c"], [("split into parts, reduction over results, remainder done serially", "lib/lib_openmp.c")],
  [("num_threads, len, last_len, state, initial_state", "shared variables of the team", "lib/lib_openmp.c")], ["return value, out and outlen"])
p("C12", "The base64 utility encodes and wraps lines exactly",
  "Without -d the utility writes the base64 text of the whole input with a newline after every COLS characters (76 by default) and, if the last line is not full, a newline at the end; nothing at all for empty input; with -w 0 the text without any newline. "
  "It then exits with 0. This holds for every input length, every COLS, input from a file or from standard input, and however the input arrives in pieces.",
  ["inputs", "configurations"],
  "All input lengths around all buffer boundaries, all wrap widths, all segmentations of the input up to a bound, all fill levels of the vector array.",
  "The CLI test wraps one short text at a few widths; the internal buffer and vector array boundaries need megabytes of input to reach.",
  ["bin/base64.c"], [("column counter and iovec batches", "bin/base64.c write_wrapped, iov_append, writev_retry")],
  [("col", "current column", "bin/base64.c write_wrapped"), ("iov, nvec", "pending output vectors", "bin/base64.c write_wrapped")], ["bytes written to standard output, exit status"], "BASE64_VERIF_RAW_SIZE makes the read buffer small")
p("C13", "The base64 utility decodes exactly, and succeeds only for complete valid input",
  "With -d the utility ignores newlines in the input (with -n it does not, with -i it ignores every byte that is neither in the alphabet nor '='), and exits with 0 if and only if what is left is complete well-formed base64 (or nothing), having written exactly the decoded bytes. "
  "Otherwise it exits with a non-zero status and an error message, and what it has written is a prefix of the bytes that come before the error. Buffer boundaries and the way in which the input arrives have no influence.",
  ["inputs", "configurations"],
  "All strings over an alphabet of character classes up to a length, with each option, all placements of buffer boundaries and segmentations of the input.",
  "The CLI tests decode a few well-formed texts and some with newlines.",
  ["bin/base64.c", "lib/arch/generic/dec_tail.c"], [("tokenizing on newlines or garbage, streaming decode", "bin/base64.c decode, find_newline, find_garbage")],
  [("state", "decoder state across buffers", "bin/base64.c decode")], ["bytes written to standard output, exit status, standard error"], "BASE64_VERIF_RAW_SIZE makes the read buffer small")
p("C14", "The base64 utility survives short and interrupted I/O and reports failing I/O",
  "If reads return fewer bytes than asked and writes are partial or interrupted by a signal, in any pattern, the complete output is still written, each byte once and in order. "
  "If a read, a write, opening the input or allocating memory fails, the utility exits with a non-zero status and an error message, and what it has written up to then is a prefix of the correct output. This is about encoding and decoding; failures to print help are not covered.",
  ["fault_sequences"],
  "All sequences of system call answers (full, short by any amount, EINTR, error) up to a bound on the number of deviations, for encoding with and without wrapping and for decoding.",
  "No test injects I/O faults; pipes and regular files in the CLI test rarely give partial writes.",
  ["bin/base64.c"], [("retry loops", "bin/base64.c write_stdout, writev_retry"), ("ferror checks and exit status", "bin/base64.c encode, decode, main")],
  [("iov", "vectors left to write, adjusted after partial writes", "bin/base64.c writev_retry")], ["system calls made, bytes accepted, exit status"], "BASE64_VERIF_RAW_SIZE makes the read buffer small")
p("C15", "The base64 utility interprets its command line as documented",
  "The options -d/--decode, -h/--help, -i/--ignore-garbage, -n/--no-strip-newlines and -w/--wrap take effect in every order, grouping and spelling that getopt_long allows; a file argument of '-' or none means standard input. "
  "Unknown options, missing or non-numeric or negative or empty wrap values, more than one file and a file that cannot be opened give a message and usage on standard error, nothing on standard output, and exit status 1; help goes to standard output with exit status 0.",
  ["inputs", "programs"],
  "All argument vectors up to a length over an alphabet of options, option clusters, values and file names.",
  "The CLI test uses a handful of fixed command lines.",
  ["bin/base64.c"], [("option parsing", "bin/base64.c parse_opts, get_wrap, main")], [("config", "parsed options", "bin/base64.c")], ["exit status, standard output, standard error"])
p("C16", "Every call reports its output length",
  "Every call that takes outlen stores the number of output bytes that it produced there on every path (success, invalid input, ended stream, codec not in the build, empty input, end of encoding), whatever outlen held before, and the bytes it reports are really written. "
  "base64_stream_encode_final() reports 0, 2 or 3 as the stream's position requires.",
  ["inputs", "histories", "configurations"],
  "All calls, from every reachable stream state, all flags, with outlen preset to different values; also the parallel code of the OpenMP build.",
  "The tests look at outlen after success only.",
  ["lib/lib.c", "lib/lib_openmp.c", "lib/codecs.h", "lib/arch/generic/"], [("outlen stores at the end of each path", "lib/arch/generic/{enc,dec}_{head,tail}.c, lib/codecs.h, lib/lib.c, lib/lib_openmp.c")], ST, ["outlen of every call"])
p("C17", "Table generators reproduce the committed lookup tables",
  "Building with regenerated tables (the table generator program and the Python script) gives exactly the lookup tables that are committed, for both byte orders, and every entry of every table is what the base64 alphabet requires. Given three replacement characters, the generator program makes the decode tables of the alphabet that has them in place of '+', '/' and '='; it refuses any other number of characters.",
  ["configurations", "inputs"],
  "All entries of all tables, for little-endian and big-endian builds, committed and regenerated; all choices of replacement characters from a set.",
  "The tests use the committed tables through the codecs only and never run the generators; tables for the other byte order only run under an emulator.",
  ["lib/tables/"], [("table generators and generated headers", "lib/tables/table_generator.c, table_enc_12bit.py, table_dec_32bit.h, table_enc_12bit.h")], [], ["contents of the tables"])
p("C18", "Lengths and offsets do not wrap for huge inputs",
  "Encoding and decoding give the correct result for inputs and outputs of more than 2 and 4 GiB in one call on 64-bit platforms (and beyond 1 GiB on 32-bit ones), including an error in the far part of the input, with and without OpenMP.",
  ["inputs", "configurations"],
  "Lengths around 2^31, 2^32 and their 3/4 and 4/3 multiples, all codecs, one-shot and streaming, OpenMP teams.",
  "The largest test input has a few megabytes.",
  ["lib/lib.c", "lib/lib_openmp.c", "lib/arch/"], [("size_t counters and 'rounds' computations", "lib/arch/*/{enc,dec}_loop*.c"), ("part offsets", "lib/lib_openmp.c")], [], ["return value, out and outlen"])
p("C19", "Every build configuration gives the same library",
  "With any subset of the SIMD codecs compiled in, by the Makefile or by CMake (static or shared), with or without inline assembly, for each supported architecture, the library builds and links; every codec that is in the build encodes and decodes correctly, whichever others are there, "
  "and every codec that is not answers as a missing one (decoding returns -1, no output). Codecs do not depend on each other being present. CMake recognises every supported target and by default includes all of its codecs (NEON32 on request).",
  ["configurations", "inputs"],
  "All 64 subsets of the x86 codecs and all of the ARM ones, with several compilers; in each, every codec over lengths, characters, errors and stream chunks.",
  "The tests run on one build configuration, with all codecs in it.",
  ["lib/arch/", "lib/codec_choose.c", "lib/codecs.h", "include/libbase64.h", "Makefile", "CMakeLists.txt", "cmake/test-arch.c"], [("HAVE_ conditions of each codec", "lib/arch/*/codec.c"), ("conditions in codec selection", "lib/codec_choose.c"), ("exported functions", "include/libbase64.h")], [], ["success of the build, out, outlen, return values"])
p("C20", "Calls may be interrupted by other calls",
  "The library is re-entrant: if a call is interrupted at any instruction and another call is made before it continues (as in a signal handler), both give the results that they give alone, and neither blocks. "
  "If a call is abandoned at any instruction (by a non-local jump), later calls on other streams still work. This includes the very first use of the library. Builds with OpenMP are not covered.",
  ["schedules", "histories"],
  "All pairs of an interrupted and an interrupting call from a set with every codec, one-shot and stream, valid and invalid input, at first use and later, interrupted after every machine instruction.",
  "No test makes a call from a signal handler or leaves one.",
  ["lib/lib.c", "lib/codec_choose.c", "lib/arch/"], [("default codec set up on first use", "lib/lib.c base64_stream_encode_init, base64_stream_decode_init"), ("no static or thread-local work data", "lib/")],
  [("codec", "default codec", "lib/lib.c")], ["out, outlen, return values of all calls involved"])
p("C21", "Calls have no side effects",
  "Library calls do nothing but read their input and write their output, stream state and the default codec: they make no system calls, do not use the allocator, need no more stack for long input than for short, and keep to the calling convention (registers that a function must preserve, stack pointer, direction flag, floating-point control state) on every path. Builds with OpenMP are not covered.",
  ["inputs", "configurations"],
  "All functions with every codec, all lengths and split points to a bound, errors at every place, first use and later.",
  "A compiler-visible test caller rarely keeps anything in the registers concerned; tests cannot see allocations, system calls and stack use.",
  ["lib/lib.c", "lib/codec_choose.c", "lib/arch/"], [("clobber lists of inline assembly", "lib/arch/neon64/enc_loop_asm.c, lib/arch/neon32/enc_loop.c, lib/arch/{ssse3,avx,avx2}/enc_loop_asm.c"), ("no allocation", "lib/")], [], ["callee-saved registers, control registers, stack depth, system calls, allocator calls"])
p("C22", "Nothing undefined is executed",
  "For every valid use of the library and every input and environment of the command line utility, the C code executes nothing that the C language leaves undefined: no access outside of an object (tables and stack included), no misaligned access, no overflow of signed arithmetic, no shift into or beyond the sign, "
  "no use of freed memory, no double free, and no branch, address, system call or result that depends on memory that was never set. This holds for the table generator as well.",
  ["inputs", "fault_sequences", "configurations"],
  "The spaces of C05, C06, C16, C19 (library) and C12 to C15 (utility) once more on code that stops at undefined behaviour; all codecs, with and without inline assembly, OpenMP, six architectures.",
  "The tests are not run with sanitizers, and what is undefined mostly works by chance with today's compilers, on the few inputs of a test.",
  ["lib/", "bin/base64.c", "lib/tables/table_generator.c"], [("memcpy() instead of casts in the generic loops", "lib/arch/generic/"), ("bit masks of CPU detection", "lib/codec_choose.c"), ("character table, buffers", "bin/base64.c")],
  [], ["reports of AddressSanitizer, MemorySanitizer and UndefinedBehaviorSanitizer, traps"])
p("C23", "Programs can be built on what the build makes",
  "What the Makefile and CMake make (lib/libbase64.o; the static and the shared library, installed or not, with any codecs and with OpenMP) can be used by any C99 or later and any C++98 or later program: libbase64.h compiles without a warning, alone and in several translation units of different language versions; "
  "the seven functions link, with C linkage and the same struct base64_state everywhere, and give the results that the documentation states; nothing else of the library is visible to a program; an installed CMake package is found, also after being moved; the tree can be a subdirectory of a CMake project; the README's example programs compile and work.",
  ["configurations", "inputs"],
  "Products x targets x compilers x language versions x translation units, each running every length to 200 with splits between the units.",
  "The tests are compiled as C99, by one compiler, against the static library in the build tree.",
  ["include/libbase64.h", "lib/exports.txt", "Makefile", "CMakeLists.txt", "README.md"], [("declarations, export macros, extern C, state", "include/libbase64.h"), ("exported symbols", "lib/exports.txt"), ("installation and package", "CMakeLists.txt")],
  [], ["programs that do not compile, link or run", "symbol tables"])
p("C24", "The utility handles streams and files of any length in constant memory",
  "The command line utility encodes and decodes pipes and files of more than 2 and 4 GiB, on 64-bit and 32-bit platforms alike, with any wrap width and any line length, exactly as short ones; it reports an error or a truncation at the far end; "
  "and the memory that it takes does not depend on the length of its input.",
  ["inputs", "configurations"],
  "Pipes and sparse files with lengths around 2^31 and 2^32 in the input or the output, wrap widths to beyond 2^32, each decoding mode, bad and truncated ends; x86-64 and i686.",
  "The tests' inputs have a few thousand bytes.",
  ["bin/base64.c"], [("column and buffer bookkeeping", "bin/base64.c: write_wrapped(), decode()"), ("opening of files", "bin/base64.c: parse_opts()")],
  [], ["output", "exit status", "maximal resident set of the process"])
p("C25", "Work is linear in the input, and the vector codecs save most of it",
  "For every input, length, stream state and place of an error, encoding and decoding take a number of machine instructions that is bounded by a constant per byte and one per call; each vector codec (and the default, which is one of them) takes clearly fewer per byte than the plain codec, "
  "whatever the bytes are, and the plain codec clearly fewer than byte-by-byte processing; decoding stops at the first invalid character; CPU detection is done once.",
  ["inputs", "configurations"],
  "Every length to 300, selected ones above, every open stream state, errors at places throughout, inputs that consist of one byte value for all values; every codec; x86-64, i686, aarch64, armhf.",
  "Tests look at results, which stay right when a fast path is no longer taken.",
  ["lib/arch/", "lib/lib.c", "lib/codec_choose.c"], [("vector loops with scalar heads and tails", "lib/arch/*/{enc,dec}_loop*.c"), ("re-entry of the loop", "lib/arch/generic/")],
  [], ["instructions counted by single-stepping", "instructions counted in qemu's trace"])
p("C26", "The library is the same on every architecture",
  "Whatever the word size, the byte order (ARM with NEON included), the signedness of char, the strictness of alignment, the instruction set and the system are, the library compiles without asking for more than a freestanding C library plus memcpy and memset, and encodes and decodes, in one call and as streams, exactly as RFC 4648 and its documentation say.",
  ["configurations", "inputs"],
  "24 targets x signedness of char (thorough: x optimization levels): lengths, alignments, every encoding table entry in every place, every character in every place, every ending, all pairs of splits, errors at every place.",
  "The tests run on x86, aarch64, armhf and s390x: no 32-bit big-endian machine, no big-endian ARM, none that traps unaligned access.",
  ["lib/env.h", "lib/arch/generic/", "lib/tables/", "lib/arch/neon32/", "lib/arch/neon64/", "lib/codec_choose.c"], [("byte order and word size", "lib/env.h"), ("word loops", "lib/arch/generic/32/, lib/arch/generic/64/")],
  [], ["out, outlen, return values", "faults"])
if __name__ == "__main__":
    f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(f, "w") as o:
        for x in P: o.write(json.dumps(x) + "\n")
    import sys
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
