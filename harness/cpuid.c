/* C07: the real lib.c and codec_choose.c on every CPU of a bounded family.
 * The cpuid and xgetbv instructions in the objects have been replaced with
 * instructions that trap; the handler plays the CPU. The codecs are stand-ins
 * that record that they were called.
 * usage: cpuid explore HAVEMASK NAME   |   cpuid replay SCENARIO */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <ucontext.h>
#include "libbase64.h"

enum { PLAIN, SSSE3, SSE41, SSE42, AVX, AVX2, AVX512, NEON32, NEON64, NONE };
static const char *names[] = { "plain", "ssse3", "sse41", "sse42", "avx", "avx2", "avx512", "neon32", "neon64", "no codec" };
static int called;
#define REC(n, id) \
void base64_stream_encode_##n(struct base64_state *st, const char *s, size_t l, char *o, size_t *ol) { called = id; *ol = 0; } \
int base64_stream_decode_##n(struct base64_state *st, const char *s, size_t l, char *o, size_t *ol) { called = id; *ol = 0; return 1; }
REC(plain, PLAIN) REC(ssse3, SSSE3) REC(sse41, SSE41) REC(sse42, SSE42) REC(avx, AVX) REC(avx2, AVX2) REC(avx512, AVX512)
REC(neon32, NEON32) REC(neon64, NEON64)

/* the library's writable data, moved into sections of their own */
static char dummy_bss[16] __attribute__((used, section("libbss"))) = {0};
static char dummy_data[16] __attribute__((used, section("libdata"))) = {1};
extern char __start_libbss[], __stop_libbss[], __start_libdata[], __stop_libdata[];
static char *saved;
static size_t nb, nd;
static void save(void) { nb = __stop_libbss - __start_libbss; nd = __stop_libdata - __start_libdata; saved = malloc(nb + nd); memcpy(saved, __start_libbss, nb); memcpy(saved + nb, __start_libdata, nd); }
static void reset(void) { memcpy(__start_libbss, saved, nb); memcpy(__start_libdata, saved + nb, nd); }

/* the CPU */
struct cpu { uint32_t max, c1, b7, c7, xcr; int bg; } cpu;
static const char *err;
static unsigned long traps;
static void cpuid(uint32_t leaf, uint32_t sub, uint32_t r[4])
{
	uint32_t bg = cpu.bg ? ~0u : 0;
	uint32_t c1m = 1u<<9|1u<<19|1u<<20|1u<<27|1u<<28, b7m = 1u<<5|1u<<31, c7m = 1u<<1;
	r[0] = r[1] = r[2] = r[3] = 0;
	if (leaf >= 0x80000000u) {
		if (leaf == 0x80000000u) r[0] = 0x80000008u;
		else r[0] = r[1] = r[2] = r[3] = bg;
		return;
	}
	if (leaf == 0) { r[0] = cpu.max; r[1] = 0x756e6547; r[3] = 0x49656e69; r[2] = 0x6c65746e; return; }
	if (leaf > cpu.max) { r[0] = r[1] = r[2] = r[3] = ~0u; return; }
	if (leaf == 1) {
		uint32_t i = 0;
		if (cpu.c1 & (1u<<9|1u<<19|1u<<20|1u<<28)) i |= 1;                      /* SSE3 */
		if (cpu.c1 & (1u<<20)) i |= 1u<<23;                                     /* POPCNT */
		if (cpu.c1 & (1u<<27)) i |= 1u<<26;                                     /* XSAVE */
		r[2] = (bg & ~c1m) | cpu.c1 | i;
		r[3] = bg | 0x07808111u;                                                /* fpu tsc cx8 cmov mmx fxsr sse sse2 */
		r[0] = bg ? ~0u : 0x000306c3; r[1] = bg;
		return;
	}
	if (leaf == 7) {
		if (sub != 0) { r[0] = bg; r[1] = ~cpu.b7; r[2] = ~cpu.c7; r[3] = bg; return; }
		r[0] = bg ? 2 : 0;
		r[1] = (bg & ~b7m) | cpu.b7;
		r[2] = (bg & ~c7m) | cpu.c7;
		r[3] = bg;
		if (cpu.b7 & (1u<<31) || cpu.c7 & 2) r[1] |= 1u<<16 | 1u<<30 | 1u<<17 | 1u<<28;    /* AVX512 F BW DQ CD */
		return;
	}
	r[0] = r[1] = r[2] = r[3] = bg;
}
#ifdef __x86_64__
#define R(n) uc->uc_mcontext.gregs[REG_R##n]
#else
#define R(n) uc->uc_mcontext.gregs[REG_E##n]
#endif
static void trap(int sig, siginfo_t *si, void *ctx)
{
	ucontext_t *uc = ctx;
	uint8_t *pc = (uint8_t *)(uintptr_t)R(IP);
	traps++;
	if (pc[0] == 0x0f && pc[1] == 0x0b) {
		uint32_t r[4];
		cpuid((uint32_t)R(AX), (uint32_t)R(CX), r);
		R(AX) = r[0]; R(BX) = r[1]; R(CX) = r[2]; R(DX) = r[3];
		R(IP) += 2;
		return;
	}
	if (pc[0] == 0x0f && pc[1] == 0xff) {
		uint32_t v = ((cpu.bg ? ~0u : 1u) & ~0xe6u) | cpu.xcr | 1;
		if ((uint32_t)R(CX) != 0) { err = "XGETBV of a register other than XCR0"; v = ~v; }
		if (cpu.max < 1 || !(cpu.c1 & 1u<<27)) err = "XGETBV although the OS has not set OSXSAVE";
		R(AX) = v; R(DX) = cpu.bg ? 0xffffffffu : 0;
		R(IP) += 3;
		return;
	}
	fprintf(stderr, "unexpected illegal instruction\n");
	_exit(9);
}

static int have;        /* bit per codec */
static int usable(int k)
{
	uint32_t c1 = cpu.max >= 1 ? cpu.c1 : 0, b7 = cpu.max >= 7 ? cpu.b7 : 0, c7 = cpu.max >= 7 ? cpu.c7 : 0;
	uint32_t x = c1 & 1u<<27 ? cpu.xcr : 0;
	switch (k) {
	case PLAIN: return 1;
	case SSSE3: return !!(c1 & 1u<<9);
	case SSE41: return !!(c1 & 1u<<19);
	case SSE42: return !!(c1 & 1u<<20);
	case AVX: return (c1 & 1u<<28) && (x & 6) == 6;
	case AVX2: return (b7 & 1u<<5) && (x & 6) == 6;
	case AVX512: return (b7 & 1u<<31) && (c7 & 2) && (x & 0xe6) == 0xe6;
	}
	return 0;
}
static int consistent(void)
{
	uint32_t c1 = cpu.c1;
	int ssse3 = !!(c1 & 1u<<9), s41 = !!(c1 & 1u<<19), s42 = !!(c1 & 1u<<20), osx = !!(c1 & 1u<<27), avx = !!(c1 & 1u<<28);
	int avx2 = cpu.max >= 7 && cpu.b7 & 1u<<5, vl = cpu.max >= 7 && cpu.b7 & 1u<<31, vbmi = cpu.max >= 7 && cpu.c7 & 2;
	if (s41 && !ssse3) return 0;
	if (s42 && !s41) return 0;
	if (avx && !s42) return 0;
	if (avx2 && !avx) return 0;
	if ((vl || vbmi) && !avx2) return 0;
	if ((cpu.xcr & 4) && !(cpu.xcr & 2)) return 0;                           /* YMM state needs XMM state */
	if ((cpu.xcr & 0xe0) && (cpu.xcr & 0xe6) != 0xe6) return 0;              /* the AVX-512 states come together, with YMM */
	if (avx && !osx && 0) return 0;
	return 1;
}
static unsigned long states, calls;
static int op(int which)
{
	char buf[64]; size_t ol;
	struct base64_state st;
	called = NONE;
	switch (which) {
	case 0: base64_encode("abc", 3, buf, &ol, 0); break;
	case 1: base64_decode("YWJj", 4, buf, &ol, 0); break;
	case 2: base64_stream_encode_init(&st, 0); base64_stream_encode(&st, "abc", 3, buf, &ol); break;
	case 3: base64_stream_decode_init(&st, 0); base64_stream_decode(&st, "YWJj", 4, buf, &ol); break;
	}
	calls++;
	return called;
}
static const int orders[4][4] = { {0,1,2,3}, {1,0,3,2}, {2,3,0,1}, {3,2,1,0} };
static char msg[300];
static int one(int ord)
{
	int i, k, best = PLAIN, first = -1;
	states++;
	reset();
	err = NULL;
	for (k = AVX512; k > PLAIN; k--) if ((have & 1 << k) && usable(k)) { best = k; break; }
	for (i = 0; i < 4; i++) {
		int got = op(orders[ord][i]);
		if (err) { snprintf(msg, sizeof msg, "%s", err); return 1; }
		if (got >= NONE) { snprintf(msg, sizeof msg, "call %d runs no codec", orders[ord][i]); return 1; }
		if (got > AVX512) { snprintf(msg, sizeof msg, "the codec %s is chosen on x86", names[got]); return 1; }
		if (!usable(got)) { snprintf(msg, sizeof msg, "call %d uses the codec %s, which the CPU or the OS does not support", orders[ord][i], names[got]); return 1; }
		if (got != PLAIN && !(have & 1 << got)) { snprintf(msg, sizeof msg, "call %d uses the codec %s, which is not in the build", orders[ord][i], names[got]); return 1; }
		if (first < 0) first = got;
		if (got != first) { snprintf(msg, sizeof msg, "encoding and decoding use different codecs, %s and %s", names[first], names[got]); return 1; }
		if (consistent() && got != best) { snprintf(msg, sizeof msg, "call %d uses the codec %s although %s is available", orders[ord][i], names[got], names[best]); return 1; }
	}
	return 0;
}
static void scn(char *o, int ord) { sprintf(o, "%x:%x:%x:%x:%x:%x:%d:%d", have, cpu.max, cpu.c1, cpu.b7, cpu.c7, cpu.xcr, cpu.bg, ord); }
int main(int argc, char **argv)
{
	static char stk[1 << 16];
	static const int c1b[] = { 9, 19, 20, 27, 28 }, xb[] = { 1, 2, 5, 6, 7 };
	static const unsigned maxs[] = { 0, 1, 2, 6, 7, 0x1f };
	struct sigaction sa = {0};
	char s[200];
	int i, m, a, b, x, ord;
	sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	sigaction(SIGILL, &sa, NULL);
	dummy_bss[0] = 0; dummy_data[0] = 1;
	save();
	if (argc > 2 && !strcmp(argv[1], "replay")) {
		sscanf(argv[2], "%x:%x:%x:%x:%x:%x:%d:%d", &have, &cpu.max, &cpu.c1, &cpu.b7, &cpu.c7, &cpu.xcr, &cpu.bg, &ord);
		if (one(ord)) { printf("VIOL %s\t%s\n", argv[2], msg); return 3; }
		printf("holds\nDONE\n");
		return 0;
	}
	have = strtol(argv[2], NULL, 16);
	{ int nord = argc > 3 ? atoi(argv[3]) : 2;
	for (ord = 0; ord < nord; ord++)
	for (m = 0; m < 6; m++)
	for (cpu.bg = 0; cpu.bg < 2; cpu.bg++)
	for (a = 0; a < 32; a++)
	for (b = 0; b < 8; b++)
	for (x = 0; x < 32; x++) {
		cpu.max = maxs[m]; cpu.c1 = cpu.xcr = 0;
		for (i = 0; i < 5; i++) { if (a >> i & 1) cpu.c1 |= 1u << c1b[i]; if (x >> i & 1) cpu.xcr |= 1u << xb[i]; }
		cpu.b7 = (b & 1 ? 1u << 5 : 0) | (b & 2 ? 1u << 31 : 0);
		cpu.c7 = b & 4 ? 2 : 0;
		if (cpu.max < 7 && b && nord < 3) continue;         /* the leaf is not there: all ones is returned anyway */
		if (!(cpu.c1 & 1u << 27) && x && nord < 3 && x != 31) continue;
		if (one(ord)) { scn(s, ord); printf("VIOL %s\t%s\n", s, msg); return 3; }
	} }
	scn(s, 0);
	printf("SAMPLE last configuration have:max:leaf1.ecx:leaf7.ebx:leaf7.ecx:xcr0:background:order = %s\n", s);
	printf("STAT states %lu\nSTAT transitions %lu\nSTAT impl_calls %lu\nSTAT trapped_instructions %lu\nDONE\n", states, calls, calls, traps);
	return 0;
}
