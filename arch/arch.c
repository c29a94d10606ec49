/* The library on a target for which there is no C library here: everything is
 * enumerated in the program itself and compared with the reference model. */
#include "sys.h"
#include "libbase64.h"
#include "ref.h"
typedef unsigned char u8;

/* what compilers call on their own */
#define NOLOOP __attribute__((noinline, no_builtin))
NOLOOP void *memcpy(void *d, const void *s, size_t n) { volatile u8 *a = d; const u8 *b = s; while (n--) *a++ = *b++; return d; }
NOLOOP void *memmove(void *d, const void *s, size_t n) { volatile u8 *a = d; const u8 *b = s; if (a <= b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }
NOLOOP void *memset(void *d, int c, size_t n) { volatile u8 *a = d; while (n--) *a++ = (u8) c; return d; }
NOLOOP int memcmp(const void *p, const void *q, size_t n) { const volatile u8 *a = p, *b = q; for (; n--; a++, b++) if (*a != *b) return *a - *b; return 0; }
NOLOOP int bcmp(const void *p, const void *q, size_t n) { return memcmp(p, q, n); }
NOLOOP void *memchr(const void *p, int c, size_t n) { const volatile u8 *a = p; for (; n--; a++) if (*a == (u8) c) return (void *) a; return 0; }
NOLOOP size_t strlen(const char *s) { const volatile char *p = s; while (*p) p++; return (size_t) (p - s); }
#ifdef __arm__
void __aeabi_memcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); }
void __aeabi_memcpy4(void *d, const void *s, size_t n) { memcpy(d, s, n); }
void __aeabi_memcpy8(void *d, const void *s, size_t n) { memcpy(d, s, n); }
void __aeabi_memset(void *d, size_t n, int c) { memset(d, c, n); }
void __aeabi_memset4(void *d, size_t n, int c) { memset(d, c, n); }
void __aeabi_memset8(void *d, size_t n, int c) { memset(d, c, n); }
void __aeabi_memclr(void *d, size_t n) { memset(d, 0, n); }
void __aeabi_memclr4(void *d, size_t n) { memset(d, 0, n); }
void __aeabi_memclr8(void *d, size_t n) { memset(d, 0, n); }
#endif
#if defined(__arm__) || defined(__riscv) || defined(__hexagon__) || defined(__mips__) || defined(__sparc__)
/* division, for those that have no instruction for it */
static unsigned long udiv(unsigned long a, unsigned long b, unsigned long *r)
{
	unsigned long q = 0, m = 0;
	for (int i = 8 * (int) sizeof a - 1; i >= 0; i--) { m = m << 1 | (a >> i & 1); if (m >= b) { m -= b; q |= 1ul << i; } }
	*r = m;
	return q;
}
unsigned long __udivsi3(unsigned long a, unsigned long b) { unsigned long r; return udiv(a, b, &r); }
unsigned long __umodsi3(unsigned long a, unsigned long b) { unsigned long r; udiv(a, b, &r); return r; }
unsigned long __aeabi_uidiv(unsigned long a, unsigned long b) { unsigned long r; return udiv(a, b, &r); }
#if defined(__arm__)
__attribute__((used)) unsigned long arm_mod(unsigned long a, unsigned long b) { unsigned long r; udiv(a, b, &r); return r; }
__asm__(".globl __aeabi_uidivmod\n.type __aeabi_uidivmod, %function\n__aeabi_uidivmod:\n push {r0, r1, r2, lr}\n bl arm_mod\n mov r2, r0\n pop {r0, r1}\n push {r2}\n bl __aeabi_uidiv\n pop {r1}\n pop {r2, lr}\n bx lr\n");
#endif
unsigned long __hexagon_udivsi3(unsigned long a, unsigned long b) { unsigned long r; return udiv(a, b, &r); }
unsigned long __hexagon_umodsi3(unsigned long a, unsigned long b) { unsigned long r; udiv(a, b, &r); return r; }
#if defined(__riscv) && __SIZEOF_LONG__ == 4
unsigned long __mulsi3(unsigned long a, unsigned long b) { unsigned long r = 0; for (; b; b >>= 1, a <<= 1) if (b & 1) r += a; return r; }
#endif
#if defined(__riscv) && __SIZEOF_LONG__ == 8
unsigned long __muldi3(unsigned long a, unsigned long b) { unsigned long r = 0; for (; b; b >>= 1, a <<= 1) if (b & 1) r += a; return r; }
unsigned long __udivdi3(unsigned long a, unsigned long b) { unsigned long r; return udiv(a, b, &r); }
unsigned long __umoddi3(unsigned long a, unsigned long b) { unsigned long r; udiv(a, b, &r); return r; }
#endif
#endif

static unsigned long calls;
static char line[600];
static size_t at;
static void ps(const char *s) { while (*s && at < sizeof line - 1) line[at++] = *s++; }
static void pn(unsigned long v) { char b[24]; int i = 24; b[--i] = 0; do b[--i] = (char) ('0' + v % 10); while (v /= 10); ps(b + i); }
static void flush(void) { line[at++] = '\n'; sys_write(line, at); at = 0; }

struct scn { const char *what; int flag; unsigned sp, dp; size_t n, c1, c2; int pat; } S;
static void fail(const char *why)
{
	ps("VIOL "); ps(S.what); ps(" flag="); pn((unsigned) S.flag); ps(" length="); pn(S.n); ps(" source+"); pn(S.sp); ps(" dest+"); pn(S.dp);
	ps(" split="); pn(S.c1); ps(","); pn(S.c2); ps(" pattern="); pn((unsigned) S.pat); ps("\t"); ps(S.what); ps(": "); ps(why); flush();
	sys_exit(1);
#ifdef __wasm__
	__builtin_trap();
#endif
}

#define MAX 9000
static u8 raw[MAX] __attribute__((aligned(64))), in[MAX * 2] __attribute__((aligned(64))), out[MAX * 2] __attribute__((aligned(64)));
static u8 want[MAX * 2], text[MAX * 2];
#define CAN 0xA7
#define PADDING 40

static void arm(size_t bound) { memset(out, CAN, bound + 2 * PADDING); }
static void check(u8 *o, size_t got, size_t expect, size_t bound, const u8 *w)
{
	if (got != expect) fail("wrong output length");
	if (memcmp(o, w, expect)) fail("wrong output");
	for (u8 *p = out; p < o; p++) if (*p != CAN) fail("writes before the output");
	for (int i = 0; i < 16; i++) if (o[bound + i] != CAN) fail("writes beyond the output");
}
/* The data at raw[0..n), in one call. */
static void enc(int flag, unsigned sp, unsigned dp, size_t n)
{
	struct renc r = { 0, 0 };
	size_t k = ref_enc(&r, raw, n, want), got = 12345;
	k += ref_enc_final(&r, want + k);
	S.what = "base64_encode"; S.flag = flag; S.sp = sp; S.dp = dp; S.n = n; S.c1 = S.c2 = 0;
	memcpy(in + sp, raw, n);
	arm(k);
	base64_encode((char *) in + sp, n, (char *) out + dp, &got, flag);
	calls++;
	check(out + dp, got, k, k, want);
}
/* The text at text[0..n), in one call. */
static void dec(int flag, unsigned sp, unsigned dp, size_t n)
{
	struct rdec r = { 0, 0, 0 };
	size_t k, got = 12345;
	int ok = ref_dec(&r, text, n, want, &k) && ref_dec_complete(&r), ret;
	S.what = "base64_decode"; S.flag = flag; S.sp = sp; S.dp = dp; S.n = n; S.c1 = S.c2 = 0;
	memcpy(in + sp, text, n);
	arm(n);
	ret = base64_decode((char *) in + sp, n, (char *) out + dp, &got, flag);
	calls++;
	if (ret != ok) fail(ok ? "valid text rejected" : "invalid text accepted");
	if (ok) check(out + dp, got, k, (n + 3) / 4 * 3, want);
	else if (got > (n + 3) / 4 * 3) fail("wrong output length after an error");
}
static void senc(int flag, size_t n, size_t c1, size_t c2)
{
	struct renc r = { 0, 0 };
	struct base64_state st;
	size_t cut[4] = { 0, c1, c2, n }, o = 0;
	S.what = "base64_stream_encode"; S.flag = flag; S.sp = S.dp = 0; S.n = n; S.c1 = c1; S.c2 = c2;
	memcpy(in, raw, n);
	arm(n / 3 * 4 + 8);
	base64_stream_encode_init(&st, flag);
	for (int i = 0; i < 3; i++) {
		size_t got = 12345, k = ref_enc(&r, raw + cut[i], cut[i + 1] - cut[i], want);
		base64_stream_encode(&st, (char *) in + cut[i], cut[i + 1] - cut[i], (char *) out + o, &got);
		if (got != k || memcmp(out + o, want, k)) fail("wrong output of a chunk");
		o += k;
	}
	size_t got = 12345, k = ref_enc_final(&r, want);
	base64_stream_encode_final(&st, (char *) out + o, &got);
	if (got != k || memcmp(out + o, want, k)) fail("wrong output at the end");
	if (out[o + k] != CAN) fail("writes beyond the output");
	calls += 5;
}
static void sdec(int flag, size_t n, size_t c1, size_t c2)
{
	struct rdec r = { 0, 0, 0 };
	struct base64_state st;
	size_t cut[4] = { 0, c1, c2, n }, o = 0;
	S.what = "base64_stream_decode"; S.flag = flag; S.sp = S.dp = 0; S.n = n; S.c1 = c1; S.c2 = c2;
	memcpy(in, text, n);
	arm(n);
	base64_stream_decode_init(&st, flag);
	for (int i = 0; i < 3; i++) {
		size_t m = cut[i + 1] - cut[i], got = 12345, k;
		if (!m) continue;
		int ok = ref_dec(&r, text + cut[i], m, want, &k), ret = base64_stream_decode(&st, (char *) in + cut[i], m, (char *) out + o, &got);
		calls++;
		if (ret != ok) fail(ok ? "valid text rejected" : "invalid text accepted");
		if (!ok) return;
		if (got != k || memcmp(out + o, want, k)) fail("wrong output of a chunk");
		o += k;
	}
}
static size_t to_text(size_t n)
{
	struct renc r = { 0, 0 };
	size_t k = ref_enc(&r, raw, n, text);
	return k + ref_enc_final(&r, text + k);
}
static void fill(int pat) { S.pat = pat; for (size_t i = 0; i < sizeof raw; i++) raw[i] = (u8) (pat == 0 ? i * 151 + i / 7 : pat == 1 ? 255 - i * 37 : pat == 2 ? 0xff : 0x5a + (i << 5)); }

#ifdef DEEP
#undef DEEP
#define DEEP 1
#else
#define DEEP 0
#endif
#ifndef CODECS
#define CODECS 0, BASE64_FORCE_PLAIN
#endif
static const int flags[] = { CODECS };

#ifdef __wasm__
__attribute__((export_name("start")))
#else
__attribute__((used))
#endif
void start_c(void)
{
	ref_setup();
	for (size_t f = 0; f < sizeof flags / sizeof *flags; f++) {
		int F = flags[f];
		size_t n, k, i, j;
		unsigned a, b;
		for (int pat = 0; pat < 4; pat++) {
			fill(pat);
			for (n = 0; n <= (DEEP ? 1100 : 260); n++) { enc(F, 0, 0, n); k = to_text(n); dec(F, 0, 0, k); }
			for (n = 4090; n < 4110; n++) { enc(F, 1, 3, n); k = to_text(n); dec(F, 3, 1, k); }
			n = 8999; enc(F, 0, 0, n); k = to_text(n); dec(F, 0, 0, k);
		}
		fill(0);
		/* every alignment */
		for (n = 0; n <= 100; n += n < 20 || DEEP ? 1 : 7) { k = to_text(n); for (a = 0; a < 8; a++) for (b = 0; b < 8; b++) { enc(F, a, b, n); dec(F, a, b, k); } }
		/* every entry of the encoding table, in every place */
		for (i = 0; i < 16; i++) for (k = 0; k < 4096; k += 1) {
			size_t p = i * 3 / 2;
			fill(3);
			S.pat = 1000 + (int) k;
			if (i & 1) { raw[p] = (u8) ((raw[p] & 0xf0) | (k >> 8)); raw[p + 1] = (u8) k; }
			else { raw[p] = (u8) (k >> 4); raw[p + 1] = (u8) ((raw[p + 1] & 15) | (k << 4)); }
			enc(F, 0, 0, 30);
			if (i > 8 && !DEEP) k += 14;
		}
		/* every character in every place */
		fill(0);
		for (n = 24; n <= 96; n += DEEP ? 1 : 36) {
			k = to_text(n);
			for (i = 0; i < k; i++) for (j = 0; j < 256; j++) { u8 was = text[i]; text[i] = (u8) j; S.pat = 10000 + (int) (i * 256 + j); dec(F, 0, 0, k); text[i] = was; }
		}
		/* every ending of four characters out of A, B, =, ! in texts of every length */
		for (n = 0; n <= 64; n++) {
			memset(text, 'Q', n + 4);
			for (i = 0; i < 256; i++) { for (j = 0; j < 4; j++) text[n + j] = (u8) "AB=!"[i >> 2 * j & 3]; S.pat = 20000 + (int) i; dec(F, 0, 0, n + 4); if (n < 12) for (j = 0; j <= n + 4; j++) sdec(F, n + 4, j, j); }
		}
		/* streams: every pair of splits */
		fill(0);
		for (n = 0; n <= (DEEP ? 72 : 40); n++) {
			k = to_text(n);
			for (i = 0; i <= n; i++) for (j = i; j <= n; j++) senc(F, n, i, j);
			for (i = 0; i <= k; i++) for (j = i; j <= k; j += n > 20 && !DEEP ? 3 : 1) sdec(F, k, i, j);
		}
		/* and with an error at every place */
		k = to_text(60);
		for (a = 0; a < k; a++) { u8 was = text[a]; text[a] = '!'; S.pat = 30000 + (int) a; for (i = 0; i <= k; i++) sdec(F, k, i, i); text[a] = was; }
		/* long streams in two pieces around the blocks that codecs work in */
		fill(0);
		for (n = 300; n < 306; n++) { k = to_text(n); for (i = 0; i <= n; i++) { senc(F, n, i, i); senc(F, n, i / 2, i); } for (i = 0; i <= k; i++) { sdec(F, k, i, i); sdec(F, k, i / 2, i); } }
	}
	ps("STAT transitions "); pn(calls); flush();
	ps("STAT impl_calls "); pn(calls); flush();
	ps("DONE"); flush();
	sys_exit(0);
}
#ifndef __wasm__
/* the kernel enters with an aligned stack and no return address */
#if defined(__powerpc64__)
__asm__(".globl _start\n.type _start,@function\n_start:\n li 0,0\n stdu 1,-128(1)\n bcl 20,31,1f\n1: mflr 2\n addis 2,2,.TOC.-1b@ha\n addi 2,2,.TOC.-1b@l\n bl start_c\n nop\n");
#elif defined(__powerpc__)
__asm__(".globl _start\n_start:\n li 0,0\n stwu 1,-64(1)\n bl start_c\n");
#elif defined(__x86_64__)
__asm__(".globl _start\n_start:\n xor %ebp,%ebp\n call start_c\n hlt\n");
#else
void _start(void) { start_c(); }
#endif
#endif
