/* C18: single calls on gigabytes. The input is one short stretch of memory
 * mapped again and again; a bad character gets a page of its own.
 *   huge explore WHAT FLAGS[,FLAGS...] LEN[,LEN...]  |  huge replay WHAT:FLAGS:LEN:VARIANT
 * WHAT: enc, dec, senc, sdec (streaming, one byte and then the rest) */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>
#include "libbase64.h"
#include "ref.h"

#define PB (3 * 4096 * 83u)
#define PT (4 * 4096 * 83u)
typedef unsigned long long ull;
static uint8_t byte_p[PB], text_p[PT], want[PT > PB ? PT : PB];
static uint8_t *src, *out; static ull srccap, outcap;
static unsigned long calls; static ull covered;

static int map_in(const void *p, size_t period, ull n)
{
	int fd = memfd_create("huge", 0);
	if (fd < 0 || ftruncate(fd, period) || pwrite(fd, p, period, 0) != (ssize_t)period) return -1;
	srccap = (n / period + 2) * period;
	src = mmap(NULL, srccap, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (src == MAP_FAILED) return -1;
	for (ull i = 0; i < srccap; i += period) if (mmap(src + i, period, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED, fd, 0) == MAP_FAILED) return -1;
	close(fd);
	return 0;
}
static int map_out(ull n)
{
	outcap = (n + 8192) & ~4095ull;
	uint8_t *m = mmap(NULL, outcap + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED) return -1;
	mprotect(m + outcap, 4096, PROT_NONE);
	madvise(m, outcap, MADV_HUGEPAGE);
	out = m;
	return 0;
}
static int differs(const uint8_t *o, ull n, size_t period, ull *where)
{
	for (ull i = 0; i < n; i += period) {
		size_t k = n - i < period ? n - i : period;
		if (memcmp(o + i, want, k)) { size_t j = 0; while (o[i + j] == want[j]) j++; *where = i + j; return 1; }
	}
	return 0;
}
static const char *what; static int fl; static ull len; static int var; static int turn;
static int bad(const char *f, ull a, ull b)
{
	printf("VIOL %s:%d:%llu:%d\t%s, flags %d, %llu bytes of input, case %d: ", what, fl, len, var, what, fl, len, var);
	printf(f, a, b); printf("\n");
	return 3;
}
static int enc(void)
{
	/* each time from a different place in the pattern */
	size_t ph = (turn++ * 7919u + 1) % PB;
	const uint8_t *s = src + ph;
	size_t ol = 77, t = 0; ull n = len, wl = (n + 2) / 3 * 4, at;
	uint8_t tail[8], rot[PB > 0 ? PB : 1];
	for (size_t i = 0; i < PB; i++) rot[i] = byte_p[(ph + i) % PB];
	{ struct renc e = {0}; ref_enc(&e, rot, PB, want); }
	if (*what == 's') {
		struct base64_state st; size_t o1, o2, o3;
		base64_stream_encode_init(&st, fl);
		base64_stream_encode(&st, (char *)s, 1, (char *)out, &o1);
		base64_stream_encode(&st, (char *)s + 1, n - 1, (char *)out + o1, &o2);
		base64_stream_encode_final(&st, (char *)out + o1 + o2, &o3);
		ol = o1 + o2 + o3;
	}
	else base64_encode((char *)s, n, (char *)out, &ol, fl);
	calls++; covered += n;
	if (ol != wl) return bad("outlen is %llu instead of %llu", ol, wl);
	t = n % 3 ? 4 : 0;
	if (differs(out, wl - t, PT, &at)) return bad("wrong output at byte %llu of %llu", at, wl);
	if (t) {
		uint8_t r[3]; struct renc e = {0}; size_t k;
		for (size_t i = 0; i < n % 3; i++) r[i] = s[n - n % 3 + i];
		k = ref_enc(&e, r, n % 3, tail); ref_enc_final(&e, tail + k);
		if (memcmp(out + wl - 4, tail, 4)) return bad("wrong last group at byte %llu of %llu", wl - 4, wl);
	}
	return 0;
}
static int dec(void)
{
	size_t ph = (turn++ * 7919u * 4 + 4) % PT, ol = 77; uint8_t *s = src + ph;
	ull n = len & ~3ull, wl = n / 4 * 3, at, cut; int r, wr = 1;
	for (size_t i = 0; i < PB; i++) want[i] = byte_p[(ph / 4 * 3 + i) % PB];
	/* 0 plain; 1, 2 padding at the end; 3 bad near the end; 4 beyond 2^31 (or 3/4 of the length); 5 padding early; 6 incomplete */
	ull p[2] = { n, n }; uint8_t keep[2], ch = '=';
	int np = 0, lastk = 0;
	switch (var) {
	case 1: p[np++] = n - 1; wl -= 1; lastk = 2; break;
	case 2: p[np++] = n - 1; p[np++] = n - 2; wl -= 2; lastk = 1; break;
	case 3: p[np++] = n - 6; ch = '*'; wr = 0; break;
	case 4: p[np++] = n > (1ull << 31) + 90000 ? (1ull << 31) + 70001 : n / 4 * 3 + 1; ch = 0x80; wr = 0; break;
	case 5: p[np++] = n > (1ull << 32) ? (1ull << 32) + 3 : n / 8 * 7 | 3; wr = 0; break;
	case 6: n -= 1; wr = 0; break;
	}
	for (int i = 0; i < np; i++) { keep[i] = s[p[i]]; s[p[i]] = ch; }
	if (!wr && var != 6) { cut = p[0] / 4 * 4; wl = cut / 4 * 3 + (p[0] % 4 > 1 ? p[0] % 4 - 1 : 0); }
	if (var == 6) wl = n / 4 * 3 + 2;
	if (*what == 's') {
		struct base64_state st; size_t o1 = 0, o2 = 0;
		base64_stream_decode_init(&st, fl);
		base64_stream_decode(&st, (char *)s, 1, (char *)out, &o1);
		r = base64_stream_decode(&st, (char *)s + 1, n - 1, (char *)out + o1, &o2);
		if (var == 6) r = 0;
		ol = o1 + o2;
	}
	else r = base64_decode((char *)s, n, (char *)out, &ol, fl);
	calls++; covered += n;
	for (int i = 0; i < np; i++) s[p[i]] = keep[i];
	if (r != wr) return bad("the result is %llu instead of %llu", r, wr);
	if (ol != wl) return bad("outlen is %llu instead of %llu", ol, wl);
	if (differs(out, wl, PB, &at)) return bad("wrong output at byte %llu of %llu", at, wl);
	return 0;
}
int main(int argc, char **argv)
{
	char w[10], *e;
	ref_setup();
	setvbuf(stdout, NULL, _IOLBF, 0);
	for (size_t i = 0; i < PB; i++) byte_p[i] = ((i * 2654435761u) >> 13) ^ (i >> 8);
	{ struct renc r = {0}; ref_enc(&r, byte_p, PB, text_p); }
	int replay = !strcmp(argv[1], "replay");
	ull max = 0;
	if (replay) { if (sscanf(argv[2], "%9[a-z]:%d:%llu:%d", w, &fl, &len, &var) != 4) return 2; what = w; max = len; }
	else { what = argv[2]; for (char *p = argv[4]; ; p = e + 1) { ull n = strtoull(p, &e, 0); if (n > max) max = n; if (!*e) break; } }
	int d = strchr(what, 'd') != NULL;
	if (d ? map_in(text_p, PT, max) || map_out(max / 4 * 3 + 16) : map_in(byte_p, PB, max) || map_out((max + 2) / 3 * 4 + 16)) { printf("no memory\n"); return 2; }
	if (replay) { int r = d ? dec() : enc(); if (!r) printf("holds\nDONE\n"); return r; }
	char *vs = argc > 5 ? argv[5] : "0";
	for (char *f = argv[3]; ; f = e + 1) {
		fl = strtol(f, &e, 0);
		char *g;
		for (char *p = argv[4]; ; p = g + 1) {
			len = strtoull(p, &g, 0);
			for (char *v = vs; *v; v++) { var = *v - '0'; if (d ? dec() : enc()) return 3; if (!d) break; }
			if (!*g) break;
		}
		if (!*e) break;
	}
	printf("STAT states %lu\nSTAT transitions %lu\nSTAT impl_calls %lu\nSTAT gigabytes %llu\nSAMPLE %s of %llu bytes, flags %d\nDONE\n", calls, calls, calls, covered >> 30, what, len, fl);
	return 0;
}
