/* C25: the number of instructions of a call, counted by single-stepping (x86), for every
 * length, from every open state, with errors everywhere.
 * cost explore CODECFLAG ENC-PERMILLE ENC-ADD DEC-PERMILLE DEC-ADD TIER
 * cost replay  CODECFLAG LIMIT-PERMILLE ADD KIND N K      (one case)
 * cost once    KIND N FLAG                                (for emulators that count)
 * The plain codec of the same build is the measure: a codec may take ratio * plain * n + add. */
#define _GNU_SOURCE
#include <stdio.h>
#include <signal.h>
#include <string.h>
#include <stdlib.h>
#include "libbase64.h"
#define PLAIN BASE64_FORCE_PLAIN
#define MAX (1 << 18)
static char in[MAX], txt[MAX / 3 * 4 + 8], out[MAX / 3 * 4 + 512];
static unsigned long calls;
#if defined(__x86_64__) || defined(__i386__)
static volatile unsigned long steps;
static void trap(int s) { steps++; }
#ifdef __x86_64__
#define ON __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc")
#define OFF __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc")
#else
#define ON __asm__ volatile("pushf; orl $0x100,(%%esp); popf" ::: "memory", "cc")
#define OFF __asm__ volatile("pushf; andl $~0x100,(%%esp); popf" ::: "memory", "cc")
#endif
/* kind: 0 encode, 1 decode, 2+k encode in a stream with k bytes pending, 6+k decode with k
 * characters pending, 12 encode n times the byte k, 13 decode n times the character k, 10 decode with the bad character at k, 11 as 10 with a stream */
static unsigned long cost(int kind, size_t n, size_t k, int flag)
{
	struct base64_state s;
	size_t m, p = kind >= 2 && kind < 6 ? kind - 2 : kind >= 6 && kind < 10 ? kind - 6 : 0;
	static char same[4096];
	char save = txt[k];
	calls++;
	if (kind == 11) base64_stream_decode_init(&s, flag);
	else if (kind >= 6 && kind < 10) { base64_stream_decode_init(&s, flag); base64_stream_decode(&s, txt, p, out, &m); }
	else if (kind >= 2 && kind < 6) { base64_stream_encode_init(&s, flag); base64_stream_encode(&s, in, p, out, &m); }
	if (kind >= 12) memset(same, (int) k, n);
	else if (kind >= 10) txt[k] = '*';
	steps = 0;
	switch (kind) {
	case 0: ON; base64_encode(in, n, out, &m, flag); OFF; break;
	case 1: case 10: ON; base64_decode(txt, n, out, &m, flag); OFF; break;
	case 12: ON; base64_encode(same, n, out, &m, flag); OFF; break;
	case 13: ON; base64_decode(same, n, out, &m, flag); OFF; break;
	case 11: ON; base64_stream_decode(&s, txt, n, out, &m); OFF; break;
	default:
		if (kind < 6) { ON; base64_stream_encode(&s, in + p, n, out, &m); OFF; }
		else { ON; base64_stream_decode(&s, txt + p, n, out, &m); OFF; }
	}
	txt[k] = save;
	return steps;
}
static double slope(int d, int flag, size_t a, size_t b) { double x = cost(d, b, 0, flag), y = cost(d, a, 0, flag); return (x - y) / (b - a); }
static double unit[2];	/* instructions of the plain codec for a byte */
static void measure(void) { for (int d = 0; d < 2; d++) unit[d] = slope(d, PLAIN, 2000, 8000); }
static int isdec(int kind) { return kind == 1 || kind >= 6 && kind != 12; }
static int check(int flag, int permille, int add, int kind, size_t n, size_t k)
{
	size_t w = kind == 10 || kind == 11 ? k : n;
	double lim = unit[isdec(kind)] * permille / 1000 * w + add, c = cost(kind, n, k, flag);
	static const char *what[] = { "encoding", "decoding", "encoding in a stream", "encoding in a stream", "encoding in a stream", "", "decoding in a stream", "decoding in a stream", "decoding in a stream", "decoding in a stream",
	                              "decoding with an error", "decoding in a stream with an error",
	                              "encoding bytes that are all alike", "decoding characters that are all alike" };
	if (c <= lim) return 0;
	/* what is done once, as detection of the CPU, does not count */
	c = cost(kind, n, k, flag);
	if (c <= lim) return 0;
	printf("VIOL %d,%d,%d,%d,%lu,%lu\t%s of %lu bytes (position %lu) takes %.0f instructions, where %.0f should do: %.2f for a byte, the plain codec takes %.2f\n",
	       flag, permille, add, kind, (unsigned long) n, (unsigned long) k, what[kind], (unsigned long) n, (unsigned long) k, c, lim, c / (w ? w : 1), unit[isdec(kind)]);
	return 1;
}
#endif
int main(int argc, char **argv)
{
	size_t i, n, k;
	for (i = 0; i < MAX; i++) in[i] = (char) (i * 7 + i / 11);
	base64_encode(in, MAX / 3 * 3, txt, &n, PLAIN);
	if (argc == 5 && !strcmp(argv[1], "once")) {
		int d = atoi(argv[2]), f = atoi(argv[4]); n = atol(argv[3]);
		if (d) return base64_decode(txt, n, out, &k, f) != 1;
		base64_encode(in, n, out, &k, f);
		return 0;
	}
#if defined(__x86_64__) || defined(__i386__)
	struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = trap; sigaction(SIGTRAP, &a, NULL);
	measure();
	if (argc == 3 && !strcmp(argv[1], "replay")) {
		int f, p, ad, kind; unsigned long nn, kk;
		if (!strcmp(argv[2], "cap")) {
			int ce, cd;
			sscanf(getenv("VERIF_CAP"), "%d,%d", &ce, &cd);
			if (unit[0] * 1000 <= ce && unit[1] * 1000 <= cd) return 0;
			printf("VIOL cap\tthe plain codec takes %.2f instructions to encode and %.2f to decode a byte\n", unit[0], unit[1]);
			return 1;
		}
		if (sscanf(argv[2], "%d,%d,%d,%d,%lu,%lu", &f, &p, &ad, &kind, &nn, &kk) != 6) return 2;
		return check(f, p, ad, kind, nn, kk);
	}
	int f = atoi(argv[2]), pe = atoi(argv[3]), ae = atoi(argv[4]), pd = atoi(argv[5]), ad = atoi(argv[6]), th = !strcmp(argv[7], "thorough"), bad = 0, brief = !strcmp(argv[7], "brief");
	size_t N = th ? 1500 : 300, st = th ? 1 : brief ? 23 : 13;
	static const size_t far[] = { 350, 401, 450, 512, 1000, 1111, 2001, 8191 };
	if (f == PLAIN && getenv("VERIF_CAP")) { /* instructions in thousandths for a byte */
		int ce, cd;
		sscanf(getenv("VERIF_CAP"), "%d,%d", &ce, &cd);
		if (unit[0] * 1000 > ce || unit[1] * 1000 > cd) {
			printf("VIOL cap\tthe plain codec takes %.2f instructions to encode and %.2f to decode a byte, where %.2f and %.2f should do\n", unit[0], unit[1], ce / 1000., cd / 1000.);
			return 0;
		}
	}
	printf("STAT plain_instructions_per_kilobyte %.0f\n", 1000 * unit[0]);
#define T(kind, n, k) do { if (!bad) bad = check(f, isdec(kind) ? pd : pe, isdec(kind) ? ad : ae, kind, n, k); } while (0)
	for (n = 0; n <= N; n += brief ? 5 : 1) { T(0, n, 0); T(1, n, 0); }
	for (i = 0; i < sizeof far / sizeof *far; i++) { T(0, far[i], 0); T(1, far[i] / 4 * 4, 0); }
	for (k = 0; k < 4; k++) for (n = 0; n <= N; n += st) { if (k < 3) T(2 + k, n, 0); T(6 + k, n, 0); }
	for (k = 0; k < 4; k++) { if (k < 3) T(2 + k, 2000, 0); T(6 + k, 2000, 0); }
	for (k = 0; k < 2000; k += th ? 1 : brief ? 151 : 47) T(10 + k % 2, 2000, k);
	for (k = 0; k < 256; k += brief ? 17 : th ? 1 : 5) T(12, th ? 4000 : 800, k);
	for (k = 0; k < 64; k++) T(13, th ? 4000 : brief ? 600 : 800, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[k]);
	if (th) { T(0, 100000, 0); T(1, 100000, 0); }
	printf("SAMPLE encoding %.3f, decoding %.3f instructions for a byte; the plain codec %.3f, %.3f\n", slope(0, f, 2000, 8000), slope(1, f, 2000, 8000), unit[0], unit[1]);
	printf("STAT states %lu\nSTAT transitions %lu\nSTAT impl_calls %lu\nDONE\n", calls, calls, calls);
#endif
	return 0;
}
