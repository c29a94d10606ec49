/* C10: threads that use the library at the same time, in every interleaving
 * up to a number of preemptions.
 * usage: conc explore SHARD NSHARDS TIER | conc replay SCENARIO
 * Scenario: WARM/BOUND/PROGRAM/PROGRAM[/PROGRAM], a program is a list of
 * letter+flag pairs: E one-shot encode, D one-shot decode, S stream encode, T stream decode. */
#define _GNU_SOURCE
#include <signal.h>
#include <unistd.h>
#include "sched.h"
#include "libbase64.h"
#include "ref.h"
static const struct { const char *name; int flag; } CODECS[] = {
	{ "default", 0 }, { "plain", BASE64_FORCE_PLAIN }, { "ssse3", BASE64_FORCE_SSSE3 },
	{ "sse41", BASE64_FORCE_SSE41 }, { "sse42", BASE64_FORCE_SSE42 }, { "avx", BASE64_FORCE_AVX },
	{ "avx2", BASE64_FORCE_AVX2 }, { "avx512", BASE64_FORCE_AVX512 },
	{ "neon32", BASE64_FORCE_NEON32 }, { "neon64", BASE64_FORCE_NEON64 },
};
static int can(int f) { return f < 8 && (f != 7 || __builtin_cpu_supports("avx512vbmi")) ; }
#define ML 1400
static uint8_t bytes[3][ML], text[3][ML], want_[2][3][4][ML], out[3][ML * 2];
static size_t wlen_[2][3][4]; static int wret_[2][3], big;
static const int BL_[2][3] = { { 100, 73, 47 }, { 800, 500, 230 } };       /* bytes to encode */
static const int TL_[2][3] = { { 136, 100, 72 }, { 1100, 700, 340 } };     /* characters to decode */
#define want want_[big]
#define wlen wlen_[big]
#define wret wret_[big]
#define BL BL_[big]
#define TL TL_[big]
static char res[300];
struct prog { int n; char op[6]; uint8_t f[6]; };
static struct prog P[3]; static int np, warm;

static void check(int t, const char *what, int f, size_t ol, int k, int r, int wr)
{
	size_t w = wlen[t][k]; int wv = wr;
	if (f >= 8) { w = 0; if (wr != 99) wv = -1; }
	if (*res) return;
	if (wr != 99 && r != wv) sprintf(res, "thread %d: %s (%s) returns %d instead of %d", t, what, CODECS[f].name, r, wv);
	else if (ol != w) sprintf(res, "thread %d: %s (%s) gives %zu bytes instead of %zu", t, what, CODECS[f].name, ol, w);
	else if (memcmp(out[t], want[t][k], w)) sprintf(res, "thread %d: %s (%s) gives other bytes than alone", t, what, CODECS[f].name);
}
static void thread(void *arg)
{
	int t = (int)(intptr_t)arg;
	struct prog *p = &P[t];
	for (int i = 0; i < p->n; i++) {
		int f = p->f[i], fl = CODECS[f].flag, r, r2; size_t a = 999, b = 999, c = 999;
		struct base64_state st;
		char *o = (char *)out[t];
		memset(out[t], 0xee, sizeof out[t]);
		switch (p->op[i]) {
		case 'E': base64_encode((char *)bytes[t], BL[t], o, &a, fl); check(t, "one-shot encode", f, a, 0, 0, 99); break;
		case 'D': r = base64_decode((char *)text[t], TL[t], o, &a, fl); check(t, "one-shot decode", f, a, 1, r, wret[t]); break;
		case 'S':
			base64_stream_encode_init(&st, fl);
			base64_stream_encode(&st, (char *)bytes[t], 40, o, &a);
			base64_stream_encode(&st, (char *)bytes[t] + 40, BL[t] - 40, o + a, &b);
			base64_stream_encode_final(&st, o + a + b, &c);
			check(t, "stream encode", f, a + b + c, 0, 0, 99);
			break;
		case 'T':
			base64_stream_decode_init(&st, fl);
			r = base64_stream_decode(&st, (char *)text[t], 41, o, &a);
			r2 = base64_stream_decode(&st, (char *)text[t] + 41, TL[t] - 41, o + a, &b);
			check(t, "stream decode", f, a + b, 1, r == 1 ? r2 : r, wret[t]);
			break;
		}
	}
}
static unsigned long execs, nscen, capped; static long maxpoints;
static const char *label(char *b)
{
	int k = sprintf(b, "%d/%d", warm + 2 * big + 4 * weak, bound);
	for (int i = 0; i < np; i++) { b[k++] = '/'; for (int j = 0; j < P[i].n; j++) { b[k++] = P[i].op[j]; b[k++] = '0' + P[i].f[j]; } }
	b[k] = 0;
	return b;
}
static int scenario(unsigned long cap)
{
	char b[100], s[4000];
	unsigned long n = 0, work = 0;
	nscen++;
	memset(shtab, 0, sizeof shtab); nsh = 0;
again:
	fixed_d = 0;
	for (;;) {
		lib_reset(); heapn = 0; forget();
		nfib = nalive = 0; nd = 0; stuck = 0; grown = 0; *res = 0; cur = -1;
		if (warm) { size_t ol; char o[16]; base64_encode("abc", 3, o, &ol, 0); }
		for (int i = 0; i < np; i++) spawn(thread, (void *)(intptr_t)i);
		run_all();
		execs++; n++;
		if (points > maxpoints) maxpoints = points;
		if (stuck == 3 || stuck == 5) { capped++; return 0; }
		if (stuck && !*res) strcpy(res, stuck_why());
		if (*res) { sched_str(s, sizeof s); printf("VIOL %s\t%s (schedule %s%s)\n", label(b), res, s, stale ? ", with stale reads" : ""); return 3; }
		if (grown) goto again;
		work += points + 1;
		if (n > cap || work > cap * 100) { capped++; return 0; }
		if (!backtrack()) return 0;
	}
}
static void settext(int b);
static int parse(const char *s)
{
	char *e; warm = strtol(s, &e, 10); bound = strtol(e + 1, &e, 10);
	weak = warm >> 2; settext(warm >> 1 & 1); warm &= 1;
	np = 0; memset(P, 0, sizeof P);
	while (*e == '/') { e++; struct prog *p = &P[np++]; while (*e && *e != '/') { p->op[p->n] = e[0]; p->f[p->n++] = e[1] - '0'; e += 2; } }
	return scenario(2000000);
}
/* the texts end in another way for each size */
static void settext(int b)
{
	big = b;
	for (int t = 0; t < 3; t++) {
		for (int i = 0; i < ML; i++) text[t][i] = ref_alpha[(i * 11 + t * 23 + (i >> 3)) & 63];
		if (t == 1) text[t][TL[t] - 1] = '=';
		if (t == 2) text[t][TL[t] - 12] = '*';
	}
}
static void segv(int sig, siginfo_t *si, void *u)
{
	char b[100], s[4000];
	sched_str(s, sizeof s);
	printf("VIOL %s\tthread %d dies with signal %d (schedule %s%s)\n", label(b), cur, sig, s, stale ? ", with stale reads" : "");
	fflush(stdout);
	_exit(3);
}
int main(int argc, char **argv)
{
	ref_setup();
	for (big = 0; big < 2; big++) for (int t = 0; t < 3; t++) {
		struct renc e = {0}; struct rdec d = {0};
		for (int i = 0; i < BL[t]; i++) bytes[t][i] = (i * 29 + t * 85 + 3) ^ (i >> 2);
		wlen[t][0] = ref_enc(&e, bytes[t], BL[t], want[t][0]); wlen[t][0] += ref_enc_final(&e, want[t][0] + wlen[t][0]);
		for (int i = 0; i < TL[t]; i++) text[t][i] = ref_alpha[(i * 11 + t * 23 + (i >> 3)) & 63];
		if (t == 1) text[t][TL[t] - 1] = '=';
		if (t == 2) text[t][TL[t] - 12] = '*';
		wret[t] = ref_dec(&d, text[t], TL[t], want[t][1], &wlen[t][1]);
	}
	settext(0);
	dummy_bss[0] = 0; dummy_data[0] = 1; dummy_tls[0] = 1;
	lib_save();
	static char stk[1 << 15];
	stack_t ss = { .ss_sp = stk, .ss_size = sizeof stk };
	struct sigaction sa = { .sa_sigaction = segv, .sa_flags = SA_SIGINFO | SA_ONSTACK };
	sigaltstack(&ss, NULL);
	sigaction(SIGSEGV, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGBUS, &sa, NULL);
	if (!strcmp(argv[1], "replay")) { int r = parse(argv[2]); if (!r) printf("holds\nDONE\n"); return r; }
	int sh_i = atoi(argv[2]), sh_n = atoi(argv[3]), th = !strcmp(argv[4], "thorough"), k = 0;
	static const char ops[] = "EDST";
	static const uint8_t allf[] = { 0, 1, 2, 3, 4, 5, 6, 7, 9 };
	static const uint8_t fewf[] = { 0, 1, 6, 9 };
	char b[100];
	#define GO(cap) do { if (weak && warm) break; if (!pass) bound = 1; else if (weak) bound = th ? 3 : 2; if (k++ % sh_n == sh_i && scenario(cap)) return 3; } while (0)
	/* first with one preemption only; last with weak memory, which matters only on first use */
	for (int pass = 0; pass < 3; pass++) {
	weak = pass == 2;
	/* two threads, one operation each, all kinds and flags */
	for (int bg = 0; bg < 2; bg++) for (settext(bg), warm = 0; warm < 2; warm++)
	for (int a = 0; a < 4; a++) for (int f = 0; f < 9; f++)
	for (int c = 0; c < 4; c++) for (int g = 0; g < 9; g++) {
		if (!can(allf[f]) && allf[f] < 8) continue;
		if (!can(allf[g]) && allf[g] < 8) continue;
		np = 2; bound = th ? 6 : 4;
		P[0].n = P[1].n = 1; P[0].op[0] = ops[a]; P[0].f[0] = allf[f]; P[1].op[0] = ops[c]; P[1].f[0] = allf[g];
		GO(200000);
	}
	settext(0);
	/* two threads, two operations each */
	for (warm = 0; warm < 2; warm++)
	for (int x = 0; x < 256; x++) for (int y = 0; y < 256; y++) {
		int q[4] = { x >> 4, x & 15, y >> 4, y & 15 };
		np = 2; bound = th ? 4 : 2;
		P[0].n = P[1].n = 2;
		for (int i = 0; i < 4; i++) { P[i / 2].op[i % 2] = ops[q[i] >> 2]; P[i / 2].f[i % 2] = fewf[q[i] & 3]; }
		if (!th && ((q[0] >> 2) > 1 || (q[3] >> 2) > 1 || (q[0] & 3) == 3 || (q[3] & 3) == 3)) continue;
		GO(200000);
	}
	/* three threads */
	for (warm = 0; warm < 2; warm++)
	for (int x = 0; x < 16; x++) for (int y = 0; y < 16; y++) for (int z = 0; z < 16; z++) {
		int q[3] = { x, y, z };
		np = 3; bound = th ? 3 : 2;
		for (int i = 0; i < 3; i++) { P[i].n = 1; P[i].op[0] = ops[q[i] >> 2]; P[i].f[0] = fewf[q[i] & 3]; }
		GO(200000);
	}
	}
	warm = 1;
	printf("SAMPLE last scenario %s, %lu schedules so far, at most %ld preemption points in a run\n", label(b), execs, maxpoints);
	printf("STAT scenarios %lu\nSTAT schedules %lu\nSTAT states %lu\nSTAT transitions %ld\nSTAT preemption_points %ld\nSTAT impl_calls %lu\n", nscen, execs, execs, nswitch, npoints, execs);
	if (capped) printf("STAT capped %lu\n", capped);
	printf("DONE\n");
	return 0;
}
