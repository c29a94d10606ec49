/* C11: the OpenMP build against the serial reference.
 * usage: omp sweep SHARD NSHARDS TIER | omp sched SHARD NSHARDS TIER | omp replay SCENARIO
 * A scenario is  kind(E|D):flag:len:team:max:inner:users:order:bound:pos.char,pos.char,...
 * order is -1 for all schedules up to the bound. */
#define _GNU_SOURCE
#include <signal.h>
#include <unistd.h>
#ifdef REALOMP          /* the same inputs on libgomp itself, one schedule each */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <omp.h>
static int stuck, nsh, fixed_d, bound, sched_last, grown, points, delay, cur; static long nswitch;
static char shtab[1];
static int backtrack(void) { return 0; }
static void sched_str(char *b, size_t n) { strcpy(b, "libgomp's"); }
static void lib_save(void) {}
#else
#include "gomp.h"
#endif
#include "libbase64.h"
#include "ref.h"
static const struct { const char *name; int flag; } CODECS[] = {
	{ "default", 0 }, { "plain", BASE64_FORCE_PLAIN }, { "ssse3", BASE64_FORCE_SSSE3 },
	{ "sse41", BASE64_FORCE_SSE41 }, { "sse42", BASE64_FORCE_SSE42 }, { "avx", BASE64_FORCE_AVX },
	{ "avx2", BASE64_FORCE_AVX2 }, { "avx512", BASE64_FORCE_AVX512 },
	{ "neon32", BASE64_FORCE_NEON32 }, { "neon64", BASE64_FORCE_NEON64 },
};
#define ML (1 << 20)
static uint8_t raw[ML + 64], enc[ML / 3 * 4 + 64], txt[ML + 64], dcd[ML / 4 * 3 + 64];
#define NU 2
static uint8_t in[NU][ML + 64], out[NU][ML / 3 * 4 + 256];
static unsigned long k; static int si, sn, th, shallow;
struct scn { char kind; int flag; long len; int team, max, inner, users, order, bound, n; long pos[4]; int ch[4]; };
static struct scn S;
static char res[300];
static size_t wlen; static int wret; static uint8_t tail[64]; static size_t prefix; /* the expected output: prefix bytes of enc or dcd, then tail */
static size_t bound_out;
static unsigned long execs, nscen, capped; static long maxpoints;

static void fmt(char *b)
{
	b += sprintf(b, "%c:%d:%ld:%d:%d:%d:%d:%d:%d:", S.kind, S.flag, S.len, S.team, S.max, S.inner, S.users, S.order, S.bound);
	for (int i = 0; i < S.n; i++) b += sprintf(b, "%ld.%d,", S.pos[i], S.ch[i]);
}
/* the bytes of the input that differ from the pattern are put in and taken out again */
static void expect(void)
{
	for (int u = 0; u < S.users; u++) for (int i = 0; i < S.n; i++) in[u][S.pos[i]] = S.ch[i];
	if (S.kind == 'E') {
		struct renc e = {0};
		long k = S.len / 3 * 3;
		prefix = k / 3 * 4;
		size_t n = ref_enc(&e, raw + k, S.len - k, tail);
		n += ref_enc_final(&e, tail + n);
		wlen = prefix + n; bound_out = wlen;
	} else {
		struct rdec d = {0};
		long first = S.len; size_t k, n = 0;
		int r = 1;
		for (int i = 0; i < S.n; i++) if (S.pos[i] < first) first = S.pos[i];
		long p = first / 4 * 4;
		prefix = p / 4 * 3;
		while (p < S.len && r) {
			uint8_t o[4];
			r = ref_dec(&d, in[0] + p, 1, o, &k);
			p++;
			if (k) { if (n < sizeof tail) tail[n] = o[0]; n += k; }
		}
		wlen = prefix + n; wret = r && ref_dec_complete(&d);
		bound_out = S.len / 4 * 3 + S.len % 4;
		/* the first bytes behind the prefix are kept; any further ones are the pattern's */
	}
	if (S.flag >= 8) { wlen = 0; prefix = 0; wret = -1; }
}
static void user(void *arg)
{
	int u = (int)(intptr_t)arg; size_t ol = 99; int r = 0;
	const char *what = S.kind == 'E' ? "encode" : "decode";
	uint8_t *o = out[u];
	memset(o, 0xee, 64); memset(o + bound_out, 0xd1, 64);
	if (S.kind == 'E') base64_encode((char *)in[u], S.len, (char *)o, &ol, CODECS[S.flag].flag);
	else r = base64_decode((char *)in[u], S.len, (char *)o, &ol, CODECS[S.flag].flag);
	if (*res) return;
	if (S.kind == 'D' && r != wret) { sprintf(res, "%s returns %d instead of %d", what, r, wret); return; }
	if (ol != wlen) { sprintf(res, "%s gives %zu bytes instead of %zu", what, ol, wlen); return; }
	const uint8_t *w = S.kind == 'E' ? enc : dcd;
	size_t k = wlen - prefix, t = k < sizeof tail ? k : sizeof tail;
	size_t i = 0;
	if (memcmp(o, w, prefix)) for (; o[i] == w[i]; i++) ;
	else if (memcmp(o + prefix, tail, t)) for (i = prefix; o[i] == tail[i - prefix]; i++) ;
	else if (memcmp(o + prefix + t, w + prefix + t, k - t)) for (i = prefix + t; o[i] == w[i]; i++) ;
	else { for (i = 0; i < 64; i++) if (o[bound_out + i] != 0xd1) { sprintf(res, "%s writes beyond the output", what); return; } return; }
	sprintf(res, "%s gives another byte at %zu than the serial build", what, i);
}
static int policy;
#ifdef REALOMP
static void one_run(void)
{
	*res = 0;
	omp_set_num_threads(S.team);
	if (S.users == 2 && S.inner) {
		omp_set_max_active_levels(S.inner > 1 ? 2 : 1);
		#pragma omp parallel num_threads(2)
		user((void *)(intptr_t)omp_get_thread_num());
	}
	else for (int u = 0; u < S.users; u++) user((void *)(intptr_t)u);
	execs++;
}
#else
static void one_run(void)
{
	lib_reset(); heapn = 0; forget(); gomp_reset();
	nfib = nalive = 0; nd = 0; stuck = 0; grown = 0; *res = 0; cur = -1;
	team_size = S.team; team_max = S.max; team_inner = S.inner;
	static struct team outer;
	memset(&outer, 0, sizeof outer);
	outer.size = S.users; outer.up = 1;
	for (int u = 0; u < S.users; u++) { int f = spawn(user, (void *)(intptr_t)u); if (S.users > 1 && S.inner) { F[f].team = &outer; F[f].tid = u; } }
	run_all();
	execs++;
	if (points > maxpoints && getenv("VERIF_SHOW")) { char b[300]; fmt(b); fprintf(stderr, "%d points in %s\n", points, b); }
	if (points > maxpoints) maxpoints = points;
	if (stuck && !*res && stuck != 3 && stuck != 5) strcpy(res, stuck_why());
}
#endif
static int viol(void)
{
	char b[400], s[4000];
	fmt(b); sched_str(s, sizeof s);
	printf("VIOL %s\t%s, %ld %s, %d of %d threads, %s (schedule %s)\n", b, res, S.len, S.kind == 'E' ? "bytes" : "characters", S.team, S.max, CODECS[S.flag].name, s);
	return 3;
}
static int scenario(unsigned long cap)
{
#ifdef REALOMP
	if (S.team > 8 || S.max != S.team || S.order > 0 || nscen++ % (th ? 1 : 5)) return 0;
#endif
	unsigned long n = 0;
	int r = 0;
	nscen++;
	expect();
	memset(shtab, 0, sizeof shtab); nsh = 0; fixed_d = 0; bound = S.bound < 0 ? 0 : S.bound;
	if (S.order >= 0) {
		/* one schedule: threads run one after the other, in this or in reverse order */
		sched_last = S.order;
		bound = 0;
		one_run();
		if (*res) r = viol();
	} else {
		sched_last = 0;
	again:
		fixed_d = 0;
		for (;;) {
			one_run(); n++;
			if (stuck == 3 || stuck == 5) { capped++; break; }
			if (*res) { r = viol(); break; }
			if (grown) goto again;
			if (n > cap) { capped++; break; }
			if (!backtrack()) break;
		}
	}
	for (int u = 0; u < S.users; u++) for (int i = 0; i < S.n; i++) in[u][S.pos[i]] = txt[S.pos[i]];
	return r;
}
static void load(char kind) { for (int u = 0; u < NU; u++) memcpy(in[u], kind == 'E' ? raw : txt, ML); }
static void segv(int sig, siginfo_t *si, void *u) { sprintf(res, "thread %d dies with signal %d", cur, sig); viol(); fflush(stdout); _exit(3); }
#define RUN(cap) do { if (k++ % sn == si && scenario(cap)) return 3; } while (0)
static int sweep(void)
{
	static const int teams_q[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24, 31, 32, 63, 64 };
	static const int flags_q[] = { 0, 1, 9 };
	S = (struct scn){ .inner = 1, .users = 1, .bound = 0 };
	load('E');
	S.kind = 'E';
	for (int f = 0; f < 3; f++) for (int t = 1; t <= 64; t++) for (S.order = 0; S.order < 2; S.order++) {
		if (f && t > 5) continue;
		S.flag = flags_q[f]; S.team = S.max = t;
		for (S.len = 19990; S.len < 20000 + (th ? 6000 : 1600); S.len++) RUN(1);
		for (long b = 1 << 15; b <= 1 << 19; b *= 2) for (S.len = b - 8; S.len < b + 8; S.len++) RUN(1);
	}
	S.order = 0; S.flag = 0;
	for (S.team = 1; S.team < 8; S.team++) for (S.max = S.team; S.max <= 64; S.max++) for (S.len = 20000; S.len < 20030; S.len++) RUN(1);
	load('D');
	S.kind = 'D';
	for (int f = 0; f < 3; f++) for (int ti = 0; ti < 16; ti++) for (S.order = 0; S.order < 2; S.order++) {
		int t = teams_q[ti];
		if (f && t > 4) continue;
		S.flag = flags_q[f]; S.team = S.max = t;
		for (S.len = 19990; S.len < 20000 + (th ? 3000 : 600); S.len++) {
			/* valid, or short of a full group, with and without padding at the end */
			S.n = 0; RUN(1);
			S.n = 1; S.pos[0] = S.len - 1; S.ch[0] = '='; RUN(1);
			S.n = 2; S.pos[1] = S.len - 2; S.ch[1] = '='; RUN(1);
			S.n = 0;
		}
		for (long b = 1 << 15; b <= 1 << 19; b *= 2) for (S.len = b - 8; S.len < b + 8; S.len++) RUN(1);
		S.n = 0;
		if (f == 2) continue;
		static const int extra[] = { 0, 4, 8, 12, 1, 2, 3, 5, 16, 60, 64, 100, 128, 252 };
		for (int x = 0; x < (14); x++) {
			S.len = 20000 + extra[x];
			long part = S.len / (t * 4L) * 4;
			int nb = t;
			for (int i = 0; i <= t; i++) {
				if (i > nb && i < t - 1) continue;
				for (long p = i * part - 10; p < i * part + 9; p++) {
					if (p < 0 || p + 3 >= S.len) continue;
					S.n = 1; S.pos[0] = p;
					S.ch[0] = '!'; RUN(1);
					S.ch[0] = '='; RUN(1);
					S.ch[0] = 0x80; RUN(1);
					S.n = 2; S.pos[1] = p + 1; S.ch[0] = '='; S.ch[1] = '='; RUN(1);
					S.ch[1] = '!'; RUN(1);
					/* and once more elsewhere */
					S.n = 3; S.ch[1] = '='; S.pos[2] = (p + part) % S.len; S.ch[2] = '='; if (S.pos[2] != p && S.pos[2] != p + 1) RUN(1);
					S.ch[2] = '!'; if (S.pos[2] != p && S.pos[2] != p + 1) RUN(1);
					S.pos[2] = S.len - 1; S.ch[2] = '='; RUN(1);
					S.n = 4; S.pos[3] = S.len - 2; S.ch[3] = '='; if (S.pos[3] != p + 1) RUN(1);
				}
			}
			for (long p = S.len - 20; p < S.len; p++) {
				S.n = 1; S.pos[0] = p;
				S.ch[0] = '!'; RUN(1);
				S.ch[0] = '='; RUN(1);
			}
			S.n = 0;
		}
	}
	/* callers that are in a parallel region themselves */
	for (int e = 0; e < 2; e++) {
		S = (struct scn){ .inner = 1, .users = 2, .bound = 0, .kind = "ED"[e] };
		load(S.kind);
		for (S.team = 1; S.team < 5; S.team++) for (S.order = 0; S.order < 2; S.order++) for (S.len = 20000; S.len < 20040; S.len++) for (S.inner = 0; S.inner < 4; S.inner++) { S.max = S.team; RUN(1); }
	}
	return 0;
}
static int sched(void)
{
	S = (struct scn){ .inner = 1, .users = 1, .order = -1 };
	for (int pass = 0; pass < (shallow ? 1 : 2); pass++)
	for (int e = 0; e < 2; e++) {
		S = (struct scn){ .inner = 1, .users = 1, .order = -1, .kind = "ED"[e] };
		load(S.kind);
		for (S.users = 1; S.users <= 2; S.users++)
		for (S.team = 1; S.team <= (S.users == 2 ? 2 : 4); S.team++) {
			static const int fl[] = { 0, 6, 1, 9 };
			S.max = S.team;
			S.bound = !pass ? 1 : S.team <= 2 && S.users == 1 ? (th ? 4 : 3) : th && S.users == 1 ? 3 : 2;
			for (int f = 0; f < (th ? 4 : 3); f++) {
				if (!th && f && S.team > 3) continue;
				S.flag = fl[f == 2 && !th ? 3 : f];
				if (f == 1 && !__builtin_cpu_supports("avx2")) continue;
				for (S.inner = 0; S.inner <= (S.users == 2 ? 2 : 0); S.inner++)
				for (int x = 0; x < (th ? 13 : 4); x++) {
					if (S.inner == 1 && S.team != 1) continue;
					if (S.inner == 2 && S.team != 2) continue;
					if (pass && !th && (x > 1 || f == 1)) continue;
					S.len = 20000 + (th ? x : x * 3);
					S.n = 0; RUN(300000);
					if (S.kind == 'E') continue;
					long part = S.len / (S.team * 4L) * 4;
					if (x > 1 && !th) continue;
					S.n = 2; S.ch[0] = S.ch[1] = '=';
					for (int i = 1; i <= S.team; i++) { S.pos[0] = i * part - 2; S.pos[1] = i * part - 1; RUN(300000); }
					S.n = 1; S.ch[0] = '*';
					for (int i = 0; i < S.team; i++) { S.pos[0] = i * part + 777; RUN(300000); }
					S.n = 0;
				}
			}
		}
	}
	return 0;
}
int main(int argc, char **argv)
{
	ref_setup();
	struct renc e = {0}; struct rdec d = {0}; size_t n;
	for (long i = 0; i < ML; i++) { raw[i] = (i * 2654435761u) >> 13; txt[i] = ref_alpha[(i * 40503u + (i >> 6) * 7) >> 5 & 63]; }
	ref_enc(&e, raw, ML / 3 * 3, enc);
	ref_dec(&d, txt, ML / 4 * 4, dcd, &n);
#ifndef REALOMP
	dummy_bss[0] = 0; dummy_data[0] = 1; dummy_tls[0] = 1;
#endif
	lib_save();
	delay = 1;
	static char stk[1 << 15];
	stack_t ss = { .ss_sp = stk, .ss_size = sizeof stk };
	struct sigaction sa = { .sa_sigaction = segv, .sa_flags = SA_SIGINFO | SA_ONSTACK };
	sigaltstack(&ss, NULL);
	sigaction(SIGSEGV, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL);
	if (!strcmp(argv[1], "replay")) {
		char *p; int m;
		S.n = 0;
		sscanf(argv[2], "%c:%d:%ld:%d:%d:%d:%d:%d:%d:%n", &S.kind, &S.flag, &S.len, &S.team, &S.max, &S.inner, &S.users, &S.order, &S.bound, &m);
		for (p = argv[2] + m; *p; ) { S.pos[S.n] = strtol(p, &p, 10); S.ch[S.n++] = strtol(p + 1, &p, 10); p++; }
		load(S.kind);
		int r = scenario(10000000);
		if (!r) printf("holds\nDONE\n");
		return r;
	}
	si = atoi(argv[2]); sn = atoi(argv[3]); th = !strcmp(argv[4], "thorough");
	shallow = !strcmp(argv[1], "sched0") && !th;
	if (!strcmp(argv[1], "sweep") ? sweep() : sched()) return 3;
	printf("SAMPLE %s: %lu scenarios, %lu schedules, at most %ld preemption points and %d threads in a run\n", argv[1], nscen, execs, maxpoints, 64);
	printf("STAT scenarios %lu\nSTAT schedules %lu\nSTAT states %lu\nSTAT transitions %ld\nSTAT impl_calls %lu\n", nscen, execs, execs, nswitch, execs);
	if (capped) printf("STAT capped %lu\n", capped);
	printf("DONE\n");
	return 0;
}
