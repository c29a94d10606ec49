/* C20: calls that are interrupted. The processor's single-step flag stops an
 * outer call after each of its instructions; at one of them a signal handler
 * makes a whole call of its own, or leaves the outer call for good.
 * usage: reent explore SHARD NSHARDS TIER FLAG:AVAIL,...  |  reent replay FLAG:AVAIL,... OUTER:INNER:WARM:POINT */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
#include <ucontext.h>
#include <sys/time.h>
#include "libbase64.h"
#include "ref.h"

static const struct { const char *name; int flag; } CODECS[] = {
	{ "default", 0 }, { "plain", BASE64_FORCE_PLAIN }, { "ssse3", BASE64_FORCE_SSSE3 },
	{ "sse41", BASE64_FORCE_SSE41 }, { "sse42", BASE64_FORCE_SSE42 }, { "avx", BASE64_FORCE_AVX },
	{ "avx2", BASE64_FORCE_AVX2 }, { "avx512", BASE64_FORCE_AVX512 },
	{ "neon32", BASE64_FORCE_NEON32 }, { "neon64", BASE64_FORCE_NEON64 },
};
#define NC 10
static int nf, fl[NC], avail[NC];

/* the library's writable data */
static char dummy_bss[16] __attribute__((used, aligned(16), section("libbss"))) = {0};
static char dummy_data[16] __attribute__((used, aligned(16), section("libdata"))) = {1};
extern char __start_libbss[], __stop_libbss[], __start_libdata[], __stop_libdata[];
static size_t nb, nd; static char *cold;
static void snap(char *o) { memcpy(o, __start_libbss, nb); memcpy(o + nb, __start_libdata, nd); }
static void restore(const char *o) { memcpy(__start_libbss, o, nb); memcpy(__start_libdata, o + nb, nd); }

/* A program: calls on a stream of its own, or one-shot calls. */
enum { ENC, DEC, SENC, SDEC };
struct prog { uint8_t kind, f, len, cut, bad; };
#define MAXP 200
static struct prog P[MAXP]; static int np, nouter;
struct run { struct base64_state st; uint8_t out[300]; size_t n[4]; int r[2]; };
static struct run outer_run, inner_run, after_run;
static char raw[256], txt[256];
static struct want { uint8_t out[300]; size_t n[4]; int r[2], nc; } W[MAXP];
static char bads[2][256];

static const char *input(const struct prog *p) { return p->kind == ENC || p->kind == SENC ? raw : p->bad ? bads[p->bad - 1] : txt; }
static void prog_run(const struct prog *p, struct run *r)
{
	const char *s = input(p);
	int flag = CODECS[fl[p->f]].flag; size_t k;
	switch (p->kind) {
	case ENC: base64_encode(s, p->len, (char *)r->out, &r->n[0], flag); break;
	case DEC: r->r[0] = base64_decode(s, p->len, (char *)r->out, &r->n[0], flag); break;
	case SENC:
		base64_stream_encode_init(&r->st, flag);
		base64_stream_encode(&r->st, s, p->cut, (char *)r->out, &r->n[0]); k = r->n[0];
		base64_stream_encode(&r->st, s + p->cut, p->len - p->cut, (char *)r->out + k, &r->n[1]); k += r->n[1];
		base64_stream_encode_final(&r->st, (char *)r->out + k, &r->n[2]);
		break;
	case SDEC:
		base64_stream_decode_init(&r->st, flag);
		r->r[0] = base64_stream_decode(&r->st, s, p->cut, (char *)r->out, &r->n[0]); k = r->n[0];
		r->r[1] = base64_stream_decode(&r->st, s + p->cut, p->len - p->cut, (char *)r->out + k, &r->n[1]);
		break;
	}
}
static void prog_want(const struct prog *p, struct want *w)
{
	const uint8_t *s = (const uint8_t *)input(p); struct renc e = {0}; struct rdec d = {0}; size_t k = 0;
	memset(w, 0, sizeof *w);
	int c = p->kind == SENC || p->kind == SDEC ? p->cut : p->len;
	if (!avail[p->f]) { if (p->kind == DEC || p->kind == SDEC) w->r[0] = w->r[1] = -1; if (p->kind == DEC) w->r[1] = 0; return; }
	if (p->kind == ENC || p->kind == SENC) {
		w->n[0] = ref_enc(&e, s, c, w->out); k = w->n[0];
		if (p->kind == SENC) { w->n[1] = ref_enc(&e, s + c, p->len - c, w->out + k); k += w->n[1]; w->n[2] = ref_enc_final(&e, w->out + k); }
		else w->n[0] += ref_enc_final(&e, w->out + k);
	} else {
		w->r[0] = ref_dec(&d, s, c, w->out, &w->n[0]);
		if (p->kind == SDEC) w->r[1] = ref_dec(&d, s + c, p->len - c, w->out + w->n[0], &w->n[1]);
		else w->r[0] = w->r[0] && ref_dec_complete(&d);
	}
}
static const char *prog_name(int i)
{
	static char b[4][100]; static int t; char *o = b[t++ & 3];
	static const char *k[] = { "encode", "decode", "stream encode", "stream decode" };
	int n = sprintf(o, "%s of %d bytes (%s)", k[P[i].kind], P[i].len, CODECS[fl[P[i].f]].name);
	if (P[i].bad) strcpy(o + n, P[i].bad == 1 ? " with a bad one" : " with padding");
	return o;
}
static char msg[500];
static int check(int i, const struct run *r, const char *who)
{
	const struct want *w = &W[i];
	size_t n = w->n[0] + w->n[1] + w->n[2];
	int enc = P[i].kind == ENC || P[i].kind == SENC;
	if (*msg) return 0;
	for (int k = 0; k < 2 && !enc; k++) if (r->r[k] != w->r[k]) { sprintf(msg, "the %s call, %s, returns %d instead of %d", who, prog_name(i), r->r[k], w->r[k]); return 0; }
	for (int k = 0; k < 3; k++) if (r->n[k] != w->n[k]) { sprintf(msg, "the %s call, %s, gives %zu bytes instead of %zu", who, prog_name(i), r->n[k], w->n[k]); return 0; }
	if (memcmp(r->out, w->out, n)) { sprintf(msg, "the %s call, %s, gives wrong output", who, prog_name(i)); return 0; }
	return 1;
}

/* The outer call is stopped after each of its instructions. Exploring, the
 * state there is saved (registers, stack, the library's data, the call's
 * output); the rest is run from it with the interruption; and then the state
 * is put back and the next instruction executed. Replaying, the process runs
 * straight through. */
#if defined __x86_64__
static inline void tf_on(void) { __asm__ volatile("sub $128, %%rsp\n\tpushfq\n\torq $0x100, (%%rsp)\n\tpopfq\n\tadd $128, %%rsp" ::: "memory", "cc"); }
static inline void tf_off(void) { __asm__ volatile("sub $128, %%rsp\n\tpushfq\n\tandq $~0x100, (%%rsp)\n\tpopfq\n\tadd $128, %%rsp" ::: "memory", "cc"); }
#define SPREG REG_RSP
#define FXOFF 0
#else
static inline void tf_on(void) { __asm__ volatile("pushfl\n\torl $0x100, (%%esp)\n\tpopfl" ::: "memory", "cc"); }
static inline void tf_off(void) { __asm__ volatile("pushfl\n\tandl $~0x100, (%%esp)\n\tpopfl" ::: "memory", "cc"); }
#define SPREG REG_ESP
#define FXOFF 112
#endif
enum { NEST, LEAVE };
enum { STEP, BRANCH, RESUME, STRAIGHT };
static volatile long count, target; static volatile int inner, mode, phase; static sigjmp_buf leave;
static volatile unsigned long progress;
static unsigned long runs, steps; static int cur[3]; static long cur_k;
#define STACKMAX 262144
static struct { gregset_t r; char fp[8192], stack[STACKMAX]; size_t nfp, nstack; char *sp; struct run out; long count; } ck;
static char *ck_lib; static char *stack_top;

static size_t fpsize(void *fp)
{
	uint32_t *sw = (uint32_t *)((char *)fp + FXOFF + 464);
	return sw[0] == 0x46505853 ? sw[1] : 512 + FXOFF;
}
static void ck_save(ucontext_t *uc)
{
	memcpy(&ck.r, &uc->uc_mcontext.gregs, sizeof ck.r);
	ck.nfp = fpsize(uc->uc_mcontext.fpregs); ck.sp = (char *)uc->uc_mcontext.gregs[SPREG] - 256; ck.nstack = stack_top - ck.sp;
	if (ck.nfp > sizeof ck.fp || ck.nstack > STACKMAX) { printf("the saved state is too big\n"); _exit(4); }
	memcpy(ck.fp, uc->uc_mcontext.fpregs, ck.nfp); memcpy(ck.stack, ck.sp, ck.nstack);
	ck.out = outer_run; ck.count = count; snap(ck_lib);
}
static void on_resume(int sig, siginfo_t *si, void *ctx)
{
	ucontext_t *uc = ctx;
	memcpy(&uc->uc_mcontext.gregs, &ck.r, sizeof ck.r);
	memcpy(uc->uc_mcontext.fpregs, ck.fp, ck.nfp); memcpy(ck.sp, ck.stack, ck.nstack);
	outer_run = ck.out; count = ck.count; restore(ck_lib);
	phase = STEP;
}
static void on_trap(int sig, siginfo_t *si, void *ctx)
{
	ucontext_t *uc = ctx;
	/* the flag comes back where the code restores flags that it saved before */
	if (phase == BRANCH || (phase == STRAIGHT && target && count >= target)) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100L; return; }
	count++;
	if (phase == STRAIGHT) {
		if (count != target) return;
		uc->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
		if (mode == LEAVE) siglongjmp(leave, 1);
		prog_run(&P[inner], &inner_run);
	} else {
		ck_save(uc);
		phase = BRANCH;
		uc->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
		prog_run(&P[inner], &inner_run);
	}
}
static void clear(struct run *r, int b) { memset(r, b, sizeof *r); memset(r->n, 0, sizeof r->n); memset(r->r, 0, sizeof r->r); }
static void start(int o, int i, int warm)
{
	cur[0] = o; cur[1] = i; cur[2] = warm;
	restore(cold);
	if (warm) { static struct run w; prog_run(&P[0], &w); prog_run(&P[1], &w); }
	clear(&outer_run, 0xa5); clear(&inner_run, 0x5a);
	count = 0; inner = i; *msg = 0;
}
static int next(int i, const char *who)
{
	clear(&after_run, 0x77); prog_run(&P[i], &after_run); return check(i, &after_run, who);
}
__attribute__((noinline)) static void outer_call(void) { tf_on(); prog_run(&P[cur[0]], &outer_run); tf_off(); }

/* every instruction of outer call o; returns 0 on a violation */
__attribute__((noinline)) static int explore(int o, int i, int warm)
{
	start(o, i, warm);
	phase = STEP; stack_top = __builtin_frame_address(0);
	outer_call();
	if (phase == STEP) { check(o, &outer_run, "uninterrupted"); mode = NEST; cur_k = 0; return !*msg; }
	/* with the interruption at instruction ck.count */
	progress++; runs += 2; steps++; cur_k = ck.count;
	mode = NEST;
	if (!check(o, &outer_run, "interrupted") || !check(i, &inner_run, "nested") || !next(1 - i % 2, "following")) return 0;
	mode = LEAVE;
	restore(ck_lib);
	if (!next(i, "next") || !next(1 - i % 2, "following")) return 0;
	clear(&inner_run, 0x5a);
	raise(SIGUSR1);
	return 0;
}
/* a single interruption in a straight run; 0 on a violation */
static int single(int o, int i, int warm, long k)
{
	start(o, i, warm);
	phase = STRAIGHT; target = k; cur_k = k;
	int left = 0;
	if (!sigsetjmp(leave, 1)) outer_call(); else left = 1;
	if (!left) check(o, &outer_run, k ? "interrupted" : "uninterrupted");
	if (k && mode == NEST) check(i, &inner_run, "nested");
	else if (k) next(i, "next");
	if (!*msg) next(1 - i % 2, "following");
	return !*msg;
}
static int viol(void)
{
	char b[100];
	sprintf(b, "%d:%d:%d:%d:%ld", cur[0], cur[1], cur[2], mode, cur_k);
	printf("VIOL %s\t%s (%s is %s after instruction %ld%s%s)\n", b, msg, prog_name(cur[0]), mode == LEAVE ? "left for good" : "interrupted", cur_k,
	       mode == LEAVE ? "" : " by ", mode == LEAVE ? "" : prog_name(cur[1]));
	fflush(stdout);
	return 3;
}
static void on_signal(int sig)
{
	static unsigned long last; static int still;
	if (sig == SIGALRM) {
		if (progress != last) { last = progress; still = 0; return; }
		if (++still < 3) return;
		strcpy(msg, "the calls do not return");
	}
	else sprintf(msg, "the process dies with signal %d", sig);
	viol(); _exit(3);
}
static void add(int kind, int f, int len, int cut, int bad) { if (np < MAXP) P[np++] = (struct prog){ kind, f, len, cut, bad }; }
int main(int argc, char **argv)
{
	int th = 0, si = 0, sn = 1; char *flags;
	if (!strcmp(argv[1], "replay")) flags = argv[2];
	else { si = atoi(argv[2]); sn = atoi(argv[3]); th = !strcmp(argv[4], "thorough"); flags = argv[5]; }
	ref_setup();
	for (char *p = strtok(flags, ","); p; p = strtok(NULL, ",")) {
		char *c = strchr(p, ':'); *c = 0;
		for (int i = 0; i < NC; i++) if (!strcmp(CODECS[i].name, p)) { fl[nf] = i; avail[nf] = atoi(c + 1); nf++; }
	}
	for (int i = 0; i < 256; i++) { raw[i] = i * 37 + 1; txt[i] = ref_alpha[i * 7 % 64]; }
	memcpy(bads[0], txt, 256); bads[0][61] = '-';
	memcpy(bads[1], txt, 256); bads[1][119] = '='; bads[1][118] = '=';
	/* the programs: the first two are also what follows */
	add(ENC, 0, 50, 0, 0); add(DEC, 0, 100, 0, 0);
	add(SENC, 0, 71, 1, 0); add(SDEC, 0, 120, 2, 2);
	add(SDEC, 0, 102, 51, 1); add(ENC, 0, 4, 0, 0); add(DEC, 0, 7, 0, 0);
	for (int f = 1; f < nf; f++) { add(ENC, f, 100, 0, 0); add(DEC, f, 120, 0, 2); add(SENC, f, 80, 40, 0); add(SDEC, f, 100, 3, 0); }
	for (int i = 0; i < np; i++) prog_want(&P[i], &W[i]);
	dummy_bss[0] = 0; dummy_data[0] = 1;
	nb = __stop_libbss - __start_libbss; nd = __stop_libdata - __start_libdata;
	cold = malloc(nb + nd); snap(cold); ck_lib = malloc(nb + nd);
	static char stk[1 << 17];
	stack_t ss = { .ss_sp = stk, .ss_size = sizeof stk };
	sigaltstack(&ss, NULL);
	sigaction(SIGUSR1, &(struct sigaction){ .sa_sigaction = on_resume, .sa_flags = SA_SIGINFO | SA_ONSTACK }, NULL);
	sigaction(SIGTRAP, &(struct sigaction){ .sa_sigaction = on_trap, .sa_flags = SA_SIGINFO | SA_ONSTACK }, NULL);
	static const int sg[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM };
	for (int i = 0; i < 6; i++) sigaction(sg[i], &(struct sigaction){ .sa_handler = on_signal, .sa_flags = SA_ONSTACK | SA_NODEFER }, NULL);
	setitimer(ITIMER_REAL, &(struct itimerval){ { 10, 0 }, { 10, 0 } }, NULL);
	if (!strcmp(argv[1], "replay")) {
		int o, i, w, m; long k;
		sscanf(argv[3], "%d:%d:%d:%d:%ld", &o, &i, &w, &m, &k);
		mode = m;
		if (!single(o, i, w, k)) return viol();
		printf("holds\nDONE\n");
		return 0;
	}
	static long unit, longest, pairs, val; static int o, i, w;
	for (o = 0; o < np; o++) for (i = 0; i < np; i++) for (w = 0; w < 2; w++) {
		if (!th && o >= 7 && i >= 7 && o != i) continue;
		if (unit++ % sn != si) continue;
		pairs++;
		if (!explore(o, i, w)) return viol();
		long n = count;
		if (n > longest) longest = n;
		/* straight runs bear out what was found from restored states */
		for (int m = 0; m < 2; m++) for (int q = 0; q < 3; q++) {
			mode = m; val++;
			long k = q == 0 ? 1 + pairs * 37 % n : q == 1 ? n / 2 : n;
			if (!single(o, i, w, k)) return viol();
			if (count != k && m == NEST) { printf("%s (by %s, %ld): the call took %ld instructions, now %ld\n", prog_name(o), prog_name(i), k, n, (long)count); return 4; }
		}
	}
	printf("SAMPLE %ld pairs of calls, interrupted at every instruction; longest outer call: %ld instructions\n", pairs, longest);
	printf("STAT states %lu\nSTAT transitions %lu\nSTAT impl_calls %lu\nSTAT validated %ld\nDONE\n", steps, runs, runs * 3, val);
	return 0;
}
