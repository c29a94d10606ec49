/* C21: what calls do besides their work. Each call is made through a piece of
 * assembly that fills the registers that a function must preserve; system
 * calls and the allocator are trapped; the stack below is painted.
 * usage: effects explore SHARD NSHARDS TIER FLAG:AVAIL,...  |  effects replay FLAG:AVAIL,... SCENARIO */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include "libbase64.h"
#include "ref.h"

static const struct { const char *name; int flag; } CODECS[] = {
	{ "default", 0 }, { "plain", BASE64_FORCE_PLAIN }, { "ssse3", BASE64_FORCE_SSSE3 },
	{ "sse41", BASE64_FORCE_SSE41 }, { "sse42", BASE64_FORCE_SSE42 }, { "avx", BASE64_FORCE_AVX },
	{ "avx2", BASE64_FORCE_AVX2 }, { "avx512", BASE64_FORCE_AVX512 },
	{ "neon32", BASE64_FORCE_NEON32 }, { "neon64", BASE64_FORCE_NEON64 },
};
#define NC 10
static int nf, fl[NC], avail[NC];

/* the library's writable data */
static char dummy_bss[16] __attribute__((used, aligned(16), section("libbss"))) = {0};
static char dummy_data[16] __attribute__((used, aligned(16), section("libdata"))) = {1};
extern char __start_libbss[], __stop_libbss[], __start_libdata[], __stop_libdata[];
static size_t nb, nd; static char *cold;
static void snap(char *o) { memcpy(o, __start_libbss, nb); memcpy(o + nb, __start_libdata, nd); }
static void restore(const char *o) { memcpy(__start_libbss, o, nb); memcpy(__start_libdata, o + nb, nd); }

/* guard(fn, args): calls fn(args[0..4]) */
uintptr_t g_sent[16], g_got[16], g_sp, g_gotsp, g_flags;
uint64_t g_sentd[8], g_gotd[8];
long guard(void *fn, const long *args);
#if defined __x86_64__
#define NREG 6
#define NFREG 0
static const char *REGS[] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };
__asm__(".text\n.globl guard\nguard:\n"
	"push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n sub $8,%rsp\n"
	"mov %rdi,%rax\n mov %rsi,%r10\n mov (%r10),%rdi\n mov 8(%r10),%rsi\n mov 16(%r10),%rdx\n mov 24(%r10),%rcx\n mov 32(%r10),%r8\n"
	"mov %rsp,g_sp(%rip)\n"
	"mov g_sent(%rip),%rbx\n mov g_sent+8(%rip),%rbp\n mov g_sent+16(%rip),%r12\n mov g_sent+24(%rip),%r13\n mov g_sent+32(%rip),%r14\n mov g_sent+40(%rip),%r15\n"
	"call *%rax\n"
	"mov %rbx,g_got(%rip)\n mov %rbp,g_got+8(%rip)\n mov %r12,g_got+16(%rip)\n mov %r13,g_got+24(%rip)\n mov %r14,g_got+32(%rip)\n mov %r15,g_got+40(%rip)\n"
	"mov %rsp,g_gotsp(%rip)\n mov g_sp(%rip),%rsp\n pushfq\n popq g_flags(%rip)\n cld\n"
	"add $8,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n");
#elif defined __i386__
#define NREG 4
#define NFREG 0
static const char *REGS[] = { "ebx", "ebp", "esi", "edi" };
__asm__(".text\n.globl guard\nguard:\n"
	"push %ebx\n push %ebp\n push %esi\n push %edi\n sub $28,%esp\n"
	"mov 48(%esp),%eax\n mov 52(%esp),%ecx\n"
	"mov (%ecx),%edx\n mov %edx,(%esp)\n mov 4(%ecx),%edx\n mov %edx,4(%esp)\n mov 8(%ecx),%edx\n mov %edx,8(%esp)\n mov 12(%ecx),%edx\n mov %edx,12(%esp)\n mov 16(%ecx),%edx\n mov %edx,16(%esp)\n"
	"mov %esp,g_sp\n"
	"mov g_sent,%ebx\n mov g_sent+4,%ebp\n mov g_sent+8,%esi\n mov g_sent+12,%edi\n"
	"call *%eax\n"
	"mov %ebx,g_got\n mov %ebp,g_got+4\n mov %esi,g_got+8\n mov %edi,g_got+12\n"
	"mov %esp,g_gotsp\n mov g_sp,%esp\n pushfl\n popl g_flags\n cld\n"
	"add $28,%esp\n pop %edi\n pop %esi\n pop %ebp\n pop %ebx\n ret\n");
#elif defined __aarch64__
#define NREG 11
#define NFREG 8
static const char *REGS[] = { "x19", "x20", "x21", "x22", "x23", "x24", "x25", "x26", "x27", "x28", "x29" };
__asm__(".text\n.globl guard\n.type guard,%function\nguard:\n"
	"stp x29,x30,[sp,#-176]!\n stp x19,x20,[sp,#16]\n stp x21,x22,[sp,#32]\n stp x23,x24,[sp,#48]\n stp x25,x26,[sp,#64]\n stp x27,x28,[sp,#80]\n"
	"stp d8,d9,[sp,#96]\n stp d10,d11,[sp,#112]\n stp d12,d13,[sp,#128]\n stp d14,d15,[sp,#144]\n"
	"mov x9,x0\n mov x10,x1\n mov x12,sp\n adrp x11,g_sp\n add x11,x11,:lo12:g_sp\n str x12,[x11]\n"
	"adrp x11,g_sentd\n add x11,x11,:lo12:g_sentd\n ldp d8,d9,[x11]\n ldp d10,d11,[x11,#16]\n ldp d12,d13,[x11,#32]\n ldp d14,d15,[x11,#48]\n"
	"adrp x11,g_sent\n add x11,x11,:lo12:g_sent\n ldp x19,x20,[x11]\n ldp x21,x22,[x11,#16]\n ldp x23,x24,[x11,#32]\n ldp x25,x26,[x11,#48]\n ldp x27,x28,[x11,#64]\n ldr x29,[x11,#80]\n"
	"ldp x0,x1,[x10]\n ldp x2,x3,[x10,#16]\n ldr x4,[x10,#32]\n"
	"blr x9\n"
	"adrp x11,g_got\n add x11,x11,:lo12:g_got\n stp x19,x20,[x11]\n stp x21,x22,[x11,#16]\n stp x23,x24,[x11,#32]\n stp x25,x26,[x11,#48]\n stp x27,x28,[x11,#64]\n str x29,[x11,#80]\n"
	"adrp x11,g_gotd\n add x11,x11,:lo12:g_gotd\n stp d8,d9,[x11]\n stp d10,d11,[x11,#16]\n stp d12,d13,[x11,#32]\n stp d14,d15,[x11,#48]\n"
	"mov x12,sp\n adrp x11,g_gotsp\n add x11,x11,:lo12:g_gotsp\n str x12,[x11]\n adrp x11,g_sp\n add x11,x11,:lo12:g_sp\n ldr x12,[x11]\n mov sp,x12\n"
	"ldp x19,x20,[sp,#16]\n ldp x21,x22,[sp,#32]\n ldp x23,x24,[sp,#48]\n ldp x25,x26,[sp,#64]\n ldp x27,x28,[sp,#80]\n"
	"ldp d8,d9,[sp,#96]\n ldp d10,d11,[sp,#112]\n ldp d12,d13,[sp,#128]\n ldp d14,d15,[sp,#144]\n ldp x29,x30,[sp],#176\n ret\n");
#elif defined __arm__
#define NREG 8
#define NFREG 8
static const char *REGS[] = { "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11" };
__asm__(".text\n.syntax unified\n.arm\n.fpu vfpv3\n.globl guard\n.type guard,%function\nguard:\n"
	"push {r4-r11,lr}\n vpush {d8-d15}\n sub sp,sp,#12\n"
	"mov r12,r0\n ldr r0,[r1,#16]\n str r0,[sp]\n"
	"ldr lr,=g_sp\n str sp,[lr]\n ldr lr,=g_sentd\n vldmia lr,{d8-d15}\n ldr lr,=g_sent\n ldmia lr,{r4-r11}\n"
	"ldr r3,[r1,#12]\n ldr r2,[r1,#8]\n ldr r0,[r1]\n ldr r1,[r1,#4]\n"
	"blx r12\n"
	"ldr r12,=g_got\n stmia r12,{r4-r11}\n ldr r12,=g_gotd\n vstmia r12,{d8-d15}\n ldr r12,=g_gotsp\n str sp,[r12]\n ldr r12,=g_sp\n ldr sp,[r12]\n"
	"add sp,sp,#12\n vpop {d8-d15}\n pop {r4-r11,pc}\n.ltorg\n"
#ifdef __thumb__
	".thumb\n"
#endif
	);
#elif defined __s390x__
#define NREG 7
#define NFREG 8
static const char *REGS[] = { "r7", "r8", "r9", "r10", "r11", "r12", "r13" };
__asm__(".text\n.globl guard\n.type guard,@function\nguard:\n"
	"stmg %r6,%r15,48(%r15)\n aghi %r15,-224\n"
	"std %f8,160(%r15)\n std %f9,168(%r15)\n std %f10,176(%r15)\n std %f11,184(%r15)\n std %f12,192(%r15)\n std %f13,200(%r15)\n std %f14,208(%r15)\n std %f15,216(%r15)\n"
	"lgr %r1,%r2\n lgr %r14,%r3\n larl %r5,g_sp\n stg %r15,0(%r5)\n"
	"larl %r5,g_sentd\n ld %f8,0(%r5)\n ld %f9,8(%r5)\n ld %f10,16(%r5)\n ld %f11,24(%r5)\n ld %f12,32(%r5)\n ld %f13,40(%r5)\n ld %f14,48(%r5)\n ld %f15,56(%r5)\n"
	"larl %r5,g_sent\n lmg %r7,%r13,0(%r5)\n"
	"lg %r2,0(%r14)\n lg %r3,8(%r14)\n lg %r4,16(%r14)\n lg %r5,24(%r14)\n lg %r6,32(%r14)\n"
	"basr %r14,%r1\n"
	"larl %r1,g_got\n stmg %r7,%r13,0(%r1)\n"
	"larl %r1,g_gotd\n std %f8,0(%r1)\n std %f9,8(%r1)\n std %f10,16(%r1)\n std %f11,24(%r1)\n std %f12,32(%r1)\n std %f13,40(%r1)\n std %f14,48(%r1)\n std %f15,56(%r1)\n"
	"larl %r1,g_gotsp\n stg %r15,0(%r1)\n larl %r1,g_sp\n lg %r15,0(%r1)\n"
	"ld %f8,160(%r15)\n ld %f9,168(%r15)\n ld %f10,176(%r15)\n ld %f11,184(%r15)\n ld %f12,192(%r15)\n ld %f13,200(%r15)\n ld %f14,208(%r15)\n ld %f15,216(%r15)\n"
	"aghi %r15,224\n lmg %r6,%r15,48(%r15)\n br %r14\n");
#endif

/* control registers; the bits that a function must leave alone */
static unsigned long ctl(void)
{
#if defined __x86_64__ || defined __i386__
	struct { uint32_t w[7]; } env;
	unsigned mx = 0;
	__asm__ volatile("fnstenv %0\n\tfldenv %0" : "+m"(env));
#ifdef __x86_64__
	__asm__ volatile("stmxcsr %0" : "=m"(mx));
#endif
	return (env.w[0] & 0xffff) | (unsigned long)((mx & 0xffc0) ^ (env.w[2] & 0xffff)) << 16;
#elif defined __aarch64__
	unsigned long v; __asm__ volatile("mrs %0, fpcr" : "=r"(v)); return v;
#elif defined __arm__
	unsigned long v; __asm__ volatile(".fpu vfpv3\n\tvmrs %0, fpscr" : "=r"(v)); return v & 0x07ff0000;
#elif defined __s390x__
	unsigned v; __asm__ volatile("efpc %0" : "=d"(v)); return v & 0xf8000077;
#else
	return 0;
#endif
}

static volatile char selector;          /* 0 system calls allowed, 1 trapped */
static volatile int inside, syscall_nr; static const char *volatile alloc_name;
static int have_sud;
static char msg[500];
#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif
static void on_sys(int sig, siginfo_t *si, void *ctx)
{
	selector = 0;
	if (!syscall_nr) syscall_nr = si->si_syscall + 1;
}
#define WRAP(r, f, p, a) r __real_##f p; r __wrap_##f p { if (inside && !alloc_name) alloc_name = #f; return __real_##f a; }
WRAP(void *, malloc, (size_t n), (n))
WRAP(void *, calloc, (size_t n, size_t m), (n, m))
WRAP(void *, realloc, (void *p, size_t n), (p, n))
WRAP(void, free, (void *p), (p))
WRAP(void *, aligned_alloc, (size_t n, size_t m), (n, m))
WRAP(int, posix_memalign, (void **p, size_t n, size_t m), (p, n, m))
WRAP(void *, memalign, (size_t n, size_t m), (n, m))

#define PAINT (256 << 10)
#define GAP 4096
static char *paint_at;
__attribute__((noinline)) static void paint(void)
{
	paint_at = (char *)__builtin_frame_address(0) - GAP;
	memset(paint_at - PAINT, 0xc7, PAINT);
}
static long painted(void)
{
	char *p = paint_at - PAINT;
	while (p < paint_at && *p == (char)0xc7) p++;
	return paint_at - p;
}

static unsigned long calls;
static char what[200];
static long call(const char *name, void *fn, long a, long b, long c, long d, long e)
{
	long args[5] = { a, b, c, d, e };
	unsigned long c0 = ctl();
	/* not while system calls are trapped: it would end in one */
	if (!(calls++ & 16383)) alarm(60);
	alloc_name = NULL; syscall_nr = 0;
	for (int i = 0; i < NREG; i++) g_sent[i] = (uintptr_t)0x9ad5c3e17b2468f1ull * (2 * i + 3) + calls;
	for (int i = 0; i < NFREG; i++) g_sentd[i] = 0x4a1b3c2d5e6f7081ull * (2 * i + 5) + calls;
	inside = 1; if (have_sud) selector = 1;
	long r = guard(fn, args);
	selector = 0; inside = 0;
	if (*msg) return r;
	for (int i = 0; i < NREG; i++) if (g_got[i] != g_sent[i]) { sprintf(msg, "%s does not preserve register %s", name, REGS[i]); return r; }
	for (int i = 0; i < NFREG; i++) if (g_gotd[i] != g_sentd[i]) { sprintf(msg, "%s does not preserve register %s%d", name,
#ifdef __s390x__
		"f",
#else
		"d",
#endif
		8 + i); return r; }
	if (g_gotsp != g_sp) sprintf(msg, "%s does not restore the stack pointer", name);
#if defined __x86_64__ || defined __i386__
	else if (g_flags & 0x400) sprintf(msg, "%s returns with the direction flag set", name);
#endif
	else if (ctl() != c0) sprintf(msg, "%s changes the floating-point control registers (%lx to %lx)", name, c0, ctl());
	else if (alloc_name) sprintf(msg, "%s calls %s", name, alloc_name);
	else if (syscall_nr) sprintf(msg, "%s makes a system call (number %d)", name, syscall_nr - 1);
	return r;
}

#define L 1100
#define BIG (1 << 20)
static char *raw, *txt, *out;
static struct base64_state st;
static size_t n;
#define P(x) ((long)(uintptr_t)(x))
/* scenario kinds */
enum { ENC, SENC, DEC, SDEC, COLD_E, COLD_D, NK };
static int s_kind, s_f, s_len, s_cut, s_pos, s_bad;
static int scenario(int kind, int f, int len, int cut, int pos, int bad)
{
	int flag = CODECS[fl[f]].flag; char keep = 0, *t = txt;
	s_kind = kind; s_f = f; s_len = len; s_cut = cut; s_pos = pos; s_bad = bad;
	if (bad) { keep = t[pos]; t[pos] = bad; }
	switch (kind) {
	case COLD_E: restore(cold); call("base64_stream_encode_init", base64_stream_encode_init, P(&st), flag, 0, 0, 0); break;
	case COLD_D: restore(cold); call("base64_stream_decode_init", base64_stream_decode_init, P(&st), flag, 0, 0, 0); break;
	case ENC: call("base64_encode", base64_encode, P(raw), len, P(out), P(&n), flag); break;
	case DEC: call("base64_decode", base64_decode, P(txt), len, P(out), P(&n), flag); break;
	case SENC:
		call("base64_stream_encode_init", base64_stream_encode_init, P(&st), flag, 0, 0, 0);
		call("base64_stream_encode", base64_stream_encode, P(&st), P(raw), cut, P(out), P(&n));
		call("base64_stream_encode", base64_stream_encode, P(&st), P(raw + cut), len - cut, P(out), P(&n));
		call("base64_stream_encode_final", base64_stream_encode_final, P(&st), P(out), P(&n), 0, 0);
		break;
	case SDEC:
		call("base64_stream_decode_init", base64_stream_decode_init, P(&st), flag, 0, 0, 0);
		call("base64_stream_decode", base64_stream_decode, P(&st), P(txt), cut, P(out), P(&n));
		call("base64_stream_decode", base64_stream_decode, P(&st), P(txt + cut), len - cut, P(out), P(&n));
		break;
	}
	if (bad) t[pos] = keep;
	return !*msg;
}
static int viol(void)
{
	static const char *k[] = { "one-shot", "stream", "one-shot", "stream", "first use", "first use" };
	printf("VIOL %d:%d:%d:%d:%d:%d\t%s (%s, codec %s, %d bytes, cut at %d", s_kind, s_f, s_len, s_cut, s_pos, s_bad, msg, k[s_kind], CODECS[fl[s_f]].name, s_len, s_cut);
	if (s_bad) printf(", byte %02x at %d", s_bad, s_pos);
	printf(")\n"); fflush(stdout);
	return 3;
}
static void on_signal(int sig)
{
	selector = 0;
	if (sig == SIGALRM) strcpy(msg, "the calls do not return");
	else sprintf(msg, "the process dies with signal %d", sig);
	viol(); _exit(3);
}
static long depth(int kind, int f, int len, int bad)
{
	paint();
	if (kind == SENC || kind == SDEC) {
		/* one call of the whole length */
		int flag = CODECS[fl[f]].flag;
		if (bad) txt[len - 1] = bad;
		s_kind = kind; s_f = f; s_len = len; s_cut = len; s_pos = len - 1; s_bad = bad;
		if (kind == SENC) { base64_stream_encode_init(&st, flag); base64_stream_encode(&st, raw, len, out, &n); base64_stream_encode_final(&st, out, &n); }
		else { base64_stream_decode_init(&st, flag); base64_stream_decode(&st, txt, len, out, &n); }
		if (bad) txt[len - 1] = 'A';
	}
	else scenario(kind, f, len, 0, len - 1, bad);
	return painted();
}
/* The stack that long input needs is what short input needs. */
static int stack(int kind, int f, int bad)
{
	static const int big[] = { 1101, 2048, 4096, 5000, 8192, 12288, 16384, 19999, 20000, 32768, 65536, 65537, 131072, 262144, 500000, BIG };
	long most = 0;
	for (int len = 1; len <= 300; len++) { long d = depth(kind, f, len, bad); if (d > most) most = d; }
	for (int len = 301; len <= L; len += 61) { long d = depth(kind, f, len, bad); if (d > most) most = d; }
	for (int i = 0; i < 16 && !*msg; i++) {
		long d = depth(kind, f, big[i], bad);
		if (d > most + 1024) sprintf(msg, "input of %d bytes takes %ld bytes of stack more than any of up to %d bytes", big[i], d - most, L);
	}
	s_cut = -1;
	return !*msg;
}
int main(int argc, char **argv)
{
	int th = 0, si = 0, sn = 1; char *flags;
	if (!strcmp(argv[1], "replay")) flags = argv[2];
	else { si = atoi(argv[2]); sn = atoi(argv[3]); th = !strcmp(argv[4], "thorough"); flags = argv[5]; }
	ref_setup();
	for (char *p = strtok(flags, ","); p; p = strtok(NULL, ",")) {
		char *c = strchr(p, ':'); *c = 0;
		for (int i = 0; i < NC; i++) if (!strcmp(CODECS[i].name, p)) { fl[nf] = i; avail[nf] = atoi(c + 1); nf++; }
	}
	raw = malloc(BIG + 64); txt = malloc(BIG + 64); out = malloc(2 * BIG);
	for (int i = 0; i < BIG + 64; i++) { raw[i] = i * 37 + (i >> 8); txt[i] = i > L ? 'A' : ref_alpha[i * 7 % 64]; }
	memset(out, 1, 2 * BIG);
	dummy_bss[0] = 0; dummy_data[0] = 1;
	nb = __stop_libbss - __start_libbss; nd = __stop_libdata - __start_libdata;
	cold = malloc(nb + nd); snap(cold);
	static char stk[1 << 17];
	stack_t ss = { .ss_sp = stk, .ss_size = sizeof stk };
	sigaltstack(&ss, NULL);
	sigaction(SIGSYS, &(struct sigaction){ .sa_sigaction = on_sys, .sa_flags = SA_SIGINFO | SA_ONSTACK }, NULL);
	static const int sg[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM };
	for (int i = 0; i < 6; i++) sigaction(sg[i], &(struct sigaction){ .sa_handler = on_signal, .sa_flags = SA_ONSTACK | SA_NODEFER }, NULL);
#if defined __x86_64__ || defined __i386__
	have_sud = !prctl(PR_SET_SYSCALL_USER_DISPATCH, 1, 0, 0, &selector);
#endif
	int k, f, len, cut, pos, bad;
	if (!strcmp(argv[1], "replay")) {
		sscanf(argv[3], "%d:%d:%d:%d:%d:%d", &k, &f, &len, &cut, &pos, &bad);
		if (!(cut < 0 ? stack(k, f, bad) : scenario(k, f, len, cut, pos, bad))) return viol();
		printf("holds\nDONE\n");
		return 0;
	}
#if defined __x86_64__ || defined __i386__
	/* the traps themselves */
	if (have_sud) {
		call("", getppid, 0, 0, 0, 0, 0);
		if (!strstr(msg, "system call")) { printf("a system call is not noticed: %s\n", msg); return 4; }
		*msg = 0;
	}
#endif
	call("", (void *)malloc, 8, 0, 0, 0, 0);
	if (!strstr(msg, "malloc")) { printf("an allocation is not noticed: %s\n", msg); return 4; }
	*msg = 0;
	int top = th ? L : 700, etop = th ? 800 : 300;
	static const char bads[] = { '!', '=', (char)0x80, '-' };
	unsigned long unit = 0;
	for (f = 0; f < nf; f++) {
		if (unit++ % sn != si) continue;
		if (!scenario(COLD_E, f, 0, 0, 0, 0) || !scenario(COLD_D, f, 0, 0, 0, 0)) return viol();
		restore(cold);
		for (k = ENC; k <= SDEC; k++) {
			if (k == ENC || k == DEC) restore(cold);
			for (len = 0; len <= top; len++) {
				if (k == ENC || k == DEC) { if (!scenario(k, f, len, 0, 0, 0)) return viol(); continue; }
				int most = len;
				for (cut = 0; cut <= most; cut++) if (!scenario(k, f, len, cut, 0, 0)) return viol();
			}
		}
		for (k = DEC; k <= SDEC; k++) for (len = 1; len <= etop; len++) for (pos = 0; pos < len; pos++) for (int b = 0; b < 4; b++)
			if (!scenario(k, f, len, k == SDEC ? len % 4 : 0, pos, bads[b])) return viol();
		for (k = ENC; k <= SDEC; k++) if (!stack(k, f, 0)) return viol();
		for (k = DEC; k <= SDEC; k++) for (int b = 0; b < 2; b++) if (!stack(k, f, bads[b])) return viol();
	}
	if (si == 0) printf("SAMPLE %d flags, all four ways of coding, lengths to %d, errors at every place to %d%s\n", nf, top, etop, have_sud ? "; system calls trapped" : "");
	printf("STAT states %lu\nSTAT transitions %lu\nSTAT impl_calls %lu\nDONE\n", calls, calls, calls);
	return 0;
}
