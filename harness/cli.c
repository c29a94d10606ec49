/* C12 to C15: bin/base64.c, compiled with main renamed, in one process with a
 * scripted environment: its input, output, memory and files come from here.
 *
 *   cli explore PROP SHARD NSHARDS TIER    |   cli replay SCENARIO
 *
 * Scenario: args joined by '|' ; input ; read policy ; write policy ; failing
 * allocation ; file error ; decisions
 *   input: x<hex> | p<len> (bytes) | t<len>.<line>[.<pos>.<char>]... (base64 text with newlines)
 *   policies: 0 as much as asked, n at most n at a time */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <getopt.h>
#include <fcntl.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <sys/time.h>
#include "ref.h"

int cli_main(int argc, char **argv);

/* the utility's writable data */
static char dummy_bss[16] __attribute__((used, aligned(16), section("libbss"))) = {0};
static char dummy_data[16] __attribute__((used, aligned(16), section("libdata"))) = {1};
extern char __start_libbss[], __stop_libbss[], __start_libdata[], __stop_libdata[];
static char *cli0; static size_t nbss, ndata;
#ifdef VERIF_MSAN
#include <sanitizer/msan_interface.h>
#endif
#ifdef VERIF_MSAN	/* buffers of stdio; printf() and fwrite() have looked at what went in */
#define FROM_LIBC(p, n) __msan_unpoison((p), (n))
#else
#define FROM_LIBC(p, n) ((void)0)
#endif
#ifdef VERIF_ASAN	/* this file itself is not instrumented */
/* the sanitizer's red zones are among the data */
static void rawcopy(void *a, const void *b, size_t n) { volatile uint64_t *x = a; const volatile uint64_t *y = b; while (n >= 8) { *x++ = *y++; n -= 8; } for (size_t i = 0; i < n; i++) ((volatile char *)x)[i] = ((const volatile char *)y)[i]; }
void __asan_poison_memory_region(void const volatile *, size_t);
void __asan_unpoison_memory_region(void const volatile *, size_t);
void *__asan_region_is_poisoned(void *, size_t);
#define REACHABLE(p, n) do { if ((n) && __asan_region_is_poisoned((void *)(p), (n))) stop("memory outside of the buffers is passed to the system"); } while (0)
#else
#define rawcopy memcpy
#define REACHABLE(p, n) ((void)0)
#endif
static void cli_save(void)
{
	nbss = __stop_libbss - __start_libbss; ndata = __stop_libdata - __start_libdata;
	cli0 = malloc(nbss + ndata); rawcopy(cli0, __start_libbss, nbss); rawcopy(cli0 + nbss, __start_libdata, ndata);
}
static void cli_reset(void) { rawcopy(__start_libbss, cli0, nbss); rawcopy(__start_libdata, cli0 + nbss, ndata); }

/* ---- the scenario -------------------------------------------------------- */
#define MAXIN (5 << 20)
#define MAXOUT (24 << 20)
static char args[400]; static char *argv_[40]; static int argc_;
static char inspec[400]; static uint8_t in[MAXIN]; static size_t inlen;
static int rpol, wpol, mfail, ofail;
static int seg_mask;            /* bit i: a read ends after byte i */
/* decisions */
static uint8_t dec[20000], opt[20000]; static int nd, fixed_d, ndev, devbound, explore_io;
static int choose(int n)
{
	if (n <= 1 || nd >= 20000) return 0;
	if (ndev >= devbound && nd >= fixed_d) return 0;
	int c = nd < fixed_d ? dec[nd] : 0;
	if (c >= n) c = 0;
	dec[nd] = c; opt[nd] = n; nd++;
	if (c) ndev++;
	return c;
}
static int backtrack(void)
{
	while (nd > 0 && dec[nd - 1] + 1 >= opt[nd - 1]) nd--;
	if (!nd) return 0;
	dec[nd - 1]++; fixed_d = nd;
	return 1;
}

/* ---- the environment ------------------------------------------------------ */
static uint8_t *out; static size_t outlen;
static char errs[8192]; static size_t errlen;
static int status, died; static char why[300];
static int hard;                /* what has been made to fail: 1 read, 2 write, 4 memory, 8 open */
static unsigned long iocalls; static size_t inpos; static int reads, writes, allocs, opens;
static jmp_buf over;
static int active; static volatile unsigned long runs;
static void stop(const char *w) { if (!died) { died = 1; snprintf(why, sizeof why, "%s", w); } longjmp(over, 1); }
static void put(const void *p, size_t n) { if (outlen + n > MAXOUT) stop("the output does not end"); memcpy(out + outlen, p, n); outlen += n; }

static ssize_t src_read(void *c, char *buf, size_t n)
{
	if (++iocalls > 200000 + inlen * 4) stop("the utility does not end");
	size_t k = inlen - inpos;
	reads++;
	REACHABLE(buf, n);
	if (k > n) k = n;
	if (rpol && k > (size_t)rpol) k = rpol;
	if (seg_mask) for (size_t i = 0; i < k; i++) if (inpos + i < 29 && (seg_mask >> (inpos + i) & 1)) { k = i + 1; break; }
	if (explore_io & 1) {
		/* as asked, an error, one byte, one less, half */
		size_t alt[4]; int na = 0;
		if (k > 1) alt[na++] = 1;
		if (k > 2) alt[na++] = k - 1;
		if (k > 4) alt[na++] = k / 2;
		int x = choose(na + 3);
		if (x == 1) { hard |= 1; errno = EIO; return -1; }
		if (x == 2) { hard |= 1; errno = EINTR; return -1; }
		if (x) k = alt[x - 3];
	}
	memcpy(buf, in + inpos, k); inpos += k;
	return k;
}
static ssize_t sink(const struct iovec *v, int nv)
{
	size_t n = 0, k;
	if (++iocalls > 200000 + inlen * 4) stop("the utility does not end");
	writes++;
	if (nv > 1024) { errno = EINVAL; hard |= 2; return -1; }
	for (int i = 0; i < nv; i++) n += v[i].iov_len;
	k = n;
	for (int i = 0; i < nv; i++) REACHABLE(v[i].iov_base, v[i].iov_len);
#ifdef VERIF_MSAN
	for (int i = 0; i < nv; i++) __msan_check_mem_is_initialized(v[i].iov_base, v[i].iov_len);
#endif
#ifdef EMULATE_WRITEV
	if (hard & 2) { errno = EIO; return -1; } /* an error goes by unnoticed if it does not last */
#endif
	if (wpol == -1) { if (writes & 1) { errno = EINTR; return -1; } }
	else if (wpol && k > (size_t)wpol) k = wpol;
	if (explore_io & 2 && n) {
		/* as asked; interrupted; failing; any number of bytes if few, else at and around the ends of the vectors */
		size_t alt[64]; int na = 0;
		if (n <= 12) for (size_t j = 1; j < n; j++) alt[na++] = j;
		else {
			size_t e = 0;
			alt[na++] = 1; alt[na++] = 2;
			for (int i = 0; i < nv && na < 40; i++) { e += v[i].iov_len; for (int d = -1; d < 2; d++) if (e + d > 2 && e + d < n) alt[na++] = e + d; }
			alt[na++] = n / 2; alt[na++] = n - 1;
		}
		int x = choose(na + 4);
		if (x == 1) { errno = EINTR; return -1; }
		if (x == 2) { errno = EIO; hard |= 2; return -1; }
		if (x == 3) { errno = EPIPE; hard |= 2; return -1; }
		if (x) k = alt[x - 4];
	}
	for (size_t left = k, i = 0; left; i++) { size_t m = v[i].iov_len < left ? v[i].iov_len : left; put(v[i].iov_base, m); left -= m; }
	return k;
}
static int discard;
static ssize_t out_write(void *c, const char *b, size_t n) { FROM_LIBC(b, n); if (!discard) put(b, n); return n; }
static ssize_t err_write(void *c, const char *b, size_t n) { FROM_LIBC(b, n); for (size_t i = 0; i < n && errlen < sizeof errs - 1; i++) errs[errlen++] = b[i]; return n; }
static const char *file_names[] = { "file1", "./4", NULL };
/* the streams of the utility, to close those it leaves open */
static FILE *open_f[16]; static int nopen_f;
static FILE *track(FILE *f) { if (nopen_f < 16) open_f[nopen_f++] = f; return f; }
static FILE *src_open(void) { cookie_io_functions_t f = { .read = src_read }; return track(fopencookie(NULL, "r", f)); }
int verif_fclose(FILE *f) { for (int i = 0; i < nopen_f; i++) if (open_f[i] == f) open_f[i] = NULL; return fclose(f); }
FILE *verif_fopen(const char *n, const char *m)
{
	opens++;
	if (ofail) { errno = ofail; hard |= 8; return NULL; }
	for (int i = 0; file_names[i]; i++) if (!strcmp(n, file_names[i])) return src_open();
	errno = ENOENT; hard |= 8;
	return NULL;
}
int verif_fileno(FILE *f) { return f == stdin ? 0 : f == stdout ? 1 : f == stderr ? 2 : 100; }
int verif_open(const char *n, int fl, ...)
{
	opens++;
	if (ofail) { errno = ofail; hard |= 8; return -1; }
	for (int i = 0; file_names[i]; i++) if (!strcmp(n, file_names[i])) return 100;
	errno = ENOENT; hard |= 8;
	return -1;
}
FILE *verif_fopen64(const char *n, const char *m) { return verif_fopen(n, m); }
int verif_open64(const char *n, int fl, ...) { return verif_open(n, fl); }
int verif_close(int fd) { return 0; }
ssize_t verif_read(int fd, void *b, size_t n) { if (fd != 0 && fd != 100) { errno = EBADF; return -1; } return src_read(NULL, b, n); }
ssize_t verif_write(int fd, const void *b, size_t n)
{
	struct iovec v = { (void *)b, n };
	if (fd == 2) return err_write(NULL, b, n);
	if (fd != 1) { errno = EBADF; return -1; }
	return sink(&v, 1);
}
ssize_t verif_writev(int fd, const struct iovec *v, int n)
{
	if (fd == 2) { for (int i = 0; i < n; i++) err_write(NULL, v[i].iov_base, v[i].iov_len); return 1; }
	if (fd != 1) { errno = EBADF; return -1; }
	return sink(v, n);
}
void verif_exit(int s) { status = s & 255; longjmp(over, 2); }
void verif__exit(int s) { status = s & 255; longjmp(over, 3); }
void verif_abort(void) { stop("the utility aborts"); }
/* memory: each allocation ends at a page that cannot be touched */
#define SLOTS 16
#define SLOTSZ (4 << 20)
static char *slot[SLOTS]; static size_t slotlen[SLOTS]; static unsigned freed; static char *slotp[SLOTS];
void *verif_malloc(size_t n)
{
	int i = allocs++;
	if (mfail && i == mfail - 1) { errno = ENOMEM; hard |= 4; return NULL; }
	if (i >= SLOTS || n > SLOTSZ) stop("more memory than expected");
	size_t a = n & -n;
	if (a > 16 || !a) a = 16;
#ifndef VERIF_ASAN
	slotlen[i] = n;
#endif
	freed &= ~(1u << i);
	char *p = slot[i] + SLOTSZ - (n + a - 1) / a * a;
#ifdef VERIF_ASAN
	if (slotlen[i] != n + 1) __asan_poison_memory_region(slot[i], SLOTSZ);
	slotlen[i] = n + 1;
	__asan_unpoison_memory_region(p, n);
#else
	p[-1] = 0x5c; p[-2] = 0x5d;
#endif
#ifdef VERIF_MSAN
	__msan_poison(p, n);
#endif
	slotp[i] = p;
	return p;
}
void *verif_calloc(size_t a, size_t b) { void *p = verif_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void verif_free(void *p)
{
	int i = 0;
	if (!p) return;
	while (i < allocs && i < SLOTS && (mfail == i + 1 || slotp[i] != p)) i++;
	if (i >= allocs || i >= SLOTS) stop("free() of something else than allocated memory");
	if (freed & 1u << i) stop("memory is freed twice");
	freed |= 1u << i;
	size_t n = slot[i] + SLOTSZ - (char *)p;
#ifdef VERIF_ASAN
	__asan_poison_memory_region(p, n);
#endif
#ifdef VERIF_MSAN
	__msan_poison(p, n);
#elif !defined VERIF_ASAN
	memset(p, 0xdd, n < 200 ? n : 200); /* what is used after that is not what it was */
#endif
}
void *verif_realloc(void *p, size_t n)
{
	void *q = verif_malloc(n);
	if (!q || !p) return q;
	int i = 0; while (slotp[i] != p) i++;
	size_t m = slot[i] + SLOTSZ - (char *)p;
	memcpy(q, p, m < n ? m : n); verif_free(p);
	return q;
}

static const char *cur_scn(void);
static FILE *so, *se;
static void run(void)
{
	FILE *keep_in = stdin, *keep_out = stdout, *keep_err = stderr;
	cookie_io_functions_t fo = { .write = out_write }, fe = { .write = err_write };
	outlen = errlen = 0; status = -1; died = 0; hard = 0; iocalls = 0; inpos = 0; reads = writes = allocs = opens = 0; nd = 0; ndev = 0;
	nopen_f = 0; discard = 0;
	runs++;
	cli_reset();
	optind = 0; opterr = 1;
	errno = 0;
	/* a copy of the arguments, getopt reorders them */
	static char *av[40]; memcpy(av, argv_, sizeof av);
	stdin = src_open(); stdout = so = track(fopencookie(NULL, "w", fo)); stderr = se = track(fopencookie(NULL, "w", fe));
	setvbuf(se, NULL, _IONBF, 0);
	active = 1;
	int j = setjmp(over);
	if (!j) { status = cli_main(argc_, av) & 255; }
	active = 0;
	/* what is left in the buffers goes out at the end of the process */
	discard = j == 1 || j == 3;
	if (!setjmp(over)) for (int i = 0; i < nopen_f; i++) if (open_f[i]) { FILE *f = open_f[i]; open_f[i] = NULL; fclose(f); }
	stdin = keep_in; stdout = keep_out; stderr = keep_err;
	errs[errlen] = 0;
}

/* ---- inputs ---------------------------------------------------------------- */
static void set_args(const char *a)
{
	static char b[400];
	snprintf(args, sizeof args, "%s", a); snprintf(b, sizeof b, "%s", a);
	argc_ = 0; argv_[argc_++] = "base64";
	if (*b) { char *p = b; for (;;) { argv_[argc_++] = p; p = strchr(p, '|'); if (!p) break; *p++ = 0; } }
	argv_[argc_] = NULL;
	/* '~' stands for an empty argument */
	for (int i = 1; i < argc_; i++) if (!strcmp(argv_[i], "~")) argv_[i] = "";
}
static uint8_t pat(size_t i) { return ((i * 2654435761u) >> 11) ^ (i >> 9); }
static void in_p(size_t n) { sprintf(inspec, "p%zu", n); inlen = n; for (size_t i = 0; i < n; i++) in[i] = pat(i); }
static void in_x(const uint8_t *p, size_t n)
{
	memcpy(in, p, n); inlen = n;
	inspec[0] = 'x'; inspec[1] = 0;
	for (size_t i = 0; i < n && i < 190; i++) sprintf(inspec + 1 + 2 * i, "%02x", p[i]);
}
static void in_t(size_t n, size_t line, int ne, const long *pos, const int *ch)
{
	int k = sprintf(inspec, "t%zu.%zu", n, line);
	inlen = 0;
	for (size_t i = 0; i < n; i++) { if (line && i && i % line == 0) in[inlen++] = '\n'; in[inlen++] = ref_alpha[(i * 40503u + (i >> 6) * 7) >> 5 & 63]; }
	for (int i = 0; i < ne; i++) { in[pos[i]] = ch[i]; k += sprintf(inspec + k, ".%ld.%d", pos[i], ch[i]); }
}
static void in_spec(const char *s)
{
	if (*s == 'p') in_p(atol(s + 1));
	else if (*s == 'x') { static uint8_t b[400]; size_t n = 0; for (s++; s[0] && s[1]; s += 2) { int v; sscanf(s, "%2x", &v); b[n++] = v; } in_x(b, n); }
	else {
		char *e; size_t n = strtoul(s + 1, &e, 10), l = strtoul(e + 1, &e, 10); long pos[8]; int ch[8], ne = 0;
		while (*e == '.') { pos[ne] = strtol(e + 1, &e, 10); ch[ne++] = strtol(e + 1, &e, 10); }
		in_t(n, l, ne, pos, ch);
	}
}
static const char *cur_scn(void)
{
	static char b[30000];
	int k = sprintf(b, "%s;%s;%d;%d;%d;%d;", args, inspec, seg_mask ? seg_mask : rpol, wpol, mfail, ofail);
	int last = nd; while (last && !dec[last - 1]) last--;
	k += sprintf(b + k, "%d:%d:", explore_io, devbound);
	for (int i = 0; i < last && k < 29000; i++) k += sprintf(b + k, "%d.", dec[i]);
	return b;
}

/* ---- the oracle -------------------------------------------------------------- */
struct conf { int decode, help, ign, nostrip, bad, file; long long wrap; };
/* The command line as getopt_long(3) and the help text have it. */
static struct conf ref_args(void)
{
	static const struct { const char *n; char c; int arg; } lo[] = { {"decode",'d',0}, {"help",'h',0}, {"ignore-garbage",'i',0}, {"no-strip-newlines",'n',0}, {"wrap",'w',1} };
	struct conf c = { .wrap = 76 };
	const char *files[40]; int nf = 0, i;
	for (i = 1; i < argc_; i++) {
		const char *a = argv_[i], *val = NULL;
		if (!strcmp(a, "--")) { for (i++; i < argc_; i++) files[nf++] = argv_[i]; break; }
		if (a[0] != '-' || !a[1]) { files[nf++] = a; continue; }
		char cl[100]; int ncl = 0;
		if (a[1] == '-') {
			const char *eq = strchr(a, '='); size_t n = eq ? (size_t)(eq - a - 2) : strlen(a + 2); int m = -1, cnt = 0;
			for (int k = 0; k < 5; k++) if (!strncmp(lo[k].n, a + 2, n)) { cnt++; m = k; if (strlen(lo[k].n) == n) { cnt = 1; break; } }
			if (cnt != 1) { c.bad = 1; return c; }
			if (lo[m].arg) { if (eq) val = eq + 1; else if (i + 1 < argc_) val = argv_[++i]; else { c.bad = 1; return c; } }
			else if (eq) { c.bad = 1; return c; }
			cl[ncl++] = lo[m].c;
		} else for (const char *p = a + 1; *p; p++) {
			cl[ncl++] = *p;
			if (*p == 'w') { if (p[1]) val = p + 1; else if (i + 1 < argc_) val = argv_[++i]; else val = (char *)1; break; }
		}
		for (int k = 0; k < ncl; k++) switch (cl[k]) {
		case 'd': c.decode = 1; break;
		case 'h': c.help = 1; return c;
		case 'i': c.ign = 1; break;
		case 'n': c.nostrip = 1; break;
		case 'w': {
			if (val == (char *)1 || !*val) { c.bad = 1; return c; }
			long long w = 0;
			for (const char *p = val; *p; p++) { if (*p < '0' || *p > '9') { c.bad = 1; return c; } if (w < 1000000000) w = w * 10 + *p - '0'; }
			c.wrap = w;
			break;
		}
		default: c.bad = 1; return c;
		}
	}
	if (nf > 1) { c.bad = 1; return c; }
	if (nf == 1 && strcmp(files[0], "-")) {
		c.file = 1;
		int ok = 0;
		for (int k = 0; file_names[k]; k++) if (!strcmp(files[0], file_names[k])) ok = 1;
		if (!ok || ofail) c.bad = 2;
	}
	return c;
}
static uint8_t *want, *tmp; static size_t wantlen; static int wantok;
static void ref_convert(const struct conf *c)
{
	if (!c->decode) {
		struct renc e = {0};
		size_t n = ref_enc(&e, in, inlen, tmp);
		n += ref_enc_final(&e, tmp + n);
		wantlen = 0;
		for (size_t i = 0; i < n; i++) { want[wantlen++] = tmp[i]; if (c->wrap && (i + 1) % c->wrap == 0) want[wantlen++] = '\n'; }
		if (c->wrap && n % c->wrap) want[wantlen++] = '\n';
		wantok = 1;
	} else {
		struct rdec d = {0};
		size_t n = 0;
		for (size_t i = 0; i < inlen; i++) {
			if (c->ign ? ref_val[in[i]] == -1 : !c->nostrip && in[i] == '\n') continue;
			tmp[n++] = in[i];
		}
		wantlen = 0; wantok = 1;
		if (n) wantok = ref_dec(&d, tmp, n, want, &wantlen);
		wantok = wantok && ref_dec_complete(&d);
	}
}
static char msg[500];
static int fail(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(msg, sizeof msg, f, a); va_end(a); return -1; }
static int judge(const struct conf *c)
{
	if (died) return fail("%s", why);
#ifndef VERIF_ASAN
	for (int i = 0; i < allocs && i < SLOTS; i++) {
		size_t n = slotlen[i], a = n & -n; if (a > 16 || !a) a = 16;
		char *p = slot[i] + SLOTSZ - (n + a - 1) / a * a;
		if (mfail == i + 1) continue;
		if (p[-1] != 0x5c || p[-2] != 0x5d) return fail("memory in front of a buffer is overwritten");
	}
#endif
	if (c->bad) {
		if (status != 1) return fail("a bad command line gives exit status %d", status);
		if (outlen) return fail("a bad command line gives output");
		if (!memmem(errs, errlen, "Usage:", 6)) return fail("a bad command line gives no usage text");
		if (!strncmp(errs, "Usage:", 6)) return fail("a bad command line gives no message");
		return 0;
	}
	if (c->help) {
		if (status != 0) return fail("help gives exit status %d", status);
		if (errlen) return fail("help writes to standard error");
		out[outlen] = 0;
		static const char *t[] = { "Usage:", "--decode", "--help", "--ignore-garbage", "--no-strip-newlines", "--wrap" };
		for (int i = 0; i < 6; i++) if (!strstr((char *)out, t[i])) return fail("the help text lacks %s", t[i]);
		return 0;
	}
	if (!hard && wantok) {
		if (status) return fail("exit status %d instead of 0", status);
		if (errlen) return fail("unexpected message");
		if (outlen != wantlen) return fail("%zu bytes of output instead of %zu", outlen, wantlen);
		if (memcmp(out, want, wantlen)) { size_t i = 0; while (out[i] == want[i]) i++; return fail("wrong output at byte %zu", i); }
		return 0;
	}
	if (!status) return fail("%s gives exit status 0", hard & 1 ? "a failing read" : hard & 2 ? "a failing write" : hard & 4 ? "a failing allocation" : hard & 8 ? "a file that cannot be opened" : "bad input");
	if (!errlen) return fail("%s gives no message", hard ? "a failure" : "bad input");
	if (outlen > wantlen || memcmp(out, want, outlen)) { size_t i = 0; while (i < wantlen && out[i] == want[i]) i++; return fail("with %s, the output is not a prefix of the correct one (byte %zu of %zu)", hard ? "a failure" : "bad input", i, outlen); }
	return 0;
}
static unsigned long nscen;
static struct conf conf;
static int once(void) { run(); if (judge(&conf)) { printf("VIOL %s\t%s\n", cur_scn(), msg); return 3; } return 0; }
/* one scenario; with explore_io, all deviations of the environment up to devbound */
static int scenario(void)
{
	conf = ref_args();
	if (!conf.bad && !conf.help) ref_convert(&conf);
	nscen++;
	fixed_d = 0;
	for (;;) {
		if (once()) return 3;
		if (!explore_io || !backtrack()) return 0;
	}
}

/* ---- enumerations --------------------------------------------------------------- */
static unsigned long k; static int si, sn, th;
#define MINE (k++ % sn == (unsigned long)si)
#define GO do { if (scenario()) return 3; } while (0)
static char ab[100];
static int c12(int raw)
{
	static const int wraps[] = { -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 63, 64, 65, 75, 76, 77, 100, 127, 128, 255, 256, 1000, 4096, 1000000000 };
	int maxlen = raw > 1000 ? (th ? 2000 : 900) : th ? 700 : 300;
	for (int w = 0; w < (int)(sizeof wraps / sizeof *wraps); w++)
	for (int len = 0; len <= maxlen; len++)
	for (int r = 0; r < 3; r++) {
		if (!MINE) continue;
		if (wraps[w] < 0) strcpy(ab, r == 1 ? "file1" : ""); else sprintf(ab, "-w|%d%s", wraps[w], r == 1 ? "|file1" : r == 2 ? "|-" : "");
		set_args(ab); in_p(len); rpol = r == 2 ? 1 : 0; wpol = 0;
		GO;
	}
	/* every way in which a short input can arrive */
	for (int len = 1; len <= (th ? 15 : 12); len++) for (int m = 0; m < 1 << (len - 1); m++) for (int w = 0; w < 5; w++) {
		if (!MINE) continue;
		/* segmentation through prescribed reads: see src_read with rpol -mask */
		sprintf(ab, "-w|%d", w == 4 ? 76 : w); set_args(ab); in_p(len);
		rpol = 0; explore_io = 0;
		seg_mask = m | 1 << 30;
		GO;
		seg_mask = 0;
	}
	if (raw > 1000) {
		/* around the real buffer size, the size of the vector array and powers of two */
		static const long big[] = { 4096, 65536, 786432, 1048576, 2097152, 3145728 };
		static const int bw[] = { -1, 0, 1, 2, 3, 4, 76, 1023, 1024, 1398104, 2000000 };
		for (int b = 0; b < 6; b++) for (int w = 0; w < 11; w++) for (int d = -4; d <= 4; d++) for (int r = 0; r < 2; r++) {
			if (!th && b > 3 && (w == 2 || w == 3 || w == 4 || w == 5 || (d & 1))) continue;
			if (!th && b > 1 && (w == 2 || w == 3 || w == 4) && (r || d < -1 || d > 1)) continue;
			if (!MINE) continue;
			if (bw[w] < 0) strcpy(ab, ""); else sprintf(ab, "-w%d", bw[w]);
			set_args(ab); in_p(big[b] + d); rpol = r ? 4093 : 0;
			GO;
		}
		rpol = 0;
		/* the array of vectors fills up exactly, or nearly */
		for (int w = 1; w < 8; w++) for (int lines = 500; lines < 530; lines++) for (int d = 0; d < 4 && d < w * 2; d++) for (int c = 1; c < 4; c++) {
			if (!MINE) continue;
			sprintf(ab, "-w|%d", w); set_args(ab); in_p((size_t)lines * w * c * 3 / 4 + d);
			GO;
		}
	}
	return 0;
}
static int c13(int raw)
{
	static const char alpha[] = { 'A', 'z', '=', '\n', '-' };
	static const char *opts[] = { "-d", "-d|-n", "-d|-i", "-d|-i|-n" };
	uint8_t s[40];
	int N = raw > 1000 ? (th ? 8 : 7) : th ? 10 : 8;
	for (int n = 0; n <= N; n++) {
		long tot = 1; for (int i = 0; i < n; i++) tot *= 5;
		for (long x = 0; x < tot; x++) for (int o = 0; o < 4; o++) {
			if (!MINE) continue;
			long y = x; for (int i = 0; i < n; i++) { s[i] = alpha[y % 5]; y /= 5; }
			set_args(opts[o]); in_x(s, n);
			GO;
		}
	}
	/* every byte value at every place of a short text */
	for (int o = 0; o < 4; o++) for (int p = 0; p < 18; p++) for (int v = 0; v < 256; v++) for (int t = 0; t < 3; t++) {
		if (!MINE) continue;
		memcpy(s, t == 0 ? "QUJDREVGR0hJSktM\n" : t == 1 ? "QUJD\nREVG\nR0hJ\nSg==\n" : "QUJD\n\nREVGR0hJSks=", 20);
		int n = t == 0 ? 17 : t == 1 ? 20 : 18;
		if (p >= n) continue;
		s[p] = v; set_args(opts[o]); in_x(s, n);
		GO;
	}
	/* texts of every length in lines of every length */
	for (int len = 0; len < (th ? 700 : 260); len++) for (int line = 0; line < 80; line++) for (int o = 0; o < 3; o++) {
		if (line > 9 && line < 76 && line != 64 && !th) continue;
		if (!MINE) continue;
		set_args(opts[o]); rpol = (len + line) % 3 == 2 ? 5 : 0;
		in_t(len, line, 0, NULL, NULL);
		GO;
	}
	rpol = 0;
	/* one or two bad or padding characters anywhere */
	static const int ch[] = { '=', '*', 0x80, 0, '\n', '\r', '"' };
	for (int len = 4; len < (th ? 200 : 90); len += (len % 4 == 0 ? 60 : 1)) for (int line = 0; line < 77; line += 19) for (int p = 0; p < len; p++) for (int c = 0; c < 7; c++) for (int o = 0; o < 4; o++) for (int q = 0; q < 3; q++) {
		if (!MINE) continue;
		long pos[2] = { p, p + 1 + (q == 2 ? 7 : 0) }; int cc[2] = { ch[c], q == 2 ? '=' : ch[c] };
		int ne = q ? 2 : 1;
		set_args(opts[o]); in_t(len, line, 0, NULL, NULL);
		if (pos[1] >= (long)inlen) ne = 1;
		in_t(len, line, ne, pos, cc);
		GO;
	}
	if (raw > 1000) {
		static const long big[] = { 65536, 1048576, 2097152 };
		for (int b = 0; b < 3; b++) for (int d = -6; d <= 6; d++) for (int l = 0; l < 3; l++) for (int e = 0; e < 5; e++) for (int o = 0; o < 3; o++) {
			if (!th && b == 2 && (d & 1)) continue;
			if (!MINE) continue;
			long n = big[b] + d, pos[2]; int cc[2] = { '=', '=' };
			set_args(opts[o]);
			in_t(n, l == 0 ? 0 : l == 1 ? 76 : 4, 0, NULL, NULL);
			pos[0] = inlen - 1; pos[1] = inlen - 2;
			if (e == 3) { pos[0] = 1048576 - 1; cc[0] = '\n'; if (pos[0] >= (long)inlen) continue; }
			if (e == 4) { pos[0] = 1048576; cc[0] = '='; if (pos[0] >= (long)inlen) continue; }
			in_t(n, l == 0 ? 0 : l == 1 ? 76 : 4, e == 0 ? 0 : e == 2 ? 2 : 1, pos, cc);
			rpol = e == 1 ? 65521 : 0;
			GO;
		}
		rpol = 0;
	}
	return 0;
}
static int c14(int raw)
{
	static const char *ea[] = { "-w|3", "-w|0", "-w|1", "", "-w|4|file1", "-w|7" };
	static const char *da[] = { "-d", "-d|-i", "-d|-n|file1" };
	/* all deviations of reads and writes up to the bound */
	explore_io = 3;
	for (int pass = 1; pass <= (th ? 4 : 3); pass++) {
		devbound = pass;
		for (int e = 0; e < 6; e++) for (int len = 0; len <= (pass == 4 ? 10 : pass == 3 ? 16 : 40); len++) {
			if (!MINE) continue;
			if (pass == 2 && !th && len > 16 && e != 3) continue;
			set_args(ea[e]); in_p(len);
			GO;
		}
		for (int e = 0; e < 3; e++) for (int len = 0; len <= (pass == 4 ? 12 : pass == 3 ? 20 : 48); len += 4) for (int line = 0; line < 9; line += 4) for (int bad = 0; bad < 3; bad++) {
			if (!MINE) continue;
			long pos[2]; int cc[2] = { '=', '=' };
			set_args(da[e]); in_t(len, line, 0, NULL, NULL);
			if (bad && inlen < 4) continue;
			pos[0] = bad == 1 ? inlen - 1 : inlen / 2; if (bad == 2) cc[0] = '*';
			in_t(len, line, bad ? 1 : 0, pos, cc);
			GO;
		}
	}
	/* every write partial or interrupted, all the way */
	explore_io = 0; devbound = 0;
	for (wpol = -1; wpol < 12; wpol++) for (rpol = 0; rpol < 6; rpol++) for (int e = 0; e < 6; e++) for (int len = 0; len < 60; len++) {
		if (!MINE) continue;
		set_args(ea[e]); in_p(len);
		GO;
		set_args(da[e % 3]); in_t(len / 4 * 4, e, 0, NULL, NULL);
		GO;
	}
	rpol = wpol = 0;
	/* a hard failure on top of partial writes, at every call */
	explore_io = 3; devbound = 1;
	for (wpol = -1; wpol < 8; wpol++) for (int e = 0; e < 6; e++) for (int len = 0; len < 40; len++) {
		if (!MINE || !wpol) continue;
		set_args(ea[e]); in_p(len);
		GO;
		set_args(da[e % 3]); in_t(len / 4 * 4, e, 0, NULL, NULL);
		GO;
	}
	wpol = 0;
	/* longer outputs, which fill the array of vectors */
	devbound = 1;
	for (int len = 0; len < 9; len++) for (int e = 0; e < 4; e++) {
		if (!MINE) continue;
		set_args(ea[e]); in_p(raw > 1000 ? 380 + len * 200 : 100 + len);
		GO;
	}
	explore_io = 0;
	for (int e = 0; e < 9; e++) for (int len = 0; len < 10; len++) {
		for (mfail = 1; mfail <= 3; mfail++) { if (!MINE) continue; set_args(e < 6 ? ea[e] : da[e - 6]); in_t(len / 4 * 4, 0, 0, NULL, NULL); if (e < 6) in_p(len); GO; }
		mfail = 0;
		static const int errv[] = { ENOENT, EACCES, EMFILE, EISDIR };
		for (int v = 0; v < 4; v++) { ofail = errv[v]; if (!MINE) continue; set_args(e < 3 ? "file1" : e < 6 ? "-d|file1" : "-w|4|file1"); in_p(len); GO; }
		ofail = 0;
	}
	mfail = ofail = 0;
	return 0;
}
static int c15(int raw)
{
	static const char *tok[] = { "-d", "-i", "-n", "-h", "-w", "-w5", "5", "0", "~", "-", "--", "-dw", "-dw5", "-idn", "-nid", "-wd", "-dh", "--decode", "--dec", "--d", "--help",
		"--h", "--ignore-garbage", "--ig", "--no-strip-newlines", "--no", "--wrap", "--wrap=5", "--wrap=", "--wrap=x", "--w=0", "-x", "-dx", "--bogus", "--decode=1", "-w-1", "-w5x",
		"file1", "missing", "--wrap=-3", "--wrapping", "-w0", "--decoder", "-D", "-" "-help=", "-w99999999999999999999" };
	int nt = sizeof tok / sizeof *tok, K = th ? 5 : 4;
	static const char *ins[] = { "QUJD\nREVG", "QUJD-REVG\n", "QU" };
	for (int n = 0; n <= K; n++) {
		if (n == 5) nt = 27;
		long tot = 1; for (int i = 0; i < n; i++) tot *= nt;
		for (long x = 0; x < tot; x++) {
			if (!MINE) continue;
			long y = x; int m = 0; ab[0] = 0;
			for (int i = 0; i < n; i++) { m += sprintf(ab + m, "%s%s", i ? "|" : "", tok[y % nt]); y /= nt; }
			set_args(ab);
			for (int j = 0; j < (n < 4 || (th && n < 5) ? 3 : 1); j++) { in_x((const uint8_t *)ins[j], strlen(ins[j])); GO; }
		}
	}
	/* wrap values of every spelling */
	static const char *vals[] = { "0", "1", "00", "007", "76", "077", "10", "1000", "-1", "-76", "a", "5a", "a5", "0x10", "1e3", "5 ", "1.5", "~", "-", "--", "9223372036854775807", "2147483648", "4294967296", "4294967300", "18446744073709551616" };
	static const char *form[] = { "-w|%s", "--wrap|%s", "--wrap=%s", "-w%s", "--wr=%s", "-n|-w|%s", "-w|%s|file1", "-w|%s|-w|4", "-w|4|-w|%s", "-iw|%s" };
	for (int v = 0; v < (int)(sizeof vals / sizeof *vals); v++) for (int f = 0; f < 10; f++) for (int len = 0; len < 20; len++) {
		if (!MINE) continue;
		const char *val = vals[v];
		if (!strcmp(val, "~") && (f == 2 || f == 4)) val = "";
		if (!strcmp(val, "~") && f == 3) continue;
		sprintf(ab, form[f], val); set_args(ab); in_p(len);
		GO;
	}
	/* every single character as an option, alone and in a cluster */
	for (int v = 33; v < 127; v++) for (int f = 0; f < 4; f++) {
		if (v == '|' || v == '~' || !MINE) continue;
		sprintf(ab, f == 0 ? "-%c" : f == 1 ? "-d%c" : f == 2 ? "--%c" : "-%cd", v);
		if (!strcmp(ab, "--=") ) continue;
		set_args(ab); in_x((const uint8_t *)"QUJD", 4);
		GO;
	}
	return 0;
}
static void crash(int sig, siginfo_t *s, void *u)
{
	char b[31000]; int n = snprintf(b, sizeof b, "VIOL %s\tthe utility dies with signal %d\n", cur_scn(), sig);
	if (write(1, b, n)) {}
	_exit(3);
}
static void tick(int sig)
{
	static unsigned long last; static int same;
	if (active && runs == last) { if (++same >= 10) { char b[31000]; int n = snprintf(b, sizeof b, "VIOL %s\tthe utility does not end\n", cur_scn()); if (write(1, b, n)) {} _exit(3); } }
	else same = 0;
	last = runs;
}
#ifndef RAW
#define RAW (1 << 20)
#endif
int main(int argc, char **argv)
{
	ref_setup();
	out = malloc(MAXOUT + 16); want = malloc(MAXOUT); tmp = malloc(MAXOUT);
	for (int i = 0; i < SLOTS; i++) {
		slot[i] = mmap(NULL, SLOTSZ + 4096 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) + 4096;
		mprotect(slot[i] + SLOTSZ, 4096, PROT_NONE);
	}
	dummy_bss[0] = 0; dummy_data[0] = 1;
	cli_save();
	static char stk[1 << 17];
	stack_t ss = { .ss_sp = stk, .ss_size = sizeof stk };
	struct sigaction sa = { .sa_sigaction = crash, .sa_flags = SA_SIGINFO | SA_ONSTACK };
	sigaltstack(&ss, NULL);
	sigaction(SIGSEGV, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL);
	struct sigaction st = { .sa_handler = tick, .sa_flags = SA_RESTART | SA_ONSTACK };
	sigaction(SIGALRM, &st, NULL);
	struct itimerval it = { { 2, 0 }, { 2, 0 } };
	setitimer(ITIMER_REAL, &it, NULL);
	setvbuf(stdout, NULL, _IOLBF, 0);
	if (!strcmp(argv[1], "replay")) {
		char *p = argv[2], *f[7]; int n = 0;
		for (f[n++] = p; *p && n < 7; p++) if (*p == ';') { *p = 0; f[n++] = p + 1; }
		set_args(f[0]); in_spec(f[1]); rpol = atoi(f[2]); wpol = atoi(f[3]); mfail = atoi(f[4]); ofail = atoi(f[5]);
		char *e; explore_io = strtol(f[6], &e, 10); devbound = strtol(e + 1, &e, 10); e++;
		if (rpol >= 1 << 30) { seg_mask = rpol; rpol = 0; }
		while (*e) { dec[fixed_d++] = strtol(e, &e, 10); e++; }
		conf = ref_args();
		if (!conf.bad && !conf.help) ref_convert(&conf);
		int r = once();
		printf("exit status %d, %zu bytes of output, %zu expected, messages: %s\n", status, outlen, wantlen, errs);
		if (!r) printf("holds\nDONE\n");
		return r;
	}
	si = atoi(argv[3]); sn = atoi(argv[4]); th = !strcmp(argv[5], "thorough");
	int p = atoi(argv[2] + 1);
	if ((p == 12 ? c12 : p == 13 ? c13 : p == 14 ? c14 : c15)(RAW)) return 3;
	printf("SAMPLE last scenario: base64 %s, input %.80s\n", args, inspec);
	printf("STAT scenarios %lu\nSTAT states %lu\nSTAT transitions %lu\nSTAT impl_calls %lu\nDONE\n", nscen, nscen, runs, runs);
	return 0;
}
