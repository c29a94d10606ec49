/* Explicit-state exploration of the real library, linked in statically.
 *
 * Every transition is one call of a public function on the real code; the
 * oracle is the reference model in ref.h. The states of a stream are the raw
 * bytes of its base64_state together with the state of the reference model.
 *
 *   libmc explore CHECK TIER CODEC AVAIL EMU   enumerate, stop at a violation
 *   libmc replay "SCENARIO"                    run one scenario again
 *
 * Scenarios are printed in full and replayed from their text alone. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include <unistd.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/time.h>
#include "libbase64.h"
#include "ref.h"

typedef uint8_t u8;
#ifdef VERIF_MSAN	/* the harness and the library watch for memory that was never set */
#include <sanitizer/msan_interface.h>
#define UNSET(p, n) __msan_poison((p), (n))
#define IS_SET(p, n) __msan_check_mem_is_initialized((p), (n))
#define ALL_SET(p, n) __msan_unpoison((p), (n))
#else
#define UNSET(p, n) ((void) 0)
#define IS_SET(p, n) ((void) 0)
#define ALL_SET(p, n) ((void) 0)
#endif
static const struct { const char *name; int flag; } CODECS[] = {
	{ "default", 0 }, { "plain", BASE64_FORCE_PLAIN }, { "ssse3", BASE64_FORCE_SSSE3 },
	{ "sse41", BASE64_FORCE_SSE41 }, { "sse42", BASE64_FORCE_SSE42 }, { "avx", BASE64_FORCE_AVX },
	{ "avx2", BASE64_FORCE_AVX2 }, { "avx512", BASE64_FORCE_AVX512 },
	{ "neon32", BASE64_FORCE_NEON32 }, { "neon64", BASE64_FORCE_NEON64 },
};
#define NCODECS ((int)(sizeof CODECS / sizeof *CODECS))

/* Oracles. */
enum { M_RET = 1, M_LEN = 2, M_OUT = 4, M_MEM = 8, M_DEAD = 16 };

/* ---- data ------------------------------------------------------------- */
#define MAXPAT (9u << 20)
enum { NPAT = 6 };
static u8 *pat_b[NPAT], *pat_c[NPAT];	/* bytes to encode, characters to decode */

static uint32_t mix (uint32_t x) { x ^= x >> 16; x *= 0x7feb352dU; x ^= x >> 15; x *= 0x846ca68bU; x ^= x >> 16; return x; }

static void pats_setup (size_t n)
{
	for (int p = 0; p < NPAT; p++) {
		pat_b[p] = malloc(n); pat_c[p] = malloc(n);
		if (!pat_b[p] || !pat_c[p]) { fprintf(stderr, "no memory\n"); exit(3); }
		for (size_t i = 0; i < n; i++) {
			uint32_t h = mix((uint32_t) i + 77u);
			u8 b = p == 0 ? (u8) h : p == 1 ? (u8) ~h : p == 2 ? 0 : p == 3 ? 0xff : p == 4 ? 0x55 : 0xaa;
			pat_b[p][i] = b;
			pat_c[p][i] = ref_alpha[p == 1 ? (~h) & 63 : p == 4 ? 21 : p == 5 ? 42 : b & 63];
		}
	}
}

/* ---- scenarios -------------------------------------------------------- */
/* A chunk: len bytes of pattern pat from offset 0, with up to two bytes
 * replaced; pat -1: the literal bytes. */
struct chunk { long len; int pat; long ep; int ev; long ep2; int ev2; u8 lit[16]; };
#define MAXCH 12
struct scn {
	char op;		/* E, D: one-shot; e, d: stream; f: stream encode and final */
	int codec, mask;
	int sp, dp;		/* placement: 0.. offset in a roomy buffer, -1 flush end, -2 flush start */
	int bg, poison;		/* output background, preset of outlen */
	int n;
	struct chunk c[MAXCH];
};
static struct scn cur;
static volatile unsigned long progress;

static void fmt_scn (const struct scn *s, char *b, size_t n)
{
	int k = snprintf(b, n, "op=%c codec=%s mask=%d sp=%d dp=%d bg=%d poison=%d chunks=", s->op,
		CODECS[s->codec].name, s->mask, s->sp, s->dp, s->bg, s->poison);
	for (int i = 0; i < s->n; i++) {
		const struct chunk *c = &s->c[i];
		if (c->pat < 0) {
			k += snprintf(b + k, n - k, "%sL", i ? ";" : "");
			for (long j = 0; j < c->len; j++) k += snprintf(b + k, n - k, "%02x", c->lit[j]);
		}
		else k += snprintf(b + k, n - k, "%sP%d:%ld:%ld:%d:%ld:%d", i ? ";" : "", c->pat, c->len, c->ep, c->ev, c->ep2, c->ev2);
	}
}
static int parse_scn (struct scn *s, const char *t)
{
	char op, name[32], ch[4096];
	memset(s, 0, sizeof *s);
	ch[0] = 0;
	if (sscanf(t, "op=%c codec=%31s mask=%d sp=%d dp=%d bg=%d poison=%d chunks=%4095s", &op, name, &s->mask, &s->sp, &s->dp, &s->bg, &s->poison, ch) < 7) return 0;
	s->op = op; s->codec = -1;
	for (int i = 0; i < NCODECS; i++) if (!strcmp(name, CODECS[i].name)) s->codec = i;
	if (s->codec < 0) return 0;
	for (char *p = ch, *e; *p && s->n < MAXCH; p = e) {
		struct chunk *c = &s->c[s->n++];
		for (e = p; *e && *e != ';'; e++) ;
		if (*e) *e++ = 0;
		if (*p == 'L') {
			c->pat = -1; c->ep = c->ep2 = -1;
			for (p++; p[0] && p[1]; p += 2) { unsigned v; sscanf(p, "%2x", &v); c->lit[c->len++] = (u8) v; }
		}
		else if (sscanf(p, "P%d:%ld:%ld:%d:%ld:%d", &c->pat, &c->len, &c->ep, &c->ev, &c->ep2, &c->ev2) != 6) return 0;
	}
	return 1;
}

static char viol_msg[512];
static void vfail (const char *f, ...)
{
	va_list ap;
	if (viol_msg[0]) return;
	va_start(ap, f); vsnprintf(viol_msg, sizeof viol_msg, f, ap); va_end(ap);
}
static struct { unsigned long states, transitions, calls, errs, cases; unsigned outcomes; } st;
static int samples;
static void out_stats (void)
{
	printf("STAT states %lu\nSTAT transitions %lu\nSTAT impl_calls %lu\n", st.states, st.transitions, st.calls);
	fflush(stdout);
}
static void report (void)
{
	static char b[8192];
	fmt_scn(&cur, b, sizeof b);
	printf("VIOL %s\t%s\n", b, viol_msg);
	out_stats();
	exit(1);
}
static void on_signal (int sig)
{
	static char b[8192];
	static unsigned long last; static int still;
	if (sig == SIGALRM) {
		if (progress != last) { last = progress; still = 0; return; }
		if (++still < 4) return;
		snprintf(viol_msg, sizeof viol_msg, "call does not return");
	}
	else snprintf(viol_msg, sizeof viol_msg, "%s", sig == SIGSEGV || sig == SIGBUS ? "memory access outside of the buffers (fault)" : sig == SIGILL ? "illegal instruction" : sig == SIGTRAP ? "trap" : "arithmetic or abort signal");
	fmt_scn(&cur, b, sizeof b);
	printf("VIOL %s\t%s\n", b, viol_msg);
	out_stats();
	_exit(1);
}

/* ---- buffers ---------------------------------------------------------- */
struct region { u8 *lo, *hi; };
static struct region SRC, DST;
static size_t PG;
static void region_make (struct region *r, size_t n)
{
	n = (n + PG - 1) / PG * PG;
	u8 *p = mmap(NULL, n + 2 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(3); }
	mprotect(p, PG, PROT_NONE); mprotect(p + PG + n, PG, PROT_NONE);
	r->lo = p + PG; r->hi = p + PG + n;
}
#define ROOM 512
static u8 *place (struct region *r, int how, size_t n)
{
	if (how == -1) return r->hi - n;
	if (how == -2) return r->lo;
	return r->lo + ROOM + how;
}

/* ---- one step on the real code, compared with the reference ------------ */
struct pst {		/* product state */
	struct base64_state im;
	struct renc re; struct rdec rd;
};
static u8 *EXP;		/* expected output */

static void chunk_bytes (char op, const struct chunk *c, u8 *d)
{
	if (c->pat < 0) { memcpy(d, c->lit, c->len); return; }
	memcpy(d, (op == 'D' || op == 'd') ? pat_c[c->pat] : pat_b[c->pat], c->len);
	if (c->ep >= 0 && c->ep < c->len) d[c->ep] = (u8) c->ev;
	if (c->ep2 >= 0 && c->ep2 < c->len) d[c->ep2] = (u8) c->ev2;
}

static void cmp_out (int mask, const u8 *o, const u8 *e, size_t n)
{
	if ((mask & M_OUT) && memcmp(o, e, n)) {
		size_t i = 0;
		while (o[i] == e[i]) i++;
		vfail("output byte %zu of %zu is 0x%02x, expected 0x%02x", i, n, o[i], e[i]);
	}
}
static void cmp_mem (const u8 *o, size_t bound, u8 bg, const struct scn *s, const u8 *src, long len, const u8 *keep)
{
	/* Unless the buffer ends at a guard page, there are ROOM bytes around. */
	size_t before = s->dp == -2 ? 0 : s->dp == -1 ? 64 : 128, after = s->dp == -1 ? 0 : 128;
	for (size_t i = 1; i <= before; i++) if (o[-(long) i] != bg) { vfail("byte %zu before the output buffer was written", i); return; }
	for (size_t i = 0; i < after; i++) if (o[bound + i] != bg) { vfail("byte %zu after the output buffer (size %zu) was written", i, bound); return; }
	if (memcmp(src, keep, len)) vfail("input was modified");
}

static u8 *KEEP;
/* Executes one chunk (the last of the scenario, or an earlier one with roomy
 * placement) from *p; updates *p. Returns 0 if a violation was found. */
static int step (const struct scn *s, const struct chunk *c, struct pst *p, int sp, int dp)
{
	struct scn t;
	int mask = s->mask, flag = CODECS[s->codec].flag, ret = 1, eret = 1;
	u8 bg = (u8) s->bg;
	u8 *src = place(&SRC, sp, c->len), *o;
	size_t ol, fl = 0, bound, ek = 0;
	int dead = 0;

	t.sp = sp; t.dp = dp;
	progress++;
	st.calls++;
	chunk_bytes(s->op, c, src);
	if (mask & M_MEM) memcpy(KEEP, src, c->len);
	switch (s->op) {
	case 'E': bound = ((size_t) c->len + 2) / 3 * 4; break;
	case 'D': bound = ref_dec_bound(0, c->len); break;
	case 'e': bound = ref_enc_bound(p->re.pos, c->len); break;
	case 'f': bound = ref_enc_bound(p->re.pos, c->len); break;
	default:  bound = p->rd.mode == R_RUN ? ref_dec_bound(p->rd.pos, c->len) : 0;
	}
	o = place(&DST, dp, bound);
	if (mask & (M_MEM | M_DEAD)) {
		u8 *lo = o - (dp == -2 ? 0 : 128); size_t n = bound + (dp == -2 ? 0 : 128) + (dp == -1 ? 0 : 128);
		memset(lo, bg, n);
	}
	else memset(o, bg, bound);
	ol = (size_t) s->poison;
	UNSET(&ol, sizeof ol); UNSET(o, bound);
	switch (s->op) {
	case 'E': {
		struct renc r = { 0, 0 };
		ek = ref_enc(&r, src, c->len, EXP);
		ek += ref_enc_final(&r, EXP + ek);
		base64_encode((char *) src, c->len, (char *) o, &ol, flag);
		break; }
	case 'D': {
		struct rdec r = { 0, 0, 0 };
		eret = c->len ? ref_dec(&r, src, c->len, EXP, &ek) : 1;
		if (!ref_dec_complete(&r)) eret = 0;
		ret = base64_decode((char *) src, c->len, (char *) o, &ol, flag);
		break; }
	case 'e': case 'f':
		ek = ref_enc(&p->re, src, c->len, EXP);
		base64_stream_encode(&p->im, (char *) src, c->len, (char *) o, &ol);
		break;
	default:
		dead = p->rd.mode >= R_END && c->len > 0;
		eret = c->len ? ref_dec(&p->rd, src, c->len, EXP, &ek) : 1;
		ret = base64_stream_decode(&p->im, (char *) src, c->len, (char *) o, &ol);
		if (c->len == 0 && p->rd.mode != R_RUN) eret = ret;	/* left open by the documentation */
		break;
	}
	IS_SET(&ret, sizeof ret); IS_SET(&ol, sizeof ol); IS_SET(o, ol < bound ? ol : bound); ALL_SET(o, bound);
	st.outcomes |= 1u << (eret & 1) | (ek ? 4u : 8u);
	if ((mask & M_RET) && ret != eret) vfail("returned %d, expected %d", ret, eret);
	if ((mask & M_DEAD) && dead) {
		if (ret != 0) vfail("returned %d on a stream that has ended", ret);
		if (ol != 0) vfail("outlen %zu on a stream that has ended", ol);
		cmp_mem(o, 0, bg, &(struct scn){ .dp = dp }, src, 0, src);
	}
	if ((mask & M_LEN) && ol != ek) vfail("outlen is %zu, expected %zu", ol, ek);
	if ((mask & M_OUT) && (mask & M_LEN)) cmp_out(mask, o, EXP, ek);
	else if (mask & M_OUT) cmp_out(mask, o, EXP, ek < ol ? ek : ol);
	if (mask & M_MEM) cmp_mem(o, bound, bg, &t, src, c->len, KEEP);
	if (s->op == 'f' && !viol_msg[0]) {
		struct base64_state keep = p->im;
		u8 e[4]; size_t en = ref_enc_final(&p->re, e);
		o = place(&DST, dp, en);
		memset(o, bg, en);
		if (mask & M_MEM) memset(o - (dp == -2 ? 0 : 128), bg, en + (dp == -2 ? 0 : 128) + (dp == -1 ? 0 : 128));
		fl = (size_t) s->poison;
		UNSET(&fl, sizeof fl); UNSET(o, en);
		base64_stream_encode_final(&p->im, (char *) o, &fl);
		IS_SET(&fl, sizeof fl); IS_SET(o, fl < en ? fl : en); ALL_SET(o, en);
		if ((mask & M_LEN) && fl != en) vfail("final: outlen is %zu, expected %zu", fl, en);
		if (mask & M_OUT) cmp_out(mask, o, e, en < fl ? en : fl);
		if (mask & M_MEM) cmp_mem(o, en, bg, &t, src, 0, src);
		p->im = keep;	/* final ends the stream */
	}
	return !viol_msg[0];
}
static void start (const struct scn *s, struct pst *p)
{
	memset(p, 0, sizeof *p);
	UNSET(&p->im, sizeof p->im);
	if (s->op == 'd') base64_stream_decode_init(&p->im, CODECS[s->codec].flag);
	else if (s->op != 'E' && s->op != 'D') base64_stream_encode_init(&p->im, CODECS[s->codec].flag);
}
/* All chunks of cur, from a fresh stream. */
static int run_all (struct pst *end)
{
	struct pst p;
	start(&cur, &p);
	for (int i = 0; i < cur.n; i++) {
		int last = i == cur.n - 1;
		if (!step(&cur, &cur.c[i], &p, last ? cur.sp : 0, last ? cur.dp : 0)) return 0;
	}
	if (end) *end = p;
	return 1;
}

/* ---- explored product states ------------------------------------------- */
struct node { struct pst p; struct chunk path[MAXCH - 2]; int n; };
static struct node *nodes; static int nnodes, capnodes, statecap = 6000, capped;

static int same (const struct pst *a, const struct pst *b)
{
	struct base64_state x = a->im, y = b->im;
	ALL_SET(&x, sizeof x); ALL_SET(&y, sizeof y);
	return !memcmp(&x, &y, sizeof x) && !memcmp(&a->re, &b->re, sizeof a->re) && !memcmp(&a->rd, &b->rd, sizeof a->rd);
}
#define HSZ 65536
static int hidx[HSZ];
static uint32_t hpst (const struct pst *p)
{
	struct base64_state im = p->im;
	uint32_t h = 5; const u8 *b = (const u8 *) &im;
	ALL_SET(&im, sizeof im);
	for (size_t i = 0; i < sizeof p->im; i++) h = mix(h ^ b[i]);
	return mix(h ^ (uint32_t) (p->re.pos | p->re.acc << 8) ^ (uint32_t) (p->rd.mode | p->rd.pos << 8 | p->rd.acc << 16));
}
static int add_node (const struct pst *p, const struct node *from, const struct chunk *via)
{
	uint32_t h = hpst(p) % HSZ;
	for (; hidx[h]; h = (h + 1) % HSZ) if (same(&nodes[hidx[h] - 1].p, p)) return 0;
	if (nnodes >= statecap || (from && from->n >= MAXCH - 2)) { capped = 1; return 0; }
	struct node k = { .p = *p };
	if (from) { memcpy(k.path, from->path, sizeof k.path); k.n = from->n; k.path[k.n++] = *via; }
	if (nnodes == capnodes) {
		capnodes = capnodes ? capnodes * 2 : 256;
		nodes = realloc(nodes, capnodes * sizeof *nodes);
	}
	nodes[nnodes++] = k;
	hidx[h] = nnodes;
	st.states++;
	return 1;
}
static void nodes_reset (void) { nnodes = 0; memset(hidx, 0, sizeof hidx); }

/* One transition from node i; nodes may move, so callers index afresh. */
static void tr (int i, const struct chunk *c, int close)
{
	struct pst p = nodes[i].p;
	memcpy(cur.c, nodes[i].path, sizeof (struct chunk) * nodes[i].n);
	cur.n = nodes[i].n;
	cur.c[cur.n++] = *c;
	st.transitions++;
	if (!step(&cur, c, &p, cur.sp, cur.dp)) report();
	if (close) {
		struct node from = nodes[i];
		add_node(&p, &from, c);
	}
}
/* One-shot or fresh-stream single chunk. */
static void one (long len, int pat, long ep, int ev, long ep2, int ev2)
{
	cur.n = 1;
	cur.c[0] = (struct chunk) { .len = len, .pat = pat, .ep = ep, .ev = ev, .ep2 = ep2, .ev2 = ev2 };
	st.transitions++;
	if (!run_all(NULL)) report();
}
static struct chunk lit1 (u8 b) { return (struct chunk) { .len = 1, .pat = -1, .ep = -1, .ep2 = -1, .lit = { b } }; }
static struct chunk pch (long len, int pat, long ep, int ev) { return (struct chunk) { .len = len, .pat = pat, .ep = ep, .ev = ev, .ep2 = -1 }; }

/* Closes the set of product states under all one-byte chunks (a fixpoint, not
 * a depth bound), starting from init; further nodes may be there already. */
static void closure (int from)
{
	for (int i = from; i < nnodes; i++) {
		for (int b = 0; b < 256; b++) { struct chunk c = lit1((u8) b); tr(i, &c, 1); }
		struct chunk z = { .len = 0, .pat = -1, .ep = -1, .ep2 = -1 };
		tr(i, &z, 1);
	}
}
static void init_node (void)
{
	struct pst p;
	start(&cur, &p);
	add_node(&p, NULL, NULL);
}

/* ---- the spaces ------------------------------------------------------- */
static int emu, thorough;
#define NE 900L		/* > 2 * 8 * 48, the longest unrolled encode loop, twice */
#define ND 1200L	/* > 2 * 8 * 64, decode likewise */

static const long BIG[] = { 1024, 2048, 4096, 6144, 8192, 12288, 16384, 20000, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304 };
#define NBIG ((int)(sizeof BIG / sizeof *BIG))
static const u8 VALS[] = { '=', 0xff, 0, '-', 0x80, '\n', '_', '@', '[', '{', '`', ':', '*', '.', 0x7f, 0x2f ^ 0x80, 'A' | 0x80 };

static void bufs_big (void) { region_make(&SRC, 6u << 20); region_make(&DST, 8u << 20); }

static void full_triples (void)
{
	/* Every group of three bytes, 4096 groups a call, at every lane offset. */
	int rots = emu ? (thorough ? 4 : 1) : (thorough ? 32 : 16);
	u8 *src = SRC.lo + ROOM, *o = DST.lo + ROOM;
	for (int rot = 0; rot < rots; rot++) {
		for (uint32_t base = 0; base < 1u << 24; base += 4096) {
			size_t n = 0, ol = 7, fl;
			for (int r = 0; r < rot; r++) { src[n++] = 0; src[n++] = 0; src[n++] = 0; }
			for (uint32_t t = base; t < base + 4096; t++) { src[n++] = (u8) (t >> 16); src[n++] = (u8) (t >> 8); src[n++] = (u8) t; }
			progress++; st.calls++; st.transitions++;
			cur.n = 1; cur.c[0] = (struct chunk) { .len = 6, .pat = -1, .ep = -1, .ep2 = -1, .lit = { (u8) (base >> 16), (u8) (base >> 8), (u8) base, (u8) (base >> 16), (u8) ((base + 4095) >> 8), (u8) (base + 4095) } };
			if (cur.op == 'E') base64_encode((char *) src, n, (char *) o, &ol, CODECS[cur.codec].flag);
			else {
				struct base64_state s;
				base64_stream_encode_init(&s, CODECS[cur.codec].flag);
				base64_stream_encode(&s, (char *) src, n, (char *) o, &ol);
				base64_stream_encode_final(&s, (char *) o, &fl);
				if (fl) ol += 100;
			}
			int bad = ol != n / 3 * 4;
			u8 *q = o + 4 * rot;
			for (uint32_t t = base; !bad && t < base + 4096; t++, q += 4)
				if (q[0] != (u8) ref_alpha[t >> 18] || q[1] != (u8) ref_alpha[(t >> 12) & 63] || q[2] != (u8) ref_alpha[(t >> 6) & 63] || q[3] != (u8) ref_alpha[t & 63]) {
					bad = 1;
					vfail("group 0x%06x at lane %u is encoded as %.4s", t, (unsigned) (rot + (t - base)) % 64, q);
				}
			if (bad) {
				/* Turn it into a scenario that can be replayed: the same
				 * input as pattern "T". */
				static char b[256];
				vfail("outlen is %zu, expected %zu", ol, n / 3 * 4);
				snprintf(b, sizeof b, "triples op=%c codec=%s base=%u rot=%d", cur.op, CODECS[cur.codec].name, base, rot);
				printf("VIOL %s\t%s\n", b, viol_msg);
				out_stats();
				exit(1);
			}
		}
	}
}
static int quads_block (uint32_t base, int rot)
{
	u8 *src = SRC.lo + ROOM, *o = DST.lo + ROOM;
	size_t n = 0, ol = 7;
	int ret;
	memset(src, 'A', 4 * rot); n = 4 * rot;
	for (uint32_t t = base; t < base + 4096; t++) { src[n++] = ref_alpha[t >> 18]; src[n++] = ref_alpha[(t >> 12) & 63]; src[n++] = ref_alpha[(t >> 6) & 63]; src[n++] = ref_alpha[t & 63]; }
	progress++; st.calls++; st.transitions++;
	if (cur.op == 'D') ret = base64_decode((char *) src, n, (char *) o, &ol, CODECS[cur.codec].flag);
	else {
		struct base64_state s;
		base64_stream_decode_init(&s, CODECS[cur.codec].flag);
		ret = base64_stream_decode(&s, (char *) src, n, (char *) o, &ol);
	}
	if (ret != 1) { vfail("returned %d for valid input", ret); return 0; }
	if (ol != n / 4 * 3) { vfail("outlen is %zu, expected %zu", ol, n / 4 * 3); return 0; }
	u8 *q = o + 3 * rot;
	for (uint32_t t = base; t < base + 4096; t++, q += 3)
		if (q[0] != (u8) (t >> 16) || q[1] != (u8) (t >> 8) || q[2] != (u8) t) {
			vfail("group 0x%06x at lane %u is decoded as %02x%02x%02x", t, (unsigned) (rot + (t - base)) % 64, q[0], q[1], q[2]);
			return 0;
		}
	return 1;
}
static void full_quads (void)
{
	int rots = emu ? (thorough ? 4 : 1) : (thorough ? 32 : 16);
	for (int rot = 0; rot < rots; rot++)
		for (uint32_t base = 0; base < 1u << 24; base += 4096)
			if (!quads_block(base, rot)) {
				printf("VIOL quads op=%c codec=%s base=%u rot=%d\t%s\n", cur.op, CODECS[cur.codec].name, base, rot, viol_msg);
				out_stats();
				exit(1);
			}
}

/* Every string over a small alphabet up to a length, in one call. */
static void all_strings (const char *alpha, int na, int maxlen, int nprefix)
{
	/* nprefix: that many valid groups in front, to move the string. */
	for (int len = 0; len <= maxlen; len++) {
		int idx[16] = { 0 };
		for (;;) {
			cur.n = 1;
			cur.c[0] = (struct chunk) { .len = len + 4 * nprefix, .pat = -1, .ep = -1, .ep2 = -1 };
			for (int i = 0; i < 4 * nprefix; i++) cur.c[0].lit[i] = (u8) "Zm9v"[i & 3];
			for (int i = 0; i < len; i++) cur.c[0].lit[4 * nprefix + i] = (u8) alpha[idx[i]];
			st.transitions++;
			if (!run_all(NULL)) report();
			int i = len - 1;
			while (i >= 0 && ++idx[i] == na) idx[i--] = 0;
			if (i < 0) break;
		}
	}
}

static void chk_C01 (void)
{
	cur.op = 'E'; cur.mask = M_LEN | M_OUT; cur.poison = 12345;
	bufs_big();
	for (long n = 0; n <= NE; n++)
		for (int p = 0; p < (emu ? 2 : NPAT); p++)
			for (int a = 0; a < (emu ? 2 : 8); a++) {
				cur.sp = a * 9 % 64; cur.dp = a * 23 % 64; cur.bg = a & 1 ? 0x41 : 0;
				one(n, p, -1, 0, -1, 0);
			}
	/* alignments */
	for (int a = 0; a < 64; a++) for (int d = 0; d < 64; d += emu ? 7 : 1) for (int k = 0; k < (emu ? 2 : 8); k++) {
		cur.sp = a; cur.dp = d; one(200 + 83 * k, 0, -1, 0, -1, 0);
	}
	/* every byte value in every lane over four backgrounds */
	cur.sp = cur.dp = 0;
	for (int len = emu ? 448 : 896; len <= 898; len += 449)
		for (long p = 0; p < len; p++) for (int v = 0; v < 256; v++) for (int b = 2; b < (emu ? 4 : 6); b++)
			one(len, b, p, v, -1, 0);
	for (int i = 0; i < NBIG; i++) for (long d = -4; d <= 4; d++) { if (emu && BIG[i] > 300000) continue; one(BIG[i] + d, 0, -1, 0, -1, 0); }
	full_triples();
}
static void chk_C02 (void)
{
	cur.op = 'D'; cur.mask = M_RET | M_LEN | M_OUT; cur.poison = 12345;
	bufs_big();
	all_strings("A/=b-\x80", 6, emu ? 5 : 8, 0);
	all_strings("z=*9", 4, emu ? 4 : 7, 2);
	if (thorough) all_strings("A/=+9z\n\xff", 8, emu ? 6 : 8, 0);
	/* all lengths; one or two '=' at the end */
	for (long n = 0; n <= ND; n++) for (int p = 0; p < 2; p++) for (int a = 0; a < (emu ? 1 : 4); a++) {
		cur.sp = a * 9 % 64; cur.dp = a * 23 % 64; cur.bg = a & 1 ? 0x41 : 0;
		one(n, p, -1, 0, -1, 0);
		if (n > 0) one(n, p, n - 1, '=', -1, 0);
		if (n > 1) one(n, p, n - 1, '=', n - 2, '=');
		if (n > 2) one(n, p, n - 2, '=', -1, 0);
		if (n > 4) one(n, p, n - 1, '=', n - 5, '=');
	}
	for (int a = 0; a < 64; a++) for (int d = 0; d < 64; d += emu ? 7 : 1) for (int k = 0; k < (emu ? 2 : 8); k++) {
		cur.sp = a; cur.dp = d; one(200 + 84 * k, 0, -1, 0, -1, 0);
	}
	cur.sp = cur.dp = 0; cur.bg = 0;
	/* one bad byte at every place of every length (emulated: of every residual length) */
	for (long n = 1; n <= ND; n++) {
		if (emu && n > 130 && n < ND - 64 && n % 97) continue;
		if (emu && !thorough && n >= ND - 64 && n % 4 && n % 4 != 3) continue;
		for (long p = 0; p < n; p++)
			for (int v = 0; v < (emu ? 2 : 3); v++) one(n, 0, p, VALS[v], -1, 0);
	}
	/* every byte value at every place */
	for (int k = 0; k < (thorough ? 3 : 1); k++)
		for (long n = emu ? 612 : ND, p = 0; p < n - k; p++) for (int v = 0; v < 256; v++) one(n - k, k, p, v, -1, 0);
	/* pairs of bad bytes */
	for (long n = 8; n <= 200; n += 64) for (long p = 0; p < n; p++) for (long q = p + 1; q < n; q++) for (int v = 0; v < 4; v++) {
		if (emu && n > 140) continue;
		one(n, 0, p, VALS[v & 1], q, VALS[v >> 1]);
	}
	for (int i = 0; i < NBIG; i++) for (long d = -4; d <= 4; d++) {
		long n = BIG[i] + d;
		if (emu && BIG[i] > 300000) continue;
		one(n, 0, -1, 0, -1, 0);
		one(n, 0, n - 1, '=', -1, 0);
		one(n, 0, n - 1, '=', n - 2, '=');
		one(n, 0, n - 2 - (d & 3) * 13, '#', -1, 0);
		one(n, 0, n / 2, '=', -1, 0);
	}
	full_quads();
}

/* Representatives for long chunks: a few nodes for every position. */
static int reps (int *out, int max, int per)
{
	int n = 0, cnt[8][4] = { { 0 } };
	for (int i = 0; i < nnodes; i++) {
		int k = cur.op == 'd' ? nodes[i].p.rd.mode : 4, pos = cur.op == 'd' ? nodes[i].p.rd.pos : nodes[i].p.re.pos;
		if (cnt[k][pos]++ < per && n < max) out[n++] = i;
		/* also the last one found, with other carry bits */
	}
	return n;
}
static void splits (long n, int pat)
{
	/* all cuts of one input in two and three */
	for (long a = 0; a <= n; a++) {
		struct chunk c1 = pch(a, pat, -1, 0), c2 = pch(n - a, pat, -1, 0);
		cur.n = 2; cur.c[0] = c1; cur.c[1] = c2;
		st.transitions++;
		if (!run_all(NULL)) report();
	}
}
static void chk_C03 (void)
{
	int r[64], nr;
	cur.op = 'f'; cur.mask = M_LEN | M_OUT; cur.poison = 12345;
	bufs_big();
	init_node();
	closure(0);
	for (int i = 0; i < nnodes; i++)	/* medium chunks from every state */
		for (long n = 2; n <= (emu ? 20 : 60); n++) for (int p = 0; p < 2; p++) { struct chunk c = pch(n, p, -1, 0); tr(i, &c, 1); }
	closure(nnodes);
	nr = reps(r, 64, emu ? 2 : 8);
	for (int k = 0; k < nr; k++)
		for (long n = 0; n <= NE; n++) for (int p = 0; p < (emu ? 1 : NPAT); p++) {
			struct chunk c = pch(n, p, -1, 0);
			cur.sp = n % 64; cur.dp = (n * 7) % 64; cur.bg = n & 1 ? 0x41 : 0;
			int before = nnodes;
			tr(r[k], &c, 1);
			if (nnodes > before) closure(before);
		}
	cur.sp = cur.dp = 0; cur.bg = 0;
	for (int k = 0; k < nr && k < 9; k++)
		for (int i = 0; i < NBIG; i++) for (long d = -3; d <= 3; d++) {
			if ((emu || k > 2) && BIG[i] > 40000) continue;
			struct chunk c = pch(BIG[i] + d, 1, -1, 0); tr(r[k], &c, 0);
		}
	for (long n = 1; n <= (emu ? 200 : NE); n += emu ? 13 : 1) splits(n, 0);
	/* every byte value at every place of a long chunk, from each position */
	for (int k = 0; k < nr && k < (emu ? 3 : 12); k++)
		for (long p = 0; p < 450; p++) for (int v = 0; v < 256; v += emu ? 5 : 1) { struct chunk c = pch(450, 2 + (v & 1), p, v); tr(r[k], &c, 0); }
	if (!emu || thorough) { cur.op = 'e'; full_triples(); }
}
static void dec_space (int mask)
{
	int r[64], nr;
	cur.op = 'd'; cur.mask = mask; cur.poison = 12345;
	bufs_big();
	init_node();
	closure(0);
	for (int i = 0; i < nnodes; i++) {
		/* two bytes at once: all pairs of classes of characters */
		static const u8 cls[] = "A/=+9z-\n\xff\x80Qg";
		for (int a = 0; a < 12; a++) for (int b = 0; b < 12; b++) {
			struct chunk c = { .len = 2, .pat = -1, .ep = -1, .ep2 = -1, .lit = { cls[a], cls[b] } };
			tr(i, &c, 1);
			if (!emu || nodes[i].p.rd.mode == R_RUN) for (int d = 0; d < 12; d += emu ? 3 : 1) {
				struct chunk e = { .len = 3, .pat = -1, .ep = -1, .ep2 = -1, .lit = { cls[a], cls[b], cls[d] } };
				tr(i, &e, 1);
			}
		}
		for (long n = 2; n <= (emu ? 16 : 60); n++) { struct chunk c = pch(n, n & 1, -1, 0); tr(i, &c, 1); }
	}
	nr = reps(r, 64, emu ? 1 : 3);
	for (int k = 0; k < nr; k++) {
		int run = nodes[r[k]].p.rd.mode == R_RUN;
		for (long n = 0; n <= (run ? ND : 100); n++) {
			struct chunk c = pch(n, 0, -1, 0);
			cur.sp = n % 64; cur.dp = (n * 7) % 64; cur.bg = n & 1 ? 0x41 : 0;
			int before = nnodes;
			tr(r[k], &c, 1);
			c = pch(n, 1, -1, 0); tr(r[k], &c, 1);
			if (n > 0) { c = pch(n, 0, n - 1, '='); tr(r[k], &c, 1); }
			if (n > 1) { c.ep2 = n - 2; c.ev2 = '='; tr(r[k], &c, 1); c = pch(n, 0, n - 2, '='); tr(r[k], &c, 1); }
			if (nnodes > before) closure(before);
		}
	}
	cur.sp = cur.dp = 0; cur.bg = 0;
	/* a bad byte at every place of long chunks, from each position; the
	 * stream must stay ended whichever way the error was found */
	for (int k = 0; k < nr; k++) {
		if (nodes[r[k]].p.rd.mode != R_RUN) continue;
		for (long n = 1; n <= ND; n++) {
			if (n > 100 && n < ND - 64 && n % 89) continue;
			if (emu && n > 40 && n % 16 != 5) continue;
			for (long p = 0; p < n; p++) for (int v = 0; v < (emu ? 2 : 4); v++) {
				struct chunk c = pch(n, 0, p, VALS[v]);
				int before = nnodes;
				tr(r[k], &c, 1);
				if (nnodes > before) closure(before);
			}
		}
	}
	for (int k = 0; k < nr && k < (emu ? 4 : 12); k++) {
		if (nodes[r[k]].p.rd.mode != R_RUN) continue;
		for (long p = 0, n = emu ? 580 : 1100; p < n; p++) for (int v = 0; v < 256; v += emu ? 3 : 1) { struct chunk c = pch(n, 1, p, v); tr(r[k], &c, 0); }
	}
	for (int k = 0; k < nr && k < 8; k++) if (nodes[r[k]].p.rd.mode == R_RUN)
		for (int i = 0; i < NBIG; i++) for (long d = -3; d <= 3; d++) {
			if ((emu || k > 3) && BIG[i] > 40000) continue;
			struct chunk c = pch(BIG[i] + d, 1, -1, 0); tr(r[k], &c, 0);
			c = pch(BIG[i] + d, 1, BIG[i] - 5, '!'); tr(r[k], &c, 0);
		}
}
static void chk_C04 (void)
{
	dec_space(M_RET | M_LEN | M_OUT);
	for (long n = 1; n <= (emu ? 200 : ND); n += emu ? 13 : 3) splits(n, 0);
}
static void chk_C05 (void)
{
	int i;
	dec_space(M_DEAD);
	/* Every ended state again, with long and short continuations, in all the
	 * sequences of three. */
	for (i = 0; i < nnodes; i++) {
		if (nodes[i].p.rd.mode < R_END) continue;
		struct chunk alt[] = { lit1('A'), lit1('='), lit1('\n'), lit1(0), pch(4, 0, -1, 0), pch(64, 0, -1, 0), pch(300, 1, -1, 0),
			{ .len = 4, .pat = -1, .ep = -1, .ep2 = -1, .lit = "YQ==" }, { .len = 2, .pat = -1, .ep = -1, .ep2 = -1, .lit = "==" },
			{ .len = 0, .pat = -1, .ep = -1, .ep2 = -1 } };
		int na = sizeof alt / sizeof *alt;
		for (int a = 0; a < na; a++) for (int b = 0; b < na; b++) for (int c = 0; c < na; c++) {
			struct pst p = nodes[i].p;
			memcpy(cur.c, nodes[i].path, sizeof (struct chunk) * nodes[i].n);
			cur.n = nodes[i].n;
			struct chunk *q[3] = { &alt[a], &alt[b], &alt[c] };
			for (int k = 0; k < 3 && cur.n < MAXCH; k++) {
				cur.c[cur.n++] = *q[k];
				st.transitions++;
				if (!step(&cur, q[k], &p, 0, 0)) report();
			}
		}
	}
}
static void mem_space (int op)
{
	int r[64], nr = 0, dec = op == 'd' || op == 'D';
	cur.op = (char) op;
	nodes_reset();
	if (op == 'd' || op == 'f') {
		init_node();
		int m = cur.mask; cur.mask = 0; closure(0); cur.mask = m;
		nr = reps(r, 64, 1);
	}
	else { struct pst p; start(&cur, &p); add_node(&p, NULL, NULL); r[nr++] = 0; }
	for (int k = 0; k < nr; k++)
		for (int pl = 0; pl < 4; pl++)
			for (long n = 0; n <= (dec ? ND : NE); n++) {
				if (dec && op == 'd' && nodes[r[k]].p.rd.mode != R_RUN && n > 100) break;
				cur.sp = pl & 1 ? -2 : -1; cur.dp = pl & 2 ? -2 : -1; cur.bg = n & 1 ? 0xa5 : 0x3c;
				struct chunk c = pch(n, 0, -1, 0);
				tr(r[k], &c, 0);
				if (dec) {
					if (n > 0) { c = pch(n, 0, n - 1, '='); tr(r[k], &c, 0); }
					if (n > 1) { c = pch(n, 0, n - 1, '='); c.ep2 = n - 2; c.ev2 = '='; tr(r[k], &c, 0); }
					if (n > 2) { c = pch(n, 0, n - 3, '='); tr(r[k], &c, 0); }
				}
			}
	/* roomy, all alignments, canaries on both sides */
	for (int k = 0; k < nr; k++)
		for (int a = 0; a < 64; a += 1) for (long n = 0; n <= (emu ? 700 : 520); n += emu ? 9 : 1) {
			struct chunk c = pch(n, 0, -1, 0);
			cur.sp = a; cur.dp = (a * 13 + 5) % 64; cur.bg = 0x5a;
			tr(r[k], &c, 0);
		}
	/* a bad byte at every place */
	if (dec) for (int k = 0; k < nr; k++) {
		if (op == 'd' && nodes[r[k]].p.rd.mode != R_RUN) continue;
		for (long n = 1; n <= 700; n++) {
			if (emu && n > 40 && n % 31) continue;
			if (!emu && n > 330 && n % 17) continue;
			for (long p = 0; p < n; p++) for (int v = 0; v < 2; v++) {
				struct chunk c = pch(n, 0, p, VALS[v]);
				cur.sp = v ? -1 : -2; cur.dp = (p & 1) ? -1 : -2; cur.bg = 0xc3;
				tr(r[k], &c, 0);
				if (!emu) { cur.dp = (p & 1) ? -2 : -1; tr(r[k], &c, 0); }
			}
		}
	}
}
static void chk_C06 (void)
{
	cur.mask = M_MEM; cur.poison = 12345;
	region_make(&SRC, 32768); region_make(&DST, 32768);
	mem_space('E'); mem_space('D'); mem_space('f'); mem_space('d');
}
static void chk_C16 (void)
{
	static const int ops[] = { 'E', 'D', 'f', 'd' };
	static const int poi[] = { 0, 1, 0x7ffffff0, -1 };
	bufs_big();
	for (int k = 0; k < 4; k++) {
		cur.op = (char) ops[k];
		int dec = cur.op == 'd' || cur.op == 'D';
		for (int q = 0; q < 4; q++) {
			cur.poison = poi[q]; cur.bg = q & 1 ? 0xff : 0;
			cur.mask = M_LEN | M_OUT;
			nodes_reset();
			init_node();
			if (cur.op == 'f' || cur.op == 'd') closure(0);
			for (int i = 0; i < nnodes; i++) for (long n = 0; n <= 70; n++) {
				if (emu && n % 5 && n > 8) continue;
				struct chunk c = pch(n, 0, -1, 0); tr(i, &c, 0);
				if (dec && n > 0) { c = pch(n, 0, n - 1, '='); tr(i, &c, 0); c = pch(n, 0, n / 2, '!'); tr(i, &c, 0); c = pch(n, 0, n - 1, '='); c.ep2 = n - 2; c.ev2 = '='; tr(i, &c, 0); }
			}
			for (long n = 71; n <= ND; n += emu ? 7 : 1) {
				struct chunk c = pch(n, 0, -1, 0); tr(0, &c, 0);
				if (dec) { c = pch(n, 0, n - 1, '='); tr(0, &c, 0); c = pch(n, 0, n * 5 / 7, '-'); tr(0, &c, 0); }
			}
			/* codecs that are not in the build */
		}
	}
}
/* A digest of C01 to C04, for many builds. */
static void chk_C19 (void)
{
	int r[64], nr;
	bufs_big();
	cur.poison = 12345;
	for (int k = 0; k < 4; k++) {
		cur.op = "EDfd"[k]; cur.mask = M_RET | M_LEN | M_OUT;
		int dec = k & 1, stream = k > 1;
		nodes_reset(); init_node();
		r[0] = 0; nr = 1;
		if (stream) { closure(0); nr = reps(r, 64, 1); }
		for (int q = 0; q < nr; q++) for (long n = 0; n <= 420; n += stream && n > 140 ? 7 : 1) {
			struct chunk c = pch(n, 0, -1, 0); tr(r[q], &c, 0);
			c = pch(n, 1, -1, 0); tr(r[q], &c, 0);
			if (!dec) continue;
			if (n > 0) { c = pch(n, 0, n - 1, '='); tr(r[q], &c, 0); c = pch(n, 0, n / 2, '!'); tr(r[q], &c, 0); }
			if (n > 1) { c = pch(n, 0, n - 1, '='); c.ep2 = n - 2; c.ev2 = '='; tr(r[q], &c, 0); }
		}
		/* every byte value in every lane */
		if (!stream) for (long p = 0, n = dec ? 200 : 150; p < n; p++) for (int v = 0; v < 256; v++) { struct chunk c = pch(n, 2, p, v); tr(0, &c, 0); }
	}
}
static int is_avail (const char *avail, const char *name)
{
	char b[300], n[40];
	snprintf(b, sizeof b, ",%s,", avail); snprintf(n, sizeof n, ",%s,", name);
	return strstr(b, n) != NULL;
}
/* Codecs that are not in the build: -1, no output, outlen 0, nothing written. */
static int stub_case (int codec, int op, long n, int poison)
{
	size_t ol = (size_t) poison; int ret = -1;
	struct base64_state s;
	u8 *src = place(&SRC, 0, n), *o = place(&DST, 0, n * 2);
	memset(o - 64, 0x77, n * 2 + 128);
	memcpy(src, pat_c[0], n);
	memset(&s, 0, sizeof s);
	st.transitions++; st.calls++; progress++;
	switch (op) {
	case 'E': base64_encode((char *) src, n, (char *) o, &ol, CODECS[codec].flag); break;
	case 'D': ret = base64_decode((char *) src, n, (char *) o, &ol, CODECS[codec].flag); break;
	case 'f': base64_stream_encode_init(&s, CODECS[codec].flag); base64_stream_encode(&s, (char *) src, n, (char *) o, &ol);
		if (ol == 0) { ol = (size_t) poison; base64_stream_encode_final(&s, (char *) o, &ol); } break;
	case 'd': base64_stream_decode_init(&s, CODECS[codec].flag); ret = base64_stream_decode(&s, (char *) src, n, (char *) o, &ol); break;
	}
	if (ol != 0) vfail("outlen is %zu with a codec that is not in the build", ol);
	if (ret != -1) vfail("returned %d with a codec that is not in the build", ret);
	for (long i = -64; i < n * 2 + 64; i++) if (o[i] != 0x77) { vfail("output was written with a codec that is not in the build"); break; }
	return !viol_msg[0];
}
static void stubs (const char *avail)
{
	static const int ops[] = { 'E', 'D', 'f', 'd' }, poi[] = { 0, 9, -1 };
	static const long len[] = { 0, 1, 2, 3, 4, 5, 63, 64, 100, 1000, 30000 };
	for (int c = 1; c < NCODECS; c++) {
		if (is_avail(avail, CODECS[c].name)) continue;
		for (int k = 0; k < 4; k++) for (int q = 0; q < 3; q++) for (int l = 0; l < 11; l++)
			if (!stub_case(c, ops[k], len[l], poi[q])) {
				printf("VIOL stub codec=%s op=%c len=%ld poison=%d\t%s\n", CODECS[c].name, ops[k], len[l], poi[q], viol_msg);
				out_stats();
				exit(1);
			}
	}
}

int main (int argc, char **argv)
{
	PG = (size_t) sysconf(_SC_PAGESIZE);
	ref_setup();
	setvbuf(stdout, NULL, _IOLBF, 0);
	int ss[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGALRM };
	static u8 alt[65536];
	stack_t sst = { .ss_sp = alt, .ss_size = sizeof alt };
	sigaltstack(&sst, NULL);
	for (int i = 0; i < 7; i++) { struct sigaction sa = { .sa_handler = on_signal, .sa_flags = SA_ONSTACK | SA_RESTART }; sigaction(ss[i], &sa, NULL); }
	struct itimerval it = { { 15, 0 }, { 15, 0 } };
	setitimer(ITIMER_REAL, &it, NULL);
	EXP = malloc(9u << 20); KEEP = malloc(7u << 20);

	if (argc >= 3 && !strcmp(argv[1], "replay")) {
		char op, name[32]; unsigned base; int rot, poison; long len;
		int pure = 0;
		pats_setup(5u << 20);
		bufs_big();
		cur.mask = 255;
		if (sscanf(argv[2], "triples op=%c codec=%31s base=%u rot=%d", &op, name, &base, &rot) == 4 ||
		    (pure = sscanf(argv[2], "quads op=%c codec=%31s base=%u rot=%d", &op, name, &base, &rot) == 4)) {
			cur.op = op;
			for (int i = 0; i < NCODECS; i++) if (!strcmp(name, CODECS[i].name)) cur.codec = i;
			if (pure) quads_block(base, rot);
			else {
				emu = 1; full_triples();	/* exits with VIOL if it is still there */
				emu = 0; if (rot) full_triples();
			}
		}
		else if (sscanf(argv[2], "stub codec=%31s op=%c len=%ld poison=%d", name, &op, &len, &poison) == 4) {
			for (int i = 0; i < NCODECS; i++) if (!strcmp(name, CODECS[i].name)) stub_case(i, op, len, poison);
		}
		else {
			if (!parse_scn(&cur, argv[2])) { fprintf(stderr, "cannot parse scenario\n"); return 3; }
			struct pst p;
			start(&cur, &p);
			for (int i = 0; i < cur.n; i++) {
				int last = i == cur.n - 1;
				if (!step(&cur, &cur.c[i], &p, last ? cur.sp : 0, last ? cur.dp : 0)) break;
				printf("chunk %d: ok\n", i);
			}
		}
		if (viol_msg[0]) { printf("VIOL %s\t%s\n", argv[2], viol_msg); return 1; }
		printf("no violation\n");
		return 0;
	}
	if (argc < 7 || strcmp(argv[1], "explore")) { fprintf(stderr, "usage\n"); return 3; }
	const char *check = argv[2];
	thorough = !strcmp(argv[3], "thorough");
	for (int i = 0; i < NCODECS; i++) if (!strcmp(argv[4], CODECS[i].name)) cur.codec = i;
	emu = atoi(argv[6]);
	pats_setup(emu ? 600000 : 5u << 20);
	if (!strcmp(argv[4], "stubs")) { bufs_big(); stubs(argv[5]); }
	else if (!strcmp(check, "C01")) chk_C01();
	else if (!strcmp(check, "C02")) chk_C02();
	else if (!strcmp(check, "C03")) chk_C03();
	else if (!strcmp(check, "C04")) chk_C04();
	else if (!strcmp(check, "C05")) chk_C05();
	else if (!strcmp(check, "C06")) chk_C06();
	else if (!strcmp(check, "C16")) chk_C16();
	else if (!strcmp(check, "C19")) chk_C19();
	else return 3;
	(void) samples;
	static char b[8192];
	fmt_scn(&cur, b, sizeof b);
	printf("SAMPLE %s\n", b);
	if (capped) printf("STAT capped 1\n");
	printf("STAT outcomes %d\n", __builtin_popcount(st.outcomes));
	out_stats();
	printf("DONE\n");
	return 0;
}
