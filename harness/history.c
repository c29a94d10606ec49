/* C09: all histories of calls on two streams and one-shot calls, with the
 * real codecs. usage: history explore FLAG:AVAIL,... | history replay FLAG:AVAIL,... ACTIONS */
#define _GNU_SOURCE
#include "libbase64.h"
#include "ref.h"
#include "bfs.h"

static const struct { const char *name; int flag; } CODECS[] = {
	{ "default", 0 }, { "plain", BASE64_FORCE_PLAIN }, { "ssse3", BASE64_FORCE_SSSE3 },
	{ "sse41", BASE64_FORCE_SSE41 }, { "sse42", BASE64_FORCE_SSE42 }, { "avx", BASE64_FORCE_AVX },
	{ "avx2", BASE64_FORCE_AVX2 }, { "avx512", BASE64_FORCE_AVX512 },
	{ "neon32", BASE64_FORCE_NEON32 }, { "neon64", BASE64_FORCE_NEON64 },
};
#define NC 10
static int nf, fl[NC], avail[NC];       /* the flags that take part */

#define NS 2
static struct all {
	struct base64_state st[NS];
	struct renc e[NS];
	struct rdec d[NS];
	uint8_t kind[NS];       /* 0 nothing usable, 1 encoder, 2 decoder */
	uint8_t f[NS];
} A;

#define L 170
struct ch { const char *s; int n; };
static char lv[L + 1], lbad[L + 1], lpad[L + 1], lend[L + 1], lb[L + 1];
static struct ch ech[] = { {"", 0}, {"\0", 1}, {"\xff", 1}, {"\xab\xcd", 2}, {"abc", 3}, {lb, L} };
static struct ch dch[] = { {"A", 1}, {"/", 1}, {"zQ", 2}, {"QUJD", 4}, {"=", 1}, {"==", 2}, {"!", 1}, {"Q!", 2}, {lv, 168}, {lv, 130}, {lbad, 168}, {lpad, 168}, {lend, 168} };
static struct ch oe[] = { {"", 0}, {"\xfe", 1}, {"hello", 5}, {lb, L} };
static struct ch od[] = { {"", 0}, {"QUI=", 4}, {"Qf==", 4}, {"Q!==", 4}, {"====", 4}, {lv, 168},
	/* cut short, with all bits of the last character set */
	{"/", 1}, {"Q/", 2}, {"QU/", 3}, {"QUI/f", 5}, {lv, 131}, {lend, 168}, {lbad, 168} };
#define N(a) (int)(sizeof a / sizeof *a)
#define ABS(x) ((x) < 0 ? -(x) : (x))

static int a_per, a_one, nact;
static int o_fill, o_init, o_ench, o_fin, o_dech, o_copy;
static void layout(void)
{
	o_fill = 0; o_init = 3; o_ench = o_init + 2 * nf; o_fin = o_ench + N(ech); o_dech = o_fin + 1; o_copy = o_dech + N(dch); a_per = o_copy + 1;
	a_one = a_per * NS;
	nact = a_one + nf * (N(oe) + N(od));
}
static const char *shortstr(struct ch c)
{
	static char b[60]; int k = 0;
	if (c.n > 12) { sprintf(b, "%d bytes%s", c.n, c.s == lbad ? " with a bad one" : c.s == lpad ? " with padding inside" : c.s == lend ? " with padding at the end" : ""); return b; }
	b[0] = 0;
	for (int i = 0; i < c.n; i++) k += sprintf(b + k, c.s[i] > 32 && c.s[i] < 127 ? "%c" : "\\x%02x", (uint8_t)c.s[i]);
	return b;
}
static const char *act_name(int a)
{
	static char b[200];
	if (a < a_one) {
		int s = a / a_per; a %= a_per;
		if (a < o_init) sprintf(b, "fill stream %d's state with %s", s, a == 0 ? "00" : a == 1 ? "ff" : "5a");
		else if (a < o_ench) sprintf(b, "%s init %s on stream %d", a - o_init < nf ? "encode" : "decode", CODECS[fl[(a - o_init) % nf]].name, s);
		else if (a < o_fin) sprintf(b, "encode '%s' on stream %d", shortstr(ech[a - o_ench]), s);
		else if (a < o_dech) sprintf(b, "finish stream %d", s);
		else if (a < o_copy) sprintf(b, "decode '%s' on stream %d", shortstr(dch[a - o_dech]), s);
		else sprintf(b, "copy stream %d to the other", s);
	} else {
		a -= a_one;
		int f = a / (N(oe) + N(od)), k = a % (N(oe) + N(od));
		if (k < N(oe)) sprintf(b, "one-shot encode %s '%s'", CODECS[fl[f]].name, shortstr(oe[k]));
		else sprintf(b, "one-shot decode %s '%s'", CODECS[fl[f]].name, shortstr(od[k - N(oe)]));
	}
	return b;
}
static uint8_t out[1024], ref[1024];
static int bad(const char *what, int f, long got, long want)
{
	snprintf(bfs_msg, sizeof bfs_msg, "%s (%s): %ld instead of %ld", what, CODECS[fl[f]].name, got, want);
	return -1;
}
static int cmp(const char *what, int f, size_t ol, size_t k)
{
	if (ol != k) return bad(what, f, ol, k);
	for (size_t i = 0; i < k; i++) if (out[i] != ref[i]) { snprintf(bfs_msg, sizeof bfs_msg, "%s (%s): output byte %zu is %02x instead of %02x", what, CODECS[fl[f]].name, i, out[i], ref[i]); return -1; }
	return 1;
}
static int apply(int a)
{
	size_t ol = 777, k = 0; int r, w;
	bfs_calls++;
	memset(out, 0xc5, 64);
	if (a < a_one) {
		int s = a / a_per; a %= a_per;
		if (a < o_init) { A.kind[s] = 0; A.f[s] = 0; memset(&A.e[s], 0, sizeof A.e[s]); memset(&A.d[s], 0, sizeof A.d[s]); memset(&A.st[s], a == 0 ? 0 : a == 1 ? 0xff : 0x5a, sizeof A.st[s]); return 1; }
		if (a < o_ench) {
			int f = (a - o_init) % nf, e = a - o_init < nf;
			if (e) base64_stream_encode_init(&A.st[s], CODECS[fl[f]].flag); else base64_stream_decode_init(&A.st[s], CODECS[fl[f]].flag);
			memset(&A.e[s], 0, sizeof A.e[s]); memset(&A.d[s], 0, sizeof A.d[s]);
			A.kind[s] = e ? 1 : 2; A.f[s] = f;
			return 1;
		}
		if (a < o_fin) {
			if (A.kind[s] != 1) return 0;
			struct ch c = ech[a - o_ench];
			base64_stream_encode(&A.st[s], c.s, c.n, (char *)out, &ol);
			if (avail[A.f[s]]) k = ref_enc(&A.e[s], (const uint8_t *)c.s, c.n, ref);
			return cmp("stream encode", A.f[s], ol, k);
		}
		if (a < o_dech) {
			if (A.kind[s] != 1) return 0;
			base64_stream_encode_final(&A.st[s], (char *)out, &ol);
			if (avail[A.f[s]]) k = ref_enc_final(&A.e[s], ref);
			A.kind[s] = 0; memset(&A.e[s], 0, sizeof A.e[s]);
			return cmp("stream encode final", A.f[s], ol, k);
		}
		if (a < o_copy) {
			if (A.kind[s] != 2) return 0;
			struct ch c = dch[a - o_dech];
			r = base64_stream_decode(&A.st[s], c.s, c.n, (char *)out, &ol);
			if (avail[A.f[s]]) w = ref_dec(&A.d[s], (const uint8_t *)c.s, c.n, ref, &k); else w = -1;
			if (r != w) return bad("verdict of stream decode", A.f[s], r, w);
			return cmp("stream decode", A.f[s], ol, k);
		}
		A.st[!s] = A.st[s]; A.e[!s] = A.e[s]; A.d[!s] = A.d[s]; A.kind[!s] = A.kind[s]; A.f[!s] = A.f[s];
		return 1;
	}
	a -= a_one;
	int f = a / (N(oe) + N(od)), i = a % (N(oe) + N(od));
	struct renc e = {0}; struct rdec d = {0};
	if (i < N(oe)) {
		base64_encode(oe[i].s, oe[i].n, (char *)out, &ol, CODECS[fl[f]].flag);
		if (avail[f]) { k = ref_enc(&e, (const uint8_t *)oe[i].s, oe[i].n, ref); k += ref_enc_final(&e, ref + k); }
		return cmp("one-shot encode", f, ol, k);
	}
	i -= N(oe);
	r = base64_decode(od[i].s, od[i].n, (char *)out, &ol, CODECS[fl[f]].flag);
	if (avail[f]) { w = 1; if (od[i].n) w = ref_dec(&d, (const uint8_t *)od[i].s, od[i].n, ref, &k); w = w && ref_dec_complete(&d); }
	else w = -1;
	if (r != w) return bad("verdict of one-shot decode", f, r, w);
	return cmp("one-shot decode", f, ol, k);
}
int main(int argc, char **argv)
{
	ref_setup();
	for (char *p = strtok(argv[2], ","); p; p = strtok(NULL, ",")) {
		char *c = strchr(p, ':'); *c = 0;
		for (int i = 0; i < NC; i++) if (!strcmp(CODECS[i].name, p)) { fl[nf] = i; avail[nf] = atoi(c + 1); nf++; }
	}
	for (int i = 0; i < L; i++) { lv[i] = lbad[i] = lpad[i] = lend[i] = ref_alpha[i * 7 % 64]; lb[i] = i * 37; }
	lbad[101] = '-'; lpad[102] = lpad[103] = '='; lend[167] = '=';
	layout();
	bfs_init(&A, sizeof A);
	if (!strcmp(argv[1], "replay")) return bfs_replay(argv[3]);
	return bfs_run(nact, 3000000, "");
}
