/* C08: which codec carries out a call, after any history of calls with any
 * flags. The real lib.c, codec_choose.c and lib_openmp.c; the codecs are
 * stand-ins that record what they were given.
 * usage: codecflag explore DEFAULT [CPU]    |   codecflag replay DEFAULT [CPU] ACTIONS */
#define _GNU_SOURCE
#include <signal.h>
#include "libbase64.h"
#include "bfs.h"
#ifdef TRAPCPU
#include <ucontext.h>
#include <unistd.h>
#endif

enum { DEF, PLAIN, SSSE3, SSE41, SSE42, AVX, AVX2, AVX512, NEON32, NEON64, NF };
static const char *names[NF] = { "default", "plain", "ssse3", "sse41", "sse42", "avx", "avx2", "avx512", "neon32", "neon64" };
static const int flags[NF] = { 0, BASE64_FORCE_PLAIN, BASE64_FORCE_SSSE3, BASE64_FORCE_SSE41, BASE64_FORCE_SSE42, BASE64_FORCE_AVX,
	BASE64_FORCE_AVX2, BASE64_FORCE_AVX512, BASE64_FORCE_NEON32, BASE64_FORCE_NEON64 };

/* what the stand-ins saw */
static unsigned seen_enc, seen_dec; static unsigned long ncalls;
static const void *want_src; static size_t want_len; static const void *want_st; static void *want_out;
static int rv, argbad, big;
static void rec(int id, unsigned *seen, struct base64_state *st, const char *s, size_t l, char *o)
{
	__atomic_fetch_or(seen, 1u << id, __ATOMIC_SEQ_CST);
	__atomic_fetch_add(&ncalls, 1, __ATOMIC_SEQ_CST);
	if (!big && (s != want_src || l != want_len || o != want_out || (want_st && st != want_st))) argbad = 1;
	if (want_st && st == want_st) st->bytes = (st->bytes + 1) % 3;          /* the dispatch may look at the state, too */
}
#define REC(n, id) \
void base64_stream_encode_##n(struct base64_state *st, const char *s, size_t l, char *o, size_t *ol) { rec(id, &seen_enc, st, s, l, o); *ol = big ? l / 3 * 4 : 7; } \
int base64_stream_decode_##n(struct base64_state *st, const char *s, size_t l, char *o, size_t *ol) { rec(id, &seen_dec, st, s, l, o); *ol = big ? l / 4 * 3 : 5; return rv; }
REC(plain, PLAIN) REC(ssse3, SSSE3) REC(sse41, SSE41) REC(sse42, SSE42) REC(avx, AVX) REC(avx2, AVX2) REC(avx512, AVX512)
REC(neon32, NEON32) REC(neon64, NEON64)

static int def_id;
#ifdef TRAPCPU
static int level;       /* 0 no SIMD .. 6 AVX512 */
static void cpuid(uint32_t leaf, uint32_t sub, uint32_t r[4])
{
	r[0] = r[1] = r[2] = r[3] = 0;
	if (leaf == 0) r[0] = 7;
	if (leaf == 1) { r[2] = (level >= 1 ? 1u<<9|1 : 0) | (level >= 2 ? 1u<<19 : 0) | (level >= 3 ? 1u<<20|1u<<23 : 0) | (level >= 4 ? 1u<<26|1u<<27|1u<<28 : 0); r[3] = 0x07808111u; }
	if (leaf == 7 && !sub) { r[1] = (level >= 5 ? 1u<<5 : 0) | (level >= 6 ? 1u<<31|1u<<16|1u<<30|1u<<17|1u<<28 : 0); r[2] = level >= 6 ? 2 : 0; }
}
#ifdef __x86_64__
#define R(n) uc->uc_mcontext.gregs[REG_R##n]
#else
#define R(n) uc->uc_mcontext.gregs[REG_E##n]
#endif
static void trap(int sig, siginfo_t *si, void *ctx)
{
	ucontext_t *uc = ctx;
	uint8_t *pc = (uint8_t *)(uintptr_t)R(IP);
	if (pc[0] == 0x0f && pc[1] == 0x0b) {
		uint32_t r[4];
		cpuid((uint32_t)R(AX), (uint32_t)R(CX), r);
		R(AX) = r[0]; R(BX) = r[1]; R(CX) = r[2]; R(DX) = r[3]; R(IP) += 2;
		return;
	}
	if (pc[0] == 0x0f && pc[1] == 0xff) { R(AX) = level >= 6 ? 0xe7 : level >= 4 ? 7 : 3; R(DX) = 0; R(IP) += 3; return; }
	_exit(9);
}
#endif

#define NS 2
static struct all {
	struct base64_state st[NS];
	int kind[NS];           /* 0 none, 1 encoder, 2 decoder */
	int f[NS];
} A;
static char in[40000], out[80000];

/* actions: 0..2*NS*NF-1 inits; then per stream: run with rv 1, 0, -1 / run, final; then one-shots */
enum { A_INIT = 0, A_RUN = 2 * NS * NF, A_COPY = A_RUN + 3 * NS, A_ENC = A_COPY + NS, A_DEC = A_ENC + NF, A_BIGE = A_DEC + 3 * NF, A_BIGD = A_BIGE + NF, NACT_BIG = A_BIGD + NF };
static int nact;
static const char *act_name(int a)
{
	static char b[100];
	if (a < A_RUN) sprintf(b, "%s init %s on stream %d", a % (2 * NF) < NF ? "encode" : "decode", names[a % NF], a / (2 * NF));
	else if (a < A_COPY) sprintf(b, "run stream %d (%d)", (a - A_RUN) / 3, (a - A_RUN) % 3);
	else if (a < A_ENC) sprintf(b, "copy stream %d to the other", a - A_COPY);
	else if (a < A_DEC) sprintf(b, "one-shot encode %s", names[a - A_ENC]);
	else if (a < A_BIGE) sprintf(b, "one-shot decode %s (%d)", names[(a - A_DEC) % NF], (a - A_DEC) / NF);
	else if (a < A_BIGD) sprintf(b, "one-shot encode of 24000 bytes %s", names[a - A_BIGE]);
	else sprintf(b, "one-shot decode of 24000 bytes %s", names[a - A_BIGD]);
	return b;
}
static int want(int f) { return f == DEF ? def_id : f; }
static int judge(const char *what, int f, int enc, int ran)
{
	unsigned s = enc ? seen_enc : seen_dec, o = enc ? seen_dec : seen_enc;
	if (o) { snprintf(bfs_msg, sizeof bfs_msg, "%s with the %s flag runs %s", what, names[f], enc ? "a decoder" : "an encoder"); return -1; }
	if (!ran) { if (s) { snprintf(bfs_msg, sizeof bfs_msg, "%s runs a codec", what); return -1; } return 1; }
	if (s != 1u << want(f)) {
		int i; for (i = 0; i < NF; i++) if (i != want(f) && s >> i & 1) break;
		snprintf(bfs_msg, sizeof bfs_msg, "%s with the %s flag is carried out by %s instead of %s", what, names[f], i < NF ? names[i] : "no codec", names[want(f)]);
		return -1;
	}
	if (!big && ncalls != 1) { snprintf(bfs_msg, sizeof bfs_msg, "%s runs the codec %lu times", what, ncalls); return -1; }
	if (argbad) { snprintf(bfs_msg, sizeof bfs_msg, "%s hands other arguments to the codec", what); return -1; }
	return 1;
}
static int apply(int a)
{
	size_t ol = 12345;
	seen_enc = seen_dec = 0; ncalls = 0; argbad = 0; big = 0; rv = 1;
	want_src = in; want_out = out; want_len = 3; want_st = NULL;
	bfs_calls++;
	if (a < A_RUN) {
		int s = a / (2 * NF), e = a % (2 * NF) < NF, f = a % NF;
		if (e) base64_stream_encode_init(&A.st[s], flags[f]); else base64_stream_decode_init(&A.st[s], flags[f]);
		A.kind[s] = e ? 1 : 2; A.f[s] = f;
		return judge("init", f, e, 0);
	}
	if (a < A_COPY) {
		int s = (a - A_RUN) / 3, v = (a - A_RUN) % 3;
		if (!A.kind[s]) return 0;
		want_st = &A.st[s];
		if (A.kind[s] == 1) {
			if (v == 2) return 0;
			if (v == 1) { base64_stream_encode_final(&A.st[s], out, &ol); return judge("stream encode final", A.f[s], 1, 0); }
			base64_stream_encode(&A.st[s], in, 3, out, &ol);
			if (judge("stream encode", A.f[s], 1, 1) < 0) return -1;
			if (ol != 7) { snprintf(bfs_msg, sizeof bfs_msg, "stream encode changes the codec's output length"); return -1; }
			return 1;
		}
		rv = 1 - v;
		int r = base64_stream_decode(&A.st[s], in, 3, out, &ol);
		if (judge("stream decode", A.f[s], 0, 1) < 0) return -1;
		if (ol != 5 || r != rv) { snprintf(bfs_msg, sizeof bfs_msg, "stream decode does not pass on the codec's result (%d instead of %d)", r, rv); return -1; }
		return 1;
	}
	if (a < A_ENC) { int s = a - A_COPY; A.st[!s] = A.st[s]; A.kind[!s] = A.kind[s]; A.f[!s] = A.f[s]; return 1; }
	if (a < A_DEC) { base64_encode(in, 3, out, &ol, flags[a - A_ENC]); return judge("one-shot encode", a - A_ENC, 1, 1); }
	if (a < A_BIGE) {
		int f = (a - A_DEC) % NF;
		rv = 1 - (a - A_DEC) / NF;
		int r = base64_decode(in, 3, out, &ol, flags[f]);
		if (judge("one-shot decode", f, 0, 1) < 0) return -1;
		if (r != rv) { snprintf(bfs_msg, sizeof bfs_msg, "one-shot decode returns %d when the codec returns %d", r, rv); return -1; }
		return 1;
	}
	big = 1;
	if (a < A_BIGD) { base64_encode(in, 24000, out, &ol, flags[a - A_BIGE]); return judge("one-shot encode of 24000 bytes", a - A_BIGE, 1, 1); }
	base64_decode(in, 24000, out, &ol, flags[a - A_BIGD]);
	return judge("one-shot decode of 24000 bytes", a - A_BIGD, 0, 1);
}
int main(int argc, char **argv)
{
	int i = 2, rep = !strcmp(argv[1], "replay");
	char tag[50] = "";
	for (def_id = 1; def_id < NF && strcmp(names[def_id], argv[2]); def_id++) ;
	i = 3;
#ifdef TRAPCPU
	struct sigaction sa = {0};
	sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	sigaction(SIGILL, &sa, NULL);
	level = def_id - 1;
#endif
	memset(in, 'A', sizeof in);
	bfs_init(&A, sizeof A);
	if (rep) return bfs_replay(argv[i]);
	return bfs_run(NACT_BIG, 300000, tag);
}
