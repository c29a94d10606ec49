/* C24: the utility, as a process, on streams and files of gigabytes, in constant memory.
 * hugecli explore EXE SCENARIO...   SCENARIO: mode:src:wrap:len:tail
 * hugecli replay SCENARIO-WITH-EXE
 *   mode  enc, dec (newlines), ign (CRLF and junk at each line's end, -i), one (one line, -n)
 *   src   pipe, file (a sparse file: encoding zeros; decoding a few characters far apart, with -i)
 *   wrap  as for -w; line length of what is decoded (0: none)
 *   len   length of the raw data
 *   tail  ok, bad (a character that is not in the alphabet at the end), cut (the last character missing)
 * The input is made and the output is compared as it flows. */
#define _GNU_SOURCE
#define _FILE_OFFSET_BITS 64
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
typedef unsigned long long u64;
#define P (57 * 4096)			/* the raw data repeat after this many bytes */
#define E (P / 3 * 4)
#define MEM 65536			/* KiB that the utility may take */
static unsigned char raw[2 * P], enc[2 * E];
static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static u64 nstates, nbytes;
static char msg[400];

static void fill(int zero)
{
	uint32_t x = 12345;
	for (size_t i = 0; i < P; i++) { x = x * 1664525u + 1013904223u; raw[i] = raw[P + i] = zero ? 0 : x >> 24; }
	for (size_t i = 0; i < P / 3; i++) {
		unsigned v = raw[3 * i] << 16 | raw[3 * i + 1] << 8 | raw[3 * i + 2];
		for (int k = 0; k < 4; k++) enc[4 * i + k] = enc[E + 4 * i + k] = al[v >> (18 - 6 * k) & 63];
	}
}
/* the last group of the encoded text, for raw length len */
static int last(u64 len, char *t)
{
	size_t o = len / 3 * 3 % P; int n = len % 3;
	if (!n) return 0;
	unsigned v = raw[o] << 16 | (n > 1 ? raw[o + 1] << 8 : 0);
	t[0] = al[v >> 18 & 63]; t[1] = al[v >> 12 & 63]; t[2] = n > 1 ? al[v >> 6 & 63] : '='; t[3] = '=';
	return 4;
}

/* A stream of text: encoded characters with newlines (nl) after every wrap characters. */
struct text { u64 len, body, chars, pos, col, wrap; char tail[8]; const char *nl; size_t nlen, nlpos; int innl, endnl; };
static void text_init(struct text *t, u64 rawlen, u64 wrap, const char *nl)
{
	memset(t, 0, sizeof *t);
	t->body = rawlen / 3 * 4; t->chars = t->body + last(rawlen, t->tail); t->wrap = wrap; t->nl = nl; t->nlen = strlen(nl);
}
/* The next piece of at most n bytes: where it is, and its length; 0 at the end. */
static size_t text_next(struct text *t, size_t n, const char **p)
{
	size_t k;
	if (t->innl) {
		k = t->nlen - t->nlpos; if (k > n) k = n;
		*p = t->nl + t->nlpos;
		if ((t->nlpos += k) == t->nlen) t->innl = 0, t->nlpos = 0, t->col = 0;
		return k;
	}
	if (t->pos == t->chars) {
		if (t->wrap && t->col && !t->endnl) { t->endnl = t->innl = 1; return text_next(t, n, p); }
		return 0;
	}
	k = n;
	if (t->wrap && k > t->wrap - t->col) k = t->wrap - t->col;
	if (t->pos < t->body) { if (k > t->body - t->pos) k = t->body - t->pos; if (k > E) k = E; *p = (char *) enc + t->pos % E; }
	else { if (k > t->chars - t->pos) k = t->chars - t->pos; *p = t->tail + (t->pos - t->body); }
	t->pos += k; t->col += k;
	if (t->wrap && t->col == t->wrap) t->innl = 1, t->endnl = t->pos == t->chars;
	return k;
}

static int put(int fd, const char *p, size_t n)
{
	while (n) { ssize_t r = write(fd, p, n); if (r < 0) { if (errno == EINTR) continue; return -1; } p += r; n -= r; }
	return 0;
}
static char wb[1 << 20], rb[1 << 20];
/* Writes the input; the result is the exit status of the writer. */
static int writer(int fd, const char *mode, u64 wrap, u64 len, const char *tail)
{
	size_t n = 0;
	if (!strcmp(mode, "enc")) {
		for (u64 i = 0; i < len; ) { size_t k = len - i < P ? len - i : P; if (put(fd, (char *) raw, k)) return 1; i += k; }
		return 0;
	}
	struct text t; const char *p; size_t k;
	text_init(&t, len, wrap, !strcmp(mode, "ign") ? "\r\n\t \xff!" : "\n");
	u64 left = ~0ull;
	if (!strcmp(tail, "cut")) t.chars--;
	while (left) {
		if (n == sizeof wb) { if (put(fd, wb, n)) return 1; n = 0; }
		if (!(k = text_next(&t, sizeof wb - n, &p))) break;
		memcpy(wb + n, p, k); n += k;
	}
	if (put(fd, wb, n)) return 1;
	if (!strcmp(tail, "bad") && put(fd, "*", 1)) return 1;
	return 0;
}

static int one(const char *exe, const char *scn)
{
	char mode[8], src[8], tail[8], w[32]; u64 wrap, len;
	if (sscanf(scn, "%7[^:]:%7[^:]:%llu:%llu:%7s", mode, src, &wrap, &len, tail) != 5) { fprintf(stderr, "bad scenario %s\n", scn); exit(2); }
	int file = !strcmp(src, "file"), isenc = !strcmp(mode, "enc"), ok = !strcmp(tail, "ok"), in[2], out[2], st;
	fill(file);
	static char path[4200];
	const char *argv[10]; int a = 0;
	argv[a++] = exe;
	sprintf(w, "-w%llu", wrap);
	if (isenc) argv[a++] = w; else argv[a++] = "-d";
	if (!strcmp(mode, "ign")) argv[a++] = "-i";
	if (!strcmp(mode, "one")) argv[a++] = "-n";
	if (file) {
		snprintf(path, sizeof path, "%s/hugecli-XXXXXX", getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp");
		int fd = mkstemp(path);
		if (fd < 0) { perror(path); exit(2); }
		if (ftruncate(fd, len) < 0) { perror("ftruncate"); unlink(path); exit(2); }
		if (!isenc) { /* QUJD, in four places */
			if (pwrite(fd, "Q", 1, 5) != 1 || pwrite(fd, "U", 1, len / 2 - 7) != 1 || pwrite(fd, "J", 1, len / 4 * 3 + 1) != 1 || pwrite(fd, ok ? "D" : "\0", 1, len - 1) != 1) { perror("pwrite"); unlink(path); exit(2); }
		}
		close(fd);
		argv[a++] = path;
		in[0] = open("/dev/null", O_RDONLY); in[1] = -1;
	} else if (pipe(in)) { perror("pipe"); exit(2); }
	argv[a] = NULL;
	if (pipe(out)) { perror("pipe"); exit(2); }
	fcntl(out[0], F_SETPIPE_SZ, 1 << 20); if (!file) fcntl(in[0], F_SETPIPE_SZ, 1 << 20);
	pid_t wp = 0, c;
	if (!file && !(wp = fork())) { close(in[0]); close(out[0]); close(out[1]); signal(SIGPIPE, SIG_DFL); _exit(writer(in[1], mode, wrap, len, tail)); }
	if (!(c = fork())) {
		dup2(in[0], 0); dup2(out[1], 1); for (int i = 3; i < 64; i++) close(i);
		if (!getenv("VERIF_EMU")) { struct rlimit l = { 1 << 30, 1 << 30 }; setrlimit(RLIMIT_AS, &l); }	/* spares the machine */
		execv(exe, (char **) argv); _exit(127);
	}
	close(in[0]); close(out[1]); if (!file) close(in[1]);
	struct text t; u64 pos = 0, want = len;
	const char *why = NULL;
	if (isenc) text_init(&t, len, wrap, "\n");
	if (file && !isenc) want = ok ? 3 : 2;
	const char *p = NULL; size_t k = 0; ssize_t r;
	while ((r = read(out[0], rb, sizeof rb)) > 0) {
		nbytes += r;
		size_t o = 0;
		while (o < (size_t) r && !why) {
			if (isenc) {
				if (!k && !(k = text_next(&t, 1 << 30, &p))) { why = "there is more output than there should be"; break; }
				size_t m = k < r - o ? k : r - o;
				if (memcmp(p, rb + o, m)) why = "the output is wrong";
				o += m; p += m; k -= m; pos += m;
			} else {
				size_t m = r - o; if (m > P) m = P;
				if (pos + m > want) { why = "there is more output than there should be"; break; }
				if (file ? memcmp("ABC" + pos, rb + o, m) : memcmp(raw + pos % P, rb + o, m)) why = "the output is wrong";
				o += m; pos += m;
			}
		}
		if (why) break;
	}
	close(out[0]);
	struct rusage ru;
	if (why) kill(c, SIGKILL);
	wait4(c, &st, 0, &ru);
	if (wp) { int s2; if (why) kill(wp, SIGKILL); waitpid(wp, &s2, 0); }
	if (file) unlink(path);
	if (!why) {
		if (WIFSIGNALED(st)) why = "the utility is killed by a signal";
		else if (WEXITSTATUS(st) == 127) { fprintf(stderr, "cannot run %s\n", exe); exit(2); }
		else if (ok && WEXITSTATUS(st)) why = "the utility fails";
		else if (!ok && !WEXITSTATUS(st)) why = "the utility accepts a broken input";
		else if (ok && (isenc ? k || text_next(&t, 1, &p) != 0 : pos != want)) why = "there is less output than there should be";
		else if (ru.ru_maxrss > MEM) why = "the utility takes memory that grows with its input";
	}
	nstates++;
	if (!why) return 0;
	snprintf(msg, sizeof msg, "%s (after %llu bytes; status %d; %ld KiB)", why, pos, WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st), ru.ru_maxrss);
	printf("VIOL %s@%s\t%s\n", scn, exe, msg);
	return 1;
}

int main(int argc, char **argv)
{
	signal(SIGPIPE, SIG_IGN);
	setvbuf(stdout, NULL, _IOLBF, 0);
	if (argc == 3 && !strcmp(argv[1], "replay")) {
		char *at = strchr(argv[2], '@');
		if (!at) return 2;
		*at = 0;
		return one(at + 1, argv[2]);
	}
	int bad = 0;
	for (int i = 3; i < argc && !bad; i++) { printf("SAMPLE %s\n", argv[i]); bad = one(argv[2], argv[i]); }
	printf("STAT states %llu\nSTAT transitions %llu\nSTAT impl_calls %llu\nSTAT output_bytes %llu\nDONE\n", nstates, nstates, nstates, nbytes);
	return 0;
}
