/* Breadth-first search over histories of calls. A state is the library's own
 * writable data (moved into sections of their own when it is compiled), the
 * harness's stream states, and the reference's view of them. */
#ifndef BFS_H
#define BFS_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <time.h>

static char dummy_bss[16] __attribute__((used, aligned(16), section("libbss"))) = {0};
static char dummy_data[16] __attribute__((used, aligned(16), section("libdata"))) = {1};
extern char __start_libbss[], __stop_libbss[], __start_libdata[], __stop_libdata[];

static size_t nbss, ndata, nown, sz;
static void *own;
static uint8_t *st_mem; static size_t st_n, st_cap;
static uint32_t *par; static uint16_t *act;
static uint32_t *tab; static size_t tab_n;

static uint64_t bfs_hash(const uint8_t *p, size_t n)
{
	uint64_t h = 0xcbf29ce484222325ull;
	for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 0x100000001b3ull; h ^= h >> 29; }
	return h;
}
static void snap(uint8_t *o) { memcpy(o, __start_libbss, nbss); memcpy(o + nbss, __start_libdata, ndata); memcpy(o + nbss + ndata, own, nown); }
static void restore(const uint8_t *o) { memcpy(__start_libbss, o, nbss); memcpy(__start_libdata, o + nbss, ndata); memcpy(own, o + nbss + ndata, nown); }
static void bfs_init(void *o, size_t n)
{
	dummy_bss[0] = 0; dummy_data[0] = 1;
	nbss = __stop_libbss - __start_libbss; ndata = __stop_libdata - __start_libdata;
	own = o; nown = n; sz = nbss + ndata + nown;
	tab_n = 1 << 16; tab = calloc(tab_n, sizeof *tab);
	st_cap = 1 << 12; st_mem = malloc(st_cap * sz); par = malloc(st_cap * sizeof *par); act = malloc(st_cap * sizeof *act);
}
/* Adds the present state if it is new. */
static int bfs_add(uint32_t parent, int action)
{
	if (st_n == st_cap) {
		st_cap *= 2; st_mem = realloc(st_mem, st_cap * sz); par = realloc(par, st_cap * sizeof *par); act = realloc(act, st_cap * sizeof *act);
		if (!st_mem || !par || !act) { fprintf(stderr, "no memory\n"); exit(4); }
	}
	uint8_t *p = st_mem + st_n * sz;
	snap(p);
	size_t i = bfs_hash(p, sz) & (tab_n - 1);
	for (; tab[i]; i = (i + 1) & (tab_n - 1))
		if (!memcmp(st_mem + (size_t)(tab[i] - 1) * sz, p, sz)) return 0;
	tab[i] = st_n + 1; par[st_n] = parent; act[st_n] = action;
	st_n++;
	if (st_n * 2 > tab_n) {
		tab_n *= 4; free(tab); tab = calloc(tab_n, sizeof *tab);
		for (size_t k = 0; k < st_n; k++) {
			size_t j = bfs_hash(st_mem + k * sz, sz) & (tab_n - 1);
			while (tab[j]) j = (j + 1) & (tab_n - 1);
			tab[j] = k + 1;
		}
	}
	return 1;
}
static void bfs_path(uint32_t s, char *b, size_t n)
{
	int stk[4000], k = 0;
	while (s && k < 4000) { stk[k++] = act[s]; s = par[s]; }
	size_t w = 0; *b = 0;
	while (k && w + 20 < n) w += sprintf(b + w, "%s%d", w ? "," : "", stk[--k]);
}
/* apply: carries out action a in the present state: 1 done, 0 not possible, -1 violation (message in bfs_msg) */
static char bfs_msg[600];
static int apply(int a);
static const char *act_name(int a);
static unsigned long bfs_trans, bfs_calls;
static void print_path(const char *path)
{
	printf("# history:");
	for (const char *p = path; *p; ) { printf(" %s;", act_name(strtol(p, (char **)&p, 10))); if (*p == ',') p++; }
	printf("\n");
}
static int bfs_run(int nact, size_t cap, const char *tag)
{
	char b[40000];
	int capped = 0;
	const char *tier = getenv("VERIF_TIER");
	/* when the code's own state is unbounded, what fits into this counts */
	time_t until = time(NULL) + (tier && !strcmp(tier, "thorough") ? 7200 : 240);
	bfs_add(0, 0);
	size_t depth = 0, level_end = 1;
	for (size_t i = 0; i < st_n; i++) {
		if (i == level_end) { depth++; level_end = st_n; }
		if (st_n > cap || !(i & 255) && time(NULL) > until) { capped = 1; break; }
		for (int a = 0; a < nact; a++) {
			restore(st_mem + i * sz);
			int r = apply(a);
			if (r == 0) continue;
			bfs_trans++;
			if (r < 0) {
				bfs_path(i, b, sizeof b);
				sprintf(b + strlen(b), "%s%d", *b ? "," : "", a);
				print_path(b);
				printf("VIOL %s%s\t%s\n", tag, b, bfs_msg);
				return 3;
			}
			bfs_add(i, a);
		}
	}
	bfs_path(st_n - 1, b, sizeof b); printf("SAMPLE a longest history (depth %zu):", depth);
	for (const char *p = b; *p; ) { printf(" %s;", act_name(strtol(p, (char **)&p, 10))); if (*p == ',') p++; }
	printf("\nSTAT states %zu\nSTAT transitions %lu\nSTAT impl_calls %lu\n", st_n, bfs_trans, bfs_calls);
	if (capped) printf("STAT capped 1\n");
	printf("DONE\n");
	return 0;
}
static int bfs_replay(const char *path)
{
	print_path(path);
	for (const char *p = path; *p; ) {
		int a = strtol(p, (char **)&p, 10);
		if (*p == ',') p++;
		if (apply(a) < 0) { printf("VIOL %s\t%s\n", path, bfs_msg); return 3; }
	}
	printf("holds\nDONE\n");
	return 0;
}
#endif
