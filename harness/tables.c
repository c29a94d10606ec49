/* C17: the plain codec on top of the lookup tables, for every content of a
 * group of three bytes or four characters.
 *   tables explore | tables replay SCENARIO */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "libbase64.h"
#include "ref.h"

static unsigned long calls, states;
static char *src, *txt, *back;
#define LAY 6
/* the group to look at is at different places: first, in the middle, last, so
 * that the loops over several groups and the code for single ones all see it */
static const int total[LAY] = { 16, 16, 16, 4, 8, 9 }, at[LAY] = { 0, 1, 2, 0, 0, 4 };
static int bad_one(int lay, const uint8_t *g, int quiet)
{
	uint8_t s[80], o[80]; size_t ol = 9999;
	int n = total[lay], p = at[lay], want = 1; size_t wl = n * 3;
	for (int i = 0; i < n * 4; i++) s[i] = ref_alpha[(i * 29 + 7) & 63];
	memcpy(s + p * 4, g, 4);
	struct rdec d = {0}; uint8_t w[80];
	want = ref_dec(&d, s, n * 4, w, &wl);
	int r = base64_decode((char *)s, n * 4, (char *)o, &ol, BASE64_FORCE_PLAIN);
	calls++;
	if (r != want || ol != wl || memcmp(o, w, wl)) {
		if (!quiet) printf("VIOL d%d.%02x%02x%02x%02x\tdecoding %d groups with \"%c%c%c%c\" at group %d gives %d and %zu bytes; %d and %zu expected\n",
			lay, g[0], g[1], g[2], g[3], n, g[0] > 31 && g[0] < 127 ? g[0] : '?', g[1] > 31 && g[1] < 127 ? g[1] : '?', g[2] > 31 && g[2] < 127 ? g[2] : '?', g[3] > 31 && g[3] < 127 ? g[3] : '?', p, r, ol, want, wl);
		return 3;
	}
	return 0;
}
static int groups(uint32_t from, uint32_t n)
{
	size_t ol;
	for (uint32_t i = 0; i < n; i++) { uint32_t v = from + i; src[3 * i] = v >> 16; src[3 * i + 1] = v >> 8; src[3 * i + 2] = v; }
	memset(txt, 0, 4 * n);
	base64_encode(src, 3 * n, txt, &ol, BASE64_FORCE_PLAIN); calls++;
	for (uint32_t i = 0; i < n; i++) {
		uint32_t v = from + i;
		char w[4] = { ref_alpha[v >> 18], ref_alpha[v >> 12 & 63], ref_alpha[v >> 6 & 63], ref_alpha[v & 63] };
		if (ol != 4 * (size_t)n || memcmp(txt + 4 * i, w, 4)) { printf("VIOL g%u.%u\tencoding %02x %02x %02x gives %.4s instead of %.4s\n", from, n, v >> 16, v >> 8 & 255, v & 255, txt + 4 * i, w); return 3; }
		memcpy(txt + 4 * i, w, 4);
	}
	memset(back, 0, 3 * n);
	int r = base64_decode(txt, 4 * n, back, &ol, BASE64_FORCE_PLAIN); calls++;
	if (r != 1 || ol != 3 * (size_t)n || memcmp(src, back, 3 * n)) {
		uint32_t i = 0; while (i + 1 < n && !memcmp(src + 3 * i, back + 3 * i, 3)) i++;
		printf("VIOL g%u.%u\tdecoding %.4s gives %d, %02x %02x %02x\n", from, n, txt + 4 * i, r, back[3 * i] & 255, back[3 * i + 1] & 255, back[3 * i + 2] & 255);
		return 3;
	}
	states += n;
	return 0;
}
#define CH 65536
int main(int argc, char **argv)
{
	ref_setup();
	src = malloc(3 * CH + 64); txt = malloc(4 * CH + 64); back = malloc(3 * CH + 64);
	setvbuf(stdout, NULL, _IOLBF, 0);
	if (!strcmp(argv[1], "replay")) {
		unsigned a, b, c, d, l; int r;
		if (sscanf(argv[2], "g%u.%u", &a, &b) == 2) r = groups(a, b);
		else { if (sscanf(argv[2], "d%u.%2x%2x%2x%2x", &l, &a, &b, &c, &d) != 5) return 2; uint8_t g[4] = { a, b, c, d }; r = bad_one(l, g, 0); }
		if (!r) printf("holds\nDONE\n");
		return r;
	}
	for (uint32_t v = 0; v < 1 << 24; v += CH) if (groups(v, CH)) return 3;
	/* one character of any value, next to any valid one; two bad ones */
	static const uint8_t rest[] = { 'A', '/' };
	for (int l = 0; l < LAY; l++) for (int p = 0; p < 4; p++) for (int v = 0; v < 256; v++) {
		if (ref_val[v] >= 0) continue;
		for (int q = 0; q < 4; q++) if (q != p) for (int w = 0; w < 256; w++) for (int z = 0; z < 2; z++) {
			if (ref_val[w] < 0 && q < p) continue;
			if (l > 2 && z) continue;
			uint8_t g[4]; memset(g, rest[z], 4); g[p] = v; g[q] = w;
			if (bad_one(l, g, 0)) return 3;
			states++;
		}
	}
	printf("STAT states %lu\nSTAT transitions %lu\nSTAT impl_calls %lu\nSAMPLE all 2^24 groups of three bytes encoded and decoded; last rejected group: two bad characters\nDONE\n", states, calls, calls);
	return 0;
}
