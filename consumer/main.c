/* A program on the library, valid C and C++. Every length to 200, every split
 * between the two translation units, every flag. */
#include <stdio.h>
#include <string.h>
#include <stddef.h>
#include "part.h"
static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static size_t ref(const unsigned char *s, size_t n, char *o)
{
	size_t k = 0, i;
	for (i = 0; i < n; i += 3) {
		unsigned long v = (unsigned long) s[i] << 16 | (i + 1 < n ? (unsigned long) s[i + 1] << 8 : 0) | (i + 2 < n ? s[i + 2] : 0u);
		o[k++] = al[v >> 18 & 63]; o[k++] = al[v >> 12 & 63];
		o[k++] = i + 1 < n ? al[v >> 6 & 63] : '='; o[k++] = i + 2 < n ? al[v & 63] : '=';
	}
	return k;
}
static unsigned char raw[400]; static char want[600], got[700], back[700];
static unsigned long calls;
static int bad(const char *what, int flag, size_t n, size_t k) { printf("VIOL consumer\t%s (flags %d, length %lu, split %lu)\n", what, flag, (unsigned long) n, (unsigned long) k); return 1; }
int main(void)
{
	static const int flags[] = { 0, BASE64_FORCE_PLAIN, BASE64_FORCE_SSSE3, BASE64_FORCE_SSE41, BASE64_FORCE_SSE42, BASE64_FORCE_AVX, BASE64_FORCE_AVX2, BASE64_FORCE_AVX512, BASE64_FORCE_NEON32, BASE64_FORCE_NEON64 };
	size_t i, n, k, w, a, b, f;
	int q, r;
	for (q = 1; q < 10; q++) for (r = 0; r < q; r++) if ((flags[q] & flags[r]) || !flags[q]) return bad("the flags overlap", flags[q], 0, 0);
	if (other_size() != sizeof(struct base64_state) || other_off(0) != offsetof(struct base64_state, eof) || other_off(1) != offsetof(struct base64_state, bytes) ||
	    other_off(2) != offsetof(struct base64_state, flags) || other_off(3) != offsetof(struct base64_state, carry)) return bad("the state has another layout in the other translation unit", 0, 0, 0);
	for (i = 0; i < sizeof raw; i++) raw[i] = (unsigned char) (i * 151 + i / 7);
	for (q = 0; q < 2; q++) for (n = 0; n <= 200; n++) {
		w = ref(raw, n, want);
		base64_encode((const char *) raw, n, got, &a, flags[q]);
		calls += 2;
		if (a != w || memcmp(got, want, w)) return bad("base64_encode() is wrong", flags[q], n, 0);
		if (base64_decode(want, w, back, &b, flags[q]) != 1 || b != n || memcmp(back, raw, n)) return bad("base64_decode() is wrong", flags[q], n, 0);
		for (k = 0; k <= n; k += n < 60 ? 1 : 13) {
			struct base64_state s, t;
			calls += 8;
			other_start(&s, 0, flags[q]);
			base64_stream_encode(&s, (const char *) raw, k, got, &a);
			other_feed(&s, 0, (const char *) raw + k, n - k, got + a, &b);
			base64_stream_encode_final(&s, got + a + b, &f);
			if (a + b + f != w || memcmp(got, want, w)) return bad("stream encoding is wrong", flags[q], n, k);
			base64_stream_decode_init(&t, flags[q]);
			if (other_feed(&t, 1, want, k, back, &a) != 1 || base64_stream_decode(&t, want + k, w - k, back + a, &b) != 1 || a + b != n || memcmp(back, raw, n))
				return bad("stream decoding is wrong", flags[q], n, k);
		}
	}
	for (q = 0; q < 10; q++) {
		r = base64_decode("QUJD", 4, back, &b, flags[q]);
		calls++;
		if (r == 1 ? b != 3 || memcmp(back, "ABC", 3) : r == -1 ? b != 0 || q < 2 : 1) return bad("base64_decode() with a flag is wrong", flags[q], 4, 0);
	}
	printf("STAT states %lu\nSTAT transitions %lu\nSTAT impl_calls %lu\nDONE\n", calls, calls, calls);
	return 0;
}
