/* Reference model of base64 (RFC 4648, standard alphabet), written from the
 * RFC and the README, sharing nothing with the code under test. Kept boring:
 * one character or byte at a time. */
#ifndef REF_H
#define REF_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>

static const char ref_alpha[65] =
	"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static signed char ref_val[256];	/* 0..63, -2 for '=', -1 for the rest */

static void ref_setup (void)
{
	memset(ref_val, -1, sizeof ref_val);
	for (int i = 0; i < 64; i++) ref_val[(unsigned char) ref_alpha[i]] = (signed char) i;
	ref_val['='] = -2;
}

/* Encoder: position in the group of three and the bits that wait. */
struct renc { uint8_t pos, acc; };

static size_t ref_enc (struct renc *r, const uint8_t *s, size_t n, uint8_t *o)
{
	size_t k = 0;
	for (size_t i = 0; i < n; i++) {
		uint8_t b = s[i];
		switch (r->pos) {
		case 0: o[k++] = ref_alpha[b >> 2]; r->acc = b & 3; r->pos = 1; break;
		case 1: o[k++] = ref_alpha[(r->acc << 4) | (b >> 4)]; r->acc = b & 15; r->pos = 2; break;
		default: o[k++] = ref_alpha[(r->acc << 2) | (b >> 6)]; o[k++] = ref_alpha[b & 63]; r->acc = 0; r->pos = 0;
		}
	}
	return k;
}
static size_t ref_enc_final (const struct renc *r, uint8_t *o)
{
	if (r->pos == 1) { o[0] = ref_alpha[r->acc << 4]; o[1] = '='; o[2] = '='; return 3; }
	if (r->pos == 2) { o[0] = ref_alpha[r->acc << 2]; o[1] = '='; return 2; }
	return 0;
}
/* Number of characters that n bytes give from this position. */
static size_t ref_enc_bound (int pos, size_t n)
{
	return (n / 3) * 4 + (size_t[3][3]){ { 0, 1, 2 }, { 0, 1, 3 }, { 0, 2, 3 } }[pos][n % 3];
}

/* Decoder. */
enum { R_RUN = 0, R_PAD = 1, R_END = 2, R_ERR = 3 };
struct rdec { uint8_t mode, pos, acc; };

/* Feeds a non-empty chunk; returns the verdict, *k is the number of bytes. */
static int ref_dec (struct rdec *r, const uint8_t *s, size_t n, uint8_t *o, size_t *k)
{
	*k = 0;
	for (size_t i = 0; i < n; i++) {
		int v = ref_val[s[i]];
		if (r->mode == R_RUN && v >= 0) {
			switch (r->pos) {
			case 0: r->acc = (uint8_t) v; r->pos = 1; break;
			case 1: o[(*k)++] = (uint8_t) (r->acc << 2 | v >> 4); r->acc = v & 15; r->pos = 2; break;
			case 2: o[(*k)++] = (uint8_t) (r->acc << 4 | v >> 2); r->acc = v & 3; r->pos = 3; break;
			default: o[(*k)++] = (uint8_t) (r->acc << 6 | v); r->acc = 0; r->pos = 0;
			}
		}
		else if (r->mode == R_RUN && v == -2 && r->pos == 2) { r->mode = R_PAD; r->acc = 0; }
		else if (r->mode == R_RUN && v == -2 && r->pos == 3) { r->mode = R_END; r->pos = 0; r->acc = 0; }
		else if (r->mode == R_PAD && v == -2)                { r->mode = R_END; r->pos = 0; r->acc = 0; }
		else { r->mode = R_ERR; r->pos = 0; r->acc = 0; return 0; }
	}
	return 1;
}
static int ref_dec_complete (const struct rdec *r)
{
	return (r->mode == R_RUN && r->pos == 0) || r->mode == R_END;
}
/* Number of bytes that n valid characters give from this position. */
static size_t ref_dec_bound (int pos, size_t n)
{
	size_t k = (n / 4) * 3;
	for (size_t i = 0; i < n % 4; i++) { if (pos) k++; pos = (pos + 1) & 3; }
	return k;
}
#endif
