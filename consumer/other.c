#include <stddef.h>
#include "part.h"
void other_start(struct base64_state *s, int dec, int flags) { if (dec) base64_stream_decode_init(s, flags); else base64_stream_encode_init(s, flags); }
int other_feed(struct base64_state *s, int dec, const char *src, size_t n, char *out, size_t *outlen)
{
	if (dec) return base64_stream_decode(s, src, n, out, outlen);
	base64_stream_encode(s, src, n, out, outlen);
	return 1;
}
size_t other_size(void) { return sizeof(struct base64_state); }
size_t other_off(int i) { return i == 0 ? offsetof(struct base64_state, eof) : i == 1 ? offsetof(struct base64_state, bytes) : i == 2 ? offsetof(struct base64_state, flags) : offsetof(struct base64_state, carry); }
