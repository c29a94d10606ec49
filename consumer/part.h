/* Shared by both translation units of the consumer: C89 to C23, C++98 on. */
#ifndef PART_H
#define PART_H
#include "libbase64.h"
#include "libbase64.h"
#ifdef __cplusplus
extern "C" {
#endif
/* what the other translation unit does, be it C or C++ */
void other_start(struct base64_state *s, int dec, int flags);
int other_feed(struct base64_state *s, int dec, const char *src, size_t n, char *out, size_t *outlen);
size_t other_size(void);
size_t other_off(int i);
#ifdef __cplusplus
}
#endif
#endif
