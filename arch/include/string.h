/* The little that the library needs, for targets that have no C library here. */
#ifndef MINI_STRING_H
#define MINI_STRING_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void *memcpy(void *, const void *, size_t);
void *memmove(void *, const void *, size_t);
void *memset(void *, int, size_t);
int memcmp(const void *, const void *, size_t);
void *memchr(const void *, int, size_t);
size_t strlen(const char *);
#ifdef __cplusplus
}
#endif
#endif
