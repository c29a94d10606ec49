#ifndef MINI_STDIO_H
#define MINI_STDIO_H
#include <stddef.h>
#endif
