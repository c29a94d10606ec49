#ifndef MINI_STDLIB_H
#define MINI_STDLIB_H
#include <stddef.h>
#endif
