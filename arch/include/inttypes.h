#ifndef MINI_INTTYPES_H
#define MINI_INTTYPES_H
#include <stdint.h>
#endif
