#ifndef VF_TYPES_H
#define VF_TYPES_H
#include <stddef.h>
typedef long ssize_t;
#endif
