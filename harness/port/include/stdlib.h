#ifndef VF_STDLIB_H
#define VF_STDLIB_H
#include <stddef.h>
void abort (void) __attribute__ ((noreturn));
void *malloc (size_t);
void *calloc (size_t, size_t);
void free (void *);
#endif
