#ifndef VF_STDIO_H
#define VF_STDIO_H
#include <sys/types.h>
#include <stddef.h>
typedef struct vf_file FILE;
extern FILE *stderr;
int fprintf (FILE *, const char *, ...);
int printf (const char *, ...);
#endif
