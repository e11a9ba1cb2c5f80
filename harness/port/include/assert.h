#ifndef VF_ASSERT_H
#define VF_ASSERT_H
#include <stdlib.h>
#define assert(e) ((e) ? (void) 0 : abort ())
#endif
