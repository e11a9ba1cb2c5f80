/* What the code under test expects from its surroundings. */
#include <stddef.h>
#include <stdint.h>
typedef unsigned char u8;
void *memcpy (void *d, const void *s, size_t n) { u8 *p = d; const u8 *q = s; while (n >= 8 && !(((uintptr_t) p | (uintptr_t) q) & 7)) { *(uint64_t *) p = *(const uint64_t *) q; p += 8; q += 8; n -= 8; } while (n--) *p++ = *q++; return d; }
void *memmove (void *d, const void *s, size_t n) { u8 *p = d; const u8 *q = s; if (p <= q) while (n--) *p++ = *q++; else while (n--) p[n] = q[n]; return d; }
void *memset (void *d, int c, size_t n) { u8 *p = d; while (n--) *p++ = c; return d; }
int memcmp (const void *a, const void *b, size_t n) { const u8 *p = a, *q = b; for (; n--; p++, q++) if (*p != *q) return *p - *q; return 0; }
size_t strlen (const char *s) { size_t n = 0; while (s[n]) n++; return n; }
static char heap[1 << 16]; static size_t used;
void *malloc (size_t n) { void *p = heap + used; used += (n + 15) & ~(size_t) 15; return used > sizeof heap ? 0 : p; }
void free (void *p) { (void) p; }
void abort (void) { __builtin_trap (); }
/* instruction cache maintenance: which bytes were declared changed */
struct { uintptr_t lo, hi; } vf_flushed[8]; int vf_nflushed;
void __clear_cache (void *a, void *b) { if (vf_nflushed < 8) { vf_flushed[vf_nflushed].lo = (uintptr_t) a; vf_flushed[vf_nflushed].hi = (uintptr_t) b; vf_nflushed++; } }
/* two views of the trampolines' memory: the writable one and, vf_code_off further, the executable one */
intptr_t vf_code_off;
void *ffi_data_to_code_pointer (void *p) { return (char *) p + vf_code_off; }
/* static trampolines: a slot of the code page and the words a page further on */
struct parms { void *data, *target; };
uintptr_t vf_slot_parms;
int ffi_tramp_is_present (void *ptr) { (void) ptr; return vf_slot_parms != 0; }
void ffi_tramp_set_parms (void *tramp, void *target, void *data) { struct parms *p = (void *) vf_slot_parms; (void) tramp; p->data = data; p->target = target; }
