/* Instruction interpreters for the processors this sandbox has no hardware
   for.  Memory is the host's own (both sides are LP64 little endian), so the
   driver and the code under test share pointers.  */
#ifndef EMU_H
#define EMU_H
#include <stdint.h>
#include <string.h>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t s64; typedef int32_t s32;
struct cpu {
  u64 x[32];			/* general registers (the stack pointer among them) */
  u64 pc;
  int n, z, c, v;		/* condition flags, where there are any */
  u8 f[32][16];			/* floating-point / vector registers */
  u64 fctl;
  long below;			/* accesses to stack memory below the stack pointer */
  long misal;			/* accesses through a misaligned stack pointer */
  long badj;			/* indirect branches to something that is no landing pad */
};
struct port {
  const char *name;
  int sp, ra, fpr, hid, chain;	/* register numbers; hid -1: first integer argument register */
  int gochain;
  int argx[8], argf[8];
  int retx[2], retf[4];
  u32 keepx, keepf; int keepfn;	/* preserved across calls; keepfn: how many bytes of an fp register */
  int nanbox;
  int flen;			/* bytes of an fp register */
  int retsx;			/* narrow integer results come extended */
};
extern const struct port emu_port;
extern u8 *emu_stack, *emu_stack_top;
extern u8 *emu_text, *emu_text_end;
int emu_step (struct cpu *c);	/* 0, or why it stopped: 1 unknown instruction, 2 breakpoint */
static inline void emu_access (struct cpu *c, u64 a, int sz)
{ u64 sp = c->x[emu_port.sp]; if (a < sp && a >= (u64) emu_stack && a < (u64) emu_stack_top) c->below++; (void) sz; }
static inline u64 ld (struct cpu *c, u64 a, int sz) { u64 r = 0; emu_access (c, a, sz); memcpy (&r, (void *) a, sz); return r; }
static inline void st (struct cpu *c, u64 a, u64 v, int sz) { emu_access (c, a, sz); memcpy ((void *) a, &v, sz); }
static inline s64 sx (u64 v, int b) { return (s64) (v << (64 - b)) >> (64 - b); }
#endif
