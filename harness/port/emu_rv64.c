/* RV64IM with the moves, loads and stores of the F and D extensions. */
#include "emu.h"
const struct port emu_port = { "rv64", 2, 1, 8, -1, 7, 7, { 10, 11, 12, 13, 14, 15, 16, 17 }, { 10, 11, 12, 13, 14, 15, 16, 17 }, { 10, 11 }, { 10, 11, 12, 13 },
  0x0ffc031cu /* gp tp s0-s11 */ & ~4u, 0x0ffc0300u /* fs0-fs11 */, 8, 1, 8, 1 };

#define BITS(h, l) ((i >> (l)) & ((1u << ((h) - (l) + 1)) - 1))
static u64 fget (struct cpu *c, int r) { u64 v; memcpy (&v, c->f[r], 8); return v; }
static void fput (struct cpu *c, int r, u64 v) { memcpy (c->f[r], &v, 8); }
static u64 boxed (u64 v) { return v | 0xffffffff00000000ull; }
/* a single number read from a register must be boxed */
static u32 unbox (u64 v) { return v >> 32 == 0xffffffffu ? (u32) v : 0x7fc00000u; }

int emu_step (struct cpu *c)
{
  u32 i; memcpy (&i, (void *) c->pc, 4);
  if ((i & 3) != 3) return 1;
  c->x[0] = 0;
  u64 next = c->pc + 4, a = c->x[BITS (19, 15)], b = c->x[BITS (24, 20)], r = 0;
  int rd = BITS (11, 7), f3 = BITS (14, 12), rs2 = BITS (24, 20), f7 = i >> 25, w = 1; s64 im = (s32) i >> 20;
  switch (BITS (6, 2))
    {
    case 0x0d: r = (s64) (s32) (i & 0xfffff000u); break;
    case 0x05: r = c->pc + (s64) (s32) (i & 0xfffff000u); break;
    case 0x1b: r = next; next = c->pc + sx ((u64) BITS (31, 31) << 20 | BITS (19, 12) << 12 | BITS (20, 20) << 11 | BITS (30, 21) << 1, 21); break;
    case 0x19: if (f3) return 1; r = next; next = (a + im) & ~1ull; break;
    case 0x18:
      {
	int t; w = 0;
	switch (f3) { case 0: t = a == b; break; case 1: t = a != b; break; case 4: t = (s64) a < (s64) b; break; case 5: t = (s64) a >= (s64) b; break; case 6: t = a < b; break; case 7: t = a >= b; break; default: return 1; }
	if (t) next = c->pc + sx ((u64) BITS (31, 31) << 12 | BITS (7, 7) << 11 | BITS (30, 25) << 5 | BITS (11, 8) << 1, 13);
	break;
      }
    case 0x00: { int sz = 1 << (f3 & 3); if (f3 == 7) return 1; r = ld (c, a + im, sz); if (!(f3 & 4)) r = sx (r, 8 * sz); break; }
    case 0x08: if (f3 > 3) return 1; w = 0; st (c, a + sx (BITS (31, 25) << 5 | BITS (11, 7), 12), b, 1 << f3); break;
    case 0x04:
      switch (f3)
	{
	case 0: r = a + im; break; case 2: r = (s64) a < im; break; case 3: r = a < (u64) im; break;
	case 4: r = a ^ im; break; case 6: r = a | im; break; case 7: r = a & im; break;
	case 1: if (i >> 26) return 1; r = a << BITS (25, 20); break;
	case 5: if (i >> 26 == 0) r = a >> BITS (25, 20); else if (i >> 26 == 16) r = (s64) a >> BITS (25, 20); else return 1; break;
	}
      break;
    case 0x06:
      switch (f3)
	{
	case 0: r = sx (a + im, 32); break;
	case 1: if (f7) return 1; r = sx ((u32) a << rs2, 32); break;
	case 5: if (f7 == 0) r = sx ((u32) a >> rs2, 32); else if (f7 == 32) r = (s64) ((s32) a >> rs2); else return 1; break;
	default: return 1;
	}
      break;
    case 0x0c:
      if (f7 == 1)
	switch (f3)
	  {
	  case 0: r = a * b; break;
	  case 1: r = (u64) ((__int128) (s64) a * (s64) b >> 64); break;
	  case 2: r = (u64) ((__int128) (s64) a * (unsigned __int128) b >> 64); break;
	  case 3: r = (u64) ((unsigned __int128) a * b >> 64); break;
	  case 4: r = !b ? ~0ull : b == ~0ull ? -a : (u64) ((s64) a / (s64) b); break;
	  case 5: r = b ? a / b : ~0ull; break;
	  case 6: r = !b ? a : b == ~0ull ? 0 : (u64) ((s64) a % (s64) b); break;
	  case 7: r = b ? a % b : a; break;
	  }
      else if (f7 == 0)
	switch (f3)
	  {
	  case 0: r = a + b; break; case 1: r = a << (b & 63); break; case 2: r = (s64) a < (s64) b; break; case 3: r = a < b; break;
	  case 4: r = a ^ b; break; case 5: r = a >> (b & 63); break; case 6: r = a | b; break; case 7: r = a & b; break;
	  }
      else if (f7 == 32 && f3 == 0) r = a - b;
      else if (f7 == 32 && f3 == 5) r = (s64) a >> (b & 63);
      else return 1;
      break;
    case 0x0e:
      if (f7 == 1)
	{
	  s32 p = a, q = b;
	  switch (f3)
	    {
	    case 0: r = sx ((u32) p * (u32) q, 32); break;
	    case 4: r = !q ? ~0ull : q == -1 ? sx (-(u32) p, 32) : (s64) (p / q); break;
	    case 5: r = q ? sx ((u32) p / (u32) q, 32) : ~0ull; break;
	    case 6: r = !q ? (s64) p : q == -1 ? 0 : (s64) (p % q); break;
	    case 7: r = q ? sx ((u32) p % (u32) q, 32) : (s64) p; break;
	    default: return 1;
	    }
	}
      else if (f7 == 0 && f3 == 0) r = sx (a + b, 32);
      else if (f7 == 0 && f3 == 1) r = sx ((u32) a << (b & 31), 32);
      else if (f7 == 0 && f3 == 5) r = sx ((u32) a >> (b & 31), 32);
      else if (f7 == 32 && f3 == 0) r = sx (a - b, 32);
      else if (f7 == 32 && f3 == 5) r = (s64) ((s32) a >> (b & 31));
      else return 1;
      break;
    case 0x03: w = 0; break;		/* fence */
    case 0x01:
      w = 0;
      if (f3 == 3) fput (c, rd, ld (c, a + im, 8)); else if (f3 == 2) fput (c, rd, boxed (ld (c, a + im, 4))); else return 1;
      break;
    case 0x09:
      w = 0; im = sx (BITS (31, 25) << 5 | BITS (11, 7), 12);
      if (f3 == 3) st (c, a + im, fget (c, rs2), 8); else if (f3 == 2) st (c, a + im, fget (c, rs2), 4); else return 1;
      break;
    case 0x14:
      {
	int rs1 = BITS (19, 15);
	if (f7 == 0x11)			/* sign injection, double */
	  { u64 s = 1ull << 63, p = fget (c, rs1), q = fget (c, rs2); w = 0; fput (c, rd, f3 == 0 ? (p & ~s) | (q & s) : f3 == 1 ? (p & ~s) | (~q & s) : p ^ (q & s)); }
	else if (f7 == 0x10)
	  { u32 s = 1u << 31, p = unbox (fget (c, rs1)), q = unbox (fget (c, rs2)); w = 0; fput (c, rd, boxed (f3 == 0 ? (p & ~s) | (q & s) : f3 == 1 ? (p & ~s) | (~q & s) : p ^ (q & s))); }
	else if (f7 == 0x70 && f3 == 0 && !rs2) r = sx (fget (c, rs1), 32);
	else if (f7 == 0x71 && f3 == 0 && !rs2) r = fget (c, rs1);
	else if (f7 == 0x78 && f3 == 0 && !rs2) { w = 0; fput (c, rd, boxed ((u32) a)); }
	else if (f7 == 0x79 && f3 == 0 && !rs2) { w = 0; fput (c, rd, a); }
	else return 1;
	break;
      }
    case 0x1c: return 2;
    default: return 1;
    }
  if (w && rd) c->x[rd] = r;
  c->pc = next;
  return 0;
}
