/* LoongArch64: the integer base and the moves, loads and stores of the
   floating-point extension. */
#include "emu.h"
const struct port emu_port = { "la64", 3, 1, 22, -1, 14, 14, { 4, 5, 6, 7, 8, 9, 10, 11 }, { 0, 1, 2, 3, 4, 5, 6, 7 }, { 4, 5 }, { 0, 1, 2, 3 },
  0xffe00004u /* tp r21 fp s0-s8 */, 0xff000000u /* fs0-fs7 */, 8, 0, 8, 1 };

#define BITS(h, l) ((i >> (l)) & ((1u << ((h) - (l) + 1)) - 1))
static u64 fget (struct cpu *c, int r) { u64 v; memcpy (&v, c->f[r], 8); return v; }
static void fput (struct cpu *c, int r, u64 v) { memcpy (c->f[r], &v, 8); }
/* the upper half is unpredictable after a single-precision operation */
static u64 half (u64 v) { return (u32) v | (v * 0x9E3779B97F4A7C15ull & 0xffffffff00000000ull); }

int emu_step (struct cpu *c)
{
  u32 i; memcpy (&i, (void *) c->pc, 4);
  c->x[0] = 0;
  u64 next = c->pc + 4, r = 0;
  int rd = BITS (4, 0), rj = BITS (9, 5), rk = BITS (14, 10), w = 1;
  u64 a = c->x[rj], b = c->x[rk], d = c->x[rd]; s64 s12 = sx (BITS (21, 10), 12); u64 u12 = BITS (21, 10);
  s64 s16 = sx (BITS (25, 10), 16) * 4, s20 = sx (BITS (24, 5), 20);
  switch (i >> 26)
    {
    case 0x04: r = a + ((u64) sx (BITS (25, 10), 16) << 16); goto done;
    case 0x10: case 0x11: w = 0; if ((a == 0) == ((i >> 26) == 0x10)) next = c->pc + sx ((u64) BITS (4, 0) << 16 | BITS (25, 10), 21) * 4; goto done;
    case 0x13: r = next; next = a + s16; goto done;
    case 0x14: w = 0; next = c->pc + sx ((u64) BITS (9, 0) << 16 | BITS (25, 10), 26) * 4; goto done;
    case 0x15: c->x[1] = next; w = 0; next = c->pc + sx ((u64) BITS (9, 0) << 16 | BITS (25, 10), 26) * 4; goto done;
    case 0x16: case 0x17: case 0x18: case 0x19: case 0x1a: case 0x1b:
      { int t = 0; w = 0; switch (i >> 26) { case 0x16: t = a == d; break; case 0x17: t = a != d; break; case 0x18: t = (s64) a < (s64) d; break; case 0x19: t = (s64) a >= (s64) d; break; case 0x1a: t = a < d; break; case 0x1b: t = a >= d; break; }
	if (t) next = c->pc + s16; goto done; }
    }
  switch (i >> 25)
    {
    case 0x0a: r = s20 * 4096; goto done;
    case 0x0b: r = (u32) d | (u64) s20 << 32; goto done;
    case 0x0c: r = c->pc + s20 * 4; goto done;
    case 0x0d: r = (c->pc + s20 * 4096) & ~0xfffull; goto done;
    case 0x0e: r = c->pc + s20 * 4096; goto done;
    case 0x0f: r = c->pc + s20 * 262144; goto done;
    }
  s64 s14 = sx (BITS (23, 10), 14) * 4;
  switch (i >> 24)
    {
    case 0x24: r = sx (ld (c, a + s14, 4), 32); goto done;
    case 0x25: w = 0; st (c, a + s14, d, 4); goto done;
    case 0x26: r = ld (c, a + s14, 8); goto done;
    case 0x27: w = 0; st (c, a + s14, d, 8); goto done;
    }
  switch (i >> 22)
    {
    case 0x002: { int m = BITS (21, 16), l = BITS (15, 10); u64 k = (m - l == 63 ? ~0ull : (1ull << (m - l + 1)) - 1) << l; r = (d & ~k) | (a << l & k); goto done; }
    case 0x003: { int m = BITS (21, 16), l = BITS (15, 10); r = a >> l & (m - l == 63 ? ~0ull : (1ull << (m - l + 1)) - 1); goto done; }
    case 0x008: r = (s64) a < s12; goto done;
    case 0x009: r = a < (u64) s12; goto done;
    case 0x00a: r = sx (a + s12, 32); goto done;
    case 0x00b: r = a + s12; goto done;
    case 0x00c: r = (a & 0xfffffffffffffull) | u12 << 52; goto done;
    case 0x00d: r = a & u12; goto done;
    case 0x00e: r = a | u12; goto done;
    case 0x00f: r = a ^ u12; goto done;
    case 0x0a0: case 0x0a1: case 0x0a2: case 0x0a3: { int z = 1 << ((i >> 22) & 3); r = sx (ld (c, a + s12, z), 8 * z); goto done; }
    case 0x0a4: case 0x0a5: case 0x0a6: case 0x0a7: w = 0; st (c, a + s12, d, 1 << ((i >> 22) & 3)); goto done;
    case 0x0a8: case 0x0a9: case 0x0aa: r = ld (c, a + s12, 1 << ((i >> 22) & 3)); goto done;
    case 0x0ab: w = 0; goto done;
    case 0x0ac: w = 0; fput (c, rd, half (ld (c, a + s12, 4))); goto done;
    case 0x0ad: w = 0; st (c, a + s12, fget (c, rd), 4); goto done;
    case 0x0ae: w = 0; fput (c, rd, ld (c, a + s12, 8)); goto done;
    case 0x0af: w = 0; st (c, a + s12, fget (c, rd), 8); goto done;
    }
  if ((i & 0xffe08000) == 0x00600000) { int m = BITS (20, 16), l = BITS (14, 10); u64 k = ((1ull << (m - l + 1)) - 1) << l; r = sx (((u32) d & ~k) | (a << l & k), 32); goto done; }
  if ((i & 0xffe08000) == 0x00608000) { int m = BITS (20, 16), l = BITS (14, 10); r = sx ((u32) a >> l & ((1ull << (m - l + 1)) - 1), 32); goto done; }
  switch (i >> 17)
    {
    case 0x02: r = sx ((a << (BITS (16, 15) + 1)) + b, 32); goto done;
    case 0x03: r = (u32) ((a << (BITS (16, 15) + 1)) + b); goto done;
    case 0x16: r = (a << (BITS (16, 15) + 1)) + b; goto done;
    }
  if ((i & 0xfffc0000) == 0x000c0000) { int s = BITS (17, 15); r = s ? b << 8 * s | a >> (64 - 8 * s) : b; goto done; }
  if ((i & 0xfffe0000) == 0x00080000) { int s = BITS (16, 15); r = sx (s ? (u32) b << 8 * s | (u32) a >> (32 - 8 * s) : (u32) b, 32); goto done; }
  int u5 = BITS (14, 10), u6 = BITS (15, 10);
  switch (i >> 16)
    {
    case 0x41: r = a << u6; goto done;
    case 0x45: r = a >> u6; goto done;
    case 0x49: r = (s64) a >> u6; goto done;
    case 0x4d: r = u6 ? a >> u6 | a << (64 - u6) : a; goto done;
    }
#define OP(code) ((code) >> 15)
  switch (i >> 15)
    {
    case OP (0x00408000): r = sx ((u32) a << u5, 32); goto done;
    case OP (0x00448000): r = sx ((u32) a >> u5, 32); goto done;
    case OP (0x00488000): r = (s64) ((s32) a >> u5); goto done;
    case OP (0x00100000): r = sx (a + b, 32); goto done;
    case OP (0x00108000): r = a + b; goto done;
    case OP (0x00110000): r = sx (a - b, 32); goto done;
    case OP (0x00118000): r = a - b; goto done;
    case OP (0x00120000): r = (s64) a < (s64) b; goto done;
    case OP (0x00128000): r = a < b; goto done;
    case OP (0x00130000): r = b ? a : 0; goto done;
    case OP (0x00138000): r = b ? 0 : a; goto done;
    case OP (0x00140000): r = ~(a | b); goto done;
    case OP (0x00148000): r = a & b; goto done;
    case OP (0x00150000): r = a | b; goto done;
    case OP (0x00158000): r = a ^ b; goto done;
    case OP (0x00160000): r = a | ~b; goto done;
    case OP (0x00168000): r = a & ~b; goto done;
    case OP (0x00170000): r = sx ((u32) a << (b & 31), 32); goto done;
    case OP (0x00178000): r = sx ((u32) a >> (b & 31), 32); goto done;
    case OP (0x00180000): r = (s64) ((s32) a >> (b & 31)); goto done;
    case OP (0x00188000): r = a << (b & 63); goto done;
    case OP (0x00190000): r = a >> (b & 63); goto done;
    case OP (0x00198000): r = (s64) a >> (b & 63); goto done;
    case OP (0x001c0000): r = sx (a * b, 32); goto done;
    case OP (0x001d8000): r = a * b; goto done;
    case OP (0x001e0000): r = (u64) ((__int128) (s64) a * (s64) b >> 64); goto done;
    case OP (0x001e8000): r = (u64) ((unsigned __int128) a * b >> 64); goto done;
    case OP (0x001f0000): r = (s64) (s32) a * (s32) b; goto done;
    case OP (0x001f8000): r = (u64) (u32) a * (u32) b; goto done;
    case OP (0x00200000): r = (s32) b && (s32) b != -1 ? sx ((s32) a / (s32) b, 32) : sx (-(u32) a, 32); goto done;
    case OP (0x00208000): r = (s32) b && (s32) b != -1 ? sx ((s32) a % (s32) b, 32) : 0; goto done;
    case OP (0x00210000): r = (u32) b ? sx ((u32) a / (u32) b, 32) : 0; goto done;
    case OP (0x00218000): r = (u32) b ? sx ((u32) a % (u32) b, 32) : 0; goto done;
    case OP (0x00220000): r = b && b != ~0ull ? (u64) ((s64) a / (s64) b) : -a; goto done;
    case OP (0x00228000): r = b && b != ~0ull ? (u64) ((s64) a % (s64) b) : 0; goto done;
    case OP (0x00230000): r = b ? a / b : 0; goto done;
    case OP (0x00238000): r = b ? a % b : 0; goto done;
    case OP (0x002a0000): return 2;
    case OP (0x38000000): r = sx (ld (c, a + b, 1), 8); goto done;
    case OP (0x38040000): r = sx (ld (c, a + b, 2), 16); goto done;
    case OP (0x38080000): r = sx (ld (c, a + b, 4), 32); goto done;
    case OP (0x380c0000): r = ld (c, a + b, 8); goto done;
    case OP (0x38100000): w = 0; st (c, a + b, d, 1); goto done;
    case OP (0x38140000): w = 0; st (c, a + b, d, 2); goto done;
    case OP (0x38180000): w = 0; st (c, a + b, d, 4); goto done;
    case OP (0x381c0000): w = 0; st (c, a + b, d, 8); goto done;
    case OP (0x38200000): r = ld (c, a + b, 1); goto done;
    case OP (0x38240000): r = ld (c, a + b, 2); goto done;
    case OP (0x38280000): r = ld (c, a + b, 4); goto done;
    case OP (0x38300000): w = 0; fput (c, rd, half (ld (c, a + b, 4))); goto done;
    case OP (0x38340000): w = 0; fput (c, rd, ld (c, a + b, 8)); goto done;
    case OP (0x38380000): w = 0; st (c, a + b, fget (c, rd), 4); goto done;
    case OP (0x383c0000): w = 0; st (c, a + b, fget (c, rd), 8); goto done;
    case OP (0x38720000): case OP (0x38728000): w = 0; goto done;
    }
  switch (i >> 10)
    {
    case 0x00005800 >> 10: r = sx (a, 16); goto done;
    case 0x00005c00 >> 10: r = sx (a, 8); goto done;
    case 0x01149400 >> 10: w = 0; fput (c, rd, half (fget (c, rj))); goto done;
    case 0x01149800 >> 10: w = 0; fput (c, rd, fget (c, rj)); goto done;
    case 0x0114a400 >> 10: w = 0; fput (c, rd, half (a)); goto done;
    case 0x0114a800 >> 10: w = 0; fput (c, rd, a); goto done;
    case 0x0114b400 >> 10: r = sx (fget (c, rj), 32); goto done;
    case 0x0114b800 >> 10: r = fget (c, rj); goto done;
    case 0x01191800 >> 10: { u64 v = fget (c, rj); double x; float y; memcpy (&x, &v, 8); y = x; v = 0; memcpy (&v, &y, 4); w = 0; fput (c, rd, half (v)); goto done; }
    case 0x01192400 >> 10: { u64 v = fget (c, rj); double x; float y; memcpy (&y, &v, 4); x = y; memcpy (&v, &x, 8); w = 0; fput (c, rd, v); goto done; }
    }
  return 1;
done:
  if (w && rd) c->x[rd] = r;
  c->pc = next;
  return 0;
}
