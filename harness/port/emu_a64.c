/* AArch64: the integer, load/store and the part of the SIMD instruction set
   compilers use to move values about.  */
#include "emu.h"
const struct port emu_port = { "a64", 31, 30, 29, 8, 18, 18, { 0, 1, 2, 3, 4, 5, 6, 7 }, { 0, 1, 2, 3, 4, 5, 6, 7 }, { 0, 1 }, { 0, 1, 2, 3 },
  0x3ff80000u /* x19-x29 */, 0x0000ff00u /* v8-v15 */, 8, 0, 16, 0 };

static u64 rx (struct cpu *c, int r) { return r == 31 ? 0 : c->x[r]; }
static void wx (struct cpu *c, int r, u64 v, int sf) { if (r != 31) c->x[r] = sf ? v : (u32) v; }
static void wsp (struct cpu *c, int r, u64 v, int sf) { c->x[r] = sf ? v : (u32) v; }
static u64 base (struct cpu *c, int r) { if (r == 31 && (c->x[31] & 15)) c->misal++; return c->x[r]; }
static u64 ror (u64 v, int n, int w) { n %= w; if (w == 32) v = (u32) v; return n ? (v >> n) | (v << (w - n)) : v; }
static u64 mask (int w) { return w == 64 ? ~0ull : (1ull << w) - 1; }

static int bitmasks (int N, int imms, int immr, int w, u64 *wm, u64 *tm)
{
  unsigned t = (N << 6) | (~imms & 0x3f); int len = -1;
  for (int i = 6; i >= 0; i--) if (t >> i & 1) { len = i; break; }
  if (len < 1) return 0;
  int es = 1 << len, lv = es - 1, S = imms & lv, R = immr & lv, d = (S - R) & lv;
  u64 e = mask (S + 1), te = mask (d + 1);
  u64 we = R ? ((e >> R) | (e << (es - R))) & mask (es) : e;
  u64 a = 0, b = 0; for (int i = 0; i < w; i += es) { a |= we << i; b |= te << i; }
  if (w == 32) { a = (u32) a; b = (u32) b; }
  *wm = a; *tm = b; return 1;
}
static u64 addc (struct cpu *c, u64 a, u64 b, int ci, int sf, int S)
{
  u64 r;
  if (sf) { r = a + b + ci; if (S) { c->n = r >> 63; c->z = !r; c->c = ci ? r <= a : r < a; c->v = ((a ^ r) & (b ^ r)) >> 63; } }
  else { u32 p = a, q = b, s = p + q + ci; r = s; if (S) { c->n = s >> 31; c->z = !s; c->c = (u64) p + q + ci > 0xffffffffu; c->v = ((p ^ s) & (q ^ s)) >> 31; } }
  return r;
}
static int cond (struct cpu *c, int cc)
{
  int r = 0;
  switch (cc >> 1)
    {
    case 0: r = c->z; break; case 1: r = c->c; break; case 2: r = c->n; break; case 3: r = c->v; break;
    case 4: r = c->c && !c->z; break; case 5: r = c->n == c->v; break; case 6: r = c->n == c->v && !c->z; break; case 7: return 1;
    }
  return (cc & 1) ? !r : r;
}
static u64 shreg (u64 v, int type, int n, int w)
{
  if (w == 32) v = (u32) v;
  switch (type) { case 0: return n ? (v << n) & mask (w) : v; case 1: return v >> n; case 2: return (u64) (sx (v, w) >> n) & mask (w); default: return ror (v, n, w) & mask (w); }
}
static u64 extreg (u64 v, int o)
{ switch (o) { case 0: return (u8) v; case 1: return (u16) v; case 2: return (u32) v; case 4: return sx (v, 8); case 5: return sx (v, 16); case 6: return sx (v, 32); default: return v; } }

/* may pc be reached by an indirect branch here?  Only code of the image is guarded. */
static void landing (struct cpu *c, u64 to, int call, int viax16)
{
  if (to < (u64) emu_text || to >= (u64) emu_text_end) return;
  u32 i; memcpy (&i, (void *) to, 4);
  if (i == 0xd50324df) return;				/* bti jc */
  if (i == 0xd503245f || i == 0xd503233f || i == 0xd503237f) { if (call || viax16) return; }	/* bti c, paciasp, pacibsp */
  else if (i == 0xd503249f) { if (!call) return; }	/* bti j */
  c->badj++;
}

#define BITS(h, l) ((i >> (l)) & ((1u << ((h) - (l) + 1)) - 1))
static void vld (struct cpu *c, int t, u64 a, int sz) { emu_access (c, a, sz); memset (c->f[t], 0, 16); memcpy (c->f[t], (void *) a, sz); }
static void vst (struct cpu *c, int t, u64 a, int sz) { emu_access (c, a, sz); memcpy ((void *) a, c->f[t], sz); }
static u64 vg (struct cpu *c, int r, int idx, int sz) { u64 v = 0; memcpy (&v, c->f[r] + idx * sz, sz); return v; }
static void vset (struct cpu *c, int r, u64 lo, u64 hi) { memcpy (c->f[r], &lo, 8); memcpy (c->f[r] + 8, &hi, 8); }

static int simd (struct cpu *c, u32 i)
{
  int rd = BITS (4, 0), rn = BITS (9, 5), rm = BITS (20, 16), Q = BITS (30, 30);
  /* floating-point data processing */
  if ((i & 0x5f20fc00) == 0x1e200000 && BITS (31, 31) + 1)	/* fp <-> int */
    {
      int sf = BITS (31, 31), ty = BITS (23, 22), op = BITS (20, 16);
      if (op == 6 && ty == sf) { wx (c, rd, vg (c, rn, 0, sf ? 8 : 4), sf); return 0; }		/* fmov w/x, s/d */
      if (op == 7 && ty == sf) { vset (c, rd, sf ? rx (c, rn) : (u32) rx (c, rn), 0); return 0; }
      if (sf && ty == 2 && op == 14) { wx (c, rd, vg (c, rn, 1, 8), 1); return 0; }
      if (sf && ty == 2 && op == 15) { u64 v = rx (c, rn); memcpy (c->f[rd] + 8, &v, 8); return 0; }
      return 1;
    }
  if ((i & 0xff3ffc00) == 0x1e204000) { int sz = BITS (23, 22) ? 8 : 4; vset (c, rd, vg (c, rn, 0, sz), 0); return 0; }	/* fmov s/d */
  if ((i & 0xff201fe0) == 0x1e201000)	/* fmov imm */
    { u32 m = BITS (20, 13); u64 s = m >> 7, b = m >> 6 & 1, r = m & 0x3f;
      if (BITS (23, 22)) vset (c, rd, s << 63 | (b ? 0x3fcull : 0x400ull) << 52 | (r & 0x30) << 48 | (r & 15) << 48, 0);
      else vset (c, rd, s << 31 | (b ? 0x7cull : 0x80ull) << 23 | r << 19, 0);
      return 0; }
  if ((i & 0xbfe0fc00) == 0x0ea01c00) { u64 lo = vg (c, rn, 0, 8) | vg (c, rm, 0, 8), hi = vg (c, rn, 1, 8) | vg (c, rm, 1, 8); vset (c, rd, lo, Q ? hi : 0); return 0; }	/* orr v */
  if ((i & 0xbfe0fc00) == 0x2e201c00) { u64 lo = vg (c, rn, 0, 8) ^ vg (c, rm, 0, 8), hi = vg (c, rn, 1, 8) ^ vg (c, rm, 1, 8); vset (c, rd, lo, Q ? hi : 0); return 0; }	/* eor v */
  if ((i & 0x9ff80400) == 0x0f000400)	/* movi and friends */
    {
      int cm = BITS (15, 12), op = BITS (29, 29); u64 m = BITS (18, 16) << 5 | BITS (9, 5), v;
      if (cm == 14) { if (op) { v = 0; for (int k = 0; k < 8; k++) if (m >> k & 1) v |= 0xffull << 8 * k; } else v = m * 0x0101010101010101ull; }
      else if (cm < 8 && !(cm & 1)) { v = (m << (cm & 6) * 4) & 0xffffffffu; v |= v << 32; if (op) v = ~v; }
      else if ((cm & 13) == 8) { v = (m << (cm & 2) * 4) & 0xffff; v *= 0x0001000100010001ull; if (op) v = ~v; }
      else return 1;
      vset (c, rd, v, Q ? v : 0); return 0;
    }
  if ((i & 0xbfe0fc00) == 0x0e000c00)	/* dup general */
    { int sz = BITS (20, 16); sz &= -sz; u64 v = rx (c, rn); u8 t[16]; for (int k = 0; k < 16; k += sz) memcpy (t + k, &v, sz); memset (c->f[rd], 0, 16); memcpy (c->f[rd], t, Q ? 16 : 8); return 0; }
  if ((i & 0xbfe0fc00) == 0x0e000400)	/* dup element */
    { int m5 = BITS (20, 16), sz = m5 & -m5; int ix = m5 / sz >> 1; u64 v = vg (c, rn, ix, sz); u8 t[16]; for (int k = 0; k < 16; k += sz) memcpy (t + k, &v, sz); memset (c->f[rd], 0, 16); memcpy (c->f[rd], t, Q ? 16 : 8); return 0; }
  if ((i & 0xffe0fc00) == 0x5e000400) { int m5 = BITS (20, 16), sz = m5 & -m5; vset (c, rd, vg (c, rn, m5 / sz >> 1, sz), 0); return 0; }	/* mov d, v[] */
  if ((i & 0xffe0fc00) == 0x4e001c00) { int m5 = BITS (20, 16), sz = m5 & -m5; u64 v = rx (c, rn); memcpy (c->f[rd] + (m5 / sz >> 1) * sz, &v, sz); return 0; }	/* ins general */
  if ((i & 0xffe08400) == 0x6e000400) { int m5 = BITS (20, 16), sz = m5 & -m5; u64 v = vg (c, rn, BITS (14, 11) / sz, sz); memcpy (c->f[rd] + (m5 / sz >> 1) * sz, &v, sz); return 0; }	/* ins element */
  if ((i & 0xbfe0fc00) == 0x0e003c00) { int m5 = BITS (20, 16), sz = m5 & -m5; wx (c, rd, vg (c, rn, m5 / sz >> 1, sz), 1); return 0; }	/* umov */
  if ((i & 0xbfe0fc00) == 0x0e002c00) { int m5 = BITS (20, 16), sz = m5 & -m5; wx (c, rd, sx (vg (c, rn, m5 / sz >> 1, sz), 8 * sz), Q); return 0; }	/* smov */
  if ((i & 0xffe0fc00) == 0x4e003800 || (i & 0xbf20fc00) == 0x0e003800 || (i & 0xbf20fc00) == 0x0e007800)	/* zip1, zip2 */
    { int sz = 1 << BITS (23, 22), hi = BITS (14, 14), n = (Q ? 16 : 8) / sz; u8 t[16] = { 0 }; for (int k = 0; k < n / 2; k++) { memcpy (t + 2 * k * sz, c->f[rn] + (k + (hi ? n / 2 : 0)) * sz, sz); memcpy (t + (2 * k + 1) * sz, c->f[rm] + (k + (hi ? n / 2 : 0)) * sz, sz); } memcpy (c->f[rd], t, 16); return 0; }
  if ((i & 0xbfe08400) == 0x2e000000) { u8 t[32], o[16] = { 0 }; int w = Q ? 16 : 8; memcpy (t, c->f[rn], w); memcpy (t + w, c->f[rm], w); memcpy (o, t + BITS (14, 11), w); memcpy (c->f[rd], o, 16); return 0; }	/* ext */
  return 1;
}

static int loadstore (struct cpu *c, u32 i)
{
  int rt = BITS (4, 0), rn = BITS (9, 5), V = BITS (26, 26);
  if ((i & 0x3b000000) == 0x18000000)	/* literal */
    {
      int opc = BITS (31, 30); u64 a = c->pc + 4 * sx (BITS (23, 5), 19);
      if (V) { vld (c, rt, a, 4 << opc); return 0; }
      if (opc == 3) return 0;
      if (opc == 2) wx (c, rt, sx (ld (c, a, 4), 32), 1); else wx (c, rt, ld (c, a, 4 << opc), 1);
      return 0;
    }
  if ((i & 0x3a000000) == 0x28000000)	/* pairs */
    {
      int opc = BITS (31, 30), mode = BITS (24, 23), L = BITS (22, 22), rt2 = BITS (14, 10);
      int sz = V ? 4 << opc : opc == 2 ? 8 : 4; s64 off = sx (BITS (21, 15), 7) * sz;
      u64 b = base (c, rn), a = mode == 1 ? b : b + off;
      if (opc == 3) return 1;
      if (mode == 3 && rn == 31 && !L) c->x[31] = a;	/* the writeback is part of the push */
      if (V) { if (L) { vld (c, rt, a, sz); vld (c, rt2, a + sz, sz); } else { vst (c, rt, a, sz); vst (c, rt2, a + sz, sz); } }
      else if (L)
	{ u64 p = ld (c, a, sz), q = ld (c, a + sz, sz); if (opc == 1) { p = sx (p, 32); q = sx (q, 32); } wx (c, rt, p, 1); wx (c, rt2, q, 1); }
      else { u64 p = rx (c, rt), q = rx (c, rt2); st (c, a, p, sz); st (c, a + sz, q, sz); }
      if (mode == 1 || mode == 3) c->x[rn] = b + off;
      return 0;
    }
  if ((i & 0x3a000000) == 0x38000000)
    {
      int size = BITS (31, 30), opc = BITS (23, 22), sz = 1 << size; u64 a, b = base (c, rn), wb = 0; int dowb = 0;
      if (V && (opc & 2)) { if (size) return 1; sz = 16; }
      if (BITS (24, 24)) a = b + BITS (21, 10) * (u64) sz;
      else if (BITS (21, 21))
	{ if (BITS (11, 10) != 2) return 1; int S = BITS (12, 12), o = BITS (15, 13); u64 m = extreg (rx (c, BITS (20, 16)), o); int lg = sz == 16 ? 4 : size; a = b + (S ? m << lg : m); }
      else
	{ s64 off = sx (BITS (20, 12), 9); int m = BITS (11, 10); if (m == 2) return 1; a = m == 1 ? b : b + off; if (m & 1) { dowb = 1; wb = b + off; } }
      if (dowb && rn == 31 && wb < b) c->x[31] = wb;
      if (V) { if (opc & 1) vld (c, rt, a, sz); else vst (c, rt, a, sz); }
      else if (opc == 0) { st (c, a, rx (c, rt), sz); }
      else if (opc == 1) wx (c, rt, ld (c, a, sz), 1);
      else if (size == 3) { }		/* prefetch */
      else wx (c, rt, sx (ld (c, a, sz), 8 * sz), opc == 2);
      if (dowb) c->x[rn] = wb;
      return 0;
    }
  if ((i & 0xbf000000) == 0x0d000000)	/* single structure */
    {
      int L = BITS (22, 22), R = BITS (21, 21), op = BITS (15, 13), S = BITS (12, 12), size = BITS (11, 10), Q = BITS (30, 30), post = BITS (23, 23);
      int sel = ((op & 1) << 1 | R) + 1, sc = op >> 1, ix, sz; u64 a = base (c, rn);
      if (sc == 0) { ix = Q << 3 | S << 2 | size; sz = 1; } else if (sc == 1) { ix = Q << 2 | S << 1 | size >> 1; sz = 2; }
      else if (sc == 2) { if (size & 1) { ix = Q; sz = 8; } else { ix = Q << 1 | S; sz = 4; } }
      else { sz = 1 << size; ix = -1; if (!L) return 1; }
      for (int k = 0; k < sel; k++)
	{ int t = (rt + k) & 31; u64 v;
	  if (ix < 0) { v = ld (c, a + k * sz, sz); for (int q = 0; q < 16; q += sz) memcpy (c->f[t] + q, &v, sz); if (!Q) memset (c->f[t] + 8, 0, 8); }
	  else if (L) { v = ld (c, a + k * sz, sz); memcpy (c->f[t] + ix * sz, &v, sz); } else st (c, a + k * sz, vg (c, t, ix, sz), sz); }
      if (post) { int rm = BITS (20, 16); c->x[rn] += rm == 31 ? (u64) sel * sz : c->x[rm]; }
      return 0;
    }
  if ((i & 0xbf000000) == 0x0c000000)	/* multiple structures */
    {
      int L = BITS (22, 22), op = BITS (15, 12), Q = BITS (30, 30), post = BITS (23, 23), sz = 1 << BITS (11, 10), w = Q ? 16 : 8, n, il; u64 a = base (c, rn);
      switch (op) { case 0: n = 4; il = 4; break; case 4: n = 3; il = 3; break; case 8: n = 2; il = 2; break; case 7: n = 1; il = 1; break; case 10: n = 2; il = 1; break; case 6: n = 3; il = 1; break; case 2: n = 4; il = 1; break; default: return 1; }
      if (L) for (int k = 0; k < n; k++) memset (c->f[(rt + k) & 31], 0, 16);
      u64 p = a;
      if (il == 1) for (int k = 0; k < n; k++) for (int e = 0; e < w; e += sz, p += sz) { u8 *q = c->f[(rt + k) & 31] + e; emu_access (c, p, sz); if (L) memcpy (q, (void *) p, sz); else memcpy ((void *) p, q, sz); }
      else for (int e = 0; e < w; e += sz) for (int k = 0; k < n; k++, p += sz) { u8 *q = c->f[(rt + k) & 31] + e; emu_access (c, p, sz); if (L) memcpy (q, (void *) p, sz); else memcpy ((void *) p, q, sz); }
      if (post) { int rm = BITS (20, 16); c->x[rn] += rm == 31 ? (u64) n * w : c->x[rm]; }
      return 0;
    }
  if ((i & 0x3f000000) == 0x08000000)	/* exclusive and ordered */
    {
      int sz = 1 << BITS (31, 30), o = BITS (23, 21), L = o >> 1 & 1; u64 a = base (c, rn);
      if ((o & 5) == 4 || (o & 5) == 0) { if (L) wx (c, rt, ld (c, a, sz), 1); else { st (c, a, rx (c, rt), sz); if (!(o & 4)) wx (c, BITS (20, 16), 0, 1); } return 0; }
      return 1;
    }
  return 1;
}

int emu_step (struct cpu *c)
{
  u32 i; memcpy (&i, (void *) c->pc, 4);
  u64 next = c->pc + 4;
  int sf = BITS (31, 31), w = sf ? 64 : 32, rd = BITS (4, 0), rn = BITS (9, 5), rm = BITS (20, 16);
  switch (BITS (28, 25))
    {
    case 8: case 9:		/* data processing, immediate */
      switch (BITS (25, 23))
	{
	case 0: case 1: { s64 im = sx ((u64) BITS (23, 5) << 2 | BITS (30, 29), 21); wx (c, rd, sf ? (c->pc & ~0xfffull) + (im << 12) : c->pc + im, 1); break; }
	case 2: { u64 im = BITS (21, 10); if (BITS (22, 22)) im <<= 12; int sub = BITS (30, 30), S = BITS (29, 29); u64 r = addc (c, c->x[rn], sub ? ~im : im, sub, sf, S); if (S) wx (c, rd, r, sf); else wsp (c, rd, r, sf); break; }
	case 4: { u64 wm, tm; if (!bitmasks (BITS (22, 22), BITS (15, 10), BITS (21, 16), w, &wm, &tm)) return 1;
	    u64 a = rx (c, rn), r; int op = BITS (30, 29); r = op == 0 || op == 3 ? a & wm : op == 1 ? a | wm : a ^ wm; if (!sf) r = (u32) r;
	    if (op == 3) { c->n = r >> (w - 1) & 1; c->z = !r; c->c = c->v = 0; wx (c, rd, r, sf); } else wsp (c, rd, r, sf); break; }
	case 5: { int op = BITS (30, 29), hw = BITS (22, 21) * 16; u64 im = (u64) BITS (20, 5) << hw; if (op == 0) wx (c, rd, ~im, sf); else if (op == 2) wx (c, rd, im, sf); else if (op == 3) wx (c, rd, (rx (c, rd) & ~(0xffffull << hw)) | im, sf); else return 1; break; }
	case 6: { u64 wm, tm; int op = BITS (30, 29), R = BITS (21, 16), S = BITS (15, 10); if (!bitmasks (BITS (22, 22), S, R, w, &wm, &tm)) return 1;
	    u64 s = rx (c, rn), dst = op == 1 ? rx (c, rd) : 0; if (!sf) s = (u32) s;
	    u64 bot = (dst & ~wm) | (ror (s, R, w) & wm), top = op == 0 ? ((s >> S & 1) ? ~0ull : 0) : dst; wx (c, rd, (top & ~tm) | (bot & tm), sf); break; }
	case 7: { int l = BITS (15, 10); u64 hi = rx (c, rn), lo = rx (c, rm); if (!sf) { hi = (u32) hi; lo = (u32) lo; } wx (c, rd, l ? (lo >> l) | (hi << (w - l)) : lo, sf); break; }
	default: return 1;
	}
      break;
    case 10: case 11:		/* branches, system */
      if ((i & 0x7c000000) == 0x14000000) { if (sf) c->x[30] = next; next = c->pc + 4 * sx (BITS (25, 0), 26); }
      else if ((i & 0xff000010) == 0x54000000) { if (cond (c, BITS (3, 0))) next = c->pc + 4 * sx (BITS (23, 5), 19); }
      else if ((i & 0x7e000000) == 0x34000000) { u64 v = rx (c, rd); if (!sf) v = (u32) v; if ((v != 0) == BITS (24, 24)) next = c->pc + 4 * sx (BITS (23, 5), 19); }
      else if ((i & 0x7e000000) == 0x36000000) { int b = sf << 5 | BITS (23, 19); if ((rx (c, rd) >> b & 1) == BITS (24, 24)) next = c->pc + 4 * sx (BITS (18, 5), 14); }
      else if ((i & 0xfffff000) == 0xd5032000)		/* hints */
	{
	  int h = BITS (11, 5);
	  /* return address signing: modelled as an involution keyed by the stack pointer */
	  if (h == 25 || h == 27) c->x[30] ^= (c->x[31] * 0x9E3779B97F4A7C15ull) & 0xffff000000000000ull;
	  else if (h == 29 || h == 31) c->x[30] ^= (c->x[31] * 0x9E3779B97F4A7C15ull) & 0xffff000000000000ull;
	  else if (h == 8 || h == 10) c->x[17] ^= (c->x[16] * 0x9E3779B97F4A7C15ull) & 0xffff000000000000ull;
	  else if (h == 12 || h == 14) c->x[17] ^= (c->x[16] * 0x9E3779B97F4A7C15ull) & 0xffff000000000000ull;
	}
      else if ((i & 0xfffff01f) == 0xd503301f) { }	/* barriers */
      else if ((i & 0xfff00000) == 0xd5300000) { u32 r = BITS (19, 5); wx (c, rd, r == 0x5e82 ? 0 : r == 0x5801 ? 0x84448004 : 0, 1); }	/* mrs */
      else if ((i & 0xfff80000) == 0xd5080000) { }	/* cache maintenance */
      else if ((i & 0xfffffc1f) == 0xd61f0000) { next = rx (c, rn); landing (c, next, 0, rn == 16 || rn == 17); }
      else if ((i & 0xfffffc1f) == 0xd63f0000) { next = rx (c, rn); c->x[30] = c->pc + 4; landing (c, next, 1, 0); }
      else if ((i & 0xfffffc1f) == 0xd65f0000) next = rx (c, rn);
      else if ((i & 0xffe0001f) == 0xd4200000) return 2;
      else return 1;
      break;
    case 4: case 6: case 12: case 14: { int r = loadstore (c, i); if (r) return r; break; }
    case 5: case 13:		/* data processing, register */
      if ((i & 0x1f000000) == 0x0a000000)
	{ u64 a = rx (c, rn), b = shreg (rx (c, rm), BITS (23, 22), BITS (15, 10), w), r; if (BITS (21, 21)) b = ~b; int op = BITS (30, 29);
	  r = op == 0 || op == 3 ? a & b : op == 1 ? a | b : a ^ b; if (!sf) r = (u32) r; if (op == 3) { c->n = r >> (w - 1) & 1; c->z = !r; c->c = c->v = 0; } wx (c, rd, r, sf); }
      else if ((i & 0x1f200000) == 0x0b000000)
	{ u64 b = shreg (rx (c, rm), BITS (23, 22), BITS (15, 10), w); int sub = BITS (30, 30); wx (c, rd, addc (c, rx (c, rn), sub ? ~b : b, sub, sf, BITS (29, 29)), sf); }
      else if ((i & 0x1fe00000) == 0x0b200000)
	{ u64 b = extreg (rx (c, rm), BITS (15, 13)) << BITS (12, 10); int sub = BITS (30, 30), S = BITS (29, 29); u64 r = addc (c, c->x[rn], sub ? ~b : b, sub, sf, S); if (S) wx (c, rd, r, sf); else wsp (c, rd, r, sf); }
      else if ((i & 0x1fe0fc00) == 0x1a000000) { int sub = BITS (30, 30); u64 b = rx (c, rm); wx (c, rd, addc (c, rx (c, rn), sub ? ~b : b, c->c, sf, BITS (29, 29)), sf); }
      else if ((i & 0x3fe00410) == 0x3a400000)
	{ int im = BITS (11, 11), sub = BITS (30, 30); if (cond (c, BITS (15, 12))) { u64 b = im ? (u64) rm : rx (c, rm); addc (c, rx (c, rn), sub ? ~b : b, sub, sf, 1); } else { int f = BITS (3, 0); c->n = f >> 3; c->z = f >> 2 & 1; c->c = f >> 1 & 1; c->v = f & 1; } }
      else if ((i & 0x3fe00800) == 0x1a800000)
	{ u64 r; if (cond (c, BITS (15, 12))) r = rx (c, rn); else { r = rx (c, rm); if (BITS (30, 30)) r = ~r; if (BITS (10, 10)) r++; } wx (c, rd, r, sf); }
      else if ((i & 0x7fe00000) == 0x1ac00000)
	{ u64 a = rx (c, rn), b = rx (c, rm); if (!sf) { a = (u32) a; b = (u32) b; }
	  switch (BITS (15, 10)) { case 2: wx (c, rd, b ? a / b : 0, sf); break; case 3: wx (c, rd, !b ? 0 : sf ? (b == ~0ull ? -a : (u64) ((s64) a / (s64) b)) : ((s32) b == -1 ? -a : (u64) ((s32) a / (s32) b)), sf); break;
	    case 8: wx (c, rd, a << (b & (w - 1)), sf); break; case 9: wx (c, rd, a >> (b & (w - 1)), sf); break; case 10: wx (c, rd, sx (a, w) >> (b & (w - 1)), sf); break; case 11: wx (c, rd, ror (a, b & (w - 1), w), sf); break; default: return 1; } }
      else if ((i & 0x7fe00000) == 0x5ac00000)
	{ u64 a = rx (c, rn), r = 0; if (!sf) a = (u32) a; int op = BITS (15, 10);
	  if (op == 0) for (int k = 0; k < w; k++) r |= (a >> k & 1) << (w - 1 - k); else if (op == 4) r = a ? (u64) (__builtin_clzll (a) - (64 - w)) : (u64) w; 
	  else if (op == 1 || op == 2 || op == 3) { int g = op == 1 ? 2 : op == 2 ? 4 : 8; u8 t[8], o[8]; memcpy (t, &a, 8); for (int k = 0; k < w / 8; k++) o[k] = t[(k / g) * g + g - 1 - k % g]; memcpy (&r, o, w / 8); } else return 1;
	  wx (c, rd, r, sf); }
      else if ((i & 0x1f000000) == 0x1b000000)
	{ int op = BITS (23, 21), o0 = BITS (15, 15), ra = BITS (14, 10); u64 a = rx (c, rn), b = rx (c, rm), m;
	  if (op == 0) { m = a * b; wx (c, rd, o0 ? rx (c, ra) - m : rx (c, ra) + m, sf); }
	  else if (op == 1) { m = (s64) (s32) a * (s32) b; wx (c, rd, o0 ? rx (c, ra) - m : rx (c, ra) + m, 1); }
	  else if (op == 5) { m = (u64) (u32) a * (u32) b; wx (c, rd, o0 ? rx (c, ra) - m : rx (c, ra) + m, 1); }
	  else if (op == 2) wx (c, rd, (u64) ((__int128) (s64) a * (s64) b >> 64), 1);
	  else if (op == 6) wx (c, rd, (u64) ((unsigned __int128) a * b >> 64), 1); else return 1; }
      else return 1;
      break;
    case 7: case 15: { int r = simd (c, i); if (r) return r; break; }
    default: return 1;
    }
  c->pc = next;
  return 0;
}
