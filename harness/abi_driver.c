/* Conformance driver for calls and closures: performs the cases of a plan
   file against the real library and records raw observations, one JSON
   object per line.  It decides nothing; TLC does.

   plan line (tab separated):
   id abi mode fx rm rsz ral x87 stb rw nargs rettype { argtype sz al br ro ri }*
   Types are blank separated tokens: a kind, or "{ types }".  */
#define _GNU_SOURCE
#include <ffi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <setjmp.h>

typedef uint8_t u8; typedef uint64_t u64;
struct vf_regs {
  u64 rax, rbx, rcx, rdx, rsi, rdi, rbp, rsp, r8, r9, r10, r11, r12, r13, r14, r15, fl;
  uint32_t mxcsr; uint16_t fcw, pad; u8 fenv[32]; u8 xmm[16][16]; u8 st[8][16]; uint32_t nst; u8 fill[76];
};
_Static_assert (sizeof (struct vf_regs) == 640, "layout");
_Static_assert (__builtin_offsetof (struct vf_regs, xmm) == 176, "layout");
_Static_assert (__builtin_offsetof (struct vf_regs, st) == 432, "layout");
_Static_assert (__builtin_offsetof (struct vf_regs, nst) == 560, "layout");
extern struct vf_regs vf_in, vf_out, vf_aft, vf_img, vf_sent;
extern u8 vf_stk[65536], vf_stk2[65536]; extern u64 vf_stkn, vf_rsp0, vf_rsp1; extern void *vf_target;
extern int vf_ms, vf_out_nst; extern u64 vf_h_rsp, vf_h_fl; extern u8 vf_h_fenv[32]; extern uint32_t vf_h_mxcsr;
extern void vf_callee (void), vf_caller (void), vf_handler (void);
extern void vf_guard (void *fn, void *, void *, void *, void *, void *);

#define MAXA 136
#define MAXS 6144		/* bytes of one value */
#define TXT 32768
#define MAXTYPES 4096
static u64 seed0 = 1;
static FILE *out;

/* ---- random bytes ---- */
static u64 rs;
static u64 rnd (void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull; }
static void rseed (u64 a, u64 b) { rs = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15) * 0xBF58476D1CE4E5B9ull; if (!rs) rs = 88172645463325252ull; for (int i = 0; i < 4; i++) rnd (); }
static void rfill (void *p, size_t n) { u8 *q = p; while (n--) *q++ = rnd () >> 33; }
static void ldfill (void *p)	/* a normal 80-bit value, random padding */
{ u8 *q = p; rfill (q, 16); q[7] |= 0x80; unsigned e = 0x3000 + (rnd () >> 40) % 0x1f00; q[8] = e; q[9] = (e >> 8) | (rnd () & 0x80 ? 0x80 : 0); }

/* mostly random bits, sometimes a corner: zeros, ones, sign bits, tiny numbers */
static void vfill (void *p, size_t n)
{
  u8 *q = p; unsigned k = (rnd () >> 20) % 12; rfill (p, n);
  if (k == 0) memset (p, 0, n);
  else if (k == 1) memset (p, 0xff, n);
  else if (k == 2) { memset (p, 0, n); q[n - 1] = 0x80; }
  else if (k == 3) { memset (p, 0xff, n); q[n - 1] = 0x7f; }
  else if (k == 4) { memset (p, 0, n); q[0] = 1 + rnd () % 255; }
  else if (k == 5) for (size_t i = 0; i < n; i++) q[i] |= 0x80;
}

/* ---- types ---- */
struct scal { const char *name; ffi_type *t; };
static ffi_type cs8t, cs16t, cs32t, cs64t;
static ffi_type *cs8e[] = { &ffi_type_sint8, 0 }, *cs16e[] = { &ffi_type_sint16, 0 }, *cs32e[] = { &ffi_type_sint32, 0 }, *cs64e[] = { &ffi_type_sint64, 0 };
static ffi_type cs8t = { 2, 1, FFI_TYPE_COMPLEX, cs8e }, cs16t = { 4, 2, FFI_TYPE_COMPLEX, cs16e }, cs32t = { 8, 4, FFI_TYPE_COMPLEX, cs32e }, cs64t = { 16, 8, FFI_TYPE_COMPLEX, cs64e };
static struct scal scals[] = {
  { "v", &ffi_type_void }, { "u8", &ffi_type_uint8 }, { "s8", &ffi_type_sint8 }, { "u16", &ffi_type_uint16 }, { "s16", &ffi_type_sint16 },
  { "u32", &ffi_type_uint32 }, { "s32", &ffi_type_sint32 }, { "u64", &ffi_type_uint64 }, { "s64", &ffi_type_sint64 }, { "p", &ffi_type_pointer },
  { "f", &ffi_type_float }, { "d", &ffi_type_double }, { "ld", &ffi_type_longdouble },
  { "cf", &ffi_type_complex_float }, { "cd", &ffi_type_complex_double }, { "cld", &ffi_type_complex_longdouble },
  { "cs8", &cs8t }, { "cs16", &cs16t }, { "cs32", &cs32t }, { "cs64", &cs64t }, { 0, 0 } };
static ffi_type tpool[MAXTYPES]; static ffi_type *epool[MAXTYPES * 16]; static int ntp, nep;

static char *tok (char **s) { while (**s == ' ') (*s)++; char *b = *s; while (**s && **s != ' ') (*s)++; if (**s) *(*s)++ = 0; return b; }
static ffi_type *parse (char **s, char *first)
{
  char *k = first ? first : tok (s);
  if (!strcmp (k, "["))		/* a union, described as the manual says */
    {
      ffi_cif dummy; ffi_type *u = &tpool[ntp++], *e;
      u->size = atol (tok (s)); u->alignment = atol (tok (s)); u->type = FFI_TYPE_STRUCT;
      u->elements = &epool[nep]; nep += 2;
      u->elements[0] = e = parse (s, 0); u->elements[1] = 0;
      ffi_prep_cif (&dummy, FFI_DEFAULT_ABI, 0, e, 0);
      tok (s);
      return u;
    }
  if (strcmp (k, "{"))
    { for (struct scal *c = scals; c->name; c++) if (!strcmp (c->name, k)) return c->t; fprintf (stderr, "bad type %s\n", k); exit (3); }
  int n = 0, cap = 16; ffi_type **el = malloc (cap * sizeof *el);
  for (;;) { char *t = tok (s); if (!strcmp (t, "}")) break; if (n == cap) el = realloc (el, (cap *= 2) * sizeof *el); el[n++] = parse (s, t); }
  ffi_type *t = &tpool[ntp++];
  t->size = 0; t->alignment = 0; t->type = FFI_TYPE_STRUCT; t->elements = &epool[nep];
  for (int i = 0; i < n; i++) epool[nep++] = el[i];
  epool[nep++] = 0; free (el);
  return t;
}

/* ---- guarded arena: slot i's object ends at an unreadable page ---- */
static u8 *arena; static size_t PG = 4096; static struct { u8 *p; size_t n; } obj[MAXA];
#define ASLOT 3
static void arena_init (void)
{ arena = mmap (0, MAXA * ASLOT * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < MAXA; i++) mprotect (arena + (i * ASLOT + ASLOT - 1) * PG, PG, PROT_NONE); }
static u8 *place (int i, size_t sz, size_t al)
{ u8 *e = arena + (i * ASLOT + ASLOT - 1) * PG; u8 *p = (u8 *) (((uintptr_t) (e - sz)) & ~(uintptr_t) (al - 1)); obj[i].p = p; obj[i].n = sz; return p; }

/* ---- case ---- */
static struct cs {
  long id; char abi[16], mode[16]; int fx, rm, rsz, ral, x87, stb, rw, n;
  char *rt; struct { char *t; int sz, al, br, ro, ri; } a[MAXA];
} C;
static ffi_type *rtype, *atype[MAXA + 1];
static ffi_cif cif;
static u8 av0[MAXA][MAXS];
static u8 memret[MAXS]; static u8 rbuf[MAXS + 1024] __attribute__ ((aligned (64)));
static void *avec[MAXA + 1], *avec0[MAXA + 1];
static ffi_raw raw[512], raw0[512];
static int entered; static u64 hid_seen; static int hid_wrote;
static u8 cstk[65536]; static int cstkn;
static u8 sref[MAXA][MAXS]; static int srefn[MAXA], srefal[MAXA]; static u64 slotv[MAXA]; static int nslot;
static u8 *rvalue_p; static u8 *stack_base;
static volatile long *progress;

static void hx (const void *p, size_t n) { const u8 *q = p; for (size_t i = 0; i < n; i++) fprintf (out, "%02x", q[i]); }
static void jh (const char *k, const void *p, size_t n) { fprintf (out, ",\"%s\":\"", k); hx (p, n); fputc ('"', out); }
static void ji (const char *k, long v) { fprintf (out, ",\"%s\":%ld", k, v); }

static int x87used (const u8 *env) { unsigned tw = env[8] | env[9] << 8; int n = 0; for (int i = 0; i < 8; i++) if (((tw >> (2 * i)) & 3) != 3) n++; return n; }

void vf_record_call (void)	/* called by vf_callee, on the callee's stack */
{
  entered++;
  u8 *sp = (u8 *) vf_in.rsp + 8;
  nslot = 0; cstkn = 0;
  if (vf_ms)
    {
      int ns = C.stb / 8;
      u64 sl[MAXA + 8];
      sl[0] = vf_in.rcx; sl[1] = vf_in.rdx; sl[2] = vf_in.r8; sl[3] = vf_in.r9;
      for (int i = 4; i < ns; i++) memcpy (&sl[i], sp + 8 * i, 8);
      nslot = ns;
      for (int i = 0; i < ns; i++)
	{
	  u8 *p = (u8 *) sl[i], *e = 0;
	  slotv[i] = sl[i]; srefn[i] = 0; srefal[i] = (uintptr_t) p & 15;
	  for (int j = 0; j < C.n; j++) if (p >= obj[j].p && p < obj[j].p + obj[j].n) e = obj[j].p + obj[j].n;
	  if (p >= sp && p < stack_base) e = stack_base;
	  if (e) { size_t k = e - p; if (k > MAXS) k = MAXS; memcpy (sref[i], p, k); srefn[i] = k; }
	}
      /* a callee may overwrite what it was passed by value */
      for (int i = 0; i < ns; i++)
	for (int j = 0; j < C.n; j++)
	  if ((u8 *) sl[i] == obj[j].p) for (size_t k = 0; k < obj[j].n; k++) obj[j].p[k] ^= 0x5a;
      memset (sp, 0xcc, C.stb > 32 ? C.stb : 32);
    }
  else
    {
      cstkn = C.stb; memcpy (cstk, sp, C.stb);
      memset (sp, 0xcc, C.stb);
    }
  if (C.rm)
    {
      u64 h = vf_ms ? vf_in.rcx : vf_in.rdi;
      hid_seen = h; hid_wrote = 0;
      if (rvalue_p == 0 || (u8 *) h == rvalue_p) { memcpy ((void *) h, memret, C.rsz); hid_wrote = 1; }
      vf_out.rax = h;
    }
}

static int fl_df (u64 fl) { return (fl >> 10) & 1; }
static const char *csname[] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };
static u64 csval (struct vf_regs *r, int i) { u64 v[] = { r->rbx, r->rbp, r->r12, r->r13, r->r14, r->r15 }; return v[i]; }

static void emit_state (struct vf_regs *ref, int msclosure, uint32_t mx0, uint16_t cw0)
{
  int first = 1;
  fprintf (out, ",\"cs\":[");
#define BAD(nm) do { fprintf (out, "%s\"%s\"", first ? "" : ",", nm); first = 0; } while (0)
  for (int i = 0; i < 6; i++) if (csval (&vf_aft, i) != csval (ref, i)) BAD (csname[i]);
  if (msclosure)
    {
      if (vf_aft.rsi != ref->rsi) BAD ("rsi");
      if (vf_aft.rdi != ref->rdi) BAD ("rdi");
      for (int i = 6; i < 16; i++) if (memcmp (vf_aft.xmm[i], ref->xmm[i], 16)) { char b[8]; sprintf (b, "xmm%d", i); BAD (b); }
    }
  if ((vf_aft.mxcsr & 0xffc0) != (mx0 & 0xffc0)) BAD ("mxcsr");
  if (vf_aft.fcw != cw0) BAD ("fcw");
  if (fl_df (vf_aft.fl)) BAD ("df");
  fprintf (out, "]");
}

static void build (void)
{
  ntp = nep = 0;
  static char b[TXT]; char *s;
  strcpy (b, C.rt); s = b; rtype = parse (&s, 0);
  for (int i = 0; i < C.n; i++)
    {
      int share = -1;
      if (rnd () & 1) for (int j = 0; j < i; j++) if (!strcmp (C.a[j].t, C.a[i].t)) { share = j; break; }
      if (share >= 0) { atype[i] = atype[share]; continue; }
      strcpy (b, C.a[i].t); s = b; atype[i] = parse (&s, 0);
    }
  atype[C.n] = 0;
}

static u8 snap[sizeof tpool + sizeof epool + sizeof scals * 4 + 65536]; static size_t snapn;
static size_t snapshot (u8 *d)
{ size_t o = 0;
#define PUT(p, n) do { memcpy (d + o, p, n); o += n; } while (0)
  PUT (tpool, ntp * sizeof *tpool); PUT (epool, nep * sizeof *epool);
  for (struct scal *c = scals; c->name; c++) PUT (c->t, sizeof (ffi_type));
  PUT (atype, sizeof (void *) * (C.n + 1));
  return o; }

static int abinum (const char *a) { return !strcmp (a, "unix64") ? FFI_UNIX64 : !strcmp (a, "win64") ? FFI_WIN64 : FFI_GNUW64; }

static void fill_values (void)
{
  for (int i = 0; i < C.n; i++)
    {
      u8 *p = place (i, C.a[i].sz, C.a[i].al);
      vfill (p, C.a[i].sz);
      memcpy (av0[i], p, C.a[i].sz);
      avec[i] = avec0[i] = p;
    }
}
/* widened value of argument i in an 8-byte word, as the raw API asks for */
static void widen (ffi_type *t, const void *p, void *w)
{
  memset (w, 0, 8);
  switch (t->type)
    {
    case FFI_TYPE_SINT8: *(int64_t *) w = *(int8_t *) p; break;
    case FFI_TYPE_SINT16: *(int64_t *) w = *(int16_t *) p; break;
    case FFI_TYPE_SINT32: *(int64_t *) w = *(int32_t *) p; break;
    case FFI_TYPE_UINT8: *(u64 *) w = *(uint8_t *) p; break;
    case FFI_TYPE_UINT16: *(u64 *) w = *(uint16_t *) p; break;
    case FFI_TYPE_UINT32: *(u64 *) w = *(uint32_t *) p; break;
    default: memcpy (w, p, t->size < 8 ? t->size : 8);
    }
}

static void emit_sizes (void)
{
  fprintf (out, ",\"tsz\":[%ld", (long) rtype->size);
  for (int i = 0; i < C.n; i++) fprintf (out, ",%ld", (long) atype[i]->size);
  fprintf (out, "],\"tal\":[%d", rtype->alignment);
  for (int i = 0; i < C.n; i++) fprintf (out, ",%d", atype[i]->alignment);
  fprintf (out, "]");
}
static void emit_hexlist (const char *k, int n, u8 (*get)[MAXS]) 
{ fprintf (out, ",\"%s\":[", k); for (int i = 0; i < n; i++) { fprintf (out, "%s\"", i ? "," : ""); hx (get[i], C.a[i].sz); fprintf (out, "\""); } fprintf (out, "]"); }

static int do_prep (void)
{
  int st;
  if (C.fx >= 0) st = ffi_prep_cif_var (&cif, abinum (C.abi), C.fx, C.n, rtype, atype);
  else st = ffi_prep_cif (&cif, abinum (C.abi), C.n, rtype, atype);
  return st;
}

static void run_call (void)
{
  int israw = !strcmp (C.mode, "raw"), isjraw = !strcmp (C.mode, "jraw"), isgo = !strcmp (C.mode, "go");
  vf_ms = strcmp (C.abi, "unix64") != 0;
  build ();
  fill_values ();
  rfill (&vf_out, sizeof vf_out); rfill (&vf_sent, sizeof vf_sent);
  ldfill (vf_out.st[0]); ldfill (vf_out.st[1]); vf_out_nst = C.x87;
  rfill (memret, C.rsz);
  if (rnd () & 1) { vfill (&vf_out.rax, 8); vfill (&vf_out.rdx, 8); vfill (vf_out.xmm[0], 16); vfill (vf_out.xmm[1], 16); }
  if (C.rsz == 0) vf_out.rax = rnd ();
  int rvnull = (rnd () >> 20) % 4 == 0;
  size_t body = C.rsz > 8 ? C.rsz : 8; if (C.rsz == 0) body = 8;
  u64 chain = rnd ();
  int st = do_prep ();
  fprintf (out, "{\"i\":%ld,\"st\":%d", C.id, st);
  if (st) { fprintf (out, ",\"ok\":0}\n"); return; }
  fprintf (out, ",\"ok\":1");
  emit_sizes ();
  emit_hexlist ("av", C.n, av0);
  if (israw || isjraw)
    {
      void *pa[MAXA + 1];
      rfill (raw, sizeof raw);
      for (int i = 0; i < C.n; i++)
	if (C.a[i].ri) raw[C.a[i].ro].ptr = avec[i];
	else { u64 w; widen (atype[i], avec[i], &w); if (C.a[i].sz <= 8) memcpy (&raw[C.a[i].ro], &w, 8); else memcpy (&raw[C.a[i].ro], avec[i], C.a[i].sz); }
      memcpy (raw0, raw, sizeof raw);
      ji ("rsize", israw ? ffi_raw_size (&cif) : ffi_java_raw_size (&cif));
      if (israw) ffi_raw_to_ptrarray (&cif, raw, pa); else ffi_java_raw_to_ptrarray (&cif, raw, pa);
      fprintf (out, ",\"pta\":[");	/* word offset in the area, or -1: the object itself, else -2 */
      for (int i = 0; i < C.n; i++)
	{ long o = -2; if (pa[i] == avec[i]) o = -1; else if ((u8 *) pa[i] >= (u8 *) raw && (u8 *) pa[i] < (u8 *) (raw + 500)) { o = (u8 *) pa[i] - (u8 *) raw; o = o % 8 ? -3 : o / 8; }
	  fprintf (out, "%s%ld", i ? "," : "", o); }
      fprintf (out, "]");
      static ffi_raw back[512]; rfill (back, sizeof back); u8 tail[64]; memcpy (tail, (u8 *) (back + C.rw), 64);
      if (israw) ffi_ptrarray_to_raw (&cif, avec, back); else ffi_java_ptrarray_to_raw (&cif, avec, back);
      jh ("back", back, C.rw * 8);
      ji ("backtail", memcmp (tail, back + C.rw, 64) ? 1 : 0);
      fprintf (out, ",\"backptr\":[");
      for (int i = 0; i < C.n; i++) fprintf (out, "%s%d", i ? "," : "", C.a[i].ri && back[C.a[i].ro].ptr == avec[i] ? 1 : 0);
      fprintf (out, "]");
    }
  u8 cif0[sizeof cif]; memcpy (cif0, &cif, sizeof cif);
  static u8 snap2[sizeof snap]; snapn = snapshot (snap);
  uint32_t mx0 = (rnd () & 3) << 13 | 0x1f80; uint16_t cw0 = 0x037f | (rnd () & 3) << 10;
  fprintf (out, ",\"runs\":[");
  int reps = 2;
  for (int rep = 0; rep < reps; rep++)
    {
      memset (rbuf, 0xa5, sizeof rbuf);
      rvalue_p = rvnull ? 0 : rbuf + 64;
      u8 *pattern_end = rbuf + 64 + body;
      entered = 0; hid_seen = 0; hid_wrote = 0; nslot = 0; cstkn = 0;
      memset (&vf_in, 0, sizeof vf_in);
      uint32_t oldmx; uint16_t oldcw;
      __asm__ volatile ("stmxcsr %0\n\tfnstcw %1\n\tldmxcsr %2\n\tfldcw %3" : "=m" (oldmx), "=m" (oldcw) : "m" (mx0), "m" (cw0));
      if (israw) vf_guard ((void *) ffi_raw_call, &cif, (void *) vf_callee, rvalue_p, raw, 0);
      else if (isjraw) vf_guard ((void *) ffi_java_raw_call, &cif, (void *) vf_callee, rvalue_p, raw, 0);
      else if (isgo) vf_guard ((void *) ffi_call_go, &cif, (void *) vf_callee, rvalue_p, avec, (void *) chain);
      else vf_guard ((void *) ffi_call, &cif, (void *) vf_callee, rvalue_p, avec, 0);
      int depth = x87used (vf_aft.fenv);
      __asm__ volatile ("fninit\n\tldmxcsr %0\n\tfldcw %1" :: "m" (oldmx), "m" (oldcw));
      fprintf (out, "%s{\"ent\":%d", rep ? "," : "", entered);
      if (vf_ms)
	{
	  fprintf (out, ",\"sl\":[");
	  for (int i = 0; i < nslot; i++) { fprintf (out, "%s\"", i ? "," : ""); hx (&slotv[i], 8); fprintf (out, "\""); }
	  fprintf (out, "],\"rf\":[");
	  for (int i = 0; i < nslot; i++) { fprintf (out, "%s\"", i ? "," : ""); hx (sref[i], srefn[i]); fprintf (out, "\""); }
	  fprintf (out, "],\"ra\":[");
	  for (int i = 0; i < nslot; i++) fprintf (out, "%s%d", i ? "," : "", srefal[i]);
	  fprintf (out, "],\"x\":[");
	  for (int i = 0; i < 4; i++) { fprintf (out, "%s\"", i ? "," : ""); hx (vf_in.xmm[i], 8); fprintf (out, "\""); }
	  fprintf (out, "]");
	}
      else
	{
	  u64 g[6] = { vf_in.rdi, vf_in.rsi, vf_in.rdx, vf_in.rcx, vf_in.r8, vf_in.r9 };
	  fprintf (out, ",\"g\":[");
	  for (int i = 0; i < 6; i++) { fprintf (out, "%s\"", i ? "," : ""); hx (&g[i], 8); fprintf (out, "\""); }
	  fprintf (out, "],\"x\":[");
	  for (int i = 0; i < 8; i++) { fprintf (out, "%s\"", i ? "," : ""); hx (vf_in.xmm[i], 8); fprintf (out, "\""); }
	  fprintf (out, "]"); jh ("stk", cstk, cstkn);
	  ji ("al", vf_in.rax & 0xff);
	}
      ji ("rspa", (vf_in.rsp + 8) & 15); ji ("x87i", entered ? x87used (vf_in.fenv) : 0); ji ("dfi", fl_df (vf_in.fl));
      ji ("mxi", entered && ((vf_in.mxcsr & 0xffc0) != (mx0 & 0xffc0) || vf_in.fcw != cw0));
      ji ("chain", isgo ? vf_in.r10 == chain : 1);
      ji ("rvnull", rvnull); ji ("hideq", C.rm ? (rvnull ? 1 : (u8 *) hid_seen == rvalue_p) : 1); ji ("hida", C.rm ? hid_seen % C.ral : 0); ji ("hidw", hid_wrote);
      jh ("rax", &vf_out.rax, 8); jh ("rdx", &vf_out.rdx, 8); jh ("xmm0", vf_out.xmm[0], 8); jh ("xmm1", vf_out.xmm[1], 8);
      jh ("st0", vf_out.st[0], 10); jh ("st1", vf_out.st[1], 10); jh ("mr", memret, C.rsz);
      jh ("buf", rbuf + 64, body);
      int g0 = 0; for (u8 *q = rbuf; q < rbuf + sizeof rbuf; q++) if ((q < rbuf + 64 || q >= pattern_end) && *q != 0xa5) g0++;
      if (rvnull) { g0 = 0; for (u8 *q = rbuf; q < rbuf + sizeof rbuf; q++) if (*q != 0xa5) g0++; }
      ji ("guard", g0);
      emit_state (&vf_sent, 0, mx0, cw0); ji ("x87o", depth); ji ("spd", (long) (vf_aft.rsp - vf_rsp0));
      fprintf (out, ",\"av2\":[");
      for (int i = 0; i < C.n; i++) { fprintf (out, "%s\"", i ? "," : ""); hx (obj[i].p, obj[i].n); fprintf (out, "\""); }
      fprintf (out, "]");
      ji ("avec", memcmp (avec, avec0, sizeof (void *) * C.n) ? 0 : 1);
      ji ("raweq", israw || isjraw ? !memcmp (raw, raw0, sizeof raw) : 1);
      ji ("cifeq", !memcmp (cif0, &cif, sizeof cif));
      size_t n2 = snapshot (snap2); ji ("typeq", n2 == snapn && !memcmp (snap, snap2, snapn));
      fprintf (out, "}");
    }
  fprintf (out, "]}\n");
}

/* ---- closures ---- */
static int h_count, h_cifok, h_udok, h_x87, h_df, h_align, h_mx, h_rvok, h_ala, h_rla; static u8 h_av[MAXA][MAXS]; static u8 h_raw[4096];
static void *h_ud; static int h_mode; /* 0 pointers, 1 raw area */
static u8 h_ret[MAXS]; static int h_retn; static u8 hidbuf[MAXS + 1024] __attribute__ ((aligned (64)));
static uint32_t h_mx0;

void vf_handler_c (ffi_cif *c, void *ret, void **args, void *ud)
{
  h_count++;
  h_cifok = c == &cif; h_udok = ud == h_ud;
  h_align = vf_h_rsp & 15; h_df = fl_df (vf_h_fl); h_x87 = x87used (vf_h_fenv);
  h_mx = (vf_h_mxcsr & 0xffc0) != (h_mx0 & 0xffc0);
  if (h_count > 1) return;
  h_rla = C.rm || C.ral > 1 ? (uintptr_t) ret % C.ral != 0 : 0;
  if (h_mode == 0)
    for (int i = 0; i < C.n; i++) { h_ala += (uintptr_t) args[i] % C.a[i].al != 0; memcpy (h_av[i], args[i], C.a[i].sz); }
  else
    {
      ffi_raw *r = (ffi_raw *) args;
      memcpy (h_raw, r, C.rw * 8);
      for (int i = 0; i < C.n; i++)
	if (C.a[i].ri) memcpy (h_av[i], r[C.a[i].ro].ptr, C.a[i].sz);
	else memcpy (h_av[i], &r[C.a[i].ro], C.a[i].sz);
      /* the area belongs to the closure function */
      for (int i = 0; i < C.rw; i++) r[i].uint = 0xccccccccccccccccull;
    }
  h_rvok = C.rm ? ret == hidbuf + 64 : 1;
  if (h_rvok) memcpy (ret, h_ret, h_retn);
}

static void run_closure (void)
{
  int isgo = !strcmp (C.mode, "goclo"), israw = !strcmp (C.mode, "rawclo"), isjraw = !strcmp (C.mode, "jrawclo"), isown = !strcmp (C.mode, "ownclo");
  ffi_go_closure go; void *code = 0; void *cl = 0; static u8 *own;
  vf_ms = strcmp (C.abi, "unix64") != 0;
  build ();
  int st = do_prep ();
  fprintf (out, "{\"i\":%ld,\"st\":%d", C.id, st);
  if (st) { fprintf (out, ",\"ok\":0}\n"); return; }
  emit_sizes ();
  h_ud = (void *) rnd (); h_mode = israw || isjraw;
  size_t csz = israw ? sizeof (ffi_raw_closure) : isjraw ? sizeof (ffi_java_raw_closure) : sizeof (ffi_closure);
  int own_wr = 0;
  if (isgo)
    {
      st = ffi_prep_go_closure (&go, &cif, (void (*)(ffi_cif *, void *, void **, void *)) vf_handler);
      code = go.tramp; h_ud = &go;
    }
  else if (isown)
    {
      if (!own) own = mmap (0, 2 * PG, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      memset (own, 0xb7, 2 * PG);
      cl = own + 64 + 8 * (rnd () % 500); code = cl;
      st = ffi_prep_closure_loc (cl, &cif, (void (*)(ffi_cif *, void *, void **, void *)) vf_handler, h_ud, code);
      for (u8 *q = own; q < own + 2 * PG; q++) if ((q < (u8 *) cl || q >= (u8 *) cl + csz) && *q != 0xb7) own_wr++;
    }
  else
    {
      cl = ffi_closure_alloc (csz, &code);
      if (!cl) { fprintf (out, ",\"ok\":0,\"alloc\":0}\n"); return; }
      if (israw) st = ffi_prep_raw_closure_loc (cl, &cif, (void (*)(ffi_cif *, void *, ffi_raw *, void *)) vf_handler, h_ud, code);
      else if (isjraw) st = ffi_prep_java_raw_closure_loc (cl, &cif, (void (*)(ffi_cif *, void *, ffi_java_raw *, void *)) vf_handler, h_ud, code);
      else st = ffi_prep_closure_loc (cl, &cif, (void (*)(ffi_cif *, void *, void **, void *)) vf_handler, h_ud, code);
    }
  fprintf (out, ",\"pst\":%d,\"ok\":%d", st, st == 0); ji ("ownwr", own_wr);
  if (st) { fprintf (out, "}\n"); return; }
  u8 cif0[sizeof cif]; memcpy (cif0, &cif, sizeof cif);
  static u8 snap2[sizeof snap]; snapn = snapshot (snap);
  fprintf (out, ",\"runs\":[");
  for (int rep = 0; rep < 2; rep++)
    {
      rfill (&vf_img, sizeof vf_img); rfill (&vf_out, sizeof vf_out);
      /* the stack image: everything the caller passes plus junk above it */
      int n = vf_ms ? 8 * (C.stb / 8 > 4 ? C.stb / 8 : 4) : C.stb;
      vf_stkn = (n + 15) / 16 * 16 + 64;
      rfill (vf_stk, vf_stkn);
      memset (hidbuf, 0xa5, sizeof hidbuf);
      u64 hid = (u64) (hidbuf + 64);
      static u8 refs[MAXA][MAXS]; 
      u64 *slot[MAXA + 8];
      if (vf_ms)
	{
	  slot[0] = &vf_img.rcx; slot[1] = &vf_img.rdx; slot[2] = &vf_img.r8; slot[3] = &vf_img.r9;
	  for (int i = 4; i < C.n + 1; i++) slot[i] = (u64 *) (vf_stk + 8 * i);
	  if (C.rm) *slot[0] = hid;
	  for (int i = 0; i < C.n; i++)
	    { u8 *p = place (i, C.a[i].sz, C.a[i].al); vfill (p, C.a[i].sz); memcpy (refs[i], p, C.a[i].sz); if (C.a[i].br) *slot[i + C.rm] = (u64) p; }
	}
      else if (C.rm) vf_img.rdi = hid;
      if (isgo) vf_img.r10 = (u64) &go;
      vf_target = code;
      rfill (h_ret, sizeof h_ret); if (C.rsz) vfill (h_ret, C.rsz); h_retn = C.rsz;
      if (C.x87 >= 1) ldfill (h_ret); if (C.x87 == 2) ldfill (h_ret + 16);
      static u8 retval[MAXS]; memcpy (retval, h_ret, C.rsz);
      switch (rtype->type)
	{ case FFI_TYPE_SINT8: case FFI_TYPE_SINT16: case FFI_TYPE_SINT32: case FFI_TYPE_UINT8: case FFI_TYPE_UINT16: case FFI_TYPE_UINT32:
	    { u64 w; widen (rtype, h_ret, &w); memcpy (h_ret, &w, 8); h_retn = 8; } }
      h_count = h_cifok = h_udok = h_x87 = h_df = h_align = h_mx = h_rvok = h_ala = h_rla = 0;
      for (int i = 0; i < C.n; i++) memset (h_av[i], 0, C.a[i].sz); memset (h_raw, 0, sizeof h_raw);
      uint32_t mx0 = (rnd () & 3) << 13 | 0x1f80; uint16_t cw0 = 0x037f | (rnd () & 3) << 10; uint32_t oldmx; uint16_t oldcw; h_mx0 = mx0;
      __asm__ volatile ("stmxcsr %0\n\tfnstcw %1\n\tldmxcsr %2\n\tfldcw %3" : "=m" (oldmx), "=m" (oldcw) : "m" (mx0), "m" (cw0));
      vf_caller ();
      __asm__ volatile ("fninit\n\tldmxcsr %0\n\tfldcw %1" :: "m" (oldmx), "m" (oldcw));
      fprintf (out, "%s{\"cnt\":%d", rep ? "," : "", h_count);
      ji ("cifok", h_cifok); ji ("udok", h_udok); ji ("rvok", h_rvok); ji ("ala", h_ala); ji ("rla", h_rla); ji ("rspa", h_align); ji ("x87i", h_x87); ji ("dfi", h_df); ji ("mxi", h_mx);
      if (vf_ms)
	{
	  int ns = C.n + C.rm;
	  fprintf (out, ",\"sl\":[");
	  for (int i = 0; i < ns; i++) { fprintf (out, "%s\"", i ? "," : ""); hx (slot[i], 8); fprintf (out, "\""); }
	  fprintf (out, "],\"x\":[");
	  for (int i = 0; i < 4; i++) { fprintf (out, "%s\"", i ? "," : ""); hx (vf_img.xmm[i], 8); fprintf (out, "\""); }
	  fprintf (out, "],\"rf\":[");
	  for (int i = 0; i < ns; i++) { fprintf (out, "%s\"", i ? "," : ""); if (i >= C.rm && C.a[i - C.rm].br) hx (refs[i - C.rm], C.a[i - C.rm].sz); fprintf (out, "\""); }
	  fprintf (out, "]");
	}
      else
	{
	  u64 g[6] = { vf_img.rdi, vf_img.rsi, vf_img.rdx, vf_img.rcx, vf_img.r8, vf_img.r9 };
	  fprintf (out, ",\"g\":[");
	  for (int i = 0; i < 6; i++) { fprintf (out, "%s\"", i ? "," : ""); hx (&g[i], 8); fprintf (out, "\""); }
	  fprintf (out, "],\"x\":[");
	  for (int i = 0; i < 8; i++) { fprintf (out, "%s\"", i ? "," : ""); hx (vf_img.xmm[i], 8); fprintf (out, "\""); }
	  fprintf (out, "]"); jh ("stk", vf_stk, C.stb);
	}
      emit_hexlist ("av", C.n, h_av);
      if (h_mode) jh ("raw", h_raw, C.rw * 8);
      jh ("rv", retval, C.rsz);
      jh ("rax", &vf_aft.rax, 8); jh ("rdx", &vf_aft.rdx, 8); jh ("xmm0", vf_aft.xmm[0], 8); jh ("xmm1", vf_aft.xmm[1], 8);
      ji ("nst", vf_aft.nst); jh ("st0", vf_aft.st[0], 10); jh ("st1", vf_aft.st[1], 10);
      jh ("hid", &hid, 8); jh ("mem", hidbuf + 64, C.rm ? C.rsz : 0);
      int g0 = 0; for (u8 *q = hidbuf; q < hidbuf + sizeof hidbuf; q++) if ((q < hidbuf + 64 || q >= hidbuf + 64 + (C.rm ? C.rsz : 0)) && *q != 0xa5) g0++;
      if (memcmp (vf_stk + n, vf_stk2 + n, vf_stkn - n)) g0++;	/* the caller's frame above the arguments */
      ji ("guard", g0);
      emit_state (&vf_img, vf_ms, mx0, cw0); ji ("x87o", x87used (vf_aft.fenv)); ji ("spd", (long) (vf_aft.rsp - vf_rsp1));
      ji ("cifeq", !memcmp (cif0, &cif, sizeof cif));
      size_t n2 = snapshot (snap2); ji ("typeq", n2 == snapn && !memcmp (snap, snap2, snapn));
      fprintf (out, "}");
    }
  fprintf (out, "]}\n");
  if (cl && !isown) ffi_closure_free (cl);
}

static char *field (char **s) { char *b = *s; char *t = strchr (b, '\t'); if (t) { *t = 0; *s = t + 1; } else { t = strchr (b, '\n'); if (t) *t = 0; *s = b + strlen (b); } return b; }
static void load (char *l)
{
  C.id = atol (field (&l)); strcpy (C.abi, field (&l)); strcpy (C.mode, field (&l)); C.fx = atoi (field (&l));
  C.rm = atoi (field (&l)); C.rsz = atoi (field (&l)); C.ral = atoi (field (&l)); C.x87 = atoi (field (&l)); C.stb = atoi (field (&l)); C.rw = atoi (field (&l));
  C.n = atoi (field (&l)); C.rt = field (&l);
  for (int i = 0; i < C.n; i++)
    { C.a[i].t = field (&l); C.a[i].sz = atoi (field (&l)); C.a[i].al = atoi (field (&l)); C.a[i].br = atoi (field (&l)); C.a[i].ro = atoi (field (&l)); C.a[i].ri = atoi (field (&l)); }
}

static long cur;
static char obuf[1 << 20]; static char *mem; static size_t memn;
static void on_sig (int s)
{
  /* the record under construction is dropped; a crash record replaces it */
  char b[128]; int n = snprintf (b, sizeof b, "{\"i\":%ld,\"crash\":%d}\n", cur, s);
  if (write (3, b, n)) {}
  _exit (77);
}

int main (int argc, char **argv)
{
  if (argc < 3) return 2;
  seed0 = strtoull (argv[2], 0, 10);
  size_t cap = 0, nl = 0; char **lines = 0; char *line = 0; size_t ln = 0;
  FILE *pf = fopen (argv[1], "r"); if (!pf) return 2;
  while (getline (&line, &ln, pf) > 0) { if (nl == cap) lines = realloc (lines, sizeof *lines * (cap = cap ? cap * 2 : 1024)); lines[nl++] = strdup (line); }
  fclose (pf);
  progress = mmap (0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int ofd = dup (1); dup2 (ofd, 3);
  int crashes = 0;
  while ((size_t) *progress < nl)
    {
      pid_t pid = fork ();
      if (pid == 0)
	{
	  stack_t ss = { .ss_sp = malloc (65536), .ss_size = 65536 }; sigaltstack (&ss, 0);
	  struct sigaction sa = { .sa_handler = on_sig, .sa_flags = SA_ONSTACK | SA_NODEFER };
	  int sg[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM, SIGTRAP }; for (int i = 0; i < 7; i++) sigaction (sg[i], &sa, 0);
	  stack_base = (u8 *) __builtin_frame_address (0);
	  arena_init ();
	  for (long k = *progress; (size_t) k < nl; k++)
	    {
	      char *l = strdup (lines[k]); load (l);
	      cur = C.id; alarm (10);
	      *progress = k + 1;
	      rseed (seed0, C.id + 1);
	      out = open_memstream (&mem, &memn);
	      if (strstr (C.mode, "clo")) run_closure (); else run_call ();
	      fclose (out);
	      size_t o = 0; while (o < memn) { ssize_t w = write (3, mem + o, memn - o); if (w <= 0) _exit (78); o += w; }
	      free (mem); free (l);
	    }
	  _exit (0);
	}
      int ws; waitpid (pid, &ws, 0);
      if (WIFEXITED (ws) && WEXITSTATUS (ws) == 0) continue;
      if (!(WIFEXITED (ws) && WEXITSTATUS (ws) == 77))
	{ char b[128]; int n = snprintf (b, sizeof b, "{\"k\":%ld,\"i\":-1,\"crash\":%d}\n", (long) *progress - 1, ws); if (write (3, b, n)) {} }
      if (++crashes > 400) { dprintf (3, "{\"toomany\":1}\n"); break; }
    }
  return 0;
}
