/* Conformance driver for 32-bit x86; the counterpart of abi_driver.c.  It
   decides nothing.  plan line (tab separated):
   id abi mode rm hr cr rsz ral x87 stb pops rw nargs rettype { argtype sz al ro }*  */
#define _GNU_SOURCE
#include <ffi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <setjmp.h>

typedef uint8_t u8; typedef uint64_t u64; typedef uint32_t u32;
struct vf_regs { u32 eax, ebx, ecx, edx, esi, edi, ebp, esp, fl, mxcsr; uint16_t fcw, pad; u8 fenv[32]; u8 st[16]; u8 xmm[2][16]; u8 fill[4]; };
_Static_assert (sizeof (struct vf_regs) == 128, "layout");
_Static_assert (__builtin_offsetof (struct vf_regs, st) == 76, "layout");
extern struct vf_regs vf_in, vf_out, vf_aft, vf_img, vf_sent;
extern u8 vf_stk[65536], vf_stk2[65536]; extern u32 vf_stkn, vf_esp0, vf_esp1; extern void *vf_target;
extern int vf_pops, vf_out_nst; extern u32 vf_h_esp, vf_h_fl; extern u8 vf_h_fenv[32]; extern u32 vf_h_mxcsr;
extern void vf_callee (void), vf_caller (void), vf_handler (void);
extern void vf_guard (void *fn, void *, void *, void *, void *, void *);

#define MAXA 136
#define MAXS 6144		/* bytes of one value */
#define TXT 32768
#define MAXTYPES 4096
static u64 seed0 = 1;
static FILE *out;

/* ---- random bytes ---- */
static u64 rs;
static u64 rnd (void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull; }
static void rseed (u64 a, u64 b) { rs = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15) * 0xBF58476D1CE4E5B9ull; if (!rs) rs = 88172645463325252ull; for (int i = 0; i < 4; i++) rnd (); }
static void rfill (void *p, size_t n) { u8 *q = p; while (n--) *q++ = rnd () >> 33; }
static void ldfill (void *p)	/* a normal 80-bit value, random padding */
{ u8 *q = p; rfill (q, 16); q[7] |= 0x80; unsigned e = 0x3000 + (rnd () >> 40) % 0x1f00; q[8] = e; q[9] = (e >> 8) | (rnd () & 0x80 ? 0x80 : 0); }

/* mostly random bits, sometimes a corner: zeros, ones, sign bits, tiny numbers */
static void vfill (void *p, size_t n)
{
  u8 *q = p; unsigned k = (rnd () >> 20) % 12; rfill (p, n);
  if (k == 0) memset (p, 0, n);
  else if (k == 1) memset (p, 0xff, n);
  else if (k == 2) { memset (p, 0, n); q[n - 1] = 0x80; }
  else if (k == 3) { memset (p, 0xff, n); q[n - 1] = 0x7f; }
  else if (k == 4) { memset (p, 0, n); q[0] = 1 + rnd () % 255; }
  else if (k == 5) for (size_t i = 0; i < n; i++) q[i] |= 0x80;
}

/* ---- types ---- */
struct scal { const char *name; ffi_type *t; };
static ffi_type cs8t, cs16t, cs32t, cs64t;
static ffi_type *cs8e[] = { &ffi_type_sint8, 0 }, *cs16e[] = { &ffi_type_sint16, 0 }, *cs32e[] = { &ffi_type_sint32, 0 }, *cs64e[] = { &ffi_type_sint64, 0 };
static ffi_type cs8t = { 2, 1, FFI_TYPE_COMPLEX, cs8e }, cs16t = { 4, 2, FFI_TYPE_COMPLEX, cs16e }, cs32t = { 8, 4, FFI_TYPE_COMPLEX, cs32e }, cs64t = { 16, 4, FFI_TYPE_COMPLEX, cs64e };
static struct scal scals[] = {
  { "v", &ffi_type_void }, { "u8", &ffi_type_uint8 }, { "s8", &ffi_type_sint8 }, { "u16", &ffi_type_uint16 }, { "s16", &ffi_type_sint16 },
  { "u32", &ffi_type_uint32 }, { "s32", &ffi_type_sint32 }, { "u64", &ffi_type_uint64 }, { "s64", &ffi_type_sint64 }, { "p", &ffi_type_pointer },
  { "f", &ffi_type_float }, { "d", &ffi_type_double }, { "ld", &ffi_type_longdouble },
  { "cf", &ffi_type_complex_float }, { "cd", &ffi_type_complex_double }, { "cld", &ffi_type_complex_longdouble },
  { "cs8", &cs8t }, { "cs16", &cs16t }, { "cs32", &cs32t }, { "cs64", &cs64t }, { 0, 0 } };
static ffi_type tpool[MAXTYPES]; static ffi_type *epool[MAXTYPES * 16]; static int ntp, nep;

static char *tok (char **s) { while (**s == ' ') (*s)++; char *b = *s; while (**s && **s != ' ') (*s)++; if (**s) *(*s)++ = 0; return b; }
static ffi_type *parse (char **s, char *first)
{
  char *k = first ? first : tok (s);
  if (strcmp (k, "{"))
    { for (struct scal *c = scals; c->name; c++) if (!strcmp (c->name, k)) return c->t; fprintf (stderr, "bad type %s\n", k); exit (3); }
  int n = 0, cap = 16; ffi_type **el = malloc (cap * sizeof *el);
  for (;;) { char *t = tok (s); if (!strcmp (t, "}")) break; if (n == cap) el = realloc (el, (cap *= 2) * sizeof *el); el[n++] = parse (s, t); }
  ffi_type *t = &tpool[ntp++];
  t->size = 0; t->alignment = 0; t->type = FFI_TYPE_STRUCT; t->elements = &epool[nep];
  for (int i = 0; i < n; i++) epool[nep++] = el[i];
  epool[nep++] = 0; free (el);
  return t;
}

/* ---- guarded arena: slot i's object ends at an unreadable page ---- */
static u8 *arena; static size_t PG = 4096; static struct { u8 *p; size_t n; } obj[MAXA];
#define ASLOT 3
static void arena_init (void)
{ arena = mmap (0, MAXA * ASLOT * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < MAXA; i++) mprotect (arena + (i * ASLOT + ASLOT - 1) * PG, PG, PROT_NONE); }
static u8 *place (int i, size_t sz, size_t al)
{ u8 *e = arena + (i * ASLOT + ASLOT - 1) * PG; u8 *p = (u8 *) (((uintptr_t) (e - sz)) & ~(uintptr_t) (al - 1)); obj[i].p = p; obj[i].n = sz; return p; }

/* ---- case ---- */
static struct cs {
  long id; char abi[16], mode[16]; int rm, hr, cr, rsz, ral, x87, stb, pops, rw, n;
  char *rt; struct { char *t; int sz, al, ro; } a[MAXA];
} C;
static ffi_type *rtype, *atype[MAXA + 1];
static ffi_cif cif;
static u8 av0[MAXA][MAXS];
static u8 memret[MAXS]; static u8 rbuf[MAXS + 1024] __attribute__ ((aligned (64)));
static void *avec[MAXA + 1], *avec0[MAXA + 1];
static int entered; static u32 hid_seen; static int hid_wrote;
static u8 cstk[65536]; static int cstkn;
static u8 *rvalue_p;
static volatile long *progress;

static void hx (const void *p, size_t n) { const u8 *q = p; for (size_t i = 0; i < n; i++) fprintf (out, "%02x", q[i]); }
static void jh (const char *k, const void *p, size_t n) { fprintf (out, ",\"%s\":\"", k); hx (p, n); fputc ('"', out); }
static void ji (const char *k, long v) { fprintf (out, ",\"%s\":%ld", k, v); }

static int x87used (const u8 *env) { unsigned tw = env[8] | env[9] << 8; int n = 0; for (int i = 0; i < 8; i++) if (((tw >> (2 * i)) & 3) != 3) n++; return n; }

void vf_record_call (void)	/* called by vf_callee, on the callee's stack */
{
  entered++;
  u8 *sp = (u8 *) vf_in.esp + 4;
  cstkn = C.stb; memcpy (cstk, sp, C.stb);
  if (C.rm)
    {
      u32 h; if (C.hr) h = vf_in.ecx; else memcpy (&h, sp, 4);
      hid_seen = h; hid_wrote = 0;
      if (rvalue_p == 0 || (u8 *) h == rvalue_p) { memcpy ((void *) h, memret, C.rsz); hid_wrote = 1; }
      vf_out.eax = h;
    }
  memset (sp, 0xcc, C.stb);
}

static int fl_df (u32 fl) { return (fl >> 10) & 1; }
static const char *csname[] = { "ebx", "esi", "edi", "ebp" };
static u32 csval (struct vf_regs *r, int i) { u32 v[] = { r->ebx, r->esi, r->edi, r->ebp }; return v[i]; }

static void emit_state (struct vf_regs *ref, uint32_t mx0, uint16_t cw0)
{
  int first = 1;
  fprintf (out, ",\"cs\":[");
#define BAD(nm) do { fprintf (out, "%s\"%s\"", first ? "" : ",", nm); first = 0; } while (0)
  for (int i = 0; i < 4; i++) if (csval (&vf_aft, i) != csval (ref, i)) BAD (csname[i]);
  if ((vf_aft.mxcsr & 0xffc0) != (mx0 & 0xffc0)) BAD ("mxcsr");
  if (vf_aft.fcw != cw0) BAD ("fcw");
  if (fl_df (vf_aft.fl)) BAD ("df");
  fprintf (out, "]");
}

/* a number of the case's floating-point result type, never a NaN */
static void fpfill (ffi_type *t, void *p)
{
  if (t->type == FFI_TYPE_LONGDOUBLE) { ldfill (p); return; }
  vfill (p, t->size);
  u8 *q = p; if (t->type == FFI_TYPE_FLOAT) { if ((q[3] & 0x7f) == 0x7f) q[3] &= 0xbf; } else if ((q[7] & 0x7f) == 0x7f) q[7] &= 0xbf;
}
static void to_st (ffi_type *t, const void *p, void *st)
{
  long double x = 0;
  if (t->type == FFI_TYPE_FLOAT) x = *(float *) p; else if (t->type == FFI_TYPE_DOUBLE) x = *(double *) p; else { memcpy (st, p, 10); return; }
  memcpy (st, &x, 10);
}
static void emit_st (const void *st)
{
  long double x; memset (&x, 0, sizeof x); memcpy (&x, st, 10); float f = x; double d = x;
  jh ("st0", st, 10); jh ("st0f", &f, 4); jh ("st0d", &d, 8);
}

static void build (void)
{
  ntp = nep = 0;
  static char b[TXT]; char *s;
  strcpy (b, C.rt); s = b; rtype = parse (&s, 0);
  for (int i = 0; i < C.n; i++)
    {
      int share = -1;
      if (rnd () & 1) for (int j = 0; j < i; j++) if (!strcmp (C.a[j].t, C.a[i].t)) { share = j; break; }
      if (share >= 0) { atype[i] = atype[share]; continue; }
      strcpy (b, C.a[i].t); s = b; atype[i] = parse (&s, 0);
    }
  atype[C.n] = 0;
}

static int abinum (const char *a)
{ return !strcmp (a, "sysv") ? FFI_SYSV : !strcmp (a, "mscdecl") ? FFI_MS_CDECL : !strcmp (a, "stdcall") ? FFI_STDCALL : !strcmp (a, "thiscall") ? FFI_THISCALL : FFI_FASTCALL; }

static void fill_values (void)
{
  for (int i = 0; i < C.n; i++)
    {
      u8 *p = place (i, C.a[i].sz, C.a[i].al);
      vfill (p, C.a[i].sz);
      memcpy (av0[i], p, C.a[i].sz);
      avec[i] = avec0[i] = p;
    }
}
/* widened value of argument i in a 4-byte word */
static void widen (ffi_type *t, const void *p, void *w)
{
  switch (t->type)
    {
    case FFI_TYPE_SINT8: *(int32_t *) w = *(int8_t *) p; break;
    case FFI_TYPE_SINT16: *(int32_t *) w = *(int16_t *) p; break;
    case FFI_TYPE_UINT8: *(u32 *) w = *(uint8_t *) p; break;
    case FFI_TYPE_UINT16: *(u32 *) w = *(uint16_t *) p; break;
    default: memcpy (w, p, t->size);
    }
}
static int intt (ffi_type *t) { switch (t->type) { case FFI_TYPE_SINT8: case FFI_TYPE_UINT8: case FFI_TYPE_SINT16: case FFI_TYPE_UINT16: return 1; } return 0; }

static void emit_sizes (void)
{
  fprintf (out, ",\"tsz\":[%ld", (long) rtype->size);
  for (int i = 0; i < C.n; i++) fprintf (out, ",%ld", (long) atype[i]->size);
  fprintf (out, "],\"tal\":[%d", rtype->alignment);
  for (int i = 0; i < C.n; i++) fprintf (out, ",%d", atype[i]->alignment);
  fprintf (out, "]");
}
static void emit_hexlist (const char *k, int n, u8 (*get)[MAXS]) 
{ fprintf (out, ",\"%s\":[", k); for (int i = 0; i < n; i++) { fprintf (out, "%s\"", i ? "," : ""); hx (get[i], C.a[i].sz); fprintf (out, "\""); } fprintf (out, "]"); }

static int do_prep (void) { return ffi_prep_cif (&cif, abinum (C.abi), C.n, rtype, atype); }

static void run_call (void)
{
  int israw = !strcmp (C.mode, "raw"), isgo = !strcmp (C.mode, "go");
  build ();
  fill_values ();
  rfill (&vf_out, sizeof vf_out); rfill (&vf_sent, sizeof vf_sent);
  if (rnd () & 1) { vfill (&vf_out.eax, 4); vfill (&vf_out.edx, 4); }
  vf_out_nst = C.x87; u8 fpv[16];
  if (C.x87) { fpfill (rtype, fpv); to_st (rtype, fpv, vf_out.st); }
  vf_pops = C.pops;
  rfill (memret, C.rsz);
  int rvnull = (rnd () >> 20) % 4 == 0;
  size_t body = C.rsz > 4 ? C.rsz : 4;
  u32 chain = rnd ();
  int st = do_prep ();
  fprintf (out, "{\"i\":%ld,\"st\":%d", C.id, st);
  if (st) { fprintf (out, ",\"ok\":0}\n"); return; }
  fprintf (out, ",\"ok\":1");
  emit_sizes ();
  emit_hexlist ("av", C.n, av0);
  /* the area ends at an unreadable page */
  static u8 *area; if (!area) { area = mmap (0, 3 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect (area + 2 * PG, PG, PROT_NONE); }
  ffi_raw *rawp = (ffi_raw *) (area + 2 * PG - 4 * C.rw);
  static u8 raw0[8192];
  if (israw)
    {
      void *pa[MAXA + 1];
      for (int i = 0; i < C.n; i++) widen (atype[i], avec[i], rawp + C.a[i].ro);
      memcpy (raw0, rawp, 4 * C.rw);
      ji ("rsize", ffi_raw_size (&cif));
      ffi_raw_to_ptrarray (&cif, rawp, pa);
      fprintf (out, ",\"pta\":[");
      for (int i = 0; i < C.n; i++) { long o = (u8 *) pa[i] - (u8 *) rawp; fprintf (out, "%s%ld", i ? "," : "", o % 4 ? -3 : o / 4); }
      fprintf (out, "]");
      static ffi_raw back[2048]; rfill (back, sizeof back); u8 tail[64]; memcpy (tail, (u8 *) (back + C.rw), 64);
      ffi_ptrarray_to_raw (&cif, avec, back);
      jh ("back", back, C.rw * 4);
      ji ("backtail", memcmp (tail, back + C.rw, 64) ? 1 : 0);
    }
  u8 cif0[sizeof cif]; memcpy (cif0, &cif, sizeof cif);
  uint32_t mx0 = (rnd () & 3) << 13 | 0x1f80; uint16_t cw0 = 0x037f;
  fprintf (out, ",\"runs\":[");
  for (int rep = 0; rep < 2; rep++)
    {
      memset (rbuf, 0xa5, sizeof rbuf);
      rvalue_p = rvnull ? 0 : rbuf + 64;
      u8 *pattern_end = rbuf + 64 + body;
      entered = 0; hid_seen = 0; hid_wrote = 0; cstkn = 0;
      memset (&vf_in, 0, sizeof vf_in);
      uint32_t oldmx; uint16_t oldcw;
      __asm__ volatile ("stmxcsr %0\n\tfnstcw %1\n\tldmxcsr %2\n\tfldcw %3" : "=m" (oldmx), "=m" (oldcw) : "m" (mx0), "m" (cw0));
      if (israw) vf_guard ((void *) ffi_raw_call, &cif, (void *) vf_callee, rvalue_p, rawp, 0);
      else if (isgo) vf_guard ((void *) ffi_call_go, &cif, (void *) vf_callee, rvalue_p, avec, (void *) chain);
      else vf_guard ((void *) ffi_call, &cif, (void *) vf_callee, rvalue_p, avec, 0);
      int depth = x87used (vf_aft.fenv);
      __asm__ volatile ("fninit\n\tldmxcsr %0\n\tfldcw %1" :: "m" (oldmx), "m" (oldcw));
      fprintf (out, "%s{\"ent\":%d", rep ? "," : "", entered);
      jh ("ecx", &vf_in.ecx, 4); jh ("edx", &vf_in.edx, 4); jh ("stk", cstk, cstkn);
      if (!israw) { }
      ji ("espa", entered ? (vf_in.esp + 4) & 15 : 0); ji ("x87i", entered ? x87used (vf_in.fenv) : 0); ji ("dfi", fl_df (vf_in.fl));
      ji ("mxi", entered && ((vf_in.mxcsr & 0xffc0) != (mx0 & 0xffc0) || vf_in.fcw != cw0));
      ji ("chain", isgo ? (C.cr ? vf_in.eax : vf_in.ecx) == chain : 1);
      ji ("rvnull", rvnull); ji ("hideq", C.rm ? (rvnull ? 1 : (u8 *) hid_seen == rvalue_p) : 1); ji ("hida", C.rm ? hid_seen % C.ral : 0); ji ("hidw", hid_wrote);
      /* results, as the callee left them */
      fprintf (out, ",\"eax\":\""); hx (&vf_out.eax, 4); fprintf (out, "\",\"redx\":\""); hx (&vf_out.edx, 4); fprintf (out, "\"");
      emit_st (vf_out.st); jh ("mr", memret, C.rsz);
      jh ("buf", rbuf + 64, body);
      int g0 = 0; for (u8 *q = rbuf; q < rbuf + sizeof rbuf; q++) if ((rvnull || q < rbuf + 64 || q >= pattern_end) && *q != 0xa5) g0++;
      ji ("guard", g0);
      emit_state (&vf_sent, mx0, cw0); ji ("x87o", depth); ji ("spd", (long) (vf_aft.esp - vf_esp0));
      fprintf (out, ",\"av2\":[");
      for (int i = 0; i < C.n; i++) { fprintf (out, "%s\"", i ? "," : ""); hx (obj[i].p, obj[i].n); fprintf (out, "\""); }
      fprintf (out, "]");
      ji ("avec", memcmp (avec, avec0, sizeof (void *) * C.n) ? 0 : 1);
      ji ("raweq", israw ? !memcmp (rawp, raw0, 4 * C.rw) : 1);
      ji ("cifeq", !memcmp (cif0, &cif, sizeof cif));
      fprintf (out, "}");
    }
  fprintf (out, "]}\n");
}

/* ---- closures ---- */
static int h_count, h_cifok, h_udok, h_x87, h_df, h_align, h_mx, h_rvok; static u8 h_av[MAXA][MAXS];
static void *h_ud; static int h_mode;
static u8 h_ret[MAXS]; static int h_retn; static u8 hidbuf[MAXS + 1024] __attribute__ ((aligned (64)));
static uint32_t h_mx0;

void vf_handler_c (ffi_cif *c, void *ret, void **args, void *ud)
{
  h_count++;
  h_cifok = c == &cif; h_udok = ud == h_ud;
  h_align = vf_h_esp & 15; h_df = fl_df (vf_h_fl); h_x87 = x87used (vf_h_fenv);
  h_mx = (vf_h_mxcsr & 0xffc0) != (h_mx0 & 0xffc0);
  if (h_count > 1) return;
  if (h_mode == 0)
    for (int i = 0; i < C.n; i++) memcpy (h_av[i], args[i], C.a[i].sz);
  else
    { ffi_raw *r = (ffi_raw *) args; for (int i = 0; i < C.n; i++) memcpy (h_av[i], r + C.a[i].ro, C.a[i].sz); }
  h_rvok = C.rm ? ret == hidbuf + 64 : 1;
  if (h_rvok) memcpy (ret, h_ret, h_retn);
}

static void run_closure (void)
{
  int isgo = !strcmp (C.mode, "goclo"), israw = !strcmp (C.mode, "rawclo");
  ffi_go_closure go; void *code = 0; void *cl = 0;
  build ();
  int st = do_prep ();
  fprintf (out, "{\"i\":%ld,\"st\":%d", C.id, st);
  if (st) { fprintf (out, ",\"ok\":0}\n"); return; }
  emit_sizes ();
  h_ud = (void *) (u32) rnd (); h_mode = israw;
  if (isgo)
    { st = ffi_prep_go_closure (&go, &cif, (void (*)(ffi_cif *, void *, void **, void *)) vf_handler); code = go.tramp; h_ud = &go; }
  else
    {
      cl = ffi_closure_alloc (israw ? sizeof (ffi_raw_closure) : sizeof (ffi_closure), &code);
      if (!cl) { fprintf (out, ",\"ok\":0,\"alloc\":0}\n"); return; }
      if (israw) st = ffi_prep_raw_closure_loc (cl, &cif, (void (*)(ffi_cif *, void *, ffi_raw *, void *)) vf_handler, h_ud, code);
      else st = ffi_prep_closure_loc (cl, &cif, (void (*)(ffi_cif *, void *, void **, void *)) vf_handler, h_ud, code);
    }
  fprintf (out, ",\"pst\":%d,\"ok\":%d", st, st == 0);
  if (st) { fprintf (out, "}\n"); return; }
  u8 cif0[sizeof cif]; memcpy (cif0, &cif, sizeof cif);
  fprintf (out, ",\"runs\":[");
  for (int rep = 0; rep < 2; rep++)
    {
      rfill (&vf_img, sizeof vf_img); rfill (&vf_out, sizeof vf_out);
      int n = C.stb;
      vf_stkn = (n + 15) / 16 * 16 + 64;
      rfill (vf_stk, vf_stkn);
      memset (hidbuf, 0xa5, sizeof hidbuf);
      u32 hid = (u32) (hidbuf + 64);
      if (C.rm) { if (C.hr) vf_img.ecx = hid; else memcpy (vf_stk, &hid, 4); }
      if (isgo) { if (C.cr) vf_img.eax = (u32) &go; else vf_img.ecx = (u32) &go; }
      vf_target = code;
      rfill (h_ret, sizeof h_ret); if (C.rsz) vfill (h_ret, C.rsz); h_retn = C.rsz;
      if (C.x87) fpfill (rtype, h_ret);
      static u8 retval[MAXS]; memcpy (retval, h_ret, C.rsz);
      if (intt (rtype)) { u32 w; widen (rtype, h_ret, &w); memcpy (h_ret, &w, 4); h_retn = 4; }
      h_count = h_cifok = h_udok = h_x87 = h_df = h_align = h_mx = h_rvok = 0;
      for (int i = 0; i < C.n; i++) memset (h_av[i], 0, C.a[i].sz);
      uint32_t mx0 = (rnd () & 3) << 13 | 0x1f80; uint16_t cw0 = 0x037f; uint32_t oldmx; uint16_t oldcw; h_mx0 = mx0;
      __asm__ volatile ("stmxcsr %0\n\tfnstcw %1\n\tldmxcsr %2\n\tfldcw %3" : "=m" (oldmx), "=m" (oldcw) : "m" (mx0), "m" (cw0));
      vf_caller ();
      __asm__ volatile ("fninit\n\tldmxcsr %0\n\tfldcw %1" :: "m" (oldmx), "m" (oldcw));
      fprintf (out, "%s{\"cnt\":%d", rep ? "," : "", h_count);
      ji ("cifok", h_cifok); ji ("udok", h_udok); ji ("rvok", h_rvok); ji ("espa", h_align); ji ("x87i", h_x87); ji ("dfi", h_df); ji ("mxi", h_mx);
      jh ("ecx", &vf_img.ecx, 4); jh ("edx", &vf_img.edx, 4); jh ("stk", vf_stk, C.stb);
      emit_hexlist ("av", C.n, h_av);
      jh ("rv", retval, C.rsz);
      jh ("eax", &vf_aft.eax, 4); jh ("redx", &vf_aft.edx, 4); emit_st (vf_aft.st);
      jh ("hid", &hid, 4); jh ("mem", hidbuf + 64, C.rm ? C.rsz : 0);
      int g0 = 0; for (u8 *q = hidbuf; q < hidbuf + sizeof hidbuf; q++) if ((q < hidbuf + 64 || q >= hidbuf + 64 + (C.rm ? C.rsz : 0)) && *q != 0xa5) g0++;
      if (memcmp (vf_stk + n, vf_stk2 + n, vf_stkn - n)) g0++;
      ji ("guard", g0);
      emit_state (&vf_img, mx0, cw0); ji ("x87o", x87used (vf_aft.fenv)); ji ("spd", (long) (vf_aft.esp - vf_esp1));
      ji ("cifeq", !memcmp (cif0, &cif, sizeof cif));
      fprintf (out, "}");
    }
  fprintf (out, "]}\n");
  if (cl) ffi_closure_free (cl);
}

static char *field (char **s) { char *b = *s; char *t = strchr (b, '\t'); if (t) { *t = 0; *s = t + 1; } else { t = strchr (b, '\n'); if (t) *t = 0; *s = b + strlen (b); } return b; }
static void load (char *l)
{
  C.id = atol (field (&l)); strcpy (C.abi, field (&l)); strcpy (C.mode, field (&l));
  C.rm = atoi (field (&l)); C.hr = atoi (field (&l)); C.cr = atoi (field (&l));
  C.rsz = atoi (field (&l)); C.ral = atoi (field (&l)); C.x87 = atoi (field (&l)); C.stb = atoi (field (&l)); C.pops = atoi (field (&l)); C.rw = atoi (field (&l));
  C.n = atoi (field (&l)); C.rt = field (&l);
  for (int i = 0; i < C.n; i++)
    { C.a[i].t = field (&l); C.a[i].sz = atoi (field (&l)); C.a[i].al = atoi (field (&l)); C.a[i].ro = atoi (field (&l)); }
}

static long cur;
static char obuf[1 << 20]; static char *mem; static size_t memn;
static void on_sig (int s)
{
  /* the record under construction is dropped; a crash record replaces it */
  char b[128]; int n = snprintf (b, sizeof b, "{\"i\":%ld,\"crash\":%d}\n", cur, s);
  if (write (3, b, n)) {}
  _exit (77);
}

int main (int argc, char **argv)
{
  if (argc < 3) return 2;
  seed0 = strtoull (argv[2], 0, 10);
  size_t cap = 0, nl = 0; char **lines = 0; char *line = 0; size_t ln = 0;
  FILE *pf = fopen (argv[1], "r"); if (!pf) return 2;
  while (getline (&line, &ln, pf) > 0) { if (nl == cap) lines = realloc (lines, sizeof *lines * (cap = cap ? cap * 2 : 1024)); lines[nl++] = strdup (line); }
  fclose (pf);
  progress = mmap (0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int ofd = dup (1); dup2 (ofd, 3);
  int crashes = 0;
  while ((size_t) *progress < nl)
    {
      pid_t pid = fork ();
      if (pid == 0)
	{
	  stack_t ss = { .ss_sp = malloc (65536), .ss_size = 65536 }; sigaltstack (&ss, 0);
	  struct sigaction sa = { .sa_handler = on_sig, .sa_flags = SA_ONSTACK | SA_NODEFER };
	  int sg[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM, SIGTRAP }; for (int i = 0; i < 7; i++) sigaction (sg[i], &sa, 0);
	  arena_init ();
	  for (long k = *progress; (size_t) k < nl; k++)
	    {
	      char *l = strdup (lines[k]); load (l);
	      cur = C.id; alarm (10);
	      *progress = k + 1;
	      rseed (seed0, C.id + 1);
	      out = open_memstream (&mem, &memn);
	      if (strstr (C.mode, "clo")) run_closure (); else run_call ();
	      fclose (out);
	      size_t o = 0; while (o < memn) { ssize_t w = write (3, mem + o, memn - o); if (w <= 0) _exit (78); o += w; }
	      free (mem); free (l);
	    }
	  _exit (0);
	}
      int ws; waitpid (pid, &ws, 0);
      if (WIFEXITED (ws) && WEXITSTATUS (ws) == 0) continue;
      if (!(WIFEXITED (ws) && WEXITSTATUS (ws) == 77))
	{ char b[128]; int n = snprintf (b, sizeof b, "{\"k\":%ld,\"i\":-1,\"crash\":%d}\n", (long) *progress - 1, ws); if (write (3, b, n)) {} }
      if (++crashes > 400) { dprintf (3, "{\"toomany\":1}\n"); break; }
    }
  return 0;
}
