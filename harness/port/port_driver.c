/* Conformance driver for processors that are interpreted (emu_*.c).  The code
   under test is a statically linked image for that processor; memory is shared
   with it, pointers included.  The driver decides nothing.  plan line (tab
   separated):
   id abi mode fx rm rsz ral stb nargs rettype { argtype sz al ref }*
   ref: "-", or where the pointer to a copy is: x<n> an argument register, s<n> a stack offset */
#define _GNU_SOURCE
#include <ffi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <elf.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "emu.h"

#define MAXA 136
#define MAXS 6144
#define TXT 32768
#define MAXTYPES 4096
static FILE *out;
#ifdef VF_BTI		/* the image is built for guarded pages */
#define BTI 1
#else
#define BTI 0
#endif
static u64 seed0 = 1;
u8 *emu_stack, *emu_stack_top, *emu_text, *emu_text_end;
#define M_CALLEE 0x6f000010ull
#define M_HANDLER 0x6f000020ull
#define M_RET 0x6f000030ull
#define STK (4 << 20)

/* ---- random bytes ---- */
static u64 rs;
static u64 rnd (void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull; }
static void rseed (u64 a, u64 b) { rs = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15) * 0xBF58476D1CE4E5B9ull; if (!rs) rs = 88172645463325252ull; for (int i = 0; i < 4; i++) rnd (); }
static void rfill (void *p, size_t n) { u8 *q = p; while (n--) *q++ = rnd () >> 33; }
static void vfill (void *p, size_t n)
{
  u8 *q = p; unsigned k = (rnd () >> 20) % 12; rfill (p, n); if (!n) return;
  if (k == 0) memset (p, 0, n);
  else if (k == 1) memset (p, 0xff, n);
  else if (k == 2) { memset (p, 0, n); q[n - 1] = 0x80; }
  else if (k == 3) { memset (p, 0xff, n); q[n - 1] = 0x7f; }
  else if (k == 4) { memset (p, 0, n); q[0] = 1 + rnd () % 255; }
  else if (k == 5) for (size_t i = 0; i < n; i++) q[i] |= 0x80;
}

/* ---- the image ---- */
static struct { char *name; u64 v; } *syms; static int nsyms;
static u64 sym (const char *n) { for (int i = 0; i < nsyms; i++) if (!strcmp (syms[i].name, n)) return syms[i].v; return 0; }
static u64 need (const char *n) { u64 v = sym (n); if (!v) { fprintf (stderr, "image has no %s\n", n); exit (3); } return v; }
static void load_image (const char *f)
{
  FILE *h = fopen (f, "rb"); if (!h) { perror (f); exit (3); }
  static u8 *b; fseek (h, 0, SEEK_END); long n = ftell (h); rewind (h); b = malloc (n); if (fread (b, 1, n, h) != (size_t) n) exit (3); fclose (h);
  Elf64_Ehdr *e = (void *) b; Elf64_Phdr *p = (void *) (b + e->e_phoff); u64 lo = ~0ull, hi = 0;
  for (int i = 0; i < e->e_phnum; i++) if (p[i].p_type == PT_LOAD) { if (p[i].p_vaddr < lo) lo = p[i].p_vaddr; if (p[i].p_vaddr + p[i].p_memsz > hi) hi = p[i].p_vaddr + p[i].p_memsz; }
  lo &= ~0xfffull; hi = (hi + 0xfff) & ~0xfffull;
  if (mmap ((void *) lo, hi - lo, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void *) lo) { fprintf (stderr, "cannot map the image\n"); exit (3); }
  for (int i = 0; i < e->e_phnum; i++) if (p[i].p_type == PT_LOAD)
    { memcpy ((void *) p[i].p_vaddr, b + p[i].p_offset, p[i].p_filesz); if (p[i].p_flags & PF_X) { emu_text = (u8 *) p[i].p_vaddr; emu_text_end = emu_text + p[i].p_memsz; } }
  /* text and constants stay as they are */
  for (int i = 0; i < e->e_phnum; i++) if (p[i].p_type == PT_LOAD && !(p[i].p_flags & PF_W))
    mprotect ((void *) (p[i].p_vaddr & ~0xfffull), ((p[i].p_vaddr + p[i].p_memsz + 0xfff) & ~0xfffull) - (p[i].p_vaddr & ~0xfffull), PROT_READ);
  Elf64_Shdr *s = (void *) (b + e->e_shoff);
  for (int i = 0; i < e->e_shnum; i++) if (s[i].sh_type == SHT_SYMTAB)
    {
      Elf64_Sym *y = (void *) (b + s[i].sh_offset); int k = s[i].sh_size / sizeof *y; char *str = (char *) b + s[s[i].sh_link].sh_offset;
      syms = malloc (k * sizeof *syms);
      for (int j = 0; j < k; j++) if (y[j].st_name && y[j].st_shndx) { syms[nsyms].name = str + y[j].st_name; syms[nsyms++].v = y[j].st_value; }
    }
}

/* ---- the processor ---- */
static struct cpu cpu; static int emu_fault; static u64 emu_fpc;
static void on_callee (void), on_handler (void);
static void emu_run (void)	/* until it returns to M_RET */
{
  for (long k = 0; k < 30000000; k++)
    {
      if (cpu.pc == M_RET) return;
      if (cpu.pc == M_CALLEE) { on_callee (); continue; }
      if (cpu.pc == M_HANDLER) { on_handler (); continue; }
      u64 pc = cpu.pc; int r = emu_step (&cpu);
      if (r) { emu_fault = r; emu_fpc = pc; return; }
    }
  emu_fault = 3;
}
static u64 emu_call (u64 fn, u64 a0, u64 a1, u64 a2, u64 a3, u64 a4)
{
  u64 a[5] = { a0, a1, a2, a3, a4 };
  for (int i = 0; i < 5; i++) cpu.x[emu_port.argx[i]] = a[i];
  cpu.x[emu_port.ra] = M_RET; cpu.pc = fn;
  emu_run ();
  return cpu.x[emu_port.retx[0]];
}
static void cpu_reset (void)
{ rfill (&cpu.x, sizeof cpu.x); rfill (&cpu.f, sizeof cpu.f); cpu.n = cpu.z = cpu.c = cpu.v = 0; 
  if (emu_port.flen < 16) for (int i = 0; i < 32; i++) memset (cpu.f[i] + emu_port.flen, 0, 16 - emu_port.flen);
  cpu.x[emu_port.sp] = (u64) emu_stack_top - 4096; cpu.below = cpu.misal = cpu.badj = 0; }
/* what a function may leave behind in registers it need not preserve */
static void trash (void)
{
  for (int i = 0; i < 32; i++)
    {
      if (i != emu_port.sp && !(emu_port.keepx >> i & 1)) cpu.x[i] = rnd ();
      int k = (emu_port.keepf >> i & 1) ? emu_port.keepfn : 0; rfill (cpu.f[i] + k, emu_port.flen - k);
    }
}

/* ---- types ---- */
struct scal { const char *name, *sy; ffi_type *t; };
static struct scal scals[] = {
  { "v", "ffi_type_void" }, { "u8", "ffi_type_uint8" }, { "s8", "ffi_type_sint8" }, { "u16", "ffi_type_uint16" }, { "s16", "ffi_type_sint16" },
  { "u32", "ffi_type_uint32" }, { "s32", "ffi_type_sint32" }, { "u64", "ffi_type_uint64" }, { "s64", "ffi_type_sint64" }, { "p", "ffi_type_pointer" },
  { "f", "ffi_type_float" }, { "d", "ffi_type_double" }, { "ld", "ffi_type_longdouble" },
  { "cf", "ffi_type_complex_float" }, { "cd", "ffi_type_complex_double" }, { "cld", "ffi_type_complex_longdouble" }, { 0, 0 } };
static ffi_type ctypes[4]; static ffi_type *celems[8];
static ffi_type tpool[MAXTYPES]; static ffi_type *epool[MAXTYPES * 16]; static int ntp, nep;
static ffi_type *scal (const char *k)
{
  for (struct scal *c = scals; c->name; c++) if (!strcmp (c->name, k)) return (ffi_type *) need (c->sy);
  static const char *cn[] = { "cs8", "cs16", "cs32", "cs64" }, *en[] = { "s8", "s16", "s32", "s64" };
  for (int i = 0; i < 4; i++) if (!strcmp (cn[i], k))
    { ctypes[i].size = 2 << i; ctypes[i].alignment = 1 << i; ctypes[i].type = FFI_TYPE_COMPLEX; ctypes[i].elements = celems + 2 * i; celems[2 * i] = scal (en[i]); return &ctypes[i]; }
  fprintf (stderr, "bad type %s\n", k); exit (3);
}
static char *tok (char **s) { while (**s == ' ') (*s)++; char *b = *s; while (**s && **s != ' ') (*s)++; if (**s) *(*s)++ = 0; return b; }
static ffi_type *parse (char **s, char *first)
{
  char *k = first ? first : tok (s);
  if (strcmp (k, "{")) return scal (k);
  int n = 0, cap = 16; ffi_type **el = malloc (cap * sizeof *el);
  for (;;) { char *t = tok (s); if (!strcmp (t, "}")) break; if (n == cap) el = realloc (el, (cap *= 2) * sizeof *el); el[n++] = parse (s, t); }
  ffi_type *t = &tpool[ntp++];
  t->size = 0; t->alignment = 0; t->type = FFI_TYPE_STRUCT; t->elements = &epool[nep];
  for (int i = 0; i < n; i++) epool[nep++] = el[i];
  epool[nep++] = 0; free (el);
  return t;
}

/* ---- guarded arena ---- */
static u8 *arena; static size_t PG = 4096; static struct { u8 *p; size_t n; } obj[MAXA];
#define ASLOT 3
static void arena_init (void)
{ arena = mmap (0, MAXA * ASLOT * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < MAXA; i++) mprotect (arena + (i * ASLOT + ASLOT - 1) * PG, PG, PROT_NONE); }
static u8 *place (int i, size_t sz, size_t al)
{ u8 *e = arena + (i * ASLOT + ASLOT - 1) * PG; u8 *p = (u8 *) (((uintptr_t) (e - sz)) & ~(uintptr_t) (al - 1)); obj[i].p = p; obj[i].n = sz; return p; }

/* ---- case ---- */
static struct cs { long id; char abi[16], mode[16]; int fx, rm, rsz, ral, stb, n; char *rt; struct { char *t; int sz, al; char *ref; } a[MAXA]; } C;
static ffi_type *rtype, *atype[MAXA + 1];
static ffi_cif cif;
static u8 av0[MAXA][MAXS];
static u8 memret[MAXS]; static u8 rbuf[MAXS + 1024] __attribute__ ((aligned (64)));
static void *avec[MAXA + 1], *avec0[MAXA + 1];
static u8 *rvalue_p;
static volatile long *progress;

static void hx (const void *p, size_t n) { const u8 *q = p; for (size_t i = 0; i < n; i++) fprintf (out, "%02x", q[i]); }
static void jh (const char *k, const void *p, size_t n) { fprintf (out, ",\"%s\":\"", k); hx (p, n); fputc ('"', out); }
static void ji (const char *k, long v) { fprintf (out, ",\"%s\":%ld", k, v); }
static void jregs (const char *k, struct cpu *c) { fprintf (out, ",\"%sx\":\"", k); for (int i = 0; i < 8; i++) hx (&c->x[emu_port.argx[i]], 8); fprintf (out, "\",\"%sf\":\"", k); for (int i = 0; i < 8; i++) hx (c->f[emu_port.argf[i]], 16); fputc ('"', out); }
static void jres (const char *k, struct cpu *c) { fprintf (out, ",\"%sx\":\"", k); for (int i = 0; i < 2; i++) hx (&c->x[emu_port.retx[i]], 8); fprintf (out, "\",\"%sf\":\"", k); for (int i = 0; i < 4; i++) hx (c->f[emu_port.retf[i]], 16); fputc ('"', out); }

static struct cpu sent;
static void jkeep (struct cpu *a, struct cpu *ref)
{
  int first = 1; fprintf (out, ",\"cs\":[");
  for (int i = 0; i < 32; i++)
    {
      if ((emu_port.keepx >> i & 1) && a->x[i] != ref->x[i]) { fprintf (out, "%s\"x%d\"", first ? "" : ",", i); first = 0; }
      if ((emu_port.keepf >> i & 1) && memcmp (a->f[i], ref->f[i], emu_port.keepfn)) { fprintf (out, "%s\"f%d\"", first ? "" : ",", i); first = 0; }
    }
  fprintf (out, "]"); ji ("spd", (long) (a->x[emu_port.sp] - ref->x[emu_port.sp]));
  ji ("below", a->below); ji ("misal", a->misal); ji ("badj", BTI ? a->badj : 0);
}

static void build (void)
{
  ntp = nep = 0;
  static char b[TXT]; char *s;
  strcpy (b, C.rt); s = b; rtype = parse (&s, 0);
  for (int i = 0; i < C.n; i++)
    {
      int share = -1;
      if (rnd () & 1) for (int j = 0; j < i; j++) if (!strcmp (C.a[j].t, C.a[i].t)) { share = j; break; }
      if (share >= 0) { atype[i] = atype[share]; continue; }
      strcpy (b, C.a[i].t); s = b; atype[i] = parse (&s, 0);
    }
  atype[C.n] = 0;
}
static int abinum (const char *a)
{
  if (!strcmp (a, "sysv")) return FFI_DEFAULT_ABI;
#ifdef VF_HAVE_WIN64
  if (!strcmp (a, "win64")) return FFI_WIN64;
#endif
  fprintf (stderr, "bad abi %s\n", a); exit (3);
}
static int do_prep (void)
{
  cpu_reset ();
  if (C.fx >= 0)
    { /* six arguments: all in registers on these processors */
      cpu.x[emu_port.argx[5]] = (u64) atype;
      return (int) emu_call (need ("ffi_prep_cif_var"), (u64) &cif, abinum (C.abi), C.fx, C.n, (u64) rtype);
    }
  return (int) emu_call (need ("ffi_prep_cif"), (u64) &cif, abinum (C.abi), C.n, (u64) rtype, (u64) atype);
}
static void emit_sizes (void)
{
  fprintf (out, ",\"tsz\":[%ld", (long) rtype->size);
  for (int i = 0; i < C.n; i++) fprintf (out, ",%ld", (long) atype[i]->size);
  fprintf (out, "],\"tal\":[%d", rtype->alignment);
  for (int i = 0; i < C.n; i++) fprintf (out, ",%d", atype[i]->alignment);
  fprintf (out, "]");
}
static void emit_hexlist (const char *k, int n, u8 (*get)[MAXS]) 
{ fprintf (out, ",\"%s\":[", k); for (int i = 0; i < n; i++) { fprintf (out, "%s\"", i ? "," : ""); hx (get[i], C.a[i].sz); fprintf (out, "\""); } fprintf (out, "]"); }
/* a narrow integer as a register or result word holds it */
static int narrow (ffi_type *t) { switch (t->type) { case FFI_TYPE_SINT8: case FFI_TYPE_UINT8: case FFI_TYPE_SINT16: case FFI_TYPE_UINT16: case FFI_TYPE_SINT32: case FFI_TYPE_UINT32: return 1; } return 0; }
static u64 widen (ffi_type *t, const void *p)
{
  u64 v = 0; memcpy (&v, p, t->size);
  switch (t->type) { case FFI_TYPE_SINT8: return sx (v, 8); case FFI_TYPE_SINT16: return sx (v, 16); case FFI_TYPE_SINT32: return sx (v, 32); case FFI_TYPE_UINT8: case FFI_TYPE_UINT16: case FFI_TYPE_UINT32: default: return v; }
}
/* a register of the case's hidden result pointer */
static int hidreg (void) { return emu_port.hid >= 0 ? emu_port.hid : emu_port.argx[0]; }

/* ---- calls ---- */
static int entered, hid_wrote; static u64 hid_seen; static struct cpu cin, cout; static u8 cstk[65536]; static u8 ref_b[MAXA][MAXS]; static int ref_al[MAXA];
static u8 fres[4][16]; static u64 xres[2];
static void on_callee (void)
{
  if (entered++) { cpu.pc = cpu.x[emu_port.ra]; return; }
  cin = cpu;
  u8 *sp = (u8 *) cpu.x[emu_port.sp];
  memcpy (cstk, sp, C.stb);
  u8 *rp[MAXA];
  for (int i = 0; i < C.n; i++)
    {
      rp[i] = 0; char *r = C.a[i].ref; if (*r == '-') continue;
      u64 p; if (*r == 'x') p = cpu.x[emu_port.argx[atoi (r + 1)]]; else memcpy (&p, sp + atoi (r + 1), 8);
      rp[i] = (u8 *) p; memcpy (ref_b[i], rp[i], C.a[i].sz); ref_al[i] = p % C.a[i].al;
    }
  /* copies and stack arguments are the callee's to change */
  for (int i = 0; i < C.n; i++) if (rp[i]) memset (rp[i], 0xcc, C.a[i].sz);
  memset (sp, 0xcc, C.stb);
  hid_seen = 0; hid_wrote = 0;
  if (C.rm)
    { hid_seen = cin.x[hidreg ()]; if (rvalue_p == 0 || (u8 *) hid_seen == rvalue_p) { memcpy ((void *) hid_seen, memret, C.rsz); hid_wrote = 1; } }
  trash ();
  for (int i = 0; i < 2; i++) cpu.x[emu_port.retx[i]] = xres[i];
  for (int i = 0; i < 4; i++) memcpy (cpu.f[emu_port.retf[i]], fres[i], emu_port.flen);
  cout = cpu;
  cpu.pc = cin.x[emu_port.ra];
}

static void fault_record (void)
{ fprintf (out, "{\"i\":%ld,\"%s\":%d,\"pc\":\"%lx\"}\n", C.id, emu_fault == 1 ? "emu" : "crash", emu_fault, (long) emu_fpc); }

/* result registers as a callee or handler result of the case would leave them */
static void result_regs (void)
{
  rfill (xres, sizeof xres); rfill (fres, sizeof fres);
  if (rnd () & 1) { vfill (&xres[0], 8); vfill (&xres[1], 8); }
  if (emu_port.retsx && narrow (rtype))
    { u64 v = widen (rtype, &xres[0]); xres[0] = rtype->type == FFI_TYPE_UINT32 ? (u64) sx (v, 32) : v; }
  if (emu_port.nanbox) for (int i = 0; i < 2; i++) if (rnd () & 1) memset (fres[i] + 4, 0xff, 4);
}

static void run_call (void)
{
  int isgo = !strcmp (C.mode, "go");
  build ();
  for (int i = 0; i < C.n; i++)
    { u8 *p = place (i, C.a[i].sz, C.a[i].al); vfill (p, C.a[i].sz); memcpy (av0[i], p, C.a[i].sz); avec[i] = avec0[i] = p; }
  rfill (memret, C.rsz);
  int rvnull = (rnd () >> 20) % 4 == 0;
  size_t body = C.rsz > 8 ? C.rsz : 8;
  u64 chain = rnd ();
  int stt = do_prep ();
  if (emu_fault) { fault_record (); return; }
  fprintf (out, "{\"i\":%ld,\"st\":%d", C.id, stt);
  if (stt) { fprintf (out, ",\"ok\":0}\n"); return; }
  fprintf (out, ",\"ok\":1");
  emit_sizes ();
  emit_hexlist ("av", C.n, av0);
  u8 cif0[sizeof cif]; memcpy (cif0, &cif, sizeof cif);
  fprintf (out, ",\"runs\":[");
  for (int rep = 0; rep < 2; rep++)
    {
      result_regs ();
      memset (rbuf, 0xa5, sizeof rbuf);
      rvalue_p = rvnull ? 0 : rbuf + 64;
      u8 *pattern_end = rbuf + 64 + body;
      entered = 0; hid_seen = 0; hid_wrote = 0;
      cpu_reset (); sent = cpu; memset (&cin, 0, sizeof cin); memset (&cout, 0, sizeof cout);
      if (isgo) emu_call (need ("ffi_call_go"), (u64) &cif, M_CALLEE, (u64) rvalue_p, (u64) avec, chain);
      else emu_call (need ("ffi_call"), (u64) &cif, M_CALLEE, (u64) rvalue_p, (u64) avec, 0);
      if (emu_fault) { fclose (out); extern void reopen (void); reopen (); fault_record (); return; }
      fprintf (out, "%s{\"ent\":%d", rep ? "," : "", entered);
      jregs ("", &cin); jh ("stk", cstk, entered ? C.stb : 0);
      ji ("spa", cin.x[emu_port.sp] & 15);
      fprintf (out, ",\"ref\":["); for (int i = 0; i < C.n; i++) { fprintf (out, "%s\"", i ? "," : ""); if (entered && *C.a[i].ref != '-') hx (ref_b[i], C.a[i].sz); fputc ('"', out); } fprintf (out, "],\"refa\":[");
      for (int i = 0; i < C.n; i++) fprintf (out, "%s%d", i ? "," : "", *C.a[i].ref == '-' ? 0 : ref_al[i]);
      fprintf (out, "]");
      ji ("chain", isgo ? cin.x[emu_port.chain] == chain : 1);
      ji ("rvnull", rvnull); ji ("hideq", C.rm ? (rvnull ? 1 : (u8 *) hid_seen == rvalue_p) : 1); ji ("hida", C.rm ? hid_seen % C.ral : 0); ji ("hidw", hid_wrote);
      jres ("r", &cout); jh ("mr", memret, C.rsz);
      jh ("buf", rbuf + 64, body);
      int g0 = 0; for (u8 *q = rbuf; q < rbuf + sizeof rbuf; q++) if ((rvnull || q < rbuf + 64 || q >= pattern_end) && *q != 0xa5) g0++;
      ji ("guard", g0);
      jkeep (&cpu, &sent);
      fprintf (out, ",\"av2\":[");
      for (int i = 0; i < C.n; i++) { fprintf (out, "%s\"", i ? "," : ""); hx (obj[i].p, obj[i].n); fprintf (out, "\""); }
      fprintf (out, "]");
      ji ("avec", memcmp (avec, avec0, sizeof (void *) * C.n) ? 0 : 1);
      ji ("cifeq", !memcmp (cif0, &cif, sizeof cif));
      fprintf (out, "}");
    }
  fprintf (out, "]}\n");
}

/* ---- closures ---- */
static int h_count, h_cifok, h_udok, h_rvok, h_al, h_ala; static u8 h_av[MAXA][MAXS]; static u64 h_ud; static u8 h_ret[MAXS]; static int h_retn;
static u8 hidbuf[MAXS + 1024] __attribute__ ((aligned (64)));
static void on_handler (void)
{
  u64 ra = cpu.x[emu_port.ra], c = cpu.x[emu_port.argx[0]], ret = cpu.x[emu_port.argx[1]], ud = cpu.x[emu_port.argx[3]]; void **args = (void **) cpu.x[emu_port.argx[2]];
  if (h_count++ == 0)
    {
      h_cifok = c == (u64) &cif; h_udok = ud == h_ud; h_al = cpu.x[emu_port.sp] & 15; h_ala = 0;
      for (int i = 0; i < C.n; i++) { if ((u64) args[i] % (C.a[i].al > 8 ? C.a[i].al : C.a[i].al)) h_ala++; memcpy (h_av[i], args[i], C.a[i].sz); }
      h_rvok = C.rm ? ret == (u64) hidbuf + 64 : 1;
      /* the handler owns the arguments it is shown */
      if (rnd () & 1) for (int i = 0; i < C.n; i++) memset (args[i], 0xcc, C.a[i].sz);
      if (h_rvok) memcpy ((void *) ret, h_ret, h_retn);
    }
  trash ();
  cpu.pc = ra;
}
/* closure memory: writable view and executable view */
static u8 *clw, *clx; static u8 *slots;
static int rep0;
static void run_closure (void)
{
  int isgo = !strcmp (C.mode, "goclo"), isst = !strcmp (C.mode, "stclo");
  build ();
  int stt = do_prep ();
  if (emu_fault) { fault_record (); return; }
  fprintf (out, "{\"i\":%ld,\"st\":%d", C.id, stt);
  if (stt) { fprintf (out, ",\"ok\":0}\n"); return; }
  emit_sizes ();
  h_ud = rnd (); u64 code; u64 *nfl = (u64 *) sym ("vf_nflushed"); int flushed = 1;
  cpu_reset ();
  if (nfl) *(int *) nfl = 0;
  u64 go_w[4];
  if (isgo)
    { stt = (int) emu_call (need ("ffi_prep_go_closure"), (u64) go_w, (u64) &cif, M_HANDLER, 0, 0); code = go_w[0]; h_ud = (u64) go_w; }
  else
    {
      u64 off = ((rnd () >> 30) % 64) * 16; rfill (clw, 4096 * 2);
      *(u64 *) need ("vf_slot_parms") = 0;
      if (isst)
	{
	  static u64 tsz, msz; u64 tab = emu_call (need ("ffi_tramp_arch"), (u64) &tsz, (u64) &msz, 0, 0, 0), k;
	  if (!slots) slots = mmap (0, 2 * msz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	  k = (rnd () >> 30) % (msz / tsz); if (rep0++ % 3 == 0) k = msz / tsz - 1;
	  memcpy (slots, (void *) tab, msz); rfill (slots + msz, msz);
	  *(u64 *) need ("vf_slot_parms") = (u64) slots + msz + k * tsz; code = (u64) slots + k * tsz;
	}
      else { code = (u64) clx + off; *(u64 *) need ("vf_code_off") = clx - clw; }
      stt = (int) emu_call (need ("ffi_prep_closure_loc"), (u64) (clw + off), (u64) &cif, M_HANDLER, h_ud, code);
      if (!isst && nfl)
	{ /* was the executable view of the instructions declared changed? */
	  int n = *(int *) nfl; u64 *r = (u64 *) need ("vf_flushed"); flushed = 0;
	  for (int i = 0; i < n && i < 8; i++) if (r[2 * i] <= code && r[2 * i + 1] >= code + 16) flushed = 1;
	}
    }
  if (emu_fault) { fclose (out); extern void reopen (void); reopen (); fault_record (); return; }
  fprintf (out, ",\"pst\":%d,\"ok\":%d,\"flush\":%d", stt, stt == 0, flushed);
  if (stt) { fprintf (out, "}\n"); return; }
  u8 cif0[sizeof cif]; memcpy (cif0, &cif, sizeof cif);
  static u8 stk0[65536], stk1[65536];
  fprintf (out, ",\"runs\":[");
  for (int rep = 0; rep < 2; rep++)
    {
      cpu_reset ();
      int n = C.stb, sn = (n + 15) / 16 * 16 + 64;
      u8 *sp = (u8 *) (cpu.x[emu_port.sp] -= sn);
      rfill (sp, sn);
      memset (hidbuf, 0xa5, sizeof hidbuf);
      if (emu_port.nanbox) for (int i = 0; i < 8; i++) if (rnd () & 1) memset (cpu.f[emu_port.argf[i]] + 4, 0xff, 4);
      u64 hid = (u64) (hidbuf + 64);
      if (C.rm) cpu.x[hidreg ()] = hid;
      for (int i = 0; i < C.n; i++)
	{
	  char *r = C.a[i].ref; if (*r == '-') continue;
	  u8 *p = place (i, C.a[i].sz, C.a[i].al); vfill (p, C.a[i].sz); memcpy (ref_b[i], p, C.a[i].sz);
	  u64 v = (u64) p; if (*r == 'x') cpu.x[emu_port.argx[atoi (r + 1)]] = v; else memcpy (sp + atoi (r + 1), &v, 8);
	}
      memcpy (stk0, sp, sn);
      if (isgo) cpu.x[emu_port.gochain] = (u64) go_w;
      rfill (h_ret, sizeof h_ret); if (C.rsz) vfill (h_ret, C.rsz); h_retn = C.rsz;
      static u8 retval[MAXS]; memcpy (retval, h_ret, C.rsz);
      if (narrow (rtype)) { u64 w = widen (rtype, h_ret); memcpy (h_ret, &w, 8); h_retn = 8; }
      h_count = h_cifok = h_udok = h_rvok = h_al = h_ala = 0;
      for (int i = 0; i < C.n; i++) memset (h_av[i], 0, C.a[i].sz);
      sent = cin = cpu; cpu.x[emu_port.ra] = M_RET; cpu.pc = code;
      emu_run ();
      if (emu_fault) { fclose (out); extern void reopen (void); reopen (); fault_record (); return; }
      memcpy (stk1, sp, sn);
      fprintf (out, "%s{\"cnt\":%d", rep ? "," : "", h_count);
      ji ("cifok", h_cifok); ji ("udok", h_udok); ji ("rvok", h_rvok); ji ("spa", h_al); ji ("ala", h_ala);
      jregs ("", &cin); jh ("stk", stk0, C.stb);
      fprintf (out, ",\"ref\":["); for (int i = 0; i < C.n; i++) { fprintf (out, "%s\"", i ? "," : ""); if (*C.a[i].ref != '-') hx (ref_b[i], C.a[i].sz); fputc ('"', out); } fprintf (out, "]");
      emit_hexlist ("av", C.n, h_av);
      jh ("rv", retval, C.rsz);
      jres ("r", &cpu);
      jh ("mem", hidbuf + 64, C.rm ? C.rsz : 0);
      int g0 = 0; for (u8 *q = hidbuf; q < hidbuf + sizeof hidbuf; q++) if ((q < hidbuf + 64 || q >= hidbuf + 64 + (C.rm ? C.rsz : 0)) && *q != 0xa5) g0++;
      if (memcmp (stk0 + n, stk1 + n, sn - n)) g0++;
      ji ("guard", g0);
      jkeep (&cpu, &sent);
      ji ("cifeq", !memcmp (cif0, &cif, sizeof cif));
      fprintf (out, "}");
    }
  fprintf (out, "]}\n");
}

static char *field (char **s) { char *b = *s; char *t = strchr (b, '\t'); if (t) { *t = 0; *s = t + 1; } else { t = strchr (b, '\n'); if (t) *t = 0; *s = b + strlen (b); } return b; }
static void load (char *l)
{
  C.id = atol (field (&l)); strcpy (C.abi, field (&l)); strcpy (C.mode, field (&l)); C.fx = atoi (field (&l));
  C.rm = atoi (field (&l)); C.rsz = atoi (field (&l)); C.ral = atoi (field (&l)); C.stb = atoi (field (&l));
  C.n = atoi (field (&l)); C.rt = field (&l);
  for (int i = 0; i < C.n; i++)
    { C.a[i].t = field (&l); C.a[i].sz = atoi (field (&l)); C.a[i].al = atoi (field (&l)); C.a[i].ref = field (&l); }
}

static long cur; static char *mem; static size_t memn;
void reopen (void) { free (mem); out = open_memstream (&mem, &memn); }
static void on_sig (int s)
{
  char b[128]; int n = snprintf (b, sizeof b, "{\"i\":%ld,\"crash\":%d,\"pc\":\"%lx\"}\n", cur, s, (long) cpu.pc);
  if (write (3, b, n)) {}
  _exit (77);
}

int main (int argc, char **argv)
{
  if (argc < 3) return 2;
  seed0 = strtoull (argv[2], 0, 10);
  size_t cap = 0, nl = 0; char **lines = 0; char *line = 0; size_t ln = 0;
  FILE *pf = fopen (argv[1], "r"); if (!pf) return 2;
  while (getline (&line, &ln, pf) > 0) { if (nl == cap) lines = realloc (lines, sizeof *lines * (cap = cap ? cap * 2 : 1024)); lines[nl++] = strdup (line); }
  fclose (pf);
  char img[4096]; snprintf (img, sizeof img, "%s.img", argv[0]); load_image (img);
  emu_stack = mmap (0, STK + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect (emu_stack, 4096, PROT_NONE); mprotect (emu_stack + STK + 4096, 4096, PROT_NONE); emu_stack_top = emu_stack + STK + 4096;
  int fd = memfd_create ("clo", 0); if (ftruncate (fd, 8192)) return 2;
  clw = mmap (0, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); clx = mmap (0, 8192, PROT_READ, MAP_SHARED, fd, 0); close (fd);
  progress = mmap (0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int ofd = dup (1); dup2 (ofd, 3);
  int crashes = 0;
  while ((size_t) *progress < nl)
    {
      pid_t pid = fork ();
      if (pid == 0)
	{
	  stack_t ss = { .ss_sp = malloc (65536), .ss_size = 65536 }; sigaltstack (&ss, 0);
	  struct sigaction sa = { .sa_handler = on_sig, .sa_flags = SA_ONSTACK | SA_NODEFER };
	  int sg[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM, SIGTRAP }; for (int i = 0; i < 7; i++) sigaction (sg[i], &sa, 0);
	  arena_init ();
	  for (long k = *progress; (size_t) k < nl; k++)
	    {
	      char *l = strdup (lines[k]); load (l);
	      cur = C.id; alarm (20);
	      *progress = k + 1;
	      rseed (seed0, C.id + 1);
	      mem = 0; memn = 0; out = open_memstream (&mem, &memn); emu_fault = 0;
	      if (strstr (C.mode, "clo")) run_closure (); else run_call ();
	      fclose (out);
	      size_t o = 0; while (o < memn) { ssize_t w = write (3, mem + o, memn - o); if (w <= 0) _exit (78); o += w; }
	      free (mem); free (l);
	    }
	  _exit (0);
	}
      int ws; waitpid (pid, &ws, 0);
      if (WIFEXITED (ws) && WEXITSTATUS (ws) == 0) continue;
      if (!(WIFEXITED (ws) && WEXITSTATUS (ws) == 77))
	{ char b[128]; int n = snprintf (b, sizeof b, "{\"k\":%ld,\"i\":-1,\"crash\":%d}\n", (long) *progress - 1, ws); if (write (3, b, n)) {} }
      if (++crashes > 400) { dprintf (3, "{\"toomany\":1}\n"); break; }
    }
  return 0;
}
