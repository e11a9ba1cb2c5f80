/* Conformance driver for type descriptions: performs preparation histories
   and records status, sizes, alignments and offsets.
   line: id nnodes { cnt|-1 refs... } nreq { C abi fx ret nargs args... | O abi ref null | K abi kind }  */
#define _GNU_SOURCE
#include <ffi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>

static ffi_type cs8t, cs16t, cs32t, cs64t;
static ffi_type *cs8e[] = { &ffi_type_sint8, 0 }, *cs16e[] = { &ffi_type_sint16, 0 }, *cs32e[] = { &ffi_type_sint32, 0 }, *cs64e[] = { &ffi_type_sint64, 0 };
static ffi_type cs8t = { 2, 1, FFI_TYPE_COMPLEX, cs8e }, cs16t = { 4, 2, FFI_TYPE_COMPLEX, cs16e }, cs32t = { 8, 4, FFI_TYPE_COMPLEX, cs32e }, cs64t = { 16, 8, FFI_TYPE_COMPLEX, cs64e };
static struct scal { const char *name; ffi_type *t; } scals[] = {
  { "v", &ffi_type_void }, { "u8", &ffi_type_uint8 }, { "s8", &ffi_type_sint8 }, { "u16", &ffi_type_uint16 }, { "s16", &ffi_type_sint16 },
  { "u32", &ffi_type_uint32 }, { "s32", &ffi_type_sint32 }, { "u64", &ffi_type_uint64 }, { "s64", &ffi_type_sint64 }, { "p", &ffi_type_pointer },
  { "f", &ffi_type_float }, { "d", &ffi_type_double }, { "ld", &ffi_type_longdouble },
  { "cf", &ffi_type_complex_float }, { "cd", &ffi_type_complex_double }, { "cld", &ffi_type_complex_longdouble },
  { "cs8", &cs8t }, { "cs16", &cs16t }, { "cs32", &cs32t }, { "cs64", &cs64t }, { 0, 0 } };

static char *save;
static char *tk (void) { char *t = strtok_r (0, " \n", &save); if (!t) { fprintf (stderr, "short line\n"); exit (3); } return t; }
static int ti (void) { return (int) strtol (tk (), 0, 10); }
static ffi_type *nodes; static int nn; static ffi_type ***els; static int *elc;
static ffi_type *ref (char *t)
{
  if (*t == '#') return &nodes[atoi (t + 1) - 1];
  for (struct scal *s = scals; s->name; s++) if (!strcmp (s->name, t)) return s->t;
  fprintf (stderr, "bad ref %s\n", t); exit (3);
}
static void fn (ffi_cif *c, void *r, void **a, void *u) {}
static long cur;
static void on_sig (int s) { char b[99]; int n = snprintf (b, sizeof b, "{\"i\":%ld,\"crash\":%d}\n", cur, s); if (write (1, b, n)) {} _exit (77); }

static void one (char *line)
{
  FILE *out; char *mem; size_t memn;
  char *id = strtok_r (line, " \n", &save);
  cur = atol (id); alarm (20);
  out = open_memstream (&mem, &memn);
  nn = ti (); nodes = calloc (nn + 1, sizeof *nodes); els = calloc (nn + 1, sizeof *els); elc = calloc (nn + 1, sizeof *elc);
  ffi_type **copy[nn + 1];
  for (int i = 0; i < nn; i++)
    {
      int c = elc[i] = ti ();
      nodes[i].type = FFI_TYPE_STRUCT;
      if (c < 0) { nodes[i].elements = 0; continue; }
      els[i] = calloc (c + 1, sizeof (ffi_type *)); copy[i] = calloc (c + 1, sizeof (ffi_type *));
      for (int j = 0; j < c; j++) copy[i][j] = els[i][j] = ref (tk ());
      nodes[i].elements = els[i];
    }
  ffi_type scopy[32]; int ns = 0; for (struct scal *s = scals; s->name; s++) scopy[ns++] = *s->t;
  int nq = ti ();
  fprintf (out, "{\"i\":%ld,\"o\":[", cur);
  for (int k = 0; k < nq; k++)
    {
      char *op = tk (); int st = -1, cifok = 1, tail = 1; size_t *offs = 0; int no = 0;
      if (*op == 'C')
	{
	  unsigned abi = strtoul (tk (), 0, 10); int fx = ti (); ffi_type *r = ref (tk ()); int na = ti ();
	  ffi_type **at = calloc (na + 1, sizeof *at);
	  for (int j = 0; j < na; j++) at[j] = ref (tk ());
	  ffi_cif *cif = malloc (sizeof *cif); memset (cif, 0xee, sizeof *cif);
	  st = fx >= 0 ? ffi_prep_cif_var (cif, abi, fx, na, r, at) : ffi_prep_cif (cif, abi, na, r, at);
	  if (st == FFI_OK) cifok = cif->abi == abi && cif->nargs == na && cif->rtype == r && cif->arg_types == at;
	  free (cif);
	}
      else if (*op == 'O')
	{
	  unsigned abi = strtoul (tk (), 0, 10); ffi_type *t = ref (tk ()); int null = ti ();
	  no = t >= nodes && t < nodes + nn && elc[t - nodes] > 0 ? elc[t - nodes] : 0;
	  offs = malloc ((no + 4) * sizeof *offs); memset (offs, 0xee, (no + 4) * sizeof *offs);
	  st = ffi_get_struct_offsets (abi, t, null ? 0 : offs);
	  for (int j = no; j < no + 4; j++) if (offs[j] != 0xeeeeeeeeeeeeeeeeul) tail = 0;
	  if (null || st) no = 0;
	}
      else
	{
	  unsigned abi = strtoul (tk (), 0, 10); char *kind = tk (); ffi_cif cif; void *code = 0;
	  ffi_prep_cif (&cif, FFI_UNIX64, 0, &ffi_type_void, 0); cif.abi = abi;
	  if (!strcmp (kind, "go")) { ffi_go_closure g; st = ffi_prep_go_closure (&g, &cif, fn); }
	  else
	    {
	      void *cl = ffi_closure_alloc (sizeof (ffi_raw_closure) + 64, &code);
	      if (!cl) { fprintf (stderr, "alloc\n"); exit (4); }
	      if (!strcmp (kind, "loc")) st = ffi_prep_closure_loc (cl, &cif, fn, 0, code);
	      else if (!strcmp (kind, "raw")) st = ffi_prep_raw_closure_loc (cl, &cif, (void *) fn, 0, code);
	      else st = ffi_prep_java_raw_closure_loc (cl, &cif, (void *) fn, 0, code);
	      ffi_closure_free (cl);
	    }
	}
      fprintf (out, "%s{\"st\":%d,\"cif\":%d,\"tail\":%d,\"sz\":[", k ? "," : "", st, cifok, tail);
      for (int i = 0; i < nn; i++) fprintf (out, "%s%ld", i ? "," : "", (long) nodes[i].size);
      fprintf (out, "],\"al\":[");
      for (int i = 0; i < nn; i++) fprintf (out, "%s%d", i ? "," : "", nodes[i].alignment);
      fprintf (out, "],\"offs\":[");
      for (int i = 0; i < no; i++) fprintf (out, "%s%ld", i ? "," : "", (long) offs[i]);
      int same = 1;
      for (int i = 0; i < nn; i++)
	if (nodes[i].type != FFI_TYPE_STRUCT || nodes[i].elements != els[i] || (elc[i] >= 0 && memcmp (els[i], copy[i], (elc[i] + 1) * sizeof (void *)))) same = 0;
      for (int i = 0; i < ns; i++) if (memcmp (&scopy[i], scals[i].t, sizeof (ffi_type))) same = 0;
      fprintf (out, "],\"same\":%d}", same);
      free (offs);
    }
  fprintf (out, "]}\n"); fclose (out);
  size_t o = 0; while (o < memn) { ssize_t x = write (1, mem + o, memn - o); if (x <= 0) _exit (78); o += x; }
  free (mem);
}

#define BI(nm, ty, var) { struct al_##nm { char c; ty x; }; n += sprintf (b + n, "{\"i\":-1,\"k\":\"%s\",\"sz\":%d,\"al\":%d,\"csz\":%d,\"cal\":%d}\n", #nm, (int) var.size, var.alignment, (int) sizeof (ty), (int) __builtin_offsetof (struct al_##nm, x)); }

int main (int argc, char **argv)
{
  static volatile long *prog; size_t cap = 0, nl = 0; char **lines = 0; char *line = 0; size_t ln = 0; int crashes = 0;
  if (argc > 1 && !strcmp (argv[1], "-b"))
    {
      char b[8192]; int n = 0;
      BI (u8, uint8_t, ffi_type_uint8) BI (s8, int8_t, ffi_type_sint8) BI (u16, uint16_t, ffi_type_uint16) BI (s16, int16_t, ffi_type_sint16)
      BI (u32, uint32_t, ffi_type_uint32) BI (s32, int32_t, ffi_type_sint32) BI (u64, uint64_t, ffi_type_uint64) BI (s64, int64_t, ffi_type_sint64)
      BI (p, void *, ffi_type_pointer) BI (f, float, ffi_type_float) BI (d, double, ffi_type_double) BI (ld, long double, ffi_type_longdouble)
      BI (cf, _Complex float, ffi_type_complex_float) BI (cd, _Complex double, ffi_type_complex_double) BI (cld, _Complex long double, ffi_type_complex_longdouble)
      BI (u8, unsigned char, ffi_type_uchar) BI (s8, signed char, ffi_type_schar) BI (u16, unsigned short, ffi_type_ushort) BI (s16, short, ffi_type_sshort)
      BI (u32, unsigned, ffi_type_uint) BI (s32, int, ffi_type_sint) BI (u64, unsigned long, ffi_type_ulong) BI (s64, long, ffi_type_slong)
      fputs (b, stdout); return 0;
    }
  FILE *pf = fopen (argv[1], "r"); if (!pf) return 2;
  while (getline (&line, &ln, pf) > 0) { if (nl == cap) lines = realloc (lines, sizeof *lines * (cap = cap ? cap * 2 : 1024)); lines[nl++] = strdup (line); }
  prog = mmap (0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  while ((size_t) *prog < nl)
    {
      pid_t p = fork ();
      if (!p)
	{
	  stack_t ss = { .ss_sp = malloc (65536), .ss_size = 65536 }; sigaltstack (&ss, 0);
	  struct sigaction sa = { .sa_handler = on_sig, .sa_flags = SA_ONSTACK };
	  int sg[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM, SIGTRAP }; for (int i = 0; i < 7; i++) sigaction (sg[i], &sa, 0);
	  for (long k = *prog; (size_t) k < nl; k++) { *prog = k + 1; one (lines[k]); }
	  _exit (0);
	}
      int ws; waitpid (p, &ws, 0);
      if (WIFEXITED (ws) && WEXITSTATUS (ws) == 0) continue;
      if (WIFEXITED (ws) && WEXITSTATUS (ws) != 77) return 5;
      if (++crashes > 200) break;
    }
  return 0;
}
