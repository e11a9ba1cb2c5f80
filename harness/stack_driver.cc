/* Runs scripts of nested calls, callbacks and ways of leaving them.
   Input line: <i> <flag of level 0> <op>...
     E<route>.<sig>.<closure>.<flag>   enter one level deeper
     R                                 return to the caller
     J<level>                          longjmp to that level
     T<level>                          throw, caught at that level
   flag: 0 nothing, 1 setjmp, 2 try.
   Every level takes the next op from the script.  Output: what happened. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <unistd.h>
#include <stdarg.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
extern "C" {
#include <ffi.h>
}
#define MS __attribute__((ms_abi))
enum { NROUTE = 17, NSG = 5, NCLO = 2, MAXLVL = 5000 };
typedef struct { long a, b, c; } big;
typedef struct { long a; double b; } mix;
typedef struct { double a; long b; } xim;
struct Target { int level; long pad[5]; };

static struct shared { size_t len; int done; char log[1]; } *S;
static const size_t SLEN = 64u << 20;
static void
out (const char *f, ...)
{
  va_list a;
  va_start (a, f);
  S->len += vsnprintf (S->log + S->len, SLEN - sizeof *S - S->len, f, a);
  va_end (a);
}

static char **ops;
static int nops, pc;
static long toks;
static jmp_buf jb[MAXLVL];
static int level;		/* of the innermost activation */

/* ------------------------------------------------------------ interfaces */
static ffi_type *e_big[] = { &ffi_type_slong, &ffi_type_slong, &ffi_type_slong, 0 };
static ffi_type t_big = { 0, 0, FFI_TYPE_STRUCT, e_big };
static ffi_type *e_mix[] = { &ffi_type_slong, &ffi_type_double, 0 };
static ffi_type t_mix = { 0, 0, FFI_TYPE_STRUCT, e_mix };
static ffi_type *e_xim[] = { &ffi_type_double, &ffi_type_slong, 0 };
static ffi_type t_xim = { 0, 0, FFI_TYPE_STRUCT, e_xim };
static ffi_type *at[NSG][10] = {
  { &ffi_type_slong },
  { &ffi_type_slong, &ffi_type_double },
  { &ffi_type_slong, &ffi_type_slong, &ffi_type_slong, &ffi_type_slong, &ffi_type_slong, &ffi_type_slong, &ffi_type_slong, &ffi_type_slong, &ffi_type_double },
  { &t_mix, &ffi_type_float },
  { &ffi_type_slong, &ffi_type_longdouble } };
static const int na[NSG] = { 1, 2, 9, 2, 2 };
static ffi_type *rt[NSG] = { &ffi_type_slong, &t_big, &ffi_type_double, &t_xim, &ffi_type_longdouble };
static ffi_cif cifs[3][NSG];	/* by ABI */
static const ffi_abi abis[3] = { FFI_UNIX64, FFI_GNUW64, FFI_WIN64 };
static int abi_of (int r) { return r == 1 || r == 4 || r == 7 || r == 15 ? 1 : r == 2 || r == 5 ? 2 : 0; }

static long body (int route, int sig, int clo, long tok, int n, const long *v, int flag);

/* what the current level was entered with */
static int cur_route, cur_clo, cur_flag;

#define ENTER(sig, n, tok, ...) \
  ({ long v_[] = { __VA_ARGS__ }; body (cur_route, sig, -1, tok, n, v_, cur_flag); })
extern "C" {
static long n0 (long t) { return ENTER (0, 1, t, t); }
static big n1 (long t, double d) { long r = ENTER (1, 2, t, t, (long) d); big b = { r, r + 1, r + 2 }; return b; }
static double n2 (long t, long a, long b, long c, long d, long e, long f, long g, double h)
{ return ENTER (2, 9, t, t, a, b, c, d, e, f, g, (long) h); }
static xim n3 (mix m, float f) { long r = ENTER (3, 3, m.a, m.a, (long) m.b, (long) f); xim x = { (double) r, r + 1 }; return x; }
static long double n4 (long t, long double d) { return ENTER (4, 2, t, t, (long) d); }
static MS long m0 (long t) { return ENTER (0, 1, t, t); }
static MS big m1 (long t, double d) { long r = ENTER (1, 2, t, t, (long) d); big b = { r, r + 1, r + 2 }; return b; }
static MS double m2 (long t, long a, long b, long c, long d, long e, long f, long g, double h)
{ return ENTER (2, 9, t, t, a, b, c, d, e, f, g, (long) h); }
static MS xim m3 (mix m, float f) { long r = ENTER (3, 3, m.a, m.a, (long) m.b, (long) f); xim x = { (double) r, r + 1 }; return x; }
}
static void *nat[2][NSG] = { { (void *) n0, (void *) n1, (void *) n2, (void *) n3, (void *) n4 },
  { (void *) m0, (void *) m1, (void *) m2, (void *) m3, 0 } };

/* ------------------------------------------------------------ closures */
struct ud { int route, sig, clo; };
static struct ud uds[NROUTE][NSG][NCLO];
static void *code[NROUTE][NSG][NCLO];
static ffi_go_closure gocl[NSG][NCLO];

static int
peek (int sig, void **args, long *v)
{
  int i, n = 0;
  switch (sig)
    {
    case 0: v[n++] = *(long *) args[0]; break;
    case 1: v[n++] = *(long *) args[0]; v[n++] = (long) *(double *) args[1]; break;
    case 2: for (i = 0; i < 8; i++) v[n++] = *(long *) args[i]; v[n++] = (long) *(double *) args[8]; break;
    case 3: v[n++] = ((mix *) args[0])->a; v[n++] = (long) ((mix *) args[0])->b; v[n++] = (long) *(float *) args[1]; break;
    case 4: v[n++] = *(long *) args[0]; v[n++] = (long) *(long double *) args[1]; break;
    default: v[n++] = -1; break;
    }
  return n;
}
static void
run_closure (ffi_cif *cif, void *ret, void **args, struct ud *u)
{
  long v[16], w[16], r;
  int n;
  int route = u->route, sig = u->sig;
  if (cif != &cifs[abi_of (route)][sig])
    sig = -1;
  n = peek (sig, args, v);
  r = body (route, sig, u->clo, v[0], n, v, cur_flag);
  /* what it was given must still be there */
  if (peek (sig, args, w) != n || memcmp (v, w, n * sizeof (long)))
    r = -7;
  switch (sig)
    {
    case 0: *(ffi_arg *) ret = r; break;
    case 1: { big b = { r, r + 1, r + 2 }; *(big *) ret = b; } break;
    case 2: *(double *) ret = r; break;
    case 3: { xim x = { (double) r, r + 1 }; *(xim *) ret = x; } break;
    case 4: *(long double *) ret = r; break;
    }
}
static void clo_fn (ffi_cif *c, void *r, void **a, void *u) { run_closure (c, r, a, (struct ud *) u); }
static void
go_fn (ffi_cif *c, void *r, void **a, void *u)
{
  ffi_go_closure *g = (ffi_go_closure *) u;
  int k = g - &gocl[0][0];
  run_closure (c, r, a, k >= 0 && k < NSG * NCLO ? &uds[13][k / NCLO][k % NCLO] : &uds[0][0][0]);
}
static void
raw_fn (ffi_cif *c, void *r, ffi_raw *raw, void *u)
{
  void *a[10];
  int i;
  for (i = 0; i < (int) c->nargs; i++)
    a[i] = c->arg_types[i]->type == FFI_TYPE_STRUCT ? raw[i].ptr : (void *) &raw[i];
  run_closure (c, r, a, (struct ud *) u);
}
static void
java_fn (ffi_cif *c, void *r, ffi_java_raw *raw, void *u)
{
  void *a[10];
  int i;
  for (i = 0; i < (int) c->nargs; i++)
    a[i] = raw + 2 * i;
  run_closure (c, r, a, (struct ud *) u);
}

static int
sig_ok (int route, int sig)
{
  if (abi_of (route))
    return sig <= 3;
  if (route == 10 || route == 11)
    return sig == 0 || sig == 2;
  if (route == 8 || route == 9 || route == 14)
    return sig <= 3;
  return 1;
}

static void
setup (void)
{
  int r, s, c;
  for (r = 0; r < 3; r++)
    for (s = 0; s < NSG; s++)
      if (ffi_prep_cif (&cifs[r][s], abis[r], na[s], rt[s], at[s]))
	abort ();
  for (r = 0; r < NROUTE; r++)
    for (s = 0; s < NSG; s++)
      for (c = 0; c < NCLO; c++)
	{
	  ffi_cif *cif = &cifs[abi_of (r)][s];
	  struct ud u = { r, s, c };
	  void *w, *x;
	  uds[r][s][c] = u;
	  if (!sig_ok (r, s))
	    continue;
	  if ((r >= 3 && r <= 7) || r == 9 || r == 11 || r == 14)
	    {
	      w = ffi_closure_alloc (256, &x);
	      if (!w)
		abort ();
	      code[r][s][c] = x;
	      if (r == 9 || r == 14)
		ffi_prep_raw_closure_loc ((ffi_raw_closure *) w, cif, raw_fn, &uds[r][s][c], x);
	      else if (r == 11)
		ffi_prep_java_raw_closure_loc ((ffi_java_raw_closure *) w, cif, java_fn, &uds[r][s][c], x);
	      else
		ffi_prep_closure_loc ((ffi_closure *) w, cif, clo_fn, &uds[r][s][c], x);
	    }
	  else if (r == 13)
	    ffi_prep_go_closure (&gocl[s][c], cif, go_fn);
	}
}

/* ------------------------------------------------------------ the calls */
static const struct { int n; } dummy = { 0 };

template <int conv> struct fp;
template <> struct fp<0> { typedef long (*f0) (long); typedef big (*f1) (long, double);
  typedef double (*f2) (long, long, long, long, long, long, long, long, double); typedef xim (*f3) (mix, float); typedef long double (*f4) (long, long double); };
template <> struct fp<1> { typedef long (MS *f0) (long); typedef big (MS *f1) (long, double);
  typedef double (MS *f2) (long, long, long, long, long, long, long, long, double); typedef xim (MS *f3) (mix, float); typedef long double (*f4) (long, long double); };

template <int conv> static int
plain (void *f, int sig, long t, long *res)
{
  switch (sig)
    {
    case 0: res[0] = ((typename fp<conv>::f0) f) (t); return 1;
    case 1: { big b = ((typename fp<conv>::f1) f) (t, t + 1); res[0] = b.a; res[1] = b.b; res[2] = b.c; return 3; }
    case 2: res[0] = (long) ((typename fp<conv>::f2) f) (t, t + 1, t + 2, t + 3, t + 4, t + 5, t + 6, t + 7, t + 8); return 1;
    case 3: { mix m = { t, (double) (t + 1) }; xim x = ((typename fp<conv>::f3) f) (m, t + 2); res[0] = (long) x.a; res[1] = x.b; return 2; }
    case 4: res[0] = (long) ((typename fp<conv>::f4) f) (t, t + 1); return 1;
    }
  return 0;
}

static int
docall (int route, int sig, int clo, long t, long *res)
{
  ffi_cif *cif = &cifs[abi_of (route)][sig];
  long l[9];
  double d = t + 1, d8 = t + 8;
  long double ld = t + 1;
  float f = t + 2;
  mix m = { t, (double) (t + 1) };
  void *av[10];
  union { ffi_arg i; big b; double d; xim x; long double ld; char pad[64]; } r;
  ffi_raw raw[40];
  ffi_java_raw jraw[40];
  int i;
  void *fn = nat[abi_of (route) != 0][sig];
  if ((route >= 3 && route <= 5) || route == 9 || route == 11)
    return abi_of (route) ? plain<1> (code[route][sig][clo], sig, t, res) : plain<0> (code[route][sig][clo], sig, t, res);
  for (i = 0; i < 9; i++)
    {
      l[i] = t + i;
      av[i] = &l[i];
    }
  if (sig == 1) av[1] = &d;
  if (sig == 2) av[8] = &d8;
  if (sig == 3) { av[0] = &m; av[1] = &f; }
  if (sig == 4) av[1] = &ld;
  memset (&r, 0x77, sizeof r);
  switch (route)
    {
    case 0: case 1: case 2: ffi_call (cif, FFI_FN (fn), &r, av); break;
    case 16: ffi_call (cif, FFI_FN (fn), NULL, av); return 0;
    case 6: case 7: ffi_call (cif, FFI_FN (code[route][sig][clo]), &r, av); break;
    case 8: case 14:
      memset (raw, 0, sizeof raw);
      ffi_ptrarray_to_raw (cif, av, raw);
      ffi_raw_call (cif, route == 8 ? FFI_FN (fn) : FFI_FN (code[route][sig][clo]), &r, raw);
      break;
    case 10:
      memset (jraw, 0, sizeof jraw);
      ffi_java_ptrarray_to_raw (cif, av, jraw);
      ffi_java_raw_call (cif, FFI_FN (fn), &r, jraw);
      break;
    case 12: case 15: ffi_call_go (cif, FFI_FN (fn), &r, av, (void *) &dummy); break;
    case 13: ffi_call_go (cif, FFI_FN (gocl[sig][clo].tramp), &r, av, &gocl[sig][clo]); break;
    }
  switch (sig)
    {
    case 0: res[0] = r.i; return 1;
    case 1: res[0] = r.b.a; res[1] = r.b.b; res[2] = r.b.c; return 3;
    case 2: res[0] = (long) r.d; return 1;
    case 3: res[0] = (long) r.x.a; res[1] = r.x.b; return 2;
    case 4: res[0] = (long) r.ld; return 1;
    }
  return 0;
}

/* ------------------------------------------------------------ activations */
#define SP() ({ char *s_; asm volatile ("mov %%rsp,%0" : "=r" (s_)); s_; })

/* enter one level deeper as the op says */
static void
deeper (const char *o, int lvl, long k)
{
  int route, sig, clo, flag, n, i;
  long res[4] = { -9, -9, -9, -9 }, t;
  sscanf (o, "E%d.%d.%d.%d", &route, &sig, &clo, &flag);
  t = (++toks) * 16;
  cur_route = route;
  cur_clo = clo;
  cur_flag = flag;
  level = lvl + 1;
  n = docall (route, sig, clo, t, res);
  level = lvl;
  out (",[\"R\",%d", lvl);
  for (i = 0; i < n; i++)
    out (",%ld", res[i] - i);
  (void) k;
}

/* the locals of an activation, kept in registers where the compiler can */
#define LOCALS long a = tok + 1, b = tok ^ 0x5555, c = tok * 3, d = ~tok, e = tok + 77; char *sp; \
  asm volatile ("" : "+r" (a), "+r" (b), "+r" (c), "+r" (d), "+r" (e))
#define INTACT (asm_ok (a, b, c, d, e, tok))
static int __attribute__((noinline))
asm_ok (long a, long b, long c, long d, long e, long t)
{
  return a == t + 1 && b == (t ^ 0x5555) && c == t * 3 && d == ~t && e == t + 77;
}

/* consumes ops until this level is done; what it returns */
static long __attribute__((noinline))
loop_plain (int lvl, long tok)
{
  LOCALS;
  while (pc < nops)
    {
      char *o = ops[pc++];
      if (*o == 'E')
	{
	  sp = SP ();
	  deeper (o, lvl, tok);
	  out (",%d]", INTACT && sp == SP ());
	}
      else if (*o == 'R')
	break;
      else if (*o == 'J')
	longjmp (jb[atoi (o + 1)], 1);
      else if (*o == 'T')
	{
	  Target t = { atoi (o + 1), { 1, 2, 3, 4, 5 } };
	  throw t;
	}
    }
  return pc;
}

static long __attribute__((noinline))
loop_try (int lvl, long tok)
{
  LOCALS;
  sp = SP ();
  for (;;)
    try
      {
	long r = loop_plain (lvl, tok);
	return INTACT ? r : -1;
      }
    catch (Target &t)
      {
	if (t.level != lvl)
	  throw;
	level = lvl;
	out (",[\"C\",%d,\"T\",%d]", lvl, INTACT && sp == SP () && t.pad[4] == 5);
      }
}

static long __attribute__((noinline))
loop_jmp (int lvl, long tok0)
{
  volatile long tok_ = tok0;
  if (setjmp (jb[lvl]))
    {
      level = lvl;
      out (",[\"C\",%d,\"J\",%d]", lvl, tok_ == tok0);
    }
  return loop_plain (lvl, tok_);
}

static long
body (int route, int sig, int clo, long tok, int n, const long *v, int flag)
{
  int i, lvl = level;
  out (",[\"E\",%d,%d,%d,%d,%ld", lvl, route, sig, clo, tok);
  for (i = 1; i < n; i++)
    out (",%ld", v[i] - i);
  out ("]");
  return flag == 1 ? loop_jmp (lvl, tok) : flag == 2 ? loop_try (lvl, tok) : loop_plain (lvl, tok);
}

int
main ()
{
  static char line[4 << 20];
  static char *tab[400000];
  S = (struct shared *) mmap (0, SLEN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  setup ();
  while (fgets (line, sizeof line, stdin))
    {
      char *p = strtok (line, " \n");
      int idx, flag, st;
      pid_t pid;
      if (!p)
	continue;
      idx = atoi (p);
      flag = atoi (strtok (NULL, " \n"));
      nops = 0;
      while ((p = strtok (NULL, " \n")) && nops < 400000)
	tab[nops++] = p;
      ops = tab;
      S->len = 0;
      S->done = 0;
      S->log[0] = 0;
      fflush (stdout);
      pid = fork ();
      if (pid == 0)
	{
	  struct rlimit rl = { 0, 0 };
	  setrlimit (RLIMIT_CORE, &rl);
	  alarm (30);
	  pc = 0;
	  level = 0;
	  if (flag == 1)
	    loop_jmp (0, 0);
	  else if (flag == 2)
	    loop_try (0, 0);
	  else
	    loop_plain (0, 0);
	  S->done = 1;
	  _exit (0);
	}
      waitpid (pid, &st, 0);
      if (!S->done)
	{
	  /* drop a record torn by the crash */
	  char *q = strrchr (S->log, ']');
	  if (q)
	    q[1] = 0;
	  else
	    S->log[0] = 0;
	}
      printf ("{\"i\":%d,\"crash\":%d,\"ev\":[%s]}\n", idx, S->done ? 0 : WIFSIGNALED (st) ? WTERMSIG (st) : 99, S->log[0] ? S->log + 1 : "");
    }
  return 0;
}
