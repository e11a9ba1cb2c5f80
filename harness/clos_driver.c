/* Replays histories of closure operations.  Each input line is one history,
   run in a process of its own:
     <i> <slots> <mode> <candidates> <probes> <op> <op> ...
   op:  [<process>:]<op>  with
     a<id>,<size>              allocate            f<id>   free
     p<id>,<kind>,<sig>,<fn>,<ud>  prepare (0 loc 1 raw 2 java raw 3 short form)
     c<id>                     call                m<id>   ffi_data_to_code_pointer
     o<id>,<how>               closure memory of our own (0 rwx page 1 two mappings 2 two mappings, prepared via code address only)
     r<id>                     release that
     x<a>,<b>,<from>,<cls>     failing system calls of the next operation
     d<kinds>                  kinds of calls failing from now on ("-" none)
     k<q>                      fork: process q continues from this point
     z                         this process exits
     q                         probe everything                                */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <time.h>
#include <sys/prctl.h>
#include <ffi.h>
#include <ffi_common.h>
#include "vf_wrap.h"

#ifdef VF_DL
#include "vf_dl.h"
#endif

#define MAXID 2048
struct clo { int live, own, prep, kind, sig; size_t size, lib; char *w, *c; char *page; size_t pagelen; char *xpage; };
static struct clo C[MAXID];
static int maxid;

struct shared { volatile int turn; volatile int dead; size_t len; char log[1]; };
static struct shared *S;
static size_t SLEN = 32u << 20;

static void
out (const char *f, ...)
{
  va_list a;
  va_start (a, f);
  S->len += vsnprintf (S->log + S->len, SLEN - sizeof *S - S->len, f, a);
  va_end (a);
}

/* ------------------------------------------------------------ functions */
typedef struct { long a, b, c; } big_t;
typedef struct { float x, y; } ff_t;
static ffi_type *big_e[] = { &ffi_type_slong, &ffi_type_slong, &ffi_type_slong, 0 };
static ffi_type big_ty = { 0, 0, FFI_TYPE_STRUCT, big_e };
static ffi_type *ff_e[] = { &ffi_type_float, &ffi_type_float, 0 };
static ffi_type ff_ty = { 0, 0, FFI_TYPE_STRUCT, ff_e };
enum { NSG = 7 };
static ffi_cif cif[NSG];
static ffi_type *a0[] = { &ffi_type_slong }, *a1[] = { &ffi_type_double, &ffi_type_slong },
  *a2[] = { &big_ty }, *a3[] = { &ff_ty, &ffi_type_slong },
  *a4[] = { &ffi_type_slong, &ffi_type_slong, &ffi_type_slong, &ffi_type_slong, &ffi_type_slong, &ffi_type_slong, &ffi_type_slong, &ffi_type_slong };

static volatile long g_fn, g_sig, g_ud, g_arg, g_count;

static long
fx (long fn, long arg, long ud)
{
  return arg * 7 + fn * 1000003 + ud * 31;
}

static void
common (long fn, ffi_cif *c, void *ret, void **args, void *ud)
{
  long arg = -1, s = c - cif;
  g_count++;
  g_fn = fn;
  g_sig = s >= 0 && s < NSG ? s : -1;
  g_ud = (long) ud;
  if (g_sig < 0)
    return;
  switch (s)
    {
    case 0: case 5: case 6: arg = *(long *) args[0]; *(ffi_arg *) ret = fx (fn, arg, g_ud); break;
    case 1: arg = *(long *) args[1]; if (*(double *) args[0] != arg * 0.5) arg = -1; *(double *) ret = fx (fn, arg, g_ud); break;
    case 2: { big_t b = *(big_t *) args[0]; arg = b.b == b.a + 1 && b.c == b.a + 2 ? b.a : -1; b.a = fx (fn, arg, g_ud); b.b = b.a + 1; b.c = b.a + 2; *(big_t *) ret = b; } break;
    case 3: { ff_t f = *(ff_t *) args[0]; arg = *(long *) args[1]; if (f.x != (float) (arg % 1000) || f.y != -f.x) arg = -1; *(double *) ret = fx (fn, arg, g_ud); } break;
    case 4: { int i; arg = *(long *) args[0]; for (i = 1; i < 8; i++) if (*(long *) args[i] != *(long *) args[0] + i) arg = -1; *(ffi_arg *) ret = fx (fn, arg, g_ud); } break;
    }
  g_arg = arg;
}
static void f0 (ffi_cif *c, void *r, void **a, void *u) { common (0, c, r, a, u); }
static void f1 (ffi_cif *c, void *r, void **a, void *u) { common (1, c, r, a, u); }
static void f2 (ffi_cif *c, void *r, void **a, void *u) { common (2, c, r, a, u); }
static void (*fns[]) (ffi_cif *, void *, void **, void *) = { f0, f1, f2 };
static void
rawcommon (long fn, ffi_cif *c, void *ret, ffi_raw *raw, void *u)
{
  void *av[8];
  long tmp[8];
  int i;
  for (i = 0; i < (int) c->nargs; i++)
    av[i] = raw + i;
  if (c == &cif[3])
    av[1] = raw + 1;
  if (c == &cif[2])
    av[0] = raw->ptr;
  if (c == &cif[3])
    av[0] = raw->ptr;
  (void) tmp;
  common (fn, c, ret, av, u);
}
static void r0 (ffi_cif *c, void *r, ffi_raw *a, void *u) { rawcommon (0, c, r, a, u); }
static void r1 (ffi_cif *c, void *r, ffi_raw *a, void *u) { rawcommon (1, c, r, a, u); }
static void r2 (ffi_cif *c, void *r, ffi_raw *a, void *u) { rawcommon (2, c, r, a, u); }
static void (*rfns[]) (ffi_cif *, void *, ffi_raw *, void *) = { r0, r1, r2 };
static void
javacommon (long fn, ffi_cif *c, void *ret, ffi_java_raw *raw, void *u)
{
  void *av[8];
  int i, k = 0;
  for (i = 0; i < (int) c->nargs; i++)
    {
      int t = c->arg_types[i]->type;
      av[i] = raw + k;
      k += t == FFI_TYPE_DOUBLE || t == FFI_TYPE_SINT64 || t == FFI_TYPE_UINT64 ? 2 : 1;
    }
  common (fn, c, ret, av, u);
}
static void j0 (ffi_cif *c, void *r, ffi_java_raw *a, void *u) { javacommon (0, c, r, a, u); }
static void j1 (ffi_cif *c, void *r, ffi_java_raw *a, void *u) { javacommon (1, c, r, a, u); }
static void j2 (ffi_cif *c, void *r, ffi_java_raw *a, void *u) { javacommon (2, c, r, a, u); }
static void (*jfns[]) (ffi_cif *, void *, ffi_java_raw *, void *) = { j0, j1, j2 };

static void
cifs (void)
{
  ffi_prep_cif (&cif[0], FFI_UNIX64, 1, &ffi_type_slong, a0);
  ffi_prep_cif (&cif[1], FFI_UNIX64, 2, &ffi_type_double, a1);
  ffi_prep_cif (&cif[2], FFI_UNIX64, 1, &big_ty, a2);
  ffi_prep_cif (&cif[3], FFI_UNIX64, 2, &ffi_type_double, a3);
  ffi_prep_cif (&cif[4], FFI_UNIX64, 8, &ffi_type_slong, a4);
  ffi_prep_cif (&cif[5], FFI_GNUW64, 1, &ffi_type_slong, a0);
  ffi_prep_cif (&cif[6], FFI_WIN64, 1, &ffi_type_slong, a0);
}

/* 1 when the call passed its arguments on and gave back the right result */
static int
docall (struct clo *c)
{
  static long seq = 100;
  long v = seq += 3, r = -1, want;
  g_fn = g_sig = g_ud = g_arg = -1;
  g_count = 0;
  switch (c->sig)
    {
    case 0: r = ((long (*) (long)) c->c) (v); break;
    case 1: r = ((double (*) (double, long)) c->c) (v * 0.5, v); break;
    case 2: { big_t b = { v, v + 1, v + 2 }; b = ((big_t (*) (big_t)) c->c) (b); r = b.b == b.a + 1 && b.c == b.a + 2 ? b.a : -1; } break;
    case 3: { ff_t f = { v % 1000, -(v % 1000) }; r = ((double (*) (ff_t, long)) c->c) (f, v); } break;
    case 4: r = ((long (*) (long, long, long, long, long, long, long, long)) c->c) (v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7); break;
    case 5: case 6: r = ((long (__attribute__((ms_abi)) *) (long)) c->c) (v); break;
    }
  want = fx (g_fn, v, g_ud);
  return g_count == 1 && g_arg == v && r == want;
}

/* ------------------------------------------------------------ maps */
#define MAXMAP 8192
struct map { uintptr_t lo, hi; char p[5]; };
static struct map base[MAXMAP], now[MAXMAP];
static int nbase, nnow;
static char mbuf[4 << 20];

static int
readmaps (struct map *m)
{
  int fd = open ("/proc/self/maps", O_RDONLY | O_CLOEXEC), n = 0;
  size_t len = 0;
  ssize_t r;
  char *p;
  while ((r = read (fd, mbuf + len, sizeof mbuf - 1 - len)) > 0)
    len += r;
  close (fd);
  mbuf[len] = 0;
  for (p = mbuf; *p && n < MAXMAP;)
    {
      char *e = strchr (p, '\n');
      m[n].lo = strtoul (p, &p, 16);
      m[n].hi = strtoul (p + 1, &p, 16);
      memcpy (m[n].p, p + 1, 4);
      m[n].p[4] = 0;
      n++;
      if (!e)
	break;
      p = e + 1;
    }
  return n;
}

static int
isbase (struct map *m)
{
  int i;
  for (i = 0; i < nbase; i++)
    if (m->lo >= base[i].lo && m->hi <= base[i].hi && !strcmp (m->p, base[i].p))
      return 1;
  for (i = 0; i < maxid; i++)
    if (C[i].own && ((uintptr_t) C[i].page == m->lo || (uintptr_t) C[i].xpage == m->lo))
      return 1;
  return 0;
}

static const char *
perm (void *a)
{
  int i;
  for (i = 0; i < nnow; i++)
    if ((uintptr_t) a >= now[i].lo && (uintptr_t) a < now[i].hi)
      return now[i].p;
  return "----";
}

/* ------------------------------------------------------------ observation */
static int fd0[64], probes, proc;
static unsigned prng = 12345;
static unsigned rnd (void) { return (prng = prng * 1103515245u + 12345u) >> 8; }

#define PAT(id, i) ((unsigned char) ((id) * 37 + (i) * 11 + 5))
#define LIBPART (sizeof (ffi_java_raw_closure))

static void
fill (int id)
{
  size_t i;
  C[id].lib = sizeof (ffi_closure);
  for (i = C[id].lib; i < C[id].size; i++)
    C[id].w[i] = PAT (id, i);
}

static int
patok (int id)
{
  size_t i;
  struct clo *c = &C[id];
  for (i = c->lib; i < c->size; i++)
    if ((unsigned char) c->w[i] != PAT (id, i))
      return 0;
  if (c->own)
    {
      for (i = 0; i < 4096; i++)
	if (c->page + i < c->w || c->page + i >= c->w + c->lib)
	  if ((unsigned char) c->page[i] != 0xC3)
	    return 0;
    }
  return 1;
}

#define HL(p) ((unsigned long) (p) >> 28), ((unsigned long) (p) & 0xfffffff)

/* live closures whose code page holds something else than the library's table */
static int
alien (void)
{
  int n = 0;
#ifdef VF_DL
  int i;
  for (i = 0; i < maxid; i++)
    if (C[i].live && perm (C[i].c)[1] != 'w'
	&& memcmp ((char *) ((uintptr_t) C[i].c & ~4095ul), libtext, libtextlen))
      n++;
#endif
  return n;
}

static void
observe (int all)
{
  int i, n, fds, ne, first, live = 0, wx = 0;
  int sel[MAXID], ns = 0;
  for (i = 0; i < maxid; i++)
    if (C[i].live || C[i].own)
      sel[ns++] = i;
  live = ns;
  if (!all && probes && ns > probes)
    for (i = 0; i < probes; i++)
      {
	int j = i + rnd () % (ns - i), t = sel[i];
	sel[i] = sel[j];
	sel[j] = t;
      }
  if (!all && probes && ns > probes)
    ns = probes;
  nnow = readmaps (now);
  out (",\"pr\":[");
  for (first = 1, i = 0; i < ns; i++)
    if (C[sel[i]].prep)
      {
	int ok = docall (&C[sel[i]]);
	out ("%s[%d,%ld,%ld,%ld,%d]", first ? "" : ",", sel[i], g_fn, g_sig, g_ud, ok);
	first = 0;
      }
  out ("],\"pt\":[");
  for (first = 1, i = 0; i < maxid; i++)
    if ((C[i].live || C[i].own) && !patok (i))
      {
	out ("%s%d", first ? "" : ",", i);
	first = 0;
      }
  out ("],\"pm\":[");
  for (first = 1, i = 0; i < ns; i++)
    if (C[sel[i]].live)
      {
	const char *a = perm (C[sel[i]].c), *b = perm (C[sel[i]].w);
	out ("%s[%d,%d,%d,%d,%d]", first ? "" : ",", sel[i], a[1] == 'w', a[2] == 'x', b[1] == 'w', b[2] == 'x');
	first = 0;
      }
  out ("],\"x\":[");
  for (first = 1, i = 0; i < nnow; i++)
    if (!isbase (&now[i]))
      {
	if (now[i].p[1] == 'w' && now[i].p[2] == 'x')
	  wx++;
	if (now[i].p[2] == 'x')
	  {
	    out ("%s[%lu,%lu,%lu]", first ? "" : ",", HL (now[i].lo), (now[i].hi - now[i].lo) >> 12);
	    first = 0;
	  }
      }
  for (fds = ne = n = 0; n < 64; n++)
    {
      int fl = fcntl (n, F_GETFD);
      if (fl >= 0 && !fd0[n])
	{
	  fds++;
	  if (!(fl & FD_CLOEXEC))
	    ne++;
	}
    }
  out ("],\"al\":%d", alien ());
  out (",\"wx\":%d,\"hb\":%ld,\"mb\":%ld,\"fd\":%d,\"fi\":%d,\"ne\":%d,\"fl\":%d,\"lk\":%d,\"dl\":%d,\"bc\":%d,\"nl\":%d,\"ho\":%d,\"wc\":%d,\"bu\":%d,\"used\":[",
       wx, vf_heap_pages, vf_malloc_bytes, fds, vf_idle (), ne, vf_stray (), vf_locks, vf_deadlock, vf_badclose + vf_badfree,
       vf_linked, vf_hole, vf_wxcalls, vf_badunmap);
  for (i = 0; i < vf_nused; i++)
    out ("%s%d", i ? "," : "", vf_used[i]);
  out ("],\"att\":[");
  for (i = 0; i < vf_nattempt; i++)
    out ("%s%d", i ? "," : "", vf_attempt[i]);
  out ("],\"h\":%d,\"nc\":%d}", vf_hits, vf_ncalls);
}

static int
doprep (struct clo *c, int kind, int sig, int fn, long ud, int how)
{
  void *w = c->w, *x = c->c;
  int st;
  if (kind == 0)
    st = ffi_prep_closure_loc (w, &cif[sig], fns[fn], (void *) ud, x);
  else if (kind == 1)
    st = ffi_prep_raw_closure_loc (w, &cif[sig], rfns[fn], (void *) ud, x);
  else if (kind == 2)
    st = ffi_prep_java_raw_closure_loc (w, &cif[sig], jfns[fn], (void *) ud, x);
  else
    st = ffi_prep_closure (w, &cif[sig], fns[fn], (void *) ud);
  return st;
}

static void
own_memory (int id, int how)
{
  struct clo *c = &C[id];
  char *a, *b;
  if (how == 0)
    a = b = mmap (0, 4096, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  else
    {
      int fd = memfd_create ("own", MFD_CLOEXEC);
      ftruncate (fd, 4096);
      a = mmap (0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      b = mmap (0, 4096, PROT_READ | PROT_EXEC, MAP_SHARED, fd, 0);
      close (fd);
    }
  memset (a, 0xC3, 4096);
  c->own = 1;
  c->live = 0;
  c->prep = 0;
  c->kind = 0;
  c->size = 0;
  c->lib = sizeof (ffi_closure);
  c->page = a;
  c->xpage = b;
  /* the object may sit anywhere in the page, also at its very end */
  {
    size_t off = how == 2 ? 4096 - sizeof (ffi_java_raw_closure) : how == 3 ? 0 : 512 + 8 * (id % 5);
    c->w = a + off;
    c->c = b + off;
  }
}

static void
pass (int i)
{
  S->turn = i;
  syscall (SYS_futex, &S->turn, FUTEX_WAKE, 64, 0, 0, 0);
}

/* wait for our turn; 0 when somebody died */
static int
await (int i, int *children)
{
  int t, idle = 0, last = -1;
  while ((t = S->turn) < i && !S->dead)
    {
      struct timespec ts = { 0, 200000000 };
      int st;
      alarm (60);
      syscall (SYS_futex, &S->turn, FUTEX_WAIT, t, &ts, 0, 0);
      idle = t == last ? idle + 1 : 0;
      last = t;
      if (idle && *children && waitpid (-1, &st, WNOHANG) > 0)
	{
	  --*children;
	  if (WIFSIGNALED (st) || WEXITSTATUS (st))
	    S->dead = 1;
	}
      if (idle > 150)
	S->dead = 1;
    }
  return !S->dead;
}

static int
run (int idx, char **op, int nop)
{
  int i, children = 0;
  for (i = 0; i < nop; i++)
    {
      char *o = op[i];
      int p = 0, id, a, b, x;
      long ud;
      size_t sz;
      if (o[0] && o[1] == ':')
	{
	  p = o[0] - '0';
	  o += 2;
	}
      if (p != proc)
	continue;
      if (!await (i, &children))
	return 1;
      alarm (20);
      if (*o == 'x')
	{
	  char cls = '-';
	  sscanf (o + 1, "%d,%d,%d,%c", &vf_at[0], &vf_at[1], &vf_from, &cls);
	  vf_cls = cls;
	  pass (i + 1);
	  continue;
	}
      if (*o == 'd')
	{
	  snprintf (vf_deny, sizeof vf_deny, "%s", o[1] == '-' ? "" : o + 1);
	  pass (i + 1);
	  continue;
	}
      if (*o == 's')
	{
	  /* candidate o[1]-'a' is in state o[2] from now on */
	  vf_status[o[1] - 'a'] = o[2];
	  out ("%s{\"p\":%d,\"op\":\"s\",\"id\":%d,\"c\":\"%c\"}", S->len ? ",\n" : "", proc, o[1] - 'a' + 1, o[2]);
	  pass (i + 1);
	  continue;
	}
      if (*o == 'A')
	{
	  if (C[atoi (o + 1)].live)
	    {
	      pass (i + 1);
	      continue;
	    }
	  *o = 'a';
	}
#ifdef VF_DL
      if (*o == 'L')
	{
	  replace_lib (o + 1);
	  pass (i + 1);
	  continue;
	}
#endif
      if (*o == 'k')
	{
	  int q = atoi (o + 1);
	  pid_t pid = fork ();
	  if (pid == 0)
	    {
	      proc = q;
	      children = 0;
	      prng += q * 977;
	      continue;
	    }
	  children++;
	  out ("%s{\"p\":%d,\"op\":\"k\",\"id\":%d}", S->len ? ",\n" : "", proc, q);
	  pass (i + 1);
	  continue;
	}
      if (*o == 'z')
	{
	  out ("%s{\"p\":%d,\"op\":\"z\",\"id\":0}", S->len ? ",\n" : "", proc);
	  pass (i + 1);
	  break;
	}
      id = atoi (o + 1);
      if (id >= maxid)
	maxid = id + 1;
      /* marks the operation that was running should it crash */
      {
	size_t mark = S->len;
	long ret = 0;
	struct clo *c = &C[id];
	out ("%s{\"p\":%d,\"op\":\"%c\",\"id\":%d", mark ? ",\n" : "", proc, *o, id);
	switch (*o)
	  {
	  case 'a':
	    {
	      void *code = (void *) 0x1234;
	      sscanf (o + 1, "%d,%zu", &id, &sz);
	      vf_op_begin ();
	      c->w = ffi_closure_alloc (sz, &code);
	      vf_op_end ();
	      c->c = code;
	      c->size = sz;
	      c->prep = 0;
	      c->own = 0;
	      c->live = c->w != NULL;
	      out (",\"sz\":%zu,\"st\":%d,\"w\":[%lu,%lu],\"c\":[%lu,%lu]", sz, c->w != NULL, HL (c->w), HL (c->c));
	      if (c->live)
		fill (id);	/* all of it must be ours to write */
	    }
	    break;
	  case 'p':
	    if (!c->live && !c->own)
	      {
		out (",\"st\":-1");
		break;
	      }
	    sscanf (o + 1, "%d,%d,%d,%d,%ld", &id, &a, &b, &x, &ud);
	    vf_op_begin ();
	    ret = doprep (c, a, b, x, ud, 0);
	    vf_op_end ();
	    if (ret == 0)
	      {
		c->prep = 1;
		c->kind = a;
		c->sig = b;
		if (a == 1 || a == 2)
		  c->lib = LIBPART;
	      }
	    out (",\"st\":%ld,\"kd\":%d,\"sg\":%d,\"fn\":%d,\"ud\":%ld", ret, a, b, x, ud);
	    break;
	  case 'c':
	    out (",\"st\":%d", C[id].prep ? docall (&C[id]) : -1);
	    out (",\"g\":[%ld,%ld,%ld]", g_fn, g_sig, g_ud);
	    break;
	  case 'f':
	    if (c->live)
	      {
		c->live = c->prep = 0;
		vf_op_begin ();
		ffi_closure_free (c->w);
		vf_op_end ();
		out (",\"st\":1");
	      }
	    else
	      out (",\"st\":-1");
	    break;
	  case 'm':
	    if (c->live)
	      {
		void *r;
		vf_op_begin ();
		r = ffi_data_to_code_pointer (c->w);
		vf_op_end ();
		out (",\"st\":%d", r == c->c);
	      }
	    else if (c->own)
	      out (",\"st\":%d", ffi_data_to_code_pointer (c->w) == c->w);
	    else
	      out (",\"st\":-1");
	    break;
	  case 'o':
	    sscanf (o + 1, "%d,%d", &id, &a);
	    own_memory (id, a);
	    vf_op_begin ();
	    vf_op_end ();
	    out (",\"st\":1,\"w\":[%lu,%lu],\"c\":[%lu,%lu]", HL (c->w), HL (c->c));
	    break;
	  case 'r':
	    vf_op_begin ();
	    vf_op_end ();
	    if (c->own)
	      {
		c->own = 0;
		munmap (c->page, 4096);
		if (c->xpage != c->page)
		  munmap (c->xpage, 4096);
	      }
	    out (",\"st\":1");
	    break;
	  case 'q':
	    vf_op_begin ();
	    vf_op_end ();
	    out (",\"st\":1");
	    break;
	  }
	observe (*o == 'q');
	pass (i + 1);
      }
    }
  while (children-- > 0)
    {
      int st;
      pid_t w = wait (&st);
      if (w > 0 && (WIFSIGNALED (st) || WEXITSTATUS (st)) && !S->dead)
	S->dead = 1;
    }
  return 0;
}

int
main (int argc, char **argv)
{
  static char line[1 << 20];
  static char *op[60000];
  const char *dir = argv[1];
  int st = argc > 2 ? atoi (argv[2]) : 0;
  (void) st;
#ifndef VF_DL
  cifs ();
#endif
  setvbuf (stdout, NULL, _IOFBF, 1 << 16);
  prctl (PR_SET_CHILD_SUBREAPER, 1);
  S = mmap (0, SLEN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  while (fgets (line, sizeof line, stdin))
    {
      int n = 0, idx, st;
      pid_t pid;
      char *p = strtok (line, " \n");
      if (!p)
	continue;
      idx = atoi (p);
      vf_slots = atoi (strtok (NULL, " \n"));
      vf_mode = atoi (strtok (NULL, " \n"));
      snprintf (vf_status, sizeof vf_status, "%s", strtok (NULL, " \n"));
      probes = atoi (strtok (NULL, " \n"));
      while ((p = strtok (NULL, " \n")) && n < 60000)
	op[n++] = p;
      S->turn = S->dead = 0;
      S->len = 0;
      S->log[0] = 0;
      fflush (stdout);
      pid = fork ();
      if (pid == 0)
	{
	  int i;
	  char d[300];
	  setpgid (0, 0);
	  alarm (20);
	  snprintf (d, sizeof d, "%s/h%d", dir, (int) getpid ());
	  mkdir (d, 0700);
	  vf_setup (d);
	  for (i = 0; i < 64; i++)
	    fd0[i] = fcntl (i, F_GETFD) >= 0;
	  nbase = readmaps (base);
#ifdef VF_DL
	  load_lib (d);
	  cifs ();
	  nbase = readmaps (base);
#endif
	  run (idx, op, n);
	  fflush (stdout);
	  _exit (0);
	}
      waitpid (pid, &st, 0);
      if (!WIFEXITED (st))
	S->dead = 1;
      kill (-pid, SIGKILL);
      while (wait (NULL) > 0)
	;
      {
	char d[400];
	snprintf (d, sizeof d, "%s/h%d", dir, (int) pid);
	vf_cleanup (d);
      }
      {
	extern void *(*vf_arch) (size_t *, size_t *);
	extern void *vf_tramp_arch (size_t *, size_t *);
	size_t a, b;
	if (vf_arch)
	  vf_tramp_arch (&a, &b);
      }
      int sig = WIFSIGNALED (st) ? WTERMSIG (st) : 1;
      if ((!WIFEXITED (st) || S->dead) && S->len && S->log[S->len - 1] != '}')
	{
	  /* cut the record of the dying operation down to its head */
	  char *r = S->log + S->len, *e;
	  while (r > S->log && strncmp (r, "{\"p\":", 5))
	    r--;
	  e = strstr (r, "\"id\":");
	  if (e)
	    {
	      e += 5;
	      while (*e >= '0' && *e <= '9')
		e++;
	      *e = 0;
	      S->len = e - S->log;
	    }
	}
      printf ("{\"i\":%d,\"n\":%d,\"mode\":%d,\"cand\":\"%s\",\"os\":%d,\"stat\":%d,\"ev\":[%s", idx, vf_real_slots, vf_mode, vf_status,
	      (int) sizeof (ffi_closure), VF_STATIC, S->log);
      if (!WIFEXITED (st) || S->dead)
	{
	  /* the last record is the operation that died */
	  size_t l = S->len;
	  if (l && S->log[l - 1] != '}')
	    printf (",\"crash\":%d}", sig);
	  else
	    printf ("%s{\"p\":0,\"op\":\"crash\",\"id\":0,\"crash\":%d}", l ? "," : "", sig);
	}
      printf ("]}\n");
      fflush (stdout);
    }
  return 0;
}
