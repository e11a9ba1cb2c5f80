/* Runs programs of closure operations in several threads under a schedule
   that is fully given.  libffi's objects are compiled with
   -fsanitize=thread; its callbacks, the redirected libc calls and the locks
   are the points where another thread may be let in.
   Input line:
     <i> <slots> <mode> <handover> <schedule> <prefix> | <thread 0> | <thread 1> ...
   schedule: - | T<thread ids, one per synchronisation point> |
     comma separated <class>.<t>.<k>.<u>: at the k-th point of thread t of that
     class go on with thread u.  class 0 synchronisation and system calls,
     1 also accesses to shared memory with no lock held, 2 all of them.
   handover 1: unlocking lets a waiting thread go on.
   op: a<id>,<size> p<id>,<tok> c<id> f<id> l<tok> x<tok> g<tok>  */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <stdarg.h>
#include <signal.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <linux/futex.h>
#include <ffi.h>
#include <ffi_common.h>
#include "vf_wrap.h"

enum { MAXT = 4, MAXID = 64, MAXPRE = 8, MAXLOCK = 64 };
static struct shared { size_t len, whole; int done; unsigned cnt[MAXT][3]; char log[1]; } *S;
static const size_t SLEN = 1u << 20;
static int inside;			/* an event of several parts */
static void
out (const char *f, ...)
{
  va_list a;
  va_start (a, f);
  if (S->len < SLEN - 4096)
    S->len += vsnprintf (S->log + S->len, SLEN - sizeof *S - S->len, f, a);
  if (!inside)
    S->whole = S->len;
  va_end (a);
}

/* ------------------------------------------------------------ scheduler */
static int nthr, cur, running;		/* cur holds the baton */
static int baton;
static __thread int me = -1;
static __thread uintptr_t stklo, stkhi;
static struct { int done; pthread_mutex_t *wait; int rd; unsigned streak; } T[MAXT];
static struct { void *m; int owner, readers; } K[MAXLOCK];
static int nk, handover, nheld[MAXT];
static struct { int c, t, u; unsigned k; } P[MAXPRE];
static int npre, badlock;
static const char *turns;

static void
stuck (int code)
{
  S->done = code;
  _exit (0);
}

static int
blocked (int t)
{
  int i;
  if (!T[t].wait)
    return 0;
  for (i = 0; i < nk; i++)
    if (K[i].m == (void *) T[t].wait)
      return T[t].rd ? K[i].owner >= 0 : K[i].owner >= 0 || K[i].readers > 0;
  return 0;
}
static int runnable (int t) { return t >= 0 && t < nthr && !T[t].done && !blocked (t); }

static void
go (int t)
{
  int u;
  if (t == me)
    return;
  cur = t;
  __atomic_store_n (&baton, t, __ATOMIC_RELEASE);
  syscall (SYS_futex, &baton, FUTEX_WAKE_PRIVATE, 64, 0, 0, 0);
  if (me >= 0 && !T[me].done)
    while ((u = __atomic_load_n (&baton, __ATOMIC_ACQUIRE)) != me)
      syscall (SYS_futex, &baton, FUTEX_WAIT_PRIVATE, u, 0, 0, 0);
}

static int
another (void)
{
  int t;
  for (t = 0; t < nthr; t++)
    if (t != me && runnable (t))
      return t;
  return -1;
}

static void
point (int level)
{
  int c, i, to = -1;
  if (!running || me < 0)
    return;
  for (c = level; c < 3; c++)
    {
      unsigned k = S->cnt[me][c]++;
      for (i = 0; i < npre; i++)
	if (P[i].c == c && P[i].t == me && P[i].k == k)
	  to = P[i].u;
    }
  if (level == 0 && turns && *turns)
    to = *turns++ - '0';
  if (S->cnt[me][2] > 3000000)
    stuck (3);
  /* somebody spinning on something another thread must provide */
  if (++T[me].streak % 50000 == 0)
    to = another ();
  if (to >= 0 && to != me && runnable (to))
    {
      T[me].streak = 0;
      go (to);
    }
}

static void yield (const char *w) { point (0); }

static int
lockix (void *m)
{
  int i;
  for (i = 0; i < nk; i++)
    if (K[i].m == m)
      return i;
  K[nk].m = m;
  K[nk].owner = -1;
  K[nk].readers = 0;
  if (nk < MAXLOCK - 1)
    return nk++;
  return nk;
}

static int
acquire (void *m, int rd, int try)
{
  int i;
  point (0);
  i = lockix (m);
  while (K[i].owner >= 0 || (!rd && K[i].readers))
    {
      int t;
      if (try)
	return EBUSY;
      T[me].wait = m;
      T[me].rd = rd;
      t = K[i].owner >= 0 && runnable (K[i].owner) ? K[i].owner : another ();
      if (K[i].owner == me || t < 0)
	stuck (2);		/* nobody can go on */
      T[me].streak = 0;
      go (t);
    }
  T[me].wait = NULL;
  if (rd)
    K[i].readers++;
  else
    K[i].owner = me;
  nheld[me]++;
  return 0;
}

static int
release (void *m)
{
  int i = lockix (m), t;
  if (K[i].owner == me)
    K[i].owner = -1;
  else if (K[i].readers > 0)
    K[i].readers--;
  else
    {
      badlock++;
      return EPERM;
    }
  nheld[me]--;
  if (handover)
    for (t = 0; t < nthr; t++)
      if (t != me && !T[t].done && T[t].wait == m && runnable (t))
	{
	  T[me].streak = 0;
	  go (t);
	  return 0;
	}
  point (0);
  return 0;
}

int vf_coop_lock (pthread_mutex_t *m) { return acquire (m, 0, 0); }
int vf_coop_unlock (pthread_mutex_t *m) { return release (m); }
#define COOP(real, rd, try) if (!vf_yield) return real; return acquire (m, rd, try)
int vf_pthread_mutex_trylock (pthread_mutex_t *m) { COOP (pthread_mutex_trylock (m), 0, 1); }
int vf_pthread_rwlock_rdlock (pthread_rwlock_t *m) { COOP (pthread_rwlock_rdlock (m), 1, 0); }
int vf_pthread_rwlock_wrlock (pthread_rwlock_t *m) { COOP (pthread_rwlock_wrlock (m), 0, 0); }
int vf_pthread_rwlock_unlock (pthread_rwlock_t *m) { if (!vf_yield) return pthread_rwlock_unlock (m); return release (m); }
int vf_pthread_spin_lock (pthread_spinlock_t *m) { COOP (pthread_spin_lock (m), 0, 0); }
int vf_pthread_spin_trylock (pthread_spinlock_t *m) { COOP (pthread_spin_trylock (m), 0, 1); }
int vf_pthread_spin_unlock (pthread_spinlock_t *m) { if (!vf_yield) return pthread_spin_unlock (m); return release (m); }
int vf_sched_yield (void)
{
  int t;
  if (!running || me < 0)
    return 0;
  if ((t = another ()) >= 0)
    go (t);
  return 0;
}
static struct { void *o; int done; } once[16];
int
vf_pthread_once (pthread_once_t *o, void (*f) (void))
{
  int i;
  for (i = 0; i < 15 && once[i].o && once[i].o != (void *) o; i++)
    ;
  if (vf_yield)
    acquire (o, 0, 0);
  if (!once[i].done)
    {
      once[i].o = o;
      f ();
      once[i].done = 1;
    }
  if (vf_yield)
    release (o);
  return 0;
}

/* ------------------------------------------------------------ instrumentation */
static inline void
touch (void *a)
{
  if (!running || me < 0 || ((uintptr_t) a >= stklo && (uintptr_t) a < stkhi))
    return;
  point (nheld[me] ? 2 : 1);
}
#define ACC(n) \
  void __tsan_read##n (void *a) { touch (a); } \
  void __tsan_write##n (void *a) { touch (a); } \
  void __tsan_unaligned_read##n (void *a) { touch (a); } \
  void __tsan_unaligned_write##n (void *a) { touch (a); } \
  void __tsan_volatile_read##n (void *a) { touch (a); } \
  void __tsan_volatile_write##n (void *a) { touch (a); }
ACC (1) ACC (2) ACC (4) ACC (8) ACC (16)
void __tsan_read_range (void *a, size_t n) { touch (a); }
void __tsan_write_range (void *a, size_t n) { touch (a); }
void *vf_memcpy (void *d, const void *s, size_t n) { touch ((void *) s); touch (d); return memcpy (d, s, n); }
void *vf_memmove (void *d, const void *s, size_t n) { touch ((void *) s); touch (d); return memmove (d, s, n); }
void *vf_memset (void *d, int c, size_t n) { touch (d); return memset (d, c, n); }
void *__tsan_memcpy (void *d, const void *s, size_t n) { return vf_memcpy (d, s, n); }
void *__tsan_memmove (void *d, const void *s, size_t n) { return vf_memmove (d, s, n); }
void *__tsan_memset (void *d, int c, size_t n) { return vf_memset (d, c, n); }
void __tsan_init (void) {}
void __tsan_func_entry (void *p) {}
void __tsan_func_exit (void) {}
void __tsan_vptr_update (void *a, void *b) {}
#define AT(n, ty) \
  ty __tsan_atomic##n##_load (const volatile ty *a, int o) { point (0); return __atomic_load_n (a, 5); } \
  void __tsan_atomic##n##_store (volatile ty *a, ty v, int o) { point (0); __atomic_store_n (a, v, 5); } \
  ty __tsan_atomic##n##_exchange (volatile ty *a, ty v, int o) { point (0); return __atomic_exchange_n (a, v, 5); } \
  ty __tsan_atomic##n##_fetch_add (volatile ty *a, ty v, int o) { point (0); return __atomic_fetch_add (a, v, 5); } \
  ty __tsan_atomic##n##_fetch_sub (volatile ty *a, ty v, int o) { point (0); return __atomic_fetch_sub (a, v, 5); } \
  ty __tsan_atomic##n##_fetch_and (volatile ty *a, ty v, int o) { point (0); return __atomic_fetch_and (a, v, 5); } \
  ty __tsan_atomic##n##_fetch_or (volatile ty *a, ty v, int o) { point (0); return __atomic_fetch_or (a, v, 5); } \
  ty __tsan_atomic##n##_fetch_xor (volatile ty *a, ty v, int o) { point (0); return __atomic_fetch_xor (a, v, 5); } \
  ty __tsan_atomic##n##_fetch_nand (volatile ty *a, ty v, int o) { point (0); return __atomic_fetch_nand (a, v, 5); } \
  int __tsan_atomic##n##_compare_exchange_strong (volatile ty *a, ty *e, ty v, int o, int f) { point (0); return __atomic_compare_exchange_n (a, e, v, 0, 5, 5); } \
  int __tsan_atomic##n##_compare_exchange_weak (volatile ty *a, ty *e, ty v, int o, int f) { point (0); return __atomic_compare_exchange_n (a, e, v, 0, 5, 5); } \
  ty __tsan_atomic##n##_compare_exchange_val (volatile ty *a, ty e, ty v, int o, int f) { point (0); __atomic_compare_exchange_n (a, &e, v, 0, 5, 5); return e; }
AT (8, unsigned char) AT (16, unsigned short) AT (32, unsigned) AT (64, unsigned long)
void __tsan_atomic_thread_fence (int o) {}
void __tsan_atomic_signal_fence (int o) {}

/* ------------------------------------------------------------ operations */
typedef struct { long a, b, c; } big;
typedef struct { double d; long l; } mix;
typedef struct { float f[2]; } ff;
typedef struct { mix m; ff g; } nest;
static ffi_type *e_big[] = { &ffi_type_slong, &ffi_type_slong, &ffi_type_slong, 0 };
static ffi_type t_big = { 0, 0, FFI_TYPE_STRUCT, e_big };
static ffi_type *e_mix[] = { &ffi_type_double, &ffi_type_slong, 0 };
static ffi_type t_mix = { 0, 0, FFI_TYPE_STRUCT, e_mix };
static ffi_type *e_ff[] = { &ffi_type_float, &ffi_type_float, 0 };
static ffi_type t_ff = { 0, 0, FFI_TYPE_STRUCT, e_ff };
static ffi_type *e_nest[] = { &t_mix, &t_ff, 0 };
static ffi_type t_nest = { 0, 0, FFI_TYPE_STRUCT, e_nest };
enum { NSG = 4 };
static ffi_type *at[NSG][4] = { { &ffi_type_slong }, { &t_mix, &ffi_type_slong }, { &t_big, &ffi_type_float }, { &t_nest, &ffi_type_slong } };
static ffi_type *rt[NSG] = { &ffi_type_slong, &t_mix, &t_big, &t_ff };
static const int na[NSG] = { 1, 2, 2, 2 };
static ffi_cif cifs[NSG], wcif;
static struct { char *w, *c; long size; int live; long tok; } C[MAXID];

static long val (long tok, long x) { return (x * 3 + tok) & 0xfffff; }
static void
cb (ffi_cif *cif, void *ret, void **a, void *ud)
{
  long tok = (long) ud, s = tok % 8;
  long x = -1;
  point (0);
  if (cif != (s == 4 ? &wcif : s < NSG ? &cifs[s] : NULL))
    s = -1;
  switch (s)
    {
    case 0: case 4: x = *(long *) a[0]; *(ffi_arg *) ret = val (tok, x); break;
    case 1: x = *(long *) a[1]; { mix m = *(mix *) a[0]; if (m.l != x + 1 || m.d != x + 2) x = -1; m.l = val (tok, x); m.d = m.l + 1; *(mix *) ret = m; } break;
    case 2: { big b = *(big *) a[0]; x = b.a; if (b.b != x + 1 || b.c != x + 2 || *(float *) a[1] != x % 100) x = -1; b.a = val (tok, x); b.b = b.a + 1; b.c = b.a + 2; *(big *) ret = b; } break;
    case 3: { nest n = *(nest *) a[0]; x = *(long *) a[1]; ff f; if (n.m.l != x || n.m.d != x + 1 || n.g.f[0] != x % 50 || n.g.f[1] != -(x % 50)) x = -1;
	f.f[0] = val (tok, x); f.f[1] = f.f[0] + 1; *(ff *) ret = f; } break;
    }
}
/* targets of ffi_call: they know the token from the argument */
static long n0 (long x) { point (0); return val (0, x); }
static mix n1 (mix m, long x) { mix r; point (0); if (m.l != x + 1 || m.d != x + 2) x = -1; r.l = val (1, x); r.d = r.l + 1; return r; }
static big n2 (big b, float f) { long x = b.a; point (0); if (b.b != x + 1 || b.c != x + 2 || f != x % 100) x = -1; b.a = val (2, x); b.b = b.a + 1; b.c = b.a + 2; return b; }
static ff n3 (nest n, long x) { ff f; point (0); if (n.m.l != x || n.m.d != x + 1 || n.g.f[0] != x % 50 || n.g.f[1] != -(x % 50)) x = -1; f.f[0] = val (3, x); f.f[1] = f.f[0] + 1; return f; }
static __attribute__((ms_abi)) long n4 (long x) { point (0); return val (4, x); }
static void *nat[5] = { n0, n1, n2, n3, n4 };

/* a call of code, as compiled C does it */
static int
direct (void *f, long tok, long x)
{
  long v = val (tok, x);
  switch (tok % 8)
    {
    case 0: return ((long (*) (long)) f) (x) == v;
    case 4: return ((long (__attribute__((ms_abi)) *) (long)) f) (x) == v;
    case 1: { mix m = { x + 2, x + 1 }; m = ((mix (*) (mix, long)) f) (m, x); return m.l == v && m.d == v + 1; }
    case 2: { big b = { x, x + 1, x + 2 }; b = ((big (*) (big, float)) f) (b, x % 100); return b.a == v && b.b == v + 1 && b.c == v + 2; }
    case 3: { nest n = { { x + 1, x }, { { x % 50, -(x % 50) } } }; ff r = ((ff (*) (nest, long)) f) (n, x); return r.f[0] == (float) v && r.f[1] == (float) v + 1; }
    }
  return 0;
}
/* the same through ffi_call */
static int
indirect (ffi_cif *cif, void *f, long tok, long x)
{
  long v = val (tok, x);
  union { ffi_arg i; mix m; big b; ff f; char pad[64]; } r;
  mix m = { x + 2, x + 1 };
  big b = { x, x + 1, x + 2 };
  nest n = { { x + 1, x }, { { x % 50, -(x % 50) } } };
  float fl = x % 100;
  void *av[2];
  int s = tok % 8;
  av[0] = s == 1 ? (void *) &m : s == 2 ? (void *) &b : s == 3 ? (void *) &n : (void *) &x;
  av[1] = s == 2 ? (void *) &fl : (void *) &x;
  memset (&r, 0, sizeof r);
  ffi_call (cif, FFI_FN (f), &r, av);
  switch (s)
    {
    case 0: case 4: return (long) r.i == v;
    case 1: return r.m.l == v && r.m.d == v + 1;
    case 2: return r.b.a == v && r.b.b == v + 1 && r.b.c == v + 2;
    case 3: return r.f.f[0] == (float) v && r.f.f[1] == (float) v + 1;
    }
  return 0;
}

#define PAT(id, i) ((unsigned char) ((id) * 29 + (i) * 13 + 7))
#define HL(p) ((unsigned long) (p) >> 28), ((unsigned long) (p) & 0xfffffff)
static __thread long seq;

static void
op (const char *o)
{
  int id = atoi (o + 1), st = 0;
  const char *q = strchr (o, ',');
  long a2 = q ? atol (q + 1) : 0, x = 1000 * (me + 2) + ++seq;
  out ("[\"i\",%d,\"%c\",%d,%ld],", me, *o, id, a2);
  point (0);
  switch (*o)
    {
    case 'a':
      {
	void *c = NULL;
	char *w = ffi_closure_alloc (a2, &c);
	size_t i;
	out ("[\"r\",%d,\"a\",%d,%d,[%lu,%lu],[%lu,%lu]],", me, id, w != NULL, HL (w), HL (c));
	C[id].w = w;
	C[id].c = c;
	C[id].size = a2;
	C[id].live = w != NULL;
	C[id].tok = -1;
	if (w)
	  for (i = sizeof (ffi_closure); i < (size_t) a2; i++)
	    w[i] = PAT (id, i);
	return;
      }
    case 'p':
      st = C[id].live && ffi_prep_closure_loc ((ffi_closure *) C[id].w, a2 % 8 == 4 ? &wcif : &cifs[a2 % 8], cb, (void *) a2, C[id].c) == FFI_OK;
      C[id].tok = a2;
      break;
    case 'c':
      st = C[id].live && direct (C[id].c, C[id].tok, x);
      break;
    case 'i':
      st = C[id].live && indirect (C[id].tok % 8 == 4 ? &wcif : &cifs[C[id].tok % 8], C[id].c, C[id].tok, x);
      break;
    case 'f':
      {
	size_t i;
	st = C[id].live;
	for (i = sizeof (ffi_closure); st && i < (size_t) C[id].size; i++)
	  if ((unsigned char) C[id].w[i] != PAT (id, i))
	    st = 2;
	if (C[id].live)
	  ffi_closure_free (C[id].w);
	C[id].live = 0;
	break;
      }
    case 'l':
      st = indirect (id == 4 ? &wcif : &cifs[id % 8], nat[id % 8], id, x);
      break;
    case 'x':
      {
	ffi_cif own;
	st = ffi_prep_cif (&own, id == 4 ? FFI_GNUW64 : FFI_DEFAULT_ABI, id == 4 ? 1 : na[id % 8], id == 4 ? rt[0] : rt[id % 8], id == 4 ? at[0] : at[id % 8]) == FFI_OK
	     && indirect (&own, nat[id % 8], id, x);
	break;
      }
    }
  out ("[\"r\",%d,\"%c\",%d,%d],", me, *o, id, st);
}

static void
program (char *s)
{
  char *sv, *o;
  for (o = strtok_r (s, " ", &sv); o; o = strtok_r (NULL, " ", &sv))
    op (o);
}

static char *prog[MAXT];
static void *
thread (void *z)
{
  int t = (long) z, u;
  pthread_attr_t at;
  void *sa;
  size_t ss;
  pthread_getattr_np (pthread_self (), &at);
  pthread_attr_getstack (&at, &sa, &ss);
  pthread_attr_destroy (&at);
  stklo = (uintptr_t) sa;
  stkhi = stklo + ss;
  me = t;
  while ((u = __atomic_load_n (&baton, __ATOMIC_ACQUIRE)) != me)
    syscall (SYS_futex, &baton, FUTEX_WAIT_PRIVATE, u, 0, 0, 0);
  program (prog[t]);
  T[t].done = 1;
  u = another ();
  if (u < 0)
    {
      for (u = 0; u < nthr; u++)
	if (!T[u].done)
	  stuck (2);
      u = 99;
    }
  go (u);
  return NULL;
}

static void
sweep (const char *what, int fd0)
{
  int i, fds = 0;
  inside = 1;
  out ("[\"z\",\"%s\",[", what);
  for (i = 0; i < MAXID; i++)
    if (C[i].live && C[i].tok >= 0)
      out ("[%d,%d],", i, direct (C[i].c, C[i].tok, 77 + i));
  inside = 0;
  for (i = 3; i < 64; i++)
    fds += fcntl (i, F_GETFD) >= 0;
  out ("[-1,1]],%d,%ld,%ld,%d,%d,%d,%d],", fds - fd0, vf_heap_pages, vf_malloc_bytes, vf_exec_pages (), vf_stray (),
       vf_badclose + vf_badfree + vf_badunmap, badlock + vf_deadlock + vf_locks);
}

static void
history (char *line, char *dir)
{
  int i, fd0 = 0;
  char *f[5], *p = line, *sv;
  pthread_t th[MAXT];
  struct rlimit rl = { 0, 0 };
  pthread_attr_t pa;
  for (i = 0; i < 5; i++)
    f[i] = strsep (&p, " ");
  vf_slots = atoi (f[1]);
  vf_mode = atoi (f[2]);
  handover = atoi (f[3]);
  setrlimit (RLIMIT_CORE, &rl);
  alarm (20);
  if (f[4][0] == 'T')
    turns = f[4] + 1;
  else if (f[4][0] != '-')
    for (sv = strtok (f[4], ","); sv && npre < MAXPRE; sv = strtok (NULL, ","), npre++)
      sscanf (sv, "%d.%d.%u.%d", &P[npre].c, &P[npre].t, &P[npre].k, &P[npre].u);
  {
    char *pre = strsep (&p, "|");
    while (p && nthr < MAXT)
      prog[nthr++] = strsep (&p, "|");
    for (i = 3; i < 64; i++)
      fd0 += fcntl (i, F_GETFD) >= 0;
    vf_op_begin ();
    program (pre);
  }
  for (i = 0; i < nthr; i++)
    {
      out ("");
      K[0].owner = -1;
    }
  baton = -2;
  pthread_attr_init (&pa);
  pthread_attr_setstacksize (&pa, 256 << 10);
  for (i = 0; i < nthr; i++)
    pthread_create (&th[i], &pa, thread, (void *) (long) i);
  running = 1;
  vf_yield = yield;
  cur = 0;
  baton = 0;
  syscall (SYS_futex, &baton, FUTEX_WAKE_PRIVATE, 64, 0, 0, 0);
  for (i = 0; i < nthr; i++)
    pthread_join (th[i], NULL);
  running = 0;
  vf_yield = NULL;
  me = -1;
  for (i = 0; i < MAXT; i++)
    badlock += nheld[i] != 0;
  sweep ("end", fd0);
  for (i = 0; i < MAXID; i++)
    if (C[i].live)
      {
	char b[16];
	sprintf (b, "f%d", i);
	op (b);
      }
  sweep ("free", fd0);
  /* it must still work */
  op ("a60,88");
  op ("p60,800");
  op ("c60");
  op ("f60");
  S->done = 1;
  _exit (0);
}

int
main (int argc, char **argv)
{
  static char line[65536];
  char dir[300];
  int i;
  cpu_set_t cs;
  if (!(personality (0xffffffff) & ADDR_NO_RANDOMIZE))
    {
      personality (personality (0xffffffff) | ADDR_NO_RANDOMIZE);
      execv ("/proc/self/exe", argv);
    }
  if (argc > 2)
    {
      CPU_ZERO (&cs);
      CPU_SET (atoi (argv[2]) % sysconf (_SC_NPROCESSORS_ONLN), &cs);
      sched_setaffinity (0, sizeof cs, &cs);
    }
  S = mmap (0, SLEN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (i = 0; i < NSG; i++)
    if (ffi_prep_cif (&cifs[i], FFI_DEFAULT_ABI, na[i], rt[i], at[i]))
      abort ();
  if (ffi_prep_cif (&wcif, FFI_GNUW64, 1, rt[0], at[0]))
    abort ();
  snprintf (dir, sizeof dir, "%s/s", argv[1]);
  mkdir (dir, 0700);
  vf_setup (dir);
  while (fgets (line, sizeof line, stdin))
    {
      int st;
      pid_t pid;
      line[strcspn (line, "\n")] = 0;
      memset (S, 0, sizeof *S);
      fflush (stdout);
      if ((pid = fork ()) == 0)
	history (line, dir);
      waitpid (pid, &st, 0);
      /* what was being written when it died is left out */
      if (S->whole > SLEN - sizeof *S)
	S->whole = 0;
      S->log[S->whole] = 0;
      if (S->whole && S->log[S->whole - 1] == ',')
	S->log[S->whole - 1] = 0;
      printf ("{\"i\":%d,\"done\":%d,\"sig\":%d,\"cnt\":[", atoi (line), S->done, WIFSIGNALED (st) ? WTERMSIG (st) : 0);
      for (i = 0; i < MAXT; i++)
	printf ("%s[%u,%u,%u]", i ? "," : "", S->cnt[i][0], S->cnt[i][1], S->cnt[i][2]);
      printf ("],\"ev\":[%s]}\n", S->log);
    }
  vf_cleanup (dir);
  return 0;
}
