#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <mntent.h>
#include <stdarg.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include "vf_wrap.h"

/* Candidate states:
   o works   a absent (unset, missing, no such call)   f cannot be opened
   x opens but cannot be mapped for execution          u full
   t works, but without O_TMPFILE      T neither O_TMPFILE nor mkstemp
   X without O_TMPFILE, not executable U without O_TMPFILE, full
   mount table entries also: r read-only  n noexec option  w not writable  */
char vf_status[NCAND + 1] = "ooooooooooo";
static const char *pub[NCAND] = { 0, "/vf/lib", "/vf/td", "/tmp", "/var/tmp", "/dev/shm", "/vf/home",
  "/vf/m1", "/vf/m2", "/vf/m3", "/vf/m4" };
char vf_scratch[256];
int vf_mode, vf_slots, vf_real_slots;
char vf_deny[64];
int vf_at[2] = { -1, -1 }, vf_from = -1;
char vf_cls;
int vf_ncalls, vf_hits;
char vf_calls[4096];
long vf_heap_pages, vf_malloc_bytes, vf_malloc_count;
int vf_locks, vf_badclose, vf_linked, vf_hole, vf_wxcalls, vf_badunmap, vf_deadlock, vf_badfree;
int vf_attempt[256], vf_nattempt, vf_used[64], vf_nused;
void (*vf_yield) (const char *);
static int active;
static int fdcand[256];			/* 1 + candidate */
static int fdlib[256];
static int fdmapped[256];			/* ever mapped */
static unsigned char fdalloc[256][2048];	/* file pages with space behind them */

#define YIELD(w) do { if (vf_yield) vf_yield (w); } while (0)

void vf_op_begin (void) { active = 1; vf_ncalls = vf_hits = vf_nattempt = 0; }
void vf_op_end (void) { active = 0; vf_at[0] = vf_at[1] = vf_from = -1; vf_cls = 0; }

static int
fault (char k)
{
  int n, f;
  if (!active)
    return 0;
  n = vf_ncalls++;
  if (n < (int) sizeof vf_calls - 1)
    vf_calls[n] = k, vf_calls[n + 1] = 0;
  f = n == vf_at[0] || n == vf_at[1] || (vf_from >= 0 && n >= vf_from) || strchr (vf_deny, k) != NULL;
  vf_hits += f;
  return f;
}

/* ---------------------------------------------------------------- pages */
#define NPG 65536
static struct { uintptr_t page; int prot; } pg[NPG];
static unsigned hash (uintptr_t p) { return (unsigned) ((p >> 12) * 2654435761u) % NPG; }
static void
pg_set (uintptr_t a, int prot)
{
  unsigned h = hash (a);
  while (pg[h].page && pg[h].page != a)
    h = (h + 1) % NPG;
  if (!pg[h].page || pg[h].prot < 0)
    vf_heap_pages++;
  pg[h].page = a;
  pg[h].prot = prot;
}
static int
pg_del (uintptr_t a)
{
  unsigned h = hash (a);
  while (pg[h].page && pg[h].page != a)
    h = (h + 1) % NPG;
  if (!pg[h].page || pg[h].prot < 0)
    return 0;
  pg[h].prot = -1;
  vf_heap_pages--;
  return 1;
}

void *
vf_mmap (void *s, size_t len, int prot, int flags, int fd, off_t off)
{
  void *r;
  size_t i;
  YIELD ("mmap");
  if ((prot & PROT_WRITE) && (prot & PROT_EXEC))
    vf_wxcalls++;
  if (fault ('M'))
    {
      errno = vf_cls == 'p' ? EPERM : vf_cls == 'a' ? EACCES : ENOMEM;
      return MAP_FAILED;
    }
  if ((prot & PROT_WRITE) && (prot & PROT_EXEC) && vf_mode && vf_mode != 5)
    {
      errno = vf_mode == 4 ? EACCES : EPERM;
      return MAP_FAILED;
    }
  if (fd >= 0 && fd < 256 && fdcand[fd])
    {
      struct stat st;
      char c = vf_status[fdcand[fd] - 1];
      if ((prot & PROT_EXEC) && (c == 'x' || c == 'X'))
	{
	  errno = EPERM;
	  return MAP_FAILED;
	}
      if (fstat (fd, &st) == 0 && st.st_nlink > 0)
	vf_linked++;
      if ((flags & MAP_SHARED) || (prot & PROT_EXEC))
	for (i = off >> 12; i < (off + len + 4095) >> 12; i++)
	  if (i >= 2048 || !fdalloc[fd][i])
	    vf_hole++;
    }
  r = mmap (s, len, prot, flags, fd, off);
  if (r != MAP_FAILED)
    {
      if (fd >= 0 && fd < 256)
	fdmapped[fd] = 1;
      for (i = 0; i < len; i += 4096)
	pg_set ((uintptr_t) r + i, prot);
      if (fd >= 0 && fd < 256 && fdcand[fd] && (prot & PROT_EXEC) && vf_nused < 64)
	vf_used[vf_nused++] = fdcand[fd] - 1;
    }
  return r;
}

int
vf_munmap (void *s, size_t len)
{
  size_t i;
  YIELD ("munmap");
  for (i = 0; i < len; i += 4096)
    if (!pg_del ((uintptr_t) s + i))
      vf_badunmap++;
  return munmap (s, len);
}

int
vf_mprotect (void *s, size_t len, int prot)
{
  YIELD ("mprotect");
  if ((prot & PROT_WRITE) && (prot & PROT_EXEC))
    vf_wxcalls++;
  if (fault ('G'))
    {
      errno = ENOMEM;
      return -1;
    }
  return mprotect (s, len, prot);
}

/* ---------------------------------------------------------------- files */
static int
cand_of (const char *path, const char **rest)
{
  int i;
  for (i = 1; i < NCAND; i++)
    {
      size_t n = strlen (pub[i]);
      if (!strncmp (path, pub[i], n) && (path[n] == 0 || path[n] == '/'))
	{
	  *rest = path + n;
	  return i;
	}
    }
  return -1;
}

static int
real_path (const char *path, char *out)
{
  const char *rest;
  int i = cand_of (path, &rest);
  if (i < 0)
    return -1;
  snprintf (out, 512, "%s/c%d%s", vf_scratch, i, rest);
  return i;
}

static void
attempt (int c)
{
  if (vf_nattempt < 256 && (vf_nattempt == 0 || vf_attempt[vf_nattempt - 1] != c))
    vf_attempt[vf_nattempt++] = c;
}

static int
own (int fd, int cand)
{
  if (fd >= 0 && fd < 256)
    {
      fdlib[fd] = 1;
      fdcand[fd] = cand + 1;
      fdmapped[fd] = 0;
      memset (fdalloc[fd], 0, sizeof fdalloc[fd]);
    }
  return fd;
}

static int
vopen (const char *path, int flags, int mode)
{
  char p[512];
  int c = real_path (path, p), fd;
  YIELD ("open");
  if (c >= 0)
    attempt (c);
  if (fault ('O'))
    {
      errno = vf_cls == 'p' ? EACCES : vf_cls == 'a' ? ENFILE : EMFILE;
      return -1;
    }
  if (c < 0)
    {
      if ((flags & (O_CREAT | O_TMPFILE | O_TRUNC)) || (flags & O_ACCMODE) != O_RDONLY)
	{
	  errno = EACCES;
	  return -1;
	}
      return own (open (path, flags), -1);
    }
  switch (vf_status[c])
    {
    case 'a': errno = ENOENT; return -1;
    case 'f': case 'w': errno = EACCES; return -1;
    case 'r': errno = EROFS; return -1;
    case 't': case 'T': case 'X': case 'U':
      if ((flags & O_TMPFILE) == O_TMPFILE)
	{
	  errno = c % 3 == 0 ? EOPNOTSUPP : c % 3 == 1 ? EISDIR : EINVAL;
	  return -1;
	}
    }
  fd = open (p, flags, mode);
  if (fd < 0 && (flags & O_TMPFILE) == O_TMPFILE && errno == EOPNOTSUPP)
    {
      /* scratch file system without O_TMPFILE: build the same thing */
      strcat (p, "/vfXXXXXX");
      fd = mkostemp (p, flags & O_CLOEXEC);
      if (fd >= 0)
	unlink (p);
    }
  return own (fd, c);
}

int vf_open (const char *path, int flags, ...)
{
  va_list a;
  int m;
  va_start (a, flags);
  m = va_arg (a, int);
  va_end (a);
  return vopen (path, flags, m);
}

int vf_openat (int d, const char *path, int flags, ...)
{
  va_list a;
  int m;
  va_start (a, flags);
  m = va_arg (a, int);
  va_end (a);
  return vopen (path, flags, m);
}

static int
temp (char *t, int flags)
{
  char p[512];
  int c = real_path (t, p), fd;
  YIELD ("mkstemp");
  if (c >= 0)
    attempt (c);
  if (fault ('K'))
    {
      errno = vf_cls == 'p' ? EACCES : EMFILE;
      return -1;
    }
  if (c < 0 || strchr ("afTwr", vf_status[c]))
    {
      errno = c >= 0 && vf_status[c] == 'a' ? ENOENT : EACCES;
      return -1;
    }
  fd = mkostemp (p, flags);
  if (fd >= 0)
    memcpy (t + strlen (t) - 6, p + strlen (p) - 6, 6);
  return own (fd, c);
}
int vf_mkstemp (char *t) { return temp (t, 0); }
int vf_mkostemp (char *t, int flags) { return temp (t, flags); }

int
vf_unlink (const char *path)
{
  char p[512];
  YIELD ("unlink");
  if (real_path (path, p) < 0)
    {
      errno = EACCES;
      return -1;
    }
  return unlink (p);
}

int
vf_access (const char *path, int m)
{
  const char *r;
  int c = cand_of (path, &r);
  if (c < 0)
    return access (path, m);
  if (strchr ("waf", vf_status[c]) || (vf_status[c] == 'r' && (m & W_OK)))
    {
      errno = EACCES;
      return -1;
    }
  return 0;
}

int
vf_memfd_create (const char *n, unsigned f)
{
  YIELD ("memfd_create");
  attempt (0);
  if (fault ('E'))
    {
      errno = vf_cls == 'p' ? ENOSYS : EMFILE;
      return -1;
    }
  if (strchr ("af", vf_status[0]))
    {
      errno = vf_status[0] == 'a' ? ENOSYS : EPERM;
      return -1;
    }
  return own (memfd_create (n, f), 0);
}

/* descriptors kept open that never gave any memory */
int
vf_idle (void)
{
  int n, k = 0;
  for (n = 0; n < 256; n++)
    k += fdlib[n] && !fdmapped[n];
  return k;
}

int
vf_close (int fd)
{
  YIELD ("close");
  if (fd >= 0)
    {
      if (fd >= 256 || !fdlib[fd])
	vf_badclose++;
      else
	fdlib[fd] = fdcand[fd] = 0;
      if (fd >= 256 || fd < 3)
	return -1;
    }
  return close (fd);
}

static void
grown (int fd, off_t off, ssize_t n)
{
  off_t i;
  if (n > 0 && fd >= 0 && fd < 256)
    for (i = off >> 12; i < (off + n + 4095) >> 12 && i < 2048; i++)
      fdalloc[fd][i] = 1;
}

static ssize_t
vwrite (int fd, const void *b, size_t n, off_t at)
{
  ssize_t r;
  off_t pos = at >= 0 ? at : lseek (fd, 0, SEEK_CUR);
  YIELD ("write");
  if (fd >= 0 && fd < 256 && fdlib[fd] && !fdcand[fd])
    vf_badclose++;			/* wrote to a file that is not its own */
  if (fd >= 0 && fd < 256 && fdcand[fd])
    {
      struct stat st;
      if (fstat (fd, &st) == 0 && st.st_nlink > 0)
	vf_linked++;
    }
  if (fault ('W'))
    {
      if (vf_cls == 's' && n > 1 && fd >= 0)
	{
	  r = at >= 0 ? pwrite (fd, b, n / 2, at) : write (fd, b, n / 2);
	  grown (fd, pos, r);
	  return r;
	}
      errno = vf_cls == 'p' ? EIO : ENOSPC;
      return -1;
    }
  if (fd >= 0 && fd < 256 && fdcand[fd] && strchr ("uU", vf_status[fdcand[fd] - 1]))
    {
      errno = ENOSPC;
      return -1;
    }
  r = at >= 0 ? pwrite (fd, b, n, at) : write (fd, b, n);
  grown (fd, pos, r);
  return r;
}
ssize_t vf_write (int fd, const void *b, size_t n) { return vwrite (fd, b, n, -1); }
ssize_t vf_pwrite (int fd, const void *b, size_t n, off_t o) { return vwrite (fd, b, n, o); }

static int
falloc (int fd, off_t off, off_t n)
{
  int r;
  YIELD ("fallocate");
  if (fault ('W') || (fd >= 0 && fd < 256 && fdcand[fd] && strchr ("uU", vf_status[fdcand[fd] - 1])))
    return ENOSPC;
  r = posix_fallocate (fd, off, n);
  if (r == 0)
    grown (fd, off, n);
  return r;
}
int vf_posix_fallocate (int fd, off_t off, off_t n) { return falloc (fd, off, n); }
int vf_fallocate (int fd, int m, off_t off, off_t n) { int r = falloc (fd, off, n); if (r) { errno = r; return -1; } return 0; }

int
vf_ftruncate (int fd, off_t n)
{
  off_t i;
  YIELD ("ftruncate");
  if (fault ('T'))
    {
      errno = EIO;
      return -1;
    }
  if (fd >= 0 && fd < 256)
    for (i = (n + 4095) >> 12; i < 2048; i++)
      fdalloc[fd][i] = 0;
  return ftruncate (fd, n);
}

ssize_t
vf_pread (int fd, void *b, size_t n, off_t o)
{
  YIELD ("pread");
  if (fault ('R'))
    {
      if (vf_cls == 's')
	return n > 1 ? pread (fd, b, n / 2, o) : 0;
      errno = EIO;
      return vf_cls == 'p' ? 0 : -1;
    }
  return pread (fd, b, n, o);
}

ssize_t
vf_read (int fd, void *b, size_t n)
{
  YIELD ("read");
  if (fault ('R'))
    {
      errno = EIO;
      return -1;
    }
  return read (fd, b, n);
}

FILE *
vf_fopen (const char *path, const char *m)
{
  char p[512];
  YIELD ("fopen");
  if (fault ('P'))
    {
      errno = EMFILE;
      return NULL;
    }
  if (vf_mode >= 5 && !strncmp (path, "/proc/", 6) && strlen (path) > 5 && !strcmp (path + strlen (path) - 5, "/maps"))
    {
      errno = ENOENT;
      return NULL;
    }
  if (!strcmp (path, "/proc/mounts") || !strcmp (path, "/proc/self/mounts"))
    {
      snprintf (p, sizeof p, "%s/%s", vf_scratch, vf_mode == 3 ? "selinux" : "noselinux");
      path = p;
    }
  if (strpbrk (m, "wa+"))
    {
      errno = EACCES;
      return NULL;
    }
  return fopen (path, m);
}

int vf_fclose (FILE *f) { YIELD ("fclose"); return fclose (f); }

int
vf_statfs (const char *path, struct statfs *s)
{
  if (!fault ('S') && !strcmp (path, "/selinux") && vf_mode == 2)
    {
      memset (s, 0, sizeof *s);
      s->f_type = 0xf97cff8cU;
      return 0;
    }
  errno = ENOENT;
  return -1;
}

FILE *
vf_setmntent (const char *path, const char *m)
{
  char p[512];
  YIELD ("setmntent");
  if (fault ('N'))
    {
      errno = EMFILE;
      return NULL;
    }
  snprintf (p, sizeof p, "%s/%s", vf_scratch, !strcmp (path, "/etc/mtab") ? "mtab" : "mounts");
  return setmntent (p, m);
}

char *
vf_getenv (const char *n)
{
  int c = !strcmp (n, "LIBFFI_TMPDIR") ? 1 : !strcmp (n, "TMPDIR") ? 2 : !strcmp (n, "HOME") ? 6 : 0;
  if (!c)
    return getenv (n);
  return vf_status[c] == 'a' ? NULL : (char *) pub[c];
}
char *vf_secure_getenv (const char *n) { return vf_getenv (n); }

/* ---------------------------------------------------------------- heap */
#define HDR 16
void *
vf_malloc (size_t n)
{
  size_t *p;
  YIELD ("malloc");
  if (fault ('A') || !(p = malloc (n + HDR)))
    {
      errno = ENOMEM;
      return NULL;
    }
  p[0] = n;
  p[1] = 0x5ca1ab1e0ddba11;
  vf_malloc_bytes += n;
  vf_malloc_count++;
  memset ((char *) p + HDR, 0xa5, n);
  return (char *) p + HDR;
}
void
vf_free (void *q)
{
  size_t *p;
  YIELD ("free");
  if (!q)
    return;
  p = (size_t *) ((char *) q - HDR);
  if (p[1] != 0x5ca1ab1e0ddba11)
    {
      /* getline and friends allocate behind our back */
      if (p[1] == 0xdead)
	vf_badfree++;
      else
	free (q);
      return;
    }
  p[1] = 0xdead;
  vf_malloc_bytes -= p[0];
  vf_malloc_count--;
  memset (q, 0x5a, p[0]);
  free (p);
}
void *
vf_calloc (size_t a, size_t b)
{
  void *p = vf_malloc (a * b);
  return p ? memset (p, 0, a * b) : p;
}
void *
vf_realloc (void *q, size_t n)
{
  void *p = vf_malloc (n);
  if (p && q)
    {
      size_t o = ((size_t *) ((char *) q - HDR))[0];
      memcpy (p, q, o < n ? o : n);
      vf_free (q);
    }
  return p;
}

/* ---------------------------------------------------------------- locks */
static pthread_mutex_t *held[16];
int
vf_pthread_mutex_lock (pthread_mutex_t *m)
{
  int i;
  if (vf_yield)
    {
      extern int vf_coop_lock (pthread_mutex_t *);
      return vf_coop_lock (m);
    }
  for (i = 0; i < vf_locks && i < 16; i++)
    if (held[i] == m)
      {
	vf_deadlock++;
	return 0;
      }
  if (vf_locks < 16)
    held[vf_locks] = m;
  vf_locks++;
  return pthread_mutex_lock (m);
}
int
vf_pthread_mutex_unlock (pthread_mutex_t *m)
{
  int i;
  if (vf_yield)
    {
      extern int vf_coop_unlock (pthread_mutex_t *);
      return vf_coop_unlock (m);
    }
  for (i = 0; i < vf_locks && i < 16; i++)
    if (held[i] == m)
      {
	memmove (held + i, held + i + 1, (16 - i - 1) * sizeof *held);
	vf_locks--;
	return pthread_mutex_unlock (m);
      }
  vf_deadlock++;
  return 0;
}
__attribute__((weak)) int vf_coop_lock (pthread_mutex_t *m) { return 0; }
__attribute__((weak)) int vf_coop_unlock (pthread_mutex_t *m) { return 0; }

/* ---------------------------------------------------------------- tables */
#ifdef VF_DL
void *(*vf_arch) (size_t *, size_t *);
#else
extern void *ffi_tramp_arch (size_t *, size_t *) __attribute__((weak));
void *(*vf_arch) (size_t *, size_t *) = ffi_tramp_arch;
#endif
void *
vf_tramp_arch (size_t *size, size_t *map)
{
  void *t = vf_arch (size, map);
  size_t k = 1;
  if (vf_slots)
    while (*map / (*size * k) > (size_t) vf_slots)
      k++;
  *size *= k;
  vf_real_slots = *map / *size;
  return t;
}

/* the same under their other names */
#define ALIAS(n, o) __typeof__ (o) n __attribute__((alias (#o)))
ALIAS (vf_mmap64, vf_mmap);
ALIAS (vf_open64, vf_open);
ALIAS (vf_openat64, vf_openat);
ALIAS (vf_fopen64, vf_fopen);
ALIAS (vf_mkstemp64, vf_mkstemp);
ALIAS (vf_mkostemp64, vf_mkostemp);
ALIAS (vf_pwrite64, vf_pwrite);
ALIAS (vf_posix_fallocate64, vf_posix_fallocate);
ALIAS (vf_fallocate64, vf_fallocate);
ALIAS (vf_ftruncate64, vf_ftruncate);
ALIAS (vf_pread64, vf_pread);
ALIAS (vf_statfs64, vf_statfs);

/* ---------------------------------------------------------------- setup */
static void
put (const char *name, const char *text)
{
  char p[512];
  FILE *f;
  snprintf (p, sizeof p, "%s/%s", vf_scratch, name);
  f = fopen (p, "w");
  if (f)
    {
      fputs (text, f);
      fclose (f);
    }
}

void
vf_setup (const char *scratch)
{
  char p[512], t[2][512];
  int i;
  snprintf (vf_scratch, sizeof vf_scratch, "%s", scratch);
  t[0][0] = t[1][0] = 0;
  for (i = 1; i < NCAND; i++)
    {
      snprintf (p, sizeof p, "%s/c%d", vf_scratch, i);
      mkdir (p, 0700);
      if (i >= 7)
	{
	  char *d = t[i >= 9];
	  snprintf (d + strlen (d), 512 - strlen (d), "dev%d %s ext4 %s 0 0\n", i, pub[i],
		    vf_status[i] == 'r' ? "ro,relatime" : vf_status[i] == 'n' ? "rw,noexec" : "rw,relatime");
	}
    }
  put ("mtab", t[0]);
  put ("mounts", t[1]);
  put ("selinux", "proc /proc proc rw 0 0\nselinuxfs /sys/fs/selinux selinuxfs rw 0 0\n");
  put ("noselinux", "proc /proc proc rw 0 0\n");
}

/* files left in any candidate directory */
int
vf_stray (void)
{
  char p[512];
  int i, n = 0;
  for (i = 1; i < NCAND; i++)
    {
      DIR *d;
      struct dirent *e;
      snprintf (p, sizeof p, "%s/c%d", vf_scratch, i);
      if (!(d = opendir (p)))
	continue;
      while ((e = readdir (d)))
	if (e->d_name[0] != '.')
	  n++;
      closedir (d);
    }
  return n;
}

/* remove what vf_setup and the library put there */
void
vf_cleanup (const char *dir)
{
  static const char *f[] = { "mtab", "mounts", "selinux", "noselinux" };
  char p[512], q[800];
  int i;
  for (i = 0; i < 4; i++)
    {
      snprintf (p, sizeof p, "%s/%s", dir, f[i]);
      unlink (p);
    }
  for (i = 1; i < NCAND; i++)
    {
      DIR *d;
      struct dirent *e;
      snprintf (p, sizeof p, "%s/c%d", dir, i);
      if ((d = opendir (p)))
	{
	  while ((e = readdir (d)))
	    if (e->d_name[0] != '.')
	      {
		snprintf (q, sizeof q, "%s/%s", p, e->d_name);
		unlink (q);
	      }
	  closedir (d);
	}
      rmdir (p);
    }
#ifdef VF_DL
  {
    static const char *g[] = { "lib dir/lib.so", "lib dir/other.so", "lib/lib.so", "lib/other.so", "lib", "lib/lib.so.d" };
    for (i = 0; i < 6; i++)
      {
	snprintf (p, sizeof p, "%s/%s", dir, g[i]);
	unlink (p);
      }
    snprintf (p, sizeof p, "%s/lib/lib.so", dir);
    rmdir (p);
    snprintf (p, sizeof p, "%s/lib dir", dir);
    rmdir (p);
    snprintf (p, sizeof p, "%s/lib", dir);
    rmdir (p);
  }
#endif
  rmdir (dir);
}

/* pages mapped executable and not writable */
int
vf_exec_pages (void)
{
  int i, n = 0;
  for (i = 0; i < NPG; i++)
    if (pg[i].page && pg[i].prot >= 0 && (pg[i].prot & PROT_EXEC) && !(pg[i].prot & PROT_WRITE))
      n++;
  return n;
}
