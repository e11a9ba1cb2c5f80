/* libffi as a shared library of which every history has a copy of its own,
   to be deleted or replaced while in use. */
#include <dlfcn.h>
extern void *(*vf_arch) (size_t *, size_t *);
static void *(*p_alloc) (size_t, void **);
static void (*p_free) (void *);
static void *(*p_d2c) (void *);
static ffi_status (*p_cif) (ffi_cif *, ffi_abi, unsigned, ffi_type *, ffi_type **);
static ffi_status (*p_loc) (ffi_closure *, ffi_cif *, void (*)(ffi_cif *, void *, void **, void *), void *, void *);
static ffi_status (*p_short) (ffi_closure *, ffi_cif *, void (*)(ffi_cif *, void *, void **, void *), void *);
static ffi_status (*p_raw) (ffi_raw_closure *, ffi_cif *, void (*)(ffi_cif *, void *, ffi_raw *, void *), void *, void *);
static ffi_status (*p_jraw) (ffi_java_raw_closure *, ffi_cif *, void (*)(ffi_cif *, void *, ffi_java_raw *, void *), void *, void *);
static ffi_type t_slong = { 8, 8, FFI_TYPE_SINT64, 0 }, t_double = { 8, 8, FFI_TYPE_DOUBLE, 0 }, t_float = { 4, 4, FFI_TYPE_FLOAT, 0 };
#define ffi_closure_alloc p_alloc
#define ffi_closure_free p_free
#define ffi_data_to_code_pointer p_d2c
#define ffi_prep_cif p_cif
#define ffi_prep_closure_loc p_loc
#define ffi_prep_closure p_short
#define ffi_prep_raw_closure_loc p_raw
#define ffi_prep_java_raw_closure_loc p_jraw
#undef ffi_type_slong
#define ffi_type_slong t_slong
#define ffi_type_double t_double
#define ffi_type_float t_float
static char libpath[512];
static const char *libsrc, *libother;
static void *libtext;
static size_t libtextlen;

static void
copy (const char *from, const char *to, long patch, size_t plen, int fill, long cut)
{
  FILE *f = fopen (from, "rb"), *g = fopen (to, "wb");
  static char b[1 << 22];
  size_t n;
  if (!f || !g)
    _exit (3);
  n = fread (b, 1, sizeof b, f);
  if (patch >= 0)
    memset (b + patch, fill, plen);
  if (cut >= 0 && (size_t) cut < n)
    n = cut;
  fwrite (b, 1, n, g);
  fclose (f);
  fclose (g);
}

static long
text_offset (void)
{
  FILE *f = fopen (libsrc, "rb");
  static char b[1 << 22];
  size_t n = fread (b, 1, sizeof b, f);
  char *q = memmem (b, n, libtext, libtextlen);
  fclose (f);
  return q ? q - b : -1;
}

static void
load_lib (const char *dir)
{
  void *h;
  size_t sz;
  char p[512];
  int space = vf_status[0] == 'S';
  if (space)
    vf_status[0] = 'o';
  libsrc = getenv ("VF_LIB");
  libother = getenv ("VF_OTHERLIB");
  snprintf (p, sizeof p, "%s/%s", dir, space ? "lib dir" : "lib");
  mkdir (p, 0700);
  snprintf (libpath, sizeof libpath, "%s/lib.so", p);
  copy (libsrc, libpath, -1, 0, 0, -1);
  if (space)
    {
      /* what is left of the path when it is cut at the blank */
      snprintf (p, sizeof p, "%s/lib", dir);
      copy (libother, p, -1, 0, 0, -1);
    }
  h = dlopen (libpath, RTLD_NOW | RTLD_LOCAL);
  if (!h)
    {
      fprintf (stderr, "%s\n", dlerror ());
      _exit (4);
    }
  p_alloc = dlsym (h, "ffi_closure_alloc");
  p_free = dlsym (h, "ffi_closure_free");
  p_d2c = dlsym (h, "ffi_data_to_code_pointer");
  p_cif = dlsym (h, "ffi_prep_cif");
  p_loc = dlsym (h, "ffi_prep_closure_loc");
  p_short = dlsym (h, "ffi_prep_closure");
  p_raw = dlsym (h, "ffi_prep_raw_closure_loc");
  p_jraw = dlsym (h, "ffi_prep_java_raw_closure_loc");
  vf_arch = dlsym (h, "vf_lib_arch");
  libtext = vf_arch (&sz, &libtextlen);
}

/* what becomes of the library's file */
static void
replace_lib (const char *how)
{
  char other[600];
  long off = text_offset ();
  snprintf (other, sizeof other, "%.*s/other.so", (int) (strrchr (libpath, '/') - libpath), libpath);
  rmdir (libpath);
  if (!strcmp (how, "del"))
    unlink (libpath);
  else if (!strcmp (how, "same"))
    copy (libsrc, other, -1, 0, 0, -1), rename (other, libpath);
  else if (!strcmp (how, "ud"))	/* the table is full of something else */
    copy (libsrc, other, off, libtextlen, 0xCC, -1), rename (other, libpath);
  else if (!strcmp (how, "last"))	/* only its end differs */
    copy (libsrc, other, off + libtextlen - 200, 200, 0xCC, -1), rename (other, libpath);
  else if (!strcmp (how, "mid"))
    copy (libsrc, other, off + 600, 1200, 0xCC, -1), rename (other, libpath);
  else if (!strcmp (how, "short"))	/* ends within the table */
    copy (libsrc, other, -1, 0, 0, off + 1000), rename (other, libpath);
  else if (!strcmp (how, "empty"))
    copy (libsrc, other, -1, 0, 0, 0), rename (other, libpath);
  else if (!strcmp (how, "other"))	/* another build of the library */
    copy (libother, other, -1, 0, 0, -1), rename (other, libpath);
  else if (!strcmp (how, "dir"))
    unlink (libpath), mkdir (libpath, 0700);
  else if (!strcmp (how, "link"))
    unlink (libpath), symlink (libother, libpath);
}
