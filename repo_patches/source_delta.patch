From 5c4f814423b52ee0923a84571ea02341d612c475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 01/37] fix: return structures of one long double on the x87
 stack

A structure whose only member is a long double has classes X87, X87UP and
is returned in st(0) like the long double itself.  examine_argument
reports such a result with 1, and ffi_prep_cif_machdep then treated it as
a RAX:RDX pair, so both ffi_call and closures moved the wrong registers
and left the x87 stack unbalanced.
---
 src/x86/ffi64.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index 1d1b88e..f53b682 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -473,7 +473,9 @@ ffi_prep_cif_machdep (ffi_cif *cif)
 	{
 	  _Bool sse0 = SSE_CLASS_P (classes[0]);
 
-	  if (rtype_size == 4 && sse0)
+	  if (classes[0] == X86_64_X87_CLASS)
+	    flags = UNIX64_RET_X87;
+	  else if (rtype_size == 4 && sse0)
 	    flags = UNIX64_RET_XMM32;
 	  else if (rtype_size == 8)
 	    flags = sse0 ? UNIX64_RET_XMM64 : UNIX64_RET_INT64;
-- 
2.43.0


From 3e882f52f960757994203c74428b64d1845abb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 02/37] fix: leave the caller's argument vector alone in x86-64
 ffi_call

ffi_call replaced the entries for large structures in the caller's avalue
array with the addresses of its own stack copies.  These dangle once
ffi_call returns, so using the same vector for a second call passed
garbage.  The System V path copies memory arguments to the stack anyway
and needs no copy; the Win64 path now records its copies in a vector of
its own.
---
 src/x86/ffi64.c  | 18 ------------------
 src/x86/ffiw64.c |  7 +++++++
 2 files changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index f53b682..b159086 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -687,24 +687,6 @@ ffi_call_efi64(ffi_cif *cif, void (*fn)(void), void *rvalue, void **avalue);
 void
 ffi_call (ffi_cif *cif, void (*fn)(void), void *rvalue, void **avalue)
 {
-  ffi_type **arg_types = cif->arg_types;
-  int i, nargs = cif->nargs;
-  const int max_reg_struct_size = cif->abi == FFI_GNUW64 ? 8 : 16;
-
-  /* If we have any large structure arguments, make a copy so we are passing
-     by value.  */
-  for (i = 0; i < nargs; i++)
-    {
-      ffi_type *at = arg_types[i];
-      int size = at->size;
-      if (at->type == FFI_TYPE_STRUCT && size > max_reg_struct_size)
-        {
-          char *argcopy = alloca (size);
-          memcpy (argcopy, avalue[i], size);
-          avalue[i] = argcopy;
-        }
-    }
-
 #ifndef __ILP32__
   if (cif->abi == FFI_EFI64 || cif->abi == FFI_GNUW64)
     {
diff --git a/src/x86/ffiw64.c b/src/x86/ffiw64.c
index 2be8b99..05e4651 100644
--- a/src/x86/ffiw64.c
+++ b/src/x86/ffiw64.c
@@ -125,9 +125,16 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
   struct win64_call_frame *frame;
   ffi_type **arg_types = cif->arg_types;
   int nargs = cif->nargs;
+  void **avalue_copy;
 
   FFI_ASSERT(cif->abi == FFI_GNUW64 || cif->abi == FFI_WIN64);
 
+  /* The copies made below must not show up in the caller's vector.  */
+  avalue_copy = alloca (nargs * sizeof (void *));
+  for (i = 0; i < nargs; i++)
+    avalue_copy[i] = avalue[i];
+  avalue = avalue_copy;
+
   /* If we have any large structure arguments, make a copy so we are passing
      by value.  */
   for (i = 0; i < nargs; i++)
-- 
2.43.0


From 390fca01ca96622464fba7f131771f1e90a58d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 03/37] fix: copy every argument that Win64 passes by reference

Only structures larger than 8 bytes were copied.  Structures of 3, 5, 6
or 7 bytes, complex values and long doubles are passed by reference too,
so a callee that modified such a parameter changed the caller's object.
---
 src/x86/ffiw64.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/x86/ffiw64.c b/src/x86/ffiw64.c
index 05e4651..5437268 100644
--- a/src/x86/ffiw64.c
+++ b/src/x86/ffiw64.c
@@ -135,18 +135,27 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
     avalue_copy[i] = avalue[i];
   avalue = avalue_copy;
 
-  /* If we have any large structure arguments, make a copy so we are passing
-     by value.  */
+  /* If we have any arguments that are passed by reference, make a copy so we
+     are passing by value.  */
   for (i = 0; i < nargs; i++)
     {
       ffi_type *at = arg_types[i];
       int size = at->size;
-      if (at->type == FFI_TYPE_STRUCT && size > 8)
-        {
-          char *argcopy = alloca (size);
-          memcpy (argcopy, avalue[i], size);
-          avalue[i] = argcopy;
-        }
+      char *argcopy;
+
+      switch (size)
+	{
+	case 8:
+	case 4:
+	case 2:
+	case 1:
+	  break;
+	default:
+	  argcopy = alloca (size);
+	  memcpy (argcopy, avalue[i], size);
+	  avalue[i] = argcopy;
+	  break;
+	}
     }
 
   flags = cif->flags;
-- 
2.43.0


From ae75bd9aa3b2c0a1f86df19f5853d373a8496e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 04/37] fix: align the temporary Win64 return area

With a null rvalue the hidden return area was placed right behind the call
frame, which is only 8-byte aligned; results containing a long double need
16 bytes.  Allocate it separately.
---
 src/x86/ffiw64.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/x86/ffiw64.c b/src/x86/ffiw64.c
index 5437268..15a0b93 100644
--- a/src/x86/ffiw64.c
+++ b/src/x86/ffiw64.c
@@ -171,10 +171,11 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
 	flags = FFI_TYPE_VOID;
     }
 
-  stack = alloca(cif->bytes + sizeof(struct win64_call_frame) + rsize);
-  frame = (struct win64_call_frame *)((char *)stack + cif->bytes);
   if (rsize)
-    rvalue = frame + 1;
+    rvalue = alloca(rsize);
+
+  stack = alloca(cif->bytes + sizeof(struct win64_call_frame));
+  frame = (struct win64_call_frame *)((char *)stack + cif->bytes);
 
   frame->fn = (uintptr_t)fn;
   frame->flags = flags;
-- 
2.43.0


From 0fb230cc4bb5f8b47b0bef2a8d1b823ae4f837c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 05/37] fix: pop long double results that the caller discards

ffi_call with a null rvalue ignored the result register altogether.  For
long double and complex long double results that leaves one or two values
on the x87 stack per call, and after eight calls x87 arithmetic yields NaN.
Store such results in a temporary instead.
---
 src/x86/ffi64.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index b159086..7a59cff 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -580,10 +580,20 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
   flags = cif->flags;
   if (rvalue == NULL)
     {
-      if (flags & UNIX64_FLAG_RET_IN_MEM)
-	rvalue = alloca (cif->rtype->size);
-      else
-	flags = UNIX64_RET_VOID;
+      switch (flags & 0xff)
+	{
+	case UNIX64_RET_X87:
+	case UNIX64_RET_X87_2:
+	  /* These have to be popped off the x87 stack.  */
+	  rvalue = alloca (cif->rtype->size);
+	  break;
+	default:
+	  if (flags & UNIX64_FLAG_RET_IN_MEM)
+	    rvalue = alloca (cif->rtype->size);
+	  else
+	    flags = UNIX64_RET_VOID;
+	  break;
+	}
     }
 
   arg_types = cif->arg_types;
-- 
2.43.0


From c6a21ed9365aab9a03dcb44362464ad1350236bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 06/37] fix: keep rejecting an aggregate with an invalid member

initialize_aggregate left the size of the members before the invalid one
in the type, so preparing an interface with the same type a second time
took it for an initialized type and accepted it.
---
 src/prep_cif.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/prep_cif.c b/src/prep_cif.c
index 47c9259..fd19869 100644
--- a/src/prep_cif.c
+++ b/src/prep_cif.c
@@ -54,7 +54,13 @@ static ffi_status initialize_aggregate(ffi_type *arg, size_t *offsets)
     {
       if (UNLIKELY(((*ptr)->size == 0)
 		    && (initialize_aggregate((*ptr), NULL) != FFI_OK)))
-	return FFI_BAD_TYPEDEF;
+	{
+	  /* Don't leave a partial layout behind that would make the
+	     type look initialized the next time.  */
+	  arg->size = 0;
+	  arg->alignment = 0;
+	  return FFI_BAD_TYPEDEF;
+	}
 
       /* Perform a sanity check on the argument type */
       FFI_ASSERT_VALID_TYPE(*ptr);
-- 
2.43.0


From 4a2aa196e5d6d8ecd33aec9358d7482d7e45d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:10 +0000
Subject: [PATCH 07/37] fix: hand raw closures their own address, not their
 code address

The argument translators of the raw and Java raw APIs take the closure
from the user data they are called with, which was set to the code
address.  With static trampolines that is not where the closure is, and
calling such a closure jumped to whatever bytes the trampoline table holds
at the offset of the function pointer.
---
 src/java_raw_api.c | 2 +-
 src/raw_api.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/java_raw_api.c b/src/java_raw_api.c
index 114d3e4..1c8f26b 100644
--- a/src/java_raw_api.c
+++ b/src/java_raw_api.c
@@ -345,7 +345,7 @@ ffi_prep_java_raw_closure_loc (ffi_java_raw_closure* cl,
   status = ffi_prep_closure_loc ((ffi_closure*) cl,
 				 cif,
 				 &ffi_java_translate_args,
-				 codeloc,
+				 cl,
 				 codeloc);
   if (status == FFI_OK)
     {
diff --git a/src/raw_api.c b/src/raw_api.c
index be15611..43cf975 100644
--- a/src/raw_api.c
+++ b/src/raw_api.c
@@ -233,7 +233,7 @@ ffi_prep_raw_closure_loc (ffi_raw_closure* cl,
   status = ffi_prep_closure_loc ((ffi_closure*) cl,
 				 cif,
 				 &ffi_translate_args,
-				 codeloc,
+				 cl,
 				 codeloc);
   if (status == FFI_OK)
     {
-- 
2.43.0


From 55d2c06ea6a8d68b5f3ac66480a9a19bcb92fde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 08/37] fix: do not leak the trampoline file descriptor to
 executed programs

The descriptor of the library file stays open for the lifetime of the
process; open it close-on-exec like the temporary file.
---
 src/tramp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tramp.c b/src/tramp.c
index 8ec0848..17f7066 100644
--- a/src/tramp.c
+++ b/src/tramp.c
@@ -236,7 +236,11 @@ ffi_tramp_get_libffi (void)
   if (!found)
     return 0;
 
+#ifdef O_CLOEXEC
+  tramp_globals.fd = open (file, O_RDONLY | O_CLOEXEC);
+#else
   tramp_globals.fd = open (file, O_RDONLY);
+#endif
   if (tramp_globals.fd == -1)
     return 0;
 
-- 
2.43.0


From 85150db1e81cc5dc4aabd49167bedd628734d332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 09/37] fix: never map trampolines from a file that is not the
 loaded library

/proc/<pid>/maps gives the path the library was loaded from.  If another
file has been put there since, or the path contains a blank or "(deleted)"
and so names a different file, the trampoline code table was mapped from
whatever that file holds at the offset, and calling a closure executed it.
Compare the contents first, and fall back to a temporary file.
---
 src/tramp.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/tramp.c b/src/tramp.c
index 17f7066..c65249f 100644
--- a/src/tramp.c
+++ b/src/tramp.c
@@ -47,6 +47,7 @@
 #include <unistd.h>
 #include <stdlib.h>
 #include <stdint.h>
+#include <string.h>
 #include <fcntl.h>
 #include <pthread.h>
 #include <sys/mman.h>
@@ -201,6 +202,29 @@ static int tramp_table_alloc (void);
 
 #if defined (__linux__) || defined (__CYGWIN__)
 
+/*
+ * Check that the trampoline file holds the trampoline code table.
+ */
+static int
+ffi_tramp_check_file (void)
+{
+  const char *text = tramp_globals.text;
+  char buf[512];
+  size_t done, len;
+  ssize_t count;
+
+  for (done = 0; done < tramp_globals.map_size; done += count)
+    {
+      len = tramp_globals.map_size - done;
+      if (len > sizeof (buf))
+        len = sizeof (buf);
+      count = pread (tramp_globals.fd, buf, len, tramp_globals.offset + done);
+      if (count <= 0 || memcmp (buf, text + done, count) != 0)
+        return 0;
+    }
+  return 1;
+}
+
 static int
 ffi_tramp_get_libffi (void)
 {
@@ -245,10 +269,11 @@ ffi_tramp_get_libffi (void)
     return 0;
 
   /*
-   * Allocate a trampoline table just to make sure that the trampoline code
+   * The file at that path need not be the one that was loaded any more. Also,
+   * allocate a trampoline table just to make sure that the trampoline code
    * table can be mapped.
    */
-  if (!tramp_table_alloc ())
+  if (!ffi_tramp_check_file () || !tramp_table_alloc ())
     {
       close (tramp_globals.fd);
       tramp_globals.fd = -1;
-- 
2.43.0


From 48c0142da4f769ac7e8209b44eb9d8e283b8440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 10/37] fix: try the next temporary file location when the
 first one is full

A file in which no space can be allocated was kept as the closure memory's
backing file forever, so that every allocation failed even though one of
the remaining locations would have worked.
---
 src/closures.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/closures.c b/src/closures.c
index 02cf78f..027a4aa 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -839,7 +839,14 @@ dlmmap_locked (void *start, size_t length, int prot, int flags, off_t offset)
   offset = execsize;
 
   if (allocate_space (execfd, length))
-    return MFAIL;
+    {
+      if (!offset)
+	{
+	  close (execfd);
+	  goto retry_open;
+	}
+      return MFAIL;
+    }
 
   flags &= ~(MAP_PRIVATE | MAP_ANONYMOUS);
   flags |= MAP_SHARED;
-- 
2.43.0


From 718e4aecc0d9b7d2af714437f1d6742503ed12fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 11/37] fix: take the allocator's lock to search its segment
 list

ffi_closure_alloc, ffi_data_to_code_pointer and ffi_tramp_is_present (for
every ffi_prep_closure_loc) walked the list of segments without the lock
that protects it.  A thread growing or trimming the closure heap at the
same time could make them miss the segment or read a freed one: the
closure then got a wrong code address, or its trampoline was never set up.
---
 src/closures.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/closures.c b/src/closures.c
index 027a4aa..bcf9897 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -991,6 +991,23 @@ segment_holding_code (mstate m, char* addr)
 
 #endif /* !(defined(_WIN32) || defined(__OS2__)) || defined (__CYGWIN__) || defined(__INTERIX) */
 
+/* Find the executable address that corresponds to DATA if it is in a
+   segment of ours.  The list of segments changes under the lock only.  */
+static int
+segment_code_address (void *data, void **code)
+{
+  msegmentptr seg = NULL;
+
+  if (!PREACTION (gm))
+    {
+      seg = segment_holding (gm, data);
+      if (seg && code)
+        *code = add_segment_exec_offset (data, seg);
+      POSTACTION (gm);
+    }
+  return seg != NULL;
+}
+
 /* Allocate a chunk of memory with the given size.  Returns a pointer
    to the writable address, and sets *CODE to the executable
    corresponding virtual address.  */
@@ -1006,9 +1023,10 @@ ffi_closure_alloc (size_t size, void **code)
 
   if (ptr)
     {
-      msegmentptr seg = segment_holding (gm, ptr);
+      void *addr = ptr;
 
-      *code = FFI_FN (add_segment_exec_offset (ptr, seg));
+      segment_code_address (ptr, &addr);
+      *code = FFI_FN (addr);
       if (!ffi_tramp_is_supported ())
         return ptr;
 
@@ -1028,15 +1046,15 @@ ffi_closure_alloc (size_t size, void **code)
 void *
 ffi_data_to_code_pointer (void *data)
 {
-  msegmentptr seg = segment_holding (gm, data);
+  void *code;
   /* We expect closures to be allocated with ffi_closure_alloc(), in
      which case seg will be non-NULL.  However, some users take on the
      burden of managing this memory themselves, in which case this
      we'll just return data. */
-  if (seg)
+  if (segment_code_address (data, &code))
     {
       if (!ffi_tramp_is_supported ())
-        return add_segment_exec_offset (data, seg);
+        return code;
       return ffi_tramp_get_addr (((ffi_closure *) data)->ftramp);
     }
   else
@@ -1065,8 +1083,7 @@ ffi_closure_free (void *ptr)
 int
 ffi_tramp_is_present (void *ptr)
 {
-  msegmentptr seg = segment_holding (gm, ptr);
-  return seg != NULL && ffi_tramp_is_supported();
+  return segment_code_address (ptr, NULL) && ffi_tramp_is_supported();
 }
 
 # else /* ! FFI_MMAP_EXEC_WRIT */
-- 
2.43.0


From a8c774c6063cfa04309353054f40f642dcd94df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 12/37] fix: mark temporary files created by mkstemp
 close-on-exec

---
 src/closures.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/closures.c b/src/closures.c
index bcf9897..beb0052 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -607,6 +607,10 @@ open_temp_exec_file_name (char *name, int flags MAYBE_UNUSED)
   fd = mkostemp (name, flags);
 #else
   fd = mkstemp (name);
+#ifdef FD_CLOEXEC
+  if (fd != -1)
+    fcntl (fd, F_SETFD, FD_CLOEXEC);
+#endif
 #endif
 
   if (fd != -1)
-- 
2.43.0


From f9ba5f8c86b8757531d22820f040352664fb7364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:20 +0000
Subject: [PATCH 13/37] fix: allocate the trampoline file's space where it is
 mapped after a failure

---
 src/closures.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/closures.c b/src/closures.c
index beb0052..70d421d 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -864,7 +864,8 @@ dlmmap_locked (void *start, size_t length, int prot, int flags, off_t offset)
 	  close (execfd);
 	  goto retry_open;
 	}
-      if (ftruncate (execfd, offset) != 0)
+      if (ftruncate (execfd, offset) != 0
+	  || lseek (execfd, offset, SEEK_SET) == -1)
       {
         /* Fixme : Error logs can be added here. Returning an error for
          * ftruncte() will not add any advantage as it is being
@@ -882,7 +883,8 @@ dlmmap_locked (void *start, size_t length, int prot, int flags, off_t offset)
   if (start == MFAIL)
     {
       munmap (ptr, length);
-      if (ftruncate (execfd, offset) != 0)
+      if (ftruncate (execfd, offset) != 0
+	  || lseek (execfd, offset, SEEK_SET) == -1)
       {
         /* Fixme : Error logs can be added here. Returning an error for
          * ftruncte() will not add any advantage as it is being
-- 
2.43.0


From b4deb403ca3de8118747409f434b005bf734f6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 14/37] fix: publish the allocator's parameters only when all
 of them are set

A thread whose first allocation came between another thread's stores to
mparams.page_size and mparams.granularity took the zero granularity for
good, and its allocation failed.
---
 src/dlmalloc.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dlmalloc.c b/src/dlmalloc.c
index 17193a0..316bc52 100644
--- a/src/dlmalloc.c
+++ b/src/dlmalloc.c
@@ -2550,6 +2550,13 @@ static int init_mparams(void) {
 #else /* (FOOTERS && !INSECURE) */
     s = (size_t)0x58585858U;
 #endif /* (FOOTERS && !INSECURE) */
+    /* A nonzero page_size tells other threads that everything is set up,
+       so it must be set last.  */
+#if !defined(WIN32) && !defined(__OS2__)
+    mparams.granularity = ((DEFAULT_GRANULARITY != 0)?
+                           DEFAULT_GRANULARITY : malloc_getpagesize);
+#endif
+
     ACQUIRE_MAGIC_INIT_LOCK();
     if (mparams.magic == 0) {
       mparams.magic = s;
@@ -2561,19 +2568,17 @@ static int init_mparams(void) {
 
 #if !defined(WIN32) && !defined(__OS2__)
     mparams.page_size = malloc_getpagesize;
-    mparams.granularity = ((DEFAULT_GRANULARITY != 0)?
-                           DEFAULT_GRANULARITY : mparams.page_size);
 #elif defined (__OS2__)
  /* if low-memory is used, os2munmap() would break
     if it were anything other than 64k */
-    mparams.page_size = 4096u;
     mparams.granularity = 65536u;
+    mparams.page_size = 4096u;
 #else /* WIN32 */
     {
       SYSTEM_INFO system_info;
       GetSystemInfo(&system_info);
-      mparams.page_size = system_info.dwPageSize;
       mparams.granularity = system_info.dwAllocationGranularity;
+      mparams.page_size = system_info.dwPageSize;
     }
 #endif /* WIN32 */
 
-- 
2.43.0


From f6bf06a16de69f821c40e5c3c1c86340c3ac4fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:58 +0000
Subject: [PATCH 15/37] fix: pop what was passed on the stack in 32-bit x86
 thiscall and fastcall closures

The amount was computed from the number of argument registers, which is
set to 2 when a 64-bit integer or structure is seen, whether or not
registers were used.
---
 src/x86/ffi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index 6862533..166be9e 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -554,8 +554,8 @@ ffi_closure_inner (struct closure_frame *frame, char *stack)
       return flags | (cif->bytes << X86_RET_POP_SHIFT);
     case FFI_THISCALL:
     case FFI_FASTCALL:
-      return flags | ((cif->bytes - (narg_reg * FFI_SIZEOF_ARG))
-          << X86_RET_POP_SHIFT);
+      /* Only what was passed on the stack is popped.  */
+      return flags | ((argp - stack) << X86_RET_POP_SHIFT);
     default:
       return flags;
     }
-- 
2.43.0


From 56f22130c18ffb5c6ab4709fb09577849ae71a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:58 +0000
Subject: [PATCH 16/37] fix: let 32-bit x86 thiscall and fastcall Go closures
 pop their arguments

ffi_go_closure_EAX serves the two conventions in which the callee pops,
but continued where the caller is expected to.
---
 src/x86/sysv.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/sysv.S b/src/x86/sysv.S
index c7a0fb5..b44212e 100644
--- a/src/x86/sysv.S
+++ b/src/x86/sysv.S
@@ -307,7 +307,7 @@ L(UW7):
 	movl	%edx, closure_CF+28(%esp)
 	movl	%ecx, closure_CF+32(%esp)
 	movl	%eax, closure_CF+36(%esp)	/* closure is user_data */
-	jmp	L(do_closure_i386)
+	jmp	L(do_closure_STDCALL)
 L(UW8):
 	# cfi_endproc
 ENDF(C(ffi_go_closure_EAX))
-- 
2.43.0


From e1e827fbfd861ddb5a21182522a7626e95ca65d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:58 +0000
Subject: [PATCH 17/37] fix: pass small complex arguments in memory on 32-bit
 x86

A complex type of no more than a word aborted in extend_basic_type when
passed, and was looked for in a register when received.
---
 src/x86/ffi.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index 166be9e..2d82e0a 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -348,7 +348,8 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
       size_t z = ty->size;
       int t = ty->type;
 
-      if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT)
+      if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT
+	  && t != FFI_TYPE_COMPLEX)
         {
 	  ffi_arg val = extend_basic_type (valp, t);
 
@@ -495,7 +496,8 @@ ffi_closure_inner (struct closure_frame *frame, char *stack)
       int t = ty->type;
       void *valp;
 
-      if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT)
+      if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT
+	  && t != FFI_TYPE_COMPLEX)
 	{
 	  if (t != FFI_TYPE_FLOAT && narg_reg < pabi->nregs)
 	    valp = &frame->regs[pabi->regs[narg_reg++]];
-- 
2.43.0


From a993761e6cccda21560c07da83c45d019dd859e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:58 +0000
Subject: [PATCH 18/37] fix: count the registers a structure uses up in 32-bit
 x86 thiscall and fastcall

A structure of one word takes the place of one parameter register, not
of both: gcc passes the next integer of a fastcall function in the other.
---
 src/x86/ffi.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index 2d82e0a..c961b76 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -371,14 +371,14 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
 	  size_t za = FFI_ALIGN (z, FFI_SIZEOF_ARG);
 	  size_t align = FFI_SIZEOF_ARG;
 
-	  /* Issue 434: For thiscall and fastcall, if the paramter passed
-	     as 64-bit integer or struct, all following integer parameters
-	     will be passed on stack.  */
+	  /* Issue 434: For thiscall and fastcall, a parameter passed as
+	     64-bit integer or struct goes on the stack, but uses up as many
+	     parameter registers as it has words.  */
 	  if ((cabi == FFI_THISCALL || cabi == FFI_FASTCALL)
 	      && (t == FFI_TYPE_SINT64
 		  || t == FFI_TYPE_UINT64
 		  || t == FFI_TYPE_STRUCT))
-	    narg_reg = 2;
+	    narg_reg += za / FFI_SIZEOF_ARG;
 
 	  /* Alignment rules for arguments are quite complex.  Vectors and
 	     structures with 16 byte alignment get it.  Note that long double
@@ -521,14 +521,14 @@ ffi_closure_inner (struct closure_frame *frame, char *stack)
 	  if (t == FFI_TYPE_STRUCT && ty->alignment >= 16)
 	    align = 16;
 
-	  /* Issue 434: For thiscall and fastcall, if the paramter passed
-	     as 64-bit integer or struct, all following integer parameters
-	     will be passed on stack.  */
+	  /* Issue 434: For thiscall and fastcall, a parameter passed as
+	     64-bit integer or struct goes on the stack, but uses up as many
+	     parameter registers as it has words.  */
 	  if ((cabi == FFI_THISCALL || cabi == FFI_FASTCALL)
 	      && (t == FFI_TYPE_SINT64
 		  || t == FFI_TYPE_UINT64
 		  || t == FFI_TYPE_STRUCT))
-	    narg_reg = 2;
+	    narg_reg += za / FFI_SIZEOF_ARG;
 
 	  if (dir < 0)
 	    {
-- 
2.43.0


From 788dd6902e43051f62f2a405a8d34bf29c302d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:25 +0000
Subject: [PATCH 19/37] fix: make ffi_raw_call work on 32-bit x86

The stack was left unaligned by a mask of ~16 that also let the frame
run past what was allocated, arguments passed in registers advanced
through the raw words by bytes, and the final copy read past the
arguments by the padding of the stack and the result pointer.
---
 src/x86/ffi.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index c961b76..c134892 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -765,7 +765,8 @@ ffi_raw_call(ffi_cif *cif, void (*fn)(void), void *rvalue, ffi_raw *avalue)
 
   bytes = STACK_ALIGN (cif->bytes);
   argp = stack =
-      (void *)((uintptr_t)alloca(bytes + sizeof(*frame) + rsize + 15) & ~16);
+      (void *)(((uintptr_t)alloca(bytes + sizeof(*frame) + rsize + 15) + 15)
+	       & ~(uintptr_t)15);
   frame = (struct call_frame *)(stack + bytes);
   if (rsize)
     rvalue = frame + 1;
@@ -774,6 +775,8 @@ ffi_raw_call(ffi_cif *cif, void (*fn)(void), void *rvalue, ffi_raw *avalue)
   frame->flags = flags;
   frame->rvalue = rvalue;
 
+  /* What remains to be copied, without the padding of the stack.  */
+  bytes = cif->bytes;
   narg_reg = 0;
   switch (flags)
     {
@@ -783,6 +786,7 @@ ffi_raw_call(ffi_cif *cif, void (*fn)(void), void *rvalue, ffi_raw *avalue)
 	{
 	  frame->regs[pabi->regs[0]] = (unsigned)rvalue;
 	  narg_reg = 1;
+	  bytes -= sizeof(void *);
 	  break;
 	}
       /* fallthru */
@@ -800,7 +804,8 @@ ffi_raw_call(ffi_cif *cif, void (*fn)(void), void *rvalue, ffi_raw *avalue)
       size_t z = ty->size;
       int t = ty->type;
 
-      if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT && t != FFI_TYPE_FLOAT)
+      if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT
+	  && t != FFI_TYPE_COMPLEX && t != FFI_TYPE_FLOAT)
 	{
 	  ffi_arg val = extend_basic_type (avalue, t);
 	  frame->regs[pabi->regs[narg_reg++]] = val;
@@ -811,8 +816,15 @@ ffi_raw_call(ffi_cif *cif, void (*fn)(void), void *rvalue, ffi_raw *avalue)
 	  memcpy (argp, avalue, z);
 	  z = FFI_ALIGN (z, FFI_SIZEOF_ARG);
 	  argp += z;
+
+	  /* See the comment in ffi_call_int.  */
+	  if ((cabi == FFI_THISCALL || cabi == FFI_FASTCALL)
+	      && (t == FFI_TYPE_SINT64
+		  || t == FFI_TYPE_UINT64
+		  || t == FFI_TYPE_STRUCT))
+	    narg_reg += z / FFI_SIZEOF_ARG;
 	}
-      avalue += z;
+      avalue += z / sizeof(ffi_raw);
       bytes -= z;
     }
   if (i < n)
-- 
2.43.0


From d1853e988f1dd968131ad9efec4d58a1544666a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 20/37] fix: let raw closures use static trampolines on 32-bit
 x86

ffi_prep_raw_closure_loc always wrote a dynamic trampoline, which is not
what the code pointer leads to when static trampolines are in use.
---
 src/x86/ffi.c  | 20 ++++++++++++++++++++
 src/x86/sysv.S | 24 ++++++++++++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index c134892..8680d7d 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -677,6 +677,10 @@ ffi_prep_go_closure (ffi_go_closure* closure, ffi_cif* cif,
 
 void FFI_HIDDEN ffi_closure_raw_SYSV(void);
 void FFI_HIDDEN ffi_closure_raw_THISCALL(void);
+#if defined(FFI_EXEC_STATIC_TRAMP)
+void FFI_HIDDEN ffi_closure_raw_SYSV_alt(void);
+void FFI_HIDDEN ffi_closure_raw_THISCALL_alt(void);
+#endif
 
 ffi_status
 ffi_prep_raw_closure_loc (ffi_raw_closure *closure,
@@ -713,6 +717,19 @@ ffi_prep_raw_closure_loc (ffi_raw_closure *closure,
       return FFI_BAD_ABI;
     }
 
+#if defined(FFI_EXEC_STATIC_TRAMP)
+  if (ffi_tramp_is_present(closure))
+    {
+      /* Initialize the static trampoline's parameters. */
+      if (dest == ffi_closure_raw_SYSV)
+        dest = ffi_closure_raw_SYSV_alt;
+      else
+        dest = ffi_closure_raw_THISCALL_alt;
+      ffi_tramp_set_parms (((ffi_closure *) closure)->ftramp, dest, closure);
+      goto out;
+    }
+#endif
+
   /* movl imm, %eax.  */
   tramp[0] = 0xb8;
   *(void **)(tramp + 1) = codeloc;
@@ -721,6 +738,9 @@ ffi_prep_raw_closure_loc (ffi_raw_closure *closure,
   tramp[5] = 0xe9;
   *(unsigned *)(tramp + 6) = (unsigned)dest - ((unsigned)codeloc + 10);
 
+#if defined(FFI_EXEC_STATIC_TRAMP)
+out:
+#endif
   closure->cif = cif;
   closure->fun = fun;
   closure->user_data = user_data;
diff --git a/src/x86/sysv.S b/src/x86/sysv.S
index b44212e..06e27d4 100644
--- a/src/x86/sysv.S
+++ b/src/x86/sysv.S
@@ -663,6 +663,30 @@ ENDF(C(trampoline_code_table))
 
 #if !FFI_NO_RAW_API
 
+#if defined(FFI_EXEC_STATIC_TRAMP)
+	.balign	16
+	.globl	C(ffi_closure_raw_SYSV_alt)
+	FFI_HIDDEN(C(ffi_closure_raw_SYSV_alt))
+C(ffi_closure_raw_SYSV_alt):
+	/* See the comments above trampoline_code_table. */
+	_CET_ENDBR
+	movl	4(%esp), %eax			/* Load closure in eax */
+	add	$8, %esp			/* Restore the stack */
+	jmp	C(ffi_closure_raw_SYSV)
+ENDF(C(ffi_closure_raw_SYSV_alt))
+
+	.balign	16
+	.globl	C(ffi_closure_raw_THISCALL_alt)
+	FFI_HIDDEN(C(ffi_closure_raw_THISCALL_alt))
+C(ffi_closure_raw_THISCALL_alt):
+	/* See the comments above trampoline_code_table. */
+	_CET_ENDBR
+	movl	4(%esp), %eax			/* Load closure in eax */
+	add	$8, %esp			/* Restore the stack */
+	jmp	C(ffi_closure_raw_THISCALL)
+ENDF(C(ffi_closure_raw_THISCALL_alt))
+#endif /* FFI_EXEC_STATIC_TRAMP */
+
 #define raw_closure_S_FS	(16+16+12)
 
 	.balign	16
-- 
2.43.0


From 551feb6aa9af58a9f4d17eb4ecd85ff38f2af7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:57 +0000
Subject: [PATCH 21/37] fix: hand the caller's result area to 32-bit x86 raw
 closures

Raw closures returning a structure through a hidden pointer were given
the pointer as their first argument and a 16 byte temporary as the
result, whatever its size, and did not return the pointer.
---
 src/x86/sysv.S | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/x86/sysv.S b/src/x86/sysv.S
index 06e27d4..fc60caf 100644
--- a/src/x86/sysv.S
+++ b/src/x86/sysv.S
@@ -705,12 +705,19 @@ L(UW34):
 
 	movl	FFI_TRAMPOLINE_SIZE+8(%eax), %edx	/* load cl->user_data */
 	movl	%edx, 12(%esp)
-	leal	raw_closure_S_FS+4(%esp), %edx		/* load raw_args */
-	movl	%edx, 8(%esp)
-	leal	16(%esp), %edx				/* load &res */
-	movl	%edx, 4(%esp)
 	movl	FFI_TRAMPOLINE_SIZE(%eax), %ebx		/* load cl->cif */
 	movl	%ebx, (%esp)
+	leal	raw_closure_S_FS+4(%esp), %edx		/* load raw_args */
+	leal	16(%esp), %ecx				/* load &res */
+	cmpl	$X86_RET_STRUCTPOP, 20(%ebx)
+	je	1f
+	cmpl	$X86_RET_STRUCTARG, 20(%ebx)
+	jne	2f
+1:	movl	(%edx), %ecx				/* load result pointer */
+	movl	%ecx, 16(%esp)				/* and return it */
+	addl	$4, %edx
+2:	movl	%edx, 8(%esp)
+	movl	%ecx, 4(%esp)
 	call	*FFI_TRAMPOLINE_SIZE+4(%eax)		/* call cl->fun */
 
 	movl	20(%ebx), %eax				/* load cif->flags */
@@ -822,12 +829,19 @@ L(UW46):
 
 	movl	FFI_TRAMPOLINE_SIZE+8(%eax), %edx	/* load cl->user_data */
 	movl	%edx, 12(%esp)
-	leal	raw_closure_T_FS+4(%esp), %edx		/* load raw_args */
-	movl	%edx, 8(%esp)
-	leal	16(%esp), %edx				/* load &res */
-	movl	%edx, 4(%esp)
 	movl	FFI_TRAMPOLINE_SIZE(%eax), %ebx		/* load cl->cif */
 	movl	%ebx, (%esp)
+	leal	raw_closure_T_FS+4(%esp), %edx		/* load raw_args */
+	leal	16(%esp), %ecx				/* load &res */
+	cmpl	$X86_RET_STRUCTPOP, 20(%ebx)
+	je	1f
+	cmpl	$X86_RET_STRUCTARG, 20(%ebx)
+	jne	2f
+1:	movl	(%edx), %ecx				/* load result pointer */
+	movl	%ecx, 16(%esp)				/* and return it */
+	addl	$4, %edx
+2:	movl	%edx, 8(%esp)
+	movl	%ecx, 4(%esp)
 	call	*FFI_TRAMPOLINE_SIZE+4(%eax)		/* call cl->fun */
 
 	movl	20(%ebx), %eax				/* load cif->flags */
-- 
2.43.0


From 90ec710e8f514f33d6d9e246bd0cabbfb89d6b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:37 +0000
Subject: [PATCH 22/37] fix: pop the arguments in 32-bit x86 thiscall raw
 closures

Only the word pushed for %ecx was removed on return, and a first argument
that is not passed in the register was taken from it all the same; the
latter is refused now.
---
 src/x86/ffi.c  |  7 +++++++
 src/x86/sysv.S | 30 +++++++++++++-----------------
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index 8680d7d..cc7af16 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -708,6 +708,13 @@ ffi_prep_raw_closure_loc (ffi_raw_closure *closure,
   switch (cif->abi)
     {
     case FFI_THISCALL:
+      /* The first word must be in the register.  */
+      if (cif->flags != X86_RET_STRUCTARG
+	  && (cif->nargs == 0
+	      || cif->arg_types[0]->size > FFI_SIZEOF_ARG
+	      || cif->arg_types[0]->type == FFI_TYPE_FLOAT
+	      || cif->arg_types[0]->type == FFI_TYPE_COMPLEX))
+	return FFI_BAD_TYPEDEF;
       dest = ffi_closure_raw_THISCALL;
       break;
     case FFI_SYSV:
diff --git a/src/x86/sysv.S b/src/x86/sysv.S
index fc60caf..9b947dc 100644
--- a/src/x86/sysv.S
+++ b/src/x86/sysv.S
@@ -844,20 +844,26 @@ L(UW46):
 	movl	%ecx, 4(%esp)
 	call	*FFI_TRAMPOLINE_SIZE+4(%eax)		/* call cl->fun */
 
+	movl	16(%ebx), %ecx				/* load cif->bytes */
 	movl	20(%ebx), %eax				/* load cif->flags */
 	andl	$X86_RET_TYPE_MASK, %eax
 #ifdef __PIC__
 	call	C(__x86.get_pc_thunk.bx)
 L(pc5):
-	leal	L(load_table5)-L(pc5)(%ebx, %eax, 8), %ecx
+	leal	L(load_table5)-L(pc5)(%ebx, %eax, 8), %edx
 #else
-	leal	L(load_table5)(,%eax, 8), %ecx
+	leal	L(load_table5)(,%eax, 8), %edx
 #endif
+	/* Move the return address above the arguments, of which the extra
+	   %ecx we pushed is one, as for STDCALL.  */
+	leal	raw_closure_T_FS(%esp, %ecx), %ecx	/* compute popped esp */
+	movl	raw_closure_T_FS(%esp), %eax
+	movl	%eax, (%ecx)
 	movl	raw_closure_T_FS-4(%esp), %ebx
 L(UW47):
 	# cfi_restore(%ebx)
 	movl	16(%esp), %eax				/* Optimistic load */
-	jmp	*%ecx
+	jmp	*%edx
 
 	.balign	8
 L(load_table5):
@@ -890,20 +896,14 @@ E(L(load_table5), X86_RET_INT32)
 	/* fallthru */
 E(L(load_table5), X86_RET_VOID)
 L(e5):
-	addl	$raw_closure_T_FS, %esp
+	movl	%ecx, %esp
 L(UW48):
 	# cfi_adjust_cfa_offset(-raw_closure_T_FS)
-	/* Remove the extra %ecx argument we pushed.  */
-	ret	$4
+	ret
 L(UW49):
 	# cfi_adjust_cfa_offset(raw_closure_T_FS)
 E(L(load_table5), X86_RET_STRUCTPOP)
-	addl	$raw_closure_T_FS, %esp
-L(UW50):
-	# cfi_adjust_cfa_offset(-raw_closure_T_FS)
-	ret	$8
-L(UW51):
-	# cfi_adjust_cfa_offset(raw_closure_T_FS)
+	jmp	L(e5)
 E(L(load_table5), X86_RET_STRUCTARG)
 	jmp	L(e5)
 E(L(load_table5), X86_RET_STRUCT_1B)
@@ -1199,13 +1199,9 @@ L(SFDE9):
 	ADV(UW47, UW46)
 	.byte	0xc0+3			/* DW_CFA_restore %ebx */
 	ADV(UW48, UW47)
-	.byte	0xe, 8			/* DW_CFA_def_cfa_offset */
+	.byte	0xe, 4			/* DW_CFA_def_cfa_offset */
 	ADV(UW49, UW48)
 	.byte	0xe, raw_closure_T_FS+8	/* DW_CFA_def_cfa_offset */
-	ADV(UW50, UW49)
-	.byte	0xe, 8			/* DW_CFA_def_cfa_offset */
-	ADV(UW51, UW50)
-	.byte	0xe, raw_closure_T_FS+8	/* DW_CFA_def_cfa_offset */
 	.balign	4
 L(EFDE9):
 #endif /* !FFI_NO_RAW_API */
-- 
2.43.0


From 8d3c23c33e04ea9b011fb6104a203cc6abe82d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:18 +0000
Subject: [PATCH 23/37] fix: AArch64 Go closures with vector arguments sign the
 return address they later authenticate

---
 src/aarch64/sysv.S | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aarch64/sysv.S b/src/aarch64/sysv.S
index 81d33f2..60ff098 100644
--- a/src/aarch64/sysv.S
+++ b/src/aarch64/sysv.S
@@ -626,6 +626,8 @@ CNAME(ffi_closure_trampoline_table_page):
 CNAME(ffi_go_closure_SYSV_V):
 	cfi_startproc
 	BTI_C
+	SIGN_LR_LINUX_ONLY
+	PAC_CFI_WINDOW_SAVE
 	stp     x29, x30, [sp, #-ffi_closure_SYSV_FS]!
 	cfi_adjust_cfa_offset (ffi_closure_SYSV_FS)
 	cfi_rel_offset (x29, 0)
-- 
2.43.0


From 4c0b76f8792bfd6dfd806d5a4dd55f0f0f3ab875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:18 +0000
Subject: [PATCH 24/37] fix: AArch64 calls with a null rvalue align the result
 storage they provide

---
 src/aarch64/ffi.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/aarch64/ffi.c b/src/aarch64/ffi.c
index 94c643b..e395c1a 100644
--- a/src/aarch64/ffi.c
+++ b/src/aarch64/ffi.c
@@ -686,11 +686,12 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *orig_rvalue,
     rsize = 16;
 
   /* Allocate consecutive stack for everything we'll need.
-     The frame uses 40 bytes for: lr, fp, rvalue, flags, sp */
-  context = alloca (sizeof(struct call_context) + stack_bytes + 40 + rsize);
+     The frame uses 40 bytes for: lr, fp, rvalue, flags, sp.  Storage for
+     the result comes 48 bytes up, where it is 16-byte aligned.  */
+  context = alloca (sizeof(struct call_context) + stack_bytes + 48 + rsize);
   stack = context + 1;
   frame = (void*)((uintptr_t)stack + (uintptr_t)stack_bytes);
-  rvalue = (rsize ? (void*)((uintptr_t)frame + 40) : orig_rvalue);
+  rvalue = (rsize ? (void*)((uintptr_t)frame + 48) : orig_rvalue);
 
   arg_init (&state, stack_bytes);
   for (i = 0, nargs = cif->nargs; i < nargs; i++)
-- 
2.43.0


From b35eee74676ca2a0fbf60c3c4b19a7e9cf28637a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:54 +0000
Subject: [PATCH 25/37] fix: AArch64 argument areas have room for the addresses
 of large composites

---
 src/aarch64/ffi.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/aarch64/ffi.c b/src/aarch64/ffi.c
index e395c1a..ad3bc5d 100644
--- a/src/aarch64/ffi.c
+++ b/src/aarch64/ffi.c
@@ -604,11 +604,16 @@ ffi_prep_cif_machdep (ffi_cif *cif)
     }
 
   for (i = 0, n = cif->nargs; i < n; i++)
-    if (is_vfp_type (cif->arg_types[i]))
-      {
+    {
+      ffi_type *ty = cif->arg_types[i];
+      if (is_vfp_type (ty))
 	flags |= AARCH64_FLAG_ARG_V;
-	break;
-      }
+      /* A large composite is copied to the top of the argument area, and its
+	 address may be passed at the bottom.  Make room for the address, and
+	 for the alignment of a copy in an area of its own.  */
+      else if (ty->size > 16)
+	bytes += 32;
+    }
 
   /* Round the stack up to a multiple of the stack alignment requirement. */
   cif->bytes = (unsigned) FFI_ALIGN(bytes, 16);
-- 
2.43.0


From 7d77ec6d68afc3419ef9bac58abeb022dc0414fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:43 +0000
Subject: [PATCH 26/37] fix: AArch64 FFI_WIN64 variadic calls and closures take
 floating-point aggregates as composites

---
 src/aarch64/ffi.c | 107 ++++++++++++++++------------------------------
 1 file changed, 38 insertions(+), 69 deletions(-)

diff --git a/src/aarch64/ffi.c b/src/aarch64/ffi.c
index ad3bc5d..bffab6c 100644
--- a/src/aarch64/ffi.c
+++ b/src/aarch64/ffi.c
@@ -606,12 +606,13 @@ ffi_prep_cif_machdep (ffi_cif *cif)
   for (i = 0, n = cif->nargs; i < n; i++)
     {
       ffi_type *ty = cif->arg_types[i];
-      if (is_vfp_type (ty))
+      int h = is_vfp_type (ty);
+      if (h)
 	flags |= AARCH64_FLAG_ARG_V;
       /* A large composite is copied to the top of the argument area, and its
 	 address may be passed at the bottom.  Make room for the address, and
 	 for the alignment of a copy in an area of its own.  */
-      else if (ty->size > 16)
+      if (ty->size > 16 && (!h || cif->abi == FFI_WIN64))
 	bytes += 32;
     }
 
@@ -753,34 +754,21 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *orig_rvalue,
 	case FFI_TYPE_STRUCT:
 	case FFI_TYPE_COMPLEX:
 	  {
-	    h = is_vfp_type (ty);
+	    /* Windows variadic functions take floating-point and HFA arguments
+	       the way they take integers and other composites.  */
+	    h = (cif->abi == FFI_WIN64 && isvariadic) ? 0 : is_vfp_type (ty);
 	    if (h)
 	      {
-              int elems = 4 - (h & 3);
-              if (cif->abi == FFI_WIN64 && isvariadic)
-              {
-                if (state.ngrn + elems <= N_X_ARG_REG)
-                {
-                  dest = &context->x[state.ngrn];
-                  state.ngrn += elems;
-                  extend_hfa_type(dest, a, h);
-                  break;
-                }
-                state.nsrn = N_X_ARG_REG;
-                dest = allocate_to_stack(&state, stack, ty->alignment, s);
-              }
-              else
-              {
-                if (state.nsrn + elems <= N_V_ARG_REG)
-                {
-                  dest = &context->v[state.nsrn];
-                  state.nsrn += elems;
-                  extend_hfa_type (dest, a, h);
-                  break;
-                }
-                state.nsrn = N_V_ARG_REG;
-                dest = allocate_to_stack (&state, stack, ty->alignment, s);
-              }
+		int elems = 4 - (h & 3);
+		if (state.nsrn + elems <= N_V_ARG_REG)
+		  {
+		    dest = &context->v[state.nsrn];
+		    state.nsrn += elems;
+		    extend_hfa_type (dest, a, h);
+		    break;
+		  }
+		state.nsrn = N_V_ARG_REG;
+		dest = allocate_to_stack (&state, stack, ty->alignment, s);
 	      }
 	    else if (s > 16)
 	      {
@@ -1034,50 +1022,31 @@ ffi_closure_SYSV_inner (ffi_cif *cif,
 	case FFI_TYPE_LONGDOUBLE:
 	case FFI_TYPE_STRUCT:
 	case FFI_TYPE_COMPLEX:
-	  h = is_vfp_type (ty);
+	  h = (cif->abi == FFI_WIN64 && isvariadic) ? 0 : is_vfp_type (ty);
 	  if (h)
 	    {
 	      n = 4 - (h & 3);
-              if (cif->abi == FFI_WIN64 && isvariadic)
-                {
-                  if (state.ngrn + n <= N_X_ARG_REG)
-                    {
-                      void *reg = &context->x[state.ngrn];
-                      state.ngrn += (unsigned int)n;
-
-                      /* Eeek! We need a pointer to the structure, however the
-                       homogeneous float elements are being passed in individual
-                       registers, therefore for float and double the structure
-                       is not represented as a contiguous sequence of bytes in
-                       our saved register context.  We don't need the original
-                       contents of the register storage, so we reformat the
-                       structure into the same memory.  */
-                      avalue[i] = compress_hfa_type(reg, reg, h);
-                    }
-                  else
-                    {
-                      state.ngrn = N_X_ARG_REG;
-                      state.nsrn = N_V_ARG_REG;
-                      avalue[i] = allocate_to_stack(&state, stack,
-                             ty->alignment, s);
-                    }
-                }
-              else
-                {
-                  if (state.nsrn + n <= N_V_ARG_REG)
-                    {
-                      void *reg = &context->v[state.nsrn];
-                      state.nsrn += (unsigned int)n;
-                      avalue[i] = compress_hfa_type(reg, reg, h);
-                    }
-                  else
-                    {
-                      state.nsrn = N_V_ARG_REG;
-                      avalue[i] = allocate_to_stack(&state, stack,
-                                                   ty->alignment, s);
-                    }
-                }
-            }
+	      if (state.nsrn + n <= N_V_ARG_REG)
+		{
+		  void *reg = &context->v[state.nsrn];
+		  state.nsrn += (unsigned int)n;
+
+		  /* Eeek! We need a pointer to the structure, however the
+		     homogeneous float elements are being passed in individual
+		     registers, therefore for float and double the structure
+		     is not represented as a contiguous sequence of bytes in
+		     our saved register context.  We don't need the original
+		     contents of the register storage, so we reformat the
+		     structure into the same memory.  */
+		  avalue[i] = compress_hfa_type(reg, reg, h);
+		}
+	      else
+		{
+		  state.nsrn = N_V_ARG_REG;
+		  avalue[i] = allocate_to_stack(&state, stack,
+						ty->alignment, s);
+		}
+	    }
           else if (s > 16)
             {
               /* Replace Composite type of size greater than 16 with a
-- 
2.43.0


From 99af4c656aa62fe918ac4f16e8e28aa3f2f68aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:13 +0000
Subject: [PATCH 27/37] fix: AArch64 calls place the address of a large
 composite in a stack slot aligned as an address

---
 src/aarch64/ffi.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aarch64/ffi.c b/src/aarch64/ffi.c
index bffab6c..b04756c 100644
--- a/src/aarch64/ffi.c
+++ b/src/aarch64/ffi.c
@@ -704,6 +704,7 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *orig_rvalue,
     {
       ffi_type *ty = cif->arg_types[i];
       size_t s = ty->size;
+      size_t align = ty->alignment;
       void *a = avalue[i];
       int h, t;
       void *dest;
@@ -734,7 +735,7 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *orig_rvalue,
 	      context->x[state.ngrn++] = ext;
 	    else
 	      {
-		void *d = allocate_to_stack (&state, stack, ty->alignment, s);
+		void *d = allocate_to_stack (&state, stack, align, s);
 		state.ngrn = N_X_ARG_REG;
 		/* Note that the default abi extends each argument
 		   to a full 64-bit slot, while the iOS abi allocates
@@ -780,7 +781,7 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *orig_rvalue,
 							  avalue[i]);
 		a = &dest;
 		t = FFI_TYPE_POINTER;
-		s = sizeof (void *);
+		s = align = sizeof (void *);
 		goto do_pointer;
 	      }
 	    else
-- 
2.43.0


From 3e7fc48e1cd762ed36118ab1aa17569615d5f25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:41 +0000
Subject: [PATCH 28/37] fix: RISC-V passes floats unconverted whichever
 compiler builds libffi

---
 src/riscv/ffi.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/riscv/ffi.c b/src/riscv/ffi.c
index b455b12..33aec67 100644
--- a/src/riscv/ffi.c
+++ b/src/riscv/ffi.c
@@ -148,10 +148,11 @@ static void marshal_atom(call_builder *cb, int type, void *data) {
 
         /* float values may be recoded in an implementation-defined way
            by hardware conforming to 2.1 or earlier, so use asm to
-           reinterpret floats as doubles */
+           reinterpret floats as doubles; an explicit load, because some
+           compilers convert an operand tied to one of another type */
 #if ABI_FLEN >= 32
         case FFI_TYPE_FLOAT:
-            asm("" : "=f"(cb->aregs->fa[cb->used_float++]) : "0"(*(float *)data));
+            asm("flw %0, %1" : "=f"(cb->aregs->fa[cb->used_float++]) : "m"(*(float *)data));
             return;
 #endif
 #if ABI_FLEN >= 64
@@ -174,7 +175,7 @@ static void unmarshal_atom(call_builder *cb, int type, void *data) {
     switch (type) {
 #if ABI_FLEN >= 32
         case FFI_TYPE_FLOAT:
-            asm("" : "=f"(*(float *)data) : "0"(cb->aregs->fa[cb->used_float++]));
+            asm("fsw %1, %0" : "=m"(*(float *)data) : "f"(cb->aregs->fa[cb->used_float++]));
             return;
 #endif
 #if ABI_FLEN >= 64
-- 
2.43.0


From 8c35702fd9cec749b351c579251d1874a502533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:41 +0000
Subject: [PATCH 29/37] fix: RISC-V structures of one float use integer
 registers when the floating-point ones are taken

---
 src/riscv/ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/riscv/ffi.c b/src/riscv/ffi.c
index 33aec67..6f4c73b 100644
--- a/src/riscv/ffi.c
+++ b/src/riscv/ffi.c
@@ -105,7 +105,7 @@ static float_struct_info struct_passed_as_elements(call_builder *cb, ffi_type *t
     int num_fields = flatten_struct(top, fields, fields + 3) - fields;
 
     if (num_fields == 1) {
-        if (IS_FLOAT(fields[0]->type)) {
+        if (IS_FLOAT(fields[0]->type) && cb->used_float < NARGREG) {
             ret.as_elements = 1;
             ret.type1 = fields[0]->type;
         }
-- 
2.43.0


From bf38c058ffdd54fbe5d80395204691d371bbf6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:41 +0000
Subject: [PATCH 30/37] fix: RISC-V aligns the copies of structures passed by
 reference

---
 src/riscv/ffi.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/riscv/ffi.c b/src/riscv/ffi.c
index 6f4c73b..912f3af 100644
--- a/src/riscv/ffi.c
+++ b/src/riscv/ffi.c
@@ -230,6 +230,7 @@ static void marshal(call_builder *cb, ffi_type *type, int var, void *data) {
 
     if (type->size > 2 * __SIZEOF_POINTER__) {
         /* copy to stack and pass by reference */
+        cb->struct_stack = (void *) FFI_ALIGN (cb->struct_stack, type->alignment);
         data = memcpy (cb->struct_stack, data, type->size);
         cb->struct_stack = (size_t *) FFI_ALIGN ((char *) cb->struct_stack + type->size, __SIZEOF_POINTER__);
         marshal_atom(cb, FFI_TYPE_POINTER, &data);
-- 
2.43.0


From 23efa810ed16195b193a89e1a693f54aabe3f89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:42 +0000
Subject: [PATCH 31/37] fix: RISC-V calls returning void leave rvalue alone

---
 src/riscv/ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/riscv/ffi.c b/src/riscv/ffi.c
index 912f3af..87ba473 100644
--- a/src/riscv/ffi.c
+++ b/src/riscv/ffi.c
@@ -380,7 +380,7 @@ ffi_call_int (ffi_cif *cif, void (*fn) (void), void *rvalue, void **avalue,
     ffi_call_asm ((void *) alloc_base, cb.aregs, fn, closure);
 
     cb.used_float = cb.used_integer = 0;
-    if (!return_by_ref && rvalue)
+    if (!return_by_ref && rvalue && cif->rtype->type != FFI_TYPE_VOID)
       {
 	if (IS_INT(cif->rtype->type)
 	    && cif->rtype->size < sizeof (ffi_arg))
-- 
2.43.0


From c6ecee481f8865e1bd942bb77a60471255a77cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:29 +0000
Subject: [PATCH 32/37] fix: RISC-V results of type uint32 are widened without
 their sign

---
 src/riscv/ffi.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/riscv/ffi.c b/src/riscv/ffi.c
index 87ba473..cdc3ed7 100644
--- a/src/riscv/ffi.c
+++ b/src/riscv/ffi.c
@@ -401,6 +401,9 @@ ffi_call_int (ffi_cif *cif, void (*fn) (void), void *rvalue, void **avalue,
 		unmarshal_atom (&cb, (sizeof (ffi_arg) > 4
 				      ? FFI_TYPE_UINT64 : FFI_TYPE_UINT32),
 				rvalue);
+		/* The register holds it sign-extended.  */
+		if (cif->rtype->type == FFI_TYPE_UINT32)
+		  *(ffi_arg *) rvalue = (UINT32) *(ffi_arg *) rvalue;
 		break;
 	      }
 	  }
-- 
2.43.0


From 5d4be8106b71a09702021cf096d9a9ed826e216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:00 +0000
Subject: [PATCH 33/37] fix: LoongArch structures of one float use integer
 registers when the floating-point ones are taken

---
 src/loongarch64/ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loongarch64/ffi.c b/src/loongarch64/ffi.c
index 93c3377..3c254c5 100644
--- a/src/loongarch64/ffi.c
+++ b/src/loongarch64/ffi.c
@@ -126,7 +126,7 @@ struct_passed_as_elements (call_builder *cb, ffi_type *top)
 
   if (num_fields == 1)
     {
-      if (IS_FLOAT (fields[0]->type))
+      if (IS_FLOAT (fields[0]->type) && cb->used_float < NARGREG)
 	{
 	  ret.as_elements = 1;
 	  ret.type1 = fields[0]->type;
-- 
2.43.0


From c3cc675853bb10c5cf026dcc48e760d261d18e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:20 +0000
Subject: [PATCH 34/37] fix: LoongArch calls returning void leave rvalue alone

---
 src/loongarch64/ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loongarch64/ffi.c b/src/loongarch64/ffi.c
index 3c254c5..a86f303 100644
--- a/src/loongarch64/ffi.c
+++ b/src/loongarch64/ffi.c
@@ -492,7 +492,7 @@ ffi_call_int (ffi_cif *cif, void (*fn) (void), void *rvalue, void **avalue,
   ffi_call_asm ((void *) alloc_base, cb.aregs, fn, closure);
 
   cb.used_float = cb.used_integer = 0;
-  if (!return_by_ref && rvalue)
+  if (!return_by_ref && rvalue && cif->rtype->type != FFI_TYPE_VOID)
     unmarshal (&cb, cif->rtype, 0, rvalue);
 }
 
-- 
2.43.0


From 726705217f7b85143532e2107490a3f48a1f67a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:20 +0000
Subject: [PATCH 35/37] fix: LoongArch stores integers in structures and uint32
 results at their own width

---
 src/loongarch64/ffi.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/loongarch64/ffi.c b/src/loongarch64/ffi.c
index a86f303..987944d 100644
--- a/src/loongarch64/ffi.c
+++ b/src/loongarch64/ffi.c
@@ -240,10 +240,16 @@ unmarshal_atom (call_builder *cb, int type, void *data)
     {
     case FFI_TYPE_UINT8:
     case FFI_TYPE_SINT8:
+      *(uint8_t *) data = value;
+      break;
     case FFI_TYPE_UINT16:
     case FFI_TYPE_SINT16:
+      *(uint16_t *) data = value;
+      break;
     case FFI_TYPE_UINT32:
     case FFI_TYPE_SINT32:
+      *(uint32_t *) data = value;
+      break;
 #if __SIZEOF_POINTER__ == 8
     case FFI_TYPE_UINT64:
     case FFI_TYPE_SINT64:
@@ -493,7 +499,18 @@ ffi_call_int (ffi_cif *cif, void (*fn) (void), void *rvalue, void **avalue,
 
   cb.used_float = cb.used_integer = 0;
   if (!return_by_ref && rvalue && cif->rtype->type != FFI_TYPE_VOID)
-    unmarshal (&cb, cif->rtype, 0, rvalue);
+    {
+      if (IS_INT (cif->rtype->type) && cif->rtype->size < sizeof (ffi_arg))
+	{
+	  /* Integer results narrower than ffi_arg come extended, except that
+	     32-bit ones are sign-extended whatever their type.  */
+	  unmarshal_atom (&cb, FFI_TYPE_POINTER, rvalue);
+	  if (cif->rtype->type == FFI_TYPE_UINT32)
+	    *(ffi_arg *) rvalue = (UINT32) *(ffi_arg *) rvalue;
+	}
+      else
+	unmarshal (&cb, cif->rtype, 0, rvalue);
+    }
 }
 
 void
-- 
2.43.0


From c397c6e230af9ff770b381bed0822e0618d657a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:20 +0000
Subject: [PATCH 36/37] fix: LoongArch argument areas are aligned and have room
 for the addresses of structures passed by reference

---
 src/loongarch64/ffi.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/loongarch64/ffi.c b/src/loongarch64/ffi.c
index 987944d..e868384 100644
--- a/src/loongarch64/ffi.c
+++ b/src/loongarch64/ffi.c
@@ -430,11 +430,29 @@ passed_by_ref (call_builder *cb, ffi_type *type, int var)
   return type->size > 2 * __SIZEOF_POINTER__;
 }
 
+/* The size of the argument area.  A structure passed by reference is copied
+   to its top, and the address of the copy may be passed at its bottom: make
+   room for the address, and for the alignment of a copy in an area of its
+   own.  */
+static void
+size_argument_area (ffi_cif *cif)
+{
+  size_t bytes = cif->bytes;
+  unsigned i;
+
+  for (i = 0; i < cif->nargs; i++)
+    if (cif->arg_types[i]->size > 2 * __SIZEOF_POINTER__)
+      bytes += 2 * STKALIGN;
+
+  cif->bytes = (unsigned) FFI_ALIGN (bytes, STKALIGN);
+}
+
 /* Perform machine dependent cif processing.  */
 ffi_status
 ffi_prep_cif_machdep (ffi_cif *cif)
 {
   cif->loongarch_nfixedargs = cif->nargs;
+  size_argument_area (cif);
   return FFI_OK;
 }
 
@@ -445,6 +463,7 @@ ffi_prep_cif_machdep_var (ffi_cif *cif, unsigned int nfixedargs,
 			  unsigned int ntotalargs)
 {
   cif->loongarch_nfixedargs = nfixedargs;
+  size_argument_area (cif);
   return FFI_OK;
 }
 
-- 
2.43.0


From 8ed07d541bac9fec87cbfa64fe532ed2e044a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:16 +0000
Subject: [PATCH 37/37] fix: x86-64 closures take over-aligned types as calls
 pass them

---
 src/x86/ffi64.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index 7a59cff..653398e 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -858,10 +858,12 @@ ffi_closure_unix64_inner(ffi_cif *cif,
 	  argp += arg_types[i]->size;
 	}
       /* If the argument is in a single register, or two consecutive
-	 integer registers, then we can use that address directly.  */
-      else if (n == 1
-	       || (n == 2 && !(SSE_CLASS_P (classes[0])
-			       || SSE_CLASS_P (classes[1]))))
+	 integer registers, then we can use that address directly, unless
+	 the type is aligned more than the registers are saved.  */
+      else if (arg_types[i]->alignment <= 8
+	       && (n == 1
+		   || (n == 2 && !(SSE_CLASS_P (classes[0])
+				   || SSE_CLASS_P (classes[1])))))
 	{
 	  /* The argument is in a single register.  */
 	  if (SSE_CLASS_P (classes[0]))
@@ -886,7 +888,7 @@ ffi_closure_unix64_inner(ffi_cif *cif,
 	    {
 	      if (SSE_CLASS_P (classes[j]))
 		memcpy (a, &reg_args->sse[ssecount++], 8);
-	      else
+	      else if (classes[j] != X86_64_NO_CLASS)
 		memcpy (a, &reg_args->gpr[gprcount++], 8);
 	    }
 	}
-- 
2.43.0

