/* The operating system as libffi sees it in the lifecycle drivers: every libc
   call of libffi's objects is redirected here (objcopy --redefine-syms). */
#include <stddef.h>
#include <stdint.h>
enum { NCAND = 11 };
extern char vf_status[NCAND + 1];	/* candidate states, see vf_wrap.c */
extern char vf_scratch[256];
extern int vf_mode;			/* 0 nothing, 1 W+X refused with EPERM, 2 SELinux (statfs), 3 SELinux (mounts), 4 W+X refused with EACCES, 5 no /proc/self/maps, 6 no maps and W+X refused */
extern int vf_slots;			/* wanted trampoline slots per table, 0 = real */
extern int vf_real_slots;		/* what it became */
extern char vf_deny[64];		/* call kinds that fail until further notice */
extern int vf_at[2], vf_from;		/* calls of this operation that fail */
extern char vf_cls;			/* how they fail */
extern int vf_ncalls, vf_hits;
extern char vf_calls[4096];
/* ledger */
extern long vf_heap_pages, vf_malloc_bytes, vf_malloc_count;
extern int vf_locks, vf_badclose, vf_linked, vf_hole, vf_wxcalls, vf_badunmap, vf_deadlock, vf_badfree;
extern int vf_attempt[256], vf_nattempt;	/* candidates tried, in order */
extern int vf_used[64], vf_nused;	/* candidates whose file was mapped executable */
extern void (*vf_yield) (const char *);
void vf_op_begin (void);
void vf_op_end (void);
void vf_setup (const char *scratch);
int vf_stray (void);
int vf_idle (void);
void vf_cleanup (const char *);
int vf_exec_pages (void);
