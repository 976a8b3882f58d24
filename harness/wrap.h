#ifndef WRAP_H
#define WRAP_H
/* Stand-ins for the libc functions the library calls. The library's objects are
 * linked with these names substituted (objcopy --redefine-sym), the harness's own
 * code calls libc directly. */
#include <stddef.h>
#include <sys/types.h>

/* called before each intercepted call; NULL in sequential mode */
enum { Y_CALL = 0, Y_LOCK, Y_UNLOCK, Y_WAIT, Y_MEM, Y_START };
extern void (*yield_hook)(int kind, const char *what);
/* called when the library is about to wait with no time limit. fdset is ready when
 * it returns 1; 0: let the call report what is ready now */
extern int (*wait_hook)(int (*probe)(void *), void *arg, const char *what);
extern int (*lock_hook)(int fd, int cmd, void *flock);
extern void (*lock_state_hook)(int fd, int locked);
extern void (*map_hook)(void *addr, size_t len, int fd, int add);

/* binds an unnamed socket: 0 done, -1 failed, 1 let the kernel choose */
extern int (*bind_hook)(int fd);

/* resources held by the library, as balances */
extern long w_mem;               /* live allocations */
extern long w_maps;              /* live file mappings */

/* fault injection: the k-th fallible call from now fails (0: none) */
extern long w_fault_at; extern int w_fault_errno; extern int w_fault_hit;
extern char w_fault_name[32];
extern int w_msync_failed;       /* some msync failed */
extern int w_msync_fail;         /* msync fails */
extern int w_mlock_mode;         /* 0 record only, 1 fail */

/* most recent ring mapping and ring descriptor obtained by the library */
extern void *w_last_map; extern size_t w_last_map_len; extern int w_last_map_fd;

/* memory locked by mlock: every byte of [a,a+len)? */
int w_is_locked(void *a, size_t len);
long w_locked_bytes(void);
void w_forget_locked(void);

/* shadow disk images: what has reached stable storage */
void w_shadow_dir(const char *dir);
int w_shadow_copy(const char *path, const char *dst);  /* 0 ok */
#endif
