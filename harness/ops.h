#ifndef OPS_H
#define OPS_H
#include <stddef.h>
#include <sys/types.h>
#define MAXH 300
#define MAXF 16
/* one operation: args (JSON fields, leading comma free) and result */
struct opbuf { char *a; size_t an, acap; char *r; size_t rn, rcap; };
extern char ops_dir[];
extern unsigned *ops_seq;              /* message counter, shared between processes */
extern unsigned ops_salt;
void ops_reset(void);                  /* forget handles (new process) */
/* parse and prepare; fills a; returns 0 if not an operation */
int op_prepare(char *line, struct opbuf *b);
int op_skip(void);
void op_execute(struct opbuf *b);      /* runs the prepared operation, fills r */
void ops_ready(struct opbuf *b);       /* appends readiness of all descriptors */
int ops_pf_ready(void);                /* is a descriptor registered with the op's handle readable */
void ops_force_pf(void);               /* make the handle's registered descriptor readable */
int ops_cur_file(void);
int ops_big(void);   /* lengths are in large units */                /* file index the op concerns, -1 none */
int ops_selfd(int h);
const char *ops_path(int f);
int ops_has_pf(void);
void ob_add(struct opbuf *b, int res, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
unsigned ops_fp(const void *p, size_t n);
int ops_inode_matches(void);
void ops_conc_obs(struct opbuf *b, int p);
void ops_use_evfd(int *fds);
#endif
