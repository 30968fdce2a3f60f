/* Stand-in for sqlbox(3), implemented directly over SQLite, in-process.
 * Only what code generated by ort-c-source uses. */
#ifndef SQLBOX_H
#define SQLBOX_H
#include <stddef.h>
#include <stdint.h>
enum sqlbox_parmt { SQLBOX_PARM_BLOB, SQLBOX_PARM_FLOAT, SQLBOX_PARM_INT,
	SQLBOX_PARM_NULL, SQLBOX_PARM_STRING };
enum sqlbox_code { SQLBOX_CODE_OK = 0, SQLBOX_CODE_CONSTRAINT = 1, SQLBOX_CODE_ERROR = 2 };
#define SQLBOX_STMT_CONSTRAINT 0x01
#define SQLBOX_STMT_MULTI 0x02
enum sqlbox_srcmode { SQLBOX_SRC_RO, SQLBOX_SRC_RW, SQLBOX_SRC_RWC };
struct sqlbox_parm {
	union { double fparm; int64_t iparm; const char *sparm; const void *bparm; };
	enum sqlbox_parmt type;
	size_t sz;
};
struct sqlbox_parmset { enum sqlbox_code code; size_t psz; struct sqlbox_parm *ps; };
struct sqlbox_src { char *fname; enum sqlbox_srcmode mode; };
struct sqlbox_pstmt { char *stmt; };
struct sqlbox_role { size_t *roles; size_t rolesz; size_t *stmts; size_t stmtsz;
	size_t *srcs; size_t srcsz; };
struct sqlbox_roles { struct sqlbox_role *roles; size_t rolesz; size_t defrole;
	struct sqlbox_role_hier *hier; };
struct sqlbox_cfg {
	struct { void (*func)(const char *, void *); void (*func_short)(const char *, ...);
		void *dat; } msg;
	struct { struct sqlbox_src *srcs; size_t srcsz; } srcs;
	struct { struct sqlbox_pstmt *stmts; size_t stmtsz; } stmts;
	struct sqlbox_roles roles;
};
struct sqlbox;
struct sqlbox_role_hier;
struct sqlbox_role_hier *sqlbox_role_hier_alloc(size_t);
void sqlbox_role_hier_free(struct sqlbox_role_hier *);
int sqlbox_role_hier_child(struct sqlbox_role_hier *, size_t, size_t);
int sqlbox_role_hier_sink(struct sqlbox_role_hier *, size_t);
int sqlbox_role_hier_start(struct sqlbox_role_hier *, size_t);
int sqlbox_role_hier_src(struct sqlbox_role_hier *, size_t, size_t);
int sqlbox_role_hier_stmt(struct sqlbox_role_hier *, size_t, size_t);
int sqlbox_role_hier_gen(const struct sqlbox_role_hier *, struct sqlbox_roles *, size_t);
void sqlbox_role_hier_gen_free(struct sqlbox_roles *);
struct sqlbox *sqlbox_alloc(struct sqlbox_cfg *);
void sqlbox_free(struct sqlbox *);
int sqlbox_open_async(struct sqlbox *, size_t);
size_t sqlbox_open(struct sqlbox *, size_t);
int sqlbox_role(struct sqlbox *, size_t);
int sqlbox_msg_set_dat(struct sqlbox *, const void *, size_t);
int sqlbox_prepare_bind_async(struct sqlbox *, size_t, size_t, size_t,
	const struct sqlbox_parm *, unsigned long);
size_t sqlbox_prepare_bind(struct sqlbox *, size_t, size_t, size_t,
	const struct sqlbox_parm *, unsigned long);
const struct sqlbox_parmset *sqlbox_step(struct sqlbox *, size_t);
int sqlbox_finalise(struct sqlbox *, size_t);
enum sqlbox_code sqlbox_exec(struct sqlbox *, size_t, size_t, size_t,
	const struct sqlbox_parm *, unsigned long);
int sqlbox_exec_async(struct sqlbox *, size_t, size_t, size_t,
	const struct sqlbox_parm *, unsigned long);
int sqlbox_lastid(struct sqlbox *, size_t, int64_t *);
int sqlbox_trans_immediate(struct sqlbox *, size_t, size_t);
int sqlbox_trans_deferred(struct sqlbox *, size_t, size_t);
int sqlbox_trans_exclusive(struct sqlbox *, size_t, size_t);
int sqlbox_trans_commit(struct sqlbox *, size_t, size_t);
int sqlbox_trans_rollback(struct sqlbox *, size_t, size_t);
int sqlbox_parm_int(const struct sqlbox_parm *, int64_t *);
int sqlbox_parm_float(const struct sqlbox_parm *, double *);
int sqlbox_parm_string_alloc(const struct sqlbox_parm *, char **, size_t *);
int sqlbox_parm_blob_alloc(const struct sqlbox_parm *, void **, size_t *);
#endif
