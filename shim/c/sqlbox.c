#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#include <sqlite3.h>
#include "sqlbox.h"

#define MAXDEPTH 64
struct sqlbox_role_hier {
	size_t sz; int *parent; size_t sink; int hassink; size_t start; int hasstart;
	unsigned char *stmts; /* sz * MAXSTMT */ size_t maxstmt; int hassrc;
	unsigned char *src;
};
#define MAXSTMT 4096
struct sqlbox_role_hier *
sqlbox_role_hier_alloc(size_t sz)
{
	struct sqlbox_role_hier *h = calloc(1, sizeof(*h));
	size_t i;
	h->sz = sz; h->parent = calloc(sz, sizeof(int));
	for (i = 0; i < sz; i++) h->parent[i] = -1;
	h->stmts = calloc(sz, MAXSTMT); h->src = calloc(sz, 1);
	return h;
}
void
sqlbox_role_hier_free(struct sqlbox_role_hier *h)
{
	if (h == NULL) return;
	free(h->parent); free(h->stmts); free(h->src); free(h);
}
int
sqlbox_role_hier_child(struct sqlbox_role_hier *h, size_t parent, size_t child)
{
	size_t p = parent;
	if (parent >= h->sz || child >= h->sz || parent == child) return 0;
	if (h->parent[child] != -1) return 0;
	/* no cycles */
	for (;;) { if (p == child) return 0; if (h->parent[p] == -1) break; p = (size_t)h->parent[p]; }
	h->parent[child] = (int)parent;
	return 1;
}
int sqlbox_role_hier_sink(struct sqlbox_role_hier *h, size_t r)
{ if (r >= h->sz) return 0; h->sink = r; h->hassink = 1; return 1; }
int sqlbox_role_hier_start(struct sqlbox_role_hier *h, size_t r)
{ if (r >= h->sz) return 0; h->start = r; h->hasstart = 1; return 1; }
int sqlbox_role_hier_src(struct sqlbox_role_hier *h, size_t r, size_t src)
{ if (r >= h->sz) return 0; h->src[r] = 1; return 1; }
int sqlbox_role_hier_stmt(struct sqlbox_role_hier *h, size_t r, size_t stmt)
{ if (r >= h->sz || stmt >= MAXSTMT) return 0; h->stmts[r * MAXSTMT + stmt] = 1; return 1; }
static struct sqlbox_role_hier *hdup(const struct sqlbox_role_hier *h)
{
	struct sqlbox_role_hier *n = sqlbox_role_hier_alloc(h->sz);
	memcpy(n->parent, h->parent, h->sz * sizeof(int));
	memcpy(n->stmts, h->stmts, h->sz * MAXSTMT);
	memcpy(n->src, h->src, h->sz);
	n->sink = h->sink; n->hassink = h->hassink; n->start = h->start; n->hasstart = h->hasstart;
	return n;
}
int
sqlbox_role_hier_gen(const struct sqlbox_role_hier *h, struct sqlbox_roles *r, size_t def)
{
	memset(r, 0, sizeof(*r));
	r->defrole = def; r->rolesz = h->sz; r->hier = hdup(h);
	return def < h->sz;
}
void sqlbox_role_hier_gen_free(struct sqlbox_roles *r)
{ if (r->hier) sqlbox_role_hier_free(r->hier); r->hier = NULL; }

struct st { sqlite3_stmt *s; struct sqlbox_parmset set; size_t idx; };
struct sqlbox {
	sqlite3 *db; char **stmts; size_t stmtsz; char *fname;
	struct sqlbox_role_hier *hier; size_t role;
	struct st stack[MAXDEPTH]; size_t depth;
	size_t trans; int intrans;
};
sqlite3 *shim_handles[4096]; int shim_nhandles;

struct sqlbox *
sqlbox_alloc(struct sqlbox_cfg *c)
{
	struct sqlbox *b = calloc(1, sizeof(*b));
	size_t i;
	b->stmtsz = c->stmts.stmtsz;
	b->stmts = calloc(b->stmtsz + 1, sizeof(char *));
	for (i = 0; i < b->stmtsz; i++) b->stmts[i] = strdup(c->stmts.stmts[i].stmt);
	b->fname = strdup(c->srcs.srcs[0].fname);
	if (c->roles.hier) { b->hier = hdup(c->roles.hier); b->role = c->roles.defrole; }
	return b;
}
static void stfree(struct st *s)
{ sqlite3_finalize(s->s); free(s->set.ps); memset(s, 0, sizeof(*s)); }
void
sqlbox_free(struct sqlbox *b)
{
	size_t i; int j;
	if (b == NULL) return;
	while (b->depth) stfree(&b->stack[--b->depth]);
	for (j = 0; j < shim_nhandles; j++) if (shim_handles[j] == b->db) shim_handles[j] = NULL;
	if (b->db) sqlite3_close(b->db);
	for (i = 0; i < b->stmtsz; i++) free(b->stmts[i]);
	free(b->stmts); free(b->fname);
	if (b->hier) sqlbox_role_hier_free(b->hier);
	free(b);
}
size_t
sqlbox_open(struct sqlbox *b, size_t src)
{
	if (b->hier) {
		size_t r = b->role;
		while (!b->hier->src[r]) { if (b->hier->parent[r] == -1) return 0; r = (size_t)b->hier->parent[r]; }
	}
	if (sqlite3_open_v2(b->fname, &b->db, SQLITE_OPEN_READWRITE, NULL) != SQLITE_OK) return 0;
	sqlite3_extended_result_codes(b->db, 1);
	sqlite3_exec(b->db, "PRAGMA foreign_keys=ON;", NULL, NULL, NULL);
	if (shim_nhandles < 4096) shim_handles[shim_nhandles++] = b->db;
	return 1;
}
int sqlbox_open_async(struct sqlbox *b, size_t src) { return sqlbox_open(b, src) > 0; }
int sqlbox_msg_set_dat(struct sqlbox *b, const void *d, size_t sz) { return 1; }

int
sqlbox_role(struct sqlbox *b, size_t role)
{
	size_t r;
	if (b->hier == NULL) return 0;
	if (role >= b->hier->sz) return 0;
	if (role == b->role) return 1;
	if (b->hier->hassink && b->role == b->hier->sink) return 0;
	if (b->hier->hasstart && b->role == b->hier->start) { b->role = role; return 1; }
	if (b->hier->hassink && role == b->hier->sink) { b->role = role; return 1; }
	for (r = b->role; b->hier->parent[r] != -1; ) {
		r = (size_t)b->hier->parent[r];
		if (r == role) { b->role = role; return 1; }
	}
	return 0;
}
static int
permitted(struct sqlbox *b, size_t stmt)
{
	size_t r;
	if (b->hier == NULL) return 1;
	for (r = b->role; ; r = (size_t)b->hier->parent[r]) {
		if (b->hier->stmts[r * MAXSTMT + stmt]) return 1;
		if (b->hier->parent[r] == -1) return 0;
	}
}
static int
dobind(sqlite3_stmt *s, size_t psz, const struct sqlbox_parm *ps)
{
	size_t i; int c;
	if ((size_t)sqlite3_bind_parameter_count(s) != psz) {
		fprintf(stderr, "SHIM: parameter count %d != %zu: %s\n",
		    sqlite3_bind_parameter_count(s), psz, sqlite3_sql(s));
		return 0;
	}
	for (i = 0; i < psz; i++) {
		switch (ps[i].type) {
		case SQLBOX_PARM_BLOB:
			if (ps[i].bparm == NULL) c = sqlite3_bind_null(s, i + 1);
			else c = sqlite3_bind_blob(s, i + 1, ps[i].bparm, (int)ps[i].sz, SQLITE_TRANSIENT);
			break;
		case SQLBOX_PARM_FLOAT: c = sqlite3_bind_double(s, i + 1, ps[i].fparm); break;
		case SQLBOX_PARM_INT: c = sqlite3_bind_int64(s, i + 1, ps[i].iparm); break;
		case SQLBOX_PARM_NULL: c = sqlite3_bind_null(s, i + 1); break;
		case SQLBOX_PARM_STRING:
			if (ps[i].sparm == NULL) c = sqlite3_bind_null(s, i + 1);
			else c = sqlite3_bind_text(s, i + 1, ps[i].sparm,
			    ps[i].sz == 0 ? -1 : (int)ps[i].sz - 1, SQLITE_TRANSIENT);
			break;
		default: return 0;
		}
		if (c != SQLITE_OK) return 0;
	}
	return 1;
}
static sqlite3_stmt *
prep(struct sqlbox *b, size_t st, size_t psz, const struct sqlbox_parm *ps)
{
	sqlite3_stmt *s;
	if (st >= b->stmtsz || !permitted(b, st)) {
		fprintf(stderr, "SHIM: role violation stmt %zu role %zu\n", st, b->role);
		return NULL;
	}
	if (sqlite3_prepare_v2(b->db, b->stmts[st], -1, &s, NULL) != SQLITE_OK) {
		fprintf(stderr, "SHIM: prepare: %s: %s\n", sqlite3_errmsg(b->db), b->stmts[st]);
		return NULL;
	}
	if (!dobind(s, psz, ps)) { sqlite3_finalize(s); return NULL; }
	return s;
}
size_t
sqlbox_prepare_bind(struct sqlbox *b, size_t src, size_t st, size_t psz,
	const struct sqlbox_parm *ps, unsigned long flags)
{
	sqlite3_stmt *s;
	if (b->depth == MAXDEPTH) return 0;
	if ((s = prep(b, st, psz, ps)) == NULL) return 0;
	b->stack[b->depth].s = s;
	b->depth++;
	return b->depth;
}
int
sqlbox_prepare_bind_async(struct sqlbox *b, size_t src, size_t st, size_t psz,
	const struct sqlbox_parm *ps, unsigned long flags)
{ return sqlbox_prepare_bind(b, src, st, psz, ps, flags) > 0; }

const struct sqlbox_parmset *
sqlbox_step(struct sqlbox *b, size_t id)
{
	struct st *s;
	int c, i, n;
	if (b->depth == 0 || id > b->depth) return NULL;
	s = &b->stack[(id ? id : b->depth) - 1];
	c = sqlite3_step(s->s);
	if (c == SQLITE_DONE) { free(s->set.ps); s->set.ps = NULL; s->set.psz = 0;
		s->set.code = SQLBOX_CODE_OK; return &s->set; }
	if (c != SQLITE_ROW) { fprintf(stderr, "SHIM: step: %s\n", sqlite3_errmsg(b->db)); return NULL; }
	n = sqlite3_column_count(s->s);
	free(s->set.ps);
	s->set.ps = calloc((size_t)n, sizeof(struct sqlbox_parm));
	s->set.psz = (size_t)n;
	for (i = 0; i < n; i++) {
		struct sqlbox_parm *p = &s->set.ps[i];
		switch (sqlite3_column_type(s->s, i)) {
		case SQLITE_INTEGER: p->type = SQLBOX_PARM_INT; p->iparm = sqlite3_column_int64(s->s, i); break;
		case SQLITE_FLOAT: p->type = SQLBOX_PARM_FLOAT; p->fparm = sqlite3_column_double(s->s, i); break;
		case SQLITE_TEXT: p->type = SQLBOX_PARM_STRING;
			p->sparm = (const char *)sqlite3_column_text(s->s, i);
			p->sz = (size_t)sqlite3_column_bytes(s->s, i) + 1; break;
		case SQLITE_BLOB: p->type = SQLBOX_PARM_BLOB; p->bparm = sqlite3_column_blob(s->s, i);
			p->sz = (size_t)sqlite3_column_bytes(s->s, i); break;
		default: p->type = SQLBOX_PARM_NULL; break;
		}
	}
	return &s->set;
}
int
sqlbox_finalise(struct sqlbox *b, size_t id)
{
	if (b->depth == 0) return 0;
	if (id && id != b->depth) return 0;
	stfree(&b->stack[--b->depth]);
	return 1;
}
enum sqlbox_code
sqlbox_exec(struct sqlbox *b, size_t src, size_t st, size_t psz,
	const struct sqlbox_parm *ps, unsigned long flags)
{
	sqlite3_stmt *s;
	int c;
	if ((s = prep(b, st, psz, ps)) == NULL) return SQLBOX_CODE_ERROR;
	while ((c = sqlite3_step(s)) == SQLITE_ROW) ;
	sqlite3_finalize(s);
	if (c == SQLITE_DONE) return SQLBOX_CODE_OK;
	if ((c & 0xff) == SQLITE_CONSTRAINT && (flags & SQLBOX_STMT_CONSTRAINT)) return SQLBOX_CODE_CONSTRAINT;
	fprintf(stderr, "SHIM: exec: %s\n", sqlite3_errmsg(b->db));
	return SQLBOX_CODE_ERROR;
}
int
sqlbox_exec_async(struct sqlbox *b, size_t src, size_t st, size_t psz,
	const struct sqlbox_parm *ps, unsigned long flags)
{ return sqlbox_exec(b, src, st, psz, ps, flags) != SQLBOX_CODE_ERROR; }
int sqlbox_lastid(struct sqlbox *b, size_t src, int64_t *id)
{ *id = sqlite3_last_insert_rowid(b->db); return 1; }
static int topen(struct sqlbox *b, const char *q, size_t id)
{
	if (id == 0 || b->intrans) return 0;
	if (sqlite3_exec(b->db, q, NULL, NULL, NULL) != SQLITE_OK) return 0;
	b->intrans = 1; b->trans = id; return 1;
}
int sqlbox_trans_immediate(struct sqlbox *b, size_t s, size_t id) { return topen(b, "BEGIN IMMEDIATE", id); }
int sqlbox_trans_deferred(struct sqlbox *b, size_t s, size_t id) { return topen(b, "BEGIN DEFERRED", id); }
int sqlbox_trans_exclusive(struct sqlbox *b, size_t s, size_t id) { return topen(b, "BEGIN EXCLUSIVE", id); }
static int tclose(struct sqlbox *b, const char *q, size_t id)
{
	if (!b->intrans || b->trans != id) return 0;
	b->intrans = 0;
	return sqlite3_exec(b->db, q, NULL, NULL, NULL) == SQLITE_OK;
}
int sqlbox_trans_commit(struct sqlbox *b, size_t s, size_t id) { return tclose(b, "COMMIT", id); }
int sqlbox_trans_rollback(struct sqlbox *b, size_t s, size_t id) { return tclose(b, "ROLLBACK", id); }
int
sqlbox_parm_int(const struct sqlbox_parm *p, int64_t *v)
{
	switch (p->type) {
	case SQLBOX_PARM_INT: *v = p->iparm; return 0;
	case SQLBOX_PARM_FLOAT: *v = (int64_t)p->fparm; return 1;
	case SQLBOX_PARM_STRING: *v = strtoll(p->sparm, NULL, 10); return 1;
	default: return -1;
	}
}
int
sqlbox_parm_float(const struct sqlbox_parm *p, double *v)
{
	switch (p->type) {
	case SQLBOX_PARM_FLOAT: *v = p->fparm; return 0;
	case SQLBOX_PARM_INT: *v = (double)p->iparm; return 1;
	case SQLBOX_PARM_STRING: *v = strtod(p->sparm, NULL); return 1;
	default: return -1;
	}
}
int
sqlbox_parm_string_alloc(const struct sqlbox_parm *p, char **v, size_t *sz)
{
	char buf[64];
	switch (p->type) {
	case SQLBOX_PARM_STRING: *v = strdup(p->sparm); break;
	case SQLBOX_PARM_INT: snprintf(buf, sizeof(buf), "%lld", (long long)p->iparm); *v = strdup(buf); break;
	case SQLBOX_PARM_FLOAT: snprintf(buf, sizeof(buf), "%f", p->fparm); *v = strdup(buf); break;
	case SQLBOX_PARM_BLOB: *v = calloc(p->sz + 1, 1); if (p->sz) memcpy(*v, p->bparm, p->sz); break;
	default: return -1;
	}
	if (sz) *sz = strlen(*v) + 1;
	return p->type == SQLBOX_PARM_STRING ? 0 : 1;
}
int
sqlbox_parm_blob_alloc(const struct sqlbox_parm *p, void **v, size_t *sz)
{
	switch (p->type) {
	case SQLBOX_PARM_BLOB: *sz = p->sz; *v = malloc(p->sz + 1); if (p->sz) memcpy(*v, p->bparm, p->sz); return 0;
	case SQLBOX_PARM_STRING: *sz = strlen(p->sparm); *v = malloc(*sz + 1); memcpy(*v, p->sparm, *sz); return 1;
	default: return -1;
	}
}
