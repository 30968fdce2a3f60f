/* Common part of the driver linked with generated C data layers: reads a
 * script on standard input, calls the generated functions, and writes one JSON
 * line per script line. */
#include <ctype.h>
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sqlite3.h>

extern sqlite3 *shim_handles[4096];
extern int shim_nhandles;
void kjson_shim_init(struct kjsonreq *, FILE *);

static struct ort *D;		/* the connection under test */
static const char *dbfile;
static FILE *O;
static char *toks[64];
static int ntoks, curtok;

static void p_i(int64_t v) { fprintf(O, "\"i%" PRId64 "\"", v); }
static void p_r(double v) { fprintf(O, "\"r%.17g\"", v); }
static void p_n(void) { fputs("\"n\"", O); }
static void p_b(int c, const void *v, size_t sz)
{
	size_t i;
	if (v == NULL && sz > 0) { fputs("\"u\"", O); return; }
	fprintf(O, "\"%c", c);
	for (i = 0; i < sz; i++) fprintf(O, "%.2x", ((const unsigned char *)v)[i]);
	fputc('"', O);
}
static void p_t(const char *v) { if (v == NULL) fputs("\"u\"", O); else p_b('t', v, strlen(v)); }

static void
dumphandle(sqlite3 *h, const char *const *tabs)
{
	size_t i; int c, r, first, ff = 1;
	sqlite3_stmt *st;
	char sql[512];

	fputc('{', O);
	for (i = 0; tabs[i] != NULL; i++) {
		snprintf(sql, sizeof(sql), "SELECT rowid, * FROM \"%s\" ORDER BY rowid", tabs[i]);
		if ((r = sqlite3_prepare_v2(h, sql, -1, &st, NULL)) != SQLITE_OK) {
			fprintf(O, "%s\"!\":\"%d\"", ff ? "" : ",", r); ff = 0;
			continue;
		}
		fprintf(O, "%s\"%s\":[", ff ? "" : ",", tabs[i]); ff = 0; first = 1;
		while ((r = sqlite3_step(st)) == SQLITE_ROW) {
			fputs(first ? "[" : ",[", O); first = 0;
			for (c = 0; c < sqlite3_column_count(st); c++) {
				if (c) fputc(',', O);
				switch (sqlite3_column_type(st, c)) {
				case SQLITE_INTEGER: p_i(sqlite3_column_int64(st, c)); break;
				case SQLITE_FLOAT: p_r(sqlite3_column_double(st, c)); break;
				case SQLITE_NULL: p_n(); break;
				case SQLITE_TEXT: p_b('t', sqlite3_column_text(st, c), sqlite3_column_bytes(st, c)); break;
				default: p_b('b', sqlite3_column_blob(st, c), sqlite3_column_bytes(st, c)); break;
				}
			}
			fputc(']', O);
		}
		sqlite3_finalize(st);
		fputc(']', O);
		if (r != SQLITE_DONE) fprintf(O, ",\"!\":\"%d\"", r);
	}
	fputc('}', O);
}

static void
dump(const char *const *tabs)
{
	int i;
	sqlite3 *h = NULL;

	fputs(",\"db\":", O);
	for (i = 0; i < shim_nhandles; i++)
		if (shim_handles[i] != NULL) { dumphandle(shim_handles[i], tabs); return; }
	sqlite3_open(dbfile, &h);
	dumphandle(h, tabs);
	sqlite3_close(h);
}

static void
peek(const char *const *tabs)
{
	sqlite3 *h = NULL;
	sqlite3_open(dbfile, &h);
	sqlite3_busy_timeout(h, 0);
	fputs("\"peek\":", O);
	dumphandle(h, tabs);
	sqlite3_close(h);
}

static void
writer(void)
{
	sqlite3 *h = NULL; int r;
	sqlite3_open(dbfile, &h);
	sqlite3_busy_timeout(h, 0);
	r = sqlite3_exec(h, "BEGIN IMMEDIATE", NULL, NULL, NULL);
	if (r == SQLITE_OK) sqlite3_exec(h, "ROLLBACK", NULL, NULL, NULL);
	fprintf(O, "\"res\":[\"%s\"]", r == SQLITE_OK ? "free" : r == SQLITE_BUSY ? "busy" : "bad");
	sqlite3_close(h);
}

/* Argument tokens: n, i<dec>, r<num>, t<hex>, b<hex>. */
static char *nexttok(void) { if (curtok >= ntoks) { fprintf(stderr, "too few tokens\n"); _exit(90); } return toks[curtok++]; }
static int isnulltok(const char *t) { return t[0] == 'n'; }
static size_t unhex(const char *s, char **out)
{
	size_t n = strlen(s) / 2, i; unsigned v;
	*out = malloc(n + 1);
	for (i = 0; i < n; i++) { sscanf(s + 2 * i, "%2x", &v); (*out)[i] = (char)v; }
	(*out)[n] = '\0';
	return n;
}

/* Objects handed out. */
#define HMAX 256
struct hnd { int strct; size_t n; const void **objs; void *q; char **json; };
static struct hnd H[HMAX];
static char *jbuf; static size_t jlen;
