/* shape SCHEMA: what SQLite makes of the statements on standard input (each ended by NUL) given the
 * schema, as JSON: [reads only, parameters, columns], or [complaint]. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sqlite3.h>
int
main(int argc, char *argv[])
{
	sqlite3 *db; sqlite3_stmt *st; char *buf = NULL, *sch; size_t n = 0, c; FILE *f; long sz; const char *tail, *p; char *err = NULL;
	if ((f = fopen(argv[1], "r")) == NULL) return 90;
	fseek(f, 0, SEEK_END); sz = ftell(f); rewind(f);
	sch = calloc(1, sz + 1); if (fread(sch, 1, sz, f) != (size_t)sz) return 90;
	if (sqlite3_open(":memory:", &db) != SQLITE_OK) return 90;
	if (sqlite3_exec(db, sch, NULL, NULL, &err) != SQLITE_OK) { printf("%s\n", err); return 2; }
	while ((c = fread((buf = realloc(buf, n + 65536)) + n, 1, 65536, stdin)) > 0) n += c;
	putchar('[');
	for (p = buf; p < buf + n; p += strlen(p) + 1) {
		if (p > buf) putchar(',');
		if (sqlite3_prepare_v2(db, p, -1, &st, &tail) != SQLITE_OK || st == NULL || *tail != '\0') {
			fputs("[\"", stdout);
			for (tail = sqlite3_errmsg(db); *tail; tail++) if (*tail != '"' && *tail != '\\' && *tail >= ' ') putchar(*tail);
			fputs("\"]", stdout);
		} else
			printf("[%d,%d,%d]", sqlite3_stmt_readonly(st), sqlite3_bind_parameter_count(st), sqlite3_column_count(st));
		sqlite3_finalize(st);
	}
	puts("]");
	return 0;
}
