/* Linked with a generated C API: calls db_open(), whose statements are written to standard output
 * (each ended by NUL) instead of being passed on.  The functions of the API are in a table so that
 * they must be there. */
#include <sys/queue.h>
#include <sys/types.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
#include <sqlbox.h>
#include <kcgi.h>
#include <kcgijson.h>
#include HEADERS
#include HEADERS
typedef void (*fn)(void);
fn volatile table[] = {
#include "table.h"
	NULL
};
struct sqlbox *__wrap_sqlbox_alloc(struct sqlbox_cfg *cfg)
{
	size_t i;
	for (i = 0; i < cfg->stmts.stmtsz; i++)
		fwrite(cfg->stmts.stmts[i].stmt, 1, strlen(cfg->stmts.stmts[i].stmt) + 1, stdout);
	return NULL;
}
int
main(void)
{
	size_t i;
	for (i = 0; i + 1 < sizeof(table) / sizeof(table[0]); i++)
		if (table[i] == NULL) return 3;
	return db_open("none") == NULL ? 0 : 4;
}
