/* Give input to generated validators: lines "t INDEX HEX" (by the table) and "f INDEX HEX" (the
 * function of the field), one answer each.  FIELDS has the names and functions. */
#include <stdint.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/queue.h>
#include <kcgi.h>
#include <kcgijson.h>
#include "db.h"

struct fld { const char *name; int (*fn)(struct kpair *); };
static const struct fld fields[] = {
#include "fields.h"
	{ NULL, NULL }
};

static void
hex(char tag, const void *p, size_t sz)
{
	size_t i;
	putchar(tag);
	for (i = 0; i < sz; i++)
		printf("%.2x", ((const unsigned char *)p)[i]);
	putchar('\n');
}

int
main(void)
{
	char *line = NULL, *h;
	size_t cap = 0, i;
	int idx, rc;

	for (i = 0; i < VALID__MAX; i++)
		printf("%s\n", valid_keys[i].name == NULL ? "?" : valid_keys[i].name);
	puts("--");
	while (getline(&line, &cap, stdin) > 0) {
		struct kpair p;
		int (*fn)(struct kpair *);
		size_t n;

		line[strcspn(line, "\n")] = '\0';
		idx = atoi(line + 2);
		h = strchr(line + 2, ' ') + 1;
		n = strlen(h) / 2;
		memset(&p, 0, sizeof(p));
		p.key = strdup(line[0] == 't' ? valid_keys[idx].name : fields[idx].name);
		p.keysz = strlen(p.key);
		p.val = malloc(n + 1);
		for (i = 0; i < n; i++) {
			unsigned int c;
			sscanf(h + 2 * i, "%2x", &c);
			p.val[i] = (char)c;
		}
		p.val[n] = '\0';
		p.valsz = n;
		p.type = KPAIR__MAX;
		fn = line[0] == 't' ? valid_keys[idx].valid : fields[idx].fn;
		rc = fn == NULL ? 1 : fn(&p);
		if (!rc)
			puts("R");
		else if (p.type == KPAIR_INTEGER)
			printf("I%lld\n", (long long)p.parsed.i);
		else if (p.type == KPAIR_DOUBLE)
			printf("D%.17g\n", p.parsed.d);
		else if (p.type == KPAIR_STRING)
			hex('S', p.parsed.s, strlen(p.parsed.s));
		else
			hex('B', p.val, p.valsz);
		free(p.key);
		free(p.val);
	}
	return 0;
}
