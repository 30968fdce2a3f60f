/* Read objects from JSON with generated code, and write and read them, as the lines of standard
 * input say.  What is generated for the configuration includes this after db.c. */
#include <ctype.h>
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

void kjson_shim_init(struct kjsonreq *, FILE *);

static FILE *O;
static char *cur;		/* rest of the line */

static char *word(void)
{
	char *w;
	while (*cur == ' ') cur++;
	w = cur;
	while (*cur != '\0' && *cur != ' ') cur++;
	if (*cur != '\0') *cur++ = '\0';
	return w;
}
static size_t unhex(const char *s, char **out)
{
	size_t n = strlen(s) / 2, i; unsigned v;
	*out = malloc(n == 0 ? 1 : n);
	for (i = 0; i < n; i++) { sscanf(s + 2 * i, "%2x", &v); (*out)[i] = (char)v; }
	return n;
}
static void p_i(int64_t v) { fprintf(O, "\"i%" PRId64 "\"", v); }
static void p_r(double v) { fprintf(O, "\"r%a\"", v); }
static void p_n(void) { fputs("\"n\"", O); }
static void p_b(int c, const void *v, size_t sz)
{
	size_t i;
	if (v == NULL) { fputs("\"x\"", O); return; }
	fprintf(O, "\"%c", c);
	for (i = 0; i < sz; i++) fprintf(O, "%.2x", ((const unsigned char *)v)[i]);
	fputc('"', O);
}
static void p_t(const char *v) { if (v == NULL) fputs("\"x\"", O); else p_b('t', v, strlen(v)); }

struct strct {
	size_t sz;
	int (*one)(void *, const char *, const jsmntok_t *, size_t);
	int (*all)(void **, size_t *, const char *, const jsmntok_t *, size_t);
	void (*clear)(void *);
	void (*free_array)(void *, size_t);
	void (*print)(const void *);
	void (*fill)(void *);
	void (*data)(struct kjsonreq *, const void *);
};

/* All of the tokens of a buffer and no more, or a negative number. */
static int
tokens(const char *buf, size_t n, jsmntok_t **t)
{
	jsmn_parser p;
	int k, m;

	*t = NULL;
	jsmn_init(&p);
	if ((k = jsmn_parse(&p, buf, n, NULL, 0)) < 0)
		return k;
	*t = malloc(k == 0 ? 1 : k * sizeof(jsmntok_t));
	jsmn_init(&p);
	m = jsmn_parse(&p, buf, n, *t, k);
	if (m >= 0 && m != k) {
		fprintf(O, "{\"bad\":\"%d tokens counted, %d parsed\"}\n", k, m);
		exit(97);
	}
	return m;
}

static void
import(const struct strct *s, const char *buf, size_t n, int off)
{
	jsmntok_t *t;
	int rc, k = tokens(buf, n, &t);
	void *p;

	if (k < off + 1) {
		fprintf(O, "{\"tok\":%d}\n", k);
		free(t);
		return;
	}
	p = calloc(1, s->sz);
	rc = s->one(p, buf, t + off, k - off);
	fprintf(O, "{\"rc\":%d", rc);
	if (rc > 0) { fputs(",\"o\":", O); s->print(p); }
	fputs("}\n", O);
	s->clear(p);
	s->clear(NULL);
	free(p);
	free(t);
}

static void
import_all(const struct strct *s, const char *buf, size_t n)
{
	jsmntok_t *t;
	int rc, k = tokens(buf, n, &t);
	void *p = NULL;
	size_t sz = 0, i;

	if (k < 1) {
		fprintf(O, "{\"tok\":%d}\n", k);
		free(t);
		return;
	}
	rc = s->all(&p, &sz, buf, t, k);
	fprintf(O, "{\"rc\":%d", rc);
	if (rc > 0) {
		fputs(",\"o\":[", O);
		for (i = 0; i < sz; i++) { if (i) fputc(',', O); s->print((char *)p + i * s->sz); }
		fputc(']', O);
	}
	fputs("}\n", O);
	s->free_array(p, sz);
	s->free_array(NULL, 0);
	free(t);
}

static void
trip(const struct strct *s)
{
	struct kjsonreq r;
	void *p = calloc(1, s->sz);
	char *b, *c; size_t n, i;
	FILE *f;

	s->fill(p);
	f = open_memstream(&b, &n);
	kjson_shim_init(&r, f);
	kjson_obj_open(&r);
	s->data(&r, p);
	kjson_obj_close(&r);
	fclose(f);
	fputs("{\"json\":\"", O);
	for (i = 0; i < n; i++) fprintf(O, "%.2x", (unsigned char)b[i]);
	fputs("\"}\n", O);
	c = malloc(n); memcpy(c, b, n); free(b);
	import(s, c, n, 0);
	free(c); free(p);
}

/* Documents that are not JSON, through everything; with too few tokens, too. */
static void
mangle(const struct strct *s, size_t ns, const char *buf, size_t n)
{
	jsmntok_t *t;
	size_t i, sz;
	int k = tokens(buf, n, &t), j, rc;
	void *p;
	jsmn_parser jp;

	for (i = 0; k > 0 && i < ns; i++)
		for (j = 0; j < k; j++) {
			p = calloc(1, s[i].sz);
			rc = s[i].one(p, buf, t + j, k - j);
			if (rc < 0 || rc > k - j) { fprintf(O, "{\"bad\":\"%d of %d tokens\"}\n", rc, k - j); exit(97); }
			s[i].clear(p);
			free(p);
			p = NULL; sz = 0;
			rc = s[i].all(&p, &sz, buf, t + j, k - j);
			if (rc < 0 || rc > k - j) { fprintf(O, "{\"bad\":\"%d of %d tokens\"}\n", rc, k - j); exit(97); }
			s[i].free_array(p, sz);
		}
	free(t);
	for (j = 0; j < k && j < 12; j++) {
		t = malloc(j == 0 ? 1 : j * sizeof(jsmntok_t));
		jsmn_init(&jp);
		jsmn_parse(&jp, buf, n, t, j);
		free(t);
	}
	fprintf(O, "{\"tok\":%d}\n", k);
}

static int
run(const struct strct *s, size_t ns)
{
	char *line = NULL, *b, *cmd; size_t cap = 0, n; int i, off;

	O = stdout;
	setvbuf(stdout, NULL, _IOLBF, 0);
	while (getline(&line, &cap, stdin) > 0) {
		line[strcspn(line, "\n")] = '\0';
		cur = line;
		cmd = word();
		i = atoi(word());
		switch (*cmd) {
		case 'I':
			off = atoi(word());
			n = unhex(word(), &b);
			import(&s[i], b, n, off);
			free(b);
			break;
		case 'A':
			n = unhex(word(), &b);
			import_all(&s[i], b, n);
			free(b);
			break;
		case 'X':
			trip(&s[i]);
			break;
		default:
			n = unhex(word(), &b);
			mangle(s, ns, b, n);
			free(b);
		}
	}
	return 0;
}
