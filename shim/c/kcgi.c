#include <ctype.h>
#include <errno.h>
#include <inttypes.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "kcgi.h"
#include "kcgijson.h"
#include "shim.h"

int kvalid_string(struct kpair *p)
{
	if (strlen(p->val) != p->valsz) return 0;
	p->type = KPAIR_STRING; p->parsed.s = p->val; return 1;
}
int kvalid_stringne(struct kpair *p) { return kvalid_string(p) && p->valsz > 0; }
int kvalid_int(struct kpair *p)
{
	char *ep; long long v;
	if (!kvalid_stringne(p)) return 0;
	errno = 0;
	v = strtoll(p->val, &ep, 10);
	if (ep == p->val || *ep != '\0' || errno == ERANGE) return 0;
	p->type = KPAIR_INTEGER; p->parsed.i = v; return 1;
}
int kvalid_uint(struct kpair *p) { return kvalid_int(p) && p->parsed.i >= 0; }
int kvalid_bit(struct kpair *p)
{ return kvalid_uint(p) && p->parsed.i <= 64; }
static int64_t days(int64_t y, int m, int d)
{
	int64_t era, yoe, doy, doe;
	y -= m <= 2; era = (y >= 0 ? y : y - 399) / 400; yoe = y - era * 400;
	doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
	doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	return era * 146097 + doe - 719468;
}
int kvalid_date(struct kpair *p)
{
	static const int md[] = {31,28,31,30,31,30,31,31,30,31,30,31};
	int i, y, m, d, leap, mx;
	if (!kvalid_stringne(p) || p->valsz != 10) return 0;
	for (i = 0; i < 10; i++)
		if (i == 4 || i == 7) { if (p->val[i] != '-') return 0; }
		else if (!isdigit((unsigned char)p->val[i])) return 0;
	y = atoi(p->val); m = atoi(p->val + 5); d = atoi(p->val + 8);
	if (m < 1 || m > 12) return 0;
	leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
	mx = md[m - 1] + (m == 2 && leap);
	if (d < 1 || d > mx) return 0;
	p->type = KPAIR_INTEGER; p->parsed.i = days(y, m, d) * 86400; return 1;
}
int kvalid_double(struct kpair *p)
{
	char *ep; double v;
	if (!kvalid_stringne(p)) return 0;
	errno = 0;
	v = strtod(p->val, &ep);
	if (ep == p->val || *ep != '\0' || errno == ERANGE) return 0;
	p->type = KPAIR_DOUBLE; p->parsed.d = v; return 1;
}
int kvalid_email(struct kpair *p)
{
	char *at, *cp;
	if (!kvalid_stringne(p)) return 0;
	if ((at = strchr(p->val, '@')) == NULL || at == p->val || at[1] == '\0' ||
	    strchr(at + 1, '@') != NULL || strchr(at + 1, '.') == NULL) return 0;
	for (cp = p->val; *cp; cp++) if (isspace((unsigned char)*cp)) return 0;
	p->type = KPAIR_STRING; p->parsed.s = p->val; return 1;
}

void kjson_shim_init(struct kjsonreq *r, FILE *f) { memset(r, 0, sizeof(*r)); r->f = f; r->depth = 0; r->first[0] = 1; }
static void key(struct kjsonreq *r, const char *k);
static void str(struct kjsonreq *r, const char *s)
{
	fputc('"', r->f);
	for (; *s; s++) {
		unsigned char c = (unsigned char)*s;
		if (c == '"' || c == '\\') { fputc('\\', r->f); fputc(c, r->f); }
		else if (c == '/') fputs("\\/", r->f);
		else if (c == '\b') fputs("\\b", r->f); else if (c == '\f') fputs("\\f", r->f);
		else if (c == '\n') fputs("\\n", r->f); else if (c == '\r') fputs("\\r", r->f);
		else if (c == '\t') fputs("\\t", r->f);
		else if (c < 32) fprintf(r->f, "\\u%.4x", c);
		else fputc(c, r->f);
	}
	fputc('"', r->f);
}
static void key(struct kjsonreq *r, const char *k)
{
	if (!r->first[r->depth]) fputc(',', r->f);
	r->first[r->depth] = 0;
	if (k) { str(r, k); fputc(':', r->f); }
}
static void opn(struct kjsonreq *r, const char *k, char o, char c)
{ key(r, k); fputc(o, r->f); r->depth++; r->first[r->depth] = 1; r->close[r->depth] = c; }
static void cls(struct kjsonreq *r) { fputc(r->close[r->depth], r->f); r->depth--; }
enum kcgi_err kjson_obj_open(struct kjsonreq *r) { opn(r, NULL, '{', '}'); return KCGI_OK; }
enum kcgi_err kjson_obj_close(struct kjsonreq *r) { cls(r); return KCGI_OK; }
enum kcgi_err kjson_objp_open(struct kjsonreq *r, const char *k) { opn(r, k, '{', '}'); return KCGI_OK; }
enum kcgi_err kjson_array_open(struct kjsonreq *r) { opn(r, NULL, '[', ']'); return KCGI_OK; }
enum kcgi_err kjson_array_close(struct kjsonreq *r) { cls(r); return KCGI_OK; }
enum kcgi_err kjson_arrayp_open(struct kjsonreq *r, const char *k) { opn(r, k, '[', ']'); return KCGI_OK; }
enum kcgi_err kjson_putdoublep(struct kjsonreq *r, const char *k, double v)
{ key(r, k); fprintf(r->f, "%.17g", v); return KCGI_OK; }
enum kcgi_err kjson_putintp(struct kjsonreq *r, const char *k, int64_t v)
{ key(r, k); fprintf(r->f, "%" PRId64, v); return KCGI_OK; }
enum kcgi_err kjson_putintstrp(struct kjsonreq *r, const char *k, int64_t v)
{ key(r, k); fprintf(r->f, "\"%" PRId64 "\"", v); return KCGI_OK; }
enum kcgi_err kjson_putnullp(struct kjsonreq *r, const char *k)
{ key(r, k); fputs("null", r->f); return KCGI_OK; }
enum kcgi_err kjson_putstringp(struct kjsonreq *r, const char *k, const char *v)
{ if (v == NULL) return kjson_putnullp(r, k); key(r, k); str(r, v); return KCGI_OK; }
enum kcgi_err kjson_putboolp(struct kjsonreq *r, const char *k, int v)
{ key(r, k); fputs(v ? "true" : "false", r->f); return KCGI_OK; }

/* Salted "hash": $2b$shim$<counter>$<hex of a keyed transform>.  The inverse is
 * known to the projection of the trace, so a stored value can be mapped back to
 * the abstract value Hash(clear text). */
int
crypt_newhash(const char *pass, const char *pref, char *hash, size_t sz)
{
	static unsigned ctr;
	size_t i, o;
	if (strcmp(pref, "blowfish,a") && strncmp(pref, "bcrypt", 6) && strncmp(pref, "blowfish", 8)) { errno = EINVAL; return -1; }
	if (strlen(pass) * 2 + 13 > sz) { errno = EINVAL; return -1; }
	o = (size_t)snprintf(hash, sz, "$2b$%.4x$", ctr++ & 0xffff);
	for (i = 0; pass[i]; i++) o += (size_t)snprintf(hash + o, sz - o, "%.2x", (unsigned char)pass[i] ^ 0x5a);
	return 0;
}
int
crypt_checkpass(const char *pass, const char *hash)
{
	size_t i;
	if (strncmp(hash, "$2b$", 4) || strlen(hash) < 9 || strlen(hash) != 9 + 2 * strlen(pass)) { errno = EACCES; return -1; }
	for (i = 0; pass[i]; i++) {
		unsigned v;
		if (sscanf(hash + 9 + 2 * i, "%2x", &v) != 1 || (v ^ 0x5a) != (unsigned char)pass[i]) { errno = EACCES; return -1; }
	}
	return 0;
}
