#ifndef KCGIJSON_H
#define KCGIJSON_H
#include <stdint.h>
#include <stdio.h>
struct kjsonreq { FILE *f; int depth; int first[64]; char close[64]; };
enum kcgi_err kjson_obj_open(struct kjsonreq *);
enum kcgi_err kjson_obj_close(struct kjsonreq *);
enum kcgi_err kjson_objp_open(struct kjsonreq *, const char *);
enum kcgi_err kjson_array_open(struct kjsonreq *);
enum kcgi_err kjson_array_close(struct kjsonreq *);
enum kcgi_err kjson_arrayp_open(struct kjsonreq *, const char *);
enum kcgi_err kjson_putdoublep(struct kjsonreq *, const char *, double);
enum kcgi_err kjson_putintp(struct kjsonreq *, const char *, int64_t);
enum kcgi_err kjson_putintstrp(struct kjsonreq *, const char *, int64_t);
enum kcgi_err kjson_putnullp(struct kjsonreq *, const char *);
enum kcgi_err kjson_putstringp(struct kjsonreq *, const char *, const char *);
enum kcgi_err kjson_putboolp(struct kjsonreq *, const char *, int);
void kjson_shim_init(struct kjsonreq *, FILE *);
#endif
