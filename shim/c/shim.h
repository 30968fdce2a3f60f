#ifndef SHIM_H
#define SHIM_H
#include <stddef.h>
int crypt_newhash(const char *, const char *, char *, size_t);
int crypt_checkpass(const char *, const char *);
#endif
