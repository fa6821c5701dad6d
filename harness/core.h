/* Common part of the conformance drivers: script reader, JSON output, watchdog, leak balance. */
#ifndef DRV_CORE_H
#define DRV_CORE_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <inttypes.h>

/* provided by each driver */
void drv_case_begin(void);
void drv_case_end(void);          /* must release everything the case allocated */
void drv_op(int argc, char **argv); /* argv[0] = op name; string args already decoded; lengths in arg_len */

extern size_t arg_len[];          /* decoded length of each argument (arguments may contain NUL) */

/* output of the current op: a JSON object under construction */
void out_raw(const char *fmt, ...);
void out_str(const char *s, size_t n);   /* JSON string, bytes >= 0x80 and controls as \u00XX (latin-1 view of the bytes) */
void out_cstr(const char *s);
size_t out_mark(void);                   /* position in the output, for out_insert */
void out_insert(size_t at, const char *s);
/* helpers: {"r":..., "o":...} are assembled by the driver with out_raw */

int  alive(const void *p);        /* 1 if the first byte of p is addressable heap memory */
long allocated_bytes(void);
int  I(const char *s);            /* integer argument */
void bad_op(const char *op);
#endif
