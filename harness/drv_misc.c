/* Driver for EnvSpec, StrSpec, TextSpec, ViewSpec, BoxSpec; DRV_KIND selects. */
#include "core.h"
#include "cee.h"
#include <ctype.h>
#define SV_IMPLEMENTATION
#include "strview.c"
static struct cee_state *st;
static const char *kind;

/* an exact-size heap copy of an argument: a read past its end is an ASAN error. term: with a terminator */
static char *dup_exact(const char *s, size_t n, int term) { char *p = malloc(n + term ? n + term : 1); memcpy(p, s, n); if (term) p[n] = 0; return p; }
/* text given as runs "c n c n ..." in av[i..ac) */
static char *runs(int ac, char **av, int i, size_t *len) {
  size_t n = 0; for (int j = i; j + 1 < ac; j += 2) n += I(av[j + 1]);
  char *p = malloc(n + 1), *q = p;
  for (int j = i; j + 1 < ac; j += 2) { memset(q, I(av[j]), I(av[j + 1])); q += I(av[j + 1]); }
  *q = 0; if (len) *len = n; return p;
}
static void out_runs(const char *s) {
  out_raw("[");
  for (size_t i = 0; s[i];) { size_t j = i; while (s[j] == s[i] && s[j]) j++; out_raw("%s%d,%zu", i ? "," : "", (unsigned char)s[i], j - i); i = j; }
  out_raw("]");
}
static void out_bytes(const char *s, size_t n) { out_raw("["); for (size_t i = 0; i < n; i++) out_raw("%s%d", i ? "," : "", (unsigned char)s[i]); out_raw("]"); }

/* ---------------- env */
#define MX 64
static struct cee_env *en[MX]; static struct cee_closure *cl[MX]; static int nen, ncl;
static int call_env, call_n, call_args[20];
static int envid(struct cee_env *e) { for (int i = 0; i < nen; i++) if (en[i] == e) return i + 1; return e ? -9 : 0; }
static void *cfun(struct cee_state *s, struct cee_env *e, size_t n, va_list ap) {
  call_env = s == st ? envid(e) : -1; call_n = n;
  for (size_t i = 0; i < n && i < 20; i++) { struct cee_boxed *b = va_arg(ap, struct cee_boxed *); call_args[i] = cee_boxed_to_i32(b); }
  return e ? cee_env_find(e, "x") : NULL;
}
static int val(void *p) { return p ? cee_boxed_to_i32(p) : 0; }
static void env_op(int ac, char **av) {
  const char *o = av[0]; int r = 0; call_env = 0; call_n = 0;
  if (!strcmp(o, "env")) { int outer = I(av[1]);
    struct cee_map *m = I(av[2]) ? cee_map_mk(st, (cee_cmp_fun)strcmp) : NULL;
    struct cee_env *e = cee_env_mk(st, outer ? en[outer - 1] : NULL, m); en[nen++] = e; }
  else if (!strcmp(o, "shared")) { int outer = I(av[1]); struct cee_env *e = cee_env_mk(st, outer ? en[outer - 1] : NULL, en[I(av[2]) - 1]->vars); en[nen++] = e; }
  else if (!strcmp(o, "bind")) { void *old = cee_map_add(en[I(av[1]) - 1]->vars, cee_str_mk(st, "%s", av[2]), cee_boxed_from_i32(st, I(av[3]))); (void)old; }
  else if (!strcmp(o, "unbind")) cee_map_remove(en[I(av[1]) - 1]->vars, av[2]);
  else if (!strcmp(o, "clo")) cl[ncl++] = cee_closure_mk(st, I(av[1]) ? en[I(av[1]) - 1] : NULL, (void *)cfun);
  else if (!strcmp(o, "call")) {
    struct cee_closure *c = cl[I(av[1]) - 1]; void *a[8]; int n = ac - 2;
    for (int i = 0; i < n; i++) a[i] = cee_boxed_from_i32(st, I(av[i + 2]));
    void *q = NULL;
    switch (n) { case 0: q = cee_closure_call(st, c, 0); break; case 1: q = cee_closure_call(st, c, 1, a[0]); break;
      case 2: q = cee_closure_call(st, c, 2, a[0], a[1]); break; case 3: q = cee_closure_call(st, c, 3, a[0], a[1], a[2]); break;
      default: q = cee_closure_call(st, c, 6, a[0], a[1], a[2], a[3], a[4], a[5]); }
    r = val(q);
  } else bad_op(o);
  out_raw("{\"r\":[%d,%d", r, call_env);
  for (int i = 0; i < call_n; i++) out_raw(",%d", call_args[i]);
  out_raw("],\"o\":[");
  for (int i = 0; i < nen; i++) out_raw("%s[%d,%d,%d,%d]", i ? "," : "", val(cee_env_find(en[i], "x")), val(cee_env_find(en[i], "y")), val(cee_env_find(en[i], "zz")), envid(en[i]->outer));
  out_raw("]}");
}

/* ---------------- str */
static struct cee_str *sh[MX]; static int meth[MX]; static int nsh;
static struct { char *p, *snap; } olds[4096]; static int nolds;
static struct cee_str *mkv(const char *fmt, ...) { va_list ap; va_start(ap, fmt); struct cee_str *s = cee_str_mkv(st, fmt, ap); va_end(ap); return s; }
static void str_op(int ac, char **av) {
  const char *o = av[0]; int h, ok = 1; char *t = NULL; size_t n;
  if (!strcmp(o, "mk")) {          /* mk how meth size runs... */
    t = runs(ac, av, 4, &n); const char *w = av[1]; struct cee_str *s = NULL;
    if (!strcmp(w, "fmt")) s = cee_str_mk(st, "%s", t);
    else if (!strcmp(w, "lit")) s = cee_str_mk(st, t);
    else if (!strcmp(w, "vfmt")) s = mkv("%s", t);
    else if (!strcmp(w, "strn")) { char *e = dup_exact(t, n, 0); s = cee_str_strn(st, e, n); free(e); }
    else if (!strcmp(w, "sized")) s = cee_str_mk_e(st, I(av[3]), "%s", t);
    else if (!strcmp(w, "null")) s = cee_str_mk_e(st, I(av[3]), NULL);
    else if (!strcmp(w, "num")) s = cee_str_mk(st, "%d", I(av[3]));
    else if (!strcmp(w, "mix")) s = cee_str_mk(st, "<%s|%d|%c>", t, I(av[3]), 'z');
    else bad_op(w);
    h = nsh++; sh[h] = s; meth[h] = I(av[2]);
    if (meth[h]) cee_use_realloc(s); else cee_use_malloc(s);
  } else {
    h = I(av[1]) - 1;
    char *old = (char *)sh[h], *snap = strdup(old); struct cee_str *s = sh[h];
    if (!strcmp(o, "add")) s = cee_str_add(s, I(av[2]));
    else if (!strcmp(o, "cat")) { t = runs(ac, av, 2, &n); s = cee_str_catf(s, "%s", t); }
    else if (!strcmp(o, "catmix")) { t = runs(ac, av, 3, &n); s = cee_str_catf(s, "%d%s%c", I(av[2]), t, 'q'); }
    else if (!strcmp(o, "catnull")) s = cee_str_catf(s, NULL);
    else if (!strcmp(o, "rep")) { t = runs(ac, av, 2, &n); s = cee_str_replace(s, "%s", t); }
    else if (!strcmp(o, "repmix")) { t = runs(ac, av, 3, &n); s = cee_str_replace(s, "%d%s%c", I(av[2]), t, 'q'); }
    else if (!strcmp(o, "repnull")) s = cee_str_replace(s, NULL);
    else if (!strcmp(o, "rtrim")) cee_str_rtrim(s);
    else if (!strcmp(o, "ltrim")) cee_str_ltrim(s);
    else if (!strcmp(o, "meth")) { meth[h] = I(av[2]); if (meth[h]) cee_use_realloc(s); else cee_use_malloc(s); }
    else bad_op(o);
    if ((char *)s != old && !meth[h] && nolds < 4096) { olds[nolds].p = old; olds[nolds++].snap = snap; } else free(snap);
    sh[h] = s;
  }
  free(t);
  for (int i = 0; i < nolds; i++) if (!alive(olds[i].p) || strcmp(olds[i].p, olds[i].snap)) ok = 0;
  out_raw("{\"r\":%d,\"o\":[", ok);
  for (int i = 0; i < nsh; i++) { out_raw(i ? ",[%ld," : "[%ld,", (long)(cee_str_end(sh[i]) - (char *)sh[i])); out_runs((char *)sh[i]); out_raw("]"); }
  out_raw("]}");
}

/* ---------------- pure text functions */
static void text_op(int ac, char **av) {
  const char *o = av[0]; char *a[40]; 
  for (int i = 1; i < ac && i < 40; i++) a[i] = dup_exact(av[i], arg_len[i], 1);
  out_raw("{\"r\":");
  if (!strcmp(o, "rtrim") || !strcmp(o, "ltrim")) {
    struct cee_str *s = cee_str_mk(st, "%s", a[1]);
    if (*o == 'r') cee_str_rtrim(s); else cee_str_ltrim(s);
    out_bytes((char *)s, strlen((char *)s)); out_raw(",\"o\":%ld}", (long)(cee_str_end(s) - (char *)s)); cee_del(s);
  } else if (!strcmp(o, "at")) {          /* at subject offset len new */
    char *r = str_replace_at_offset(a[1], I(av[2]), I(av[3]), a[4]); out_bytes(r, strlen(r)); out_raw(",\"o\":0}"); free(r);
  } else if (!strcmp(o, "all")) { char *r = str_replace_all(a[1], a[2], a[3]); out_bytes(r, strlen(r)); out_raw(",\"o\":0}"); free(r); }
  else if (!strcmp(o, "ext")) {           /* ext subject(counted) term wantsize pairs... */
    char *sub = dup_exact(av[1], arg_len[1], I(av[2])); size_t len = 0; int n = (ac - 4) / 2; char **p = a + 4;
    size_t *lp = I(av[3]) ? &len : NULL; char *r;
    if (n == 0) r = str_replace_all_ext(sub, arg_len[1], lp, 0);
    else if (n == 1) r = str_replace_all_ext(sub, arg_len[1], lp, 1, p[0], p[1]);
    else if (n == 2) r = str_replace_all_ext(sub, arg_len[1], lp, 2, p[0], p[1], p[2], p[3]);
    else if (n == 3) r = str_replace_all_ext(sub, arg_len[1], lp, 3, p[0], p[1], p[2], p[3], p[4], p[5]);
    else r = str_replace_all_ext(sub, arg_len[1], lp, 17, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15], p[16], p[17], p[18], p[19], p[20], p[21], p[22], p[23], p[24], p[25], p[26], p[27], p[28], p[29], p[30], p[31], p[32], p[33]);
    size_t real = strlen(r);
    out_bytes(r, lp ? len : real); out_raw(",\"o\":%d}", lp ? r[len] == 0 : 1); free(r); free(sub);
  } else bad_op(o);
  for (int i = 1; i < ac && i < 40; i++) free(a[i]);
}

/* ---------------- string views */
static bool p_alpha(char c) { return isalpha((unsigned char)c) != 0; }
static bool p_digit(char c) { return c >= '0' && c <= '9'; }
static void ov(String_View v) { out_bytes(v.data, v.count); }
static void view_op(int ac, char **av) {
  const char *o = av[0];
  char *b = dup_exact(av[1], arg_len[1], 0); String_View v = sv_from_parts(b, arg_len[1]), w = v, r = SV_NULL; long n = 0; int k = 0;
  char *b2 = ac > 2 ? dup_exact(av[2], arg_len[2], 0) : NULL; String_View x = ac > 2 ? sv_from_parts(b2, arg_len[2]) : SV_NULL;
  size_t ix = 99;
#define IS(s) (!strcmp(o, s))
  if (IS("trim")) w = sv_trim(v); else if (IS("trim_left")) w = sv_trim_left(v); else if (IS("trim_right")) w = sv_trim_right(v);
  else if (IS("take_alpha")) w = sv_take_left_while(v, p_alpha); else if (IS("take_digit")) w = sv_take_left_while(v, p_digit);
  else if (IS("chop_alpha")) { r = sv_chop_left_while(&w, p_alpha); k = 1; } else if (IS("chop_digit")) { r = sv_chop_left_while(&w, p_digit); k = 1; }
  else if (IS("chop_left")) { r = sv_chop_left(&w, I(av[2])); k = 1; } else if (IS("chop_right")) { r = sv_chop_right(&w, I(av[2])); k = 1; }
  else if (IS("chop_delim")) { r = sv_chop_by_delim(&w, av[2][0]); k = 1; }
  else if (IS("try_chop")) { r = sv_from_cstr("none"); n = sv_try_chop_by_delim(&w, av[2][0], &r); k = n; if (!n && (r.count != 4)) n = 2; }
  else if (IS("try_chop0")) n = sv_try_chop_by_delim(&w, av[2][0], NULL);
  else if (IS("chop_sv")) { r = sv_chop_by_sv(&w, x); k = 1; }
  else if (IS("index")) { n = sv_index_of(v, av[2][0], &ix); if (n) n = 1 + ix; if (sv_index_of(v, av[2][0], NULL) != !!n) n = -1; }
  else if (IS("eq")) n = sv_eq(v, x); else if (IS("eqi")) n = sv_eq_ignorecase(v, x);
  else if (IS("starts")) n = sv_starts_with(v, x); else if (IS("ends")) n = sv_ends_with(v, x);
  else if (IS("u64")) { char t[32]; sprintf(t, "%" PRIu64, sv_to_u64(v)); r = sv_from_parts(strdup(t), strlen(t)); k = 2; }
  else if (IS("chop_u64")) { char t[32]; sprintf(t, "%" PRIu64, sv_chop_u64(&w)); r = sv_from_parts(strdup(t), strlen(t)); k = 2; }
  else if (IS("cstr")) { char *z = dup_exact(av[1], arg_len[1], 1); w = sv_from_cstr(z); out_raw("{\"r\":[0,[]],\"o\":"); ov(w); out_raw("}"); free(z); free(b); free(b2); return; }
  else bad_op(o);
  out_raw("{\"r\":[%ld,", n); if (k) ov(r); else out_raw("[]"); out_raw("],\"o\":");
  if (w.count && (w.data < b || w.data + w.count > b + arg_len[1])) out_raw("\"outside\""); else ov(w);
  out_raw("}");
  if (k == 2) free((char *)r.data);
  free(b); free(b2);
}

/* ---------------- boxed values, blocks, products */
static void *bx[MX]; static int bxk[MX], bxn[MX], nbx; /* kind: 0..9 boxed, 20 block, 30 product, 31 tagged */
static unsigned long bxtag[MX];
static const int width[10] = { 8, 4, 8, 4, 2, 1, 8, 4, 2, 1 };
static void box_out(int i) {
  unsigned char v[8] = {0}; void *p = bx[i];
  if (bxk[i] == 20) { out_raw("[%zu,", cee_block_size(p));
    out_raw("["); for (int j = 0; j < bxn[i];) { int k = j; unsigned char *q = p; while (k < bxn[i] && q[k] == q[j]) k++; out_raw("%s%d,%d", j ? "," : "", q[j], k - j); j = k; } out_raw("]]"); return; }
  if (bxk[i] >= 30) { out_raw("[");
    void **q = bxk[i] == 31 ? (void **)&((struct cee_tagged *)p)->ptr : p; int n = bxk[i] == 31 ? 1 : bxn[i];
    for (int j = 0; j < n; j++) { int f = 0; for (int k = 0; k < nbx; k++) if (bx[k] == q[j]) f = k + 1; out_raw("%s%d", j ? "," : "", q[j] ? (f ? f : -9) : 0); }
    if (bxk[i] == 31) out_raw(",%d", ((struct cee_tagged *)p)->tag == bxtag[i]);
    out_raw("]"); return; }
  switch (bxk[i]) {
    case 0: { double d = cee_boxed_to_double(p); memcpy(v, &d, 8); break; } case 1: { float d = cee_boxed_to_float(p); memcpy(v, &d, 4); break; }
    case 2: { uint64_t d = cee_boxed_to_u64(p); memcpy(v, &d, 8); break; } case 3: { uint32_t d = cee_boxed_to_u32(p); memcpy(v, &d, 4); break; }
    case 4: { uint16_t d = cee_boxed_to_u16(p); memcpy(v, &d, 2); break; } case 5: { uint8_t d = cee_boxed_to_u8(p); memcpy(v, &d, 1); break; }
    case 6: { int64_t d = cee_boxed_to_i64(p); memcpy(v, &d, 8); break; } case 7: { int32_t d = cee_boxed_to_i32(p); memcpy(v, &d, 4); break; }
    case 8: { int16_t d = cee_boxed_to_i16(p); memcpy(v, &d, 2); break; } case 9: { int8_t d = cee_boxed_to_i8(p); memcpy(v, &d, 1); break; }
  }
  out_bytes((char *)v, width[bxk[i]]);
}
static void initf(void *c, void *b) { memset(b, *(int *)c & 255, *(int *)c >> 8); }
static void box_op(int ac, char **av) {
  const char *o = av[0]; int show = 0;
  if (IS("box")) {
    int t = I(av[1]); unsigned char v[8] = {0}; for (int i = 0; i < width[t]; i++) v[i] = av[2][i]; void *p = NULL;
    switch (t) {
      case 0: { double d; memcpy(&d, v, 8); p = cee_boxed_from_double(st, d); break; } case 1: { float d; memcpy(&d, v, 4); p = cee_boxed_from_float(st, d); break; }
      case 2: { uint64_t d; memcpy(&d, v, 8); p = cee_boxed_from_u64(st, d); break; } case 3: { uint32_t d; memcpy(&d, v, 4); p = cee_boxed_from_u32(st, d); break; }
      case 4: { uint16_t d; memcpy(&d, v, 2); p = cee_boxed_from_u16(st, d); break; } case 5: p = cee_boxed_from_u8(st, v[0]); break;
      case 6: { int64_t d; memcpy(&d, v, 8); p = cee_boxed_from_i64(st, d); break; } case 7: { int32_t d; memcpy(&d, v, 4); p = cee_boxed_from_i32(st, d); break; }
      case 8: { int16_t d; memcpy(&d, v, 2); p = cee_boxed_from_i16(st, d); break; } case 9: p = cee_boxed_from_i8(st, v[0]); break;
    }
    bx[nbx] = p; bxk[nbx] = t; nbx++;
  } else if (IS("print")) {        /* print i size */
    int n = I(av[2]); char *buf = malloc(n ? n : 1); size_t r = cee_boxed_snprint(n ? buf : NULL, n, bx[I(av[1]) - 1]);
    out_raw("{\"r\":[%zu,", r); if (n) out_bytes(buf, strnlen(buf, n)); else out_raw("[]"); out_raw("],\"o\":[]}"); free(buf); return;
  } else if (IS("block")) {        /* block how n c */
    int n = I(av[2]), c = I(av[3]), x = n << 8 | c; void *p;
    if (!strcmp(av[1], "zero")) p = cee_block_mk(st, n); else if (!strcmp(av[1], "raw")) { p = cee_block_mk_nonzero(st, n); memset(p, c, n); }
    else p = cee_block_mk_e(st, n, &x, initf);
    bx[nbx] = p; bxk[nbx] = 20; bxn[nbx] = n; nbx++;
  } else if (IS("poke")) { char *p = bx[I(av[1]) - 1]; p[I(av[2])] = I(av[3]); }
  else if (IS("prod")) {           /* prod n x... */
    int n = I(av[1]); void *x[16]; for (int i = 0; i < 16; i++) x[i] = i < n ? bx[I(av[2 + i]) - 1] : NULL; void *p;
    if (n == 2) p = cee_tuple_mk(st, x[0], x[1]); else if (n == 3) p = cee_triple_mk(st, x[0], x[1], x[2]);
    else if (n == 4) { enum cee_del_policy d[4] = {0, 0, 0, 0}; p = cee_quadruple_mk_e(st, d, x[0], x[1], x[2], x[3]); }
    else p = cee_n_tuple_mk(st, n, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15]);
    bx[nbx] = p; bxk[nbx] = 30; bxn[nbx] = n; nbx++;
  } else if (IS("ntup")) {         /* like prod, always through cee_n_tuple_mk */
    int n = I(av[1]); void *x[16]; for (int i = 0; i < 16; i++) x[i] = i < n ? bx[I(av[2 + i]) - 1] : NULL;
    bx[nbx] = cee_n_tuple_mk(st, n, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15]);
    bxk[nbx] = 30; bxn[nbx] = n; nbx++;
  } else if (IS("tag")) { bxtag[nbx] = strtoul(av[1], NULL, 10); bx[nbx] = cee_tagged_mk(st, bxtag[nbx], I(av[2]) ? bx[I(av[2]) - 1] : NULL); bxk[nbx] = 31; nbx++; }
  else bad_op(o);
  out_raw("{\"r\":[0,[]],\"o\":["); for (int i = 0; i < nbx; i++) { if (i) out_raw(","); box_out(i); } out_raw("]}");
}

void drv_case_begin(void) {
  kind = getenv("DRV_KIND"); if (!kind) kind = "";
  st = cee_state_mk(10); nen = ncl = nsh = nbx = 0; nolds = 0;
}
void drv_case_end(void) { cee_del(st); for (int i = 0; i < nolds; i++) free(olds[i].snap); }
void drv_op(int ac, char **av) {
  if (!strcmp(kind, "env")) env_op(ac, av); else if (!strcmp(kind, "str")) str_op(ac, av); else if (!strcmp(kind, "text")) text_op(ac, av);
  else if (!strcmp(kind, "view")) view_op(ac, av); else if (!strcmp(kind, "box")) box_op(ac, av); else bad_op(kind);
}
