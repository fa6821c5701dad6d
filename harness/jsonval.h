/* JSON values: dumping one through every accessor, building one from its notation. Needs core.h, cee.h and cee-json.h. */
#ifndef JSONVAL_H
#define JSONVAL_H
static struct cee_state *st;
typedef struct cee_json *J;
static void die(const char *m) { fprintf(stderr, "ERROR: AddressSanitizer: driver: %s\n", m); fflush(stderr); abort(); }
static void out_bytes(const char *s, size_t n) { out_raw("["); for (size_t i = 0; i < n; i++) out_raw(i ? ",%d" : "%d", (unsigned char)s[i]); out_raw("]"); }
/* an exact copy: reads beyond (or before) it are ASAN errors, also when it is empty */
static char *exact_base;
static char *exact(const char *s, size_t n) { exact_base = malloc(n ? n : 1); memcpy(exact_base, s, n); return n ? exact_base : exact_base + 1; }
static char *dupz(const char *s, size_t n) { char *p = malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }

/* ---- dumping a value through every accessor */
struct seen { struct cee_str *k[4096]; J v[4096]; int n; };
static int see_kv(void *c, struct cee_str *k, J v) { struct seen *s = c; if (s->n < 4096) { s->k[s->n] = k; s->v[s->n++] = v; } return 0; }
static int see_el(void *c, J v, int i) { struct seen *s = c; if (i != s->n) return 77; if (s->n < 4096) s->v[s->n++] = v; return 0; }
static int stop_el(void *c, J v, int i) { int *n = c; return (*n)-- == 0 ? 40 + i : 0; }
static int stop_kv(void *c, struct cee_str *k, J v) { int *n = c; return (*n)-- == 0 ? 41 : 0; }
/* the kind, after checking that exactly the right accessors succeed */
static const char *kind_of(J j) {
  int64_t i; uint64_t u; double d; bool b; int x; char *sp; size_t sl;
  if (!j) return "NULL";
  int got = (!cee_json_to_i64x(j, &i)) | (!cee_json_to_intx(j, &x)) << 1 | (!cee_json_to_u64x(j, &u)) << 2 | (!cee_json_to_doublex(j, &d)) << 3 |
            (!cee_json_to_boolx(j, &b)) << 4 | (cee_json_to_array(j) != NULL) << 5 | (cee_json_to_object(j) != NULL) << 6 | (cee_json_to_str(j) != NULL) << 7 |
            (cee_json_to_blob(j) != NULL) << 8 | (cee_json_to_strn(j, &sp, &sl)) << 9 | (cee_json_to_boxed(j) != NULL) << 10;
  int want; const char *k;
  switch (j->t) {
    case CEE_JSON_UNDEFINED: k = "x"; want = 0; if (j != cee_json_undefined()) return "?undefined"; break;
    case CEE_JSON_NULL: k = "z"; want = 0; if (j != cee_json_null()) return "?null"; break;
    case CEE_JSON_BOOLEAN: k = b ? "t" : "f"; want = 16; if (j != cee_json_bool(b)) return "?bool"; break;
    case CEE_JSON_DOUBLE: k = "d"; want = 8 | 1024; break;
    case CEE_JSON_I64: k = "i"; want = 1 | ((int)i == i ? 2 : 0) | 1024; break;
    case CEE_JSON_U64: k = "u"; want = 4 | 1024; break;
    case CEE_JSON_STRING: k = "s"; want = 128; break;
    case CEE_JSON_BLOB: k = "b"; want = 256; break;
    case CEE_JSON_OBJECT: k = "o"; want = 64; break;
    case CEE_JSON_ARRAY: k = "a"; want = 32; break;
    case CEE_JSON_STRN: k = "n8"; want = 512; break;
    default: return "?kind";
  }
  if ((want & 2) && x != i) return "?int";
  return got == want ? k : "?accessors";
}
static void dump_scalar(J j, const char *k) {
  int64_t i; uint64_t u; double d; char t[40]; char *sp; size_t sl;
  if (*k == 'i') { cee_json_to_i64x(j, &i); out_raw("[\"i\","); out_bytes(t, sprintf(t, "%" PRId64, i)); out_raw("]"); }
  else if (*k == 'u') { cee_json_to_u64x(j, &u); out_raw("[\"u\","); out_bytes(t, sprintf(t, "%" PRIu64, u)); out_raw("]"); }
  else if (*k == 'd') { cee_json_to_doublex(j, &d); out_raw("[\"d\","); out_bytes((char *)&d, 8); out_raw("]"); }
  else if (*k == 's') { char *s = (char *)cee_json_to_str(j); out_raw("[\"s\","); out_bytes(s, strlen(s)); out_raw("]"); }
  else if (*k == 'n') { cee_json_to_strn(j, &sp, &sl); out_raw("[\"n8\","); out_bytes(sp, sl); out_raw("]"); }
  else if (*k == 'b') { struct cee_block *b = cee_json_to_blob(j); out_raw("[\"b\","); out_bytes((char *)b, cee_block_size(b)); out_raw("]"); }
  else out_raw("[\"%s\"]", k);
}
/* members in insertion order and elements, cross-checked; 0 if something disagrees */
static struct seen *contents(J j) {
  struct seen *s = malloc(sizeof *s); s->n = 0; int ok = 1, n;
  if (cee_json_to_object(j)) {
    struct cee_map *m = cee_json_to_object(j);
    struct cee_list *l = cee_map_insertion_ordered_keys(m); n = cee_list_size(l);
    struct seen *it = malloc(sizeof *it); it->n = 0;
    ok = cee_json_object_iterate(j, it, see_kv) == 0 && it->n == n && cee_map_size(m) == n && cee_json_empty(j) == (n == 0);
    for (int i = 0; i < n && i < 4096; i++) {
      s->k[i] = l->a[i]; s->v[i] = cee_json_object_get(j, (char *)l->a[i]); s->n++;
      int hits = 0; for (int q = 0; q < it->n; q++) hits += it->k[q] == s->k[i] && it->v[q] == s->v[i];
      if (hits != 1 || !s->v[i]) ok = 0;
    }
    for (int q = 0; q <= n && q < 3; q++) { int c = q; if (cee_json_object_iterate(j, &c, stop_kv) != (q < n ? 41 : 0)) ok = 0; }
    free(it); cee_del(l);
  } else {
    n = cee_json_array_length(j);
    ok = cee_json_array_iterate(j, s, see_el) == 0 && s->n == n && cee_json_empty(j) == (n == 0) && !cee_json_array_get(j, -1) && !cee_json_array_get(j, n);
    for (int i = 0; i < n && i < s->n; i++) if (cee_json_array_get(j, i) != s->v[i]) ok = 0;
    for (int q = 0; q <= n && q < 3; q++) { int c = q; if (cee_json_array_iterate(j, &c, stop_el) != (q < n ? 40 + q : 0)) ok = 0; }
  }
  if (!ok) { free(s); return NULL; }
  return s;
}
static void dump(J j) {
  const char *k = kind_of(j);
  if (*k != 'o' && *k != 'a') { if (j && j->t < CEE_JSON_OBJECT && cee_json_empty(j)) k = "?empty"; dump_scalar(j, k); return; }
  struct seen *s = contents(j);
  if (!s) { out_raw("[\"?contents\"]"); return; }
  out_raw("[\"%s\",[", k);
  for (int i = 0; i < s->n; i++) {
    if (i) out_raw(",");
    if (*k == 'o') { out_raw("["); out_bytes((char *)s->k[i], strlen((char *)s->k[i])); out_raw(","); dump(s->v[i]); out_raw("]"); }
    else dump(s->v[i]);
  }
  out_raw("]]"); free(s);
}

/* ---- building a value from its notation ["a",[["i",[49]],...]] through the constructors */
static char *bp; static int built;
static void eat(char c) { while (*bp == ' ') bp++; if (*bp != c) { fprintf(stderr, "DRIVER: notation at %.30s\n", bp); _exit(95); } bp++; }
static int peek(void) { while (*bp == ' ') bp++; return *bp; }
static char *tmps[100000]; static int ntmp;
static char *bytes_(size_t *n) {
  size_t cap = 16, k = 0; char *p = malloc(cap);
  if (peek() == '"') { bp++; *n = 0; while (*bp != '"') bp++; bp++; return p; }
  eat('[');
  while (peek() != ']') { if (k + 2 > cap) p = realloc(p, cap *= 2); p[k++] = strtol(bp, &bp, 10); if (peek() == ',') bp++; }
  bp++; p[k] = 0; *n = k; return p;
}
static J build(void) {
  char k[8]; int n = 0; size_t len; char *t; J j; built++;
  eat('['); eat('"'); while (*bp != '"') { if (n < 7) k[n++] = *bp; bp++; } bp++; k[n] = 0;
  if (!strcmp(k, "z")) j = cee_json_null();
  else if (!strcmp(k, "t")) j = built & 1 ? cee_json_true() : cee_json_bool(true);
  else if (!strcmp(k, "f")) j = built & 1 ? cee_json_false() : cee_json_bool(false);
  else if (!strcmp(k, "x")) j = cee_json_undefined();
  else if (!strcmp(k, "a")) {
    eat(','); eat('['); struct cee_list *l = NULL;
    if (built % 3 == 0) { l = cee_list_mk(st, built % 7); j = cee_list_to_json(l); } else j = cee_json_array_mk(st, built % 5);
    while (peek() != ']') { J e = build(); cee_json_array_append(j, e); if (peek() == ',') bp++; }
    bp++;
  } else if (!strcmp(k, "o")) {
    eat(','); eat('[');
    if (built % 3 == 0) j = cee_map_to_json(cee_map_mk(st, (cee_cmp_fun)strcmp)); else j = cee_json_object_mk(st);
    int first = 1;
    while (peek() != ']') {
      eat('['); char *key = bytes_(&len); eat(','); J e = build(); eat(']');
      if (first && built % 4 == 0) j = cee_json_object_kv(st, key, e); else cee_json_object_set(j, key, e);
      first = 0; free(key); if (peek() == ',') bp++;
    }
    bp++;
  } else {
    eat(','); t = bytes_(&len); t = realloc(t, len + 1); t[len] = 0;
    if (!strcmp(k, "i")) j = cee_json_i64_mk(st, strtoll(t, NULL, 10));
    else if (!strcmp(k, "u")) j = cee_json_u64_mk(st, strtoull(t, NULL, 10));
    else if (!strcmp(k, "d")) { double d; memcpy(&d, t, 8); j = cee_json_double_mk(st, d); }
    else if (!strcmp(k, "s")) j = built & 1 ? cee_json_str_mk(st, cee_str_mk(st, "%s", t)) : cee_json_str_mkf(st, "%s", t);
    else if (!strcmp(k, "n8")) { t = realloc(t, len ? len : 1); tmps[ntmp++] = t; j = cee_json_strn_mk(st, t, len); t = NULL; }
    else if (!strcmp(k, "b")) j = cee_json_blob_mk(st, t, len);
    else { fprintf(stderr, "DRIVER: kind %s\n", k); _exit(95); }
    free(t);
  }
  eat(']'); return j;
}
static J value(char *s) { bp = s; built = 0; return build(); }

#endif
