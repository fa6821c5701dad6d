/* Driver for JsonParse, JsonPrint, JsonHeap, JsonSelect, JsonFile; every op name is unique, DRV_KIND is not needed. */
#include "core.h"
#include "cee.h"
#include "cee-json.h"
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <signal.h>

extern size_t cee_json_escape_string(const char *s, size_t s_size, char *dest, size_t dest_size, char **next_dest_p, size_t *next_dest_size);

#include "jsonval.h"

/* ---- the file system as it may be: reads and writes in small pieces (chunk), no room after so many bytes (a real limit: the kernel refuses) */
static int flt_on, flt_chunk;
ssize_t write(int fd, const void *p, size_t n) { if (flt_on && flt_chunk && n > (size_t)flt_chunk) n = flt_chunk; return syscall(SYS_write, fd, p, n); }
ssize_t read(int fd, void *p, size_t n) { if (flt_on && flt_chunk && n > (size_t)flt_chunk) n = flt_chunk; return syscall(SYS_read, fd, p, n); }
static struct rlimit flt_was; static int flt_lim;
static void arm(int chunk, long after) {
  flt_on = 1; flt_chunk = chunk;
  if (after >= 0) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &flt_was); struct rlimit l = flt_was; l.rlim_cur = after; if (setrlimit(RLIMIT_FSIZE, &l)) _exit(94); flt_lim = 1; }
}
static void disarm(void) { flt_on = 0; if (flt_lim) setrlimit(RLIMIT_FSIZE, &flt_was); flt_lim = 0; }

/* ---- parsing */
static J docs[4096]; static int ndocs;
static void out_docs(void) { out_raw("["); for (int i = 0; i < ndocs; i++) { if (i) out_raw(","); dump(docs[i]); } out_raw("]"); }
static struct cee_state *state_of(J j) {
  if (cee_json_to_object(j)) return cee_get_state(cee_json_to_object(j));
  if (cee_json_to_array(j)) return cee_get_state(cee_json_to_array(j));
  if (cee_json_to_str(j)) return cee_get_state(cee_json_to_str(j));
  if (cee_json_to_boxed(j)) return cee_get_state(cee_json_to_boxed(j));
  return NULL;
}
static void dump_flat(J j, const char *comma) {
  const char *k = kind_of(j);
  out_raw("%s", comma);
  if (*k != 'o' && *k != 'a') { dump_scalar(j, k); return; }
  struct seen *s = contents(j);
  if (!s) { out_raw("[\"?contents\"]"); return; }
  out_raw("[\"%s\",%d]", k, s->n);
  for (int i = 0; i < s->n; i++) {
    if (*k == 'o') { out_raw(",[\"k\","); out_bytes((char *)s->k[i], strlen((char *)s->k[i])); out_raw("]"); }
    dump_flat(s->v[i], ",");
  }
  free(s);
}
static void parse_op(int ac, char **av) {
  int force = I(av[1]), deep = av[0][0] == 'd'; size_t n = arg_len[2], nc = deep ? 0 : arg_len[3];
  char *b = exact(av[2], n + 0);
  char *full = NULL;
  if (nc) { free(exact_base); exact_base = full = malloc(n + nc); memcpy(full, av[2], n); memcpy(full + n, av[3], nc); b = full; }
  char *snap = dupz(b, nc ? n + nc : n);
  J out = (J)0x1; int line = -7;
  int rc = cee_json_parsex(st, b, n, &out, force, &line);
  if (memcmp(b, snap, nc ? n + nc : n)) die("the text was changed");
  /* the text may go away: the values own what they need */
  memset(b, 'Z', nc ? n + nc : n); free(exact_base); free(snap);
  if (rc == 0) {
    if (!out || out == (J)0x1) die("no value after a successful parse");
    if (ndocs < 4096 && !deep) docs[ndocs++] = out;
    out_raw("{\"r\":[0");
    if (line != -7) out_raw(",\"line\"");
  } else { out_raw("{\"r\":[1,%d", line); if (out) out_raw(",\"value\""); }
  out_raw("],\"o\":");
  if (!deep) out_docs(); else { out_raw("["); if (rc == 0) dump_flat(out, ""); out_raw("]"); }
  out_raw("}");
}
static void lbuf_op(int ac, char **av) {
  char *b = exact(av[1], arg_len[1]);
  J j = cee_json_load_from_buffer(b, arg_len[1]);
  memset(b, 'Z', arg_len[1]); free(exact_base);
  out_raw("{\"r\":["); if (j) dump(j); out_raw("],\"o\":"); out_docs(); out_raw("}");
  if (j && state_of(j)) cee_del(state_of(j));
}

/* ---- printing */
static J deep_value(int n, int s) {   /* innermost first, as it is built */
  J j = cee_json_true();
  for (int d = 1; d <= n; d++) {
    J c;
    if (s == 0 || (s == 2 && d % 2 == 0)) { c = cee_json_array_mk(st, 1); cee_json_array_append(c, j); }
    else { c = cee_json_object_mk(st); cee_json_object_set(c, "a", j); }
    j = c;
  }
  return j;
}
static void print_op(int ac, char **av) {   /* print fmt value sizes...; pdeep fmt depth shape sizes... */
  int deep = av[0][1] == 'd', f = I(av[1]); J j = deep ? deep_value(I(av[2]), I(av[3])) : value(av[2]); char *p = NULL, *p2 = NULL; size_t sz = 0; ssize_t m, r;
  m = cee_json_snprint(st, NULL, 0, j, f);
  r = cee_json_asprint(st, &p, &sz, j, f);
  size_t len = strlen(p);
  ssize_t r2 = cee_json_asprint(st, &p2, NULL, j, f);
  out_raw("{\"r\":["); out_bytes(p, len);
  out_raw(",[%zd,%zd,%zu,%zd,%d,%d]", m, r, sz, r2, !strcmp(p, p2), cee_block_size((struct cee_block *)p) > len);
  out_raw(",[");
  for (int i = deep ? 4 : 3, c = 0; i < ac; i++) {
    long want = I(av[i]); size_t n = want >= 0 ? (size_t)want : (long)len + 2 + want > 0 ? len + 2 + want : 0;    /* -1: len + 1, -2: len, ... */
    char *b = malloc(n ? n : 1); if (n) memset(b, 0x55, n); char *at = n ? b : b + 1;
    ssize_t q = cee_json_snprint(st, at, n, j, f);
    int ok = n > len ? !strcmp(at, p) : 1;
    if (n > len) for (size_t k = len + 1; k < n; k++) if (at[k] != 0x55) ok = 2;
    out_raw("%s[%zd,%d]", c++ ? "," : "", q, ok); free(b);
  }
  out_raw("]],\"o\":"); if (deep) out_raw("[]"); else dump(j);
  J back = NULL; int line; char *e = exact(p, len);
  int rc = cee_json_parsex(st, e, len, &back, 1, &line); free(exact_base);
  out_raw(",\"b\":["); if (rc == 0) { if (deep) dump_flat(back, ""); else dump(back); } out_raw("]}");
}
static void escape_op(int ac, char **av) {  /* escape bytes */
  size_t n = arg_len[1], w; char *src = exact(av[1], n), *sb = exact_base; char *next = NULL; size_t left = 0, room = 6 * n + 10;
  char *d = malloc(room); memset(d, 0x55, room);
  w = cee_json_escape_string(src, n, d, room, &next, &left);
  int kept = 1; for (size_t i = w; i < room; i++) if (d[i] != 0x55) kept = 0;      /* nothing beyond what was written */
  out_raw("{\"r\":"); out_bytes(d, w <= room ? w : 0);
  /* exact room: one byte more is an ASAN error */
  char *d2 = malloc(w ? w : 1); size_t w2 = cee_json_escape_string(src, n, w ? d2 : d2 + 1, w, NULL, NULL);
  int same = w2 == w && !memcmp(d, d2, w);
  char *q = malloc(w + 2); q[0] = '"'; memcpy(q + 1, d, w); q[w + 1] = '"'; J j = NULL; int line;
  int rc = cee_json_parsex(st, q, w + 2, &j, 1, &line);
  out_raw(",\"o\":[%zu,%ld,%ld,%d,%d,", w, (long)(next - d), (long)(room - left), kept, same);
  out_raw("["); if (!rc) dump(j);
  out_raw("]]}"); free(d); free(d2); free(q); free(sb);
}

/* ---- documents by reference */
#define MXN 400
static J nd[MXN]; static int nn; static char gone[MXN];   /* gone: seen dead once (its memory may be used again) */
static int id_of(J j) {
  if (!j) return 0;
  if (j == cee_json_true()) return -1;
  if (j == cee_json_false()) return -2;
  if (j == cee_json_null()) return -3;
  if (j == cee_json_undefined()) return -4;
  for (int i = 0; i < nn; i++) if (nd[i] == j && !gone[i] && alive(j)) return i + 1;
  return -9;
}
static J P(const char *s) { int i = I(s); return i == -1 ? cee_json_true() : i == -2 ? cee_json_false() : i == -3 ? cee_json_null() : i == -4 ? cee_json_undefined() : i <= 0 ? NULL : nd[i - 1]; }
static int see_new(void *c, J v, int i) { if (id_of(v) == -9 && nn < MXN) nd[nn++] = v; return 0; }
static int see_newkv(void *c, struct cee_str *k, J v) { return see_new(c, v, 0); }
static void new_children(void) {
  for (int i = 0; i < nn; i++) if (!alive(nd[i])) gone[i] = 1; else if (!gone[i]) {
    if (nd[i]->t == CEE_JSON_ARRAY) cee_json_array_iterate(nd[i], NULL, see_new);
    else if (nd[i]->t == CEE_JSON_OBJECT) cee_json_object_iterate(nd[i], NULL, see_newkv);
  }
}
static void reg(J j) { if (nn < MXN) nd[nn++] = j; }
static int heap_op(int ac, char **av) {
  const char *o = av[0]; int r = 0; char *shown = NULL, *k = ac > 2 ? dupz(av[2], arg_len[2]) : NULL, *t = ac > 3 ? dupz(av[3], arg_len[3]) : NULL;
  if (!strcmp(o, "mk")) {
    const char *w = av[1]; J j = NULL;
    if (!strcmp(w, "o")) j = cee_json_object_mk(st);
    else if (!strcmp(w, "a")) j = cee_json_array_mk(st, I(k));
    else if (!strcmp(w, "lj")) j = cee_list_to_json(cee_list_mk(st, I(k)));
    else if (!strcmp(w, "mj")) j = cee_map_to_json(cee_map_mk(st, (cee_cmp_fun)strcmp));
    else if (!strcmp(w, "i")) j = cee_json_i64_mk(st, I(k));
    else if (!strcmp(w, "u")) j = cee_json_u64_mk(st, I(k));
    else if (!strcmp(w, "d")) j = cee_json_double_mk(st, I(k));
    else if (!strcmp(w, "s")) j = cee_json_str_mk(st, cee_str_mk(st, "%s", k));
    else if (!strcmp(w, "sf")) j = cee_json_str_mkf(st, "%s", k);
    else bad_op(w);
    reg(j); r = nn;
  }
  else if (!strcmp(o, "kv")) { reg(cee_json_object_kv(st, k, P(t))); r = nn; }
  else if (!strcmp(o, "set")) cee_json_object_set(P(av[1]), k, P(t));
  else if (!strcmp(o, "app")) cee_json_object_append(P(av[1]), k, P(t));
  else if (!strcmp(o, "setn")) cee_json_object_set_null(P(av[1]), k);
  else if (!strcmp(o, "setb")) cee_json_object_set_bool(P(av[1]), k, I(t));
  else if (!strcmp(o, "sets")) cee_json_object_set_str(P(av[1]), k, t);
  else if (!strcmp(o, "setf")) cee_json_object_set_strf(P(av[1]), k, "%s", t);
  else if (!strcmp(o, "setd")) cee_json_object_set_double(P(av[1]), k, I(t));
  else if (!strcmp(o, "seti")) cee_json_object_set_i64(P(av[1]), k, I(t));
  else if (!strcmp(o, "setu")) cee_json_object_set_u64(P(av[1]), k, I(t));
  else if (!strcmp(o, "ren")) r = cee_json_object_rename(P(av[1]), k, t);
  else if (!strcmp(o, "rem")) cee_json_object_remove(P(av[1]), k);
  else if (!strcmp(o, "conv")) r = cee_json_object_convert_to_i64(P(av[1]), k);
  else if (!strcmp(o, "err")) { J x = P(av[1]); cee_json_set_error(&x, "%s", k); if (x != P(av[1])) r = -1; }
  else if (!strcmp(o, "errnull")) { J x = NULL; cee_json_set_error(&x, "%s", "a"); cee_json_set_error(NULL, "%s", "a"); r = x == NULL; }
  else if (!strcmp(o, "get")) r = id_of(cee_json_object_get(P(av[1]), k));
  else if (!strcmp(o, "aget")) r = id_of(cee_json_array_get(P(av[1]), I(k)));
  else if (!strcmp(o, "ains")) cee_json_array_insert(P(av[1]), I(k), P(t));
  else if (!strcmp(o, "aapp")) cee_json_array_append(P(av[1]), P(k));
  else if (!strcmp(o, "aappb")) cee_json_array_append_bool(P(av[1]), I(k));
  else if (!strcmp(o, "aapps")) cee_json_array_append_str(P(av[1]), k);
  else if (!strcmp(o, "aappf")) cee_json_array_append_strf(P(av[1]), "%s", k);
  else if (!strcmp(o, "acat")) cee_json_array_concat(P(av[1]), P(k));
  else if (!strcmp(o, "aappn")) { for (int i = 1; i <= I(k); i++) cee_json_array_append_bool(P(av[1]), ((i + I(t)) * 7) % 5 < 2); }
  else if (!strcmp(o, "setbn")) { for (int i = 1; i <= I(t); i++) { char key[32]; sprintf(key, "k%d", I(k) + i); cee_json_object_set_bool(P(av[1]), key, ((I(k) + 2 * i) * 7) % 5 < 2); } }
  else if (!strcmp(o, "remn")) { for (int i = 1; i <= I(av[4]); i++) { char key[32]; sprintf(key, "k%d", I(k) + i * I(t)); cee_json_object_remove(P(av[1]), key); } }
  else if (!strcmp(o, "arem")) cee_json_array_remove(P(av[1]), I(k));
  else if (!strcmp(o, "listify")) { J j = cee_json_listify(P(av[1])); if (id_of(j) == -9) reg(j); r = id_of(j); }
  else if (!strcmp(o, "merge")) r = cee_json_merge(P(av[1]), P(k));
  else if (!strcmp(o, "mor")) { J d = P(av[1]); r = cee_json_merge_or_return(&d, P(k)); if (d != P(av[1])) r += 10 * id_of(d); }
  else if (!strcmp(o, "nulls")) {   /* what NULL arguments do: nothing */
    J x = P(av[1]), d = NULL; cee_json_object_set(NULL, "k", x); cee_json_object_append(NULL, "k", x); cee_json_object_append(x, "k", NULL);
    cee_json_object_set_null(NULL, "k"); cee_json_object_set_bool(NULL, "k", 1); cee_json_object_set_str(NULL, "k", "v"); cee_json_object_set_strf(NULL, "k", "v");
    cee_json_object_set_double(NULL, "k", 1); cee_json_object_set_i64(NULL, "k", 1); cee_json_object_set_u64(NULL, "k", 1);
    r = cee_json_merge(NULL, x) + 2 * cee_json_merge(x, NULL) + 4 * cee_json_merge_or_return(NULL, x) + 8 * cee_json_merge_or_return(&d, NULL) + 16 * (d != NULL) + 32 * (cee_json_select(NULL, ".a") != NULL);
  }
  else if (!strcmp(o, "show")) { if (cee_json_asprint(st, &shown, NULL, P(av[1]), 0) < 0 || !shown) die("no text"); }
  else if (!strcmp(o, "del")) cee_del(P(av[1]));
  else if (!strcmp(o, "root")) cee_state_add_gc_root(st, P(av[1]));
  else if (!strcmp(o, "unroot")) cee_state_remove_gc_root(st, P(av[1]));
  else if (!strcmp(o, "gc")) cee_state_gc(st);
  else if (!strcmp(o, "nop")) ;
  else { free(k); free(t); return 0; }
  new_children();
  if (shown) { out_raw("{\"r\":"); out_bytes(shown, strlen(shown)); out_raw(",\"o\":["); }
  else out_raw("{\"r\":%d,\"o\":[", r);
  for (int i = 0; i < nn; i++) {
    if (i) out_raw(",");
    J j = nd[i];
    if (gone[i]) { out_raw("[\"dead\"]"); continue; }
    const char *kd = kind_of(j);
    if (*kd != 'o' && *kd != 'a') { if (cee_json_empty(j)) kd = "?empty"; dump_scalar(j, kd); continue; }
    struct seen *s = contents(j);
    if (!s) { out_raw("[\"?contents\"]"); continue; }
    out_raw("[\"%s\",[", kd);
    for (int q = 0; q < s->n; q++) {
      if (q) out_raw(",");
      if (*kd == 'o') { out_raw("["); out_bytes((char *)s->k[q], strlen((char *)s->k[q])); out_raw(",%d]", id_of(s->v[q])); }
      else out_raw("%d", id_of(s->v[q]));
    }
    out_raw("]]"); free(s);
  }
  out_raw("]}"); free(k); free(t);
  return 1;
}

/* ---- selecting: the answer is the path (positions from 0) of the value found, the first such place in document order */
static int path[600], plen;
static int find_path(J at, J what) {
  if (at == what) return 1;
  if (at->t != CEE_JSON_ARRAY && at->t != CEE_JSON_OBJECT) return 0;
  struct seen *s = contents(at); if (!s) die("contents");
  for (int i = 0; i < s->n; i++) { path[plen++] = i; if (find_path(s->v[i], what)) { free(s); return 1; } plen--; }
  free(s); return 0;
}
static J selv; static char selt[1 << 16];
static void out_path(J r) {
  if (!r) { out_raw("[0]"); return; }
  plen = 0; if (!find_path(selv, r)) { out_raw("[\"stray\"]"); return; }
  out_raw("[1"); for (int i = 0; i < plen; i++) out_raw(",%d", path[i]); out_raw("]");
}
static void select_op(int ac, char **av) {
  const char *o = av[0];
  if (!selv || strcmp(selt, av[1])) { if (strlen(av[1]) < sizeof selt) strcpy(selt, av[1]); else selt[0] = 0; selv = value(av[1]); }
  J j = selv;
  out_raw("{\"r\":");
  if (!strcmp(o, "sel")) {          /* sel value selector [i N | s BYTES]... */
    char *f = dupz(av[2], arg_len[2]); uintptr_t a[6] = {0}; char *own[6] = {0}; int n = 0;
    for (int i = 3; i + 1 < ac && n < 6; i += 2, n++) { if (*av[i] == 'i') a[n] = (uintptr_t)(intptr_t)I(av[i + 1]); else a[n] = (uintptr_t)(own[n] = dupz(av[i + 1], arg_len[i + 1])); }
    J r = n ? cee_json_select(j, f, a[0], a[1], a[2], a[3], a[4], a[5]) : cee_json_select(j, f);
    out_path(r); free(f); for (int i = 0; i < 6; i++) free(own[i]);
  } else if (!strcmp(o, "selint")) { /* selint value selector: the int or nothing */
    char *f = dupz(av[2], arg_len[2]); int x = -77; int rc = cee_json_select_as_int(j, &x, f);
    char t[16]; if (rc) out_raw("[]"); else { out_raw("["); out_bytes(t, sprintf(t, "%d", x)); out_raw("]"); } free(f);
  } else { char *f = dupz(av[2], arg_len[2]); out_path(cee_json_has(j, f)); free(f); }
  out_raw(",\"o\":0}");
}

/* ---- files (in the working directory, names without slashes; "no/..." cannot be opened) */
static void clean(void) {
  DIR *d = opendir("."); struct dirent *e;
  while (d && (e = readdir(d))) if (!strncmp(e->d_name, "f_", 2)) unlink(e->d_name);
  if (d) closedir(d);
}
static char *slurp(const char *name, size_t *n) {
  int fd = open(name, O_RDONLY); if (fd < 0) return NULL;
  struct stat sb; fstat(fd, &sb); char *p = malloc(sb.st_size + 1); *n = 0; ssize_t k;
  while (*n < (size_t)sb.st_size && (k = read(fd, p + *n, sb.st_size - *n)) > 0) *n += k;
  close(fd); return p;
}
static int file_op(int ac, char **av) {
  const char *o = av[0]; char *names[64];
  for (int i = 1; i < ac && i < 64; i++) names[i] = dupz(av[i], arg_len[i]);
  const char *show = names[1];
  out_raw("{\"r\":");
  if (!strcmp(o, "put")) { int fd = open(names[1], O_WRONLY | O_CREAT | O_TRUNC, 0644); if (write(fd, av[2], arg_len[2]) != (ssize_t)arg_len[2]) _exit(94); close(fd); out_raw("0"); }
  else if (!strcmp(o, "gone")) { unlink(names[1]); out_raw("0"); }
  else if (!strcmp(o, "save")) {        /* save name value fmt via chunk after */
    J j = value(av[2]); int how = I(av[3]), r; 
    if (I(av[4])) { FILE *f = fopen(names[1], "w"); arm(I(av[5]), I(av[6])); r = cee_json_save(st, j, f, how); disarm(); fclose(f); }
    else { int fd = open(names[1], O_WRONLY | O_CREAT | O_TRUNC, 0644); arm(I(av[5]), I(av[6])); r = cee_json_save_fileno(st, j, fd, how); disarm(); close(fd); }
    out_raw("%d", r);
  } else if (!strcmp(o, "dprintf")) {   /* dprintf name value|["N"] (NULL) prefix(0: none) */
    J j = strcmp(av[2], "[\"N\"]") ? value(av[2]) : NULL; int fd = open(names[1], O_WRONLY | O_CREAT | O_TRUNC, 0644);
    cee_json_dprintf(fd, j, arg_len[3] ? "%s" : NULL, names[3]); close(fd); out_raw("0");
  } else if (!strcmp(o, "load")) {      /* load name force via chunk */
    int line = -7; J j = NULL; int via = I(av[3]); int *lp = via >= 10 ? NULL : &line;
    if (via % 10 == 0) { int fd = open(names[1], O_RDONLY); arm(I(av[4]), -1); j = cee_json_load_from_fileno(st, fd, I(av[2]), lp); disarm(); if (fd >= 0) close(fd); }
    else if (via % 10 == 1) { FILE *f = fopen(names[1], "r"); arm(I(av[4]), -1); j = cee_json_load_from_FILE(st, f, I(av[2]), lp); disarm(); fclose(f); }
    else { arm(I(av[4]), -1); j = cee_json_load_from_file_path(st, names[1], I(av[2]), lp); disarm(); }
    if (j) { out_raw("[0,"); dump(j); out_raw("]"); } else if (lp) out_raw("[1,%d]", line); else out_raw("[1]");
  } else if (!strcmp(o, "mergeall")) {  /* mergeall out inputs... */
    char *in[64]; for (int i = 2; i < ac; i++) in[i - 2] = names[i];
    out_raw("%d", cee_json_merge_all(in, ac - 2, names[1]) != 0);
  } else if (!strcmp(o, "mergelim")) {  /* mergelim out after inputs...: no room after so many bytes */
    char *in[64]; for (int i = 3; i < ac; i++) in[i - 3] = names[i];
    arm(0, I(av[2])); int r = cee_json_merge_all(in, ac - 3, names[1]) != 0; disarm(); out_raw("%d", r);
  } else { bad_op(o); }
  size_t n; char *p = slurp(show, &n);
  out_raw(",\"o\":"); if (p) { out_raw("[1,"); out_bytes(p, n); out_raw("]"); } else out_raw("[0]");
  out_raw("}"); free(p);
  for (int i = 1; i < ac && i < 64; i++) free(names[i]);
  return 1;
}

void drv_case_begin(void) { st = cee_state_mk(10); ndocs = nn = ntmp = 0; selv = NULL; memset(gone, 0, sizeof gone); clean(); }
void drv_case_end(void) { cee_del(st); for (int i = 0; i < ntmp; i++) free(tmps[i]); clean(); }
void drv_op(int ac, char **av) {
  const char *o = av[0];
  if (!strcmp(o, "parse") || !strcmp(o, "deep")) parse_op(ac, av);
  else if (!strcmp(o, "lbuf")) lbuf_op(ac, av);
  else if (!strcmp(o, "print") || !strcmp(o, "pdeep")) print_op(ac, av);
  else if (!strcmp(o, "escape")) escape_op(ac, av);
  else if (!strcmp(o, "sel") || !strcmp(o, "selint") || !strcmp(o, "has")) select_op(ac, av);
  else if (heap_op(ac, av)) return;
  else file_op(ac, av);
}
