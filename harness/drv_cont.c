/* Driver for the container specifications: lists, maps, sets, stacks, dicts. */
#include "core.h"
#include "cee.h"
struct cee_set *cee_set_clone(struct cee_set *);
struct cee_set *cee_set_union_set(struct cee_state *, struct cee_set *, struct cee_set *);

#define BASE 10000       /* keys and elements k and k + BASE are equal but not the same */
#define NV (2 * BASE + 100)
static struct cee_state *st;
static enum cee_del_policy pol;
static struct cee_list *ls[2];
static void *val[NV];              /* element objects, made on demand; plain memory under the no-op policy */
static int plain[NV];
static int usedv[NV], nused;         /* the elements made */

static void *el(int i) {
  if (pol == CEE_DP_NOOP) { plain[i] = i; return &plain[i]; }
  if (!val[i]) { val[i] = cee_boxed_from_i64(st, i); cee_incr_indegree(CEE_DP_DEL_RC, val[i]); usedv[nused++] = i; }
  return val[i];
}
static int id(void *p) {
  if (!p) return -1;
  if ((int *)p >= plain && (int *)p < plain + NV) return *(int *)p;
  return (int)cee_boxed_to_i64(p);
}
static void olist(struct cee_list *l) {
  size_t n = cee_list_size(l);
  out_raw("[");
  for (size_t i = 0; i < n; i++) out_raw("%s%d", i ? "," : "", id(l->a[i]));
  out_raw("]");
}
struct it { int stop, code, n; };
static int it_cb(void *c, void *e, int idx) {
  struct it *x = c; x->n++;
  out_raw(",[%d,%d]", idx, id(e));
  return idx == x->stop ? x->code : 0;
}
static void list_op(int ac, char **av) {
  const char *o = av[0];
  long r = 0; int shown = 0;
  if (!strcmp(o, "mk")) { pol = I(av[1]); for (int i = 0; i < 2; i++) ls[i] = i && !pol ? cee_list_mk(st, I(av[2])) : cee_list_mk_e(st, pol, I(av[2])); }
  else if (!strcmp(o, "app")) cee_list_append(ls[I(av[1])], el(I(av[2])));
  else if (!strcmp(o, "ins")) cee_list_insert(ls[I(av[1])], I(av[2]), el(I(av[3])));
  else if (!strcmp(o, "rem")) r = cee_list_remove(ls[I(av[1])], I(av[2]));
  else if (!strcmp(o, "appn")) for (int j = 0, n = I(av[2]); j < n; j++) cee_list_append(ls[I(av[1])], el((I(av[3]) + j) % 4000));
  else if (!strcmp(o, "insn")) for (int j = 0, n = I(av[3]); j < n; j++) cee_list_insert(ls[I(av[1])], I(av[2]), el((I(av[4]) + j) % 4000));
  else if (!strcmp(o, "remn")) for (int j = 0, n = I(av[3]); j < n; j++) r += cee_list_remove(ls[I(av[1])], I(av[2]));
  else if (!strcmp(o, "merge")) cee_list_merge(ls[I(av[1])], ls[I(av[2])]);
  else if (!strcmp(o, "mergenull")) cee_list_merge(ls[I(av[1])], NULL);
  else if (!strcmp(o, "iter")) {
    struct it x = { I(av[2]), I(av[3]), 0 };
    /* the result is printed after the visits: assemble around it */
    out_raw("{\"r\":["); size_t m = out_mark();
    int ret = cee_list_iterate(ls[I(av[1])], &x, it_cb);
    char b[24]; sprintf(b, "%d", ret); out_insert(m, b);
    out_raw("]"); shown = 1;
  } else if (!strcmp(o, "null")) {
    struct it x = { 0, 1, 0 };
    out_raw("{\"r\":[%zu,%zu,%d,%d]", cee_list_size(NULL), cee_list_capacity(NULL), cee_list_iterate(NULL, &x, it_cb), cee_list_remove(NULL, 0));
    shown = 1;
  } else bad_op(o);
  if (!shown) out_raw("{\"r\":%ld", r);
  out_raw(",\"o\":["); olist(ls[0]); out_raw(","); olist(ls[1]); out_raw("]}");
  for (int i = 0; i < 2; i++) if (cee_list_capacity(ls[i]) < cee_list_size(ls[i])) out_raw("CAPACITY");
}


/* ------------------------------------------------------------------ maps and sets */
static struct cee_map *ms[2]; static int unord[2]; static struct cee_list *snap; static int snapkind, snapunord;
static struct cee_set *ss[3]; static int nrc; static long ncmp;
static char keytext[2 * BASE][12];
static const char *ktext(int k) { static char b[12]; sprintf(b, "%c%04d", k >= BASE ? 'K' : 'k', k % BASE); return b; }
static void *newkey(int k) {
  if (pol == CEE_DP_NOOP) { strcpy(keytext[k], ktext(k)); return keytext[k]; }
  return cee_str_mk(st, "%s", ktext(k));
}
static int kcls(void *k) { return k ? atoi((char *)k + 1) : -1; }
static int kcmp(const void *a, const void *b) { ncmp++; return strcasecmp(a, b); }
static int icmp(const void *a, const void *b) { int x = *(const int *)a, y = *(const int *)b; return x < y ? -1 : x > y; }
static int buf[1 << 16]; static int nbuf;
static int pbuf[1 << 14][2]; static int npbuf;
static void oints(int *b, int n, int sort) {
  if (sort) qsort(b, n, sizeof *b, icmp);
  out_raw("[");
  for (int i = 0; i < n; i++) out_raw("%s%d", i ? "," : "", b[i]);
  out_raw("]");
}
static int pair_cb(void *c, void *k, void *v) { pbuf[npbuf][0] = kcls(k); pbuf[npbuf++][1] = id(v); return 0; }
static int pcmp(const void *a, const void *b) { return icmp(a, b); }
static void okeys(struct cee_list *l, int sort, int vals) {
  nbuf = cee_list_size(l);
  for (int i = 0; i < nbuf; i++) buf[i] = vals ? id(l->a[i]) : kcls(l->a[i]);
  oints(buf, nbuf, sort);
}
static void omap(int i) {
  struct cee_map *m = ms[i]; struct cee_list *l;
  if (cee_map_size(m) == 0) unord[i] = 0;
  out_raw("[%lu,", (unsigned long)cee_map_size(m));
  l = cee_map_insertion_ordered_keys(m); okeys(l, unord[i], 0); cee_del(l); out_raw(",");
  l = cee_map_keys(m); okeys(l, 1, 0); cee_del(l); out_raw(",");
  l = cee_map_values(m); okeys(l, 1, 1); cee_del(l); out_raw(",");
  npbuf = 0; cee_map_iterate(m, NULL, pair_cb);
  qsort(pbuf, npbuf, sizeof pbuf[0], pcmp);
  out_raw("[");
  for (int j = 0; j < npbuf; j++) out_raw("%s[%d,%d]", j ? "," : "", pbuf[j][0], pbuf[j][1]);
  out_raw("]]");
}
static void orc(void) {
  out_raw("[");
  if (pol == CEE_DP_DEL_RC) for (int i = 1; i <= nrc; i++) out_raw("%s%d", i > 1 ? "," : "", cee_get_rc(el(i)));
  out_raw("]");
}
static int nth;   /* every second container comes from the constructor without a policy, where that one means the same */
static struct cee_map *newmap(void) { enum cee_del_policy p[2] = { pol, pol }; if (!pol && nth++ % 2) return cee_map_mk(st, kcmp); return cee_map_mk_e(st, p, kcmp); }
static int cnt_stop, cnt_code, cnt;
static int cnt_cb(void *c, void *k, void *v) { return cnt++ == cnt_stop ? cnt_code : 0; }
static void *mergef(void *c, void *o, void *n) { int h = *(int *)c; return h == 1 ? o : h == 2 ? n : el(3); }
static void map_op(int ac, char **av) {
  const char *o = av[0]; long r = 0;
  if (!strcmp(o, "mk")) { pol = I(av[1]); nrc = I(av[2]); ms[0] = newmap(); ms[1] = newmap(); for (int i = 1; i <= nrc; i++) el(i); }
  else if (!strcmp(o, "add")) r = id(cee_map_add(ms[I(av[1])], newkey(I(av[2])), el(I(av[3]))));
  else if (!strcmp(o, "find")) r = id(cee_map_find(ms[I(av[1])], (char *)ktext(I(av[2]))));
  else if (!strcmp(o, "rem")) { char k[12]; strcpy(k, ktext(I(av[2]))); r = id(cee_map_remove(ms[I(av[1])], k)); }
  else if (!strcmp(o, "ren")) { char k[12]; strcpy(k, ktext(I(av[2]))); r = cee_map_rename(ms[I(av[1])], k, newkey(I(av[3]))); }
  else if (!strcmp(o, "addn")) for (int k = I(av[2]), n = I(av[3]), d = I(av[4]); n > 0; k += d, n--) r += cee_map_add(ms[I(av[1])], newkey(k), el(1 + k % 9)) != NULL;
  else if (!strcmp(o, "remn")) for (int k = I(av[2]), n = I(av[3]), d = I(av[4]); n > 0; k += d, n--) { char t[12]; strcpy(t, ktext(k)); r += cee_map_remove(ms[I(av[1])], t) != NULL; }
  else if (!strcmp(o, "findn")) for (int k = I(av[2]), n = I(av[3]), d = I(av[4]); n > 0; k += d, n--) { int x = id(cee_map_find(ms[I(av[1])], (char *)ktext(k))); if (x > 0) r += x; }
  else if (!strcmp(o, "nullkey")) {
    struct cee_map *m = ms[I(av[1])]; int a = id(cee_map_add(m, NULL, el(1))), b = id(cee_map_find(m, NULL)), c = id(cee_map_remove(m, NULL));
    int d = cee_map_rename(m, NULL, newkey(1)), e = cee_map_rename(m, (char *)ktext(1), NULL);
    out_raw("{\"r\":[%d,%d,%d,%d,%d],\"o\":[", a, b, c, d, e); goto obs;
  } else if (!strcmp(o, "nullmap")) {
    out_raw("{\"r\":[%lu,%d,%d,%d],\"o\":[", (unsigned long)cee_map_size(NULL), id(cee_map_find(NULL, "k0001")), id(cee_map_remove(NULL, "k0001")), cee_map_iterate(NULL, NULL, cnt_cb)); goto obs;
  } else if (!strcmp(o, "iter")) {
    cnt = 0; cnt_stop = I(av[2]); cnt_code = I(av[3]);
    int x = cee_map_iterate(ms[I(av[1])], NULL, cnt_cb);
    out_raw("{\"r\":[%d,%d],\"o\":[", x, cnt); goto obs;
  } else if (!strcmp(o, "merge")) {
    int d = I(av[1]), s = I(av[2]), h = I(av[3]); size_t n = cee_map_size(ms[d]);
    cee_map_merge(ms[d], ms[s], &h, h ? mergef : NULL);
    if (cee_map_size(ms[d]) >= n + 2) unord[d] = 1;
  } else if (!strcmp(o, "clone")) {
    int d = I(av[1]), s = I(av[2]);
    cee_del(ms[d]); ms[d] = cee_map_clone(ms[s]); unord[d] = cee_map_size(ms[s]) >= 2;
  } else if (!strcmp(o, "renew")) { int d = I(av[1]); cee_del(ms[d]); ms[d] = newmap(); }
  else if (!strcmp(o, "snap")) {
    struct cee_map *m = ms[I(av[1])];
    if (snap) cee_del(snap);
    snapkind = I(av[2]); snapunord = unord[I(av[1])];
    snap = snapkind == 0 ? NULL : snapkind == 1 ? cee_map_insertion_ordered_keys(m) : snapkind == 2 ? cee_map_keys(m) : cee_map_values(m);
  } else bad_op(o);
  out_raw("{\"r\":%ld,\"o\":[", r);
obs:
  omap(0); out_raw(","); omap(1); out_raw(",");
  if (snap) okeys(snap, snapkind != 1 || snapunord, snapkind == 3); else out_raw("[]");
  out_raw(","); orc(); out_raw("]}");
}
/* sets: elements are integers compared modulo BASE */
static int ecls(const void *p) { return id((void *)p) % BASE; }
static int ecmp(const void *a, const void *b) { ncmp++; int x = ecls(a), y = ecls(b); return x < y ? -1 : x > y; }
static void set_cb(void *c, void *v) { buf[nbuf++] = *(int *)c == 2 ? ecls(v) : id(v); }
static void oset(int i) {
  if (!ss[i]) { out_raw("[0,1,[],[]]"); return; }
  struct cee_set *s = ss[i];
  out_raw("[%zu,%d,", cee_set_size(s), cee_set_empty(s));
  struct cee_list *l = cee_set_values(s); nbuf = cee_list_size(l);
  for (int j = 0; j < nbuf; j++) buf[j] = i == 2 ? ecls(l->a[j]) : id(l->a[j]);
  cee_del(l);
  oints(buf, nbuf, 1); out_raw(",");
  nbuf = 0; cee_set_iterate(s, &i, set_cb); oints(buf, nbuf, 1); out_raw("]");
}
static int sid(int i, void *p) { return p && i == 2 ? ecls(p) : id(p); }
static struct cee_set *setat(int i) { if (!ss[i]) ss[i] = i % 2 && !pol ? cee_set_mk(st, ecmp) : cee_set_mk_e(st, pol, ecmp); return ss[i]; }
static void drop2(void) { if (ss[2]) cee_del(ss[2]); ss[2] = NULL; }
static void set_op(int ac, char **av) {
  const char *o = av[0]; long r = 0;
  if (!strcmp(o, "mk")) { pol = I(av[1]); nrc = I(av[2]); setat(0); setat(1); }
  else if (!strcmp(o, "add")) cee_set_add(setat(I(av[1])), el(I(av[2])));
  else if (!strcmp(o, "find")) { int i = I(av[1]); r = sid(i, cee_set_find(setat(i), el(I(av[2])))); }
  else if (!strcmp(o, "rem")) { int i = I(av[1]); r = sid(i, cee_set_remove(setat(i), el(I(av[2])))); }
  else if (!strcmp(o, "addn")) for (int k = I(av[2]), n = I(av[3]), d = I(av[4]); n > 0; k += d, n--) cee_set_add(setat(I(av[1])), el(k));
  else if (!strcmp(o, "remn")) for (int k = I(av[2]), n = I(av[3]), d = I(av[4]); n > 0; k += d, n--) r += cee_set_remove(setat(I(av[1])), el(k)) != NULL;
  else if (!strcmp(o, "findn")) for (int k = I(av[2]), n = I(av[3]), d = I(av[4]); n > 0; k += d, n--) r += cee_set_find(setat(I(av[1])), el(k)) != NULL;
  else if (!strcmp(o, "clear")) cee_set_clear(setat(I(av[1])));
  else if (!strcmp(o, "union")) { struct cee_set *u = cee_set_union_set(st, ss[I(av[1])], ss[I(av[2])]); drop2(); ss[2] = u; }
  else if (!strcmp(o, "clone")) { struct cee_set *u = cee_set_clone(ss[I(av[1])]); drop2(); ss[2] = u; }
  else if (!strcmp(o, "drop")) drop2();
  else if (!strcmp(o, "null")) {
    nbuf = 0; int z = 0; cee_set_iterate(NULL, &z, set_cb);
    out_raw("{\"r\":[%d,%d,%zu,%d,%d],\"o\":[", id(cee_set_find(NULL, el(1))), id(cee_set_remove(NULL, el(1))), cee_set_size(NULL), cee_set_empty(NULL), nbuf); goto obs;
  } else bad_op(o);
  out_raw("{\"r\":%ld,\"o\":[", r);
obs:
  oset(0); out_raw(","); oset(1); out_raw(","); oset(2); out_raw(",");
  if (!ss[2] || cee_set_empty(ss[2])) orc(); else out_raw("[]");
  out_raw("]}");
}

/* ------------------------------------------------------------------ stack, dict */
static struct cee_stack *sk;
static void stack_op(int ac, char **av) {
  const char *o = av[0]; long r = 0;
  if (!strcmp(o, "mk")) { pol = I(av[1]); nrc = I(av[3]); sk = !pol && I(av[2]) % 2 ? cee_stack_mk(st, I(av[2])) : cee_stack_mk_e(st, pol, I(av[2])); }
  else if (!strcmp(o, "push")) r = cee_stack_push(sk, el(I(av[1]))) != 0;
  else if (!strcmp(o, "pop")) r = id(cee_stack_pop(sk));
  else if (!strcmp(o, "pushn")) for (int j = 0, n = I(av[1]); j < n; j++) r += cee_stack_push(sk, el(1 + (I(av[2]) + j) % 9)) != 0;
  else if (!strcmp(o, "popn")) for (int j = 0, n = I(av[1]); j < n; j++) r += cee_stack_pop(sk) != NULL;
  else if (!strcmp(o, "top")) r = id(cee_stack_top(sk, I(av[1])));
  else bad_op(o);
  out_raw("{\"r\":%ld,\"o\":[%lu,%d,%d,", r, (unsigned long)cee_stack_size(sk), cee_stack_empty(sk), cee_stack_full(sk));
  nbuf = 0; void *p;
  while (nbuf < 5000 && (p = cee_stack_top(sk, nbuf))) buf[nbuf++] = id(p);
  oints(buf, nbuf, 0); out_raw(","); orc(); out_raw("]}");
}
static struct cee_dict *dc; static char *dkeys[1 << 16]; static int ndk;
static void dict_op(int ac, char **av) {
  const char *o = av[0]; long r = 0;
  if (!strcmp(o, "mk")) { pol = I(av[1]); dc = !pol && I(av[2]) % 2 ? cee_dict_mk(st, I(av[2])) : cee_dict_mk_e(st, pol, I(av[2])); }
  else if (!strcmp(o, "add")) {
    char *k = pol == CEE_DP_NOOP ? (dkeys[ndk++] = strdup(av[1])) : (char *)cee_str_mk(st, "%s", av[1]);
    cee_dict_add(dc, k, el(I(av[2])));
  } else if (!strcmp(o, "find")) r = id(cee_dict_find(dc, av[1]));
  else bad_op(o);
  out_raw("{\"r\":%ld,\"o\":0}", r);
}

/* comparison counts */
static int ckind; static struct cee_set *cs_; static struct cee_map *cm_; static int ck[1 << 15]; static int cmaxkey;
static int ccmp(const void *a, const void *b) { ncmp++; return icmp(a, b); }
static int cstep(int add, int k, long *cost) {
  int r; ncmp = 0; ck[k] = k;
  size_t n = ckind ? cee_map_size(cm_) : cee_set_size(cs_);
  if (k > cmaxkey) cmaxkey = k;
  if (add) { if (ckind) cee_map_add(cm_, ck + k, ck + k); else cee_set_add(cs_, ck + k); }
  else { int q = k; if (ckind) cee_map_remove(cm_, &q); else cee_set_remove(cs_, &q); }
  if (ncmp > *cost) *cost = ncmp;
  size_t n2 = ckind ? cee_map_size(cm_) : cee_set_size(cs_);
  return n != n2;
}
static int fcost(int k) { int q = k; ncmp = 0; if (ckind) cee_map_find(cm_, &q); else cee_set_find(cs_, &q); return ncmp; }
/* an adversary for search trees: deepens the deepest place and thins out the shallowest; prints what it did */
static void adversary(int steps, int K, int seed) {
  unsigned rnd = seed * 2654435761u + 12345; static char in[1 << 15]; memset(in, 0, sizeof in); int n = 0; long c = 0;
#define RND(m) ((rnd = rnd * 1664525u + 1013904223u), (int)((rnd >> 8) % (unsigned)(m)))
  int target = K / (2 + seed % 7);
  out_raw("{\"r\":[");
  for (int t = 0; t < steps; t++) {
    int grow = n < target / 2 || (n < target && RND(2)), best = -1, bc = grow ? -1 : 1 << 30;
    if (n < 8 || RND(16) == 0) { do best = 1 + RND(K); while (in[best] == grow); }
    else {
      int off = RND(K);
      for (int i = 0; i < K; i++) {
        int k = 1 + (i + off) % K; if (in[k]) continue;
        int x = fcost(k); if (grow ? x > bc : x < bc) bc = x, best = k;
      }
      if (best < 0) best = 1 + RND(K);
      if (!grow) { int d = RND(2) ? 1 : -1, k = best; for (int i = 0; i < K && !in[k]; i++) { k += d; if (k < 1) k = K; if (k > K) k = 1; } best = k; }
    }
    int add = !in[best];
    cstep(add, best, &c); in[best] = add; n += add ? 1 : -1;
    out_raw(t ? ",%d" : "%d", add ? best : -best);
  }
  out_raw("],\"o\":0}");
}
static void cost_op(int ac, char **av) {
  const char *o = av[0]; long r = 0, cost = 0;
  if (!strcmp(o, "mk")) {
    ckind = I(av[1]); cmaxkey = 0; enum cee_del_policy p[2] = { CEE_DP_NOOP, CEE_DP_NOOP };
    cs_ = cee_set_mk_e(st, CEE_DP_NOOP, ccmp); cm_ = cee_map_mk_e(st, p, ccmp);
  } else if (!strcmp(o, "add") || !strcmp(o, "rem")) r = cstep(o[0] == 'a', I(av[1]), &cost);
  else if (!strcmp(o, "addrange") || !strcmp(o, "remrange")) {
    int lo = I(av[1]), hi = I(av[2]), s = I(av[3]);
    for (int k = lo; lo < hi ? k <= hi : k >= hi; k += lo < hi ? s : -s) r += cstep(o[0] == 'a', k, &cost);
  } else if (!strcmp(o, "remskip")) {      /* lo hi m j: all but every m-th */
    int lo = I(av[1]), hi = I(av[2]), m = I(av[3]), j = I(av[4]);
    for (int k = lo; lo < hi ? k <= hi : k >= hi; k += lo < hi ? 1 : -1) if (k % m != j) r += cstep(0, k, &cost);
  } else if (!strcmp(o, "adv")) { adversary(I(av[1]), I(av[2]), I(av[3])); return; }
  else bad_op(o);
  if (ckind && !strncmp(o, "rem", 3)) cost = 0;      /* removal from a map also scans its key list */
  long m = 0;
  for (int k = 0; k <= cmaxkey + 1; k++) {
    int q = k; ncmp = 0;
    if (ckind) cee_map_find(cm_, &q); else cee_set_find(cs_, &q);
    if (ncmp > m) m = ncmp;
  }
  out_raw("{\"r\":%ld,\"o\":[%zu,%ld,%ld]}", r, ckind ? (size_t)cee_map_size(cm_) : cee_set_size(cs_), cost, m);
}

static const char *kind;
void drv_case_begin(void) {
  kind = getenv("DRV_KIND");
  st = cee_state_mk(10); while (nused) val[usedv[--nused]] = NULL; pol = 0;
  ls[0] = ls[1] = NULL; ms[0] = ms[1] = NULL; unord[0] = unord[1] = 0; snap = NULL; snapkind = 0; ss[0] = ss[1] = ss[2] = NULL; sk = NULL; dc = NULL;
}
void drv_case_end(void) {
  if (snap) cee_del(snap);
  for (int i = 0; i < 2; i++) { if (ls[i]) cee_del(ls[i]); if (ms[i]) cee_del(ms[i]); }
  for (int i = 0; i < 3; i++) if (ss[i]) cee_del(ss[i]);
  if (sk) cee_del(sk);
  if (dc) cee_del(dc);
  /* every owner is gone: only the reference this driver holds on each element is left */
  if (pol == CEE_DP_DEL_RC) for (int j = 0; j < nused; j++) { int i = usedv[j]; if (cee_get_rc(val[i]) != 1) { fprintf(stderr, "ERROR: AddressSanitizer: element %d still has %d owners after all containers were deleted\n", i, cee_get_rc(val[i])); abort(); } }
  cee_del(st);
  while (ndk) free(dkeys[--ndk]);
}
void drv_op(int ac, char **av) {
  if (!strcmp(kind, "list")) list_op(ac, av);
  else if (!strcmp(kind, "map")) map_op(ac, av);
  else if (!strcmp(kind, "set")) set_op(ac, av);
  else if (!strcmp(kind, "stack")) stack_op(ac, av);
  else if (!strcmp(kind, "dict")) dict_op(ac, av);
  else if (!strcmp(kind, "cost")) cost_op(ac, av);
  else bad_op("kind");
}
