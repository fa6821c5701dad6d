/* Driver for Heap.tla: one state, numbered objects, observation of every live object after each operation. */
#include "core.h"
#include "cee.h"
struct cee_set *cee_set_clone(struct cee_set *);
struct cee_set *cee_set_union_set(struct cee_state *, struct cee_set *, struct cee_set *);
#define MAXO 200
enum kind { LEAF, KEY, PLAIN, LIST, STACK, SET, MAP, DICT, PROD, TAG, ENV, CLO };
static struct { void *p; enum kind k; int n; int t; int dead; } ob[MAXO];
static int no;
static char *KN[] = { "ka", "kb", "kc", "kd" };
static struct cee_state *st, *st2;
static struct cee_list *other; static struct cee_boxed *otherv[3];

static int idof(void *p) {
  if (!p) return 0;
  for (int i = no; i >= 1; i--) if (ob[i].p == p && !ob[i].dead) return i;
  return -9;
}
static int pcmp(const void *a, const void *b) { return a < b ? -1 : a > b; }
static void *X(char *s) { int i = I(s); return i ? ob[i].p : NULL; }
static void mk(void *p, enum kind k, int n, int t) { no++; ob[no].p = p; ob[no].k = k; ob[no].n = n; ob[no].t = t; ob[no].dead = 0; }
#define PLAINSZ 48
static void *mkplain(void) { char *p = malloc(PLAINSZ); memset(p, 0x5a, PLAINSZ); return p; }
static int leaf_ok(int i) {
  void *p = ob[i].p;
  if (ob[i].k == KEY) return !strcmp(p, KN[ob[i].t]);
  if (ob[i].k == PLAIN) { for (int j = 0; j < PLAINSZ; j++) if (((char *)p)[j] != 0x5a) return 0; return 1; }
  if (ob[i].t == 0) return cee_boxed_to_i64(p) == i * 1000003LL;
  if (ob[i].t == 1) { char b[64]; sprintf(b, "leaf-%d", i); return !strcmp(p, b); }
  if (cee_block_size(p) != 40) return 0;
  for (int j = 0; j < 40; j++) if (((char *)p)[j] != (char)(i + j)) return 0;
  return 1;
}
static int ids[256], nids;
static int icmp(const void *a, const void *b) { return *(int *)a - *(int *)b; }
static void addid(void *p) { if (nids < 256) ids[nids++] = idof(p); }
static void set_cb(void *c, void *v) { addid(v); }
static void content(int i) {
  void *p = ob[i].p; nids = 0;
  switch (ob[i].k) {
    case LEAF: case KEY: case PLAIN: ids[nids++] = leaf_ok(i); break;
    case LIST: for (size_t j = 0; j < cee_list_size(p); j++) addid(((struct cee_list *)p)->a[j]); break;
    case STACK: for (size_t j = 0; j < cee_stack_size(p); j++) addid(cee_stack_top(p, j)); break;
    case SET: cee_set_iterate(p, NULL, set_cb); qsort(ids, nids, sizeof *ids, icmp); if (nids != (int)cee_set_size(p)) ids[nids++] = -77; break;
    case MAP: {
      struct cee_list *l = cee_map_insertion_ordered_keys(p);
      for (size_t j = 0; j < cee_list_size(l); j++) { addid(l->a[j]); addid(cee_map_find(p, l->a[j])); }
      cee_del(l);
      if (nids != 2 * (int)cee_map_size(p)) ids[nids++] = -77;
      break; }
    case DICT: for (int j = 0; j < 4; j++) addid(cee_dict_find(p, KN[j])); break;
    case PROD: for (int j = 0; j < ob[i].n; j++) addid(((void **)p)[j]); break;
    case TAG: addid(((struct cee_tagged *)p)->ptr._); if (((struct cee_tagged *)p)->tag != (cee_tag_t)i) ids[nids++] = -77; break;
    case ENV: addid(((struct cee_env *)p)->outer); addid(((struct cee_env *)p)->vars); break;
    case CLO: addid(((struct cee_closure *)p)->env); break;
  }
}
static void *fn(struct cee_state *s, struct cee_env *e, size_t n, va_list ap) { return e; }
static void *mfold(void *c, void *o, void *n) { return *(int *)c == 1 ? o : n; }
static void observe(void) {
  for (int i = 1; i <= no; i++) if (!ob[i].dead && !alive(ob[i].p)) ob[i].dead = 1;
  out_raw(",\"o\":[");
  for (int i = 1; i <= no; i++) {
    out_raw(i > 1 ? ",[" : "[");
    if (!ob[i].dead) {
      out_raw("%d", ob[i].k == PLAIN ? -1 : cee_get_rc(ob[i].p));
      content(i);
      for (int j = 0; j < nids; j++) out_raw(",%d", ids[j]);
    }
    out_raw("]");
  }
  out_raw("]}");
}
void drv_case_begin(void) {
  st = cee_state_mk(10); st2 = cee_state_mk(4); no = 0;
  other = cee_list_mk(st2, 1);
  for (int i = 0; i < 3; i++) { otherv[i] = cee_boxed_from_i64(st2, 77 + i); cee_list_append(other, otherv[i]); }
  cee_state_add_gc_root(st2, other);
}
static void other_ok(const char *when) {
  int ok = cee_list_size(other) == 3;
  for (int i = 0; i < 3 && ok; i++) ok = other->a[i] == otherv[i] && cee_boxed_to_i64(otherv[i]) == 77 + i && cee_get_rc(otherv[i]) == 1;
  if (!ok) { fprintf(stderr, "ERROR: AddressSanitizer: objects of another state changed %s\n", when); abort(); }
}
void drv_case_end(void) {
  cee_del(st);
  for (int i = 1; i <= no; i++) if (ob[i].k != PLAIN && !ob[i].dead && alive(ob[i].p)) { fprintf(stderr, "ERROR: AddressSanitizer: object %d survives the deletion of its state\n", i); abort(); }
  for (int i = 1; i <= no; i++) if (ob[i].k == PLAIN) { if (!leaf_ok(i)) { fprintf(stderr, "ERROR: AddressSanitizer: unmanaged memory was written\n"); abort(); } free(ob[i].p); }
  other_ok("when a state was deleted");
  cee_state_gc(st2); other_ok("in a later collection");
  cee_del(st2);
}
static enum cee_del_policy P(char *s) { return (enum cee_del_policy)I(s); }
void drv_op(int ac, char **av) {
  const char *o = av[0]; long r = 0;
#define IS(x) (!strcmp(o, x))
  if (IS("leaf")) {
    int t = I(av[1]), i = no + 1; void *p;
    if (t == 0) p = cee_boxed_from_i64(st, i * 1000003LL);
    else if (t == 1) p = cee_str_mk(st, "leaf-%d", i);
    else { p = cee_block_mk(st, 40); for (int j = 0; j < 40; j++) ((char *)p)[j] = i + j; }
    mk(p, LEAF, 0, t);
  } else if (IS("key")) mk(cee_str_mk(st, "%s", KN[I(av[1])]), KEY, 0, I(av[1]));
  else if (IS("plain")) mk(mkplain(), PLAIN, 0, 0);
#define DEF(p) (no % 2 && !(p))   /* every second object from the constructor without a policy, where that one means the same */
  else if (IS("list")) mk(DEF(P(av[1])) ? cee_list_mk(st, no % 3) : cee_list_mk_e(st, P(av[1]), no % 3), LIST, 0, 0);
  else if (IS("stack")) mk(DEF(P(av[1])) ? cee_stack_mk(st, 8) : cee_stack_mk_e(st, P(av[1]), 8), STACK, 0, 0);
  else if (IS("set")) mk(DEF(P(av[1])) ? cee_set_mk(st, pcmp) : cee_set_mk_e(st, P(av[1]), pcmp), SET, 0, 0);
  else if (IS("dict")) mk(DEF(P(av[1])) ? cee_dict_mk(st, 4) : cee_dict_mk_e(st, P(av[1]), 4), DICT, 0, 0);
  else if (IS("map")) { enum cee_del_policy p[2] = { P(av[1]), P(av[2]) }; mk(DEF(p[0] || p[1]) ? cee_map_mk(st, (cee_cmp_fun)strcmp) : cee_map_mk_e(st, p, (cee_cmp_fun)strcmp), MAP, 0, 0); }
  else if (IS("tuple")) { enum cee_del_policy p[2] = { P(av[1]), P(av[2]) };
    mk(!p[0] && !p[1] ? cee_tuple_mk(st, X(av[3]), X(av[4])) : cee_tuple_mk_e(st, p, X(av[3]), X(av[4])), PROD, 2, 0); }
  else if (IS("triple")) { enum cee_del_policy p[3] = { P(av[1]), P(av[2]), P(av[3]) };
    mk(!p[0] && !p[1] && !p[2] ? cee_triple_mk(st, X(av[4]), X(av[5]), X(av[6])) : cee_triple_mk_e(st, p, X(av[4]), X(av[5]), X(av[6])), PROD, 3, 0); }
  else if (IS("quad")) { enum cee_del_policy p[4] = { P(av[1]), P(av[2]), P(av[3]), P(av[4]) };
    mk(cee_quadruple_mk_e(st, p, X(av[5]), X(av[6]), X(av[7]), X(av[8])), PROD, 4, 0); }
  else if (IS("ntup")) { int n = ac - 1; void *q;
    if (n == 0) q = cee_n_tuple_mk(st, 0); else if (n == 1) q = cee_n_tuple_mk(st, 1, X(av[1])); else if (n == 2) q = cee_n_tuple_mk(st, 2, X(av[1]), X(av[2]));
    else q = cee_n_tuple_mk(st, 5, X(av[1]), X(av[2]), X(av[3]), X(av[4]), X(av[5]));
    mk(q, PROD, n, 0); }
  else if (IS("tag")) mk(DEF(P(av[1])) ? cee_tagged_mk(st, no + 1, X(av[2])) : cee_tagged_mk_e(st, P(av[1]), no + 1, X(av[2])), TAG, 0, 0);
  else if (IS("env")) { enum cee_del_policy p[2] = { P(av[1]), P(av[2]) };
    mk(!p[0] && !p[1] ? cee_env_mk(st, X(av[3]), X(av[4])) : cee_env_mk_e(st, p, X(av[3]), X(av[4])), ENV, 0, 0); }
  else if (IS("clo")) mk(cee_closure_mk(st, X(av[1]), (void *)fn), CLO, 0, 0);
  else if (IS("app")) cee_list_append(X(av[1]), X(av[2]));
  else if (IS("ins")) cee_list_insert(X(av[1]), I(av[2]), X(av[3]));
  else if (IS("lrem")) r = cee_list_remove(X(av[1]), I(av[2]));
  else if (IS("lmerge")) cee_list_merge(X(av[1]), X(av[2]));
  else if (IS("push")) r = cee_stack_push(X(av[1]), X(av[2])) != 0;
  else if (IS("pop")) r = idof(cee_stack_pop(X(av[1])));
  else if (IS("sadd")) cee_set_add(X(av[1]), X(av[2]));
  else if (IS("srem")) r = idof(cee_set_remove(X(av[1]), X(av[2])));
  else if (IS("sclear")) cee_set_clear(X(av[1]));
  else if (IS("sunion")) mk(cee_set_union_set(st, X(av[1]), X(av[2])), SET, 0, 0);
  else if (IS("sclone")) mk(cee_set_clone(X(av[1])), SET, 0, 0);
  else if (IS("madd")) r = idof(cee_map_add(X(av[1]), X(av[2]), X(av[3])));
  else if (IS("mrem")) r = idof(cee_map_remove(X(av[1]), KN[I(av[2])]));
  else if (IS("mren")) r = cee_map_rename(X(av[1]), KN[I(av[2])], X(av[3]));
  else if (IS("mmerge")) { int w = I(av[3]); cee_map_merge(X(av[1]), X(av[2]), &w, w ? mfold : NULL); }
  else if (IS("mclone")) mk(cee_map_clone(X(av[1])), MAP, 0, 0);
  else if (IS("mkeys")) mk(cee_map_insertion_ordered_keys(X(av[1])), LIST, 0, 0);
  else if (IS("dadd")) cee_dict_add(X(av[1]), X(av[2]), X(av[3]));
  else if (IS("hold")) cee_incr_indegree(CEE_DP_DEL_RC, X(av[1]));
  else if (IS("holdn")) for (int n = I(av[2]); n > 0; n--) cee_incr_indegree(CEE_DP_DEL_RC, X(av[1]));
  else if (IS("dropn")) { void *p = X(av[1]); for (int n = I(av[2]); n > 0; n--) cee_del_ref(p); }
  else if (IS("drop")) cee_del_ref(X(av[1]));
  else if (IS("del")) cee_del(X(av[1]));
  else if (IS("root")) cee_state_add_gc_root(st, X(av[1]));
  else if (IS("unroot")) cee_state_remove_gc_root(st, X(av[1]));
  else if (IS("ctx")) cee_state_add_context(st, (char *)cee_str_mk(st, "ctx%d", I(av[1])), X(av[2]));
  else if (IS("unctx")) { char b[8]; sprintf(b, "ctx%d", I(av[1])); cee_state_remove_context(st, b); }
  else if (IS("getctx")) { char b[8]; sprintf(b, "ctx%d", I(av[1])); r = idof(cee_state_get_context(st, b)); }
  else if (IS("mkeys1")) mk(cee_map_keys(X(av[1])), LIST, 0, 0);
  else if (IS("mvals")) mk(cee_map_values(X(av[1])), LIST, 0, 0);
  else if (IS("svals")) mk(cee_set_values(X(av[1])), LIST, 0, 0);
  else if (IS("gc")) cee_state_gc(st);
  else bad_op(o);
  out_raw("{\"r\":%ld", r); observe();
}
