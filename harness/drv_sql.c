/* SQL layer: statements built from the specification's structures, run on an in-memory database through the library; the table is read independently. */
#include "core.h"
#include "cee.h"
#include "cee-json.h"
#include "cee-sqlite3.h"
#include "jsonval.h"
#include "node.h"

static sqlite3 *db; static struct cee_sqlite3 cs;
/* ---- statements as text */
static char *sq; static size_t sqn, sqcap;
static void put(const char *fmt, ...) {
  va_list a; va_start(a, fmt); int n = vsnprintf(NULL, 0, fmt, a); va_end(a);
  if (sqn + n + 1 > sqcap) sq = realloc(sq, sqcap = (sqn + n + 1) * 2);
  va_start(a, fmt); vsnprintf(sq + sqn, n + 1, fmt, a); va_end(a); sqn += n;
}
static void literal(N v) {
  const char *k = v->e[0]->str; size_t n; char *p;
  if (*k == 'z') { put("null"); return; }
  p = bytes(v->e[1], &n);
  if (*k == 'i') put("%s", p);
  else if (*k == 'd') { double d; char t[40]; memcpy(&d, p, 8); snprintf(t, 40, "%.17g", d); put("%s%s", t, strpbrk(t, ".e") ? "" : ".0"); }
  else if (*k == 'b') { put("x'"); for (size_t i = 0; i < n; i++) put("%02x", (unsigned char)p[i]); put("'"); }
  else { put("'"); for (size_t i = 0; i < n; i++) put(p[i] == '\'' ? "''" : "%c", p[i]); put("'"); }
}
static void expr(N e) { if (is(e, "p")) put("%s", name(e->e[1])); else literal(e->e[1]); }
static void where(N w) { for (int i = 0; i < w->n; i++) { put(i ? " and %s = " : " where %s = ", name(w->e[i]->e[0])); expr(w->e[i]->e[1]); } }
static char *done(void) { char *r = keep(strdup(sqn ? sq : "")); sqn = 0; return r; }
static char *sql(N s) {
  static const char *bad[] = {"", "selec * from t", "select * from missing", "insert into t (a values (1)", "update t set nope = @a", "delete from t where nope = 1", "select a, from t", "insert into t (a, c) values (1)", "drop table missing", "select (", " \n", "update or", "-- nothing"};
  sqn = 0;
  if (s->n == 0) return NULL;
  if (is(s, "bad")) { put("%s", bad[s->e[1]->v]); return done(); }
  if (is(s, "ins")) {
    put(s->e[1]->v == 1 ? " \n\tINSERT INTO t (" : s->e[1]->v == 2 ? "Insert into t(" : "insert into t (");
    for (int i = 0; i < s->e[2]->n; i++) put(i ? ", %s" : "%s", name(s->e[2]->e[i]));
    put(") values (");
    for (int i = 0; i < s->e[3]->n; i++) { if (i) put(", "); expr(s->e[3]->e[i]); }
    put(s->e[1]->v == 1 ? ");" : ")");
  } else if (is(s, "upd")) {
    put("update t set ");
    for (int i = 0; i < s->e[1]->n; i++) { put(i ? ", %s = " : "%s = ", name(s->e[1]->e[i]->e[0])); expr(s->e[1]->e[i]->e[1]); }
    where(s->e[2]);
  } else if (is(s, "del")) { put("delete from t"); where(s->e[1]); }
  else {
    put("select ");
    for (int i = 0; i < s->e[1]->n; i++) {
      N it = s->e[1]->e[i];
      if (i) put(", ");
      if (is(it, "c")) put("%s", name(it->e[1]));
      else if (is(it, "ov")) put("case when b = 5 then abs(b - 9223372036854775807 - 6) else b end");
      else expr(it);
      if (it->e[2]->n) put(" as \"%s\"", name(it->e[2]));
    }
    put(" from t"); where(s->e[2]); put(s->e[3]->v ? " order by id desc" : " order by id");
  }
  return done();
}

/* ---- fields and data */
static enum cee_sqlite3_type type(N t) { return !strcmp(t->str, "int") ? CEE_SQLITE3_INT : !strcmp(t->str, "i64") ? CEE_SQLITE3_INT64 : !strcmp(t->str, "text") ? CEE_SQLITE3_TEXT : CEE_SQLITE3_BLOB; }
static void datum(struct cee_sqlite3_bind_data *d, N x, enum cee_sqlite3_type t) {
  if (is(x, "-")) return;
  d->has_value = 1; d->is_null = is(x, "n");
  if (is(x->e[1], "z")) return;
  size_t n; char *p = bytes(x->e[1]->e[1], &n);
  if (t == CEE_SQLITE3_INT) d->i = strtoll(p, NULL, 10);
  else if (t == CEE_SQLITE3_INT64) d->i64 = strtoll(p, NULL, 10);
  else if (t == CEE_SQLITE3_TEXT && n % 2 == 0) d->value = dupz(p, n), keep(d->value);
  else { d->value = exact(p, n); keep(exact_base); d->size = n; }
}
static struct cee_sqlite3_bind_info *fields(N fs) {
  struct cee_sqlite3_bind_info *f = zalloc((fs->n + 1) * sizeof *f);
  for (int i = 0; i < fs->n; i++) {
    N x = fs->e[i];
    f[i].index = i; f[i].var_name = name(x->e[0]); f[i].col_name = name(x->e[1]); f[i].type = type(x->e[2]);
    datum(&f[i].data, x->e[3], f[i].type);
    f[i].no_update = x->e[4]->e[0]->v; f[i].not_null = x->e[4]->e[1]->v; f[i].no_return = x->e[4]->e[2]->v; f[i].no_label = x->e[4]->e[3]->v;
  }
  return f;
}
static struct cee_sqlite3_bind_info *infos(N x) { return is(x, "f") ? fields(x->e[1]) : NULL; }
static struct cee_sqlite3_bind_data *data_(N fs, N ds) {
  struct cee_sqlite3_bind_data *d = zalloc((ds->n + 1) * sizeof *d);
  for (int i = 0; i < ds->n; i++) { d[i].index = i; datum(d + i, ds->e[i], type(fs->e[i]->e[2])); }
  return d;
}
static struct cee_sqlite3_bind_data *datas(N info, N x) { return is(x, "d") ? data_(info->e[1], x->e[1]) : NULL; }
static struct cee_sqlite3_stmt_strs *strs(N sel, N ins, N upd) {
  struct cee_sqlite3_stmt_strs *s = zalloc(sizeof *s);
  s->table_name = "t"; s->select_stmt = sql(sel); s->insert_stmt = sql(ins); s->update_stmt = sql(upd);
  return s;
}
/* operation objects live as long as the case: the same configuration is the same object */
static struct { char *text; struct cee_sqlite3_db_op *op; } ops[256]; static int nops;
static struct cee_sqlite3_db_op *the_op(char *text) {
  for (int i = 0; i < nops; i++) if (!strcmp(ops[i].text, text)) return ops[i].op;
  struct cee_sqlite3_db_op *op = zalloc(sizeof *op); N c = arg(text);
  op->stmts = strs(c->e[2], c->e[3], c->e[4]);
  op->stmts->insert_dynamic = c->e[3]->n == 0;
  if (is(c->e[5], "w")) {
    put("update t set %%s"); where(c->e[5]->e[1]);
    char *w = done(), *q = zalloc(2 * strlen(w) + 1), *r = q;
    for (char *p = w; *p; p++) { *r++ = *p; if (*p == '%' && p - w > 14) *r++ = '%'; }
    op->stmts->update_template = q;
  }
  op->info = infos(c->e[0]);
  if (op->info) {
    N given = c->e[1]; int none = 1;
    for (int i = 0; i < given->n; i++) none &= is(given->e[i], "-");
    if (none && strlen(text) % 2) op = new_cee_sqlite3_db_op(st, op, (c->e[0]->e[1]->n + 1) * sizeof *op->info);
    else op->data = data_(c->e[0]->e[1], given);
  }
  if (nops < 256) { ops[nops].text = keep(strdup(text)); ops[nops++].op = op; }
  return op;
}

/* ---- results */
static const char *code(int rc) { return rc == SQLITE_ROW ? "row" : rc == SQLITE_DONE ? "done" : rc == SQLITE_OK ? "ok?" : "err"; }
static void out_value(sqlite3_stmt *s, int i) {
  char t[40]; double d;
  switch (sqlite3_column_type(s, i)) {
    case SQLITE_NULL: out_raw("[\"z\"]"); return;
    case SQLITE_INTEGER: out_raw("[\"i\","); out_bytes(t, sprintf(t, "%" PRId64, (int64_t)sqlite3_column_int64(s, i))); break;
    case SQLITE_FLOAT: d = sqlite3_column_double(s, i); out_raw("[\"d\","); out_bytes((char *)&d, 8); break;
    case SQLITE_TEXT: { const char *p = (void *)sqlite3_column_text(s, i); out_raw("[\"s\","); out_bytes(p, sqlite3_column_bytes(s, i)); break; }
    default: { const char *p = sqlite3_column_blob(s, i); out_raw("[\"b\","); out_bytes(p, sqlite3_column_bytes(s, i)); }
  }
  out_raw("]");
}
static int mode; /* 0 ok, 1 read only, 2 every step is interrupted */
static int interrupt_(void *p) { return 1; }
static void set_mode(int m) {
  sqlite3_progress_handler(db, 0, NULL, NULL);
  if (sqlite3_exec(db, m == 1 ? "pragma query_only=1" : "pragma query_only=0", 0, 0, 0)) die("pragma");
  if (m == 2) sqlite3_progress_handler(db, 1, interrupt_, NULL);
}
static void observe(void) {
  int open_ = 0;
  for (sqlite3_stmt *s = NULL; (s = sqlite3_next_stmt(db, s)); ) open_++;
  if (!sqlite3_get_autocommit(db)) open_ += 1000;
  set_mode(0);
  sqlite3_stmt *s; int first = 1;
  if (sqlite3_prepare_v2(db, "select id, a, b, c, d from t order by id", -1, &s, 0)) die("the table cannot be read");
  out_raw(",\"o\":[[");
  while (sqlite3_step(s) == SQLITE_ROW) {
    out_raw(first ? "[" : ",["); first = 0;
    for (int i = 0; i < 5; i++) { if (i) out_raw(","); out_value(s, i); }
    out_raw("]");
  }
  out_raw("],%d]}", open_);
  sqlite3_finalize(s);
  set_mode(mode);
}
static J status0(N x) { return is(x, "v") ? value(x->e[1]->src) : NULL; }
static void after(N x, J s) { if (is(x, "no") || !s) out_raw("[\"N\"]"); else dump(s); }

__attribute__((constructor)) static void warm(void) { sqlite3 *d; sqlite3_initialize(); sqlite3_open(":memory:", &d); sqlite3_exec(d, "create table t(a); insert into t values (1); select * from t", 0, 0, 0); sqlite3_close(d); }
void drv_case_begin(void) {
  pool = NULL; npool = pooln = 0; nops = 0; mode = 0; ntmp = 0; sq = NULL; sqn = sqcap = 0;
  st = cee_state_mk(100);
  if (sqlite3_open(":memory:", &db)) die("open");
  sqlite3 *d = db;
  cee_sqlite3_init_db(&d, ":memory:", "create table t(id integer primary key, a unique, b, c not null, d);", true);
  if (d != db) die("init_db changed the database");
  cee_sqlite3_init(&cs, "db", ":memory:", st, db);
}
void drv_case_end(void) {
  if (sqlite3_close(db) != SQLITE_OK) { sqlite3_stmt *s; while ((s = sqlite3_next_stmt(db, NULL))) sqlite3_finalize(s); sqlite3_close(db); die("the database could not be closed"); }
  cee_del(st);
  for (int i = 0; i < npool; i++) free(pool[i]);
  for (int i = 0; i < ntmp; i++) free(tmps[i]);
  free(pool); free(sq); ntmp = 0;
}
struct it { int n, stop; struct cee_sqlite3_bind_info *info; };
static int on_row(void *c, struct cee_state *s, struct cee_sqlite3_bind_info *info, sqlite3_stmt *stmt) {
  struct it *x = c;
  if (s != st || info != x->info || sqlite3_data_count(stmt) == 0) die("select_iter's callback");
  return ++x->n == x->stop ? 7 : 0;
}
static void list_or_none(J j) { if (j) dump(j); else out_raw("[\"N\"]"); }

void drv_op(int argc, char **a) {
  const char *op = a[0];
#define OP(x) (!strcmp(op, x))
  if (OP("mode")) { mode = !strcmp(a[1], "ro") ? 1 : !strcmp(a[1], "int") ? 2 : 0; set_mode(mode); out_raw("{\"r\":0"); observe(); return; }
  if (OP("bulk")) {
    N l = arg(a[1]); J arr = cee_json_array_mk(st, 3);
    for (int i = 0; i < l->n; i++) cee_json_array_append(arr, value(l->e[i]->src));
    int r = cee_sqlite3_insert_json_array(&cs, "t", arr);
    out_raw("{\"r\":%d", r); observe(); return;
  }
  if (OP("next")) {
    N w = arg(a[2]); put(" from t"); where(w); char *from = done() + 1; J s = NULL;
    int r = cee_sqlite3_next_int(&cs, a[1], from, w->n % 2 ? NULL : &s); char t[20];
    out_raw("{\"r\":"); out_bytes(t, sprintf(t, "%d", r)); observe(); return;
  }
  if (OP("join")) {
    J j = value(a[1]); N info = arg(a[2]);
    (cee_json_to_object(j) ? cee_sqlite3_json_object_join_table : cee_sqlite3_json_array_join_table)(&cs, j, infos(info), datas(info, arg(a[3])), sql(arg(a[4])), arg_len[5] ? a[5] : NULL);
    out_raw("{\"r\":"); dump(j); observe(); return;
  }
  if (OP("bind")) {
    N fs = arg(a[1]), given = arg(a[2]); J j = value(a[3]), used = NULL, unused = NULL, errors = NULL;
    struct cee_sqlite3_bind_info *f = fields(fs); struct cee_sqlite3_bind_data *d = data_(fs, given);
    int m = strlen(a[3]) % 5, pre = strlen(a[3]) / 5 % 3;   /* existing arrays are extended */
    if (pre) { J *l[3] = {&used, &unused, &errors}; for (int i = 0; i < 3; i++) if (pre == 1 || i == m % 3) { *l[i] = cee_json_array_mk(st, 1 + i); cee_json_array_append_str(*l[i], "#"); } }
    J u0 = used, n0 = unused, e0 = errors;
    int r = cee_sqlite3_bind_data_from_json(f, d, j, m == 1 ? NULL : &used, m == 2 ? NULL : &unused, m == 3 ? NULL : &errors);
    if (r) die("bind_data_from_json's result");
    if ((u0 && u0 != used) || (n0 && n0 != unused) || (e0 && e0 != errors)) die("bind_data_from_json replaced an array");
    J *l[3] = {u0 ? &used : 0, n0 ? &unused : 0, e0 ? &errors : 0};
    for (int i = 0; i < 3; i++) if (l[i]) {
      struct cee_str *s = cee_json_to_str(cee_json_array_get(*l[i], 0));
      if (!s || strcmp((char *)s, "#")) die("bind_data_from_json lost a reported key");
      cee_json_array_remove(*l[i], 0);
      if (m == i + 1) { if (cee_json_array_length(*l[i])) die("bind_data_from_json wrote to a list it was not given"); *l[i] = NULL; }
    }
    out_raw("{\"r\":[[");
    for (int i = 0; i < fs->n; i++) {
      char t[40];
      if (i) out_raw(",");
      if (!d[i].has_value) out_raw("[\"-\"]");
      else if (d[i].is_null) out_raw("[\"n\",[\"z\"]]");
      else if (f[i].type == CEE_SQLITE3_INT || f[i].type == CEE_SQLITE3_INT64) {
        out_raw("[\"v\",[\"i\","); out_bytes(t, sprintf(t, "%" PRId64, f[i].type == CEE_SQLITE3_INT ? (int64_t)d[i].i : d[i].i64)); out_raw("]]");
      } else { out_raw("[\"v\",[\"%s\",", f[i].type == CEE_SQLITE3_TEXT ? "s" : "b"); out_bytes(d[i].value, f[i].type == CEE_SQLITE3_TEXT && !d[i].size ? strlen(d[i].value) : d[i].size); out_raw("]]"); }
    }
    out_raw("],"); list_or_none(used); out_raw(","); list_or_none(unused); out_raw(","); list_or_none(errors); out_raw("]");
    observe(); return;
  }
  if (OP("op")) {
    struct cee_sqlite3_db_op *o = the_op(a[1]); J j = value(a[3]); N x = arg(a[4]); J s = status0(x), *sp = is(x, "no") ? NULL : &s; const char *k = a[2]; int rc;
    if (!strcmp(k, "ins")) rc = cee_sqlite3_insert_op(&cs, o, j, sp);
    else if (!strcmp(k, "upsert")) rc = cee_sqlite3_update_or_insert_op(&cs, o, j, sp);
    else if (!strcmp(k, "upd")) rc = cee_sqlite3_update_op(&cs, o, j, sp);
    else if (!strcmp(k, "updif")) rc = cee_sqlite3_update_if_exists_op(&cs, o, j, sp);
    else if (!strcmp(k, "sel")) rc = cee_sqlite3_select_op(&cs, o, j, sp);
    else if (!strcmp(k, "sel1ins")) rc = cee_sqlite3_generic_opcode(&cs, j, o->info, o->data, o->stmts, sp, cee_sqlite3_select1_or_insert);
    else bad_op(k);
    out_raw("{\"r\":[\"%s\",", code(rc)); after(x, s); out_raw("]"); observe(); return;
  }
  /* the others: statement(s), fields, data, status */
  N q = arg(a[1]), info = arg(a[2]), x = arg(a[4]);
  struct cee_sqlite3_bind_info *f = infos(info); struct cee_sqlite3_bind_data *d = datas(info, arg(a[3]));
  J s = status0(x), *sp = is(x, "no") ? NULL : &s; char *key = argc > 5 && arg_len[5] ? a[5] : NULL; int rc, id = -77; struct it it = {0, 0, f}; char t[20];
  if (OP("run")) rc = cee_sqlite3_bind_run_sql(&cs, f, d, sql(q), NULL, sp);
  else if (OP("insert")) rc = cee_sqlite3_insert(&cs, f, d, sql(q), sp, key, I(a[6]) ? &id : NULL);
  else if (OP("delete")) rc = cee_sqlite3_delete(&cs, f, d, sql(q), sp, key);
  else if (OP("select")) rc = cee_sqlite3_select(&cs, f, d, sql(q), sp);
  else if (OP("select1")) rc = cee_sqlite3_select1(&cs, f, d, sql(q), sp);
  else if (OP("selas")) rc = cee_sqlite3_select_as(&cs, f, d, sql(q), sp, key);
  else if (OP("sel1as")) rc = cee_sqlite3_select1_as(&cs, f, d, sql(q), sp, key);
  else if (OP("iter")) { it.stop = I(a[5]); rc = cee_sqlite3_select_iter(&cs, f, d, sql(q), &it, on_row, sp); }
  else {
    struct cee_sqlite3_stmt_strs *ss = strs(q->e[0], q->e[1], q->e[2]);
    if (OP("update")) rc = cee_sqlite3_update(&cs, f, d, ss, sp);
    else if (OP("updif")) rc = cee_sqlite3_update_if_exists(&cs, f, d, ss, sp);
    else if (OP("upsert")) rc = cee_sqlite3_update_or_insert(&cs, f, d, ss, sp);
    else if (OP("sel1ins")) rc = cee_sqlite3_select1_or_insert(&cs, f, d, ss, sp);
    else bad_op(op);
  }
  out_raw("{\"r\":[\"%s\",", code(rc)); after(x, s);
  if (OP("insert")) { out_raw(","); if (id == -77) out_raw("[]"); else out_bytes(t, sprintf(t, "%d", id)); }
  if (OP("iter")) out_raw(",%d", it.n);
  out_raw("]"); observe();
}
