/* Managed databases (sqlite3/cee_dbm.c), in a scratch directory of the case's own. */
#include "core.h"
#include <unistd.h>
#include <errno.h>
#include <ftw.h>
#include <sys/stat.h>
#include "cee.h"
#include "cee-json.h"
#include "cee-utils.h"
#include "cee_dbm.h"
#include "jsonval.h"
#include "node.h"

extern int cee_sqlite3_get_pragma_variable(sqlite3 *db, char *name);
static char root[64], home[4096];
char *cee_load_whole_file(const char *f, size_t *len) {
  FILE *h = fopen(f, "rb"); if (!h) die("a script that does not exist is loaded");
  fseek(h, 0, SEEK_END); long n = ftell(h); rewind(h);
  char *p = malloc(n + 1); if (fread(p, 1, n, h) != n) die("read"); p[n] = 0; fclose(h); if (len) *len = n; return p;
}
static sqlite3 *open_(const char *f) { sqlite3 *d; if (sqlite3_open_v2(f, &d, SQLITE_OPEN_READWRITE | SQLITE_OPEN_URI, NULL)) die("open"); return d; }
static void dirs(const char *path) {           /* the directories above path */
  char t[1024]; if (strlen(path) >= sizeof t) die("driver: path"); strcpy(t, path);
  for (char *p = t; (p = strchr(p, '/')); *p++ = '/') { *p = 0; mkdir(t, 0755); }
}
/* effects as statements */
static char *sqltext(N e) {
  char *t = NULL; size_t n; FILE *f = open_memstream(&t, &n);
  for (int i = 0; i < e->n; i++) {
    if (is(e->e[i], "make")) {
      int k = e->e[i]->e[1]->v;          /* the objects of style k */
      fprintf(f, "create table t(x text not null);\n");
      if (k >= 2) fprintf(f, "create index ti on t(x); create table u(y text);\ncreate trigger tt after insert on t begin insert into u values (new.x); end;\n");
      if (k >= 3) fprintf(f, "create view tv as select x from t; create table w(id integer primary key autoincrement, z unique);\n");
    } else if (is(e->e[i], "mark")) { fprintf(f, "insert into t values ('"); N b = e->e[i]->e[1]; for (int j = 0; j < b->n; j++) { if (b->e[j]->v == '\'') putc('\'', f); putc(b->e[j]->v, f); } fprintf(f, "');\n"); }
    else if (is(e->e[i], "ver")) fprintf(f, "pragma user_version = %ld;\n", e->e[i]->e[1]->v);
  }
  fclose(f); return keep(t);
}
static void marks(sqlite3 *d, const char *q) {
  sqlite3_stmt *s; int first = 1; if (sqlite3_prepare_v2(d, q, -1, &s, 0)) die("the marks cannot be read");
  out_raw("["); while (sqlite3_step(s) == SQLITE_ROW) { if (!first) out_raw(","); first = 0; out_bytes((char *)sqlite3_column_text(s, 0), sqlite3_column_bytes(s, 0)); } out_raw("]"); sqlite3_finalize(s);
}
static int count(sqlite3 *d, const char *q) { sqlite3_stmt *s; if (sqlite3_prepare_v2(d, q, -1, &s, 0)) die("count"); sqlite3_step(s); int n = sqlite3_column_int(s, 0); sqlite3_finalize(s); return n; }
static void show(const char *p) {
  out_raw(",\"o\":");
  if (!p || access(p, F_OK)) { out_raw("[]}"); return; }
  sqlite3 *d; if (sqlite3_open_v2(p, &d, SQLITE_OPEN_READWRITE, NULL)) die("show");
  int n = count(d, "select count(*) from sqlite_master where name not like 'sqlite_%'"), t = count(d, "select count(*) from sqlite_master where name = 't'");
  int made = n == 0 ? 0 : n == 1 && t ? 1 : n == 4 && t ? 2 : n == 6 && t ? 3 : 100 + n;
  if (made >= 2 && made <= 3 && count(d, "select (select count(*) from t) <> (select count(*) from u)")) made += 10;      /* the trigger works */
  out_raw("[%d,%d,", cee_sqlite3_get_pragma_variable(d, "user_version"), made);
  if (t) marks(d, "select x from t order by rowid"); else out_raw("[]");
  out_raw("]}");
  if (sqlite3_close(d)) die("close");
}
static char *join_(const char *a, const char *b) { char *t = zalloc(strlen(a) + strlen(b) + 2); sprintf(t, "%s/%s", a, b); return t; }
/* the log entries added since the last call: actions; kinds checked */
static int nlog;
static int logged(const char *dir) { char *f = join_(dir, "cee_dbm_log.db"); if (access(f, F_OK)) return 0; sqlite3 *d = open_(f); int n = count(d, "select count(*) from log"); sqlite3_close(d); return n; }
static void log_(const char *dir, const char *kind) {
  char *f = join_(dir, "cee_dbm_log.db"); out_raw("["); 
  if (access(f, F_OK) == 0) {
    sqlite3 *d = open_(f); sqlite3_stmt *s; int i = 0;
    if (sqlite3_prepare_v2(d, "select kind, action, info from log order by rowid", -1, &s, 0)) die("the log cannot be read");
    while (sqlite3_step(s) == SQLITE_ROW) {
      if (i++ < nlog) continue;
      if (i > nlog + 1) out_raw(",");
      out_str((char *)sqlite3_column_text(s, 1), sqlite3_column_bytes(s, 1));
      if (strcmp((char *)sqlite3_column_text(s, 0), kind) || !sqlite3_column_bytes(s, 2)) die("a log entry has another kind or no text");
    }
    sqlite3_finalize(s); if (sqlite3_close(d)) die("close");
  }
  out_raw("]");
}
/* stand-in for the command processor: it runs nothing; the dump program writes the marks as an insertion script */
static int dump_ok, dumps;
int system(const char *cmd) {
  char from[8192], to[8192], more[2]; dumps++;
  if (!cmd || strlen(cmd) > 8000 || sscanf(cmd, "/cxd/s/dump_insert.sh %8000s > %8000s%1s", from, to, more) != 2) die("a command is run that is no dump");
  if (access(from, F_OK)) die("the dump of no database");
  if (!dump_ok) return 256;
  FILE *f = fopen(to, "w"); if (!f) return 256;
  sqlite3 *d = open_(from); sqlite3_stmt *q;
  if (count(d, "select count(*) from sqlite_master where name = 't'")) {
    if (sqlite3_prepare_v2(d, "select 'insert into t values (' || quote(x) || ');' from t order by rowid", -1, &q, 0)) die("dump");
    while (sqlite3_step(q) == SQLITE_ROW) fprintf(f, "%s\n", (char *)sqlite3_column_text(q, 0));
    sqlite3_finalize(q);
  }
  fclose(f); if (sqlite3_close(d)) die("close");
  return 0;
}
static void set(char *d, size_t n, const char *s) { if (strlen(s) >= n) die("driver: argument too long"); memset(d, 0x7e, n); strcpy(d, s); }
static struct cee_dbm_path_info *paths(const char *s, const char *d, const char *f) {
  struct cee_dbm_path_info *p = zalloc(sizeof *p); set(p->schema_script_path, 128, s); set(p->data_script_path, 128, d); set(p->db_file_path, 128, f); return p;
}
static int rm_(const char *p, const struct stat *s, int f, struct FTW *b) { return remove(p); }
__attribute__((constructor)) static void warm(void) { sqlite3 *d; sqlite3_initialize(); sqlite3_open(":memory:", &d); sqlite3_exec(d, "create table t(a); insert into t values (1); select * from t", 0, 0, 0); sqlite3_close(d); }
void drv_case_begin(void) {
  pool = NULL; npool = pooln = 0; nlog = 0;
  if (!getcwd(home, sizeof home)) die("cwd");
  strcpy(root, "dbm-XXXXXX"); if (!mkdtemp(root) || chdir(root)) die("scratch");
  st = cee_state_mk(10);
}
void drv_case_end(void) {
  cee_del(st);
  if (chdir(home)) die("chdir");
  nftw(root, rm_, 16, FTW_DEPTH | FTW_PHYS | FTW_MOUNT);
  for (int i = 0; i < npool; i++) free(pool[i]);
  free(pool);
}
void drv_op(int argc, char **a) {
  const char *op = a[0];
#define OP(x) (!strcmp(op, x))
  if (OP("script")) { dirs(a[1]); FILE *f = fopen(a[1], "w"); if (!f) die("script"); fputs(sqltext(arg(a[2])), f); fclose(f); out_raw("{\"r\":0"); show(NULL); }
  else if (OP("noscript")) { unlink(a[1]); out_raw("{\"r\":0"); show(NULL); }
  else if (OP("init")) {
    struct cee_dbm_path_info *p = paths(a[2], a[3], a[1]); struct cee_dbm_db_info *s = zalloc(sizeof *s); int v = -99;
    set(s->kind, sizeof s->kind, a[4]); set(s->file, sizeof s->file, a[5]); s->create_version = I(a[7]); s->recreate_db = a[8][0]; s->restore_db = a[8][1]; s->customize_db = a[8][2];
    nlog = logged(a[1]);
    bool r = cee_dbm_db_init(p, s, arg_len[6] ? a[6] : NULL, arg_len[9] ? a[9] : NULL, &v);
    out_raw("{\"r\":[%d,%d,", r, v); log_(a[1], a[4]); out_raw("]"); show(join_(a[1], arg_len[6] ? a[6] : a[5]));
  } else if (OP("exist")) { bool r = cee_dbm_db_exist(paths("s", "d", a[1]), a[2]); out_raw("{\"r\":%d", r); show(join_(a[1], a[2])); }
  else if (OP("backup")) {
    struct cee_dbm_path_info *p = paths("s", a[5], a[1]); struct cee_dbm_db_info *s = zalloc(sizeof *s); set(s->kind, sizeof s->kind, a[2]); set(s->file, sizeof s->file, a[3]);
    int was = access(join_(a[1], arg_len[4] ? a[4] : a[3]), F_OK) == 0;
    dirs(join_(a[5], "x")); dirs(join_(a[1], "x")); dump_ok = I(a[7]); dumps = 0;
    nlog = logged(a[1]);
    bool r = cee_dbm_db_backup(p, s, arg_len[4] ? a[4] : NULL, arg_len[6] ? a[6] : NULL); out_raw("{\"r\":[%d,", r); log_(a[1], a[2]); out_raw("]"); show(join_(a[1], arg_len[4] ? a[4] : a[3]));
    if (dumps != was) die("the dump program is not run once");
  } else if (OP("add")) {
    struct cee_sqlite3 cs; cee_dbm_open_db(st, &cs, paths("s", "d", a[1]), "kind", a[2], open_);
    if (strcmp(cs.db_name, "kind") || strncmp(cs.db_path, join_(a[1], a[2]), sizeof cs.db_path - 1) || !memchr(cs.db_path, 0, sizeof cs.db_path) || cs.state != st) die("the opened database's description");
    struct cee_sqlite3_bind_info f[] = {{.var_name = "@x", .col_name = "x", .type = CEE_SQLITE3_TEXT}, {0}};
    struct cee_sqlite3_bind_data d[] = {{.value = a[3], .size = arg_len[3], .has_value = 1}};
    int rc = cee_sqlite3_insert(&cs, f, d, "insert into t (x) values (@x)", NULL, NULL, NULL);
    out_raw("{\"r\":%d", rc == SQLITE_DONE ? 0 : rc); if (sqlite3_close(cs.db)) die("close"); show(join_(a[1], a[2]));
  } else if (OP("exec")) {
    N e = arg(a[3]); char *p = join_(a[1], a[2]), *t = sqltext(e); int how = I(a[4]); dirs(p); 
    if (how % 3 == 0) cee_sqlite3_init_db(NULL, p, t, how >= 3);
    else if (how % 3 == 1) { sqlite3 *d = NULL; cee_sqlite3_init_db(&d, p, t, how >= 3); if (!d) die("init_db opened nothing"); if (!sqlite3_get_autocommit(d)) die("a transaction is left open"); if (sqlite3_close(d)) die("close"); }
    else { sqlite3 *d, *e2; if (sqlite3_open(p, &d)) die("open"); e2 = d; cee_sqlite3_init_db(&e2, "not/used", t, how >= 3); if (e2 != d || !sqlite3_get_autocommit(d)) die("init_db and the given database"); cee_sqlite3_init_db(&e2, "not/used", NULL, how >= 3); if (e2 != d) die("init_db without statements"); if (sqlite3_close(d)) die("close"); }
    out_raw("{\"r\":0"); show(p);
  } else if (OP("noopen")) {
    sqlite3 *d = NULL; char *q = "create table t(x)";
    cee_sqlite3_init_db(&d, "no/such/directory/x.db", q, I(a[1])); if (d) die("a database that cannot be opened is given");
    cee_sqlite3_init_db(NULL, "no/such/directory/x.db", q, I(a[1]));
    if (access("no", F_OK) == 0) die("a directory appears"); out_raw("{\"r\":0"); show(NULL);
  } else if (OP("drop")) { char *p = join_(a[1], a[2]); cee_sqlite3_drop_all_tables(NULL, p); out_raw("{\"r\":0"); show(p); }
  else if (OP("remove")) { unlink(join_(a[1], a[2])); out_raw("{\"r\":0"); show(join_(a[1], a[2])); }
  else if (OP("attach")) {
    struct cee_sqlite3 cs; struct cee_dbm_path_info *p = paths("s", "d", a[1]); cee_dbm_open_db(st, &cs, p, "k", a[2], open_);
    cee_dbm_attach_db(&cs, p, a[3], "other");
    out_raw("{\"r\":"); marks(cs.db, "select x from other.t order by rowid");
    if (sqlite3_exec(cs.db, "insert into other.t values ('w')", 0, 0, 0) != SQLITE_READONLY) die("the attached database can be written");
    if (sqlite3_close(cs.db)) die("close"); show(join_(a[1], a[2]));
  } else if (OP("sattach")) {
    struct cee_sqlite3 cs; struct cee_dbm_path_info *p = paths("s", "d", a[1]); cee_dbm_open_db(st, &cs, p, "k", a[2], open_);
    size_t n = strlen(sqlite3_db_filename(cs.db, NULL)) + strlen(a[3]) + 40; char *buf = malloc(n), *err = NULL; sqlite3_stmt *q;
    if (cee_sqlite3_attach_db(&cs, a[3], "more", buf, n, &err) || err) die("the database is not attached");
    out_raw("{\"r\":["); marks(cs.db, "select x from more.t order by rowid");
    if (sqlite3_prepare_v2(cs.db, "insert into more.t values (?)", -1, &q, 0)) die("the attached database cannot be written");
    sqlite3_bind_text(q, 1, a[4], arg_len[4], SQLITE_STATIC); if (sqlite3_step(q) != SQLITE_DONE) die("the attached database is not written"); sqlite3_finalize(q);
    if (cee_sqlite3_attach_db(&cs, a[3], "more", buf, n, &err) == SQLITE_OK || !err) die("attached twice under one name"); sqlite3_free(err); err = NULL;
    if (cee_sqlite3_detach_db(&cs, "more", buf, n, &err) || err) die("the database is not detached");
    out_raw(",%d]", sqlite3_prepare_v2(cs.db, "select x from more.t", -1, &q, 0) != SQLITE_OK);
    if (cee_sqlite3_detach_db(&cs, "more", buf, n, &err) == SQLITE_OK || !err) die("detached twice"); sqlite3_free(err);
    free(buf); if (sqlite3_close(cs.db)) die("close"); show(join_(a[1], a[3]));
  } else if (OP("norm")) {
    struct cee_dbm_path_info *p = paths(a[1], a[2], a[3]); char *m = zalloc(sizeof *p + 64); memset(m, 0x55, sizeof *p + 64); memcpy(m + 32, p, sizeof *p);
    struct cee_dbm_path_info *q = malloc(sizeof *q); memcpy(q, p, sizeof *q);
    cee_dbm_path_info_normalize(q, a[4]);
    if (!memchr(q->schema_script_path, 0, 128) || !memchr(q->data_script_path, 0, 128) || !memchr(q->db_file_path, 0, 128)) die("a path is no text any more");
    out_raw("{\"r\":["); out_bytes(q->schema_script_path, strlen(q->schema_script_path)); out_raw(","); out_bytes(q->data_script_path, strlen(q->data_script_path)); out_raw(","); out_bytes(q->db_file_path, strlen(q->db_file_path)); out_raw("]");
    free(q); show(NULL);
  } else {
    size_t r = 0, size = strtoul(a[argc - 1], NULL, 10); char *buf = malloc(size ? size : 1); memset(buf, 0x7e, size ? size : 1);
    if (OP("pathtext")) r = cee_dbm_path_info_snprint(size ? buf : NULL, size, paths(a[1], a[2], a[3]));
    else if (OP("pathtext2")) cee_dbm_path_info2str(paths(a[1], a[2], a[3]), size, buf);
    else if (OP("infotext") || OP("infotext2")) {
      struct cee_dbm_db_info *s = zalloc(sizeof *s); set(s->kind, sizeof s->kind, a[1]); set(s->file, sizeof s->file, a[2]); s->recreate_db = I(a[3]); s->restore_db = I(a[4]); s->create_version = I(a[5]); s->final_version = I(a[6]);
      if (OP("infotext")) r = cee_dbm_settings_snprint(size ? buf : NULL, size, s); else cee_dbm_db_info2str(s, size, buf);
    } else bad_op(op);
    if (size && !memchr(buf, 0, size)) die("the text is not terminated");
    out_raw("{\"r\":["); out_bytes(buf, size ? strlen(buf) : 0); out_raw(",%zu]", r); free(buf); show(NULL);
  }
}
