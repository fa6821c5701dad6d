#include "core.h"
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sanitizer/asan_interface.h>
size_t __sanitizer_get_current_allocated_bytes(void);

const char *__asan_default_options(void) {
  return "exitcode=99:detect_leaks=0:quarantine_size_mb=48:allocator_may_return_null=1:abort_on_error=0:"
         "detect_stack_use_after_return=0:max_malloc_fill_size=4096:malloc_fill_byte=190:thread_local_quarantine_size_kb=64";
}

#define MAXARG 8192
size_t arg_len[MAXARG];
static char *argv_[MAXARG];
static char *ob; static size_t obn;
static int out_fd = 1;

int alive(const void *p) { return !__asan_address_is_poisoned(p); }
long allocated_bytes(void) { return (long)__sanitizer_get_current_allocated_bytes(); }
int I(const char *s) { return atoi(s); }

#define OBCAP (64u << 20)
static void need(size_t n) { if (obn + n + 1 > OBCAP) _exit(93); }
void out_raw(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(NULL, 0, fmt, ap); va_end(ap);
  need(n);
  va_start(ap, fmt); vsnprintf(ob + obn, n + 1, fmt, ap); va_end(ap);
  obn += n;
}
void out_str(const char *s, size_t n) {
  need(n * 6 + 2);
  ob[obn++] = '"';
  for (size_t i = 0; i < n; i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { ob[obn++] = '\\'; ob[obn++] = c; }
    else if (c < 0x20 || c >= 0x7f) { obn += sprintf(ob + obn, "\\u%04x", c); }
    else ob[obn++] = c;
  }
  ob[obn++] = '"'; ob[obn] = 0;
}
void out_cstr(const char *s) { if (!s) out_raw("null"); else out_str(s, strlen(s)); }
static void wr(const char *p, size_t n) {
  while (n) { ssize_t k = write(out_fd, p, n); if (k <= 0) _exit(96); p += k; n -= k; }
}
size_t out_mark(void) { return obn; }
void out_insert(size_t at, const char *s) {
  size_t n = strlen(s); need(n);
  memmove(ob + at + n, ob + at, obn - at); memcpy(ob + at, s, n); obn += n; ob[obn] = 0;
}
void bad_op(const char *op) { fprintf(stderr, "DRIVER: unknown op %s\n", op); _exit(95); }

static void on_alarm(int sig) { (void)sig; static const char m[] = "@hang\n"; wr(m, sizeof m - 1); _exit(97); }

static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static int split(char *line) {
  int n = 0; char *p = line;
  while (*p) {
    while (*p == ' ') p++;
    if (!*p) break;
    char *s = p, *d = p; argv_[n] = s;
    while (*p && *p != ' ') {
      if (*p == '%') { if (p[1] && p[1] != ' ') { *d++ = hexv(p[1]) * 16 + hexv(p[2]); p += 3; } else p++; }
      else *d++ = *p++;
    }
    int more = *p == ' ';
    arg_len[n] = d - s; *d = 0; n++;
    if (more) p++;
  }
  argv_[n] = NULL;
  return n;
}

/* usage: drv SCRIPT OUT [seconds-per-case]
 * script lines: "case N" begins a case, "end" ends it; other lines are ops; a leading '-' makes an op quiet.
 * output lines: "@c N" at case begin, one JSON line per non-quiet op, "@e LEAK" at case end. */
int main(int argc, char **argv) {
  if (argc < 3) return 94;
  int secs = argc > 3 ? atoi(argv[3]) : 20;
  FILE *in = fopen(argv[1], "r");
  out_fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (!in || out_fd < 0) return 94;
  signal(SIGALRM, on_alarm);
  ob = mmap(NULL, OBCAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  const size_t cap = 16u << 20;
  char *line = mmap(NULL, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  char tmp[64];
  long base = 0;
  while (fgets(line, cap, in)) {
    size_t n = strlen(line);
    if (n && line[n - 1] == '\n') line[--n] = 0;
    if (!strncmp(line, "case ", 5)) {
      wr(tmp, sprintf(tmp, "@c %d\n", atoi(line + 5)));
      alarm(secs);
      base = allocated_bytes();
      drv_case_begin();
      continue;
    }
    if (!strcmp(line, "end")) {
      drv_case_end();
      long d = allocated_bytes() - base;
      alarm(0);
      wr(tmp, sprintf(tmp, "@e %ld\n", d));
      continue;
    }
    int quiet = line[0] == '-';
    int ac = split(line + quiet);
    if (!ac) continue;
    obn = 0; ob[0] = 0;
    drv_op(ac, argv_);
    if (!quiet) { need(2); ob[obn++] = '\n'; wr(ob, obn); }
  }
  return 0;
}
