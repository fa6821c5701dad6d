/* Arguments that are nested values (compact JSON of lists, texts and numbers), and memory kept until the case ends. */
#ifndef NODE_H
#define NODE_H
static void **pool; static int npool, pooln;
static void *keep(void *p) { if (npool == pooln) pool = realloc(pool, sizeof *pool * (pooln = pooln * 2 + 64)); return pool[npool++] = p; }
static void *zalloc(size_t n) { return keep(calloc(1, n ? n : 1)); }

typedef struct node { char k; char *src, *str; int n; struct node **e; long v; } *N;     /* k: l list, s text, i number */
static char *np;
static N node(void) {
  N x = zalloc(sizeof *x); x->src = np;
  if (*np == '[') {
    x->k = 'l'; np++; int cap = 0;
    while (*np != ']') { if (x->n == cap) { cap = cap * 2 + 4; N *e = zalloc(cap * sizeof *e); if (x->n) memcpy(e, x->e, x->n * sizeof *e); x->e = e; } x->e[x->n++] = node(); if (*np == ',') np++; }
    np++;
  } else if (*np == '"') { x->k = 's'; char *q = ++np; while (*np != '"') np++; x->str = keep(strndup(q, np - q)); np++; }
  else { x->k = 'i'; char *q = np; x->v = strtol(np, &np, 10); if (q == np) { fprintf(stderr, "DRIVER: argument at %.30s\n", q); _exit(95); } }
  return x;
}
static N arg(char *s) { np = *s ? s : "[]"; return node(); }
static int is(N x, const char *s) { return x->k == 'l' && x->n && x->e[0]->k == 's' && !strcmp(x->e[0]->str, s); }
static char *bytes(N x, size_t *len) { char *p = zalloc(x->n + 1); for (int i = 0; i < x->n; i++) p[i] = x->e[i]->v; if (len) *len = x->n; return p; }
static char *name(N x) { return bytes(x, NULL); }

#endif
