/* C models of libc services, linked with the code under symbolic execution. */
typedef unsigned long size_t; typedef long ssize_t; typedef unsigned long uint64_t; typedef long int64_t;
typedef __builtin_va_list va_list;
void *malloc(size_t); void *realloc(void *, size_t); void free(void *); void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t);
int64_t sym_conc(int64_t); int sym_branch(int);
#define NULL ((void *)0)
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
int memcmp(const void *x, const void *y, size_t n) { const unsigned char *a = x, *b = y; for (; n; n--, a++, b++) if (*a != *b) return *a - *b; return 0; }
void *memchr(const void *s, int c, size_t n) { const unsigned char *a = s; for (; n; n--, a++) if (*a == (unsigned char)c) return (void *)a; return NULL; } int bcmp(const void *x, const void *y, size_t n) { return memcmp(x, y, n); }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); memcpy(r, s, n); return r; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (; ; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return NULL; } }
char *strpbrk(const char *s, const char *a) { for (; *s; s++) if (strchr(a, *s)) return (char *)s; return NULL; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); } int isdigit(int c) { return c >= '0' && c <= '9'; } int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); } int isalnum(int c) { return isdigit(c) || isalpha(c); }
static unsigned short ctab[384]; static const unsigned short *ctp; const unsigned short **__ctype_b_loc(void) { if (!ctp) { for (int i = 0; i < 256; i++) { unsigned short f = 0; if (isdigit(i)) f |= 2048; if (isalpha(i)) f |= 1024; if (isalnum(i)) f |= 8; if (isspace(i)) f |= 8192; ctab[i + 128] = f; } ctp = ctab + 128; } return &ctp; }
static __int128 sto(const char *s, char **e, int base, int *any) { const char *p = s; while (isspace(*p)) p++; int neg = 0; if (*p == '+' || *p == '-') { neg = *p == '-'; p++; } __int128 v = 0; *any = 0; if (base == 0) base = 10; for (; *p >= '0' && *p <= '9'; p++) { v = v * 10 + (*p - '0'); *any = 1; if (v > ((__int128)1 << 70)) v = (__int128)1 << 70; } if (e) *e = (char *)(*any ? p : s); return neg ? -v : v; }
long strtol(const char *s, char **e, int b) { int any; __int128 v = sto(s, e, b, &any); if (v > 9223372036854775807LL) return 9223372036854775807LL; if (v < -(__int128)9223372036854775807LL - 1) return -9223372036854775807LL - 1; return (long)v; }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); } long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); } long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { int any; __int128 v = sto(s, e, b, &any); if (v > (__int128)18446744073709551615ULL || v < -(__int128)18446744073709551615ULL) return ~0UL; return (unsigned long)v; }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); } unsigned long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); } unsigned long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, NULL, 10); } long atol(const char *s) { return strtol(s, NULL, 10); }
int abs(int x) { return x < 0 ? -x : x; } long labs(long x) { return x < 0 ? -x : x; }
/* sorting: stable merge sort, as glibc */
static void ms(char *b, char *t, size_t n, size_t w, int (*c)(const void *, const void *, void *), void *arg, int (*c2)(const void *, const void *)) {
  if (n < 2) return; size_t h = n / 2; ms(b, t, h, w, c, arg, c2); ms(b + h * w, t, n - h, w, c, arg, c2); size_t i = 0, j = h, k = 0;
  while (i < h && j < n) { int r = c ? c(b + i * w, b + j * w, arg) : c2(b + i * w, b + j * w); if (r <= 0) { memcpy(t + k * w, b + i * w, w); i++; } else { memcpy(t + k * w, b + j * w, w); j++; } k++; }
  while (i < h) { memcpy(t + k * w, b + i * w, w); i++; k++; } memcpy(b, t, k * w); }
void qsort(void *b, size_t n, size_t w, int (*c)(const void *, const void *)) { if (n < 2) return; char *t = malloc(n * w); ms(b, t, n, w, NULL, NULL, c); free(t); }
void qsort_r(void *b, size_t n, size_t w, int (*c)(const void *, const void *, void *), void *arg) { if (n < 2) return; char *t = malloc(n * w); ms(b, t, n, w, c, arg, NULL); free(t); }
/* stdio */
typedef struct SF { char *buf; size_t len, pos, cap; int out, eof, open; int idx; } SF;
static SF so = {0, 0, 0, 0, 2, 0, 1, -1}, se = {0, 0, 0, 0, 2, 0, 1, -1}; SF *stdout = &so, *stderr = &se, *stdin = NULL;
#define NF 16
static struct { char name[64]; char *buf; size_t len; } fs[NF]; static int nfs;
static int ffind(const char *n) { for (int i = 0; i < nfs; i++) if (!strcmp(fs[i].name, n)) return i; return -1; }
void sym_file(const char *n, const char *b, uint64_t len) { int i = ffind(n); if (i < 0) i = nfs++; strcpy(fs[i].name, n); fs[i].buf = malloc(len + 1); memcpy(fs[i].buf, b, len); fs[i].len = len; }
const char *sym_path(const char *n) { return n; }
uint64_t sym_outfile(const char *n, char *b, uint64_t cap) { int i = ffind(n); if (i < 0) return ~0UL; uint64_t l = fs[i].len < cap ? fs[i].len : cap; memcpy(b, fs[i].buf, l); return fs[i].len; }
SF *fopen(const char *n, const char *mode) { if (!n) return NULL; int i = ffind(n); if (mode[0] == 'r') { if (i < 0) return NULL; SF *f = malloc(sizeof *f); memset(f, 0, sizeof *f); f->buf = fs[i].buf; f->len = fs[i].len; f->open = 1; f->idx = i; return f; }
  if (i < 0) { i = nfs++; strcpy(fs[i].name, n); } if (mode[0] == 'w') { fs[i].buf = NULL; fs[i].len = 0; } SF *f = malloc(sizeof *f); memset(f, 0, sizeof *f); f->out = 1; f->open = 1; f->idx = i; if (fs[i].len) { f->buf = malloc(fs[i].len); memcpy(f->buf, fs[i].buf, fs[i].len); f->len = f->cap = fs[i].len; } return f; }
static void fsync_(SF *f) { if (f->idx >= 0) { fs[f->idx].buf = malloc(f->len + 1); memcpy(fs[f->idx].buf, f->buf, f->len); fs[f->idx].len = f->len; } }
int fclose(SF *f) { if (f == stdout || f == stderr) return 0; if (f->out) fsync_(f); free(f); return 0; }
int fflush(SF *f) { return 0; }
int feof(SF *f) { return f->eof; }
int fgetc(SF *f) { if (f->pos >= f->len) { f->eof = 1; return -1; } return (unsigned char)f->buf[f->pos++]; } int getc(SF *f) { return fgetc(f); }
int ungetc(int c, SF *f) { if (c >= 0 && f->pos) f->pos--; f->eof = 0; return c; }
void rewind(SF *f) { f->pos = 0; f->eof = 0; } int fseek(SF *f, long o, int w) { f->pos = w == 0 ? o : w == 1 ? f->pos + o : f->len + o; f->eof = 0; return 0; } long ftell(SF *f) { return f->pos; }
ssize_t getdelim(char **l, size_t *n, int d, SF *f) { if (f->pos >= f->len) { f->eof = 1; return -1; } size_t s = f->pos, e = s; int hit = 0; while (e < f->len) { if (f->buf[e++] == (char)d) { hit = 1; break; } } if (!hit) f->eof = 1; size_t k = e - s; if (!*l || *n < k + 1) { size_t c = k + 1 > 120 ? k + 1 : 120; *l = realloc(*l, c); *n = c; } memcpy(*l, f->buf + s, k); (*l)[k] = 0; f->pos = e; return k; }
ssize_t getline(char **l, size_t *n, SF *f) { return getdelim(l, n, '\n', f); } ssize_t __getdelim(char **l, size_t *n, int d, SF *f) { return getdelim(l, n, d, f); }
char *fgets(char *b, int n, SF *f) { int i = 0; while (i < n - 1) { if (f->pos >= f->len) { f->eof = 1; break; } char c = f->buf[f->pos++]; b[i++] = c; if (c == '\n') break; } if (!i) return NULL; b[i] = 0; return b; }
static void oc(SF *f, char c) { if (f->len == f->cap) { f->cap = f->cap ? 2 * f->cap : 256; f->buf = realloc(f->buf, f->cap); } f->buf[f->len++] = c; }
typedef struct Snk { SF *f; char *b; size_t cap, n; } Snk;
static void em(Snk *s, char c) { if (s->f) oc(s->f, c); else { if (s->n + 1 < s->cap) s->b[s->n] = c; s->n++; } }
static void emu(Snk *s, unsigned long v, int neg, int wd, char pad) { char t[24]; int k = 0; unsigned long x = v; do { t[k++] = '0' + (char)(x % 10); x /= 10; } while (sym_branch(x != 0)); if (neg) t[k++] = '-'; for (int i = k; i < wd; i++) em(s, pad); while (k) em(s, t[--k]); }
static void vf(Snk *s, const char *fmt, va_list ap) {
  for (; *fmt; fmt++) { if (*fmt != '%') { em(s, *fmt); continue; } fmt++; int l = 0, wd = 0; char pad = ' '; if (*fmt == '-') fmt++; if (*fmt == '0') { pad = '0'; fmt++; } while (*fmt >= '0' && *fmt <= '9') wd = wd * 10 + (*fmt++ - '0'); if (*fmt == '.') { fmt++; while ((*fmt >= '0' && *fmt <= '9') || *fmt == '*') { if (*fmt == '*') (void)__builtin_va_arg(ap, int); fmt++; } } int h = 0; while (*fmt == 'l' || *fmt == 'z' || *fmt == 'h' || *fmt == 'j') { if (*fmt == 'h') h++; else l++; fmt++; }
    switch (*fmt) { case 'd': case 'i': { long v; if (l) v = __builtin_va_arg(ap, long); else v = __builtin_va_arg(ap, int); int neg = sym_branch(v < 0); emu(s, neg ? -(unsigned long)v : (unsigned long)v, neg, wd, pad); break; }
    case 'u': { unsigned long v; if (l) v = __builtin_va_arg(ap, unsigned long); else v = __builtin_va_arg(ap, unsigned); emu(s, v, 0, wd, pad); break; }
    case 's': { char *p = __builtin_va_arg(ap, char *); while (*p) em(s, *p++); break; } case 'c': em(s, (char)__builtin_va_arg(ap, int)); break; case '%': em(s, '%'); break;
    case 'f': case 'g': case 'e': (void)__builtin_va_arg(ap, double); em(s, '0'); break; case 'p': case 'x': case 'X': (void)__builtin_va_arg(ap, long); em(s, '0'); break; default: break; } } }
int vfprintf(SF *f, const char *fmt, va_list ap) { if (f->out == 2) return 1; Snk s = {f, 0, 0, 0}; vf(&s, fmt, ap); return 1; }
int fprintf(SF *f, const char *fmt, ...) { if (f->out == 2) return 1; va_list ap; __builtin_va_start(ap, fmt); vfprintf(f, fmt, ap); __builtin_va_end(ap); return 1; }
int printf(const char *fmt, ...) { return 1; } int flint_printf(const char *fmt, ...) { return 1; } int puts(const char *s) { return 1; } int putchar(int c) { return c; }
int snprintf(char *b, size_t n, const char *fmt, ...) { va_list ap; __builtin_va_start(ap, fmt); Snk s = {NULL, b, n, 0}; vf(&s, fmt, ap); __builtin_va_end(ap); if (n) b[s.n < n ? s.n : n - 1] = 0; return (int)s.n; }
int sprintf(char *b, const char *fmt, ...) { va_list ap; __builtin_va_start(ap, fmt); Snk s = {NULL, b, 1UL << 30, 0}; vf(&s, fmt, ap); __builtin_va_end(ap); b[s.n] = 0; return (int)s.n; }
size_t fwrite(const void *p, size_t w, size_t n, SF *f) { if (f->out == 2) return n; const char *c = p; for (size_t i = 0; i < w * n; i++) oc(f, c[i]); return n; }
int fputc(int c, SF *f) { if (f->out != 2) oc(f, (char)c); return c; } int putc(int c, SF *f) { return fputc(c, f); } int fputs(const char *s, SF *f) { if (f->out != 2) while (*s) oc(f, *s++); return 1; }
__attribute__((weak)) double cputime(void) { return 0; } __attribute__((weak)) double realtime(void) { return 0; }
/* getopt: short options, each argument separate or attached */
char *optarg; int optind = 1, opterr = 1, optopt; static int optpos;
int getopt(int ac, char *const *av, const char *os) { optarg = NULL; if (!optpos) { if (optind >= ac || av[optind][0] != '-' || !av[optind][1]) return -1; optpos = 1; }
  char c = av[optind][optpos++]; char *p = strchr(os, c); if (!p || c == ':') { optopt = c; if (!av[optind][optpos]) { optind++; optpos = 0; } return '?'; }
  if (p[1] == ':') { if (av[optind][optpos]) optarg = av[optind] + optpos; else if (p[2] != ':') { if (++optind >= ac) return '?'; optarg = av[optind]; } optind++; optpos = 0; } else if (!av[optind][optpos]) { optind++; optpos = 0; } return c; }
double pow(double b, double e) { double r = 1; for (int i = 0; i < (int)e; i++) r *= b; return r; }
