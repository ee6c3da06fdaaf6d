/* libc model for vse: plain C so that symbolic bytes flow through it.
   Part of every claim: see DESIGN.md "Models". */
#include <stdarg.h>
#include <stddef.h>
typedef unsigned long u64;
void *malloc(size_t); void free(void *); void *realloc(void *, size_t); void *calloc(size_t, size_t);
void *memcpy(void *, const void *, size_t); void *memmove(void *, const void *, size_t); void *memset(void *, int, size_t);
void vf_end(void); void vf_fail_(const char *); long vf_concrete(long); int vf_is_sym(long);
int vf_native(void) { return 0; }
/* ---- ctype (C locale) ---- */
static int err_; int *__errno_location(void) { return &err_; }
#define R(a, b) (((unsigned)c - (unsigned)(a)) <= (unsigned)((b) - (a)))
int isdigit(int c) { return R('0', '9'); }
int isupper(int c) { return R('A', 'Z'); }
int islower(int c) { return R('a', 'z'); }
int isalpha(int c) { return R('A', 'Z') | R('a', 'z'); }
int isalnum(int c) { return R('A', 'Z') | R('a', 'z') | R('0', '9'); }
int isspace(int c) { return (c == ' ') | R(9, 13); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int isxdigit(int c) { return R('A', 'F') | R('a', 'f') | R('0', '9'); }
int isprint(int c) { return R(32, 126); }
int isgraph(int c) { return R(33, 126); }
int ispunct(int c) { return R(33, 126) & !isalnum(c); }
int iscntrl(int c) { return R(0, 31) | (c == 127); }
int toupper(int c) { return c - (R('a', 'z') ? 32 : 0); }
int tolower(int c) { return c + (R('A', 'Z') ? 32 : 0); }
static unsigned short ctb[384]; static int ctu[384], ctl_[384]; static const unsigned short *ctbp; static const int *ctup, *ctlp; static int cti;
static void ctinit(void) {
  int c; if (cti) return; cti = 1;
  for (c = -128; c < 256; c++) {
    int d = c < 0 ? 1000 : c; unsigned short v = 0;
    if (isupper(d)) v |= 1 << 8; if (islower(d)) v |= 1 << 9; if (isalpha(d)) v |= 1 << 10; if (isdigit(d)) v |= 1 << 11;
    if (isxdigit(d)) v |= 1 << 12; if (isspace(d)) v |= 1 << 13; if (isprint(d)) v |= 1 << 14; if (isgraph(d)) v |= 1 << 15;
    if (isblank(d)) v |= 1 << 0; if (iscntrl(d)) v |= 1 << 1; if (ispunct(d)) v |= 1 << 2; if (isalnum(d)) v |= 1 << 3;
    ctb[c + 128] = v; ctu[c + 128] = c < 0 ? c : toupper(c); ctl_[c + 128] = c < 0 ? c : tolower(c);
  }
  ctbp = ctb + 128; ctup = ctu + 128; ctlp = ctl_ + 128;
}
const unsigned short **__ctype_b_loc(void) { ctinit(); return &ctbp; }
const int **__ctype_toupper_loc(void) { ctinit(); return &ctup; }
const int **__ctype_tolower_loc(void) { ctinit(); return &ctlp; }
size_t __ctype_get_mb_cur_max(void) { return 1; }
/* ---- string ---- */
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *p = d + strlen(d); while (n-- && *s) *p++ = *s++; *p = 0; return d; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return *(unsigned char *)a - *(unsigned char *)b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? *(unsigned char *)a - *(unsigned char *)b : 0; }
int strcasecmp(const char *a, const char *b) { int x, y; do { x = tolower(*(unsigned char *)a++); y = tolower(*(unsigned char *)b++); } while (x && x == y); return x - y; }
int strncasecmp(const char *a, const char *b, size_t n) { int x = 0, y = 0; while (n--) { x = tolower(*(unsigned char *)a++); y = tolower(*(unsigned char *)b++); if (!x || x != y) break; } return x - y; }
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
int memcmp(const void *a_, const void *b_, size_t n) { const unsigned char *a = a_, *b = b_; while (n--) { if (*a != *b) return *a - *b; a++; b++; } return 0; }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n--; p++) if (*p == (unsigned char)c) return (void *)p; return 0; }
void *memrchr(const void *s, int c, size_t n) { const unsigned char *p = (const unsigned char *)s + n; while (n--) if (*--p == (unsigned char)c) return (void *)p; return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strchrnul(const char *s, int c) { for (; *s && *s != (char)c; s++); return (char *)s; }
char *index(const char *s, int c) { return strchr(s, c); }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *rindex(const char *s, int c) { return strrchr(s, c); }
static int inset(char ch, const char *set) { int r = 0; for (; *set; set++) r |= (ch == *set); return r; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && inset(s[n], a)) n++; return n; }
size_t strcspn(const char *s, const char *r) { size_t n = 0; while (s[n] && !inset(s[n], r)) n++; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
char *strstr(const char *h, const char *n) {
  size_t i; if (!*n) return (char *)h;
  for (; *h; h++) { for (i = 0; n[i] && h[i] == n[i]; i++); if (!n[i]) return (char *)h; }
  return 0;
}
char *strcasestr(const char *h, const char *n) {
  size_t i; if (!*n) return (char *)h;
  for (; *h; h++) { for (i = 0; n[i] && tolower((unsigned char)h[i]) == tolower((unsigned char)n[i]); i++); if (!n[i]) return (char *)h; }
  return 0;
}
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); if (p) memcpy(p, s, n); return p; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
char *strtok_r(char *s, const char *d, char **sv) { char *r; if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return 0; } r = s; s += strcspn(s, d); if (*s) *s++ = 0; *sv = s; return r; }
char *strtok(char *s, const char *d) { static char *sv; return strtok_r(s, d, &sv); }
char *strerror(int e) { return "error"; }
/* ---- stdlib ---- */
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
typedef struct { int quot, rem; } div_t_; div_t_ div(int a, int b) { div_t_ r = {a / b, a % b}; return r; }
static int digv(char c) { return R('0', '9') ? c - '0' : R('a', 'z') ? c - 'a' + 10 : R('A', 'Z') ? c - 'A' + 10 : 99; }
static u64 stou(const char *s, char **e, int base, int *neg, int *ov, u64 lim) {
  const char *p = s, *st; u64 v = 0; int any = 0, d; *neg = 0; *ov = 0;
  while (isspace((unsigned char)*p)) p++;
  if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digv(p[2]) < 16) { p += 2; base = 16; }
  else if (base == 0) base = p[0] == '0' ? 8 : 10;
  for (; (d = digv(*p)) < base; p++) { any = 1; if (v > (lim - d) / base) *ov = 1; else v = v * base + d; }
  if (e) *e = (char *)(any ? p : s);
  return v;
}
long strtol(const char *s, char **e, int b) { int n, o; u64 v = stou(s, e, b, &n, &o, 0x8000000000000000UL); if (!n && v > 0x7fffffffffffffffUL) o = 1; if (o) { err_ = 34; return n ? (long)0x8000000000000000UL : 0x7fffffffffffffffL; } return n ? (long)(0 - v) : (long)v; }
u64 strtoul(const char *s, char **e, int b) { int n, o; u64 v = stou(s, e, b, &n, &o, ~0UL); if (o) { err_ = 34; return ~0UL; } return n ? 0 - v : v; }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
u64 __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
double strtod(const char *s, char **e) { /* digits[.digits][e[+-]dd]; exact below 2^53 and |exp10|<=22 */
  const char *p = s; int neg = 0, any = 0, ex = 0; double v = 0, f = 1; long iv = 0; int nd = 0;
  while (isspace((unsigned char)*p)) p++;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  for (; isdigit((unsigned char)*p) && nd < 15; nd++) { iv = iv * 10 + (*p - '0'); any = 1; p++; }
  v = (double)iv;
  while (isdigit((unsigned char)*p)) { v = v * 10 + (*p - '0'); any = 1; p++; }
  if (*p == '.') { p++; while (isdigit((unsigned char)*p)) { v = v * 10 + (*p - '0'); f *= 10; any = 1; p++; } }
  if (!any) { if (e) *e = (char *)s; return 0; }
  if (f != 1) v /= f;
  if (*p == 'e' || *p == 'E') { const char *q = p + 1; int en = 0; if (*q == '-') { en = 1; q++; } else if (*q == '+') q++;
    if (isdigit((unsigned char)*q)) { while (isdigit((unsigned char)*q)) { if (ex < 1000) ex = ex * 10 + (*q - '0'); q++; } p = q; while (ex--) v = en ? v / 10 : v * 10; } }
  if (e) *e = (char *)p;
  return neg ? -v : v;
}
double atof(const char *s) { return strtod(s, 0); }
/* stable insertion sort: one admissible qsort; a comparator that is no total
   order is visible through the properties that use the array */
void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  char *a = b, *t = malloc(sz ? sz : 1); size_t i, j;
  for (i = 1; i < n; i++) { memcpy(t, a + i * sz, sz); for (j = i; j > 0 && cmp(a + (j - 1) * sz, t) > 0; j--) memcpy(a + j * sz, a + (j - 1) * sz, sz); memcpy(a + j * sz, t, sz); }
  free(t);
}
void *bsearch(const void *k, const void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; const char *p = (const char *)b + m * sz; int c = cmp(k, p); if (c < 0) hi = m; else if (c > 0) lo = m + 1; else return (void *)p; } return 0;
}
static unsigned rs = 1; int rand(void) { rs = rs * 1103515245u + 12345u; return (int)(rs >> 1); } void srand(unsigned s) { rs = s; }
int fflush();
void exit(int c) { fflush(0); vf_end(); for (;;); } void _exit(int c) { vf_end(); for (;;); }
int atexit(void (*f)(void)) { return 0; }
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { vf_fail_("assertion failed"); }
/* ---- environment ---- */
char **environ; static char *env0[1];
char *getenv(const char *n) { size_t l = strlen(n); char **e = environ; if (!e) return 0; for (; *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1; return 0; }
static void envadd(char *s) { size_t n = 0, i; char **ne; while (environ && environ[n]) n++; ne = malloc((n + 2) * sizeof(char *)); for (i = 0; i < n; i++) ne[i] = environ[i]; ne[n] = s; ne[n + 1] = 0; environ = ne; }
int unsetenv(const char *n) { size_t l = strlen(n); char **e = environ, **o; if (!e) return 0; for (o = e; *e; e++) if (strncmp(*e, n, l) || (*e)[l] != '=') *o++ = *e; *o = 0; return 0; }
int clearenv(void) { environ = 0; return 0; }
int setenv(const char *n, const char *v, int ow) { size_t a = strlen(n), b = strlen(v); char *s; if (getenv(n)) { if (!ow) return 0; unsetenv(n); } s = malloc(a + b + 2); memcpy(s, n, a); s[a] = '='; memcpy(s + a + 1, v, b + 1); envadd(s); return 0; }
int putenv(char *s) { size_t l = strcspn(s, "="); char *n = strndup(s, l); unsetenv(n); free(n); if (s[l]) envadd(s); return 0; }
/* ---- file system, descriptors, stdio: all in memory ---- */
#define NN 48
#define NO 48
#define NFD 48
static struct nd { char path[96]; char *buf; size_t len, cap; int used, dir, ref; unsigned mode; long ino; } node[NN];
static struct od { int rc, node, pipe, wr, rd, app; size_t pos; } ofd[NO]; /* pipe: 0 file, 1 pipe, 2 std stream */
static int fdt[NFD], fdx[NFD], fsi; static char cwd_[256] = "/w"; static long inos = 1;
static int nalloc(void) { int i; for (i = 1; i < NN; i++) if (!node[i].used && !node[i].ref) { memset(&node[i], 0, sizeof node[i]); node[i].ino = inos++; return i; } vf_fail_("model: too many files"); return -1; }
static void fsinit(void) {
  int i, k; if (fsi) return; fsi = 1;
  for (i = 0; i < NFD; i++) fdt[i] = -1;
  k = nalloc(); node[k].used = node[k].dir = 1; node[k].mode = 0755; strcpy(node[k].path, "/");
  k = nalloc(); node[k].used = node[k].dir = 1; node[k].mode = 0755; strcpy(node[k].path, "/w");
  k = nalloc(); node[k].used = 1; node[k].mode = 0666; strcpy(node[k].path, "/dev/null");
  for (i = 0; i < 3; i++) { k = nalloc(); node[k].ref = 1; ofd[i].rc = 1; ofd[i].node = k; ofd[i].pipe = 0; ofd[i].rd = i == 0; ofd[i].wr = i != 0; ofd[i].app = i != 0; fdt[i] = i; }
}
static int nfindp(const char *o);
/* absolute, normalised path */
static int norm(const char *n, char *o) {
  size_t l; const char *p;
  if (!n || !*n) { err_ = 2; return -1; }
  if (*n == '/') { o[0] = 0; l = 0; } else { strcpy(o, cwd_); l = strlen(o); if (l == 1) { l = 0; o[0] = 0; } }
  for (p = n; *p;) {
    const char *q; while (*p == '/') p++; if (!*p) break;
    for (q = p; *q && *q != '/'; q++);
    if (*p == '.' && (q - p == 1 || (q - p == 2 && p[1] == '.')) && l) { int k = nfindp(o); if (k < 0 || !node[k].dir) { err_ = k < 0 ? 2 : 20; return -1; } }
    if (q - p == 1 && *p == '.') ;
    else if (q - p == 2 && p[0] == '.' && p[1] == '.') { while (l && o[--l] != '/'); o[l] = 0; }
    else { if (l + 1 + (q - p) >= 95) { err_ = 36; return -1; } o[l++] = '/'; memcpy(o + l, p, q - p); l += q - p; o[l] = 0; }
    p = q;
  }
  if (!l) { o[0] = '/'; o[1] = 0; }
  return 0;
}
static int nfindp(const char *o) { int i; fsinit(); for (i = 1; i < NN; i++) if (node[i].used && !strcmp(node[i].path, o)) return i; return -1; }
static int parent_ok(const char *o) { char b[96]; char *s; int k; strcpy(b, o); s = strrchr(b, '/'); if (s == b) s++; *s = 0; k = nfindp(b); if (k < 0) { err_ = 2; return 0; } if (!node[k].dir) { err_ = 20; return 0; } return 1; }
static int nfind(const char *n) { char o[96]; int k; size_t l; fsinit(); if (norm(n, o)) return -1; k = nfindp(o); if (k < 0) { err_ = 2; parent_ok(o); return -1; } l = strlen(n); if (n[l - 1] == '/' && !node[k].dir) { err_ = 20; return -1; } return k; }
static int ncreate(const char *n, int dir, unsigned mode) { char o[96]; int k; size_t l = strlen(n); if (norm(n, o) || !parent_ok(o)) return -1; if (!dir && l && n[l - 1] == '/') { err_ = 21; return -1; } k = nalloc(); node[k].used = 1; node[k].dir = dir; node[k].mode = mode; strcpy(node[k].path, o); return k; }
static int newfd(int o) { int i; for (i = 0; i < NFD; i++) if (fdt[i] < 0) { fdt[i] = o; fdx[i] = 0; ofd[o].rc++; return i; } err_ = 24; vf_fail_("model: too many descriptors"); return -1; }
static int newofd(int nd) { int i; for (i = 0; i < NO; i++) if (!ofd[i].rc) { memset(&ofd[i], 0, sizeof ofd[i]); ofd[i].node = nd; node[nd].ref++; return i; } vf_fail_("model: too many open files"); return -1; }
static int okfd(int fd) { fsinit(); if (fd < 0 || fd >= NFD || fdt[fd] < 0) { err_ = 9; return 0; } return 1; }
int close(int fd) { struct od *o; if (!okfd(fd)) return -1; o = &ofd[fdt[fd]]; fdt[fd] = -1; if (--o->rc == 0) node[o->node].ref--; return 0; }
int vf_fd_live(void) { int i, n = 0; fsinit(); for (i = 0; i < NFD; i++) n += fdt[i] >= 0; return n; }
int open(const char *n, int fl, ...) { /* O_RDONLY 0 O_WRONLY 1 O_RDWR 2 O_CREAT 0100 O_EXCL 0200 O_TRUNC 01000 O_APPEND 02000 */
  int k = nfind(n), o; va_list ap; unsigned m = 0;
  if (fl & 0100) { va_start(ap, fl); m = va_arg(ap, unsigned); va_end(ap); }
  if (k < 0) { if (!(fl & 0100)) return -1; k = ncreate(n, 0, m & ~022); if (k < 0) return -1; }
  else { if ((fl & 0300) == 0300) { err_ = 17; return -1; } if (node[k].dir && (fl & 3)) { err_ = 21; return -1; }
    if (((fl & 3) != 1 && !(node[k].mode & 0400)) || ((fl & 3) && !(node[k].mode & 0200))) { err_ = 13; return -1; } }
  if (strcmp(node[k].path, "/dev/null") == 0) node[k].len = 0;
  if ((fl & 01000) && (fl & 3)) node[k].len = 0;
  o = newofd(k); ofd[o].rd = (fl & 3) != 1; ofd[o].wr = (fl & 3) != 0; ofd[o].app = !!(fl & 02000);
  return newfd(o);
}
int creat(const char *n, unsigned m) { return open(n, 01101, m); }
int dup(int fd) { if (!okfd(fd)) return -1; return newfd(fdt[fd]); }
int dup2(int a, int b) { if (!okfd(a)) return -1; if (a == b) return b; if (b < 0 || b >= NFD) { err_ = 9; return -1; } if (fdt[b] >= 0) close(b); fdt[b] = fdt[a]; fdx[b] = 0; ofd[fdt[a]].rc++; return b; }
int vf_raw_pipe(int *p) { int k, r, w; fsinit(); k = nalloc(); r = newofd(k); ofd[r].rd = 1; ofd[r].pipe = 1; p[0] = newfd(r); w = newofd(k); ofd[w].wr = 1; ofd[w].app = 1; ofd[w].pipe = 1; p[1] = newfd(w); return 0; }
int pipe(int *p) { return vf_raw_pipe(p); }
int fcntl(int fd, int c, ...) { if (!okfd(fd)) return -1; if (c == 1) return fdx[fd]; if (c == 2) { __builtin_va_list ap; __builtin_va_start(ap, c); fdx[fd] = __builtin_va_arg(ap, int) & 1; __builtin_va_end(ap); return 0; } if (c == 3) return ofd[fdt[fd]].wr ? (ofd[fdt[fd]].rd ? 2 : 1) : 0; return 0; }
int isatty(int fd) { err_ = 25; return 0; }
static void nneed(struct nd *d, size_t n) { if (n > d->cap) { size_t c = d->cap ? d->cap : 128; char *b; while (c < n) c *= 2; b = malloc(c); memset(b, 0, c); if (d->len) memcpy(b, d->buf, d->len); free(d->buf); d->buf = b; d->cap = c; } }
long vf_raw_read(int fd, void *b, size_t n) { struct od *o; struct nd *d; if (!okfd(fd)) return -1; o = &ofd[fdt[fd]]; d = &node[o->node]; if (!o->rd) { err_ = 9; return -1; } if (d->dir) { err_ = 21; return -1; } if (o->pos >= d->len) return 0; if (n > d->len - o->pos) n = d->len - o->pos; memcpy(b, d->buf + o->pos, n); o->pos += n; return (long)n; }
long vf_raw_write(int fd, const void *b, size_t n) { struct od *o; struct nd *d; if (!okfd(fd)) return -1; o = &ofd[fdt[fd]]; d = &node[o->node]; if (!o->wr) { err_ = 9; return -1; } if (!strcmp(d->path, "/dev/null")) return (long)n; if (o->app) o->pos = d->len; nneed(d, o->pos + n); memcpy(d->buf + o->pos, b, n); o->pos += n; if (o->pos > d->len) d->len = o->pos; return (long)n; }
/* a harness may replace these two */
long read(int fd, void *b, size_t n) { return vf_raw_read(fd, b, n); }
long write(int fd, const void *b, size_t n) { return vf_raw_write(fd, b, n); }
long lseek(int fd, long off, int w) { struct od *o; long p; if (!okfd(fd)) return -1; o = &ofd[fdt[fd]]; if (o->pipe) { err_ = 29; return -1; } p = w == 0 ? off : w == 1 ? (long)o->pos + off : (long)node[o->node].len + off; if (p < 0) { err_ = 22; return -1; } o->pos = p; return p; }
int fsync(int fd) { return okfd(fd) ? 0 : -1; }
/* stdio with glibc's buffering: reads ahead, writes late, end of file is sticky,
   fflush of an input stream moves the descriptor back to the logical position */
#define WB 1024
#define RB 4096
typedef struct VF { int fd, eof, err, unget, rd, wr, unbuf, rp, re, wn; char *rb, *wb; struct VF *next; } FILE_;
static FILE_ fin = {0, 0, 0, -1, 1, 0}, fo = {1, 0, 0, -1, 0, 1}, fe = {2, 0, 0, -1, 0, 1, 1}, *fall;
FILE_ *stdin = &fin, *stdout = &fo, *stderr = &fe;
static int wflush(FILE_ *f) { int n = f->wn; f->wn = 0; if (n && vf_raw_write(f->fd, f->wb, n) < 0) { f->err = 1; return -1; } return 0; }
int fflush(FILE_ *f) {
  if (!f) { for (f = fall; f; f = f->next) if (f->wn) wflush(f); wflush(&fo); wflush(&fe); return 0; }
  if (f->wn) return wflush(f);
  if (f->unget >= 0) { f->unget = -1; if (f->rp) f->rp--; }
  if (f->rp < f->re) { if (lseek(f->fd, (long)f->rp - f->re, 1) >= 0) f->rp = f->re = 0; else if (err_ != 29) { f->err = 1; return -1; } }
  return 0;
}
FILE_ *fdopen(int fd, const char *m) { FILE_ *f; if (!okfd(fd)) return 0; f = calloc(1, sizeof *f); f->fd = fd; f->unget = -1; f->rd = m[0] == 'r' || strchr(m, '+'); f->wr = m[0] != 'r' || strchr(m, '+'); f->next = fall; fall = f; return f; }
FILE_ *fopen(const char *n, const char *m) { int plus = strchr(m, '+') != 0, fl = (plus ? 2 : m[0] == 'r' ? 0 : 1) | (m[0] == 'r' ? 0 : 0100) | (m[0] == 'w' ? 01000 : 0) | (m[0] == 'a' ? 02000 : 0), fd = open(n, fl, 0666); return fd < 0 ? 0 : fdopen(fd, m); }
FILE_ *tmpfile(void) { int k, o; fsinit(); k = nalloc(); o = newofd(k); ofd[o].rd = ofd[o].wr = 1; return fdopen(newfd(o), "w+"); }
FILE_ *freopen(const char *n, const char *m, FILE_ *f) { int plus = strchr(m, '+') != 0, fl = (plus ? 2 : m[0] == 'r' ? 0 : 1) | (m[0] == 'r' ? 0 : 0100) | (m[0] == 'w' ? 01000 : 0) | (m[0] == 'a' ? 02000 : 0), fd; wflush(f); close(f->fd); fd = open(n, fl, 0666); if (fd < 0) return 0; f->fd = fd; f->eof = f->err = f->rp = f->re = 0; f->unget = -1; return f; }
int fclose(FILE_ *f) { FILE_ **q; int r; wflush(f); r = close(f->fd); if (f == &fin || f == &fo || f == &fe) return r; for (q = &fall; *q && *q != f; q = &(*q)->next); if (*q) *q = f->next; free(f->rb); free(f->wb); free(f); return r; }
int fileno(FILE_ *f) { return f->fd; }
int feof(FILE_ *f) { return f->eof; } int ferror(FILE_ *f) { return f->err; } void clearerr(FILE_ *f) { f->eof = f->err = 0; }
int setvbuf(FILE_ *f, char *b, int m, size_t n) { if (m == 2) { fflush(f); f->unbuf = 1; } else if (m == 0) f->unbuf = 0; return 0; } void setbuf(FILE_ *f, char *b) { setvbuf(f, b, b ? 0 : 2, 0); }
int fgetc(FILE_ *f) {
  long r; if (f->unget >= 0) { int u = f->unget; f->unget = -1; return u; }
  if (f->rp < f->re) return (unsigned char)f->rb[f->rp++];
  if (f->eof) return -1; if (f->wn) wflush(f);
  if (!f->rb) f->rb = malloc(RB);
  r = vf_raw_read(f->fd, f->rb, f->unbuf ? 1 : RB); if (r <= 0) { f->rp = f->re = 0; if (r == 0) f->eof = 1; else f->err = 1; return -1; }
  f->re = (int)r; f->rp = 1; return (unsigned char)f->rb[0];
}
int getc(FILE_ *f) { return fgetc(f); } int _IO_getc(FILE_ *f) { return fgetc(f); } int getchar(void) { return fgetc(stdin); }
int ungetc(int c, FILE_ *f) { if (c < 0) return -1; f->unget = (unsigned char)c; f->eof = 0; return c; }
char *fgets(char *b, int n, FILE_ *f) { int i = 0, c; while (i < n - 1) { c = fgetc(f); if (c < 0) break; b[i++] = (char)c; if (c == '\n') break; } if (!i) return 0; b[i] = 0; return b; }
size_t fread(void *b, size_t s, size_t n, FILE_ *f) { size_t i, t = s * n; char *p = b; if (!t) return 0; for (i = 0; i < t; i++) { int c = fgetc(f); if (c < 0) break; p[i] = (char)c; } return i / s; }
static void rdrop(FILE_ *f) { if (f->rp < f->re || f->unget >= 0) { int u = f->re - f->rp + (f->unget >= 0); f->rp = f->re = 0; f->unget = -1; lseek(f->fd, -(long)u, 1); } }
size_t fwrite(const void *b, size_t s, size_t n, FILE_ *f) {
  size_t t = s * n; const char *p = b; if (!t) return 0; rdrop(f);
  if (f->unbuf) { if (vf_raw_write(f->fd, b, t) < 0) { f->err = 1; return 0; } return n; }
  if (!f->wb) f->wb = malloc(WB);
  while (t) { size_t k = WB - f->wn; if (k > t) k = t; memcpy(f->wb + f->wn, p, k); f->wn += (int)k; p += k; t -= k; if (f->wn == WB && wflush(f)) return 0; }
  return n;
}
int fputc(int c, FILE_ *f) { char b = (char)c; return fwrite(&b, 1, 1, f) == 1 ? (unsigned char)c : -1; }
int putc(int c, FILE_ *f) { return fputc(c, f); } int _IO_putc(int c, FILE_ *f) { return fputc(c, f); } int putchar(int c) { return fputc(c, stdout); }
int fputs(const char *s, FILE_ *f) { size_t n = strlen(s); if (n && fwrite(s, 1, n, f) != n) return -1; return 1; }
int puts(const char *s) { fputs(s, stdout); fputc('\n', stdout); return 1; }
long ftell(FILE_ *f) { long p = lseek(f->fd, 0, 1); if (p < 0) return -1; return p + f->wn - (f->re - f->rp) - (f->unget >= 0); }
int fseek(FILE_ *f, long o, int w) { if (f->wn) wflush(f); if (w == 1) { o += -(long)(f->re - f->rp) - (f->unget >= 0); } if (lseek(f->fd, o, w) < 0) return -1; f->rp = f->re = 0; f->eof = 0; f->unget = -1; return 0; }
void rewind(FILE_ *f) { fseek(f, 0, 0); f->err = 0; }
int fgetpos(FILE_ *f, long *p) { *p = ftell(f); return 0; } int fsetpos(FILE_ *f, const long *p) { return fseek(f, *p, 0); }
static int hasch(int k) { int i; size_t l = strlen(node[k].path); for (i = 1; i < NN; i++) if (node[i].used && i != k && !strncmp(node[i].path, node[k].path, l) && (node[i].path[l] == '/' || l == 1)) return 1; return 0; }
int unlink(const char *n) { int k = nfind(n); if (k < 0) return -1; if (node[k].dir) { err_ = 21; return -1; } node[k].used = 0; return 0; }
int rmdir(const char *n) { int k = nfind(n); if (k < 0) return -1; if (!node[k].dir) { err_ = 20; return -1; } if (hasch(k)) { err_ = 39; return -1; } node[k].used = 0; return 0; }
int remove(const char *n) { int k = nfind(n); if (k < 0) return -1; return node[k].dir ? rmdir(n) : unlink(n); }
int rename(const char *a, const char *b) {
  int k = nfind(a), j, i; char o[96], old[96]; size_t l; if (k < 0) return -1; if (norm(b, o) || !parent_ok(o)) return -1; j = nfindp(o);
  if (j == k) return 0;
  if (j >= 0) { if (node[j].dir != node[k].dir) { err_ = node[j].dir ? 21 : 20; return -1; } if (node[j].dir && hasch(j)) { err_ = 39; return -1; } node[j].used = 0; }
  strcpy(old, node[k].path); l = strlen(old); strcpy(node[k].path, o);
  for (i = 1; i < NN; i++) if (node[i].used && !strncmp(node[i].path, old, l) && node[i].path[l] == '/') { char t[192]; strcpy(t, o); strcat(t, node[i].path + l); strncpy(node[i].path, t, 95); }
  return 0; }
int access(const char *n, int m) { int k = nfind(n); if (k < 0) return -1; if ((m & 2) && !(node[k].mode & 0200)) { err_ = 13; return -1; } return 0; }
int mkdir(const char *n, unsigned m) { char o[96]; if (norm(n, o)) return -1; if (nfindp(o) >= 0) { err_ = 17; return -1; } return ncreate(n, 1, m & ~022) < 0 ? -1 : 0; }
int chdir(const char *n) { int k = nfind(n); if (k < 0) return -1; if (!node[k].dir) { err_ = 20; return -1; } strcpy(cwd_, node[k].path); return 0; }
char *getcwd(char *b, size_t n) { if (!b) return strdup(cwd_); if (strlen(cwd_) >= n) { err_ = 34; return 0; } strcpy(b, cwd_); return b; }
/* struct stat of x86-64 glibc: st_ino 8, st_nlink 16, st_mode 24, st_size 48, st_mtime 88 */
static void stfill(int k, char *st) { memset(st, 0, 144); *(long *)(st + 8) = node[k].ino; *(long *)(st + 16) = 1; *(unsigned *)(st + 24) = (node[k].dir ? 040000 : 0100000) | node[k].mode; *(long *)(st + 48) = node[k].dir ? 4096 : (long)node[k].len; *(long *)(st + 72) = *(long *)(st + 88) = *(long *)(st + 104) = 1700000000; }
int stat(const char *n, void *st) { int k = nfind(n); if (k < 0) return -1; stfill(k, st); return 0; }
int lstat(const char *n, void *st) { return stat(n, st); }
int fstat(int fd, void *st) { if (!okfd(fd)) return -1; stfill(ofd[fdt[fd]].node, st); return 0; }
int chmod(const char *n, unsigned m) { int k = nfind(n); if (k < 0) return -1; node[k].mode = m & 07777; return 0; }
long readlink(const char *n, char *b, size_t l) { err_ = 22; return -1; }
unsigned umask(unsigned m) { return 022; }
/* struct dirent of x86-64 glibc: d_ino 0, d_type 18, d_name 19 */
struct dird { int dir, k; char de[280]; };
void *opendir(const char *n) { int k = nfind(n); struct dird *d; if (k < 0) return 0; if (!node[k].dir) { err_ = 20; return 0; } d = malloc(sizeof *d); d->dir = k; d->k = -1; return d; }
void *readdir(void *v) { struct dird *d = v; size_t l; const char *nm = 0; int k;
  memset(d->de, 0, sizeof d->de);
  for (;;) { k = d->k++; if (k == -1) { nm = "."; break; } if (k == 0) { nm = ".."; break; } if (k >= NN) return 0;
    l = strlen(node[d->dir].path); if (l == 1) l = 0;
    if (node[k].used && k != d->dir && !strncmp(node[k].path, node[d->dir].path, l) && node[k].path[l] == '/' && node[k].path[l + 1] && !strchr(node[k].path + l + 1, '/')) { nm = node[k].path + l + 1; break; } }
  *(long *)d->de = k > 0 ? node[k].ino : 1; d->de[18] = k > 0 && !node[k].dir ? 8 : 4; strcpy(d->de + 19, nm); return d->de; }
int closedir(void *v) { free(v); return 0; }
int fork(void) { err_ = 11; return -1; } int execv(const char *p, char *const *a) { err_ = 2; return -1; } int execl(const char *p, const char *a, ...) { err_ = 2; return -1; }
int waitpid(int p, int *s, int o) { err_ = 10; return -1; }
void *signal(int s, void *h) { return 0; } int sigaction(int s, const void *a, void *o) { return 0; }
int ioctl(int fd, unsigned long r, ...) { err_ = 25; return -1; } int tcgetattr(int fd, void *t) { err_ = 25; return -1; } int tcsetattr(int fd, int a, const void *t) { err_ = 25; return -1; }
int nanosleep(const void *a, void *b) { return 0; } unsigned sleep(unsigned s) { return 0; }
char *setlocale(int c, const char *l) { return "C"; }
void *dlopen(const char *n, int f) { return 0; } void *dlsym(void *h, const char *n) { return 0; } int dlclose(void *h) { return 0; } char *dlerror(void) { return "dl"; }
int uname(void *u) { memset(u, 0, 390); strcpy(u, "Linux"); return 0; }
double frexp(double v, int *e) { *e = 0; if (v == 0 || v != v || v - v != 0) return v; while (v >= 1 || v <= -1) { v /= 2; ++*e; } while (v < 0.5 && v > -0.5) { v *= 2; --*e; } return v; }
/* ---- printf ---- */
typedef struct { char *b; size_t n, cap; FILE_ *f; } OUT;
static void o1(OUT *o, char c) { if (o->f) fputc((unsigned char)c, o->f); else if (o->n + 1 < o->cap) o->b[o->n] = c; o->n++; }
static void pad(OUT *o, long k, char c) { while (k-- > 0) o1(o, c); }
static void ffmt(OUT *o, char f, double v, long pr) {
      int neg = v < 0; u64 ip; double fr; int i; if (neg) v = -v; if (pr < 0) pr = 6;
      if (!(v < 1e15)) { const char *q = v != v ? "nan" : "inf"; while (*q) o1(o, *q++); return; }
      v = f == 'f' ? v : v; ip = (u64)(long)v; fr = v - (double)ip; if (neg) o1(o, '-');
      { char t2[32]; int m = 0; u64 x = ip; do { t2[m++] = (char)('0' + x % 10); x /= 10; } while (x); if (f != 'f' && m > (pr ? pr : 1)) { /* more digits than the precision: rounded to it, with an exponent */
          int P_ = pr ? pr : 1, cut = m - P_, up, e10 = m - 1, j, rest = fr > 0; for (j = 0; j < cut - 1; j++) rest |= t2[j] != '0'; up = t2[cut - 1] > '5' || (t2[cut - 1] == '5' && (rest || ((t2[cut] - '0') & 1)));
          for (j = cut; up && j < m; j++) { if (t2[j] == '9') t2[j] = '0'; else { t2[j]++; up = 0; } } if (up) { t2[m] = '1'; m++; cut++; e10++; }
          for (; cut < m - 1 && t2[cut] == '0'; cut++) ; o1(o, t2[m - 1]); if (cut < m - 1) o1(o, '.'); for (j = m - 2; j >= cut; j--) o1(o, t2[j]); o1(o, 'e'); o1(o, '+'); o1(o, (char)('0' + e10 / 10)); o1(o, (char)('0' + e10 % 10)); return; }
        for (i = m; i-- > 0;) o1(o, t2[i]); if (f != 'f') pr = pr > m ? pr - m : 0; }
      if (f == 'f' || fr > 0) { char fd[40]; int k = 0, last = 0; for (; k < pr && k < 36; k++) { int dg; fr *= 10; dg = (int)fr; fr -= dg; fd[k] = (char)('0' + dg); if (dg) last = k + 1; } if (f == 'f') last = k; if (last) { o1(o, '.'); for (i = 0; i < last; i++) o1(o, fd[i]); } }
}
static long fmt(OUT *o, const char *f, va_list ap) {
  for (; *f; f++) {
    int left = 0, zero = 0, plus = 0, sp = 0, alt = 0, lng = 0; long w = 0, pr = -1; char tmp[400]; int n = 0; const char *s; long len;
    if (*f != '%') { o1(o, *f); continue; }
    for (f++;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') sp = 1; else if (*f == '#') alt = 1; else break; }
    if (*f == '*') { w = va_arg(ap, int); if (w < 0) { left = 1; w = -w; } f++; } else while (isdigit((unsigned char)*f)) w = w * 10 + *f++ - '0';
    if (*f == '.') { f++; pr = 0; if (*f == '*') { pr = va_arg(ap, int); f++; } else while (isdigit((unsigned char)*f)) pr = pr * 10 + *f++ - '0'; }
    while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'L' || *f == 'q') { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'q') lng = 1; f++; }
    switch (*f) {
    case '%': o1(o, '%'); continue;
    case 'c': tmp[0] = (char)va_arg(ap, int); if (!left) pad(o, w - 1, ' '); o1(o, tmp[0]); if (left) pad(o, w - 1, ' '); continue;
    case 's': s = va_arg(ap, const char *); if (!s) s = "(null)"; len = pr >= 0 ? (long)strnlen(s, pr) : (long)strlen(s); if (!left) pad(o, w - len, ' '); { long i; for (i = 0; i < len; i++) o1(o, s[i]); } if (left) pad(o, w - len, ' '); continue;
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
      u64 v; int neg = 0; unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10; char sg = 0;
      if (*f == 'p') { v = (u64)va_arg(ap, void *); alt = 1; if (!v) { if (!left) pad(o, w - 5, ' '); for (s = "(nil)"; *s; s++) o1(o, *s); if (left) pad(o, w - 5, ' '); continue; } }
      else if (*f == 'd' || *f == 'i') { long x = lng ? va_arg(ap, long) : va_arg(ap, int); neg = x < 0; v = neg ? 0 - (u64)x : (u64)x; sg = neg ? '-' : plus ? '+' : sp ? ' ' : 0; }
      else v = lng ? va_arg(ap, u64) : va_arg(ap, unsigned);
      { int k = 1, i; u64 p = base; while (v >= p) { k++; if (p > (u64)-1 / base) break; p *= base; } /* the number of digits first: comparisons are simpler than quotients */
        for (i = 0; i < k; i++) { unsigned d; if (base == 10) { tmp[n++] = (char)('0' + v % 10); v /= 10; continue; } d = base == 16 ? v & 15 : v % base; tmp[n++] = (char)('0' + d + (d > 9) * (*f == 'X' ? 7 : 39)); if (base == 16) v >>= 4; else v /= base; } }
      while (n < pr) tmp[n++] = '0';
      if (alt && base == 16) { if (zero) while (n + 2 < w) tmp[n++] = '0'; tmp[n++] = 'x'; tmp[n++] = '0'; }
      if (zero && !left && pr < 0) while (n + (sg != 0) < w) tmp[n++] = '0';
      if (sg) tmp[n++] = sg;
      if (!left) pad(o, w - n, ' '); { int i; for (i = n; i-- > 0;) o1(o, tmp[i]); } if (left) pad(o, w - n, ' '); continue; }
    case 'f': case 'g': case 'e': case 'G': {
      /* %g of integers below 10^prec is exact; fractions are printed by repeated
         multiplication (not claimed exact) */
      OUT po; char pb[420]; long k = 0; double v = va_arg(ap, double); po.b = pb; po.n = 0; po.cap = sizeof pb; po.f = 0; ffmt(&po, *f, v, pr);
      if (zero && !left && v - v == 0) { if (pb[0] == '-') { o1(o, '-'); k = 1; } pad(o, w - (long)po.n, '0'); } else if (!left) pad(o, w - (long)po.n, ' ');
      { long q = k; for (; q < (long)po.n; q++) o1(o, pb[q]); } if (left) pad(o, w - (long)po.n, ' ');
      continue; }
    case 'n': continue;
    default: o1(o, '%'); if (*f) o1(o, *f); else return (long)o->n;
    }
  }
  return (long)o->n;
}
int vsnprintf(char *b, size_t n, const char *f, va_list ap) { OUT o = {b, 0, n, 0}; fmt(&o, f, ap); if (n) b[o.n < n ? o.n : n - 1] = 0; return (int)o.n; }
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { OUT o = {b, 0, (size_t)-1, 0}; fmt(&o, f, ap); b[o.n] = 0; return (int)o.n; }
int sprintf(char *b, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsprintf(b, f, ap); va_end(ap); return r; }
int vfprintf(FILE_ *s, const char *f, va_list ap) { OUT o = {0, 0, 0, s}; return (int)fmt(&o, f, ap); }
int fprintf(FILE_ *s, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vfprintf(s, f, ap); va_end(ap); return r; }
int vprintf(const char *f, va_list ap) { return vfprintf(stdout, f, ap); }
int printf(const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vfprintf(stdout, f, ap); va_end(ap); return r; }
void perror(const char *s) {}
/* sscanf: %d %i %u %x %lf %s %c %n and literals, enough for the code here */
int vsscanf(const char *s, const char *f, va_list ap) {
  int got = 0; const char *s0 = s;
  for (; *f; f++) {
    int lng = 0; char *e;
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
    if (*f != '%') { if (*s != *f) return got ? got : (*s ? 0 : -1); s++; continue; }
    f++; { long w = 0; while (isdigit((unsigned char)*f)) w = w * 10 + *f++ - '0'; }
    while (*f == 'l' || *f == 'h') { if (*f == 'l') lng++; f++; }
    if (*f == 'n') { *va_arg(ap, int *) = (int)(s - s0); continue; }
    if (*f == 'c') { if (!*s) return got ? got : -1; *va_arg(ap, char *) = *s++; got++; continue; }
    while (isspace((unsigned char)*s)) s++;
    if (!*s) return got ? got : -1;
    if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x') { long v = strtol(s, &e, *f == 'i' ? 0 : *f == 'x' ? 16 : 10); if (e == s) return got; if (lng) *va_arg(ap, long *) = v; else *va_arg(ap, int *) = (int)v; s = e; got++; }
    else if (*f == 'f' || *f == 'g' || *f == 'e') { double v = strtod(s, &e); if (e == s) return got; if (lng) *va_arg(ap, double *) = v; else *va_arg(ap, float *) = (float)v; s = e; got++; }
    else if (*f == 's') { char *d = va_arg(ap, char *); while (*s && !isspace((unsigned char)*s)) *d++ = *s++; *d = 0; got++; }
    else { vf_fail_("model: sscanf format"); }
  }
  return got;
}
int sscanf(const char *s, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char *s, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsscanf(s, f, ap); va_end(ap); return r; }
/* ---- time ---- */
long time(long *t) { if (t) *t = 1700000000; return 1700000000; }
void *localtime_r(const long *t, void *r) { int *p = r; memset(r, 0, 56); p[0] = 20; p[1] = 13; p[2] = 22; p[3] = 14; p[4] = 10; p[5] = 123; p[6] = 2; p[7] = 317; return r; }
size_t strftime(char *b, size_t n, const char *f, const void *tm) { static const char x[] = "time"; if (n < 5) return 0; strcpy(b, x); return 4; }
/* ---- pthread: a new thread runs to its end before its creator goes on ---- */
void vf_tls_push(void); void vf_tls_pop(void);
int pthread_mutex_init(void *m, const void *a) { return 0; } int pthread_mutex_lock(void *m) { return 0; } int pthread_mutex_unlock(void *m) { return 0; } int pthread_mutex_destroy(void *m) { return 0; }
int pthread_mutexattr_init(void *a) { return 0; } int pthread_mutexattr_settype(void *a, int t) { return 0; } int pthread_mutexattr_destroy(void *a) { return 0; }
int pthread_attr_init(void *a) { return 0; } int pthread_attr_destroy(void *a) { return 0; } int pthread_attr_setdetachstate(void *a, int s) { return 0; }
static void *thr_[16]; static int nthr_;
int pthread_create(u64 *t, const void *a, void *(*fn)(void *), void *arg) { if (nthr_ >= 16) return 11; vf_tls_push(); { void *r = fn(arg); vf_tls_pop(); thr_[nthr_] = r; } *t = nthr_++; return 0; }
int pthread_join(u64 t, void **r) { if (r) *r = thr_[t & 15]; return 0; } int pthread_detach(u64 t) { return 0; } int pthread_cancel(u64 t) { return 0; }
u64 pthread_self(void) { return 0; }
