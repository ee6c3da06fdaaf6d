/* Harness interface: under vse the vf_* functions are the symbolic executor's
   primitives; compiled natively (VF_NATIVE) they read one concrete input. */
#ifndef VF_H
#define VF_H
#include <stddef.h>
unsigned char vf_u8(void);            /* one symbolic input byte */
void vf_assume(int c);
void vf_check_(int c, const char *msg);
void vf_fail_(const char *msg);
void vf_cover_(const char *label);    /* reachability witness */
long vf_concrete(long v);             /* split into one path per value */
long vf_heap_live(void);              /* live heap blocks (natively bytes): only compared with itself */
void vf_observe(long v);              /* value compared engine vs native */
void vf_end(void);                    /* end of this path */
void vf_known_(const char *id);       /* a listed finding was hit: ends the path */
int vf_fd_live(void);
int vf_is_sym(long v);
int vf_native(void);
#define CHECK(c, m) vf_check_((c) ? 1 : 0, m)
#define ASSUME(c) vf_assume((c) ? 1 : 0)
/* like CHECK, but failures that match `known` are the listed finding `id` */
#define CHECK_K(c, m, known, id) do { if (!(c)) { if (known) vf_known_(id); vf_fail_(m); } } while (0)
#define COVER(l) vf_cover_(l)
#ifdef VF_NATIVE
#define FAIL(m) vf_fail_(m)
#else
#define FAIL(m) vf_fail_(m)
#endif

/* no more descriptors than `want` are open, once the threads that still run natively have closed theirs */
#ifdef VF_NATIVE
extern int usleep(unsigned);
#endif
static inline int vf_fds(int want) {
#ifdef VF_NATIVE
  int i; for (i = 0; i < 200 && vf_fd_live() != want; i++) usleep(10000);
#endif
  return vf_fd_live() == want;
}

/* value in [lo,hi], symbolic */
static inline int vf_int(int lo, int hi) { int v = vf_u8(); vf_assume(v >= 0 && v <= hi - lo); return lo + v; }
/* value in [lo,hi], one path each */
static inline int vf_pick(int lo, int hi) { return (int)vf_concrete(vf_int(lo, hi)); }
static inline int vf_i32(void) { unsigned v = 0; int i; for (i = 0; i < 4; i++) v |= (unsigned)vf_u8() << (8 * i); return (int)v; }
/* any string of at most n bytes (buf has n+1) */
static inline void vf_str(char *buf, int n) { int i; for (i = 0; i < n; i++) buf[i] = (char)vf_u8(); buf[n] = 0; }
/* any string of exactly n non-NUL bytes */
static inline void vf_strn(char *buf, int n) { int i; for (i = 0; i < n; i++) { buf[i] = (char)vf_u8(); vf_assume(buf[i] != 0); } buf[n] = 0; }
/* string of at most n characters, each from set (or NUL) */
static inline char vf_of(const char *set) {
  unsigned char c = vf_u8(); int ok = 0; const char *s;
  for (s = set; *s; s++) ok |= (c == (unsigned char)*s);
  vf_assume(ok); return (char)c;
}
static inline char vf_of0(const char *set) {
  unsigned char c = vf_u8(); int ok = c == 0; const char *s;
  for (s = set; *s; s++) ok |= (c == (unsigned char)*s);
  vf_assume(ok); return (char)c;
}
static inline void vf_strof(char *buf, int n, const char *set) { int i; for (i = 0; i < n; i++) buf[i] = vf_of0(set); buf[n] = 0; }
/* a byte that never has a special meaning */
static inline unsigned char vf_plain(void) { unsigned char c = vf_u8(); vf_assume(((c >= 'p') & (c <= 'z')) | ((c >= 'P') & (c <= 'Z'))); return c; }
/* plain string equality without library calls */
static inline int vf_streq(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
static inline int vf_len(const char *a) { int n = 0; while (a[n]) n++; return n; }
#endif
