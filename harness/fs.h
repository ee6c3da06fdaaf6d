/* Reference file system: what the directory of the harness has to look like. */
#ifndef FS_H
#define FS_H
#include <dirent.h>
#include <errno.h>
#include <sys/syscall.h>
struct rn { char path[24]; int kind; /* 1 file 2 directory */ int n; char d[16]; };
static struct rn R_[24]; static int nr;
static struct rn *rfind(const char *f) { int i; for (i = 0; i < nr; i++) if (R_[i].kind && vf_streq(R_[i].path, f)) return &R_[i]; return 0; }
static struct rn *radd(const char *f, int kind) { struct rn *e = rfind(f); if (!e) { e = &R_[nr++]; strcpy(e->path, f); } e->kind = kind; e->n = 0; return e; }
/* in the reference and on the disk */
static struct rn *mkf(const char *f, int n) { struct rn *e = radd(f, 1); int i; for (i = 0; i < n; i++) e->d[i] = (char)vf_u8(); e->n = n; sh_writen(f, e->d, n); return e; }
static void mkd(const char *f) { radd(f, 2); mkdir(f, 0755); }
static void rset(const char *f, const char *d, int n) { struct rn *e = radd(f, 1); memcpy(e->d, d, n); e->n = n; }
static void rdel(const char *f) { struct rn *e = rfind(f); if (e) e->kind = 0; }
static int rdir(const char *f) { struct rn *e = rfind(f); return !*f || (e && e->kind == 2); }
/* path without "." and ".." steps and a trailing / */
static void rnorm(const char *f, char *o) {
  int n = 0; while (*f) { char t[24]; int k = 0; while (*f && *f != '/') t[k++] = *f++; t[k] = 0; while (*f == '/') f++;
    if (!k || vf_streq(t, ".")) continue; if (vf_streq(t, "..")) { while (n && o[n - 1] != '/') n--; if (n) n--; continue; }
    if (n) o[n++] = '/'; memcpy(o + n, t, k); n += k; } o[n] = 0; }
static const char *rbase(const char *f) { const char *b = f; for (; *f; f++) if (*f == '/') b = f + 1; return b; }
static void rparent(const char *f, char *o) { int n = (int)(rbase(f) - f); if (n) n--; memcpy(o, f, n); o[n] = 0; }
static int rcount_(const char *d) { DIR *h = opendir(*d ? d : "."); struct dirent *e; int n = 0; char p[64]; struct stat st; if (!h) return 0; while ((e = readdir(h))) { if (e->d_name[0] == '.' && (!e->d_name[1] || (e->d_name[1] == '.' && !e->d_name[2]))) continue; if (!*d && (e->d_name[0] == '_' || vf_streq(e->d_name, "t.bat"))) continue; n++; strcpy(p, d); if (*d) strcat(p, "/"); strcat(p, e->d_name); if (!stat(p, &st) && S_ISDIR(st.st_mode)) n += rcount_(p); } closedir(h); return n; }
/* the disk is as the reference says */
static void rcheck(const char *m) {
  int i, n = 0, k, g; struct stat st; static char b[6000];
  for (i = 0; i < nr; i++) { struct rn *e = &R_[i]; if (!e->kind) { if (!rfind(e->path)) CHECK(stat(e->path, &st), m); continue; }
    n++; CHECK(!stat(e->path, &st), m); CHECK(S_ISDIR(st.st_mode) == (e->kind == 2), m);
    if (e->kind == 1) { g = sh_read(e->path, b, sizeof b); CHECK(g == e->n, m); for (k = 0; k < g; k++) CHECK(b[k] == e->d[k], m); } }
  CHECK(rcount_("") == n, m);
}
#endif
