/* DEL, RD, MD: exactly what is named goes, after a confirmation where one is due. */
#include "sh.h"
#include "fs.h"
static char src[400]; static int sl;
static void s(const char *x) { while (*x) src[sl++] = *x++; src[sl] = 0; }
static int ref(const char *r, const char *m) { if (!*r) return !*m; if (*r == '*') { for (;; m++) { if (ref(r + 1, m)) return 1; if (!*m) return 0; } } return *m && *m != '/' && (*r == '?' || *r == *m) && ref(r + 1, m + 1); }
static int under(const char *d, const char *f, int deep) { int n = vf_len(d), i; if (n && (strncmp(d, f, n) || f[n] != '/')) return 0; if (n) n++; if (deep) return 1; for (i = n; f[i]; i++) if (f[i] == '/') return 0; return 1; }
static int joker(const char *f) { for (; *f; f++) if (*f == '*' || *f == '?') return 1; return 0; }
/* does the name select this path (a pattern: in its directory, with /S below it too; a directory: what is in it) */
static int sel(const char *p, const char *f, int deep) { char d[24]; rparent(p, d); if (joker(p)) return under(d, f, deep) && ref(rbase(p), rbase(f)); if (rdir(p)) return under(p, f, deep); return vf_streq(p, f); }
static const char *TREE[] = { "a", "ab", "b", "d", "d/a", "d/y", "d/e", "d/e/z", "d/e/a", "w" }; static const int DIRS = 1 << 3 | 1 << 6 | 1 << 9, RO = 1 << 2 | 1 << 5;
static void tree(void) { int i; for (i = 0; i < 10; i++) if (DIRS >> i & 1) mkd(TREE[i]); else { mkf(TREE[i], 1); if (RO >> i & 1) chmod(TREE[i], 0444); } }
static const char *N[] = { "a", "b", "a*", "?", "a?", "d", "d/*", "d/e", "d/?", "q", "q*", "w" };
static int gone(const char *f) { struct stat b; return stat(f, &b) != 0; }
void h_del(void) {
  int i, j, p = vf_pick(0, 1), f = vf_pick(0, 1), q = vf_pick(0, 1), rec = vf_pick(0, 1), at = vf_pick(0, 2), two = vf_pick(0, 1), k[2], ans, r, hit[10] = { 0 }, n = 0, ask, m = 0;
  sh_boot(); tree(); k[0] = vf_pick(0, 11); k[1] = two ? (k[0] + 4) % 12 : 0; if (two && (rec || at || f)) vf_end();
  s(k[0] & 1 ? "erase " : "DEL "); if (p) s("/p "); if (f) s("/f "); if (q) s("/Q "); if (rec) s("/s "); if (at) s(at == 1 ? "/a:r " : "/a-r "); s(N[k[0]]); if (two) { s(" "); s(N[k[1]]); }
  for (i = 0; i <= two; i++) { int any = 0; const char *nm = N[k[i]]; for (j = 0; j < 10; j++) if (sel(nm, TREE[j], rec)) any = 1; else if (rec && joker(nm)) ; if (!any) { r = sh_line(src); CHECK(r != 0, "names that nothing has are an error"); rcheck("nothing is deleted then"); COVER("ran"); return; } }
  for (i = 0; i <= two; i++) for (j = 0; j < 10; j++) if (!(DIRS >> j & 1) && sel(N[k[i]], TREE[j], rec)) { int ro = RO >> j & 1; if (at == 1 ? !ro : at == 2 ? ro : (ro && !f)) continue; hit[j] = 1; }
  for (j = 0; j < 10; j++) n += hit[j];
  ask = p; for (i = 0; i <= two; i++) if (joker(N[k[i]]) && !q) ask = 1;
  ans = ask ? vf_pick(0, 4) : 0; sh_write("_in", ans == 1 ? "all\n" : ans == 2 ? "y\n" : ans == 3 ? "n\nA\n" : ans == 4 ? "y\nno\ny\n" : "");
  r = sh_line(src);
  for (j = 0; j < 10; j++) if (gone(TREE[j])) { m++; CHECK(hit[j], "nothing else is deleted"); rdel(TREE[j]); }
  rcheck("what stays stays as it is"); 
  if (!ask || ans == 1) CHECK(m == n, "everything named is deleted"); else if (ans == 0) CHECK(m == 0, "nothing without a yes"); else if (ans == 2) CHECK(m == (n > 0), "one file for one yes"); else if (ans == 3) CHECK(m == (n > 1 ? n - 1 : 0), "not the first, then all"); else CHECK(m == (n > 2 ? 2 : n > 0), "each file as it was answered");
  if (at != 1 && !two) CHECK(r == 0, "no error"); COVER("ran");
}
void h_rd(void) {
  static const char *T[] = { "w", "d", "a", "q", "d/e", "v" };
  int i, j, rec = vf_pick(0, 1), q = vf_pick(0, 1), two = vf_pick(0, 1), k[2], ans, r, ask, bad = 0, miss = 0;
  sh_boot(); tree(); mkd("v"); k[0] = vf_pick(0, 5); k[1] = two ? vf_pick(0, 5) : 0; if (two && k[0] == k[1]) vf_end(); if (two && k[0] * k[1] == 4 && k[0] != 2) vf_end();
  s(k[0] & 1 ? "RD " : "rmdir "); if (q) s("/q "); if (rec) s("/S "); s(T[k[0]]); if (two) { s(" "); s(T[k[1]]); }
  ask = !q && (rec || two); ans = ask ? vf_pick(0, 1) : 0; sh_write("_in", ans ? "all\n" : "");
  r = sh_line(src);
  for (i = 0; i <= two; i++) { if (!rfind(T[k[i]])) miss = 1; if ((rec || two) && k[i] == 2) miss = 1; }
  if (miss) { CHECK(r != 0, "no such directory"); if (two && !rec && 0) {} rcheck("nothing is removed then"); COVER("ran"); return; }
  if (ask && !ans) { rcheck("nothing without a yes"); COVER("ran"); return; }
  for (i = 0; i <= two; i++) { const char *t = T[k[i]]; int used = 0; for (j = 0; j < nr; j++) if (R_[j].kind && under(t, R_[j].path, 1)) used = 1; if (!rdir(t) || (used && !rec)) { bad = 1; continue; } for (j = 0; j < nr; j++) if (R_[j].kind && under(t, R_[j].path, 1)) R_[j].kind = 0; rdel(t); }
  if (bad) CHECK(r != 0, "a file or a directory in use is an error"); else CHECK(r == 0, "no error");
  rcheck("exactly the directories named are removed"); COVER("ran");
}
void h_md(void) {
  static const char *T[] = { "n", "n/m", "n/m/o", "d", "d/n", "a", "a/n", "d/e/../n", "n//m/", "./n" };
  int i, two = vf_pick(0, 1), k[2], r, bad = 0, full = vf_pick(0, 1); char t[24], u[24]; unsigned char c = vf_plain();
  sh_boot(); tree(); k[0] = vf_pick(0, 9); k[1] = two ? vf_pick(0, 9) : 0; s(full ? "MKDIR " : "md ");
  for (i = 0; i <= two; i++) { const char *x; if (i) s(" "); for (x = T[k[i]]; *x; x++) src[sl++] = *x == 'n' ? c : *x; src[sl] = 0; }
  r = sh_line(src);
  for (i = 0; i <= two && !bad; i++) { char *x; int n = 0; rnorm(T[k[i]], t); for (x = t; *x; x++) if (*x == 'n') *x = c; for (x = t; ; x++) { if (!*x || *x == '/') { struct rn *e; memcpy(u, t, n); u[n] = 0; e = rfind(u); if (e && e->kind == 1) { bad = 1; break; } if (!e) radd(u, 2); } if (!*x) break; n++; } }
  if (bad) CHECK(r != 0, "a file in the way is an error"); else CHECK(r == 0, "no error");
  rcheck("exactly the directories named, and those above them, are made"); COVER("ran");
}
