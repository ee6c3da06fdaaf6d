/* Wildcards, file searches and attributes. */
#include "sh.h"
#include <ctype.h>
#ifndef NR
#define NR 3
#endif
#ifndef NM
#define NM 3
#endif
static char src[800]; static int sl;
static void s(const char *x) { while (*x) src[sl++] = *x++; src[sl] = 0; }
static char *o; static int p;
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
/* reference: * any sequence, a run that starts with * counts as one *, ? one character */
static int ref(const char *r, const char *m, int ci) {
  if (!*r) return !*m;
  if (*r == '*') { while (*r == '*' || *r == '?') r++; for (;; m++) { if (ref(r, m, ci)) return 1; if (!*m) return 0; } }
  if (!*m) return 0;
  if (*r == '?') { m++; while (((unsigned char)*m & 0xc0) == 0x80) m++; return ref(r + 1, m, ci); }
  if (ci ? up(*r) != up(*m) : *r != *m) return 0;
  return ref(r + 1, m + 1, ci);
}
static int late(const char *r) { const char *q = r; while (*q && *q != '*') q++; if (!*q) return 0; while (*q == '*' || *q == '?') q++; for (; *q; q++) if (*q == '?') return 1; return 0; } /* ? behind characters behind a *: documented as greedy */
void h_wild_match(void) {
  char r[2 * NR + 2], m[2 * NM + 2]; int i, ci = vf_pick(0, 1), n, k, got, want; char *w = r;
  sh_boot();
  n = vf_pick(0, NR); for (i = 0; i < n; i++) { k = vf_pick(0, 3); if (k == 0) *w++ = '*'; else if (k == 1) *w++ = '?'; else if (k == 2) *w++ = vf_u8(); else { *w++ = (char)0xc3; *w++ = (char)vf_int(0xa0, 0xbf); }
    if (k == 2) ASSUME((w[-1] >= 'a' && w[-1] <= 'd') || (w[-1] >= 'A' && w[-1] <= 'D') || w[-1] == '.' || w[-1] == ' '); }
  *w = 0; w = m;
  n = vf_pick(0, NM); for (i = 0; i < n; i++) { k = vf_pick(0, 1); if (k == 0) { *w++ = vf_u8(); ASSUME((w[-1] >= 'a' && w[-1] <= 'd') || (w[-1] >= 'A' && w[-1] <= 'D') || w[-1] == '.' || w[-1] == ' '); } else { *w++ = (char)0xc3; *w++ = (char)vf_int(0xa0, 0xbf); } }
  *w = 0;
  for (i = 0; r[i]; i++) if (r[i] == '?' && r[i + 1] == '*') vf_end(); /* "counts as one *", or as one character and more */
  got = ci ? pBat_RegExpCaseMatch(r, m) : pBat_RegExpMatch(r, m); want = ref(r, m, ci);
  CHECK(!got || want, "only names that the pattern describes are selected"); CHECK(got || !want || late(r), "every name that the pattern describes is selected"); COVER("ran");
}
/* search in a tree */
static char X; static struct ent { char path[24]; int dir, size, ro; } T[20]; static int nt;
static void add(const char *f, int dir, int size, int ro) { struct ent *e = &T[nt++]; int i; strcpy(e->path, f); for (i = 0; e->path[i]; i++) if (e->path[i] == '$') e->path[i] = X; e->dir = dir; e->size = size; e->ro = ro; if (dir) mkdir(e->path, 0755); else { sh_write(e->path, size ? "1" : ""); if (ro) chmod(e->path, 0444); } }
static const char *tok(const char *q, char *t) { while (*q && *q != '/') *t++ = *q++; *t = 0; return *q ? q + 1 : q; }
static int joker(const char *t) { for (; *t; t++) if (*t == '*' || *t == '?') return 1; return 0; }
static int one(const char *t, const char *c) { return joker(t) ? ref(t, c, 1) : vf_streq(t, c); }
static int sel(const char *pat, const char *path, int rec) {
  char t[24], c[24];
  for (;;) { pat = tok(pat, t); path = tok(path, c); if (!*pat) break; if (!one(t, c) || !*path) return 0; }
  if (rec) { while (*path) path = tok(path, c); } else if (*path) return 0;
  return one(t, c);
}
static int attr(const char *a, struct ent *e) { for (; *a; a++) { int neg = *a == '-', v = 0; if (neg) a++; switch (up(*a)) { case 'D': v = e->dir; break; case 'R': v = e->ro; break; case 'I': v = e->size == 0 && !e->dir; break; } if (v == neg) return 0; } return 1; }
static const char *PAT[] = { "*", "a*", "?", "*b", "$*", "d/*", "*/a*", "d*/?/*", "d", "*/e/*", "a", "x*", "*.t", "d/e/a?", "*d*/*" };
static const char *AT[] = { "", "d", "-d", "r", "-r", "i-d", "-i", "R-I", "-d-r", ":d" };
void h_wild_dir(void) {
  char pat[24]; int i, k = vf_pick(0, 14), rec = vf_pick(0, 1), at = vf_pick(0, 9), full, got[20] = { 0 }; int files = 0, dirs = 0, tot[2] = { 0, 0 }, ti = 0;
  const char *a; sh_boot(); X = vf_plain(); k = k; full = k < 6 && at < 3 && !rec ? vf_pick(0, 1) : 0;
  add("a", 0, 1, 0); add("Ab", 0, 0, 1); add("$", 0, 0, 0); add("d", 1, 0, 0); add("d/a", 0, 1, 1); add("d/e", 1, 0, 0); add("d/e/ab", 0, 1, 0); add("d/e/$.t", 0, 0, 0); add("dd", 1, 0, 0); add("dd/e", 1, 0, 0); add("dd/a", 1, 0, 0); add("d/.h", 0, 1, 0); add("a.t", 0, 1, 0);
  strcpy(pat, PAT[k]); for (i = 0; pat[i]; i++) if (pat[i] == '$') pat[i] = X;
  a = AT[at]; s("dir "); if (!full) s("/b "); if (rec) s("/s "); if (*a) { s(at & 1 ? "/a" : "/A"); if (*a != ':') s(at % 3 ? ":" : ""); s(a); if (*a == ':') a++; s(" "); } s(pat); s("\n");
  if (rec && !joker(pat) && k != 8) vf_end();
  if (k == 8) strcpy(pat, "d/*");
  sh_script(src); o = sh_out(); p = 0;
  if (full) { while (o[p] == '\n') p++; while (o[p] && o[p] != '\n') p++; }
  while (o[p]) {
    char l[80]; int n = 0, t = 0; char *q = l; if (full && o[p] == '\n') { p++; continue; } while (o[p] && o[p] != '\n' && n < 79) l[n++] = o[p++]; l[n] = 0; CHECK(o[p] == '\n', "one name per line"); p++;
    if (full) { if (l[0] == '\t') { int v = 0; for (q = l; *q == '\t'; q++); while (isdigit((unsigned char)*q)) v = v * 10 + *q++ - '0'; if (ti < 2) tot[ti] = v; ti++; continue; } for (i = 0; l[i]; i++) if (l[i] == '\t') q = l + i + 1; t = q[-8] == 'D'; if (vf_streq(q, ".") || vf_streq(q, "..") || vf_streq(q, "d/.") || vf_streq(q, "d/..")) { dirs++; continue; } }
    if (vf_streq(q, "t.bat") || (*q == '_' && !strchr(q, '/'))) { files++; continue; } /* the harness's own */
    for (i = 0; i < nt && !vf_streq(T[i].path, q); i++); CHECK(i < nt, "only files that exist"); CHECK(!got[i], "each file once"); got[i] = 1;
    CHECK(sel(pat, T[i].path, rec), "only files that the pattern describes"); CHECK(attr(a, &T[i]), "only files with the attributes"); if (full) { CHECK(t == T[i].dir, "directories are marked"); if (t) dirs++; else files++; }
  }
  for (i = 0; i < nt; i++) CHECK(got[i] || !sel(pat, T[i].path, rec) || !attr(a, &T[i]), "every file that the pattern and the attributes describe");
  if (full && (files || dirs)) { CHECK(ti == 2, "totals"); CHECK(tot[0] == files, "the number of files listed"); CHECK(tot[1] == dirs, "the number of directories listed"); }
  COVER("ran");
}
/* from elsewhere: absolute patterns, and relative to the current directory */
void h_wild_abs(void) {
  int k = vf_pick(0, 3), i, n = 0; char b[600], *q; sh_boot(); X = vf_plain(); add("d", 1, 0, 0); add("d/a$", 0, 1, 0); add("d/b", 0, 1, 0); strcpy(b, lpCurrentDir);
  switch (k) { case 0: s("cd d\ndir /b a*\n"); break; case 1: s("cd d\ndir /b ../d/a?\n"); break; case 2: s("cd /\ndir /b "); s(b); s("/d/a*\n"); break; case 3: s("dir /b "); s(b); s("/*/a*\n"); break; }
  sh_script(src); o = sh_out(); q = k == 1 ? "../d/a" : k == 2 || k == 3 ? b : "a"; for (i = 0; q[i]; i++) CHECK(o[n++] == q[i], "the name as in the pattern"); if (k > 1) for (q = "/d/a"; *q; q++) CHECK(o[n++] == *q, "the full name"); CHECK(o[n] == X && o[n + 1] == '\n' && !o[n + 2], "and no other"); COVER("ran");
}
