/* TYPE, FIND, WC, MORE and XARGS against references over symbolic contents. */
#include "sh.h"
#include "fs.h"
static char src[600]; static int sl;
static void s(const char *x) { while (*x) src[sl++] = *x++; src[sl] = 0; }
static int ref(const char *r, const char *m) { if (!*r) return !*m; if (*r == '*') { for (;; m++) { if (ref(r + 1, m)) return 1; if (!*m) return 0; } } return *m && (*r == '?' || *r == *m) && ref(r + 1, m + 1); }
static char D[5][16]; static int L[5];
static const char *FN[] = { "a", "ab", "w/c", "b", "e" };
static void mk(int i, int n) { L[i] = n; sh_writen(FN[i], D[i], n); }
/* is there a heading line here; returns what is after it */
static char *head(char *o, const char *name) { int n; if (strncmp(o, "----------", 10)) return 0; char *e = strchr(o, '\n'); if (!e) return 0; n = vf_len(name); if (e[-1] == '\r') e--; CHECK(e - o > n && !strncmp(e - n, name, n), "the name of the file is above it"); return strchr(o, '\n') + 1; }
#ifndef NT
#define NT 2
#endif
void h_type(void) {
  static const char *N[] = { "a", "ab", "w/c", "b", "e", "?b", "w", "q", "w/*", "[" };
  int i, j, k, n = 1 + vf_pick(0, NT - 1), ord[6], m = 0, r, miss = 0; char *o;
  sh_boot(); mkdir("w", 0755); mkdir("w/w", 0755);
  for (i = 0; i < 4; i++) { for (j = 0; j < 2; j++) { D[i][j] = vf_u8(); vf_assume(D[i][j] != '-'); } mk(i, 2 - (i == 3)); } mk(4, 0);
  s("TyPe"); for (i = 0; i < n; i++) { k = vf_pick(0, 8); s(" "); s(N[k]); if (k < 5) { if (!miss) ord[m++] = k; } else if (k == 5) { if (!miss) ord[m++] = 1; } else if (k == 8) { if (!miss) ord[m++] = 2; } else if (k == 7) miss = 1; }
  r = sh_line(src); o = sh_out();
  if (miss || !m) { CHECK(r != 0, "names nothing has are an error"); COVER("ran"); return; }
  CHECK(r == 0, "no error");
  for (i = 0; i < m; i++) { char *x = o; if (m > 1) { x = head(o, FN[ord[i]]); CHECK(x != 0, "the name of each file of several is above it"); o = x; } for (j = 0; j < L[ord[i]]; j++) CHECK(o[j] == D[ord[i]][j], "every byte of every file, in the order of the names"); o += L[ord[i]]; }
  CHECK(o == sh_outb + sh_n, "nothing more"); COVER("ran");
}
void h_typein(void) { int i, n = vf_pick(0, 4); char b[8], *o; sh_boot(); for (i = 0; i < n; i++) b[i] = vf_u8(); sh_writen("_in", b, n); CHECK(sh_line("type") == 0, "no error"); o = sh_out(); CHECK(sh_n == n, "the input is copied"); for (i = 0; i < n; i++) CHECK(o[i] == b[i], "byte by byte"); COVER("ran"); }
#ifndef NF
#define NF 4
#endif
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
/* the same byte, as FIND compares it */
static int has(const char *l, int n, const char *x, int xn, int ic) { int i, j; for (i = 0; i + xn <= n; i++) { int ok = 1; for (j = 0; j < xn; j++) ok &= ic ? low(l[i + j]) == low(x[j]) : l[i + j] == x[j]; if (ok) return 1; } return 0; }
static char E[400]; static int en; static void e(const char *x, int n) { memcpy(E + en, x, n); en += n; E[en] = 0; }
static void num(int v) { char b[8]; int i = 8; if (!v) { e("0", 1); return; } while (v) b[--i] = '0' + v % 10, v /= 10; e(b + i, 8 - i); }
static int refind(const char *d, int n, const char *x, int xn, int ic, int rex, int rev, int cnt) {
  int i = 0, ln = 0, hits = 0; char t[16];
  while (i < n) { int b = i, m; while (i < n && d[i] != '\n') i++; ln++; memcpy(t, d + b, i - b); t[i - b] = 0; m = rex ? ref(x, t) : has(d + b, i - b, x, xn, ic); if (!m == rev) { hits++; if (cnt == 1) { e("[", 1); num(ln); e("]", 1); } if (cnt < 2) { e(d + b, i - b); e("\n", 1); } } if (i < n) i++; }
  if (cnt == 2) { num(hits); e("\n", 1); } return hits;
}
static void got(const char *why) { char *o = sh_out(); int i; CHECK(sh_n == en, why); if (sh_n == en) for (i = 0; i < en; i++) CHECK(o[i] == E[i], why); }
static void body(int i, int n) { int j; for (j = 0; j < n; j++) { D[i][j] = vf_u8(); vf_assume(D[i][j] && D[i][j] != '\r' && D[i][j] != '-'); } mk(i, n); }
void h_find(void) {
  int i, h, ic = vf_pick(0, 1), rev = vf_pick(0, 1), cnt = vf_pick(0, 3), in = vf_pick(0, 1), xn = 1 + vf_pick(0, 1), r; char x[4];
  sh_boot(); for (i = 0; i < xn; i++) x[i] = vf_plain(); x[xn] = 0; body(0, NF - ic * (NF > 3));
  if (ic && cnt) vf_end();
  s("FIND "); if (ic) s("/i "); if (cnt) s(cnt == 1 ? "/n " : cnt == 2 ? "/C " : "/c "); if (rev) s("/V "); if (cnt == 3) s("/N "); s(x); if (in) sh_writen("_in", D[0], L[0]); else s(" a");
  if (cnt == 3) cnt = 1;
  h = refind(D[0], L[0], x, xn, ic, 0, rev, cnt); r = sh_line(src);
  CHECK((r == 0) == (h > 0), "the status tells whether there was one"); got("exactly the lines that have it"); COVER("ran");
}
void h_finde(void) {
  static const char *P[] = { "x*", "*x", "?x", "*", "x?", "x", "*x*", "??" };
  int h, k = vf_pick(0, 7), rev = vf_pick(0, 1), r, i; char x[8]; unsigned char c = vf_plain();
  sh_boot(); body(0, NF); for (i = 0; i < NF; i++) vf_assume(!(D[0][i] & 0x80)); strcpy(x, P[k]); for (i = 0; x[i]; i++) if (x[i] == 'x') x[i] = c;
  s("find /e "); if (rev) s("/v "); s(x); s(" a"); h = refind(D[0], L[0], x, vf_len(x), 0, 1, rev, 0); r = sh_line(src);
  CHECK((r == 0) == (h > 0), "the status tells whether there was one"); got("exactly the lines the pattern matches in full"); COVER("ran");
}
void h_findn(void) {
  static const char *N[] = { "a", "ab", "w/c", "b", "?b", "w", "q", "w/*" };
  int i, k, n = 1 + vf_pick(0, 2), ord[6], m = 0, r, miss = 0, any = 0, all = 1, cnt = vf_pick(0, 1) * 2; unsigned char c[4], x; char *o, xs[2] = { 0 };
  sh_boot(); x = vf_plain(); mkdir("w", 0755); mkdir("w/w", 0755); xs[0] = x;
  for (i = 0; i < 4; i++) { D[i][0] = 'y'; D[i][1] = c[i] = vf_plain(); D[i][2] = '\n'; mk(i, 3); } vf_assume(x != 'y');
  s("find "); if (cnt) s("/c "); s(xs); for (i = 0; i < n; i++) { k = vf_pick(0, 7); s(" "); s(N[k]); if (k < 4) ord[m++] = k; else if (k == 4) ord[m++] = 1; else if (k == 7) ord[m++] = 2; else if (k == 6) miss = 1; }
  r = sh_line(src); o = sh_out(); if (miss || !m) { CHECK(r != 0, "names nothing has are an error"); COVER("ran"); return; }
  for (i = 0; i < m; i++) { int j = ord[i], h, t; if (m > 1) { o = head(o, FN[j]); CHECK(o != 0, "the name of each file of several is above it"); } en = 0; h = refind(D[j], 3, xs, 1, 0, 0, 0, cnt); any |= h; all &= h; for (t = 0; t < en; t++) CHECK(o[t] == E[t], "the lines of every file, in the order of the names"); o += en; }
  CHECK(o == sh_outb + sh_n, "nothing more"); if (all) CHECK(r == 0, "found"); if (!any) CHECK(r != 0, "not found"); COVER("ran");
}
#ifndef NW
#define NW 3
#endif
static int delim(int c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == ',' || c == '.' || c == ';'; }
static void recount(const char *d, int n, int *v) { int i; for (i = 0; i < n; i++) { v[0] += d[i] == '\n'; v[1] += !delim(d[i]) && (i + 1 == n || delim(d[i + 1])); v[2]++; v[3] += (d[i] & 0xC0) != 0x80; } }
/* reads a number, then a blank */
static int rd(char **p) { char *o = *p; int v = 0; CHECK(*o >= '0' && *o <= '9', "a number"); while (*o >= '0' && *o <= '9') v = v * 10 + *o++ - '0'; CHECK(*o == ' ' || *o == '\n', "then a blank"); if (*o == ' ') o++; *p = o; return v; }
static char *cnts(char *o, int mode, const int *v, const char *name) { static const char *W[] = { "lines", "words", "bytes", "characters" }; int i; for (i = 0; i < 4; i++) if (mode >> i & 1) CHECK(rd(&o) == v[i], W[i]); if (name) { i = vf_len(name); CHECK(!strncmp(o, name, i), "the name of the file"); o += i; } CHECK(*o == '\n', "one line for each"); return o + 1; }
void h_wc(void) {
  static const char *SW[] = { "/l ", "/W ", "/C ", "/m " };
  int i, mode = vf_pick(0, 15), what = vf_pick(0, 3), v[4] = { 0 }, u[4] = { 0 }, n; char *o;
  sh_boot(); n = what ? NW - 1 : NW; for (i = 0; i < n; i++) D[0][i] = vf_u8(); mk(0, n); D[1][0] = vf_u8(); mk(1, 1); recount(D[0], n, v); recount(D[1], 1, u);
  s("wC "); for (i = 3; i >= 0; i--) if (mode >> i & 1) s(SW[i]); if (!mode) mode = 4;
  if (what == 0) s("a"); else if (what == 1) sh_writen("_in", D[0], n); else if (what == 2) s("ab a"); else s("?b a e"); if (what == 3) mk(4, 0);
  CHECK(sh_line(src) == 0, "no error"); o = sh_out();
  if (what == 0) o = cnts(o, mode, v, "a"); else if (what == 1) o = cnts(o, mode, v, 0); else { int z[4] = { 0 }; o = cnts(o, mode, u, "ab"); o = cnts(o, mode, v, "a"); if (what == 3) o = cnts(o, mode, z, "e"); for (i = 0; i < 4; i++) v[i] += u[i]; o = cnts(o, mode, v, "Total"); }
  CHECK(o == sh_outb + sh_n, "nothing more"); COVER("ran");
}
#ifndef NX
#define NX 3
#endif
void h_xargs(void) {
  int i, n = 1 + vf_pick(0, 1), nl = vf_pick(0, 1), k, c, r; char in[24]; int m = 0;
  sh_boot(); e("k", 1);
  for (i = 0; i < n; i++) { char l[4]; int q = 0, ln = i ? 2 : NX; for (k = 0; k < ln; k++) { c = vf_u8(); vf_assume((c >= 'a' && c <= 'z') || c == ' ' || c == ';' || c == ',' || c == '\t' || c == '|' || c == '&'); l[k] = c; if (c == ' ' || c == ';' || c == ',' || c == '\t') q = 1; } memcpy(in + m, l, ln); m += ln; if (i + 1 < n || nl) in[m++] = '\n'; e(" ", 1); if (q) e("\"", 1); e(l, ln); if (q) e("\"", 1); }
  e("\n", 1); sh_writen("_in", in, m); r = sh_line("xargs echo k"); CHECK(r == 0, "no error"); got("one parameter for each line"); COVER("ran");
}
#ifndef NM
#define NM 4
#endif
/* the text as MORE shows it: 79 columns, tabs as blanks */
static void remore(const char *d, int n, int tab, int sq, int skip) {
  int i = 0, col = 0, blank = 0, w = 0, j; 
  for (; i < n; i++) { int c = (unsigned char)d[i];
    if (c == '\n') { if (w) { w = 0; continue; } if (col == 0 && blank && sq) continue; blank = col == 0; if (skip) skip--; else e("\n", 1); col = 0; continue; }
    w = 0; blank = 0;
    if (c == '\t') { int nc = tab - col % tab; if (col + nc < 80) { for (j = 0; j < nc; j++) if (!skip) e(" ", 1); col += nc; } else { if (skip) skip--; else e("\n", 1); col = 0; continue; } }
    else { if (!skip) e(d + i, 1); col += (c & 0xC0) != 0x80; }
    if (col == 79) { if (skip) skip--; else e("\n", 1); col = 0; w = 1; } }
}
void h_more(void) {
  int i, pre = vf_pick(0, 2), tab = vf_pick(0, 2), sq = vf_pick(0, 1), skip = vf_pick(0, 1), in = vf_pick(0, 1), n = 0; static char d[100];
  if (skip + in + !!tab > 1) vf_end();
  sh_boot(); if (pre) { memset(d, 'x', 79); n = pre == 1 ? 79 : 77; } for (i = 0; i < NM; i++) { d[n] = vf_u8(); vf_assume(d[n] != 27 && d[n] != '\r'); if (pre == 2) vf_assume(!(d[n] & 0x80)); n++; }
  for (i = 0; i < n; i++) if ((d[i] & 0xC0) == 0x80) vf_assume(i > 0 && i != 79 && (d[i - 1] & 0x80));
  s("more "); if (tab) s(tab == 1 ? "/t4 " : "/T:3 "); if (sq) s("/S "); if (skip) s("+1 "); if (in) sh_writen("_in", d, n); else { sh_writen("a", d, n); s("a"); }
  remore(d, n, tab == 1 ? 4 : tab == 2 ? 3 : 8, sq, skip); CHECK(sh_line(src) == 0, "no error"); got("the whole text, broken at 79 columns"); COVER("ran");
}
void h_more2(void) { int i; sh_boot(); for (i = 0; i < 3; i++) { D[0][i] = vf_u8(); vf_assume(D[0][i] != 27 && D[0][i] != '\r' && D[0][i] != '\t' && !(D[0][i] & 0x80)); } for (i = 0; i < 2; i++) { D[1][i] = vf_u8(); vf_assume(D[1][i] != 27 && D[1][i] != '\r' && D[1][i] != '\t' && !(D[1][i] & 0x80)); } mk(0, 3); mk(1, 2); i = vf_pick(0, 1); e(D[0], 3); e(D[1], 2); if (i) { en = 0; remore(D[0], 3, 8, 1, 0); remore(D[1], 2, 8, 1, 0); } CHECK(sh_line(i ? "more /s a ab" : "more a ab") == 0, "no error"); got("the files one after the other"); COVER("ran"); }
/* contents longer than the buffers they are read into */
void h_long(void) { static char d[1100], t[1100]; int i, pre = 1021, n, what = vf_pick(0, 3), v[4] = { 0 }; char *o;
  sh_boot(); for (i = 0; i < pre; i++) d[i] = i % 61 == 60 ? '\n' : i % 7 == 3 ? ' ' : 'x'; for (i = 0; i < 5; i++) { d[pre + i] = vf_u8(); if (what) vf_assume(d[pre + i] == ' ' || d[pre + i] == 'x' || d[pre + i] == '\n'); } n = pre + 5; sh_writen("a", d, n); memcpy(t, d, n);
  if (what == 0) { CHECK(sh_line("type a") == 0, "no error"); o = sh_out(); CHECK(sh_n == n, "the whole file"); for (i = 0; i < n; i++) CHECK(o[i] == t[i], "byte by byte"); }
  else if (what == 1) { CHECK(sh_line("wc /l /w /c a") == 0, "no error"); recount(t, n, v); o = cnts(sh_out(), 7, v, "a"); }
  else { int k, b = 0, m = 0; char w[8]; for (i = 0; i <= n; i++) if (i == n || t[i] == '\n') { int h = 0; for (k = b; k + 3 <= i; k++) if (t[k] == ' ' && t[k + 1] == ' ' && t[k + 2] == 'x') h = 1; if (i > b || i < n) m += h; b = i + 1; } CHECK(sh_line(what == 2 ? "find /c \"  x\" a" : "find /c /i \"  X\" a") == (m == 0), "the status"); o = sh_out(); w[0] = 0; k = 0; while (o[k] >= '0' && o[k] <= '9') k++; CHECK(k && atoi(o) == m, "every line is searched"); }
  COVER("ran"); }
