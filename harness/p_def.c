/* DEF: what a procedure runs, its parameters, its local variables. */
#include "sh.h"
#ifndef NT
#define NT 3
#endif
#ifndef NDEF
#define NDEF 2
#endif
#ifndef NOP
#define NOP 2
#endif
static char src[1600]; static int sl;
static void s(const char *x) { while (*x) src[sl++] = *x++; src[sl] = 0; }
static void c1(char c) { src[sl++] = c; src[sl] = 0; }
static char *o; static int p;
static void lit(const char *t, const char *m) { while (*t) { CHECK(o[p] == *t, m); p++; t++; } }
/* the symbols stand for the arguments, whatever those contain, and nothing else does */
void h_def_params(void) {
  static const char *T[] = { "$1", "$2", "$3", "$*", "$a", "$", "x", "$:", "$10", "$9" };
  static char val[4][8], line[64], want[128]; int i, n = vf_pick(0, 3), t[NT]; char *w = want, c;
  sh_boot(); s("def f=echo {");
  for (i = 0; i < NT; i++) { t[i] = vf_pick(0, i ? 9 : 4); s(T[t[i]]); }
  s("}\nf"); line[0] = 0;
  for (i = 0; i < n; i++) {
    char *v = val[i], *l = line + strlen(line); int f = vf_pick(0, i == 0 ? 4 : 2); c = vf_plain();
    if (i) *l++ = vf_of(" ,;\t");
    switch (f) { case 0: l[0] = c; l[1] = 0; v[0] = c; v[1] = 0; break;
      case 1: strcpy(l, "\"c d\""); l[1] = c; strcpy(v, "c d"); v[0] = c; break;
      case 2: strcpy(l, "$2c"); l[2] = c; strcpy(v, l); break;
      case 3: strcpy(l, "$1"); strcpy(v, l); break;
      case 4: strcpy(l, "c=$*"); l[0] = c; strcpy(v, l); break; }
  }
  if (n) s(" "); s(line); s("\n");
  for (i = 0; i < NT; i++) { const char *x = T[t[i]]; if (t[i] == 3) x = line; else if (t[i] <= 2) x = t[i] < n ? val[t[i]] : ""; else if (t[i] == 8) { x = n ? val[0] : ""; strcpy(w, x); w += strlen(w); x = "0"; } else if (t[i] == 9) x = ""; strcpy(w, x); w += strlen(w); }
  sh_script(src); o = sh_out(); p = 0; lit("{", "runs"); lit(want, "each $n is that argument, $* all of them, and everything else is as written"); lit("}\n", "and no more"); CHECK(!o[p], "once"); sh_err(); CHECK(!sh_errb[0], "no error");
  COVER("ran");
}
/* nine of them */
void h_def_nine(void) {
  int n = vf_pick(7, 11), i; char t[4] = { 0 }, X = vf_plain(); sh_boot(); s("def f=echo $9$8$7$6$5$4$3$2$1.$*\nf");
  for (i = 0; i < n; i++) { c1(' '); c1(i == 8 ? X : 'A' + i); } s("\n"); sh_script(src); o = sh_out(); p = 0;
  for (i = 8; i >= 0; i--) if (i < n) { t[0] = i == 8 ? X : 'A' + i; lit(t, "each of the nine"); } lit(".", "nine"); for (i = 0; i < n; i++) { if (i) lit(" ", "all"); t[0] = i == 8 ? X : 'A' + i; lit(t, "all"); } lit("\n", "all"); CHECK(!o[p], "once"); COVER("ran");
}
/* _names belong to the procedure, other names to everyone */
static struct { const char *v[4]; int inh[4]; } st[4]; static int sp; /* _a _b A B */
static const char *VN[] = { "_a", "_b", "A", "B" };
static const char *pool[] = { "", "1", "2", "3", "4", "5", "6", "7", "8", "9" }; static int nv;
static void push(void) { st[sp + 1] = st[sp]; sp++; st[sp].inh[0] = st[sp].inh[1] = 0; }
static void pop(void) { int i; sp--; for (i = 0; i < 4; i++) if (i > 1 || st[sp + 1].inh[i]) st[sp].v[i] = st[sp + 1].v[i]; }
static void op(int k) {
  int v = (k & 1) ? 0 : 2; k >>= 1; if (k == 3 && v == 2) vf_end(); 
  s("set "); if (k == 1) s("/x "); s(VN[v]); s("="); st[sp].v[v] = pool[0];
  if (k != 2) { if (k == 3) { s("!_a!+"); } else { nv++; s(pool[nv]); st[sp].v[v] = pool[nv]; } }
  if (k == 1) st[sp].inh[v] = 1;
  s("\n");
}
static void shw(void) { s("echo [!_a!!_b!!A!!B!]\n"); }
static char log_[16][16]; static int nlog;
static void note(void) { int i; char *w = log_[nlog++]; *w = 0; for (i = 0; i < 4; i++) strcat(w, st[sp].v[i]); }
void h_def_local(void) {
  int i, j, k[4][NOP], twice = vf_pick(0, 1), d; char body[3][256];
  sh_boot(); for (i = 0; i < 4; i++) st[0].v[i] = "";
  for (d = 0; d < 3; d++) for (j = 0; j < (d ? NOP : 2); j++) k[d][j] = d == 0 ? (j ? 3 : vf_pick(0, 2) * 2) : d == 2 && j ? vf_pick(0, 2) * 2 + 1 : vf_pick(0, 5);
  (void)body;
  /* bodies are fixed texts; the values differ per place */
  s("def f=(\n"); { int save = nv; nv = 4; for (j = 0; j < NOP; j++) op(k[2][j]); nv = save; } shw(); s(")\n");
  s("def g=(\n"); { int save = nv; nv = 2; op(k[1][0]); shw(); s("f\n"); shw(); for (j = 1; j < NOP; j++) op(k[1][j]); nv = save; } shw(); s(")\n");
  memset(st, 0, sizeof st); sp = 0; for (i = 0; i < 4; i++) st[0].v[i] = "";
  nv = 0; for (j = 0; j < 2; j++) op(k[0][j]); s("g\n"); shw(); if (twice) { s("g\n"); shw(); }
  sh_script(src); o = sh_out(); p = 0;
  { int q = sl; for (i = 0; i <= twice; i++) {
      push(); nv = 2; op(k[1][0]); note(); push(); nv = 4; for (j = 0; j < NOP; j++) op(k[2][j]); note(); pop(); nv = 3; note(); nv = 2; { int nn = (k[1][0] >> 1) == 2 ? 2 : 3; nv = nn; } for (j = 1; j < NOP; j++) op(k[1][j]); note(); pop(); note(); } sl = q; }
  for (i = 0; i < nlog; i++) { lit("[", "runs"); lit(log_[i], "what a procedure does to a name that starts with _ ends with it, except with /x; other names are shared"); lit("]\n", "value"); }
  CHECK(!o[p], "once"); sh_err(); CHECK(!sh_errb[0], "no error"); COVER("ran");
}
/* many names, in any order, with and without /f, and all commands that were there before */
void h_def_names(void) {
  static const char *N[] = { "ab", "abc", "abcd", "a", "setl", "set", "setlocal", "f1", "f", "zz", "rem" }; static int d[11], b[11]; int i, k, n = vf_pick(2, NDEF), bad = 0, q; char t[2] = { 0, 0 }, D = " ,\t/"[vf_pick(0, 3)]; int up = vf_pick(0, 1);
  sh_boot(); for (i = 0; i < 11; i++) d[i] = -1; d[5] = d[6] = d[10] = -2;
  for (i = 0; i < n; i++) { int f; q = vf_pick(0, 10); f = vf_pick(0, 1); b[i] = q; s(f ? "def /f " : "DEF "); s(N[q]); s("=echo "); t[0] = '1' + i; s(t); s("$1\n"); if (d[q] != -1 && !f) bad++; else d[q] = i; }
  for (i = 0; i < n; i++) { q = b[i]; if (d[q] < 0) continue; { const char *x = N[q]; for (; *x; x++) c1(up ? *x - (*x >= 'a' ? 32 : 0) : *x); } c1(D); s(D == '/' ? "k\n" : "k\n"); }
  if (d[5] == -2) s("set v=w\n"); if (d[10] == -2) s("rem echo lost\n"); if (d[6] == -2 && d[5] == -2) s("setlocal\nset v=\nendlocal\n"); s("echo !v!.\n");
  for (i = 0; i < 11; i++) if (d[i] == -1 && i != 0) { s(N[i]); s(" k\n"); break; }
  sh_script(src); o = sh_out(); p = 0;
  for (i = 0; i < n; i++) { q = b[i]; if (d[q] < 0) continue; t[0] = '1' + d[q]; lit(t, "the command that was defined last under that name runs"); lit(D == '/' ? "/k\n" : "k\n", "with its arguments"); }
  if (d[5] == -2) lit("w", "other commands stay what they are"); lit(".\n", "other commands stay"); CHECK(!o[p], "nothing else runs"); sh_err(); k = 0; for (i = 0; sh_errb[i]; i++) k += sh_errb[i] == '\n'; CHECK(k >= bad, "redefining without /f is an error"); COVER("ran");
}
/* listing */
void h_def_list(void) {
  static const char *N[] = { "ab", "abc", "b", "Abd" }; int i, m = vf_pick(1, 15), q = vf_pick(0, 3), got = 0, want = 0; static const char *Q[] = { "", " ab", " B", " x" }; char X[2] = { vf_plain(), 0 };
  sh_boot(); for (i = 0; i < 4; i++) if (m >> i & 1) { s("def "); s(N[i]); s("=echo $1"); s(X); s("\n"); } s("def /l"); s(Q[q]); s("\n"); sh_script(src); o = sh_out(); p = 0;
  for (i = 0; i < 4; i++) if ((m >> i & 1) && (q == 0 || (q == 1 && i != 2) || (q == 2 && i == 2))) want |= 1 << i;
  while (o[p]) { char w[16]; int j = 0; while (o[p] && o[p] != '=' && j < 15) w[j++] = o[p++]; w[j] = 0; for (i = 0; i < 4 && !vf_streq(w, N[i]); i++); CHECK(i < 4 && (want >> i & 1) && !(got >> i & 1), "the listing has the procedures with that prefix, each once"); if (i < 4) got |= 1 << i; lit("=echo $1", "as defined"); lit(X, "as defined"); lit("\n", "as defined"); }
  CHECK(got == want, "all of them"); COVER("ran");
}
/* a procedure counts as one command, with its result; it can call itself and leave early */
void h_def_run(void) {
  int k = vf_pick(0, 9); char X[2] = { vf_plain(), 0 }; sh_boot();
  s("def ok=(echo k$1)\ndef no=(echo n$1&noA 2>nul)\ndef rec=(\necho +$1\nif not $1==");  s(X); s("aaa rec $1a\necho -$1\n)\n");
  s("def lv=(echo l&goto :eof&echo lost)\ndef pipe=(echo u$1|more)\n");
  switch (k) {
    case 0: s("ok "); s(X); s("&&echo y||echo z\n"); break; case 1: s("no "); s(X); s("&&echo y||echo z\n"); break; case 2: s("(ok 1&no 2)&&echo y||echo z\n"); break;
    case 3: s("rec "); s(X); s("\n"); break; case 4: s("call :s\necho b\ngoto :eof\n:s\nlv\necho lost\n"); break; case 5: s("for %%i in (1 2) do ok %%i\n"); break;
    case 6: s("if 1==1 (no 1) else ok 2\nif 1==2 (no 1) else ok 2\n"); break; case 7: s("ok "); s(X); s(">q\necho b\ntype q\n"); break; case 8: s("pipe "); s(X); s("\necho b\n"); break; case 9: s("ok 1|more\necho b&ok 2\n"); break; }
  sh_script(src); o = sh_out(); p = 0;
  switch (k) {
    case 0: lit("k", "runs"); lit(X, "arg"); lit("\ny\n", "succeeds"); break; case 1: lit("n", "runs"); lit(X, "arg"); lit("\nz\n", "fails as its last command"); break; case 2: lit("k1\nn2\nz\n", "fails"); break;
    case 3: { int i, j; for (i = 0; i < 4; i++) { lit("+", "rec"); lit(X, "rec"); for (j = 0; j < i; j++) lit("a", "every level has its arguments"); lit("\n", "rec"); } for (i = 3; i >= 0; i--) { lit("-", "rec"); lit(X, "rec"); for (j = 0; j < i; j++) lit("a", "every level has its arguments"); lit("\n", "rec"); } break; }
    case 4: lit("l\nb\n", "leaves the label"); break; case 5: lit("k1\nk2\n", "each"); break; case 6: lit("n1\nk2\n", "branches"); break; case 7: lit("b\nk", "redirected"); lit(X, "redirected"); lit("\n", "redirected"); break; case 8: lit("u", "piped"); lit(X, "piped"); lit("\nb\n", "piped"); break; case 9: lit("k1\nb\nk2\n", "piped"); break; }
  CHECK(!o[p], "and no more"); COVER("ran");
}
/* what is no definition defines nothing */
void h_def_bad(void) {
  static const char *B[] = { "def =echo lost", "def x", "def", "def /f =echo lost", "def /f" }; char X[2] = { vf_plain(), 0 }; sh_boot(); s(B[vf_pick(0, 4)]); s("\nx 2>nul\necho "); s(X); s("\nset v=1\necho %v%\n"); sh_script(src); o = sh_out(); p = 0; lit(X, "other commands go on"); lit("\n1\n", "other commands go on"); CHECK(!o[p], "nothing else"); sh_err(); CHECK(sh_errb[0], "an error"); COVER("ran");
}
