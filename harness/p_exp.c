/* Expansion of %...% and !...!: what a line becomes before it is run. */
#include "sh.h"
#ifndef NT
#define NT 3
#endif
#ifndef NV
#define NV 5
#endif
static char src[1024]; static char *o; static int p;
static void s(const char *x) { strcat(src, x); }
static void sc(char c) { int l = vf_len(src); src[l] = c; src[l + 1] = 0; }
static void num(int v) { char b[16]; sprintf(b, "%d", v); s(b); }
/* a byte of a value put into a line before parsing: anything but control characters and what the parser acts on */
static unsigned char vbyte(void) { unsigned char c = vf_u8(); ASSUME((c >= 0x20) & (c != 0x7f) & (c != '&') & (c != '|') & (c != '<') & (c != '>') & (c != '(') & (c != ')') & (c != '^') & (c != '!') & (c != '"')); return c; }
/* a byte of a value put in after parsing: anything in a line */
static unsigned char dbyte(void) { unsigned char c = vf_u8(); ASSUME((c != 0) & (c != '\n') & (c != '\r') & (c != '\b')); return c; }
static void lit(const char *x, const char *m) { while (*x) { CHECK(o[p] == *x, m); p++; x++; } }
static void fin(void) { CHECK(!o[p], "no more output"); sh_err(); CHECK(!sh_errb[0], "no error"); COVER("ran"); }
static const char *D(int delayed) { return delayed ? "!" : "%"; }
/* %v:~b,l% for every value, start and length */
void h_exp_sub(void) {
  char v[NV + 1]; int n = vf_pick(0, NV), i, b = vf_pick(-NV - 1, NV + 1), has = vf_pick(0, 1), l = 0, B, E, del = vf_pick(0, 1);
  sh_boot(); ASSUME(n > 0);
  for (i = 0; i < n; i++) v[i] = del ? dbyte() : vbyte(); v[n] = 0;
  sh_setenv("v", v);
  if (has) { l = vf_pick(-NV - 1, NV + 1); ASSUME(l != 0); }
  if (del) s("setlocal enabledelayedexpansion\n");
  s("echo ["); s(D(del)); s("v:~"); num(b); if (has) { s(","); num(l); } s(D(del)); s("]\necho ["); s(del ? "!v!" : "%V%"); s("]\n");
  sh_script(src); o = sh_out(); p = 0; lit("[", "");
  B = b < 0 ? n + b : b; E = !has ? n : l > 0 ? B + l : n + l;
  if (B >= 0 && B <= n && E >= B && E <= n) { for (i = B; i < E; i++) { CHECK(o[p] == v[i], "the characters asked for, in order"); p++; } }
  else { /* not in the value: whatever comes is a part of it */
    int k = 0, ok = 0, q; while (!(o[p + k] == ']' && o[p + k + 1] == '\n' && o[p + k + 2] == '[')) k++;
    for (q = 0; q + k <= n; q++) { int e = 1; for (i = 0; i < k; i++) e &= o[p + i] == v[q + i]; ok |= e; }
    CHECK(ok, "never anything that is not in the value"); p += k; }
  lit("]\n[", "exactly the characters asked for"); lit(v, "the variable keeps its value"); lit("]\n", "the variable keeps its value"); fin();
}
/* lengths and positions of any size */
void h_exp_sub_huge(void) {
  static const char *N[] = { "2147483647", "-2147483648", "-2147483647", "4294967295", "99999999999999999999", "-99999999999999999999", "1", "-1", "0", "2147483648" };
  int b = vf_pick(0, 9), l = vf_pick(0, 10); char a = vf_plain(); char v[4] = { a, 'b', 'c', 0 };
  sh_boot(); sh_setenv("v", v);
  s("echo [%v:~"); s(N[b]); if (l < 10) { s(","); s(N[l]); } s("%]\necho [%v%]\n");
  sh_script(src); o = sh_out(); p = 0; lit("[", "");
  { int k = 0, ok = 0, q, i; while (o[p + k] != ']') { k++; CHECK(k <= 3, "no more than the value"); } for (q = 0; q + k <= 3; q++) { int e = 1; for (i = 0; i < k; i++) e &= o[p + i] == v[q + i]; ok |= e; } CHECK(ok, "part of the value"); p += k; }
  lit("]\n[", ""); lit(v, "the variable keeps its value"); lit("]\n", ""); fin();
}
/* %v:a=b% */
void h_exp_rep(void) {
  char v[NV + 1], a[3], b[4], w[64]; int n = vf_pick(1, NV), la = vf_pick(1, 2), lb = vf_pick(0, 2), i, k = 0, del = vf_pick(0, 1);
  sh_boot();
  for (i = 0; i < n; i++) v[i] = vf_of("pqr"); v[n] = 0; for (i = 0; i < la; i++) a[i] = vf_of("pqr"); a[la] = 0; for (i = 0; i < lb; i++) b[i] = vf_of("pqr"); b[lb] = 0;
  sh_setenv("v", v);
  if (del) s("setlocal enabledelayedexpansion\n");
  s("echo ["); s(D(del)); s("v:"); s(a); s("="); s(b); s(D(del)); s("]\necho [%v%]\n");
  for (i = 0; i < n; ) { int m = i + la <= n && v[i] == a[0] && (la < 2 || v[i + 1] == a[1]); if (m) { int j; for (j = 0; j < lb; j++) w[k++] = b[j]; i += la; } else w[k++] = v[i++]; } w[k] = 0;
  sh_script(src); o = sh_out(); p = 0; lit("[", ""); lit(w, "every occurrence is replaced, the rest is kept"); lit("]\n[", "every occurrence is replaced, nothing more"); lit(v, "the variable keeps its value"); lit("]\n", "the variable keeps its value"); fin();
}
/* %v:default%, defined or not */
void h_exp_def(void) {
  char v[3] = { vf_plain(), vf_plain(), 0 }, d[4] = { vf_plain(), vf_of(" pq,;-/.\\"), vf_plain(), 0 }; int def = vf_pick(0, 1), del = vf_pick(0, 1);
  sh_boot(); if (def) sh_setenv("v", v);
  if (del) s("setlocal enabledelayedexpansion\n");
  s("echo ["); s(D(del)); s("v:"); s(d); s(D(del)); s("]\n");
  sh_script(src); o = sh_out(); p = 0; lit("[", ""); lit(def ? v : d, "the value if defined, otherwise the default"); lit("]\n", "the value or the default"); fin();
}
/* lines made of NT pieces */
static char want[256], blank[256]; static int nw;
static void w(const char *x) { while (*x) want[nw++] = *x++; want[nw] = 0; }
static void exp_line(int del) {
  char v[3], a1[3], t[2] = { 0, 0 }; int i; const char *d = D(del);
  sh_boot();
  v[0] = del ? dbyte() : vbyte(); v[1] = del ? dbyte() : vbyte(); v[2] = 0; a1[0] = vf_plain(); a1[1] = vf_plain(); a1[2] = 0;
  sh_setenv("Var", v);
  s(del ? "setlocal enabledelayedexpansion\n" : ""); s("call :s \""); s(a1); s("\" z\ngoto :eof\n:s\necho ["); w("[");
  for (i = 0; i < NT; i++) switch (vf_pick(0, del ? 6 : 9)) {
    case 0: t[0] = vf_plain(); s(t); w(t); break;
    case 1: s(d); s(d); w(d); break;
    case 2: s(d); s("vAR"); s(d); w(v); break;
    case 3: s(d); s("undef"); s(d); break;
    case 4: s("^"); s(d); w(d); break;
    case 5: s(" "); w(" "); break;
    case 6: s(d); s("var:~1,1"); s(d); t[0] = v[1]; w(t); break;
    case 7: s("%1"); w(a1); break;
    case 8: s("%*"); blank[nw] = 1; w("\""); w(a1); w("\" z"); break;
    case 9: s("%4"); break;
  }
  s("]"); w("]"); if (vf_pick(0, 1)) { s(d); } s("\n"); w("\n");
  sh_script(src); o = sh_out(); p = 0;
  { int i; for (i = 0; i < nw; i++) { if (blank[i]) while (o[p] == ' ') p++; /* blanks before the first argument */ CHECK(o[p] == want[i], "the line is the pieces, each replaced by what it stands for"); p++; } }
  fin();
}
void h_exp_line(void) { exp_line(0); }
void h_exp_line_delayed(void) { exp_line(1); }
/* a delayed variable is taken when the command runs, a conventional one when the line is read */
void h_exp_when(void) {
  char a = vf_plain(), b = vf_plain(), c = vf_plain(), A[2] = { a, 0 }, Bs[2] = { b, 0 }, C[2] = { c, 0 }; int k = vf_pick(0, 2);
  sh_boot(); sh_setenv("v", A);
  s("setlocal enabledelayedexpansion\n"); s(k == 0 ? "(set v=" : k == 1 ? "if 1==1 (\nset v=" : "for %%i in (1) do (\n set v="); s(Bs); s(k ? "\n" : "&"); s("echo [%v%!v!]"); s(k ? "\n" : "&"); s("set v="); s(C); s(k ? "\n" : "&"); s("echo [%v%!v!]"); s(")\necho [%v%!v!]\n");
  sh_script(src); o = sh_out(); p = 0;
  lit("[", ""); lit(A, "as read"); lit(Bs, "as run"); lit("]", ""); while (o[p] == ' ') p++; lit("\n[", ""); lit(A, "as read"); lit(C, "as run"); lit("]", ""); while (o[p] == ' ') p++; lit("\n[", ""); lit(C, ""); lit(C, ""); lit("]\n", ""); fin();
}
/* a value with any characters is one piece when it is put in with !: never an operator, a redirection, a quote, a separator */
void h_exp_inert(void) {
  char v[4] = { dbyte(), dbyte(), dbyte(), 0 }, u[4] = { v[0], v[1], v[2], 0 }; int k = vf_pick(0, 3), i, diff = vf_pick(0, 1);
  for (i = 0; i < 3; i++) ASSUME((v[i] < '0' || v[i] > '9') && v[i] != '!' && v[i] != '%' ); 
  sh_boot(); sh_setenv("v", v); if (diff) u[1] = v[1] == 'x' ? 'y' : 'x'; sh_setenv("u", u);
  s("setlocal enabledelayedexpansion\n");
  if (k == 0) { s("echo [!v!]&echo k\n"); }
  if (k == 1) { for (i = 0; i < 3; i++) ASSUME(v[i] != '=' && v[i] != '"'); s("if !v!==!u! (echo same) else (echo diff)\n"); }
  if (k == 2) { ASSUME(v[0] != ' ' && v[0] != '\t'); s("set w=!v!&echo k\n"); }
  if (k == 3) { s("call :s !v! p\ngoto :eof\n:s\nset w=%1\nset q=%2\n"); for (i = 0; i < 3; i++) ASSUME(v[i] != '&' && v[i] != '|' && v[i] != '<' && v[i] != '>' && v[i] != '(' && v[i] != ')' && v[i] != '^' && v[i] != '"'); }
  sh_script(src); o = sh_out(); p = 0;
  if (k == 0) { lit("[", ""); lit(v, "the value as it is"); lit("]\nk\n", "and the next command runs"); }
  if (k == 1) lit(diff ? "diff\n" : "same\n", "compared as they are");
  if (k == 2) { const char *x = sh_getenv("w"); CHECK(x && vf_streq(x, v), "assigned as it is"); lit("k\n", ""); }
  if (k == 3) { const char *x = sh_getenv("q"); CHECK(x && vf_streq(x, "p"), "one argument, whatever is in it"); }
  fin();
}
/* %0 %CD% %ERRORLEVEL% %RANDOM% */
void h_exp_dyn(void) {
  int k = vf_pick(0, 3), e = vf_i32(); char b[64]; 
  sh_boot(); ASSUME(e > -1000 && e < 1000);
  if (k == 0) { iErrorLevel = e = (int)vf_concrete(e % 7); s("echo [%errorLevel%]\n"); sprintf(b, "[%d]\n", e); }
  if (k == 1) { s("cd\necho %cd%\n"); }
  if (k == 2) { s("echo %random%\necho %RANDOM:x=y%\n"); }
  if (k == 3) { s("set ERRORLEVEL\nnothere\nif errorlevel 1 echo %errorlevel%\necho [%errorlevel:~0,1%]\n"); }
  sh_script(src); o = sh_out(); p = 0;
  if (k == 0) { lit(b, "error level"); CHECK(!o[p], ""); }
  if (k == 1) { int n = vf_len(o) / 2, i; for (i = 0; i < n; i++) CHECK(o[i] == o[n + i], "the current directory, as cd shows it"); CHECK(n > 1, ""); }
  if (k == 2) { int n = 0, l = 0; for (; o[p]; p++) { if (o[p] == '\n') { l++; CHECK(n > 0, "a number"); n = 0; } else { CHECK(o[p] >= '0' && o[p] <= '9', "a number"); n++; } } CHECK(l == 2, "two numbers"); }
  COVER("ran");
}

/* what a value holds is not expanded again */
void h_exp_once(void) {
  char v[5]; int i, k = vf_pick(0, 4), nl = 3; sh_boot(); for (i = 0; i < nl; i++) v[i] = vf_of("%!^ijV\"~:1"); v[nl] = 0; sh_setenv("i", "Z"); sh_setenv("V", v); sh_setenv("j", "Y");
  switch (k) { case 0: s("for %%i in (A) do echo [!V!]\n"); break; case 1: s("for %%j in (A B) do for %%i in (C) do echo [!V!]\n"); break; case 2: s("for %%i in (A) do (set w=!V!)\necho [!w!]\n"); break; case 3: s("def f=echo [!V!]$1\nfor %%i in (A) do f\n"); break; case 4: s("for %%i in (A) do if 1==1 (echo [!V!]) else echo n\n"); break; }
  sh_script(src); o = sh_out(); p = 0; for (i = 0; i < (k == 1 ? 2 : 1); i++) { lit("[", ""); lit(v, "the value as it is, not expanded again"); lit("]", ""); while (o[p] == ' ') p++; lit("\n", ""); } fin();
}
