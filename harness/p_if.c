/* IF: what the comparisons mean, which branch runs, and logical expressions. */
#include "sh.h"
#ifndef ND
#define ND 2
#endif
#ifndef NS
#define NS 3
#endif
#ifndef EDEPTH
#define EDEPTH 1
#endif
#ifndef ELEN
#define ELEN 1
#endif
#ifndef NT
#define NT 3
#endif
static char src[2048]; static void s(const char *x) { strcat(src, x); }
static const char *CMP[] = { "EQU", "neq", "LSS", "Leq", "GTR", "geq", "==" };
static int holds(int c, int lt, int eq) { switch (c) { case 0: case 6: return eq; case 1: return !eq; case 2: return lt; case 3: return lt | eq; case 4: return !(lt | eq); default: return !lt; } }
static void test(const char *sw, const char *a, int c, const char *b, int neg, int q, int want, const char *why) {
  s("if "); s(sw); if (neg) s("not "); if (q) s("\""); s(a); if (q) s("\""); if (c == 6) s("=="); else { s(" "); s(CMP[c]); s(" "); } if (q) s("\""); s(b); if (q) s("\""); s(" (echo yes) else (echo no)\n");
  sh_script(src); sh_out(); { int yes = vf_streq(sh_outb, "yes\n"); CHECK(yes || vf_streq(sh_outb, "no\n"), "exactly one of the branches runs, once"); if (neg) want = !want; CHECK((yes != 0) == (want != 0), why); }
  sh_err(); CHECK(!sh_errb[0], "no error"); CHECK(iErrorLevel == 0, ""); COVER("ran");
}
/* decimal integers of ND digits with signs, every digit symbolic */
static int dec(char *b) { int n = vf_pick(1, ND), i, v = 0, k = 0, neg = vf_pick(0, 1); if (neg) b[k++] = '-'; for (i = 0; i < n; i++) { unsigned char d = vf_u8(); ASSUME((d >= '0') & (d <= '9')); ASSUME(i || n == 1 || d != '0'); b[k++] = d; v = v * 10 + (d - '0'); } b[k] = 0; return neg ? -v : v; }
void h_if_dec(void) { char a[8], b[8]; int x = dec(a), y = dec(b), c = vf_pick(0, 5); sh_boot(); test("", a, c, b, c == 0, 0, holds(c, x < y, x == y), "two integers are compared by their value"); }
/* around the limits of the integers, in other bases, as floats, and things that are no numbers */
static const struct { const char *t; int num; double v; } T[] = {
  { "5", 1, 5 }, { "05", 1, 5 }, { "0x5", 1, 5 }, { "-3", 1, -3 }, { "010", 1, 8 }, { "0x10", 1, 16 }, { "0XfF", 1, 255 }, { "255", 1, 255 }, { "8", 1, 8 }, { "08", 2, 8 }, { "10", 1, 10 }, { "2147483647", 1, 2147483647. }, { "-2147483648", 1, -2147483648. },
  { "2147483648", 2, 2147483648. }, { "4294967301", 2, 4294967301. }, { "1e1", 2, 10 }, { "1.5", 2, 1.5 }, { "-0.5", 2, -0.5 }, { "5.0", 2, 5 }, { "-1e3", 2, -1000 }, { "0", 1, 0 }, { "-0", 1, 0 },
  { "abc", 0, 0 }, { "5x", 0, 0 }, { "0x", 0, 0 }, { "nan", 0, 0 }, { "inf", 0, 0 }, { "-", 0, 0 }, { "e5", 0, 0 }, { "1e", 0, 0 }, { "x10", 0, 0 } };
#define NTAB 31
static int scmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
void h_if_tab(void) {
  int i = vf_pick(0, NTAB - 1), j = vf_pick(0, NTAB - 1), c = vf_pick(0, 6), num, r; 
  num = (T[i].num == 1 && T[j].num == 1) || (T[i].num && T[j].num);
  /* an octal or hexadecimal integer against a float: the manual does not say which value it has as a float */
  if (num && T[i].num != T[j].num) { const char *o = T[i].num == 1 ? T[i].t : T[j].t; ASSUME(!(o[0] == '0' && o[1])); }
  sh_boot(); r = scmp(T[i].t, T[j].t);
  test("", T[i].t, c, T[j].t, 0, c < 6 && (i ^ j) & 1, holds(c, num ? T[i].v < T[j].v : r < 0, num ? T[i].v == T[j].v : r == 0), num ? "two numbers are compared by their value" : "anything else is compared as text");
}
/* text: a letter first, then any character that needs no quoting */
static void str(char *b) { int i, n = vf_pick(1, NS); for (i = 0; i < n; i++) { unsigned char c = vf_u8(); ASSUME(i ? (c >= '-' && c <= '~' && c != '^' && c != ';' && c != '=' && c != '|' && c != '<' && c != '>') || c >= 128 : (c >= 'p' && c <= 'z') || (c >= 'P' && c <= 'Z')); b[i] = c; } b[n] = 0; }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
void h_if_str(void) {
  char a[8], b[8]; int c = vf_pick(0, 6), ci = vf_pick(0, 1), i, d = 0; str(a); str(b);
  for (i = 0; !d && i <= NS; i++) { d = ci ? low((unsigned char)a[i]) - low((unsigned char)b[i]) : (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) break; }
  sh_boot(); sh_setenv("a", a); sh_setenv("b", b);
  s("setlocal enabledelayedexpansion\nif "); if (ci) s("/I "); s(c == 6 ? "!a!==!b!" : "!a! "); if (c < 6) { s(CMP[c]); s(" !b!"); } s(" (echo yes) else (echo no)\n"); sh_script(src); sh_out();
  { int yes = vf_streq(sh_outb, "yes\n"); CHECK(yes || vf_streq(sh_outb, "no\n"), "exactly one branch"); CHECK((yes != 0) == (holds(c, d < 0, d == 0) != 0), "text is compared character by character, /I ignoring case"); } sh_err(); CHECK(!sh_errb[0], "no error"); COVER("ran");
}
/* "a"=="b" and a==b, empty sides in quotes, both orders of NOT and /I */
void h_if_eq(void) {
  char a[4], b[4]; int na = vf_pick(0, 2), nb = vf_pick(0, 2), q = vf_pick(0, 1), ci = vf_pick(0, 1), neg = vf_pick(0, 1), i, eq = na == nb; const char *sp = vf_pick(0, 1) && q ? " " : "";
  for (i = 0; i < na; i++) a[i] = vf_plain(); a[na] = 0; for (i = 0; i < nb; i++) b[i] = vf_plain(); b[nb] = 0; if (!q) ASSUME(na && nb); sh_boot();
  for (i = 0; i < na && i < nb; i++) eq &= ci ? low(a[i]) == low(b[i]) : a[i] == b[i];
  s("if "); if (ci) s("/i "); if (neg) s("NOT "); if (q) s("\""); s(sp); s(a); if (q) s("\""); s("=="); if (q) s("\""); s(sp); s(b); if (q) s("\""); s(" (echo yes) else (echo no)\n"); sh_script(src); sh_out();
  { int yes = vf_streq(sh_outb, "yes\n"); CHECK(yes || vf_streq(sh_outb, "no\n"), "exactly one branch"); CHECK((yes != 0) == ((eq != 0) != neg), "the same text on both sides, or not"); } sh_err(); CHECK(!sh_errb[0], "no error"); COVER("ran");
}
/* DEFINED, EXIST, ERRORLEVEL */
void h_if_obj(void) {
  int k = vf_pick(0, 4), want = 0, neg = vf_pick(0, 1), e, br = vf_pick(0, 1); char n[3] = { vf_plain(), 0, 0 }, b[16]; sh_boot();
  s("if "); if (br) s("[ "); if (neg) s("not ");
  switch (k) {
    case 0: want = vf_pick(0, 1); n[1] = 'q'; if (want) sh_setenv(n, "1"); n[0] ^= 32; s("defined "); s(n); break;
    case 1: want = vf_pick(0, 1); if (want) sh_write("fx.d", ""); sh_write("gx.d", ""); s("Exist fx.d"); break;
    case 2: want = vf_pick(0, 1); if (want) { char f[4] = { n[0], '.', 'e', 0 }; sh_write(f, ""); } sh_write("p.d", ""); s("exist *.e"); break;
    case 3: mkdir("dir", 0755); want = 1; s("exist dir"); break;
    case 4: e = vf_pick(-2, 3); iErrorLevel = vf_pick(-2, 3); want = iErrorLevel >= e; sprintf(b, "errorlevel %d", e); s(b); break;
  }
  if (br) s(" ]"); s(" (echo yes) else (echo no)\n"); sh_script(src); sh_out();
  { int yes = vf_streq(sh_outb, "yes\n"); CHECK(yes || vf_streq(sh_outb, "no\n"), "exactly one branch"); CHECK((yes != 0) == ((want != 0) != neg), "the variable is defined, the file exists, the error level reached"); } sh_err(); CHECK(!sh_errb[0], "no error"); COVER("ran");
}
/* which branch runs, in every layout, nested, with operators behind */
static int cond(void) { static int n; int v = vf_pick(0, 1); n++; s(v ? "if 1==1 " : "if 1 gtr 1 "); return v; }
static char want_[256]; static void w(const char *x) { strcat(want_, x); }
void h_if_branch(void) {
  int k = vf_pick(0, 8), c, d; sh_boot(); 
  switch (k) {
    case 0: c = cond(); s("(echo a\n echo b\n) else (echo c\n echo d)\n"); w(c ? "a\nb\n" : "c\nd\n"); break;
    case 1: c = cond(); s("echo a\n"); w(c ? "a\n" : ""); break;
    case 2: c = cond(); s("(\n"); d = cond(); s("(echo a) else (echo b)\necho x\n) else (\n"); w(c ? d ? "a\nx\n" : "b\nx\n" : ""); d = cond(); s("(echo p) else (echo q)\n)\n"); if (!c) w(d ? "p\n" : "q\n"); break;
    case 3: c = cond(); s("(echo a) else "); d = cond(); s("(echo b) else (echo c)\n"); w(c ? "a\n" : d ? "b\n" : "c\n"); break;
    case 4: c = cond(); d = cond(); s("echo a\n"); w(c && d ? "a\n" : ""); break;
    case 5: c = cond(); s("(echo a&echo b)\n"); w(c ? "a\nb\n" : ""); break;
    case 6: c = cond(); s("echo a& echo b\n"); w(c ? "a\nb\n" : ""); break;
    case 7: c = cond(); s("(echo a) else echo b\n"); w(c ? "a\n" : "b\n"); break;
    case 8: s("for %%i in (1 2) do (\n"); c = cond(); s("(echo %%ia) else (echo %%ib)\n)\n"); w(c ? "1a\n2a\n" : "1b\n2b\n"); break;
  }
  s("echo end\n"); w("end\n"); sh_script(src); sh_out(); CHECK(vf_streq(sh_outb, want_), "the branch that holds runs completely, the other not at all, and what follows runs"); sh_err(); CHECK(!sh_errb[0], "no error"); COVER("ran");
}
/* values in conditions are symbolic: the branch follows the value, for any value */
void h_if_val(void) { char v[3] = { vf_plain(), vf_of0("pq"), 0 }, u[3] = { vf_plain(), vf_of0("pq"), 0 }; int eq = v[0] == u[0] && v[1] == u[1]; sh_boot(); sh_setenv("v", v); sh_setenv("u", u);
  s("if %v%==%u% (set r=1) else (set r=0)\nif not x!v! equ x!u! (set q=0) else (set q=1)\n"); sh_script(src); CHECK(*sh_getenv("r") == '0' + eq, "=="); CHECK(*sh_getenv("q") == '0' + eq, "equ"); COVER("ran"); }

/* ------------------------------------------------ IF [ expression ] */
static int evals; 
static char eb[512]; static void e(const char *x) { strcat(eb, x); }
static int freeneg;
static int gtest(void) { int neg = freeneg ? vf_pick(0, 1) : evals % 3 == 1, v = vf_pick(0, 1); static const char *Ts[] = { "1 equ 1 ", "a == a ", "DEFINED HOME " }, *Fs[] = { "2 lss 1 ", "a == b ", "Defined nope " }; int k = evals++ % 3; if (neg) e("not "); e(v ? Ts[k] : Fs[k]); return v ^ neg; }
static int gfactor(int d);
static int gterm(int d, int n) { int v = gfactor(d); while (n-- > 0 && vf_pick(0, 1)) { int r; e("and "); r = gfactor(d); v = v & r; } return v; }
static int gexp(int d, int n) { int v = gterm(d, n); while (n-- > 0 && vf_pick(0, 1)) { int r; e("OR "); r = gterm(d, n); v = v | r; } return v; }
static int gfactor(int d) { int v; if (d > 0 && vf_pick(0, 1)) { e("[ "); v = gexp(d - 1, 1); e("] "); return v; } return gtest(); }
void h_if_exp(void) { int v; sh_boot(); v = gexp(EDEPTH, ELEN); s("if [ "); s(eb); s("] (echo yes) else (echo no)\necho end\n"); sh_script(src); sh_out(); CHECK(vf_streq(sh_outb, v ? "yes\nend\n" : "no\nend\n"), "AND before OR, brackets first, NOT in front of a test"); sh_err(); CHECK(!sh_errb[0], "no error"); COVER("ran"); }
/* a flat chain of NT+1 tests with any operators */
void h_if_flat(void) { int i, term, any = 0; freeneg = 1; sh_boot(); s("if [ "); term = gtest(); for (i = 0; i < NT; i++) { if (vf_pick(0, 1)) { e("AND "); term &= gtest(); } else { e("or "); any |= term; term = gtest(); } } any |= term; s(eb); s("] echo yes\n"); sh_script(src); sh_out(); CHECK(vf_streq(sh_outb, any ? "yes\n" : ""), "AND before OR"); sh_err(); CHECK(!sh_errb[0], "no error"); COVER("ran"); }
/* tests on symbolic values; /I reaches every test */
void h_if_expval(void) { char a = vf_plain(), b = vf_plain(), c = vf_plain(); char A[2] = { a, 0 }, B[2] = { b, 0 }, C[2] = { c, 0 }; int ci = vf_pick(0, 1), x, y, z, op = vf_pick(0, 3), v; sh_boot();
  x = ci ? low(a) == low(b) : a == b; y = ci ? low(b) < low(c) : b < c; z = ci ? low(a) != low(c) : a != c;
  s("if "); if (ci) s("/i "); s("[ "); s(A); s(" equ "); s(B); s(op & 1 ? " or " : " and "); s(B); s(" lss "); s(C); s(op & 2 ? " or " : " and "); s(A); s(" neq "); s(C); s(" ] (set r=1) else (set r=0)\n");
  v = op == 0 ? x & y & z : op == 1 ? x | (y & z) : op == 2 ? (x & y) | z : x | y | z; sh_script(src); CHECK(*sh_getenv("r") == '0' + v, "the value of the expression decides"); COVER("ran"); }
/* malformed expressions: an error, nothing runs, the next line does */
void h_if_badexp(void) { static const char *B[] = { "[ 1 equ 1", "[ ]", "[ and ]", "[ 1 equ ]", "[ 1 equ 1 and ]", "[ or 1 equ 1 ]", "[ not ]", "[ [ 1 equ 1 ]", "[ 1 foo 2 ]", "[ defined ]", "[ 1 equ 1 2 equ 2 ]", "[ 1 lss 0 or ]", "[ not and not ]" }; int k = vf_pick(0, 12); sh_boot();
  s("if "); s(B[k]); s(" (echo yes) else (echo no)\nif errorlevel 0 if not errorlevel 1 echo zero\necho end\n"); sh_script(src); sh_out(); CHECK(vf_streq(sh_outb, "end\n"), "nothing of it runs, it fails, and the script goes on"); sh_err(); CHECK(sh_errb[0], "reported"); COVER("ran"); }
/* the error level after IF and FOR: the one of the last command they ran, unchanged when they ran none */
#ifndef NL_
#define NL_ 2
#endif
void h_if_level(void) {
  static const char *A[] = { "if errorlevel K echo x>_n", "if errorlevel K call :e N", "if 1==2 (echo x>_n) else call :e N", "for %%i in (a b) do call :e N", "for %%i in () do call :e N", "for /l %%i in (1,1,2) do if errorlevel K call :e N", "if 1==2 call :e N", "for /f %%i in (\"a\") do call :e N", "if not errorlevel K (call :e N)", "for /l %%i in (2,1,1) do call :e N", "if 1==1 (call :e N\nif 1==2 echo x)", "for %%i in (1 2) do (call :e N\nif %%i==2 call :e K)", "if defined NOVAR (echo x) else (if errorlevel K (call :e N))" };
  int i, l, n; char t[160]; const char *p; char *o; sh_boot();
  l = vf_pick(0, 1) ? '4' : '0'; strcpy(t, "call :e 0\n"); t[8] = l; s(t); l -= '0';
  for (i = 0; i < NL_; i++) { int a = vf_pick(0, 12), k = vf_u8(), v = "253"[i], r; ASSUME((k >= '0') & (k <= '9')); n = 0; for (p = A[a]; *p; p++) t[n++] = *p == 'K' ? k : *p == 'N' ? v : *p; t[n++] = '\n'; t[n] = 0; s(t); k -= '0'; v -= '0'; r = l >= k;
    switch (a) { case 0: if (r) l = 0; break; case 1: case 12: if (r) l = v; break; case 2: case 3: case 7: case 10: l = v; break; case 5: if (r) l = v; break; case 8: if (!r) l = v; break; case 11: l = k; break; } }
  s("echo !errorlevel!\ngoto :eof\n:e\nexit /b %1\n"); sh_script(src); o = sh_out(); CHECK(o[0] == '0' + l && o[1] == '\n' && !o[2], "the error level of the last command run, unchanged when there is none"); sh_err(); CHECK(!sh_errb[0], "no error"); COVER("ran");
}
