/* The store of variables, SET, SETLOCAL and ENDLOCAL against a plain list. */
#include "sh.h"
#ifndef NOP
#define NOP 4
#endif
#ifndef NNAME
#define NNAME 4
#endif
#define MAXV 16
static struct { char n[8], v[8]; } m[MAXV]; static int nm;
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int same(const char *a, const char *b) { while (*a && lo(*a) == lo(*b)) { a++; b++; } return lo(*a) == lo(*b); }
static int mfind(const char *n) { int i; for (i = 0; i < nm; i++) if (same(m[i].n, n)) return i; return -1; }
static void mset(const char *n, const char *v) { int i = mfind(n); if (!*v) { if (i >= 0) { m[i] = m[--nm]; } return; } if (i < 0) { i = nm++; strcpy(m[i].n, n); } strcpy(m[i].v, v); }
static const char *mget(const char *n) { int i = mfind(n); return i < 0 ? 0 : m[i].v; }
static void cmp(const char *n) { const char *a = sh_getenv(n), *b = mget(n); CHECK(!a == !b && (!a || vf_streq(a, b)), "a variable has the value last given to it, and only if it was given one"); }
/* the listing has every variable once, and nothing else; prefix: only those */
static int starts(const char *s, const char *p) { while (*p && lo(*s) == lo(*p)) { s++; p++; } return !*p; }
static void list(const char *prefix) {
  char l[32], *o; int i, k, seen[MAXV], want = 0, got = 0; for (i = 0; i < nm; i++) { seen[i] = 0; want += starts(m[i].n, prefix); }
  sh_clear(); strcpy(l, "set "); strcat(l, prefix); sh_line(l); o = sh_out();
  while (*o) { char n[16], v[16]; k = 0; while (*o && *o != '=' && k < 15) n[k++] = *o++; n[k] = 0; CHECK(*o == '=', "NAME=value"); o++; k = 0; while (*o && *o != '\n' && k < 15) v[k++] = *o++; v[k] = 0; CHECK(*o == '\n', "one line each"); o++;
    i = mfind(n); CHECK(i >= 0 && !seen[i] && vf_streq(m[i].n, n) && vf_streq(m[i].v, v), "SET lists what is set, once, as it was set"); seen[i] = 1; CHECK(starts(n, prefix), "only names with that prefix"); got++; }
  CHECK(got == want, "SET lists everything");
  if (want) { sh_err(); CHECK(!sh_errb[0], "no error"); }
}
/* a name: a symbolic letter out of few (both cases), maybe a second */
static void pname(char *n) { static const char *N[] = { "A", "q", "_x", "ab", "B", "_Y" }; strcpy(n, N[vf_pick(0, NNAME - 1)]); }
static void name(char *n) { n[0] = vf_of("aAb_Z"); n[1] = vf_of0("aB"); n[2] = 0; }
static char *env0[] = { (char *)"a=1", (char *)"Q=zz", (char *)"_x=p", 0 };
static void start(int i) {
  environ = env0;
  sh_boot(); nm = 0;
  while (lpeEnv->index) { lpeEnv->index--; free(lpeEnv->envbuf[lpeEnv->index]->name); free(lpeEnv->envbuf[lpeEnv->index]->content); free(lpeEnv->envbuf[lpeEnv->index]); }
  free(lpeEnv->envbuf); free(lpeEnv); lpeEnv = pBat_InitEnv(env0 + i); for (; env0[i]; i++) { char n[4]; int k = 0; while (env0[i][k] != '=') { n[k] = env0[i][k]; k++; } n[k] = 0; mset(n, env0[i] + k + 1); }
}
static void op(void) {
  char n[4], l[64], v[3]; int k = vf_pick(0, 5); pname(n);
  switch (k) {
    case 0: case 1: case 2: v[0] = vf_plain(); v[1] = k == 1 ? "=\" "[vf_pick(0, 2)] : 0; v[2] = 0; strcpy(l, k == 2 ? "set /x " : "set "); strcat(l, n); if (k == 1) strcat(l, " \t"); strcat(l, "="); strcat(l, v); sh_line(l); mset(n, v); break;
    case 3: strcpy(l, "set "); strcat(l, n); strcat(l, "="); sh_line(l); mset(n, ""); break;
    case 4: strcpy(l, "set \""); strcat(l, n); strcat(l, "=x y\"zz"); sh_line(l); mset(n, "x y"); break;
    case 5: strcpy(l, "set "); strcat(l, n); strcat(l, " ="); sh_line(l); mset(n, ""); break;
  }
  cmp(n);
}
void h_env_ops(void) {
  int i; start(0); for (i = 0; i < NOP; i++) op();
  cmp("_y"); cmp("B"); cmp("a"); cmp("Q"); cmp("_x"); cmp("ab"); cmp("b"); sh_err(); CHECK(!sh_errb[0], "no error"); COVER("ran");
}
void h_env_list(void) {
  static const char *P[] = { "", "a", "_", "Ab", "z" }; int i, k; start(vf_pick(0, 2)); for (i = 0; i < 2; i++) op();
  k = vf_pick(0, 4); sh_clear(); list(P[k]); COVER("ran");
}
/* any bytes in values, any bytes but = in names */
void h_env_bytes(void) {
  char n[4] = { 0 }, v[5] = { 0 }, N[4]; int i, nn = vf_pick(1, 2), nv = vf_pick(1, 4); const char *x;
  sh_boot(); for (i = 0; i < nn; i++) { n[i] = (char)vf_u8(); ASSUME(n[i] != 0); } for (i = 0; i < nv; i++) { v[i] = (char)vf_u8(); ASSUME(v[i] != 0); }
  ASSUME(n[nn - 1] != ' ' && n[nn - 1] != '\t'); ASSUME(!same(n, "PATH"));
  for (i = 0; i < 4; i++) N[i] = n[i] >= 'a' && n[i] <= 'z' ? n[i] - 32 : n[i];
  sh_setenv(n, v); x = sh_getenv(N); CHECK(x && vf_streq(x, v), "the value as given, found under any case"); x = sh_getenv("HOME"); CHECK(x, "others stay");
  sh_setenv("zzz", "1"); sh_setenv(N, ""); CHECK(!sh_getenv(n), "gone"); x = sh_getenv("zzz"); CHECK(x && *x == '1', "others stay"); COVER("ran");
}
/* the environment the program is started with */
void h_env_init(void) {
  static char e1[8], e2[8], *e[3] = { e1, e2, 0 }; const char *x; char a, b, c, d; sh_boot();
  a = vf_plain(); b = vf_of0("= \tx"); c = vf_plain(); d = vf_of0(" =\t"); ASSUME(b != '=');
  e1[0] = a; if (b) { e1[1] = b; e1[2] = '='; e1[3] = c; e1[4] = d; } else { e1[1] = '='; e1[2] = c; e1[3] = d; }
  strcpy(e2, "b="); e2[2] = d;
  lpeEnv = pBat_InitEnv(e);
  { char n[3] = { a, b == 'x' ? 'X' : 0, 0 }, v[3] = { c, d, 0 }; x = sh_getenv(n); CHECK(x && vf_streq(x, v), "a variable of the caller has its value"); }
  COVER("ran");
}
/* more variables than fit in one block */
void h_env_many(void) {
  int i, k; char n[8]; const char *x; sh_boot(); 
  while (lpeEnv->index < 126) { sprintf(n, "v%03d", lpeEnv->index); sh_setenv(n, n); }
  for (i = 0; i < 4; i++) { sprintf(n, "%cnew", "awV_"[i]); sh_setenv(n, n); }
  k = vf_pick(0, 3); sprintf(n, "%cnew", "awV_"[k]); sh_setenv(n, ""); CHECK(!sh_getenv(n), "gone"); sh_setenv("zz", "1"); sh_setenv("z1", "2");
  for (i = 0; i < 4; i++) if (i != k) { sprintf(n, "%cnew", "awV_"[i]); x = sh_getenv(n); CHECK(x && vf_streq(x, n), "every variable is kept"); }
  for (i = lpeEnv->index - 8; i > 20; i -= 13) { sprintf(n, "v%03d", i); x = sh_getenv(n); if (i < 126) CHECK(x && vf_streq(x, n), "every variable is kept"); }
  x = sh_getenv("zz"); CHECK(x && *x == '1', ""); x = sh_getenv("HOME"); CHECK(x, "every variable is kept"); COVER("ran");
}
/* SET without = on an unknown name: an error, nothing changes */
void h_env_unknown(void) { char n[3], l[16]; int r; start(0); name(n); ASSUME(!starts("a", n) && !starts("_x", n) && !starts("PATH", n) && !starts("HOME", n)&& !starts("Q", n)); strcpy(l, "set "); strcat(l, n); r = sh_line(l); CHECK(r != 0 && iErrorLevel == r, "an error"); sh_out(); CHECK(!sh_outb[0], "nothing listed"); sh_err(); CHECK(sh_errb[0], "reported"); CHECK(!sh_getenv(n), "not set"); COVER("ran"); }

/* ---------------------------------------------------------- SETLOCAL / ENDLOCAL */
static struct { char v[3][4]; int del, cor; } st[8]; static int sp, base_;
static struct { char v[3][4]; int del, cor; } cur;
static const char *VN[] = { "a", "Bb", "_c" };
static void lchk(void) { int i; for (i = 0; i < 3; i++) { const char *x = sh_getenv(VN[i]); CHECK(!x == !cur.v[i][0] && (!x || vf_streq(x, cur.v[i])), "values are what the last SET gave, or what ENDLOCAL brought back"); }
  CHECK(!bDelayedExpansion == !cur.del, "delayed expansion is as set, or as before"); CHECK(!bCmdlyCorrect == !cur.cor, "options are as set, or as before"); CHECK(iErrorLevel == 5, "the error level stays"); }
static char src[2048];
/* one step; script text is built, effects are modelled while it runs through a hook command */
static void step(int allow) {
  int k = vf_pick(0, 6), i; char l[64], v[2] = { 0, 0 };
  switch (k) {
    case 0: case 1: i = vf_pick(0, 2); v[0] = k ? 0 : vf_plain(); strcpy(l, "set "); strcat(l, VN[i]); strcat(l, "="); strcat(l, v); iErrorLevel = 5; pBat_CmdSet(l); strcpy(cur.v[i], v); break;
    case 2: strcpy(l, "setlocal"); iErrorLevel = 5; sh_line(l); memcpy(&st[sp++], &cur, sizeof cur); break;
    case 3: strcpy(l, "endlocal"); iErrorLevel = 5; sh_line(l); if (sp > base_) { memcpy(&cur, &st[--sp], sizeof cur); } break;
    case 4: strcpy(l, "setlocal DisableDelayedExpansion"); iErrorLevel = 5; sh_line(l); memcpy(&st[sp++], &cur, sizeof cur); cur.del = 0; break;
    case 5: strcpy(l, "setlocal enabledelayedexpansion cmdlycorrect"); iErrorLevel = 5; sh_line(l); memcpy(&st[sp++], &cur, sizeof cur); cur.del = 1; cur.cor = 1; break;
    case 6: strcpy(l, "setlocal cmdlyincorrect"); iErrorLevel = 5; sh_line(l); memcpy(&st[sp++], &cur, sizeof cur); cur.cor = 0; break;
  }
  lchk();
}
void h_loc_ops(void) { int i; sh_boot(); sh_setenv("a", "1"); memset(&cur, 0, sizeof cur); cur.v[0][0] = '1'; cur.del = bDelayedExpansion; cur.cor = bCmdlyCorrect; iErrorLevel = 5;
  for (i = 0; i < NOP; i++) step(0); while (sp) { sh_line("endlocal"); memcpy(&cur, &st[--sp], sizeof cur); lchk(); } sh_line("endlocal"); lchk(); sh_err(); CHECK(!sh_errb[0], "no error"); COVER("ran"); }
/* a CALL: ENDLOCAL inside reverts nothing of the caller; what is set inside and not reverted persists */
void h_loc_call(void) {
  char A[2] = { vf_plain(), 0 }, B[2] = { vf_plain(), 0 }, C[2] = { vf_plain(), 0 }, w[64]; int outer = vf_pick(0, 1), inner = vf_pick(0, 3), ends = vf_pick(0, 2), d2 = vf_pick(0, 1), i; const char *exp;
  sh_boot(); 
  strcpy(src, "set a=1\n"); if (outer) strcat(src, "setlocal\n"); strcat(src, "set a="); strcat(src, A); strcat(src, "\ncall :s\necho [%a%]\n"); if (outer) strcat(src, "endlocal\necho [%a%]\n"); strcat(src, "goto :eof\n:s\n");
  if (d2) strcat(src, "call :s2\n"); 
  for (i = 0; i < inner; i++) { strcat(src, "setlocal\nset a="); strcat(src, i ? C : B); strcat(src, "\n"); }
  if (!inner) { strcat(src, "set a="); strcat(src, B); strcat(src, "\n"); }
  ASSUME(ends >= inner || inner == 0); /* balanced or too many */
  for (i = 0; i < inner + (ends ? 1 : 0); i++) strcat(src, "endlocal\n");
  strcat(src, "echo [%a%]\ngoto :eof\n:s2\nendlocal\necho [%a%]\n");
  exp = inner ? A : B;
  sh_script(src); w[0] = 0; if (d2) { strcat(w, "["); strcat(w, A); strcat(w, "]\n"); } strcat(w, "["); strcat(w, exp); strcat(w, "]\n["); strcat(w, exp); strcat(w, "]\n"); if (outer) strcat(w, "[1]\n");
  sh_out(); CHECK(vf_streq(sh_outb, w), "ENDLOCAL reverts only what was saved inside the same CALL"); sh_err(); CHECK(!sh_errb[0], "no error"); COVER("ran");
}
/* ENDLOCAL & SET v=%v% keeps a value, and expansion of the line came before */
void h_loc_keep(void) {
  char A[3] = { vf_plain(), vf_plain(), 0 }, B[3] = { vf_plain(), vf_plain(), 0 }; const char *x; sh_boot();
  strcpy(src, "set v="); strcat(src, A); strcat(src, "\nset u="); strcat(src, A); strcat(src, "\nsetlocal\nset v="); strcat(src, B); strcat(src, "\nset u="); strcat(src, B); strcat(src, "\nendlocal & set v=%v%\n"); sh_script(src);
  x = sh_getenv("v"); CHECK(x && vf_streq(x, B), "kept"); x = sh_getenv("u"); CHECK(x && vf_streq(x, A), "reverted"); COVER("ran");
}
/* a bad option: an error, nothing saved or changed */
void h_loc_bad(void) { int d = bDelayedExpansion; char b[3] = { vf_plain(), vf_plain(), 0 }, l[64]; int k = vf_pick(0, 1); sh_boot(); d = bDelayedExpansion; sh_setenv("v", "1"); strcpy(l, "setlocal "); if (k) strcat(l, d ? "disabledelayedexpansion " : "enabledelayedexpansion "); strcat(l, b); sh_line(l); CHECK(iErrorLevel != 0, "an error"); sh_setenv("v", "2"); sh_line("endlocal"); CHECK(*sh_getenv("v") == '2', "nothing was saved"); CHECK(!bDelayedExpansion == !d, "no option changed"); sh_err(); CHECK(sh_errb[0], "reported"); COVER("ran"); }
