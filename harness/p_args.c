/* Arguments: how a line is cut into %1-%9, %+ and %*, however the script is started. */
#include "sh.h"
#include "../init/pBat_Init.h"
#ifndef NA
#define NA 2
#endif
static char args[128], val[4][16]; static int nv, ap;
static void aput(char c) { args[ap++] = c; args[ap] = 0; }
static unsigned char delim(void) { return vf_of(" \t,;"); }
/* a few arguments in every spelling; the values they stand for go to val[] */
static void mk(int max, int simple) {
  int n = vf_pick(0, max), i;
  aput(delim());
  for (i = 0; i < n; i++) {
    char *v = val[nv++]; int form = vf_pick(0, simple ? 2 : 4); unsigned char a = vf_plain(), d = 0;
    if (i && vf_pick(0, 1)) aput(delim());
    switch (form) {
    case 0: aput(a); v[0] = a; v[1] = 0; break;
    case 1: d = delim(); aput('"'); aput(a); aput(d); aput('b'); aput('"'); v[0] = a; v[1] = d; v[2] = 'b'; v[3] = 0; break;
    case 2: d = delim(); aput(a); aput('"'); aput(d); aput('"'); aput('c'); v[0] = a; v[1] = '"'; v[2] = d; v[3] = '"'; v[4] = 'c'; v[5] = 0; break;
    case 3: d = delim(); aput(a); aput('^'); aput(d); aput('d'); v[0] = a; v[1] = d; v[2] = 'd'; v[3] = 0; break;
    case 4: aput(a); aput('='); aput('e'); v[0] = a; v[1] = '='; v[2] = 'e'; v[3] = 0; break;
    }
    aput(delim());
  }
}
static char *o; static int p;
static void lit(const char *s, const char *m) { while (*s) { CHECK(o[p] == *s, m); p++; s++; } }
#define SUB "echo [%1][%2][%3][%9][%+]\necho {%*}\n"
static char src[512];
static void s(const char *x) { strcat(src, x); }
static void verify(int star) {
  int i, e;
  o = sh_out(); p = 0;
  for (i = 0; i < 3; i++) { lit("[", "arguments"); lit(i < nv ? val[i] : "", "each argument has the value written"); lit("]", "each argument has exactly the value written"); }
  lit("[][]\n", "there are no further arguments");
  if (star) {
    lit("{", "%*"); while (o[p] == ' ' || o[p] == '\t' || o[p] == ',' || o[p] == ';') p++;
    for (i = 0; args[i] == ' ' || args[i] == '\t' || args[i] == ',' || args[i] == ';'; i++);
    for (; args[i]; i++) { if (args[i] == '^') continue; CHECK(o[p] == args[i], "%* is the argument line"); p++; }
    while (o[p] == ' ' || o[p] == '\t' || o[p] == ',' || o[p] == ';') p++;
    lit("}\n", "%* is no more than the argument line");
  }
  sh_err(); CHECK(sh_errb[0] == 0, "no error");
}
/* CALL :label */
void h_args_label(void) {
  sh_boot(); mk(NA, 0);
  s("call :s"); s(args); s("\ngoto :eof\n:s\n" SUB);
  sh_script(src); verify(1);
  COVER("ran");
}
/* CALL file, and the file as a command */
void h_args_file(void) {
  int how = vf_pick(0, 1);
  sh_boot(); mk(NA, 0);
  sh_write("s.bat", SUB);
  s(how ? "call ./s.bat" : "./s.bat"); s(args); s("\n");
  sh_script(src); verify(how);
  COVER("ran");
}
/* more than nine: %+ holds the rest, so that they can be taken from there */
void h_args_many(void) {
  unsigned char a = vf_plain(), q = vf_pick(0, 2), d = q == 2 ? 0 : vf_of(" \t,;"); int how = vf_pick(0, 2), n = 9 + vf_pick(0, 2), i; char t[8];
  sh_boot(); sh_write("s.bat", "echo [%1][%9]\ncall :t %+\ngoto :eof\n:t\necho {%1}{%2}{%3}\n");
  s(how == 0 ? "./s.bat" : how == 1 ? "call ./s.bat" : "call :r");
  for (i = 1; i <= n; i++) { t[0] = ' '; t[1] = i == 10 && q ? '"' : 'a'; t[2] = i == 10 && q ? a : 'A' + i; t[3] = i == 10 && q ? d : ' '; t[4] = i == 10 && q ? 'z' : 0; t[5] = '"'; t[6] = 0; if (i == 10 && q == 2) { t[2] = '"'; t[3] = 0; } s(t); }
  s("\ngoto :eof\n:r\necho [%1][%9]\ncall :t %+\ngoto :eof\n:t\necho {%1}{%2}{%3}\n");
  sh_script(src);
  o = sh_out(); p = 0; lit("[aB][aJ]\n{", "the first nine");
  if (n >= 10) { if (q == 2) ; else if (q) { t[0] = a; t[1] = d; t[2] = 'z'; t[3] = 0; lit(t, "the tenth comes whole"); } else lit("aK", "the tenth"); }
  lit("}{", "the tenth"); if (n == 11) lit("aL", "the eleventh"); lit("}{}\n", "nothing more");
  COVER("ran");
}
/* started from outside with an argument vector: each %n is one argument, and %* cuts into the same ones again */
void h_args_argv(void) {
  static char av[3][4]; char *argv[8]; int n = vf_pick(1, 3), i, j, k; char *file = "", exit = 0, quiet = 0; int bexit = 1, bq = 0; char *e;
  sh_boot();
  argv[0] = "pbat"; argv[1] = "t.bat";
  for (i = 0; i < n; i++) { int l = vf_pick(0, i ? 1 : 3); for (j = 0; j < l; j++) { unsigned char c = vf_u8(); ASSUME(((c >= 'p') & (c <= 'z')) | (c == ' ') | (c == '\t') | (c == ',') | (c == ';') | (c == '"') | (c == '^') | (c == '!') | (c == '&') | (c == '(')); av[i][j] = c; } av[i][l] = 0; argv[2 + i] = av[i]; }
  argv[2 + n] = 0;
  e = pBat_GetParameters(argv, &file, &bexit, &bq);
  CHECK(!e && vf_streq(file, "t.bat"), "the script is the first argument");
  for (i = 0; i < 3; i++) { const char *v = pBat_GetLocalVarPointer(lpvArguments, '1' + i); CHECK(v && vf_streq(v, i < n ? av[i] : ""), "each argument arrives as given"); }
  { char *l = pBat_GetLocalVarPointer(lpvArguments, '*'); ESTR *es = pBat_EsInit();
    for (i = 0; i < n; i++) { l = l ? pBat_GetNextParameterEs(l, es) : 0; CHECK(l && vf_streq(pBat_EsToChar(es), av[i]), "%* cuts into the same arguments"); }
    CHECK(!pBat_GetNextParameterEs(l, es), "and no more"); }
  COVER("ran");
}
/* the caller's arguments are back after the call, at every depth */
void h_args_nest(void) {
  char a[2] = { vf_plain(), 0 }, b[2] = { vf_plain(), 0 }, c[2] = { vf_plain(), 0 }; int how = vf_pick(0, 1), how2 = vf_pick(0, 1), i;
  sh_boot(); sh_write("u.bat", "echo u%1%2\nset x=%1\nshift\necho v%1\n");
  s("call :s "); s(a); s(" "); s(b); s("\necho m%1%2%x%\ngoto :eof\n:s\n"); s(how ? "call :u " : "call ./u.bat "); s(c); s(" %1\necho s%1%2%x%\n"); s(how2 ? "goto :eof\n" : "exit /b\n");
  s(":u\necho u%1%2\nset x=%1\nshift\necho v%1\n");
  sh_script(src); o = sh_out(); p = 0;
  lit("u", "inner"); lit(c, "inner"); lit(a, "inner"); lit("\nv", "inner"); lit(a, "inner shifted"); lit("\ns", "back"); lit(a, "the arguments are back"); lit(b, "the arguments are back"); lit(c, "what was set stays"); lit("\nm", "main"); lit(c, "main"); lit("\n", "main"); CHECK(!o[p], "and no more");
  COVER("ran");
}
