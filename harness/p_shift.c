/* SHIFT against a plain queue of arguments. */
#include "sh.h"
#ifndef NOP
#define NOP 2
#endif
#define MAXA 13
static char src[640], val[MAXA][4], cur[10][4]; static int nq, hq; /* val[hq..nq) : what %+ still holds */
static void s(const char *x) { strcat(src, x); }
static void c1(char c) { char t[2] = { c, 0 }; s(t); }
/* the call line: n arguments, some quoted with a separator inside, one maybe empty */
static void mk(const char *how, int n) {
  int i, odd = vf_pick(0, 3), at = odd ? vf_pick(n > 10 ? 9 : 0, n > 10 ? n - 1 : 1) : -1;
  s(how); nq = 1; /* val[0] is %0 */
  for (i = 0; i < n; i++) {
    char *v = val[nq++]; s(" ");
    if (i == at && odd == 1) { v[0] = vf_plain(); v[1] = vf_of(" ,;\t"); v[2] = 'q'; v[3] = 0; c1('"'); s(v); c1('"'); }
    else if (i == at && odd == 2) { s("\"\""); v[0] = 0; }
    else if (i == at) { v[0] = vf_plain(); v[1] = 0; s(v); }
    else { v[0] = 'A' + i; v[1] = 0; s(v); }
  }
  s("\ngoto :eof\n:f\n");
  strcpy(val[0], ":f");
  for (i = 0; i < 10; i++) strcpy(cur[i], i < nq ? val[i] : "");
  hq = nq < 10 ? nq : 10;
}
static void shift(int st, int d) {
  int i; for (i = st; i < 10; i++) { if (i + d < 10) { if (d) strcpy(cur[i], cur[i + d]); } else if (hq < nq) strcpy(cur[i], val[hq++]); else cur[i][0] = 0; }
}
static void num(int v) { c1('0' + v); }
static char *o; static int p;
static void lit(const char *t, const char *m) { while (*t) { CHECK(o[p] == *t, m); p++; t++; } }
static void show(void) { s("echo [%0][%1][%2][%3][%4][%5][%6][%7][%8][%9]\n"); }
static void want(void) { int i; for (i = 0; i < 10; i++) { lit("[", "ten arguments"); lit(cur[i], "every argument moved down by the step, from the start on"); lit("]", "every argument moved down by the step, from the start on"); } lit("\n", "ten arguments"); }
/* every start, every step, every spelling */
static void oneop(int wide) {
  int st = 0, d = 1, k = wide ? vf_pick(0, 3) : 1 + vf_pick(0, 2), first = 0; s("shift");
  if (k & 1) { st = wide ? vf_pick(0, 9) : vf_pick(0, 2) * 4; first = wide ? vf_pick(0, 2) : 2; }
  if (k & 2) { d = wide ? vf_pick(0, 9) : vf_pick(0, 1) * 2 + (k == 2); }
  if (st + d > 10) vf_end();
  if ((k & 2) && first == 2) { s(" /d:"); num(d); }
  if (k & 1) { s(first == 0 ? " /" : first == 1 ? " /s" : " /s:"); num(st); }
  if ((k & 2) && first != 2) { s(first ? " /d" : " /d:"); num(d); }
  s("\n"); shift(st, d);
}
void h_shift_one(void) {
  sh_boot(); mk("call :f", vf_pick(0, 1) ? 12 : vf_pick(0, 1) ? 9 : 2); 
  { int k; oneop(1); show(); for (k = 0; k < 1; k++); }
  s("set r=%+\n"); sh_script(src); o = sh_out(); p = 0; want(); CHECK(!o[p], "nothing else printed"); sh_err(); CHECK(!sh_errb[0], "no error");
  COVER("ran");
}
void h_shift_seq(void) {
  char t[NOP + 1]; int i; (void)t;
  sh_boot(); mk("call :f", vf_pick(11, 12));
  for (i = 0; i < NOP; i++) oneop(0);
  show(); s("goto :eof\n"); sh_script(src); o = sh_out(); p = 0; want(); CHECK(!o[p], "nothing else printed");
  COVER("ran");
}
/* %* stays; the caller's arguments stay; the loop every script uses */
void h_shift_loop(void) {
  int how = vf_pick(0, 1), n = vf_pick(0, 1) ? 11 : vf_pick(0, 3), i; sh_boot();
  nq = 0; s("call :m X Y\ngoto :eof\n:m\ncall "); s(how ? "./u.bat" : ":f"); 
  for (i = 0; i < n; i++) { char *v = val[nq++]; v[0] = i == n - 1 ? vf_plain() : 'A' + i; v[1] = 0; s(" "); s(v); }
  s("\necho {%1%2}\ngoto :eof\n:f\n");
#define BODY "set all=%*\n:l\nif \"%1\"==\"\" goto e\necho (%1)\nshift\ngoto l\n:e\nif not \"%*\"==\"%all%\" echo changed\n"
  s(BODY); sh_write("u.bat", BODY); sh_script(src); o = sh_out(); p = 0;
  for (i = 0; i < n; i++) { lit("(", "each argument"); lit(val[i], "each argument comes up once, in order"); lit(")\n", "each argument"); }
  lit("{XY}\n", "the arguments of the caller stay"); CHECK(!o[p], "nothing else");
  COVER("ran");
}
/* what is not understood changes nothing */
void h_shift_bad(void) {
  static const char *B[] = { "/s", "/s:", "/d", "/s:x", "/d:", "/d:12", "/s12", "x", "/", "3", "/3 /d:y", "/s:2 7" }; int k = vf_pick(0, 12), i; char t[4];
  sh_boot(); mk("call :f", 11); s("shift ");
  if (k == 12) { t[0] = '/'; t[1] = vf_u8(); t[2] = 0; ASSUME(((t[1] >= 'e') & (t[1] <= 'z')) & (t[1] != 's') | ((t[1] > '9') & (t[1] <= 'C') & (t[1] != '?') & (t[1] != ';') & (t[1] != '<') & (t[1] != '>'))); s(t); } else s(B[k]);
  s(" || echo bad\n"); show(); sh_script(src); o = sh_out(); p = 0; lit("bad\n", "an error is reported"); want(); CHECK(!o[p], "nothing else"); sh_err(); CHECK(sh_errb[0], "an error is reported");
  (void)i; COVER("ran");
}
