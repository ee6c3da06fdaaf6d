/* Labels, GOTO, CALL of labels and files; reading scripts. */
#include "sh.h"
#ifndef NL
#define NL 2
#endif
#ifndef NS
#define NS 4
#endif
static char src[2048]; static int sl;
static void s(const char *x) { while (*x) src[sl++] = *x++; src[sl] = 0; }
static void c1(char c) { src[sl++] = c; src[sl] = 0; }
static char *o; static int p;
static void lit(const char *t, const char *m) { while (*t) { CHECK(o[p] == *t, m); p++; t++; } }
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int isd(int c) { return c == ' ' || c == '\t' || c == ',' || c == ';'; }
/* which line a label name leads to: the first label line that is that name, or has it followed by a separator */
void h_goto_find(void) {
  static char lab[NL][8], tgt[8]; int i, k, n = 0, hit = -1, tn, style = vf_pick(0, 3); char num[2] = { 0, 0 };
  sh_boot();
  tn = vf_pick(1, 2); tgt[0] = vf_of("aB."); if (tn > 1) tgt[1] = vf_of("ab._ "); if (tn > 1 && tgt[1] == ' ') { tgt[2] = 'c'; tn = 3; } tgt[tn] = 0;
  for (i = 0; i < NL; i++) { n = 0; lab[i][n++] = vf_of("abB."); if (vf_pick(0, 1)) { lab[i][n++] = vf_of("b _.,c"); if (vf_pick(0, 1)) lab[i][n++] = vf_of("cC"); } lab[i][n] = 0; }
  s("goto "); if (style & 1) c1(':'); s(tgt); if (style & 2) s(" "); s("\necho none\ngoto :eof\n");
  for (i = 0; i < NL; i++) { if (style & 1) s("echo lost\n"); if (style & 2) s("  "); c1(':'); s(lab[i]); if (style == 1) s(" \t"); if (style == 2) s(" x y"); s("\n"); if (style == 3) s("\n:: a\n"); num[0] = '1' + i; s("echo "); s(num); s("\ngoto :eof\n"); }
  s(":z\necho lost\n");
  for (i = 0; i < NL && hit < 0; i++) { for (k = 0; k < tn && lo(lab[i][k]) == lo(tgt[k]); k++); if (k == tn && (!lab[i][k] || isd(lab[i][k]))) hit = i; else if (k == 1 && tn == 3 && !lab[i][1] && 0) hit = i; }
  ASSUME(tn != 3 || style != 2);
  sh_script(src); o = sh_out(); p = 0;
  if (hit < 0) { lit("none\n", "without such a label it goes on with the next line"); sh_err(); CHECK(sh_errb[0], "a missing label is reported"); }
  else { num[0] = '1' + hit; lit(num, "goes on behind the first label of that name, in any case"); lit("\n", "label"); sh_err(); CHECK(!sh_errb[0], "no error"); }
  CHECK(!o[p], "and nowhere else"); COVER("ran");
}
/* a machine of sections that jump around, from every kind of place */
void h_goto_walk(void) {
  static int to[NS], how[NS]; int i, n = 0, at = 0, steps = 0; char t[4] = { 0 }, X[2] = { vf_plain(), 0 };
  sh_boot();
  for (i = 0; i < NS; i++) {
    to[i] = vf_pick(0, NS); how[i] = (i * 3 + to[i]) % 6; t[0] = 'a' + i;
    s(":"); s(t); s("\necho "); s(t); s(X); s("\nset n=%n%x\nif \"%n%\"==\"xxxxx\" goto :eof\n");
    if (to[i] < NS) { t[0] = 'a' + to[i]; s(how[i] == 0 ? "goto " : how[i] == 1 ? "echo.&goto :" : how[i] == 2 ? "if 1==1 (goto " : how[i] == 3 ? "for %%i in (1 2) do (if %%i==1 (goto " : how[i] == 4 ? "set k=" : "(\ngoto "); s(t); s(how[i] == 0 ? "\n" : how[i] == 1 ? "&echo lost\n" : how[i] == 2 ? "\necho lost\n) else echo lost\n" : how[i] == 3 ? ")\necho lost) & echo lost\n" : how[i] == 4 ? "\ngoto %k%\n" : "\necho lost\n)\n"); s("echo lost\n"); }
    s("\n");
  }
  sh_script(src); o = sh_out(); p = 0;
  while (at < NS) { t[0] = 'a' + at; lit(t, "every jump leads to its label and what stands between is not run"); lit(X, "text"); lit("\n", "text"); if (++steps == 5) break; if (to[at] < NS) { if (how[at] == 1) lit("\n", "what stands before the jump runs"); at = to[at]; } else at++; }
  CHECK(!o[p], "and nothing more"); sh_err(); CHECK(!sh_errb[0], "no error"); (void)n; COVER("ran");
}
/* calls return to where they were made, however the callee ends */
void h_call_ret(void) {
  static const char *END[] = { "goto :eof\n", "exit /b\n", "goto e\n", "(echo r\ngoto :eof\necho lost) & echo lost\n", "for %%i in (1 2) do (echo r&goto :eof)\n" };
  static const char *FORM[] = { "call :f A\necho 1\n", "call :f A&echo 1\n", "(call :f A\necho 1)\n", "for %%i in (A) do (call :f %%i&echo 1)\n", "if 1==1 (call :f A) else echo lost\necho 1\n", "call ./u.bat A\necho 1\n", "call /e ./u.bat :f A\necho 1\n" };
  int e1 = vf_pick(0, 4), e2 = vf_pick(0, 4), f = vf_pick(0, 6); char X[2] = { vf_plain(), 0 };
  sh_boot();
#define SUB(x) do { s(":f\necho f%1"); s(X); s("\nset v=%1\ncall :g B%1\necho 2%1\n"); s(END[e1]); s("echo lost\ngoto :eof\n:g\necho g%1\n"); s(END[e2]); s("echo lost\n:e\n"); } while (0)
  SUB(); sh_write("u.bat", f == 6 ? src : src); sl = 0; src[0] = 0;
  s(FORM[f]); s("echo %v%%1\ngoto :eof\n"); SUB();
  sh_script(src); o = sh_out(); p = 0;
  lit("fA", "the label runs"); lit(X, "text"); lit("\ngBA\n", "the inner label runs"); if (e2 >= 3) lit("r\n", "inner"); lit("2A\n", "back after the inner call, with the arguments"); if (e1 >= 3) lit("r\n", "outer"); lit("1\n", "back after the outer call"); lit("A\n", "variables stay, arguments do not"); CHECK(!o[p], "and nothing more"); sh_err(); CHECK(!sh_errb[0], "no error");
  COVER("ran");
}
/* recursion: every level has its own position and arguments */
void h_call_deep(void) {
  int n = vf_pick(1, 5), how = vf_pick(0, 1), i; char t[8] = { 0 }; sh_boot();
  for (i = 0; i < n; i++) t[i] = 'x';
#define REC(c) "if \"%1\"==\"%m%\" goto :eof\n" c "\necho -%1\n"
  s("set m="); s(t); s("\ncall :r x\necho end%1\ngoto :eof\n:r\necho +%1\n"); s(how ? REC("call ./u.bat %1x") : REC("call :r %1x"));
  sh_write("u.bat", "echo +%1\n" REC("call :r %1x") "goto :eof\n:r\necho +%1\n" REC("call :r %1x"));
  sh_script(src); o = sh_out(); p = 0;
  for (i = 1; i <= n; i++) { lit("+", "every level starts"); lit(t + n - i, "with its argument"); lit("\n", "level"); }
  for (i = n - 1; i >= 1; i--) { lit("-", "every level goes on after its call"); lit(t + n - i, "with its argument"); lit("\n", "level"); }
  lit("end\n", "and the script"); CHECK(!o[p], "nothing more"); COVER("ran");
}
/* other files, and what is missing */
void h_goto_file(void) {
  int k = vf_pick(0, 8); char X[2] = { vf_plain(), 0 }, *e; sh_boot();
  s("echo u\n:lab\necho "); s(X); s("%1\n"); sh_write("u.bat", src); sl = 0; src[0] = 0;
  switch (k) {
    case 0: s("goto /f:u.bat lab\necho lost\n"); break; case 1: s("goto /q /f:u.bat :LAB\necho lost\n"); break;
    case 2: s("goto /f:u.bat nope\n"); break; case 3: s("goto /q /f:u.bat nope\n"); break; case 4: s("goto /q nope\n"); break; case 5: s("call :nope a\n"); break;
    case 6: s("call /e u.bat :nope a\n"); break; case 7: s("call ./u.bat :lab\n"); break; case 8: s("call /e ./u.bat :lab a\n"); break; }
  s("echo n\ngoto l\necho lost\n:l\necho l%1\ncall :c\ngoto :eof\n:c\necho c\n");
  sh_script(src); o = sh_out(); p = 0;
  if (k == 0 || k == 1) { lit(X, "goes on in the other file"); lit("\n", "file"); }
  else { if (k >= 7) { if (k == 7) lit("u\n", "the file from its start"); lit(X, "the file"); lit(k == 7 ? ":lab\n" : "a\n", "its arguments"); } lit("n\nl\nc\n", "goes on with the next line, in the same file"); }
  CHECK(!o[p], "and nowhere else"); e = sh_err(); CHECK((k == 2 || k == 5 || k == 6) == (e[0] != 0), "a missing label is reported, unless /q"); COVER("ran");
}
/* what a script file consists of, and which of it runs */
void h_read(void) {
  static const char *LN[] = { "echo a", "", "  ", ":: c", ":lab", "  echo b", "(echo c", "#!x", "\techo d&echo e", "rem x" };
  int i, k, n = NS, crlf = vf_pick(0, 1), open = 0, last = vf_pick(0, 1), tgt[8]; char X[2] = { vf_plain(), 0 };
  sh_boot(); if (vf_pick(0, 1)) s("#! /usr/bin/pbat\n");
  for (i = 0; i < n; i++) { k = tgt[i] = vf_pick(0, i == 1 && n > 2 ? 6 : 9); if (k == 7 && (i == 0 || 1)) k = tgt[i] = 0; if (k == 6 && i == n - 1) k = tgt[i] = 0; s(LN[k]); open += k == 6; if (i == n - 1) while (open--) s(")"); if (i < n - 1 || last) s(crlf ? "\r\n" : "\n"); }
  for (i = 0; i < n - 1; i++) if (tgt[i] == 9) vf_end(); /* a remark would take a bracket */
  if (tgt[n - 1] == 9 || tgt[n - 1] == 4 || tgt[n - 1] == 3 || tgt[n - 1] == 1 || tgt[n - 1] == 2) { for (i = 0; i < n; i++) if (tgt[i] == 6) vf_end(); }
  sh_script(src); o = sh_out(); p = 0;
  for (i = 0; i < n; i++) { k = tgt[i]; if (k == 0) lit("a\n", "every command runs once, in order"); if (k == 5) lit("b\n", "every command runs once, in order"); if (k == 6) lit("c\n", "every command runs once, in order"); if (k == 8) lit("d\ne\n", "every command runs once, in order"); }
  CHECK(!o[p], "comments, labels and empty lines do nothing"); sh_err(); CHECK(!sh_errb[0], "no error"); (void)X; COVER("ran");
}
/* lines longer than any buffer, with a byte that matters at every place */
void h_read_long(void) {
  int n = vf_pick(0, 6) * 21 + 110, i; char X[2] = { vf_plain(), 0 }; sh_boot();
  s("echo "); for (i = 0; i < n; i++) s("ab"); s(X); s(vf_pick(0, 1) ? "\r\n" : "\n"); s("echo end\n");
  sh_script(src); o = sh_out(); p = 0; for (i = 0; i < n; i++) lit("ab", "the line whole"); lit(X, "to its end"); lit("\nend\n", "and the next"); CHECK(!o[p], "no more"); COVER("ran");
}
/* a script that changes itself: what is behind the current line is what the file says */
void h_reload(void) {
  static const char *ADD[] = { "echo z%1", "", ":: c", ":lab", "goto :eof", "rem" };
  int a = vf_pick(0, 5), b = vf_pick(0, 5), at = vf_pick(0, 2), tail = vf_pick(0, 2), i, q = 0; char X[2] = { vf_plain(), 0 };
  sh_boot(); s("echo "); s(X); s("\n");
  if (at == 1) s("call :g\n"); if (at == 2) s("if 1==1 (\n");
  if (at != 1) { s("echo."); s(ADD[a]); s(">>t.bat\n>>t.bat echo."); s(ADD[b]); s("\n"); }
  if (at == 2) s(")\n");
  s("echo y\n"); if (tail == 1) s("goto e\n"); if (tail == 2 || at == 1) s("goto :eof\n");
  if (at == 1) { s(":g\necho."); s(ADD[a]); s(">>t.bat\n>>t.bat echo."); s(ADD[b]); s("\n"); if (tail) s("goto lab\n"); s(":e\n"); }
  s("echo f\n:e\n");
  sh_script(src); o = sh_out(); p = 0; lit(X, "start"); lit("\n", "start");
  if (at == 1) { if (tail == 0) { lit("f\n", "goes on"); } i = tail ? (a == 3 ? 1 : b == 3 ? 2 : 3) : 0; if (i == 3) lit("f\n", "no such label"), i = 0; for (; i < 2 && !q; i++) { int k = i ? b : a; if (k == 0) lit("z\n", "what was added runs"); if (k == 4) q = 1; } lit("y\n", "goes on with the next line"); if (tail == 1) { lit("f\n", "goes on"); for (i = q = 0; i < 2 && !q; i++) { int k = i ? b : a; if (k == 0) lit("z\n", "what was added runs"); if (k == 4) q = 1; } } CHECK(!o[p], "nothing twice"); }
  else { lit("y\n", "goes on with the next line"); if (tail == 0) lit("f\n", "goes on"); if (tail != 2) for (i = 0; i < 2 && !q; i++) { int k = i ? b : a; if (k == 0) lit("z\n", "what was added runs"); if (k == 4) q = 1; } CHECK(!o[p], "and nothing runs twice"); }
  COVER("ran");
}
/* replaced while it runs, by a file that is the same up to the current line */
void h_replace(void) {
  int pre = vf_pick(0, 2), old = vf_pick(0, 3), new = vf_pick(0, 3), call = vf_pick(0, 2), i; char X[2] = { vf_plain(), 0 }, t[2] = { 0, 0 };
  sh_boot();
#define HEAD() do { if (call == 2) s(":: c\n\n"); for (i = 0; i < pre; i++) s("echo p\n"); s(call == 1 ? "call :s\n" : "type v.bat>t.bat\n"); } while (0)
#define SUBR() do { if (call == 1) s("goto :eof\n:s\ntype v.bat>t.bat\necho s\ngoto :eof\n"); } while (0)
  HEAD(); for (i = 0; i < new; i++) { s("echo "); t[0] = '1' + i; s(t); s(X); s("\n"); } if (new < old) s(":: remark that makes it longer\n"); SUBR(); sh_write("v.bat", src); sl = 0; src[0] = 0;
  HEAD(); for (i = 0; i < old; i++) s("echo 0\n"); SUBR(); if (new > old) s("\n\n\n");
  if (call == 1 && new != old) vf_end();
  if (vf_streq(src, "") ) vf_end();
  sh_script(src); o = sh_out(); p = 0; for (i = 0; i < pre; i++) lit("p\n", "start"); if (call == 1) lit("s\n", "the label");
  for (i = 0; i < new; i++) { t[0] = '1' + i; lit(t, "goes on with what the file says now"); lit(X, "goes on with what the file says now"); lit("\n", "line"); } CHECK(!o[p], "and no more"); COVER("ran");
}
