/* Text: what echo prints for every spelling of a text. */
#include "sh.h"
#ifndef NT
#define NT 3
#endif
static char src[512], want[128]; static int n, nw, nodel;
static void s(const char *x) { while (*x) src[n++] = *x++; src[n] = 0; }
static void c1(char c) { src[n++] = c; src[n] = 0; }
static void w(char c) { want[nw++] = c; }
static unsigned char any(void) { unsigned char c = vf_u8(); ASSUME((c > 0x20) & (c != 0x7f) & (c != '&') & (c != '|') & (c != '<') & (c != '>') & (c != '(') & (c != ')') & (c != '^') & (c != '"') & (c != '%')); if (!nodel) ASSUME(c != '!'); return c; }
static unsigned char op(void) { return vf_of("&|<>()"); }
static void piece(int script) {
  unsigned char c;
  switch (vf_pick(0, 4)) {
  case 0: c = any(); c1(c); w(c); break;
  case 1: c = vf_u8(); ASSUME((c > 0x20) & (c != '%')); c1('^'); c1(c); w(c); break;
  case 2: c = op(); c1('"'); c1(c); c1('"'); w('"'); w(c); w('"'); break;
  case 3: c = vf_of(" \t,;="); c1(c); w(c); break;
  case 4: s("^%"); w('%'); break;
  }
}
static void verify(void) {
  char *o = sh_out(); int i;
  for (i = 0; i < nw; i++) CHECK(o[i] == want[i], "the text arrives as written");
  CHECK(o[nw] == '\n' && sh_n == nw + 1, "the whole text and nothing more"); sh_err(); CHECK(!sh_errb[0], "no error");
}
void h_text(void) {
  int i, script = vf_pick(0, 1), k = vf_pick(0, 1);
  sh_boot(); nodel = vf_pick(0, 1); sh_line(nodel ? "setlocal disabledelayedexpansion" : "setlocal enabledelayedexpansion"); s(k ? "echo." : "echo x"); if (!k) w('x');
  for (i = 0; i < NT; i++) piece(script);
  s("e"); w('e');
  if (script) { s("\n"); sh_script(src); } else { ESTR *e = pBat_EsInit(); pBat_EsCpy(e, src); pBat_ReplaceVars(e); pBat_RunLine(e); }
  verify(); COVER("ran");
}
/* the same text in a block, behind operators and in a condition */
void h_text_nested(void) {
  int i, k = vf_pick(0, 3);
  sh_boot(); s(k == 0 ? "(echo x" : k == 1 ? "rem&&echo x" : k == 2 ? "if 1==1 (echo x" : "for %%i in (1) do (echo x"); w('x');
  for (i = 0; i < 2; i++) piece(1);
  s("e"); w('e'); s(k == 1 ? "\n" : ")\n"); 
  sh_script(src); verify(); COVER("ran");
}
/* comments have no effect, whatever they say */
void h_text_comment(void) {
  int i, k = vf_pick(0, 3);
  sh_boot(); sh_write("f", "0"); s("echo a\n"); s(k == 0 ? ":: " : k == 1 ? "  ::" : k == 2 ? "rem " : ":lbl "); 
  for (i = 0; i < 3; i++) { unsigned char c = vf_u8(); ASSUME((c != 0) & (c != '\n') & (c != '\r')); if (k == 2) ASSUME((c != '&') & (c != '|') & (c != '<') & (c != '>') & (c != '(') & (c != ')') & (c != '/')); if (k == 2 && i == 2) ASSUME(c != '^'); if (i == 0) ASSUME(c != '+' && c != '-'); c1(c); }
  s("\necho b\n"); 
  sh_script(src); w('a'); w('\n'); w('b'); verify(); COVER("ran");
}
/* echo on/off is a switch only when it stands alone */
void h_text_onoff(void) {
  int i, k = vf_pick(0, 3);
  sh_boot(); s("echo"); s(k == 0 ? " o" : k == 1 ? ".o" : k == 2 ? " Of" : ":of");
  for (i = 0; i < 2; i++) { unsigned char c = vf_u8(); ASSUME(((c >= 'a') & (c <= 'z')) | (c == ' ') | (c == '.')); c1(c); }
  s("\n"); for (i = 5; src[i] != '\n'; i++) w(src[i]);
  sh_script(src); { char *o = sh_out(); int on = want[nw - 1] == ' ' ? nw - 1 : nw, lone = 0; while (on && want[on - 1] == ' ') on--; 
    if (k == 0 || k == 2) { lone = (on == 2 && (want[1] == 'n')) || (on == 3 && (want[1] == 'f') && want[2] == 'f'); }
    if (lone) { CHECK(!o[0], "a switch prints nothing"); CHECK(bEchoOn == (on == 2), "and sets the state"); }
    else { for (i = 0; i < nw; i++) CHECK(o[i] == want[i], "text is printed"); CHECK(o[nw] == '\n' && !o[nw + 1], "text is printed, no more"); CHECK(!bEchoOn, "and the state stays"); } }
  COVER("ran");
}

/* @ in front of a command changes nothing but whether it is shown, wherever it stands */
void h_text_at(void) {
  static const char *IN[] = { "echo a", "(echo a)", "(echo a\necho a2)", "if 1==1 (echo a)", "if 1==2 (echo n) else (echo a)", "for %%i in (a) do (echo %%i)", "for %%i in (a) do echo %%i", "if 1==1 echo a", "def f=(echo a)", "if 1==1 (echo a\necho a2)", "for /l %%i in (1,1,2) do (echo a\necho a2)" };
  static const char *OUT[] = { "a\n", "a\n", "a\na2\n", "a\n", "a\n", "a\n", "a\n", "a\n", "", "a\na2\n", "a\na2\na\na2\n" };
  static const char *PRE[] = { "", "(", "if 1==1 (", "for %%j in (1) do (", "if 1==2 (echo no) else (", "(echo p\n", "if 1==1 (\n", "(echo p&", "if 1==1 " };
  int i = vf_pick(0, 10), w_ = vf_pick(0, 8), n_ = vf_pick(0, 2), tail = vf_pick(0, 1); char X = vf_plain(), x[2] = { X, 0 }; const char *q; sh_boot();
  s(PRE[w_]); if (n_) s("@"); if (n_ == 2) s(" "); s(IN[i]); if (w_ && w_ != 8) { if (tail) s("\n"); else if (i < 6 || i == 9) s("&"); else s("\n"); s("@echo b)"); } s("\necho "); s(x); s("\n");
  if (w_ == 5 || w_ == 7) { w('p'); w('\n'); } for (q = OUT[i]; *q; q++) w(*q); if (w_ && w_ != 8) { w('b'); w('\n'); } w(X);
  sh_script(src); verify(); COVER("ran");
}
