/* Sequences of commands joined by & && ||, with nested ( ) blocks. */
#include "sh.h"
#ifndef N
#define N 4
#endif
#ifndef DEPTH
#define DEPTH 1
#define M 3
#endif
static char line[512]; static unsigned char want[64], werr[64];
static int el, nw, ne, pos, ids;
static void put(const char *s) { while (*s) line[pos++] = *s++; line[pos] = 0; }
/* one atom: prints a symbolic character and succeeds, or is an unknown command, which fails */
static void atom(int fail, int run) {
  unsigned char c = fail ? 'A' + ids : vf_plain(); ids++;
  put(fail ? "no" : "echo "); line[pos++] = c; line[pos] = 0;
  if (!run) return;
  if (fail) { werr[ne++] = c; el = 1; } else { want[nw++] = c; el = 0; }
}
/* an operator spelt with symbolic characters; returns 0 & 1 && 2 || */
static int op(void) {
  unsigned char a = vf_u8(), b = vf_u8();
  ASSUME((a == '&') | (a == '|')); ASSUME((b == a) | ((b == ' ') & (a == '&')));
  line[pos++] = a; line[pos++] = b; line[pos] = 0;
  if (a == '|') return 2;
  return b == '&';
}
static int sel(int o) { return o == 0 || (o == 1 && el == 0) || (o == 2 && el != 0); }
static void check(void) {
  unsigned char *o = (unsigned char *)sh_out(), *e; int i, k = 0;
  for (i = 0; i < sh_n; i++) {
    if (o[i] == ' ') continue; /* blanks around operators */
    if (o[i] == '\n') { CHECK(i && o[i - 1] != '\n', "one line each"); continue; }
    CHECK(k < nw, "only the commands selected by the operators print");
    CHECK(o[i] == want[k], "commands run in order, each once"); k++;
  }
  CHECK(k == nw, "every command selected by the operators prints");
  e = (unsigned char *)sh_err(); k = 0;
  for (i = 0; e[i]; i++) if (e[i] == '"' && e[i + 1] == 'n' && e[i + 2] == 'o') { CHECK(k < ne && e[i + 3] == werr[k], "only the selected failing commands run"); k++; }
  CHECK(k == ne, "every selected failing command runs");
  CHECK((iErrorLevel != 0) == (el != 0), "the error level is that of the last command run");
}
/* flat line of N commands */
void h_ops(void) {
  int i, o = 0, f;
  sh_boot();
  for (i = 0; i < N; i++) {
    if (i) o = op();
    f = vf_pick(0, 1);
    atom(f, i == 0 || sel(o));
  }
  sh_line(line);
  check();
  COVER("ran");
}
/* commands and blocks */
static void seq(int depth, int n, int run) {
  int i, r, o = 0, kind;
  for (i = 0; i < n; i++) {
    if (i) { put(" "); o = op(); }
    r = run && (i == 0 || sel(o));
    kind = vf_pick(0, depth ? 2 : 1);
    if (kind == 2) { put("("); seq(depth - 1, 2, r); put(")"); }
    else atom(kind, r);
  }
}
void h_blocks(void) {
  sh_boot();
  seq(DEPTH, M, 1);
  sh_line(line);
  check();
  COVER("ran");
}
/* the same inside a script, block spread over several lines */
void h_script(void) {
  int i, o;
  sh_boot();
  put("@echo off\n(\n");
  for (i = 0; i < 2; i++) { atom(vf_pick(0, 1), 1); put(vf_pick(0, 1) ? "\n" : "\n \t\n"); }
  put(")"); o = op();
  atom(vf_pick(0, 1), sel(o)); put("\n");
  atom(vf_pick(0, 1), 1); put("\n");
  sh_script(line);
  check();
  COVER("ran");
}
/* a long chain: N2 commands, one operator kind and position symbolic */
void h_chain(void) {
  int i, o = 0, at;
  sh_boot();
  at = vf_pick(1, 11);
  for (i = 0; i < 12; i++) {
    if (i) { if (i == at) o = op(); else { put(i & 1 ? "&" : "&&"); o = !(i & 1); } }
    atom(i == at - 1 ? vf_pick(0, 1) : 0, i == 0 || sel(o));
  }
  sh_line(line);
  check();
  COVER("ran");
}
/* any error level, of either sign, set by a called label: success is exactly 0 */
void h_level(void) {
  unsigned char d = vf_u8(), e = vf_u8(), X = vf_plain(), Y = vf_plain(); int neg = vf_pick(0, 1), o1, o2, l, src = vf_pick(0, 2);
  ASSUME((d >= '0') & (d <= '9') & (e >= '0') & (e <= '9'));
  l = (d - '0') * 10 + e - '0'; if (neg) l = -l;
  sh_boot();
  put("@echo off\n");
  if (src == 1) put("(");
  put(src == 2 ? "call f.bat " : "call :f "); 
  { static char t[64]; int q = 0; if (neg) t[q++] = '-'; t[q++] = d; t[q++] = e; t[q] = 0; put(t); 
    if (src == 2) { static char u[64]; char *k = "exit /b "; q = 0; while (*k) u[q++] = *k++; k = t; while (*k) u[q++] = *k++; u[q++] = '\n'; sh_writen("f.bat", u, q); } }
  if (src == 1) put(")");
  put(" "); o1 = op(); put("echo "); line[pos++] = X; line[pos] = 0; put(" "); 
  o2 = op(); put("echo "); line[pos++] = Y; line[pos] = 0; put("\ngoto :eof\n:f\nexit /b %1\n");
  el = l;
  if (sel(o1)) { want[nw++] = X; el = 0; }
  if (sel(o2)) { want[nw++] = Y; el = 0; }
  sh_script(line);
  check();
  CHECK(iErrorLevel == el, "the error level is kept");
  COVER("ran");
}
