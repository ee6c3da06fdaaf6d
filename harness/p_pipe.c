/* Pipes: data flow left to right, nothing else leaks from the left side. */
#include "sh.h"
#ifndef N
#define N 3
#endif
#define pos posp
static char line[512]; static int pos;
static void put(const char *s) { while (*s) line[pos++] = *s++; line[pos] = 0; }
static void putc_(unsigned char c) { line[pos++] = c; line[pos] = 0; }
/* exactly the given lines on the console, blanks at line ends ignored */
static void out_is(const unsigned char *w, int n) {
  int i, k = 0; sh_out();
  for (i = 0; i < sh_n; i++) { if (sh_outb[i] == ' ') continue; if (sh_outb[i] == '\n') continue; CHECK(k < n && (unsigned char)sh_outb[i] == w[k], "the output is what reaches the end of the pipe"); k++; }
  CHECK(k == n, "everything reaches the end of the pipe");
}
/* k filters in a row: what is printed on the left and passes every filter comes out, in order */
void h_pipe_filter(void) {
  unsigned char c[3], f[2], w[24]; int i, j, n = 0, inv[2], st = vf_pick(1, 2), tail = vf_pick(0, 4), fds, ok;
  sh_boot();
  put("(");
  for (i = 0; i < 3; i++) { c[i] = vf_plain(); if (i) put("&"); put("echo "); putc_(c[i]); }
  put(")");
  for (j = 0; j < st; j++) { inv[j] = vf_pick(0, 1); f[j] = vf_plain(); put("|"); put(inv[j] ? "find /v \"" : " find \""); putc_(f[j]); put("\""); }
  put(tail == 1 ? "&echo 1" : tail == 2 ? "&&echo 1" : tail == 3 ? "||echo 1" : tail == 4 ? "|find /v /n \"0\"" : "");
  for (i = 0; i < 3; i++) { for (ok = 1, j = 0; j < st; j++) ok = ok && ((c[i] == f[j]) != inv[j]); if (ok) { if (tail == 4) { w[n] = '['; w[n + 1] = '1' + n / 4; w[n + 2] = ']'; w[n + 3] = c[i]; n += 4; } else w[n++] = c[i]; } }
  ok = n > 0;
  if (tail == 4) { unsigned char x[24]; for (i = 0; i < n; i++) x[i] = w[i]; fds = vf_fd_live(); sh_line(line); CHECK(vf_fds(fds), "a pipe leaves no descriptor open"); out_is(x, n); COVER("ran"); return; }
  if (tail == 1 || (tail == 2 && ok) || (tail == 3 && !ok)) w[n++] = '1';
  fds = vf_fd_live();
  sh_line(line);
  CHECK(vf_fds(fds), "a pipe leaves no descriptor open");
  CHECK(tail || (iErrorLevel == 0) == ok, "the status of a pipe is that of its last command");
  out_is(w, n);
  COVER("ran");
}
/* variables, directory and redirections set on the left stay there; on the right they are ours */
void h_pipe_iso(void) {
  unsigned char X, Y; const char *v; int k, fds;
  sh_boot(); X = vf_plain(); Y = vf_plain(); k = vf_pick(0, 5);
  sh_setenv("l", "old"); mkdir("zz", 0755);
  if (k == 0) { put("(set l="); putc_(X); put("&echo "); putc_(Y); put(")|set /p r="); }
  else if (k == 1) { put("(cd zz&set n="); putc_(X); put("&echo "); putc_(Y); put(")|set /p r="); }
  else if (k == 2) { put("(echo "); putc_(X); put(">f&echo "); putc_(Y); put(")|set /p r="); }
  else if (k == 3) { put("(set l=&echo "); putc_(Y); put(")|(set /p r=&set m="); putc_(X); put(")"); }
  else if (k == 4) { put("(exit&echo "); putc_(X); put(")|(set /p q=&set r="); putc_(Y); put(")"); }
  else { put("echo "); putc_(X); put("|(set /p q=&echo "); putc_(Y); put("|set /p r=)"); }
  fds = vf_fd_live();
  sh_line(line);
  CHECK(vf_fds(fds), "a pipe leaves no descriptor open");
  v = sh_getenv("l"); CHECK(v && vf_streq(v, "old"), "assignments on the left of a pipe stay there");
  CHECK(!sh_getenv("n"), "new variables on the left of a pipe stay there");
  v = sh_getenv("r"); CHECK(v && (unsigned char)v[0] == Y && v[1] == 0, "the right side reads the left side's output and keeps its assignments");
  if (k == 3) { v = sh_getenv("m"); CHECK(v && (unsigned char)v[0] == X, "later commands of the right side too"); }
  if (k == 5) { v = sh_getenv("q"); CHECK(v && (unsigned char)v[0] == X, "nested pipe leaves the outer input"); }
  CHECK(lpCurrentDir[vf_len(lpCurrentDir) - 1] != 'z', "the directory changed on the left stays there");
  if (k == 2) { char b[8]; CHECK(sh_read("f", b, 8) >= 2 && (unsigned char)b[0] == X, "redirection inside the left side"); }
  sh_clear(); sh_line("echo Z"); sh_out(); CHECK(vf_streq(sh_outb, "Z\n"), "later output is normal");
  sh_write("_in", "con\n"); 
  COVER("ran");
}
/* a line of commands with & && || and |, the left side of each pipe printing one letter more or less */
void h_pipe_ops(void) {
  int i, el = 0, nw = 0, ok; unsigned char w[16], x, y;
  sh_boot();
  for (i = 0; i < N; i++) {
    int o = i ? vf_pick(0, 2) : 0, kind = vf_pick(0, 3), run = o == 0 || (o == 1 && !el) || (o == 2 && el);
    if (i) put(o == 0 ? "&" : o == 1 ? "&&" : "||");
    x = vf_plain();
    if (kind == 0) { put("echo "); putc_(x); if (run) { w[nw++] = x; el = 0; } }
    else if (kind == 1) { put("nox"); if (run) el = 1; }
    else { y = kind == 2 ? x : '0'; put("echo "); putc_(x); put("|find \""); putc_(y); put("\""); ok = kind == 2; if (run) { if (ok) w[nw++] = x; el = !ok; } }
  }
  sh_line(line);
  out_is(w, nw);
  CHECK((iErrorLevel != 0) == (el != 0), "the status is that of the last command run");
  COVER("ran");
}
/* stderr does not go through the pipe unless merged; redirections inside a pipe stage */
void h_pipe_err(void) {
  int m = vf_pick(0, 1), r = vf_pick(0, 1); unsigned char X = vf_plain();
  sh_boot();
  put("(nob&echo "); putc_(X); put(m ? ") 2>&1|find \"nob\"" : ")|find \"nob\""); if (r) put(">f");
  sh_line(line);
  sh_out(); sh_err();
  CHECK((sh_errb[0] != 0) == !m, "errors go through the pipe exactly when merged");
  if (r) { CHECK(sh_n == 0, "nothing on the console"); sh_n = sh_read("f", sh_outb, sizeof sh_outb); CHECK(sh_n >= 0, "file made"); }
  CHECK((sh_n > 0) == m, "the filter sees the errors exactly when merged");
  COVER("ran");
}
