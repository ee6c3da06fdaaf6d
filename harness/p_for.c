/* FOR: the values each form iterates over, and the scope of its variables. */
#include "sh.h"
#ifndef NC
#define NC 5
#endif
#ifndef NT
#define NT 4
#endif
#ifndef NS
#define NS 2
#endif
static char line[512]; static int pos;
static void put(const char *s) { while (*s) line[pos++] = *s++; line[pos] = 0; }
static void putc_(unsigned char c) { line[pos++] = c; line[pos] = 0; }
static unsigned char W[512]; static int nw;
static void w(const char *s) { while (*s) W[nw++] = *s++; }
static void wn(const char *s, int n) { while (n--) W[nw++] = *s++; }
static void check(const char *m) { int i; sh_out(); for (i = 0; i < nw && i < sh_n; i++) CHECK((unsigned char)sh_outb[i] == W[i], m); CHECK(sh_n == nw, m); }
/* ---- reference tokenizer ---- */
static const char *del; 
static int isdel(char c) { const char *d; for (d = del; *d; d++) if (*d == c) return 1; return 0; }
static int tb[16], te[16], nt, ll;
static void split(const char *s) { int i = 0; nt = 0; for (;;) { while (s[i] && isdel(s[i])) i++; if (!s[i]) break; tb[nt] = i; while (s[i] && !isdel(s[i])) i++; te[nt++] = i; } ll = i; }
/* tokens a to b of the line, b < 0: everything that is left, with its delimiters */
static void tok(const char *s, int a, int b) {
  w("["); if (a <= nt) { int e = b < 0 || b > nt ? ll : te[b - 1]; wn(s + tb[a - 1], e - tb[a - 1]); } w("]");
}
static char spec[64]; static int sp;
static void sput(char c) { spec[sp++] = c; spec[sp] = 0; }
/* a chunk of the tokens option: n  n-p  n.p  n*  *  n.*  ; the oracle entries go to A,B */
static int A[8], B[8], na;
static void chunk(int first) {
  int k = vf_pick(0, 5), n = vf_pick(1, 3), p; static int last;
  if (first) last = 0; else sput(',');
  if (k == 4) { sput('*'); A[na] = last + 1; B[na++] = -1; return; }
  sput('0' + n);
  if (k == 0) { A[na] = B[na] = n; na++; last = n; }
  else if (k == 1 || k == 2) { p = n + 1; sput(k == 1 ? '-' : '.'); sput('0' + p); if (k == 2) { A[na] = n; B[na++] = p; } else for (; n <= p; n++) { A[na] = B[na] = n; na++; } last = p; }
  else if (k == 3) { sput('*'); A[na] = B[na] = n; na++; A[na] = n + 1; B[na++] = -1; }
  else { sput('.'); sput('*'); A[na] = n; B[na++] = -1; }
}
static void body(void) { int i; put("echo "); for (i = 0; i < na; i++) { put("["); put("%"); putc_('a' + i); put("]"); } }
/* every tokens specification on every line */
void h_forf_tok(void) {
  char t[24]; int i, n, l = 0, dk = vf_pick(0, 2), trail, dbl;
  sh_boot();
  del = dk == 0 ? " \t" : dk == 1 ? "," : ";. ";
  n = vf_pick(0, NT); trail = vf_pick(0, 1); dbl = n > 1 ? vf_pick(0, 2) : 0;
  if (vf_pick(0, 1)) t[l++] = del[dk == 2];
  for (i = 0; i < n; i++) { 
    t[l++] = vf_plain(); if (i == 1) t[l++] = vf_plain();
    if (i < n - 1 || trail) t[l++] = del[i % strlen(del)];
    if (dbl == i + 1 && i < n - 1) t[l++] = del[(i + 1) % strlen(del)];
  }
  t[l] = 0;
  ASSUME(dk == 2 || t[0] != ';');
  chunk(1); if (vf_pick(0, 1)) { ASSUME(spec[sp - 1] != '*'); chunk(0); }
  sh_write("f", t);
  put("for /f \"tokens="); put(spec); if (dk) { put(" delims="); put(del); } put("\" %a in (f) do "); body();
  split(t);
  if (l) { for (i = 0; i < na; i++) tok(t, A[i], B[i]); w("\n"); }
  sh_line(line);
  check("the variables hold the selected tokens");
  CHECK(sh_err()[0] == 0, "no error");
  COVER("ran");
}
/* lines: skip, eol, empty lines, end of file with and without newline; file, string or command */
void h_forf_lines(void) {
  char t[NC + 2]; int i, b, skip = vf_pick(0, 2), ek = vf_pick(0, 2), src = vf_pick(0, 3), cc, fds;
  sh_boot(); cc = vf_pick(0, 1); bCmdlyCorrect = cc;
  for (i = 0; i < NC; i++) { unsigned char c = vf_u8(); ASSUME((c == 'x') | (c == 'y') | (c == ';') | (c == '\n')); t[i] = c; } t[NC] = 0;
  if (src == 2) for (i = 0; i < NC; i++) ASSUME(t[i] != '\n'); /* a quoted string is one line */
  if (src == 1) { t[NC] = '\n'; t[NC + 1] = 0; }
  put("for /f \"tokens=*"); if (skip) { put(" skip="); putc_('0' + skip); } put(ek == 0 ? "" : ek == 1 ? " eol=x" : " eol=xy");
  if (src == 3) put(" usebackq");
  put("\" %a in (");
  if (src <= 1) { sh_write("f", t); put("f"); }
  else if (src == 2) { put("\""); put(t); put("\""); }
  else { sh_write("f", t); put("`type f`"); }
  put(") do echo [%a]");
  for (i = 0; t[i]; ) {
    for (b = i; t[i] && t[i] != '\n'; i++);
    if (cc && i == b) { if (t[i]) i++; continue; }
    if (skip) skip--;
    else if (i > b && (ek == 0 ? t[b] == ';' : ek == 1 ? t[b] == 'x' : (t[b] == 'x') | (t[b] == 'y'))) ;
    else { w("["); wn(t + b, i - b); w("]\n"); }
    if (t[i]) i++;
  }
  fds = vf_fd_live();
  sh_line(line);
  check("every line that is not skipped or a comment is processed, in order");
  CHECK(vf_fds(fds), "no descriptor stays open");
  COVER("ran");
}
/* several files are read one after the other; missing ones are reported */
void h_forf_files(void) {
  char a[4], b[4]; int miss = vf_pick(0, 3), i, fds; const char *fs[3] = { a, b, a };
  sh_boot(); 
  a[0] = vf_plain(); a[1] = '\n'; a[2] = vf_plain(); a[3] = 0; b[0] = vf_plain(); b[1] = vf_pick(0, 1) ? '\n' : 0; b[2] = 0;
  sh_write("f", a); sh_write("g g", b); sh_write("h", a);
  if (miss) unlink(miss == 1 ? "f" : miss == 2 ? "g g" : "h");
  fds = vf_fd_live();
  sh_line("for /f %a in (f \"g g\",h) do echo %a");
  for (i = 0; i < 3; i++) { const char *s = fs[i]; if (miss == i + 1) break; for (; *s; s++) { if (*s != '\n') { W[nw++] = *s; w("\n"); } } }
  check("the lines of all files, in order");
  CHECK((sh_err()[0] != 0) == (miss != 0), "a missing file is reported");
  CHECK(vf_fds(fds), "no descriptor stays open");
  COVER("ran");
}
/* variables: any first letter, wrap after ~, nesting, conflicts, nothing left behind */
void h_forf_vars(void) {
  unsigned char v = vf_u8(), u, a[3]; int i, k, n = vf_pick(1, 3), clash;
  sh_boot();
  ASSUME((v > 0x20) & (v < 0x7f) & (v != '"') & (v != '!') & (v != '%') & (v != '&') & (v != '|') & (v != '(') & (v != ')') & (v != '<') & (v != '>') & (v != '^') & (v != '~') & (v != ',') & (v != ';') & (v != '=') & (v != ':') & (v != '*') & (v != '+') & !((v >= '0') & (v <= '9')) & (v != '#') & (v != '$') & (v != '\''));
  for (i = 0; i < 3; i++) a[i] = vf_plain();
  put("for /f \"tokens=1-"); putc_('0' + n); put("\" %"); putc_(v); put(" in (\""); for (i = 0; i < 3; i++) { putc_(a[i]); put(" "); } put("\") do ");
  u = (unsigned char)vf_int('p', 'w'); k = vf_pick(0, 2);
  if (k) { put("for "); put(k == 1 ? "/f \"tokens=1,2\" %" : "%"); putc_(u); put(" in ("); put(k == 1 ? "\"5 6\"" : "5"); put(") do "); }
  clash = 0;
  for (i = 0; i < n; i++) clash |= (u == v + i) | (k == 1 && u + 1 == v + i);
  if (k == 2) ASSUME(!clash);
  put("echo "); 
  sh_clear();
  /* print each of ours through an environment variable of its own */
  pos -= 5; line[pos] = 0; put("(");
  for (i = 0; i < n; i++) { unsigned char c = v + i; ASSUME((c != '^') & (c != '|') & (c != '~') & (c != '&') & (c != '"') & (c < 0x7f) & (c != '*') & (c != ',') & (c != '(') & (c != ')') & (c != '+') & (c != '0') & (c != '!') & (c != '<') & (c != '=') & (c != '>') & (c != '%') & (c != '$')); put("echo "); put("%"); putc_(c); put("&"); }
  if (k) { put("echo %"); putc_(u); put(")"); } else { pos--; line[pos] = 0; put(")"); }
  if (!(k == 1 && clash)) { for (i = 0; i < n; i++) { W[nw++] = a[i]; w("\n"); } if (k) w("5\n"); }
  sh_line(line);
  check("each variable holds its token");
  CHECK((sh_err()[0] != 0) == (k == 1 && clash), "assigning a variable of an enclosing loop is an error, and nothing else is");
  for (i = 0x21; i < 0x7f; i++) CHECK(!pBat_GetLocalVarPointer(lpvLocalVars, i), "no loop variable is left");
  COVER("ran");
}
/* FOR /L counts from start to end */
void h_forl(void) {
  int s, st, e, i, n = 0, neg = 0; char num[16]; static const int big[6] = { 2147483647, -2147483647, 2147483640, -2147483647 - 1, 0, 100 };
  sh_boot();
  if (vf_pick(0, 1)) { s = vf_pick(-2, 2); st = vf_pick(1, 3); e = vf_pick(-3, 4); }
  else { s = big[vf_pick(0, 5)]; e = big[vf_pick(0, 5)]; st = big[vf_pick(0, 2)]; ASSUME(st > 0); }
  put("for /l %i in ("); sprintf(num, "%d", s); put(num); put(vf_pick(0, 1) ? "," : " "); sprintf(num, "%d", st); put(num); put(","); sprintf(num, "%d", e); put(num); put(") do echo %i");
  { long long x; for (x = s; x <= e; x += st) { sprintf(num, "%d\n", (int)x); w(num); } }
  sh_line(line);
  check("start, start+step, ... up to end");
  (void)i; (void)n; (void)neg;
  COVER("ran");
}
/* the list form: plain and quoted items, any delimiter between */
void h_forlist(void) {
  int i, n = vf_pick(1, NS), q; char it[3][8]; char d;
  sh_boot();
  put("for %a in (");
  for (i = 0; i < n; i++) {
    q = vf_pick(0, 2);
    if (i) { putc_(vf_of(" ,;:\t\n")); if (vf_pick(0, 1)) putc_(vf_of(" ,;:\t\n")); }
    else if (vf_pick(0, 1)) putc_(vf_of(" ,;:"));
    w("[");
    if (q == 0) { d = vf_plain(); putc_(d); W[nw++] = d; }
    else if (q == 1) { d = vf_of("a ,;:|&<>()"); putc_('"'); putc_(d); putc_('"'); w("\""); W[nw++] = d; w("\""); }
    else { put("5\""); d = vf_of("a ,;:"); putc_(d); put("\"6"); w("5\""); W[nw++] = d; w("\"6"); }
    w("]\n");
  }
  if (vf_pick(0, 1)) putc_(vf_of(" ,;:"));
  put(") do echo [%a]");
  (void)it;
  sh_line(line);
  check("one pass per item, in order, quotes kept");
  COVER("ran");
}
/* wildcard items stand for the matching files, others for themselves */
void h_forglob(void) {
  static const char *nm[5] = { "a.x", "ab.x", "b.y", "a b.x", "dd.x" }; int i, have[5], k = vf_pick(0, 5), got[5], j, n = 0; char *o;
  static const char *pat[6] = { "*.x", "a*", "?.?", "q*", "\"a *\"", "*" };
  static const int hit[6][5] = { { 1, 1, 0, 1, 0 }, { 1, 1, 0, 1, 0 }, { 1, 0, 1, 0, 0 }, { 0 }, { 0, 0, 0, 1, 0 }, { 1, 1, 1, 1, 0 } };
  sh_boot(); mkdir("s", 0755); sh_line("cd s");
  for (i = 0; i < 4; i++) { have[i] = vf_pick(0, 1); if (have[i]) { char p[16] = "s/"; strcat(p, nm[i]); sh_write(p, "x"); } got[i] = 0; }
  mkdir("s/dd.x", 0755); have[4] = 1; got[4] = 0;
  put("for %a in (5,"); put(pat[k]); put(" 6) do echo [%a]");
  sh_line(line);
  sh_line("cd .."); o = sh_out();
  CHECK(!strncmp(o, "[5]\n", 4), "the items before come first"); o += 4;
  while (*o && strncmp(o, "[6]", 3)) {
    for (j = 0; j < 5; j++) { int m = vf_len(nm[j]); if (o[0] == '[' && !strncmp(o + 1, nm[j], m) && o[m + 1] == ']' && o[m + 2] == '\n') { CHECK(have[j] && hit[k][j], "only the matching files"); got[j]++; o += m + 3; break; } }
    CHECK(j < 5, "nothing but names of files");
  }
  CHECK(!strcmp(o, "[6]\n"), "the items behind come last");
  for (j = 0; j < 5; j++) CHECK(got[j] == (have[j] && hit[k][j]), "each matching file exactly once");
  (void)n;
  COVER("ran");
}
/* bodies: counters, leaving by GOTO and EXIT /B, nested loops, errors in the header */
void h_forbody(void) {
  int k = vf_pick(0, 6); unsigned char x = vf_plain(), y = vf_plain(), z = vf_plain(), s = vf_plain();
  char c[4];
  sh_boot(); c[0] = x; c[1] = y; c[2] = z;
  put("@echo off\n");
  switch (k) {
  case 0: /* leave the loop at the item that equals s */
  case 1:
    { char f[7] = { x, '\n', y, '\n', z, '\n', 0 }; sh_write("f", f); } put(k == 0 ? "for %%a in (" : "for /f %%a in (f"); if (k == 0) for (int i = 0; i < 3; i++) { putc_(c[i]); put(" "); }
    put(") do (echo %%a\nif %%a=="); putc_(s); put(" goto out\necho 1)\necho 2\n:out\necho 3\n");
    { int i, o = 0; for (i = 0; i < 3 && !o; i++) { W[nw++] = c[i]; w("\n"); if (c[i] == s) o = 1; else w("1\n"); } if (!o) w("2\n"); w("3\n"); }
    break;
  case 2: /* EXIT /B from a called label inside of a loop */
    put("for %%a in ("); for (int i = 0; i < 3; i++) { putc_(c[i]); put(","); } put(") do call :f %%a\necho 3\ngoto :eof\n:f\nif %1=="); putc_(s); put(" exit /b 1\necho %1\n");
    { int i; for (i = 0; i < 3; i++) if (c[i] != s) { W[nw++] = c[i]; w("\n"); } w("3\n"); }
    break;
  case 3: /* nested */
    put("for /l %%i in (1,1,2) do for %%a in ("); putc_(x); put(" "); putc_(y); put(") do echo %%i%%a\n");
    { int i; for (i = 1; i < 3; i++) { W[nw++] = '0' + i; W[nw++] = x; w("\n"); W[nw++] = '0' + i; W[nw++] = y; w("\n"); } }
    break;
  case 4: /* leaving only the inner of two loops is leaving both */
    put("for %%i in (1 2) do (for %%a in ("); putc_(x); put(" "); putc_(y); put(") do if %%a=="); putc_(s); put(" (goto out) else echo %%a\n)\necho 4\n:out\n");
    { int i, o = 0; for (i = 0; i < 2 && !o; i++) { if (x == s) { o = 1; break; } W[nw++] = x; w("\n"); if (y == s) { o = 1; break; } W[nw++] = y; w("\n"); } if (!o) w("4\n"); }
    break;
  case 5: /* state carried from pass to pass, delayed expansion sees it */
    put("set v=\nfor %%a in ("); for (int i = 0; i < 3; i++) { putc_(c[i]); put(" "); } put(") do (set v=!v!%%a\necho !v!)\necho %v%\n");
    { int i; for (i = 1; i <= 3; i++) { wn(c, i); w("\n"); } wn(c, 3); w("\n"); }
    break;
  default: /* the last value before EXIT /B out of the script */
    put("for %%a in ("); for (int i = 0; i < 3; i++) { putc_(c[i]); put(" "); } put(") do (if %%a=="); putc_(s); put(" exit /b 7\necho %%a)\n");
    { int i; for (i = 0; i < 3; i++) { if (c[i] == s) break; W[nw++] = c[i]; w("\n"); } }
  }
  sh_script(line);
  check("the body runs once per item until it leaves the loop");
  { int i; for (i = 0x21; i < 0x7f; i++) CHECK(!pBat_GetLocalVarPointer(lpvLocalVars, i), "no loop variable is left"); }
  COVER("ran");
}
/* malformed headers are reported and nothing runs */
void h_forbad(void) {
  static const char *t[] = { "for", "for %", "for %a", "for %a in", "for %a in (1 2)", "for %a in (1 2) echo x", "for %a on (1) do echo x", "for a in (1) do echo x", "for /f \"tokens=\" %a in (f) do echo x", "for /f \"tokens=1,\" %a in (f) do echo x", "for /f \"tokens=*1\" %a in (f) do echo x", "for /f \"tokens=x\" %a in (f) do echo x", "for /f \"tokens=1-\" %a in (f) do echo x", "for /f \"foo=1\" %a in (f) do echo x", "for /f %a in (missing) do echo x", "for /f %a in ('echo 1) do echo x", "for /f %a in (`echo 1`) do echo x", "for /l %a in (1,x,3) do echo x", "for /l %a in (1,1,3,4) do echo x", "for /f \"tokens=1-*\" %a in (f) do echo x" };
  int k = vf_pick(0, sizeof t / sizeof *t - 1);
  sh_boot(); sh_write("f", "1\n");
  sh_line(t[k]);
  sh_out(); CHECK(sh_n == 0, "the body of a malformed loop does not run");
  CHECK(sh_err()[0] != 0, "a malformed loop is reported");
  sh_clear(); nw = 0; sh_line("for %a in (1) do echo %a"); w("1\n"); check("later loops work");
  COVER("ran");
}
