/* Redirections: where output goes, and that everything is back to normal afterwards. */
#include "sh.h"
#ifndef DEPTH
#define DEPTH 1
#endif
static char line[512]; static int pos;
static void put(const char *s) { while (*s) line[pos++] = *s++; line[pos] = 0; }
static char fb[512];
/* what a sink received: printed letters in order, then which unknown commands it got */
typedef struct { unsigned char o[16]; int n; char e[16]; int ne; } SINK;
static void sink_is(const char *name, SINK *w) {
  int n = sh_read(name, fb, sizeof fb), i, k = 0, m = 0, ln = 1;
  if (n < 0) n = 0;
  for (i = 0; i < n; i++) {
    int j = i + 1; while (j < n && (fb[j] == ' ' || fb[j] == '\t')) j++;
    if (ln && (j >= n || fb[j] == '\n')) { CHECK(k < w->n && (unsigned char)fb[i] == w->o[k], "output goes where the redirection says, in order"); k++; }
    if (fb[i] == '"' && fb[i + 1] == 'n' && fb[i + 2] == 'o') { CHECK(m < w->ne && fb[i + 3] == w->e[m], "error messages go where the redirection says"); m++; }
    ln = fb[i] == '\n';
  }
  CHECK(k == w->n, "all the output arrives"); CHECK(m == w->ne, "all the error messages arrive");
}
static void out(SINK *s, unsigned char c) { s->o[s->n++] = c; }
static void err(SINK *s, char c) { s->e[s->ne++] = c; }
static SINK con, cerr, f, g;
static void finish(void) {
  int a0 = vf_fd_live();
  sh_line("echo Z&noz"); out(&con, 'Z'); err(&cerr, 'z');
  fflush(fOutput); fflush(fError);
  sink_is("_out", &con); sink_is("_err", &cerr); sink_is("f", &f); sink_is("g", &g);
  CHECK(vf_fds(a0), "no descriptor leaks");
}
static void prep(void) { sh_write("f", "0\n"); out(&f, '0'); sh_write("g", "1\n"); out(&g, '1'); }
/* a block printing X on stdout and failing B on stderr, with any combination of redirections, before or after */
void h_red(void) {
  unsigned char X; int so, se, sub, order, place, i, fds; SINK *to, *te; const char *r[3];
  sh_boot(); prep();
  X = vf_plain();
  so = vf_pick(0, 4); se = vf_pick(0, 2); sub = vf_pick(0, 2); order = vf_pick(0, 2); place = 1;
  ASSUME(so || se || sub);
  r[0] = so == 0 ? "" : so == 1 ? ">f " : so == 2 ? ">>f " : so == 3 ? "1>f " : "1>>f ";
  r[1] = se == 0 ? "" : se == 1 ? "2>g " : "2>>g ";
  r[2] = sub == 0 ? "" : sub == 1 ? "2>&1 " : "1>&2 ";
  if (place == 0) for (i = 0; i < 3; i++) { put(r[(i + order) % 3]); }
  put("(echo "); line[pos++] = X; line[pos] = 0; put("&nob) ");
  if (place == 1) for (i = 0; i < 3; i++) put(r[(i + order) % 3]);
  to = so ? &f : &con; te = se ? &g : &cerr;
  if (so == 1 || so == 3) f.n = 0;
  if (se == 1) g.n = 0;
  if (sub == 1) te = to; else if (sub == 2) to = te;
  out(to, X); err(te, 'b');
  fds = vf_fd_live();
  sh_line(line);
  CHECK(vf_fds(fds), "redirections leave no descriptor open");
  finish();
  COVER("ran");
}
/* the sign may stand anywhere in a simple command, with or without blanks */
void h_red_pos(void) {
  unsigned char X; int place, sp, kind; 
  sh_boot(); prep();
  X = vf_plain(); place = vf_pick(0, 2); sp = vf_pick(0, 1); kind = vf_pick(0, 3);
  { const char *k = kind == 0 ? ">" : kind == 1 ? ">>" : kind == 2 ? "1>" : "1>>";
  if (place == 0) { put(k); if (sp) put(" "); put("f echo "); line[pos++] = X; }
  if (place == 1) { put("echo "); put(k); if (sp) put(" \t"); put(vf_pick(0, 1) ? "\"f\" " : "f "); line[pos++] = X; }
  if (place == 2) { put("echo "); line[pos++] = X; put(" "); put(k); if (sp) put("  "); put("f"); }
  line[pos] = 0; }
  if (kind == 0 || kind == 2) f.n = 0;
  out(&f, X);
  sh_line(line);
  { int n = sh_read("f", fb, sizeof fb), i, seen = 0, ln = 0; for (i = 0; i < n; i++) { if ((unsigned char)fb[i] == X) seen = 1; if (fb[i] == '\n') ln++; CHECK((unsigned char)fb[i] == X || fb[i] == ' ' || fb[i] == '\t' || fb[i] == '\n' || fb[i] == '0', "only the text of the command arrives"); }
    CHECK(seen && ln == f.n, "the text arrives in the file"); }
  sh_out(); CHECK(sh_n == 0, "nothing on the console"); sh_err(); CHECK(sh_errb[0] == 0, "no error");
  COVER("ran");
}
/* quoted or escaped signs are text */
void h_red_quoted(void) {
  char t[8]; unsigned char c = vf_of("<>|&()"); int q;
  sh_boot(); prep(); q = vf_pick(0, 1);
  if (q) { put("echo \"a"); line[pos++] = c; put("f\""); } else { put("echo a^"); line[pos++] = c; put("f"); }
  sh_line(line);
  sh_out();
  CHECK(q ? sh_n == 6 && sh_outb[0] == '"' && sh_outb[1] == 'a' && (unsigned char)sh_outb[2] == c && sh_outb[3] == 'f' && sh_outb[4] == '"' : sh_n == 4 && sh_outb[0] == 'a' && (unsigned char)sh_outb[1] == c && sh_outb[2] == 'f', "a quoted or escaped sign is plain text");
  sink_is("f", &f);
  COVER("ran");
}
/* blocks with their own redirection around commands with theirs, up to three levels */
static void blk(int depth, SINK *o, SINK *e) {
  int i;
  for (i = 0; i < 2; i++) {
    int r = vf_pick(0, 4); SINK *to = o, *te = e;
    if (i) put("&");
    if (r == 1) to = &f; else if (r == 2) te = &g; else if (r == 3) te = to; else if (r == 4) to = te;
    if (depth && i == 0) { put("("); blk(depth - 1, to, te); put(")"); }
    else if (vf_pick(0, 1)) { char c[2] = { (char)('a' + pos % 26), 0 }; put("no"); put(c); err(te, c[0]); }
    else { unsigned char c = vf_plain(); put("echo "); line[pos++] = c; line[pos] = 0; out(to, c); }
    put(r == 1 ? ">>f" : r == 2 ? " 2>>g" : r == 3 ? " 2>&1" : r == 4 ? " 1>&2" : "");
  }
}
void h_red_nest(void) {
  int fds;
  sh_boot(); prep();
  blk(DEPTH, &con, &cerr);
  fds = vf_fd_live();
  sh_line(line);
  CHECK(vf_fds(fds), "redirections leave no descriptor open");
  finish();
  COVER("ran");
}
/* input redirection: successive reads in a block, then the previous input is back */
void h_red_in(void) {
  char in[8]; const char *v; int i, j, fds;
  sh_boot();
  for (i = 0; i < 6; i++) { unsigned char c = vf_u8(); ASSUME(((c >= 'p') & (c <= 'z')) | (c == '\n')); in[i] = c; } in[6] = 0;
  sh_write("f", in); sh_write("_in", "conA\nconB\n");
  fds = vf_fd_live();
  sh_line("set /p k=>f2"); 
  sh_line("(set /p v=&set /p w=)<f");
  sh_line("set /p l=");
  CHECK(vf_fds(fds), "redirections leave no descriptor open");
  v = sh_getenv("k"); CHECK(v && vf_streq(v, "conA"), "console read");
  v = sh_getenv("v"); for (i = 0; in[i] && in[i] != '\n'; i++) CHECK(v && v[i] == in[i], "first line of the file"); CHECK(v ? v[i] == 0 : i == 0, "whole first line");
  if (in[i]) i++;
  v = sh_getenv("w"); for (j = 0; in[i + j] && in[i + j] != '\n'; j++) CHECK(v && v[j] == in[i + j], "second line of the file"); CHECK(v ? v[j] == 0 : j == 0, "whole second line");
  v = sh_getenv("l"); CHECK(v && vf_streq(v, "conB"), "the console input goes on where it was");
  COVER("ran");
}
/* a file that cannot be opened: an error, and later commands still print normally */
void h_red_bad(void) {
  int k = vf_pick(0, 3), fds;
  sh_boot(); mkdir("d", 0755); fds = vf_fd_live();
  sh_line(k == 0 ? "echo A>d" : k == 1 ? "echo A>nodir/f" : k == 2 ? "echo A<missing" : "noa 2>d");
  sh_err(); CHECK(sh_errb[0] != 0, "an error is reported");
  CHECK(vf_fds(fds), "no descriptor leaks");
  sh_clear(); sh_line("echo Z"); sh_out(); CHECK(vf_streq(sh_outb, "Z\n"), "later output is normal");
  COVER("ran");
}
/* redirections on IF and FOR apply to the commands they run */
void h_red_look(void) {
  unsigned char X = vf_plain(); int k = vf_pick(0, 3), t = vf_pick(0, 1);
  sh_boot(); prep();
  put(k == 0 ? (t ? "if 1==1 echo " : "if 1==2 echo ") : k == 1 ? "for %a in (1 2) do echo " : k == 2 ? "for /l %a in (1,1,2) do echo " : (t ? "if 1==2 (echo 5) else echo " : "if 1==1 (rem) else echo ")); line[pos++] = X; put(" >>f & echo Y>>g");
  line[pos] = 0;
  sh_line(line);
  if (k == 0 || k == 3) { if (t) { out(&f, X); out(&g, 'Y'); } }
  else { out(&f, X); out(&g, 'Y'); out(&f, X); out(&g, 'Y'); }
  finish();
  COVER("ran");
}
