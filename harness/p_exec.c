/* External programs: what they are given and what comes back. fork, execv and waitpid are ours. */
#include "sh.h"
#include "fs.h"
#include <sys/wait.h>
static char src[300]; static int sl;
static void s(const char *x) { while (*x) src[sl++] = *x++; src[sl] = 0; }
int vf_raw_pipe(int *);
#ifdef VF_NATIVE
#define RAWPIPE(p) syscall(SYS_pipe2, p, 0)
#else
#define RAWPIPE vf_raw_pipe
#endif
static int pf[2], forks, child, fails, wst, waits; static char before[64]; static int nbefore = -1;
static void (*run)(const char *file, char *const *a);
int pipe(int *p) { int r = RAWPIPE(p); pf[0] = p[0]; pf[1] = p[1]; return r; }
int fork(void) { forks++; if (nbefore >= 0) { int n = sh_read("_out", sh_outb, sizeof sh_outb); CHECK(n == nbefore && !memcmp(sh_outb, before, n), "what was written before is out before the program starts"); } if (child) return 0; if (fails) write(pf[1], "x", 1); return 42; }
int execv(const char *file, char *const *a) { if (run) run(file, a); vf_end(); return -1; }
int waitpid(int p, int *st, int o) { waits++; CHECK(p == 42, "the program is waited for"); *st = wst; return 42; }
static char base[512];
static void boot(void) { sh_boot(); getcwd(base, sizeof base); strcpy(lpCurrentDir, base); }
static char *abs_(const char *f) { static char b[600]; strcpy(b, base); strcat(b, "/"); strcat(b, f); return b; }
/* ---- parameters ---- */
static char val[6][16]; static int nv;
static void chkargs(const char *file, char *const *a) { int i, j; CHECK(vf_streq(file, abs_("pr")) || vf_streq(file, abs_("./pr")), "the program named"); for (i = 0; i < nv; i++) { CHECK(a[1 + i] != 0, "each parameter is handed over"); for (j = 0; ; j++) { CHECK(a[1 + i][j] == val[i][j], "as it is written"); if (!val[i][j]) break; } } CHECK(a[1 + nv] == 0, "no more"); COVER("ran"); }
static void par(void) { char *v = val[nv++], t[2] = { 0, 0 }; unsigned char c = vf_plain(), d; int f = vf_pick(0, 6); s(" ");
  t[0] = c; d = (f == 1 || f == 2) ? vf_of(" \t,;&|<>") : 0; if (f == 3) d = vf_of(" ,;&|^!%\"");
  switch (f) { case 0: s(t); strcpy(v, t); break;
  case 1: s("\""); s(t); t[0] = d; s(t); s("b\""); v[0] = c; v[1] = d; v[2] = 'b'; v[3] = 0; break;
  case 2: s(t); s("\""); t[0] = d; s(t); s("\""); v[0] = c; v[1] = '"'; v[2] = d; v[3] = '"'; v[4] = 0; break;
  case 3: s(t); s("^"); t[0] = d; s(t); s("e"); v[0] = c; v[1] = d; v[2] = 'e'; v[3] = 0; break;
  case 4: s("!V!"); strcpy(v, sh_getenv("V")); break;
  case 5: s(t); s("!V!x"); v[0] = c; strcpy(v + 1, sh_getenv("V")); strcat(v, "x"); break;
  case 6: s("\"\""); v[0] = 0; break; } }
#ifndef NP
#define NP 2
#endif
void h_exec_args(void) { int i, n; char v[4]; boot(); child = 1; run = chkargs; sh_write("pr", ""); sh_setenv("W", "w"); for (i = 0; i < 3; i++) v[i] = vf_of("!Wx%^"); v[3] = 0; sh_setenv("V", v); s(vf_pick(0, 1) ? "pr" : "./pr"); n = vf_pick(0, NP); while (n--) par(); sh_line(src); FAIL("the program is not started"); }
/* ---- which file ---- */
static const char *want;
static void chkfile(const char *file, char *const *a) { CHECK(want != 0, "nothing is started when there is no such file"); CHECK(vf_streq(file, want), "the first file found: here, then along PATH, with each extension of PATHEXT, then as it is"); COVER("ran"); }
void h_exec_path(void) {
  static const char *D[] = { "", "b1/", "b2/" }, *X[] = { ".x", ".yy", "" }; static char w[600]; char p[600]; int i, j, mask = vf_u8(), named = vf_pick(0, 2), ext = vf_pick(0, 1); boot(); child = 1; run = chkfile; mkdir("b1", 0755); mkdir("b2", 0755);
  mask = vf_concrete(mask); if (named && mask > 63) vf_end();
  for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) if (i * 3 + j < 8 && mask >> (i * 3 + j) & 1) { strcpy(p, D[i]); strcat(p, "k"); strcat(p, X[j]); sh_write(p, ""); }
  strcpy(p, base); strcat(p, "/b1:"); strcat(p, base); strcat(p, "/b2"); if (vf_pick(0, 1)) strcat(p, "/"); sh_setenv("PATH", p); if (ext) sh_setenv("PATHEXT", ".x:.yy"); else sh_setenv("PATHEXT", "");
  for (i = 0; i < 3 && !want; i++) { if (named && i != named - 1) continue; for (j = ext ? 0 : 2; j < 3; j++) if (i * 3 + j < 8 && mask >> (i * 3 + j) & 1) { strcpy(w, abs_(named == 1 ? "./" : D[i])); strcat(w, "k"); strcat(w, X[j]); want = w; break; } }
  s(named == 0 ? "k" : named == 1 ? "./k" : "b1/k"); s(" z"); i = sh_line(src); CHECK(want == 0, "the file found is started"); CHECK(i != 0, "an unknown command is an error"); sh_err(); CHECK(sh_errb[0] != 0, "and reported"); COVER("ran");
}
/* ---- variables and directory ---- */
static char gone[4], ev[8]; static int set_, deld;
static void chkenv(const char *file, char *const *a) { char b[600]; int i, home = 0, path = 0, v = 0; for (i = 0; environ[i]; i++) { char *x = environ[i]; home += !strncmp(x, "HOME=", 5); path += !strncmp(x, "PATH=", 5); if (!strncmp(x, "V=", 2)) { v++; CHECK(vf_streq(x + 2, ev), "the value the variable has now"); } } CHECK(path == 1, "variables are inherited"); CHECK(home == !deld, "variables that have been deleted are not"); CHECK(v == set_, "variables that have been set are"); CHECK(getcwd(b, sizeof b) && vf_streq(b, set_ ? abs_("d") : base), "it runs in the current directory"); for (i = 3; i < 60; i++) CHECK(fcntl(i, F_GETFD) == -1 || (fcntl(i, F_GETFD) & 1), "no other file of the interpreter stays open"); COVER("ran"); }
void h_exec_env(void) { int i, how = vf_pick(0, 2); boot(); child = 1; run = chkenv; mkdir("d", 0755); sh_write("pr", ""); sh_write("o", ""); set_ = vf_pick(0, 1); deld = vf_pick(0, 1);
  if (set_) { for (i = 0; i < 2; i++) ev[i] = vf_of("xyX =%!"); ev[i] = 0; sh_setenv("V", "old"); sh_line("cd d"); sh_line("setlocal"); sh_setenv("V", ev); } if (deld) sh_line("set Home="); if (how) sh_line("pushd .");
  sh_line(how == 2 ? "(../pr >> o) > o & echo x" : set_ ? "../pr" : "./pr"); if (how == 2 && !set_) vf_end(); FAIL("the program is not started"); }
/* ---- streams ---- */
static void chkio(const char *file, char *const *a) { char b[2]; if (read(0, b, 1) == 1) { write(1, b, 1); } write(1, "1", 1); write(2, "2", 1); }
static int has(const char *f, const char *w) { char b[64]; int n = sh_read(f, b, sizeof b); return n == vf_len(w) && !memcmp(b, w, n); }
static char inb[2];
static void chkio2(const char *file, char *const *a) { extern int ior; char w[8]; chkio(file, a); w[0] = inb[0]; strcpy(w + 1, "1");
  switch (ior) { case 0: CHECK(has("_out", "i1") && has("_err", "2"), "input, output and errors go where the line says"); break; case 1: CHECK(has("o", "i1") && has("_err", "2"), "output into the file"); break; case 2: CHECK(has("e", "2") && has("_out", "i1"), "errors into the file"); break; case 3: CHECK(has("o", "i12") && has("_err", ""), "both into the file"); break; case 4: CHECK(has("o", "kki1"), "output is appended"); break; case 5: CHECK(has("_out", w), "input from the file"); break; case 6: CHECK(has("o", "i1") && has("e", "2"), "from the block"); break; case 7: CHECK(has("_err", "i12"), "output to errors"); break; case 8: CHECK(has("o", "i1") && has("e", "2"), "every one"); break; } COVER("ran"); }
int ior;
void h_exec_io(void) { static const char *L[] = { "pr", "pr > o", "pr 2> e", "pr > o 2>&1", "pr >> o", "pr < f", "(pr > o) 2> e", "pr 1>&2", "if 1==1 pr > o 2>e" }; boot(); child = 1; run = chkio2; sh_write("pr", ""); sh_write("_in", "i"); lseek(0, 0, 0); inb[0] = vf_plain(); inb[1] = 0; sh_write("f", inb); sh_write("o", "kk"); ior = vf_pick(0, 8); sh_line(L[ior]); FAIL("the program is not started"); }
/* ---- what comes back ---- */
void h_exec_status(void) {
  int how = vf_pick(0, 5), r, code, f0, del; boot(); sh_write("pr", ""); sh_setenv("p", "pr a"); del = how == 5; if (del) how = 0; f0 = vf_fd_live(); wst = vf_u8() | vf_u8() << 8; vf_assume((wst & 0x7f) == 0 || ((wst & 0x7f) != 0x7f && (wst & 0xff00) == 0)); if ((wst & 0x7f) == 0) vf_assume(!(wst & 0x80)); fails = vf_pick(0, 1);
  code = (wst & 0x7f) ? -1 : wst >> 8; strcpy(before, "k\n"); nbefore = 2;
  r = sh_line(del ? "echo k& !p! b" : how == 0 ? "echo k& pr" : how == 1 ? "echo k& pr && echo t" : how == 2 ? "echo k& pr || echo f" : how == 3 ? "echo k& (pr a > o) & if errorlevel 1 echo n" : "echo k& call pr & if errorlevel 1 echo n");
  if (fails) { CHECK(forks == 1, "started once"); sh_out(); sh_err(); CHECK(sh_errb[0] != 0, "a program that can not be started is reported"); if (how == 0) CHECK(r != 0, "and an error"); CHECK(has("_out", how == 2 ? "k\nf\n" : how >= 3 ? "k\nn\n" : "k\n"), "and an error for what follows"); COVER("ran"); return; }
  CHECK(forks == 1 && waits == 1, "started once and waited for");
  if (how == 0) { if (code >= 0) CHECK(iErrorLevel == code && r == code, "the exit status is the error level"); else CHECK(r != 0, "ended by a signal is an error"); }
  sh_out(); if (how == 0) CHECK(has("_out", "k\n"), "nothing more is written"); if (how == 1) CHECK(has("_out", code == 0 ? "k\nt\n" : "k\n"), "&& runs the next only after success"); if (how == 2) CHECK(has("_out", code == 0 ? "k\n" : "k\nf\n"), "|| runs the next only after an error"); if (how >= 3) CHECK(has("_out", code == 0 ? "k\n" : "k\nn\n"), "the error level can be tested");
  CHECK(vf_fds(f0), "no file stays open"); COVER("ran");
}
