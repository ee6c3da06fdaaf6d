/* EXIT, EXIT /B, and scripts that run as commands. */
#include "sh.h"
static char src[900]; static int sl;
static void s(const char *x) { while (*x) src[sl++] = *x++; src[sl] = 0; }
static int over, want, dead;
/* the interpreter ends here */
void exit(int c) { char b[64]; int n; CHECK(over == 1, "the interpreter ends only by EXIT"); CHECK(c == want, "EXIT gives its code back"); fflush(0); n = sh_read("_out", b, sizeof b); CHECK(n == 2 && b[0] == 'a' && b[1] == '\n', "nothing after EXIT runs"); COVER("ran"); vf_end(); for (;;) ; }
static char num_[8];
/* a code: none, or up to NC digits, or negative */
#ifndef NC
#define NC 2
#endif
static int code(int none) { int k = vf_pick(0, NC + 1), i, v = 0, n = 0; if (k == 0) { return none; } num_[n++] = ' '; if (k == NC + 1) { num_[n++] = '-'; k = 1; for (i = 0; i < k; i++) { unsigned char c = vf_u8(); vf_assume(c >= '0' && c <= '9'); num_[n++] = c; v = v * 10 + c - '0'; } num_[n] = 0; return -v; } for (i = 0; i < k; i++) { unsigned char c = vf_u8(); vf_assume(c >= '0' && c <= '9'); num_[n++] = c; v = v * 10 + c - '0'; } num_[n] = 0; return v; }
static const char *B[] = { "", "(echo a\n", "if 1==1 (\n", "for %%i in (1 2) do (\n", "call :s\necho b\ngoto :eof\n:s\n", "for /l %%i in (1,1,3) do call :s\necho b\ngoto :eof\n:s\n", "call ./s.bat\necho b\n", "if 1==2 (echo b) else (\n" };
static const char *E_[] = { "", "\necho b)", "\necho b)", "\necho b)", "", "", "", "\necho b)" };
void h_exit(void) {
  int w = vf_pick(0, 7), tail = vf_pick(0, 2); char ex[40]; sh_boot(); over = 1;
  want = code(7); strcpy(ex, "exit"); strcat(ex, num_); if (tail == 1) strcat(ex, " "); if (tail == 2) strcat(ex, "& echo b"); if (!num_[0]) iErrorLevel = 7;
  if (w == 6) { char t[80]; strcpy(t, num_[0] ? "echo a\n" : ""); strcat(t, ex); strcat(t, "\necho b\n"); sh_write("s.bat", t); if (!num_[0]) s("echo a\n"); } 
  else if (w != 1) { if (num_[0]) s("echo a\n"); }
  if (!num_[0]) { vf_assume(w == 0 || w == 2 || w == 4); sl = 0; s("echo a\nset /p x= <none\n"); want = -2; }
  if (!num_[0]) vf_end();
  s(B[w]); if (w != 6) s(ex); s(E_[w]); s("\necho b\n"); sh_script(src); FAIL("EXIT ends the interpreter");
}
/* EXIT /B */
void h_exit_b(void) {
  static const char *BB[] = { "", "(", "if 1==1 (", "for %%i in (1 2) do (", "for /l %%i in (1,1,3) do (", "if 1==2 (echo x) else (", "(>_k echo x\n", "for %%i in (1 2) do >_k (echo x\n" }; static const char *EE[] = { "", "\necho b)", "\necho b)", "\necho b)", "\necho b)", "\necho b)", "\necho b) >_o 2>_e2", "\necho b)" };
  int w = vf_pick(0, 7), lev = vf_pick(0, 2), tail = vf_pick(0, 3), v, i, k = 0; char t[200], *o, d[12]; sh_boot();
  v = code(0); vf_assume(num_[0] != 0);
  strcpy(t, BB[w]); strcat(t, vf_pick(0, 1) ? "exit /b" : "Exit /B"); strcat(t, num_); if (tail == 1) strcat(t, " "); if (tail == 2) strcat(t, "& echo b"); if (tail == 3) strcat(t, " && echo b"); strcat(t, EE[w]); strcat(t, "\necho b\n");
  if (lev == 0) { s("echo a\n"); s(t); } else if (lev == 1) { s("echo a\ncall :s\necho !errorlevel!\ngoto :eof\n:s\n"); s(t); } else { sh_write("s.bat", t); s("echo a\ncall s.bat 1 2\necho !errorlevel!\n"); }
  sh_script(src); o = sh_out(); CHECK(o[0] == 'a' && o[1] == '\n', "what comes before runs"); o += 2;
  if (lev) { int neg = v < 0, u = neg ? -v : v, x = 0, n = 0; if (neg) { CHECK(*o == '-', "the code is the error level"); o++; } while (*o >= '0' && *o <= '9') { x = x * 10 + *o++ - '0'; n++; } CHECK(n > 0 && x == u, "the code is the error level of the caller"); while (*o == ' ') o++; CHECK(*o == '\n', "the caller goes on after the call"); o++; } else CHECK(iErrorLevel == v, "the code is the error level");
  CHECK(*o == 0, "nothing else runs"); (void)i; (void)k; (void)d; COVER("ran");
}
/* a script as a command has its own state, CALL shares it */
void h_iso(void) {
  static const char *M[] = { "set V=n\n", "cd d\n", "pushd d\n", "setlocal\nset V=n\n", "shift\n", "def /f k=echo n\n", "set /a V=3\n", "set V=\n", "popd\n" };
  int m = vf_pick(0, 8), how = vf_pick(0, 2), x = vf_pick(0, 3), v, i; char t[160], *o, ex[64], c[2] = { 0, 0 }; unsigned char n; static char cwd[FILENAME_MAX]; sh_boot(); strcpy(cwd, lpCurrentDir); mkdir("d", 0755); mkdir("e", 0755);
  n = vf_u8(); vf_assume(n >= '1' && n <= '9'); c[0] = n; v = x == 3 ? 0 : n - '0';
  strcpy(t, M[m]); if (x == 0) { strcat(t, "exit "); strcat(t, c); strcat(t, "\necho b\n"); } if (x == 1) { strcat(t, "exit /b "); strcat(t, c); strcat(t, "\necho b\n"); } if (x == 2) { strcat(t, "call :q\ngoto :eof\n:q\nexit /b "); strcat(t, c); strcat(t, "\n"); } if (x == 3) strcat(t, "verify_= 2>_e\necho b>_b\n");
  if (x == 3) { strcpy(t, M[m]); strcat(t, "echo b>_b\n"); }
  sh_write("s.bat", t); if (how == 2 && (x == 0 || m == 3)) vf_end();
  s("def k=echo o\nset V=o\npushd e\n"); s(how == 2 ? "call ../s.bat p q\n" : how ? "(../s.bat p q)\n" : "..\\s.bat p q\n" + 0); if (how == 0) { sl = 0; s("def k=echo o\nset V=o\npushd e\n../s.bat p q\n"); }
  s("set L=!errorlevel!\necho [!V!]\nk\necho !L!\npopd\necho end\n");
  sh_script(src); o = sh_out(); (void)ex; (void)i;
  if (how < 2) { static char w[64]; strcpy(w, "[o]\no\n0\nend\n"); w[6] = '0' + v; CHECK(vf_streq(o, w), "variables, definitions, directory and directory stack of the caller stay, the code of the script is the error level"); CHECK(vf_streq(cwd, lpCurrentDir), "the directory of the caller stays"); }
  else { static char w[64]; strcpy(w, m == 0 ? "[n]\no\n0\nend\n" : m == 6 ? "[3]\no\n0\nend\n" : m == 5 ? "[o]\nn\n0\nend\n" : m == 7 ? "[]\no\n0\nend\n" : "[o]\no\n0\nend\n"); w[m == 7 ? 5 : 6] = '0' + v; CHECK(vf_streq(o, w), "CALL shares variables and definitions with the caller"); }
  COVER("ran");
}

/* what a script run as a command sees of its caller */
void h_sees(void) {
  int how = vf_pick(0, 2), e = vf_pick(0, 1), q; char *o, X = vf_plain(), v[3], w[200]; static char cwd[FILENAME_MAX]; sh_boot(); strcpy(cwd, lpCurrentDir); mkdir("d", 0755); mkdir("d/e", 0755); v[0] = vf_of("xy %!^"); v[1] = X; v[2] = 0; sh_setenv("V", v);
  sh_write("s.bat", "echo !errorlevel!\necho [!V!]\nk\ncd\npopd\ncd\npopd\ncd\necho %1%2[%3]\n"); if (how == 2) sh_write("u.bat", "../../s.bat %1 %2\n");
  s("def k=echo o\npushd d\npushd e\n"); if (e) s("call :e\n"); s(how == 0 ? "../../s.bat p q\n" : how == 1 ? "(../../s.bat p q) & if 1==2 echo n\n" : "../../u.bat p q\n"); s("goto :eof\n:e\nexit /b 3\n");
  sh_script(src); o = sh_out(); q = 0; w[q++] = e ? '3' : '0'; w[q++] = '\n'; w[q++] = '['; w[q++] = v[0]; w[q++] = X; strcpy(w + q, "]\no\n"); for (q = 0; w[q]; q++) CHECK(o[q] == w[q], "error level, variables and definitions of the caller are seen"); o += q;
#define DIR(x) do { const char *c = cwd, *d = x; while (*c) { CHECK(*o == *c, "directory"); o++; c++; } while (*d) { CHECK(*o == *d, "the current directory and the directory stack of the caller are seen"); o++; d++; } CHECK(*o == '\n', "directory"); o++; } while (0)
  DIR("/d/e"); DIR("/d"); DIR(""); { const char *d = "pq[]\n"; for (; *d; d++) { CHECK(*o == *d, "parameters"); o++; } } CHECK(!*o, "no more"); COVER("ran");
}
