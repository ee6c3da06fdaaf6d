/* CD, PUSHD, POPD: the current directory and the directory stack. */
#include "sh.h"
#ifndef NC
#define NC 3
#endif
#ifndef NOP
#define NOP 3
#endif
static char src[2400]; static int sl;
static void s(const char *x) { while (*x) src[sl++] = *x++; src[sl] = 0; }
static char *o; static int p;
static void lit(const char *t, const char *m) { while (*t) { CHECK(o[p] == *t, m); p++; t++; } }
static char base[512], cur[512], stk[12][512]; static int ns;
static int isdir(const char *d) { struct stat st; return stat(d, &st) == 0 && S_ISDIR(st.st_mode); }
/* where a path leads, 0 when it leads nowhere */
static int go(const char *path) {
  char t[600]; int l;
  if (*path == '/') t[0] = 0; else strcpy(t, vf_streq(cur, "/") ? "" : cur);
  l = strlen(t);
  while (*path) {
    const char *q; while (*path == '/') path++; for (q = path; *q && *q != '/'; q++);
    if (q == path) break;
    if (q - path == 2 && path[0] == '.' && path[1] == '.') { while (l && t[--l] != '/'); t[l] = 0; }
    else if (!(q - path == 1 && *path == '.')) { t[l++] = '/'; while (path < q) t[l++] = *path++; t[l] = 0; if (!isdir(t)) return 0; }
    path = q;
  }
  strcpy(cur, l ? t : "/"); return 1;
}
static char nm[2];
static void tree(void) { char t[16] = "X/b"; nm[0] = vf_plain(); mkdir(nm, 0755); t[0] = nm[0]; mkdir(t, 0755); mkdir("c d", 0755); mkdir("c d/.e", 0755); mkdir("..f", 0755); sh_write("m0", ""); t[2] = 'm'; t[3] = '1'; t[4] = 0; sh_write(t, ""); sh_write("c d/m2", ""); strcpy(base, lpCurrentDir); strcpy(cur, base); }
static void has(void) { s("echo [%CD%]\nif exist m0 echo 0\nif exist m1 echo 1\nif exist m2 echo 2\n"); }
static void want(void) { char t[600]; int i; lit("[", "goes on"); lit(cur, "the current directory is where the path leads; one that leads nowhere changes nothing"); lit("]\n", "%CD% has no separator at its end");
  for (i = 0; i < 3; i++) { struct stat st; char m[4] = "m0"; m[1] += i; strcpy(t, cur); strcat(t, "/"); strcat(t, m); if (!stat(t, &st)) { m[0] = m[1]; m[1] = '\n'; m[2] = 0; lit(m, "names are relative to the current directory"); } } }
static int comp(char *w, int k) { switch (k) { case 0: strcpy(w, nm); break; case 1: strcpy(w, "b"); break; case 2: strcpy(w, ".."); break; case 3: strcpy(w, "."); break; case 4: strcpy(w, "c d"); break; case 5: strcpy(w, "m0"); break; case 6: strcpy(w, "..f"); break; case 7: strcpy(w, ".e"); break; case 8: strcpy(w, "no"); break; } return strlen(w); }
void h_cd_path(void) {
  static const char *S[] = { "", "cd /\n" }; char path[700]; int l = 0, i, n = vf_pick(1, NC), st = vf_pick(0, 2), pre = vf_pick(0, 3), q = 0, r, tr;
  sh_boot(); tree();
  if (st == 1) { s("cd "); s(nm); s("\n"); go(nm); } else { s(S[st / 2]); if (st) go("/"); }
  path[0] = 0; if (pre == 1) strcpy(path, "/"); if (pre == 2) { strcpy(path, base); strcat(path, "/"); } if (pre == 3) { strcpy(path, "//"); strcat(path, base); strcat(path, "/"); }
  for (i = 0; i < n; i++) { int k = vf_pick(0, i ? 5 : 8); l = strlen(path); comp(path + l, k); q |= k == 4; if (i < n - 1) strcat(path, n == 2 && vf_pick(0, 1) ? "//" : "/"); }
  tr = n < 3 ? vf_pick(0, 2) : 0; if (tr == 1) strcat(path, "/"); if (tr == 2) strcat(path, "/.");
  s(n == 1 && vf_pick(0, 1) ? "CHDIR /d " : "cd "); if (q) s("\""); s(path); if (q) s("\""); if (n < 3 && vf_pick(0, 1)) s(" \t"); s("&&echo y||echo n\n"); has();
  r = go(path); sh_script(src); o = sh_out(); p = 0; lit(r ? "y\n" : "n\n", "fails when the path leads nowhere"); want(); CHECK(!o[p], "no more"); sh_err(); CHECK(!sh_errb[0] == r, "an error message when it fails"); COVER("ran");
}
/* sequences */
static void op(int k) {
  int r = 1, i; char d[520]; static const char *P[] = { "..", "no", "/", "" }; char two[520];
  if (k < 5) { const char *t = k == 0 ? nm : P[k - 1]; int kind = k == 4 ? 1 : vf_pick(0, 2); if (k == 4) { s("pushd \"c d\" "); s(nm); } else { s(kind ? "pushd " : "cd "); s(t); }
    if (kind == 2) { s(" .."); }
    strcpy(two, cur); if (k == 4) { r = go("c d"); if (r) { strcpy(stk[ns++], two); strcpy(two, cur); r = go(nm); if (r) strcpy(stk[ns++], two); } }
    else { r = go(t); if (r && kind) strcpy(stk[ns++], two); if (r && kind == 2) { strcpy(two, cur); r = go(".."); if (r) strcpy(stk[ns++], two); } } }
  else if (k == 5) { s("popd"); if (!ns) r = 0; else { strcpy(cur, stk[--ns]); } }
  (void)i; (void)d; s(r ? "&&echo y||echo N\n" : " 2>nul&&echo Y||echo n\n"); }
static char seen[NOP][512]; static int seenr[NOP];
void h_cd_seq(void) {
  int i, n; char t[600], b[8];
  sh_boot(); tree();
  for (i = 0; i < NOP; i++) { int m = sl; op(vf_pick(0, 5)); (void)m; seenr[i] = src[sl - 2] == 'N'; s("echo [%CD%]\n"); strcpy(seen[i], cur); }
  n = !strncmp(cur, base, strlen(base)); if (n) s("echo q>zz\n"); /* writes nothing outside */
  s("pushd\necho e\n");
  sh_script(src); o = sh_out(); p = 0;
  for (i = 0; i < NOP; i++) { lit(seenr[i] ? "y\n[" : "n\n[", "fails when the path leads nowhere, or the stack is empty"); lit(seen[i], "POPD leads back to where the last PUSHD not yet undone was made"); lit("]\n", "directory"); }
  for (i = ns; i-- > 0;) { lit(stk[i], "PUSHD without arguments lists the stack, last entry first"); lit("\n", "one per line"); } lit("e\n", "end"); CHECK(!o[p], "no more");
  strcpy(t, cur); strcat(t, "/zz"); CHECK(!n || sh_read(t, b, 8) == 2, "files are created in the current directory"); COVER("ran");
}
/* what runs in a pipe, a called label or a procedure */
void h_cd_scope(void) {
  int k = vf_pick(0, 6); char x[600]; sh_boot(); tree();
  s("def f=(cd "); s(nm); s(")\n");
  switch (k) {
    case 0: s("(cd "); s(nm); s("&cd)|more\n"); break; case 1: s("pushd "); s(nm); s("&(popd&cd)|more&popd\n"); break; case 2: s("(cd "); s(nm); s("&pushd ..&cd)|more\npopd||echo n\n"); break;
    case 3: s("call :l\ncd\ngoto :eof\n:l\ncd "); s(nm); s("\ngoto :eof\n"); break; case 4: s("f\ncd\n"); break; case 5: s("cd "); s(nm); s("&cd b&cd\n"); break; case 6: s("for %%i in ("); s(nm); s(" b ../..) do pushd %%i&cd\n"); break; }
  if (k != 3) { s("cd\n"); }
  sh_script(src); o = sh_out(); p = 0; strcpy(x, base); strcat(x, "/"); strcat(x, nm);
  switch (k) { case 0: lit(x, "there"); lit("\n", "cd writes one line"); lit(base, "a pipe has its own current directory"); break; case 1: lit(base, "a pipe has its own stack"); lit("\n", "line"); lit(base, "a pipe has its own stack"); break;
    case 2: lit(base, "there"); lit("\nn\n", "a pipe has its own stack"); lit(base, "unchanged"); break; case 3: case 4: lit(x, "stays changed after the label or procedure"); break; case 5: lit(x, "command by command"); lit("/b", "command by command"); break;
    case 6: lit(x, "loop"); lit("\n", "loop"); lit(x, "loop"); lit("/b\n", "loop"); lit(base, "loop"); break; }
  if (k == 4 || k == 5) { lit("\n", "line"); lit(x, "same"); if (k == 5) lit("/b", "same"); } if (k == 6) { lit("\n", "line"); lit(base, "same"); }
  lit("\n", "line"); CHECK(!o[p], "no more"); sh_err(); CHECK(k == 2 || !sh_errb[0], "no error"); COVER("ran");
}
/* any path: never outside memory, and what it leaves is canonical */
void h_cd_canon(void) {
  extern int pBat_Canonicalize(char *); char path[16], w[16]; int i, l = 0, n, abs = vf_pick(0, 1), m = 0; char *c; const char *q;
  vf_strof(path + abs, NC + 3, "/.x"); if (abs) path[0] = '/'; n = strlen(path); (void)n;
  c = malloc(strlen(path) + 1 > 2 ? strlen(path) + 1 : 2); strcpy(c, path); sh_boot(); pBat_Canonicalize(c);
  if (path[0] == '/') { /* reference */
    w[0] = 0; for (q = path; *q;) { const char *e; while (*q == '/') q++; for (e = q; *e && *e != '/'; e++); if (e == q) break; if (e - q == 2 && q[0] == '.' && q[1] == '.') { while (l && w[--l] != '/'); w[l] = 0; } else if (!(e - q == 1 && *q == '.')) { w[l++] = '/'; while (q < e) w[l++] = *q++; w[l] = 0; } q = e; }
    if (!l) strcpy(w, "/");
    CHECK(vf_streq(c, w), "the canonical form names the same directory without . .. or repeated separators"); }
  else { for (i = 0; c[i]; i++) m += c[i] == '/' && (c[i + 1] == '/' || (c[i + 1] == '.' && (c[i + 2] == '/' || !c[i + 2]))); CHECK(!m, "no repeated separators and no . "); }
  COVER("ran");
}
