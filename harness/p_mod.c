/* Modifiers of script arguments and loop variables (%~fdpnxza). */
#include "sh.h"
#ifndef NV
#define NV 3
#endif
#ifndef NF
#define NF 2
#endif
static char src[9000]; static int sl;
static void s(const char *x) { while (*x) src[sl++] = *x++; src[sl] = 0; }
static void sc(int c) { src[sl++] = (char)c; src[sl] = 0; }
static char W[9000]; static int nw;
static void w(const char *x) { while (*x) W[nw++] = *x++; W[nw] = 0; }
static void wc(int c) { W[nw++] = (char)c; W[nw] = 0; }
static void check(const char *m) { char *o = sh_out(); int i; for (i = 0; i < nw; i++) CHECK(o[i] == W[i], m); CHECK(o[nw] == 0, m); }
/* reference: what a list of flags makes of the text v */
static char full[5200];
static void ref(const char *flags, const char *v, int slen, const char *attr) {
  int i, sla = -1, dot, n = 0; const char *q;
  if (v[0] != '/') { for (q = lpCurrentDir; *q; q++) full[n++] = *q; full[n++] = '/'; }
  for (; *v; v++) full[n++] = *v; full[n] = 0;
  for (i = 0; i < n; i++) if (full[i] == '/') sla = i;
  dot = n; for (i = n - 1; i > sla; i--) if (full[i] == '.') { dot = i; break; }
  for (q = flags; *q; q++) {
    switch (*q) {
    case 'f': w(full); break; case 'd': break;
    case 'p': for (i = 0; i <= sla; i++) wc(full[i]); break;
    case 'n': for (i = sla + 1; i < dot; i++) wc(full[i]); break;
    case 'x': for (i = dot; i < n; i++) wc(full[i]); break;
    case 'z': if (slen >= 0) { char b[8]; int k = 0, x = slen; do b[k++] = '0' + x % 10; while (x /= 10); while (k) wc(b[--k]); } break;
    case 'a': w(attr); break;
    }
    if (q[1] && !(q[0] == 'd' && q[1] == 'p') && !(q[0] == 'p' && q[1] == 'n') && !(q[0] == 'n' && q[1] == 'x')) w("\t");
  }
}
static char v[24];
static void mkv(int n) { int i; for (i = 0; i < n; i++) { v[i] = (char)vf_u8(); ASSUME(v[i] == '/' || v[i] == '.' || (v[i] >= 'p' && v[i] <= 'z') || v[i] == '-'); } v[n] = 0; }
/* a variable from CALL, FOR (letters that are flags or not): every list of path flags */
void h_mod_path(void) {
  int i, how = vf_pick(0, 2), q = vf_pick(0, 1), n = NV - vf_pick(0, 1) * how, nf = vf_pick(1, NF); char fl[NF + 2]; static const char F[] = "fdpnx";
  sh_boot(); mkv(n); for (i = 0; i < nf; i++) fl[i] = F[vf_pick(0, 4)]; fl[nf] = 0;
  mkdir("d", 0755); if (q) sh_line("cd d");
  if (v[0] == '/' && v[1] == '/') vf_end(); /* drive-like */
  if (how == 0) { s("call :l "); if (q) s("\""); s(v); if (q) s("\""); s("\nexit /b\n:l\necho [%~"); s(fl); s("1]\n"); }
  else { s(how == 1 ? "for %%i in (" : "for %%x in ("); if (q) s("\""); s(v); if (q) s("\""); s(") do echo [%%~"); s(fl); s(how == 1 ? "i" : "x"); s("]\n"); }
  w("["); ref(fl, v, -1, ""); w("]\n");
  sh_script(src); check("parts of the path"); COVER("ran");
}
/* %~1: quotes around the value, and only those, go */
void h_mod_quote(void) {
  int i, n = vf_pick(0, NV), how = vf_pick(0, 1), b = 0, e; ESTR *r; char *end;
  sh_boot(); for (i = 0; i < n; i++) { v[i] = (char)vf_u8(); ASSUME(v[i] == '"' || v[i] == '\'' || (v[i] >= 'p' && v[i] <= 'z') || v[i] == ' ' || v[i] == '&' || v[i] == '%'); } v[n] = 0;
  r = pBat_EsInit(); pBat_SetLocalVar(how ? lpvLocalVars : lpvArguments, how ? 'i' : '1', v);
  end = pBat_GetLocalVar(how ? lpvLocalVars : lpvArguments, (char *)(how ? "~i]" : "~1]"), r); CHECK(end && *end == ']', "the whole reference is used");
  e = n; if (v[0] == '"' || v[0] == '\'') { b = 1; if (n > 1 && v[n - 1] == v[0]) e--; }
  for (i = b; i < e; i++) CHECK(r->str[i - b] == v[i], "what the quotes surround stays"); CHECK(r->str[e > b ? e - b : 0] == 0, "nothing else stays");
  end = pBat_GetLocalVar(how ? lpvLocalVars : lpvArguments, (char *)(how ? "i]" : "1]"), r); CHECK(end && *end == ']', "the whole reference is used"); CHECK(vf_streq(r->str, v), "without ~ the value stays as it is");
  pBat_EsFree(r); COVER("ran");
}
/* which flags and which variable a text means: the longest list of flags */
void h_mod_greedy(void) {
  static const char L[] = "anxIq"; int def[5], i, n = vf_pick(1, NF + 1), how = vf_pick(0, 1), k, f; char t[NF + 4]; LOCAL_VAR_BLOCK *b; ESTR *r; char *end; char fl[NF + 3];
  sh_boot(); r = pBat_EsInit(); b = how ? lpvLocalVars : lpvArguments;
  for (i = 0; i < 5; i++) { def[i] = vf_pick(0, 1); if (def[i]) { char nm[6] = { L[i], L[i], '.', L[i], 0 }; pBat_SetLocalVar(b, L[i], nm); } }
  t[0] = '~'; for (i = 0; i < n; i++) t[i + 1] = L[vf_pick(0, 4)]; t[n + 1] = vf_pick(0, 1) ? ']' : 0; t[n + 2] = 0;
  for (f = 0; f < n && strchr("anx", t[f + 1]); f++);      /* flags that could be */
  end = pBat_GetLocalVar(b, t, r);
  for (k = f; k >= 0; k--) { int j; if (k + 1 > n) continue; for (j = 0; j < 5; j++) if (L[j] == t[k + 1] && def[j]) break; if (j < 5) break; }
  if (k < 0) { CHECK(!end, "nothing to expand"); }
  else {
    char nm[6] = { t[k + 1], t[k + 1], '.', t[k + 1], 0 };
    CHECK(end == t + k + 2, "the longest list of flags with a variable behind it");
    for (i = 0; i < k; i++) fl[i] = t[i + 1]; fl[k] = 0; nw = 0; W[0] = 0;
    if (!k) w(nm); else ref(fl, nm, -1, "");
    for (i = 0; i < nw; i++) CHECK(r->str[i] == W[i], "the value of these flags"); CHECK(r->str[nw] == 0, "the value of these flags");
  }
  pBat_EsFree(r); COVER("ran");
}
/* size and attributes of files, directories, missing files */
void h_mod_info(void) {
  int k = vf_pick(0, 3), how = vf_pick(0, 1), nf = vf_pick(1, NF), i, sz = vf_pick(0, 2), sub = vf_pick(0, 1); char fl[NF + 2]; static const char F[] = "zanf"; char c = vf_plain(), nm[12] = { 'q', c, 0 }, path[20] = "";
  sh_boot(); mkdir("d", 0755); for (i = 0; i < nf; i++) fl[i] = F[vf_pick(0, 3)]; fl[nf] = 0;
  if (sub) { sh_line("cd d"); strcpy(path, "d/"); } if (k == 3) { strcpy(nm, "../q"); nm[4] = c; nm[5] = 0; path[0] = 0; strcat(path, nm + 3); if (!sub) vf_end(); } else strcat(path, nm);
  if (k == 0 || k == 3) sh_writen(path, "1234567890123", sz == 0 ? 0 : sz == 1 ? 1 : 13); else if (k == 1) mkdir(path, 0755);
  if (k == 1 && strchr(fl, 'z')) vf_end(); /* the size of a directory is the system's */
  if (how == 0) { s("call :l \""); s(nm); s("\"\nexit /b\n:l\necho [%~"); s(fl); s("1]\n"); } else { s("for %%i in ("); s(nm); s(") do echo [%%~"); s(fl); s("i]\n"); }
  w("["); ref(fl, nm, k == 2 ? -1 : sz == 0 ? 0 : sz == 1 ? 1 : 13, k == 1 ? "D      " : k == 2 ? "" : "       "); w("]\n");
  sh_script(src); check("size, attributes, name"); COVER("ran");
}
/* %0 with flags is the running script, without it is the content */
void h_mod_zero(void) {
  int k = vf_pick(0, 4); char c = vf_plain(), lb[4] = { 'l', c, 0 }; const char *fl[] = { "", "n", "nx", "x", "z" }; char b[12]; int n = 0, x, m = 0;
  sh_boot(); s("call :"); s(lb); s(" ab\ncall :"); s(lb); s(" \"a b\"\nexit /b\n:"); s(lb); s("\necho [%~"); s(fl[k]); s("0][%~1]\n");
  x = vf_len(src); do b[n++] = '0' + x % 10; while (x /= 10);
  for (m = 0; m < 2; m++) { w("["); switch (k) { case 0: w(lb); break; case 1: w("t"); break; case 2: w("t.bat"); break; case 3: w(".bat"); break; case 4: for (x = n; x--; ) wc(b[x]); break; } w(m ? "][a b]\n" : "][ab]\n"); }
  if (k == 0) { /* the name of the label, in the way it was called */ char *o; sh_script(src); o = sh_out(); CHECK(o[0] == '[' && (o[1] == ':' ? o[2] == 'l' && o[3] == c && o[4] == ']' : o[1] == 'l' && o[2] == c && o[3] == ']'), "%~0 is the content"); COVER("ran"); return; }
  sh_script(src); check("flags of %0 are about the script"); COVER("ran");
}
/* values of any length */
void h_mod_long(void) {
  static const int N[] = { 110, 120, 127, 128, 255, 1020, 4100 }; static char big[4300]; int k = vf_pick(0, 6), n, i, f = vf_pick(0, 5); char c = vf_plain(); ESTR *r; static const char *F[] = { "~1", "~f1", "~n1", "~x1", "~p1", "~nx1" }; char *end;
  sh_boot(); n = N[k]; for (i = 0; i < n; i++) big[i] = i % 7 ? 'a' + i % 23 : '-'; big[n / 2] = '/'; big[n - 5] = '.'; big[n - 1] = c; big[n] = 0;
  pBat_SetLocalVar(lpvArguments, '1', big); r = pBat_EsInit(); end = pBat_GetLocalVar(lpvArguments, (char *)F[f], r); CHECK(end && !*end, "the whole reference is used");
  if (f == 0) w(big); else { char fl[4]; strcpy(fl, F[f] + 1); fl[vf_len(fl) - 1] = 0; ref(fl, big, -1, ""); }
  if (nw > 4000) { if (f == 4) nw = 0; else if (nw > 4000) nw = 4000; } /* no such path exists: parts may be cut */
  for (i = 0; i < nw; i++) CHECK(r->str[i] == W[i], "long values"); if (n < 4000) CHECK(r->str[nw] == 0, "long values");
  pBat_EsFree(r); COVER("ran");
}
