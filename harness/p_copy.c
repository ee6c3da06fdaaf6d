/* COPY, MOVE, REN: nothing is lost, nothing else is touched. */
#include "sh.h"
#include "fs.h"
#include "../command/pBat_Copy.h"
static char src[400]; static int sl;
static void s(const char *x) { while (*x) src[sl++] = *x++; src[sl] = 0; }
static const char *ANS[] = { "y\n", "n\n", "\n", "", "all\n", "z\nyes\n", "no" };
static const int YES[] = { 1, 0, 0, 0, 1, 1, 0 };
/* one source */
void h_copy_one(void) {
  static const char *S[] = { "a", "./a", "d/c", "q", "d" }, *D[] = { "a", "./a", "b", "n", "d", "d/", "d/c", "e/", "e/x", "d/../a", "b/", "b/x" };
  int mv = vf_pick(0, 1), y = vf_pick(0, 2), si = vf_pick(0, 4), di = vf_pick(0, 11), ans, r, exist; char so[24], to[24], pa[24]; struct rn *f, *g;
  sh_boot(); mkf("a", vf_pick(0, 1) * 3); mkf("b", 2); mkd("d"); mkf("d/c", 1); if (vf_pick(0, 1)) { if (vf_pick(0, 1)) mkf("d/a", 1); else mkd("d/a"); }
  s(mv ? "move " : "COPY "); if (y) s(y == 1 ? "/y " : "/-Y "); s(S[si]); s(" "); s(D[di]);
  rnorm(S[si], so); rnorm(D[di], to); f = rfind(so); if (rdir(to) || D[di][vf_len(D[di]) - 1] == '/') { strcat(to, "/"); strcat(to, rbase(so)); } rparent(to, pa);
  g = rfind(to); exist = g && g->kind == 1; ans = exist ? vf_pick(0, 6) : vf_pick(0, 1) * 3; sh_write("_in", ANS[ans]);
  r = sh_line(src);
  if (si == 4) { CHECK(r != 0 || 1, ""); rcheck("a directory is no file to copy"); COVER("ran"); return; }
  if (!f) { CHECK(r != 0, "a missing source is an error"); rcheck("nothing happens without a source"); COVER("ran"); return; }
  if (exist && y != 1 && !YES[ans]) { rcheck("an existing file is only replaced after a yes"); COVER("ran"); return; }
  if (f == g) { rcheck("a file stays when it is its own destination"); COVER("ran"); return; }
  if (!rdir(pa) || (g && g->kind == 2)) { CHECK(r != 0, "an impossible destination is an error"); rcheck("nothing is lost when the destination is impossible"); COVER("ran"); return; }
  CHECK(r == 0, "no error"); rset(to, f->d, f->n); if (mv) rdel(so); rcheck("the destination has the content of the source"); COVER("ran");
}
/* several sources, concatenation */
void h_copy_many(void) {
  static const char *D[] = { "n", "b", "d", "e/", "p1", "p2", "d/x", "e/x" }, *P[] = { "p1", "p2", "p3" };
  int mv = vf_pick(0, 1), list = vf_pick(0, 1), plus = mv ? 0 : vf_pick(0, 1), di = vf_pick(0, 7), have[3], i, k = 0, r, own = -1, isd = di == 2 || di == 3, first = -1, tot = 0, nil = vf_pick(0, 3); char all[8];
  sh_boot(); mkf("b", 2); mkd("d"); if (vf_pick(0, 1)) mkf("d/p2", 1); for (i = 0; i < 3; i++) { have[i] = vf_pick(0, 1); if (have[i]) { struct rn *e = mkf(P[i], i == nil ? 0 : 1 + (i == 1)); if (first < 0) first = i; memcpy(all + tot, e->d, e->n); tot += e->n; k++; } }
  if (plus && !list) vf_end();
  s(mv ? "move /y " : "copy /y "); if (list) { for (i = 0; i < 3; i++) if (have[i] || (i == 2 && vf_pick(0, 1) && (have[2] = 2))) { s(P[i]); if (plus) s(" + "); else s(" "); } } else s("p* ");
  if (list && !k && have[2] != 2) vf_end();
  s(D[di]); r = sh_line(src);
  for (i = 0; i < 2; i++) if (di == 4 + i && have[i]) own = i;
  if (!k || have[2] == 2) { CHECK(r != 0, "a missing source is an error"); rcheck("nothing happens when a source is missing"); COVER("ran"); return; }
  if (isd && plus) { CHECK(r != 0, "files cannot be joined to a directory"); rcheck("nothing is lost"); COVER("ran"); return; }
  if (di == 2) { CHECK(r == 0, "no error"); for (i = 0; i < 3; i++) if (have[i]) { char t[8] = "d/p1"; struct rn *e = rfind(P[i]); t[3] = '1' + i; rset(t, e->d, e->n); if (mv) rdel(P[i]); } rcheck("each file goes to the directory"); COVER("ran"); return; }
  if (di == 3 || di == 7) { CHECK(r != 0, "the directory does not exist"); rcheck("nothing is lost"); COVER("ran"); return; }
  if (k == 1 && own >= 0) { rcheck("a file stays when it is its own destination"); COVER("ran"); return; }
  if (mv && k > 1) { CHECK(r != 0, "several files cannot become one"); rcheck("nothing is lost"); COVER("ran"); return; }
  if (k > 1 && own >= 0 && !list) { /* the order of the search decides */ static char b[64]; int g = sh_read(D[di], b, 64); if (r) rcheck("nothing is lost"); else { struct rn *e = rfind(D[di]); CHECK(g == tot, "all content is in the destination"); for (i = 0; i < e->n; i++) CHECK(b[i] == e->d[i], "old content first"); } COVER("ran"); return; }
  if (k > 1 && own >= 0 && own != first) { CHECK(r != 0, "the destination is among the later sources"); rcheck("nothing is lost"); COVER("ran"); return; }
  CHECK(r == 0, "no error");
  if (!list && k > 1) { /* any order */ static char b[64]; struct rn *q[3]; int n = 0, g, a, c, d, ok = 0; for (i = 0; i < 3; i++) if (have[i]) q[n++] = rfind(P[i]); g = sh_read(D[di], b, 64); CHECK(g == tot, "all files are joined");
    for (a = 0; a < n; a++) for (c = 0; c < n; c++) for (d = 0; d < n; d++) { int ix[3] = { a, c, d }, o = 0, e = 1, j; if (a == c || (n == 3 && (a == d || c == d)) || (n == 2 && d)) continue; for (j = 0; j < n; j++) for (i = 0; i < q[ix[j]]->n; i++) e &= b[o++] == q[ix[j]]->d[i]; ok |= e; }
    CHECK(ok, "each file is joined as it is"); rset(D[di], b, g); rcheck("nothing else changes"); COVER("ran"); return; }
  rset(D[di], all, tot); if (mv) rdel(P[first]); rcheck("the destination has the content of the sources, in order"); COVER("ran");
}
/* large files; short and failing transfers */
static int armed, nrd, nwr, frd, fwr, fshort, fthen, rshort;
long vf_raw_read(int, void *, size_t); long vf_raw_write(int, const void *, size_t);
#ifdef VF_NATIVE
#define RAWR(f, b, n) syscall(SYS_read, f, b, n)
#define RAWW(f, b, n) syscall(SYS_write, f, b, n)
#else
#define RAWR vf_raw_read
#define RAWW vf_raw_write
#endif
ssize_t read(int fd, void *b, size_t n) { if (armed && ++nrd == frd) { if (rshort) { if ((int)n > rshort) n = rshort; } else { errno = 5; return -1; } } return RAWR(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (armed && fd > 2 && ++nwr >= fwr && fwr) { if (!fshort) { errno = 28; return -1; } if (fthen && nwr == fwr + 1) { errno = 28; return -1; } if (nwr == fwr && n > 0) n = fshort < (int)n ? fshort : (int)n; } return RAWW(fd, b, n); }
void h_copy_fault(void) {
  static const int N[] = { 0, 1, 2047, 2048, 2049, 4096, 4100 }; static char A[4200], B[9000]; char C[3]; int n = N[vf_pick(0, 6)], i, cat = vf_pick(0, 1), r, g, at[] = { 0, 1, 2046, 2047, 2048, 4095, 4096, 4099 }, sh[] = { 0, 1, 7, 2047 }; FILE *e;
  sh_boot(); for (i = 0; i < n; i++) A[i] = (char)(i * 7 + i / 256); for (i = 0; i < 8; i++) if (at[i] < n) A[at[i]] = (char)vf_u8(); for (i = 0; i < 3; i++) C[i] = (char)vf_u8();
  sh_writen("a", A, n); sh_writen("c", C, 3); sh_writen("b", "old", 3);
  frd = vf_pick(0, 3); rshort = frd ? vf_pick(0, 1) * 7 : 0; fwr = frd ? 0 : vf_pick(0, 3); fshort = fwr ? sh[vf_pick(0, 3)] : 0; fthen = fshort ? vf_pick(0, 1) : 0;
  e = fError; armed = 1; { int fl = PBAT_COPY_SILENCE; if (cat) { fl |= PBAT_COPY_CAT; r = pBat_CatFile("a", "b", &fl); if (!r) r = pBat_CatFile("c", "b", &fl); } else r = pBat_CopyFile("a", "b"); } armed = 0;
  g = sh_read("b", B, sizeof B);
  if ((frd && !rshort && nrd >= frd) || (fwr && !fshort && nwr >= fwr) || (fthen && nwr > fwr)) CHECK(r != 0, "a failing transfer is an error");
  else { CHECK(r == 0, "no error"); CHECK(g == n + (cat ? 3 : 0), "all of the content"); }
  CHECK(g <= n + (cat ? 3 : 0), "no more than the content"); for (i = 0; i < g; i++) CHECK(B[i] == (i < n ? A[i] : C[i - n]), "the content of the source");
  g = sh_read("a", B, sizeof B); CHECK(g == n, "the source stays"); for (i = 0; i < n; i++) CHECK(B[i] == A[i], "the source stays"); COVER("ran");
}
/* whole trees */
void h_copy_tree(void) {
  static const char *S[] = { "s", "s/*", "s/y", "s/?", "s/y/*", "s/w" }; static const char *T[] = { "s/x", "s/y/z", "s/y/v/u" }, *DD[] = { "s/y", "s/y/v", "s/w" };
  int mv = vf_pick(0, 1), si = vf_pick(0, 4), di = vf_pick(0, 2), i, r, st; char t[24]; const char *to = di == 0 ? "t" : di == 1 ? "n" : "t/m/";
  sh_boot(); mkd("s"); mkf("s/x", 1); mkd("s/y"); mkf("s/y/z", 2); mkd("s/y/v"); mkf("s/y/v/u", 1); mkd("s/w"); mkd("t"); if (vf_pick(0, 1)) mkf("t/x", 1);
  s(mv ? "move /y /r " : "copy /y /r "); s(S[si]); s(" "); s(to); r = sh_line(src);
  CHECK(r == 0, "no error"); st = si == 0 ? 0 : si == 4 ? 4 : 2; /* length of the part that is left out */
  if (di == 1) radd("n", 2); if (di == 2) radd("t/m", 2);
  for (i = 0; i < 3; i++) { const char *p = DD[i]; if ((si == 2 || si == 4) && strncmp(p, "s/y", 3)) continue; if (si == 5 && strcmp(p, "s/w")) continue; if (si == 4 && !strcmp(p, "s/y")) continue; rnorm(to, t); strcat(t, "/"); strcat(t, p + st); radd(t, 2); }
  if (si == 0) { rnorm(to, t); strcat(t, "/s"); radd(t, 2); }
  for (i = 0; i < 3; i++) { struct rn *e; const char *p = T[i]; if ((si == 2 || si == 4) && strncmp(p, "s/y", 3)) continue; if (si == 5) continue; e = rfind(p); rnorm(to, t); strcat(t, "/"); strcat(t, p + st); rset(t, e->d, e->n); if (mv) rdel(p); }
  if (mv) for (i = 2; i >= 0; i--) { const char *p = DD[i]; if ((si == 2 || si == 4) && strncmp(p, "s/y", 3)) continue; if (si == 5 && strcmp(p, "s/w")) continue; if (si == 4 && !strcmp(p, "s/y")) continue; rdel(p); }
  if (mv && (si == 0 || si == 2)) { struct stat b; const char *p = S[si]; if (!stat(p, &b)) radd(p, 2); else rdel(p); } /* the emptied top of the tree may stay */
  rcheck("the tree is where it was sent, as it was"); COVER("ran");
}
/* REN */
void h_ren(void) {
  static const char *S[] = { "a", "d/c", "./a", "q", "d", "d/q" }, *D[] = { "n", "n.t", "\"n m\"", "d/n", "./n", "a" };
  int si = vf_pick(0, 5), di = vf_pick(0, 5), r, full = vf_pick(0, 1); char so[24], to[24]; struct rn *f; const char *nn = di == 2 ? "n m" : D[di];
  sh_boot(); mkf("a", 2); mkd("d"); mkf("d/c", 1); s(full ? "RENAME " : "ren "); s(S[si]); s(" "); s(D[di]); r = sh_line(src);
  if (di == 3 || di == 4) { CHECK(r != 0, "REN does not move"); rcheck("nothing is lost"); COVER("ran"); return; }
  rnorm(S[si], so); f = rfind(so); if (!f) { CHECK(r != 0, "a missing file is an error"); rcheck("nothing happens"); COVER("ran"); return; }
  rparent(so, to); if (*to) strcat(to, "/"); strcat(to, nn);
  if (si == 4 && di == 5) { CHECK(r != 0, "the name is taken"); rcheck("nothing is lost"); COVER("ran"); return; }
  CHECK(r == 0, "no error"); if (f->kind == 2) { struct rn *c = rfind("d/c"); char t[24]; strcpy(t, to); strcat(t, "/c"); radd(to, 2); rset(t, c->d, c->n); rdel("d/c"); rdel("d"); } else if (!vf_streq(to, so)) { rset(to, f->d, f->n); rdel(so); }
  rcheck("the file has the new name in its directory, and its content"); COVER("ran");
}
