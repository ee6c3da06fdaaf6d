/* pbatize: blanks between commands and switches, nothing else */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include "vf.h"
int pbatize_main(int, char **);
static char src[800], want[900], out[900]; static int ns, nw, fails, out_to, over;
static void wr_(const char *f, const char *d, int n) { int fd = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0644); write(fd, d, n); close(fd); }
static int rd_(const char *f, char *b, int n) { int fd = open(f, O_RDONLY), g = 0, k; if (fd < 0) return -1; while ((k = read(fd, b + g, n - 1 - g)) > 0) g += k; close(fd); b[g] = 0; return g; }
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static const char *CM[] = { "RD", "RMDIR", "CD", "CHDIR", "COPY", "DEL", "ERASE", "DIR", "FOR", "IF", "SET", "EXIT", "FIND", "MORE" };
static const char *SW[] = { "SQ", "SQ", "D", "D", "RYA", "PFSQA", "PFSQA", "ASB", "FLRD", "I", "AP", "B", "NCVIE", "EPSCT" };
static int has(const char *s, int c) { for (; *s; s++) if (*s == c) return 1; return 0; }
/* a switch stands at p, and a command or another of its switches right before it */
static int due(int p)
{
    int i, k, c; if (src[p] != '/' || !src[p + 1]) return 0; c = up(src[p + 1]);
    for (i = 0; i < 14; i++) {
        int n = vf_len(CM[i]); if (!has(SW[i], c)) continue;
        if (p >= 2 && src[p - 2] == '/' && up(src[p - 1]) != c && has(SW[i], up(src[p - 1]))) return 1;
        if (p < n) continue; for (k = 0; k < n && up(src[p - n + k]) == CM[i][k]; k++) ; if (k == n) return 1;
    }
    return 0;
}
static void refer(void) { int i; for (i = 0; i < ns; i++) { if (due(i)) want[nw++] = ' '; want[nw++] = src[i]; } want[nw] = 0; }
static void done(int c)
{
    int i, n; CHECK(!over, "once"); over = 1; fflush(stdout);
    if (fails) { CHECK(c != 0, "errors are told"); n = rd_("in", out, sizeof out); if (n >= 0) { CHECK(n == ns, "the input stays"); for (i = 0; i < n; i++) CHECK(out[i] == src[i], "the input stays"); } COVER("ran"); return; }
    CHECK(c == 0, "no error");
    n = rd_(out_to == 0 ? "_out" : out_to == 1 ? "out" : "in", out, sizeof out);
    for (i = 0; i < n && i < nw; i++) CHECK(up(out[i]) == up(want[i]), "exactly the blanks between commands and switches come in");
    CHECK(n == nw, "exactly the blanks between commands and switches come in");
    if (out_to != 2) { n = rd_("in", out, sizeof out); CHECK(n == ns, "the input stays"); for (i = 0; i < n; i++) CHECK(out[i] == src[i], "the input stays"); }
    COVER("ran");
}
void exit(int c) { done(c); vf_end(); for (;;) ; }
static void boot(void) { int fd = open("_out", O_RDWR | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); close(fd); fd = open("_err", O_RDWR | O_CREAT | O_TRUNC, 0644); dup2(fd, 2); close(fd); }
static void go(const char *in) { char a0[8] = "pbatize", a1[8], a2[8], *av[4] = { a0, a1, 0, 0 }; strcpy(a1, in); if (out_to) { strcpy(a2, out_to == 1 ? "out" : "in"); av[2] = a2; } exit(pbatize_main(out_to ? 3 : 2, av)); }
static void s(const char *x) { while (*x) src[ns++] = *x++; src[ns] = 0; }
static void cmd(int i, int lower) { const char *x = CM[i]; for (; *x; x++) src[ns++] = lower ? *x + 32 : *x; src[ns] = 0; }
static void sw(void) { unsigned char c = vf_u8(); ASSUME(c != 0); ASSUME(c != '\r'); src[ns++] = '/'; src[ns++] = c; src[ns] = 0; }
#ifndef NSW
#define NSW 2
#endif
/* a command and switches of any letter, with any byte in front and behind */
void h_pbz_cmd(void)
{
    int i, c, v; unsigned char b; boot(); c = vf_pick(0, 13); v = vf_pick(0, 2); b = vf_plain(); src[ns++] = v ? ' ' : b; cmd(c, v == 1);
    for (i = 0; i < NSW; i++) sw(); if (v == 2) s("\n/Q\nrd /s/q\n"); wr_("in", src, ns); refer(); go("in");
}
/* any text at all */
#ifndef NB
#define NB 4
#endif
void h_pbz_text(void)
{
    int i; boot(); s(vf_pick(0, 1) ? "r" : "de"); for (i = 0; i < NB; i++) { unsigned char c = vf_u8(); ASSUME(c != 0); ASSUME(c != '\r'); src[ns++] = c; } src[ns] = 0; s(vf_pick(0, 1) ? "/q" : ""); wr_("in", src, ns); refer(); go("in");
}
/* files: long lines, no end of line, none at all; outputs */
void h_pbz_file(void)
{
    int i, k = vf_pick(0, 4), n; static const int N[] = { 0, 60, 126, 254, 300 }; boot(); out_to = vf_pick(0, 2);
    n = N[k] + (k ? vf_pick(0, 4) : 0); for (i = 0; i < n; i++) src[ns++] = i % 50 == 9 ? '/' : (char)('a' + i % 23); src[ns] = 0; if (k) s("rd/s"); if (vf_pick(0, 1)) s("\n"); if (vf_pick(0, 1)) { s("\nif/i "); src[ns++] = vf_plain(); s("==b cd/d x\n\n"); } wr_("in", src, ns);
    if (vf_pick(0, 3) == 0) { out_to = out_to ? 1 : 0; fails = 1; if (vf_pick(0, 1)) { unlink("in"); go("in"); } if (!out_to) { char a0[8] = "pbatize", *av[2] = { a0, 0 }; exit(pbatize_main(1, av)); } mkdir("out", 0755); }
    refer(); go("in");
}
