/* dump: every byte, in order, as what is asked */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include "vf.h"
int dump_main(int, char **);
static char want[6000], out[6000]; static int nw, wantrc, npart; static int part[4], nrd, failat;
static int over;
static void w(const char *x) { while (*x) want[nw++] = *x++; want[nw] = 0; }
static void w1(char c) { want[nw++] = c; want[nw] = 0; }
static void wr_(const char *f, const char *d, int n) { int fd = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0644); write(fd, d, n); close(fd); }
static int rd_(const char *f, char *b, int n) { int fd = open(f, O_RDONLY), g = 0, k; while ((k = read(fd, b + g, n - 1 - g)) > 0) g += k; close(fd); b[g] = 0; return g; }
long vf_raw_read(int, void *, size_t);
#ifdef VF_NATIVE
#define RAWR(f, b, n) syscall(SYS_read, f, b, n)
#else
#define RAWR vf_raw_read
#endif
/* what is read comes in the pieces of part[], or fails at failat */
static int armed;
ssize_t read(int fd, void *b, size_t n) { if (armed) { nrd++; if (nrd == failat) { errno = 5; return -1; } if (nrd > 200) FAIL("reads for ever"); if (nrd <= npart && (int)n > part[nrd - 1]) n = part[nrd - 1]; } return RAWR(fd, b, n); }
static void done(int rc)
{
    int i, n; armed = 0; fflush(stdout); n = rd_("_out", out, sizeof out);
    CHECK(!rc == !wantrc, "the status tells whether all went well");
    if (failat) { COVER("ran"); return; }
    for (i = 0; i < nw && i < n; i++) CHECK(out[i] == want[i], "every byte, in order, as what is asked");
    CHECK(n == nw, "every byte, in order, as what is asked"); COVER("ran");
}
void exit(int c) { CHECK(over == 0, "once"); over = 1; done(c); vf_end(); for (;;) ; }
static void boot(void) { int fd = open("_out", O_RDWR | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); close(fd); fd = open("_err", O_RDWR | O_CREAT | O_TRUNC, 0644); dup2(fd, 2); close(fd); }
static const char *TN[] = { "c", "uc", "s", "us", "i", "ui", "ll", "ull" };
static const int SZ[] = { 1, 1, 2, 2, 4, 4, 8, 8, 4, 8 }, WD[] = { 4, 3, 6, 5, 11, 10, 20, 20, 14, 23 };
/* one element: d[0..z-1], little endian */
static void element(int t, int hex, const unsigned char *d)
{
    static char b[32]; int z = SZ[t], i, wd = hex ? 2 * z : WD[t]; unsigned long v = 0; int neg = 0;
    if (hex) { for (i = z; i--;) { int h = d[i] >> 4, l = d[i] & 15; w1((char)('0' + h + (h > 9) * 39)); w1((char)('0' + l + (l > 9) * 39)); } return; }
    if (t & 1) v = t == 1 ? *d : t == 3 ? *(unsigned short *)d : t == 5 ? *(unsigned *)d : *(unsigned long *)d;
    else { long x = t == 0 ? *(signed char *)d : t == 2 ? *(short *)d : t == 4 ? *(int *)d : *(long *)d; neg = x < 0; v = neg ? 0 - (unsigned long)x : (unsigned long)x; }
    { int k = 1; unsigned long p = 10; while (k < 20 && v >= p) { k++; p = k < 20 ? p * 10 : p; } for (i = wd; i--;) { if (i >= wd - k) { b[i] = (char)('0' + v % 10); v /= 10; } else b[i] = '0'; } } for (i = 0; i < wd; i++) w1(!i && neg ? (char)45 : b[i]);
}
enum { A = 1, T = 2, C = 4, Q = 8 };
static void addr(unsigned long a) { char b[20]; int n = 0; if (!a) { w("(nil)"); return; } w("0x"); while (a) { b[n++] = "0123456789abcdef"[a & 15]; a >>= 4; } while (n) w1(b[--n]); }
static void refer(const char *name, int t, int hex, int fl, const unsigned char *d, int n)
{
    int z = SZ[t], wd = hex ? 2 * z : WD[t], s = !(fl & Q), per = (80 - (fl & A ? 16 + s : 0)) / (wd + s + (fl & C ? z : 0)), i, j, k;
    if (name && (fl & T)) { w(name); w(" -----------------\n"); }
    for (i = 0; i < n; i += per * z) {
        if (fl & A) { addr(i); if (s) w1(' '); }
        for (j = 0; j < per; j++) if (i + j * z < n) { unsigned char e[8] __attribute__((aligned(8))); for (k = 0; k < z; k++) e[k] = i + j * z + k < n ? d[i + j * z + k] : 0; element(t, hex, e); if (s) w1(' '); } else if (fl & C) { for (k = 0; k < wd + s; k++) w1(' '); }
        if (fl & C) for (j = 0; j < per * z && (i + j) / z * z < n; j++) { int c = i + j < n ? d[i + j] : 0; w1(c < 32 || c > 127 ? '.' : (char)c); }
        w1('\n');
    }
}
static char *av[10]; static int ac; static char ab[8][12];
static void arg(const char *a) { if (!ac) av[ac++] = (char *)"dump"; strcpy(ab[ac - 1], a); av[ac] = ab[ac - 1]; ac++; av[ac] = 0; }
static void fmt_(int fl, int spell) { char b[12]; strcpy(b, spell ? "/b:" : "/B"); if (fl & A) strcat(b, spell ? "a" : "A"); if (fl & Q) strcat(b, spell ? "q" : "Q"); if (fl & C) strcat(b, spell ? "c" : "C"); if (fl & T) strcat(b, spell ? "t" : "T"); arg(b); }
static void typ(int t, int spell) { char b[12]; strcpy(b, spell ? "/t:" : "/T"); strcat(b, TN[t]); arg(b); }
static unsigned char D[300];
static void go(void) { int rc; armed = 1; if (!ac) { av[0] = (char *)"dump"; ac = 1; } rc = dump_main(ac, av); exit(rc); }
static int fill(int n, int nsym) { int i; for (i = 0; i < n; i++) D[i] = (unsigned char)(i * 37 + 11); for (i = 0; i < nsym && n; i++) D[i < nsym / 2 || i >= n ? i % n : n - 1 - (i - nsym / 2)] = vf_u8(); return n; }
/* values: one element of every type over all its bytes */
void h_dump_val(void)
{
    int t = vf_pick(0, 7), hex = vf_pick(0, 1), z = SZ[t], i, sp = vf_pick(0, 1); boot();
    for (i = 0; i < z; i++) D[i] = vf_u8();
    wr_("f", (char *)D, z); typ(t, sp); if (hex) arg(sp ? "/h" : "/H"); fmt_(0, sp); arg("f"); refer("f", t, hex, 0, D, z); go();
}
/* layout: every length around the borders of rows */
void h_dump_rows(void)
{
    int t = vf_pick(0, 7), hex = vf_pick(0, 1), fl = vf_pick(0, 15), sp = vf_pick(0, 1), z = SZ[t], s = !(fl & Q), wd = hex ? 2 * z : WD[t], per = (80 - (fl & A ? 16 + s : 0)) / (wd + s + (fl & C ? z : 0)), k = vf_pick(0, 7), n, in = vf_pick(0, 1);
    static const int O[] = { 0, 1, -1, 0, 1, -1, 0, 1 }; n = (k < 2 ? 0 : k < 5 ? per * z : 2 * per * z) + O[k]; boot(); fill(n, 2);
    wr_("f", (char *)D, n); typ(t, sp); if (hex) arg("/h"); fmt_(fl, sp);
    if (in) { int fd = open("f", O_RDONLY); dup2(fd, 0); close(fd); } else arg("f"); refer(in ? 0 : "f", t, hex, fl, D, n); go();
}
/* input that comes in pieces, and errors of reading */
void h_dump_pieces(void)
{
    int t = vf_pick(0, 7), n = fill(vf_pick(0, 1) ? 21 : 100, 2), i, fd; boot();
    npart = vf_pick(0, 3); for (i = 0; i < npart; i++) part[i] = vf_pick(0, 3) * 2 + 1; if (vf_pick(0, 1)) failat = vf_pick(1, 3);
    wr_("f", (char *)D, n); fd = open("f", O_RDONLY); dup2(fd, 0); close(fd); typ(t, 0); arg("/h"); fmt_(C, 0);
    if (!failat) { refer(0, t, 1, C, D, n); go(); }
    wantrc = 1; go();
}
/* several files, missing ones, options in between, defaults */
void h_dump_files(void)
{
    int i, n, t = 0, hex = 0, fl = A | T | C, bad = 0; static unsigned char F[3][4]; static const char *N[] = { "f", "g", "h" }; boot();
    for (i = 0; i < 2; i++) { int k; for (k = 0; k < 4; k++) F[i][k] = k == 1 ? vf_u8() : (unsigned char)(65 + k + 4 * i); wr_(N[i], (char *)F[i], i ? 3 : 4); } mkdir("d", 0755);
    n = vf_pick(1, 3);
    for (i = 0; i < n && !bad; i++) {
        int k = vf_pick(0, 7);
        switch (k) {
        case 0: case 1: arg(N[k]); refer(N[k], t, hex, fl, F[k], k ? 3 : 4); break;
        case 2: arg("/H"); hex = 1; break;
        case 3: t = 3; typ(t, 0); break;
        case 4: fl &= Q; fl |= C; fmt_(C, 1); break;
        case 5: arg("none"); bad = 1; break;
        case 6: arg("d"); if (fl & T) w("d -----------------\n"); bad = 1; break;
        case 7: arg("/Tx"); bad = 1; break;
        }
    }
    if (bad) wantrc = 1; else if (!nw) refer(0, t, hex, fl, D, 0);
    go();
}
/* floating types */
void h_dump_float(void)
{
    static const float V[] = { 0, 1, -2.5f, 123456, 0.25f, -1024, 99999.5f }; static const char *X[] = { "0", "1", "-2.5", "123456", "0.25", "-1024", "99999.5" };
    int n = vf_pick(1, 2), d = vf_pick(0, 1), hex = vf_pick(0, 1), i, k, wd = d ? 23 : 14, z = d ? 8 : 4; unsigned char e[16]; boot();
    { char t[32]; snprintf(t, 32, "%.17g", 2.2250738585072014e-308); (void)t; }
    for (i = 0; i < n; i++) {
        int q = vf_pick(0, 6); if (d) { double v = V[q]; memcpy(e + i * 8, &v, 8); } else memcpy(e + i * 4, &V[q], 4);
        if (hex) { for (k = z; k--;) { w1("0123456789abcdef"[e[i * z + k] >> 4]); w1("0123456789abcdef"[e[i * z + k] & 15]); } }
        else { const char *x = X[q]; k = wd - (int)strlen(x); if (*x == '-') { w1('-'); x++; } while (k-- > 0) w1('0'); w(x); }
        w1(' ');
    }
    w1('\n'); wr_("f", (char *)e, n * z); arg(d ? "/T:d" : "/T:F"); if (hex) arg("/H"); arg("/b:"); arg("f"); go();
}
