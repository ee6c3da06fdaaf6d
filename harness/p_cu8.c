/* libcu8: text in UTF-8 over the files and the console of Windows */
#include "cu8.h"
#ifndef NB
#define NB 4
#endif
#ifndef NC
#define NC 3
#define SZ 4
#endif
#ifndef NV
#define NV 2
#endif
BOOL WriteConsoleW(HANDLE h, const void *p, DWORD n, LPDWORD k, void *x) { CHECK(nw + n <= sizeof W / sizeof *W, "room"); memcpy(W + nw, p, 2 * n); nw += n; *k = n; return 1; }
HANDLE GetStdHandle(DWORD n) { return (HANDLE)(intptr_t)200; }
BOOL ReadConsoleInputW(HANDLE h, INPUT_RECORD *r, DWORD n, LPDWORD k) { return 0; }
BOOL GetConsoleScreenBufferInfo(HANDLE h, CONSOLE_SCREEN_BUFFER_INFO *i) { return 1; }
BOOL SetConsoleCursorPosition(HANDLE h, COORD c) { return 1; }
BOOL SetConsoleCursorInfo(HANDLE h, const CONSOLE_CURSOR_INFO *i) { return 1; }
BOOL FillConsoleOutputCharacterW(HANDLE h, WCHAR c, DWORD n, COORD o, LPDWORD k) { return 1; }

static void start(int cp)
{
    libcu8_fd_buffers = malloc(8 * sizeof(struct fd_buffering_t)); memset(libcu8_fd_buffers, 0, 8 * sizeof(struct fd_buffering_t));
    if (cp == 65001) { if (vf_pick(0, 1)) strcpy(libcu8_fencoding, "UTF-8"); else CHECK(libcu8_set_fencoding("UTF-8") == 0, "known"); }
    else CHECK(libcu8_set_fencoding(cp == 936 ? "CP936" : "CP28591") == 0, "known");
}
static int cps[] = { 28591, 936, 65001 };

/* what the bytes are on their way out: characters that the target has; what is no UTF-8 is skipped */
static uc E[1400]; static int ne; static wchar_t EW[700]; static int new_;
static void expect(const uc *s, int n, int cp)
{
    int i = 0, l, ok; unsigned v;
    while (i < n) {
        l = s[i] < 0x80 ? 1 : (s[i] & 0xE0) == 0xC0 ? 2 : (s[i] & 0xF0) == 0xE0 ? 3 : (s[i] & 0xF8) == 0xF0 ? 4 : 0;
        if (!l) { i++; continue; }
        if (i + l > n) return;
        v = u8(s + i, l, &ok); if (!ok) { i++; continue; }
        if (cp) ne += eA(cp, v, E + ne); else new_ += e16(v, EW + new_);
        i += l;
    }
}
/* text leaves the same however it is cut */
static void write_(int longer, int nb)
{
    static uc T[600]; char piece[600]; int i, j, n, p, a, b, cut[4], k, r, cp; long live;
    k = vf_pick(0, 3); cp = k < 3 ? cps[k] : 0; tty = !cp; start(cp ? cp : 28591);
    p = longer ? (cp ? 253 : 125) + vf_pick(0, 3) : 0; n = vf_pick(0, nb); memset(T, 'a', p); for (i = 0; i < n; i++) { T[p + i] = vf_u8(); ASSUME(T[p + i] != 0); } n += p;
    a = vf_pick(0, n - p); b = vf_pick(a, n - p); cut[0] = 0; cut[1] = p + a; cut[2] = p + b; cut[3] = n; expect(T, n, cp);
    live = vf_heap_live();
    for (i = 0; i < 3; i++) {
        int l = cut[i + 1] - cut[i]; memcpy(piece, T + cut[i], l); piece[l] = 0; r = l == 1 && i == 1 ? libcu8_fputc(piece[0], FO) : libcu8_fputs(piece, FO);
        CHECK(r >= 0, "writing works"); CHECK(vf_heap_live() == live, "no memory is kept");
    }
    if (cp) { CHECK(no == ne, "as much as there is to write"); for (i = 0; i < ne; i++) CHECK(O[i] == E[i], "the text in the encoding of files"); CHECK(!nw, "not the console"); }
    else { CHECK(nw == new_, "as much as there is to show"); for (i = 0; i < new_; i++) CHECK(W[i] == EW[i], "the text on the console"); CHECK(!no, "no file"); }
    COVER("ran");
}
void h_cu8_write(void) { write_(0, NB); }
void h_cu8_long(void) { write_(1, NB - 2); }
/* a file comes in as its text, whatever the sizes it is read in */
void h_cu8_read(void)
{
    int cp = cps[vf_pick(0, 2)], i, k, n, s, s2, by, l, at = 0, c; unsigned v; char buf[8], *r; uc *g; start(cp); long live;
    n = vf_pick(0, NC);
    for (i = 0; i < n; i++) {
        k = vf_pick(0, cp == 65001 ? 3 : 1);
        if (k == 0) { v = vf_u8(); ASSUME((v != 0) & (v < 0x80)); ASSUME(v != '\r'); }
        else if (cp == 28591) { v = vf_u8(); ASSUME(v >= 0x80); }
        else if (cp == 936) { uc x = vf_u8(), y = vf_u8(); ASSUME((x >= 0x81) & (x <= 0xFE) & (y >= 0x40) & (y != 0x7F) & (y <= 0xFE)); v = 0x4E00 + (x - 0x81) * 190 + (y - 0x40 - (y > 0x7F)); in[inlen++] = x; in[inlen++] = y; ne += e8(v, E + ne); continue; }
        else { v = vf_u8() | vf_u8() << 8 | (k == 3 ? (vf_u8() & 31) << 16 : 0); if (k == 1) ASSUME((v >= 0x80) & (v < 0x800)); else if (k == 2) ASSUME((v >= 0x800) & ((v & 0xF800) != 0xD800)); else ASSUME((v >= 0x10000) & (v < 0x110000)); }
        inlen += eA(cp, v, in + inlen); ne += e8(v, E + ne);
    }
    if (n && cp != 28591 && vf_pick(0, 1)) in[inlen++] = 0xE2;    /* half a character at the end */
    live = vf_heap_live(); errno = 0; s = vf_pick(2, SZ); s2 = vf_pick(2, SZ); by = vf_pick(0, 2);
    for (;; s = s2) {
        k = by & 1; by >>= 1;
        if (k) { c = libcu8_fgetc(FI); if (at == ne) { CHECK(c == EOF, "the end is told"); break; } CHECK(c != EOF, "not yet the end"); CHECK((uc)c == E[at], "the next byte"); CHECK(c == E[at], "as fgetc gives bytes"); at++; }
        else {
            memset(buf, 'X', sizeof buf); r = libcu8_fgets(buf, s, FI); if (at == ne) { CHECK(r == NULL, "the end is told"); break; }
            CHECK(r == buf, "not yet the end");
            for (l = 0; l < s - 1 && at < ne; ) { CHECK((uc)buf[l] == E[at], "the next byte of the text"); l++; if (E[at++] == '\n') break; }
            CHECK(buf[l] == 0, "no more than that"); CHECK(buf[s] == 'X', "no more than asked for");
        }
        CHECK(vf_heap_live() == live, "no memory is kept");
    }
    COVER("ran");
}
/* formatted text of any length */
void h_cu8_print(void)
{
    static char t[1200]; static const int ls[] = { 0, 1, 505, 506, 507, 508, 509, 1100 }; int i, n = ls[vf_pick(0, 7)], r; long live; start(28591);
    memset(t, 'b', n); t[n] = 0; for (i = 0; i < n && i < 2; i++) { t[i] = vf_u8(); ASSUME((t[i] > 0) & (t[i] < 0x7f)); } if (n > 3) { t[n - 1] = vf_u8(); ASSUME((t[n - 1] > 0) & (t[n - 1] < 0x7f)); }
    live = vf_heap_live(); r = libcu8_fprintf(FO, "%s%s%d", "ab", t, -7); CHECK(r == n + 4, "the number of bytes"); CHECK(no == n + 4, "all of it"); CHECK(vf_heap_live() == live, "no memory is kept");
    CHECK(O[0] == 'a' && O[1] == 'b' && O[no - 1] == '7' && O[no - 2] == '-', "around it"); for (i = 0; i < n; i++) CHECK(O[2 + i] == (uc)t[i], "each byte");
    COVER("ran");
}
static unsigned cpoint(void)
{
    unsigned v = vf_u8() | vf_u8() << 8 | (vf_u8() & 31) << 16; static const unsigned lo[] = { 1, 0x80, 0x800, 0x10000 }, hi[] = { 0x80, 0x800, 0x10000, 0x110000 }; int k = vf_pick(0, 3);
    ASSUME((v >= lo[k]) & (v < hi[k])); if (k == 2) ASSUME((v & 0xF800) != 0xD800); return v;
}
/* there and back */
void h_cu8_conv(void)
{
    static uc S[700]; static unsigned short X[700]; int i, n, p = vf_pick(0, 1) * (128 - vf_pick(0, 2)), q = vf_pick(0, 1) * 127, l, m; size_t a, b; char *u, *w; unsigned v; start(28591);
    memset(S, 'c', p); l = p; for (i = 0; i < p; i++) X[i] = 'c'; m = p; n = vf_pick(0, NV); for (i = 0; i < n; i++) { v = cpoint(); l += e8(v, S + l); m += e16(v, X + m); }
    if (q) { memset(S + l, 'd', q); l += q; for (i = 0; i < q; i++) X[m++] = 'd'; } S[l++] = 0; X[m++] = 0;
    w = libcu8_xconvert(LIBCU8_TO_U16, (char *)S, l, &a); CHECK(w != NULL && a == 2 * m, "the size in UTF-16"); for (i = 0; i < m; i++) CHECK(((unsigned short *)w)[i] == X[i], "the text in UTF-16");
    u = libcu8_xconvert(LIBCU8_FROM_U16, (char *)X, a, &b); CHECK(u != NULL && b == l, "the size in UTF-8"); for (i = 0; i < l; i++) CHECK((uc)u[i] == S[i], "the text in UTF-8");
    free(u); free(w);
    COVER("ran");
}
/* names of files: opening, and the entries of a directory */
void h_cu8_name(void)
{
    char name[16], mode[2] = { 'r', 0 }; wchar_t x[12]; int l = 0, m = 0, i, n = vf_pick(0, NV); unsigned v; FILE *f; long live; start(28591);
    for (i = 0; i < n; i++) { v = cpoint(); l += e8(v, (uc *)name + l); m += e16(v, (unsigned short *)x + m); } name[l] = 0; x[m] = 0;
    pfail = vf_pick(0, 1); mode[0] = vf_u8(); ASSUME((mode[0] > 0) & (mode[0] < 0x7f)); live = vf_heap_live();
    libcu8_fd_buffers[6].rcount = 2; libcu8_fd_buffers[6].len = 1; f = libcu8_fopen(name, mode);
    CHECK(f == (pfail ? NULL : FO), "the file or none"); for (i = 0; i <= m; i++) CHECK(pn[i] == x[i], "its name"); CHECK(pm[0] == mode[0] && !pm[1], "its mode"); CHECK(vf_heap_live() == live, "no memory is kept");
    if (f) CHECK(!libcu8_fd_buffers[6].rcount && !libcu8_fd_buffers[6].len, "nothing is left of the file before");
    COVER("ran");
}
void h_cu8_dir(void)
{
    static uc N[3][8]; int i, j, k, m; libcu8_DIR *d; struct libcu8_dirent *e; long live; start(28591); nf = vf_pick(0, 3);
    for (i = 0; i < nf; i++) { unsigned v = cpoint(); m = e16(v, (unsigned short *)FN[i]); j = e8(v, N[i]); if (i && vf_pick(0, 1)) { FN[i][m++] = 'z'; N[i][j++] = 'z'; } FN[i][m] = 0; N[i][j] = 0; }
    live = vf_heap_live(); d = libcu8_opendir("d"); CHECK(!d == !nf, "a directory with nothing is none"); CHECK(pn[0] == 'd' && pn[1] == '/' && pn[2] == '*' && !pn[3], "what is searched for");
    if (d) { for (k = 0; k < nf; k++) { e = libcu8_readdir(d); CHECK(e != NULL, "each entry is given"); for (i = 0; N[k][i]; i++) CHECK((uc)e->d_name[i] == N[k][i], "its name"); CHECK(!e->d_name[i], "its name ends"); if (vf_pick(0, 1)) break; } if (k == nf) { errno = 0; CHECK(libcu8_readdir(d) == NULL && !errno, "then no more"); } CHECK(libcu8_closedir(d) == 0, "closed"); }
    CHECK(!handles, "no search stays open"); CHECK(vf_heap_live() == live, "no memory is kept");
    COVER("ran");
}
