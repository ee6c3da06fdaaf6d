/* libcu8's surroundings: the calls it makes to Windows and to the C library, but those to the console */
#include <stdio.h>
#include <wchar.h>
#include <windows.h>
#include "vf.h"
#define LIBCU8_NO_WRAPPERS
#include "internals.h"
#undef vsnprintf
int snprintf(char *, size_t, const char *, ...); int vsnprintf(char *, size_t, const char *, va_list);
typedef unsigned char uc;

/* ---- Windows: code pages 65001, 28591 and a double byte one (936: every lead byte 81-FE with every trail byte 40-FE but 7F is one character) */
static DWORD lasterr;
DWORD GetLastError(void) { return lasterr; }
int *_errno(void) { return &errno; }
UINT GetACP(void) { return 28591; }
BOOL IsValidCodePage(UINT c) { return c == 28591 || c == 936; }
BOOL GetCPInfo(UINT c, CPINFO *i) { i->MaxCharSize = c == 936 ? 2 : 1; return IsValidCodePage(c); }
BOOL IsDBCSLeadByteEx(UINT c, BYTE b) { return c == 936 && (b >= 0x81) & (b <= 0xFE); }
/* the character that the l bytes at s are in UTF-8, or 0 (or NUL itself: *ok) */
static unsigned u8(const uc *s, int l, int *ok)
{
    unsigned v = 0; int k = 1, i; *ok = 0;
    for (i = 1; i < l; i++) k &= (s[i] & 0xC0) == 0x80;
    if (l == 1) { v = s[0]; k = v < 0x80; }
    if (l == 2) { v = (s[0] & 31) << 6 | (s[1] & 63); k &= ((s[0] & 0xE0) == 0xC0) & (v >= 0x80); }
    if (l == 3) { v = (s[0] & 15) << 12 | (s[1] & 63) << 6 | (s[2] & 63); k &= ((s[0] & 0xF0) == 0xE0) & (v >= 0x800) & ((v & 0xF800) != 0xD800); }
    if (l == 4) { v = (s[0] & 7) << 18 | (s[1] & 63) << 12 | (s[2] & 63) << 6 | (s[3] & 63); k &= ((s[0] & 0xF8) == 0xF0) & (v >= 0x10000) & (v <= 0x10FFFF); }
    if (l > 4) k = 0;
    if (k) *ok = 1; return v;
}
static int e8(unsigned v, uc *o)
{
    if (v < 0x80) { o[0] = v; return 1; }
    if (v < 0x800) { o[0] = 0xC0 | v >> 6; o[1] = 0x80 | (v & 63); return 2; }
    if (v < 0x10000) { o[0] = 0xE0 | v >> 12; o[1] = 0x80 | (v >> 6 & 63); o[2] = 0x80 | (v & 63); return 3; }
    o[0] = 0xF0 | v >> 18; o[1] = 0x80 | (v >> 12 & 63); o[2] = 0x80 | (v >> 6 & 63); o[3] = 0x80 | (v & 63); return 4;
}
static int eA(int cp, unsigned v, uc *o)    /* v in code page cp; 0: not there */
{
    if (cp == 65001) return e8(v, o);
    if (cp == 28591) { if (v > 255) return 0; o[0] = v; return 1; }
    if (v < 0x80) { o[0] = v; return 1; }
    if (v < 0x4E00 || v >= 0x4E00 + 126 * 190) return 0;
    v -= 0x4E00; o[0] = 0x81 + v / 190; v = v % 190; o[1] = 0x40 + v + (v >= 63); return 2;
}
static int e16(unsigned v, unsigned short *o) { if (v < 0x10000) { o[0] = v; return 1; } o[0] = 0xD800 + ((v - 0x10000) >> 10); o[1] = 0xDC00 + (v - 0x10000 & 0x3FF); return 2; }
int MultiByteToWideChar(UINT cp, DWORD fl, LPCSTR src, int n, LPWSTR w, int wn)
{
    const uc *s = (const uc *)src; unsigned v = 0; int ok = 1; unsigned short t[2]; int k;
    CHECK(n > 0 && (n == 1 || cp != 28591) && (n <= 2 || cp == 65001), "one character is converted at a time");
    if (cp == 65001) { v = u8(s, n, &ok); if (!ok) { lasterr = 1113; return 0; } }
    else if (cp == 28591 || n == 1) { v = s[0]; if (cp == 936 && v >= 0x80) { lasterr = 1113; return 0; } }
    else { if ((s[0] < 0x81) | (s[0] > 0xFE) | (s[1] < 0x40) | (s[1] == 0x7F) | (s[1] > 0xFE)) { lasterr = 1113; return 0; } v = 0x4E00 + (s[0] - 0x81) * 190 + (s[1] - 0x40 - (s[1] > 0x7F)); }
    k = e16(v, t); if (k > wn) { lasterr = ERROR_INSUFFICIENT_BUFFER; return 0; } w[0] = t[0]; if (k > 1) w[1] = t[1]; return k;
}
int WideCharToMultiByte(UINT cp, DWORD fl, LPCWSTR w, int n, LPSTR o, int on, LPCSTR def, LPBOOL used)
{
    uc t[4]; unsigned v = w[0]; int k, i, bad = 0;
    if (n == 2) v = 0x10000 + (w[0] - 0xD800 << 10) + (w[1] - 0xDC00); else if (v >= 0xD800 && v < 0xE000) { v = cp == 65001 ? 0xFFFD : '?'; bad = 1; }
    k = eA(cp, v, t); if (!k) { t[0] = '?'; k = 1; bad = 1; }
    if (used) *used = bad;
    if (k > on) { lasterr = ERROR_INSUFFICIENT_BUFFER; return 0; }
    for (i = 0; i < k; i++) o[i] = t[i]; return k;
}
size_t w_wcslen(const wchar_t *w) { size_t n = 0; while (w[n]) n++; return n; }
/* the formatting of msvcrt: -1 when it does not fit, no end when it fits exactly */
static char big[4096];
int w_vscprintf(const char *f, va_list a) { return vsnprintf(big, sizeof big, f, a); }
int w_vsnprintf99(char *o, size_t n, const char *f, va_list a) { return vsnprintf(o, n, f, a); }
int w_vsnprintf(char *o, size_t n, const char *f, va_list a) { int k = vsnprintf(big, sizeof big, f, a); memcpy(o, big, k < (int)n ? k + 1 : n); return k > (int)n ? -1 : k; }

/* ---- two files and the console */
#define FI ((FILE *)(void *)&in)
#define FO ((FILE *)(void *)&out)
static uc in[16]; static int inlen, inpos, ineof; static int out, tty; static uc O[1400]; static int no; static wchar_t W[700]; static int nw, handles;
int w_fileno(FILE *f) { CHECK(f != NULL, "fileno is given a file"); return f == FI ? 5 : 6; }
int w_isatty(int fd) { return fd == 6 && tty; }
int w_feof(FILE *f) { return ineof; }
int w_ferror(FILE *f) { return 0; }
size_t w_fread(void *p, size_t s, size_t n, FILE *f) { size_t k = 0; CHECK(f == FI && s == 1, "a byte is read"); while (k < n) { if (inpos == inlen) { ineof = 1; break; } ((uc *)p)[k++] = in[inpos++]; } return k; }
size_t w_fwrite(const void *p, size_t s, size_t n, FILE *f) { CHECK(f == FO && no + s * n <= sizeof O, "the text goes to its file"); if (s * n == 0) return 0; memcpy(O + no, p, s * n); no += s * n; return n; }
int w_fflush(FILE *f) { return 0; }
int w_fseek(FILE *f, long o, int w) { return 0; }
intptr_t _get_osfhandle(int fd) { return fd + 100; }
BOOL WriteConsole(HANDLE h, const void *p, DWORD n, LPDWORD k, void *x) { return 0; }
BOOL SetHandleInformation(HANDLE h, DWORD a, DWORD b) { return 1; }
int w_dup(int fd) { return fd; }
int w_dup2(int a, int b) { return 0; }
static wchar_t pn[12], pm[6]; static int pfail;
FILE *w_wfopen(const wchar_t *n, const wchar_t *m) { int i; for (i = 0; i < 11 && n[i]; i++) pn[i] = n[i]; pn[i] = 0; for (i = 0; i < 5 && m[i]; i++) pm[i] = m[i]; pm[i] = 0; return pfail ? NULL : FO; }
int lseek_(int a, long b, int c) { return 0; }
#define STUB(n) int n() { CHECK(0, #n " is not called"); return -1; }
STUB(_wopen) STUB(_wsopen) STUB(_wcreat) STUB(_commit) STUB(_wremove) STUB(_wunlink) STUB(_wrename)
static wchar_t FN[3][4]; static int nf, fpos;
HANDLE FindFirstFileW(LPCWSTR p, WIN32_FIND_DATAW *d) { int i; for (i = 0; i < 11 && p[i]; i++) pn[i] = p[i]; pn[i] = 0; if (!nf) { lasterr = 2; return INVALID_HANDLE_VALUE; } memcpy(d->cFileName, FN[0], sizeof FN[0]); fpos = 1; handles++; return (HANDLE)(intptr_t)300; }
BOOL FindNextFileW(HANDLE h, WIN32_FIND_DATAW *d) { CHECK(h == (HANDLE)(intptr_t)300 && handles == 1, "the search is open"); if (fpos == nf) { lasterr = ERROR_NO_MORE_FILES; return 0; } memcpy(d->cFileName, FN[fpos++], sizeof FN[0]); return 1; }
BOOL FindClose(HANDLE h) { CHECK(h == (HANDLE)(intptr_t)300 && handles == 1, "the search is open"); handles--; return 1; }
BOOL CloseHandle(HANDLE h) { CHECK(0, "a search is not closed like another handle"); return 0; }

