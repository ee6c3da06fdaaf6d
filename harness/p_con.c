/* libcu8: lines edited on the console */
#include "cu8.h"
#ifndef NK
#define NK 4
#endif
#ifndef NT
#define NT 4
#endif
#define COLS 8
#define ROWS 8
extern __cdecl void (*libcu8_completion_handler)(const char *, char **); extern __cdecl void (*libcu8_completion_handler_free)(char *);
static wchar_t cell[ROWS * COLS]; static int cur, org;
static struct { wchar_t c; WORD vk, rep; } key[64]; static int nk, kpos;
static unsigned short T[16]; static int nt, at;     /* the line as it should be, in characters, and where the cursor is */
static void step(void); static int quiet;
HANDLE GetStdHandle(DWORD n) { return (HANDLE)(intptr_t)200; }
BOOL WriteConsoleW(HANDLE h, const void *p, DWORD n, LPDWORD k, void *x) { const wchar_t *w = p; DWORD i; for (i = 0; i < n; i++) { if (w[i] == '\r') cur -= cur % COLS; else if (w[i] == '\n') cur += COLS - cur % COLS; else cell[cur++] = w[i]; CHECK(cur < ROWS * COLS, "on the screen"); } if (k) *k = n; return 1; }
BOOL GetConsoleScreenBufferInfo(HANDLE h, CONSOLE_SCREEN_BUFFER_INFO *i) { memset(i, 0, sizeof *i); i->dwSize.X = COLS; i->dwSize.Y = 300; i->dwCursorPosition.X = cur % COLS; i->dwCursorPosition.Y = cur / COLS; return 1; }
BOOL SetConsoleCursorPosition(HANDLE h, COORD c) { CHECK(c.X >= 0 && c.X < COLS && c.Y >= 0 && c.Y < ROWS, "the cursor stays on the screen"); cur = c.Y * COLS + c.X; return 1; }
BOOL SetConsoleCursorInfo(HANDLE h, const CONSOLE_CURSOR_INFO *i) { return 1; }
BOOL FillConsoleOutputCharacterW(HANDLE h, WCHAR c, DWORD n, COORD o, LPDWORD k) { int a = o.Y * COLS + o.X; DWORD i; for (i = 0; i < n; i++) { CHECK(a >= 0 && a < ROWS * COLS, "on the screen"); cell[a++] = c; } *k = n; return 1; }
/* what the screen shows while a key is waited for */
static void look(void) { int i; for (i = 0; i < nt; i++) CHECK(cell[org + i] == T[i], "the screen shows the line"); for (i = nt; i < nt + 4; i++) CHECK(cell[org + i] == ' ', "and nothing behind it"); CHECK(cur == org + at, "the cursor is where it belongs"); }
BOOL ReadConsoleInputW(HANDLE h, INPUT_RECORD *r, DWORD n, LPDWORD k)
{
    if (!quiet) look(); CHECK(kpos < nk, "keys are read until the line ends"); memset(r, 0, sizeof *r); r->EventType = KEY_EVENT; r->Event.KeyEvent.bKeyDown = TRUE; r->Event.KeyEvent.wRepeatCount = key[kpos].rep; r->Event.KeyEvent.uChar.UnicodeChar = key[kpos].c; r->Event.KeyEvent.wVirtualKeyCode = key[kpos].vk; *k = 1; step(); kpos++; return 1;
}
static void ins(unsigned short c) { int i; for (i = nt; i > at; i--) T[i] = T[i - 1]; T[at++] = c; nt++; }
static void del(int k) { int i; for (i = k; i + 1 < nt; i++) T[i] = T[i + 1]; nt--; }
static unsigned short HT[60][12]; static int hn[60], nh, hid;
static void hist(int k) { int i; nt = at = hn[k]; for (i = 0; i < nt; i++) T[i] = HT[k][i]; }
static char want[32]; static int wants; static const char *offer;
/* the key takes effect */
static void step(void)
{
    int i;
    switch (key[kpos].vk) {
    case VK_LEFT: if (at) at--; break; case VK_RIGHT: if (at < nt) at++; break; case VK_HOME: at = 0; break; case VK_END: at = nt; break; case VK_DELETE: if (at < nt) del(at); break;
    case VK_UP: if (hid > 0) hid--; if (hid < nh) hist(hid); break; case VK_DOWN: if (hid < nh - 1) hid++; else hid = nh ? nh - 1 : 0; if (hid < nh) hist(hid); break;
    case 8: if (at) { at--; del(at); } break; case 27: nt = at = 0; break; case 13: break;
    case 9: if (!libcu8_completion_handler) break; {
        int a = at, e, q = at < nt && T[at] == '"'; while (a > 0) { int c = T[a - 1]; if (c == '"') q = !q; else if (!q && (c == '\t' || c == ' ' || c == '&' || c == '|')) break; a--; }
        e = at; if (a < e && T[a] == '"') a++; want[0] = 0; for (i = a; i < e; i++) want[i - a] = T[i]; want[e - a] = 0; wants++; for (i = 0; offer && offer[i]; i++) ins(offer[i]); } break; case 0: for (i = 0; i < key[kpos].rep; i++) ins(key[kpos].c); break;
    }
}
static void press(int vk, int c) { key[nk].vk = vk; key[nk].c = c; key[nk++].rep = 1; }
static void start(int o) { int i; libcu8_fd_buffers = malloc(8 * sizeof(struct fd_buffering_t)); memset(libcu8_fd_buffers, 0, 8 * sizeof(struct fd_buffering_t)); tty = 1; for (i = 0; i < ROWS * COLS; i++) cell[i] = ' '; org = cur = o; strcpy(libcu8_fencoding, "CP28591"); }
/* a line is read: it is the text of T */
static void get(void)
{
    static char buf[64]; uc E[64]; int i, n = 0; char *r; memset(buf, 'Q', sizeof buf); r = libcu8_fgets(buf, sizeof buf, FO); CHECK(r == buf, "a line is read"); CHECK(kpos == nk, "every key is taken");
    for (i = 0; i < nt; i++) n += e8(T[i], E + n); E[n++] = '\n'; for (i = 0; i < n; i++) CHECK((uc)buf[i] == E[i], "the line is what the screen showed"); CHECK(buf[n] == 0, "and ends");
    memcpy(HT[nh], T, sizeof HT[0]); hn[nh++] = nt; cur = org = 19; for (i = 0; i < ROWS * COLS; i++) cell[i] = ' '; nt = at = 0; nk = kpos = 0; hid = nh;
}
static int letter(int k) { unsigned v = vf_u8() | vf_u8() << 8; static const unsigned lo[] = { 0x20, 0x80, 0x800 }, hi[] = { 0x7f, 0x800, 0x10000 }; ASSUME((v >= lo[k]) & (v < hi[k])); if (k == 2) ASSUME((v & 0xF800) != 0xD800); return v; }
static char item[32]; static int asked;
static void complete(const char *w, char **r) { int i; for (i = 0; w[i]; i++) item[i] = w[i]; item[i] = 0; asked++; *r = NULL; if (offer) { *r = malloc(8); strcpy(*r, offer); } }
static void complete_free(char *p) { free(p); }
/* keys of any kind */
void h_con_edit(void)
{
    static const int vks[] = { VK_LEFT, VK_RIGHT, VK_HOME, VK_END, VK_DELETE, 8, 27, 9 }; int i, k, n; start(vf_pick(0, 1) * 3 + 6);
    n = vf_pick(0, 2); for (i = 0; i < n; i++) press(0, letter(vf_pick(0, 2)));
    n = vf_pick(0, NK); for (i = 0; i < n; i++) { k = vf_pick(0, 8); if (k == 8) press(0, letter(vf_pick(0, 1) * 2)); else press(vks[k], vks[k] == 8 || vks[k] == 27 || vks[k] == 9 ? vks[k] : 0); }
    if (n < NK && vf_pick(0, 1)) { press(0, letter(1)); key[nk - 1].rep = 2; }
    press(13, '\r'); get(); COVER("ran");
}
/* lines given before */
void h_con_history(void)
{
    int i, j, n = vf_pick(0, 2), k; start(3);
    for (i = 0; i < n; i++) { k = vf_pick(0, 2); for (j = 0; j < k; j++) press(0, letter(vf_pick(0, 1))); press(13, '\r'); get(); }
    n = vf_pick(0, NK); for (i = 0; i < n; i++) { k = vf_pick(0, 2); if (k == 0) press(VK_UP, 0); else if (k == 1) press(VK_DOWN, 0); else press(0, letter(0)); }
    press(13, '\r'); get(); COVER("ran");
}
/* more lines than are kept */
void h_con_many(void)
{
    char l[3]; int i, n = vf_pick(48, 53), u; start(3);
    for (i = 0; i < n; i++) { l[0] = 'A' + i % 26; l[1] = i > 46 ? letter(0) : '0' + i / 26; l[2] = '\n'; libcu8_history_add_entry(l, 3); HT[i][0] = l[0]; HT[i][1] = l[1]; hn[i] = 2; }
    if (n > 50) { for (i = 0; i < 50; i++) memcpy(HT[i], HT[i + n - 50], sizeof HT[0]); n = 50; } nh = hid = n;
    u = vf_pick(0, 1) ? vf_pick(1, 4) : vf_pick(47, 51);
    nt = at = 0; hid = n; for (i = 0; i < u; i++) press(VK_UP, 0); press(13, '\r'); get(); COVER("ran");
}
/* completion: of the word before the cursor, put where the cursor is */
void h_con_tab(void)
{
    static const char *of[] = { NULL, "", "x", "yz" }; static const char set[] = "a \"&|\t"; int i, j, n = vf_pick(0, NT), b; start(3); libcu8_completion_handler = complete; libcu8_completion_handler_free = complete_free;
    for (i = 0; i < n; i++) { int c = set[vf_pick(0, 4)]; if (c == 'a') { c = letter(0); for (j = 1; j < 6; j++) ASSUME(c != set[j]); } press(0, c); }
    b = vf_pick(0, 2); for (i = 0; i < b; i++) press(VK_LEFT, 0); offer = of[vf_pick(0, 3)]; press(9, 9); if (vf_pick(0, 1)) press(0, letter(0)); press(13, '\r');
    get(); CHECK(asked == 1 && wants == 1, "completion is asked"); for (i = 0; want[i]; i++) CHECK(item[i] == want[i], "for the word"); CHECK(!item[i], "and no more"); COVER("ran");
}
/* a line longer than what is asked for comes in parts */
void h_con_short(void)
{
    char buf[8]; uc E[40]; int i, k, n, ne = 0, c = 0, s, s2, l; unsigned v; char *r; start(3); quiet = 1; n = vf_pick(0, 3);
    for (i = 0; i < n; i++) { k = vf_pick(0, 3); if (k < 3) { v = letter(k); press(0, v); } else { unsigned short w[2]; v = 0x10000 + vf_u8() + (vf_u8() << 8); e16(v, w); press(0, w[0]); press(0, w[1]); } ne += e8(v, E + ne); }
    press(13, '\r'); E[ne++] = '\n'; s = vf_pick(2, 6); s2 = vf_pick(2, 6);
    while (c < ne) { memset(buf, 'X', sizeof buf); r = libcu8_fgets(buf, s, FO); CHECK(r == buf, "a part is read"); for (l = 0; l < s - 1 && c < ne; l++) CHECK((uc)buf[l] == E[c++], "the next of the line"); CHECK(buf[l] == 0 && buf[s] == 'X', "no more than asked for"); s = s2; }
    CHECK(kpos == nk, "every key is taken"); COVER("ran");
}
