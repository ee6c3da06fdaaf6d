/* message catalogues */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <locale.h>
#include <sys/stat.h>
#include "vf.h"
const char *dcgettext(const char *, const char *, int); const char *dgettext(const char *, const char *); const char *gettext(const char *); char *textdomain(const char *); char *bindtextdomain(const char *, const char *);
static const char *loc = "fr_FR.UTF-8";
char *setlocale(int c, const char *l) { return (char *)loc; }
static unsigned char B[200]; static int nb;
static void put(int at, unsigned v) { int i; for (i = 0; i < 4; i++) B[at + i] = (unsigned char)(v >> (8 * i)); }
static char S[3][4], T[3][4]; static int ns;
/* a catalogue of n messages of S and T; its tables at 20 + gap */
static void build(int n, int gap, int cut)
{
    int i, k, o = 20 + gap, t = o + 8 * n, e = t + 8 * n; memset(B, 'z', sizeof B); put(0, 0x950412de); put(4, 0); put(8, n); put(12, o); put(16, t);
    for (k = 0; k < 2; k++) for (i = 0; i < n; i++) { const char *x = k ? T[i] : S[i]; int l = vf_len(x); put((k ? t : o) + 8 * i, l); put((k ? t : o) + 8 * i + 4, e); memcpy(B + e, x, l + 1); e += l + 1; }
    nb = e - cut;
}
static void save(const char *lang, const char *dom)
{
    char p[64]; int fd; mkdir("l", 0755); strcpy(p, "l/"); strcat(p, lang); mkdir(p, 0755); strcat(p, "/LC_MESSAGES"); mkdir(p, 0755); strcat(p, "/"); strcat(p, dom); strcat(p, ".mo");
    fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644); write(fd, B, nb); close(fd);
}
static int cmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
static void nosort(void) { int i; for (i = 0; i + 1 < ns; i++) ASSUME(cmp(S[i], S[i + 1]) < 0); }
/* every message has its own translation, others stay */
void h_mo_find(void)
{
    int i, k, gap, hit = -1; char key[4]; const char *r; ns = vf_pick(0, 3); gap = vf_pick(0, 1) * 4;
    for (i = 0; i < ns; i++) { vf_strn(S[i], vf_pick(i ? 1 : 0, 2)); vf_strn(T[i], i ? 1 : vf_pick(0, 2)); } nosort();
    build(ns, gap, 0); save("fr", "dom"); bindtextdomain("dom", "l"); vf_strn(key, vf_pick(0, 2));
    for (k = 0; k < 2; k++) {
        long live = vf_heap_live(); if (vf_pick(0, 1)) { textdomain("dom"); r = gettext(key); } else r = dgettext("dom", key);
        for (i = 0; i < ns; i++) if (vf_streq(S[i], key)) hit = i;
        if (hit < 0) CHECK(r == key, "an unknown message stays"); else CHECK(vf_streq(r, T[hit]), "a message becomes its translation");
        if (k) CHECK(vf_heap_live() == live, "nothing is kept for each message");
    }
    CHECK(dgettext("other", key) == key, "another domain knows nothing"); COVER("ran");
}
/* damaged catalogues: any field, any end of the file, texts without end */
static int edge(int k) { static const int E[] = { 0, 1, 2, 3, 19, 20, 28, 36, 51, 52, 53, 1 << 28, 1 << 29, 1 << 30, 0x7fffffff, (int)0x80000000, -1, -8, -20 }; return k < 19 ? E[k] : nb + k - 21; }
void h_mo_bad(void)
{
    static const int F[] = { 0, 4, 8, 12, 16, 20, 24, 32, 36, 40, 44, 52 }; int i, n = 2, a, two; const char *r;
    strcpy(S[0], "a"); strcpy(S[1], "b"); T[0][0] = vf_u8(); ASSUME(T[0][0] != 0); strcpy(T[1], "y"); build(2, 0, 0);
    two = vf_pick(0, 1); for (i = 0; i <= two; i++) { a = F[vf_pick(0, 11)]; put(a, edge(vf_pick(0, 23))); }
    save("fr", "dom"); bindtextdomain("dom", "l");
    r = dgettext("dom", "a"); n = vf_len(r); CHECK(r && n < 200, "a text comes back"); r = dgettext("dom", "b"); n = vf_len(r); CHECK(r && n < 200, "a text comes back"); COVER("ran");
}
/* cut off anywhere, or any bytes at all */
void h_mo_cut(void)
{
    int i, k = vf_pick(0, 1), n; const char *r; strcpy(S[0], "a"); strcpy(S[1], "bc"); strcpy(T[0], "x"); strcpy(T[1], ""); build(2, 0, 0);
    if (k) { nb = vf_pick(0, 8) * 4; for (i = 4; i < nb && i < 7; i++) B[i] = vf_u8(); if (vf_pick(0, 1)) for (i = 0; i < 4; i++) B[i] = vf_u8(); if (nb > 8) put(8, vf_pick(0, 2)); } else nb = vf_pick(0, nb);
    save("fr", "dom"); bindtextdomain("dom", "l"); r = dgettext("dom", "a"); n = vf_len(r); CHECK(r[0] == 'a' || (r[0] == 'x' && n == 1), "the text itself or its translation");
    r = dgettext("dom", "bc"); CHECK(vf_streq(r, "bc") || !*r, "the text itself or its translation"); COVER("ran");
}
/* which catalogue: language of the locale, domain, directory */
void h_mo_which(void)
{
    static const char *L[] = { "fr_FR.UTF-8", "fr", "French_France.1252", "French", "de_DE", "German_Germany", "it", "Zulu_x", "Abkhazian", "C", "Dutch_y", "Norwegian", "Spanish;", "Xhosa", "English_a" }, *D[] = { "fr", "fr", "fr", "fr", "de", "de", "it", "zu", "ab", "c", "nl", "no", "es", "xh", "en" };
    int k = vf_pick(0, 14), two = vf_pick(0, 1), j; const char *r; loc = L[k]; strcpy(S[0], "a"); T[0][0] = vf_u8(); ASSUME(T[0][0] != 0); build(1, 0, 0); save(D[k], "dom");
    strcpy(T[1], "q"); if (two) { char t = T[0][0]; T[0][0] = 'q'; build(1, 4, 0); save(D[k], "dom2"); save(k == 4 ? "fr" : "de", k == 5 ? "dom3" : k == 4 ? "dom" : "dom3"); T[0][0] = t; }
    bindtextdomain("dom", "l"); if (two) bindtextdomain("dom2", "x"); if (two) bindtextdomain("dom2", "l");
    for (j = 0; j < 2; j++) { r = dgettext("dom", "a"); CHECK(vf_streq(r, T[0]), "the catalogue of the domain and the language"); r = dgettext("dom2", "a"); CHECK(vf_streq(r, two ? "q" : "a"), "the catalogue of the domain and the language"); }
    COVER("ran");
}
