/* PROMPT, PECHO and the lines ECHO ON shows */
#include "sh.h"
static char src[400], want[300]; static int sl, nw;
static void s(const char *x) { while (*x) src[sl++] = *x++; src[sl] = 0; }
static void c1(char c) { src[sl++] = c; src[sl] = 0; }
static void w(const char *x) { while (*x) want[nw++] = *x++; want[nw] = 0; }
static void w1(char c) { want[nw++] = c; want[nw] = 0; }
static char fmt[64], user[3]; static int nf, pushed, hasuser, dollar;
static void verify(const char *m) { char *o = sh_out(); int i; if (dollar && vf_streq(o + nw - 6, "$rem x\n")) { want[nw - 6] = 0; strcat(want, "$rem x\n"); nw++; } for (i = 0; i < nw; i++) CHECK(o[i] == want[i], m); CHECK(!o[nw], m); }
/* one piece of a format: a documented code in any case, a color, or any other byte */
static void piece(int safe)
{
    static const char L[] = "abceflghqspnuw_$+";
    int k = vf_pick(0, sizeof L + 1); unsigned char c;
    if (k == sizeof L + 1) { c = safe ? vf_plain() : vf_u8(); ASSUME(c != 0); ASSUME(c != '$'); fmt[nf++] = c; w1(c); return; }
    fmt[nf++] = '$';
    if (k == sizeof L) { fmt[nf++] = vf_pick(0, 1) ? 'x' : 'X'; if (vf_pick(0, 1)) fmt[nf++] = vf_of("0aF."); fmt[nf++] = vf_of("19cF."); fmt[nf++] = ';'; return; } /* colors are for terminals only */
    if (k == sizeof L - 1) { fmt[nf++] = vf_pick(0, 1) ? 'm' : 'M'; return; }
    c = L[k]; fmt[nf++] = (c >= 'a' && c <= 'z' && vf_pick(0, 1)) ? c - 32 : c;
    switch (c) {
    case 'a': w("&"); break; case 'b': w("|"); break; case 'c': w("("); break; case 'e': w("\033"); break; case 'f': w(")"); break; case 'l': w("<"); break; case 'g': w(">"); break; case 'h': w("\b"); break;
    case 'q': w("="); break; case 's': w(" "); break; case 'p': w(lpCurrentDir); break; case 'n': w("/"); break; case 'u': if (hasuser) w(user); break; case 'w': if (hasuser) w("dom"); break; case '_': w("\n"); break; case '$': w("$"); break;
    case '+': { int i; for (i = 0; i < pushed; i++) w("+"); break; }
    }
}
static void setup(void)
{
    int i; sh_boot();
    pushed = vf_pick(0, 2); for (i = 0; i < pushed; i++) sh_line("pushd .");
    hasuser = vf_pick(0, 1); user[0] = vf_u8(); ASSUME(user[0] != 0); user[1] = '$'; user[2] = 0;
    sh_setenv("USERNAME", hasuser ? user : 0); sh_setenv("USERDOMAIN", hasuser ? "dom" : 0);
}
#ifndef NT
#define NT 2
#endif
/* shown in front of the lines of a script */
void h_prompt_fmt(void)
{
    int i, n = vf_pick(0, NT); setup();
    for (i = 0; i < n; i++) piece(0);
    if (vf_pick(0, 1)) { fmt[nf++] = '$'; dollar = 1; } /* a $ at the end: for itself, or nothing */
    fmt[nf] = 0; sh_setenv("PROMPT", fmt);
    w("rem x\n"); sh_script("echo on\nrem x\n@echo off\nrem y\n"); verify("each code stands for what is documented, the rest for itself"); COVER("ran");
}
void h_prompt_pecho(void)
{
    int i, n = vf_pick(1, NT); char t[90]; setup();
    for (i = 0; i < n; i++) piece(1);
    fmt[nf] = 0; w("\n"); strcpy(t, "pecho "); strcat(t, fmt); sh_line(t); verify("each code stands for what is documented, the rest for itself"); CHECK(iErrorLevel == 0, "no error"); COVER("ran");
}
/* PROMPT stores its text, without text the default */
void h_prompt_set(void)
{
    int i, n = vf_pick(0, NT), old = vf_pick(0, 1); setup(); if (old) sh_setenv("PROMPT", "old"); s("prompt");
    if (n) { s(" "); for (i = 0; i < n; i++) piece(1); fmt[nf] = 0; s(fmt); } else { w(lpCurrentDir); w(">"); }
    s("\n"); i = sl; s("echo on\nrem x\n"); w("rem x\n"); sh_script(src);
    CHECK(vf_streq(sh_getenv("PROMPT") ? sh_getenv("PROMPT") : "", n ? fmt : "$P$G"), "the text becomes the value of PROMPT"); verify("and is used from then on"); COVER("ran");
}
/* which lines are shown */
void h_prompt_lines(void)
{
    int i, n = 3, on = 0, x = vf_plain(); char b[2] = { (char)x, 0 }; sh_boot(); sh_setenv("PROMPT", "$$ "); sh_setenv("V", b); sh_write("k.bat", "echo in\n@echo in2\n");
    for (i = 0; i < n; i++) {
        int k = vf_pick(0, 13); const char *l, *o, *sh;
        switch (k) {
        case 0: l = "echo a"; sh = l; o = "a\n"; break;
        case 1: l = "@echo b"; sh = 0; o = "b\n"; break;
        case 2: l = "echo %V%"; sh = 0; o = b; break;
        case 3: l = "echo on"; sh = l; o = ""; break;
        case 4: l = "echo off"; sh = l; o = ""; break;
        case 5: l = "@echo on"; sh = 0; o = ""; break;
        case 6: l = "@echo off"; sh = 0; o = ""; break;
        case 7: l = "if 1==1 (echo c) else echo d"; sh = l; o = "c\n"; break;
        case 8: l = "\t @echo e"; sh = 0; o = "e\n"; break;
        case 9: l = ":lab"; sh = 0; o = ""; break;
        case 10: l = "   "; sh = 0; o = ""; break;
        case 11: l = "(echo f\n@echo g)"; sh = l; o = "f\ng\n"; break;
        case 12: l = "@if 1==1 (\necho h\n)"; sh = 0; o = "h\n"; break;
        default: l = "for %%i in (1 2) do echo %%i"; sh = "for %i in (1 2) do echo %i"; o = "1\n2\n"; break;
        }
        s(l); s("\n");
        if (on && (sh || k == 2)) { w("$ "); if (k == 2) { w("echo "); w(b); } else w(sh); w("\n"); }
        w(o); if (k == 2) w("\n");
        if (k == 3 || k == 5) on = 1; if (k == 4 || k == 6) on = 0;
    }
    sh_script(src); verify("with ECHO ON each line not marked by @ is shown behind the prompt before it runs, otherwise none"); COVER("ran");
}
/* in what a script calls too, and CALL keeps the state */
void h_prompt_call(void)
{
    int on = vf_pick(0, 1), in = vf_pick(0, 2), how = vf_pick(0, 1); sh_boot(); sh_setenv("PROMPT", "$g");
    sh_write("k.bat", in == 0 ? "echo x\n" : in == 1 ? "@echo on\necho x\n" : "@echo off\necho x\n");
    s(on ? "@echo on\n" : "@echo off\n"); s(how == 0 ? "@call k.bat\n" : "@call :k\n"); s("echo y\n@goto :eof\n:k\n"); s(in == 0 ? "echo x\n" : in == 1 ? "@echo on\necho x\n" : "@echo off\necho x\n");
    if (in == 1 || (in == 0 && on)) w(">echo x\n"); w("x\n"); { int after = in == 0 ? on : in == 1; if (after) w(">echo y\n"); } w("y\n");
    sh_script(src); verify("what a called script switches stays switched"); COVER("ran");
}
