/* P26: whatever line or script it is given, the interpreter stays alive, within its memory, keeps no descriptor and goes on working */
#include "sh.h"
#ifndef NB
#define NB 3
#endif
static int rob_fd, rob_o;
static void rob_begin(void)
{
    sh_boot();
    sh_writen("_in", "y\ny\n", 4);
    pBat_SetEnv(lpeEnv, "PBAT_PATH", "/nonexistent");
    pBat_SetEnv(lpeEnv, "PBAT_START_SCRIPT", 0);
    rob_o = open("_out", O_RDWR);
    rob_fd = vf_fd_live();
}
static void rob_end(void)
{
    char b[16]; int n, at;
    CHECK(vf_fds(rob_fd), "descriptors were left open");
    bEchoOn = FALSE; /* "echo on" */
    bAbortCommand = 0;
    fflush(fOutput); fflush(fError); fflush(_fOutput);
    at = lseek(rob_o, 0, SEEK_END);
    sh_line("echo alive");
    fflush(fOutput); fflush(_fOutput);
    lseek(rob_o, at, SEEK_SET); n = read(rob_o, b, sizeof b - 1); if (n < 0) n = 0; b[n] = 0;
    CHECK(vf_streq(b, "alive\n"), "the next line did not run");
    COVER("ran");
}
/* bytes of any value that can stand in a line */
static void anyb(char *b, int n)
{
    int i, k = vf_pick(0, n);
    for (i = 0; i < k; i++) { b[i] = (char)vf_u8(); ASSUME(b[i] != 0); ASSUME(b[i] != '\n'); }
    b[k] = 0;
}
void h_rob_line(void)
{
    char l[NB + 2];
    rob_begin();
    anyb(l, NB);
    sh_line(l);
    rob_end();
}
/* ? is a byte of any value that can stand in a line */
static const char *rob_t[] = {
    "echo%??", "echo %a:??%", "echo %a:~??%", "echo %a:b?=?%", "echo %~??", "echo !a??!", "echo \"?\"?", "echo ^??", "echo ??",
    "set ??", "set a?b?", "set /a ??", "set /a a??", "set /a 7?3?", "set /p ??", "set /??",
    "if ??", "if ?==? echo y", "if 1 ?? 2 echo y", "if [ ?? ] echo y", "if not??", "if exist??", "if defined??", "if errorlevel??", "if /i?? b echo y", "if a==a??",
    "for ??", "for %??", "for %a in(?? do echo %a", "for %a in (??) do echo %a", "for /l %a in (8,1,??) do echo %a", "for /f %a in (??) do echo %a",
    "for /f \"??\" %a in ('echo x') do echo %a", "for /r ?? %a in (*) do echo %a", "for /??", "for %a in (x) do??",
    "call ??", "call :??", "call /??", "goto ??", "goto :??", "goto /??", "def ??", "def a=?? & a", "shift ??", "shift /??",
    "cd ??", "cd /??", "pushd ??", "popd ??", "type ??", "type /??", "more ??", "more /??", "find ??", "find /??", "find \"?\"?", "wc ??", "wc /??", "xargs ??", "xargs /??",
    "dir ??", "dir /??", "md ??", "rd ??", "rd /??", "copy ??", "copy f??", "move ??", "move f??", "ren ??", "ren f??", "del ??", "del /??",
    "help ??", "prompt ??", "pecho ??", "chcp ??", "color ??", "title ??", "ver ??", "break ??", "setlocal ??", "endlocal ??", "rem ??", "locale ??", "pause ??", "cls ??", "mod ??",
    "(??", "echo a)??", "echo a|??", "echo a>??", "echo a<??", "echo a&??", "2??", "\"??", "@??", ":??", "%??", "!??", "^??", "exit /b ??",
};
void h_rob_cmd(void)
{
    char l[64]; int i, j, n = sizeof rob_t / sizeof *rob_t;
    rob_begin();
    sh_writen("f", "x y\nz\n", 6);
    sh_setenv("a", "abc");
    i = vf_pick(0, n - 1);
#ifdef ONLYT
    ASSUME(i >= ONLYT && i < ONLYT + 1);
#endif
    for (j = 0; rob_t[i][j]; j++) { l[j] = rob_t[i][j]; if (l[j] == '?') { l[j] = (char)vf_u8(); ASSUME(l[j] != 0); ASSUME(l[j] != '\n'); } }
    l[j] = 0;
    sh_line(l);
    rob_end();
}
static const char *rob_s[] = {
    "(\n??\n)\n", "(\n(?\n?)\n", "echo a^\n??\n", "if 1==1 (\n??\n) else echo c\n", "if 1==2 (\nb\n??) else echo c\n", "if 1==1 (\necho a\n)??\necho d\n", "if [\n??]\n",
    "for %%a in (x y) do (\n??\n)\n", "for %%a in (x\ny??\n) do echo %%a\n", "for %%a in (x y) do echo %%~??a\n", "for /f %%a in (f) do echo %%??\n",
    "goto a\n??\n:a\necho b\n", "goto ??\n:a\n:b\n", "call :a ??\ngoto :eof\n:a\necho %1 %~1 %*\n", "call :a x\ngoto :eof\n:a\necho %~??1\n", "call :a \"?\" ?\nexit /b\n:a\nshift\necho %0 %1 %+\n",
    "def qqq=(\n??\n)\nqqq b\n", "def a=echo $?$?\na x y\n", "setlocal\n??\n", "pushd .\n??\npopd\n", "@??\n\na\n", ":??\n::?\nrem?\n", "set a=??\necho %a% !a!\n", "set \"a?=?\necho %a% !a!\n",
    "set a=??\nif !a!==x echo y\nfor %%b in (!a!) do echo %%b\n", "set a=??\n!a!\n", "set a=??\nset /a b=a+1\n", "set a=??\ncall :c !a!\ngoto :eof\n:c\necho %1\n", "\xef\xbb\xbf??\n", "??", "?\r\n?\r\n",
};
void h_rob_script(void)
{
    char l[128]; int i, j, n = sizeof rob_s / sizeof *rob_s;
    rob_begin();
    sh_writen("f", "x y\nz\n", 6);
    i = vf_pick(0, n - 1);
#ifdef ONLYT
    ASSUME(i == ONLYT);
#endif
    for (j = 0; rob_s[i][j]; j++) { l[j] = rob_s[i][j]; if (l[j] == '?') { l[j] = (char)vf_u8(); ASSUME(l[j] != 0); } }
    l[j] = 0;
    sh_script(l);
    rob_end();
}
#ifndef NT
#define NT 3
#endif
/* a whole script of NT bytes */
void h_rob_text(void)
{
    char l[NT + 2]; int i;
    rob_begin();
    for (i = 0; i < NT; i++) { l[i] = (char)vf_u8(); }
    sh_writen("t.bat", l, vf_pick(0, NT));
    strcpy(ifIn.lpFileName, "t.bat"); ifIn.iPos = 0; ifIn.bEof = FALSE; *(ifIn.batch.name) = 0;
    bIsScript = 1;
    pBat_RunBatch(&ifIn);
    rob_end();
}
