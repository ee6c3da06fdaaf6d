/* Boots the real interpreter the way main() does and runs lines or scripts
   through it; standard output and error are captured in files. */
#ifndef SH_H
#define SH_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <libpBat.h>
#include "pBat_Core.h"
#include "../errors/pBat_Errors.h"
#include "../init/pBat_Init.h"
#include "../command/pBat_Commands.h"
#include "../command/pBat_CommandInfo.h"
#include "vf.h"
extern char **environ;
static char *sh_env[] = { (char *)"PATH=/nonexistent", (char *)"HOME=/w", 0 };
static char sh_outb[4096], sh_errb[4096];
static int sh_n;
static void sh_boot(void)
{
    int fd;
    environ = sh_env;
    fd = open("_out", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644); dup2(fd, 1); close(fd);
    fd = open("_err", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644); dup2(fd, 2); close(fd);
    signal(SIGPIPE, SIG_IGN);
    fd = open("_in", O_RDWR | O_CREAT, 0644); dup2(fd, 0); close(fd);
    pBat_Init();
    pErrorHandler = pBat_Exit;
    pBat_DuplicateStdStreams();
    pBat_CreateMutex(&mThreadLock); pBat_CreateMutex(&mSetLock); pBat_CreateMutex(&mRunFile);
    pBat_CreateMutex(&mEchoLock); pBat_CreateMutex(&mModLock); pBat_CreateMutex(&mLineNoise);
    { char c; for (c = '1'; c <= '9'; c++) pBat_SetLocalVar(lpvArguments, c, ""); }
    pBat_SetLocalVar(lpvArguments, '0', "");
    lpclCommands = pBat_MapCommandInfo(lpCmdInfo, iCmdInfoNb);
    bEchoOn = FALSE;
}
static void sh_write(const char *name, const char *data) { int fd = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0644); write(fd, data, strlen(data)); close(fd); }
static void sh_writen(const char *name, const char *data, int n) { int fd = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0644); write(fd, data, n); close(fd); }
/* content of a file, -1 when it does not exist */
static int sh_read(const char *name, char *b, int cap) { int fd = open(name, O_RDONLY), n; if (fd < 0) { b[0] = 0; return -1; } n = read(fd, b, cap - 1); close(fd); if (n < 0) n = 0; b[n] = 0; return n; }
static char *sh_out(void) { fflush(fOutput); fflush(_fOutput); sh_n = sh_read("_out", sh_outb, sizeof sh_outb); return sh_outb; }
static char *sh_err(void) { fflush(fError); fflush(_fError); sh_read("_err", sh_errb, sizeof sh_errb); return sh_errb; }
static void sh_clear(void) { int fd; fflush(fOutput); fflush(fError); fd = open("_out", O_WRONLY | O_TRUNC); close(fd); fd = open("_err", O_WRONLY | O_TRUNC); close(fd); }
static int sh_line(const char *l) { ESTR *e = pBat_EsInit(); int r; pBat_EsCpy(e, l); r = pBat_RunLine(e); pBat_EsFree(e); return r; }
static void sh_setenv(const char *n, const char *v) { pBat_SetEnv(lpeEnv, n, v); }
static const char *sh_getenv(const char *n) { return pBat_GetEnv(lpeEnv, n); }
/* runs a script file with the given text through the script reader */
static void sh_script(const char *text) {
    sh_write("t.bat", text);
    strcpy(ifIn.lpFileName, "t.bat"); ifIn.iPos = 0; ifIn.bEof = FALSE; *(ifIn.batch.name) = 0;
    bIsScript = 1;
    pBat_RunBatch(&ifIn);
}
#endif
