/* the part of <windows.h> that libcu8 uses, and stand-ins (prefix w_) for the functions of the C library a check has to observe; defined in harness/p_cu8.c */
#ifndef W_WINDOWS_H
#define W_WINDOWS_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <stdarg.h>
#include <stdint.h>
#include <errno.h>
#include <wchar.h>
#include <unistd.h>
#define __cdecl
#define __declspec(x)
#define WINAPI
#define TRUE 1
#define FALSE 0
typedef int BOOL, INT, *LPINT, *LPBOOL; typedef unsigned DWORD, UINT, ULONG, LCID, *LPDWORD, *PULONG, *PDWORD; typedef unsigned short WORD, WCHAR; typedef short SHORT; typedef unsigned char BYTE, BOOLEAN, *LPBYTE;
typedef long LONG, HRESULT; typedef uintptr_t DWORD_PTR; typedef char CHAR, *LPSTR; typedef const char *LPCSTR; typedef wchar_t *LPWSTR; typedef const wchar_t *LPCWSTR; typedef void *PVOID, *LPVOID, *HANDLE, *HMODULE; typedef void (*FARPROC)(void);
typedef long long __int64, __time64_t; typedef int __time32_t; typedef unsigned _fsize_t;
typedef struct { int x; } CRITICAL_SECTION;
typedef struct { short X, Y; } COORD;
typedef struct { short Left, Top, Right, Bottom; } SMALL_RECT;
typedef struct { COORD dwSize, dwCursorPosition; WORD wAttributes; SMALL_RECT srWindow; COORD dwMaximumWindowSize; } CONSOLE_SCREEN_BUFFER_INFO;
typedef struct { DWORD dwSize; BOOL bVisible; } CONSOLE_CURSOR_INFO;
typedef struct { BOOL bKeyDown; WORD wRepeatCount, wVirtualKeyCode, wVirtualScanCode; union { WCHAR UnicodeChar; CHAR AsciiChar; } uChar; DWORD dwControlKeyState; } KEY_EVENT_RECORD;
typedef struct { WORD EventType; union { KEY_EVENT_RECORD KeyEvent; } Event; } INPUT_RECORD;
typedef struct { UINT MaxCharSize; BYTE DefaultChar[2], LeadByte[12]; } CPINFO;
typedef struct { DWORD dwFileAttributes; wchar_t cFileName[260]; } WIN32_FIND_DATAW;
#define KEY_EVENT 1
#define VK_END 0x23
#define VK_HOME 0x24
#define VK_LEFT 0x25
#define VK_UP 0x26
#define VK_RIGHT 0x27
#define VK_DOWN 0x28
#define VK_DELETE 0x2E
#define S_OK 0
#define TEXT(x) x
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)
#define STD_INPUT_HANDLE ((DWORD)-10)
#define STD_OUTPUT_HANDLE ((DWORD)-11)
#define STD_ERROR_HANDLE ((DWORD)-12)
#define HANDLE_FLAG_INHERIT 1
#define MB_ERR_INVALID_CHARS 8
#define WC_NO_BEST_FIT_CHARS 0x400
#define ERROR_INSUFFICIENT_BUFFER 122
#define ERROR_NO_MORE_FILES 18
#define EnterCriticalSection(x) ((void)(x))
#define LeaveCriticalSection(x) ((void)(x))
#define InitializeCriticalSection(x) ((void)(x))
#define LoadLibrary(x) ((HMODULE)0)
#define GetProcAddress(h, n) ((FARPROC)0)
DWORD GetLastError(void); UINT GetACP(void); BOOL IsValidCodePage(UINT), GetCPInfo(UINT, CPINFO *), IsDBCSLeadByteEx(UINT, BYTE);
int MultiByteToWideChar(UINT, DWORD, LPCSTR, int, LPWSTR, int), WideCharToMultiByte(UINT, DWORD, LPCWSTR, int, LPSTR, int, LPCSTR, LPBOOL);
HANDLE GetStdHandle(DWORD), FindFirstFileW(LPCWSTR, WIN32_FIND_DATAW *); BOOL FindNextFileW(HANDLE, WIN32_FIND_DATAW *), FindClose(HANDLE), CloseHandle(HANDLE), SetHandleInformation(HANDLE, DWORD, DWORD);
BOOL WriteConsoleW(HANDLE, const void *, DWORD, LPDWORD, void *), WriteConsole(HANDLE, const void *, DWORD, LPDWORD, void *), ReadConsoleInputW(HANDLE, INPUT_RECORD *, DWORD, LPDWORD), GetConsoleScreenBufferInfo(HANDLE, CONSOLE_SCREEN_BUFFER_INFO *), SetConsoleCursorPosition(HANDLE, COORD), SetConsoleCursorInfo(HANDLE, const CONSOLE_CURSOR_INFO *), FillConsoleOutputCharacterW(HANDLE, WCHAR, DWORD, COORD, LPDWORD);
intptr_t _get_osfhandle(int); int *_errno(void);
size_t w_wcslen(const wchar_t *); FILE *w_wfopen(const wchar_t *, const wchar_t *); int w_fileno(FILE *), w_isatty(int), w_feof(FILE *), w_ferror(FILE *), w_fflush(FILE *), w_fseek(FILE *, long, int), w_vsnprintf(char *, size_t, const char *, va_list), w_vscprintf(const char *, va_list), w_vsnprintf99(char *, size_t, const char *, va_list);
size_t w_fread(void *, size_t, size_t, FILE *), w_fwrite(const void *, size_t, size_t, FILE *); int w_dup(int), w_dup2(int, int);
#define wcslen w_wcslen
#define fileno w_fileno
#define _fileno w_fileno
#define isatty w_isatty
#define _isatty w_isatty
#undef feof
#define feof w_feof
#undef ferror
#define ferror w_ferror
#define fread w_fread
#define fwrite w_fwrite
#define _vsnprintf w_vsnprintf
#define _vscprintf w_vscprintf
#define vsnprintf w_vsnprintf99
#define _dup w_dup
#define _dup2 w_dup2
#define _wfopen w_wfopen
#define _stricmp strcasecmp
#define _strnicmp strncasecmp
#define fflush w_fflush
#define fseek w_fseek
#endif
#ifndef _O_CREAT
#define _O_CREAT 0x100
#endif
