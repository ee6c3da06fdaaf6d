From fa278e599029898122123a2e1dbf64041797dac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 001/115] fix: declare strerror and strchr, their results were
 truncated to int

---
 pbat/errors/pBat_Errors.c | 1 +
 pbat/lang/pBat_ShowHelp.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pbat/errors/pBat_Errors.c b/pbat/errors/pBat_Errors.c
index 5753112..a4bd9b1 100644
--- a/pbat/errors/pBat_Errors.c
+++ b/pbat/errors/pBat_Errors.c
@@ -20,6 +20,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <errno.h>
 
 #include <libpBat.h>
diff --git a/pbat/lang/pBat_ShowHelp.c b/pbat/lang/pBat_ShowHelp.c
index 5a83b3e..947d2c8 100644
--- a/pbat/lang/pBat_ShowHelp.c
+++ b/pbat/lang/pBat_ShowHelp.c
@@ -19,6 +19,7 @@
  */
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <libpBat.h>
 
-- 
2.43.0


From f7c56c679467b8fb585b04c7874c871512f027e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 002/115] fix: a command line that expands to nothing was
 retried for ever

---
 pbat/core/pBat_Run.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 63f51fc..b9c1876 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -605,9 +605,15 @@ int pBat_RunExternalCommand(char* lpCommandLine, int* error)
 
     size_t nb=0;
 
-    if ((list = pBat_GetParamList(lpCommandLine)) == NULL)
+    if ((list = pBat_GetParamList(lpCommandLine)) == NULL) {
+
+        /* nothing to run (ie. the line expanded to nothing) */
+        *error = 0;
+        pBat_EsFree_Cached(lpCmdLine);
         return 0;
 
+    }
+
     item = list;
 
     while (item) {
-- 
2.43.0


From a6f054d272b84fe6eaf9066582f66f7729b0e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 003/115] fix: input redirection reused data buffered from, or
 the end of file of, the previous input

---
 pbat/core/pBat_Stream.h | 52 +++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/pbat/core/pBat_Stream.h b/pbat/core/pBat_Stream.h
index 2dc1805..54dc406 100644
--- a/pbat/core/pBat_Stream.h
+++ b/pbat/core/pBat_Stream.h
@@ -52,19 +52,19 @@
 
 #define STREAM_MODE_ADD 0
 #define STREAM_MODE_TRUNCATE 0xffffffff
-
-
-/* On windows, 0 is an invalid argument to setvbuf() */
-#ifdef WIN32
-#define PBAT_DEF_BUF 256
-#else
-#define PBAT_DEF_BUF 0
-#endif
+
+
+/* On windows, 0 is an invalid argument to setvbuf() */
+#ifdef WIN32
+#define PBAT_DEF_BUF 256
+#else
+#define PBAT_DEF_BUF 0
+#endif
 
 #define PBAT_RESET_BUFFERING(fd, s) \
             if (isatty(fd)) \
-                setvbuf(s, NULL, _IONBF, 0); \
-            else \
+                setvbuf(s, NULL, _IONBF, 0); \
+            else \
                 setvbuf(s, NULL, _IOFBF, PBAT_DEF_BUF)
 
 #define __PBAT_DUP_STD(fd, s) \
@@ -73,22 +73,28 @@
                                         | PBAT_PRINT_C_ERROR, \
                                             __FILE__ "/PBAT_DUP_STD()", -1);
 
-#define PBAT_DUP_STD(fd, s) \
+#define PBAT_DUP_STD(fd, s) \
             fflush(s);\
             __PBAT_DUP_STD(fd, s) \
             PBAT_RESET_BUFFERING(fd, s)
-
-/* The trick here is that ftell(s) takes account of buffering situation so that
-   fseek can set positions accurately, but however, the FILE structure does not
-   contains any absolute counter for file pos.
-
-   Hence here we reset the postion of the file descriptor and then use fflush()
-   to clear any buffering information still in the FILE */
-#define PBAT_DUP_STDIN(fd, s) \
-            if (!isatty(fileno(s))) \
-                lseek(fileno(s), ftell(s), SEEK_SET); \
-            fflush(s); \
-            __PBAT_DUP_STD(fd, s) \
+
+/* The trick here is that ftell(s) takes account of buffering situation so that
+   fseek can set positions accurately, but however, the FILE structure does not
+   contains any absolute counter for file pos.
+
+   Hence here we use fflush() to clear any buffering information still in the
+   FILE and then reset the postion of the file descriptor. The position must be
+   set after fflush(), since fflush() may move it relatively to where it stands.
+   The end of file indicator belongs to the previous file, so clear it. */
+#define PBAT_DUP_STDIN(fd, s) \
+            do { \
+                long __pos = isatty(fileno(s)) ? -1 : ftell(s); \
+                fflush(s); \
+                if (__pos != -1) \
+                    lseek(fileno(s), __pos, SEEK_SET); \
+            } while (0); \
+            __PBAT_DUP_STD(fd, s) \
+            clearerr(s); \
             PBAT_RESET_BUFFERING(fd, s)
 
 #define PBAT_XDUP(fd, s) \
-- 
2.43.0


From 1f93d520bea1fd1566a4f94ab8765e87d5c9dcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 004/115] fix: substring of a variable from the end was lost,
 and huge lengths read out of bounds

---
 pbat/core/pBat_Var.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index fff0263..9638732 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -234,7 +234,7 @@ int pBat_GetVar(char* lpName, ESTR* lpRecieve)
 
             if (iLen > 0) {
 
-                if ( (iTotalLen+iBegin) >= iLen)
+                if ( iLen <= -(long)iBegin )
                     iBegin = iTotalLen + iBegin;
 
             } else {
@@ -257,7 +257,7 @@ int pBat_GetVar(char* lpName, ESTR* lpRecieve)
 
 		} else if (iLen > 0) {
 
-			if ((iBegin+iLen)<= iTotalLen) {
+			if (iLen <= iTotalLen-iBegin) {
 				/* if the strings is right */
 
 #ifdef PBAT_USE_LIBCU8
@@ -276,7 +276,7 @@ int pBat_GetVar(char* lpName, ESTR* lpRecieve)
 
 		} else if (iLen <= 0) {
 
-			if (abs(iLen) <= iTotalLen-iBegin) {
+			if (iLen >= iBegin-iTotalLen) {
 
 				/* if the string is right too
 				   but the lenght given is negative, such as -3
-- 
2.43.0


From 65966b988c57c0ed651216a9426fd8a1f12137d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 005/115] fix: replacing an empty string in a variable never
 ended

---
 pbat/core/pBat_Var.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index 9638732..92e1f1e 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -303,7 +303,7 @@ int pBat_GetVar(char* lpName, ESTR* lpRecieve)
 
 	pBat_EsCpy(lpRecieve, lpVarContent);
 
-	if (iVarState==1) {
+	if (iVarState==1 && *lpToken) {
 
 		/* FIXME : This should be case insensitive */
 		pBat_EsReplace(lpRecieve, lpToken, lpNextToken);
-- 
2.43.0


From 0cf51ffe30519445e189109ec5d06861774269f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 006/115] fix: IF ERRORLEVEL crashed, the error level is no
 environment variable

---
 pbat/command/pBat_If.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_If.h b/pbat/command/pBat_If.h
index 16c279e..942e105 100644
--- a/pbat/command/pBat_If.h
+++ b/pbat/command/pBat_If.h
@@ -55,7 +55,7 @@
     ret = (pBat_GetEnv(env, var) != NULL);
 
 #define PBAT_IF_ERRORLEVEL_TEST(ret, val, env) \
-    ret = !stricmp(val, pBat_GetEnv(env, "ERRORLEVEL"));
+    ret = (iErrorLevel >= strtol(val, NULL, 10));
 
 int pBat_PerformExtendedTest(const char* lpCmp, const char* lpParam1, const char* lpParam2, int iFlag);
 
-- 
2.43.0


From 48a1835e820b54c5a22756d9778124a70a8c70ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 007/115] fix: IF NOT was ignored in front of EQU, NEQ, LSS and
 the like

---
 pbat/command/pBat_If.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 6bb22fc..843e03e 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -295,10 +295,14 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
                 if (iResult == -1) {
 
                     /* there is a syntax error, obviously */
+                    pBat_EsFree_Cached(lpComparison);
                     return -1;
 
                 }
 
+				if (iFlag & PBAT_IF_NEGATION)
+                    iResult=!iResult;
+
 
 			}
 		} else {
-- 
2.43.0


From 17cdfaf9196afc5d1c8fb8a17178a4fa27adf73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 008/115] fix: IF == read outside of its argument when a side
 was missing or unquoted

---
 pbat/command/pBat_If.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 843e03e..378bc99 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -241,7 +241,7 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 				*/
 				char *q = (lpToken2 + strlen(lpToken2) - 1);
 
-				if (*q == '"') {
+				if (*lpToken2 && *q == '"' && *lpToken == '"') {
 					*q = '\0';
 					lpToken++;
 				}
-- 
2.43.0


From f2f3115c189a1286087aa7a6bbbd11ea4362a796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 009/115] fix: IF took empty strings and words such as nan for
 numbers

---
 pbat/command/pBat_If.c | 43 ++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 378bc99..c6b73b8 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -441,29 +441,34 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 /* Get the value from the chain pointed to by *number and return a value
    based on mode based on mode :
         1 -> double
-        0 -> int */
-int pBat_GetCmpValue(const char* number, double* value)
+        0 -> int
+
+   Returns -1 if number is not a number of that kind. */
+int pBat_GetCmpValue(const char* number, double* value, int f)
 {
-    int val;
+    long long val;
     char* end;
-    int f=0;
 
-    while (1) {
+    if (f == 0) {
+
+        val = strtoll(number, &end, 0);
+        *value = (double)val;
+
+        if (val < -2147483647LL - 1 || val > 2147483647LL)
+            return -1;
 
-        if (f == 0)
-            *value = (double)strtol(number, &end, 0);
-        else /* Double mode chosen */
-            *value = strtod(number, &end);
+    } else { /* Double mode chosen */
 
-        if (*pBat_SkipBlanks(end) != '\0'){
-            if (f == 0)
-                f = 1;
-            else
-                return  -1;
-        } else
-            return 0;
+        /* words such as ``inf'' or ``nan'' are no numbers */
+        if (number[strspn(number, " \t+-.")] < '0'
+            || number[strspn(number, " \t+-.")] > '9')
+            return -1;
+
+        *value = strtod(number, &end);
 
     }
+
+    return (end == number || *pBat_SkipBlanks(end) != '\0') ? -1 : 0;
 }
 
 /* Performs an extended test for the if command (ie. for 'EQU' and so on ...)
@@ -498,8 +503,10 @@ int pBat_PerformExtendedTest(const char* lpCmp, const char* lpParam1,
 
     /* Get the value of the left and right hand side of the
        comparison */
-    if (pBat_GetCmpValue(lpParam1, &rhs)
-        || pBat_GetCmpValue(lpParam2, &lhs)) {
+    if ((pBat_GetCmpValue(lpParam1, &rhs, 0)
+            || pBat_GetCmpValue(lpParam2, &lhs, 0))
+        && (pBat_GetCmpValue(lpParam1, &rhs, 1)
+            || pBat_GetCmpValue(lpParam2, &lhs, 1))) {
 
         /* If we get here, do something clever, that is,
            set left hand side to 0 and right hand side to
-- 
2.43.0


From 9651305d6da75a67e11b21afd083f767006ed4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 010/115] fix: IF [ ] gave OR precedence over AND and could
 skip the right side of AND

---
 pbat/command/pBat_IfExp.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index cce9da2..1805ff3 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -134,10 +134,10 @@ int pBat_IfExp_Evaluate(ifexp_t* exp, int flags)
 
     /* take a shortcut here, on some occasions you don't have to
        evaluate the left hand side of the expression */
-    if (exp->type == IFEXP_AND )
+    if (exp->type == IFEXP_AND ) {
         if (!res1)
             return 0;
-    else if (res2)
+    } else if (res1)
         return 1;
 
     if (exp->child2.type == IFEXP_NODE_OPS) {
@@ -237,23 +237,24 @@ ifexp_t* pBat_IfExp_Parse(ifexp_line_t* line)
     if (!(exp = malloc(sizeof(ifexp_t))))
         return NULL;
 
-    if (pBat_IfExp_Cut("AND", &line, &rhs)) {
+    /* AND owns precedence over OR, thus cut at OR first */
+    if (pBat_IfExp_Cut("OR", &line, &rhs)) {
 
         if (line == NULL || rhs == NULL)
             goto error;
 
-        exp->type = IFEXP_AND;
+        exp->type = IFEXP_OR;
 
         pBat_IfExp_FillChild(&(exp->child1), line);
         pBat_IfExp_FillChild(&(exp->child2), rhs);
 
 
-    } else if (pBat_IfExp_Cut("OR", &line, &rhs)) {
+    } else if (pBat_IfExp_Cut("AND", &line, &rhs)) {
 
         if (line == NULL || rhs == NULL)
             goto error;
 
-        exp->type = IFEXP_OR;
+        exp->type = IFEXP_AND;
 
         pBat_IfExp_FillChild(&(exp->child1), line);
         pBat_IfExp_FillChild(&(exp->child2), rhs);
-- 
2.43.0


From af39966cb1c463626f70c7ecb69d0f3ce653c901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 011/115] fix: a malformed IF [ ] expression used freed memory

---
 pbat/command/pBat_IfExp.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index 1805ff3..1191c9f 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -172,6 +172,9 @@ int pBat_IfExp_ExecuteTest(ifexp_line_t* test, int flags)
 
     FILELIST* files;
 
+    if (test == NULL)
+        return -1;
+
     if (!stricmp(test->op->str, "NOT")) {
 
         neg = 1;
@@ -270,6 +273,8 @@ ifexp_t* pBat_IfExp_Parse(ifexp_line_t* line)
     return exp;
 
 error:
+    pBat_IfExp_FreeLine(line);
+    pBat_IfExp_FreeLine(rhs);
     free(exp);
     return NULL;
 }
@@ -285,7 +290,8 @@ void pBat_IfExp_FillChild(ifexp_child_t* child, ifexp_line_t* line)
 
     } else {
 
-        child->child.ops = line;
+        /* that part is missing */
+        child->child.ops = NULL;
         child->type = IFEXP_NODE_OPS;
 
     }
@@ -335,6 +341,10 @@ int pBat_IfExp_SuppressOneBracketPair(ifexp_line_t** line)
     }
 
 
+    /* there is no matching bracket */
+    if (count != 0)
+        return 0;
+
     /* free the last bracket */
     prev->next = NULL;
     pBat_EsFree_Cached(ops->op);
@@ -362,6 +372,8 @@ int pBat_IfExp_Cut(char* tok, ifexp_line_t** begin, ifexp_line_t** end)
         pBat_EsFree_Cached(line->op);
         free (line);
 
+        return 1;
+
     }
 
     if (EQUCHR(line->op->str, '['))
@@ -425,6 +437,15 @@ char * pBat_IfExp_ParseLine(char* line, ifexp_line_t** ops)
 
     }
 
+    if (line == NULL) {
+
+        /* brackets do not match */
+        pBat_EsFree_Cached(str);
+        pBat_IfExp_FreeLine(ret);
+        ret = NULL;
+
+    }
+
     *ops = ret;
 
     return line;
-- 
2.43.0


From 3ba00ee1437ed8abb639c16e5ac7ed366cc69dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 012/115] fix: variables were not found after one was deleted,
 and locals among lowercase names

---
 pbat/core/pBat_Env.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index f598f00..8039862 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -25,6 +25,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <ctype.h>
 
 #include "../errors/pBat_Errors.h"
 #include "pBat_Core.h"
@@ -37,7 +38,7 @@ int pBat_EnvCompName(const void* p1, const void* p2)
     ENVVAR *pVar1=*((ENVVAR**)p1), *pVar2=*((ENVVAR**)p2);
 
     if ((pVar1->name == NULL) || (pVar2->name == NULL))
-        return pVar2->name - pVar1->name;
+        return (pVar1->name == NULL) - (pVar2->name == NULL);
 
     return stricmp(pVar1->name, pVar2->name);
 }
@@ -49,7 +50,8 @@ int pBat_EnvCompLocal(const void* p1, const void* p2)
     if ((pVar2->name == NULL))
         return - PBAT_ENV_LOCAL_PREFIX;
 
-    return *(pVar2->name) - PBAT_ENV_LOCAL_PREFIX;
+    /* this is the order of stricmp() */
+    return PBAT_ENV_LOCAL_PREFIX - tolower((unsigned char)*(pVar2->name));
 }
 
 #define PBAT_ENV_BLOCK_MASK 0x7F
-- 
2.43.0


From 415671576dbe43f9970e8edcff06473ef60e17d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 013/115] fix: SET did not delete a variable whose name was
 followed by blanks

---
 pbat/core/pBat_Env.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 8039862..4d4d5a8 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -360,11 +360,22 @@ error:
 void  pBat_UnSetEnv(ENVBUF* pEnv, char* name)
 {
     ENVVAR **pRes,
-            key={name, NULL},
+            key={NULL, NULL},
             *pKey = &key;
 
+    /* the name is adjusted as it is when the variable is set */
+    if (!(key.name = strdup(name)))
+        pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
+                                __FILE__ "/pBat_UnSetEnv()",
+                                -1
+                                );
+
+    pBat_AdjustVarName(key.name);
+
     pRes = bsearch(&pKey, pEnv->envbuf, pEnv->index, sizeof(ENVVAR*), pBat_EnvCompName);
 
+    free(key.name);
+
     /* Do not let local variables used by previous contexts be freed */
     if (pRes &&
         ((*pRes)->previous) == NULL) {
-- 
2.43.0


From dce03e5adec36a58472af656a5bad96cd05282c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 014/115] fix: values from the environment lost their trailing
 blanks, and names kept them

---
 pbat/core/pBat_Env.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 4d4d5a8..e853c87 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -195,10 +195,10 @@ error:
 
         }
 
-        pBat_AdjustVarName(pStr);
-
         *(pCh++) = '\0';
 
+        pBat_AdjustVarName(pStr);
+
         pBuf[nb] = pBat_AllocEnvVar(pStr, pCh);
 
         free(pStr);
-- 
2.43.0


From 70b75b3473c070e859cf1338d30d2413471b0601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 015/115] fix: a new local variable could inherit the mark of a
 deleted one

---
 pbat/core/pBat_Env.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index e853c87..f5f0202 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -317,7 +317,7 @@ error:
 
         (*pRes)->name = namecpy;
         (*pRes)->previous = NULL;
-        (*pRes)->inherit |= inherit;
+        (*pRes)->inherit = inherit;
 
     } else {
 
-- 
2.43.0


From 6233388c2afff3d5e15cf1ce002306cd8aa21277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 016/115] fix: ENDLOCAL leaked the environment it discarded

---
 pbat/core/pBat_Env.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index f5f0202..306aa22 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -409,6 +409,7 @@ void pBat_EnvFree(ENVBUF* pEnv)
     }
 
     free(pEnv->envbuf);
+    free(pEnv);
 }
 
 void pBat_ApplyEnv(ENVBUF* pEnv)
-- 
2.43.0


From f4678b492da75961e2dd244bb44e1a4b121ee275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 017/115] fix: SET listed deleted variables as (null)=(null)

---
 pbat/command/pBat_Set.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 8443b6c..07d32d6 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -203,9 +203,8 @@ int pBat_CmdSet(char *lpLine)
 		   which match with the prefix (if defined)
 		*/
 		for (i=0; i < lpeEnv->index; i++) {
-			if (*lpLine == '\0'
-                || ((lpeEnv->envbuf[i]->name != NULL)
-                    && !strnicmp(lpeEnv->envbuf[i]->name, lpLine, strlen(lpLine)))) {
+			if (lpeEnv->envbuf[i]->name != NULL
+                && !strnicmp(lpeEnv->envbuf[i]->name, lpLine, strlen(lpLine))) {
 
 				found = TRUE;
 
-- 
2.43.0


From 35428248c894917d0c051568de5c05f6f84d1309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 018/115] fix: ENDLOCAL did not restore the options changed by
 SETLOCAL

---
 pbat/command/pBat_Setlocal.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Setlocal.c b/pbat/command/pBat_Setlocal.c
index 3ed91e5..3d09de0 100644
--- a/pbat/command/pBat_Setlocal.c
+++ b/pbat/command/pBat_Setlocal.c
@@ -60,6 +60,8 @@ int pBat_CmdSetLocal(char* lpLine)
 	char lpName[FILENAME_MAX];
 	char* lpNext=lpLine+8;
 	int push = 1,
+        bDelayed = bDelayedExpansion,
+        bCmdly = bCmdlyCorrect,
         status = PBAT_NO_ERROR;
 
 	while ((lpNext=pBat_GetNextParameter(lpNext, lpName, FILENAME_MAX))) {
@@ -75,16 +77,16 @@ int pBat_CmdSetLocal(char* lpLine)
 
         } else if (!stricmp(lpName, "ENABLEDELAYEDEXPANSION")) {
 
-			bDelayedExpansion=TRUE;
+			bDelayed=TRUE;
 
 		} else if (!stricmp(lpName, "DISABLEDELAYEDEXPANSION")) {
 
-			bDelayedExpansion=FALSE;
+			bDelayed=FALSE;
 
 		} else if (!stricmp(lpName, "CMDLYCORRECT")) {
 
 #if !defined(PBAT_STATIC_CMDLYCORRECT)
-			bCmdlyCorrect=TRUE;
+			bCmdly=TRUE;
 #else
 			pBat_ShowErrorMessage(PBAT_UNABLE_SET_OPTION,
 						"CMDLYCORRECT",
@@ -95,7 +97,7 @@ int pBat_CmdSetLocal(char* lpLine)
 #endif
 		} else if (!stricmp(lpName, "CMDLYINCORRECT")) {
 #if !defined(PBAT_STATIC_CMDLYCORRECT)
-			bCmdlyCorrect=FALSE;
+			bCmdly=FALSE;
 #else
 			pBat_ShowErrorMessage(PBAT_UNABLE_SET_OPTION,
 						"CMDLYINCORRECT",
@@ -127,6 +129,11 @@ int pBat_CmdSetLocal(char* lpLine)
 	if (push)
         pBat_PushEnvStack();
 
+	/* only change options once they have been saved, so that ENDLOCAL
+	   can restore them */
+	bDelayedExpansion = bDelayed;
+	bCmdlyCorrect = bCmdly;
+
 	return iErrorLevel;
 }
 
-- 
2.43.0


From daf41a557cbdb64a38dd517484732e9a46b4aee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 019/115] fix: ENDLOCAL inside of a CALL reverted a SETLOCAL of
 the caller

---
 pbat/command/pBat_Call.c  | 8 ++++++++
 pbat/core/pBat_EnvStack.c | 2 +-
 pbat/core/pBat_Globals.c  | 1 +
 pbat/core/pBat_Globals.h  | 1 +
 4 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index caac732..9f1c79b 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -236,6 +236,7 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 	LOCAL_VAR_BLOCK* lpvOldBlock;
 	LOCAL_VAR_BLOCK lpvTmpBlock[LOCAL_VAR_BLOCK_SIZE]={NULL};
 	LOCAL_VAR_BLOCK* lpvOldArgs;
+	ENVSTACK* lpesOldScope;
 	LOCAL_VAR_BLOCK lpvTmpArgs[LOCAL_VAR_BLOCK_SIZE]={NULL};
 	char lpAbsPath[FILENAME_MAX];
 	int status = PBAT_NO_ERROR;
@@ -358,10 +359,17 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 
     /* Save echo state of the caller */
 
+	/* ENDLOCAL can only revert what is saved inside of this CALL */
+
+	lpesOldScope = lpesEnvScope;
+	lpesEnvScope = lpesEnv;
+
 	/* run the  command */
 
 	pBat_RunBatch(&ifIn);
 
+	lpesEnvScope = lpesOldScope;
+
     bAbortCommand=FALSE;
 
 	/* restore the stream stack */
diff --git a/pbat/core/pBat_EnvStack.c b/pbat/core/pBat_EnvStack.c
index 7c95f98..b89eeed 100644
--- a/pbat/core/pBat_EnvStack.c
+++ b/pbat/core/pBat_EnvStack.c
@@ -44,7 +44,7 @@ void pBat_PopEnvStack(void)
 {
     ENVSTACK* item;
 
-    if (lpesEnv == NULL)
+    if (lpesEnv == NULL || lpesEnv == lpesEnvScope)
         return;
 
     item = lpesEnv;
diff --git a/pbat/core/pBat_Globals.c b/pbat/core/pBat_Globals.c
index 6bb20d6..dd4fc08 100644
--- a/pbat/core/pBat_Globals.c
+++ b/pbat/core/pBat_Globals.c
@@ -86,6 +86,7 @@ __thread FILE *fError, *_fError; /* current thread error stream */
 
 __thread ENVBUF* lpeEnv;
 __thread ENVSTACK* lpesEnv = NULL;
+__thread ENVSTACK* lpesEnvScope = NULL;
 __thread INPUT_FILE ifIn;
 __thread char lpCurrentDir[FILENAME_MAX];
 __thread ESTRCACHE ecEstrCache; /* ESTR cache */
diff --git a/pbat/core/pBat_Globals.h b/pbat/core/pBat_Globals.h
index 86f6248..00f8a1f 100644
--- a/pbat/core/pBat_Globals.h
+++ b/pbat/core/pBat_Globals.h
@@ -77,6 +77,7 @@ extern __thread FILE *fInput; /* current thread input stream */
 extern __thread FILE *fOutput, *_fOutput; /* current thread output stream */
 extern __thread FILE *fError, *_fError; /* current thread error stream */
 extern __thread ENVSTACK* lpesEnv;
+extern __thread ENVSTACK* lpesEnvScope; /* what ENDLOCAL can not revert inside of a CALL */
 extern __thread char lpCurrentDir[FILENAME_MAX]; /* current path */
 extern __thread ESTRCACHE ecEstrCache; /* ESTR cache */
 
-- 
2.43.0


From 11ec01ec6a2dba6e057d5f2b9ef7e7a4cddd1b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 020/115] fix: 2>&1 or 1>&2 around a command overrode the
 redirections of that command

---
 pbat/core/pBat_Run.c    |  4 ++--
 pbat/core/pBat_Stream.c | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index b9c1876..0fd859f 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -286,7 +286,7 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 		                -1,
 		                -1
 		               );
-        fError = _fOutput;
+        fError = fOutput;
         break;
 
     case PARSED_STREAM_STDOUT2STDERR:
@@ -294,7 +294,7 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 		                -1 ,
 		                -1
 		               );
-        fOutput = _fError;
+        fOutput = fError;
 
     }
 
diff --git a/pbat/core/pBat_Stream.c b/pbat/core/pBat_Stream.c
index 5f62265..648360a 100644
--- a/pbat/core/pBat_Stream.c
+++ b/pbat/core/pBat_Stream.c
@@ -78,6 +78,21 @@ STREAMSTACK* pBat_OpenOutput(STREAMSTACK* stack, char* name, int fd, int mode)
     int newfd, fmode;
     STREAMSTACK* item;
 
+    /* If the other output stream is merged into the one about to be
+       redirected (2>&1 or 1>&2 on an enclosing block), it has to remain
+       where it is. */
+    if (fd == PBAT_STDOUT && fError == _fOutput) {
+
+        stack = pBat_OpenOutputD(stack, fileno(_fOutput), PBAT_STDERR);
+        fError = _fError;
+
+    } else if (fd == PBAT_STDERR && fOutput == _fError) {
+
+        stack = pBat_OpenOutputD(stack, fileno(_fError), PBAT_STDOUT);
+        fOutput = _fOutput;
+
+    }
+
     /* try to malloc a new stack item */
     if (!(item = malloc(sizeof(STREAMSTACK))))
         pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION
-- 
2.43.0


From 4f469d2ef1af295843c6f9383c5930f9c4a4b5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 021/115] fix: FOR /F merged the first selected token with the
 default one (tokens=2 gave the third)

---
 pbat/command/pBat_For.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 092cb61..8fb45d6 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -859,7 +859,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                     goto infos_overflow;
 
                 /* write a single token to infos */
-                infos->lpToken[i]|=TOHIGH(start)+TOLOW(start);
+                infos->lpToken[i]=TOHIGH(start)+TOLOW(start);
                 i++;
 
                 last = start;
@@ -882,7 +882,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                         goto infos_overflow;
 
                     /* write a cat token to infos */
-                    infos->lpToken[i]|=TOHIGH(start)+TOLOW(end);
+                    infos->lpToken[i]=TOHIGH(start)+TOLOW(end);
                     i++;
 
                 } else {
@@ -895,7 +895,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                         if (i >= TOKENINFO_NB_MAX )
                             goto infos_overflow;
 
-                        infos->lpToken[i]|=TOHIGH(start)+TOLOW(start);
+                        infos->lpToken[i]=TOHIGH(start)+TOLOW(start);
                         i++;
 
                         start ++;
@@ -963,7 +963,7 @@ int  pBat_ForMakeTokens (char* p,  FORINFO* infos)
                     goto infos_overflow;
 
                 /* write a single token to infos */
-                infos->lpToken[i]|=TOHIGH(start)+TOLOW(start);
+                infos->lpToken[i]=TOHIGH(start)+TOLOW(start);
                 i++;
 
                 start ++;
-- 
2.43.0


From f057780852ed52b6d30215aaef443242a33e3e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 022/115] fix: FOR /F skipped empty lines as comments

---
 pbat/command/pBat_For.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 8fb45d6..dbb5eff 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -587,7 +587,7 @@ int pBat_CmdForF(ESTR* lpInput, PARSED_LINE* lpplLine, FORINFO* lpfrInfo)
 		} else {
 
             /* If the line starts with one of the EOL characters, just skip it */
-            if ((lpfrInfo->lpEol[0] != '\0')
+            if ((lpInputToP->str[0] != '\0')
                 && (strchr(lpfrInfo->lpEol, *(lpInputToP->str))))
                 continue;
 
-- 
2.43.0


From 88fcde28c36b0657bbacf80f9d4af8bb8c372c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 023/115] fix: FOR /F overwrote variables of an enclosing loop
 when only its first one was free

---
 pbat/command/pBat_For.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index dbb5eff..1b95e8b 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1145,10 +1145,15 @@ void pBat_ForVarUnassign(FORINFO* lpfrInfo)
 
 	for (i=0; i<iMax; i++) {
 
-		pBat_SetLocalVar(lpvLocalVars, cVarName+i, NULL);
+		pBat_SetLocalVar(lpvLocalVars, cVarName, NULL);
 
-		if ((cVarName+i) & 0x80)
-			break;
+		cVarName++;
+
+		if (cVarName & 0x80) {
+
+			cVarName=0x21;
+
+		}
 	}
 }
 
@@ -1168,8 +1173,14 @@ int pBat_ForVarCheckAssignment(FORINFO* lpfrInfo)
 
 		}
 
-		if (cVarName & 0x80)
-			break;
+		cVarName++;
+
+		if (cVarName & 0x80) {
+
+			cVarName=0x21;
+
+		}
+
 	}
 
 	return PBAT_NO_ERROR;
-- 
2.43.0


From df182c7453675c94f8ccadd59903028254520714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 024/115] fix: FOR /F leaked all files but the last and crashed
 when a later file is missing

---
 pbat/command/pBat_For.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 1b95e8b..3b63ebe 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1447,7 +1447,6 @@ int pBat_ForGetInputLine(ESTR* lpReturn, INPUTINFO* lpipInfo)
 
 	int iReturn=0;
 	char* lpToken;
-	char name[FILENAME_MAX];
 
 loop_begin:
     iReturn=0;
@@ -1470,13 +1469,17 @@ retry:
                 }
 
                 /* if the file list is not finished, then, open the next file */
+                fclose(lpipInfo->Info.InputFile.pFile);
+
                 if (!(lpipInfo->Info.InputFile.pFile =
                         fopen(lpipInfo->Info.InputFile.lpesFiles[
                             		lpipInfo->Info.InputFile.index
                             	]->str, "rb"))) {
 
                     pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
-                            name,
+                            lpipInfo->Info.InputFile.lpesFiles[
+                            		lpipInfo->Info.InputFile.index
+                            	]->str,
                             FALSE
                             );
 
@@ -1575,7 +1578,8 @@ void pBat_ForCloseInputInfo(INPUTINFO* lpipInfo)
 
 		case INPUTINFO_TYPE_STREAM:
 
-            fclose(lpipInfo->Info.InputFile.pFile);
+            if (lpipInfo->Info.InputFile.pFile)
+                fclose(lpipInfo->Info.InputFile.pFile);
 
 			while(lpipInfo->Info.InputFile.lpesFiles[i] != NULL) {
 
-- 
2.43.0


From 04c5ad56ed8d69d9b159b82e0e6563b059edf230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 025/115] fix: FOR /L never ended when its end is close to the
 largest integer

---
 pbat/command/pBat_For.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 3b63ebe..9cd06f9 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -551,6 +551,11 @@ int pBat_CmdForL(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName)
 		if (bAbortCommand)
 			break;
 
+		/* the next value is beyond the end whenever it does not fit */
+		if (iLoopInfo[PBAT_FORL_INC] > 0
+            && i > INT_MAX - iLoopInfo[PBAT_FORL_INC])
+			break;
+
 	}
 
 	pBat_SetLocalVar(lpvLocalVars, cVarName, NULL);
-- 
2.43.0


From f13d1753cf3407d30952d271adc3331dffe733f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:15 +0000
Subject: [PATCH 026/115] fix: FOR in a pipe freed its line as if it was a
 redirection

---
 pbat/command/pBat_For.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 9cd06f9..7f00792 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -356,7 +356,7 @@ error:
         *lpplLine = NULL;
 
 	if (!lpplLine && line)
-        pBat_FreeParsedStream(line);
+        pBat_FreeParsedLine(line);
 
 	return status;
 }
-- 
2.43.0


From bc76a43ec2db4dcd4ed3dead063487729efb5524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:29 +0000
Subject: [PATCH 027/115] fix: IF with ELSE leaked the line of the branch it
 ran

---
 pbat/command/pBat_If.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index c6b73b8..c4b0234 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -44,7 +44,8 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 {
 	char lpArgument[FILENAME_MAX], *lpNext, *lpToken, *lpToken2 /*, *lpEnd */;
 	int iFlag=0,
-	    iResult;
+	    iResult,
+	    own;
     PARSED_LINE* line;
 
 	ESTR *lpComparison, *lpOtherPart;
@@ -348,9 +349,12 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
         else
             line = pBat_LookAHeadMakeParsedLine(&bkInfo, NULL);
 
+        /* the line of the caller is freed by the caller */
+        own = !lpplLine || line != *lpplLine;
+
         pBat_RunParsedLine(line);
 
-        if (!lpplLine)
+        if (own)
             pBat_FreeParsedLine(line);
 
     } else {
-- 
2.43.0


From 6142e222ef91cf79da27377e34c0f5bf91f9bf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:34 +0000
Subject: [PATCH 028/115] fix: FOR never ended when its list holds a colon

---
 pbat/command/pBat_For.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 7f00792..f98c1fd 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -361,6 +361,15 @@ error:
 	return status;
 }
 
+/* skip delimiters, a quote being the start of an element */
+static char* pBat_ForSkipDelims(char* lpToken, const char* lpDelimiters)
+{
+	while (*lpToken && *lpToken != '"' && strchr(lpDelimiters, *lpToken))
+		lpToken++;
+
+	return lpToken;
+}
+
 int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
 								char* lpDelimiters)
 {
@@ -377,7 +386,9 @@ int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
 
 	while ((files != NULL)
            || (lpToken != NULL && pBat_GetParameterPointers(&lpBegin, &lpToken,
-                                                    lpDelimiters, lpToken))) {
+                                                    lpDelimiters,
+                                                    pBat_ForSkipDelims(lpToken,
+                                                            lpDelimiters)))) {
 
         if (files != NULL) {
 
-- 
2.43.0


From 55354db2d355e09cc6ad97aedaac18f0123c01a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:54 +0000
Subject: [PATCH 029/115] fix: FOR /R and /D without a directory searched the
 whole file system

---
 pbat/command/pBat_For.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index f98c1fd..8cad744 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1638,9 +1638,16 @@ int  pBat_CmdForDeprecatedWrapper(ESTR* lpMask, ESTR* lpDir, char* lpAttribute,
 	pBat_EsCpy(lpCommandLine, "'DIR /b /s ");
 	pBat_EsCat(lpCommandLine, lpAttribute);
 	pBat_EsCat(lpCommandLine, " ");
-	pBat_Canonicalize(lpDir->str);
-	pBat_EsCatE(lpCommandLine, lpDir);
-	pBat_EsCat(lpCommandLine, "/");
+
+	/* without any directory, search the current one */
+	if (*(lpDir->str)) {
+
+		pBat_Canonicalize(lpDir->str);
+		pBat_EsCatE(lpCommandLine, lpDir);
+		pBat_EsCat(lpCommandLine, "/");
+
+	}
+
 	pBat_EsCatE(lpCommandLine, lpMask);
 	pBat_EsCat(lpCommandLine, "'");
 
-- 
2.43.0


From aac56f158c8cae896d3f86bc0a61643bf06a881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:20 +0000
Subject: [PATCH 030/115] fix: FOR selected files by uninitialised attributes

---
 pbat/command/pBat_For.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 8cad744..88c59f8 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -451,8 +451,7 @@ int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
 
                 /* We came across a reg expression, just launch a search */
                 files = pBat_GetMatchFileList(pBat_EsToFullPath(lpesStr),
-                                                PBAT_SEARCH_NO_PSEUDO_DIR
-                                                | PBAT_SEARCH_NO_STAT);
+                                                PBAT_SEARCH_NO_PSEUDO_DIR);
 
                 pBat_AttributesSplitFileList(PBAT_ATTR_NO_DIR,
                                              files,
-- 
2.43.0


From 1ba3a37ea28ebc85e2ba19a6c8cb0adc1b2b7b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:30 +0000
Subject: [PATCH 031/115] fix: CMDLYCORRECT made FOR /F skip lines of
 separators as if they were empty

---
 pbat/command/pBat_For.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 88c59f8..d9aa0fc 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1518,7 +1518,7 @@ retry:
 	if (bCmdlyCorrect && iReturn) {
 
 		lpToken=pBat_EsToChar(lpReturn);
-		lpToken=pBat_SkipBlanks(lpToken);
+		lpToken+=strspn(lpToken, " \t");
 
 		if ((*lpToken=='\0'
 		     || *lpToken=='\n')
-- 
2.43.0


From c0b647d9332d2c331f455b10fd94cae8bd18ffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 032/115] fix: SET /A did not know the ! operator

---
 libfasteval/lib/scanner.l | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libfasteval/lib/scanner.l b/libfasteval/lib/scanner.l
index 87e4b08..f57f7b4 100644
--- a/libfasteval/lib/scanner.l
+++ b/libfasteval/lib/scanner.l
@@ -74,8 +74,8 @@ integer ((0x[0-9a-fA-F]+)|{digit}+)
 float ({digit}+\.{digit}*|{digit}*\.{digit}+)([Ee][+\-]?{digit}+)?
 constant "e"|"log2e"|"log10e"|"ln2"|"ln10"|"pi"|"pi_2"|"pi_4"|"1_pi"|"2_pi"|"2_sqrtpi"|"sqrt2"|"sqrt1_2"
 function "exp"|"log"|"sqrt"|"sin"|"cos"|"tan"|"cot"|"sec"|"csc"|"asin"|"acos"|"atan"|"acot"|"asec"|"acsc"|"sinh"|"cosh"|"tanh"|"coth"|"sech"|"csch"|"asinh"|"acosh"|"atanh"|"acoth"|"asech"|"acsch"|"abs"|"step"|"delta"|"nandelta"|"erf"
-nodelim	   [^+\-*%/&>~<%\|=()^\n\t ]
-nodelimnb  [^+\-*%/&>~<%\|=()^\n\t 0-9]
+nodelim	   [^+\-*%/&>~<%\|=()^!\n\t ]
+nodelimnb  [^+\-*%/&>~<%\|=()^!\n\t 0-9]
 identifier {nodelim}*{nodelimnb}*{nodelim}*
 %%
 
@@ -115,6 +115,10 @@ identifier {nodelim}*{nodelimnb}*{nodelim}*
 		return '~';
 }
 
+"!" {
+  return '!';
+}
+
 ">>" {
   return '>';
 }
-- 
2.43.0


From 7e7b00c7b2e457af1f275e1303c7db6063b51214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:29 +0000
Subject: [PATCH 033/115] fix: SET /A gave bitwise and logical operators a
 common precedence

---
 libfasteval/lib/parser.y | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libfasteval/lib/parser.y b/libfasteval/lib/parser.y
index 3e1e63e..2823814 100644
--- a/libfasteval/lib/parser.y
+++ b/libfasteval/lib/parser.y
@@ -104,8 +104,11 @@ extern void input_reset (void);
 /* Grammar terminal symbols.  */
 %token <number> NUMBER CONSTANT
 %token <name> FUNCTION VARIABLE
-%left '|' 'o' '^'
-%left '&' 'a'
+%left 'o'
+%left 'a'
+%left '|'
+%left '^'
+%left '&'
 %left '>' '<'
 %left '-' '+'
 %left '*' '/' '%'
-- 
2.43.0


From 0c432ff43f199b4024e578b373b5e0bc4b1cd960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 034/115] fix: SET /A died of a division by zero

---
 libfasteval/lib/parser.y | 12 +++++++++---
 pbat/command/pBat_Set.c  | 15 ++++++---------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/libfasteval/lib/parser.y b/libfasteval/lib/parser.y
index 2823814..5a632eb 100644
--- a/libfasteval/lib/parser.y
+++ b/libfasteval/lib/parser.y
@@ -143,14 +143,20 @@ expression
   INT_FLOAT_OP(*, $$, $1, $3);
 }
 | expression '/' expression {
-  INT_FLOAT_OP(/, $$, $1, $3);
+
+  /* dividing by 0 gives a special number (inf or nan) */
+  $$.is_double  = $1.is_double || $3.is_double || $3.i == 0;
+  if (!($$.is_double))
+    $$.i = ($3.i == -1) ? -$1.i : $1.i / $3.i;
+  $$.d = $1.d / $3.d;
+
 }
 | expression '%' expression {
 
   /* modulo may use integer operator % or fmod function */
-  $$.is_double  = $1.is_double || $3.is_double;
+  $$.is_double  = $1.is_double || $3.is_double || $3.i == 0;
   if (!($$.is_double))
-    $$.i = $1.i % $3.i;
+    $$.i = ($3.i == -1) ? 0 : $1.i % $3.i;
   $$.d = fmod($1.d, $3.d);
 
 }
diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 07d32d6..7599a54 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -430,13 +430,6 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 #define OPERATE_INT(op1, op, op2) \
     (double)(((int)op1) op ((int)(op2)))
 
-#define OPERATE(op1, op, op2, mode) \
-    ((!mode) ? \
-        (OPERATE_INT(op1, op, op2)) \
-        : \
-        (op1 op op2))
-
-
 	switch (cLeftAssign) {
 
 		case '*':
@@ -457,8 +450,12 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 					break;
 
 				case '/':
-					dVal = OPERATE(dVal, /,
-                                    dResult, fmode);
+                    /* dividing by 0 gives a special number and long
+                       long avoids the overflow of INT_MIN / -1 */
+                    if (fmode || (int)dResult == 0)
+                        dVal /= dResult;
+                    else
+                        dVal = (double)((long long)(int)dVal / (int)dResult);
 					break;
 
                 case '%':
-- 
2.43.0


From 1b750326bd98581bb9db8deb44e6eefb6847b347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 035/115] fix: SET /A &&= and ||= read another variable than
 they set

---
 pbat/command/pBat_Set.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 7599a54..2477036 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -487,9 +487,6 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 
 			*(lpEqual-1)='\0';
 
-			pBat_AdjustVarName(lpVarName);
-			dVal=_pBat_SetGetVar(lpVarName);
-
 			if (lpVarName != (lpEqual-1)) {
 
 				if (*(lpEqual-2) == cLeftAssign) {
@@ -501,6 +498,9 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 
 			}
 
+			pBat_AdjustVarName(lpVarName);
+			dVal=_pBat_SetGetVar(lpVarName);
+
 			switch (cLeftAssign) {
 
 				case '|':
-- 
2.43.0


From 4505afacbdb91e5145b72741b4817baefb3f8e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 036/115] fix: SET /A did not know <<= and >>=

---
 pbat/command/pBat_Set.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 2477036..b09f11b 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -521,6 +521,28 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 			break;
 
 
+		case '<':
+		case '>':
+
+			/* these are only operators when doubled */
+			if (lpVarName != (lpEqual-1)
+			    && *(lpEqual-2) == cLeftAssign) {
+
+				*(lpEqual-2)='\0';
+				pBat_AdjustVarName(lpVarName);
+				dVal=_pBat_SetGetVar(lpVarName);
+
+				if (cLeftAssign == '<')
+					dVal = OPERATE_INT(dVal, <<, dResult);
+				else
+					dVal = OPERATE_INT(dVal, >>, dResult);
+
+				break;
+
+			}
+
+			/* fall through */
+
 		default:
 			dVal=dResult;
 
-- 
2.43.0


From 173371de4316eb22f6e365879f4680ac3b95692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 037/115] fix: SET /A leaked the names of the variables it read

---
 libfasteval/lib/parser.y | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libfasteval/lib/parser.y b/libfasteval/lib/parser.y
index 5a632eb..4b9e8e0 100644
--- a/libfasteval/lib/parser.y
+++ b/libfasteval/lib/parser.y
@@ -101,6 +101,9 @@ extern void input_reset (void);
   char *name;
 }
 
+/* Names dropped by the error recovery.  */
+%destructor { free($$); } <name>
+
 /* Grammar terminal symbols.  */
 %token <number> NUMBER CONSTANT
 %token <name> FUNCTION VARIABLE
@@ -217,6 +220,7 @@ expression
 }
 | VARIABLE '=' expression {
   set_var($1, AS_DOUBLE($3));
+  free($1);
   $$ = $3;
 }
 | VARIABLE {
@@ -224,6 +228,7 @@ expression
   $$.is_double = 0;
   $$.d = get_var($1);
   $$.i = (int)$$.d;
+  free($1);
 }
 ;
 
-- 
2.43.0


From c6d95c52567182e6e53253fbfa3ad117dac0c9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 038/115] fix: SET /A had no log10 function

---
 libfasteval/lib/fasteval.c | 4 ++--
 libfasteval/lib/scanner.l  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libfasteval/lib/fasteval.c b/libfasteval/lib/fasteval.c
index 2fba6d9..a0ba2b4 100644
--- a/libfasteval/lib/fasteval.c
+++ b/libfasteval/lib/fasteval.c
@@ -81,7 +81,7 @@ double evaluate_function(const char *name, double arg)
     "abs", "acos", "acosh", "acot", "acoth", "acsc",
     "acsch", "asec", "asech", "asin", "asinh", "atan",
     "atanh", "cos", "cosh", "cot", "coth", "csc", "csch",
-    "delta", "erf", "exp", "log", "nandelta", "sec", "sech",
+    "delta", "erf", "exp", "log", "log10", "nandelta", "sec", "sech",
     "sin", "sinh", "sqrt", "step", "tan", "tanh",
 	};
 
@@ -89,7 +89,7 @@ double evaluate_function(const char *name, double arg)
     fabs, acos, acosh, math_acot, math_acoth, math_acsc,
     math_acsch, math_asec, math_asech, asin, asinh, atan,
     atanh, cos, cosh, math_cot, math_coth, math_csc, math_csch,
-    math_delta, erf, exp, log, math_nandelta, math_sec, math_sech,
+    math_delta, erf, exp, log, log10, math_nandelta, math_sec, math_sech,
     sin, sinh, sqrt, math_step, tan, tanh,
   };
 
diff --git a/libfasteval/lib/scanner.l b/libfasteval/lib/scanner.l
index f57f7b4..508921f 100644
--- a/libfasteval/lib/scanner.l
+++ b/libfasteval/lib/scanner.l
@@ -73,7 +73,7 @@ digit [0-9]
 integer ((0x[0-9a-fA-F]+)|{digit}+)
 float ({digit}+\.{digit}*|{digit}*\.{digit}+)([Ee][+\-]?{digit}+)?
 constant "e"|"log2e"|"log10e"|"ln2"|"ln10"|"pi"|"pi_2"|"pi_4"|"1_pi"|"2_pi"|"2_sqrtpi"|"sqrt2"|"sqrt1_2"
-function "exp"|"log"|"sqrt"|"sin"|"cos"|"tan"|"cot"|"sec"|"csc"|"asin"|"acos"|"atan"|"acot"|"asec"|"acsc"|"sinh"|"cosh"|"tanh"|"coth"|"sech"|"csch"|"asinh"|"acosh"|"atanh"|"acoth"|"asech"|"acsch"|"abs"|"step"|"delta"|"nandelta"|"erf"
+function "exp"|"log"|"log10"|"sqrt"|"sin"|"cos"|"tan"|"cot"|"sec"|"csc"|"asin"|"acos"|"atan"|"acot"|"asec"|"acsc"|"sinh"|"cosh"|"tanh"|"coth"|"sech"|"csch"|"asinh"|"acosh"|"atanh"|"acoth"|"asech"|"acsch"|"abs"|"step"|"delta"|"nandelta"|"erf"
 nodelim	   [^+\-*%/&>~<%\|=()^!\n\t ]
 nodelimnb  [^+\-*%/&>~<%\|=()^!\n\t 0-9]
 identifier {nodelim}*{nodelimnb}*{nodelim}*
-- 
2.43.0


From ea0a4e456f6d387bb9e3d747e75d2d23047817ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 039/115] fix: SET /A %= gave -0 for multiples below zero

---
 pbat/command/pBat_Set.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index b09f11b..596176e 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -459,7 +459,10 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 					break;
 
                 case '%':
-                    dVal = fmod(dVal, dResult);
+                    if (fmode || (int)dResult == 0)
+                        dVal = fmod(dVal, dResult);
+                    else
+                        dVal = (double)((long long)(int)dVal % (int)dResult);
                     break;
 
 				case '+':
-- 
2.43.0


From 05fb8448dd411a146d15ea86034fdecc9bd35cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 040/115] fix: SHIFT /7 was rejected

---
 pbat/command/pBat_Shift.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Shift.c b/pbat/command/pBat_Shift.c
index cfad794..fdd5ace 100644
--- a/pbat/command/pBat_Shift.c
+++ b/pbat/command/pBat_Shift.c
@@ -76,6 +76,7 @@ int pBat_CmdShift(char* lpLine)
 				case '4':
 				case '5':
 				case '6':
+				case '7':
 				case '8':
 				case '9':
 					iBegin=*lpToken-'0'; /* well, we assume that all numbers
-- 
2.43.0


From 7984087a1ea410e3773b05f854b3298b56eaeb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 041/115] fix: empty and escaped arguments after the ninth were
 lost from %+

---
 pbat/command/pBat_Call.c | 13 ++-----------
 pbat/core/pBat_Args.c    | 21 +++++++++++++++++++++
 pbat/core/pBat_Args.h    |  2 ++
 pbat/init/pBat_Init.c    | 25 ++-----------------------
 4 files changed, 27 insertions(+), 34 deletions(-)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index 9f1c79b..f188ac9 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -317,17 +317,8 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 
         lpEsCmd = pBat_EsInit_Cached();
 
-        while ((lpCmdLine = pBat_GetNextParameterEs(lpCmdLine, lpEsParam))) {
-            pBat_EsReplace(lpEsParam, " ", "^ ");
-            pBat_EsReplace(lpEsParam, ";", "^;");
-            pBat_EsReplace(lpEsParam, ",", "^,");
-            pBat_EsReplace(lpEsParam, "\t", "^\t");
-            pBat_EsReplace(lpEsParam, "\"", "^\"");
-
-            pBat_EsCatE(lpEsCmd, lpEsParam);
-            pBat_EsCat(lpEsCmd, " ");
-
-        }
+        while ((lpCmdLine = pBat_GetNextParameterEs(lpCmdLine, lpEsParam)))
+            pBat_CatParameterEs(lpEsCmd, pBat_EsToChar(lpEsParam));
 
 
         /* set the %+ parameter */
diff --git a/pbat/core/pBat_Args.c b/pbat/core/pBat_Args.c
index 83ab27f..c917bca 100644
--- a/pbat/core/pBat_Args.c
+++ b/pbat/core/pBat_Args.c
@@ -273,6 +273,27 @@ next:
 	return lpEnd;
 }
 
+/* Append to lpLine a parameter that pBat_GetNextParameterEs() reads back
+   as lpParam. */
+void pBat_CatParameterEs(ESTR* lpLine, const char* lpParam)
+{
+	ESTR* lpEscaped = pBat_EsInit_Cached();
+	int bQuote = (*lpParam == '\0' || strpbrk(lpParam, " ,;=\t&|<>()"));
+
+	pBat_EsCpy(lpEscaped, lpParam);
+	pBat_EsReplace(lpEscaped, "^", "^^");
+	pBat_EsReplace(lpEscaped, "!", "^!");
+	pBat_EsReplace(lpEscaped, "\"", "^\"");
+
+	if (bQuote)
+		pBat_EsCat(lpLine, "\"");
+
+	pBat_EsCatE(lpLine, lpEscaped);
+	pBat_EsCat(lpLine, bQuote ? "\" " : " ");
+
+	pBat_EsFree_Cached(lpEscaped);
+}
+
 struct PARAMLIST* pBat_GetParamList(char* lpLine)
 /*
     gets a list of parameters
diff --git a/pbat/core/pBat_Args.h b/pbat/core/pBat_Args.h
index 5650b64..255095a 100644
--- a/pbat/core/pBat_Args.h
+++ b/pbat/core/pBat_Args.h
@@ -48,6 +48,8 @@ char* pBat_GetNextParameterEsD(char* lpLine, ESTR* lpReturn, const
 
 char* pBat_GetNextParameter(char* lpLine, char* lpResponseBuffer, int iLength);
 
+void pBat_CatParameterEs(ESTR* lpLine, const char* lpParam);
+
 struct PARAMLIST* pBat_GetParamList(char* lpLine);
 void pBat_FreeParamList(struct PARAMLIST* list);
 
diff --git a/pbat/init/pBat_Init.c b/pbat/init/pBat_Init.c
index 7277e51..6c23e2f 100644
--- a/pbat/init/pBat_Init.c
+++ b/pbat/init/pBat_Init.c
@@ -53,31 +53,11 @@
 
 void pBat_AssignCommandLine(int c, char** argv)
 {
-    ESTR *lpEsStr=pBat_EsInit_Cached(),
-          *lpEsParam=pBat_EsInit_Cached();
-
-    /* int i; */
-
-    char*  delims=" ,;=\t&|";
+    ESTR *lpEsStr=pBat_EsInit_Cached();
 
     while (*argv) {
 
-        pBat_EsCpy(lpEsParam, *argv);
-        pBat_EsReplace(lpEsParam, "\"", "^\""); /* escape parenthesis */
-
-        if (strpbrk(*argv, delims)) {
-
-            pBat_EsCat(lpEsStr, "\"");
-            pBat_EsCatE(lpEsStr, lpEsParam);
-            pBat_EsCat(lpEsStr, "\" ");
-
-        } else {
-
-            pBat_EsCatE(lpEsStr, lpEsParam);
-            pBat_EsCat(lpEsStr, " ");
-
-        }
-
+        pBat_CatParameterEs(lpEsStr, *argv);
         argv ++;
 
     }
@@ -85,7 +65,6 @@ void pBat_AssignCommandLine(int c, char** argv)
     pBat_SetLocalVar(lpvArguments, c, pBat_EsToChar(lpEsStr));
 
     pBat_EsFree_Cached(lpEsStr);
-    pBat_EsFree_Cached(lpEsParam);
 }
 
 void pBat_DuplicateStdStreams(void)
-- 
2.43.0


From 107a984989a18775828723702106c8dca7ae6766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 042/115] fix: modified scripts were not read again on Linux

---
 pbat/core/pBat_ReadScript.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pbat/core/pBat_ReadScript.c b/pbat/core/pBat_ReadScript.c
index b187949..e59d0fa 100644
--- a/pbat/core/pBat_ReadScript.c
+++ b/pbat/core/pBat_ReadScript.c
@@ -126,6 +126,8 @@ __inline__ size_t pBat_GetScriptSize(struct batch_script_t* script, int* restric
 {
     struct stat st;
 
+    *err = 0;
+
     if (stat(script->name, &st) == 0)
         return st.st_size;
 
-- 
2.43.0


From 7c9932d09cf049e6fd8a8ededb5d7debf0f8c8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 043/115] fix: a script modified at its end started over

---
 pbat/core/pBat_ReadScript.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_ReadScript.c b/pbat/core/pBat_ReadScript.c
index e59d0fa..5c69931 100644
--- a/pbat/core/pBat_ReadScript.c
+++ b/pbat/core/pBat_ReadScript.c
@@ -311,12 +311,16 @@ int pBat_ReloadBatchScript(struct batch_script_t* script)
     cmd = script->cmds;
 
     /* place the current line where it should be */
-    while (cmd && (i --))
+    while (cmd && i) {
+
         cmd = cmd->next;
+        i--;
+
+    }
 
     /* if there is not enough lines in the new script,
        restart from the beginning */
-    script->curr = cmd ? (cmd) : (script->cmds);
+    script->curr = i ? (script->cmds) : (cmd);
 
     return 0;
 }
-- 
2.43.0


From cd62cf9bd4d7ae6e6ffb23dd5979624feed2d20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 044/115] fix: a missing label freed an uninitialised script

---
 pbat/core/pBat_Jump.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Jump.c b/pbat/core/pBat_Jump.c
index 29349be..417b5e6 100644
--- a/pbat/core/pBat_Jump.c
+++ b/pbat/core/pBat_Jump.c
@@ -81,7 +81,9 @@ int pBat_JumpToLabel(char* lpLabelName, char* lpFileName)
 
     if (lbl == NULL) {
 
-        pBat_FreeBatchScript(&script);
+        if (new)
+            pBat_FreeBatchScript(&script);
+
         return -1;
 
     }
-- 
2.43.0


From 5945ed04709478676e726d66a75d714cc2b64fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 045/115] fix: DEF /f replaced commands whose name is the start
 of the given one

---
 libpbat/cmdlist/pBat_CmdList.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libpbat/cmdlist/pBat_CmdList.c b/libpbat/cmdlist/pBat_CmdList.c
index 7963c12..712a956 100644
--- a/libpbat/cmdlist/pBat_CmdList.c
+++ b/libpbat/cmdlist/pBat_CmdList.c
@@ -280,9 +280,7 @@ LIBPBAT int				pBat_ReplaceCommand(LPCOMMANDINFO lpciCommand, LPCOMMANDLIST lpcl
 
     while (lpclCommandList) {
 
-        iRet=strnicmp(lpCommandLine,
-                      lpclCommandList->ptrCommandName,
-                      lpclCommandList->iLenght);
+        iRet=stricmp(lpCommandLine, lpclCommandList->ptrCommandName);
 
         if (iRet>0) {
 
-- 
2.43.0


From 4ebeba33eb93a08a38d963b82552a3036b6d433c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 046/115] fix: DEF expanded symbols inside the parameters and
 $:

---
 pbat/core/pBat_ExpandDef.c | 49 +++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/pbat/core/pBat_ExpandDef.c b/pbat/core/pBat_ExpandDef.c
index 77a46b8..53d56ae 100644
--- a/pbat/core/pBat_ExpandDef.c
+++ b/pbat/core/pBat_ExpandDef.c
@@ -20,6 +20,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <libpBat.h>
 
 #include "pBat_Core.h"
@@ -27,29 +28,49 @@
 void pBat_ExpandDef(ESTR* lpRet, char* lpCh, char* lpExp)
 {
     int i;
-    char var[]="$1";
-    ESTR *restrict ret=pBat_EsInit_Cached(),
-        *restrict param=pBat_EsInit_Cached();
+    char *lpFull, *lpVar;
+    ESTR *ret=pBat_EsInit_Cached(),
+        *params[9];
 
-    pBat_EsCpy(ret, lpExp);
+    lpFull = lpCh = pBat_SkipBlanks(lpCh);
 
-    lpCh = pBat_SkipBlanks(lpCh);
-    pBat_EsReplace(ret, "$*", lpCh);
+    for (i = 0; i < 9; i++) {
 
-    for (i = 1; i <= 10; i++) {
+        params[i] = pBat_EsInit_Cached();
 
-        var[1] = '0' + i;
+        if (!lpCh || !(lpCh = pBat_GetNextParameterEs(lpCh, params[i])))
+            pBat_EsCpy(params[i], "");
 
-        if (lpCh
-            && (lpCh = pBat_GetNextParameterEs(lpCh, param)))
-            pBat_EsReplace(ret, var, param->str);
-        else
-            pBat_EsReplace(ret, var, "");
     }
 
+    pBat_EsCpy(ret, "");
+
+    /* substitute in one go, because the parameters may contain symbols */
+    while ((lpVar = strchr(lpExp, '$'))) {
+
+        pBat_EsCatN(ret, lpExp, lpVar - lpExp);
+
+        if (lpVar[1] == '*')
+            pBat_EsCat(ret, lpFull);
+        else if (lpVar[1] >= '1' && lpVar[1] <= '9')
+            pBat_EsCatE(ret, params[lpVar[1] - '1']);
+        else {
+
+            pBat_EsCat(ret, "$");
+            lpExp = lpVar + 1;
+            continue;
+
+        }
+
+        lpExp = lpVar + 2;
+    }
+
+    pBat_EsCat(ret, lpExp);
     pBat_EsCpyE(lpRet, ret);
 
+    for (i = 0; i < 9; i++)
+        pBat_EsFree_Cached(params[i]);
+
     pBat_EsFree_Cached(ret);
-    pBat_EsFree_Cached(param);
 
 }
-- 
2.43.0


From e70e112f7afc7ada915ad532b65d75d2f5372854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 047/115] fix: DEF with an empty name captured every command

---
 pbat/command/pBat_Def.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Def.c b/pbat/command/pBat_Def.c
index 4c1f123..7df6006 100644
--- a/pbat/command/pBat_Def.c
+++ b/pbat/command/pBat_Def.c
@@ -90,7 +90,7 @@ int pBat_CmdDef(char* lpLine, PARSED_LINE** lpplLine)
         pBat_ListDefs(lpLine, strlen(lpLine), lpclCommands);
         goto end;
 
-	} else if (!(lpCh=pBat_SearchChar(lpLine, '='))) {
+	} else if (!(lpCh=pBat_SearchChar(lpLine, '=')) || lpCh == lpLine) {
 
 		pBat_ShowErrorMessage(PBAT_UNEXPECTED_ELEMENT,
 		                      lpLine,
-- 
2.43.0


From dcd9daa017acc7320ae259ce6cdaa947d771e11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 048/115] fix: local variables of the caller could not be
 removed in a procedure

---
 pbat/command/pBat_Set.c |  2 +-
 pbat/core/pBat_Env.c    | 28 +++++++++++++++-------------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 596176e..0b24f40 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -203,7 +203,7 @@ int pBat_CmdSet(char *lpLine)
 		   which match with the prefix (if defined)
 		*/
 		for (i=0; i < lpeEnv->index; i++) {
-			if (lpeEnv->envbuf[i]->name != NULL
+			if (lpeEnv->envbuf[i]->content != NULL
                 && !strnicmp(lpeEnv->envbuf[i]->name, lpLine, strlen(lpLine))) {
 
 				found = TRUE;
diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 306aa22..a252034 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -120,14 +120,12 @@ error:
     }
 
 
-    if (name == NULL
-        || content == NULL) {
+    pRet->content = NULL;
+    pRet->name = NULL;
 
-        pRet->content = NULL;
-        pRet->name = NULL;
-
-    } else if (!(pRet->name = strdup(name))
-            || !(pRet->content = strdup(content)))
+    /* a local variable that has been removed has a name but no content */
+    if ((name && !(pRet->name = strdup(name)))
+        || (name && content && !(pRet->content = strdup(content))))
         goto error;
 
     pRet->previous = NULL;
@@ -377,8 +375,12 @@ void  pBat_UnSetEnv(ENVBUF* pEnv, char* name)
     free(key.name);
 
     /* Do not let local variables used by previous contexts be freed */
-    if (pRes &&
-        ((*pRes)->previous) == NULL) {
+    if (pRes && (*pRes)->previous) {
+
+        free((*pRes)->content);
+        (*pRes)->content = NULL;
+
+    } else if (pRes) {
 
         free((*pRes)->name);
         free((*pRes)->content);
@@ -419,7 +421,7 @@ void pBat_ApplyEnv(ENVBUF* pEnv)
 
     for (i=0; i < pEnv->index; i++) {
 
-        if (pEnv->envbuf[i]->name == NULL)
+        if (pEnv->envbuf[i]->content == NULL)
             continue;
 
         #if !defined(WIN32)
@@ -441,7 +443,7 @@ void pBat_UnApplyEnv(ENVBUF* pEnv)
 
     for (i=0; i < pEnv->index; i++) {
 
-        if (pEnv->envbuf[i]->name == NULL)
+        if (pEnv->envbuf[i]->content == NULL)
             continue;
 
         #if !defined(WIN32)
@@ -465,7 +467,7 @@ void* pBat_GetEnvBlock(ENVBUF* pEnv, size_t *s)
 
     for (i = 0; i < pEnv->index; i++) {
 
-        if (pEnv->envbuf[i]->name == NULL)
+        if (pEnv->envbuf[i]->content == NULL)
             continue;
 
         pEnv->envbuf[i]->size = strlen(pEnv->envbuf[i]->content)
@@ -485,7 +487,7 @@ void* pBat_GetEnvBlock(ENVBUF* pEnv, size_t *s)
 
     for (i = 0; i < pEnv->index; i++) {
 
-        if (pEnv->envbuf[i]->name == NULL)
+        if (pEnv->envbuf[i]->content == NULL)
             continue;
 
         strcpy(p, pEnv->envbuf[i]->name);
-- 
2.43.0


From b0b3334f898ed2d6ebb1a6438fab19161c2a7a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 049/115] fix: SET /X made variables outlive every procedure

---
 pbat/core/pBat_Env.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index a252034..ac812d3 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -565,12 +565,16 @@ void pBat_PushEnvLocals(ENVBUF *pEnv)
                 (*pVar)->content = NULL; \
                 sort = 1; \
             } \
+\
+            /* it is inherited by the previous context only */\
+            (*pVar)->inherit = 0;\
 \
         } else if ((*pVar)->inherit) {\
 \
             /* We need to inherit the current variable */\
 \
             (*pVar)->previous = pOld->previous;\
+            (*pVar)->inherit = pOld->inherit;\
             free(pOld->name);\
             free(pOld->content);\
             free(pOld);\
-- 
2.43.0


From 3f5caec02ce46517e30b8826ca02a8841b549ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 050/115] fix: CD lost the directory when .. reached the root

---
 pbat/command/pBat_Cd.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/pbat/command/pBat_Cd.c b/pbat/command/pBat_Cd.c
index 754cd2b..3c9db43 100644
--- a/pbat/command/pBat_Cd.c
+++ b/pbat/command/pBat_Cd.c
@@ -72,6 +72,9 @@ int __inline__ pBat_Canonicalize(char* path)
 {
     char *previous = NULL, *next, *orig = path;
     size_t size = strlen(path) + 1;
+#ifndef WIN32
+    int absolute = PBAT_TEST_ABSOLUTE_PATH(path);
+#endif // WIN32
 
     /* If the path is UNC, just skip the very first part */
     if (PBAT_TEST_UNC_PATH(path)) {
@@ -117,15 +120,19 @@ reloop:
                 while (previous >= orig && !PBAT_TEST_SEPARATOR(previous))
                     previous --;
 
-                if (previous < orig) {
+                if (path == orig) {
 
-                    /* this is not meant to happen unless if .. follows directly the root
-                       remove it then */
-#ifdef WIN32
-                    *path = '\0';
-#else
-                    *(path + 1) = '\0';
-#endif // WIN32
+                    /* .. follows directly the root, remove it then */
+                    memmove(path, path + 3, size - ((path + 3) - orig));
+                    size -= 3;
+                    continue;
+
+                } else if (previous < orig
+                    || (path - previous == 3
+                        && *(previous + 1) == '.' && *(previous + 2) == '.')) {
+
+                    /* nothing precedes that could be squeezed, this is
+                       a relative path, keep the .. */
 
                 } else {
 
@@ -150,7 +157,13 @@ reloop:
             path ++;
     }
 
-    /* Wait ... */
+#ifndef WIN32
+    /* every directory was squeezed, only the root remains */
+    if (absolute && *orig == '\0') {
+        *orig = PBAT_DEF_SEPARATOR;
+        *(orig + 1) = '\0';
+    }
+#endif // WIN32
 
     return 0;
 }
-- 
2.43.0


From 61326b505f3d667747d421b7f29fae1c7ea1c5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 051/115] fix: paths that start with // were taken as relative

---
 libpbat/libpBat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libpbat/libpBat.h b/libpbat/libpBat.h
index 1967cd7..1cb246e 100644
--- a/libpbat/libpBat.h
+++ b/libpbat/libpBat.h
@@ -387,7 +387,7 @@ LIBPBAT void            pBat_GetMousePos(FILE* f, char on_move, CONSOLECOORD* co
 
 #ifndef WIN32
 #define PBAT_TEST_SEPARATOR(p) (*(p) == '/')
-#define PBAT_TEST_ABSOLUTE_PATH(p) PBAT_TEST_ROOT_PATH(p)
+#define PBAT_TEST_ABSOLUTE_PATH(p) PBAT_TEST_SEPARATOR(p)
 #define PBAT_TEST_UNC_PATH(p)  0
 #define PBAT_TEST_ROOT_PATH(p) (PBAT_TEST_SEPARATOR(p) && !PBAT_TEST_SEPARATOR(p+1))
 #define PBAT_TEST_DRIVE_PATH(p) 0
-- 
2.43.0


From f469787f8939cab282804289daa2d88b8776b8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 052/115] fix: CD without arguments did not end its line

---
 pbat/command/pBat_Cd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Cd.c b/pbat/command/pBat_Cd.c
index 3c9db43..4a2d835 100644
--- a/pbat/command/pBat_Cd.c
+++ b/pbat/command/pBat_Cd.c
@@ -326,6 +326,7 @@ def:
 	} else {
 
 		fputs(lpCurrentDir, fOutput);
+		fputs(PBAT_NL, fOutput);
 
 	}
 
-- 
2.43.0


From 91c2d938e007ad7b2e436bf655e70c5fcfda91a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 053/115] fix: CD took a missing absolute path as relative

---
 pbat/command/pBat_Cd.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pbat/command/pBat_Cd.c b/pbat/command/pBat_Cd.c
index 4a2d835..5a31742 100644
--- a/pbat/command/pBat_Cd.c
+++ b/pbat/command/pBat_Cd.c
@@ -198,6 +198,12 @@ int pBat_SetCurrentDir(char* lpLine)
         lpCurrentDir[FILENAME_MAX - 1] = '\0';
         return pBat_Canonicalize(lpCurrentDir);
 
+    } else if (PBAT_TEST_ABSOLUTE_PATH(lpLine)) {
+
+        /* an absolute path is never relative to the current dir */
+        errno = ENOENT;
+        return -1;
+
     }
 
     /* find the end of the current dir */
-- 
2.43.0


From b42991e7208ee5ce78751e28c538742583809dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 054/115] fix: cleaning of partial copies of the directory
 stack

---
 pbat/core/pBat_DirStack.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pbat/core/pBat_DirStack.c b/pbat/core/pBat_DirStack.c
index 627f824..13ae2f5 100644
--- a/pbat/core/pBat_DirStack.c
+++ b/pbat/core/pBat_DirStack.c
@@ -98,12 +98,10 @@ bool pBat_DirStackCopy(struct dirstack_t *dest)
 
   PBAT_DBG("pBat_DirStackCopy(): Copying DirStack to %p", dest);
 
-  if (dest == NULL) {
-    memset(dest, 0, sizeof(struct dirstack_t)); /* NOTE */
+  if (dest == NULL)
     return true;
-  }
 
-  dest->paths = malloc(dsDirStack.count * sizeof(char *));
+  dest->paths = malloc((dsDirStack.count + 1) * sizeof(char *));
   dest->count = dsDirStack.count;
 
   if (dest->paths == NULL) {
@@ -122,7 +120,7 @@ bool pBat_DirStackCopy(struct dirstack_t *dest)
 
       /* We need to free all allocated paths, from 0 to i-1. */
       for (size_t j = 0; j < i; j++)
-        free(dest->paths[i]);
+        free(dest->paths[j]);
 
       free(dest->paths);
 
-- 
2.43.0


From 27d80339fe5e55b1ec750a0cebe4190fbe642c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:28 +0000
Subject: [PATCH 055/115] fix: * did not match an empty end, letters with
 accents matched each other

---
 libpbat/dir/pBat_Dir.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/libpbat/dir/pBat_Dir.c b/libpbat/dir/pBat_Dir.c
index 4b95267..ec6f38e 100644
--- a/libpbat/dir/pBat_Dir.c
+++ b/libpbat/dir/pBat_Dir.c
@@ -688,8 +688,13 @@ LIBPBAT int pBat_RegExpMatch(const char* restrict regexp, const char* restrict m
                 break;
 
             default:
+                /* every byte of a character has to be the same */
                 if (*regexp  != *match)
                     return 0;
+
+                regexp ++;
+                match ++;
+                continue;
         }
 
         regexp = pBat_GetNextChar(regexp);
@@ -697,6 +702,11 @@ LIBPBAT int pBat_RegExpMatch(const char* restrict regexp, const char* restrict m
 
     }
 
+    /* the remaining jokers stand for an empty sequence */
+    if (*regexp == '*')
+        while (*regexp == '*' || *regexp == '?')
+            regexp ++;
+
     if (*match || *regexp)
         return 0;
 
@@ -807,8 +817,13 @@ LIBPBAT int pBat_RegExpCaseMatch(const char* restrict regexp, const char* restri
                 break;
 
             default:
+                /* every byte of a character has to be the same */
                 if (toupper(*regexp)  != toupper(*match))
                     return 0;
+
+                regexp ++;
+                match ++;
+                continue;
         }
 
         regexp = pBat_GetNextChar(regexp);
@@ -816,6 +831,11 @@ LIBPBAT int pBat_RegExpCaseMatch(const char* restrict regexp, const char* restri
 
     }
 
+    /* the remaining jokers stand for an empty sequence */
+    if (*regexp == '*')
+        while (*regexp == '*' || *regexp == '?')
+            regexp ++;
+
     if (*match || *regexp)
         return 0;
 
-- 
2.43.0


From 7806493810db82bc42d323966cb9516aefb5471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:28 +0000
Subject: [PATCH 056/115] fix: attributes -I and -S selected the opposite files

---
 libpbat/dir/pBat_Attr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libpbat/dir/pBat_Attr.c b/libpbat/dir/pBat_Attr.c
index 237d15e..89174c7 100644
--- a/libpbat/dir/pBat_Attr.c
+++ b/libpbat/dir/pBat_Attr.c
@@ -85,13 +85,13 @@ int pBat_CheckFileAttributes(short wAttr, const FILELIST* lpflList)
 
     if (wAttr & PBAT_CMD_ATTR_SYSTEM) {
         iResult=iAttributes & PBAT_FILE_SYSTEM;
-        if (wAttr & PBAT_CMD_ATTR_HIDEN_N) iResult=!iResult;
+        if (wAttr & PBAT_CMD_ATTR_SYSTEM_N) iResult=!iResult;
         iReturn=iReturn && iResult;
     }
 
     if (wAttr & PBAT_CMD_ATTR_VOID) {
         iResult=(pBat_GetFileSize(lpflList)==0);
-        if (wAttr & PBAT_CMD_ATTR_HIDEN_N) iResult=!iResult;
+        if (wAttr & PBAT_CMD_ATTR_VOID_N) iResult=!iResult;
         iReturn=iReturn && iResult;
     }
 
-- 
2.43.0


From 3e0617050ab340d34c72441b147fa15d0d147c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 057/115] fix: parts of very long paths were not terminated

---
 pbat/core/pBat_SplitPath.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pbat/core/pBat_SplitPath.c b/pbat/core/pBat_SplitPath.c
index 4a8821b..8bbe457 100644
--- a/pbat/core/pBat_SplitPath.c
+++ b/pbat/core/pBat_SplitPath.c
@@ -57,7 +57,7 @@ void pBat_SplitPath(char* lpPath,
 		PBAT_DBG("found path=\"%s\"\n", lpToken);
 
 		if (lpDir)
-			strncpy(lpDir, lpToken, _MAX_DIR);
+			snprintf(lpDir, _MAX_DIR, "%s", lpToken);
 
 		*lpNextToken=cSaveChar;
 		lpToken=lpNextToken;
@@ -78,7 +78,7 @@ void pBat_SplitPath(char* lpPath,
 
 
 		if (lpName)
-			strncpy(lpName, lpToken, _MAX_FNAME);
+			snprintf(lpName, _MAX_FNAME, "%s", lpToken);
 
 		*lpNextToken=cSaveChar;
 		lpToken=lpNextToken+1;
@@ -91,7 +91,7 @@ void pBat_SplitPath(char* lpPath,
 	} else {
 
 		if (lpName)
-			strncpy(lpName, lpToken, _MAX_FNAME);
+			snprintf(lpName, _MAX_FNAME, "%s", lpToken);
 
 		if (lpExt)
 			*lpExt='\0';
-- 
2.43.0


From 0095d51f506c22baf19f9fc4afffe1335198f374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 058/115] fix: read of freed memory when a path outgrows its
 buffer

---
 pbat/core/pBat_FilePath.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pbat/core/pBat_FilePath.c b/pbat/core/pBat_FilePath.c
index 3cd435a..6f354b1 100644
--- a/pbat/core/pBat_FilePath.c
+++ b/pbat/core/pBat_FilePath.c
@@ -157,6 +157,8 @@ __inline__ char* pBat_EsToFullPath(ESTR* full)
                                             PBAT_PRINT_C_ERROR,
                                             __FILE__ "/pBat_EsToFullPath()",
                                             -1);
+
+        p = TRANS(full->str); /* the buffer may have moved */
     }
 
     memmove(full->str + size + 1, p, len);
-- 
2.43.0


From 3794746c677ee9f9f7c06f1e8faea23807808b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 059/115] fix: %~1 lost the text behind the last quote

---
 pbat/core/pBat_Var.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index 92e1f1e..d748e0b 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -474,7 +474,8 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
     /* Remove any quote surrounding the argument*/
 	if (*lpPos=='"' || *lpPos=='\'') {
 
-		if ((lpNext=strrchr(lpPos, *lpPos)))
+		/* only remove the closing quote, if there is any */
+		if ((lpNext=strrchr(lpPos, *lpPos)) && !*(lpNext+1))
 			*lpNext='\0';
 
 		while (*(lpPos+1)) {
-- 
2.43.0


From 4c304eecbc3c24af591a99737c97c4fea58052cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 060/115] fix: size, time and attributes of missing files were
 random

---
 pbat/core/pBat_Var.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index d748e0b..9452ab8 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -374,7 +374,7 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
          lpFullPath[FILENAME_MAX];
 	char cFlag[PBAT_VAR_MAX_OPTION+1]= {PBAT_ALL_PATH};
 	char lpBuffer[FILENAME_MAX];
-	char bSeekFile=FALSE, bSplitPath=FALSE;
+	char bSeekFile=FALSE, bSplitPath=FALSE, bFound=FALSE;
 	char cVarName,
 	     cValidName=TRUE;
 
@@ -499,7 +499,7 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
             lpPos=pBat_EsToFullPath(lpRecieve);
 
 
-		stat(lpRecieve->str, &stFileInfo);
+		bFound=!stat(lpRecieve->str, &stFileInfo);
 
 #if defined WIN32
 		stFileInfo.st_mode=GetFileAttributes(lpRecieve->str);
@@ -569,20 +569,29 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
 				break;
 
 			case 'z':
-				sprintf(lpBuffer, "%d%c", (int)stFileInfo.st_size, (cFlag[i+1]!=0 ? '\t' : '\0'));
-				pBat_EsCat(lpRecieve, lpBuffer);
+				if (bFound) {
+					sprintf(lpBuffer, "%d", (int)stFileInfo.st_size);
+					pBat_EsCat(lpRecieve, lpBuffer);
+				}
+				if (cFlag[i+1]!=0) pBat_EsCat(lpRecieve, "\t");
 				break;
 
 			case 't':
-				localtime_r(&stFileInfo.st_atime, &lTime);
+				if (bFound) {
+					localtime_r(&stFileInfo.st_atime, &lTime);
 
-				strftime(lpBuffer, sizeof(lpBuffer), "%x %X", &lTime);
+					strftime(lpBuffer, sizeof(lpBuffer), "%x %X", &lTime);
 
-				pBat_EsCat(lpRecieve, lpBuffer);
+					pBat_EsCat(lpRecieve, lpBuffer);
+				}
 				if (cFlag[i+1]!=0) pBat_EsCat(lpRecieve, "\t");
 				break;
 
 			case 'a':
+				if (!bFound) {
+					if (cFlag[i+1]!=0) pBat_EsCat(lpRecieve, "\t");
+					break;
+				}
 				sprintf(lpBuffer, "       %c", (cFlag[i+1]!=0 ? '\t': '\0'));
 				if (stFileInfo.st_mode & PBAT_FILE_DIR) lpBuffer[0]='D';
 				if (stFileInfo.st_mode & PBAT_FILE_READONLY) lpBuffer[2]='R';
-- 
2.43.0


From 3ea90f7bd819d21c743174bb2f881864ef9f5c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 061/115] fix: confirmations never ended at the end of the
 input

---
 pbat/command/pBat_Ask.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Ask.c b/pbat/command/pBat_Ask.c
index cfa28f9..197a77a 100644
--- a/pbat/command/pBat_Ask.c
+++ b/pbat/command/pBat_Ask.c
@@ -40,16 +40,19 @@
 /* A function to override the hook that libcu8 adds on read()
    that automatically enable autocompletion, which can get
    quite problematic when asking question to the user */
-void xread(int fd, void* p, size_t sz)
+int xread(int fd, void* p, size_t sz)
 {
     size_t cnt;
 
     do {
 
-        ReadFile(_get_osfhandle(fd), p, sz, &cnt, NULL);
+        if (!ReadFile(_get_osfhandle(fd), p, sz, &cnt, NULL))
+            return -1;
 
     } while (!cnt);
 
+    return cnt;
+
 }
 #else
 #define xread(fd, p, n) read(fd, p, n)
@@ -63,7 +66,9 @@ void pBat_AskConfirmationRead(char* buffer, size_t size)
 
     while (1) {
 
-        xread(fileno(fInput), &c, 1);
+        /* the end of the input ends the answer */
+        if (xread(fileno(fInput), &c, 1) <= 0)
+            break;
 
         if (c == '\r')
             continue;
@@ -90,7 +95,7 @@ int pBat_AskConfirmation(int iFlags, void(*lpFn)(char*,size_t),  const char* lpM
 	const char *lpChoices=NULL;
 	/* char *lpLf; */
 
-	int iRet;
+	int iRet=0;
 	char lpInput[30];
 
 	if (iFlags & PBAT_ASK_YNA) {
-- 
2.43.0


From d0fb04ffab1251c0a0b989fa358f6424b8e5c7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 062/115] fix: COPY /Y asked and COPY /-Y did not

---
 pbat/command/pBat_Copy.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 184b788..3418e22 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -136,7 +136,10 @@ int pBat_CmdCopy(char* line)
         if (!stricmp("/Y", str)
             || !stricmp("/-Y", str)) {
 
-            flags |= (*(str+1)=='-') ? PBAT_COPY_SILENCE : 0;
+            if (*(str+1) == '-')
+                flags &= ~PBAT_COPY_SILENCE;
+            else
+                flags |= PBAT_COPY_SILENCE;
 
         } else if (!strnicmp("/A", str, 2)) {
 
-- 
2.43.0


From db2da51cc4ae33230d1820930029e9e7508cd683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 063/115] fix: COPY and MOVE of two files overwrote one with
 the other

---
 pbat/command/pBat_Copy.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 3418e22..7e13ee2 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -286,6 +286,7 @@ int pBat_CmdCopy(char* line)
     end = files;
 
     /* actual matching items */
+    i = 1;
     while (end && (end = end->lpflNext) && (i++ < 2));
 
     /* Cmd does not accept several file names used in with a
@@ -296,7 +297,7 @@ int pBat_CmdCopy(char* line)
         flags |= PBAT_COPY_MULTIPLE;
     }
 
-    if (i == 3) {
+    if (i >= 2) {
 
         if (!(flags & PBAT_COPY_MULTIPLE)
             && !(flags & PBAT_COPY_MOVE))
-- 
2.43.0


From a7fa2e8d6c07250bb85c0426a9d23c9ce901c288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 064/115] fix: MOVE deleted the destination before moves that
 fail

---
 pbat/command/pBat_Copy.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 7e13ee2..525a146 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -494,9 +494,12 @@ end:
 
 int pBat_MoveFile(const char* file, const char* dest)
 {
-    if ((pBat_FileExists(dest)
-         && remove(dest))
-        || rename(file, dest)) {
+    if (
+#ifdef WIN32
+        (pBat_FileExists(dest)
+         && remove(dest)) ||
+#endif
+        rename(file, dest)) {
 
         pBat_ShowErrorMessage(PBAT_UNABLE_MOVE | PBAT_PRINT_C_ERROR,
                                 file,
-- 
2.43.0


From 4b69ac096a3c88ae29a693cc218e205aa793800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 065/115] fix: COPY and MOVE of a file onto itself lost its
 content

---
 pbat/command/pBat_Copy.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 525a146..432e3f4 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -329,6 +329,20 @@ end:
     return status;
 }
 
+/* Check if both names refer to the same existing file */
+static int pBat_IsSameFile(const char* file, const char* dest)
+{
+#ifdef WIN32
+    return !stricmp(file, dest);
+#else
+    struct stat info, info2;
+
+    return !stat(file, &info) && !stat(dest, &info2)
+        && info.st_dev == info2.st_dev
+        && info.st_ino == info2.st_ino;
+#endif
+}
+
 int pBat_CmdCopyFile(char* file, const char* dest, int* flags)
 {
     int ok=1;
@@ -355,6 +369,22 @@ int pBat_CmdCopyFile(char* file, const char* dest, int* flags)
 
     }
 
+    if (!(*flags & PBAT_COPY_CAT)
+        && pBat_IsSameFile(file, dest_real->str)) {
+
+        /* copying a file onto itself would empty it */
+        if (!(*flags & PBAT_COPY_MOVE)) {
+
+            pBat_ShowErrorMessage(PBAT_UNABLE_COPY, file, 0);
+            status = PBAT_UNABLE_COPY;
+
+        }
+
+        pBat_EsFree_Cached(dest_real);
+        return status;
+
+    }
+
     if (pBat_FileExists(pBat_EsToChar(dest_real))
         && !(*flags & PBAT_COPY_SILENCE)) {
 
-- 
2.43.0


From c29c94bfbb46075c0dabc5789ad54405b0a55d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 066/115] fix: COPY + lost or endlessly repeated a file that is
 source and destination

---
 pbat/command/pBat_Copy.c | 54 +++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 432e3f4..c414749 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -87,6 +87,20 @@
 #define IS_DIR_DELIM(c) (c=='/')
 #endif // WIN32
 
+/* Check if both names refer to the same existing file */
+static int pBat_IsSameFile(const char* file, const char* dest)
+{
+#ifdef WIN32
+    return !stricmp(file, dest);
+#else
+    struct stat info, info2;
+
+    return !stat(file, &info) && !stat(dest, &info2)
+        && info.st_dev == info2.st_dev
+        && info.st_ino == info2.st_ino;
+#endif
+}
+
 int pBat__EndWithDirectoryMark(const char* dir)
 {
     char* c="";
@@ -307,6 +321,24 @@ int pBat_CmdCopy(char* line)
     }
 
 
+    if ((flags & PBAT_COPY_CAT) && files) {
+
+        /* The destination can only be the first of the files to be
+           concatenated, otherwise its content would be lost */
+        for (end = files->lpflNext; end; end = end->lpflNext) {
+
+            if (pBat_IsSameFile(end->lpFileName, file[len-1])) {
+
+                pBat_ShowErrorMessage(PBAT_UNABLE_CAT, end->lpFileName, 0);
+                status = PBAT_UNABLE_CAT;
+                goto end;
+
+            }
+
+        }
+
+    }
+
     while (files) {
 
         status |= pBat_CmdCopyFile(files->lpFileName, file[len-1], &flags);
@@ -329,20 +361,6 @@ end:
     return status;
 }
 
-/* Check if both names refer to the same existing file */
-static int pBat_IsSameFile(const char* file, const char* dest)
-{
-#ifdef WIN32
-    return !stricmp(file, dest);
-#else
-    struct stat info, info2;
-
-    return !stat(file, &info) && !stat(dest, &info2)
-        && info.st_dev == info2.st_dev
-        && info.st_ino == info2.st_ino;
-#endif
-}
-
 int pBat_CmdCopyFile(char* file, const char* dest, int* flags)
 {
     int ok=1;
@@ -667,6 +685,14 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
 
         attr |= O_APPEND;
 
+    } else if (pBat_IsSameFile(file, dest)) {
+
+        /* the content of the first file already is in place */
+        *flags |= PBAT_COPY_CAT_2ND;
+        close(old);
+
+        return PBAT_NO_ERROR;
+
     } else {
 
         *flags |= PBAT_COPY_CAT_2ND;
-- 
2.43.0


From c562bea90c47b0d00722c8a5cb5c941d4babb2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 067/115] fix: COPY + asked for each file it adds

---
 pbat/command/pBat_Copy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index c414749..c749fc3 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -404,7 +404,7 @@ int pBat_CmdCopyFile(char* file, const char* dest, int* flags)
     }
 
     if (pBat_FileExists(pBat_EsToChar(dest_real))
-        && !(*flags & PBAT_COPY_SILENCE)) {
+        && !(*flags & (PBAT_COPY_SILENCE | PBAT_COPY_CAT_2ND))) {
 
         ok = pBat_AskConfirmation(PBAT_ASK_YNA | PBAT_ASK_DEFAULT_N
                                     | PBAT_ASK_INVALID_REASK, NULL,
-- 
2.43.0


From dbfb86f575b38cbfc5b6da9afbac1b29cb26ded2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 068/115] fix: errors after a partial write were missed by COPY

---
 pbat/command/pBat_Copy.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index c749fc3..95545bf 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -619,9 +619,15 @@ int pBat_CopyFile(const char* file, const char* dest)
 
         writen = 0;
 
-        while ((writen += write(new, buf + writen, count - writen)) != count) {
+        while (writen != count) {
 
-            if (writen == -1) {
+            ssize_t ret = write(new, buf + writen, count - writen);
+
+            if (ret >= 0) {
+
+                writen += ret;
+
+            } else {
 
                 close(old);
                 close(new);
@@ -731,9 +737,15 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
 
         writen = 0;
 
-        while ((writen += write(new, buf + writen, count - writen)) != count) {
+        while (writen != count) {
+
+            ssize_t ret = write(new, buf + writen, count - writen);
+
+            if (ret >= 0) {
+
+                writen += ret;
 
-            if (writen == -1) {
+            } else {
 
                 close(old);
                 close(new);
-- 
2.43.0


From ea10f9afe4defff3df44f753468f564429e04846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 069/115] fix: MOVE /R removed directories of the destination

---
 pbat/command/pBat_Copy.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 95545bf..df924e6 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -520,9 +520,7 @@ int pBat_CmdCopyRecursive(char* file, const char* dest, short attr, int* flags)
 
         while (item) {
 
-            pBat_MakePath(real_dest, 2, dest, (item->lpFileName)+(size+1));
-
-            status = pBat_Rmdir(real_dest->str);
+            status |= pBat_Rmdir(item->lpFileName);
 
             item = item->lpflNext;
 
-- 
2.43.0


From 4f2ff4d2d19bdad8e79a9c86bc97fc6768b1de13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 070/115] fix: DEL /P did not ask

---
 pbat/command/pBat_Del.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Del.c b/pbat/command/pBat_Del.c
index 95ab3c4..194dba7 100644
--- a/pbat/command/pBat_Del.c
+++ b/pbat/command/pBat_Del.c
@@ -93,6 +93,7 @@ int pBat_CmdDel(char* lpLine)
 
 			/* Ask before suppressing */
 			param|=PBAT_ASK_CONFIRMATION;
+			choice = 0;
 
 		} else if (!stricmp(lpToken, "/F")) {
 
-- 
2.43.0


From 9d1d7e965212c5449704b9a396eca0be969cbe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 071/115] fix: RD succeeded when the directory could not be
 removed

---
 pbat/command/pBat_Rmdir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Rmdir.c b/pbat/command/pBat_Rmdir.c
index c8c9065..25c1205 100644
--- a/pbat/command/pBat_Rmdir.c
+++ b/pbat/command/pBat_Rmdir.c
@@ -153,7 +153,7 @@ int pBat_CmdRmdir(char* lpLine)
 
         /* This is simple case where we just need to remove the dir */
         choice = PBAT_ASK_ALL;
-        pBat_CmdRmdirFile(name[0], param, &choice);
+        status = pBat_CmdRmdirFile(name[0], param, &choice);
 
     } else if (n == 0) {
 
-- 
2.43.0


From e22543b640cca95fcd2668b83c9802840492e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 072/115] fix: RD deleted files

---
 pbat/command/pBat_Rmdir.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pbat/command/pBat_Rmdir.c b/pbat/command/pBat_Rmdir.c
index 25c1205..5845c8c 100644
--- a/pbat/command/pBat_Rmdir.c
+++ b/pbat/command/pBat_Rmdir.c
@@ -166,6 +166,17 @@ int pBat_CmdRmdir(char* lpLine)
 
         for (i=0; i < n; i++) {
 
+            if (pBat_FileExists(name[i])) {
+
+                /* files are none of our business */
+                pBat_ShowErrorMessage(PBAT_UNABLE_RMDIR, name[i], 0);
+                status = PBAT_UNABLE_RMDIR;
+
+                pBat_FreeFileList(files);
+                goto end;
+
+            }
+
             if (!(dir = pBat_GetMatchFileList(name[i], mode))) {
 
                 pBat_ShowErrorMessage(PBAT_NO_MATCH,
@@ -173,6 +184,7 @@ int pBat_CmdRmdir(char* lpLine)
                                         FALSE);
                 status = PBAT_NO_MATCH;
 
+                pBat_FreeFileList(files);
                 goto end;
             }
 
-- 
2.43.0


From 55cc32c7f2603b432afed90a945c14b00dd6f87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:11 +0000
Subject: [PATCH 073/115] fix: TYPE lost files when several names were given

---
 pbat/command/pBat_Type.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pbat/command/pBat_Type.c b/pbat/command/pBat_Type.c
index 87af0ff..d923aba 100644
--- a/pbat/command/pBat_Type.c
+++ b/pbat/command/pBat_Type.c
@@ -146,6 +146,9 @@ int pBat_CmdType(char* lpLine)
             else
                 pEnd->lpflNext = pTmp; /* catenate the lists */
 
+            while (pEnd->lpflNext)
+                pEnd = pEnd->lpflNext;
+
         }
 
     }
-- 
2.43.0


From 7e4fa39a1c979938096bbe4eefea448d84fe9954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:11 +0000
Subject: [PATCH 074/115] fix: FIND crashed on a file that can not be opened

---
 pbat/command/pBat_Find.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Find.c b/pbat/command/pBat_Find.c
index a58cfa4..2c455aa 100644
--- a/pbat/command/pBat_Find.c
+++ b/pbat/command/pBat_Find.c
@@ -93,9 +93,9 @@ int pBat_FileFind(char* restrict str, char* restrict name, int count, int flag,
                                 name,
                                 FALSE
                                 );
-        i = 0;
+        pBat_EsFree_Cached(lpEsLine);
 
-        goto end;
+        return 1;
 
     }
 
@@ -148,7 +148,6 @@ int pBat_FileFind(char* restrict str, char* restrict name, int count, int flag,
         fprintf(fOutput, "%d" PBAT_NL, i);
 
 
-end:
     pBat_EsFree_Cached(lpEsLine);
     if (name)
         fclose(pFile); /* do no close stdin, please */
-- 
2.43.0


From b8e3b1ed79d6e20d40402ee7ac1eb3b231f9d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:11 +0000
Subject: [PATCH 075/115] fix: WC missed the last word of a file

---
 pbat/command/pBat_Wc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/command/pBat_Wc.c b/pbat/command/pBat_Wc.c
index 8c882cd..0a90fee 100644
--- a/pbat/command/pBat_Wc.c
+++ b/pbat/command/pBat_Wc.c
@@ -145,6 +145,10 @@ int pBat_FileCounts(int mode, const char* file, struct wc_count_t* cnt)
 
     }
 
+    /* the last word may end with the file */
+    if (inword)
+        cnt->words ++;
+
     /* Wait ... Fool, were you just about to close a file that could refer
        to stdin ? double check it's not so before closing the file */
     if (fd != fileno(fInput)) {
-- 
2.43.0


From 5e10c9abac796bdfea6fcaf394170f99fb6873d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:11 +0000
Subject: [PATCH 076/115] fix: WC printed nothing for its input without a
 switch

---
 pbat/command/pBat_Wc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Wc.c b/pbat/command/pBat_Wc.c
index 0a90fee..a33ff29 100644
--- a/pbat/command/pBat_Wc.c
+++ b/pbat/command/pBat_Wc.c
@@ -297,6 +297,10 @@ int pBat_CmdWc(char* line)
         }
     }
 
+    /* Count bytes by default */
+    if (mode == 0)
+        mode = PBAT_WC_BYTES;
+
     /* Display no error about file given ... */
     if (match == NULL) {
         /* Something to do with stdin */
@@ -304,10 +308,6 @@ int pBat_CmdWc(char* line)
         pBat_PrintCounts(mode, &cnt, NULL);
     }
 
-    /* Count bytes by default */
-    if (mode == 0)
-        mode = PBAT_WC_BYTES;
-
     /* Perform count on files */
     item = match;
     while (item) {
-- 
2.43.0


From b6e54ee83fb3cfaba2b701029f2f81b1aada71b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 077/115] fix: MORE lost the blank lines after a line as wide
 as the page

---
 pbat/command/pBat_More.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 8dabdb0..228a16a 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -452,9 +452,13 @@ static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file)
                     if (blank && (flags & PBAT_MORE_SQUEEZE))
                         continue;
 
-                    if (cr)
+                    if (cr) {
+
+                        cr = 0;
                         continue;
 
+                    }
+
                     blank = 1;
 
                 } else {
-- 
2.43.0


From 2c3c57579cc591cbdbca54f3c41d922e6cc5a420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 078/115] fix: MORE /T:0 divided by zero

---
 pbat/command/pBat_More.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 228a16a..dabecf3 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -104,7 +104,7 @@ int pBat_CmdMore(char* line)
 
             tabsize = strtol(ptr, &ret, 0);
 
-            if (*ret) {
+            if (*ret || tabsize <= 0) {
 
                 pBat_ShowErrorMessage(PBAT_INVALID_NUMBER,
                                         ptr,
-- 
2.43.0


From 144374ae2cffd671deea1556c4c332c6c9d593d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 079/115] fix: MORE crashed on a file that can not be opened

---
 pbat/command/pBat_More.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index dabecf3..c2f7505 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -257,9 +257,7 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
                                     FALSE
                                     );
 
-            status = PBAT_FILE_ERROR;
-
-            goto end;
+            return PBAT_FILE_ERROR;
         }
 
      } else {
-- 
2.43.0


From af4cb034247dbc3bba32ffd077c70fb1a2e56950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 080/115] fix: MORE wrote a byte more for an unfinished escape
 code

---
 pbat/command/pBat_More.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index c2f7505..7cd2ea3 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -426,7 +426,8 @@ static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file)
                     while (((c = fgetc(file)) != EOF) && !(c <= '~' && c >= '@'))
                         more_fputc(c, fOutput);
 
-                    more_fputc(c, fOutput);
+                    if (c != EOF)
+                        more_fputc(c, fOutput);
 
                     break;
 
-- 
2.43.0


From 9aedfb98a26cb7c6e6509ea521c9421e5077660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 081/115] fix: MORE lost a blank line at the top of a file
 because of the file before

---
 pbat/command/pBat_More.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 7cd2ea3..4e5e5d0 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -44,6 +44,10 @@
 static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file);
 static int pBat_MorePrompt(FILE* fIn, int* toprint, int* skip, int* ok);
 
+static __thread int blank=0,
+            cr=0; /* a carriot return was included at the end of
+                     the preceding line */
+
 int pBat_CmdMore(char* line)
 {
 
@@ -266,6 +270,9 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
 
      }
 
+     /* every file starts anew */
+     blank = cr = 0;
+
      if (!(flags & PBAT_MORE_INTERACTIVE)) {
 
         /* if we do not output in a tty, do not perform user interaction */
@@ -366,10 +373,6 @@ static int pBat_MoreWriteLine(int* begin, int flags, int tabsize, FILE* file)
         col=0,
         ncol;
 
-    static __thread int blank=0,
-                cr=0; /* a carriot return was included at the end of
-                         the preceding line */
-
     int(*more_fputc)(int,FILE*)=fputc;
 
 #ifdef WIN32
-- 
2.43.0


From 78de0c4fae493e1344ce1a3dbd266b01c6a24500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:27 +0000
Subject: [PATCH 082/115] fix: FIND searched directories

---
 pbat/command/pBat_Find.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Find.c b/pbat/command/pBat_Find.c
index 2c455aa..4bef0b3 100644
--- a/pbat/command/pBat_Find.c
+++ b/pbat/command/pBat_Find.c
@@ -284,7 +284,7 @@ int pBat_CmdFind(char* lpLine)
     }
 
     /* split directories from input */
-    pBat_AttributesSplitFileList(PBAT_CMD_ATTR_DIR_N,
+    pBat_AttributesSplitFileList(PBAT_ATTR_NO_DIR,
                                     pBegin,
                                     &pBegin,
                                     &pTmp
-- 
2.43.0


From 5a8291b8ce98327bd453fa79d90f87281e6e3576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:59 +0000
Subject: [PATCH 083/115] fix: EXIT ignored its code

---
 pbat/command/pBat_Exit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Exit.c b/pbat/command/pBat_Exit.c
index cccd839..a80ff71 100644
--- a/pbat/command/pBat_Exit.c
+++ b/pbat/command/pBat_Exit.c
@@ -91,7 +91,7 @@ int pBat_CmdExit(char* lpLine)
 
 		} else {
 
-			ret = atoi(ntoken);
+			ret = atoi(param->str);
 
 		}
 	}
-- 
2.43.0


From 9b94ca138268db0258ffb966f2d998c625fd43fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:59 +0000
Subject: [PATCH 084/115] fix: EXIT /B took trailing blanks for a parameter

---
 pbat/command/pBat_Exit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Exit.c b/pbat/command/pBat_Exit.c
index a80ff71..a296c27 100644
--- a/pbat/command/pBat_Exit.c
+++ b/pbat/command/pBat_Exit.c
@@ -73,7 +73,7 @@ int pBat_CmdExit(char* lpLine)
 
             if ((ntoken = pBat_GetNextParameterEs(ntoken, param))) {
 
-                if (*ntoken) {
+                if (*(ntoken = pBat_SkipAllBlanks(ntoken))) {
 
                     pBat_ShowErrorMessage(PBAT_UNEXPECTED_ELEMENT, ntoken, 0);
                     pBat_EsFree_Cached(param);
-- 
2.43.0


From d893af2dd0889e15468b8f915443730e006f0434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:59 +0000
Subject: [PATCH 085/115] fix: parameters of programs and scripts were expanded
 twice

---
 pbat/core/pBat_Args.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pbat/core/pBat_Args.c b/pbat/core/pBat_Args.c
index c917bca..2a21cb0 100644
--- a/pbat/core/pBat_Args.c
+++ b/pbat/core/pBat_Args.c
@@ -326,8 +326,6 @@ struct PARAMLIST* pBat_GetParamList(char* lpLine)
         next->next = NULL;
         next->param = lpParam;
 
-		pBat_DelayedExpand(lpParam);
-
 		lpParam=pBat_EsInit_Cached();
 
 		lpLine=lpNext;
-- 
2.43.0


From f94d8c6ca578b6081a1f1be962fa7769a42b54b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:37 +0000
Subject: [PATCH 086/115] fix: programs inherited variables that had been
 removed

---
 pbat/core/pBat_Env.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index ac812d3..301ddaa 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -22,6 +22,10 @@
  #define _XOPEN_SOURCE 700
  #endif
 
+ #ifndef _DEFAULT_SOURCE
+ #define _DEFAULT_SOURCE
+ #endif
+
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -419,6 +423,11 @@ void pBat_ApplyEnv(ENVBUF* pEnv)
     int i;
     ESTR* exp = pBat_EsInit_Cached();
 
+    #if !defined(WIN32)
+    /* variables that have been removed must not be inherited */
+    clearenv();
+    #endif
+
     for (i=0; i < pEnv->index; i++) {
 
         if (pEnv->envbuf[i]->content == NULL)
-- 
2.43.0


From d20364a6897288a8e83ab1d3280f94d2131497e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:59 +0000
Subject: [PATCH 087/115] fix: programs ended by a signal succeeded

---
 pbat/core/pBat_Exec.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 7481b63..e7af333 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -369,6 +369,10 @@ int pBat_RunFile(EXECINFO* info, int* error)
 
 	}
 
+	/* a program ended by a signal failed */
+	if (WIFSIGNALED(iResult))
+		return 128 + WTERMSIG(iResult);
+
 	return WEXITSTATUS(iResult);
 
 }
-- 
2.43.0


From 787442a62311bfb520ed3da1dbee0d632783b502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 088/115] fix: output written before a program came after its
 output, or twice

---
 pbat/core/pBat_Exec.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index e7af333..39262ca 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -291,6 +291,11 @@ int pBat_RunFile(EXECINFO* info, int* error)
                                 __FILE__ "/pBat_RunFile()",
                                 -1);
 
+	/* what has been written so far comes before the output of the program
+	   and must not be written again by the son */
+	fflush(_fOutput);
+	fflush(_fError);
+
 	iPid=fork();
 
 	if (iPid == 0 ) {
@@ -333,7 +338,7 @@ int pBat_RunFile(EXECINFO* info, int* error)
             write(fds[1], "x", 1);
             close(fds[1]);
 
-			exit(-1);
+			_exit(-1);
 
 
 		}
@@ -553,6 +558,9 @@ int pBat_StartFile(EXECINFO* info, int* error)
     if (!script)
         script = START_SCRIPT;
 
+    fflush(_fOutput);
+    fflush(_fError);
+
     pid = fork();
 
     if (pid == 0) {
-- 
2.43.0


From 85f8d9cfe3b9a14b88b179a40a7ecfb8d9fbbe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 089/115] fix: output written before a script came after its
 output

---
 pbat/core/pBat_Clone.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/core/pBat_Clone.c b/pbat/core/pBat_Clone.c
index 7b63111..8e4c82f 100644
--- a/pbat/core/pBat_Clone.c
+++ b/pbat/core/pBat_Clone.c
@@ -122,6 +122,10 @@ int pBat_DuplicateData(struct clone_data_t* data)
         pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION | PBAT_PRINT_C_ERROR,
                                __FILE__ "/pBat_DuplicateData()", -1);
 
+    /* what has been written so far comes before the output of the clone */
+    fflush(_fOutput);
+    fflush(_fError);
+
     data->lpvLocalVars = pBat_DuplicateLocalVar(lpvLocalVars);
     data->lpvArguments = pBat_DuplicateLocalVar(lpvArguments);
 
-- 
2.43.0


From a30cf089cb27603ab735835f89aeb3b7efafaeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:04 +0000
Subject: [PATCH 090/115] fix: EXIT in a script run by CALL freed variables on
 the stack

---
 pbat/command/pBat_Call.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index f188ac9..fa869dd 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -234,10 +234,10 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 {
 	INPUT_FILE ifOldFile;
 	LOCAL_VAR_BLOCK* lpvOldBlock;
-	LOCAL_VAR_BLOCK lpvTmpBlock[LOCAL_VAR_BLOCK_SIZE]={NULL};
+	LOCAL_VAR_BLOCK* lpvTmpBlock;
 	LOCAL_VAR_BLOCK* lpvOldArgs;
 	ENVSTACK* lpesOldScope;
-	LOCAL_VAR_BLOCK lpvTmpArgs[LOCAL_VAR_BLOCK_SIZE]={NULL};
+	LOCAL_VAR_BLOCK* lpvTmpArgs;
 	char lpAbsPath[FILENAME_MAX];
 	int status = PBAT_NO_ERROR;
 
@@ -247,6 +247,10 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 	int   c='1',
 	      iLockState;
 
+	/* EXIT frees the blocks of variables in use */
+	lpvTmpBlock = pBat_GetLocalBlock();
+	lpvTmpArgs = pBat_GetLocalBlock();
+
     if (lpFile != NULL
         && pBat_GetFileFullPath(lpAbsPath, lpFile, sizeof(lpAbsPath))==-1) {
 
@@ -282,6 +286,8 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 
 		pBat_ShowErrorMessage(PBAT_LABEL_ERROR, lpLabel, FALSE);
 
+		memcpy(&ifIn, &ifOldFile, sizeof(INPUT_FILE));
+
 		status = PBAT_LABEL_ERROR;
 		goto error;
 
@@ -367,20 +373,6 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 
 	pBat_SetStreamStackLockState(lppsStreamStack, iLockState);
 
-	/* free variables that have been allocated while
-	   executing the batch script (or the function) */
-
-	for (c=0; c < LOCAL_VAR_BLOCK_SIZE; c++) {
-
-        if (pBat_IsLocalVarValid(c)) {
-            /* This is really important to prevent any kind of memory
-               leakage */
-
-            pBat_SetLocalVar(lpvLocalVars, c, NULL);
-            pBat_SetLocalVar(lpvArguments, c, NULL);
-        }
-	}
-
 	/* free the newly allocated batch script */
     pBat_FreeBatchScript(&(ifIn.batch));
 
@@ -391,6 +383,12 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 	lpvArguments = lpvOldArgs;
 
 error:
+	/* free variables that have been allocated while
+	   executing the batch script (or the function) */
+
+	pBat_FreeLocalBlock(lpvTmpBlock);
+	pBat_FreeLocalBlock(lpvTmpArgs);
+
 	pBat_EsFree_Cached(lpEsParam);
 	return status ? status : iErrorLevel; /* do not affect errorlevel */
 }
-- 
2.43.0


From c65030453d7b33785a8bb90613f5f551a1096a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:04 +0000
Subject: [PATCH 091/115] fix: IF and FOR lost the error level of their
 commands

---
 pbat/command/pBat_For.c | 3 ++-
 pbat/command/pBat_If.c  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index d9aa0fc..e685c0c 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -358,7 +358,8 @@ error:
 	if (!lpplLine && line)
         pBat_FreeParsedLine(line);
 
-	return status;
+	/* ERRORLEVEL is the one of the last command that FOR runs, if any */
+	return status ? status : iErrorLevel;
 }
 
 /* skip delimiters, a quote being the start of an element */
diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index c4b0234..19143b0 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -439,7 +439,8 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
     if (lpplLine)
         *lpplLine = NULL;
 
-	return 0;
+	/* ERRORLEVEL is the one of the commands that IF runs, if any */
+	return iErrorLevel;
 }
 
 /* Get the value from the chain pointed to by *number and return a value
-- 
2.43.0


From a27737b69b71981a844bbf66f6874a0d868f12c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:24 +0000
Subject: [PATCH 092/115] fix: a failed CALL kept a copy of the script of its
 caller

---
 pbat/command/pBat_Call.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index fa869dd..e27e4a2 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -286,6 +286,8 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 
 		pBat_ShowErrorMessage(PBAT_LABEL_ERROR, lpLabel, FALSE);
 
+		/* the caller goes on with its own script */
+		pBat_FreeBatchScript(&(ifIn.batch));
 		memcpy(&ifIn, &ifOldFile, sizeof(INPUT_FILE));
 
 		status = PBAT_LABEL_ERROR;
-- 
2.43.0


From 6e5aec86c2108edba1d9ccefbc8e6a23b5b6197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:05 +0000
Subject: [PATCH 093/115] fix: a FOR whose list is not closed read behind the
 line

---
 pbat/core/pBat_Args.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Args.c b/pbat/core/pBat_Args.c
index 2a21cb0..4714083 100644
--- a/pbat/core/pBat_Args.c
+++ b/pbat/core/pBat_Args.c
@@ -171,7 +171,8 @@ char* pBat_GetNextBlockEs(char* lpLine, ESTR* lpReturn)
 	/* replace delayed expansion */
 	pBat_DelayedExpand(lpReturn);
 
-	return lpNext+1;
+	/* a block that is not closed ends with the line */
+	return (*lpNext) ? lpNext+1 : lpNext;
 
 }
 
-- 
2.43.0


From b00a7700f448cecc2fb6007d013d952edaf12cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:25 +0000
Subject: [PATCH 094/115] fix: a command found after delayed expansion of its
 line ran for ever

---
 pbat/core/pBat_Run.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 0fd859f..7869e56 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -394,7 +394,7 @@ int pBat_RunCommand(ESTR* lpCommand, PARSED_LINE** lpplLine)
 	char lpErrorlevel[sizeof(STR(INT_MIN))],
          lpTmpLine[]="CD X:";
 	char *lpCmdLine, *tmp;
-	int iFlag, error = 0;
+	int iFlag, error = 0, last;
 
 RestartSearch:
 
@@ -421,8 +421,13 @@ RestartSearch:
 
 	case -1:
 
+		last = error;
 		iErrorLevel = pBat_RunExternalCommand(lpCmdLine, &error);
 
+		/* the command has been found, do not run it again */
+		if (error == last)
+			break;
+
 		/* There is definitely an error that prevent the file
 		   from being found. Thus, try another time, but expanding
 		   the whole line for this moment. This behaviour appears to
-- 
2.43.0


From c59412edb9170a112fe3cb374ea32057959f2ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:56 +0000
Subject: [PATCH 095/115] fix: MOVE /? crashed, REN /? showed the help of REM

---
 pbat/lang/pBat_ShowHelp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pbat/lang/pBat_ShowHelp.c b/pbat/lang/pBat_ShowHelp.c
index 947d2c8..151064a 100644
--- a/pbat/lang/pBat_ShowHelp.c
+++ b/pbat/lang/pBat_ShowHelp.c
@@ -66,6 +66,10 @@ void pBat_LoadInternalHelp(void)
 	    =gettext("Copy file(s) to another location.\n"
 	             "Usage: COPY [/R] [/-Y | /Y] [/A[:]attributes] source [+] ... destination\n");
 
+	lpInternalHelp[PBAT_HELP_MOVE]
+	    =gettext("Move file(s) to another location.\n"
+	             "Usage: MOVE [/R] [/-Y | /Y] [/A[:]attributes] source ... destination\n");
+
 	lpInternalHelp[PBAT_HELP_CALL]
 	    =gettext("Call a script or a label from the current context.\n"
 	             "Usage: CALL [/e] [file] [:label] [parameters ...]\n");
@@ -138,7 +142,7 @@ void pBat_LoadInternalHelp(void)
 	             "Usage: REN file name.ext\n"
 	             "       RENAME file name.ext\n");
 
-	lpInternalHelp[PBAT_HELP_REN]
+	lpInternalHelp[PBAT_HELP_REM]
 	    =gettext("Introduce a comment.\n"
 	             "Usage: REM comment\n");
 
-- 
2.43.0


From 642b52b4bd4d630732fef4650bec483884f56e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:24 +0000
Subject: [PATCH 096/115] fix: DUMP /B never ended

---
 dump/dump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dump/dump.c b/dump/dump.c
index efcb24b..8a95d65 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -362,7 +362,7 @@ int main(int argc, char** argv)
 
             flags &= ~ DUMP_DEFAULT;
 
-            while (*argv) {
+            while (**argv) {
                 switch (**argv) {
 
                 case 'a':
-- 
2.43.0


From 3211f793ac40f3aa9281ea7976bc09753ff4370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:24 +0000
Subject: [PATCH 097/115] fix: DUMP /T took ULL, F and D for other types

---
 dump/dump.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dump/dump.c b/dump/dump.c
index 8a95d65..d06d809 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -51,10 +51,10 @@
 #define DUMP_USHORT 3
 #define DUMP_INT 4
 #define DUMP_UINT 5
-#define DUMP_LONGLONG 5
-#define DUMP_ULONGLONG 6
-#define DUMP_FLOAT 7
-#define DUMP_DOUBLE 8
+#define DUMP_LONGLONG 6
+#define DUMP_ULONGLONG 7
+#define DUMP_FLOAT 8
+#define DUMP_DOUBLE 9
 
 #define DUMP_ADDRESS 0x1
 #define DUMP_TITLE 0x2
-- 
2.43.0


From 5796b1e4a8f90e35f00356be59353a5d531c8507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:24 +0000
Subject: [PATCH 098/115] fix: DUMP /H showed sign bits, and nothing for
 floating types

---
 dump/dump.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/dump/dump.c b/dump/dump.c
index d06d809..e2ca65c 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -193,6 +193,29 @@ void fill_context(int type, int flags, struct dump_t* context)
                                 / (size + s + c);
     context->width = size;
     context->flags = flags;
+
+    /* hexadecimal shows the bits of the elements, hence print them as
+       unsigned integers of the same size */
+    if (flags & DUMP_HEX) {
+
+        switch (types[type].size) {
+        case sizeof(char):
+            type = DUMP_UCHAR;
+            break;
+
+        case sizeof(short):
+            type = DUMP_USHORT;
+            break;
+
+        case sizeof(int):
+            type = DUMP_UINT;
+            break;
+
+        default:
+            type = DUMP_ULONGLONG;
+        }
+    }
+
     context->type = type;
 }
 
-- 
2.43.0


From 9e11f9932e8dc839e07c4f681d98492c36b65073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:24 +0000
Subject: [PATCH 099/115] fix: DUMP showed characters of the previous line
 behind the end of the file

---
 dump/dump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dump/dump.c b/dump/dump.c
index e2ca65c..6cae018 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -300,7 +300,7 @@ int dump_fd(int fd, struct dump_t* context)
 
             p = chars;
 
-            while (p < chars + size) {
+            while (p < chars + count) {
 
                 if (*p < 0x20)
                     *p = '.';
-- 
2.43.0


From b69fe11103cee5569f421722a94eb2dd10182d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:24 +0000
Subject: [PATCH 100/115] fix: DUMP padded what a pipe gave in pieces, and ran
 for ever on a read error

---
 dump/dump.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/dump/dump.c b/dump/dump.c
index 6cae018..07a3c38 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -235,6 +235,24 @@ int get_type(const char* type)
     return -1;
 }
 
+/* Read until the buffer is full or the end of the file is reached, as pipes
+   and terminals may give less than what is asked for */
+int read_all(int fd, char* data, int size)
+{
+    int count = 0, n;
+
+    while (count < size
+            && (n = read(fd, data + count, size - count))) {
+
+        if (n == -1)
+            return -1;
+
+        count += n;
+    }
+
+    return count;
+}
+
 int dump_fd(int fd, struct dump_t* context)
 {
     char *chars, *data, *p, *addr = NULL, *spaces;
@@ -251,7 +269,7 @@ int dump_fd(int fd, struct dump_t* context)
 
     spaces = (context->flags & DUMP_QUIET) ? "" : " ";
 
-    while ((count = read(fd, data, size))) {
+    while ((count = read_all(fd, data, size)) > 0) {
 
         if (count < size) {
              /* we reached eof and count is not a multiple of the
@@ -321,6 +339,13 @@ int dump_fd(int fd, struct dump_t* context)
     free(chars);
     free(data);
 
+    if (count == -1) {
+
+        fprintf(stderr, "dump: unable to read.\n");
+        return -1;
+
+    }
+
     return 0;
 
 }
-- 
2.43.0


From aa1be88ff7eaa4680f469d49a54b4c6faf50cdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:58 +0000
Subject: [PATCH 101/115] fix: PBATIZE left the first letter of what it
 replaced and took one behind it

---
 libpbat/estr/pBat_Estr.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/libpbat/estr/pBat_Estr.c b/libpbat/estr/pBat_Estr.c
index c649590..1f58f34 100644
--- a/libpbat/estr/pBat_Estr.c
+++ b/libpbat/estr/pBat_Estr.c
@@ -447,16 +447,11 @@ char * stristr(const char* str, const char *pattern)
     c = tolower(*pattern++);
     size = strlen(pattern);
 
-    do {
+    for (; *str; str++)
+        if (c == tolower(*str) && !strnicmp(str + 1, pattern, size))
+            return (char *)str;
 
-        while (*str && c != tolower(*str++));
-
-        if (*str == '\0')
-            return NULL;
-
-    } while (strnicmp(str, pattern, size));
-
-    return (char *)str;
+    return NULL;
 
 }
 
-- 
2.43.0


From 307aca143aca97e5abf9b03368cb7e344bc1b3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:58 +0000
Subject: [PATCH 102/115] fix: PBATIZE lost the file when its output is its
 input

---
 pbatize/pbatize.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbatize/pbatize.c b/pbatize/pbatize.c
index 175e4fb..4e4c99f 100644
--- a/pbatize/pbatize.c
+++ b/pbatize/pbatize.c
@@ -98,6 +98,10 @@ int main(int argc, char* argv[])
 	if (!(input = fopen(argv[1], "r")))
 		ERROR("Unable to open \"%s\".\n", argv[1]);
 
+	/* Get the content of the input file, before it is maybe overwritten */
+	read_file(input, content);
+	fclose(input);
+
 	if (argc > 2) {
 	
 		if (!(output = fopen(argv[2], "w+")))
@@ -109,10 +113,6 @@ int main(int argc, char* argv[])
 	
 	}
 	
-	/* Get the content of the input file */
-	read_file(input, content);
-	fclose(input);
-
     /* First, force the use of spaces between switches */
     while (commands[i].cmd != NULL) {
 
-- 
2.43.0


From ce94b9c1588921898424fdfa003dc756cf84435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:05 +0000
Subject: [PATCH 103/115] fix: a damaged message catalogue was read behind its
 end

---
 microgettext/microgettext.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/microgettext/microgettext.c b/microgettext/microgettext.c
index 57f2f7f..0e2296c 100644
--- a/microgettext/microgettext.c
+++ b/microgettext/microgettext.c
@@ -342,7 +342,9 @@ int microgettext_make_array(const char** array, size_t nitems,
     char* char_buf = buf;
 
     /* Just check there's enough room for the whole table */
-    if (microgettext_check_bounds(len, char, offset + 2 * nitems * sizeof(int)))
+    if (offset < 0
+        || offset > len
+        || nitems > (len - offset) / (2 * sizeof(int)))
         return -1;
 
     /* Use this cast because offset*sizeof(char) is not always a multiple of
@@ -353,7 +355,9 @@ int microgettext_make_array(const char** array, size_t nitems,
 
         /* Just check that there is enough room in the file to find
            the strings */
-        if (microgettext_check_bounds(len, char, int_buf[2*i + 1]))
+        if (int_buf[2*i + 1] < 0
+            || microgettext_check_bounds(len, char, int_buf[2*i + 1])
+            || memchr(buf + int_buf[2*i + 1], '\0', len - int_buf[2*i + 1]) == NULL)
             return -1;
 
         array[i] = buf + int_buf[2*i + 1];
@@ -382,8 +386,7 @@ int microgettext_load_mofile(struct domain_t* restrict d,
 
     /* Check that we've got the magic number at position 0 */
     if (microgettext_check_bounds(len, int, 4)
-        && (int_buf[0] != 0x950412de)
-        && (int_buf[0] != 0xde120495))
+        || (int_buf[0] != 0x950412de))
         goto error;
 
 
-- 
2.43.0


From bf25e5dd41c7b95d37d3782046abbdec6a63d9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:05 +0000
Subject: [PATCH 104/115] fix: each translated message leaked the name of its
 catalogue

---
 microgettext/microgettext.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/microgettext/microgettext.c b/microgettext/microgettext.c
index 0e2296c..2050486 100644
--- a/microgettext/microgettext.c
+++ b/microgettext/microgettext.c
@@ -596,7 +596,9 @@ const char* dcgettext(const char* restrict d, const char* restrict msg,
         /* load the content of the mo file */
         if (microgettext_load_mofile(item, moname))
             goto error;
-    }
+
+    } else
+        free(moname);
 
     if ((i = microgettext_get_index(key, item->strings, item->nb,
                                      sizeof(char**), microgettext_strcmp)) != -1)
-- 
2.43.0


From 6ec000fa11e332eb65b7a3442a252b74815b29a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:30 +0000
Subject: [PATCH 105/115] fix: libcu8_convert overflowed and leaked its buffer
 when a character was cut

---
 libcu8/src/encoding.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/libcu8/src/encoding.c b/libcu8/src/encoding.c
index 39cfcaa..7e9c354 100644
--- a/libcu8/src/encoding.c
+++ b/libcu8/src/encoding.c
@@ -259,13 +259,12 @@ __LIBCU8__IMP __cdecl char* libcu8_convert(int mode, const char* src,
         /* if we have trailing unconverted characters from a previous
            conversion, allocate a new buffer that can hold the full buffer */
 
-        size += *rcount;
-
-        if ((tmp = malloc (size)) == NULL)
+        if ((tmp = malloc (size + *rcount)) == NULL)
             return NULL;
 
         memcpy(tmp, remainder, *rcount);
         memcpy(tmp + *rcount, src, size);
+        size += *rcount;
         *rcount = 0;
 
         src = tmp;
@@ -273,6 +272,13 @@ __LIBCU8__IMP __cdecl char* libcu8_convert(int mode, const char* src,
 
     context = libcu8_mode2context(mode);
 
+    if (context == (iconv_t) -1) {
+
+        free(tmp);
+        return NULL;
+
+    }
+
     /* reset iconv context */
     iconv(context, NULL, NULL, &chunk, &chunk_size);
 
@@ -350,6 +356,8 @@ next:
         iconv_close(context);
         if (ret)
             free(ret);
+        if (tmp)
+            free(tmp);
         return NULL;
 
     }
@@ -358,6 +366,9 @@ next:
 
     iconv_close(context);
 
+    if (tmp)
+        free(tmp);
+
     return ret;
 
 }
-- 
2.43.0


From 4f197d72b733a25758cb0cdbad5ef954bf23d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:30 +0000
Subject: [PATCH 106/115] fix: libcu8 lost text that ended near a byte that no
 UTF-8 has

---
 libcu8/src/iconv/iconv.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/libcu8/src/iconv/iconv.c b/libcu8/src/iconv/iconv.c
index 3b489ff..bf38516 100644
--- a/libcu8/src/iconv/iconv.c
+++ b/libcu8/src/iconv/iconv.c
@@ -1326,8 +1326,6 @@ utf8_mblen(csconv_t *cv UNUSED, const uchar *buf, int bufsize)
     else if ((buf[0] & 0xE0) == 0xC0) len = 2;
     else if ((buf[0] & 0xF0) == 0xE0) len = 3;
     else if ((buf[0] & 0xF8) == 0xF0) len = 4;
-    else if ((buf[0] & 0xFC) == 0xF8) len = 5;
-    else if ((buf[0] & 0xFE) == 0xFC) len = 6;
 
     if (len == 0)
         return seterror(EILSEQ);
-- 
2.43.0


From 8c00674db0ae02a43a7ed005328ccbef8bc1e2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:30 +0000
Subject: [PATCH 107/115] fix: libcu8_fgets lost the end of the last character
 of a file, fgetc gave negative bytes

---
 libcu8/src/read.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libcu8/src/read.c b/libcu8/src/read.c
index 05a5262..514008c 100644
--- a/libcu8/src/read.c
+++ b/libcu8/src/read.c
@@ -52,7 +52,7 @@ __LIBCU8__IMP __cdecl int libcu8_fgetc(FILE *f)
     if (ret == NULL)
         return EOF;
     else
-        return buf[0];
+        return (unsigned char)buf[0];
 
 }
 
@@ -62,10 +62,11 @@ __LIBCU8__IMP __cdecl char* libcu8_fgets(char* buf, int s, FILE* f)
     char* const orig = buf;
     size_t written, sz = s;
 
-    /* quick abort if buf is null or if the file is at EOF */
+    /* quick abort if buf is null or if the file is at EOF and nothing read
+       from it is left in the buffer */
     if (buf == NULL
         || sz == 0
-        || feof(f))
+        || (feof(f) && libcu8_fd_buffers[fileno(f)].len == 0))
         return NULL;
 
     /* if there is only one byte available in buf, stuff it with a 0 and
@@ -111,7 +112,7 @@ __LIBCU8__IMP __cdecl char* libcu8_fgets(char* buf, int s, FILE* f)
 
     /* Add the null terminator */
     if (written <= sz
-        && written != 0)
+        && (written != 0 || buf != orig))
         *(buf + written) = '\0';
     else
         return NULL;
-- 
2.43.0


From 982a37a2de2461ebb7ff4b90bd12d32da0c1b85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:30 +0000
Subject: [PATCH 108/115] fix: libcu8_fprintf printed nothing when the text was
 longer than its buffer

---
 libcu8/src/write.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libcu8/src/write.c b/libcu8/src/write.c
index 02b8993..3322719 100644
--- a/libcu8/src/write.c
+++ b/libcu8/src/write.c
@@ -55,12 +55,13 @@ __LIBCU8__IMP __cdecl int libcu8_fprintf(FILE* f, const char* fmt, ...)
 __LIBCU8__IMP __cdecl int libcu8_vfprintf(FILE* f, const char* fmt, va_list args)
 {
     char int_buf[512], *out = int_buf;
-    int sz=sizeof(int_buf), nd, ret;
+    int sz=sizeof(int_buf), nd, ret = EOF;
     va_list cpy;
 
     va_copy(cpy, args); /* create a duplicate just in case */
 
-    nd = _vsnprintf(out, sz, fmt, args);
+    /* _vsnprintf() does not tell how much room it lacks */
+    nd = _vscprintf(fmt, args);
 
     if (nd < 0)
         goto err;
@@ -71,9 +72,10 @@ __LIBCU8__IMP __cdecl int libcu8_vfprintf(FILE* f, const char* fmt, va_list args
         if ((out = malloc(sz)) == NULL)
             goto err;
 
-        nd = _vsnprintf(out, sz, fmt, cpy);
     }
 
+    _vsnprintf(out, sz, fmt, cpy);
+
     ret = libcu8_fputs(out, f);
 
 err:
-- 
2.43.0


From 8712fdf9eccb6713ac465230289ec7bb7a6e8c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:30 +0000
Subject: [PATCH 109/115] fix: libcu8_fopen crashed when the file could not be
 opened

---
 libcu8/src/fdio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcu8/src/fdio.c b/libcu8/src/fdio.c
index 174a446..402138c 100644
--- a/libcu8/src/fdio.c
+++ b/libcu8/src/fdio.c
@@ -66,7 +66,7 @@ __LIBCU8__IMP __cdecl FILE* libcu8_fopen(const char* __restrict__ name, const ch
 
     ret = _wfopen(wfile, wmode);
 
-    fd = fileno(ret);
+    fd = (ret != NULL) ? fileno(ret) : -1;
 
     if (fd != -1) {
 
-- 
2.43.0


From 9bff3bd2af6d603ec85284bd688bd9bb80eb9f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:43 +0000
Subject: [PATCH 110/115] fix: libcu8 moved its read buffers with overlapping
 memcpy

---
 libcu8/src/read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libcu8/src/read.c b/libcu8/src/read.c
index 514008c..c6ba248 100644
--- a/libcu8/src/read.c
+++ b/libcu8/src/read.c
@@ -241,7 +241,7 @@ int libcu8_try_convert(iconv_t context, char* in, size_t* insize,
            with(out) writing a byte to the output. Well, try to handle this
            by adjusting input buffer */
 
-        memcpy(inorig, in, inlen);
+        memmove(inorig, in, inlen);
         *insize = inlen;
     }
 
@@ -1095,7 +1095,7 @@ void libcu8_read_buffered(int fd, char** buf, size_t* size)
     } else {
 
         memcpy(*buf, buffering->remain, *size);
-        memcpy(buffering->remain, buffering->remain + *size,
+        memmove(buffering->remain, buffering->remain + *size,
                                         buffering->len - *size);
 
         *buf += *size;
-- 
2.43.0


From 23a02f1ee77cb7d7093f01da910b24e7c2537cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:54 +0000
Subject: [PATCH 111/115] fix: libcu8 took characters from U+0800 on for
 surrogates on the console

---
 libcu8/src/read.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcu8/src/read.c b/libcu8/src/read.c
index c6ba248..81f20e5 100644
--- a/libcu8/src/read.c
+++ b/libcu8/src/read.c
@@ -792,7 +792,7 @@ int libcu8_count_cells(COORD orig, COORD dest, CONSOLE_SCREEN_BUFFER_INFO* csbi)
 }
 
 /* Check if wc is surrogate */
-#define IS_SURROGATE(wc) ((wc) & 0xD800)
+#define IS_SURROGATE(wc) (((wc) & 0xF800) == 0xD800)
 #define IS_SURROGATE_HIGH(wc) (IS_SURROGATE(wc) && !((wc) & 0x0400))
 #define IS_SURROGATE_LOW(wc) (IS_SURROGATE(wc) && ((wc) & 0x0400))
 int libcu8_get_console_input(void* handle, char* buf, size_t* size, int* vk)
-- 
2.43.0


From 46dad41a2811232c35fecb42576ffe49016cb1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:54 +0000
Subject: [PATCH 112/115] fix: libcu8 moved the cursor into characters of
 several bytes

---
 libcu8/src/read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libcu8/src/read.c b/libcu8/src/read.c
index 81f20e5..be06814 100644
--- a/libcu8/src/read.c
+++ b/libcu8/src/read.c
@@ -336,7 +336,7 @@ int libcu8_readconsole(int fd, char* buf, size_t size, size_t* written)
         case VK_LEFT:
             if (pos > orig_buf) {
 
-                pos --;
+                pos = libcu8_previous_character(pos, orig_buf);
                 libcu8_coord_decrement(&(line.current), &csbi);
                 SetConsoleCursorPosition(conout, line.current);
 
@@ -346,7 +346,7 @@ int libcu8_readconsole(int fd, char* buf, size_t size, size_t* written)
         case VK_RIGHT:
             if (pos < buf) {
 
-                pos ++;
+                pos = libcu8_next_character(pos, buf);
                 libcu8_coord_increment(&(line.current), &csbi);
                 SetConsoleCursorPosition(conout, line.current);
 
-- 
2.43.0


From 894e564db20f74d24884c3b91c355c6a2a03d324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:54 +0000
Subject: [PATCH 113/115] fix: the history of libcu8 was read before its start,
 mixed up when full and left traces

---
 libcu8/src/read.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libcu8/src/read.c b/libcu8/src/read.c
index be06814..aebf114 100644
--- a/libcu8/src/read.c
+++ b/libcu8/src/read.c
@@ -408,21 +408,19 @@ int libcu8_readconsole(int fd, char* buf, size_t size, size_t* written)
             if (hid < (libcu8_history_count - 1))
                 hid ++;
             else
-                hid = libcu8_history_count - 1;
+                hid = (libcu8_history_count > 0) ? libcu8_history_count - 1 : 0;
 
             if (libcu8_history_count > hid
                 && (libcu8_history[hid].size <= orig)) {
 
-                memcpy(orig_buf, libcu8_history[hid].entry,
-                                        libcu8_history[hid].size);
-
-
                 /* Not a 100% accurate but, anyhow, it is still
                    good enough */
                 ret = libcu8_count_characters(orig_buf, orig - size)
                         - libcu8_count_characters(libcu8_history[hid].entry,
                                               libcu8_history[hid].size);
 
+                memcpy(orig_buf, libcu8_history[hid].entry,
+                                        libcu8_history[hid].size);
 
                 pos = (buf = orig_buf + libcu8_history[hid].size);
                 size = orig - libcu8_history[hid].size;
@@ -926,7 +924,7 @@ void libcu8_history_add_entry(char* orig_buf, size_t size)
         /* No room left in the array, just shift the content up */
         free(libcu8_history[0].entry);
         memmove(libcu8_history, libcu8_history + 1,
-                                    LIBCU8_HISTORY_SIZE - 1);
+                    (LIBCU8_HISTORY_SIZE - 1) * sizeof(libcu8_history[0]));
 
         id = LIBCU8_HISTORY_SIZE - 1;
 
-- 
2.43.0


From e599494d0ba574ce47657efef431e2f0cbca75e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:54 +0000
Subject: [PATCH 114/115] fix: completion in libcu8 read behind the line and
 could mix up what follows the cursor

---
 libcu8/src/read.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libcu8/src/read.c b/libcu8/src/read.c
index aebf114..a712738 100644
--- a/libcu8/src/read.c
+++ b/libcu8/src/read.c
@@ -1027,8 +1027,12 @@ char* libcu8_completion_get_item(const char* restrict pos,
             size --;
         }
 
-        if (ret = malloc(size + 1))
-            snprintf(ret, size + 1, "%s", pos);
+        if (ret = malloc(size + 1)) {
+
+            memcpy(ret, pos, size);
+            ret[size] = '\0';
+
+        }
 
     } else if (ret = malloc(1))
         *ret = '\0';
@@ -1046,7 +1050,7 @@ void libcu8_completion_insert(const char* completion,
 
     *size -= len;
 
-    memcpy(*pos + len, *pos, *buf - *pos);
+    memmove(*pos + len, *pos, *buf - *pos);
     memcpy(*pos, completion, len);
 
     *pos += len;
-- 
2.43.0


From 457d0cef408b11fddf948850f8a2a28a87d51afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:06 +0000
Subject: [PATCH 115/115] fix: libcu8 aborted when a typed character did not
 fit the buffer

---
 libcu8/src/read.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libcu8/src/read.c b/libcu8/src/read.c
index a712738..467efb1 100644
--- a/libcu8/src/read.c
+++ b/libcu8/src/read.c
@@ -562,12 +562,12 @@ int libcu8_readconsole(int fd, char* buf, size_t size, size_t* written)
 
                 if (pos == buf) {
 
-                    /* Update pos. We don't risk anything as pos is never to be
-                       reused again if the size of the buffer is exceeded */
-                    pos += sizeof(utf8) - len;
-
                     libcu8_write_buffered(fd, &buf, &size, utf8, sizeof(utf8) - len);
 
+                    /* Update pos. Only a part of the character is in buf if
+                       the size of the buffer is exceeded */
+                    pos = buf;
+
                     /* TODO : Do better than this */
                     libcu8_refresh_console_line(conout, orig_buf, orig-size,
                                                         pos - orig_buf, &line, &csbi);
@@ -606,6 +606,10 @@ int libcu8_readconsole(int fd, char* buf, size_t size, size_t* written)
 
                 /* write to the buffer in with intermediate buffering function */
                 libcu8_write_buffered(fd, &buf, &size, utf8, sizeof(utf8) - len);
+
+                if (pos > buf)
+                    pos = buf;
+
                 libcu8_refresh_console_line(conout, orig_buf, orig-size,
                                                         pos - orig_buf, &line, &csbi);
 
-- 
2.43.0

