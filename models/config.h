/*
   pBat Makefiles, The pBat project
   Copyright (C) 2012-2018  Romain Garbi (DarkBatcher)

   This program is free software: you can redistribute it and/or modify
   it under the terms of the GNU General Public License as published by
   the Free Software Foundation, either version 3 of the License, or
   (at your option) any later version.

   This program is distributed in the hope that it will be useful,
   but WITHOUT ANY WARRANTY; without even the implied warranty of
   MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
   GNU General Public License for more details.

   You should have received a copy of the GNU General Public License
   along with this program.  If not, see <http://www.gnu.org/licenses/>.
 */

#define BINARY_PATH "bin"

#define DATA_PATH "bin/share"

#if 0
	#define PBAT_STATIC_CMDLYCORRECT 1
#endif

#if 0
	#define PBAT_USE_LIBCU8 1
#endif

#if 1
	#define ENABLE_NLS 1
#endif

#if !1
	#define LIBPBAT_NO_CONSOLE 1
#endif

#if 0
  #define LIBPBAT_W10_ANSI 1
#endif

#if 1
  #define PBAT_USE_MODULES 1
#endif

#if !1
  #define PBAT_NO_LINENOISE 1
#endif

#define PACKAGE  "picobat"
#define PACKAGE_BUGREPORT "darkbatcher@picobat.org"
#define PACKAGE_NAME "picobat"
#define PACKAGE_STRING "picobat 226.11"
#define PACKAGE_URL "http://picobat.org"
#define PACKAGE_VERSION "226.11"
#define STDC_HEADERS 1
#define HOST "x86_64-linux-gnu"
#define __YEAR__ "2026"

#define VERSION PACKAGE_VERSION

#if 0
	#define XDG_OPEN "0"
#endif

#if 0
    #define MIMEOPEN "0"
#endif

#if defined(MIMEOPEN)
#define START_SCRIPT MIMEOPEN
#elif defined(XDG_OPEN)
#define START_SCRIPT XDG_OPEN
#else
#define START_SCRIPT ""
#endif
