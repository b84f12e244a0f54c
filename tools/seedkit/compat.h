/* Force-included before every file: what MSVC and macOS have, and Linux has not or only behind another header. */
#pragma once

#include <limits.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <wchar.h>
#include <wctype.h>

#include <algorithm>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>

/* The array overload of MSVC's vsprintf_s. */
template <size_t N>
static inline int vsprintf_s(char (&buf)[N], const char* format, va_list args) {
	return vsnprintf(buf, N, format, args);
}

/* fpos_t is a 64-bit integer in MSVC and macOS, a struct in glibc. */
static inline int fgetpos(FILE* file, long long* pos) {
	off_t res = ftello(file);
	if (res < 0) {
		return -1;
	}
	*pos = res;
	return 0;
}
