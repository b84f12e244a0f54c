/* sys_strcombine.cpp defines for int64_t what is declared for i64: long long on macOS, but long on 64-bit Linux. */
#include "stdafx.h"
#define int64_t long long
#define uint64_t unsigned long long
