#pragma once
#include <stddef.h>
#include <stdarg.h>
typedef struct FILE_ FILE;
#define stderr ((FILE*)0)
#define stdout ((FILE*)0)
#define stdin ((FILE*)0)
#define EOF (-1)
int printf(const char*, ...); int fprintf(FILE*, const char*, ...); int snprintf(char*, size_t, const char*, ...); int puts(const char*); int fputs(const char*, FILE*); int putchar(int); int fflush(FILE*); int vfprintf(FILE*, const char*, va_list);
