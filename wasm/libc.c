#include <stddef.h>
#include <stdint.h>
void* memcpy(void* d, const void* s, size_t n) { char* a = d; const char* b = s; while (n--) *a++ = *b++; return d; }
void* memmove(void* d, const void* s, size_t n) { char* a = d; const char* b = s; if (a <= b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }
void* memset(void* d, int c, size_t n) { char* a = d; while (n--) *a++ = (char)c; return d; }
int memcmp(const void* d, const void* s, size_t n) { const unsigned char *a = d, *b = s; for (; n--; a++, b++) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
void* memchr(const void* s, int c, size_t n) { const unsigned char* a = s; for (; n--; a++) if (*a == (unsigned char)c) return (void*)a; return NULL; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return NULL; } }
char* strrchr(const char* s, int c) { const char* r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) { } return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
