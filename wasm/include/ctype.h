#pragma once
static inline int isdigit(int c) { return c >= '0' && c <= '9'; }
static inline int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static inline int isprint(int c) { return c >= 32 && c < 127; }
