#pragma once
#define INFINITY __builtin_inff()
#define NAN __builtin_nanf("")
#define HUGE_VAL __builtin_huge_val()
#define isnan(x) __builtin_isnan(x)
#define isinf(x) __builtin_isinf(x)
#define isfinite(x) __builtin_isfinite(x)
#define signbit(x) __builtin_signbit(x)
double sin(double), cos(double), tan(double), sqrt(double), log(double), pow(double, double), fabs(double), floor(double), ceil(double), fmod(double, double), trunc(double), round(double), exp(double), log2(double), log10(double), rint(double), copysign(double, double), fmin(double, double), fmax(double, double);
float sinf(float), sqrtf(float), fabsf(float), floorf(float), ceilf(float), truncf(float);
double nearbyint(double), ldexp(double, int); long lround(double); long long llround(double); long lrint(double);
