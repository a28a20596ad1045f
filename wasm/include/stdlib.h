#pragma once
#include <stddef.h>
void abort(void); void exit(int); int abs(int); long labs(long); long long llabs(long long);
