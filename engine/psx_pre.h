#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#if defined(__cplusplus) && !defined(PSX_RT)
#include <pthread.h>
#include <cassert>
#include <cstdlib>
#include <cstring>
#include <ctime>
#endif
