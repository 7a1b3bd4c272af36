#pragma once
#ifdef SYMX_NATIVE
#include_next <re2/stringpiece.h>
#else
#include <re2/re2.h>
#endif
