// Included before the library headers: standard headers first, then the predefined macros by which the library
// selects a platform path may be removed without disturbing anything else.
#pragma once
#include <algorithm>
#include <array>
#include <bitset>
#include <cassert>
#include <cfenv>
#include <climits>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#if defined(SUT_NO_INT128)
#undef __SIZEOF_INT128__
#endif
#if defined(SUT_PORTABLE)
#undef __SIZEOF_INT128__
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
#endif
#if defined(SUT_MSVC)  // the paths of the other compiler, with its intrinsics emulated in msvc/intrin.h
#undef __SIZEOF_INT128__
#undef __x86_64__
#define _MSC_VER 1928
#define __declspec(x)
#if SUT_MSVC == 64
#define _M_X64 100
#else
#define _M_IX86 600
#endif
#endif
