// One internal helper per object file, -DHELPER=<number> (-DFORM for its other spelling): an object that does not
// compile because the helper was renamed or reshaped leaves its function pointer null.
#include "helpers.hpp"
#include <array>
#include <utility>
#include "env.hpp"
#include <grisu_exact.h>

namespace gd = jkj::grisu_exact_detail;
typedef std::uint64_t u64;
typedef std::uint32_t u32;
#if !defined(FORM)
#define FORM 0
#endif
// Converts to T and to nothing else, so that a helper whose parameters were reordered or retyped does not compile here
// (and is then judged by its observable consequence) instead of being called with converted operands.
template <class T> struct only {
	T v;
	operator T() const { return v; }
	template <class U> operator U() const = delete;
};
typedef only<std::uint64_t> o64;
typedef only<std::uint32_t> o32;
#define SLOT(T, name, body) static decltype(helper_table::name) const slot_ = body; extern "C" void HELPER_SYMBOL(helper_table* t) { t->name = slot_; }

#if HELPER == 1  // run time; the argument is not a constant here
static int f(int e) { volatile int v = e; return gd::floor_log10_pow2(v); }
SLOT(, log10_pow2, f)
#elif HELPER == 2
static int f(int e) { volatile int v = e; return gd::floor_log2_pow10(v); }
SLOT(, log2_pow10, f)
#elif HELPER == 3
static int f(int e) { volatile int v = e; return gd::floor_log5_pow2(v); }
SLOT(, log5_pow2, f)
#elif HELPER >= 4 && HELPER <= 6  // constant evaluation of the whole range
#if HELPER == 4
#define CALL gd::floor_log10_pow2
#define RANGE 1650
#elif HELPER == 5
#define CALL gd::floor_log2_pow10
#define RANGE 642
#else
#define CALL gd::floor_log5_pow2
#define RANGE 65536
#endif
#if !defined(LO)  // a sub-range can be asked for, to find where constant evaluation stops
#define LO -RANGE
#define HI RANGE
#endif
struct table { int v[2 * RANGE + 1]; };
static constexpr table make() {
	table t{};
	for (int e = LO; e <= HI; ++e) t.v[e + RANGE] = CALL(e);
	return t;
}
static constexpr table values = make();
static int f(int e) { return values.v[e + RANGE]; }
#if HELPER == 4
SLOT(, c_log10_pow2, f)
#elif HELPER == 5
SLOT(, c_log2_pow10, f)
#else
SLOT(, c_log5_pow2, f)
#endif
#elif HELPER >= 7 && HELPER <= 9  // run time, with the range assertion switched off
#if HELPER == 7
static int f(int e) { volatile int v = e; return gd::floor_log10_pow2<false>(v); }
SLOT(, n_log10_pow2, f)
#elif HELPER == 8
static int f(int e) { volatile int v = e; return gd::floor_log2_pow10<false>(v); }
SLOT(, n_log2_pow10, f)
#else
static int f(int e) { volatile int v = e; return gd::floor_log5_pow2<false>(v); }
SLOT(, n_log5_pow2, f)
#endif
#elif HELPER == 10
static void f(u64 x, u64 y, u64* hi, u64* lo) { auto r = gd::umul128(o64{ x }, o64{ y }); *hi = r.high(); *lo = r.low(); }
SLOT(, mul128, f)
#elif HELPER == 11
static u64 f(u64 x, u64 y) { return gd::umul128_upper64(o64{ x }, o64{ y }); }
SLOT(, mul128_upper, f)
#elif HELPER == 12
static u64 f(u64 x, u64 h, u64 l) { return gd::umul192_upper64(o64{ x }, gd::uint128{ h, l }); }
SLOT(, mul192_upper, f)
#elif HELPER == 13
static u32 f(u32 x, u64 y) { return gd::umul96_upper32(o32{ x }, o64{ y }); }
SLOT(, mul96_upper, f)
#elif HELPER == 14
static u64 f(u32 x, u32 y) { return gd::umul64(o32{ x }, o32{ y }); }
SLOT(, mul64, f)
#elif HELPER == 15
static bool f(u32 x, int e) { return gd::divisible_by_power_of_2<u32>(o32{ x }, e); }
SLOT(, div2_32, f)
#elif HELPER == 16
static bool f(u64 x, int e) { return gd::divisible_by_power_of_2<u64>(o64{ x }, e); }
SLOT(, div2_64, f)
#elif HELPER == 17
static bool f(u32 x, int e) { return gd::divisible_by_power_of_5<u32>(o32{ x }, (unsigned)e); }
SLOT(, div5_32, f)
#elif HELPER == 18
static bool f(u64 x, int e) { return gd::divisible_by_power_of_5<u64>(o64{ x }, (unsigned)e); }
SLOT(, div5_64, f)
#elif HELPER == 19  // the 128-bit value type itself
static void f(u64 h, u64 l, u64* hi, u64* lo) { gd::uint128 a{ h, l }; gd::uint128 b = a; *hi = b.high(); *lo = b.low(); }
SLOT(, pair128, f)
#elif HELPER == 20 || HELPER == 21
#if HELPER == 20
typedef float F;
#define PUT p[1] = (u64)c
#else
typedef double F;
#define PUT p[0] = c.high(), p[1] = c.low()
#endif
typedef gd::common_info<F> info;
static void f(int k, u64* p) {
#if FORM == 0
	auto const& c = gd::get_cache<F>(k);
#else
	auto const& c = gd::cache_holder<F>::cache[std::size_t(k - info::min_k)];
#endif
	PUT;
}
extern "C" void HELPER_SYMBOL(helper_table* t) {
	table_info& i = HELPER == 20 ? t->f32 : t->f64;
	i.entry = f;
	i.min_k = info::min_k;
	i.max_k = info::max_k;
	i.size = (int)(sizeof(gd::cache_holder<F>::cache) / sizeof(gd::cache_holder<F>::cache[0]));
	i.alpha = info::alpha;
}
#endif
