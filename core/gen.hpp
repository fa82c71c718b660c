// Structured generators of binary32/binary64 bit patterns. Pure functions of a 64-bit seed.
//
// The "hard" class is what plain sampling cannot reach: inputs for which one of the reals that
// decide the result (x, a neighbour, a midpoint) lies within 2^-s of a multiple (or of a half
// multiple) of a power of ten, s up to more than the precision. They are constructed by solving
// min y >= 0 : (a*y + b) mod 1 in [-eps, eps] exactly (Euclid-like descent), not by rejection.
#pragma once
#include "oracle.hpp"
#include <cstdio>
#include <cstdlib>
#include <cmath>

namespace gen {
using ref::u64;
using ref::u32;

struct rng {  // splitmix64: each state is an independent, reproducible stream
	u64 s;
	explicit rng(u64 seed) : s(seed) {}
	u64 next() {
		u64 z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	u64 below(u64 n) {  // n > 0; the bias for these small n does not matter
		u64 h, l;
		ref::mul_wide(next(), n, h, l);
		return h;
	}
	int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); }
	bool coin() { return (next() >> 63) != 0; }
};
inline u64 mix(u64 a, u64 b) {
	rng r(a * 0xd1342543de82ef95ull + b);
	return r.next();
}

enum cls { c_uniform, c_pattern, c_decimal, c_dyadic, c_fives, c_hard, c_extreme, c_short, c_digits, n_cls };
inline const char* cls_name(int c) {
	static const char* const n[] = { "uniform bits", "patterned significand", "near short decimal",
		"dyadic (exact ties and endpoints)", "multiples of powers of five", "hard (endpoint or tie within 2^-s of a decimal)",
		"extremes and powers of two", "few significant bits", "structured decimal digits" };
	return n[c];
}

template <class F> inline u64 assemble(u64 m, int e) {  // m * 2^e, m <= 2^(p+1); 0 if it does not fit
	const int p = ref::fmt<F>::p, emin = 1 - ref::fmt<F>::bias - p;
	if (m == 0) return 0;
	while (m >> (p + 1)) {
		if (m & 1) return 0;
		m >>= 1;
		++e;
	}
	while (!(m >> p) && e > emin) { m <<= 1; --e; }
	while (e < emin) {
		if (m & 1) return 0;
		m >>= 1;
		++e;
	}
	if (!(m >> p)) return m;  // subnormal, e == emin
	int be = e - emin + 1;
	if (be >= (1 << ref::fmt<F>::ebits) - 1) return 0;
	return ((u64)be << p) | (m & ((u64(1) << p) - 1));
}

#if defined(__SIZEOF_INT128__)
typedef unsigned __int128 u128;
static const u64 NONE = ~u64(0);
// smallest y >= 0 with l <= a*y mod m <= r; NONE if there is none up to 2^55
inline u64 first_hit(u128 a, u128 m, u128 l, u128 r, int depth = 0) {
	const u64 LIM = u64(1) << 55;
	if (l == 0) return 0;
	if (a == 0 || depth > 300) return NONE;
	if (2 * a > m) return first_hit(m - a, m, m - r, m - l, depth + 1);
	u128 q = (l + a - 1) / a;
	if (q * a <= r) return q > LIM ? NONE : (u64)q;
	u128 na = m % a;
	na = na ? a - na : 0;
	u64 y = first_hit(na, a, l % a, r % a, depth + 1);
	if (y == NONE) return NONE;
	// ceil((l + m*y) / a); the result is bounded, so a floating estimate plus one exact correction
	long double est = ((long double)m * (long double)y + (long double)l) / (long double)a;
	if (est > (long double)LIM) return NONE;
	u64 x = (u64)est;
	u128 t = l + m * (u128)y;  // modulo 2^128 is enough: the remainder is small
	__int128 rem = (__int128)(t - (u128)x * a);
	while (rem < 0) { rem += (__int128)a; --x; }
	while (rem >= (__int128)a) { rem -= (__int128)a; ++x; }
	return rem ? x + 1 : x;
}

// frac(mult * 2^F / 10^k) as a 127-bit fraction, k0-3 <= k <= k0+12
inline u128 frac127(u64 mult, int F, int k) {
	const ref::pow_tables::entry& en = ref::pow_tables::get().t[F - ref::pow_tables::Fmin];
	u64 w[6] = { en.ip, en.fr[0], en.fr[1], en.fr[2], en.fr[3], en.fr[4] };
	u64 c = 0;
	int d = k - en.k0;
	u64 f = mult;
	for (int i = 0; i < -d; ++i) f *= 10;
	for (int i = 5; i >= 0; --i) {
		u64 h, l;
		ref::mul_wide(w[i], f, h, l);
		l += c;
		h += l < c;
		w[i] = l;
		c = h;
	}
	for (int i = 0; i < d; ++i) {
		u64 r = 0;
		for (int j = 0; j < 6; ++j) {
			u128 v = ((u128)r << 64) | w[j];
			w[j] = (u64)(v / 10);
			r = (u64)(v % 10);
		}
	}
	return (((u128)w[1] << 64) | w[2]) >> 1;
}

// significand m in [lo, hi] such that (4m+d) * 2^(e-2) is within 2^-s of a (half) multiple of 10^k
inline u64 hard_significand(rng& g, u64 lo, u64 hi, int e, int k, int d, bool half, int s) {
	const u128 M = (u128)1 << 127;
	u64 m0 = lo + g.below(hi - lo + 1);
	int F = e - 2;
	u128 a = frac127(4, F, k);
	// b = frac(m0 * 4c + d * c - half/2)
	u128 b = ((u128)m0 * a) & (M - 1);  // error m0 * 2^-127: far below 2^-s
	u128 c = frac127(d < 0 ? -d : d, F, k);
	b = d >= 0 ? (b + c) & (M - 1) : (b + M - c) & (M - 1);
	if (half) b = (b + (M >> 1)) & (M - 1);
	u128 eps = (u128)1 << (127 - s);
	u128 pos = (b + eps) & (M - 1);  // want (pos + a*y) mod M <= 2*eps
	if (pos <= 2 * eps) return m0;
	u128 L = M - pos, R = L + 2 * eps;
	if (R >= M) R = M - 1;
	u64 y = first_hit(a, M, L, R);
	if (y == NONE || y > hi - m0) {
		// look downwards instead: a -> -a
		if (y == NONE) return 0;
		y = first_hit(a ? M - a : 0, M, L, R);
		if (y == NONE || y > m0 - lo) return 0;
		return m0 - y;
	}
	return m0 + y;
}
#endif

template <class F> struct generator {
	typedef ref::fmt<F> T;
	static constexpr int p = T::p;
	static constexpr u64 fmask = (u64(1) << p) - 1;
	static constexpr int bemax = (1 << T::ebits) - 2;
	static constexpr int emin = 1 - T::bias - p, emax = bemax - T::bias - p;

	static u64 fix(u64 b) {  // never zero, never NaN or infinity; sign kept
		u64 mag = b & ~ref::sign_mask<F>();
		if (mag >= ref::inf_bits<F>() || mag == 0) return 0;
		return b;
	}
	static u64 near(rng& g, u64 mag, int w) {  // a few ulps away
		long long d = (long long)g.range(-w, w);
		u64 r = mag + (u64)d;
		if (r == 0 || r >= ref::inf_bits<F>()) return mag;
		return r;
	}

	// one magnitude of the given class, 0 if this draw gives none
	static u64 draw(rng& g, int c) {
		switch (c) {
		case c_uniform: return g.next() & (ref::sign_mask<F>() - 1);
		case c_pattern: {
			u64 be = (u64)g.range(0, bemax), f = 0;
			switch (g.range(0, 6)) {
			case 0: f = 0; break;
			case 1: f = fmask; break;
			case 2: f = fmask << g.range(0, p); break;
			case 3: f = fmask >> g.range(0, p); break;
			case 4: for (int i = g.range(1, 4); i > 0; --i) f ^= u64(1) << g.range(0, p - 1); break;
			case 5: f = fmask; for (int i = g.range(1, 4); i > 0; --i) f ^= u64(1) << g.range(0, p - 1); break;
			default: f = g.next() << g.range(0, p); break;
			}
			return (be << p) | (f & fmask);
		}
		case c_decimal: {
			int nd = g.range(1, T::max_digits);
			u64 lim = 1;
			for (int i = 0; i < nd; ++i) lim *= 10;
			u64 v = 1 + g.below(lim - 1);
			int lo10 = sizeof(F) == 4 ? -46 : -325, hi10 = sizeof(F) == 4 ? 38 : 308;
			char s[64];
			std::snprintf(s, sizeof s, "%llue%d", (unsigned long long)v, g.range(lo10 - nd + 1, hi10));
			F x = sizeof(F) == 4 ? (F)std::strtof(s, 0) : (F)std::strtod(s, 0);
			typename T::bits_t b;
			std::memcpy(&b, &x, sizeof b);
			if (b == 0 || b >= ref::inf_bits<F>()) return 0;
			return g.coin() ? (u64)b : near(g, b, 3);
		}
		case c_dyadic: {  // integers and short binary fractions around the points where ulp ~ 1
			int e = g.range(-70, 60);
			if (sizeof(F) == 4) e = g.range(-50, 40);
			int tz = g.coin() ? 0 : g.range(0, p);
			u64 m = ((u64(1) << p) | (g.next() & fmask)) >> tz << tz;
			return assemble<F>(m, e - p / 2);
		}
		case c_fives: {  // x, a midpoint or a neighbour is an exact multiple of 5^j
			int jmax = sizeof(F) == 4 ? 11 : 23;
			int j = g.range(1, jmax);
			u64 q = 1;
			for (int i = 0; i < j; ++i) q *= 5;
			int which = g.range(0, 4);  // x, x-half, x+half, pred, succ
			int e = g.range(-8, sizeof(F) == 4 ? 45 : 90);
			u64 lo = u64(1) << p;
			u64 m;
			if (which == 0 || which >= 3) {
				u64 n = lo / q, r = n * q + q * (1 + g.below(n + 1));
				m = which == 0 ? r : which == 3 ? r + 1 : r - 1;
			} else {
				u64 n = 2 * lo / q;
				u64 t = n + 1 + g.below(n + 1);
				if (!(t & 1)) ++t;
				u64 r = t * q;  // odd
				m = which == 1 ? (r + 1) / 2 : (r - 1) / 2;
			}
			if (m < lo || m >> (p + 1)) return 0;
			return assemble<F>(m, e);
		}
		case c_hard: {
#if defined(__SIZEOF_INT128__)
			int be = g.range(0, bemax);
			int e = be ? be - 1 + emin : emin;
			u64 lo = be ? u64(1) << p : 1, hi = be ? (u64(2) << p) - 1 : fmask;
			static const int ds[5] = { 0, 2, -2, 4, -4 };
			int d = ds[g.range(0, 4)];
			bool half = d == 0 && g.coin();
			const ref::pow_tables::entry& en = ref::pow_tables::get().t[e - 2 - ref::pow_tables::Fmin];
			int k = en.k0 + g.range(-3, 4);
			int s = g.range(p - 12, p + 4);
			u64 m = hard_significand(g, lo, hi, e, k, d, half, s);
			if (m < lo || m > hi) return 0;
			return be ? ((u64)be << p) | (m & fmask) : m;
#else
			return 0;
#endif
		}
		case c_extreme: {
			u64 b;
			switch (g.range(0, 3)) {
			case 0: b = (u64)g.range(0, bemax) << p; break;             // powers of two
			case 1: b = u64(1) << g.range(0, p - 1); break;             // subnormal powers of two
			case 2: b = ref::inf_bits<F>() - 1 - g.below(64); break;    // largest
			default: b = 1 + g.below(4096); break;                      // smallest
			}
			if (b == 0) return 0;
			return g.coin() ? b : near(g, b, 2);
		}
		case c_digits: {  // the digit string is what matters: runs, inner zeros, powers of 10, 2^32, 10^8 and their surroundings
			const int D = T::max_digits;
			u64 lim = 1;
			for (int i = 0; i < D; ++i) lim *= 10;
			int nd = g.range(1, D);
			u64 p10 = 1, v = 0;
			switch (g.range(0, 6)) {
			case 0: {  // pairs
				static const int pr[] = { 0, 0, 0, 1, 9, 10, 11, 90, 99, 99, 50, 5 };
				while (p10 < lim) { v = v * 100 + (u64)(g.coin() ? pr[g.range(0, 11)] : g.range(0, 99)); p10 *= 100; }
				for (int i = g.range(0, D - 1); i > 0; --i) v /= 10;
				break;
			}
			case 1:
				for (int i = 1; i < nd; ++i) p10 *= 10;
				v = p10 + g.below(20) - 10;
				break;
			case 2: v = (u64(1) << 32) * (1 + g.below(9)) + g.below(2001) - 1000; break;
			case 3: v = 100000000ull * (g.below(1000000000ull)) + (g.coin() ? g.below(20000) : 100000000ull - 1 - g.below(20000)); break;
			case 4: v = 10000ull * g.below(lim / 10000) + (g.coin() ? g.below(200) : 9999 - g.below(200)); break;
			case 5: {
				u64 d = g.below(10);
				for (int i = 0; i < nd; ++i) v = v * 10 + (g.range(0, 7) == 0 ? g.below(10) : d);
				break;
			}
			default:
				for (int i = 0; i < nd; ++i) v = v * 10 + (g.range(0, 2) ? 0 : g.below(10));
				break;
			}
			v %= lim;
			if (v == 0) v = 1;
			int lo10 = sizeof(F) == 4 ? -45 : -324, hi10 = sizeof(F) == 4 ? 38 : 308, sci;
			switch (g.range(0, 3)) {
			case 0: { static const int e[] = { -101, -100, -99, -98, -11, -10, -9, -8, -1, 0, 1, 8, 9, 10, 11, 98, 99, 100, 101 }; sci = e[g.range(0, 18)]; break; }
			case 1: sci = g.range(-20, 30); break;
			default: sci = g.range(lo10, hi10); break;
			}
			if (sci < lo10 || sci > hi10) sci = g.range(lo10, hi10);
			char s[64];
			std::snprintf(s, sizeof s, "%llue%d", (unsigned long long)v, sci - ref::ndigits(v) + 1);
			F x = sizeof(F) == 4 ? (F)std::strtof(s, 0) : (F)std::strtod(s, 0);
			typename T::bits_t b;
			std::memcpy(&b, &x, sizeof b);
			return b >= ref::inf_bits<F>() ? 0 : (u64)b;
		}
		default: {  // c_short
			int be = g.range(0, bemax);
			int nb = g.range(1, 12);
			return ((u64)be << p) | ((g.next() & ((u64(1) << nb) - 1)) << (p - nb));
		}
		}
	}
	// one input for each cell (exponent, scale, decision point): the one nearest to a decision,
	// going down from the tightest distance; the cell is cell mod (number of cells)
	static constexpr u64 hard_cells = u64(bemax + 1) * 6 * 8;
	static u64 hardest(rng& g, u64 cell) {
#if defined(__SIZEOF_INT128__)
		static const int ds[6] = { 0, 2, -2, 4, -4, 0 };
		cell %= hard_cells;
		int be = (int)(cell % (bemax + 1));
		cell /= bemax + 1;
		int di = (int)(cell % 6), kk = (int)(cell / 6);
		int e = be ? be - 1 + emin : emin;
		u64 lo = be ? u64(1) << p : 1, hi = be ? (u64(2) << p) - 1 : fmask;
		int k = ref::pow_tables::get().t[e - 2 - ref::pow_tables::Fmin].k0 + kk - 3;
		for (int s = p + 6; s > p - 12; --s) {
			u64 m = hard_significand(g, lo, hi, e, k, ds[di], di == 5, s);
			if (m >= lo && m <= hi) {
				u64 b = be ? ((u64)be << p) | (m & fmask) : m;
				return g.coin() ? b | ref::sign_mask<F>() : b;
			}
		}
#endif
		return any(g, c_uniform);
	}
	// a finite nonzero value with a random sign; always succeeds
	static u64 any(rng& g, int c) {
		for (;;) {
			u64 m = fix(draw(g, c));
			if (m) return g.coin() ? m | ref::sign_mask<F>() : m;
			if (c == c_hard && g.range(0, 31) == 0) c = c_uniform;
		}
	}
};
}  // namespace gen
