// Exact reference for "shortest, correctly rounded decimal of a binary32/binary64 value".
//
// Nothing here is taken from the code under test. A finite positive value is x = m * 2^e with an
// integer m. All the reals that matter (x, its neighbours, the midpoints between them) are
// A * 2^(e-2) with an integer A (4m, 4m+-4, 4m+-2, 4m-1). For a fixed e we pick a decimal scale
// K = 10^k0 that is at least ten times finer than the narrowest rounding interval, and compute
// floor(A * 2^(e-2) / K), plus whether that quotient is an integer, EXACTLY (multi-limb fixed
// point with an argument, see floor_div, for why the truncated constant still gives the exact
// floor). Everything else is integer arithmetic on 64-bit numbers: the multiples of 10^k inside
// the interval, for growing k, are [ceil(lo/10), floor(hi/10)].
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>

namespace ref {

typedef std::uint64_t u64;
typedef std::uint32_t u32;
typedef std::int64_t i64;

inline void mul_wide(u64 a, u64 b, u64& hi, u64& lo) {
#if defined(__SIZEOF_INT128__)
	unsigned __int128 p = (unsigned __int128)a * b;
	hi = (u64)(p >> 64);
	lo = (u64)p;
#else
	u64 a0 = (u32)a, a1 = a >> 32, b0 = (u32)b, b1 = b >> 32;
	u64 p00 = a0 * b0, p01 = a0 * b1, p10 = a1 * b0, p11 = a1 * b1;
	u64 mid = (p00 >> 32) + (u32)p01 + (u32)p10;
	lo = (mid << 32) | (u32)p00;
	hi = p11 + (p01 >> 32) + (p10 >> 32) + (mid >> 32);
#endif
}

// ---------------------------------------------------------------- formats
template <class F> struct fmt;
template <> struct fmt<float> {
	typedef u32 bits_t;
	static constexpr int p = 23, ebits = 8, bias = 127;
	static constexpr int max_digits = 9;
	static constexpr const char* name = "float";
};
template <> struct fmt<double> {
	typedef u64 bits_t;
	static constexpr int p = 52, ebits = 11, bias = 1023;
	static constexpr int max_digits = 17;
	static constexpr const char* name = "double";
};

template <class F> struct parts {
	typedef fmt<F> T;
	bool neg;
	int be;      // biased exponent field
	u64 frac;    // fraction field
	u64 m;       // x = m * 2^e
	int e;
	explicit parts(u64 bits) {
		neg = ((bits >> (T::p + T::ebits)) & 1) != 0;
		be = (int)((bits >> T::p) & ((1u << T::ebits) - 1));
		frac = bits & ((u64(1) << T::p) - 1);
		if (be == 0) { m = frac; e = 1 - T::bias - T::p; }
		else { m = frac | (u64(1) << T::p); e = be - T::bias - T::p; }
	}
	bool finite() const { return be != (1 << T::ebits) - 1; }
	bool zero() const { return be == 0 && frac == 0; }
	bool edge() const { return frac == 0 && be > 1; }  // lower neighbour is half an ulp away
};

template <class F> inline constexpr int mantissa_bits() { return fmt<F>::p; }
template <class F> inline constexpr int exp_bits() { return fmt<F>::ebits; }
template <class F> inline constexpr u64 sign_mask() { return u64(1) << (fmt<F>::p + fmt<F>::ebits); }
template <class F> inline constexpr u64 inf_bits() { return ((u64(1) << fmt<F>::ebits) - 1) << fmt<F>::p; }

// ---------------------------------------------------------------- floor(log10(2^n)), exact
// Integer-only: the table of 10^j is compared with 2^n by exact big arithmetic once.
struct pow_tables {
	// c(F) = 2^F / 10^k0(F), as integer part (< 2^7) and 13 fraction limbs.
	static constexpr int K = 13;
	static constexpr int Fmin = -1074 - 2, Fmax = 971 - 2;
	struct entry {
		int k0;
		u64 ip;
		u64 fr[K];
	};
	std::vector<entry> t;

	// little-endian limbs
	typedef std::vector<u64> big;
	static void mul_small(big& a, u64 f) {
		u64 c = 0;
		for (auto& w : a) {
			u64 h, l;
			mul_wide(w, f, h, l);
			u64 s = l + c;
			h += s < c;
			w = s;
			c = h;
		}
		if (c) a.push_back(c);
	}
	static void div_small(big& a, u32 d) {  // floor
		u64 r = 0;
		for (std::size_t i = a.size(); i-- > 0;) {
			u64 hi = (r << 32) | (a[i] >> 32);
			u64 qh = hi / d;
			r = hi % d;
			u64 lo = (r << 32) | (u32)a[i];
			u64 ql = lo / d;
			r = lo % d;
			a[i] = (qh << 32) | ql;
		}
	}
	static int bitlen(const big& a) {
		for (std::size_t i = a.size(); i-- > 0;)
			if (a[i]) {
				int b = 0;
				u64 w = a[i];
				while (w) { ++b; w >>= 1; }
				return (int)(i * 64) + b;
			}
		return 0;
	}
	static big shl(const big& a, int n) {
		big r(a.size() + n / 64 + 1, 0);
		int q = n / 64, s = n % 64;
		for (std::size_t i = 0; i < a.size(); ++i) {
			r[i + q] |= a[i] << s;
			if (s) r[i + q + 1] |= a[i] >> (64 - s);
		}
		return r;
	}
	static big shr(const big& a, int n) {
		int q = n / 64, s = n % 64;
		big r;
		for (std::size_t i = q; i < a.size(); ++i) {
			u64 w = a[i] >> s;
			if (s && i + 1 < a.size()) w |= a[i + 1] << (64 - s);
			r.push_back(w);
		}
		if (r.empty()) r.push_back(0);
		return r;
	}
	// floor(n * log10(2)), exactly: the bit lengths of the powers of ten decide.
	static int floor_log10_2(int n, const std::vector<int>& bl10) {
		// 10^j <= 2^n  <=>  bitlen(10^j) <= n for j >= 1 (10^j is no power of two), n >= 0
		if (n >= 0) {
			int j = 0;
			while (bl10[j + 1] <= n) ++j;
			return j;
		}
		// floor(-y) = -ceil(y); log10(2^n) is no integer for n != 0
		int j = 0;
		while (bl10[j + 1] <= -n) ++j;
		return -j - 1;
	}

	pow_tables() {
		std::vector<int> bl10;
		{
			big p(1, 1);
			for (int j = 0; j < 400; ++j) {
				bl10.push_back(bitlen(p));
				mul_small(p, 10);
			}
		}
		t.resize(Fmax - Fmin + 1);
		// powers of five for k0 <= 0
		std::vector<big> p5(1, big(1, 1));
		for (int j = 1; j <= 360; ++j) {
			big p = p5.back();
			mul_small(p, 5);
			p5.push_back(p);
		}
		for (int F = Fmin; F <= Fmax; ++F) {
			entry& en = t[F - Fmin];
			en.k0 = floor_log10_2(F + 1, bl10) - 1;
			big v;
			if (en.k0 <= 0) {
				int s = F - en.k0 + 64 * K;  // c * 2^(64K) = 5^-k0 * 2^s, exact as s >= 0
				if (s >= 0) v = shl(p5[-en.k0], s);
				else v = shr(p5[-en.k0], -s);  // never: checked in self test
			} else {
				v = shl(big(1, 1), F - en.k0 + 64 * K);
				for (int i = 0; i < en.k0; ++i) div_small(v, 5);
			}
			v.resize(K + 2, 0);
			en.ip = v[K];
			for (int i = 0; i < K; ++i) en.fr[i] = v[K - 1 - i];
		}
	}
	static const pow_tables& get() {
		static const pow_tables p;
		return p;
	}
};

// floor(A * 2^F / 10^k0), and whether it is exact. A > 0, A < 2^57.
inline u64 floor_div(u64 A, int F, const pow_tables::entry& en, bool& exact) {
	if (A == 0) { exact = true; return 0; }
	if (en.k0 <= 0) {
		int s = en.k0 - F;  // A * 5^-k0 / 2^s
		exact = s <= 0 || (s < 64 && (A & ((u64(1) << s) - 1)) == 0);
	} else {
		exact = false;
		if (en.k0 <= 24) {  // 5^24 < 2^56 < A's range; larger powers cannot divide A
			u64 d = 1;
			for (int i = 0; i < en.k0; ++i) d *= 5;
			if (A % d == 0) {
				exact = true;
				return (A / d) << (F - en.k0);
			}
		}
	}
	u64 h0, l0, h1, l1;
	mul_wide(A, en.fr[0], h0, l0);
	mul_wide(A, en.fr[1], h1, l1);
	u64 fh = l0 + h1;
	u64 q = A * en.ip + h0 + (fh < l0);
	if (fh != ~u64(0)) return q;
	// The two leading limbs cannot rule out a carry into the integer part: take all of them.
	// k0 <= 0: the constant is exact. k0 > 0: it is short by less than 2^-832, so the product by
	// less than 2^-775, and a product that is no integer is at least 5^-k0 > 2^-680 away from one.
	u64 carry = 0;
	u64 ip = A * en.ip;
	for (int i = pow_tables::K - 1; i >= 0; --i) {
		u64 h, l;
		mul_wide(A, en.fr[i], h, l);
		u64 s = l + carry;
		h += s < carry;
		carry = h;
	}
	return ip + carry;
}

// ---------------------------------------------------------------- modes and policies
enum mode {
	near_even, near_odd, near_pinf, near_ninf, near_zero, near_away,
	st_even, st_odd, st_pinf, st_ninf,
	to_pinf, to_ninf, to_zero, to_away,
	n_modes
};
enum crs { dnc, t_even, t_odd, t_up, t_down, n_crs };
inline const char* mode_name(int m) {
	static const char* const n[] = { "nearest_to_even", "nearest_to_odd", "nearest_toward_plus_infinity",
		"nearest_toward_minus_infinity", "nearest_toward_zero", "nearest_away_from_zero",
		"nearest_to_even_static_boundary", "nearest_to_odd_static_boundary",
		"nearest_toward_plus_infinity_static_boundary", "nearest_toward_minus_infinity_static_boundary",
		"toward_plus_infinity", "toward_minus_infinity", "toward_zero", "away_from_zero" };
	return n[m];
}
inline const char* crs_name(int c) {
	static const char* const n[] = { "do_not_care", "tie_to_even", "tie_to_odd", "tie_to_up", "tie_to_down" };
	return n[c];
}
inline bool is_directed(int m) { return m >= to_pinf; }
inline int dynamic_of(int m) {  // static-boundary variants name the same rounding rule
	switch (m) {
	case st_even: return near_even;
	case st_odd: return near_odd;
	case st_pinf: return near_pinf;
	case st_ninf: return near_ninf;
	default: return m;
	}
}

// The six magnitude intervals: which reals of the same sign round to x.
enum ikind { i_closed, i_open, i_lc, i_rc, i_dir_lc /*[x, succ)*/, i_dir_rc /*(pred, x]*/, n_ikinds };

// What each rounding rule means, for a value of this sign and significand parity.
inline ikind interval_of(int m, bool neg, bool even_significand) {
	switch (dynamic_of(m)) {
	case near_even: return even_significand ? i_closed : i_open;
	case near_odd: return even_significand ? i_open : i_closed;
	// a tie goes to the larger value: for positive x the midpoint below x belongs to x
	case near_pinf: return neg ? i_rc : i_lc;
	case near_ninf: return neg ? i_lc : i_rc;
	case near_zero: return i_rc;
	case near_away: return i_lc;
	// reals in (pred, x] round up to x
	case to_pinf: return neg ? i_dir_lc : i_dir_rc;
	case to_ninf: return neg ? i_dir_rc : i_dir_lc;
	case to_zero: return i_dir_lc;
	default: return i_dir_rc;
	}
}

// ---------------------------------------------------------------- the answer
struct answer {
	int k;         // largest k such that the interval holds a multiple of 10^k
	u64 lo, hi;    // those multiples are lo*10^k .. hi*10^k
	u64 t;         // floor(2x / 10^k)
	bool t_exact;  // 2x / 10^k is an integer
	int k0;        // finest scale, and the interval there
	u64 lo0, hi0;
	u64 t0;
	bool t0_exact;
	bool below;    // a value 9*10^(k-1) is in the interval too, of the same length as 1*10^k
	// nearest shortest value(s): n*10^k, or tie between n and n+1
	bool tie;
	u64 n;
};

struct quotients {  // everything about one magnitude, shared by the six intervals
	int k0, F;
	bool even;
	u64 ql, qr, qp, qs, t;       // floors: midpoint below, midpoint above, pred, succ, 2x
	bool el, er, ep, es, et;     // ... exact?
	u64 qx;
	bool ex;
};

template <class F> inline void prepare(const parts<F>& x, quotients& q) {
	int s = x.e - 2;
	const pow_tables::entry& en = pow_tables::get().t[s - pow_tables::Fmin];
	q.k0 = en.k0;
	q.F = s;
	q.even = (x.m & 1) == 0;
	u64 A = 4 * x.m;
	bool edge = x.edge();
	q.ql = floor_div(A - (edge ? 1 : 2), s, en, q.el);
	q.qr = floor_div(A + 2, s, en, q.er);
	q.qp = floor_div(A - (edge ? 2 : 4), s, en, q.ep);
	q.qs = floor_div(A + 4, s, en, q.es);
	q.t = floor_div(2 * A, s, en, q.et);
	q.qx = q.t / 2;
	q.ex = q.et && (q.t % 2 == 0);
}

inline void solve(const quotients& q, ikind ik, answer& a) {
	u64 ql, qr;
	bool el, er, il, ir;
	switch (ik) {
	case i_dir_lc:
		ql = q.qx; el = q.ex; il = true;
		qr = q.qs; er = q.es; ir = false;
		break;
	case i_dir_rc:
		ql = q.qp; el = q.ep; il = false;
		qr = q.qx; er = q.ex; ir = true;
		break;
	default:
		ql = q.ql; el = q.el;
		qr = q.qr; er = q.er;
		il = ik == i_closed || ik == i_lc;
		ir = ik == i_closed || ik == i_rc;
	}
	u64 lo = el && il ? ql : ql + 1;
	u64 hi = er && !ir ? qr - 1 : qr;
	int k = q.k0;
	u64 t = q.t;
	bool te = q.et;
	a.k0 = k;
	a.lo0 = lo;
	a.hi0 = hi;
	a.t0 = t;
	a.t0_exact = te;
	u64 plo = 0;  // lo one level below
	for (;;) {
		u64 nlo = (lo + 9) / 10, nhi = hi / 10;
		if (nlo > nhi) break;
		plo = lo;
		lo = nlo;
		hi = nhi;
		te = te && t % 10 == 0;
		t /= 10;
		++k;
	}
	a.k = k;
	a.lo = lo;
	a.hi = hi;
	a.t = t;
	a.t_exact = te;
	a.below = lo == 1 && k > q.k0 && plo <= 9;
	a.tie = false;
	u64 n = t / 2;
	if (t & 1) {
		if (te) {
			if (n >= lo && n + 1 <= hi) a.tie = true;
			else if (n < lo) n = n + 1;
		} else n = n + 1;
	}
	if (n < lo) n = lo;
	if (n > hi) n = hi;
	a.n = n;
}

inline u64 pick(const answer& a, int c) {
	if (!a.tie) return a.n;
	switch (c) {
	case t_even: return (a.n & 1) ? a.n + 1 : a.n;
	case t_odd: return (a.n & 1) ? a.n : a.n + 1;
	case t_up: return a.n + 1;
	default: return a.n;
	}
}

inline int ndigits(u64 v) {
	int n = 1;
	while (v >= 10) { v /= 10; ++n; }
	return n;
}

// ---------------------------------------------------------------- slow, simple, for reports
// Arbitrary s*10^e against A*2^F, by big integers: -1, 0, 1.
inline int cmp_exact(u64 s, int e, u64 A, int F) {
	typedef pow_tables::big big;
	big x(1, s), y(1, A);
	if (s == 0 || A == 0) return s == A ? 0 : (s == 0 ? -1 : 1);
	int ae = e < 0 ? -e : e;
	big& g = e >= 0 ? x : y;
	for (int i = 0; i < ae; ++i) pow_tables::mul_small(g, 10);
	if (F >= 0) y = pow_tables::shl(y, F);
	else x = pow_tables::shl(x, -F);
	std::size_t n = x.size() > y.size() ? x.size() : y.size();
	x.resize(n, 0);
	y.resize(n, 0);
	for (std::size_t i = n; i-- > 0;)
		if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
	return 0;
}

// Is s*10^e one of the reals that this interval contains?
template <class F> inline bool in_interval(const parts<F>& x, ikind ik, u64 s, int e) {
	u64 A = 4 * x.m;
	bool edge = x.edge();
	u64 L, R;
	bool il, ir;
	switch (ik) {
	case i_dir_lc: L = A; il = true; R = A + 4; ir = false; break;
	case i_dir_rc: L = A - (edge ? 2 : 4); il = false; R = A; ir = true; break;
	default:
		L = A - (edge ? 1 : 2);
		R = A + 2;
		il = ik == i_closed || ik == i_lc;
		ir = ik == i_closed || ik == i_rc;
	}
	if (s == 0) return false;
	if (e > 400 || e < -400) return false;
	int c = cmp_exact(s, e, L, x.e - 2);
	if (c < 0 || (c == 0 && !il)) return false;
	c = cmp_exact(s, e, R, x.e - 2);
	if (c > 0 || (c == 0 && !ir)) return false;
	return true;
}

}  // namespace ref
