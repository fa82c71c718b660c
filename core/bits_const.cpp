// C14 in constant evaluation: the constexpr inspection functions are evaluated by the compiler on N generated patterns
// of each format (-DSEED selects them) and the answers compared with the IEEE-754 definition at run time.
#include <cstdint>
#include <cstdio>
#include <cstring>
#include "env.hpp"
#include <grisu_exact.h>

typedef std::uint64_t u64;
template <class F> struct fmt;
template <> struct fmt<float> { typedef std::uint32_t bits; static constexpr int p = 23, e = 8; };
template <> struct fmt<double> { typedef std::uint64_t bits; static constexpr int p = 52, e = 11; };
constexpr int N = 3000;
constexpr u64 mix(u64 x) {
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}
// sign x exponent field (all zeros, all ones, their neighbours, any) x fraction field (0, 1, all ones, top bit, few bits, any)
template <class F> constexpr typename fmt<F>::bits pattern(int i) {
	const u64 r = mix(SEED * 1000003ull + (u64)i), s = mix(r), all = (u64(1) << fmt<F>::e) - 1, fr = (u64(1) << fmt<F>::p) - 1, any = mix(s);
	u64 E = 0, S = 0;
	switch (r % 6) {
	case 0: E = 0; break;
	case 1: case 2: E = all; break;
	case 3: E = (r >> 8) & 1 ? 1 : all - 1; break;
	default: E = (r >> 8) & all;
	}
	switch (s % 8) {
	case 0: S = 0; break;
	case 1: S = 1; break;
	case 2: S = fr; break;
	case 3: S = (fr >> 1) + 1; break;
	case 4: S = fr >> 1; break;
	case 5: S = u64(1) << (s >> 8) % fmt<F>::p; break;
	default: S = any & fr;
	}
	return (typename fmt<F>::bits)(((r >> 40) & 1) << (fmt<F>::p + fmt<F>::e) | E << fmt<F>::p | S);
}
struct answer { u64 sig; std::uint32_t exp; unsigned flags; };
template <class F> struct table { answer a[N]; };
template <class F> constexpr table<F> evaluate() {
	table<F> t{};
	for (int i = 0; i < N; ++i) {
		jkj::bit_representation_t<F> r{};
		r.f = pattern<F>(i);
		const jkj::bit_representation_t<F> c = r;
		t.a[i].sig = c.extract_significand_bits();
		t.a[i].exp = c.extract_exponent_bits();
		t.a[i].flags = (c.is_finite() ? 1u : 0) | (c.is_nonzero() ? 2u : 0) | (c.is_subnormal() ? 4u : 0) | (c.is_negative() ? 8u : 0) | (c.is_positive() ? 16u : 0)
			| (c.is_positive_infinity() ? 32u : 0) | (c.is_negative_infinity() ? 64u : 0) | (c.is_infinity() ? 128u : 0) | (c.is_nan() ? 256u : 0);
	}
	return t;
}
static const char* const names[] = { "is_finite", "is_nonzero", "is_subnormal", "is_negative", "is_positive", "is_positive_infinity", "is_negative_infinity", "is_infinity", "is_nan" };
template <class F> static int compare(const char* name, int& special) {
	static constexpr table<F> t = evaluate<F>();
	for (int i = 0; i < N; ++i) {
		const u64 b = pattern<F>(i), S = b & ((u64(1) << fmt<F>::p) - 1), all = (u64(1) << fmt<F>::e) - 1, E = (b >> fmt<F>::p) & all;
		const bool neg = (b >> (fmt<F>::p + fmt<F>::e)) & 1, inf = E == all && !S;
		const unsigned want = (E != all ? 1u : 0) | (E || S ? 2u : 0) | (E == 0 ? 4u : 0) | (neg ? 8u : 16u) | (inf && !neg ? 32u : 0) | (inf && neg ? 64u : 0) | (inf ? 128u : 0)
			| (E == all && S ? 256u : 0);
		const char* bad = t.a[i].sig != S ? "extract_significand_bits" : t.a[i].exp != E ? "extract_exponent_bits" : 0;
		for (int j = 0; !bad && j < 9; ++j)
			if ((t.a[i].flags ^ want) >> j & 1) bad = names[j];
		special += E == 0 || E == all;
		if (bad) {
			std::printf("%s pattern %llx: %s() is wrong in constant evaluation\n", name, (unsigned long long)b, bad);
			return 1;
		}
	}
	return 0;
}
int main() {
	int special = 0;
	if (compare<float>("float", special) || compare<double>("double", special)) return 1;
	std::printf("%d %d\n", 2 * N, special);
	return 0;
}
