// C14: bit-level inspection, against the IEEE-754 definition of the fields.
#include "engine.hpp"
#include "env.hpp"
#include <grisu_exact.h>

using namespace eng;

namespace {
template <class F> const char* check(u64 bits, std::string& got) {
	typedef typename ref::fmt<F>::bits_t B;
	const int p = ref::fmt<F>::p, eb = ref::fmt<F>::ebits;
	const B b = (B)bits;
	F x;
	std::memcpy(&x, &b, sizeof x);
	auto r = jkj::get_bit_representation(x);
	// reference fields
	const bool neg = (bits >> (p + eb)) & 1;
	const u64 E = (bits >> p) & ((u64(1) << eb) - 1), S = bits & ((u64(1) << p) - 1), all = (u64(1) << eb) - 1;
	const bool fin = E != all, nan = !fin && S, inf = !fin && !S, zero = E == 0 && S == 0, quiet = nan && (S >> (p - 1)) & 1;
	static_assert(std::is_same<decltype(r.f), B>::value, "the representation has the width of the format");
	if (r.f != b) { got = std::to_string((unsigned long long)r.f); return "get_bit_representation"; }
	for (int form = 0; form < 2; ++form) {
		jkj::bit_representation_t<F> q{};
		if (form) q.f = b; else q = r;
		const jkj::bit_representation_t<F> t = q;
		F y = t.as_ieee754();
		B c;
		std::memcpy(&c, &y, sizeof c);
		if (c != b) { got = std::to_string((unsigned long long)c); return "as_ieee754"; }
#define CK(call, want) { auto g_ = t.call; if (!(g_ == (want))) { got = std::to_string((unsigned long long)g_) + " instead of " + std::to_string((unsigned long long)(want)); return #call; } }
		CK(extract_significand_bits(), (B)S)
		CK(extract_exponent_bits(), (u32)E)
		CK(is_finite(), fin)
		CK(is_nonzero(), !zero)
		CK(is_subnormal(), E == 0)
		CK(is_negative(), neg)
		CK(is_positive(), !neg)
		CK(is_positive_infinity(), inf && !neg)
		CK(is_negative_infinity(), inf && neg)
		CK(is_infinity(), inf)
		CK(is_nan(), nan)
		CK(is_quiet_nan(), quiet)
		CK(is_signaling_nan(), nan && !quiet)
		auto pl = t.get_nan_payload();
		const u64 want = S & ((u64(1) << (p - 1)) - 1);
		if (pl.size() != std::size_t(p - 1)) { got = std::to_string(pl.size()) + " bits"; return "size of get_nan_payload()"; }
		if (nan && pl.to_ullong() != want) { got = pl.to_string(); return "get_nan_payload()"; }
	}
	return 0;
}
struct BitsChecker : Checker {
	bool in_domain(const Value& v) const override { return v.fmt == F64 || v.bits <= 0xffffffffull; }
	std::vector<std::string> counter_names() const override { return { "quiet NaN", "signalling NaN", "infinity", "zero", "subnormal", "normal", "negative" }; }
	bool eval(const Value& v, Counters& k, Failure* f) override {
		const int p = v.fmt == F32 ? 23 : 52, eb = v.fmt == F32 ? 8 : 11;
		u64 E = (v.bits >> p) & ((u64(1) << eb) - 1), S = v.bits & ((u64(1) << p) - 1), all = (u64(1) << eb) - 1;
		k.nontrivial = E == 0 || E == all || E == 1 || E == all - 1;
		++k.c[E == all ? (S == 0 ? 2 : S >> (p - 1) ? 0 : 1) : E ? 5 : S ? 4 : 3];
		k.c[6] += (v.bits >> (p + eb)) & 1;
		++k.evals;
		std::string got;
		const char* w = v.fmt == F32 ? check<float>(v.bits, got) : check<double>(v.bits, got);
		if (!w) return true;
		f->where = w;
		f->msg = describe(v) + " (pattern " + hex(v) + "): " + w + " gives " + got;
		return false;
	}
};
}
#ifdef FUZZ
#include "fuzz.hpp"
Checker* eng::fuzz_checker(const char* a) { (void)a; return new BitsChecker; }
#else
int main(int argc, char** argv) {
	if (argc < 3) return 3;
	BitsChecker ck;
	Engine e(ck);
	return e.main(argc - 1, argv + 1);
}
#endif
