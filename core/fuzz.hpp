// Coverage-guided driving of a Checker (libFuzzer). Input: one byte of format, eight of bit pattern.
//   VERIF_ARG: the checker's argument     VERIF_OUT: where counts, or the failing value, are written
// The comparisons in the instrumented code under test guide the search (value profile, recent operands), so that
// a branch taken for one particular pattern, significand or exponent is found although sampling would not hit it.
#pragma once
#include "engine.hpp"
#include <cstdio>
#include <cstdlib>
namespace eng {
Checker* fuzz_checker(const char* arg);  // the driver defines it
struct FuzzState {
	Checker* ck = 0;
	Counters k;
	u64 values = 0, nontrivial = 0, distinct = 0;
	std::vector<u64> filter;
	std::string samples;
	int nsamples = 0;
	static FuzzState& get() { static FuzzState* s = new FuzzState; return *s; }
	void write(const std::string& failure) {
		const char* p = std::getenv("VERIF_OUT");
		FILE* f = p ? std::fopen(p, "w") : stdout;
		if (!f) return;
		std::fprintf(f, "{\"values\": %llu, \"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"samples\": [%s], \"failure\": %s}\n", (unsigned long long)values,
			(unsigned long long)k.evals, (unsigned long long)nontrivial, (unsigned long long)distinct, samples.c_str(), failure.empty() ? "null" : failure.c_str());
		std::fclose(f);
	}
};
}
extern "C" std::size_t LLVMFuzzerMutate(std::uint8_t* d, std::size_t n, std::size_t max);
extern "C" int LLVMFuzzerInitialize(int*, char***) {
	auto& s = eng::FuzzState::get();
	const char* a = std::getenv("VERIF_ARG");
	s.ck = eng::fuzz_checker(a ? a : "C01");
	s.filter.resize(std::size_t(1) << 18);
	std::atexit([] { eng::FuzzState::get().write(""); });
	return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* d, std::size_t n) {
	using namespace eng;
	if (n < 9) return -1;
	Value v;
	v.fmt = d[0] & 1 ? F64 : F32;
	std::memcpy(&v.bits, d + 1, 8);
	if (v.fmt == F32) v.bits = (v.bits ^ (v.bits >> 32)) & 0xffffffffu;
	auto& s = FuzzState::get();
	if (!s.ck->in_domain(v)) return -1;
	Failure f;
	s.k.nontrivial = false;
	bool ok = s.ck->eval(v, s.k, &f);
	++s.values;
	if (!ok) {
		s.write("{\"fmt\": \"" + std::string(v.fmt == F32 ? "f32" : "f64") + "\", \"bits\": \"" + hex(v) + "\", \"message\": " + jstr(f.msg) + "}");
		std::_Exit(78);
	}
	if (s.k.nontrivial) {
		++s.nontrivial;
		u64 h = gen::mix(v.bits, 77 + (u64)v.fmt) >> 40;
		if (!(s.filter[h >> 6] >> (h & 63) & 1)) {
			s.filter[h >> 6] |= u64(1) << (h & 63);
			++s.distinct;
			if ((s.distinct & (s.distinct - 1)) == 0 && s.distinct >= 1024 && s.nsamples++ < 4) s.samples += (s.samples.empty() ? "" : ", ") + jstr("coverage-guided: " + s.ck->sample(v));
		}
	}
	return 0;
}
// the value seen as a decimal: a binary or decimal step of its digits, another exponent, fewer digits
inline std::uint64_t mutate_decimal(std::uint64_t b, bool dbl, gen::rng& g) {
	double x;
	if (dbl) std::memcpy(&x, &b, 8);
	else { std::uint32_t w = (std::uint32_t)b; float y; std::memcpy(&y, &w, 4); x = y; }
	if (!(x - x == 0)) x = 1;
	char t[48];
	// half of the time all the digits that tell the value from its neighbours, else some number of digits
	int digits = 1 + g.range(0, dbl ? 16 : 8);
	if (g.coin())
		for (digits = 1; digits < (dbl ? 17 : 9); ++digits) {
			std::snprintf(t, sizeof t, "%.*e", digits - 1, x);
			if (dbl ? std::strtod(t, 0) == x : std::strtof(t, 0) == (float)x) break;
		}
	std::snprintf(t, sizeof t, "%.*e", digits - 1, x);
	std::uint64_t n = 0;
	const char* p = t;
	for (; *p && *p != 'e'; ++p)
		if (*p >= '0' && *p <= '9') n = n * 10 + (std::uint64_t)(*p - '0');
	int e = std::atoi(p + 1) - (digits - 1);
	std::uint64_t ten = 1;
	for (int i = g.range(0, digits - 1); i > 0; --i) ten *= 10;
	switch (g.range(0, 6)) {
	case 0: n += ten; break;
	case 1: n -= ten > n ? n : ten; break;
	case 2: n ^= std::uint64_t(1) << g.range(0, dbl ? 55 : 29); break;
	case 3: e += g.coin() ? 1 : -1; break;
	case 4: n = n / ten * ten + (n % ten) * 10 / 10 + (std::uint64_t)g.range(0, 9) * ten; break;
	case 5: n = g.coin() ? n * 10 + (std::uint64_t)g.range(0, 9) : n / 10; break;
	default: { std::uint64_t m = std::uint64_t(1) << g.range(0, dbl ? 55 : 29); n = g.coin() ? n + m : n - (m > n ? n : m); }
	}
	std::snprintf(t, sizeof t, "%s%llue%d", x < 0 ? "-" : "", (unsigned long long)n, e);
	if (dbl) { double y = std::strtod(t, 0); std::memcpy(&b, &y, 8); return b; }
	float y = std::strtof(t, 0);
	std::uint32_t w;
	std::memcpy(&w, &y, 4);
	return w;
}
extern "C" std::size_t LLVMFuzzerCustomMutator(std::uint8_t* d, std::size_t n, std::size_t max, unsigned seed) {
	using namespace eng;
	gen::rng g(gen::mix(seed, 4242));
	if (n < 9) { std::memset(d + n, 0, 9 - n); n = 9; }
	if (max < 9) return n;
	u64 b;
	std::memcpy(&b, d + 1, 8);
	const bool dbl = d[0] & 1;
	const int p = dbl ? 52 : 23, eb = dbl ? 11 : 8;
	const u64 fm = (u64(1) << p) - 1, em = (u64(1) << eb) - 1;
	if (!dbl) b = (b ^ (b >> 32)) & 0xffffffffu;
	switch (g.range(0, 11)) {
	case 10: case 11: b = mutate_decimal(b, dbl, g); break;
	case 0: b += 1 + g.below(3); break;
	case 1: b -= 1 + g.below(3); break;
	case 2: b ^= u64(1) << (p + eb); break;
	case 3: b = (b & ~(em << p)) | (((b >> p) + (g.coin() ? 1 : em)) & em) << p; break;  // next or previous exponent
	case 4: b = (b & ~(em << p)) | g.below(em) << p; break;
	case 5: b &= ~((u64(1) << g.range(0, p)) - 1); break;                                  // fewer significant bits
	case 6: b = (b & ~fm) | (((b & fm) * (g.coin() ? 5 : 10)) & fm); break;
	case 7: b ^= u64(1) << g.range(0, p - 1); break;
	default:
		LLVMFuzzerMutate(d + 1, 8, 8);
		if (!dbl) { std::uint32_t lo; std::memcpy(&lo, d + 1, 4); b = lo; }
		else std::memcpy(&b, d + 1, 8);
	}
	if (!dbl) b &= 0xffffffffu;
	std::memcpy(d + 1, &b, 8);
	d[0] = dbl;
	if (g.range(0, 63) == 0) d[0] ^= 1;
	return 9;
}
