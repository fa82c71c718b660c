// C18: one sanitized build. Plain loops over generated cases; what is wrong is reported by the instrumentation.
//   driver_san run <cases> <journal> <from> <to> <seed>     conversions, text and inspection of cases [from, to)
//   driver_san one <fmt> <hex>
// With the seed's top bit set, one call only for each case.
// The journal's first word is the index of the case in progress.
#include "sut.hpp"
#include "sut_text.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include "env.hpp"
#include <grisu_exact.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define INITIALISED(p, n) __msan_check_mem_is_initialized((p), (n))
#endif
#endif
#ifndef INITIALISED
#define INITIALISED(p, n) ((void)0)
#endif
using ref::u64;
static volatile u64 sink;

static void conv(const Dec& d) {
	INITIALISED(&d.sig, sizeof d.sig);
	INITIALISED(&d.exp, sizeof d.exp);
	INITIALISED(&d.neg, sizeof d.neg);
	sink = sink + d.sig + (u64)d.exp + d.neg;
}
static void text(text_fn f, u64 bits, bool z) {
	char big[64];
	std::memset(big, 0, sizeof big);
	char* e = f(bits, big);
	std::size_t n = (std::size_t)(e - big) + z;
	if (n > 60) std::abort();
	char* exact = (char*)std::malloc(n);
	char* g = f(bits, exact);
	if ((std::size_t)(g - exact) + z != n) std::abort();
	INITIALISED(exact, n);
	sink = sink + (unsigned char)exact[n - 1];
	std::free(exact);
}
template <class F> static void inspect(u64 bits) {
	typename ref::fmt<F>::bits_t b = (typename ref::fmt<F>::bits_t)bits;
	F x;
	std::memcpy(&x, &b, sizeof x);
	auto r = jkj::get_bit_representation(x);
	u64 s = r.extract_significand_bits() + r.extract_exponent_bits() + r.is_finite() + r.is_nonzero() * 2 + r.is_subnormal() * 4 + r.is_negative() * 8
		+ r.is_positive() * 16 + r.is_positive_infinity() * 32 + r.is_negative_infinity() * 64 + r.is_infinity() * 128 + r.is_nan() * 256
		+ r.is_quiet_nan() * 512 + r.is_signaling_nan() * 1024 + r.get_nan_payload().to_ullong();
	INITIALISED(&s, sizeof s);
	F y = r.as_ieee754();
	INITIALISED(&y, sizeof y);
	sink = sink + s;
}
static void all(bool d, u64 bits, u64 pick) {
	const u64 sm = d ? ref::sign_mask<double>() : ref::sign_mask<float>(), inf = d ? ref::inf_bits<double>() : ref::inf_bits<float>();
	const u64 mag = bits & (sm - 1);
	if (mag && mag < inf) {
		const conv_table& S = d ? sut_signed_f64 : sut_signed_f32;
		const conv_table& U = d ? sut_unsigned_f64 : sut_unsigned_f32;
		for (int m = 0; m < ref::n_modes; ++m)
			for (int c = 0; c < ref::n_crs; ++c) {
				conv(S.f[m][c](bits));
				if ((pick + (u64)(m + c)) % 4 == 0) conv(U.f[m][c](bits));
			}
	}
	const text_table& T = d ? sut_text_f64 : sut_text_f32;
	text(T.z_default, bits, true);
	for (u64 i = 0; i < 3; ++i) {
		int k = (int)((pick / 7 + i * 23) % (u64)(ref::n_modes * ref::n_crs));
		bool z = (pick + i) & 1;
		int m = k / ref::n_crs, c = k % ref::n_crs;
		if (z) text(T.z[m][c], bits, true);
		else text(T.n[m][c], bits, false);
	}
	d ? inspect<double>(bits) : inspect<float>(bits);
}
// one call on its own, so that calls of every kind follow each other in every order
static void single(bool d, u64 bits, u64 pick) {
	const u64 sm = d ? ref::sign_mask<double>() : ref::sign_mask<float>(), inf = d ? ref::inf_bits<double>() : ref::inf_bits<float>();
	const u64 mag = bits & (sm - 1);
	const int k = (int)(pick % (u64)(ref::n_modes * ref::n_crs)), m = k / ref::n_crs, c = k % ref::n_crs;
	const u64 what = pick / 1000 % 8;
	if (what < 3 && mag && mag < inf) {
		conv((what ? d ? sut_signed_f64 : sut_signed_f32 : d ? sut_unsigned_f64 : sut_unsigned_f32).f[m][c](bits));
		return;
	}
	const text_table& T = d ? sut_text_f64 : sut_text_f32;
	const bool z = what != 7;
	char* buffer = (char*)std::malloc(31);
	char* e = (what < 5 ? T.z_default : z ? T.z[m][c] : T.n[m][c])(bits, buffer);
	std::size_t n = (std::size_t)(e - buffer) + z;
	if (n > 31) std::abort();
	INITIALISED(buffer, n);
	sink = sink + (unsigned char)buffer[n - 1];
	std::free(buffer);
}
static u64 pick_of(u64 bits, u64 seed) {
	u64 h = bits * 0x9e3779b97f4a7c15ull + seed * 0xc2b2ae3d27d4eb4full;
	h ^= h >> 29;
	h *= 0xbf58476d1ce4e5b9ull;
	return (h ^ (h >> 32)) >> 8;
}
#ifdef FUZZ
#include "fuzz.hpp"
namespace {
struct SanChecker : eng::Checker {
	bool in_domain(const eng::Value&) const override { return true; }
	bool eval(const eng::Value& v, eng::Counters& k, eng::Failure*) override {
		all(v.fmt == eng::F64, v.bits, pick_of(v.bits, 1));
		++k.evals;
		k.nontrivial = true;
		return true;
	}
};
}
eng::Checker* eng::fuzz_checker(const char*) { return new SanChecker; }
#else
int main(int argc, char** argv) {
	if (argc == 4 && std::strcmp(argv[1], "one") == 0) {
		u64 b = std::strtoull(argv[3], 0, 16);
		for (u64 p = 0; p < 600; ++p) all(std::strcmp(argv[2], "f64") == 0, b, p);  // every choice of text functions
		return 0;
	}
	if (argc != 7) return 3;
	int fd = open(argv[2], O_RDONLY), jd = open(argv[3], O_RDWR | O_CREAT, 0600);
	struct stat st;
	if (fd < 0 || jd < 0 || fstat(fd, &st) || ftruncate(jd, 64)) return 3;
	u64 n = (u64)st.st_size / 16;
	const u64* in = (const u64*)mmap(0, (std::size_t)(n * 16), PROT_READ, MAP_SHARED, fd, 0);
	volatile u64* j = (volatile u64*)mmap(0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, jd, 0);
	if (in == MAP_FAILED || j == MAP_FAILED) return 3;
	u64 from = std::strtoull(argv[4], 0, 0), to = std::strtoull(argv[5], 0, 0), seed = std::strtoull(argv[6], 0, 0);
	if (to > n) to = n;
	for (u64 i = from; i < to; ++i) {
		j[0] = i;
		j[1] = 1;
		if (seed >> 63) single(in[2 * i] != 0, in[2 * i + 1], pick_of(in[2 * i + 1], seed));
		else all(in[2 * i] != 0, in[2 * i + 1], pick_of(in[2 * i + 1], seed));
	}
	j[1] = 2;
	return 0;
}
#endif
