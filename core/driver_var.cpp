// C17: one build of the library under one configuration.
//   driver_var hash <cases> <out>     one 64-bit digest of all results per case
//   driver_var show <fmt> <hex>       all results, one line each
#include "sut.hpp"
#include <cstdio>
#include <string>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include "env.hpp"  // last of the system headers: it may undefine what those look at

#include <fp_to_chars.h>
using ref::u64;
static u64 step(u64 h, u64 v) {
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull;
	return h ^ (h >> 33);
}
template <class F> static int text(u64 bits, char* b, int m) {
	typename ref::fmt<F>::bits_t w = (typename ref::fmt<F>::bits_t)bits;
	F x;
	std::memcpy(&x, &w, sizeof x);
	namespace rm = jkj::grisu_exact_rounding_modes;
	char* e = m == 0 ? jkj::fp_to_chars(x, b) : m == 1 ? jkj::fp_to_chars_n(x, b, rm::toward_zero{}) : jkj::fp_to_chars(x, b, rm::nearest_to_odd{});
	return (int)(e - b);
}
static bool finite_nonzero(bool d, u64 b) {
	const u64 mag = b & ((d ? ref::sign_mask<double>() : (u64)ref::sign_mask<float>()) - 1);
	return mag && mag < (d ? ref::inf_bits<double>() : (u64)ref::inf_bits<float>());
}
int main(int argc, char** argv) {
	if (argc == 4 && std::string(argv[1]) == "show") {
		bool d = std::string(argv[2]) == "f64";
		u64 b = std::strtoull(argv[3], 0, 16);
		const conv_table& S = d ? sut_signed_f64 : sut_signed_f32;
		for (int m = 0; finite_nonzero(d, b) && m < ref::n_modes; ++m)
			for (int c = 0; c < ref::n_crs; ++c) {
				Dec r = S.f[m][c](b);
				std::printf("%s, %s: %s%llue%d\n", ref::mode_name(m), ref::crs_name(c), r.neg ? "-" : "", (unsigned long long)r.sig, r.exp);
			}
		for (int m = 0; m < 3; ++m) {
			char t[64] = {};
			int n = d ? text<double>(b, t, m) : text<float>(b, t, m);
			std::printf("text %d: %.*s\n", m, n < 0 || n > 60 ? 60 : n, t);
		}
		return 0;
	}
	if (argc != 4) return 3;
	int fd = open(argv[2], O_RDONLY), od = open(argv[3], O_RDWR | O_CREAT | O_TRUNC, 0600);
	struct stat st;
	if (fd < 0 || od < 0 || fstat(fd, &st)) return 3;
	u64 n = (u64)st.st_size / 16;
	if (n == 0) return 0;
	const u64* in = (const u64*)mmap(0, (std::size_t)(n * 16), PROT_READ, MAP_SHARED, fd, 0);
	if (ftruncate(od, (off_t)(n * 8))) return 3;
	u64* out = (u64*)mmap(0, (std::size_t)(n * 8), PROT_READ | PROT_WRITE, MAP_SHARED, od, 0);
	if (in == MAP_FAILED || out == MAP_FAILED) return 3;
	for (u64 i = 0; i < n; ++i) {
		bool d = in[2 * i] != 0;
		u64 b = in[2 * i + 1];
		const conv_table& S = d ? sut_signed_f64 : sut_signed_f32;
		u64 h = 1;
		for (int m = 0; finite_nonzero(d, b) && m < ref::n_modes; ++m)
			for (int c = 0; c < ref::n_crs; ++c) {
				Dec r = S.f[m][c](b);
				h = step(h, r.sig);
				h = step(h, (u64)(ref::i64)r.exp * 2 + r.neg);
			}
		char t[64];
		for (int m = 0; m < 3; ++m) {
			int k = d ? text<double>(b, t, m) : text<float>(b, t, m);
			for (int j = 0; j < k && j < 60; ++j) h = step(h, (unsigned char)t[j]);
		}
		out[i] = h | 1;  // zero: not reached
	}
	return 0;
}
