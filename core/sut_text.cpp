// -DSUT_FLOAT=float|double -DSUT_NAME=sut_text_f32|sut_text_f64
#include "sut_text.hpp"
#include <utility>
#include "env.hpp"
#include <fp_to_chars.h>

namespace {
	namespace rm = jkj::grisu_exact_rounding_modes;
	namespace cr = jkj::grisu_exact_correct_rounding;
	typedef SUT_FLOAT F;
	typedef ref::fmt<F>::bits_t bits_t;
	F value(std::uint64_t bits) {
		bits_t b = bits_t(bits);
		F x;
		std::memcpy(&x, &b, sizeof x);
		return x;
	}
	template <class M, class C> char* call_n(std::uint64_t b, char* p) { return jkj::fp_to_chars_n(value(b), p, M{}, C{}); }
	template <class M, class C> char* call_z(std::uint64_t b, char* p) { return jkj::fp_to_chars(value(b), p, M{}, C{}); }
	char* dn(std::uint64_t b, char* p) { return jkj::fp_to_chars_n(value(b), p); }
	char* dz(std::uint64_t b, char* p) { return jkj::fp_to_chars(value(b), p); }
}
#define ROW(f, M) { f<rm::M, cr::do_not_care>, f<rm::M, cr::tie_to_even>, f<rm::M, cr::tie_to_odd>, f<rm::M, cr::tie_to_up>, f<rm::M, cr::tie_to_down> }
#define ROWS(f) { \
	ROW(f, nearest_to_even), ROW(f, nearest_to_odd), ROW(f, nearest_toward_plus_infinity), \
	ROW(f, nearest_toward_minus_infinity), ROW(f, nearest_toward_zero), ROW(f, nearest_away_from_zero), \
	ROW(f, nearest_to_even_static_boundary), ROW(f, nearest_to_odd_static_boundary), \
	ROW(f, nearest_toward_plus_infinity_static_boundary), ROW(f, nearest_toward_minus_infinity_static_boundary), \
	ROW(f, toward_plus_infinity), ROW(f, toward_minus_infinity), ROW(f, toward_zero), ROW(f, away_from_zero) }
extern const text_table SUT_NAME;
const text_table SUT_NAME = { ROWS(call_n), ROWS(call_z), dn, dz };
