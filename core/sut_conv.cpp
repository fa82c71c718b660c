// -DSUT_FLOAT=float|double -DSUT_SIGNED=true|false -DSUT_NAME=sut_...
#include "sut.hpp"
#include "env.hpp"
#include <utility>

#include <grisu_exact.h>

namespace {
	namespace rm = jkj::grisu_exact_rounding_modes;
	namespace cr = jkj::grisu_exact_correct_rounding;
	typedef SUT_FLOAT F;
	typedef ref::fmt<F>::bits_t bits_t;

	template <class M, class C>
	Dec call(std::uint64_t bits) {
		bits_t b = bits_t(bits);
		F x;
		std::memcpy(&x, &b, sizeof x);
		auto v = jkj::grisu_exact<SUT_SIGNED>(x, M{}, C{});
		Dec d;
		d.sig = v.significand;
		d.exp = v.exponent;
		if constexpr (SUT_SIGNED) d.neg = v.is_negative;
		else d.neg = false;
		return d;
	}
}
#define ROW(M) { call<rm::M, cr::do_not_care>, call<rm::M, cr::tie_to_even>, call<rm::M, cr::tie_to_odd>, \
	call<rm::M, cr::tie_to_up>, call<rm::M, cr::tie_to_down> }
extern const conv_table SUT_NAME;
const conv_table SUT_NAME = { {
	ROW(nearest_to_even), ROW(nearest_to_odd), ROW(nearest_toward_plus_infinity),
	ROW(nearest_toward_minus_infinity), ROW(nearest_toward_zero), ROW(nearest_away_from_zero),
	ROW(nearest_to_even_static_boundary), ROW(nearest_to_odd_static_boundary),
	ROW(nearest_toward_plus_infinity_static_boundary), ROW(nearest_toward_minus_infinity_static_boundary),
	ROW(toward_plus_infinity), ROW(toward_minus_infinity), ROW(toward_zero), ROW(away_from_zero)
} };
