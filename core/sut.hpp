// The code under test behind plain function tables; only its documented public API is used.
#pragma once
#include <cstdint>
#include "oracle.hpp"

struct Dec {
	std::uint64_t sig;
	std::int32_t exp;
	bool neg;
};
typedef Dec (*conv_fn)(std::uint64_t bits);
// [mode][crs]; signed form (three members) and unsigned form (two members, neg left false)
struct conv_table {
	conv_fn f[ref::n_modes][ref::n_crs];
};
extern const conv_table sut_signed_f32, sut_signed_f64, sut_unsigned_f32, sut_unsigned_f64;
