#pragma once
#include <cstdint>
#include "oracle.hpp"
typedef char* (*text_fn)(std::uint64_t bits, char* buffer);
struct text_table {
	text_fn n[ref::n_modes][ref::n_crs];  // fp_to_chars_n
	text_fn z[ref::n_modes][ref::n_crs];  // fp_to_chars
	text_fn n_default, z_default;         // with the documented default arguments
};
extern const text_table sut_text_f32, sut_text_f64;
