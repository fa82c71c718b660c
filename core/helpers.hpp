#pragma once
#include <cstdint>
struct table_info {
	void (*entry)(int k, std::uint64_t* words);
	int min_k, max_k, size, alpha;
};
struct helper_table {
	int (*log10_pow2)(int);
	int (*log2_pow10)(int);
	int (*log5_pow2)(int);
	int (*c_log10_pow2)(int);
	int (*c_log2_pow10)(int);
	int (*c_log5_pow2)(int);
	int (*n_log10_pow2)(int);
	int (*n_log2_pow10)(int);
	int (*n_log5_pow2)(int);
	void (*mul128)(std::uint64_t, std::uint64_t, std::uint64_t*, std::uint64_t*);
	std::uint64_t (*mul128_upper)(std::uint64_t, std::uint64_t);
	std::uint64_t (*mul192_upper)(std::uint64_t, std::uint64_t, std::uint64_t);
	std::uint32_t (*mul96_upper)(std::uint32_t, std::uint64_t);
	std::uint64_t (*mul64)(std::uint32_t, std::uint32_t);
	bool (*div2_32)(std::uint32_t, int);
	bool (*div2_64)(std::uint64_t, int);
	bool (*div5_32)(std::uint32_t, int);
	bool (*div5_64)(std::uint64_t, int);
	void (*pair128)(std::uint64_t, std::uint64_t, std::uint64_t*, std::uint64_t*);
	table_info f32, f64;
};
