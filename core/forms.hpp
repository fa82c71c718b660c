#pragma once
#include "sut.hpp"
struct FormRes {
	Dec d{ 0, 0, false };
	bool has_sign = false;   // the result has a sign member
	bool is_text = false;
	char text[64] = {};
	int len = 0;
	bool only_handler = false; // there is no result to compare
	const char* problem = 0; // what the caller saw beyond the result
};
typedef void (*form_fn)(std::uint64_t bits, FormRes& r);
struct Form {
	const char* name;
	int mode, crs;           // what it must be equal to
	bool with_sign;          // signed form
	form_fn f;
};
typedef const Form* (*form_list)(int* n);
