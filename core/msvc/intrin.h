// Stand-ins for the documented behaviour of the intrinsics of MSVC.
#pragma once
#include <cstdint>
inline std::uint64_t __emulu(unsigned a, unsigned b) { return (std::uint64_t)a * b; }
inline std::uint64_t _umul128(std::uint64_t a, std::uint64_t b, std::uint64_t* hi) {
	std::uint64_t a0 = (std::uint32_t)a, a1 = a >> 32, b0 = (std::uint32_t)b, b1 = b >> 32;
	std::uint64_t p00 = a0 * b0, p01 = a0 * b1, p10 = a1 * b0, p11 = a1 * b1;
	std::uint64_t mid = (p00 >> 32) + (std::uint32_t)p01 + (std::uint32_t)p10;
	*hi = p11 + (p01 >> 32) + (p10 >> 32) + (mid >> 32);
	return (mid << 32) | (std::uint32_t)p00;
}
inline std::uint64_t __umulh(std::uint64_t a, std::uint64_t b) { std::uint64_t h; _umul128(a, b, &h); return h; }
inline unsigned char _addcarry_u64(unsigned char c, std::uint64_t a, std::uint64_t b, std::uint64_t* out) {
	std::uint64_t s = a + b;
	unsigned char r = s < a;
	std::uint64_t t = s + (c ? 1 : 0);
	r = (unsigned char)(r | (t < s));
	*out = t;
	return r;
}
inline unsigned char _subborrow_u64(unsigned char c, std::uint64_t a, std::uint64_t b, std::uint64_t* out) {
	std::uint64_t s = a - b;
	unsigned char r = a < b;
	std::uint64_t t = s - (c ? 1 : 0);
	r = (unsigned char)(r | (s < (c ? 1u : 0u)));
	*out = t;
	return r;
}
inline unsigned char _BitScanForward(unsigned long* i, unsigned m) {
	if (!m) return 0;
	*i = 0;
	while (!((m >> *i) & 1)) ++*i;
	return 1;
}
inline unsigned char _BitScanForward64(unsigned long* i, std::uint64_t m) {
	if (!m) return 0;
	*i = 0;
	while (!((m >> *i) & 1)) ++*i;
	return 1;
}
inline unsigned char _BitScanReverse(unsigned long* i, unsigned m) {
	if (!m) return 0;
	*i = 31;
	while (!((m >> *i) & 1)) --*i;
	return 1;
}
inline unsigned char _BitScanReverse64(unsigned long* i, std::uint64_t m) {
	if (!m) return 0;
	*i = 63;
	while (!((m >> *i) & 1)) --*i;
	return 1;
}
