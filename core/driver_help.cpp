// C19, C20 (table entries), C21: internal helpers against exact integer arithmetic.
//   driver_help logs | tables | arith <seed> <count>
//   driver_help one <helper> <operand>...
#include "helpers.hpp"
#include "oracle.hpp"
#include "gen.hpp"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <vector>

using ref::u64;
using ref::u32;
typedef ref::pow_tables::big big;

#define DECL(n) extern "C" __attribute__((weak)) void set_##n(helper_table*);
DECL(1) DECL(2) DECL(3) DECL(4) DECL(5) DECL(6) DECL(7) DECL(8) DECL(9) DECL(10) DECL(11) DECL(12) DECL(13) DECL(14) DECL(15) DECL(16) DECL(17) DECL(18) DECL(19) DECL(20) DECL(21)

namespace {
helper_table T;
void fill() {
	typedef void (*set_t)(helper_table*);
	set_t all[] = { set_1, set_2, set_3, set_4, set_5, set_6, set_7, set_8, set_9, set_10, set_11, set_12, set_13, set_14, set_15, set_16, set_17, set_18, set_19, set_20, set_21 };
	std::memset(&T, 0, sizeof T);
	for (set_t s : all) if (s) s(&T);
}
std::string hx(u64 v) { char b[24]; std::snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
std::string dc(long long v) { return std::to_string(v); }

// what is being called, for the report if the call does not come back
const char* volatile cur_name = "";
volatile u64 cur_op[3];
volatile int cur_n = 0;
void on_abort(int s) {
	char b[256];
	int n = std::snprintf(b, sizeof b, "{\"died\": {\"signal\": %d, \"helper\": \"%s\", \"operands\": [\"0x%llx\", \"0x%llx\", \"0x%llx\"]}}\n", s, cur_name,
		(unsigned long long)cur_op[0], (unsigned long long)cur_op[1], (unsigned long long)cur_op[2]);
	if (write(1, b, (std::size_t)n) < 0) {}
	_exit(9);
}
void enter(const char* name, u64 a, u64 b = 0, u64 c = 0) { cur_name = name; cur_op[0] = a; cur_op[1] = b; cur_op[2] = c; }

// bit length of 5^k
std::vector<int> len5;
void build_len5(int bits) {
	big a(1, 1);
	while (true) {
		len5.push_back(ref::pow_tables::bitlen(a));
		if (len5.back() > bits) break;
		ref::pow_tables::mul_small(a, 5);
	}
}
int log_floor(int e, bool ten) {  // floor(log_b(2^e)), b = 10 or 5: b^k is no power of two unless k = 0
	auto len = [&](int k) { return len5[(std::size_t)k] + (ten ? k : 0); };
	int n = e < 0 ? -e : e, lo = 0, hi = (int)len5.size() - 1;  // largest k with k == 0 or len(k) <= n
	while (lo < hi) {
		int mid = (lo + hi + 1) / 2;
		if (len(mid) <= n) lo = mid; else hi = mid - 1;
	}
	if (e >= 0) return lo;
	return -(lo + 1);
}
int log2_pow10(int e) {
	if (e == 0) return 0;
	int n = e < 0 ? -e : e, bl = len5[(std::size_t)n] + n;
	return e > 0 ? bl - 1 : -bl;
}
// the W-bit entry for 10^k, most significant limb first
void exact_entry(int k, int W, u64* out) {
	int n = k < 0 ? -k : k;
	big d(1, 1);
	for (int i = 0; i < n; ++i) ref::pow_tables::mul_small(d, 5);
	int bl = ref::pow_tables::bitlen(d);
	auto bit = [&](int i) { return i < 0 ? u64(0) : (d[(std::size_t)i / 64] >> (i % 64)) & 1; };
	int L = W / 64;
	for (int i = 0; i < L; ++i) out[i] = 0;
	if (k >= 0) {
		for (int i = 0; i < W; ++i) out[i / 64] |= bit(bl - 1 - i) << (63 - i % 64);
		return;
	}
	big r(d.size() + 1, 0);
	d.resize(r.size(), 0);
	r[(std::size_t)(bl - 1) / 64] = u64(1) << ((bl - 1) % 64);
	for (int i = 0; i < W; ++i) {
		u64 c = 0;
		for (auto& w : r) { u64 t = w >> 63; w = (w << 1) | c; c = t; }
		bool ge = true;
		for (std::size_t j = r.size(); j-- > 0;)
			if (r[j] != d[j]) { ge = r[j] > d[j]; break; }
		if (ge) {
			u64 br = 0;
			for (std::size_t j = 0; j < r.size(); ++j) {
				u64 s = r[j] - d[j], b1 = r[j] < d[j], s2 = s - br, b2 = s < br;
				r[j] = s2;
				br = b1 | b2;
			}
			out[i / 64] |= u64(1) << (63 - i % 64);
		}
	}
	for (int i = L; i-- > 0;) if (++out[i]) break;  // never exact: round up
}

struct Report {
	std::string items, failure;
	u64 total = 0, nontrivial = 0, distinct = 0;
	void item(const std::string& name, u64 n) {
		items += (items.empty() ? "" : ", ") + ("\"" + name + "\": ") + (n ? std::to_string((unsigned long long)n) : "\"not examined: the helper of that name and shape is not there\"");
		total += n;
	}
	void fail(const std::string& helper, const std::vector<u64>& ops, const std::string& msg) {
		if (!failure.empty()) return;
		failure = ", \"failure\": {\"helper\": \"" + helper + "\", \"operands\": [";
		for (std::size_t i = 0; i < ops.size(); ++i) failure += (i ? ", \"" : "\"") + hx(ops[i]) + "\"";
		failure += "], \"message\": \"" + msg + "\"}";
	}
	int print(const std::string& samples) {
		std::printf("{\"items\": {%s}, \"cases\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"samples\": [%s]%s}\n", items.c_str(), (unsigned long long)total,
			(unsigned long long)nontrivial, (unsigned long long)distinct, samples.c_str(), failure.c_str());
		return failure.empty() ? 0 : 1;
	}
};

struct Log { const char* name; int (*f)(int); int range; int kind; };
std::vector<Log> logs() {
	return { { "floor_log10_pow2 at run time", T.log10_pow2, 1650, 0 }, { "floor_log10_pow2 in constant evaluation", T.c_log10_pow2, 1650, 0 },
		{ "floor_log10_pow2<false>", T.n_log10_pow2, 1650, 0 }, { "floor_log2_pow10 at run time", T.log2_pow10, 642, 1 },
		{ "floor_log2_pow10 in constant evaluation", T.c_log2_pow10, 642, 1 }, { "floor_log2_pow10<false>", T.n_log2_pow10, 642, 1 },
		{ "floor_log5_pow2 at run time", T.log5_pow2, 65536, 2 }, { "floor_log5_pow2 in constant evaluation", T.c_log5_pow2, 65536, 2 },
		{ "floor_log5_pow2<false>", T.n_log5_pow2, 65536, 2 } };
}
bool log_ok(const Log& l, int e, Report& r) {
	int want = l.kind == 1 ? log2_pow10(e) : log_floor(e, l.kind == 0);
	enter(l.name, (u64)(ref::i64)e);
	int got = l.f(e);
	if (got == want) return true;
	r.fail(l.name, { (u64)(ref::i64)e }, std::string(l.name) + ": argument " + dc(e) + " gives " + dc(got) + ", exact is " + dc(want));
	return false;
}

bool entry_ok(bool dbl, int k, Report& r) {
	const table_info& i = dbl ? T.f64 : T.f32;
	const char* name = dbl ? "double table" : "float table";
	u64 got[2] = { 0, 0 }, want[2] = { 0, 0 };
	exact_entry(k, dbl ? 128 : 64, dbl ? want : want + 1);
	enter(name, (u64)(ref::i64)k);
	i.entry(k, got);
	if (got[0] == want[0] && got[1] == want[1]) return true;
	r.fail(name, { (u64)(ref::i64)k }, std::string(name) + ": the entry for 10^" + dc(k) + " is " + (dbl ? hx(got[0]) + " " : "") + hx(got[1]) + ", exact is " + (dbl ? hx(want[0]) + " " : "") + hx(want[1]));
	return false;
}

// ---- arithmetic
enum { A_mul128, A_upper, A_192, A_96, A_64, A_d2_32, A_d2_64, A_d5_32, A_d5_64, A_pair, n_arith };
const char* const arith_name[n_arith] = { "umul128", "umul128_upper64", "umul192_upper64", "umul96_upper32", "umul64", "divisible_by_power_of_2<uint32_t>",
	"divisible_by_power_of_2<uint64_t>", "divisible_by_power_of_5<uint32_t>", "divisible_by_power_of_5<uint64_t>", "uint128" };
bool have(int a) {
	switch (a) {
	case A_mul128: return T.mul128; case A_upper: return T.mul128_upper; case A_192: return T.mul192_upper; case A_96: return T.mul96_upper; case A_64: return T.mul64;
	case A_d2_32: return T.div2_32; case A_d2_64: return T.div2_64; case A_d5_32: return T.div5_32; case A_d5_64: return T.div5_64; default: return T.pair128;
	}
}
void wide(u64 a, u64 b, u64& h, u64& l) {  // schoolbook on 32-bit halves
	u64 a0 = (u32)a, a1 = a >> 32, b0 = (u32)b, b1 = b >> 32;
	u64 p = a0 * b0, q = a0 * b1, s = a1 * b0, t = a1 * b1;
	u64 mid = (p >> 32) + (u32)q + (u32)s;
	l = (mid << 32) | (u32)p;
	h = t + (q >> 32) + (s >> 32) + (mid >> 32);
}
bool div_pow(u64 x, unsigned b, int e) {
	for (int i = 0; i < e; ++i) {
		if (x % b) return false;
		x /= b;
	}
	return true;
}
bool arith_ok(int a, const u64* o, Report* r, bool* nt) {
	u64 g[2] = { 0, 0 }, w[2] = { 0, 0 };
	enter(arith_name[a], o[0], o[1], o[2]);
	bool n = false;
	switch (a) {
	case A_mul128: wide(o[0], o[1], w[0], w[1]); T.mul128(o[0], o[1], g, g + 1); n = w[0] != 0; break;
	case A_upper: { u64 l; wide(o[0], o[1], w[0], l); g[0] = T.mul128_upper(o[0], o[1]); n = w[0] != 0; break; }
	case A_192: {
		u64 h, l, h2, l2;
		wide(o[0], o[1], h, l);
		wide(o[0], o[2], h2, l2);
		u64 s = l + h2;
		w[0] = h + (s < l);
		g[0] = T.mul192_upper(o[0], o[1], o[2]);
		n = s < l || s + 1 == 0 || s == 0;
		break;
	}
	case A_96: { u64 l; wide((u32)o[0], o[1], w[0], l); g[0] = T.mul96_upper((u32)o[0], o[1]); n = w[0] != 0; break; }
	case A_64: w[0] = (u64)(u32)o[0] * (u32)o[1]; g[0] = T.mul64((u32)o[0], (u32)o[1]); n = w[0] >> 32; break;
	case A_d2_32: w[0] = div_pow((u32)o[0], 2, (int)o[1]); g[0] = T.div2_32((u32)o[0], (int)o[1]); n = !(o[0] & 1); break;
	case A_d2_64: w[0] = div_pow(o[0], 2, (int)o[1]); g[0] = T.div2_64(o[0], (int)o[1]); n = !(o[0] & 1); break;
	case A_d5_32: w[0] = div_pow((u32)o[0], 5, (int)o[1]); g[0] = T.div5_32((u32)o[0], (int)o[1]); n = o[0] % 5 == 0; break;
	case A_d5_64: w[0] = div_pow(o[0], 5, (int)o[1]); g[0] = T.div5_64(o[0], (int)o[1]); n = o[0] % 5 == 0; break;
	default: w[0] = o[0]; w[1] = o[1]; T.pair128(o[0], o[1], g, g + 1); n = o[0] != o[1];
	}
	if (nt) *nt = n;
	if (g[0] == w[0] && g[1] == w[1]) return true;
	if (r) {
		int k = a == A_192 ? 3 : 2;
		std::string s = std::string(arith_name[a]) + "(";
		for (int i = 0; i < k; ++i) s += (i ? ", " : "") + hx(o[i]);
		s += ") gives " + hx(g[0]) + (a == A_mul128 || a == A_pair ? " " + hx(g[1]) : "") + ", exact is " + hx(w[0]) + (a == A_mul128 || a == A_pair ? " " + hx(w[1]) : "");
		r->fail(arith_name[a], std::vector<u64>(o, o + k), s);
	}
	return false;
}
u64 limb(gen::rng& g) {
	static const u32 half[] = { 0, 1, 2, 0xffffffffu, 0xfffffffeu, 0x80000000u, 0x7fffffffu, 0x80000001u, 0x10000u, 0xffffu };
	switch (g.range(0, 9)) {
	case 0: case 1: return g.next();
	case 2: return u64(1) << g.range(0, 63);
	case 3: return (u64(1) << g.range(0, 63)) - 1;
	case 4: return ~u64(0) - g.below(4);
	case 5: return ((u64)half[g.range(0, 9)] << 32) | half[g.range(0, 9)];
	case 6: return ((u64)half[g.range(0, 9)] << 32) | (u32)g.next();
	case 7: return (g.next() << 32) | half[g.range(0, 9)];
	case 8: { int a = g.range(0, 63), b = g.range(0, 63); return (~u64(0) >> a) & (~u64(0) << b); }
	default: return g.next() >> g.range(0, 63);
	}
}
void draw(int a, gen::rng& g, u64* o) {
	o[2] = 0;
	switch (a) {
	case A_192: {
		o[0] = limb(g); o[1] = limb(g); o[2] = limb(g);
		if (g.coin() && o[0]) {  // aim at the carry out of the middle: floor(o0*o2 / 2^64) = 2^64 - low(o0*o1) + {-2..1}
			u64 h, l;
			wide(o[0], o[1], h, l);
			u64 t = ~l + 1 + (u64)g.range(-2, 1);
			if (t < o[0]) {  // smallest o2 with floor(o0*o2/2^64) >= t: bisect
				u64 lo = 0, hi = ~u64(0);
				while (lo < hi) {
					u64 mid = lo + (hi - lo) / 2;
					wide(o[0], mid, h, l);
					if (h >= t) hi = mid; else lo = mid + 1;
				}
				o[2] = lo - (u64)g.range(0, 1);
			}
		}
		break;
	}
	case A_96: o[0] = (u32)(g.coin() ? limb(g) : limb(g) >> 32); o[1] = limb(g); break;
	case A_64: o[0] = (u32)limb(g); o[1] = (u32)(limb(g) >> (g.coin() ? 32 : 0)); break;
	case A_d2_32: case A_d2_64: {
		int W = a == A_d2_32 ? 32 : 64;
		u64 x = limb(g);
		if (W == 32) x = g.coin() ? x >> 32 : (u32)x;
		x <<= g.coin() ? g.range(0, W - 1) : 0;
		if (W == 32) x = (u32)x;
		if (!x) x = u64(1) << (W - 1);
		int z = 0;
		while (!((x >> z) & 1)) ++z;
		int e = g.range(0, 3) ? z + g.range(-1, 1) : g.coin() ? g.range(1, W + 2) : g.range(1, 1200);
		o[0] = x;
		o[1] = (u64)(e < 1 ? 1 : e);
		break;
	}
	case A_d5_32: case A_d5_64: {
		int N = a == A_d5_32 ? 11 : 23;
		u64 M = a == A_d5_32 ? 0xffffffffull : ~u64(0), q = 1;
		int j = g.range(0, N + 3), done = 0;
		for (; done < j && q <= M / 5; ++done) q *= 5;
		u64 most = M / q, x = q * (g.coin() ? 1 + g.below(most) : g.coin() ? most - g.below(most < 3 ? most : 3) : 1 + g.below(most < 40 ? most : 40));
		if (g.range(0, 3) == 0) x += (u64)g.range(-2, 2);
		x &= M;
		if (!x) x = q;
		int e = done + g.range(-1, 1);
		if (g.range(0, 3) == 0) e = g.range(0, N);
		o[0] = x;
		o[1] = (u64)(e < 0 ? 0 : e > N ? N : e);
		break;
	}
	default: o[0] = limb(g); o[1] = limb(g);
	}
}
}  // namespace

int main(int argc, char** argv) {
	if (argc < 2) return 3;
	fill();
	std::signal(SIGABRT, on_abort);
	std::signal(SIGFPE, on_abort);
	std::signal(SIGSEGV, on_abort);
	std::signal(SIGILL, on_abort);
	std::string what = argv[1];
	Report r;
	if (what == "one" && argc >= 3) {
		std::string h = argv[2];
		u64 o[3] = { 0, 0, 0 };
		for (int i = 3; i < argc && i < 6; ++i) o[i - 3] = std::strtoull(argv[i], 0, 0);
		bool found = false;
		build_len5(66000);
		for (auto& l : logs()) if (h == l.name && l.f) { log_ok(l, (int)(ref::i64)o[0], r); found = true; }
		if (h == "double table" && T.f64.entry) { entry_ok(true, (int)(ref::i64)o[0], r); found = true; }
		if (h == "float table" && T.f32.entry) { entry_ok(false, (int)(ref::i64)o[0], r); found = true; }
		for (int a = 0; a < n_arith; ++a) if (h == arith_name[a] && have(a)) { arith_ok(a, o, &r, 0); found = true; }
		return found ? r.print("") : 4;
	}
	if (what == "logs") {
		build_len5(66000);
		for (auto& l : logs()) {
			u64 n = 0;
			if (l.f)
				for (int i = 0; i <= 2 * l.range; ++i) {  // growing absolute value: the first failure is the smallest
					int e = (i + 1) / 2 * (i & 1 ? 1 : -1);
					++n;
					if (!log_ok(l, e, r)) break;
					if (e < -1 || e > 1) { ++r.nontrivial; ++r.distinct; }
				}
			r.item(l.name, n);
		}
		return r.print("\"floor_log10_pow2(-1650) = " + dc(log_floor(-1650, true)) + "\", \"floor_log2_pow10(641) = " + dc(log2_pow10(641)) + "\", \"floor_log5_pow2(65536) = " + dc(log_floor(65536, false)) + "\"");
	}
	if (what == "tables") {
		build_len5(2200);
		std::string s;
		for (int d = 0; d < 2; ++d) {
			const table_info& i = d ? T.f64 : T.f32;
			const char* name = d ? "double table" : "float table";
			u64 n = 0;
			if (i.entry) {
				// the exponents the algorithm distinguishes, from the format alone: x = f * 2^e with f of W bits
				int W = d ? 64 : 32, emin = (d ? -1021 : -125) - W, emax = (d ? 1024 : 128) - W;
				int lo = -log_floor(emax + 1 - i.alpha, true), hi = -log_floor(emin + 1 - i.alpha, true);
				if (i.min_k > lo || i.max_k < hi)
					r.fail(name, {}, std::string(name) + " covers 10^" + dc(i.min_k) + " to 10^" + dc(i.max_k) + ", inputs need 10^" + dc(lo) + " to 10^" + dc(hi));
				if (i.size < i.max_k - i.min_k + 1)
					r.fail(name, {}, std::string(name) + " has " + dc(i.size) + " entries for " + dc(i.max_k - i.min_k + 1) + " powers");
				for (int k = i.min_k; k <= i.max_k && k - i.min_k < i.size; ++k) { ++n; ++r.nontrivial; ++r.distinct; if (!entry_ok(d, k, r)) break; }
				s += std::string(s.empty() ? "" : ", ") + "\"" + name + ": 10^" + dc(i.min_k) + " to 10^" + dc(i.max_k) + " present, 10^" + dc(lo) + " to 10^" + dc(hi) + " needed\"";
			}
			r.item(name, n);
		}
		return r.print(s);
	}
	if (what == "arith" && argc == 4) {
		u64 seed = std::strtoull(argv[2], 0, 0), count = std::strtoull(argv[3], 0, 0);
		std::string s;
		for (int a = 0; a < n_arith; ++a) {
			u64 n = 0;
			std::unordered_set<u64> seen;
			if (have(a)) {
				gen::rng g(gen::mix(seed, (u64)a + 77));
				for (; n < count; ) {
					u64 o[3];
					draw(a, g, o);
					bool nt;
					++n;
					if (!arith_ok(a, o, &r, &nt)) break;
					if (nt) {
						++r.nontrivial;
						if (seen.size() < 400000) seen.insert(gen::mix(gen::mix(o[0], o[1]), o[2]));
					}
					if (n == count / 3 && a % 3 == 0) s += std::string(s.empty() ? "" : ", ") + "\"" + arith_name[a] + "(" + hx(o[0]) + ", " + hx(o[1]) + (a == A_192 ? ", " + hx(o[2]) : "") + ")\"";
				}
			}
			r.distinct += seen.size();
			r.item(arith_name[a], n);
		}
		return r.print(s);
	}
	return 3;
}
