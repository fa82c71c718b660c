// Text properties: C11 (content), C12 (memory), C13 (special values), C15 (standard parsers).
#include "engine.hpp"
#include "sut.hpp"
#include "sut_text.hpp"
#include <cfenv>
#include <charconv>
#include <cmath>

using namespace eng;

namespace {
enum id { C11, C12, C13, C15 };

std::string combo(int m, int c) { return std::string(ref::mode_name(m)) + ", " + ref::crs_name(c); }

// the documented form, written independently
int render(char* o, bool neg, u64 sig, int exp) {
	char* p = o;
	if (neg) *p++ = '-';
	char d[24];
	int n = 0;
	do { d[n++] = (char)('0' + sig % 10); sig /= 10; } while (sig);
	*p++ = d[n - 1];
	if (n > 1) {
		*p++ = '.';
		for (int i = n - 2; i >= 0; --i) *p++ = d[i];
	}
	*p++ = 'E';
	long e = (long)exp + n - 1;
	if (e < 0) { *p++ = '-'; e = -e; }
	char x[24];
	int k = 0;
	do { x[k++] = (char)('0' + e % 10); e /= 10; } while (e);
	while (k) *p++ = x[--k];
	return (int)(p - o);
}

struct Guard {  // [PROT_NONE][usable page][PROT_NONE]
	unsigned char* page;
	std::size_t ps;
	Guard() {
		ps = (std::size_t)sysconf(_SC_PAGESIZE);
		unsigned char* a = (unsigned char*)mmap(0, 3 * ps, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (a == (unsigned char*)MAP_FAILED || mprotect(a + ps, ps, PROT_READ | PROT_WRITE)) { std::perror("mmap"); std::_Exit(3); }
		page = a + ps;
	}
	~Guard() { munmap(page - ps, 3 * ps); }
	unsigned char* left() { return page; }
	unsigned char* end() { return page + ps; }
};

unsigned char canary(u64 salt, std::size_t i) {  // never NUL, never ASCII
	return (unsigned char)(0x80 | ((salt >> (i % 50)) & 0x7f));
}

struct TextChecker : Checker {
	id which;
	explicit TextChecker(const std::string& n) {
		which = n == "C11" ? C11 : n == "C12" ? C12 : n == "C13" ? C13 : C15;
	}
	bool in_domain(const Value& v) const override {
		if (which == C11) return Checker::in_domain(v);
		return v.fmt == F64 || v.bits <= 0xffffffffull;
	}
	std::vector<std::string> counter_names() const override {
		return { "NaN", "infinity", "zero", "finite non-zero", "one digit", "2-4 digits", "5-8 digits", "9 digits", "10-16 digits", "17 digits",
			"exponent of one digit", "two digits", "three digits", "negative exponent", "negative", "inner zero pair", "significand near 2^32 or above" };
	}
	static bool bad(Failure* f, const Value& v, const std::string& where, const std::string& msg) {
		f->where = where;
		f->msg = describe(v) + (where.empty() ? "" : " with " + where) + ": " + msg;
		return false;
	}
	struct Kind { bool neg, nan, inf, zero; };
	static Kind kind(const Value& v) {
		u64 sm = v.fmt == F32 ? ref::sign_mask<float>() : ref::sign_mask<double>();
		u64 inf = v.fmt == F32 ? ref::inf_bits<float>() : ref::inf_bits<double>();
		u64 mag = v.bits & (sm - 1);
		return { (v.bits & sm) != 0, mag > inf, mag == inf, mag == 0 };
	}
	void classify(const Value& v, const Kind& kd, Counters& k, const Dec* d) {
		if (kd.nan) ++k.c[0];
		else if (kd.inf) ++k.c[1];
		else if (kd.zero) ++k.c[2];
		else {
			++k.c[3];
			if (d) {
				int n = ref::ndigits(d->sig);
				++k.c[n == 1 ? 4 : n <= 4 ? 5 : n <= 8 ? 6 : n == 9 ? 7 : n <= 16 ? 8 : 9];
				int e = d->exp + n - 1, a = e < 0 ? -e : e;
				++k.c[a < 10 ? 10 : a < 100 ? 11 : 12];
				k.c[13] += e < 0;
				u64 s = d->sig;
				while (s) { if (s % 100 == 0) { ++k.c[15]; break; } s /= 10; }
				k.c[16] += d->sig >> 32 ? 1 : 0;
			}
		}
		k.c[14] += kd.neg;
		(void)v;
	}

	bool eval(const Value& v, Counters& k, Failure* f) override {
		const text_table& T = v.fmt == F32 ? sut_text_f32 : sut_text_f64;
		const conv_table& D = v.fmt == F32 ? sut_signed_f32 : sut_signed_f64;
		Kind kd = kind(v);
		u64 h = gen::mix(v.bits, 4242);
		switch (which) {
		case C11: {
			Dec d0{};
			for (int m = 0; m < ref::n_modes; ++m)
				for (int c = 0; c < ref::n_crs; ++c) {
					Dec d = D.f[m][c](v.bits);
					if (m == ref::near_even && c == ref::t_even) d0 = d;
					char want[64], got[96];
					int n = render(want, kd.neg, d.sig, d.exp);
					for (int z = 0; z < 2; ++z) {
						std::memset(got, 'x', sizeof got);
						char* e = (z ? T.z : T.n)[m][c](v.bits, got);
						++k.evals;
						if (e - got != n || std::memcmp(got, want, (std::size_t)n) != 0) {
							long len = e - got;
							if (len < 0 || len > 90) len = 40;
							return bad(f, v, combo(m, c), std::string(z ? "fp_to_chars" : "fp_to_chars_n") + " wrote \"" + std::string(got, (std::size_t)len) + "\", the decimal is \"" + std::string(want, (std::size_t)n) + "\"");
						}
					}
				}
			char want[64], got[96];
			int n = render(want, kd.neg, d0.sig, d0.exp);
			for (int z = 0; z < 2; ++z) {
				std::memset(got, 'x', sizeof got);
				char* e = (z ? T.z_default : T.n_default)(v.bits, got);
				++k.evals;
				if (e - got != n || std::memcmp(got, want, (std::size_t)n) != 0)
					return bad(f, v, "default arguments", "wrote \"" + std::string(got, 40) + "\", the decimal is \"" + std::string(want, (std::size_t)n) + "\"");
			}
			classify(v, kd, k, &d0);
			k.nontrivial = ref::ndigits(d0.sig) > 1;
			return true;
		}
		case C12: {
			static thread_local Guard g;
			Dec d0{};
			bool fin = !kd.nan && !kd.inf && !kd.zero;
			if (fin) d0 = D.f[0][1](v.bits);
			classify(v, kd, k, fin ? &d0 : 0);
			k.nontrivial = !fin || d0.sig > 9;
			const int W = 224, B = 96;
			alignas(64) unsigned char a[W];
			for (int m = 0; m < ref::n_modes; ++m) {
				int c = (int)((h >> (m * 2)) % ref::n_crs);
				std::string first;
				for (int pass = 0; pass < 2; ++pass) {
					u64 salt = gen::mix(h, pass * 64 + m);
					for (int i = 0; i < W; ++i) a[i] = canary(salt, (std::size_t)i);
					int off = B + (int)(salt >> 60);
					char* buf = (char*)a + off;
					char* e = (pass ? T.z : T.n)[m][c](v.bits, buf);
					++k.evals;
					long L = e - buf;
					const char* fn = pass ? "fp_to_chars" : "fp_to_chars_n";
					if (L < 1 || L > 30) {
						char b[80];
						std::snprintf(b, sizeof b, "%s returned buffer%+ld: not in the documented 31 bytes", fn, L);
						return bad(f, v, combo(m, c), b);
					}
					for (int i = 0; i < off; ++i)
						if (a[i] != canary(salt, (std::size_t)i)) {
							char b[80];
							std::snprintf(b, sizeof b, "%s modified the byte at buffer%+d", fn, i - off);
							return bad(f, v, combo(m, c), b);
						}
					for (int i = off + (int)L + pass; i < W; ++i)
						if (a[i] != canary(salt, (std::size_t)i)) {
							char b[80];
							std::snprintf(b, sizeof b, "%s modified the byte at end%+d", fn, i - off - (int)L);
							return bad(f, v, combo(m, c), b);
						}
					if (pass && *e != 0) return bad(f, v, combo(m, c), "fp_to_chars did not terminate the text");
					for (long i = 0; i < L; ++i) if ((unsigned char)buf[i] >= 0x80 || buf[i] == 0) return bad(f, v, combo(m, c), std::string(fn) + " left a byte of the text unwritten");
					std::string s(buf, (std::size_t)L);
					if (!pass) first = s;
					else if (s != first) return bad(f, v, combo(m, c), "fp_to_chars_n wrote \"" + first + "\", fp_to_chars \"" + s + "\"");
				}
				// exact-size buffers against inaccessible pages: any access outside is a fault
				for (int pass = 0; pass < 4; ++pass) {
					std::size_t need = first.size() + (pass & 1);
					char* buf = (char*)(pass < 2 ? g.end() - need : g.left());
					for (std::size_t i = 0; i < need; ++i) buf[i] = (char)canary(h, i);
					char* e = (pass & 1 ? T.z : T.n)[m][c](v.bits, buf);
					++k.evals;
					if (e != buf + first.size() || std::memcmp(buf, first.data(), first.size()) != 0 || ((pass & 1) && *e != 0))
						return bad(f, v, combo(m, c), "another buffer position or content gave another result than \"" + first + "\"");
				}
			}
			return true;
		}
		case C13: {
			k.nontrivial = kd.nan || kd.inf || kd.zero || ((v.bits << (v.fmt == F32 ? 33 : 1)) >> (v.fmt == F32 ? 56 : 53)) == 0;
			classify(v, kd, k, 0);
			const char* want = kd.nan ? "NaN" : kd.inf ? (kd.neg ? "-Infinity" : "Infinity") : kd.zero ? (kd.neg ? "-0E0" : "0E0") : 0;
			int first = (int)(h % 70), step = (v.fmt == F32 && kd.nan) ? 13 : 1;  // the many NaN floats: 6 combinations each
			for (int j = 0; j < 70; j += step) {
				int idx = (first + j) % 70, m = idx / ref::n_crs, c = idx % ref::n_crs;
				for (int z = 0; z < 4; ++z) {
					if (z > 1 && j) break;
					char got[96];
					std::memset(got, 'x', sizeof got);
					char* e = (z == 0 ? T.n[m][c] : z == 1 ? T.z[m][c] : z == 2 ? T.n_default : T.z_default)(v.bits, got);
					++k.evals;
					long L = e - got;
					bool ok = L > 0 && L < 40;
					std::string s(got, ok ? (std::size_t)L : 40);
					if (ok) {
						if (want) ok = s == want;
						else {  // a number: -?d(.d+)?E-?d+, not zero
							std::size_t i = 0;
							if (s[i] == '-') ++i;
							ok = (i == 1) == kd.neg && s[i] >= '1' && s[i] <= '9';
							std::size_t x = s.find('E');
							ok = ok && x != std::string::npos && x + 1 < s.size();
							for (std::size_t q = i; ok && q < s.size(); ++q)
								ok = (s[q] >= '0' && s[q] <= '9') || q == x || (s[q] == '.' && q == i + 1 && x > q + 1) || (s[q] == '-' && q == x + 1);
							ok = ok && s.back() >= '0' && s.back() <= '9';
						}
					}
					if (!ok) return bad(f, v, z > 1 ? "default arguments" : combo(m, c), std::string(z & 1 ? "fp_to_chars" : "fp_to_chars_n") + " wrote \"" + s + "\", expected " + (want ? std::string("\"") + want + "\"" : std::string("a non-zero number")));
				}
			}
			return true;
		}
		default: {
			classify(v, kd, k, 0);
			char got[96];
			// default mode: nearest-even parsers
			T.z_default(v.bits, got);
			got[95] = 0;
			k.nontrivial = !kd.zero && !kd.inf && !kd.nan && std::strlen(got) > 6;
			if (!parse(v, kd, got, FE_TONEAREST, "default mode", true, k, f)) return false;
			if (!kd.nan && !kd.inf && !kd.zero) {
				// length of the platform's own shortest text
				char pl[64];
				std::to_chars_result r = v.fmt == F32 ? std::to_chars(pl, pl + 60, as_float(v), std::chars_format::scientific) : std::to_chars(pl, pl + 60, as_double(v), std::chars_format::scientific);
				int want = digits(pl, r.ptr), have = digits(got, got + std::strlen(got));
				++k.evals;
				if (want != have) return bad(f, v, "default mode", std::string("text \"") + got + "\" has " + std::to_string(have) + " digits, the platform's shortest \"" + std::string(pl, r.ptr) + "\" has " + std::to_string(want));
			}
			static const int md[4] = { ref::to_pinf, ref::to_ninf, ref::to_zero, ref::to_away };
			for (int i = 0; i < 4; ++i) {
				int c = (int)((h >> (3 * i)) % ref::n_crs);
				int env = i == 0 ? FE_UPWARD : i == 1 ? FE_DOWNWARD : i == 2 ? FE_TOWARDZERO : kd.neg ? FE_DOWNWARD : FE_UPWARD;
				T.z[md[i]][c](v.bits, got);
				got[95] = 0;
				if (!parse(v, kd, got, env, combo(md[i], c), false, k, f)) return false;
			}
			return true;
		}
		}
	}
	static float as_float(const Value& v) { u32 w = (u32)v.bits; float x; std::memcpy(&x, &w, 4); return x; }
	static double as_double(const Value& v) { double x; std::memcpy(&x, &v.bits, 8); return x; }
	static int digits(const char* a, const char* b) {
		int n = 0;
		for (; a < b && *a != 'e' && *a != 'E'; ++a) n += *a >= '0' && *a <= '9';
		return n;
	}
	bool parse(const Value& v, const Kind& kd, const char* s, int env, const std::string& where, bool fc, Counters& k, Failure* f) {
		char* end = 0;
		u64 b;
		std::fesetround(env);
		if (v.fmt == F32) { float x = std::strtof(s, &end); u32 w; std::memcpy(&w, &x, 4); b = w; }
		else { double x = std::strtod(s, &end); std::memcpy(&b, &x, 8); }
		std::fesetround(FE_TONEAREST);
		++k.evals;
		Value back{ v.fmt, b };
		if (*end) return bad(f, v, where, std::string("text \"") + s + "\" is not read completely by the standard parser");
		Kind bk = kind(back);
		if (kd.nan ? !bk.nan : b != v.bits) return bad(f, v, where, std::string("text \"") + s + "\" reads back as " + describe(back));
		if (fc && !kd.nan && !kd.inf) {
			const char* e = s + std::strlen(s);
			std::from_chars_result r;
			if (v.fmt == F32) { float x = 0; r = std::from_chars(s, e, x); u32 w; std::memcpy(&w, &x, 4); b = w; }
			else { double x = 0; r = std::from_chars(s, e, x); std::memcpy(&b, &x, 8); }
			++k.evals;
			if (r.ec != std::errc() || r.ptr != e || b != v.bits) return bad(f, v, where, std::string("text \"") + s + "\" reads back through from_chars as " + describe(Value{ v.fmt, b }));
		}
		return true;
	}
	std::string sample(const Value& v) override {
		const text_table& T = v.fmt == F32 ? sut_text_f32 : sut_text_f64;
		char a[96] = {}, b[96] = {};
		T.z_default(v.bits, a);
		T.z[ref::to_zero][0](v.bits, b);
		return describe(v) + "; default -> \"" + a + "\"; toward_zero -> \"" + b + "\"";
	}
};
}  // namespace

#ifdef FUZZ
#include "fuzz.hpp"
Checker* eng::fuzz_checker(const char* a) { (void)a; return new TextChecker(a); }
#else
int main(int argc, char** argv) {
	if (argc < 3) return 3;
	TextChecker ck(argv[1]);
	Engine e(ck);
	return e.main(argc - 1, argv + 1);
}
#endif
