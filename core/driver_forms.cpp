// C22: every way of calling gives the result of the plain call with temporaries.
//   driver_forms run|replay ...      driver_forms default-handler
#include "engine.hpp"
#include "sut.hpp"
#include "sut_text.hpp"
#include "forms.hpp"
#include <sys/wait.h>
#include <csignal>
#include <unistd.h>

using namespace eng;

#define LISTS(n) extern "C++" __attribute__((weak)) const Form* forms_##n##_f32(int*); extern "C++" __attribute__((weak)) const Form* forms_##n##_f64(int*);
LISTS(1) LISTS(2) LISTS(3) LISTS(4) LISTS(5) LISTS(6)

namespace {
std::vector<std::vector<Form>> by_name[2];  // the forms of one name together
void load() {
	form_list l[2][6] = { { forms_1_f32, forms_2_f32, forms_3_f32, forms_4_f32, forms_5_f32, forms_6_f32 }, { forms_1_f64, forms_2_f64, forms_3_f64, forms_4_f64, forms_5_f64, forms_6_f64 } };
	for (int d = 0; d < 2; ++d)
		for (form_list f : l[d]) {
			if (!f) continue;
			int n = 0;
			const Form* a = f(&n);
			for (int i = 0; i < n; ++i) {
				if (by_name[d].empty() || std::string(by_name[d].back()[0].name) != a[i].name) by_name[d].push_back({});
				by_name[d].back().push_back(a[i]);
			}
		}
}
const char* describe_form(const std::string& n) {
	static const char* const t[][2] = {
		{ "named", "tags passed as named objects" }, { "constant", "tags passed as const objects" }, { "moved", "tags passed through std::move" }, { "mixed", "a temporary mode and a const setting" },
		{ "mixed2", "a named mode and a temporary setting" }, { "const_temporary", "const tags through std::move" }, { "reused", "the same tag objects used twice" },
		{ "u_named", "unsigned form, named tags" }, { "u_constant", "unsigned form, const tags" }, { "u_moved", "unsigned form, moved tags" }, { "u_mixed", "unsigned form, temporary mode and const setting" },
		{ "h_named", "a recording case handler passed by name" }, { "h_constant", "a const case handler" }, { "h_temporary", "a temporary case handler" }, { "h_lambda", "a generic lambda as case handler" },
		{ "h_mutable", "a mutable lambda as case handler" }, { "h_function", "a function as case handler" }, { "h_throws", "a case handler that throws" }, { "h_converts", "a case handler that converts another value" },
		{ "hs_stops", "a case handler that stops the conversion" }, { "uhs_stops", "unsigned form, a case handler that stops the conversion" }, { "h_ignore", "ignore_special_cases" }, { "h_assert", "a const assert_finite" }, { "uh_named", "unsigned form, a recording case handler passed by name" }, { "uh_lambda", "unsigned form, a lambda as case handler" },
		{ "uh_throws", "unsigned form, a case handler that throws" }, { "uh_ignore", "unsigned form, ignore_special_cases by name" }, { "uh_std_function", "unsigned form, a std::function as case handler" },
		{ "t_named", "fp_to_chars with named tags" }, { "t_constant", "fp_to_chars with const tags" }, { "t_moved", "fp_to_chars with moved tags" }, { "n_named", "fp_to_chars_n with named tags" },
		{ "n_constant", "fp_to_chars_n with const tags" }, { "n_mixed", "fp_to_chars_n with a temporary mode and a const setting" }, { "o_crs", "setting omitted" }, { "o_crs_named", "setting omitted, const mode" },
		{ "o_crs_u", "setting omitted, unsigned form" }, { "o_text", "fp_to_chars, setting omitted" }, { "o_text_n", "fp_to_chars_n, setting omitted" }, { "o_all", "grisu_exact(x)" }, { "o_all_s", "grisu_exact<true>(x)" },
		{ "o_all_u", "grisu_exact<false>(x)" }, { "o_all_t", "fp_to_chars(x, buffer)" }, { "o_all_n", "fp_to_chars_n(x, buffer)" } };
	for (auto& r : t) if (n == r[0]) return r[1];
	return "another form";
}
struct FormsChecker : Checker {
	bool everything = false;  // replay: all combinations instead of a selection
	std::vector<std::string> counter_names() const override { return { "forms tried", "with a handler", "as text", "with arguments omitted" }; }
	static bool finite_nonzero(const Value& v) {
		u64 mag = v.fmt == F32 ? v.bits & 0x7fffffffu : v.bits & ~(u64(1) << 63);
		return mag != 0 && mag < (v.fmt == F32 ? ref::inf_bits<float>() : ref::inf_bits<double>());
	}
	bool in_domain(const Value&) const override { return true; }
	std::string sample(const Value& v) override { return describe(v); }
	bool one(const Value& v, const Form& f, Failure* fl, Counters& k) {
		const bool d = v.fmt == F64;
		FormRes r;
		f.f(v.bits, r);
		++k.evals;
		++k.c[0];
		const std::string n = f.name;
		k.c[1] += n.find("h_") != std::string::npos || n.find("hs_") != std::string::npos;
		k.c[2] += r.is_text;
		k.c[3] += n.compare(0, 2, "o_") == 0;
		std::string why;
		if (r.problem) why = r.problem;
		else if (r.only_handler) return true;
		else if (r.is_text) {
			char b[64];
			std::memset(b, 0, sizeof b);
			char* e = (d ? sut_text_f64 : sut_text_f32).n[f.mode][f.crs](v.bits, b);
			int len = (int)(e - b);
			if (len != r.len || std::memcmp(b, r.text, (std::size_t)len) != 0) why = "text \"" + std::string(r.text, (std::size_t)r.len) + "\" instead of \"" + std::string(b, (std::size_t)(len < 0 || len > 40 ? 0 : len)) + "\"";
		} else {
			Dec p = f.with_sign ? (d ? sut_signed_f64 : sut_signed_f32).f[f.mode][f.crs](v.bits) : (d ? sut_unsigned_f64 : sut_unsigned_f32).f[f.mode][f.crs](v.bits);
			if (r.has_sign != f.with_sign) why = f.with_sign ? "the result has no sign" : "the result has a sign";
			else if (p.sig != r.d.sig || p.exp != r.d.exp || p.neg != r.d.neg) {
				char t[160];
				std::snprintf(t, sizeof t, "%s%llue%d instead of %s%llue%d", r.d.neg ? "-" : "", (unsigned long long)r.d.sig, r.d.exp, p.neg ? "-" : "", (unsigned long long)p.sig, p.exp);
				why = t;
			}
		}
		if (why.empty()) return true;
		fl->where = n;
		fl->msg = describe(v) + ", " + ref::mode_name(f.mode) + ", " + ref::crs_name(f.crs) + ", " + describe_form(n) + ": " + why;
		return false;
	}
	bool eval(const Value& v, Counters& k, Failure* f) override {
		u64 h = gen::mix(v.bits, (u64)v.fmt + 5);
		const bool d = v.fmt == F64;
		// non-trivial: some mode or setting gives something else than the default, so that a wrong tag would show
		if (!finite_nonzero(v)) {  // only the handlers that stop the conversion
			k.nontrivial = true;
			for (auto& g : by_name[d]) {
				const std::string n = g[0].name;
				if (n != "hs_stops" && n != "uhs_stops") continue;
				for (std::size_t i = 0; i < g.size(); ++i)
					if ((everything || (h >> (i % 60) & 15) == 0) && !one(v, g[i], f, k)) return false;
			}
			return true;
		}
		const conv_table& S = d ? sut_signed_f64 : sut_signed_f32;
		Dec a = S.f[ref::near_even][ref::t_even](v.bits), b = S.f[ref::to_zero][ref::t_even](v.bits), c = S.f[ref::to_away][ref::t_even](v.bits), e = S.f[ref::near_even][ref::t_odd](v.bits);
		auto same = [](const Dec& x, const Dec& y) { return x.sig == y.sig && x.exp == y.exp; };
		k.nontrivial = !same(a, b) || !same(a, c) || !same(a, e);
		for (auto& g : by_name[d]) {
			std::size_t n = g.size();
			if (everything || n == 1) { for (auto& x : g) if (!one(v, x, f, k)) return false; continue; }
			for (int i = 0; i < 4; ++i) {
				h = h * 0x9e3779b97f4a7c15ull + 12345;
				if (!one(v, g[(std::size_t)((h >> 40) % n)], f, k)) return false;
			}
		}
		return true;
	}
};
}
int main(int argc, char** argv) {
	load();
	if (argc == 2 && std::string(argv[1]) == "default-handler") {
		// with assertions on, a non-finite value given without a case handler stops the process
		static const u64 bad[2][5] = { { 0x7f800000, 0xff800000, 0x7fc00000, 0xff800001, 0x7fffffff }, { 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0xfff0000000000001ull, 0x7fffffffffffffffull } };
		int tried = 0;
		std::string fail;
		for (int d = 0; d < 2; ++d)
			for (auto& g : by_name[d]) {
				std::string n = g[0].name;
				if (n != "o_all" && n != "o_all_s" && n != "o_all_u" && n != "o_crs" && n != "named" && n != "u_constant" && n != "h_assert") continue;
				for (std::size_t i = 0; i < g.size(); i += g.size() > 20 ? 11 : 3)
					for (u64 b : bad[d]) {
						++tried;
						pid_t p = fork();
						if (p == 0) {
							std::freopen("/dev/null", "w", stderr);
							std::signal(SIGABRT, SIG_DFL);
							alarm(20);
							FormRes r;
							g[i].f(b, r);
							_exit(0);
						}
						int st = 0;
						waitpid(p, &st, 0);
						if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) && fail.empty()) {
							char t[400];
							std::snprintf(t, sizeof t, "%s: a non-finite %s (0x%llx) is not stopped by the default case handler's assertion", describe_form(n), d ? "double" : "float", (unsigned long long)b);
							fail = t;
						}
					}
			}
		std::printf("{\"tried\": %d, \"failure\": %s}\n", tried, fail.empty() ? "null" : jstr(fail).c_str());
		return fail.empty() ? 0 : 1;
	}
	if (argc < 3) return 3;
	FormsChecker ck;
	ck.everything = std::string(argv[2]) != "run";
	Engine e(ck);
	return e.main(argc - 1, argv + 1);
}
