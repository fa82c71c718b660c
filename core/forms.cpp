// C22: ways of calling the library. -DGROUP=<n> -DSUT_FLOAT=... -DSUT_NAME=<list function>
// One group per object: a group that does not compile while the plain call does is itself an answer.
#include "forms.hpp"
#include <cstring>
#include <functional>
#include <utility>
#include "env.hpp"
#if GROUP % 2 == 0   // both orders of inclusion are used
#include <fp_to_chars.h>
#include <grisu_exact.h>
#else
#include <grisu_exact.h>
#include <fp_to_chars.h>
#endif

namespace {
	namespace rm = jkj::grisu_exact_rounding_modes;
	namespace cr = jkj::grisu_exact_correct_rounding;
	namespace ch = jkj::grisu_exact_case_handlers;
	typedef SUT_FLOAT F;
	typedef ref::fmt<F>::bits_t bits_t;
	typedef jkj::bit_representation_t<F> br_t;
	F value(std::uint64_t bits) {
		bits_t b = bits_t(bits);
		F x;
		std::memcpy(&x, &b, sizeof x);
		return x;
	}
	template <class T> auto neg_of(T const& v, int) -> decltype(bool(v.is_negative)) { return v.is_negative; }
	template <class T> bool neg_of(T const&, long) { return false; }
	template <class T> auto sign_in(T const& v, int) -> decltype(bool(v.is_negative)) { return true; }
	template <class T> bool sign_in(T const&, long) { return false; }
	template <class T> void put(FormRes& r, T const& v) {
		r.d.sig = v.significand;
		r.d.exp = v.exponent;
		r.d.neg = neg_of(v, 0);
		r.has_sign = sign_in(v, 0);
		// README: the significand is a std::uint64_t for double and a std::uint32_t for float, the exponent an int
		typedef std::remove_const_t<std::remove_reference_t<decltype(v.significand)>> sig_t;
		typedef std::remove_const_t<std::remove_reference_t<decltype(v.exponent)>> exp_t;
		if (!std::is_unsigned_v<sig_t> || sizeof(sig_t) != sizeof(F)) r.problem = "the significand is not of the documented type";
		else if (!std::is_same_v<exp_t, int>) r.problem = "the exponent is not of the documented type";
	}
	struct buf {
		char b[64];
		buf() { std::memset(b, 0x7e, sizeof b); }
	};
	void put_text(FormRes& r, buf const& b, char* end, bool z) {
		r.is_text = true;
		r.len = int(end - b.b);
		if (r.len < 0 || r.len > 40) { r.len = 0; r.problem = "the returned pointer is not in the buffer"; return; }
		std::memcpy(r.text, b.b, std::size_t(r.len));
		if (z && *end != 0) r.problem = "there is no terminator at the returned position";
		if (!z && *end != 0x7e) r.problem = "fp_to_chars_n wrote at the returned position";
	}

	// case handlers that record
	struct recorder {
		int calls = 0;
		bits_t seen = 0;
		recorder() = default;
		recorder(recorder const&) = delete;
		recorder& operator=(recorder const&) = delete;
		void operator()(br_t br) { ++calls; seen = br.f; }
	};
	struct const_recorder {
		int* calls;
		bits_t* seen;
		void operator()(br_t br) const { ++*calls; *seen = br.f; }
	};
	struct stop { bits_t seen; };
	void check(FormRes& r, int calls, bits_t seen, std::uint64_t bits) {
		if (calls == 0) r.problem = "the case handler was not invoked";
		else if (calls != 1) r.problem = "the case handler was invoked more than once";
		else if (seen != bits_t(bits)) r.problem = "the case handler did not get the bits of the input";
	}
	int fn_calls_of(int add) { static thread_local int n = 0; n += add; return n; }
	bits_t fn_seen_of(bits_t const* s) { static thread_local bits_t v = 0; if (s) v = *s; return v; }
	void plain_function(br_t br) { fn_calls_of(1); fn_seen_of(&br.f); }

	// a handler that stops the conversion: usable with every bit pattern, non-finite ones included
	template <bool S, class M, class C> void stopped(std::uint64_t bits, FormRes& r) {
		int n = 0;
		bits_t s = 0;
		r.only_handler = true;
		try { (void)jkj::grisu_exact<S>(value(bits), M{}, C{}, [&](br_t br) { ++n; s = br.f; throw 1; }); r.problem = "the conversion went on after the case handler threw"; }
		catch (int) {}
		if (!r.problem) check(r, n, s, bits);
	}
#define FORM(n) template <class M, class C> void n(std::uint64_t bits, FormRes& r)
#if GROUP == 1
	FORM(named) { M m; C c; F x = value(bits); put(r, jkj::grisu_exact(x, m, c)); }
	FORM(constant) { const M m{}; const C c{}; const F x = value(bits); put(r, jkj::grisu_exact(x, m, c)); }
	FORM(moved) { M m; C c; put(r, jkj::grisu_exact<true>(value(bits), std::move(m), std::move(c))); }
	FORM(mixed) { const C c{}; put(r, jkj::grisu_exact<true>(value(bits), M{}, c)); }
	FORM(mixed2) { M m; put(r, jkj::grisu_exact<true>(value(bits), m, C{})); }
	FORM(const_temporary) { const M m{}; const C c{}; put(r, jkj::grisu_exact(value(bits), std::move(m), std::move(c))); }
	FORM(reused) { M m; C c; (void)jkj::grisu_exact(value(bits), m, c); put(r, jkj::grisu_exact(value(bits), m, c)); }
#elif GROUP == 2
	FORM(u_named) { M m; C c; F x = value(bits); put(r, jkj::grisu_exact<false>(x, m, c)); }
	FORM(u_constant) { const M m{}; const C c{}; const F x = value(bits); put(r, jkj::grisu_exact<false>(x, m, c)); }
	FORM(u_moved) { M m; C c; put(r, jkj::grisu_exact<false>(value(bits), std::move(m), std::move(c))); }
	FORM(u_mixed) { const C c{}; put(r, jkj::grisu_exact<false>(value(bits), M{}, c)); }
#elif GROUP == 3
	FORM(h_named) { recorder h; put(r, jkj::grisu_exact(value(bits), M{}, C{}, h)); check(r, h.calls, h.seen, bits); }
	FORM(h_constant) { int n = 0; bits_t s = 0; const const_recorder h{ &n, &s }; const M m{}; C c; put(r, jkj::grisu_exact(value(bits), m, c, h)); check(r, n, s, bits); }
	FORM(h_temporary) { int n = 0; bits_t s = 0; put(r, jkj::grisu_exact<true>(value(bits), M{}, C{}, const_recorder{ &n, &s })); check(r, n, s, bits); }
	FORM(h_lambda) { int n = 0; bits_t s = 0; put(r, jkj::grisu_exact(value(bits), M{}, C{}, [&](auto br) { ++n; s = br.f; })); check(r, n, s, bits); }
	FORM(h_mutable) { bits_t s = 0; int o = 0; auto h = [n = 0, &s, &o](br_t br) mutable { ++n; o = n; s = br.f; }; put(r, jkj::grisu_exact(value(bits), M{}, C{}, h)); check(r, o, s, bits); }
	FORM(h_function) { int b = fn_calls_of(0); put(r, jkj::grisu_exact(value(bits), M{}, C{}, plain_function)); check(r, fn_calls_of(0) - b, fn_seen_of(0), bits); }
	FORM(h_throws) {
		bool threw = false;
		bits_t s = 0;
		try { (void)jkj::grisu_exact(value(bits), M{}, C{}, [](br_t br) { throw stop{ br.f }; }); }
		catch (stop const& e) { threw = true; s = e.seen; }
		check(r, threw, s, bits);
		put(r, jkj::grisu_exact(value(bits), M{}, C{}));
	}
	FORM(h_converts) {  // the handler itself uses the library, on something else
		std::uint64_t junk = 0;
		int n = 0;
		auto h = [&](br_t br) {
			++n;
			br_t o = br;
			o.f ^= bits_t(0x155);
			if (o.is_finite() && o.is_nonzero()) junk = jkj::grisu_exact<false>(o.as_ieee754(), rm::toward_zero{}, cr::tie_to_down{}).significand;
		};
		put(r, jkj::grisu_exact(value(bits), M{}, C{}, h));
		if (n != 1) r.problem = "the case handler was not invoked exactly once";
	}
	FORM(hs_stops) { stopped<true, M, C>(bits, r); }
	FORM(h_ignore) { put(r, jkj::grisu_exact(value(bits), M{}, C{}, ch::ignore_special_cases{})); }
	FORM(h_assert) { const ch::assert_finite h{}; put(r, jkj::grisu_exact(value(bits), M{}, C{}, h)); }
#elif GROUP == 4
	FORM(uh_named) { recorder h; put(r, jkj::grisu_exact<false>(value(bits), M{}, C{}, h)); check(r, h.calls, h.seen, bits); }
	FORM(uh_lambda) { int n = 0; bits_t s = 0; M m; const C c{}; put(r, jkj::grisu_exact<false>(value(bits), m, c, [&](br_t const& br) { ++n; s = br.f; })); check(r, n, s, bits); }
	FORM(uh_throws) {
		bool threw = false;
		bits_t s = 0;
		try { (void)jkj::grisu_exact<false>(value(bits), M{}, C{}, [](br_t br) { throw stop{ br.f }; }); }
		catch (stop const& e) { threw = true; s = e.seen; }
		check(r, threw, s, bits);
		put(r, jkj::grisu_exact<false>(value(bits), M{}, C{}));
	}
	FORM(uhs_stops) { stopped<false, M, C>(bits, r); }
	FORM(uh_ignore) { ch::ignore_special_cases h; put(r, jkj::grisu_exact<false>(value(bits), M{}, C{}, h)); }
	FORM(uh_std_function) { recorder h; std::function<void(br_t)> g = [&](br_t br) { h(br); }; put(r, jkj::grisu_exact<false>(value(bits), M{}, C{}, g)); check(r, h.calls, h.seen, bits); }
#elif GROUP == 5
	FORM(t_named) { M m; C c; buf b; char* e = jkj::fp_to_chars(value(bits), b.b, m, c); put_text(r, b, e, true); }
	FORM(t_constant) { const M m{}; const C c{}; buf b; char* e = jkj::fp_to_chars(value(bits), b.b, m, c); put_text(r, b, e, true); }
	FORM(t_moved) { M m; C c; buf b; char* e = jkj::fp_to_chars(value(bits), b.b, std::move(m), std::move(c)); put_text(r, b, e, true); }
	FORM(n_named) { M m; C c; buf b; char* e = jkj::fp_to_chars_n(value(bits), b.b, m, c); put_text(r, b, e, false); }
	FORM(n_constant) { const M m{}; const C c{}; buf b; char* e = jkj::fp_to_chars_n(value(bits), b.b, m, c); put_text(r, b, e, false); }
	FORM(n_mixed) { const C c{}; buf b; char* e = jkj::fp_to_chars_n(value(bits), b.b, M{}, c); put_text(r, b, e, false); }
#elif GROUP == 6  // omitted arguments; the form is used with the row of the default only
	template <class M> void o_crs(std::uint64_t bits, FormRes& r) { put(r, jkj::grisu_exact(value(bits), M{})); }
	template <class M> void o_crs_named(std::uint64_t bits, FormRes& r) { const M m{}; put(r, jkj::grisu_exact(value(bits), m)); }
	template <class M> void o_crs_u(std::uint64_t bits, FormRes& r) { M m; put(r, jkj::grisu_exact<false>(value(bits), m)); }
	template <class M> void o_text(std::uint64_t bits, FormRes& r) { buf b; char* e = jkj::fp_to_chars(value(bits), b.b, M{}); put_text(r, b, e, true); }
	template <class M> void o_text_n(std::uint64_t bits, FormRes& r) { M m; buf b; char* e = jkj::fp_to_chars_n(value(bits), b.b, m); put_text(r, b, e, false); }
	void o_all(std::uint64_t bits, FormRes& r) { put(r, jkj::grisu_exact(value(bits))); }
	void o_all_s(std::uint64_t bits, FormRes& r) { put(r, jkj::grisu_exact<true>(value(bits))); }
	void o_all_u(std::uint64_t bits, FormRes& r) { const F x = value(bits); put(r, jkj::grisu_exact<false>(x)); }
	void o_all_t(std::uint64_t bits, FormRes& r) { buf b; char* e = jkj::fp_to_chars(value(bits), b.b); put_text(r, b, e, true); }
	void o_all_n(std::uint64_t bits, FormRes& r) { buf b; const F x = value(bits); char* e = jkj::fp_to_chars_n(x, b.b); put_text(r, b, e, false); }
#endif
}
#define ONE(f, s, M, mi, C, ci) { #f, ref::mi, ref::ci, s, f<rm::M, cr::C> }
#define ROW(f, s, M, mi) ONE(f, s, M, mi, do_not_care, dnc), ONE(f, s, M, mi, tie_to_even, t_even), ONE(f, s, M, mi, tie_to_odd, t_odd), ONE(f, s, M, mi, tie_to_up, t_up), ONE(f, s, M, mi, tie_to_down, t_down)
#define MODES(X, f, s) X(f, s, nearest_to_even, near_even), X(f, s, nearest_to_odd, near_odd), X(f, s, nearest_toward_plus_infinity, near_pinf), \
	X(f, s, nearest_toward_minus_infinity, near_ninf), X(f, s, nearest_toward_zero, near_zero), X(f, s, nearest_away_from_zero, near_away), \
	X(f, s, nearest_to_even_static_boundary, st_even), X(f, s, nearest_to_odd_static_boundary, st_odd), \
	X(f, s, nearest_toward_plus_infinity_static_boundary, st_pinf), X(f, s, nearest_toward_minus_infinity_static_boundary, st_ninf), \
	X(f, s, toward_plus_infinity, to_pinf), X(f, s, toward_minus_infinity, to_ninf), X(f, s, toward_zero, to_zero), X(f, s, away_from_zero, to_away)
#define ALL(f, s) MODES(ROW, f, s)
#define DEF(f, s, M, mi) { #f, ref::mi, ref::t_even, s, f<rm::M> }
#define DEFS(f, s) MODES(DEF, f, s)

static const Form forms[] = {
#if GROUP == 1
	ALL(named, true), ALL(constant, true), ALL(moved, true), ALL(mixed, true), ALL(mixed2, true), ALL(const_temporary, true), ALL(reused, true)
#elif GROUP == 2
	ALL(u_named, false), ALL(u_constant, false), ALL(u_moved, false), ALL(u_mixed, false)
#elif GROUP == 3
	ALL(h_named, true), ALL(h_constant, true), ALL(h_temporary, true), ALL(h_lambda, true), ALL(h_mutable, true), ALL(h_function, true), ALL(h_throws, true), ALL(h_converts, true), ALL(hs_stops, true), ALL(h_ignore, true), ALL(h_assert, true)
#elif GROUP == 4
	ALL(uh_named, false), ALL(uh_lambda, false), ALL(uh_throws, false), ALL(uhs_stops, false), ALL(uh_ignore, false), ALL(uh_std_function, false)
#elif GROUP == 5
	ALL(t_named, false), ALL(t_constant, false), ALL(t_moved, false), ALL(n_named, false), ALL(n_constant, false), ALL(n_mixed, false)
#elif GROUP == 6
	DEFS(o_crs, true), DEFS(o_crs_named, true), DEFS(o_crs_u, false), DEFS(o_text, false), DEFS(o_text_n, false),
	{ "o_all", ref::near_even, ref::t_even, true, o_all }, { "o_all_s", ref::near_even, ref::t_even, true, o_all_s }, { "o_all_u", ref::near_even, ref::t_even, false, o_all_u },
	{ "o_all_t", ref::near_even, ref::t_even, false, o_all_t }, { "o_all_n", ref::near_even, ref::t_even, false, o_all_n }
#endif
};
const Form* SUT_NAME(int* n) {
	*n = (int)(sizeof forms / sizeof forms[0]);
	return forms;
}
