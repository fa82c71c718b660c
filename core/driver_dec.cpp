// Decimal-level properties: C01-C10, and the hard-input part of C20.
//   driver_dec <property> run|replay|shrink ...
#include "engine.hpp"
#include "sut.hpp"
#include <unordered_map>

using namespace eng;
using ref::quotients;
using ref::answer;

namespace {
ref::ikind dyn_kind(int m, bool neg, bool even) { return ref::interval_of(m, neg, even); }

struct Ctx {
	const conv_table* sg;
	const conv_table* us;
	bool neg, edge, subnormal, even;
	int max_digits, max_sci, min_sci;
	u64 bits;
	quotients q;
	answer a[ref::n_ikinds];
	int nd[ref::n_ikinds];
};

template <class F> void fill(Ctx& c, u64 bits) {
	ref::parts<F> x(bits);
	c.bits = bits;
	c.neg = x.neg;
	c.edge = x.edge();
	c.subnormal = x.be == 0;
	c.even = (x.m & 1) == 0;
	c.max_digits = ref::fmt<F>::max_digits;
	ref::prepare<F>(x, c.q);
	for (int i = 0; i < ref::n_ikinds; ++i) {
		ref::solve(c.q, (ref::ikind)i, c.a[i]);
		c.nd[i] = ref::ndigits(c.a[i].lo);
	}
}
template <class F> bool slow_in(u64 bits, ref::ikind ik, u64 sig, int exp) {
	return ref::in_interval<F>(ref::parts<F>(bits), ik, sig, exp);
}

enum id { C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C20 };

struct DecChecker : Checker {
	id which;
	std::vector<int> modes, crss;
	explicit DecChecker(const std::string& n) {
		int k = std::atoi(n.c_str() + 1);
		which = k == 20 ? C20 : (id)(k - 1);
		bool nearest = which != C05 && which != C06 && which != C07;
		bool directed = which >= C04 && which != C09;
		for (int m = 0; m < ref::n_modes; ++m)
			if (ref::is_directed(m) ? directed : nearest) modes.push_back(m);
		for (int c = 0; c < ref::n_crs; ++c) {
			if (c == ref::dnc && (which == C03 || which == C04 || which == C07)) continue;
			crss.push_back(c);
		}
	}
	std::vector<std::string> counter_names() const override {
		return { "subnormal", "power of two (asymmetric neighbours)", "some exact interval endpoint", "value itself is a short decimal",
			"exact tie between two shortest candidates", "closed and open interval give different answers",
			"modes disagree on the number of digits", "single candidate of minimal length", "negative" };
	}

	static std::string show(const Dec& d) {
		char b[64];
		std::snprintf(b, sizeof b, "%s%llue%d", d.neg ? "-" : "", (unsigned long long)d.sig, d.exp);
		return b;
	}
	static std::string combo(int m, int c) { return std::string(ref::mode_name(m)) + ", " + ref::crs_name(c); }
	static bool bad(Failure* f, const Value& v, int m, int c, const std::string& msg) {
		f->where = combo(m, c);
		f->msg = describe(v) + " with " + combo(m, c) + ": " + msg;
		return false;
	}
	static std::string expectation(const answer& a) {
		char b[256];
		std::snprintf(b, sizeof b, "shortest candidates %llu..%llu times 10^%d, closest %llu%s", (unsigned long long)a.lo, (unsigned long long)a.hi, a.k,
			(unsigned long long)a.n, a.tie ? " (tied with the next)" : "");
		return b;
	}

	bool inside(const Ctx& c, const Value& v, ref::ikind ik, const Dec& d) const {
		const answer& a = c.a[ik];
		if (d.exp == a.k && d.sig >= a.lo && d.sig <= a.hi) return true;
		return v.fmt == F32 ? slow_in<float>(v.bits, ik, d.sig, d.exp) : slow_in<double>(v.bits, ik, d.sig, d.exp);
	}

	bool eval(const Value& v, Counters& k, Failure* f) override {
		Ctx c;
		if (v.fmt == F32) { c.sg = &sut_signed_f32; c.us = &sut_unsigned_f32; fill<float>(c, v.bits); }
		else { c.sg = &sut_signed_f64; c.us = &sut_unsigned_f64; fill<double>(c, v.bits); }
		const u64 sign = v.fmt == F32 ? ref::sign_mask<float>() : ref::sign_mask<double>();
		// ---- classification, from the reference only
		bool exact_end = c.q.el || c.q.er || c.q.ep || c.q.es, any_tie = false, dis = false, single = false;
		for (int i = 0; i < ref::n_ikinds; ++i) {
			any_tie |= c.a[i].tie;
			dis |= c.nd[i] != c.nd[0];
			single |= c.a[i].lo == c.a[i].hi;
		}
		bool co = c.a[ref::i_closed].k != c.a[ref::i_open].k || c.a[ref::i_closed].n != c.a[ref::i_open].n || c.a[ref::i_closed].lo != c.a[ref::i_open].lo || c.a[ref::i_closed].hi != c.a[ref::i_open].hi;
		bool lr = c.a[ref::i_lc].k != c.a[ref::i_rc].k || c.a[ref::i_lc].n != c.a[ref::i_rc].n || c.a[ref::i_lc].lo != c.a[ref::i_rc].lo || c.a[ref::i_lc].hi != c.a[ref::i_rc].hi;
		k.c[0] += c.subnormal;
		k.c[1] += c.edge;
		k.c[2] += exact_end;
		k.c[3] += c.q.ex;
		k.c[4] += any_tie;
		k.c[5] += co;
		k.c[6] += dis;
		k.c[7] += single;
		k.c[8] += c.neg;
		switch (which) {
		case C01: case C02: case C03: case C20:
			k.nontrivial = exact_end || c.edge || c.subnormal || co || lr || any_tie || c.nd[0] < c.max_digits - 1;
			break;
		case C04: k.nontrivial = any_tie; break;
		case C05: case C06: case C07:
			k.nontrivial = c.edge || c.subnormal || c.q.ex || c.nd[ref::i_dir_lc] != c.nd[ref::i_dir_rc] || c.a[ref::i_dir_lc].lo == c.a[ref::i_dir_lc].hi || c.a[ref::i_dir_rc].lo == c.a[ref::i_dir_rc].hi;
			break;
		case C08: k.nontrivial = c.nd[0] < c.max_digits - 1 || c.subnormal || c.a[0].n % 10 == 9 || c.a[0].n % 10 == 1; break;
		case C09: k.nontrivial = co || lr; break;
		default: k.nontrivial = lr || c.nd[ref::i_dir_lc] != c.nd[ref::i_dir_rc] || c.a[ref::i_dir_lc].n != c.a[ref::i_dir_rc].n; break;
		}
		// ---- the property
		for (int m : modes) {
			ref::ikind ik = dyn_kind(m, c.neg, c.even);
			const answer& a = c.a[ik];
			switch (which) {
			case C01: case C05:
				for (int cr : crss) {
					Dec d = c.sg->f[m][cr](v.bits);
					++k.evals;
					if (!inside(c, v, ik, d))
						return bad(f, v, m, cr, "got " + show(d) + ", which this rounding rule does not read back as the input; " + expectation(a));
					if (d.neg != c.neg) return bad(f, v, m, cr, "got " + show(d) + ", of the wrong sign");
				}
				break;
			case C02: case C06: {
				Dec off{};
				for (int cr : crss) {
					Dec d = c.sg->f[m][cr](v.bits);
					++k.evals;
					if (ref::ndigits(d.sig) > c.nd[ik])
						return bad(f, v, m, cr, "got " + show(d) + ", but there is a decimal with fewer digits: " + expectation(a));
					if (cr == ref::dnc) off = d;
					else if (d.exp != off.exp || ref::ndigits(d.sig) != ref::ndigits(off.sig))
						return bad(f, v, m, cr, "got " + show(d) + ", of another length or exponent than without correct-rounding search: " + show(off));
				}
				break;
			}
			case C03: case C07: case C20:
				for (int cr : crss) {
					Dec d = c.sg->f[m][cr](v.bits);
					++k.evals;
					bool ok = d.exp == a.k && (cr == ref::dnc ? d.sig >= a.lo && d.sig <= a.hi
						: which == C20 ? d.sig == ref::pick(a, cr) : d.sig == a.n || (a.tie && d.sig == a.n + 1));
					if (!ok) return bad(f, v, m, cr, "got " + show(d) + ", expected " + expectation(a));
				}
				break;
			case C04: {
				Dec first{};
				for (int cr : crss) {
					Dec d = c.sg->f[m][cr](v.bits);
					++k.evals;
					if (a.tie) {
						if (d.exp != a.k || d.sig != ref::pick(a, cr)) {
							char b[160];
							std::snprintf(b, sizeof b, "got %s, but %llue%d and %llue%d are equally near, so this policy requires %llue%d", show(d).c_str(),
								(unsigned long long)a.n, a.k, (unsigned long long)a.n + 1, a.k, (unsigned long long)ref::pick(a, cr), a.k);
							return bad(f, v, m, cr, b);
						}
					} else {
						if (cr == crss[0]) first = d;
						else if (d.sig != first.sig || d.exp != first.exp)
							return bad(f, v, m, cr, "got " + show(d) + ", another policy gives " + show(first) + ", although there is no tie: " + expectation(a));
					}
				}
				break;
			}
			case C08: {
				int sci_x = ref::ndigits(c.q.qx ? c.q.qx : 1) + c.q.k0 - 1;
				for (int cr : crss)
					for (int form = 0; form < 2; ++form) {
						Dec d = (form ? c.us : c.sg)->f[m][cr](v.bits);
						++k.evals;
						int nd = ref::ndigits(d.sig);
						long sci = (long)d.exp + nd - 1;
						const char* why = d.sig == 0 ? "zero significand" : d.sig % 10 == 0 ? "trailing zero in the significand" : nd > c.max_digits ? "too many digits"
							: sci < (v.fmt == F32 ? -45 : -324) || sci > (v.fmt == F32 ? 38 : 308) ? "exponent out of bounds"
							: sci < sci_x - 1 || sci > sci_x + 1 ? "wrong order of magnitude" : 0;
						if (why) return bad(f, v, m, cr, std::string(form ? "(unsigned form) " : "") + "got " + show(d) + ": " + why);
					}
				break;
			}
			case C09: {
				int dm = ref::dynamic_of(m);
				if (dm == m) break;
				for (int cr : crss)
					for (int form = 0; form < 2; ++form) {
						const conv_table* t = form ? c.us : c.sg;
						Dec d = t->f[m][cr](v.bits), e = t->f[dm][cr](v.bits);
						k.evals += 2;
						if (d.sig != e.sig || d.exp != e.exp || d.neg != e.neg)
							return bad(f, v, m, cr, "got " + show(d) + ", but " + ref::mode_name(dm) + " gives " + show(e));
					}
				break;
			}
			case C10: {
				int mirror = m;
				switch (m) {
				case ref::near_pinf: mirror = ref::near_ninf; break;
				case ref::near_ninf: mirror = ref::near_pinf; break;
				case ref::st_pinf: mirror = ref::st_ninf; break;
				case ref::st_ninf: mirror = ref::st_pinf; break;
				case ref::to_pinf: mirror = ref::to_ninf; break;
				case ref::to_ninf: mirror = ref::to_pinf; break;
				default: break;
				}
				for (int cr : crss) {
					Dec d = c.sg->f[m][cr](v.bits), u = c.us->f[m][cr](v.bits), n = c.sg->f[mirror][cr](v.bits ^ sign), nu = c.us->f[mirror][cr](v.bits ^ sign);
					k.evals += 4;
					if (d.neg != c.neg) return bad(f, v, m, cr, "got " + show(d) + ": wrong sign");
					if (n.neg == c.neg) return bad(f, v, m, cr, "the negated input gives " + show(n) + ": wrong sign");
					if (u.sig != d.sig || u.exp != d.exp) return bad(f, v, m, cr, "signed form gives " + show(d) + ", unsigned form " + show(u));
					if (n.sig != d.sig || n.exp != d.exp)
						return bad(f, v, m, cr, "got " + show(d) + ", but the negated input with " + ref::mode_name(mirror) + " gives " + show(n));
					if (nu.sig != n.sig || nu.exp != n.exp) return bad(f, v, mirror, cr, "negated input: signed form gives " + show(n) + ", unsigned form " + show(nu));
				}
				break;
			}
			}
		}
		return true;
	}
	std::string sample(const Value& v) override {
		Ctx c;
		if (v.fmt == F32) { c.sg = &sut_signed_f32; c.us = &sut_unsigned_f32; fill<float>(c, v.bits); }
		else { c.sg = &sut_signed_f64; c.us = &sut_unsigned_f64; fill<double>(c, v.bits); }
		std::string r = describe(v);
		int show_m[3] = { modes.front(), modes[modes.size() / 2], modes.back() };
		for (int m : show_m) r += std::string("; ") + ref::mode_name(m) + " -> " + show(c.sg->f[m][crss.back()](v.bits));
		return r;
	}
};
}  // namespace

#ifdef FUZZ
#include "fuzz.hpp"
Checker* eng::fuzz_checker(const char* a) { (void)a; return new DecChecker(a); }
#else
int main(int argc, char** argv) {
	if (argc < 3) return 3;
	DecChecker ck(argv[1]);
	Engine e(ck);
	return e.main(argc - 1, argv + 1);
}
#endif
