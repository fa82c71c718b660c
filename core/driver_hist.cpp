// C16: call histories. Every call is compared with the exact reference, whatever came before it, in whatever
// environment, on however many threads; each history is also run backwards and must give the same results.
//   driver_hist run <seed> <threads> <histories> <deadline_s>      driver_hist replay <file>
#include "oracle.hpp"
#include "gen.hpp"
#include "sut.hpp"
#include "sut_text.hpp"
#include <atomic>
#include <cerrno>
#include <cfenv>
#include <chrono>
#include <cstdio>
#include <locale>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#if defined(__SSE2__)
#include <xmmintrin.h>
#endif

using ref::u64;
using ref::u32;

namespace {
struct Op {
	int fmt, mode, crs, form, env;  // form: 0 signed, 1 unsigned, 2 fp_to_chars_n, 3 fp_to_chars; env: bits 0-1 direction, bit 2 flush to zero
	u64 bits;
};
struct Res {
	Dec d{ 0, 0, false };
	char text[40] = {};
	int len = 0;
	bool operator==(const Res& o) const { return d.sig == o.d.sig && d.exp == o.d.exp && d.neg == o.d.neg && len == o.len && std::memcmp(text, o.text, sizeof text) == 0; }
};
std::string show(const Res& r, const Op& o) {
	char b[96];
	if (o.form >= 2) std::snprintf(b, sizeof b, "\"%.*s\"", r.len < 0 || r.len > 39 ? 39 : r.len, r.text);
	else std::snprintf(b, sizeof b, "%s%llue%d", r.d.neg ? "-" : "", (unsigned long long)r.d.sig, r.d.exp);
	return b;
}
std::string show(const Op& o) {
	static const char* const form[] = { "grisu_exact", "grisu_exact<false>", "fp_to_chars_n", "fp_to_chars" };
	static const char* const dir[] = { "", ", rounding up", ", rounding down", ", rounding to zero" };
	char b[256];
	std::snprintf(b, sizeof b, o.fmt ? "%s(double 0x%016llx, %s, %s)%s%s" : "%s(float 0x%08llx, %s, %s)%s%s", form[o.form], (unsigned long long)o.bits,
		ref::mode_name(o.mode), ref::crs_name(o.crs), dir[o.env & 3], o.env & 4 ? ", flush to zero" : "");
	return b;
}

int render(char* o, bool neg, u64 sig, int exp) {
	char* p = o;
	if (neg) *p++ = '-';
	char d[24];
	int n = 0;
	do { d[n++] = (char)('0' + sig % 10); sig /= 10; } while (sig);
	*p++ = d[n - 1];
	if (n > 1) {
		*p++ = '.';
		for (int i = n - 2; i >= 0; --i) *p++ = d[i];
	}
	*p++ = 'E';
	int e = exp + n - 1;
	if (e < 0) { *p++ = '-'; e = -e; }
	char x[24];
	int k = 0;
	do { x[k++] = (char)('0' + e % 10); e /= 10; } while (e);
	while (k) *p++ = x[--k];
	return (int)(p - o);
}

const int fe[4] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };

// performs the call in the given environment; false if that environment was changed by it
bool perform(const Op& o, Res& r, std::string& why) {
	const conv_table& S = o.fmt ? sut_signed_f64 : sut_signed_f32;
	const conv_table& U = o.fmt ? sut_unsigned_f64 : sut_unsigned_f32;
	const text_table& T = o.fmt ? sut_text_f64 : sut_text_f32;
	fenv_t keep;
	std::fegetenv(&keep);
	std::feclearexcept(FE_ALL_EXCEPT);
	std::fesetround(fe[o.env & 3]);
#if defined(__SSE2__)
	unsigned cs = _mm_getcsr();
	if (o.env & 4) { cs |= 0x8040u; _mm_setcsr(cs); }
	cs = _mm_getcsr();
#endif
#if defined(__x86_64__) || defined(__i386__)
	unsigned short cw = 0, cw2 = 0;
	__asm__ volatile("fnstcw %0" : "=m"(cw));
#endif
	errno = 4242;
	switch (o.form) {
	case 0: r.d = S.f[o.mode][o.crs](o.bits); break;
	case 1: r.d = U.f[o.mode][o.crs](o.bits); break;
	default: {
		char buf[96];
		std::memset(buf, '~', sizeof buf);
		char* e = (o.form == 2 ? T.n : T.z)[o.mode][o.crs](o.bits, buf);
		r.len = (int)(e - buf);
		if (r.len < 0 || r.len > 32) r.len = 33;
		std::memcpy(r.text, buf, (std::size_t)r.len);
	}
	}
	bool ok = true;
	if (errno != 4242) { ok = false; why = "errno was changed"; }
	if (std::fegetround() != fe[o.env & 3]) { ok = false; why = "the rounding direction was changed"; }
	// moving or comparing a signalling NaN may raise the invalid flag, whatever the library does with it
	bool nan = o.fmt ? (o.bits & (ref::sign_mask<double>() - 1)) > ref::inf_bits<double>() : (o.bits & (ref::sign_mask<float>() - 1)) > ref::inf_bits<float>();
	if (!nan && std::fetestexcept(FE_ALL_EXCEPT)) { ok = false; why = "floating-point exception flags were raised"; }
#if defined(__SSE2__)
	if (((_mm_getcsr() ^ cs) & ~0x3fu) != 0) { ok = false; why = "the floating-point control register was changed"; }
#endif
#if defined(__x86_64__) || defined(__i386__)
	__asm__ volatile("fnstcw %0" : "=m"(cw2));
	if (cw != cw2) { ok = false; why = "the x87 control word was changed"; }
#endif
	std::fesetenv(&keep);
	return ok;
}

template <class F> bool judge(const Op& o, const Res& r, std::string& want) {
	ref::parts<F> x(o.bits);
	char t[64];
	if (!x.finite() || x.zero()) {  // text forms only
		const char* s = !x.finite() ? (x.frac ? "NaN" : x.neg ? "-Infinity" : "Infinity") : x.neg ? "-0E0" : "0E0";
		want = s;
		if (x.neg && !x.finite() && x.frac && r.len == 4 && std::memcmp(r.text, "-NaN", 4) == 0) return true;
		return r.len == (int)std::strlen(s) && std::memcmp(r.text, s, (std::size_t)r.len) == 0;
	}
	ref::quotients q;
	ref::prepare<F>(x, q);
	ref::answer a;
	ref::solve(q, ref::interval_of(o.mode, x.neg, (x.m & 1) == 0), a);
	if (o.form >= 2) {
		if (o.crs != ref::dnc) {
			int n = render(t, x.neg, ref::pick(a, o.crs), a.k);
			want = std::string(t, (std::size_t)n);
			return r.len == n && std::memcmp(r.text, t, (std::size_t)n) == 0;
		}
		for (u64 s = a.lo; s <= a.hi && s <= a.lo + 1000; ++s) {
			int n = render(t, x.neg, s, a.k);
			if (r.len == n && std::memcmp(r.text, t, (std::size_t)n) == 0) return true;
		}
		want = "one of the shortest";
		return a.hi > a.lo + 1000;
	}
	bool neg = o.form == 0 && x.neg;
	char b[96];
	std::snprintf(b, sizeof b, "%s%llue%d", neg ? "-" : "", (unsigned long long)ref::pick(a, o.crs), a.k);
	want = b;
	if (r.d.neg != neg || r.d.exp != a.k) return false;
	return o.crs == ref::dnc ? r.d.sig >= a.lo && r.d.sig <= a.hi : r.d.sig == ref::pick(a, o.crs);
}

u64 any_value(gen::rng& g, int fmt) {
	static const int w[] = { 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 6, 7, 8, 5 };
	int c = w[g.range(0, 13)];
	return fmt ? gen::generator<double>::any(g, c) : gen::generator<float>::any(g, c);
}
bool finite_nonzero(int fmt, u64 b) {
	u64 sm = fmt ? ref::sign_mask<double>() : ref::sign_mask<float>();
	u64 mag = b & (sm - 1);
	return mag && mag < (fmt ? ref::inf_bits<double>() : ref::inf_bits<float>());
}
u64 special_value(gen::rng& g, int fmt) {
	u64 inf = fmt ? ref::inf_bits<double>() : ref::inf_bits<float>(), sm = fmt ? ref::sign_mask<double>() : ref::sign_mask<float>();
	u64 b = g.range(0, 2) == 0 ? 0 : g.coin() ? inf : inf | (1 + g.below((inf & (~inf + 1)) - 1));
	return g.coin() ? b | sm : b;
}

std::vector<Op> history(u64 seed) {
	gen::rng g(seed);
	std::vector<Op> h;
	int n = g.range(4, 48);
	bool envs = g.coin(), texts = g.range(0, 3) != 0;
	Op o{};
	o.fmt = g.coin();
	o.bits = any_value(g, o.fmt);
	o.mode = ref::near_even;
	o.crs = ref::t_even;
	if (g.coin()) { o.mode = g.range(0, ref::n_modes - 1); o.crs = g.range(0, ref::n_crs - 1); }
	for (int i = 0; i < n; ++i) {
		int p = o.fmt ? 52 : 23, eb = o.fmt ? 11 : 8;
		u64 sm = u64(1) << (p + eb), fm = (u64(1) << p) - 1, old = o.bits;
		switch (g.range(0, 13)) {
		case 0: break;                                             // the same again
		case 1: case 2: o.mode = g.range(0, ref::n_modes - 1); break;
		case 3: o.crs = g.range(0, ref::n_crs - 1); break;
		case 4: o.bits ^= sm; break;
		case 5: o.bits = (o.bits & (fm | sm)) | ((u64)g.range(0, (1 << eb) - 2) << p); break;   // same significand
		case 6: o.bits = (o.bits & ~fm) | (g.next() & fm); break;                                // same exponent
		case 7: o.bits += g.coin() ? 1 : (u64)-1; break;
		case 8: o.bits ^= u64(1) << g.range(0, p - 1); break;
		case 9:                                                      // the other format, same number or same bits
			if (o.fmt) {
				if (g.coin()) {
					double x;
					std::memcpy(&x, &o.bits, 8);
					float y = (float)x;
					u32 w;
					std::memcpy(&w, &y, 4);
					o.bits = w;
				} else o.bits &= 0xffffffffu;
				o.fmt = 0;
			} else {
				if (g.coin()) {
					u32 w = (u32)o.bits;
					float y;
					std::memcpy(&y, &w, 4);
					double x = y;
					std::memcpy(&o.bits, &x, 8);
				} else o.bits = (o.bits << 32) | (g.next() & 0xffffffffu);
				o.fmt = 1;
			}
			break;
		case 10: if (!h.empty()) { int e = o.env; o = h[(std::size_t)g.below(h.size())]; o.env = e; } break;   // back to an earlier call
		default: o.fmt = g.coin(); o.bits = any_value(g, o.fmt); break;
		}
		if (!o.fmt) o.bits &= 0xffffffffu;
		o.form = g.range(0, texts ? 3 : 1);
		if (o.form >= 2 && g.range(0, 9) == 0) o.bits = special_value(g, o.fmt);
		if (!finite_nonzero(o.fmt, o.bits) && o.form < 2) {
			o.bits = finite_nonzero(o.fmt, old) && ((old >> 32) == 0 || o.fmt) ? old : any_value(g, o.fmt);
			if (!o.fmt) o.bits &= 0xffffffffu;
			if (!finite_nonzero(o.fmt, o.bits)) o.bits = any_value(g, o.fmt);
		}
		o.env = envs ? g.range(0, 7) : 0;
		h.push_back(o);
	}
	return h;
}

struct Fail {
	bool set = false;
	std::size_t at = 0;
	std::string msg;
};
bool run_history(const std::vector<Op>& h, Fail& f, u64& calls) {
	std::vector<Res> res(h.size());
	std::string w;
	for (int pass = 0; pass < 2; ++pass)
		for (std::size_t j = 0; j < h.size(); ++j) {
			std::size_t i = pass ? h.size() - 1 - j : j;
			Res r;
			++calls;
			if (!perform(h[i], r, w)) { f.set = true; f.at = i; f.msg = "call " + std::to_string(i + 1) + " of the history, " + show(h[i]) + ": " + w; return false; }
			bool ok = h[i].fmt ? judge<double>(h[i], r, w) : judge<float>(h[i], r, w);
			if (!ok) {
				f.set = true; f.at = i;
				f.msg = std::string(pass ? "(run backwards) " : "") + "call " + std::to_string(i + 1) + " of the history, " + show(h[i]) + ": got " + show(r, h[i]) + ", the reference says " + w;
				return false;
			}
			if (!pass) res[i] = r;
			else if (!(res[i] == r)) {
				f.set = true; f.at = i;
				f.msg = "call " + std::to_string(i + 1) + " of the history, " + show(h[i]) + ": " + show(res[i], h[i]) + " in one order, " + show(r, h[i]) + " in the opposite order";
				return false;
			}
		}
	return true;
}

// calls made before main and before any other dynamic initialisation
struct Early {
	Op op[16];
	Res res[16];
	int n = 0;
	bool env = true;
	std::string why;
};
Early* early = 0;
__attribute__((constructor(101))) void before_main() {
	early = new Early;
	static const u64 d[] = { 0x3ff3be76c8b43958ull, 0x0000000000000001ull, 0x7fefffffffffffffull, 0x4340000000000000ull, 0x44b52d02c7e14af6ull, 0xbfb999999999999aull };
	static const u64 s[] = { 0x3f9df3b6u, 0x00000001u, 0x7f7fffffu, 0xcb800000u, 0x4c000001u };
	for (int i = 0; i < 11; ++i) {
		Op o{ i < 6, i % 3 == 2 ? (int)ref::to_zero : (int)ref::near_even, ref::t_even, i % 4, 0, i < 6 ? d[i] : s[i - 6] };
		early->op[i] = o;
		if (!perform(o, early->res[i], early->why)) early->env = false;
	}
	early->n = 11;
}
bool judge_early(Fail& f) {
	for (int i = 0; i < early->n; ++i) {
		std::string w;
		const Op& o = early->op[i];
		if (!(o.fmt ? judge<double>(o, early->res[i], w) : judge<float>(o, early->res[i], w))) {
			f.set = true;
			f.msg = "before main: " + show(o) + ": got " + show(early->res[i], o) + ", the reference says " + w;
			return false;
		}
	}
	return true;
}

std::string jstr(const std::string& s) {
	std::string r = "\"";
	for (char c : s) {
		if (c == '"' || c == '\\') r += '\\';
		if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", (unsigned char)c); r += b; }
		else r += c;
	}
	return r + "\"";
}
void print_ops(const std::vector<Op>& h, FILE* f = stdout) {
	std::fprintf(f, "[");
	for (std::size_t i = 0; i < h.size(); ++i)
		std::fprintf(f, "%s\"%d %llx %d %d %d %d\"", i ? ", " : "", h[i].fmt, (unsigned long long)h[i].bits, h[i].mode, h[i].crs, h[i].form, h[i].env);
	std::fprintf(f, "]");
}
void append_with_reverse(std::vector<Op>& to, const std::vector<Op>& p) {
	to.insert(to.end(), p.begin(), p.end());
	to.insert(to.end(), p.rbegin(), p.rend());
}
int replay_file(const char* path) {
	std::vector<Op> h;
	FILE* f = std::fopen(path, "r");
	if (!f) return 3;
	Op o;
	unsigned long long b;
	while (std::fscanf(f, "%d %llx %d %d %d %d", &o.fmt, &b, &o.mode, &o.crs, &o.form, &o.env) == 6) { o.bits = b; h.push_back(o); }
	std::fclose(f);
	Fail x;
	u64 c = 0;
	bool ok = judge_early(x) && run_history(h, x, c);
	std::printf("{\"fails\": %s, \"message\": %s}\n", ok ? "false" : "true", jstr(x.msg).c_str());
	std::fflush(stdout);
	return ok ? 0 : 1;
}
}  // namespace

#ifdef FUZZ
#include "fuzz_hist.hpp"
#else
int main(int argc, char** argv) {
	if (const char* l = std::getenv("VERIF_LOCALE")) {
		try { std::locale::global(std::locale(l)); }
		catch (...) { std::printf("{\"locale\": false}\n"); return 4; }
		char t[16];
		std::snprintf(t, sizeof t, "%.1f", 0.5);
		if (t[1] != ',') { std::printf("{\"locale\": false}\n"); return 4; }
	}
	ref::pow_tables::get();
	if (argc == 3 && std::string(argv[1]) == "replay") return replay_file(argv[2]);
	if (argc != 6) return 3;
	u64 seed = std::strtoull(argv[2], 0, 0);
	int nt = std::atoi(argv[3]);
	u64 total = std::strtoull(argv[4], 0, 0);
	double deadline = std::atof(argv[5]);
	auto t0 = std::chrono::steady_clock::now();
	auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
	std::atomic<u64> next{ 0 };
	std::atomic<bool> stop{ false }, late{ false };
	std::mutex mu;
	Fail fail;
	std::vector<Op> fh, fprior;
	u64 calls = 0, histories = 0, nontrivial = 0, with_env = 0, with_text = 0, mixed = 0, repeated = 0, shared = 0;
	std::set<u64> distinct;
	bool early_ok = judge_early(fail);
	if (!early_ok) { stop = true; fh.assign(early->op, early->op + early->n); }
	std::vector<std::thread> th;
	// what each thread is at, for the watchdog: a history that is not over after 60 wake-ups of one second does not end
	struct At { std::atomic<u64> step{ 0 }, seed{ 0 }; };
	std::vector<At> at((std::size_t)nt);
	std::atomic<bool> over{ false };
	std::thread dog([&] {
		std::vector<u64> last((std::size_t)nt, 0);
		std::vector<int> same((std::size_t)nt, 0);
		for (int tick = 0; !over; ++tick) {
			std::this_thread::sleep_for(std::chrono::milliseconds(50));
			if (tick % 20) continue;
			for (std::size_t t = 0; t < at.size(); ++t) {
				u64 s = at[t].step;
				same[t] = s && s == last[t] ? same[t] + 1 : 0;  // 0: finished
				last[t] = s;
				if (same[t] < 60) continue;
				std::printf("{\"histories\": 0, \"calls\": 0, \"nontrivial\": 0, \"distinct_nontrivial\": 0, \"samples\": [], \"failure\": {\"hang\": true, \"message\": \"a call of the history does not end\", \"at\": 0, \"ops\": ");
				print_ops(history(at[t].seed));
				std::printf("}}\n");
				std::fflush(stdout);
				std::_Exit(1);
			}
		}
	});
	for (int t = 0; t < nt && early_ok; ++t) th.emplace_back([&, t] {
		u64 c = 0, hs = 0, ntv = 0, we = 0, wt = 0, mx = 0, rp = 0, sd = 0;
		std::set<u64> ds;
		std::vector<u64> before;  // the histories this thread ran last
		for (;;) {
			if (stop.load(std::memory_order_relaxed)) break;
			u64 i = next.fetch_add(1);
			if (i >= total) break;
			if (deadline > 0 && (i & 255) == 0 && elapsed() > deadline) { late = true; break; }
			// every other block of histories is run by all the threads at about the same time
			bool sh = (i / 64) & 1;
			u64 hseed = gen::mix(seed, sh ? (i / 64) * 64 + (i % 64) / 8 : i);
			std::vector<Op> h = history(hseed);
			Fail f;
			at[(std::size_t)t].seed = hseed;
			at[(std::size_t)t].step = i + 1;
			if (!run_history(h, f, c)) {
				std::lock_guard<std::mutex> lk(mu);
				if (!fail.set) {
					fail = f;
					fh = h;
					for (std::size_t k = before.size() > 600 ? before.size() - 600 : 0; k < before.size(); ++k) {
						append_with_reverse(fprior, history(before[k]));
					}
				}
				stop = true;
				break;
			}
			++hs;
			if (before.size() >= 4096) before.erase(before.begin(), before.end() - 600);
			before.push_back(hseed);
			bool env = false, text = false, f0 = false, f1 = false;
			std::set<std::pair<u64, int>> vals;
			bool rep = false;
			for (auto& o : h) {
				env |= o.env != 0;
				text |= o.form >= 2;
				(o.fmt ? f1 : f0) = true;
				rep |= !vals.insert({ o.bits, o.fmt }).second;
			}
			we += env; wt += text; mx += f0 && f1; rp += rep; sd += sh;
			if (vals.size() >= 3 && rep) { ++ntv; ds.insert(hseed); }
		}
		at[(std::size_t)t].step = 0;
		std::lock_guard<std::mutex> lk(mu);
		calls += c; histories += hs; nontrivial += ntv; with_env += we; with_text += wt; mixed += mx; repeated += rp; shared += sd;
		distinct.insert(ds.begin(), ds.end());
	});
	for (auto& x : th) x.join();
	over = true;
	dog.join();
	std::printf("{\"histories\": %llu, \"calls\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"with_changed_environment\": %llu, \"with_text\": %llu, \"mixed_formats\": %llu, \"value_repeated\": %llu, \"run_by_several_threads\": %llu, \"threads\": %d, \"complete\": %s, \"wall_ms\": %d, \"samples\": [",
		(unsigned long long)histories, (unsigned long long)calls, (unsigned long long)nontrivial, (unsigned long long)distinct.size(), (unsigned long long)with_env,
		(unsigned long long)with_text, (unsigned long long)mixed, (unsigned long long)repeated, (unsigned long long)shared, nt, late ? "false" : "true", (int)(elapsed() * 1000));
	for (int i = 0; i < 3; ++i) {
		std::vector<Op> h = history(gen::mix(seed, (u64)i));
		std::string s;
		for (std::size_t j = 0; j < h.size() && j < 8; ++j) s += (j ? "; " : "") + show(h[j]);
		std::printf("%s%s", i ? ", " : "", jstr(s + (h.size() > 8 ? "; ..." : "")).c_str());
	}
	std::printf("]");
	if (fail.set) {
		std::printf(", \"failure\": {\"message\": %s, \"at\": %zu, \"ops\": ", jstr(fail.msg).c_str(), fail.at);
		print_ops(fh);
		std::printf(", \"prior\": ");
		print_ops(fprior);
		std::printf("}");
	}
	std::printf("}\n");
	return fail.set ? 1 : 0;
}
#endif
