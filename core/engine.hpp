// The generated-input search: sources of values, a thread pool, counters, a crash journal,
// shrinking and JSON output. A driver supplies a Checker.
//
//   driver run <seed> <threads> <journal> <deadline_s> <source>...     source = kind:fmt:arg:count
//   driver replay <fmt> <hex bits>                                    exit 1 if the value fails
//   driver shrink <fmt> <hex bits>
#pragma once
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include "oracle.hpp"
#include "gen.hpp"

namespace eng {
using ref::u64;
using ref::u32;
enum { F32, F64 };

struct Value {
	int fmt;
	u64 bits;
};
inline std::string hex(const Value& v) {
	char b[32];
	std::snprintf(b, sizeof b, v.fmt == F32 ? "%08llx" : "%016llx", (unsigned long long)v.bits);
	return b;
}
inline std::string describe(const Value& v) {
	char b[96];
	if (v.fmt == F32) {
		u32 w = (u32)v.bits;
		float x;
		std::memcpy(&x, &w, 4);
		std::snprintf(b, sizeof b, "float 0x%08x (%.9g)", w, (double)x);
	} else {
		double x;
		std::memcpy(&x, &v.bits, 8);
		std::snprintf(b, sizeof b, "double 0x%016llx (%.17g)", (unsigned long long)v.bits, x);
	}
	return b;
}
struct Failure {
	bool set = false;
	Value v{};
	std::string where, msg;
};
struct Stats {
	u64 values = 0, evals = 0, nontrivial = 0, distinct_nontrivial = 0;
	std::map<std::string, u64> label;
	void operator+=(const Stats& o) {
		values += o.values;
		evals += o.evals;
		nontrivial += o.nontrivial;
		distinct_nontrivial += o.distinct_nontrivial;
		for (auto& p : o.label) label[p.first] += p.second;
	}
};
// plain per-thread counters; a driver names them
struct Counters {
	static constexpr int N = 64;
	u64 c[N] = {};
	bool nontrivial = false;
	u64 evals = 0;
};
struct Checker {
	virtual ~Checker() {}
	virtual bool eval(const Value& v, Counters& c, Failure* f) = 0;  // true: holds
	virtual bool in_domain(const Value& v) const {                    // finite non-zero by default
		u64 mag = v.fmt == F32 ? v.bits & 0x7fffffffu : v.bits & ~(u64(1) << 63);
		return mag != 0 && mag < (v.fmt == F32 ? ref::inf_bits<float>() : ref::inf_bits<double>());
	}
	virtual std::string sample(const Value& v) { return describe(v); }
	virtual std::vector<std::string> counter_names() const { return {}; }
	virtual void thread_init() {}
};

inline std::string jstr(const std::string& s) {
	std::string r = "\"";
	for (char ch : s) {
		if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
		else if ((unsigned char)ch < 32 || (unsigned char)ch > 126) {
			char b[8];
			std::snprintf(b, sizeof b, "\\u%04x", (unsigned char)ch);
			r += b;
		} else r += ch;
	}
	return r + "\"";
}

// ---------------------------------------------------------------- sources
struct Source {
	std::string kind, name;
	int fmt;
	u64 arg, count;
	std::vector<u64> list;
};

inline u64 draw_special(gen::rng& g, int fmt) {
	u64 sm = fmt == F32 ? ref::sign_mask<float>() : ref::sign_mask<double>();
	u64 inf = fmt == F32 ? ref::inf_bits<float>() : ref::inf_bits<double>();
	int p = fmt == F32 ? 23 : 52;
	u64 fm = (u64(1) << p) - 1, b;
	switch (g.range(0, 7)) {
	case 0: b = 0; break;
	case 1: b = inf; break;
	case 2: b = inf | (u64(1) << g.range(0, p - 1)); break;       // NaN, one payload bit
	case 3: b = inf | (1 + g.below(fm)); break;
	case 4: b = inf | (u64(1) << (p - 1)) | (g.next() & fm); break;
	case 5: b = inf | fm; break;
	case 6: b = inf - 1 - g.below(4); break;                      // largest finite
	default: b = 1 + g.below(4); break;                           // smallest
	}
	return g.coin() ? b | sm : b;
}

// i-th value of chunk: all randomness from rng g
inline Value draw(const Source& s, gen::rng& g, u64 index) {
	Value v;
	v.fmt = s.fmt;
	if (s.kind == "class") {
		v.bits = s.fmt == F32 ? gen::generator<float>::any(g, (int)s.arg) : gen::generator<double>::any(g, (int)s.arg);
	} else if (s.kind == "sweep") {  // stratified: one value in each stride of all bit patterns
		u64 b = index * s.arg + (s.arg > 1 ? g.below(s.arg) : 0);
		v.bits = b;
	} else if (s.kind == "possweep") {  // positive patterns only, random sign (both signs when stride 1: sign from low hash)
		u64 b = index * s.arg + (s.arg > 1 ? g.below(s.arg) : 0);
		v.bits = b | (g.coin() ? (s.fmt == F32 ? ref::sign_mask<float>() : ref::sign_mask<double>()) : 0);
	} else if (s.kind == "hardest") {  // index-th cell (exponent, scale, decision point), times repetitions
		v.bits = s.fmt == F32 ? gen::generator<float>::hardest(g, index) : gen::generator<double>::hardest(g, index);
	} else if (s.kind == "range") {  // consecutive patterns from arg on
		v.bits = s.arg + index;
	} else if (s.kind == "special") {
		v.bits = draw_special(g, s.fmt);
	} else if (s.kind == "list") {
		v.bits = s.list[index];
	} else if (s.kind == "anybits") {
		v.bits = s.fmt == F32 ? (g.next() & 0xffffffffu) : g.next();
	} else {
		std::fprintf(stderr, "unknown source %s\n", s.kind.c_str());
		std::exit(3);
	}
	return v;
}

inline Source parse_source(const std::string& t) {
	Source s;
	std::vector<std::string> f;
	std::size_t a = 0;
	for (int i = 0; i < 3; ++i) {
		std::size_t b = t.find(':', a);
		if (b == std::string::npos) { std::fprintf(stderr, "bad source %s\n", t.c_str()); std::exit(3); }
		f.push_back(t.substr(a, b - a));
		a = b + 1;
	}
	f.push_back(t.substr(a));
	s.kind = f[0];
	s.fmt = f[1] == "f32" ? F32 : F64;
	s.name = f[1] + " ";
	if (s.kind == "list") {  // arg unused, last field is a file of hex bits (this format only)
		FILE* h = std::fopen(f[3].c_str(), "r");
		if (!h) { std::perror(f[3].c_str()); std::exit(3); }
		char fm[16];
		unsigned long long b;
		while (std::fscanf(h, "%15s %llx", fm, &b) == 2)
			if (std::string(fm) == f[1]) s.list.push_back(b);
		std::fclose(h);
		s.arg = 0;
		s.count = s.list.size();
		s.name += f[2] == "1" ? "made of the constants in the source" : "saved inputs";
	} else {
		s.arg = std::strtoull(f[2].c_str(), 0, 0);
		s.count = std::strtoull(f[3].c_str(), 0, 0);
		if (s.kind == "hardest") {
			s.name += "hardest input of each (exponent, scale, decision point)";
			s.count *= s.fmt == F32 ? gen::generator<float>::hard_cells : gen::generator<double>::hard_cells;
		} else if (s.kind == "class") s.name += gen::cls_name((int)s.arg);
		else if (s.kind == "sweep" || s.kind == "possweep") {
			u64 total = s.kind == "sweep" ? (u64(1) << 32) : (u64(1) << 31);
			if (s.fmt == F32) s.count = (total + s.arg - 1) / s.arg;
			s.name += s.arg == 1 ? std::string("every ") + (s.kind == "sweep" ? "bit pattern" : "magnitude") : "sweep, one of each " + f[2];
		} else if (s.kind == "range") s.name += "every pattern from " + f[2] + " on";
		else s.name += s.kind == "special" ? "zeros, infinities, NaNs, extremes" : s.kind == "anybits" ? "uniform over all bit patterns" : s.kind;
	}
	return s;
}

// ---------------------------------------------------------------- engine
struct Engine {
	Checker& ck;
	explicit Engine(Checker& c) : ck(c) {}

	// distinctness filter: a value is counted when its bit was clear; collisions only undercount
	static constexpr int filter_log = 31;
	std::unique_ptr<std::atomic<u64>[]> filter;
	bool first_seen(const Value& v) {
		u64 h = gen::mix(v.bits, 77 + v.fmt) >> (64 - filter_log);
		std::atomic<u64>& w = filter[h >> 6];
		u64 m = u64(1) << (h & 63);
		if (w.load(std::memory_order_relaxed) & m) return false;
		return !(w.fetch_or(m, std::memory_order_relaxed) & m);
	}

	int run(int argc, char** argv) {
		u64 seed = std::strtoull(argv[2], 0, 0);
		int nt = std::atoi(argv[3]);
		const char* journal = argv[4];
		double deadline = std::atof(argv[5]);
		std::vector<Source> src;
		for (int i = 6; i < argc; ++i) src.push_back(parse_source(argv[i]));
		filter.reset(new std::atomic<u64>[u64(1) << (filter_log - 6)]());
		volatile u64* jr = 0;
		int fd = open(journal, O_RDWR | O_CREAT, 0600);
		if (fd >= 0 && ftruncate(fd, nt * 64) == 0)
			jr = (volatile u64*)mmap(0, nt * 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		auto t0 = std::chrono::steady_clock::now();
		auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
		const u64 chunk = 2048;
		struct Job { std::size_t s; u64 c; };
		// chunks of the sources are interleaved so that a deadline thins all of them
		std::vector<u64> nchunk(src.size());
		u64 total = 0;
		for (std::size_t i = 0; i < src.size(); ++i) { nchunk[i] = (src[i].count + chunk - 1) / chunk; total += nchunk[i]; }
		std::atomic<u64> next{ 0 };
		std::atomic<bool> stop{ false }, late{ false };
		std::mutex mu;
		Failure fail;
		std::vector<Stats> per(src.size());
		std::vector<u64> cnt(Counters::N, 0);
		std::vector<std::string> samples;
		std::vector<u64> cum(src.size() + 1, 0);
		for (std::size_t i = 0; i < src.size(); ++i) cum[i + 1] = cum[i] + nchunk[i];
		// a fixed pseudo-random order of the chunks: a multiplicative permutation of 0..total-1
		u64 mul = 1;
		if (total > 2) {
			mul = (u64)(0.6180339887498949 * (double)total) | 1;
			auto gcd = [](u64 a, u64 b) { while (b) { u64 t = a % b; a = b; b = t; } return a; };
			while (gcd(mul, total) != 1) mul += 2;
		}
		std::vector<std::thread> th;
		for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
			ck.thread_init();
			std::vector<Stats> my(src.size());
			std::vector<u64> mc(Counters::N, 0);
			std::vector<std::pair<u64, std::string>> ms;
			for (;;) {
				if (stop.load(std::memory_order_relaxed)) break;
				u64 n = next.fetch_add(1);
				if (n >= total) break;
				if (deadline > 0 && elapsed() > deadline) { late = true; break; }
				u64 h, l;
				ref::mul_wide(n, mul, h, l);
				u64 pos = total ? l % total : 0;  // n * mul < 2^64 for all totals in use
				std::size_t s = 0;
				while (pos >= cum[s + 1]) ++s;
				u64 c = pos - cum[s];
				const Source& so = src[s];
				gen::rng g(gen::mix(gen::mix(seed, 1000 + s * 131 + so.arg), c));
				u64 a = c * chunk, b = a + chunk < so.count ? a + chunk : so.count;
				Stats& st = my[s];
				Counters k;
				bool distinct_by_construction = so.kind == "sweep" || so.kind == "possweep" || so.kind == "range";
				for (u64 i = a; i < b; ++i) {
					Value v = draw(so, g, i);
					if (!ck.in_domain(v)) continue;
					if (jr) { jr[t * 8 + 1] = (u64)v.fmt; jr[t * 8 + 2] = v.bits; jr[t * 8] = jr[t * 8] + 1; }
					k.nontrivial = false;
					Failure f;
					if (!ck.eval(v, k, &f)) {
						std::lock_guard<std::mutex> lk(mu);
						if (!fail.set) { fail = f; fail.set = true; fail.v = v; }
						stop = true;
						break;
					}
					++st.values;
					if (k.nontrivial) {
						++st.nontrivial;
						if (distinct_by_construction || first_seen(v)) ++st.distinct_nontrivial;
						if (i < a + 64 && (c % 97) == 0 && c < 97 * 3 && ms.size() < 64) ms.push_back({ (u64)s * 1000 + c, so.name + ": " + ck.sample(v) });
					}
				}
				st.evals += k.evals;
				for (int i = 0; i < Counters::N; ++i) mc[i] += k.c[i];
			}
			if (jr) jr[t * 8] = 0;
			std::lock_guard<std::mutex> lk(mu);
			for (std::size_t i = 0; i < src.size(); ++i) per[i] += my[i];
			for (int i = 0; i < Counters::N; ++i) cnt[i] += mc[i];
			std::set<u64> once;
			for (auto& p : ms) if (once.insert(p.first).second) samples.push_back(p.second);
		});
		for (auto& x : th) x.join();
		Stats sum;
		for (auto& p : per) sum += p;
		std::printf("{\"values\": %llu, \"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"complete\": %s, \"wall\": %.2f,\n \"sources\": [",
			(unsigned long long)sum.values, (unsigned long long)sum.evals, (unsigned long long)sum.nontrivial,
			(unsigned long long)sum.distinct_nontrivial, late ? "false" : "true", elapsed());
		for (std::size_t i = 0; i < src.size(); ++i)
			std::printf("%s{\"source\": %s, \"values\": %llu, \"evaluations\": %llu, \"nontrivial\": %llu}", i ? ", " : "",
				jstr(src[i].name).c_str(), (unsigned long long)per[i].values, (unsigned long long)per[i].evals, (unsigned long long)per[i].nontrivial);
		std::printf("],\n \"counters\": {");
		auto names = ck.counter_names();
		for (std::size_t i = 0; i < names.size(); ++i)
			std::printf("%s%s: %llu", i ? ", " : "", jstr(names[i]).c_str(), (unsigned long long)cnt[i]);
		std::printf("},\n \"samples\": [");
		std::set<std::string> seen;
		int ns = 0;
		for (auto& s : samples) {
			std::string src_name = s.substr(0, s.find(':'));
			if (ns < 12 && seen.insert(src_name).second) std::printf("%s%s", ns++ ? ", " : "", jstr(s).c_str());
		}
		std::printf("]");
		if (fail.set) {
			Value o = fail.v;
			Failure sh = shrink(o);
			std::printf(",\n \"failure\": {\"fmt\": \"%s\", \"bits\": \"%s\", \"original_bits\": \"%s\", \"where\": %s, \"message\": %s}",
				sh.v.fmt == F32 ? "f32" : "f64", hex(sh.v).c_str(), hex(o).c_str(), jstr(sh.where).c_str(), jstr(sh.msg).c_str());
		}
		std::printf("}\n");
		std::fflush(stdout);
		return fail.set ? 1 : 0;
	}

	bool fails(const Value& v, Failure& f) {
		Counters k;
		f = Failure();
		if (!ck.in_domain(v)) return false;
		bool ok = ck.eval(v, k, &f);
		f.v = v;
		f.set = !ok;
		return !ok;
	}
	// greedy: drop the sign, clear fraction bits, move the exponent towards that of 1
	Failure shrink(Value v) {
		Failure f, best;
		if (!fails(v, best)) { best.v = v; best.set = true; best.msg += " (did not fail again)"; return best; }
		int p = v.fmt == F32 ? 23 : 52, eb = v.fmt == F32 ? 8 : 11;
		u64 fm = (u64(1) << p) - 1;
		auto attempt = [&](u64 b) {
			if (b == best.v.bits) return false;
			Value w{ v.fmt, b };
			if (!fails(w, f)) return false;
			best = f;
			return true;
		};
		for (int round = 0; round < 6; ++round) {
			bool any = false;
			u64 b = best.v.bits;
			any |= attempt(b & ~(u64(1) << (p + eb)));
			b = best.v.bits;
			any |= attempt(b & ~fm);
			for (int i = p - 1; i >= 0; --i) {
				b = best.v.bits;
				if (b >> i & 1) any |= attempt(b & ~(u64(1) << i));
			}
			u64 bias = v.fmt == F32 ? 127 : 1023;
			for (u64 step = bias; step; step /= 2) {
				b = best.v.bits;
				u64 e = (b >> p) & ((u64(1) << eb) - 1);
				u64 ne = e > bias ? (e - bias >= step ? e - step : e) : (bias - e >= step ? e + step : e);
				if (ne != e) any |= attempt((b & ~(((u64(1) << eb) - 1) << p)) | (ne << p));
			}
			if (!any) break;
		}
		return best;
	}

	int main(int argc, char** argv) {
		if (argc >= 7 && std::string(argv[1]) == "run") return run(argc, argv);
		if (argc == 4 && (std::string(argv[1]) == "replay" || std::string(argv[1]) == "shrink")) {
			ck.thread_init();
			Value v{ std::string(argv[2]) == "f32" ? F32 : F64, std::strtoull(argv[3], 0, 16) };
			Failure f;
			bool bad = fails(v, f);
			if (bad && argv[1][0] == 's') f = shrink(v);
			std::printf("{\"fmt\": \"%s\", \"bits\": \"%s\", \"fails\": %s, \"where\": %s, \"message\": %s}\n", argv[2], hex(bad ? f.v : v).c_str(),
				bad ? "true" : "false", jstr(f.where).c_str(), jstr(f.msg).c_str());
			return bad ? 1 : 0;
		}
		std::fprintf(stderr, "usage: see engine.hpp\n");
		return 3;
	}
};
}  // namespace eng
