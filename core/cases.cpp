// cases <seed> <out> <source>...   writes generated values as pairs (format, bits) for builds that run elsewhere
#include "engine.hpp"
#include <algorithm>
using namespace eng;
template <class F> bool nontrivial(u64 bits) {
	ref::parts<F> x(bits);
	if (!x.finite() || x.zero()) return true;
	ref::quotients q;
	ref::prepare<F>(x, q);
	ref::answer a[ref::n_ikinds];
	bool tie = false;
	for (int i = 0; i < ref::n_ikinds; ++i) { ref::solve(q, (ref::ikind)i, a[i]); tie |= a[i].tie; }
	auto differ = [&](int i, int j) { return a[i].k != a[j].k || a[i].lo != a[j].lo || a[i].hi != a[j].hi; };
	return tie || q.el || q.er || q.ep || q.es || x.edge() || x.be == 0 || differ(ref::i_closed, ref::i_open) || differ(ref::i_lc, ref::i_rc)
		|| ref::ndigits(a[0].lo) < ref::fmt<F>::max_digits - 1;
}
int main(int argc, char** argv) {
	u64 seed = std::strtoull(argv[1], 0, 0);
	FILE* f = std::fopen(argv[2], "wb");
	if (!f) return 3;
	struct C : Checker { bool eval(const Value&, Counters&, Failure*) override { return true; } } ck;
	std::vector<std::pair<u64, u64>> nt;
	u64 n = 0;
	std::string labels;
	for (int i = 3; i < argc; ++i) {
		Source s = parse_source(argv[i]);
		const u64 chunk = 2048;
		u64 here = 0, hnt = 0;
		for (u64 c = 0; c * chunk < s.count; ++c) {
			gen::rng g(gen::mix(gen::mix(seed, 1000 + (u64)i * 131 + s.arg), c));
			for (u64 j = c * chunk; j < (c + 1) * chunk && j < s.count; ++j) {
				Value v = draw(s, g, j);
				bool pattern = s.kind == "special" || s.kind == "anybits";  // any bit pattern, asked for as such
				if (!pattern && !ck.in_domain(v)) continue;
				u64 w[2] = { (u64)v.fmt, v.bits };
				std::fwrite(w, 8, 2, f);
				++n; ++here;
				bool t = s.kind == "hardest" || (s.kind == "class" && s.arg == gen::c_hard) || (v.fmt == F32 ? nontrivial<float>(v.bits) : nontrivial<double>(v.bits));
				if (t) { nt.push_back({ v.bits, (u64)v.fmt }); ++hnt; }
			}
		}
		labels += (labels.empty() ? "" : ", ") + ("{\"source\": " + jstr(s.name)) + ", \"values\": " + std::to_string(here) + ", \"nontrivial\": " + std::to_string(hnt) + "}";
	}
	std::fclose(f);
	u64 k = nt.size();
	std::sort(nt.begin(), nt.end());
	u64 d = (u64)(std::unique(nt.begin(), nt.end()) - nt.begin());
	std::printf("{\"values\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"sources\": [%s]}\n", (unsigned long long)n, (unsigned long long)k, (unsigned long long)d, labels.c_str());
}
