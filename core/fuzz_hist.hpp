// Coverage-guided call histories (libFuzzer): an input is up to 16 calls of 12 bytes each. State that the code under test
// keeps survives from one input to the next, so a failing input is written together with the inputs before it.
//   VERIF_OUT: where counts, or the failing history, are written      ./fuzz_hist replay FILE      as driver_hist
#pragma once
#include <deque>
extern "C" std::size_t LLVMFuzzerMutate(std::uint8_t* d, std::size_t n, std::size_t max);
namespace {
const std::size_t op_size = 12, max_ops = 16;
struct Fuzz {
	u64 histories = 0, calls = 0, nontrivial = 0, distinct = 0;
	std::set<u64> seen;
	std::deque<std::vector<Op>> before;
	std::string samples;
	int n_samples = 0;
	static Fuzz& get() { static Fuzz* f = new Fuzz; return *f; }
	void write(const Fail* x, const std::vector<Op>* h) {
		const char* p = std::getenv("VERIF_OUT");
		FILE* f = p ? std::fopen(p, "w") : stdout;
		if (!f) return;
		std::fprintf(f, "{\"histories\": %llu, \"calls\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"samples\": [%s]", (unsigned long long)histories,
			(unsigned long long)calls, (unsigned long long)nontrivial, (unsigned long long)distinct, samples.c_str());
		if (x) {
			std::vector<Op> prior;
			for (auto& b : before) append_with_reverse(prior, b);
			std::fprintf(f, ", \"failure\": {\"message\": %s, \"at\": %zu, \"ops\": ", jstr(x->msg).c_str(), x->at);
			print_ops(*h, f);
			std::fprintf(f, ", \"prior\": ");
			print_ops(prior, f);
			std::fprintf(f, "}");
		}
		std::fprintf(f, "}\n");
		std::fclose(f);
	}
};
bool get_op(const std::uint8_t* d, Op& o) {
	o.fmt = d[0] & 1;
	o.form = d[0] >> 1 & 3;
	o.env = d[0] & 64 ? d[0] >> 3 & 7 : 0;
	o.mode = d[1] % ref::n_modes;
	o.crs = d[2] % ref::n_crs;
	std::memcpy(&o.bits, d + 4, 8);
	if (!o.fmt) o.bits &= 0xffffffffu;
	return o.form >= 2 || finite_nonzero(o.fmt, o.bits);
}
}  // namespace
extern "C" int LLVMFuzzerInitialize(int* argc, char*** argv) {
	ref::pow_tables::get();
	if (*argc == 3 && std::string((*argv)[1]) == "replay") std::_Exit(replay_file((*argv)[2]));
	Fail x;
	if (!judge_early(x)) {
		std::vector<Op> h(early->op, early->op + early->n);
		Fuzz::get().write(&x, &h);
		std::_Exit(78);
	}
	std::atexit([] { Fuzz::get().write(0, 0); });
	return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* d, std::size_t n) {
	std::vector<Op> h;
	Op o{};
	for (std::size_t i = 0; i + op_size <= n && h.size() < max_ops; i += op_size)
		if (get_op(d + i, o)) h.push_back(o);
	if (h.empty()) return -1;
	Fuzz& z = Fuzz::get();
	Fail f;
	if (!run_history(h, f, z.calls)) {
		z.write(&f, &h);
		std::_Exit(78);
	}
	++z.histories;
	std::set<std::pair<u64, int>> vals;
	bool rep = false;
	u64 hash = 7;
	for (auto& x : h) {
		rep |= !vals.insert({ x.bits, x.fmt }).second;
		hash = gen::mix(hash ^ x.bits, (u64)(x.fmt | x.form << 1 | x.env << 3 | x.mode << 8 | x.crs << 16));
	}
	if (vals.size() >= 3 && rep) {
		++z.nontrivial;
		if (z.seen.size() < 2000000 && z.seen.insert(hash).second) {
			++z.distinct;
			if (z.distinct >= 256 && (z.distinct & (z.distinct - 1)) == 0 && z.n_samples++ < 3) {
				std::string s;
				for (std::size_t j = 0; j < h.size() && j < 6; ++j) s += (j ? "; " : "") + show(h[j]);
				z.samples += (z.samples.empty() ? "" : ", ") + jstr("coverage-guided: " + s);
			}
		}
	}
	z.before.push_back(h);
	if (z.before.size() > 400) z.before.pop_front();
	return 0;
}
extern "C" std::size_t LLVMFuzzerCustomMutator(std::uint8_t* d, std::size_t n, std::size_t max, unsigned seed) {
	gen::rng g(gen::mix(seed, 977));
	if (max < op_size) return n;
	std::size_t cap = std::min(max / op_size, max_ops), k = std::min(n / op_size, cap);
	if (!k) { std::memset(d, 0, op_size); d[4] = 1; k = 1; }
	const int rounds = 1 + (int)g.below(3);
	for (int r = 0; r < rounds; ++r) {
		std::uint8_t *a = d + op_size * g.below(k), *b = d + op_size * g.below(k);
		u64 v;
		std::memcpy(&v, a + 4, 8);
		const int p = a[0] & 1 ? 52 : 23, eb = a[0] & 1 ? 11 : 8;
		const u64 fm = (u64(1) << p) - 1, em = (u64(1) << eb) - 1;
		switch (g.range(0, 15)) {
		case 0:  // another call with the same value
			if (k < cap) { std::memcpy(d + op_size * k, a, op_size); d[op_size * k] ^= (std::uint8_t)(g.below(4) << 1); ++k; }
			break;
		case 1: if (k < cap) { std::memmove(a + op_size, a, (std::size_t)(d + op_size * k - a)); ++k; } break;
		case 2: if (k > 1) { std::memmove(a, a + op_size, (std::size_t)(d + op_size * (k - 1) - a)); --k; } break;
		case 3: { std::uint8_t t[op_size]; std::memcpy(t, a, op_size); std::memcpy(a, b, op_size); std::memcpy(b, t, op_size); break; }
		case 4: std::memcpy(a + 4, b + 4, 8); a[0] = (std::uint8_t)((a[0] & ~1) | (b[0] & 1)); break;   // the value of another call
		case 5: { u64 w; std::memcpy(&w, b + 4, 8); v = (v & ~fm) | (w & fm); std::memcpy(a + 4, &v, 8); break; }  // its significand
		case 6: { u64 w; std::memcpy(&w, b + 4, 8); v = (v & fm) | (w & ~fm); std::memcpy(a + 4, &v, 8); break; }  // its sign and exponent
		case 7: a[1] = (std::uint8_t)g.below(ref::n_modes); break;
		case 8: a[2] = (std::uint8_t)g.below(ref::n_crs); break;
		case 9: a[0] ^= (std::uint8_t)(1u << g.range(0, 6)); break;
		case 10: v += g.coin() ? 1 : (u64)-1; std::memcpy(a + 4, &v, 8); break;
		case 11: v ^= u64(1) << g.range(0, p + eb); std::memcpy(a + 4, &v, 8); break;
		case 12: v = (v & ~(em << p)) | g.below(em) << p; std::memcpy(a + 4, &v, 8); break;
		case 13: v = any_value(g, a[0] & 1); std::memcpy(a + 4, &v, 8); break;
		default: LLVMFuzzerMutate(a + 4, 8, 8);
		}
	}
	return k * op_size;
}
