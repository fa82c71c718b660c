// Prints generated values and the reference's answers, for tools/oracle_selftest.py.
#include "oracle.hpp"
#include "gen.hpp"
#include <cstdio>
#include <cstdlib>
using namespace ref;
template <class F> void dump(const char* name, u64 bits) {
	parts<F> x(bits);
	quotients q;
	prepare<F>(x, q);
	std::printf("%s %llx", name, (unsigned long long)bits);
	for (int i = 0; i < n_ikinds; ++i) {
		answer a;
		solve(q, (ikind)i, a);
		std::printf(" %d,%llu,%llu,%llu,%d,%d,%d", a.k, (unsigned long long)a.lo, (unsigned long long)a.hi, (unsigned long long)a.n, a.tie, a.below,
			(int)in_interval<F>(x, (ikind)i, a.n, a.k));
	}
	std::printf("\n");
}
int main(int, char** argv) {
	long n = std::atol(argv[1]);
	for (int c = 0; c < gen::n_cls; ++c)
		for (long i = 0; i < n / gen::n_cls; ++i) {
			gen::rng g(gen::mix(12345 + c, i));
			dump<float>("f32", gen::generator<float>::any(g, c));
			dump<double>("f64", gen::generator<double>::any(g, c));
		}
	for (long i = 0; i < n; ++i) {
		gen::rng g(gen::mix(999, i));
		dump<double>("f64", gen::generator<double>::hardest(g, g.next() % gen::generator<double>::hard_cells));
	}
}
