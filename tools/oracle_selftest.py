#!/usr/bin/env python3
"""Checks the C++ reference against rational arithmetic that shares nothing with it."""
import subprocess, sys
from fractions import Fraction as Q
out = subprocess.run([sys.argv[1], sys.argv[2]], stdout=subprocess.PIPE, text=True, check=True).stdout
P10 = {k: Q(10) ** k for k in range(-360, 330)}
n = ties = 0
for line in out.splitlines():
    f = line.split()
    p, eb, bias = (23, 8, 127) if f[0] == "f32" else (52, 11, 1023)
    b = int(f[1], 16) & ((1 << (p + eb)) - 1)
    E, S = b >> p, b & ((1 << p) - 1)
    e = max(E, 1) - bias - p
    m = S | ((1 << p) if E else 0)
    u = Q(2) ** e
    x = m * u
    pred = x - (u / 2 if S == 0 and E > 1 else u)
    succ = x + u
    L, R = (pred + x) / 2, (x + succ) / 2
    iv = [(L, R, 1, 1), (L, R, 0, 0), (L, R, 1, 0), (L, R, 0, 1), (x, succ, 1, 0), (pred, x, 0, 1)]
    for (l, r, il, ir), t in zip(iv, f[2:]):
        k, lo, hi, nn, tie, below, inside = map(int, t.split(","))
        def cands(k):
            s = P10[k]
            a = -((-l) // s)
            if a * s == l and not il: a += 1
            z = r // s
            if z * s == r and not ir: z -= 1
            return int(a), int(z)
        assert cands(k) == (lo, hi) and lo <= hi, (line, cands(k))
        a1, z1 = cands(k + 1)
        assert a1 > z1, line
        a1, z1 = cands(k + 2)
        assert a1 > z1, line
        d = {c: abs(c * P10[k] - x) for c in range(max(lo, nn - 2), min(hi, nn + 2) + 1)}
        best = min(d.values())
        w = [c for c in d if d[c] == best]
        assert w == ([nn, nn + 1] if tie else [nn]), (line, w)
        assert d[nn] <= abs(lo * P10[k] - x) and d[nn] <= abs(hi * P10[k] - x), line
        # nothing of the same length at the next finer scale unless flagged
        a2, z2 = cands(k - 1)
        assert bool(below) == (a2 < 10 and lo == 1), line
        if below:
            nd = min(abs(c * P10[k - 1] - x) for c in range(a2, 10))
            assert nd >= best, line  # the choice at scale k is still closest
        assert inside == 1, line
        n += 1
        ties += tie
assert ties > 20 and n > 1000
print("oracle self-test: %d answers confirmed by rational arithmetic, %d with ties" % (n, ties))
