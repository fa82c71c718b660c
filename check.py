#!/usr/bin/env python3
"""Runs the check of one property against /repo's current working tree.

  check.py C01                 quick or thorough by VERIF_TIER, seeded by VERIF_SEED
  check.py --replay FILE       rebuild and re-run a replay file (exit 1 if it still fails)
  check.py setup               toolchain and oracle self-test

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check could not decide."""
import concurrent.futures as cf
import json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CORE = os.path.join(HERE, "core")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
CPUS = max(1, min(16, os.cpu_count() or 1))
T0 = time.time()


class Inconclusive(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def watched(cmd, progress, stall=40, env=None):
    """Runs cmd -> (status or "hang", stderr). It hangs when progress() has not changed for that many
    seconds, counted in wake-ups: a machine that was suspended is not a hang."""
    with tempfile.TemporaryFile("w+", errors="replace") as err:
        pr = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=env)
        last, still = None, 0
        while True:
            try:
                rc = pr.wait(1)
                break
            except subprocess.TimeoutExpired:
                now = progress()
                still = still + 1 if now == last else 0
                last = now
                if still > stall:
                    pr.kill()
                    pr.wait()
                    rc = "hang"
                    break
        err.seek(0)
        return rc, err.read()


def file_bytes(path, n):
    try:
        with open(path, "rb") as f:
            return f.read(n)
    except OSError:
        return b""


def filled(path):
    """how many of the file's 64-bit words are set, given that they are set in order"""
    try:
        with open(path, "rb") as f:
            lo, hi = 0, os.fstat(f.fileno()).st_size // 8
            while lo < hi:
                m = (lo + hi) // 2
                f.seek(8 * m)
                if f.read(8).strip(b"\0"):
                    lo = m + 1
                else:
                    hi = m
            return lo
    except OSError:
        return -1


# ---------------------------------------------------------------- building
STD = ["-std=c++17", "-I" + REPO, "-I" + CORE]


class Build:
    """Compiles units into a scratch directory, in parallel."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-")
        self.failed = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def compile(self, jobs):
        """jobs: list of (object name, source, flags[, compiler]) -> names that failed"""
        def one(j):
            name, src, flags = j[:3]
            cc = j[3] if len(j) > 3 else "g++"
            r = sh([cc] + STD + list(flags) + ["-c", src, "-o", self.path(name)], timeout=800)
            return name, r.returncode, r.stderr[-6000:]
        bad = []
        with cf.ThreadPoolExecutor(CPUS) as ex:
            for name, rc, err in ex.map(one, jobs):
                if rc:
                    self.failed[name] = err
                    bad.append(name)
        return bad

    def link(self, out, objs, flags=(), cc="g++"):
        r = sh([cc] + [self.path(o) for o in objs] + list(flags) + ["-o", self.path(out), "-lpthread"], timeout=600)
        if r.returncode:
            self.failed[out] = r.stderr[-6000:]
        return r.returncode == 0

    def need(self, bad):
        if bad:
            raise Inconclusive("does not build: %s\n%s" % (", ".join(bad), self.failed[bad[0]]))


def conv_units(tag, flags, cc="g++"):
    r = []
    for f, n in (("float", "f32"), ("double", "f64")):
        for s in ("signed", "unsigned"):
            r.append(("%s_%s_%s.o" % (tag, s, n), os.path.join(CORE, "sut_conv.cpp"),
                      list(flags) + ["-DSUT_FLOAT=" + f, "-DSUT_SIGNED=" + ("true" if s == "signed" else "false"), "-DSUT_NAME=sut_%s_%s" % (s, n)], cc))
    return r


def text_units(tag, flags, cc="g++"):
    r = []
    for f, n in (("float", "f32"), ("double", "f64")):
        r.append(("%s_text_%s.o" % (tag, n), os.path.join(CORE, "sut_text.cpp"), list(flags) + ["-DSUT_FLOAT=" + f, "-DSUT_NAME=sut_text_" + n], cc))
    r.append(("%s_fpc.o" % tag, os.path.join(REPO, "fp_to_chars/fp_to_chars.cpp"), list(flags), cc))
    return r


# ---------------------------------------------------------------- reporting
def write_evidence(prop, coverage, level="exploration", assumptions=(), violations=0):
    coverage = dict(coverage)
    for k, same in (("values", "evaluations"), ("nontrivial", "distinct_nontrivial")):
        if coverage.get(k) is not None and coverage.get(k) == coverage.get(same):
            del coverage[k]
    coverage.setdefault("evaluations", 0)
    coverage.setdefault("distinct_nontrivial", 0)
    coverage.setdefault("samples", [])
    coverage.setdefault("rule", RULES.get(prop, ""))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    d = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": coverage,
         "assumptions": list(assumptions), "wall_s": round(time.time() - T0, 2), "violations": violations}
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)


def known_findings(prop):
    """(tokens, text) of the entries 'finding: property=<id> input=<token> <text>' of this property"""
    r = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) input=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return r


def violation(prop, replay, coverage, summary):
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    key = re.sub(r"[^0-9A-Za-z_.-]", "_", str(replay.get("key", "case")))[:60]
    path = os.path.join(HERE, "replay", "%s-%s.json" % (prop, key))
    replay = dict(replay, property=prop, message=summary, seed=SEED, tier=TIER,
                  how_to_replay="python3 %s --replay %s" % (os.path.join(HERE, "check.py"), path))
    with open(path, "w") as f:
        json.dump(replay, f, indent=1)
        f.write("\n")
    write_evidence(prop, coverage, violations=1)
    print(summary)
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return 1


# ---------------------------------------------------------------- engine drivers
def died(rc):
    return rc < 0 or rc in (134, 135, 136, 139) or rc == 77


def replay_value(exe, args, fmt, bits, env=None, timeout=60):
    """'ok', 'fails: ...', 'dies: ...' or 'hangs'"""
    try:
        r = sh([exe] + args + ["replay", fmt, bits], env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hangs", ""
    if r.returncode == 0:
        return "ok", ""
    if r.returncode == 1 and r.stdout.startswith("{"):
        return "fails", json.loads(r.stdout)["message"]
    return "dies", "the process ended with status %d: %s" % (r.returncode, report_line(r.stderr))


def report_line(err):
    for pat in (r"(.*Assertion .*failed.*)", r"(.*runtime error:.*)", r"(ERROR: \w+Sanitizer.*)", r"(WARNING: \w+Sanitizer.*)"):
        m = re.search(pat, err)
        if m:
            return m.group(1).strip()[-400:]
    return err.strip()[-300:] or "(no message)"


def shrink_dead(exe, args, fmt, bits, verdict, env, timeout):
    """greedy, by re-running the value in a process of its own"""
    p, eb = (23, 8) if fmt == "f32" else (52, 11)
    w = p + eb + 1
    best = int(bits, 16)
    end = time.time() + 60
    cand = [1 << (w - 1)] + [1 << i for i in range(p - 1, -1, -1)]
    for c in cand:
        if best & c and time.time() < end:
            t = "%0*x" % (w // 4, best & ~c)
            if replay_value(exe, args, fmt, t, env, timeout)[0] == verdict:
                best &= ~c
    return "%0*x" % (w // 4, best)


def run_driver(b, exe, args, sources, env=None, deadline=None, seed=None, threads=None):
    """Runs an engine driver. Returns (result dict, failure or None)."""
    path = b.path(exe)
    if deadline is None:
        deadline = 420 if TIER == "quick" else 6 * 3600
    threads = threads or CPUS
    journal = b.path("journal-" + exe)
    with open(journal, "wb") as f:
        f.write(b"\0" * 64 * threads)
    cmd = [path] + args + ["run", str(seed if seed is not None else SEED), str(threads), journal, str(deadline)] + sources
    hung = False
    pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env)
    # a value that takes minutes is a hang: watch the journal
    import threading
    state = {}

    def watch():
        while pr.poll() is None:
            time.sleep(2)
            with open(journal, "rb") as f:
                d = f.read()
            stuck = []
            for t in range(threads):
                n, fm, bi = struct.unpack_from("<QQQ", d, 64 * t)
                k = (t, n)
                if n and state.get(t, (None, 0))[0] != n:
                    state[t] = (n, 0)
                elif n:
                    state[t] = (n, state[t][1] + 1)  # wake-ups, not seconds: the machine may have been suspended
                    if state[t][1] > 30:
                        stuck.append(t)
            if stuck:
                state["hung"] = True
                pr.kill()
                return
    th = threading.Thread(target=watch, daemon=True)
    th.start()
    out, err = pr.communicate()
    rc = pr.returncode
    th.join(5)
    if rc in (0, 1) and out.startswith("{"):
        d = json.loads(out)
        f = d.get("failure")
        if f:
            # three replays in processes of their own before it is believed
            for _ in range(3):
                v, msg = replay_value(path, args, f["fmt"], f["bits"], env)
                if v == "ok":
                    # alone it is fine: it may need what was converted before it. The same run again, at most twice
                    for _ in range(2):
                        r = sh(cmd, env=env, timeout=deadline + 600)
                        if r.returncode == 1 and r.stdout.startswith("{") and "failure" in json.loads(r.stdout):
                            g = json.loads(r.stdout)["failure"]
                            return d, dict(f, command=[seed if seed is not None else SEED, threads] + sources, message="%s (only after other conversions: alone it is right; another run of the same inputs failed with: %s)" % (f["message"], g["message"]))
                    raise Inconclusive("the failure of %s did not replay: %s" % (f["bits"], f["message"]))
        return d, f
    # died or hung: which value was it?
    with open(journal, "rb") as f:
        data = f.read()
    for t in range(threads):
        n, fm, bi = struct.unpack_from("<QQQ", data, 64 * t)
        if not n:
            continue
        fmt = "f32" if fm == 0 else "f64"
        bits = "%08x" % bi if fm == 0 else "%016x" % bi
        to = 30
        v, msg = replay_value(path, args, fmt, bits, env, to)
        if v in ("dies", "hangs", "fails"):
            if all(replay_value(path, args, fmt, bits, env, to)[0] == v for _ in range(2)):
                small = bits if v == "hangs" else shrink_dead(path, args, fmt, bits, v, env, to)
                v2, m2 = replay_value(path, args, fmt, small, env, to)
                what = "%s value 0x%s: %s" % ("float" if fm == 0 else "double", small, "the conversion does not end" if v == "hangs" else m2)
                return {"values": 0, "evaluations": int(n), "distinct_nontrivial": 1, "nontrivial": 1, "complete": False, "wall": 0, "sources": [],
                        "counters": {}, "samples": []}, {"fmt": fmt, "bits": small, "original_bits": bits, "where": v, "message": what}
    raise Inconclusive("driver %s ended with status %s%s and no value of its journal reproduces that: %s" % (exe, rc, " (hung)" if state.get("hung") else "", report_line(err)))


def add_coverage(total, d, tag=None):
    for k in ("values", "evaluations", "nontrivial", "distinct_nontrivial"):
        total[k] = total.get(k, 0) + d[k]
    total.setdefault("sources", []).extend([dict(s, build=tag) if tag else s for s in d["sources"]])
    c = total.setdefault("classes", {})
    for k, v in d["counters"].items():
        c[k] = c.get(k, 0) + v
    total.setdefault("samples", []).extend(d["samples"][:8] if tag is None else [tag + ": " + s for s in d["samples"][:3]])
    total["complete"] = total.get("complete", True) and d["complete"]


# ---------------------------------------------------------------- coverage-guided stage
FUZZ_FLAGS = ["-O1", "-fsanitize=fuzzer-no-link"]


def fuzz_units(driver, san=()):
    """objects of the libFuzzer executable of one driver (clang; the code under test is instrumented, the oracle is not)"""
    fl = FUZZ_FLAGS + list(san)
    u = [] if driver == "bits" else conv_units("z", fl, "clang++")
    if driver in ("text", "san", "hist"):
        u += text_units("z", fl, "clang++")
    src = os.path.join(CORE, "driver_%s.cpp" % driver)
    # the inspection functions are called from the driver itself, so there the driver is instrumented
    return u + [("z_main.o", src, (fl if driver in ("bits", "san") else ["-O2"]) + ["-DFUZZ"], "clang++")]


def fuzz_built(b, driver, bad, san=()):
    """links; whether the stage can run. It is an addition: where it cannot be built, the evidence says so"""
    if any(x.startswith("z_") for x in bad):
        return False
    return b.link("fuzz_" + driver, [x[0] for x in fuzz_units(driver)], ["-fsanitize=fuzzer"] + list(san), "clang++")


def fuzz_link(b, driver, san=()):
    if not b.link("fuzz_" + driver, [x[0] for x in fuzz_units(driver)], ["-fsanitize=fuzzer"] + list(san), "clang++"):
        raise Inconclusive(b.failed["fuzz_" + driver])


def fuzz_seeds(b):
    """a small start corpus, one value of every class"""
    d = b.path("seeds")
    if os.path.isdir(d):
        return d
    os.makedirs(d)
    vals = []
    for line in open(os.path.join(HERE, "corpus", "values.txt")):
        t = line.split()
        if len(t) >= 2 and t[0] in ("f32", "f64"):
            vals.append((t[0] == "f64", int(t[1], 16)))
    vals += [(True, x << 52 | 1) for x in range(1, 2047, 61)] + [(False, x << 23 | 1) for x in range(1, 255, 23)] + [(True, 1), (False, 1)]
    for i, (dbl, v) in enumerate(vals):
        with open(os.path.join(d, "%d" % i), "wb") as f:
            f.write(bytes([dbl]) + struct.pack("<Q", v))
    return d


def fuzz_replay(exe, arg, fmt, bits, b, env=None):
    f = b.path("one.bin")
    with open(f, "wb") as h:
        h.write(bytes([fmt == "f64"]) + struct.pack("<Q", int(bits, 16)))
    out = b.path("one.json")
    if os.path.exists(out):
        os.unlink(out)
    try:
        r = sh([exe, "-timeout=60", "-artifact_prefix=" + b.path("x-"), f], env=dict(env or os.environ, VERIF_ARG=arg, VERIF_OUT=out), timeout=120)
    except subprocess.TimeoutExpired:
        return "hangs", "does not end"
    if r.returncode == 78:
        return "fails", json.load(open(out))["failure"]["message"]
    return ("ok", "") if r.returncode == 0 else ("dies", "status %d: %s" % (r.returncode, report_line(r.stderr)))


def run_fuzz(b, driver, arg, runs, seconds, env=None):
    """libFuzzer on all cores, each process with its own seed. Returns (coverage, failure or None)."""
    exe = b.path("fuzz_" + driver)
    seeds = fuzz_seeds(b)

    def one(i):
        d = b.path("corpus-%s-%d" % (driver, i))
        os.makedirs(d, exist_ok=True)
        out = b.path("fuzz-%s-%d.json" % (driver, i))
        pre = b.path("art-%s-%d-" % (driver, i))
        cmd = [exe, "-max_len=9", "-len_control=0", "-use_value_profile=1", "-runs=%d" % runs, "-seed=%d" % (SEED * 64 + i + 1), "-timeout=60", "-rss_limit_mb=3000",
               "-max_total_time=%d" % seconds, "-print_final_stats=1", "-artifact_prefix=" + pre, d, seeds]
        try:
            r = sh(cmd, env=dict(env or os.environ, VERIF_ARG=arg, VERIF_OUT=out), timeout=seconds * 3 + 300)
        except subprocess.TimeoutExpired:
            return i, None, None, "no end"
        art = [f for f in os.listdir(b.dir) if f.startswith(os.path.basename(pre))]
        shutil.rmtree(d, ignore_errors=True)
        return i, r.returncode, out, (art, r.stderr)
    cov = {"values": 0, "evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0, "samples": [], "counters": {}, "complete": True}
    feat = 0
    with cf.ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(one, range(CPUS)))
    for i, rc, out, x in res:
        if rc is None:
            raise Inconclusive("the coverage-guided stage did not end")
        d = json.load(open(out)) if os.path.exists(out) else None
        if rc == 0 and d:
            for k in ("values", "evaluations", "nontrivial", "distinct_nontrivial"):
                cov[k] += d[k]
            if i == 0:
                cov["samples"] = d["samples"][:3]
            m = re.findall(r"cov: (\d+) ft: (\d+)", x[1])
            if m:
                feat = max(feat, int(m[-1][1]))
            continue
        if rc == 78:
            fmt, bits, msg = d["failure"]["fmt"], d["failure"]["bits"], d["failure"]["message"]
        else:
            raw = None
            for a in x[0]:
                t = open(b.path(a), "rb").read()
                if len(t) >= 9:
                    raw = t
            if raw is None:
                raise Inconclusive("the coverage-guided stage ended with status %s: %s" % (rc, report_line(x[1])))
            v = struct.unpack_from("<Q", raw, 1)[0]
            fmt = "f64" if raw[0] & 1 else "f32"
            bits = "%016x" % v if fmt == "f64" else "%08x" % ((v ^ v >> 32) & 0xffffffff)
            msg = None
        vs = [fuzz_replay(exe, arg, fmt, bits, b, env) for _ in range(3)]
        if any(v[0] == "ok" for v in vs):
            raise Inconclusive("a failure of the coverage-guided stage did not replay: %s %s" % (bits, msg))
        return cov, {"fmt": fmt, "bits": bits, "original_bits": bits, "where": vs[0][0], "message": "%s value 0x%s: %s" % ("double" if fmt == "f64" else "float", bits, vs[0][1])}
    cov["sources"] = [{"source": "coverage-guided (libFuzzer, value profile)", "values": cov["values"], "evaluations": cov["evaluations"], "nontrivial": cov["nontrivial"], "features": feat}]
    return cov, None


def fuzz_result(b, driver, args, cov, f):
    """a failure of the coverage-guided stage, shrunk with the plain build of the same driver if it fails there too"""
    replay_as = {"driver": "fuzz_" + driver, "args": args}
    if driver != "san":
        exe = b.path(driver)
        v, msg = replay_value(exe, args, f["fmt"], f["bits"])
        if v == "fails":
            r = sh([exe] + args + ["shrink", f["fmt"], f["bits"]], timeout=300)
            if r.returncode == 1 and r.stdout.startswith("{"):
                d = json.loads(r.stdout)
                f = dict(f, bits=d["bits"], message=d["message"], where=d["where"])
            replay_as["driver"] = driver
        elif v != "ok":
            replay_as["driver"] = driver
    return f, replay_as


# classes of gen.hpp
UNIFORM, PATTERN, DECIMAL, DYADIC, FIVES, HARD, EXTREME, SHORT, DIGITS = range(9)


def classes(fmt, weights):
    return ["class:%s:%d:%d" % (fmt, c, n) for c, n in sorted(weights.items()) if n]


def M(x):
    return int(x * 1_000_000)


CORPUS = "list:%s:0:" + os.path.join(HERE, "corpus", "values.txt")


SOURCES = ("grisu_exact.h", "fp_to_chars.h", "fp_to_chars/fp_to_chars.cpp")


def source_literals():
    """integer constants of the code under test, as material for inputs (a generator only: no verdict depends on them)"""
    lits = set()
    for f in SOURCES:
        try:
            t = open(os.path.join(REPO, f), errors="replace").read()
        except OSError:
            continue
        t = re.sub(r"//[^\n]*|/\*.*?\*/", " ", t, flags=re.S)
        t = re.sub(r'"[^"\n]*"', " ", t)
        for x in re.findall(r"(?<![\w.])(?:0[xX][0-9a-fA-F']+|0[bB][01']+|[1-9][\d']*)(?=[uUlLzZ]*(?![\w.]))", t):
            lits.add(int(x.replace("'", ""), 0) & (1 << 64) - 1)
    return sorted(lits)


def mined(b, thin=1):
    """sources made of the constants in the code: as bit patterns, as decimal significands at every scale, as significand
    and exponent fields. thin: one of so many."""
    name = b.path("mined-%d" % thin)
    if not os.path.exists(name):
        lits = source_literals()
        small = [n for n in lits if n <= 10 ** 17]
        near = sorted({m for n in small for m in (n - 1, n, n + 1) if m >= 0})
        d64, d32 = set(lits), {n & 0xffffffff for n in lits}
        for n in near:
            d64 |= {n, n ^ 1 << 63}
            d32 |= {n & 0xffffffff, n & 0xffffffff ^ 1 << 31}
            for e in range(-342, 309):
                x = float("%de%d" % (n, e))
                if 0 < x < float("inf"):
                    d64.add(struct.unpack("<Q", struct.pack("<d", x))[0] | ((n + e) & 1) << 63)
                if -50 < e < 39 and 1e-46 < x < 3.4e38:
                    d32.add(struct.unpack("<I", struct.pack("<f", x))[0] | ((n + e) & 1) << 31)
        for dd, p, eb in ((d64, 52, 11), (d32, 23, 8)):
            fields = set()
            for n in lits if len(lits) < 400 else small:
                n &= (1 << p + 1) - 1
                up = n << max(0, p + 1 - n.bit_length())
                fields |= {n & (1 << p) - 1, up & (1 << p) - 1}
            for e in range((1 << eb) - 1):
                dd |= {e << p | x | ((e ^ x) & 1) << p + eb for x in fields}
            for n in near:  # as exponent field, as exponent
                for e in (n, n + (1 << eb - 1) - 1, (1 << eb - 1) - 1 - n, n + (1 << eb - 1) - 1 + p, (1 << eb - 1) - 1 - n + p):
                    if 0 <= e < (1 << eb) - 1:
                        dd |= {e << p | x for x in (0, 1, (1 << p) - 1, (1 << p) - 2, 0x2aaaaaaaaaaaa & (1 << p) - 1, 1 << p - 1)}
        with open(name, "w") as f:
            for fm, dd, w in (("f64", d64, 16), ("f32", d32, 8)):
                f.write("".join("%s %0*x\n" % (fm, w, x) for x in sorted(dd)[SEED % thin::thin]))
    return ["list:%s:1:%s" % (fm, name) for fm in ("f64", "f32")]


def dec_sources(prop, scale, stride):
    """values, all modes and policies of the property are tried on each"""
    w = {UNIFORM: 3, PATTERN: 4, DECIMAL: 5, DYADIC: 8, FIVES: 8, HARD: 6, EXTREME: 1, SHORT: 2, DIGITS: 2}
    if prop in ("C04", "C09", "C10"):
        w.update({DYADIC: 14, FIVES: 14, UNIFORM: 2, DECIMAL: 3})
    s = classes("f64", {c: M(n * scale) for c, n in w.items()})
    s += classes("f32", {c: M(n * scale / 4) for c, n in w.items()})
    s += ["hardest:f64:0:%d" % max(1, int(20 * scale)), "hardest:f32:0:%d" % max(1, int(40 * scale))]
    s += ["possweep:f32:%d:0" % stride, CORPUS % "f32", CORPUS % "f64"]
    return s


RULES = {
    "C01": "a value is one case, tried in each mode and setting; non-trivial: an interval endpoint is exactly a candidate, the value is subnormal or a power of two, open and closed intervals give different answers, candidates tie, or at least two digits can be dropped",
    "C04": "a value is one case, tried in each mode and policy; non-trivial: in at least one mode two candidates of minimal length are exactly equally near",
    "C05": "a value is one case, tried in each mode and setting; non-trivial: subnormal, power of two, exactly a short decimal, the two directions give different lengths, or one has a single candidate",
    "C08": "a value is one case, tried in each mode, setting and return form; non-trivial: two or more trailing digits have to be dropped, or subnormal, or the last digit is next to zero (so an off-by-one ends in a trailing zero)",
    "C09": "a value is one case, tried in each mode pair, setting and form; non-trivial: opposite boundary choices give different answers for it",
    "C10": "a value is one case, tried in each mode, setting, sign and form; non-trivial: extending the interval to the other side gives a different answer",
}
for a, b_ in (("C02", "C01"), ("C03", "C01"), ("C20", "C01"), ("C06", "C05"), ("C07", "C05")):
    RULES[a] = RULES[b_]
RULES["C11"] = "a value is one case, rendered in each mode and setting by both functions and with default arguments; non-trivial: more than one digit"
RULES["C12"] = "a bit pattern is one case, rendered in each mode (a setting chosen by hash) into canaried, unaligned and exact-size guarded buffers; non-trivial: special value or more than one digit"
RULES["C13"] = "a bit pattern is one case, rendered in all modes and settings (NaN floats: 6 of the 70 combinations each, all floats NaNs enumerated); non-trivial: zero, infinity, NaN or subnormal"
RULES["C14"] = "a bit pattern is one case, all inspection functions are called on it; non-trivial: subnormal, zero, infinity, NaN or in the first or last binade"
RULES["C15"] = "a value is one case: text of the default mode and the four directed modes read back by strtof/strtod under the matching rounding direction, default text also by from_chars; non-trivial: finite non-zero with more than a few characters"


def result(prop, cov, failure, replay, assumptions=()):
    cov["rule"] = RULES[prop]
    if failure:
        replay = dict(replay, key=failure["bits"], **failure)
        return violation(prop, replay, cov, failure["message"])
    write_evidence(prop, cov, assumptions=assumptions)
    print("%s: held on %d cases (%d evaluations, %d distinct non-trivial)%s in %.1f s" % (
        prop, cov["values"], cov["evaluations"], cov["distinct_nontrivial"], "" if cov.get("complete", True) else " [stopped by the time limit]", time.time() - T0))
    return 0


def fuzz_stage(b, driver, prop, cov, runs):
    """the coverage-guided stage; adds to cov. Returns (failure, how to replay it)"""
    if not b.fuzz:
        cov["coverage_guided"] = "not built: " + next((e for n, e in b.failed.items() if n.startswith(("z_", "fuzz_"))), "")[:300]
        return None, None
    if driver == "dec" and prop in ("C08", "C10"):
        runs *= 2
    c, f = run_fuzz(b, driver, prop, int(runs if TIER == "quick" else runs * 150), 60 if TIER == "quick" else 7200)
    add_coverage(cov, c) if not f else None
    if f:
        return fuzz_result(b, driver, [prop], cov, f)
    return None, None


def build_dec(b, flags=("-O2",), fuzz=False):
    bad = b.compile(conv_units("n", flags) + [("dec.o", os.path.join(CORE, "driver_dec.cpp"), ["-O2"])] + (fuzz_units("dec") if fuzz else []))
    b.need([x for x in bad if not x.startswith("z_")])
    if fuzz:
        b.fuzz = fuzz_built(b, "dec", bad)
    if not b.link("dec", ["dec.o"] + [u[0] for u in conv_units("n", ())]):
        raise Inconclusive(b.failed["dec"])


def build_text(b, flags=("-O2",), fuzz=False):
    u = conv_units("n", flags) + text_units("n", flags)
    bad = b.compile(u + [("text.o", os.path.join(CORE, "driver_text.cpp"), ["-O2"])] + (fuzz_units("text") if fuzz else []))
    b.need([x for x in bad if not x.startswith("z_")])
    if fuzz:
        b.fuzz = fuzz_built(b, "text", bad)
    if not b.link("text", ["text.o"] + [x[0] for x in u]):
        raise Inconclusive(b.failed["text"])


def build_bits(b, fuzz=False):
    bad = b.compile([("bits.o", os.path.join(CORE, "driver_bits.cpp"), ["-O2"])] + (fuzz_units("bits") if fuzz else []))
    b.need([x for x in bad if not x.startswith("z_")])
    if fuzz:
        b.fuzz = fuzz_built(b, "bits", bad)
    if not b.link("bits", ["bits.o"]):
        raise Inconclusive(b.failed["bits"])


def check_dec(prop):
    b = Build()
    try:
        build_dec(b, fuzz=True)
        cost = {"C08": 5, "C10": 5, "C09": 1.6}.get(prop, 1.0)
        if prop in ("C05", "C06", "C07"):
            cost = 0.5
        if TIER == "quick":
            scale, stride = 1.6 / cost, max(1, int(32 * cost))
        else:
            scale, stride = 60 / cost, 1
        d, f = run_driver(b, "dec", [prop], dec_sources(prop, scale, stride) + mined(b))
        cov = {}
        add_coverage(cov, d)
        if stride == 1:
            cov["float_magnitudes_exhaustive"] = d["complete"]
        replay_as = {"driver": "dec", "args": [prop]}
        if not f:
            f, replay_as = fuzz_stage(b, "dec", prop, cov, 40_000 / cost)
        return result(prop, cov, f, replay_as, DEC_ASSUME)
    finally:
        b.close()


DEC_ASSUME = ["exact reference in core/oracle.hpp (multi-limb integers, independent of the code under test)",
              "the interval of the largest finite value is taken as if the exponent range continued",
              "doubles are sampled, not enumerated"]


def check_text(prop):
    b = Build()
    try:
        build_text(b, fuzz=True)
        if TIER == "quick":
            k, stride = {"C11": 0.5, "C12": 0.13, "C13": 0.3, "C15": 4.0}[prop], {"C11": 512, "C12": 4096, "C13": 1024, "C15": 128}[prop]
        else:
            k, stride = {"C11": 40, "C12": 10, "C13": 20, "C15": 200}[prop], {"C11": 4, "C12": 32, "C13": 16, "C15": 4}[prop]
        w = {UNIFORM: 3, PATTERN: 1, DECIMAL: 3, DYADIC: 1, FIVES: 1, HARD: 1, EXTREME: 1, SHORT: 1, DIGITS: 6}
        if prop == "C15":
            w.update({HARD: 3, DYADIC: 2, FIVES: 2, PATTERN: 2})
        src = classes("f64", {c: M(n * k) for c, n in w.items()}) + classes("f32", {c: M(n * k / 3) for c, n in w.items()})
        src += ["possweep:f32:%d:0" % stride, CORPUS % "f32", CORPUS % "f64"] + mined(b, 4 if prop == "C12" else 1)
        if prop != "C11":
            src += ["special:f64:0:%d" % M(k), "special:f32:0:%d" % M(k / 4)]
            if prop == "C13":
                src += ["range:f32:0x7f800000:0x800000", "range:f32:0xff800000:0x800000", "range:f32:0:0x10000", "range:f32:0x80000000:0x10000"]
        d, f = run_driver(b, "text", [prop], src)
        cov = {}
        add_coverage(cov, d)
        assume = {"C11": ["the converted decimal is taken from the library itself (its correctness is C01-C10)"],
                  "C15": ["glibc strtof/strtod honour the rounding direction and round correctly; libstdc++ to_chars/from_chars are shortest/correct"]}.get(prop, [])
        replay_as = {"driver": "text", "args": [prop]}
        if not f:
            f, replay_as = fuzz_stage(b, "text", prop, cov, {"C11": 20_000, "C12": 20_000, "C13": 20_000, "C15": 100_000}[prop])
        return result(prop, cov, f, replay_as, assume)
    finally:
        b.close()


def bits_const(b, cc, seed, log=None):
    """the constexpr inspection functions under constant evaluation; -> what is wrong, or None (also when they are not constexpr here)"""
    out = "bits_const_%s_%d" % (cc[0], seed)
    if b.compile([(out + ".o", os.path.join(CORE, "bits_const.cpp"), ["-O1", "-DSEED=%d" % seed] + CONSTEXPR[cc], cc)]) or not b.link(out, [out + ".o"], cc=cc):
        if log is not None:
            log.append({"compiler": cc, "skipped": "does not compile: the functions cannot be used in constant expressions here"})
        return None
    r = sh([b.path(out)], timeout=60)
    if r.returncode == 0 and log is not None:
        n, special = map(int, r.stdout.split())
        log.append({"compiler": cc, "patterns": n, "nontrivial": special})
    return r.stdout.strip() if r.returncode == 1 else None


def check_bits(prop):
    b = Build()
    try:
        build_bits(b, fuzz=True)
        k = 1 if TIER == "quick" else 50
        src = ["sweep:f32:1:0", "special:f64:0:%d" % M(5 * k), "special:f32:0:%d" % M(0.2), "anybits:f64:0:%d" % M(40 * k), "class:f64:%d:%d" % (PATTERN, M(10 * k)),
               "class:f64:%d:%d" % (EXTREME, M(5 * k))] + mined(b)
        d, f = run_driver(b, "bits", [prop], src)
        cov = {"float_patterns_exhaustive": d["complete"]}
        add_coverage(cov, d)
        replay_as = {"driver": "bits", "args": [prop]}
        if not f:
            f, replay_as = fuzz_stage(b, "bits", prop, cov, 1_000_000)
        if not f:
            cov["constant_evaluation"] = []
            for cc in ("g++", "clang++"):
                for i in range(2 * k):
                    bad = bits_const(b, cc, SEED * 100 + i, cov["constant_evaluation"])
                    if bad:
                        return violation(prop, {"driver": "bits_const", "key": "constant-evaluation", "compiler": cc, "patterns": SEED * 100 + i}, cov, "%s: %s" % (cc, bad))
        return result(prop, cov, f, replay_as, ["quiet bit convention of IEEE 754-2008 (set: quiet), as on the platforms the tests build for"])
    finally:
        b.close()


# ---------------------------------------------------------------- C16: histories
def hist_build(b, tag, flags, link=()):
    u = conv_units(tag, flags) + text_units(tag, flags)
    b.need(b.compile(u + [(tag + "_hist.o", os.path.join(CORE, "driver_hist.cpp"), flags)]))
    if not b.link("hist_" + tag, [tag + "_hist.o"] + [x[0] for x in u], link):
        raise Inconclusive(b.failed["hist_" + tag])


def make_locale(b):
    """a locale with a decimal comma, in the scratch directory; None if it cannot be made here"""
    d = b.path("locale")
    os.makedirs(d, exist_ok=True)
    try:
        sh(["localedef", "-i", "de_DE", "-f", "UTF-8", os.path.join(d, "de_DE.UTF-8")], timeout=120)
    except (OSError, subprocess.TimeoutExpired):
        return None
    return dict(os.environ, LOCPATH=d, VERIF_LOCALE="de_DE.UTF-8") if os.path.isdir(os.path.join(d, "de_DE.UTF-8")) else None


def hist_replay(exe, ops, env, b, timeout=60):
    f = b.path("ops.txt")
    with open(f, "w") as h:
        h.write("\n".join(ops) + "\n")
    try:
        r = sh([exe, "replay", f], env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hangs", "the history does not end"
    if r.returncode == 0:
        return "ok", ""
    if r.returncode == 1 and r.stdout.startswith("{"):
        return "fails", json.loads(r.stdout)["message"]
    return "dies", "status %d: %s" % (r.returncode, report_line(r.stderr))


def hist_shrink(exe, ops, env, b, verdict="fails"):
    if verdict == "hangs":  # each attempt would take a minute
        return ops
    end = time.time() + 60
    size = max(1, len(ops) // 2)
    while size >= 1:
        i, changed = 0, False
        while i < len(ops) and time.time() < end:
            t = ops[:i] + ops[i + size:]
            if t and hist_replay(exe, t, env, b)[0] == verdict:
                ops, changed = t, True
            else:
                i += size
        if size == 1 and not changed:
            break
        size = size // 2 if size > 1 else 1
        if time.time() > end:
            break
    return ops


def hist_fuzz(b, cov, runs, seconds):
    """coverage-guided histories; -> failure as of the plain driver, with the executable that shows it"""
    exe = b.path("fuzz_hist")
    seeds = b.path("hist-seeds")
    os.makedirs(seeds, exist_ok=True)
    vals = [(fm, int(x, 16)) for fm, x in (t.split()[:2] for t in open(os.path.join(HERE, "corpus", "values.txt")) if t[:3] in ("f32", "f64"))]
    for i in range(0, len(vals), 4):
        with open(os.path.join(seeds, "%d" % i), "wb") as f:
            for j, (fm, x) in enumerate(vals[i:i + 4]):
                f.write(bytes([(fm == "f64") | (j & 3) << 1, (i + j) % 14, j % 5, 0]) + struct.pack("<Q", x))

    def one(i):
        d, out, pre = b.path("hcorpus-%d" % i), b.path("hfuzz-%d.json" % i), b.path("hart-%d-" % i)
        os.makedirs(d, exist_ok=True)
        cmd = [exe, "-max_len=192", "-len_control=0", "-use_value_profile=1", "-runs=%d" % runs, "-seed=%d" % (SEED * 64 + i + 1), "-timeout=60", "-rss_limit_mb=3000",
               "-max_total_time=%d" % seconds, "-print_final_stats=1", "-artifact_prefix=" + pre, d, seeds]
        try:
            r = sh(cmd, env=dict(os.environ, VERIF_OUT=out), timeout=seconds * 3 + 300)
        except subprocess.TimeoutExpired:
            return None, None, "no end", []
        arts = [open(b.path(x), "rb").read() for x in os.listdir(b.dir) if x.startswith(os.path.basename(pre))]
        shutil.rmtree(d, ignore_errors=True)
        return r.returncode, json.load(open(out)) if os.path.exists(out) else None, r.stderr, arts
    with cf.ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(one, range(CPUS)))
    tot = {"run": "coverage-guided (libFuzzer, value profile)", "histories": 0, "calls": 0, "nontrivial": 0, "distinct_nontrivial": 0, "features": 0}
    fail = None
    for rc, d, err, arts in res:
        if rc in (0, 78) and d:
            for k in ("histories", "calls", "nontrivial", "distinct_nontrivial"):
                tot[k] += d[k]
            m = re.findall(r"cov: (\d+) ft: (\d+)", err)
            tot["features"] = max(tot["features"], int(m[-1][1]) if m else 0)
            fail = fail or d.get("failure")
        elif fail is None and arts and len(arts[0]) >= 12:  # died or hung: the calls of the input that was running
            ops = []
            for i in range(0, len(arts[0]) - 11, 12):
                a = arts[0][i:i + 12]
                fm, form = a[0] & 1, a[0] >> 1 & 3
                x = struct.unpack_from("<Q", a, 4)[0] & (0xffffffffffffffff if fm else 0xffffffff)
                mag = x & (0x7fffffffffffffff if fm else 0x7fffffff)
                if form >= 2 or 0 < mag < (0x7ff0000000000000 if fm else 0x7f800000):
                    ops.append("%d %x %d %d %d %d" % (fm, x, a[1] % 14, a[2] % 5, form, a[0] >> 3 & 7 if a[0] & 64 else 0))
            fail = {"message": "status %s: %s" % (rc, report_line(err)), "ops": ops[:16]}
        elif rc not in (0, 78):
            raise Inconclusive("coverage-guided histories ended with status %s: %s" % (rc, report_line(err)))
    cov["runs"].append(tot)
    cov["values"] += tot["histories"]
    cov["evaluations"] += tot["calls"]
    cov["nontrivial"] += tot["nontrivial"]
    cov["distinct_nontrivial"] += tot["distinct_nontrivial"]
    cov["samples"] += (res[0][1] or {}).get("samples", [])[:2]
    return fail


def hist_confirm(exes, f, env, b):
    """-> executable, calls, verdict of a failing history, alone or behind what preceded it"""
    for exe in exes:
        for start in [f["ops"]] + ([f["prior"] + f["ops"]] if f.get("prior") else []):
            v = [hist_replay(b.path(exe), start, env, b)]
            while v[0][0] != "ok" and len(v) < 3 and v[-1][0] == v[0][0]:
                v.append(hist_replay(b.path(exe), start, env, b))
            if len(v) == 3 and len({x[0] for x in v}) == 1:
                return exe, start, v[0][0]
    return None


def check_hist(prop):
    b = Build()
    try:
        hist_build(b, "n", ["-O2"])
        tsan_ok = True
        try:
            hist_build(b, "t", ["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"])
        except Inconclusive as e:
            if "n_" in str(e):
                raise
            tsan_ok = False
        fuzz = fuzz_built(b, "hist", b.compile(fuzz_units("hist")))
        cov = {"values": 0, "evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0, "samples": [], "runs": [],
               "rule": "a call history (4 to 48 related calls, run forwards and backwards) is one case, an evaluation is one call; non-trivial: at least three different values and a value used again; distinct by generator seed"}
        n = 2_400_000 if TIER == "quick" else 60_000_000
        loc = make_locale(b)
        plan = [("as started", "hist_n", None, n, SEED)]
        if loc:
            plan.append(("decimal-comma locale", "hist_n", loc, n // 8, SEED + 1000003))
        plan.append(("one thread", "hist_n", None, n // 16, SEED + 2000003))
        if tsan_ok:
            plan.append(("ThreadSanitizer", "hist_t", dict(os.environ, TSAN_OPTIONS="exitcode=66:halt_on_error=1:report_signal_unsafe=0"), n // 24, SEED + 3000017))
        for label, exe, env, count, seed in plan:
            th = 1 if label == "one thread" else max(4, CPUS)
            cmd = [b.path(exe), "run", str(seed), str(th), str(count), "420" if TIER == "quick" else "7200"]
            try:
                r = sh(cmd, env=env, timeout=600 if TIER == "quick" else 9000)
            except subprocess.TimeoutExpired:
                raise Inconclusive("histories did not end: " + label)
            if r.returncode == 66 and "ThreadSanitizer" in r.stderr and "data race" in r.stderr:
                again = [sh(cmd, env=env) for _ in range(2)]
                if any(x.returncode == 66 for x in again):
                    rep = r.stderr[:6000]
                    what = "data race between concurrent conversions: " + "; ".join(x.strip() for x in re.findall(r"#0 (.*)", rep)[:2])
                    return violation(prop, {"driver": "hist_t", "key": "race", "command": cmd[1:], "report": rep}, cov, what)
                raise Inconclusive("a data race was reported once and not again")
            if r.returncode == 4 and "locale" in r.stdout:
                continue
            if label == "ThreadSanitizer" and not r.stdout.startswith("{"):
                if "unexpected memory mapping" in r.stderr or "FATAL: ThreadSanitizer" in r.stderr:
                    cov["runs"].append({"run": label, "not_run": r.stderr[:200]})
                    continue
            if died(r.returncode) or not r.stdout.startswith("{"):
                again = [sh(cmd, env=env) for _ in range(2)]
                if all(x.returncode == r.returncode for x in again):
                    what = "the process running call histories (%s) ends with status %d: %s" % (label, r.returncode, report_line(r.stderr))
                    return violation(prop, {"driver": exe, "key": "crash", "command": cmd[1:], "run": label}, cov, what)
                raise Inconclusive("status %d once: %s" % (r.returncode, report_line(r.stderr)))
            d = json.loads(r.stdout)
            cov["runs"].append(dict({k: v for k, v in d.items() if k not in ("samples", "failure")}, run=label))
            cov["values"] += d["histories"]
            cov["evaluations"] += d["calls"]
            cov["nontrivial"] += d["nontrivial"]
            cov["distinct_nontrivial"] += d["distinct_nontrivial"]
            if not cov["samples"]:
                cov["samples"] = d["samples"]
            f = d.get("failure")
            if f:
                c = hist_confirm([exe], f, env, b)
                if c:
                    return hist_violation(b, prop, c, f, env, label, cov)
                again = [sh(cmd, env=env) for _ in range(3)]
                if any(x.returncode == 1 for x in again):
                    return violation(prop, {"driver": exe, "key": "run", "command": cmd[1:], "ops": f["ops"], "run": label}, cov,
                                     "%s: %s (needs what the other threads or earlier histories did)" % (label, f["message"]))
                raise Inconclusive("a failing history did not fail again: " + f["message"])
        if fuzz:
            f = hist_fuzz(b, cov, 150_000 if TIER == "quick" else 3_000_000, 60 if TIER == "quick" else 7200)
            if f:
                c = hist_confirm(["hist_n", "fuzz_hist"], f, None, b)
                if c is None:
                    raise Inconclusive("a history of the coverage-guided stage did not fail again: " + f["message"])
                return hist_violation(b, prop, c, f, None, "coverage-guided", cov)
        else:
            cov["runs"].append({"run": "coverage-guided", "not_run": next((e for n, e in b.failed.items() if n.startswith(("z_", "fuzz_"))), "")[:300]})
        write_evidence(prop, cov, assumptions=["thread interleavings are chosen by the scheduler", "only data races on accesses that occur are seen",
                                               "exact reference in core/oracle.hpp"])
        print("%s: held on %d histories, %d calls (%s) in %.1f s" % (prop, cov["values"], cov["evaluations"], ", ".join(x["run"] for x in cov["runs"] if "not_run" not in x), time.time() - T0))
        return 0
    finally:
        b.close()


def hist_violation(b, prop, c, f, env, label, cov):
    exe, start, verdict = c
    ops = hist_shrink(b.path(exe), start, env, b, verdict)
    msg = f["message"] if verdict == "hangs" else hist_replay(b.path(exe), ops, env, b)[1]
    return violation(prop, {"driver": exe, "key": "history", "ops": ops, "original_ops": f["ops"], "run": label,
                            "op_fields": "format(0 float) bits(hex) mode crs form env"}, cov, "%s, %d calls: %s" % (label, len(ops), msg))


# ---------------------------------------------------------------- C17: builds
MSVC = ["-I" + os.path.join(CORE, "msvc")]
VARIANTS = [  # name, compiler, flags, required to build
    ("gcc -O2", "g++", ["-O2"], True),
    ("gcc -O0", "g++", ["-O0"], True),
    ("gcc -O3 -DNDEBUG -std=gnu++17", "g++", ["-O3", "-DNDEBUG", "-std=gnu++17"], True),
    ("gcc -Os -std=c++23 -funsigned-char", "g++", ["-Os", "-std=c++23", "-funsigned-char"], False),
    ("gcc -Ofast -march=native", "g++", ["-Ofast", "-march=native"], False),
    ("gcc -O1 -fno-inline -fno-exceptions -fno-rtti", "g++", ["-O1", "-fno-inline", "-fno-exceptions", "-fno-rtti", "-D_GLIBCXX_ASSERTIONS"], False),
    ("clang -O2", "clang++", ["-O2"], True),
    ("clang -O3 -DNDEBUG -std=c++20", "clang++", ["-O3", "-DNDEBUG", "-std=c++20"], False),
    ("gcc -m32 SSE2", "g++", ["-m32", "-O2", "-msse2", "-mfpmath=sse"], True),
    ("gcc -m32 x87 -O3", "g++", ["-m32", "-O3"], True),
    ("clang -m32 -O2", "clang++", ["-m32", "-O2"], False),
    ("gcc portable 64-bit", "g++", ["-O2", "-DSUT_PORTABLE"], False),
    ("clang portable 64-bit", "clang++", ["-O2", "-DSUT_PORTABLE"], False),
    ("gcc x86-64 without __int128", "g++", ["-O2", "-DSUT_NO_INT128"], False),
    ("MSVC x64 paths, emulated intrinsics", "g++", ["-O2", "-DSUT_MSVC=64"] + MSVC, False),
    ("MSVC x86 paths, emulated intrinsics", "g++", ["-O2", "-DSUT_MSVC=32"] + MSVC, False),
]


def variant_exe(i):
    return "var%d" % i


def build_variants(b, which=None):
    """-> indices that were built, notes on those that were not"""
    jobs, done, notes = [], [], {}
    for i, (name, cc, fl, req) in enumerate(VARIANTS):
        if which is not None and i not in which:
            continue
        t = "v%d" % i
        jobs += [u for u in conv_units(t, fl, cc) if "_signed_" in u[0]]
        jobs += [(t + "_d.o", os.path.join(CORE, "driver_var.cpp"), fl, cc),
                 (t + "_fpc.o", os.path.join(REPO, "fp_to_chars/fp_to_chars.cpp"), fl + ["-include", os.path.join(CORE, "env.hpp")], cc)]
    bad = set(b.compile(jobs))
    for i, (name, cc, fl, req) in enumerate(VARIANTS):
        if which is not None and i not in which:
            continue
        objs = [j[0] for j in jobs if j[0].startswith("v%d_" % i)]
        broken = [o for o in objs if o in bad]
        m32 = ["-m32"] if "-m32" in fl else []
        if not broken and b.link(variant_exe(i), objs, m32, cc):
            done.append(i)
            continue
        err = b.failed.get(broken[0] if broken else variant_exe(i), "")
        if req:
            raise Inconclusive("configuration %s does not build: %s" % (name, err))
        notes[name] = "not built: " + err[:300]
    return done, notes


def var_show(b, i, fmt, bits):
    try:
        r = sh([b.path(variant_exe(i)), "show", fmt, bits], timeout=30)
    except subprocess.TimeoutExpired:
        return "does not end"
    return r.stdout if r.returncode == 0 else r.stdout + "\nended with status %d: %s" % (r.returncode, report_line(r.stderr))


def var_diff(b, i, j, fmt, bits):
    x, y = var_show(b, i, fmt, bits), var_show(b, j, fmt, bits)
    if x == y:
        return None
    for p, q in zip(x.splitlines(), y.splitlines()):
        if p != q:
            return "%s: %s | %s: %s" % (VARIANTS[i][0], p, VARIANTS[j][0], q)
    return "%s and %s differ" % (VARIANTS[i][0], VARIANTS[j][0])


def var_violation(prop, b, cov, i, j, fm, bi):
    fmt = "f32" if fm == 0 else "f64"
    w = 32 if fm == 0 else 64
    p, eb = (23, 8) if fm == 0 else (52, 11)
    tok = lambda v: "%0*x" % (w // 4, v)
    for _ in range(3):
        if var_diff(b, i, j, fmt, tok(bi)) is None:
            raise Inconclusive("builds %s and %s differed once on %s" % (VARIANTS[i][0], VARIANTS[j][0], tok(bi)))
    best = bi
    inf = ((1 << eb) - 1) << p
    end = time.time() + 60
    for c in [1 << (w - 1)] + [1 << t for t in range(p - 1, -1, -1)]:
        t = best & ~c
        if best & c and (0 < (t & ((1 << (w - 1)) - 1)) < inf) == (0 < (best & ((1 << (w - 1)) - 1)) < inf) and time.time() < end and var_diff(b, i, j, fmt, tok(t)):
            best = t
    msg = "%s 0x%s: %s" % ("float" if fm == 0 else "double", tok(best), var_diff(b, i, j, fmt, tok(best)))
    return violation(prop, {"driver": "variants", "key": tok(best), "fmt": fmt, "bits": tok(best), "original_bits": tok(bi), "variants": [i, j]}, cov, msg)


def check_var(prop):
    import array
    b = Build()
    try:
        with cf.ThreadPoolExecutor(1) as ex:
            fut = ex.submit(build_variants, b)
            build_cases(b)
            built, notes = fut.result()
        k = 0.22 if TIER == "quick" else 8.0
        parts = 8 if TIER == "quick" else 64
        w = {UNIFORM: 1.5, PATTERN: 2, DECIMAL: 1.5, DYADIC: 2, FIVES: 2, HARD: 4, EXTREME: 0.3, SHORT: 1, DIGITS: 0.5}
        cov = {"values": 0, "evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0, "samples": [], "sources": [],
               "configurations": [VARIANTS[i][0] for i in built], "configurations_not_built": notes,
               "rule": "a value is one case, evaluated in every configuration (70 mode/setting combinations and three texts each); an evaluation is one case in one configuration; non-trivial as for C01, or constructed to lie next to a decision point; distinct within each of the %d generator streams" % parts}

        def gen(c):
            src = classes("f64", {x: M(n * k / 8) for x, n in w.items()}) + classes("f32", {x: M(n * k / 16) for x, n in w.items()})
            src += ["special:f64:0:%d" % M(0.1 * k / 8), "special:f32:0:%d" % M(0.1 * k / 8), "anybits:f32:0:%d" % M(0.1 * k / 8)]
            if c == 0:
                src += [CORPUS % "f32", CORPUS % "f64"] + mined(b, 2)
            if c % 8 == 1:
                src += ["hardest:f64:0:%d" % (1 if TIER == "quick" else 4), "hardest:f32:0:2"]
            r = sh([b.path("cases"), str(SEED * 1000 + c), b.path("cases.%d" % c)] + src)
            if r.returncode:
                raise Inconclusive("case generation failed: " + r.stderr[-500:])
            return json.loads(r.stdout)

        bad = []

        def run(t):
            i, c = t
            out = b.path("out.%d.%d" % (i, c))
            if bad:  # one configuration has failed: the rest need not be run
                return i, c, out, None
            rc, _ = watched([b.path(variant_exe(i)), "hash", b.path("cases.%d" % c), out], lambda: filled(out))
            if rc != 0:
                bad.append(i)
            return i, c, out, rc
        deadline = T0 + (500 if TIER == "quick" else 4 * 3600)
        for base in range(0, parts, 8):
            if time.time() > deadline:
                cov["complete"] = False
                break
            cs = range(base, min(base + 8, parts))
            with cf.ThreadPoolExecutor(CPUS) as ex:
                for c, g in zip(cs, ex.map(gen, cs)):
                    for x in ("values", "nontrivial", "distinct_nontrivial"):
                        cov[x] += g[x]
                    if c < 2:
                        cov["sources"] += [dict(s, stream=c) for s in g["sources"]]
                outs = {}
                for i, c, out, rc in ex.map(run, [(i, c) for c in cs for i in built]):
                    outs[i, c] = (out, rc)
            for c in cs:
                cases = array.array("Q")
                cases.frombytes(open(b.path("cases.%d" % c), "rb").read())
                ref_ = None
                for i in built:
                    out, rc = outs[i, c]
                    if rc is None:
                        continue
                    h = array.array("Q")
                    h.frombytes(open(out, "rb").read())
                    if len(h) != len(cases) // 2:
                        raise Inconclusive("%s wrote %d digests for %d cases (status %s)" % (VARIANTS[i][0], len(h), len(cases) // 2, rc))
                    if rc != 0:  # died at the first case without a digest
                        if 0 not in h:
                            raise Inconclusive("%s ended with status %s" % (VARIANTS[i][0], rc))
                        at = h.index(0)
                        fmt, tok = ("f32", "%08x") if cases[2 * at] == 0 else ("f64", "%016x")
                        mine = var_show(b, i, fmt, tok % cases[2 * at + 1])
                        other = next((x for x in built if x != i and var_show(b, x, fmt, tok % cases[2 * at + 1]) != mine), None)
                        if other is None:
                            raise Inconclusive("no configuration converts %s: status %s" % (tok % cases[2 * at + 1], rc))
                        return var_violation(prop, b, cov, other, i, cases[2 * at], cases[2 * at + 1])
                    cov["evaluations"] += len(h)
                    if ref_ is None:
                        ref_, first = h, i
                    elif h != ref_:
                        at = next(x for x in range(len(h)) if h[x] != ref_[x])
                        return var_violation(prop, b, cov, first, i, cases[2 * at], cases[2 * at + 1])
                if len(cov["samples"]) < 6:
                    at = len(cases) // 4 * 2
                    fmt = "f32" if cases[at] == 0 else "f64"
                    tok = ("%08x" if cases[at] == 0 else "%016x") % cases[at + 1]
                    cov["samples"].append("%s 0x%s: all configurations give %s" % (fmt, tok, var_show(b, first, fmt, tok).splitlines()[1]))
                for i in built:
                    os.unlink(outs[i, c][0])
                os.unlink(b.path("cases.%d" % c))
        write_evidence(prop, cov, assumptions=["emulated intrinsics behave as documented by their vendor", "configurations that this compiler cannot emulate are listed as not built"])
        print("%s: %d configurations agree on %d cases (%d distinct non-trivial) in %.1f s" % (prop, len(built), cov["values"], cov["distinct_nontrivial"], time.time() - T0))
        return 0
    finally:
        b.close()


# ---------------------------------------------------------------- C18: sanitizers
FORCE_ENV = ["-include", os.path.join(CORE, "env.hpp")]
SAN = [  # name, compiler, flags, required to build
    ("gcc ASan+UBSan, assertions", "g++", ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"], True),
    ("clang ASan+UBSan+local-bounds, assertions", "clang++", ["-O1", "-g1", "-fsanitize=address,undefined,local-bounds", "-fno-sanitize-recover=all"], True),
    ("clang MSan, assertions", "clang++", ["-O1", "-g1", "-fsanitize=memory", "-fno-sanitize-recover=all"], True),
    ("gcc -m32 UBSan, assertions", "g++", ["-m32", "-O1", "-g1", "-fsanitize=undefined", "-fno-sanitize-recover=all"], False),
    ("gcc portable 64-bit ASan+UBSan, assertions", "g++", ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DSUT_PORTABLE"], False),
    ("gcc x86-64 without __int128 ASan+UBSan, assertions", "g++", ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DSUT_NO_INT128"], False),
    ("gcc -O3, assertions", "g++", ["-O3", "-D_GLIBCXX_ASSERTIONS"], True),
]
FUZZ_SAN = ["-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
SAN_ENV = dict(os.environ, ASAN_OPTIONS="exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0:exitcode=77",
               MSAN_OPTIONS="exitcode=77")


def build_san(b, which=None):
    jobs, done, notes = [], [], {}
    pick = [i for i in range(len(SAN)) if which is None or i in which]
    for i in pick:
        name, cc, fl, req = SAN[i]
        t = "s%d" % i
        jobs += conv_units(t, fl, cc) + [u[:2] + (u[2] + (FORCE_ENV if u[0].endswith("fpc.o") else []), u[3]) for u in text_units(t, fl, cc)]
        jobs.append((t + "_d.o", os.path.join(CORE, "driver_san.cpp"), fl, cc))
    bad = set(b.compile(jobs))
    for i in pick:
        name, cc, fl, req = SAN[i]
        objs = [j[0] for j in jobs if j[0].startswith("s%d_" % i)]
        broken = [o for o in objs if o in bad]
        if not broken and b.link("san%d" % i, objs, [f for f in fl if "sanitize" in f or f == "-m32"], cc):
            done.append(i)
            continue
        err = b.failed.get(broken[0] if broken else "san%d" % i, "")
        if req:
            raise Inconclusive("%s does not build: %s" % (name, err))
        notes[name] = "not built: " + err[:300]
    return done, notes


def san_one(b, i, fmt, bits):
    """'ok', 'dies' or 'hangs', and the report"""
    try:
        r = sh([b.path("san%d" % i), "one", fmt, bits], env=SAN_ENV, timeout=30)
    except subprocess.TimeoutExpired:
        return "hangs", "does not end"
    return ("ok", "") if r.returncode == 0 else ("dies", "status %d: %s" % (r.returncode, report_line(r.stderr)))


def san_violation(prop, b, cov, i, fm, bi):
    fmt, w, p = ("f32", 32, 23) if fm == 0 else ("f64", 64, 52)
    tok = lambda v: "%0*x" % (w // 4, v)
    v = [san_one(b, i, fmt, tok(bi))[0] for _ in range(3)]
    if v[0] == "ok" or len(set(v)) != 1:
        return None
    best, end = bi, time.time() + 60
    if v[0] == "dies":
        for c in [1 << (w - 1)] + [1 << t for t in range(p - 1, -1, -1)]:
            if best & c and time.time() < end and san_one(b, i, fmt, tok(best & ~c))[0] == "dies":
                best &= ~c
    msg = "%s: %s 0x%s: %s" % (SAN[i][0], "float" if fm == 0 else "double", tok(best), san_one(b, i, fmt, tok(best))[1])
    return violation(prop, {"driver": "san", "key": tok(best), "fmt": fmt, "bits": tok(best), "original_bits": tok(bi), "build": i}, cov, msg)


def san_sequence(b, i, cases, rng):
    """Runs cases[rng] in one process -> None, or what happened and at which case of the sequence"""
    import array
    p, j = b.path("seq.%d" % i), b.path("seqj.%d" % i)
    with open(p, "wb") as f:
        array.array("Q", [x for c in cases for x in c]).tofile(f)
    rc, err = watched([b.path("san%d" % i), "run", p, j, "0", str(len(cases)), str(rng)], lambda: file_bytes(j, 16), env=SAN_ENV)
    os.unlink(p)
    if rc == 0:
        return None
    return ("does not end" if rc == "hang" else "status %s: %s" % (rc, report_line(err))), struct.unpack("<QQ", file_bytes(j, 16))[0]


def san_history(prop, b, cov, i, cases, at, seed):
    """the case fails only after others: the shortest tail of the run before it that fails twice, then thinned out"""
    one = lambda t: (cases[2 * t], cases[2 * t + 1])
    k, seq, got = 2, None, None
    while True:
        k = min(k, at + 1)
        t = [one(x) for x in range(at + 1 - k, at + 1)]
        got = san_sequence(b, i, t, seed)
        if got:
            seq = t[:got[1] + 1]
            break
        if k == at + 1:
            return None
        k *= 4
    got = san_sequence(b, i, seq, seed)
    if not got:
        return None
    size, end = len(seq) // 2, time.time() + 90
    while size and time.time() < end and "does not end" not in got[0]:
        x = 0
        while x < len(seq) - 1 and time.time() < end:
            t = seq[:x] + seq[x + size:] if x + size < len(seq) else seq[:x] + seq[-1:]
            g = san_sequence(b, i, t, seed)
            if g and len(t) < len(seq):
                seq, got = t[:g[1] + 1], g
            else:
                x += size
        size //= 2
    tok = lambda c: "%s 0x%0*x" % (("float", 8, c[1]) if c[0] == 0 else ("double", 16, c[1]))
    msg = "%s: %s, after %d other conversions (alone it is fine): %s" % (SAN[i][0], tok(seq[-1]), len(seq) - 1, got[0])
    return violation(prop, {"driver": "san_run", "key": "%016x-after-%d" % (seq[-1][1], len(seq) - 1), "build": i, "run_seed": seed, "cases": [[c[0], "%x" % c[1]] for c in seq]}, cov, msg)


def shuffle_cases(src, dst, seed):
    """the pairs of 64-bit words in random order"""
    import array
    import random
    a = array.array("Q")
    a.frombytes(open(src, "rb").read())
    order = list(range(len(a) // 2))
    random.Random(seed).shuffle(order)
    out = array.array("Q", bytes(len(a) * 8))
    out[0::2] = array.array("Q", [a[2 * x] for x in order])
    out[1::2] = array.array("Q", [a[2 * x + 1] for x in order])
    with open(dst, "wb") as f:
        out.tofile(f)


def build_cases(b):
    b.need(b.compile([("cases.o", os.path.join(CORE, "cases.cpp"), ["-O2"])]))
    if not b.link("cases", ["cases.o"]):
        raise Inconclusive(b.failed["cases"])


def check_san(prop):
    import array
    b = Build()
    try:
        with cf.ThreadPoolExecutor(1) as ex:
            other = ex.submit(lambda: b.compile(fuzz_units("san", FUZZ_SAN)))
            build_cases(b)
            built, notes = build_san(b)
            b.fuzz = fuzz_built(b, "san", other.result(), FUZZ_SAN)
        k = 1.0 if TIER == "quick" else 60.0
        parts = 8 if TIER == "quick" else 240
        w = {UNIFORM: 0.15, PATTERN: 0.2, DECIMAL: 0.2, DYADIC: 0.3, FIVES: 0.3, HARD: 0.4, EXTREME: 0.1, SHORT: 0.1, DIGITS: 0.1}
        cov = {"values": 0, "evaluations": 0, "single_calls_in_random_order": 0, "nontrivial": 0, "distinct_nontrivial": 0, "samples": [], "sources": [], "builds": [SAN[i][0] for i in built], "builds_not_made": notes,
               "rule": "a bit pattern is one case, run in every build (all 70 signed conversions, a quarter of the unsigned ones, text by 4 calls into exact-size buffers, all inspection functions); an evaluation is one case in one build; non-trivial as for C01, or a zero, infinity or NaN; distinct within each of the %d generator streams" % parts}
        SINGLE = SEED | 1 << 63  # one call for each case, the cases of a part in random order
        name_of = lambda c, seed: "%d%s" % (c, "s" if seed == SINGLE else "")
        journal = lambda i, c, seed: b.path("j.%d.%s" % (i, name_of(c, seed)))
        bad = []

        def gen(c):
            per = 1.0 / 8 * k / (parts / 8)
            src = classes("f64", {x: max(1, M(n * per)) for x, n in w.items()}) + classes("f32", {x: max(1, M(n * per / 2)) for x, n in w.items()})
            src += ["special:f64:0:%d" % M(0.1 * per), "special:f32:0:%d" % M(0.05 * per), "anybits:f64:0:%d" % M(0.1 * per), "anybits:f32:0:%d" % M(0.1 * per)]
            if c == 0:
                src += [CORPUS % "f32", CORPUS % "f64", "hardest:f64:0:1", "hardest:f32:0:1"] + mined(b, 8)
            r = sh([b.path("cases"), str(SEED * 1000 + 500 + c), b.path("cases.%d" % c)] + src)
            if r.returncode:
                raise Inconclusive("case generation failed: " + r.stderr[-500:])
            return json.loads(r.stdout)

        def run(t):
            i, c, n, seed = t
            if bad:  # one build has failed: the rest need not be run
                return t, None, ""
            j = journal(i, c, seed)
            rc, err = watched([b.path("san%d" % i), "run", b.path("cases.%s" % name_of(c, seed)), j, "0", str(n), str(seed)], lambda: file_bytes(j, 16), env=SAN_ENV)
            if rc != 0:
                bad.append(i)
            return t, rc, err
        deadline = T0 + (450 if TIER == "quick" else 4 * 3600)
        for base in range(0, parts, 8):
            if time.time() > deadline:
                cov["complete"] = False
                break
            cs = range(base, min(base + 8, parts))
            with cf.ThreadPoolExecutor(CPUS) as ex:
                size = {}
                for c, g in zip(cs, ex.map(gen, cs)):
                    size[c] = g["values"]
                    for x in ("values", "nontrivial", "distinct_nontrivial"):
                        cov[x] += g[x]
                    if c < 1:
                        cov["sources"] += g["sources"]
                for c in cs:
                    shuffle_cases(b.path("cases.%d" % c), b.path("cases.%ds" % c), SEED * 1000 + c)
                for (i, c, n, seed), rc, err in ex.map(run, [(i, c, size[c], seed) for seed in (SINGLE, SEED) for c in cs for i in built]):
                    if rc is None:
                        continue
                    cov["evaluations" if seed == SEED else "single_calls_in_random_order"] += n
                    if rc == 0:
                        continue
                    at, st = struct.unpack("<QQ", file_bytes(journal(i, c, seed), 16).ljust(16, b"\0"))
                    if st != 1:
                        raise Inconclusive("%s ended with status %s before its first case: %s" % (SAN[i][0], rc, report_line(err)))
                    cases = array.array("Q")
                    cases.frombytes(open(b.path("cases.%s" % name_of(c, seed)), "rb").read())
                    v = san_violation(prop, b, cov, i, cases[2 * at], cases[2 * at + 1])
                    if v is None:
                        v = san_history(prop, b, cov, i, cases, at, seed)
                    if v is not None:
                        return v
                    raise Inconclusive("%s ended with status %s in case %d (%x), which alone is fine: %s" % (SAN[i][0], rc, at, cases[2 * at + 1], report_line(err)))
            for c in cs:
                if len(cov["samples"]) < 6:
                    cases = array.array("Q")
                    cases.frombytes(open(b.path("cases.%d" % c), "rb").read())
                    at = (len(cases) // 2 * (c + 1) // 9) * 2
                    cov["samples"].append("%s 0x%x: no report in %d builds" % ("float" if cases[at] == 0 else "double", cases[at + 1], len(built)))
                os.unlink(b.path("cases.%d" % c))
                os.unlink(b.path("cases.%ds" % c))
        c, f = {}, None
        if b.fuzz:
            c, f = run_fuzz(b, "san", "C18", 5_000 if TIER == "quick" else 1_000_000, 90 if TIER == "quick" else 7200, SAN_ENV)
        else:
            cov["builds_not_made"]["coverage-guided"] = b.failed.get("fuzz_san", "")[:300]
        if f:
            return violation(prop, dict({"driver": "fuzz_san", "args": ["C18"], "key": f["bits"]}, **f), cov, "clang ASan+UBSan, coverage-guided: " + f["message"])
        for x in ("values", "evaluations", "nontrivial", "distinct_nontrivial"):
            cov[x] += c.get(x, 0)
        cov["sources"] += c.get("sources", [])
        write_evidence(prop, cov, assumptions=["undefined behaviour is what ASan, UBSan and MSan of these compilers detect", "termination: within 30 s alone"])
        print("%s: no report on %d cases in %d builds (%d distinct non-trivial) in %.1f s" % (prop, cov["values"], len(built), cov["distinct_nontrivial"], time.time() - T0))
        return 0
    finally:
        b.close()


# ---------------------------------------------------------------- C19, C20, C21: internal helpers
CONSTEXPR = {"g++": ["-fconstexpr-ops-limit=4000000000", "-fconstexpr-loop-limit=100000000"], "clang++": ["-fconstexpr-steps=2000000000"]}
HELP = [  # name, compiler, flags
    ("gcc", "g++", ["-O2"]),
    ("clang", "clang++", ["-O2"]),
    ("gcc -m32", "g++", ["-m32", "-O2"]),
    ("gcc portable 64-bit", "g++", ["-O2", "-DSUT_PORTABLE"]),
    ("gcc x86-64 without __int128", "g++", ["-O2", "-DSUT_NO_INT128"]),
    ("MSVC x64 paths, emulated intrinsics", "g++", ["-O2", "-DSUT_MSVC=64"] + MSVC),
    ("MSVC x86 paths, emulated intrinsics", "g++", ["-O2", "-DSUT_MSVC=32"] + MSVC),
    ("gcc -O0", "g++", ["-O0"]),
    ("clang portable 64-bit -O3", "clang++", ["-O3", "-DSUT_PORTABLE"]),
]


def build_help(b, which, helpers):
    """-> {configuration: helpers that compiled there}"""
    jobs = []
    for i in which:
        name, cc, fl = HELP[i]
        m32 = [f for f in fl if f == "-m32"]
        jobs.append(("hd%d.o" % i, os.path.join(CORE, "driver_help.cpp"), ["-O2"] + m32))
        for h in helpers:
            jobs.append(("h%d_%d.o" % (i, h), os.path.join(CORE, "helper.cpp"), fl + CONSTEXPR[cc] + ["-DHELPER=%d" % h, "-DHELPER_SYMBOL=set_%d" % h], cc))
    bad = b.compile(jobs)
    again = [j[:2] + (j[2] + ["-DFORM=1"],) + j[3:] for j in jobs if j[0] in bad and j[0].split("_")[-1] in ("20.o", "21.o")]
    bad2 = set(b.compile(again)) if again else set()
    missing = (set(bad) - {j[0] for j in again}) | bad2
    r = {}
    for i in which:
        if "hd%d.o" % i in missing:
            raise Inconclusive("the driver does not build: " + b.failed["hd%d.o" % i])
        have = [h for h in helpers if "h%d_%d.o" % (i, h) not in missing]
        fl = [f for f in HELP[i][2] if f == "-m32"]
        if not b.link("help%d" % i, ["hd%d.o" % i] + ["h%d_%d.o" % (i, h) for h in have], fl, HELP[i][1]):
            raise Inconclusive(b.failed["help%d" % i])
        r[i] = have
    return r


def help_run(exe, args, timeout=1200):
    """(result or None, failure or None)"""
    try:
        r = sh([exe] + args, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive("%s %s did not end" % (exe, args))
    lines = [x for x in r.stdout.splitlines() if x.startswith("{")]
    if not lines:
        raise Inconclusive("%s %s ended with status %s: %s" % (exe, args, r.returncode, report_line(r.stderr)))
    d = json.loads(lines[-1])
    if "died" in d:
        x = d["died"]
        return d, {"helper": x["helper"], "operands": x["operands"], "message": "%s(%s) ends the process: %s" % (x["helper"], ", ".join(x["operands"]), report_line(r.stderr))}
    return d, d.get("failure")


def help_shrink(exe, f):
    """clear bits of the operands while the helper keeps failing"""
    ops = [int(x, 16) for x in f["operands"]]
    if "log" in f["helper"] or "table" in f["helper"]:
        return f
    end = time.time() + 60
    for i in range(len(ops)):
        if f["helper"].startswith("divisible") and i == 1:
            continue
        for bit in range(63, -1, -1):
            if ops[i] >> bit & 1 and time.time() < end:
                t = list(ops)
                t[i] &= ~(1 << bit)
                if f["helper"].startswith("divisible") and t[0] == 0:
                    continue
                try:
                    _, g = help_run(exe, ["one", f["helper"]] + [hex(x) for x in t], 60)
                except Inconclusive:
                    continue
                if g:
                    ops, f = t, g
    return f


def const_stop(b, i, h, rng):
    """where constant evaluation of helper h stops; None if even e = 0 is not a constant expression"""
    name, cc, fl = HELP[i]

    def ok(lo, hi):
        return not b.compile([("probe.o", os.path.join(CORE, "helper.cpp"), fl + CONSTEXPR[cc] + ["-DHELPER=%d" % h, "-DHELPER_SYMBOL=set_%d" % h, "-DLO=(%d)" % lo, "-DHI=(%d)" % hi], cc)])
    if not ok(0, 0):
        return None
    for sign in (1, -1):
        if ok(min(0, sign * rng), max(0, sign * rng)):
            continue
        lo, hi = 0, rng  # [0, lo] is fine, [0, hi] is not
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if ok(min(0, sign * mid), max(0, sign * mid)):
                lo = mid
            else:
                hi = mid
        if not ok(sign * hi, sign * hi):
            return sign * hi
    return None


def help_violation(prop, b, cov, i, f):
    exe = b.path("help%d" % i)
    for _ in range(3):
        if not help_run(exe, ["one", f["helper"]] + f["operands"])[1]:
            raise Inconclusive("did not fail again: " + f["message"])
    f = help_shrink(exe, f)
    return violation(prop, {"driver": "helper", "key": re.sub(r"[^a-z0-9]+", "-", f["helper"]) + "-" + "-".join(f["operands"]), "configuration": i, "helper": f["helper"], "operands": f["operands"]},
                     cov, "%s: %s" % (HELP[i][0], f["message"]))


def check_help(prop):
    b = Build()
    try:
        cov = {"values": 0, "evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0, "samples": [], "helpers": {}}
        assume = []
        if prop == "C19":
            which, helpers, args = [0, 1, 2, 7], list(range(1, 10)), ["logs"]
            cov["rule"] = "an argument of a helper, in one of its three uses and one configuration, is one case; all of each documented range, at run time, in constant evaluation and without the range assertion; non-trivial: |e| > 1"
            cov["bounds"] = "complete: |e| <= 1650, 642, 65536"
        elif prop == "C20":
            which, helpers, args = [0, 1, 2, 3, 5], [20, 21], ["tables"]
            cov["rule"] = "a table entry as compiled in one configuration is one case (all of both tables), non-trivial each; and a floating-point value is one case of the conversion part, non-trivial as for C01"
        else:
            which, helpers = list(range(len(HELP))), list(range(10, 20))
            args = ["arith", str(SEED), str(6_000_000 if TIER == "quick" else 600_000_000)]
            cov["rule"] = "an operand tuple of a helper is one case; non-trivial: the result needs the upper half, a carry crosses the middle (or just does not), or the number is divisible at all; distinct counted up to 400000 per helper and configuration"
            assume = ["__int128, schoolbook multiplication and repeated division are the reference"]
        if prop == "C20":
            with cf.ThreadPoolExecutor(1) as ex:
                other = ex.submit(build_dec, b)
                have = build_help(b, which, helpers)
                other.result()
        else:
            have = build_help(b, which, helpers)
        examined = 0
        with cf.ThreadPoolExecutor(CPUS) as ex:
            own = lambda i: [args[0], str(SEED * 100 + i)] + args[2:] if prop == "C21" else args
            res = list(ex.map(lambda i: (i, *help_run(b.path("help%d" % i), own(i), 900 if TIER == "quick" else 20000)), which))
        for i, d, f in res:
            if f:
                return help_violation(prop, b, cov, i, f)
            cov["helpers"][HELP[i][0]] = d["items"]
            for x, y in (("values", "cases"), ("evaluations", "cases"), ("nontrivial", "nontrivial"), ("distinct_nontrivial", "distinct_nontrivial")):
                cov[x] += d[y]
            examined += d["cases"]
            if i == which[0]:
                cov["samples"] += d["samples"]
        if prop == "C19":
            for i in which:
                for h, rng in ((4, 1650), (5, 642), (6, 65536)):
                    if h in have[i] or h - 3 not in have[i]:
                        continue
                    at = const_stop(b, i, h, rng)
                    if at is not None:
                        name = {4: "floor_log10_pow2", 5: "floor_log2_pow10", 6: "floor_log5_pow2"}[h]
                        return violation(prop, {"driver": "constexpr", "key": "%s-%d" % (name, at), "configuration": i, "helper_number": h, "argument": at}, cov,
                                         "%s: %s(%d) is not a constant expression, though %d is in the documented range and 0 is one" % (HELP[i][0], name, at, at))
        if prop == "C20" or examined == 0:
            if "dec" not in [x for x in os.listdir(b.dir)]:
                build_dec(b)
            s = 1.0 if TIER == "quick" else 60.0
            src = ["hardest:f64:0:%d" % int(60 * s), "hardest:f32:0:%d" % int(120 * s), "class:f64:%d:%d" % (HARD, M(12 * s)), "class:f32:%d:%d" % (HARD, M(4 * s)),
                   "class:f64:%d:%d" % (FIVES, M(1 * s)), "class:f64:%d:%d" % (EXTREME, M(0.5 * s)), CORPUS % "f32", CORPUS % "f64"] + mined(b)
            d, f = run_driver(b, "dec", ["C20"], src)
            if f:
                cov["rule"] = cov.get("rule", "")
                return violation(prop, dict({"driver": "dec", "args": ["C20"], "key": f["bits"]}, **f), cov, f["message"])
            add_coverage(cov, d)
            assume = assume + DEC_ASSUME
        write_evidence(prop, cov, level="exploration", assumptions=assume)
        print("%s: held on %d cases (%d distinct non-trivial) in %d configurations in %.1f s" % (prop, cov["values"], cov["distinct_nontrivial"], len(which), time.time() - T0))
        return 0
    finally:
        b.close()


# ---------------------------------------------------------------- C22: call forms
def build_forms(b):
    """-> groups of call forms that did not build, {} if all did"""
    u = conv_units("n", ["-O1"]) + text_units("n", ["-O1"])
    jobs = u + [("formsd.o", os.path.join(CORE, "driver_forms.cpp"), ["-O2"])]
    groups = []
    for g in range(1, 7):
        for f, n in (("float", "f32"), ("double", "f64")):
            groups.append(("forms_%d_%s.o" % (g, n), os.path.join(CORE, "forms.cpp"), ["-O1", "-DGROUP=%d" % g, "-DSUT_FLOAT=" + f, "-DSUT_NAME=forms_%d_%s" % (g, n)]))
    bad = set(b.compile(groups + jobs))
    b.need([x[0] for x in jobs if x[0] in bad])
    good = [x[0] for x in groups if x[0] not in bad]
    if not b.link("forms", ["formsd.o"] + good + [x[0] for x in u]):
        raise Inconclusive(b.failed["forms"])
    return {x[0]: b.failed[x[0]] for x in groups if x[0] in bad}


def check_forms(prop):
    b = Build()
    try:
        bad = build_forms(b)
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "rule": RULES[prop]}
        if bad:  # the plain calls built, these did not
            name, err = sorted(bad.items())[0]
            m = re.search(r"error: .*", err)
            return violation(prop, {"driver": "forms-build", "key": name, "object": name, "errors": err}, cov, "a documented way of calling does not compile (%s): %s" % (name, m.group(0) if m else err[:300]))
        r = sh([b.path("forms"), "default-handler"], timeout=300)
        if not r.stdout.startswith("{"):
            raise Inconclusive("default-handler: status %s %s" % (r.returncode, report_line(r.stderr)))
        d = json.loads(r.stdout)
        cov["default_handler_stops_non_finite"] = d["tried"]
        if d["failure"]:
            return violation(prop, {"driver": "forms-default", "key": "default-handler"}, cov, d["failure"])
        k = 0.5 if TIER == "quick" else 40
        w = {UNIFORM: 0.5, PATTERN: 0.4, DECIMAL: 0.5, DYADIC: 1.2, FIVES: 1.2, HARD: 0.6, EXTREME: 0.2, SHORT: 0.2, DIGITS: 0.4}
        src = classes("f64", {c: M(n * k) for c, n in w.items()}) + classes("f32", {c: M(n * k / 2) for c, n in w.items()}) + [CORPUS % "f32", CORPUS % "f64"]
        src += ["special:f64:0:%d" % M(0.1 * k), "special:f32:0:%d" % M(0.1 * k)] + mined(b)
        d, f = run_driver(b, "forms", [prop], src)
        add_coverage(cov, d)
        return result(prop, cov, f, {"driver": "forms", "args": [prop]}, ["the plain call with temporaries is the reference (its correctness is C01-C13)"])
    finally:
        b.close()


RULES["C22"] = "a value is one case, an evaluation is one call in one of 44 forms (4 of the mode/setting combinations of each form per value, chosen by hash); non-trivial: the value has different results in different modes or settings, so that a lost or exchanged argument would show"

CHECKS = {p: check_dec for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10")}
CHECKS.update({p: check_text for p in ("C11", "C12", "C13", "C15")})
CHECKS["C14"] = check_bits
CHECKS["C16"] = check_hist
CHECKS["C17"] = check_var
CHECKS["C18"] = check_san
CHECKS["C22"] = check_forms
CHECKS.update({p: check_help for p in ("C19", "C20", "C21")})
BUILDERS = {"dec": build_dec, "text": build_text, "bits": build_bits, "forms": build_forms}


def replay(path):
    r = json.load(open(path))
    b = Build()
    try:
        if r["driver"].startswith("hist_") or r["driver"] == "fuzz_hist":
            if r["driver"] == "fuzz_hist":
                b.need(b.compile(fuzz_units("hist")))
                fuzz_link(b, "hist")
                env = None
            elif r["driver"] == "hist_n":
                hist_build(b, "n", ["-O2"])
                env = make_locale(b) if "locale" in r.get("run", "") else None
            else:
                hist_build(b, "t", ["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"])
                env = dict(os.environ, TSAN_OPTIONS="exitcode=66:halt_on_error=1")
            if "command" in r:
                x = sh([b.path(r["driver"])] + r["command"], env=env)
                print("%s: status %d %s" % (r["property"], x.returncode, report_line(x.stderr) if x.returncode else ""))
                return 0 if x.returncode == 0 else 1
            v, msg = hist_replay(b.path(r["driver"]), r["ops"], env, b)
            print("%s: %s %s" % (r["property"], v, msg))
            return 0 if v == "ok" else 1
        if r["driver"] == "variants":
            build_variants(b, r["variants"])
            msg = var_diff(b, r["variants"][0], r["variants"][1], r["fmt"], r["bits"])
            print("%s: %s" % (r["property"], msg or "ok"))
            return 1 if msg else 0
        if r["driver"] == "forms-build":
            bad = build_forms(b)
            print("%s: %s" % (r["property"], bad.get(r["object"], "ok")))
            return 1 if r["object"] in bad else 0
        if r["driver"] == "forms-default":
            build_forms(b)
            x = sh([b.path("forms"), "default-handler"])
            print("%s: %s" % (r["property"], x.stdout.strip()))
            return x.returncode
        if r["driver"] == "helper":
            i = r["configuration"]
            build_help(b, [i], list(range(1, 22)))
            f = help_run(b.path("help%d" % i), ["one", r["helper"]] + r["operands"])[1]
            print("%s: %s" % (r["property"], f["message"] if f else "ok"))
            return 1 if f else 0
        if r["driver"] == "constexpr":
            name, cc, fl = HELP[r["configuration"]]
            bad = b.compile([("probe.o", os.path.join(CORE, "helper.cpp"), fl + CONSTEXPR[cc] + ["-DHELPER=%d" % r["helper_number"], "-DHELPER_SYMBOL=s", "-DLO=(%d)" % r["argument"], "-DHI=(%d)" % r["argument"]], cc)])
            print("%s: %s" % (r["property"], "not a constant expression" if bad else "ok"))
            return 1 if bad else 0
        if r["driver"] == "bits_const":
            bad = bits_const(b, r["compiler"], r["patterns"])
            print("%s: %s" % (r["property"], bad or "ok"))
            return 1 if bad else 0
        if r["driver"] == "san_run":
            build_san(b, [r["build"]])
            x = san_sequence(b, r["build"], [(f, int(v, 16)) for f, v in r["cases"]], r["run_seed"])
            print("%s: %s" % (r["property"], x[0] if x else "ok"))
            return 1 if x else 0
        if r["driver"] == "san":
            build_san(b, [r["build"]])
            v, msg = san_one(b, r["build"], r["fmt"], r["bits"])
            print("%s: %s %s" % (r["property"], v, msg))
            return 0 if v == "ok" else 1
        if r["driver"].startswith("fuzz_"):
            driver = r["driver"][5:]
            san = FUZZ_SAN if driver == "san" else []
            b.need(b.compile(fuzz_units(driver, san)))
            fuzz_link(b, driver, san)
            v, msg = fuzz_replay(b.path(r["driver"]), r["args"][0], r["fmt"], r["bits"], b, SAN_ENV if san else None)
            print("%s: %s %s" % (r["property"], v, msg))
            return 0 if v == "ok" else 1
        BUILDERS[r["driver"]](b)
        if "command" in r:
            j = b.path("journal")
            open(j, "wb").write(b"\0" * 64 * r["command"][1])
            x = sh([b.path(r["driver"])] + r["args"] + ["run", str(r["command"][0]), str(r["command"][1]), j, "0"] + r["command"][2:])
            print("%s: status %d %s" % (r["property"], x.returncode, json.loads(x.stdout)["failure"]["message"] if x.returncode == 1 else ""))
            return 0 if x.returncode == 0 else 1
        v, msg = replay_value(b.path(r["driver"]), r["args"], r["fmt"], r["bits"])
        print("%s: %s %s" % (r["property"], v, msg))
        return 0 if v == "ok" else 1
    finally:
        b.close()


def setup():
    """self-test of the machinery that is trusted: compilers and the exact reference"""
    for cc in ("g++", "clang++"):
        if shutil.which(cc) is None:
            print("missing:", cc)
            return 2
    b = Build()
    try:
        b.need(b.compile([("st.o", os.path.join(CORE, "oracle_dump.cpp"), ["-O2"])]))
        if not b.link("st", ["st.o"]):
            raise Inconclusive(b.failed["st"])
        r = sh([sys.executable, os.path.join(HERE, "tools", "oracle_selftest.py"), b.path("st"), "6000"], timeout=1200)
        print(r.stdout.strip() or r.stderr.strip()[-2000:])
        return 0 if r.returncode == 0 else 2
    finally:
        b.close()


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if sys.argv[1:] == ["setup"]:
        return setup()
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    try:
        return CHECKS[prop](prop)
    except Inconclusive as e:
        print("%s: undecided: %s" % (prop, e), file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
