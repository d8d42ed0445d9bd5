import os, re, struct, subprocess, tempfile
from vk import gen, hostile, lib, build as B
from vk.run import run as run_, pmap

def short(err):
    """The heart of a sanitizer report."""
    t = err.decode("latin-1") if isinstance(err, bytes) else err
    m = re.search(r"(runtime error:[^\n]*|ERROR: AddressSanitizer[^\n]*|WARNING: MemorySanitizer[^\n]*|ERROR: libFuzzer[^\n]*|BAD-TEXT[^\n]*)", t)
    at = re.findall(r"#\d+ \S+ in (\S+) ([^\s]+)", t)[:3]
    return (m.group(1) if m else t[-300:]) + " at " + ", ".join("%s %s" % (a, os.path.basename(b)) for a, b in at)

def site(err):
    t = err.decode("latin-1") if isinstance(err, bytes) else err
    m = re.search(r"([a-z0-9_]+\.c):(\d+)", t)
    return m.group(1) if m else "?"

CANARIES = {"asan": ["heap", "stack", "global", "free", "overflow", "cast", "shift", "null"], "clangasan": ["heap", "stack", "global", "free", "overflow", "cast", "shift", "null"], "msan": ["uninit", "uninitstack"]}
def canaries(c):
    """The instrumented builds do report the defects they are for."""
    for v, ks in CANARIES.items():
        exe = os.path.join(B.build(v), "canary")
        B._sh(B.VARIANTS[v]["cc"].split() + ["-O1", "-g", "-w", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers", "canary.c"), "-o", exe], B.build(v), "canary build")
        for k in ks:
            r = subprocess.run([exe, k], env=dict(B.SAN_ENV, PATH="/usr/bin:/bin"), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if r.returncode != 99: raise B.HarnessError("the %s build does not report a planted %s error (exit %d)" % (v, k, r.returncode))
            c.count("planted errors reported (self-test)")

ORDINARY = (0, 1, 2, 3, 254, 255, 253)
def programs(c):
    rng = c.rng
    for v, n in (("asan", c.n(1500, 9000)), ("msan", c.n(1500, 9000)), ("clangasan", c.n(700, 5000)), ("plain", c.n(1000, 6000))):
        root = tempfile.mkdtemp(dir=B.scratch()); B.build(v)
        J = hostile.jobs(rng, root, n, worlds=c.n(4, 16))
        for j, r in zip(J, pmap(lambda j: run_(j.prog, j.argv, cwd=j.cwd, variant=v, timeout=15 if j.mutated else 120), J)):
            c.ev((v, j.prog, tuple(j.argv), j.cwd)); c.count("%s: %s" % (v, j.kind))
            if r.timeout and j.mutated and j.prog == "sat_visibility": c.count("visibility searches without an end within the limit (no verdict)"); continue
            judge(c, j, r, v)

def judge(c, j, r, v):
    if r.timeout: c.violation("hang:" + j.prog, "%s (%s build) does not end: %s" % (j.prog, v, r.shell()[:1500]), argv=r.argv, file=_file(j)); return
    if r.crashed or r.rc not in ORDINARY:
        c.violation("%s:%s" % (j.prog, site(r.err)), "%s (%s build) ended with %s: %s: %s" % (j.prog, v, r.rc, short(r.err), r.shell()[:1500]), argv=r.argv, report=r.err[:4000], file=_file(j)); return
    c.count("%s exits %d" % (j.prog, r.rc)); c.count("bytes of reports", len(r.out))

def _file(j):
    from checks.c01 import _file as f
    return f(j)

def many(c):
    """Catalogues and lists of any size."""
    rng = c.rng; d = tempfile.mkdtemp(dir=B.scratch()).encode()
    mjd = 59000.25; y, dd = gen.epoch_for(mjd, rng, 1)
    pool = [gen.make_sat(rng, 1, year=y, doy=dd, bstar=0, **gen.leo(rng, "circ")) for _ in range(50)]
    def cat(name, n, first=1):
        with open(os.path.join(d, name), "wb") as f:
            for k in range(n):
                s = pool[k % 50]; num = gen.norad_text(first + k) if first + k < 340000 else "%05d" % k
                l1 = gen.checksum("1 " + num + s.l1[7:68]) if False else hostile.fix(("1 " + num + s.l1[7:]).encode()); l2 = hostile.fix(("2 " + num + s.l2[7:]).encode())
                f.write(b"S%d\n" % k + l1 + b"\n" + l2 + b"\n")
    sizes = [0, 1, 11660, 11665, 11666, 11667, 11668, 13332, 13333, 13334, 13335, 15000] + c.n([24000], [24000, 30000, 33340, 60000])
    J = []
    for n in sizes:
        f = b"n%d.txt" % n; cat(f, n, rng.choice([1, 1, 90000]))
        J.append((hostile.Job("sat_skymap", [f, "-l10,20", "-j%.3f" % mjd, "-r400", "-n1000000"], d, "catalogue of %d" % n), n))
    cat(b"small.txt", 40)
    for rows in (1, 50, c.n(400, 4000)):
        with open(os.path.join(d, b"r%d.lis" % rows), "wb") as f: f.write(b"small.txt\n" * rows)
        J.append((hostile.Job("sat_skymap", [b"@r%d.lis" % rows, "-l10,20", "-j%.3f" % mjd, "-r400"], d, "list of %d" % rows), 40))
        J.append((hostile.Job("sat_visibility", [b"@r%d.lis" % rows, "-l10,20", "-j%.3f,%.3f" % (mjd, mjd + .01), "-s77777"], d, "list of %d" % rows), None))
    # rows of every length
    for n in (90, 99, 100, 101, 4095, 4096, 4190, 4197, 4198, 4199, 4200, 4201, 8399, 50000):
        for k, t in enumerate((b"x" * n + b"\n", b"x" * n, b"./" * (n // 2) + b"small.txt\nsmall.txt\n", b"#" + b"x" * n + b"\nsmall.txt\n", b" " * n + b"\nsmall.txt\n")):
            f = b"l%d_%d.lis" % (n, k); open(os.path.join(d, f), "wb").write(t)
            for prog in ("sat_skymap", "sat_visibility"): J.append((hostile.Job(prog, [b"@" + f, "-l10,20", "-j%.3f" % mjd + (",%.3f" % (mjd + .01) if prog == "sat_visibility" else ""), "-s1"], d, "row of %d bytes" % n), None))
            f = b"t%d_%d.txt" % (n, k); open(os.path.join(d, f), "wb").write(t.replace(b"./", b"x1 ") + pool[0].l1.encode() + b"\n" + pool[0].l2.encode() + rng.choice([b"", b"\n", b"y" * n, b" " * n + b"\n"]))
            J.append((hostile.Job("sat_skymap", [f, "-l10,20", "-j%.3f" % mjd, "-r400"], d, "line of %d bytes" % n), None))
    # arguments of every length, in the place of every text
    for n in (23, 24, 25, 30, 31, 32, 33, 63, 64, 99, 100, 127, 128, 200, 255, 256, 4085, 4090, 4095, 4096, 4100, 4150, 4180, 4190, 4196, 4197, 4198, 4199, 4200, 4201, 4300, 4390, 4400, 4410, 9000, 60000):
        x = bytes([rng.choice(b"x1 ,.\"\\\xe9-")]) * n; y_ = b"x" * n
        for prog in ("sat_skymap", "sat_visibility"):
            o = [b"-l10,20", b"-j%.3f" % mjd + (b",%.3f" % (mjd + .01) if prog == "sat_visibility" else b"")] + ([b"-s1"] if prog == "sat_visibility" else [])
            for a in ([y_] + o, [b"@" + y_] + o, o + [y_], [b"small.txt"] + o + [b"-D" + y_], [b"small.txt"] + o + [b"-D", b"./" * (n // 2)], [b"@r1.lis"] + o + [b"-D" + b"./" * (n // 2)], [b"small.txt"] + o + [b"-i" + x], [b"small.txt"] + o + [b"-S" + x], [b"small.txt"] + o + [b"-z" + x],
                      [b"small.txt"] + o + [b"-d", x], [b"small.txt"] + o + [b"-d", x + b"," + y_], [b"small.txt"] + o + [b"-" + bytes([rng.choice(b"ajlnprst")]) + x], [b"small.txt"] + o + [b"-l" + b"1" * n + b"," + b"0" * n], [b"small.txt"] + o + [b"-j" + b"0" * n + b"58000"], [b"small.txt"] + o + [b"-d2020-01-01T00:00:00." + b"1" * n + (b",2020-01-01T00:00:00." + b"2" * n if prog == "sat_visibility" else b"")]):
                if rng.random() < c.n(.5, 1): J.append((hostile.Job(prog, a, d, "argument of %d bytes" % n), None))
    for v in ("asan", "msan"):
        sub = [x for x in J if v == "asan" or x[1] is None and rng.random() < .3 or x[1] is not None and x[1] in (11666, 11667, 13333, 40)]
        B.build(v)
        for (j, n), r in zip(sub, pmap(lambda x: run_(x[0].prog, x[0].argv, cwd=d, variant=v, timeout=600 if x[1] else 60), sub)):
            c.ev((v, j.prog, tuple(j.argv))); c.count("%s: sizes and lengths" % v); judge(c, j, r, v)
            if n is not None and not r.crashed and not r.timeout and n > 0:
                c.count("satellites in catalogues", n)
                if r.json is None or r.json.get("n_sats_found", 0) != n: c.violation("catalogue", "%s: %s of %s satellites found: %s" % (j.kind, r.json and r.json.get("n_sats_found"), n, r.shell()), argv=r.argv)
    open(os.path.join(d, b"done"), "wb").close()

def library(c):
    """The element parser, every model at extreme times, and the calendar functions, in sanitized drivers."""
    rng = c.rng; work = []
    for v in ("asan", "msan"):
        for part in range(c.n(8, 40)):
            cmds = []
            for i in range(c.n(250, 500)):
                l1, l2 = hostile.lines(rng, rng.uniform(48000, 62000), rng.randint(0, 339999))
                if rng.random() < .15: l1 = bytes(rng.choice([x for x in range(1, 256) if x not in (10, 13)]) for _ in range(rng.randint(0, 90)))
                if rng.random() < .05: l2 = l2[:rng.randint(0, len(l2))]
                if rng.random() < .05: l1 = l1[:rng.randint(0, len(l1))]
                l1, l2 = [x.replace(b"\0", b"?").replace(b"\n", b"?").replace(b"\r", b"?").decode("latin-1") for x in (l1, l2)]
                hi = l1[62:63] == "H"
                cmds.append(("P0\n%s\n%s" % (l1, l2), "parse", hi))
            work.append((v, cmds))
    def go(w):
        v, cmds = w; out = lib.batch([x[0] for x in cmds if True], v); o2 = []
        good = [x for x, r in zip(cmds, out) if int(r[0]) >= 0]
        seq = []
        for x in good:
            seq += [x[0], "E0"]
            for m in ([3] if x[2] else range(5)):
                seq.append("I0 %d" % m)
                for t in (0, w[2] if len(w) > 2 else 1440, -5e5 if not x[2] else -3e4, 1.44e9 * (1 if not x[2] else 1e-3), -1.44e9 * (1 if not x[2] else 1e-3)): seq.append("T0 %d %r %d" % (m, t, int(t > 1e6)))
        r = lib.batch(seq, v, timeout=900)
        return len(out), len(good), len(r), sum(1 for a, b in zip(seq, r) if a[0] == "T" and b[0] == "0")
    def safe(w):
        try: return go(w)
        except lib.LibCrash as x: return x
    for v, _ in work: B.driver_cached("lib.c", v)
    for w, r in zip(work, pmap(safe, work)):
        if isinstance(r, lib.LibCrash): c.violation("library:" + site(r.err), "the library stopped (%s build, %s) at %r: %s" % (w[0], r.rc, r.cmd, short(r.err)), cmd=r.cmd, report=r.err); continue
        c.ev((w[0], w[1][0][0]), n=r[0] + r[2]); c.count("%s: element pairs parsed" % w[0], r[0]); c.count("%s: of them accepted" % w[0], r[1]); c.count("%s: library calls" % w[0], r[2]); c.count("%s: positions computed" % w[0], r[3])
        for x in w[1][:200]: c.ev((w[0], x[0]), n=0)
    # dates and other functions
    cmds = []
    for i in range(c.n(4000, 60000)):
        k = rng.random()
        if k < .4:
            t = rng.choice(["2020-01-01T00:00:00", "1858-11-17T00:00:00.5", "99999-12-31T23:59:59.999999999"]); b = bytearray(t.encode())
            for _ in range(rng.randint(0, 5)):
                q = rng.random(); p = rng.randint(0, len(b))
                if q < .4 and p < len(b): b[p] = rng.choice([x for x in range(1, 256) if x not in (10, 13)])
                elif q < .7: b[p:p] = bytes([rng.choice(b"0123456789-:T. e9999")]) * rng.choice([1, 1, 3, 30, 400])
                else: del b[p:p + rng.randint(1, 5)]
            cmds.append("D\n" + bytes(b).decode("latin-1"))
        else:
            x = rng.choice([rng.uniform(-1e7, 1e7), rng.uniform(-1e12, 1e12), 1e308, -1e308, float("inf"), float("nan"), 0.0, -678575.9999999, 2973483.9999999, 5373484.49999, rng.choice([-1, 1]) * 10 ** rng.uniform(0, 300)])
            cmds.append(rng.choice("mf") + "%r" % x)
    for v in ("asan", "msan"):
        try: out = [x for p in pmap(lambda a: lib.batch(cmds[a:a + 2000], v), range(0, len(cmds), 2000)) for x in p]
        except lib.LibCrash as x: c.violation("library:" + site(x.err), "the library stopped (%s build, %s) at %r: %s" % (v, x.rc, x.cmd, short(x.err)), cmd=x.cmd, report=x.err); continue
        c.ev(n=len(out)); c.count(v + ": calendar conversions", len(out))
        for x in cmds: c.ev((v, x), n=0)

def fuzz(c):
    """Coverage-guided: the fuzzer keeps what reaches new code."""
    d = B.build("fuzz"); src = os.path.join(d, "src")
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers")
    exe = os.path.join(d, "fuzz"); B._sh(B.VARIANTS["fuzz"]["cc"].replace("fuzzer-no-link", "fuzzer").split() + ["-g", "-O1", "-w", "-I" + src, os.path.join(here, "fuzz.c"), os.path.join(src, "libsatskymap.a"), "-lm", "-o", exe], d, "fuzz target build")
    corpus = tempfile.mkdtemp(dir=B.scratch()); rng = c.rng
    for i in range(400):
        t = struct.pack("<d", rng.choice([0, 1440, -1e6, 1e9, rng.uniform(-1e9, 1e9)]))
        k = rng.random()
        if k < .1: b = b"\0" + t + b"2020-01-01T00:00:00.5"
        elif k < .2: b = b"\1" + struct.pack("<d", rng.uniform(-3e6, 6e6)) + b"x"
        else: b = b"\2" + t + b"\n".join(hostile.lines(rng, 59000, 12345))
        open(os.path.join(corpus, "s%d" % i), "wb").write(b)
    runs = c.n(6000, 200000); n = 8
    def go(k):
        own = os.path.join(corpus, "..", "own%d_%d" % (os.getpid(), k)); os.makedirs(own, exist_ok=True)
        return subprocess.run([exe, "-runs=%d" % runs, "-seed=%d" % (c.seed * 100 + getattr(c, 'round', 0) * 100000 + k + 1), "-max_len=200", "-timeout=60", "-rss_limit_mb=3000", "-print_final_stats=1", "-artifact_prefix=%s/" % own, own, corpus], cwd=own,
            env=dict(B.SAN_ENV, PATH="/usr/bin:/bin"), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=3000), own
    for r, own in pmap(go, range(n)):
        t = r.stdout.decode("latin-1")
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", t); cov = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", t)
        c.ev((own,), n=int(m.group(1)) if m else 0)
        if m: c.count("fuzzed inputs", int(m.group(1)))
        if cov:
            c.counters["fuzzer: edges reached"] = max(c.counters.get("fuzzer: edges reached", 0), int(cov[-1][0])); c.counters["fuzzer: features reached"] = max(c.counters.get("fuzzer: features reached", 0), int(cov[-1][1]))
            for k in range(int(cov[-1][2])): c.ev((own, k), n=0)
        if r.returncode:
            art = [f for f in os.listdir(own) if re.match(r"(crash|timeout|oom|leak)-", f)]
            if not art and "ERROR" not in t and "BAD-TEXT" not in t: raise B.HarnessError("the fuzzer stopped: " + t[-2000:])
            b = open(os.path.join(own, art[0]), "rb").read() if art else b""
            c.violation("fuzz:" + site(t), "the library stopped on a fuzzed input: %s: %r" % (short(t), b), input=b.hex(), report=t[-4000:])

def run(c):
    c.rule = ("runs of both programs built with AddressSanitizer+UBSan (gcc, clang) and MemorySanitizer on hostile command lines, element files, lists, sizes and lengths; the element parser with every propagation model up to a million days "
              "from the epoch, and the calendar functions, in sanitized drivers; coverage-guided fuzzing of the same; an evaluation is a run or a library call that must end without a report, a signal or a hang; distinct = inputs")
    canaries(c); programs(c); many(c); library(c); fuzz(c)
