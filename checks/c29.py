import os, re, subprocess, time
from fractions import Fraction as Fr
from vk import build as B
from vk.run import run as run_, pmap
from checks.c14 import days

ZONES = ["UTC", "Europe/Rome", "EST5EDT", "XYZ-14", "XYZ+12", ":America/St_Johns", "", "right/UTC"]

def run(c):
    c.rule = ("mjdnow under a clock that says chosen instants from 1970 to 9999 (days' and years' first and last seconds, 2^31, 2^32, random, with fractions of a second) in different time zones, and under the real clock; "
              "one evaluation per run; distinct = instants")
    rng = c.rng
    so = os.path.join(B.scratch(), "clock%s.so" % B.TAG)
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers", "clock.c")
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, here], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: raise B.HarnessError("clock stand-in: %r" % r.stdout)
    B.build("plain")
    ts = [0, 1, 59, 60, 3599, 3600, 43199, 43200, 86399, 86400, 86401, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 33, 2 ** 31 + 86399, 253402300799]
    for y in [1971, 1972, 1999, 2000, 2001, 2020, 2024, 2037, 2038, 2039, 2100, 2101, 2400]:
        e = (days(y, 1, 1) - 40587) * 86400
        ts += [e - 1, e, e + 59 * 86400 - 1, e + 59 * 86400, e + 60 * 86400]
    while len(ts) < c.n(700, 8000): ts.append(rng.choice([rng.randint(0, 4102444800), rng.randint(0, 253402300799), rng.randint(0, 40000) * 86400 + rng.choice([0, -1, 1, 43200, rng.randint(0, 86399)])]))
    ts = [max(t, 0) for t in ts]
    jobs = [(t, rng.choice([0, 0, 1, 500000000, 499999999, 999999999, rng.randint(0, 999999999)]), rng.choice(ZONES)) for t in ts]
    def go(j):
        t, n, z = j
        t0 = time.time()
        r = run_("mjdnow", [], cwd=B.scratch(), env={"LD_PRELOAD": so, "VK_CLOCK": "%d.%09d" % (t, n), "TZ": z})
        return r, t0, time.time()
    def value(r, what):
        m = re.fullmatch(r"\s*([+-]?\d+(?:\.\d+)?(?:[eE][+-]?\d+)?)\s*", r.text)
        if r.rc != 0 or not m: c.violation("output", "mjdnow printed %r (exit %s) %s" % (r.out[:200], r.rc, what)); return None
        return Fr(m.group(1))
    for (t, n, z), (r, t0, t1) in zip(jobs, pmap(go, jobs)):
        what = "when the clock says %d.%09d s after 1970 (TZ=%r)" % (t, n, z)
        v = value(r, what)
        if v is None: continue
        want = 40587 + (t + Fr(n, 10 ** 9)) / 86400
        if abs(v - want) <= Fr(1045, 1000) / 86400: c.ev((t, n)); c.count("chosen instants"); c.count("instants beyond 2038", t >= 2 ** 31); continue
        real = 40587 + Fr(t0) / 86400
        if abs(v - real) < Fr(3, 86400): c.count("runs that read the real clock some other way (judged by it)"); continue
        c.ev((t, n)); c.violation("mjd", "mjdnow printed %s, the date is %.6f, %s" % (r.text.strip(), want, what), clock=t, nanoseconds=n, TZ=z)
    for i in range(c.n(16, 60)):
        z = ZONES[i % len(ZONES)]
        t0 = time.time(); r = run_("mjdnow", [], cwd=B.scratch(), env={"TZ": z}); t1 = time.time()
        v = value(r, "under the real clock")
        if v is None: continue
        c.ev(("real", i)); c.count("runs under the real clock")
        lo, hi = 40587 + (Fr(t0) - 1) / 86400 - Fr(1, 10 ** 6), 40587 + (Fr(t1) + 1) / 86400 + Fr(1, 10 ** 6)
        if not lo <= v <= hi: c.violation("now", "mjdnow printed %s, the date is %.6f (TZ=%r)" % (r.text.strip(), 40587 + t0 / 86400, z))
        c.sample(dict(printed=r.text.strip(), clock=t0))
