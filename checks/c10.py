import glob, os
from math import sin, cos, pi, sqrt
from vk import gen, ref, sky, lib
from vk import build as B
from vk.run import pmap

F = lib.F
GM = 3.9860044e14

def state(rng, num, year=None, doy=None, kind=None):
    kind = kind or rng.choice(["heo", "heo", "lunar", "L2", "L2", "far", "escape"])
    def direction():
        z = rng.uniform(-1, 1); a = rng.uniform(0, 2 * pi); s = sqrt(1 - z * z)
        return [s * cos(a), s * sin(a), z]
    d = {"heo": rng.uniform(1.2e8, 3.5e8), "lunar": rng.uniform(3.0e8, 6e8), "L2": rng.uniform(1.0e9, 1.9e9), "far": rng.uniform(2e9, 2e10), "escape": rng.uniform(2e8, 2e9)}[kind]
    u = direction()
    w = direction(); k = ref.dot(u, w); w = [x - k * y for x, y in zip(w, u)]; n = ref.norm(w); w = [x / n for x in w]
    sp = {"heo": sqrt(GM / d) * rng.uniform(.85, 1.1), "lunar": sqrt(GM / d) * rng.uniform(.7, 1.2), "L2": rng.uniform(0, 600), "far": rng.uniform(0, 3000), "escape": sqrt(2 * GM / d) * rng.uniform(1.05, 3)}[kind]
    rad = rng.uniform(-.2, .6) if kind != "heo" else rng.uniform(-.1, .1)
    v = [sp * (a + rad * b) for a, b in zip(w, u)]
    return gen.high_state(rng, num, year=year, doy=doy, r=[int(round(x * d)) for x in u], v=[int(round(x * 1e4)) for x in v])

def reference(s, dt):
    """(position, velocity, position tolerance km) after dt days, or None when the trajectory passes too near the Earth or Moon for the step."""
    p1, v1 = ref.high(s.epoch, s.r, s.v, dt, 1.0)
    pf, vf = ref.high(s.epoch, s.r, s.v, dt, .25)
    pc, vc = ref.high(s.epoch, s.r, s.v, dt, 1.0, coarse=True)
    rk = ref.norm(ref.sub(p1, pf)); mo = ref.norm(ref.sub(p1, pc))
    rv = ref.norm(ref.sub(v1, vf)) + ref.norm(ref.sub(v1, vc))
    tol = 3 * rk + .2 * mo + 1e-3 + 1e-9 * ref.norm(p1)
    return p1, v1, tol, 3 * rv + 1e-6 * ref.norm(v1) + 1e-7

def run(c):
    c.rule = ("state-vector sets from high Earth orbit to beyond L2, at epoch and up to 100 days before and after, in fractions of a step, exact steps and many steps, against an independent integration with the "
              "tolerance of a one-day step (difference from a quarter-day step); the published daily state vectors in scripts/*.txt: each integrated to the epoch of the next; both programs; one evaluation "
              "per (set, time); distinct = (set, time) with a non-zero interval")
    rng = c.rng
    plan = []
    for k in range(c.n(260, 3000)):
        s = state(rng, rng.randint(1, 99999), year=rng.randint(1990, 2040))
        ts = [0.0, rng.choice([1, -1]) * rng.uniform(0, 1), rng.choice([1.0, -1.0, 2.0, -3.0]), rng.uniform(-10, 10), rng.choice([rng.uniform(-100, 100), rng.uniform(-40, 40)])]
        plan.append((s, ts))
    lines = []
    for s, ts in plan:
        lines += ["P0\n%s\n%s" % (s.l1, s.l2), "E0", "I0 3"] + ["T0 3 %s" % float.hex(t * 1440) for t in ts]
        lines += ["T0 3 %s 1" % float.hex(ts[3] * 1440)]          # without velocity
    try: out = lib.batch(lines)
    except lib.LibCrash as x: c.violation("crash", "the library stopped at %r (%s): %s" % (x.cmd, x.rc, x.err), cmd=x.cmd); return
    i = 0
    refs = pmap(lambda p: [reference(p[0], t) for t in p[1]], plan)
    for (s, ts), rr in zip(plan, refs):
        pw, et, res, nv = out[i], out[i + 1], out[i + 3:i + 3 + len(ts)], out[i + 3 + len(ts)]
        i += 4 + len(ts)
        if pw[0] != "0": c.violation("parse", "a state-vector set is refused (%s)" % pw[0], tle=s.text); continue
        c.check(et[0] == "1", "select", "select_ephemeris gives %s for a state-vector set" % et[0], tle=s.text)
        for t, w, (rp, rv, tol, vtol) in zip(ts, res, rr):
            p, v = [F(x) for x in w[1:4]], [F(x) for x in w[4:7]]
            c.ev((s.l1, t) if t else None)
            if tol > 5e-3 * ref.norm(rp): c.count("not judged (too near the Earth or Moon for the step)"); continue
            d = ref.norm(ref.sub(p, rp)); dv = ref.norm(ref.sub(v, rv))
            c.count("at epoch" if t == 0 else "forwards" if t > 0 else "backwards"); c.count("more than one step", int(abs(t) > 1))
            if t == 0:
                ex = ref.norm([a - b / 1000 for a, b in zip(p, s.r)]); ev = ref.norm([a - b * .06 for a, b in zip(v, s.v)])
                if not ex < 1e-6 * (1 + ref.norm(p) * 1e-6) or not ev < 1e-9 * max(1, ref.norm(v)): c.violation("epoch", "%s: at epoch %r %r, stored %r %r" % (s.num, p, v, s.r, s.v), tle=s.text)
            elif w[0] != "0" or not d <= tol or not dv <= vtol:
                c.violation("trajectory", "%s after %+.4f days: result %s, position %r differs by %.6f km (tolerance %.6f), velocity by %.3g km/min (%.3g)" % (s.num, t, w[0], p, d, tol, dv, vtol), tle=s.text, days=t)
        if nv[1:4] != res[3][1:4]: c.violation("novel", "%s: position without velocity %r, with velocity %r" % (s.num, nv[1:4], res[3][1:4]), tle=s.text)
    # published ephemerides, one day to the next
    for f in sorted(glob.glob(os.path.join(B.REPO, "scripts", "*.txt"))):
        L = [l.rstrip("\r\n") for l in open(f, errors="replace")]
        pairs = [(a, b) for a, b in zip(L, L[1:]) if a.startswith("1 ") and b.startswith("2 ") and len(a) > 62 and a[62] == "H"]
        if len(pairs) < 20: continue
        if not c.thorough: k = rng.randint(0, max(0, len(pairs) - 80)); pairs = pairs[k:k + 80]
        o = lib.batch(["P0\n%s\n%s" % p for p in pairs])
        if any(w[0] != "0" for w in o): c.violation("published:parse", "a state-vector set of %s is refused" % f); continue
        ep = [F(w[1]) for w in o]
        cmds = []
        for k in range(len(pairs) - 1):
            for a, b, sg in ((k, k + 1, 1), (k + 1, k, -1)):
                cmds += ["P0\n%s\n%s" % pairs[a], "I0 3", "T0 3 %s" % float.hex((ep[b] - ep[a]) * 1440), "P1\n%s\n%s" % pairs[b], "I1 3", "T1 3 0"]
        o = lib.batch(cmds)
        ds = []
        for k in range(2 * (len(pairs) - 1)):
            if abs(ep[k // 2 + 1] - ep[k // 2]) > 1.5: continue
            p = [F(x) for x in o[6 * k + 2][1:4]]; q = [F(x) for x in o[6 * k + 5][1:4]]
            if ref.norm(q) < 1.1e6 or ref.norm(p) < 1.1e6: continue
            ds.append(ref.norm(ref.sub(p, q))); c.ev((f, k))
        if len(ds) < 20: continue
        ds.sort()
        c.count("published daily steps", len(ds)); c.sample(dict(file=os.path.basename(f), median_km=round(ds[len(ds) // 2], 2)))
        lim = 30 if "juice" in f else 6           # Juice is far away and its sets have larger residuals
        c.check(ds[len(ds) // 2] < lim, "published", "%s: integrated to the next day's state vector the median error is %.1f km" % (f, ds[len(ds) // 2]))
    # both programs
    jobs = []
    for i in range(c.n(12, 120)):
        y = rng.randint(1995, 2035); dd = rng.uniform(40, 320)
        mjd = round(gen.mjd_of_date(y, 1, 1) + dd - 1, 5)
        spread = rng.choice([.9, 5, 30])
        sc = sky.Scene(rng, 14, mjd=mjd, dt=rng.choice([1, 60, 3600]), maker=lambda r, n, m: state(r, n, year=y, doy=dd + r.uniform(-spread, spread), kind=r.choice(["heo", "L2", "far", "lunar"])) if r.random() < .8
                       else gen.make_sat(r, n, year=y, doy=dd, bstar=0, **gen.deep(r, "geo")))
        jobs.append(sc)
    rs = pmap(lambda s: (s.run(["-H", "-r200"]), [(e, sky.run("sat_visibility", ["cat.txt", "-D", s.dir, "-l" + s.obs.arg, "-j%.5f,%.5f" % (s.mjd, s.mjd + .00001), "-r180", "-s%d" % e.sat.norad], cwd=s.dir)) for e in s.exp[:4]]), jobs)
    for k, (s, (r, vis)) in enumerate(zip(jobs, rs)):
        if not sky.ok_report(c, r, "run"): continue
        got = dict(sky.sats_of(r))
        for e in s.exp:
            if e.err is not None or e.sat.etype != "H": continue
            tol = reference(e.sat, e.jd - e.sat.epoch)[2] + .03 + 1e-8 * e.dist
            if tol > 1e-2 * e.dist: continue
            x = got.get(e.sat.norad)
            c.ev((k, e.sat.norad)); c.count("through sat_skymap")
            if x is None: c.violation("lost", "%s is not listed: %s" % (e.sat.num, r.shell()), tle=e.sat.text, argv=r.argv); continue
            if abs(x["data"][4] - e.dist) > tol: c.violation("program", "%s: distance %r, expected %.3f: %s" % (e.sat.num, x["data"][4], e.dist, r.shell()), tle=e.sat.text, argv=r.argv)
            sep = min(ref.sep(x["data"][0], x["data"][1], e.ra, e.dec), ref.angle(ref.unit(x["data"][0], x["data"][1]), ref.precess_rigorous(e.jd, ref.unit(e.ra_d, e.dec_d))) - e.pb)
            if sep > 1.2e-4 + tol / e.dist * 60: c.violation("program", "%s: direction off by %.5f deg: %s" % (e.sat.num, sep, r.shell()), tle=e.sat.text, argv=r.argv)
        for e, v in vis:
            if e.err is not None or e.sat.etype != "H" or e.blocked or e.margin < 50: continue
            tol = reference(e.sat, e.jd - e.sat.epoch)[2] + .03 + 1e-8 * e.dist
            if tol > 1e-2 * e.dist: continue
            if v.json is None or "satellite" not in v.json: c.violation("vis", "no report of a visible satellite from %s: %r" % (v.shell(), v.out[-300:]), argv=v.argv, tle=e.sat.text); continue
            c.ev((k, e.sat.norad, "v")); c.count("through sat_visibility")
            d = v.json["satellite"]["sat_start"]["Distance"]
            if abs(d - e.dist) > tol: c.violation("vis:distance", "%s: distance %r, expected %.3f: %s" % (e.sat.num, d, e.dist, v.shell()), tle=e.sat.text, argv=v.argv)
