from vk import gen, ref, sky, lib
from vk.sgp4ref import SatErr
from math import sqrt
from vk.run import pmap, run as run_
import os, tempfile

F = lib.F
def is_err(code): return code not in (0, -3, -4)

def near_sets(rng, n):
    out = []
    for k in range(n):
        el = gen.leo(rng)
        if rng.random() < .1: el["incl"] = rng.choice([180.0, 0.0, 90.0, 63.4349, 116.565, 179.9999, 0.0001])
        b = rng.choice([0, 1e-9, 1e-5, 1e-4, -1e-4, -1e-5, rng.uniform(-5e-4, 5e-4), rng.uniform(0, .02), .01])
        et = rng.choice("0000024")
        if et in "24" and rng.random() < .5: el = gen.deep(rng, rng.choice(["gps", "near225", "lowinc", "molniya", "gto", "heo"]))     # forced near-Earth
        out.append(gen.make_sat(rng, rng.randint(1, 99999), bstar=b, etype=et, **el))
    return out

def decaying(rng, n):
    """Sets that decay or become impossible within the interval."""
    out = []
    for k in range(n):
        hp = rng.uniform(100, 250); e = rng.uniform(0, .05)
        out.append(gen.make_sat(rng, rng.randint(1, 99999), bstar=rng.choice([.05, .1, .3, .9, -.1, -.5]), n=gen.n_from(hp, e), ecc=e, incl=gen.pick_incl(rng),
                                node=rng.uniform(0, 360), argp=rng.uniform(0, 360), ma=rng.uniform(0, 360)))
    return out

def times(rng, n):
    return [0.0] + [rng.choice([rng.uniform(-90, 90), rng.uniform(-1440, 1440), rng.uniform(-14400, 14400), rng.uniform(-86400, 86400)]) for _ in range(n - 1)]

def run_lib(plan, model, variant="plain"):
    """plan: [(sat, times)] -> [(parse words, ephemeris type, [answer words])]."""
    def part(p):
        lines, owners = [], []
        for s, ts in p:
            lines += ["P0\n%s\n%s" % (s.l1, s.l2), "E0", "I0 %d" % model] + ["T0 %d %s" % (model, float.hex(t)) for t in ts]
        out = lib.batch(lines, variant)
        res, i = [], 0
        for s, ts in p:
            res.append((out[i], int(out[i + 1][0]), out[i + 3:i + 3 + len(ts)])); i += 3 + len(ts)
        return res
    parts = [plan[i:i + 100] for i in range(0, len(plan), 100)]
    return [r for x in pmap(part, parts) for r in x]

def judge(c, sat, t, words, deep, postol, veltol, key, tper=None, step=None):
    code = int(words[0])
    p, v = [F(x) for x in words[1:4]], [F(x) for x in words[4:7]]
    rp, err = None, None
    kw = {}
    if step: kw["step"] = step
    try: rp, rv = sat.ref(deep).posvel(t, tper, **kw)
    except SatErr as x: err = x.code
    if err is not None:
        if not is_err(code):
            # close to the limit both answers are right
            near = False
            for dt in (-1e-3 * abs(t) - .01, 1e-3 * abs(t) + .01):
                try: sat.ref(deep).posvel(t + dt, None, **kw); near = True
                except SatErr: pass
            if near: c.count("not judged (at the limit of validity)"); return
            c.violation(key + ":no error", "%s at %+.3f min: impossible orbit (%d expected) but result code %d, position %r" % (sat.num, t, err, code, p), tle=sat.text, t=t)
        else: c.count("impossible orbits signalled")
        return
    if is_err(code):
        m = sat.ref(deep)
        # an orbit blown up by drag, where the theory's angles have lost all precision
        near = code == -6 and (m.last_el2 > .8 or m.last_a < .95 or m.last_a > 1.6 * m.ao)
        for dt in (-1e-3 * abs(t) - .01, 1e-3 * abs(t) + .01):
            try: sat.ref(deep).posvel(t + dt, None, **kw)
            except SatErr: near = True
        if near: c.count("not judged (at the limit of validity)"); return
        c.violation(key + ":error", "%s at %+.3f min: error %d for an orbit that can be computed" % (sat.num, t, code), tle=sat.text, t=t); return
    if not deep:
        m = sat.ref(deep)
        if m.last_el2 > .8 or m.last_a < .95 or m.last_a > 1.6 * m.ao: c.count("not judged (decayed or blown up by drag, outside the validity of the theory)"); return
    d = ref.norm(ref.sub(p, rp)); dv = ref.norm(ref.sub(v, rv)) / 60
    b = sat.ref(deep).blur; postol += b; veltol += b * 1e-3
    if not d <= postol or not dv <= veltol:
        c.violation(key, "%s at %+.3f min: position %r differs by %.6f km, velocity by %.3g km/s from the reference %r" % (sat.num, t, p, d, dv, rp), tle=sat.text, t=t)

def run(c):
    c.rule = ("near-Earth element sets over eccentricity, inclination (0, 90, 180 and critical included), drag of both signs, perigees in every branch, times within +-60 days: SGP4's position and velocity "
              "against an independent implementation of the published theory; decaying orbits: error against error; catalogues with decayed sets through sat_skymap; one evaluation per "
              "(set, time); distinct = (set, time)")
    rng = c.rng
    sats = near_sets(rng, c.n(700, 20000)) + decaying(rng, c.n(150, 3000))
    plan = [(s, times(rng, c.n(10, 14))) for s in sats]
    from vk.sgp4ref import SGP4
    try: res = run_lib(plan, 1)
    except lib.LibCrash as x: c.violation("crash", "the library stopped at %r (%s): %s" % (x.cmd, x.rc, x.err), cmd=x.cmd); return
    for (s, ts), (pw, et, out) in zip(plan, res):
        if pw[0] != "0": c.violation("parse", "valid elements refused (%s)" % pw[0], tle=s.text); continue
        for t, w in zip(ts, out):
            c.ev((s.l1, s.l2, t))
            # rounding grows with the mean anomaly: |t| n eps
            tol = 1e-3
            judge(c, s, t, w, False, tol, 1e-6, "sgp4")
        hp = (s.ref(False).perigee_km if hasattr(s.ref(False), "perigee_km") else None)
        if not hp is None: c.count("perigee " + ("< 98" if hp < 98 else "98-156" if hp < 156 else "156-220" if hp < 220 else "> 220"))
    impossible(c)
    # published test case
    l1 = "1 88888U          80275.98708465  .00073094  13844-3  66816-4 0    8"; l2 = "2 88888  72.8435 115.9689 0086731  52.6988 110.5714 16.05824518  105"
    l1 = l1.ljust(68)[:68]; l2 = l2.ljust(68)[:68]
    out = lib.batch(["P0\n%s\n%s" % (l1 + gen.checksum(l1), l2 + gen.checksum(l2)), "I0 1"] + ["T0 1 %d" % t for t in (0, 360, 720, 1080, 1440)])
    for w, p in zip(out[2:], STR3):
        c.ev(p[0])
        d = ref.norm(ref.sub([F(x) for x in w[1:4]], p))
        c.check(d < .02, "str3", "published Spacetrack Report 3 position %r, computed %r" % (p, [F(x) for x in w[1:4]]))
    # decayed satellites through the program: they are left out, all others are there
    scenes = []
    for i in range(c.n(14, 150)):
        mk = lambda r, n, mjd: maker(r, n, mjd)
        scenes.append(sky.Scene(rng, 40, maker=mk, dt=rng.choice([1, 1, 60, 3600, 40000, 200000])))
    for k, (s, r) in enumerate(zip(scenes, pmap(lambda s: s.run(["-H", "-r200", "-G"]), scenes))):
        if not sky.ok_report(c, r, "run"): continue
        got = dict(sky.sats_of(r))
        for e in s.exp:
            x = got.get(e.sat.norad)
            c.ev((k, e.sat.norad))
            if e.err is not None:
                c.count("satellites without a position in sat_skymap")
                if not limit(e, s):
                    try: sky.posvel(e.sat, e.sat.mjd_t + ref.JD_OFF); c.count("of these only at the second epoch")
                    except SatErr: pass
                if x is not None and not limit(e, s): c.violation("listed", "%s has no position at that time (error %d) but is listed: %s" % (e.sat.num, e.err, r.shell()), tle=e.sat.text, argv=r.argv)
            elif x is None:
                if not limit(e, s): c.violation("lost", "%s is not listed although its position can be computed: %s" % (e.sat.num, r.shell()), tle=e.sat.text, argv=r.argv)
            elif abs(x["data"][4] - e.dist) > .0051 + e.ptol + 1e-9 * e.dist:
                c.violation("distance", "%s: distance %r, expected %.3f: %s" % (e.sat.num, x["data"][4], e.dist, r.shell()), tle=e.sat.text, argv=r.argv)
        c.sample(dict(argv=r.argv[3:], listed=len(got), undefined=sum(e.err is not None for e in s.exp)))

def limit(e, s):
    """The orbit is at the limit of validity at either epoch."""
    t0 = (e.sat.mjd_t + ref.JD_OFF - e.sat.el.epoch) * 1440
    for t in (t0, t0 + s.dt / 60):
        res = set()
        for k in (-1, 0, 1):
            try: e.sat.ref().posvel(t + k * (1e-3 * abs(t) + .01)); res.add(0)
            except SatErr: res.add(1)
        if len(res) > 1: return True
    return False

def impossible(c):
    """Extreme sets (nearly parabolic, blown up by drag, resonant and inside the Earth): sat_skymap lists exactly those for which the library gives a position."""
    rng = c.rng
    for i in range(c.n(6, 60)):
        mjd = round(rng.uniform(50000, 62000), 5); obs = sky.pick_obs(rng); d = tempfile.mkdtemp(dir=sky.B.scratch()); sats = []
        for k in range(1200):
            el = gen.deep(rng, rng.choice(["heo", "molniya", "gto", "sync_incl"])) if rng.random() < .7 else gen.leo(rng)
            if rng.random() < .5: el["n"] = rng.choice([rng.uniform(.85, 1.15), rng.uniform(1.9, 2.1), 1.0, 2.0])
            if rng.random() < .8: el["ecc"] = rng.choice([.99, .999, .9999, .97, .95, .98, .9])
            y, dd = gen.epoch_for(mjd, rng, 60)
            sats.append(gen.make_sat(rng, 500 + k, year=y, doy=dd, bstar=rng.choice([0, 0, .1, -.1, .9, .01]), etype="0", **el))
        out = lib.batch([y for x in sats for y in ("P0\n%s\n%s" % (x.l1, x.l2), "E0")])
        model = [3 if int(w[0]) == 1 else 1 for w in out[1::2]]
        # the rare codes first
        out = lib.batch([y for x, m in zip(sats, model) for y in ("P0\n%s\n%s" % (x.l1, x.l2), "I0 %d" % m, "T0 %d %s" % (m, float.hex((mjd + ref.JD_OFF - x.el.epoch) * 1440)))])
        num = {}
        for w in out[2::3]: num[w[0]] = num.get(w[0], 0) + 1
        pick = sorted(sorted(range(len(sats)), key=lambda k: (num[out[3 * k + 2][0]], k))[:150] + rng.sample(range(len(sats)), 30))
        pick = sorted(set(pick)); sats = [sats[k] for k in pick]; model = [model[k] for k in pick]
        open(os.path.join(d, "c.txt"), "w").write("".join(x.text for x in sats))
        cmds = []
        for x, m in zip(sats, model):
            t = (mjd + ref.JD_OFF - x.el.epoch) * 1440
            cmds += ["P0\n%s\n%s" % (x.l1, x.l2)] + [q for a in (t, t + 1 / 60, t - .02, t + .05) for q in ("I0 %d" % m, "T0 %d %s" % (m, float.hex(a)))]
        out = lib.batch(cmds)
        r = run_("sat_skymap", ["c.txt", "-D", d, "-l" + obs.arg, "-j%.5f" % mjd, "-r400", "-H", "-n0"], cwd=d, timeout=60)
        if not sky.ok_report(c, r, "impossible"): continue
        got = dict(sky.sats_of(r))
        for k, x in enumerate(sats):
            codes = [int(out[9 * k + 2 + 2 * j][0]) for j in range(4)]
            c.ev((i, x.norad, mjd))
            if len({is_err(q) for q in codes}) > 1: c.count("not judged (at the limit of validity)"); continue
            c.count("extreme sets, result code %d" % codes[0])
            if is_err(codes[0]) == (x.norad in got): c.violation("listed", "%s: result code %d, but it is %s: %s" % (x.num, codes[0], "listed" if x.norad in got else "not listed", r.shell()), tle=x.text, argv=r.argv); return

def maker(rng, num, mjd):
    if rng.random() < .45:
        y, d = gen.epoch_for(mjd - rng.uniform(2, 50), rng, 1)
        hp = rng.uniform(120, 260); ec = rng.uniform(0, .03)
        x = gen.make_sat(rng, num, year=y, doy=d, bstar=rng.choice([.02, .1, .5, .9, -.3]), n=gen.n_from(hp, ec), ecc=ec, incl=gen.pick_incl(rng), node=rng.uniform(0, 360), argp=rng.uniform(0, 360), ma=rng.uniform(0, 360))
    else:
        y, d = gen.epoch_for(mjd, rng, 20)
        x = gen.make_sat(rng, num, year=y, doy=d, bstar=rng.choice([0, 1e-5, 1e-4, -1e-5]), **gen.leo(rng, rng.choice(["circ", "ecc", "high", "tinye"])))
    x.mjd_t = mjd
    return x

STR3 = [(2328.97048951, -5995.22076416, 1719.97067261), (2456.10705566, -6071.93853760, 1222.89727783), (2567.56195068, -6112.50384522, 713.96397400),
        (2663.09078980, -6115.48229980, 196.39640427), (2742.55133057, -6079.67144775, -326.38095856)]
