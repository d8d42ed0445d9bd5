from vk import gen, ref, sky, lib
from vk.sgp4ref import period_minutes, SatErr
from vk.run import pmap
from checks.c08 import judge, times, is_err

F = lib.F

def run_fresh(plan, variant="plain"):
    """As c08.run_lib, with a fresh initialisation before every time."""
    def part(p):
        lines = []
        for s, ts in p:
            lines += ["P0\n%s\n%s" % (s.l1, s.l2), "E0"]
            for t in ts: lines += ["I0 3", "T0 3 %s" % float.hex(t)]
        out = lib.batch(lines, variant)
        res, i = [], 0
        for s, ts in p:
            res.append((out[i], int(out[i + 1][0]), out[i + 3:i + 2 + 2 * len(ts):2])); i += 2 + 2 * len(ts)
        return res
    parts = [plan[i:i + 60] for i in range(0, len(plan), 60)]
    return [r for x in pmap(part, parts) for r in x]

def deep_sets(rng, n):
    out = []
    for k in range(n):
        el = gen.deep(rng)
        if k % 12 == 0: el["n"] = rng.choice([rng.uniform(.04, .2), rng.uniform(.1, .3)]); el["ecc"] = rng.uniform(.2, .9)       # lunar distances
        et = rng.choice("00000035")
        if et in "35" and rng.random() < .3: el = gen.leo(rng, rng.choice(["high", "near225"]))       # forced deep-space
        if k % 10 == 5: et, el = "3", dict(gen.leo(rng, "high"), incl=rng.uniform(1, 11.4))               # low inclination, the node goes round many times
        out.append(gen.make_sat(rng, rng.randint(1, 99999), bstar=rng.choice([0, 1e-4, -1e-4, 1e-3, rng.uniform(-1e-3, 1e-3), rng.uniform(-1e-3, 1e-3), rng.uniform(.01, .2)]), etype=et, year=rng.randint(1965, 2045), **el))
    return out

def boundary_sets(rng, n):
    """Periods within a few parts in 1e5 of 225 minutes, also where the Kozai correction changes the side."""
    out = []
    for k in range(n):
        nn = 6.4 * (1 + rng.choice([rng.uniform(-1e-3, 1e-3), rng.uniform(-5e-3, 5e-3), rng.uniform(-3e-2, 3e-2)]))
        out.append(gen.make_sat(rng, rng.randint(1, 99999), n=nn, ecc=rng.choice([0, rng.uniform(0, .45)]), incl=gen.pick_incl(rng), node=rng.uniform(0, 360), argp=rng.uniform(0, 360),
                                ma=rng.uniform(0, 360), etype=rng.choice("0000012345")))
    return out

def run(c):
    c.rule = ("deep-space element sets of every kind (one-day and half-day resonant over eccentricity and inclination, high-eccentricity, low-inclination, forced by type) at times within +-150 days: SDP4 "
              "against an independent implementation of the theory, each from a fresh initialisation; model selection against the recovered period, dense around 225 minutes; both models through "
              "sat_skymap; one evaluation per (set, time); distinct = (set, time)")
    rng = c.rng
    sats = deep_sets(rng, c.n(500, 9000))
    # the last time is next to a perigee
    plan = [(s, times(rng, c.n(6, 8)) + [rng.uniform(-220000, 220000), (rng.randint(-40, 40) - s.ma / 360 + rng.gauss(0, .002 + .02 * rng.random())) * 1440 / s.n]) for s in sats]
    try: res = run_fresh(plan)
    except lib.LibCrash as x: c.violation("crash", "the library stopped at %r (%s): %s" % (x.cmd, x.rc, x.err), cmd=x.cmd); return
    for (s, ts), (pw, et, out) in zip(plan, res):
        if pw[0] != "0": c.violation("parse", "valid elements refused (%s)" % pw[0], tle=s.text); continue
        n = s.n; kind = "one-day resonance" if .8 < n < 1.2 else "half-day resonance" if 1.89 < n < 2.12 and s.ecc >= .5 else "other"
        for t, w in zip(ts, out):
            c.ev((s.l1, s.l2, t)); c.count(kind)
            if s.incl < 11.459: c.count("low inclination (Lyddane)")
            judge(c, s, t, w, True, .03, 2e-5, "sdp4")
    # published test case
    l1 = "1 11801U          80230.29629788  .01431103  00000-0  14311-1       2"; l2 = "2 11801U 46.7916 230.4354 7318036  47.4722  10.4117  2.28537848     2"
    l1 = l1.ljust(68)[:68]; l2 = "2 11801  46.7916 230.4354 7318036  47.4722  10.4117  2.28537848".ljust(68)
    out = lib.batch(["P0\n%s\n%s" % (l1 + gen.checksum(l1), l2 + gen.checksum(l2)), "I0 3"] + ["T0 3 %d" % t for t in (0, 360, 720, 1080, 1440)])
    for w, p in zip(out[2:], STR3):
        c.ev(p[0])
        d = ref.norm(ref.sub([F(x) for x in w[1:4]], p))
        # the published run predates the published corrections of the lunar-solar terms
        c.check(d < 1.0, "str3", "published Spacetrack Report 3 position %r, computed %r" % (p, [F(x) for x in w[1:4]]))
    # model selection
    bs = boundary_sets(rng, c.n(1500, 20000))
    out = lib.batch([x for s in bs for x in ("P0\n%s\n%s" % (s.l1, s.l2), "E0")])
    for s, w in zip(bs, out[1::2]):
        P = period_minutes(s.el.n, s.el.ecc, s.el.incl)
        raw = 1440 / s.n
        want = {"2": 0, "4": 0, "3": 1, "5": 1}.get(s.etype, int(P >= 225))
        if abs(P - 225) < 1e-6: c.count("not judged (period 225 minutes)"); continue
        c.ev((s.l1, s.l2, "sel"))
        c.count("selection by type" if s.etype in "2345" else "selection by period")
        if (raw >= 225) != (P >= 225): c.count("selection where the Kozai correction decides")
        if int(w[0]) != want: c.violation("selection", "%s: type '%s', recovered period %.6f min (raw %.6f): select_ephemeris gives %s, expected %d" % (s.num, s.etype, P, raw, w[0], want), tle=s.text)
    # the program uses the selected model
    scenes = []
    def mk(r, n, mjd):
        y, d = gen.epoch_for(mjd, r, 30)
        et = r.choice("0000012345")
        k = r.random()
        el = gen.deep(r) if k < .6 else gen.leo(r, "near225") if k < .8 else gen.deep(r, "near225")
        return gen.make_sat(r, n, year=y, doy=d, etype=et, bstar=0, **el)
    for i in range(c.n(10, 120)): scenes.append(sky.Scene(rng, 50, maker=mk))
    for k, (s, r) in enumerate(zip(scenes, pmap(lambda s: s.run(["-H", "-r200"]), scenes))):
        if not sky.ok_report(c, r, "run"): continue
        got = dict(sky.sats_of(r))
        for e in s.exp:
            if e.err is not None: continue
            c.ev((k, e.sat.norad)); c.count("through sat_skymap")
            x = got.get(e.sat.norad)
            if x is None: c.violation("lost", "%s is not listed: %s" % (e.sat.num, r.shell()), tle=e.sat.text, argv=r.argv)
            elif abs(x["data"][4] - e.dist) > .0051 + max(e.ptol, .06) + 1e-9 * e.dist:
                c.violation("distance", "%s (type %s): distance %r, expected %.3f: %s" % (e.sat.num, e.sat.etype, x["data"][4], e.dist, r.shell()), tle=e.sat.text, argv=r.argv)
    # ... and sat_visibility, whose first sample of an always visible satellite is at the start
    jobs = []
    for s in scenes[:c.n(4, 30)]:
        for e in rng.sample([e for e in s.exp if e.err is None and e.margin > 50 and not e.blocked], min(6, len([e for e in s.exp if e.err is None and e.margin > 50 and not e.blocked]))):
            jobs.append((s, e))
    rs = pmap(lambda j: sky.run("sat_visibility", ["cat.txt", "-D", j[0].dir, "-l" + j[0].obs.arg, "-j%.5f,%.5f" % (j[0].mjd, j[0].mjd + .00001), "-r180", "-s%d" % j[1].sat.norad], cwd=j[0].dir), jobs)
    for (s, e), r in zip(jobs, rs):
        if r.json is None or "satellite" not in r.json: c.violation("vis", "no report of a visible satellite from %s: %r" % (r.shell(), r.out[-300:]), argv=r.argv, tle=e.sat.text); continue
        c.ev((r.shell(),)); c.count("through sat_visibility")
        d = r.json["satellite"]["sat_start"]["Distance"]
        if abs(d - e.dist) > .0051 + max(e.ptol, .06) + 1e-9 * e.dist: c.violation("vis:distance", "%s (type %s): distance %r, expected %.3f: %s" % (e.sat.num, e.sat.etype, d, e.dist, r.shell()), tle=e.sat.text, argv=r.argv)
    c.sample(dict(first=sats[0].l1, resonant=sum(.8 < s.n < 1.2 for s in sats)))

STR3 = [(7473.37066650, 428.95261765, 5828.74786377), (-3305.22537232, 32410.86328125, -24697.1767581), (14271.28759766, 24110.46411133, -4725.76837158),
        (-9990.05883789, 22717.35522461, -23616.89066250), (9787.86975097, 33753.34667969, -15030.81176758)]
