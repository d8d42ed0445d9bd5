from math import cos, hypot, fabs, radians, degrees, pi
from vk import gen, ref, sky, lib
from vk.run import pmap

def seps(e, ra0, de0, hav, second):
    ra, de = (e.ra1, e.dec1) if second else (e.ra, e.dec)
    if hav: return ref.sep(ra, de, ra0, de0)
    return ref.plane_sep(ra, de, ra0, de0)

def slack(e, hav, second):
    """How far the program's separation may be from the reference one."""
    t = (e.tol1 if second else e.tol) + 2e-5
    pb = e.pb1 if second else e.pb
    de = e.dec1 if second else e.dec
    if not hav: return (t + 0.0) / max(cos(radians(de)), 1e-9) + t
    return t

def separations(c):
    """The library's separation of two directions, antipodes, twins and poles included."""
    rng = c.rng
    P, cmds = [], []
    for i in range(c.n(6000, 300000)):
        a, d = rng.uniform(0, 2 * pi), rng.choice([rng.uniform(-pi / 2, pi / 2), 0.0, pi / 2, -pi / 2, rng.choice([-1, 1]) * (pi / 2 - 10 ** rng.uniform(-12, -1))])
        k = rng.random(); s = 10 ** rng.uniform(-14, -1)
        if k < .4: a2, d2 = a + pi * rng.choice([-1, 1]), -d
        elif k < .6: a2, d2 = a + pi + rng.uniform(-s, s), -d + rng.uniform(-s, s)
        elif k < .8: a2, d2 = a + rng.choice([0, 2 * pi, rng.uniform(-s, s)]), d + rng.uniform(-s, s)
        else: a2, d2 = rng.uniform(-2 * pi, 2 * pi), rng.uniform(-pi / 2, pi / 2)
        d2 = max(-pi / 2, min(pi / 2, d2))
        P.append((a, d, a2, d2)); cmds.append("s %r %r %r %r" % (a, d, a2, d2))
    try: res = [x for p in pmap(lambda k: lib.batch(cmds[k:k + 3000]), range(0, len(cmds), 3000)) for x in p]
    except lib.LibCrash as x: c.violation("crash", "the library stopped at %r (%s)" % (x.cmd, x.rc)); return
    for p, w in zip(P, res):
        s = lib.F(w[0]); u, v = ref.unit(degrees(p[0]), degrees(p[1])), ref.unit(degrees(p[2]), degrees(p[3]))
        e = ref.angle(u, v)
        c.ev(p); c.count("separations of the library")
        # the haversine loses half its digits next to the antipode
        if not abs(s - e) <= 1e-10 + min(5e-6, 4e-13 / max(radians(180 - e), 1e-15)): c.violation("separation:library", "separation of %r is %r, expected %r" % (p, s, e), p=p)

def run(c):
    separations(c)
    c.rule = ("searches with random and adversarial centres (on satellites, next to RA 0/360, next to the poles, zenith by default), radii and second-epoch "
              "intervals, haversine and plane distance; one evaluation per (search, satellite) decided inside/outside, and the separation function of the library over antipodes, twins and poles; satellites nearer to the border than "
              "the tolerance are not judged; distinct = distinct (search, satellite) pairs that are inside, or outside but within 30 degrees of the border")
    jobs = []
    rng = c.rng
    for i in range(c.n(12, 120)):
        dt = rng.choice([1, 1, 20, 60, 300, -60, -1, 900, 1200, 3600, -1800])
        obs = sky.pick_obs(rng)
        if i % 4 == 3:
            from checks.c12 import polar_sat
            s = sky.Scene(rng, 70, dt=dt, obs=obs, mjd=rng.uniform(50000, 60000), maker=lambda r, n, m: polar_sat(r, n, m, obs))
        elif i % 4 == 2:     # satellites passing overhead, some of them right by a high observer
            if i % 8 == 6: obs = sky.Obs(obs.lat, obs.lon, round(rng.uniform(1.5e5, 6e5), 1))
            s = sky.Scene(rng, 60, dt=rng.choice([1, 2, 5, 10, 20, 30, -5, -20]), obs=obs, mjd=round(rng.uniform(50000, 62000), 5), maker=lambda r, n, m: sky.overhead(r, n, m, obs, off=8, h=r.choice([10, 30, 100]) if obs.ht > 1e5 else None))
        else:
            s = sky.Scene(rng, 90, dt=dt, obs=obs)
        good = [e for e in s.exp if e.err is None]
        for j in range(c.n(10, 24)):
            e = rng.choice(good)
            kind = rng.choice(["sat", "sat", "near", "ra0", "ra0", "pole", "zenith", "any", "sat2", "edge", "edge"])
            if i % 4 == 2 and rng.random() < .5: kind = "sat2"; e = max((rng.choice(good) for _ in range(4)), key=lambda q: ref.sep(q.ra, q.dec, q.ra1, q.dec1))
            if j == 0: kind = "across"
            if i % 4 == 3 and rng.random() < .5: kind = rng.choice(["pole", "sat", "edge"])
            hav = rng.random() < .6
            r = rng.choice([rng.uniform(0.5, 5), rng.uniform(5, 60), rng.uniform(60, 179), 20, 10, rng.choice([0, -1, -200, 180, 180.5, 200, 359, 400, 1e6, 179.9])])
            if kind == "sat": ra0, de0 = e.ra, e.dec
            elif kind == "near": ra0, de0 = e.ra + rng.uniform(-15, 15), e.dec + rng.uniform(-15, 15)
            elif kind == "sat2":     # near the end of a track, small radius: found through the second epoch
                ra0, de0 = e.ra1, e.dec1; r = max(0.01, rng.uniform(0.2, 0.8) * ref.sep(e.ra, e.dec, e.ra1, e.dec1))
            elif kind == "ra0": ra0, de0 = rng.choice([0.0, 359.999, 0.001, rng.uniform(-8, 8)]), rng.uniform(-85, 85)
            elif kind == "across":   # a satellite on the other side of RA 0
                e = min(good, key=lambda q: abs(ref.wrap180(q.ra))); w = ref.wrap180(e.ra)
                ra0, de0 = (rng.uniform(-12, 0) if w > 0 else rng.uniform(0, 12)), e.dec + rng.uniform(-6, 6); r = abs(w) + 30; hav = i % 3 == 0
            elif kind == "pole": ra0, de0 = rng.uniform(0, 360), rng.choice([90, -90, 1, -1, 1, -1]); \
                de0 = de0 if abs(de0) == 90 else de0 * rng.uniform(85, 89.999)
            elif kind == "any": ra0, de0 = rng.uniform(0, 360), rng.uniform(-90, 90)
            elif kind == "zenith": ra0 = de0 = None
            elif kind == "edge":     # border just beside a satellite, on either side
                ra0, de0 = e.ra + rng.uniform(-25, 25), max(-90, min(90, e.dec + rng.uniform(-25, 25)))
                ra0 = ref.wrap360(ra0); 
                m = slack(e, hav, False) * 3 + 3e-4
                r = max(0.01, seps(e, ra0, de0, hav, False) + rng.choice([1, -1]) * m)
            if ra0 is not None:
                ra0 = round(ref.wrap360(ra0), 5) % 360; de0 = round(max(-90, min(90, de0)), 5)
                if rng.random() < .2 and ra0 > 0: ra0 = round(ra0 - 360, 5) if rng.random() < 0 else ra0
            r = round(r, 5)
            args = ["-r%r" % r] + (["-H"] if hav else []) + ([] if ra0 is None else ["-p%r,%r" % (ra0, de0)])
            if rng.random() < .15: args.append("-G")
            jobs.append((s, args, ra0, de0, r, hav, kind))
        # default radius and one with no radius given
        jobs.append((s, ["-H", "-p%.4f,%.4f" % (good[0].ra, good[0].dec)], round(good[0].ra, 4), round(good[0].dec, 4), 20.0, True, "default radius"))
    runs = pmap(lambda j: j[0].run(j[1]), jobs)
    for k, ((s, args, ra0, de0, r, hav, kind), rn) in enumerate(zip(jobs, runs)):
        if not sky.ok_report(c, rn, "search"): continue
        if ra0 is None:
            ra0, de0 = ref.wrap360(ref.gmst_hours(s.mjd + ref.JD_OFF) * 15 + s.obs.lon), s.obs.lat
        got = dict(sky.sats_of(rn))
        reg = rn.json["input_params"]["region"]
        c.check(abs(ref.wrap180(reg["ra"] - ra0)) < 2e-4 and abs(reg["dec"] - de0) < 1e-4 and abs(reg["radius"] - r) < 1e-4, "region",
                "the region used is %r, requested %r %r %r: %s" % (reg, ra0, de0, r, rn.shell()), argv=rn.argv)
        for e in s.exp:
            if e.err is not None: continue
            d0, d1 = seps(e, ra0, de0, hav, False), seps(e, ra0, de0, hav, True)
            m0, m1 = slack(e, hav, False), slack(e, hav, True)
            mp = 0.0 if hav else 0.0
            inside = d0 <= r or d1 <= r
            border = min(abs(d0 - r) - m0, abs(d1 - r) - m1 if d0 > r - m0 else 1)
            x = got.get(e.sat.norad)
            # RA differences near 180 degrees may be taken either way
            if not hav and (abs(abs(ref.wrap180(e.ra - ra0)) - 180) < 1e-3 or abs(e.dec) > 89.95): continue
            if not hav and abs(e.dec1) > 89.95: continue
            # precession next to the pole is only good to its first order
            if border < 0: c.count("not judged (on the border)"); continue
            c.ev((k, e.sat.norad) if inside or min(d0, d1) < r + 30 else None)
            c.count("centre: " + kind)
            if inside: c.count("inside"); c.count("inside only at the second epoch", int(d0 > r)); c.count("inside only at the second epoch, faster than a degree per second", int(d0 > r and d0 - d1 > abs(s.dt)))
            else: c.count("outside")
            if inside != (x is not None):
                c.violation("selection:" + ("haversine" if hav else "plane"),
                            "%s %s listed but is %s the region: distances %.5f and %.5f from (%r, %r), radius %r: %s" %
                            (e.sat.num, "is" if x else "is not", "inside" if inside else "outside", d0, d1, ra0, de0, r, rn.shell()), tle=e.sat.text, argv=rn.argv)
            elif x is not None and abs(x["data"][5] - d0) > m0 + 6e-5:
                c.violation("separation", "%s: separation %.4f printed, %.5f expected: %s" % (e.sat.num, x["data"][5], d0, rn.shell()), tle=e.sat.text, argv=rn.argv)
        extra = set(got) - {e.sat.norad for e in s.exp if e.err is None}
        c.check(not extra, "invented", "satellites that should not be there: %r" % extra, argv=rn.argv)
        if k % 40 == 0: c.sample(dict(args=args, inside=len(got), of=len(s.exp)))
