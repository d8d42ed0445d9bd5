from math import pi, sin, cos, sqrt, acos, atan2, nextafter, inf, asin
from vk import lib, sky, ref, healref as H
from vk.run import pmap
from checks.c12 import polar_sat

F = lib.F
POW = [1 << k for k in range(30)]
ODD = [3, 5, 6, 7, 12, 100, 1000, 1023, 4097, 8191, 12345, 999999, 2 ** 29 - 1]

def direction(rng, ns):
    """(theta, phi, kind)"""
    k = rng.random()
    shift = rng.choice([0, 0, 0, 2 * pi, -2 * pi, 4 * pi, -20 * pi, 2 * pi * rng.randint(-100, 100)])
    if k < .2: return acos(rng.uniform(-1, 1)), rng.uniform(-pi, 3 * pi) + shift, "anywhere"
    if k < .6:                       # relative to a pixel: its centre, next to a side or corner
        q = rng.random()
        p = rng.choice([rng.randrange(12 * ns * ns), rng.randrange(12 * ns * ns), rng.randrange(min(12 * ns * ns, 40)), 12 * ns * ns - 1 - rng.randrange(min(12 * ns * ns, 40))])
        X, Y, c, z, s, phi = H.centre(ns, p, False)
        if q < .2: return atan2(s, z), phi + shift, "centre"
        m = .5 * (1 - rng.choice([1e-3, 1e-2, .1, .3, -1e-3, -1e-2])) / ns
        a, b = rng.choice([(m, rng.uniform(-m, m)), (-m, rng.uniform(-m, m)), (rng.uniform(-m, m), m), (rng.uniform(-m, m), -m), (m, m), (m, -m), (-m, m), (-m, -m)])
        X += (a - b) / 2; Y += (a + b) / 2
        Y = max(-1, min(1, Y))
        if abs(Y) <= .5: return acos(Y * 4 / 3), X * pi / 2 + shift, "near a side"
        g = 2 * (1 - abs(Y)); c = X // 1 + .5
        tt = c + max(-.5, min(.5, (X - c) / g)) if g > 0 else c
        th = 2 * asin(g / sqrt(6))
        return (th if Y > 0 else pi - th), tt * pi / 2 + shift, "near a side"
    if k < .75:                      # face edges
        j = rng.randint(-4, 8); e = rng.choice([0, 0, 1e-15, -1e-15, 1e-9, -1e-9, rng.uniform(-2, 2) / ns])
        return acos(rng.choice([rng.uniform(-1, 1), rng.uniform(2 / 3, 1), rng.uniform(-1, -2 / 3)])), j * pi / 4 + e, "face edge"
    if k < .85:                      # belt limits and equator
        z = rng.choice([2 / 3, -2 / 3, 0]) + rng.choice([0, 0, 1e-16, -1e-16, 1e-12, -1e-12, 1e-6, -1e-6])
        return acos(z), rng.choice([rng.uniform(0, 2 * pi), rng.randint(-8, 8) * pi / 4, rng.randint(0, 4 * ns) * pi / 2 / ns]) + shift, "belt limit"
    if k < .97:
        t = rng.choice([0, 1e-300, 1e-16, 1e-9, rng.uniform(0, 1) / ns, rng.uniform(0, 1e-4), rng.uniform(0, 4) / ns])
        t = min(t, pi)
        t = rng.choice([t, pi - t])
        return t, rng.choice([rng.uniform(-10, 10), rng.randint(-4, 8) * pi / 2]), "pole"
    return acos(rng.uniform(-1, 1)), rng.choice([nextafter(2 * pi, 0), 2 * pi, nextafter(2 * pi, 9), -1e-300, -5e-324, -1e-17, -2 * pi, 1e6 * rng.uniform(-1, 1), nextafter(0, -1), 0.0, -0.0]), "longitude limit"

def judge(c, ns, theta, phi, w, what, cmd):
    sg = sqrt(6) * min(sin(theta / 2), cos(theta / 2)); tt = phi / (pi / 2); z = cos(theta)
    e = 4e-15 * ns * (1 + abs(phi)) + 1e-13
    e32 = e + ns * min(4e-16 / max(sg, 1e-300), 5e-8)
    got = [int(x) for x in w]
    pow2 = ns & (ns - 1) == 0
    for k, name, nest, eps in ((0, "ring", False, e32), (1, "nest", True, e32), (2, "ring64", False, e), (3, "nest64", True, e)):
        if (nest and not pow2) or (k < 2 and ns > 8192): continue
        p = got[k]
        c.count("%s assignments" % name)
        if not 0 <= p < 12 * ns * ns: c.violation(what + ":" + name, "nside %d theta %r phi %r: %s pixel %d" % (ns, theta, phi, name, p), cmd=cmd); return
        o = H.outside(ns, p, nest, z, sg, tt)
        if o > eps: c.violation(what + ":" + name, "nside %d theta %r phi %r: %s pixel %d does not contain it (%.3g pixel sides outside)" % (ns, theta, phi, name, p, o), cmd=cmd); return
        inner = -o > 4 * e32 + 1e-6
        if inner: c.count("directions clear of pixel sides")
        # all functions agree when the direction is clear of the sides
        if k == 2 and ns <= 8192 and inner and got[0] != got[2] or k == 3 and ns <= 8192 and inner and got[1] != got[3]:
            c.violation(what + ":agree", "nside %d theta %r phi %r: 32-bit and 64-bit functions give %r" % (ns, theta, phi, got), cmd=cmd); return

def run(c):
    c.rule = ("directions anywhere, in and around random pixels (centres, sides, corners), on face edges, at the belt limits, poles and longitude limits, resolutions 1..2^29 (any for ring): the pixel returned by each angle and vector "
              "function must contain the direction in an independent model of the tessellation; printed identifiers against printed positions; one evaluation per direction; distinct = distinct (resolution, direction)")
    rng = c.rng
    cmds, jobs = [], []
    for i in range(c.n(16000, 800000)):
        ns = rng.choice(POW) if rng.random() < .75 else rng.choice(ODD + [rng.randint(1, 8192)])
        if rng.random() < .3: ns = rng.choice([1, 2, 4, 256])
        t, f, kind = direction(rng, ns)
        t = float(min(max(t, 0.0), pi)); f = float(f)
        if rng.random() < .6: cmds.append("a%d %s %s" % (ns, t.hex(), f.hex())); jobs.append((ns, t, f, "angle", kind))
        else:
            sc = rng.choice([1, 1, 3.7, 1e-9, 1e12, 1e-100, 1e100])
            # the vector's own direction, recomputed from its components
            v = [sin(t) * cos(f) * sc, sin(t) * sin(f) * sc, cos(t) * sc]
            if rng.random() < .05: v = rng.choice([[0.0, 0.0, 1.0], [0.0, 0.0, -2.5], [-0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [-1.0, -0.0, 0.0], [-1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [1.0, 1.0, 0.0], [1.0, -0.0, 1e-300]])
            m = max(map(abs, v)); u = [x / m for x in v]
            t2 = atan2(sqrt(u[0] ** 2 + u[1] ** 2), u[2]); f2 = atan2(u[1], u[0])
            cmds.append("v%d %s %s %s" % (ns, *(x.hex() for x in v))); jobs.append((ns, t2, f2, "vector", kind))
    try:
        res = lib.hpx(cmds)
        n = c.n(3000, 60000)
        lib.hpx(cmds[:n], "asan"); c.count("directions under the sanitizers", n)
    except lib.LibCrash as x: c.violation("crash", "the library stopped at %r (%s): %s" % (x.cmd, x.rc, x.err), cmd=x.cmd); return
    for cmd, (ns, t, f, what, kind), w in zip(cmds, jobs, res):
        c.ev((ns, t, f)); c.count(kind)
        judge(c, ns, t, f, w, what, cmd)
    c.sample(dict(cmd=cmds[0], answer=res[0]))
    # identifiers printed by sat_skymap
    def mk(i):
        o = sky.pick_obs(rng); mjd = rng.uniform(40000, 65000)
        if i % 3 == 1: o = sky.corner_obs(rng, round(mjd, 5))
        return sky.Scene(rng, 80, mjd=mjd, obs=o, maker=(lambda r, n, m: polar_sat(r, n, m, o)) if i % 3 == 0 else (lambda r, n, m: sky.overhead(r, n, m, o)) if i % 3 == 1 else None)
    sc = [mk(i) for i in range(c.n(18, 160))]
    for s, r in zip(sc, pmap(lambda s: s.run(["-H", "-r400", "-n0", "-t600"]), sc)):
        if not sky.ok_report(c, r, "run"): continue
        for num, x in sky.sats_of(r):
            ra, dec, pix = x["data"][0], x["data"][1], x["data"][9]
            c.ev(("sky", ra, dec)); c.count("printed identifiers")
            th = (90 - dec) * pi / 180
            sg = sqrt(6) * min(abs(sin(th / 2)), abs(cos(th / 2)))
            o = H.outside(256, pix, True, cos(th), sg, ra / 90) if isinstance(pix, int) and 0 <= pix < 12 * 65536 else 9
            lim = 256 * 1e-4 * pi / 180 * 1.3 + 256 * sg * 6e-5 / 90
            if o > lim: c.violation("printed", "satellite %s at RA %.4f Dec %.4f: HPXID_8 %r does not contain it (%.4f sides outside): %s" % (num, ra, dec, pix, o, r.shell()), argv=r.argv)
