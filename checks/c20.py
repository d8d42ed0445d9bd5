from math import pi, sin, cos, sqrt, acos, atan2
from vk import lib, healref as H
from vk.run import pmap

F = lib.F

def pixel(rng, ns):
    np = 12 * ns * ns; cap = 2 * ns * (ns - 1)
    k = rng.random()
    if k < .35: return rng.randrange(np)
    if k < .5: return min(np - 1, rng.choice([0, 1, 2, 3, 4, 5, 11, 12, 13]))
    if k < .6: return max(0, np - 1 - rng.choice([0, 1, 2, 3, 4, 5, 11, 12, 13]))
    if k < .7: return max(0, min(np - 1, rng.choice([cap, np - cap]) + rng.randint(-4, 4)))
    if k < .85:                            # first and last of a ring
        i = rng.randint(1, 4 * ns - 1)
        return max(0, min(np - 1, H.ring_num(ns, i, 0) + rng.choice([-2, -1, 0, 1])))
    f = rng.randrange(12)                  # corners of faces (nested)
    return max(0, min(np - 1, f * ns * ns + rng.choice([0, 1, ns * ns - 1, ns * ns // 3, 2 * ns * ns // 3, -1])))

def run(c):
    c.rule = ("pixel numbers of resolutions 1..2^29 (any resolution in the ring scheme): conversions against an independent exact model, centres in both schemes, ring order, hierarchy, counts and vectors; the conversions of every pixel of "
              "the small resolutions as bijections; one evaluation per pixel or per count; distinct = distinct (resolution, pixel)")
    rng = c.rng
    pow2 = [1 << k for k in range(30)]
    cmds, jobs = [], []
    for ns in (1, 2, 4, 8) + ((16, 32) if c.thorough else ()):
        for p in range(12 * ns * ns): cmds.append("p%d %d" % (ns, p)); jobs.append(("p", ns, p))
    for ns in (3, 5, 6, 7):
        for p in range(12 * ns * ns): cmds.append("p%d %d" % (ns, p)); jobs.append(("p", ns, p))
    for i in range(c.n(12000, 500000)):
        ns = rng.choice(pow2) if rng.random() < .8 else rng.choice([9, 10, 100, 1000, 1023, 4095, 8191, 12345, 10 ** 6, 10 ** 8, 2 ** 29 - 1, rng.randint(1, 8192), rng.randint(1, 2 ** 29)])
        p = pixel(rng, ns); cmds.append("p%d %d" % (ns, p)); jobs.append(("p", ns, p))
    for i in range(c.n(1500, 40000)):
        ns = rng.choice([rng.randint(1, 2 ** 29), rng.choice(pow2), rng.randint(1, 8192), 2 ** 29 - rng.randint(0, 5), 8192, 8191])
        n = 12 * ns * ns; cmds.append("s%d" % ns); jobs.append(("s", ns))
        for m in (n, n + rng.choice([1, -1, 12, -12, 6, -11]), rng.randint(0, n)): cmds.append("c%d" % m); jobs.append(("c", m))
        t = rng.choice([acos(rng.uniform(-1, 1)), 0.0, pi, pi / 2, 1e-12, pi - 1e-12, rng.uniform(0, 1e-3)]); f = rng.choice([rng.uniform(-20, 20), 0.0, pi, -pi, 2 * pi, -1e-16, pi / 2])
        cmds.append("w%s %s" % (t.hex(), f.hex())); jobs.append(("w", t, f))
        v = [rng.gauss(0, 1) * 10 ** rng.randint(-6, 6) for _ in range(3)]
        if rng.random() < .2: v[rng.randrange(3)] = 0.0
        if any(v): cmds.append("x%s %s %s" % tuple(x.hex() for x in v)); jobs.append(("x", v))
    big = [1, 2, 4, 16, 64, 256, 512] + ([1024, 2048, 32, 128, 8] if c.thorough else [])
    nb = len(cmds)
    try:
        res = lib.hpx(cmds)
        lib.hpx(cmds[::5], "asan"); c.count("answers under the sanitizers", len(cmds[::5]))
        bij = pmap(lambda n: lib.hpx(["B%d" % n])[0], big)
    except lib.LibCrash as x: c.violation("crash", "the library stopped at %r (%s): %s" % (x.cmd, x.rc, x.err), cmd=x.cmd); return
    for n, w in zip(big, bij):
        c.ev(("bijection", n)); c.count("pixels of complete bijections", int(w[0]))
        if w[1] != "-1": c.violation("bijection", "nside %d pixel %s: conversion fails (%s)" % (n, w[1], ["", "nest2ring out of range", "two nested pixels give the same ring pixel", "ring2nest does not invert nest2ring", "ring2nest out of range or not one to one", "32-bit nest2ring differs", "32-bit ring2nest differs"][int(w[2])]), nside=n)
    rings, nests = [], []
    for cmd, j, w in zip(cmds, jobs, res):
        c.ev(j if j[0] != "x" else tuple(j[1]))
        if j[0] == "p":
            _, ns, p = j; p2 = ns & (ns - 1) == 0
            n2r, r2n, n2r64, r2n64 = map(int, w[20:24])
            if p2:
                e = H.nest_to_ring(ns, p); c.count("conversions")
                rings.append((ns, e, p))
                if n2r64 != e or (ns <= 8192 and n2r != e): c.violation("nest2ring", "nside %d nested pixel %d: ring %d (32-bit), %d (64-bit), expected %d" % (ns, p, n2r, n2r64, e), cmd=cmd)
                if not 0 <= r2n64 < 12 * ns * ns or H.nest_to_ring(ns, r2n64) != p or (ns <= 8192 and r2n != r2n64): c.violation("ring2nest", "nside %d ring pixel %d: nested %d (32-bit), %d (64-bit)" % (ns, p, r2n, r2n64), cmd=cmd)
            elif n2r64 != -1 or r2n64 != -1 or (ns <= 8192 and (n2r != -1 or r2n != -1)): c.violation("nopower", "nside %d: conversion of pixel %d gives %r" % (ns, p, w[20:24]), cmd=cmd)
            for k, name in enumerate(("ring", "nest", "ring64", "nest64")):
                th, ph, x, y, z = (F(v) for v in w[5 * k:5 * k + 5])
                if (k < 2 and ns > 8192) or (k % 2 and not p2): continue
                X, Y, cc, ez, es, ep = H.centre(ns, p, k % 2)
                eth = atan2(es, ez); c.count("centres")
                tol = 3e-15 + (1e-15 / max(es, 1e-8) if k < 2 or abs(ez) <= .99 else 2e-15 * es)
                dphi = abs(ph - ep)
                if not (0 <= ph < 2 * pi + 1e-15 and 0 <= th <= pi): c.violation("range:" + name, "nside %d pixel %d: %s centre theta %r phi %r" % (ns, p, name, th, ph), cmd=cmd); break
                if abs(th - eth) > tol or dphi > 4e-15: c.violation("centre:" + name, "nside %d pixel %d: %s centre theta %r phi %r, expected %r %r" % (ns, p, name, th, ph, eth, ep), cmd=cmd); break
                d = (x - es * cos(ep), y - es * sin(ep), z - ez)
                if max(map(abs, d)) > tol + 3e-15: c.violation("vector:" + name, "nside %d pixel %d: %s vector %r, expected %r" % (ns, p, name, (x, y, z), (es * cos(ep), es * sin(ep), ez)), cmd=cmd); break
        elif j[0] == "s":
            c.count("pixel counts"); e = 12 * j[1] ** 2
            if int(w[1]) != e or (j[1] <= 8192 and int(w[0]) != e): c.violation("nside2npix", "nside %d: %s and %s pixels, expected %d" % (j[1], w[0], w[1], e), cmd=cmd)
        elif j[0] == "c":
            from math import isqrt
            c.count("resolutions from counts"); m = j[1]; n = isqrt(m // 12); e = n if 12 * n * n == m else -1
            if m == 0: continue
            if int(w[1]) != e or (w[0] != "-9" and m <= 12 * 8192 ** 2 and int(w[0]) != e): c.violation("npix2nside", "%d pixels: resolution %s and %s, expected %d" % (m, w[0], w[1], e), cmd=cmd)
        elif j[0] == "w":
            x, y, z, t2, f2 = (F(v) for v in w); t, f = j[1:]
            e = (sin(t) * cos(f), sin(t) * sin(f), cos(t)); c.count("vectors")
            if max(abs(x - e[0]), abs(y - e[1]), abs(z - e[2])) > 4e-16 * (1 + abs(f)): c.violation("ang2vec", "theta %r phi %r: vector %r, expected %r" % (t, f, (x, y, z), e), cmd=cmd)
            d = (f2 - f + pi) % (2 * pi) - pi
            if abs(t2 - t) > 1e-15 * 4 or (sin(t) > 1e-12 and abs(d) > 1e-14 * (1 + abs(f))) or not 0 <= f2 <= 2 * pi or not 0 <= t2 <= pi: c.violation("vec2ang", "theta %r phi %r comes back as %r %r" % (t, f, t2, f2), cmd=cmd)
        else:
            t2, f2 = (F(v) for v in w); v = j[1]; c.count("vectors")
            t = atan2(sqrt(v[0] ** 2 + v[1] ** 2), v[2]); f = atan2(v[1], v[0]) % (2 * pi)
            if abs(t2 - t) > 4e-15 or abs((f2 - f + pi) % (2 * pi) - pi) > 4e-15 or not 0 <= f2 <= 2 * pi: c.violation("vec2ang", "vector %r: theta %r phi %r, expected %r %r" % (v, t2, f2, t, f), cmd=cmd)
    # order: north to south, then eastward, from the reported centres themselves
    cm, prs = [], []
    for i in range(c.n(1500, 30000)):
        ns = rng.choice([1, 2, 4, 16, 256, 1024, 8192, 2 ** 20, 2 ** 29, rng.randint(1, 8192)]); np = 12 * ns * ns
        p = min(pixel(rng, ns), np - 2); q = rng.choice([p + 1, rng.randrange(p + 1, np)])
        cm += ["p%d %d" % (ns, p), "p%d %d" % (ns, q)]; prs.append((ns, p, q))
    kids = []
    for i in range(c.n(1500, 30000)):
        k = rng.randint(0, 28); ns = 1 << k; p = pixel(rng, ns); kids.append((ns, p))
    ca = ["p%d %d" % (ns, p) for ns, p in kids] + ["p%d %d" % (2 * ns, 4 * p + r) for ns, p in kids for r in range(4)]
    a = lib.hpx(cm); b = lib.hpx(ca)
    for i, (ns, p, q) in enumerate(prs):
        c.ev(("order", ns, p, q)); c.count("ordered pairs")
        for k, off in (("ring", 0), ("ring64", 10)):
            if k == "ring" and ns > 8192: continue
            z1, z2 = F(a[2 * i][off + 4]), F(a[2 * i + 1][off + 4]); f1, f2 = F(a[2 * i][off + 1]), F(a[2 * i + 1][off + 1])
            t1, t2 = F(a[2 * i][off]), F(a[2 * i + 1][off])
            if not (t1 < t2 - 1e-15 or (abs(t1 - t2) <= 1e-15 * 4 and f1 < f2)) and not (ns > 2 ** 25 and abs(t1 - t2) < 1e-8): c.violation("order", "nside %d: %s pixel %d at theta %r phi %r, pixel %d at %r %r" % (ns, k, p, t1, f1, q, t2, f2), cmds=cm[2 * i:2 * i + 2])
    # hierarchy: the centres of the children lie in the parent
    cc = []
    for i, (ns, p) in enumerate(kids):
        for r in range(4):
            w = b[len(kids) + 4 * i + r]; cc.append("a%d %s %s" % (ns, w[15], w[16]))
    d = lib.hpx(cc)
    for i, (ns, p) in enumerate(kids):
        c.ev(("children", ns, p)); c.count("parents")
        if any(int(d[4 * i + r][3]) != p for r in range(4)): c.violation("hierarchy", "nside %d nested pixel %d: the centres of pixels %d..%d at nside %d lie in %r" % (ns, p, 4 * p, 4 * p + 3, 2 * ns, [x[3] for x in d[4 * i:4 * i + 4]]), nside=ns, pixel=p)
