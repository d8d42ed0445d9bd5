from math import pi, sin, cos, floor
from vk import ref, lib
from vk.run import pmap

F = lib.F
D2R = pi / 180

# IAU 1980 series, terms of 0.0003" and more (Meeus, Astronomical Algorithms, table 22.A): D M M' F Om, sine (and per century), cosine (and per century), 0.0001"
T = """0 0 0 0 1 -171996 -174.2 92025 8.9
-2 0 0 2 2 -13187 -1.6 5736 -3.1
0 0 0 2 2 -2274 -.2 977 -.5
0 0 0 0 2 2062 .2 -895 .5
0 1 0 0 0 1426 -3.4 54 -.1
0 0 1 0 0 712 .1 -7 0
-2 1 0 2 2 -517 1.2 224 -.6
0 0 0 2 1 -386 -.4 200 0
0 0 1 2 2 -301 0 129 -.1
-2 -1 0 2 2 217 -.5 -95 .3
-2 0 1 0 0 -158 0 0 0
-2 0 0 2 1 129 .1 -70 0
0 0 -1 2 2 123 0 -53 0
2 0 0 0 0 63 0 0 0
0 0 1 0 1 63 .1 -33 0
2 0 -1 2 2 -59 0 26 0
0 0 -1 0 1 -58 -.1 32 0
0 0 1 2 1 -51 0 27 0
-2 0 2 0 0 48 0 0 0
0 0 -2 2 1 46 0 -24 0
2 0 0 2 2 -38 0 16 0
0 0 2 2 2 -31 0 13 0
0 0 2 0 0 29 0 0 0
-2 0 1 2 2 29 0 -12 0
0 0 0 2 0 26 0 0 0
-2 0 0 2 0 -22 0 0 0
0 0 -1 2 1 21 0 -10 0
0 2 0 0 0 17 -.1 0 0
2 0 -1 0 1 16 0 -8 0
-2 2 0 2 2 -16 .1 7 0
0 1 0 0 1 -15 0 9 0
-2 0 1 0 1 -13 0 7 0
0 -1 0 0 1 -12 0 6 0
0 0 2 -2 0 11 0 0 0
2 0 -1 2 1 -10 0 5 0
2 0 1 2 2 -8 0 3 0
0 1 0 2 2 7 0 -3 0
-2 1 1 0 0 -7 0 0 0
0 -1 0 2 2 -7 0 3 0
2 0 0 2 1 -7 0 3 0
2 0 1 0 0 6 0 0 0
-2 0 2 2 2 6 0 -3 0
-2 0 1 2 1 6 0 -3 0
2 0 -2 0 1 -6 0 3 0
2 0 0 0 1 -6 0 3 0
0 -1 1 0 0 5 0 0 0
-2 -1 0 2 1 -5 0 3 0
-2 0 0 0 1 -5 0 3 0
0 0 2 2 1 -5 0 3 0
-2 0 2 0 1 4 0 0 0
-2 1 0 2 1 4 0 0 0
0 0 1 -2 0 4 0 0 0
-1 0 1 0 0 -4 0 0 0
-2 1 0 0 0 -4 0 0 0
1 0 0 0 0 -4 0 0 0
0 0 1 2 0 3 0 0 0
0 0 -2 2 2 -3 0 0 0
-1 -1 1 0 0 -3 0 0 0
0 1 1 0 0 -3 0 0 0
0 -1 1 2 2 -3 0 0 0
2 -1 -1 2 2 -3 0 0 0
0 0 3 2 2 -3 0 0 0
2 -1 0 2 2 -3 0 0 0"""
TERMS = [[float(x) for x in l.split()] for l in T.splitlines()]

def nutation(t):
    a = [297.85036 + t * (445267.111480 + t * (-.0019142 + t / 189474)), 357.52772 + t * (35999.050340 + t * (-.0001603 - t / 300000)),
         134.96298 + t * (477198.867398 + t * (.0086972 + t / 56250)), 93.27191 + t * (483202.017538 + t * (-.0036825 + t / 327270)),
         125.04452 + t * (-1934.136261 + t * (.0020708 + t / 450000))]
    p = e = 0
    for r in TERMS:
        x = sum(k * v for k, v in zip(r, a)) * D2R
        p += (r[5] + r[6] * t) * sin(x); e += (r[7] + r[8] * t) * cos(x)
    return p * 1e-4, e * 1e-4

def obliquity(t): return (84381.448 - 46.8150 * t - .00059 * t * t + .001813 * t ** 3) / 3600

w12 = lambda x: x - 24 * floor((x + 12) / 24)

# published: Meeus examples 22.a and 12.a (JDE, dpsi ", deps ", mean obliquity deg, true obliquity deg)
PUB = [(2446895.5, -3.788, 9.443, 23 + 26 / 60 + 27.407 / 3600, 23 + 26 / 60 + 36.850 / 3600)]

def run(c):
    c.rule = ("instants 1900-2100 in random order and in sequences with steps around the reuse interval: nutation, obliquities and equation of the equinoxes against the IAU 1980 series (terms of 0.3 mas and more) and published "
              "examples; apparent sidereal time and apparent zenith against mean ones plus the equation; one evaluation per call; distinct = distinct instants")
    rng = c.rng
    seq = []
    for i in range(c.n(1500, 40000)):
        jd = rng.choice([rng.uniform(2415020.5, 2488069.5), rng.uniform(2415020.5, 2488069.5), rng.uniform(2435839, 2472320), float(rng.randint(2415021, 2488069)) + .5])
        seq.append(jd)
        if i % 20 == 0:                    # sidereal time next to 0h, where the equation of the equinoxes decides the day
            seq.append(jd - w12(ref.gmst_hours(jd)) / 24 / 1.0027379 + rng.uniform(-2e-5, 2e-5) * rng.random())
        k = rng.random()
        if k < .3:                         # sequences around the reuse interval
            x = jd
            for _ in range(rng.randint(2, 12)): x += rng.choice([.002, .006, .0099, .0101, -.004, -.0101, .03, 1.0, 1e-6]); seq.append(x)
        elif k < .4 and len(seq) > 3: seq.append(seq[rng.randint(0, len(seq) - 2)])
    # published values as well
    cmds, jobs = [], []
    for p in PUB: cmds.append("e" + float.hex(p[0])); jobs.append(("p", p))
    for jd in seq:
        lon = rng.choice([rng.uniform(-180, 180), rng.uniform(0, 360), 0.0, 180.0, -180.0, 360.0])
        cmds.append("e" + float.hex(jd)); jobs.append(("e", jd))
        cmds.append("n" + float.hex((jd - 2451545.0) / 36525)); jobs.append(("n", jd))
        cmds.append("g%s %s" % (float.hex(jd), float.hex(lon))); jobs.append(("g", jd, lon))
        if rng.random() < .5: cmds.append("z%s %s" % (float.hex(jd - ref.JD_OFF), float.hex(lon))); jobs.append(("z", jd, lon))
    inner = lib.batch(["n0x0p+0"])[0][0] != "nan"      # the series' function is no longer visible: only through earthtilt
    if not inner: k = [i for i, j in enumerate(jobs) if j[0] != "n"]; cmds = [cmds[i] for i in k]; jobs = [jobs[i] for i in k]
    try: res = [x for p in pmap(lambda a: lib.batch(cmds[a:a + 3000]), range(0, len(cmds), 3000)) for x in p]
    except lib.LibCrash as x: c.violation("crash", "the library stopped at %r (%s): %s" % (x.cmd, x.rc, x.err), cmd=x.cmd); return
    w24 = lambda x: x - 24 * floor((x + 12) / 24)
    worst = [0, 0]
    lim = .005
    for j, w in zip(jobs, res):
        v = [F(x) for x in w]
        c.ev(j[:2] if j[0] != "p" else None); jd = j[1] if j[0] != "p" else j[1][0]
        t = (jd - 2451545.0) / 36525
        dp, de = nutation(t)
        # within the reuse interval the nutation changes by at most 0.01 d x 0.3"/d
        slack = .004
        mo = obliquity(t); eq = dp / 15 * cos((mo + de / 3600) * D2R)
        what = "JD %.6f: " % jd
        if j[0] == "n":
            worst = [max(worst[0], abs(v[0] - dp)), max(worst[1], abs(v[1] - de))]
            c.count("nutation values")
            if not (abs(v[0] - dp) < lim and abs(v[1] - de) < lim): c.violation("nutation", what + "nutation %.5f %.5f arcsec, expected %.5f %.5f" % (v[0], v[1], dp, de), jd=jd)
        elif j[0] in "ep":
            c.count("orientations")
            if not (abs(v[3] - dp) < lim + slack and abs(v[4] - de) < lim + slack): c.violation("tilt:nutation", what + "nutation %.5f %.5f arcsec, expected %.5f %.5f" % (v[3], v[4], dp, de), jd=jd)
            elif not abs(v[0] - mo) * 3600 < lim or not abs(v[1] - mo - de / 3600) * 3600 < lim + slack: c.violation("tilt:obliquity", what + "obliquities %.8f %.8f deg, expected %.8f %.8f" % (v[0], v[1], mo, mo + de / 3600), jd=jd)
            elif not abs(v[2] - eq) < (lim + slack) / 15: c.violation("tilt:equinoxes", what + "equation of the equinoxes %.6f s, expected %.6f" % (v[2], eq), jd=jd)
            # its parts belong together
            elif abs(v[1] - v[0] - v[4] / 3600) > 1e-9 or abs(v[2] - v[3] / 15 * cos(v[1] * D2R)) > 1e-7 + 4e-5: c.violation("tilt:parts", what + "inconsistent values %r" % v, jd=jd)
            if j[0] == "p":
                p = j[1]
                if abs(v[3] - p[1]) > .003 or abs(v[4] - p[2]) > .003 or abs(v[0] - p[3]) * 3600 > .003 or abs(v[1] - p[4]) * 3600 > .004: c.violation("published", what + "%r, published %r" % (v, p), jd=jd)
        elif j[0] == "g":
            c.count("apparent sidereal times"); lon = j[2]; s = (lim + slack) / 15 / 3600
            g = ref.gmst_hours(jd)
            if not abs(w24(v[0] - g)) < 2.5e-5: c.violation("gmst", what + "mean sidereal time %.8f, expected %.8f" % (v[0], g), jd=jd)
            if not abs(w24(v[1] - v[0] - eq / 3600)) < s: c.violation("gast", what + "apparent sidereal time %.8f h, mean one %.8f plus equation %.8f" % (v[1], v[0], eq / 3600), jd=jd)
            if not abs(w24(v[2] - v[1] - lon / 15)) < 1e-9: c.violation("last", what + "local apparent sidereal time %.8f at longitude %r, Greenwich %.8f" % (v[2], lon, v[1]), jd=jd, lon=lon)
            if not (0 <= v[0] <= 24 and 0 <= v[1] <= 24 and 0 <= v[2] <= 24): c.violation("range", what + "sidereal times %r" % v, jd=jd, lon=lon)
        else:
            c.count("apparent zeniths"); lon = j[2]
            if not (0 <= v[0] <= 360 and 0 <= v[1] <= 360): c.violation("range", what + "zenith right ascensions %r" % v, jd=jd, lon=lon)
            if not abs(ref.wrap180(v[1] - v[0] - eq / 240)) < (lim + slack) / 3600: c.violation("zenith", what + "apparent zenith %.7f deg, mean one %.7f plus equation %.7f" % (v[1], v[0], eq / 240), jd=jd, lon=lon)
    c.count("largest difference of nutation, mas", round(max(worst) * 1000, 2))
    # published example: 1987 April 10 0h, mean and apparent sidereal time at Greenwich
    w = [F(x) for x in lib.batch(["g%s 0" % float.hex(2446895.5)])[0]]
    c.ev("meeus 12.a")
    c.check(abs(w[0] - (13 + 10 / 60 + 46.3668 / 3600)) * 3600 < .015 and abs(w[1] - (13 + 10 / 60 + 46.1351 / 3600)) * 3600 < .015, "published:sidereal", "1987 April 10 0h: sidereal times %r h" % w)
    # any order gives the same values, up to the reuse interval
    pts = [seq[k] for k in range(0, len(seq), max(1, len(seq) // c.n(300, 3000)))]
    a = lib.batch(["e" + float.hex(x) for x in pts]); order = list(range(len(pts))); rng.shuffle(order)
    b = lib.batch(["e" + float.hex(pts[k]) for k in order])
    for k, w in zip(order, b):
        c.ev(("order", pts[k])); c.count("same instants in another order")
        d = max(abs(F(x) - F(y)) * f for x, y, f in zip(w, a[k], (3600, 3600, 15, 1, 1)))
        if d > .004: c.violation("order", "JD %.6f: %r in one order, %r in another" % (pts[k], [F(x) for x in w], [F(x) for x in a[k]]), jd=pts[k])
