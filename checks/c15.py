from math import pi, floor, atan2, degrees
import os, tempfile
from vk import gen, ref, lib, sky
from vk import build as B
from vk.run import pmap

F = lib.F
def wrap12(x): return x - 24 * floor((x + 12) / 24)

def instant(rng):
    mjd = rng.choice([rng.uniform(35839, 72320), rng.uniform(35839, 72320), rng.uniform(15020, 90000), float(rng.randint(35839, 72319)), rng.randint(35839, 72319) + .5,
                      rng.randint(35839, 72319) + rng.choice([1e-6, 1 - 1e-6, .5 - 1e-6, .5 + 1e-6]), rng.uniform(51543, 51546), rng.uniform(51500, 51600)])
    if rng.random() < .15:          # sidereal midnight and the neighbourhood
        d = floor(mjd)
        g = ref.gmst_hours(d + ref.JD_OFF)
        mjd = d + ((24 - g) / 1.00273790934 + rng.choice([0, 1e-6, -1e-6, 1e-4, -1e-4])) / 24
    return mjd

def run(c):
    c.rule = ("instants 1900-2105 (day and half-day boundaries, J2000, sidereal midnight included) and east longitudes -180..360 degrees: lmst_hr, the observer's rotation, the zenith functions and sat_skymap's gmst / "
              "lmst / default region against the IAU 1982 expression and each other; one evaluation per (instant, longitude); distinct = distinct pairs")
    rng = c.rng
    cmds, jobs = [], []
    for i in range(c.n(20000, 400000)):
        mjd = instant(rng); jd = mjd + ref.JD_OFF
        lon = rng.choice([rng.uniform(-180, 180), rng.uniform(0, 360), 0.0, 180.0, -180.0, 360.0, rng.uniform(-1e-3, 1e-3)])
        lat = rng.uniform(-89, 89)
        g = ref.gmst_hours(jd)
        if rng.random() < .1: lon = -g * 15 + rng.choice([0, 1e-9, -1e-9, 1e-6, -1e-6]); lon = lon if lon >= -180 else lon + 360      # local sidereal time 0
        cmds += ["l%s %s" % (float.hex(jd), float.hex(lon)), "o%s %s %s 100" % (float.hex(jd), float.hex(lat * pi / 180), float.hex(lon * pi / 180)), "g%s %s" % (float.hex(jd), float.hex(lon)),
                 "z%s %s" % (float.hex(mjd), float.hex(lon))]
        jobs.append((jd, mjd, lon, lat, g))
    try: res = [x for p in pmap(lambda a: lib.batch(cmds[a:a + 8000]), range(0, len(cmds), 8000)) for x in p]
    except lib.LibCrash as x: c.violation("crash", "the library stopped at %r (%s): %s" % (x.cmd, x.rc, x.err), cmd=x.cmd); return
    ms = 1 / 3.6e6
    worst = 0
    for k, (jd, mjd, lon, lat, g) in enumerate(jobs):
        l, gm = [F(x) for x in res[4 * k]]; o = [F(x) for x in res[4 * k + 1]]; ug = F(res[4 * k + 2][0]); za = F(res[4 * k + 3][0])
        c.ev((jd, lon))
        what = "JD %.9f, longitude %r" % (jd, lon)
        L = g + lon / 15
        if not (0 <= gm <= 24 and abs(wrap12(gm - g)) < 1 * ms): c.violation("gmst", "%s: lmst_hr gives Greenwich sidereal time %.8f h, expected %.8f" % (what, gm, g), jd=jd, lon=lon)
        if not (0 <= l <= 24 and abs(wrap12(l - L)) < 1 * ms): c.violation("lmst", "%s: lmst_hr gives local sidereal time %.8f h, expected %.8f" % (what, l, L % 24), jd=jd, lon=lon)
        a = degrees(atan2(o[1], o[0])) / 15
        if not abs(wrap12(a - L)) < 3 * ms: c.violation("observer", "%s: the observer is turned by %.8f h, expected %.8f" % (what, a % 24, L % 24), jd=jd, lon=lon)
        zt = 15 if 35839 <= mjd <= 72320 else 60          # ut2gmst neglects the difference of the time scales in its precession
        worst = max(worst, abs(wrap12(ug - g)) / ms)
        if not (0 <= ug <= 24 and abs(wrap12(ug - g)) < zt * ms): c.violation("ut2gmst", "%s: ut2gmst gives %.8f h, lmst_hr %.8f" % (what, ug, gm), jd=jd)
        if not (0 <= za <= 360 and abs(wrap12(za / 15 - L)) < zt * ms): c.violation("zenith", "%s: zenith right ascension %.6f deg, expected %.6f" % (what, za, L * 15 % 360), jd=jd, lon=lon)
    c.count("largest difference of ut2gmst, ms", round(worst, 2))
    # the Earth turns: sidereal time grows by 1.00273790934 times the elapsed time
    d = tempfile.mkdtemp(dir=B.scratch())
    open(os.path.join(d, "c.txt"), "w").write(gen.make_sat(rng, 12345, year=2020, doy=100.5, bstar=0, **gen.leo(rng, "circ")).text)
    todo = []
    for i in range(c.n(250, 5000)):
        mjd = round(instant(rng), 5); o = sky.pick_obs(rng)
        if i % 5 == 0:
            g = ref.gmst_hours(mjd + ref.JD_OFF); o.lon = round(ref.wrap180(-g * 15 + rng.choice([0, 1e-4, -1e-4])), 5)
        todo.append((mjd, o))
    for (mjd, o), r in zip(todo, pmap(lambda p: sky.run("sat_skymap", ["c.txt", "-D" + d, "-l" + p[1].arg, "-j%.5f" % p[0], "-I"]), todo)):
        if not sky.ok_report(c, r, "run"): continue
        ip = r.json["input_params"]; g = ref.gmst_hours(mjd + ref.JD_OFF); L = g + o.lon / 15
        c.ev((mjd, o.lon)); c.count("through sat_skymap")
        gm, l = ip["gmst"], ip["region"]["lmst"]
        if not (0 <= gm <= 24 and abs(wrap12(gm - g)) < 5.2e-5): c.violation("program:gmst", "reported gmst %r, expected %.6f: %s" % (gm, g, r.shell()), argv=r.argv)
        if not (0 <= l <= 24 and abs(wrap12(l - L)) < 5.2e-5): c.violation("program:lmst", "reported lmst %r, expected %.6f: %s" % (l, L % 24, r.shell()), argv=r.argv)
        if not abs(wrap12(ip["region"]["ra"] / 15 - L)) < 1.2e-5: c.violation("program:zenith", "reported zenith ra %r, expected %.5f: %s" % (ip["region"]["ra"], L * 15 % 360, r.shell()), argv=r.argv)
        c.sample(dict(mjd=mjd, lon=o.lon, gmst=gm, lmst=l))
