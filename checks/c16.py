from math import pi, sin, cos, asin, atan2, radians, degrees, hypot
import os, tempfile
from vk import gen, ref, lib, sky
from vk import build as B
from vk.run import pmap

F = lib.F
D2R = pi / 180

def sun_meeus(jd):
    """Apparent Sun of Meeus chapter 25 (0.01 degree), independent of the Almanac formulae."""
    t = (jd - 2451545.0) / 36525
    l0 = 280.46646 + 36000.76983 * t + 0.0003032 * t * t
    m = (357.52911 + 35999.05029 * t - 0.0001537 * t * t) * D2R
    cc = (1.914602 - 0.004817 * t) * sin(m) + (0.019993 - 0.000101 * t) * sin(2 * m) + 0.000289 * sin(3 * m)
    om = (125.04 - 1934.136 * t) * D2R
    lam = (l0 + cc - 0.00569 - 0.00478 * sin(om)) * D2R
    eps = (23.4392911 - 0.0130042 * t + 0.00256 * cos(om)) * D2R
    return ref.wrap360(degrees(atan2(cos(eps) * sin(lam), cos(lam)))), degrees(asin(sin(eps) * sin(lam)))

def azalt(az, alt): return ref.unit(az, alt)
def d180(a, b): return abs(ref.wrap180(a - b))

def run(c):
    c.rule = ("Sun at instants 1950-2050 against an independent solar theory (0.02 degree); altitude, azimuth and parallactic angle for declinations, hour angles and latitudes including meridian, poles, "
              "declination = latitude, horizon and zenith, against vector algebra; the sun and region objects of sat_skymap for any place, date and centre; one evaluation per triple / instant / run; distinct = distinct inputs")
    rng = c.rng
    cmds, jobs = [], []
    for i in range(c.n(6000, 100000)):
        jd = rng.choice([rng.uniform(2433282.5, 2469807.5), float(rng.randint(2433283, 2469807)), 2451545.0 + rng.uniform(-400, 400), rng.uniform(2415020, 2488070)])
        cmds.append("u" + float.hex(jd)); jobs.append(("sun", jd))
    for i in range(c.n(40000, 600000)):
        lat = rng.choice([rng.uniform(-90, 90), 90.0, -90.0, 0.0, rng.uniform(-90, 90), round(rng.uniform(-90, 90), 2), rng.choice([89.9999, -89.9999])])
        dec = rng.choice([rng.uniform(-90, 90), rng.uniform(-90, 90), lat, -lat, 0.0, rng.uniform(-23.5, 23.5), lat + rng.uniform(-1e-3, 1e-3), 89.99, -89.99, 90.0, -90.0])
        dec = max(-90.0, min(90.0, dec))
        ha = rng.choice([rng.uniform(-12, 12), rng.uniform(-24, 24), 0.0, 12.0, -12.0, 6.0, -6.0, 18.0, 24.0, -24.0, rng.uniform(-1e-4, 1e-4), rng.uniform(-1e-9, 1e-9), 12 + rng.uniform(-1e-6, 1e-6)])
        cmds.append("h%s %s %s" % (float.hex(dec * D2R), float.hex(ha), float.hex(lat))); jobs.append(("h", dec, ha, lat))
    try: res = [x for p in pmap(lambda a: lib.batch(cmds[a:a + 6000]), range(0, len(cmds), 6000)) for x in p]
    except lib.LibCrash as x: c.violation("crash", "the library stopped at %r (%s): %s" % (x.cmd, x.rc, x.err), cmd=x.cmd); return
    for j, w in zip(jobs, res):
        c.ev(j)
        if j[0] == "sun":
            c.count("Sun positions")
            ra, de = [degrees(F(x)) for x in w]
            a, b = ref.sep(ra, de, *sun_meeus(j[1])), ref.sep(ra, de, *ref.sun(j[1]))
            tol = .02 if 2433282.5 <= j[1] <= 2469807.5 else .03
            if not (0 <= ra <= 360) or not (a < tol and b < tol): c.violation("sun", "JD %.6f: Sun at %.5f %.5f, %.4f deg from the reference %r" % (j[1], ra, de, a, sun_meeus(j[1])), jd=j[1])
            continue
        _, dec, ha, lat = j
        alt, az, pa = [F(x) for x in w]
        ralt, raz, rpa = ref.horizontal(dec, ha, lat)
        c.count("horizontal coordinates")
        what = "dec %r, hour angle %r h, latitude %r: altitude %r, azimuth %r, parallactic angle %r" % (dec, ha, lat, alt, az, pa)
        if not (-90.0000001 <= alt <= 90.0000001 and 0 <= az < 360.0000001 and -180.0000001 <= pa <= 360.0000001): c.violation("range", what, dec=dec, ha=ha, lat=lat); continue
        # near the zenith the arcsine loses half the digits
        if abs(alt - ralt) > 2e-6: c.violation("altitude", what + ", expected altitude %r" % ralt, dec=dec, ha=ha, lat=lat); continue
        ch = cos(ralt * D2R)
        if raz is not None and ch > 1e-7 and d180(az, raz) * ch > 1e-6: c.violation("azimuth", what + ", expected azimuth %r" % raz, dec=dec, ha=ha, lat=lat); continue
        # sine of the two sides at the object
        if rpa is not None and ch > 1e-7 and abs(lat) < 90 and abs(dec) < 90 and d180(pa, rpa) * min(ch, cos(dec * D2R), 1) > 1e-6 and not (abs(90 - abs(dec)) < 1e-6):
            c.violation("parang", what + ", expected parallactic angle %r" % rpa, dec=dec, ha=ha, lat=lat)
    # through the program
    d = tempfile.mkdtemp(dir=B.scratch())
    one = gen.make_sat(rng, 12345, year=2020, doy=100.5, bstar=0, **gen.leo(rng, "circ")); desig = gen.desig_text(one.desig)
    open(os.path.join(d, "c.txt"), "w").write(one.text)
    todo = []
    for i in range(c.n(500, 8000)):
        mjd = round(rng.uniform(33282, 69807), 5); o = sky.pick_obs(rng)
        if rng.random() < .1: o.lat = rng.choice([90.0, -90.0])
        L = ref.gmst_hours(mjd + ref.JD_OFF) + o.lon / 15
        p = None
        if rng.random() < .75:
            p = (round(rng.choice([rng.uniform(0, 360), ref.wrap360(L * 15), ref.wrap360(L * 15 + 180), 0, 360, 359.9999]), 4), round(rng.choice([rng.uniform(-90, 90), o.lat, -o.lat, 0, 90, -90]), 4))
            if not 0 <= p[0] <= 360: p = (0.0, p[1])
        if i % 7 == 0:              # the Sun on the meridian, at the zenith or at the horizon
            sra, sde = ref.sun(mjd + ref.JD_OFF)
            lon = ref.wrap180(sra - 15 * ref.gmst_hours(mjd + ref.JD_OFF) + rng.choice([0, 180, 90, -90]))
            o.lon = round(lon, 5); o.lat = round(rng.choice([sde, -sde, o.lat]), 5)
        if i % 6 == 0:              # noon or midnight at the date line
            sra, _ = ref.sun(mjd + ref.JD_OFF); g = ref.gmst_hours(mjd + ref.JD_OFF)
            mjd = round(mjd + ref.wrap360(sra - 15 * g - 180 + rng.choice([0, .05, -.05, .6, -.6])) / 360, 5)
        todo.append((mjd, o, p))
    rs = pmap(lambda t: sky.run("sat_skymap", ["c.txt", "-D" + d, "-l" + t[1].arg, "-j%.5f" % t[0], "-I", "-r30"] + (["-p%r,%r" % t[2]] if t[2] else [[], [], ["-E"], ["-s12345"], ["-S", ""], ["-i" + desig], ["-G", "-V"], ["-a0,100000"]][int(t[0] * 1e5) % 8])), todo)
    for (mjd, o, p), r in zip(todo, rs):
        if not sky.ok_report(c, r, "run"): continue
        jd = mjd + ref.JD_OFF; g = ref.gmst_hours(jd); L = g + o.lon / 15
        s, q = r.json["sun"], r.json["input_params"]["region"]
        c.ev(tuple(r.argv)); c.count("sat_skymap reports")
        sra, sde = ref.sun(jd)
        bad = lambda key, m: c.violation("program:" + key, "%s: %s" % (m, r.shell()), argv=r.argv)
        if min(ref.sep(s["ra"], s["dec"], sra, sde), 9) > .021 or ref.sep(s["ra"], s["dec"], *sun_meeus(jd)) > .021: bad("sun", "Sun at %r %r, expected %.4f %.4f" % (s["ra"], s["dec"], sra, sde))
        if not (0 <= s["ra"] <= 360 and -180 <= s["lon"] <= 180): bad("range", "Sun %r" % s)
        if d180(s["lon"], s["ra"] - 15 * g) > .0012: bad("lon", "sub-solar longitude %r, expected %.4f" % (s["lon"], ref.wrap180(s["ra"] - 15 * g)))
        for name, x, ra, de, tol in (("sun", s, s["ra"], s["dec"], .0012), ("region", q, *(p if p else (ref.wrap360(L * 15), o.lat)), 8e-5)):
            alt, az, pa = ref.horizontal(de, L - ra / 15, o.lat)
            if not (0 <= x["az"] <= 360 and -90 <= x["alt"] <= 90): bad("range", "%s %r" % (name, x)); continue
            if abs(x["alt"] - alt) > tol + 2e-6: bad(name + ":alt", "%s altitude %r, expected %.5f" % (name, x["alt"], alt)); continue
            ch = cos(alt * D2R); cd = cos(de * D2R)
            if ch * 180 / pi > 4 * tol and d180(x["az"], az) * ch > tol * 1.2: bad(name + ":az", "%s azimuth %r, expected %.5f" % (name, x["az"], az))
            if ch * 180 / pi > 4 * tol and cd * 180 / pi > 4 * tol and abs(o.lat) < 90 and d180(x["parang"], pa) * min(ch, cd) > max(tol, .0006) * 1.5: bad(name + ":parang", "%s parallactic angle %r, expected %.5f" % (name, x["parang"], pa))
        if p and (abs(q["ra"] - p[0]) > 6e-5 or abs(q["dec"] - p[1]) > 6e-5): bad("region", "region %r, requested %r" % (q, p))
        e = ref.sep(q["ra"], q["dec"], s["ra"], s["dec"])
        if abs(s["separation_deg"] - e) > .0015: bad("separation", "separation of the Sun %r, expected %.4f" % (s["separation_deg"], e))
        c.sample(dict(mjd=mjd, sun=s))
