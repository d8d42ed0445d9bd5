from math import cos, radians, pi
from vk import gen, ref, sky
from vk.run import pmap
from checks.c10 import state, reference
from checks.c12 import polar_sat

def maker(rng, num, mjd):
    k = rng.random()
    y, d = gen.epoch_for(mjd, rng, 2)
    if k < .1:
        x = state(rng, num, year=y, doy=d, kind=rng.choice(["heo", "lunar", "L2", "far"])); return x
    if k < .25: el = dict(gen.leo(rng, rng.choice(["low98", "low156", "low220"])))
    elif k < .5: el = dict(gen.leo(rng)); el["incl"] = rng.choice([90.0, rng.uniform(89, 91), rng.uniform(80, 100)])
    elif k < .75: el = gen.deep(rng)
    else: el = gen.leo(rng)
    x = gen.make_sat(rng, num, year=y, doy=d, bstar=0, **el)
    if k < .5 and k >= .25 and rng.random() < .5:      # over a pole now
        n = x.n; back = 360 * n * (mjd + ref.JD_OFF - x.el.epoch)
        x = gen.make_sat(rng, num, year=y, doy=d, bstar=0, n=n, ecc=0.0002, incl=x.incl, node=x.node, argp=0, ma=(rng.choice([90, 270]) + rng.choice([0, rng.uniform(-.05, .05), rng.uniform(-3, 3)]) - back) % 360)
    return x

def judge(c, key, sat, pos, g, ptol, geo, shell, argv):
    """geo as printed (lat, lon 3 decimals, alt 2, theta 3) against the position."""
    R = ref.norm(pos)
    lat, lon, alt, theta = geo["lat"], geo["lon"], geo["alt"], geo["theta"]
    bad = lambda k, m: c.violation(key + k, "%s: %s, printed %r: %s" % (sat.num, m, geo, shell), tle=sat.text, argv=argv)
    if not (-90 <= lat <= 90 and -180 <= lon <= 180 and -360 <= theta <= 360): bad("range", "value out of range"); return
    if abs(ref.wrap180(theta - lon - 15 * g)) > .0011: bad("theta", "equatorial angle is not longitude + sidereal time %.5f h" % g)
    q = ref.from_geodetic(lat, lon, alt, g)
    d = ref.norm(ref.sub(q, pos))
    # half a unit of the last place in each coordinate
    lim = R * radians(.00051) * (1 + cos(radians(lat))) + .0051 + ptol
    if d > lim: bad("mapback", "the sub-point and altitude map to a point %.3f km from the satellite (tolerance %.3f)" % (d, lim)); return
    el, eo, ea, et = ref.geodetic(pos, g)
    da = ptol / R * 57.3
    if abs(lat - el) > .00051 + da or abs(ref.wrap180(lon - eo)) * cos(radians(el)) > .00051 + da or abs(alt - ea) > .0051 + ptol: bad("values", "expected %.4f %.4f %.3f" % (el, eo, ea))

def run(c):
    c.rule = ("orbits from decaying to beyond the Moon, over and next to the poles, any observer and date: the printed sub-point, altitude and equatorial angle mapped back to the geocentric position and compared with the "
              "independent conversion; both programs; one evaluation per satellite record; distinct = distinct (scene, satellite)")
    rng = c.rng
    scenes = []
    for i in range(c.n(30, 400)):
        mjd = rng.choice([rng.uniform(45000, 62000), rng.uniform(36500, 70000), rng.randint(50000, 60000) + .5])
        if i % 5 == 4:
            obs = sky.pick_obs(rng)
            s = sky.Scene(rng, 50, mjd=mjd, obs=obs, maker=lambda r, n, m: polar_sat(r, n, m, obs))
        else: s = sky.Scene(rng, 70, mjd=mjd, maker=maker, dt=rng.choice([1, 1, 600]))
        scenes.append(s)
    def go(s):
        r = s.run(["-G", "-H", "-r400"])
        v = []
        for e in s.exp[:3]: v.append((e, s.run(["-s%d" % e.sat.norad])))
        vis = [(e, sky.run("sat_visibility", ["cat.txt", "-D", s.dir, "-l" + s.obs.arg, "-j%.5f,%.5f" % (s.mjd, s.mjd + .00001), "-r180", "-s%d" % e.sat.norad], cwd=s.dir)) for e in s.exp if e.err is None and not e.blocked][:3]
        return r, v, vis
    for k, (s, (r, single, vis)) in enumerate(zip(scenes, pmap(go, scenes))):
        if not sky.ok_report(c, r, "run"): continue
        got = dict(sky.sats_of(r)); g = ref.gmst_hours(s.mjd + ref.JD_OFF)
        def tol(e):
            if e.sat.etype != "H": return e.ptol
            return reference(e.sat, e.jd - e.sat.epoch)[2] + .03 + 1e-8 * e.dist
        for e in s.exp:
            if e.err is not None: continue
            x = got.get(e.sat.norad)
            if x is None or "geoloc" not in x: c.violation("missing", "no sub-point of %s in %s" % (e.sat.num, r.shell()), tle=e.sat.text, argv=r.argv); continue
            c.ev((k, e.sat.norad)); c.count("sub-points of sat_skymap")
            c.count("within 5 degrees of a pole", int(abs(e.lat) > 85)); c.count("within 0.1 degrees of a pole", int(abs(e.lat) > 89.9)); c.count("above 60000 km", int(e.alt > 60000)); c.count("southern", int(e.lat < 0))
            judge(c, "skymap:", e.sat, e.pos, g, tol(e), x["geoloc"], r.shell(), r.argv)
        for e, q in single:
            if e.err is not None or not sky.ok_report(c, q, "single"): continue
            x = dict(sky.sats_of(q)).get(e.sat.norad)
            if x is None or "geoloc" not in x: c.violation("missing", "no sub-point of %s in %s" % (e.sat.num, q.shell()), tle=e.sat.text, argv=q.argv); continue
            c.ev((k, e.sat.norad, "s")); judge(c, "single:", e.sat, e.pos, g, tol(e), x["geoloc"], q.shell(), q.argv)
        for e, q in vis:
            if e.margin < 30 or q.json is None or q.json.get("status") == 2: continue
            sat = q.json.get("satellite")
            if not isinstance(sat, dict) or not sat.get("sat_start"): continue          # C22 decides
            if abs(sat["sat_start"]["MJD"] - s.mjd) > 2e-6: continue
            c.ev((k, e.sat.norad, "v")); c.count("sub-points of sat_visibility")
            judge(c, "visibility:", e.sat, e.pos, g, tol(e), sat["geoloc_start"], q.shell(), q.argv)
        if got: c.sample(dict(argv=r.argv[3:], geoloc=next(iter(got.values())).get("geoloc")))
