from vk import gen, ref, sky
from vk.run import pmap
from checks.c10 import state, reference

def scene(seed_rng, dtmax=None, **k):
    return sky.Scene(seed_rng, **k)

def check_dir(c, s, e, ra, dec, first=True):
    """Printed direction against the reference: as reduced by the first-order formulae, or within their error of the rigorous one."""
    tol = (e.tol if first else e.tol1) + 1.0e-4
    er, ed = (e.ra, e.dec) if first else (e.ra1, e.dec1)
    d1 = ref.sep(ra, dec, er, ed)
    if d1 <= tol: return None
    u = ref.precess_rigorous(e.jd, ref.unit(e.ra_d if first else e.ra1_d, e.dec_d if first else e.dec1_d))
    d2 = ref.angle(ref.unit(ra, dec), u)
    if d2 <= tol + (e.pb if first else e.pb1): return None
    return "direction (%.4f, %.4f) is %.5f deg from the expected (%.4f, %.4f), tolerance %.6f" % (ra, dec, d1, er, ed, tol)

def polar_sat(rng, num, mjd, obs):
    """A distant satellite seen by the observer within a fraction of a degree of a celestial pole."""
    from math import pi, degrees, atan2, hypot
    # inclination 90 orbit, argument of latitude 90/270 near the pole, far away
    y, d = gen.epoch_for(mjd, rng, 0.02)
    a = rng.uniform(4, 10)
    n = 0.0743669161331734132 / a ** 1.5 * 1440 / (2 * pi)
    sign = rng.choice([1, -1])
    # parallax shifts the direction: aim at the point over the observer's meridian that is seen at the pole
    o = ref.observer(mjd + ref.JD_OFF, obs.lat, obs.lon, obs.ht)
    R = a * 6378.135
    rho = hypot(o[0], o[1])
    lat = degrees(atan2(R, rho)) * sign          # geocentric declination so that rho cancels (z ~ R)
    node = degrees(atan2(o[1], o[0]))
    u = lat                                       # argument of latitude in a polar orbit through the observer's meridian
    off = rng.choice([0, rng.uniform(-0.2, 0.2), rng.uniform(-1.5, 1.5)])
    dt_days = mjd + ref.JD_OFF - gen.jd_of_epoch(y, float("%012.8f" % d))
    ma = (u + off - 360 * n * dt_days) % 360
    return gen.make_sat(rng, num, year=y, doy=d, incl=90.0, node=node % 360, ecc=0.0001, argp=0.0, ma=ma, n=n, bstar=0)

def run(c):
    c.rule = ("random catalogues (near-Earth and deep-space orbits, directions next to the celestial poles) seen from random observers and dates; "
              "each listed satellite is one evaluation, all are non-trivial (distance, RA, Dec compared with the vector reference); "
              "distinct = distinct (scene, catalogue number)")
    scenes = []
    def mixed(rng, num, mjd, spread):
        y, d = gen.epoch_for(mjd, rng, spread if rng.random() < .8 else .0003)
        if rng.random() < .2: return state(rng, num, year=y, doy=d, kind=rng.choice(["heo", "lunar", "L2", "far"])) if spread < 20 else state(rng, num, year=y, doy=d, kind="far")
        el = gen.deep(rng) if rng.random() < .3 else gen.leo(rng, rng.choice(["circ", "high", "tinye"]))
        return gen.make_sat(rng, num, year=y, doy=d, bstar=0 if spread > 5 else 1e-5, desig=" " * 8 if rng.random() < .15 else None, **el)
    for i in range(c.n(48, 800)):
        rng = c.rng
        mjd = rng.choice([rng.uniform(36204, 51544), rng.uniform(51544, 61000), rng.uniform(61000, 72000), 51544.5, 51543.99999])
        obs = sky.pick_obs(rng)
        if i % 4 == 1:
            o = sky.corner_obs(rng, round(mjd, 5)) if i % 8 == 1 else obs
            s = sky.Scene(rng, c.n(50, 80), mjd=mjd, obs=o, maker=lambda r, n, m: sky.overhead(r, n, m, o))
        elif i % 4 == 2:
            sp = rng.choice([3, 20, 150])
            s = sky.Scene(rng, c.n(50, 80), mjd=mjd, obs=obs, maker=lambda r, n, m: mixed(r, n, m, sp))
        elif i % 4 == 0:
            s = sky.Scene(rng, c.n(40, 60), mjd=mjd, obs=obs, maker=lambda r, n, m: polar_sat(r, n, m, obs))
        else:
            s = sky.Scene(rng, c.n(80, 160), mjd=mjd, obs=obs, dt=rng.choice([1, 1, 30]))
        scenes.append(s)
    runs = pmap(lambda s: s.run(["-H", "-r400"]), scenes)
    for k, (s, r) in enumerate(zip(scenes, runs)):
        if not sky.ok_report(c, r, "run"): continue
        got = dict(sky.sats_of(r))
        for e in s.exp:
            if e.err is not None: continue
            if e.sat.etype == "H":
                t = reference(e.sat, e.jd - e.sat.epoch)[2]; e.ptol += t; e.tol += t / e.dist * 57.3; c.count("state vectors")
            x = got.get(e.sat.norad)
            if x is None:
                c.violation("missing", "%s is not listed by a search of the whole sky: %s" % (e.sat.num, r.shell()), tle=e.sat.text, argv=r.argv); continue
            ra, dec, ra1, dec1, dist = x["data"][:5]
            c.ev((k, e.sat.norad))
            bad = None
            if not (0 <= ra <= 360 and -90 <= dec <= 90 and 0 <= ra1 <= 360 and -90 <= dec1 <= 90): bad = "direction out of range: %r" % (x["data"][:4],)
            elif abs(dist - e.dist) > 0.0051 + e.ptol + 1e-9 * e.dist: bad = "distance %.2f km, expected %.3f" % (dist, e.dist)
            else: bad = check_dir(c, s, e, ra, dec)
            if abs(e.dec_d) > 89: c.count("directions within 1 degree of a pole")
            c.count("closer than 300 km", int(e.dist < 300)); c.count("beyond 150000 km", int(e.dist > 150000)); c.count("epochs more than 100 days away", int(e.sat.etype != "H" and abs(e.jd - e.sat.el.epoch) > 100))
            c.count("right ascension within 0.2 degrees of 0", int(abs(ref.wrap180(e.ra)) < .2)); c.count("numbers above 99999", int(e.sat.norad > 99999))
            c.count("deep" if e.deep else "near-earth")
            if bad: c.violation("topocentric", "%s %s: %s" % (e.sat.num, r.shell(), bad), tle=e.sat.text, argv=r.argv)
        c.sample(dict(argv=r.argv[3:], listed=len(got), first=next(iter(got.values()))["data"] if got else None))
