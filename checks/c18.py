from math import cos, sin, radians, degrees, atan2, hypot
from vk import gen, ref, sky
from vk.run import pmap
from checks.c12 import check_dir, polar_sat

def bearing(ra0, de0, ra1, de1):
    """Direction of the great circle at its start, from north through east, degrees."""
    d = radians(ra1 - ra0); a, b = radians(de0), radians(de1)
    return ref.wrap360(degrees(atan2(sin(d) * cos(b), cos(a) * sin(b) - sin(a) * cos(b) * cos(d))))

def plane(ra0, de0, ra1, de1):
    return ref.wrap360(degrees(atan2(ref.wrap180(ra1 - ra0) * cos(radians(de0)), de1 - de0)))

def crossing(rng, num, mjd, obs, retro):
    """A satellite seen close to RA 0 that crosses it soon."""
    for _ in range(40):
        y, d = gen.epoch_for(mjd, rng, 1)
        el = dict(gen.leo(rng, rng.choice(["circ", "high"])) if rng.random() < .6 else gen.deep(rng, "gps"))
        if retro: el["incl"] = rng.uniform(95, 179)
        s = gen.make_sat(rng, num, year=y, doy=d, bstar=0, **el)
        e = sky.expected(s, obs, mjd, 1)
        if e.err is not None: continue
        # turn the orbit so that the satellite is seen near RA 0: three fixed-point steps
        node = s.node
        for _ in range(3):
            node = (node - e.ra_d + rng.choice([-.05, .05, 0, -.3, .3])) % 360
            s = gen.make_sat(rng, num, year=y, doy=d, bstar=0, **dict(el, node=node)); e = sky.expected(s, obs, mjd, 1)
            if e.err is not None: break
        if e.err is None and min(e.ra, 360 - e.ra) < 2: return s
    return s

def northward(rng, num, mjd, obs):
    """A satellite that is seen moving north, within a degree of it where the search succeeds."""
    s = None
    for _ in range(6):
        y, d = gen.epoch_for(mjd, rng, 1); ma, node, n = rng.uniform(0, 360), rng.uniform(0, 360), rng.uniform(6.5, 14.5)
        incl = rng.uniform(80, 100); pa = lambda e: ref.wrap180(bearing(e.ra, e.dec, e.ra1, e.dec1))
        at = lambda i: gen.make_sat(rng, num, year=y, doy=d, bstar=0, n=n, ecc=.001, incl=i, node=node, argp=0, ma=ma)
        for _ in range(6):
            s = at(incl); e = sky.expected(s, obs, mjd, 10)
            if e.err is not None or abs(pa(e)) > 60: break
            if -1 < pa(e) < 0: return s
            e2 = sky.expected(at(incl + .5), obs, mjd, 10)
            if e2.err is not None: break
            k = (pa(e2) - pa(e)) / .5
            if abs(k) < .05: break
            incl += (-.25 - pa(e)) / k
            if not 60 < incl < 120: break
    return s

def run(c):
    c.rule = ("second-epoch intervals from -1 day to 2 days, tracks crossing RA 0 both ways, next to the poles, near-Earth and deep-space, against the reference: end direction, speed (great circle over elapsed time) and position "
              "angle; one evaluation per satellite; distinct = distinct (scene, satellite)")
    rng = c.rng
    scenes = []
    for i in range(c.n(40, 500)):
        dt = [1, 1, 2, 5, 10, 30, 60, 120, 600, 1799, 1801, 3600, 10000, 21600, 90000, 172800, -100000, -1, -10, -60, -3600][i % 21]
        obs = sky.pick_obs(rng); mjd = rng.choice([rng.uniform(50000, 62000), rng.uniform(36500, 70000)])
        if i % 4 == 0:
            obs.lat = round(rng.uniform(-75, 75), 4)
            s = sky.Scene(rng, 24, mjd=mjd, obs=obs, dt=dt, maker=lambda r, n, m: crossing(r, n, m, obs, r.random() < .5))
        elif i % 9 == 1: s = sky.Scene(rng, 30, mjd=mjd, obs=obs, dt=dt, maker=lambda r, n, m: polar_sat(r, n, m, obs))
        elif i % 9 == 2:            # northward tracks, slightly west of north
            s = sky.Scene(rng, 60, mjd=mjd, obs=obs, dt=dt, maker=lambda r, n, m: northward(r, n, m, obs))
        elif i % 9 in (3, 7):       # close passes, near RA 0 at times
            if rng.random() < .5: obs = sky.corner_obs(rng, round(mjd, 5))
            s = sky.Scene(rng, 60, mjd=mjd, obs=obs, dt=dt, maker=lambda r, n, m, o=obs: sky.overhead(r, n, m, o))
        else: s = sky.Scene(rng, 60, mjd=mjd, obs=obs, dt=dt)
        scenes.append(s)
    for i in range(c.n(6, 60)):     # a satellite passing right by a high observer
        mjd = round(rng.uniform(50000, 62000), 5); obs = sky.Obs(round(rng.uniform(-80, 80), 5), round(rng.uniform(-180, 180), 5), round(rng.uniform(1.5e5, 6e5), 1))
        scenes.append(sky.Scene(rng, 20, mjd=mjd, obs=obs, dt=rng.choice([1, 1, 1, 2, -1, 3]), maker=lambda r, n, m, o=obs: sky.overhead(r, n, m, o, h=r.choice([2, 5, 10, 20]) , off=.1)))
    rs = pmap(lambda s: s.run(["-H", "-r400"]), scenes)
    for k, (s, r) in enumerate(zip(scenes, rs)):
        if not sky.ok_report(c, r, "run"): continue
        got = dict(sky.sats_of(r))
        if r.json["input_params"]["delta_time_s"] != s.dt: c.violation("echo", "delta_time_s is %r, requested %d: %s" % (r.json["input_params"]["delta_time_s"], s.dt, r.shell()), argv=r.argv)
        for e in s.exp:
            x = got.get(e.sat.norad)
            if e.err is not None or x is None: continue
            ra, de, ra1, de1, dist, sep, pa, speed = x["data"][:8]
            c.ev((k, e.sat.norad)); c.count("interval %s" % ("1 s" if s.dt == 1 else "up to a minute" if 1 < s.dt <= 60 else "longer" if s.dt > 1 else "negative"))
            bad = lambda key, m: c.violation(key, "%s, interval %d s: %s, printed %r: %s" % (e.sat.num, s.dt, m, x["data"], r.shell()), tle=e.sat.text, argv=r.argv)
            if not (0 <= ra1 <= 360 and -90 <= de1 <= 90 and 0 <= pa < 360): bad("range", "value out of range"); continue
            m = check_dir(c, s, e, ra1, de1, first=False)
            if m: bad("end", "end " + m); continue
            J = lambda a, b: ref.precess_rigorous(e.jd, ref.unit(a, b))
            t = e.tol + e.tol1
            m1 = ref.sep(e.ra, e.dec, e.ra1, e.dec1); u0, u1 = J(e.ra_d, e.dec_d), J(e.ra1_d, e.dec1_d); m2 = ref.angle(u0, u1)
            a = abs(s.dt)
            # next to the poles the first-order reduction shears the sky: both readings are right
            lo, hi = min(m1, m2), max(m1, m2)
            sp = abs(speed) if s.dt < 0 else speed
            if not lo * 60 / a - t * 60 / a - .00052 <= sp <= hi * 60 / a + t * 60 / a + .00052: bad("speed", "expected speed %.4f arcmin/s" % (m1 * 60 / a)); continue
            # the separation of the printed directions is the printed motion
            mp = ref.sep(ra, de, ra1, de1)
            if abs(mp * 60 / a - sp) > .00052 + 2.1e-4 * 60 / a: bad("speed", "the printed directions are %.4f deg apart, %.4f arcmin/s" % (mp, mp * 60 / a)); continue
            c.count("speeds above 60 arcmin/s", int(sp > 60)); c.count("speeds above 1000 arcmin/s", int(sp > 1000)); c.count("closer than 500 km", int(e.dist < 500))
            if min(e.ra, 360 - e.ra) < 30 and abs(e.ra - e.ra1) > 180: c.count("tracks across RA 0, " + ("eastward" if ref.wrap180(e.ra1 - e.ra) > 0 else "westward"))
            mov = min(m1, m2)
            if (180 - abs(ref.wrap180(e.ra1 - e.ra))) * cos(radians(e.dec1)) < 3 * t + .02: c.count("position angle not judged (half a turn)"); continue
            if mov < 20 * t: c.count("position angle not judged (no motion)"); continue
            pt = degrees(t / mov) + 1e-6
            f = lambda v: degrees(atan2(v[1], v[0])); g = lambda v: degrees(atan2(v[2], hypot(v[0], v[1])))
            ok = [plane(e.ra, e.dec, e.ra1, e.dec1), bearing(e.ra, e.dec, e.ra1, e.dec1), plane(f(u0), g(u0), f(u1), g(u1)), bearing(f(u0), g(u0), f(u1), g(u1))]
            # printed in whole degrees, truncated or rounded
            if not any(-1 - pt <= ref.wrap180(pa - q) <= .5 + pt for q in ok): bad("pa", "expected position angle %.2f" % ok[0])
            c.count("position angles")
        if got: c.sample(dict(argv=r.argv[3:], first=next(iter(got.values()))["data"]))
