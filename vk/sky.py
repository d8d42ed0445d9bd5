"""Reference results for sat_skymap and scene generation."""
import os, tempfile
from math import pi, sin, cos, asin, hypot, degrees, atan2, fabs
from . import gen, ref, build as B
from .sgp4ref import SatErr, SGP4
from .run import run

class Obs:
    def __init__(s, lat, lon, ht): s.lat, s.lon, s.ht = lat, lon, ht
    @property
    def arg(s): return "%r,%r,%r" % (s.lat, s.lon, s.ht)

def pick_obs(rng):
    lat = rng.choice([rng.uniform(-90, 90), rng.uniform(-70, 70), rng.uniform(-70, 70), 0.0, rng.uniform(-89.99, -80), rng.uniform(80, 89.99)])
    lon = rng.choice([rng.uniform(-180, 180), rng.uniform(-180, 180), rng.uniform(180, 360), rng.uniform(-2, 2), rng.uniform(178, 182), 0.0, 360.0, -180.0])
    ht = rng.choice([rng.uniform(0, 5000), rng.uniform(-400, 0), 0.0, 2400.0, rng.uniform(3000, 9000)])
    return Obs(round(lat, 5), round(lon, 5), round(ht, 1))

def overhead(rng, num, mjd, obs, h=None, off=3.0, **k):
    """A low satellite passing (nearly) through the observer's zenith at mjd."""
    o = ref.observer(mjd + ref.JD_OFF, obs.lat, obs.lon, obs.ht)
    lat, lon = atan2(o[2], hypot(o[0], o[1])), degrees(atan2(o[1], o[0]))
    i = rng.uniform(max(abs(degrees(lat)), .01), 180 - max(abs(degrees(lat)), .01)) if rng.random() < .7 else 90.0
    si = max(abs(sin(lat)), sin(i * pi / 180), 1e-6)
    u = asin(max(-1, min(1, sin(lat) / si)))
    if rng.random() < .5: u = pi - u
    node = lon - degrees(atan2(cos(i * pi / 180) * sin(u), cos(u)))
    a = 1 + ((h or rng.choice([rng.uniform(150, 250), rng.uniform(250, 500)])) + max(0, obs.ht / 1000)) / 6378.135
    n = 0.0743669161331734132 / a ** 1.5 * 1440 / (2 * pi)
    y, d = gen.epoch_for(mjd, rng, 0.01)
    back = 360 * n * (mjd + ref.JD_OFF - gen.jd_of_epoch(y, float("%012.8f" % d)))
    return gen.make_sat(rng, num, year=y, doy=d, incl=i, node=(node + rng.uniform(-off, off) * rng.random() ** 2) % 360, ecc=rng.choice([0, .0001, .0005]), argp=0.0,
                        ma=(degrees(u) + rng.uniform(-off, off) * rng.random() ** 2 - back) % 360, n=n, bstar=0, **k)

def corner_obs(rng, mjd):
    """An observer whose zenith is near right ascension 0, often on the equator and high up."""
    lon = ref.wrap180(-15 * ref.gmst_hours(mjd + ref.JD_OFF) + 0.01281 * (mjd - 51544.5) / 365.25 + rng.choice([0, rng.uniform(-.1, .1), rng.uniform(-.1, .1), rng.uniform(-3, 3)]))
    return Obs(round(rng.choice([0.0, rng.uniform(-.5, .5), rng.uniform(-2, 2), rng.uniform(-60, 60)]), 5), round(lon, 5), round(rng.choice([0.0, rng.uniform(0, 9000), rng.uniform(4000, 9000)]), 1))

def posvel(sat, jd, tper_jd=None):
    """Geocentric position (km) and velocity (km/min) at jd, or SatErr."""
    if sat.etype == "H":
        p, v = ref.high(sat.epoch, sat.r, sat.v, jd - sat.epoch, 1.0)
        return p, v
    t = (jd - sat.el.epoch) * 1440.0
    return sat.ref().posvel(t, None if tper_jd is None else (tper_jd - sat.el.epoch) * 1440.0)

def blur_of(sat): return 0.0 if sat.etype == "H" else sat.ref().blur

class Exp:
    """What the report must say about one satellite."""
    pass

def expected(sat, obs, mjd, dt=1):
    e = Exp()
    e.sat, e.err = sat, None
    jd = mjd + ref.JD_OFF
    jd1 = jd + dt / 86400.0
    try:
        e.pos, e.vel = posvel(sat, jd); blur = blur_of(sat)
        # the deep-space periodics may be those of up to 30 minutes before
        e.pos1, e.vel1 = posvel(sat, jd1, jd if abs(dt) < 1800 else None)
        if abs(dt) < 1800: posvel(sat, jd1)
    except SatErr as x:
        e.err = x.code
        return e
    e.deep = sat.etype == "H" or sat.ref().deep
    e.o0, e.o1 = ref.observer(jd, obs.lat, obs.lon, obs.ht), ref.observer(jd1, obs.lat, obs.lon, obs.ht)
    e.v0, e.v1 = ref.sub(e.pos, e.o0), ref.sub(e.pos1, e.o1)
    e.ra_d, e.dec_d, e.dist = ref.radec(e.v0)
    e.ra1_d, e.dec1_d, e.dist1 = ref.radec(e.v1)
    e.ra, e.dec = ref.precess_first_order(jd, e.ra_d, e.dec_d)
    e.ra1, e.dec1 = ref.precess_first_order(jd, e.ra1_d, e.dec1_d)
    e.gmst = ref.gmst_hours(mjd + ref.JD_OFF)
    e.lat, e.lon, e.alt, e.theta = ref.geodetic(e.pos, e.gmst)
    e.blocked, e.margin = ref.shadow(e.pos, ref.sun_vec(jd))
    # tolerance of the direction, degrees: position of the theory, time (JD has ~20 us), first-order precession
    blur = max(blur, blur_of(sat))
    e.ptol = (0.002 if not e.deep else 0.06) + 3e-5 * ref.norm(e.vel) / 60 + blur
    e.tol = degrees(e.ptol / e.dist) + 2e-6
    e.tol1 = degrees(e.ptol / e.dist1) + 2e-6
    if e.deep and dt != 1:
        e.tol1 += degrees(0.3 * min(abs(dt), 1800) / 1800 / e.dist1)
    e.pb, e.pb1 = ref.precess_bound(jd, e.dec_d), ref.precess_bound(jd, e.dec1_d)
    e.jd, e.jd1 = jd, jd1
    return e

class Scene:
    """Observer, time, catalogue and the reference results for it."""
    def __init__(s, rng, nsat=60, mjd=None, dt=1, obs=None, maker=None, spread=None, base=None, deepfrac=0.35):
        s.rng = rng
        s.obs = obs or pick_obs(rng)
        s.mjd = round(mjd if mjd is not None else rng.uniform(53371, 62867), 5)
        s.dt = dt
        s.sats = []
        base = base or rng.choice([rng.randint(100, 80000), rng.randint(100, 80000), rng.randint(99900, 339000)])
        spread = spread or rng.choice([3.0, 3.0, 20.0, 200.0])
        for i in range(nsat):
            if maker: s.sats.append(maker(rng, base + i, s.mjd)); continue
            y, d = gen.epoch_for(s.mjd, rng, spread)
            el = gen.deep(rng) if rng.random() < deepfrac else gen.leo(rng, rng.choice(["circ", "circ", "ecc", "high", "near225", "tinye"]))
            s.sats.append(gen.make_sat(rng, base + i, year=y, doy=d, bstar=rng.choice([0, 1e-5, -1e-5, 1e-4] if spread < 10 else [0, 1e-6]), **el))
        s.dir = tempfile.mkdtemp(dir=B.scratch())
        s.write("cat.txt", s.sats)
        s.exp = [expected(x, s.obs, s.mjd, dt) for x in s.sats]
        s.by_num = {x.norad: e for x, e in zip(s.sats, s.exp)}
    def write(s, name, sats, eol="\n"):
        with open(os.path.join(s.dir, name), "w", newline="") as f:
            f.write("".join(x.text for x in sats).replace("\n", eol))
    def base_args(s, file="cat.txt"):
        a = [file, "-D", s.dir, "-l" + s.obs.arg, "-j%.5f" % s.mjd]
        if s.dt != 1: a.append("-t%d" % s.dt)
        return a
    def run(s, extra=(), file="cat.txt", variant="plain"):
        return run("sat_skymap", s.base_args(file) + list(extra), cwd=s.dir, variant=variant)

def sats_of(r):
    """[(norad, entry)] of a report."""
    return [(x["norad_n"], x) for x in r.json.get("satellites", [])]

def ok_report(c, r, key, need_status=0):
    """The report can be read and is a success; otherwise a violation is reported."""
    if r.timeout: c.violation(key + ":hang", "no end within the time limit: " + r.shell(), argv=r.argv); return False
    if r.json is None:
        c.violation(key + ":json", "unreadable report (%s) from %s (exit %s): %r %r" % (r.jerr, r.shell(), r.rc, r.out[-300:], r.err[-500:]), argv=r.argv)
        return False
    if need_status is not None and (r.json.get("status") != need_status or r.rc != 0):
        c.violation(key + ":status", "status %r, exit %r, %r from %s" % (r.json.get("status"), r.rc, r.json.get("errmsg"), r.shell()), argv=r.argv)
        return False
    return True
