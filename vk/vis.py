"""Independent simulation of the visibility search of sat_visibility, and scenes for it."""
import os, tempfile
from math import degrees, floor, sin, cos, pi, atan2, hypot
from . import gen, ref, sky, build as B
from .sgp4ref import SatErr
from .run import run

class State:
    __slots__ = ("mjd", "pos", "vel", "o", "v", "ra", "dec", "dist", "sep", "stol", "blocked", "margin", "mtol", "ptol", "lst", "gmst", "vis", "rate", "ptol0", "alt")

def state(sat, obs, mjd, radius, drift=0.0):
    """Everything about one instant; vis is 1 / -1 when it certainly (not) counts as visible, 0 when within the tolerances."""
    s = State(); s.mjd = mjd
    jd = mjd + ref.JD_OFF
    s.pos, s.vel = sky.posvel(sat, jd)
    deep = sat.etype == "H" or sat.ref().deep
    s.gmst = ref.gmst_hours(jd); s.lst = s.gmst * 15 + obs.lon
    s.o = ref.observer(jd, obs.lat, obs.lon, obs.ht)
    s.v = ref.sub(s.pos, s.o)
    s.ra, s.dec, s.dist = ref.radec(s.v)
    sp = ref.norm(s.vel) / 60 + .47
    s.ptol = (.002 if not deep else .06) + (4e-5 + drift) * sp + sky.blur_of(sat)
    s.sep = ref.sep(ref.wrap360(s.lst), obs.lat, s.ra, s.dec)
    s.stol = degrees(s.ptol / s.dist) + 1e-6 + .0042 * drift          # the site turns with the rounded time
    s.rate = degrees(sp / s.dist)
    s.blocked, s.margin = ref.shadow(s.pos, ref.sun_vec(jd))
    s.mtol = .3 + s.ptol
    s.alt = ref.geodetic(s.pos, s.gmst)[2]
    inside = 1 if s.sep < radius - s.stol else -1 if s.sep > radius + s.stol else 0
    lit = 1 if s.margin > s.mtol else -1 if s.margin < -s.mtol else 0
    s.vis = min(inside, lit)
    return s

def sun_alt(mjd, obs):
    jd = mjd + ref.JD_OFF
    ra, de = ref.sun(jd)
    return ref.horizontal(de, ref.gmst_hours(jd) + (obs.lon - ra) / 15, obs.lat)[0]

class Case:
    """One request: satellite, site, interval, step, radius, night switch."""
    def __init__(c, sat, obs, t0, t1, dt, radius, night):
        c.sat, c.obs, c.t0, c.t1, c.dt, c.radius, c.night = sat, obs, round(t0, 5), round(t1, 5), dt, radius, night
        c.first, c.unsure = c.begin()
        c.cache = {}; c.arange = None
    def altitude(c, k):
        """1 / -1 when the altitude of a sample is certainly inside / outside the requested range."""
        if c.arange is None: return 1
        s = c.at(k); m = min(s.alt - c.arange[0], c.arange[1] - s.alt); t = s.ptol + .0005
        return 1 if m > t else -1 if m < -t else 0
    def begin(c):
        """MJD of the first sample (None: none), and whether the Sun is too close to the horizon to tell."""
        t, uns = c.t0, False; c.skipped = 0
        if c.night:
            k = 0
            while t <= c.t1:
                a = sun_alt(t, c.obs)
                if abs(a) < .002: uns = True
                if a < 0: break
                k += 1; t = c.t0 + k * .0007; c.skipped = k
        if abs(t - c.t1) < 2e-8 and t != c.t0: uns = True
        return (t if t <= c.t1 else None), uns
    def time(c, k): return c.first + k * c.dt / 86400.0
    def drift(c, k): return 60e-6 + (k + c.skipped) * 2.3e-5          # seconds: the accumulated step is rounded to the resolution of a Julian Date
    def at(c, k):
        if k not in c.cache: c.cache[k] = state(c.sat, c.obs, c.time(k), c.radius, c.drift(k))
        return c.cache[k]
    @property
    def last(c):
        """(lowest, highest) possible index of the last sample; -1: none"""
        x = (c.t1 - c.first) * 86400.0 / c.dt
        if x < 0: return -1, -1
        k = int(floor(x)); e = (c.drift(k) + 1e-4) / c.dt
        return (k - 1 if x - k < e and k > 0 else k), (k + 1 if k + 1 - x < e else k)

def write(cases):
    d = tempfile.mkdtemp(dir=B.scratch())
    with open(os.path.join(d, "v.txt"), "w") as f: f.write("".join(x.sat.text for x in cases))
    for x in cases: x.dir = d; x.alone = sum(y.sat.desig == x.sat.desig for y in cases) == 1

def args(x):
    a = ["v.txt", "-D" + x.dir, "-l" + x.obs.arg, "-j%.5f,%.5f" % (x.t0, x.t1), ("-i" + gen.desig_text(x.sat.desig) if x.alone and x.sat.norad % 4 == 1 else "-s%d" % x.sat.norad), "-t%d" % x.dt, "-r%r" % x.radius]
    if x.night: a.append("-N")
    if x.arange: a.append("-a%r,%r" % (x.arange if x.sat.norad % 3 else x.arange[::-1]))
    return a

def execute(x, extra=(), variant="plain"): return run("sat_visibility", args(x) + list(extra), cwd=x.dir, variant=variant)

def near(rng, sat, mjd, deg):
    """An observer about that many degrees from the satellite's sub-point."""
    p, v = sky.posvel(sat, mjd + ref.JD_OFF)
    lat, lon, alt, th = ref.geodetic(p, ref.gmst_hours(mjd + ref.JD_OFF))
    b = rng.uniform(0, 2 * pi)
    lat = max(-90.0, min(90.0, lat + deg * cos(b))); lon = ref.wrap180(lon + deg * sin(b) / max(cos(lat * pi / 180), .02))
    if rng.random() < .2 and lon < 0: lon += 360
    return sky.Obs(round(lat, 5), round(lon, 5), round(rng.choice([0.0, rng.uniform(-300, 5000), 2400.0]), 1))

def make(rng, num, maxsamples=900):
    """A request of a random kind (None when its satellite decays)."""
    mjd = rng.choice([rng.uniform(50000, 62000), rng.uniform(50000, 62000), rng.uniform(36600, 69000)])
    y, d = gen.epoch_for(mjd, rng, 3)
    kind = rng.choice(["pass", "pass", "pass", "pass", "long", "deep", "deep", "wide", "night", "night", "miss", "odd", "edge", "polar", "polar", "stay", "single"])
    if kind in ("deep",) or (kind in ("wide", "night", "odd") and rng.random() < .4): el = gen.deep(rng)
    else: el = gen.leo(rng, rng.choice(["circ", "circ", "circ", "ecc", "high", "tinye"]))
    if kind == "stay": el = gen.deep(rng, "geo") if rng.random() < .6 else gen.deep(rng)
    et = rng.choice(["0", "0", "0", "0", "2", "3"]) if rng.random() < .1 else "0"
    sat = gen.make_sat(rng, num, year=y, doy=d, bstar=rng.choice([0, 1e-5, 1e-4]), etype=et, **el)
    try:
        obs = near(rng, sat, mjd, rng.choice([0, rng.uniform(0, 5), rng.uniform(0, 15), rng.uniform(0, 25), rng.uniform(0, 60)]))
        dt = rng.choice([1, 2, 3, 5, 10, 10, 20, 30, 60, 120, 7, 300])
        span = rng.uniform(3, min(maxsamples, 900)) * dt / 86400.0
        radius = rng.choice([90.0, 90.0, 90.0, round(rng.uniform(5, 120), 4), round(rng.uniform(60, 90), 3), 180.0, 45.0])
        night = kind == "night"
        before = rng.uniform(0, 1.2) * span if rng.random() < .8 else 0
        if kind == "long": dt = rng.choice([30, 60, 60, 120, 600]); span = rng.uniform(.1, 2); span = min(span, maxsamples * dt / 86400.0)
        if kind == "wide": dt = rng.choice([3600, 86400, 7200, 40000, 864000, 864000, 4320000, 8640000]); span = rng.uniform(0, 30) * dt / 86400.0; span = min(span, max(200, 3 * dt / 86400)); radius = rng.choice([90.0, 180.0, 120.0])
        if kind == "night": dt = rng.choice([10, 30, 60]); span = min(rng.uniform(.05, 1.5), maxsamples * dt / 86400.0)
        if kind == "polar":          # weeks of daylight before the Sun sets
            a = rng.choice([-1, 1]); ts = [mjd + .5 * k for k in range(800)]
            lat = a * rng.uniform(67, 89.9)
            z = [t for t in ts if sun_alt(t, sky.Obs(lat, obs.lon, obs.ht)) < 0]
            obs = sky.Obs(round(lat, 5), obs.lon, obs.ht)
            t1 = next((t for t in ts if t > mjd + 2 and all(sun_alt(t - .25 * j, obs) > .3 for j in range(1, 9)) and min(sun_alt(t + .05 * j, obs) for j in range(20)) < -.1), None)
            night = True; dt = rng.choice([30, 60, 120])
            if t1 is None: return None
            mjd = t1 - rng.choice([rng.uniform(1.6, 2.5), rng.uniform(1.6, 15)])
            y, d = gen.epoch_for(mjd, rng, 3); sat = gen.make_sat(rng, num, year=y, doy=d, bstar=0, **el)
            before = 0; span = t1 + 1 + rng.uniform(0, .3) - mjd
        if kind == "stay": dt = 60; span = rng.uniform(.3, 1.6); radius = rng.choice([90.0, 120.0, 180.0, 170.0])
        if kind == "single": span = before = 0
        if rng.random() < .12: radius = round(rng.choice([rng.uniform(150, 180), rng.uniform(120, 180), 179.5]), 3)
        if kind == "miss": radius = rng.choice([round(rng.uniform(0, 3), 4), 0.0, -5.0, 0.5])
        if kind == "odd": span = rng.choice([0, 0, -.01, dt / 86400 * .4, dt / 86400, dt / 86400 * 1.5])
        t0 = mjd - before; t1 = t0 + span
        if night and kind != "polar" and rng.random() < .75:
            # start in daylight, some time before the Sun sets (or before the interval ends)
            ts = [mjd + k * .01 for k in range(140)]
            al = [sun_alt(t, obs) for t in ts]
            z = [k for k in range(1, 140) if al[k - 1] > 0 >= al[k]]
            if z:
                t0 = ts[z[0]] - rng.uniform(0, .06 if rng.random() < .7 else .3)
                dt = rng.choice([10, 30, 60]); t1 = ts[z[0]] + rng.choice([rng.uniform(.05, .3), rng.uniform(-.03, .02)])
        if kind == "edge":
            # the interval starts or ends close to a change of visibility
            c = Case(sat, obs, t0, t1, dt, radius, False)
            if c.first is not None:
                ks = range(0, c.last[1] + 1)
                ch = [k for k in ks if k and (c.at(k).vis > 0) != (c.at(k - 1).vis > 0)]
                if ch:
                    k = rng.choice(ch)
                    if rng.random() < .5: t1 = c.time(k) + rng.uniform(-1.4, 1.4) * dt / 86400
                    else: t0 = c.time(k) + rng.uniform(-1.4, 1.4) * dt / 86400; t1 = t0 + span
        c = Case(sat, obs, t0, t1, dt, radius, night)
        c.kind = kind
        if c.first is not None:
            for k in range(0, min(c.last[1] + 2, 20000)): c.at(k)
            al = [c.at(k).alt for k in range(min(c.last[1] + 1, 20000))]
            if al and max(al) > 51000 and rng.random() < .5: c.arange = (-round(rng.uniform(0, 100), 2), round(rng.uniform(50001, max(al)), 2))
            elif rng.random() < .25 and al:
                m = rng.choice(al); lo, hi = min(al), max(al); w = max(hi - lo, 1.0)
                r = rng.choice([(0.0, 60000.0), (-rng.uniform(0, 100), rng.choice([rng.uniform(5e4, 4e5), lo + .7 * (hi - lo)])), (lo - 1, hi + 1), (lo - .2 * w, m), (m, hi + .2 * w), (lo - 1, hi - .02 * w), (lo + .02 * w, hi + 1), (m + 1, m + 100), (0.0, 1e6)])
                c.arange = (round(r[0], 2), round(r[1], 2))
        state(sat, obs, c.t0, radius)
        return c
    except SatErr: return None

def cases(rng, n, base=None, **k):
    out = []
    num = base or rng.randint(1000, 50000)
    while len(out) < n:
        x = make(rng, num, **k)
        if x: out.append(x); num += 1
    for i in range(0, n, 50): write(out[i:i + 50])
    return out

def index(x, mjd):
    """Indices of the samples that may carry the printed MJD."""
    r = (mjd - x.first) * 86400.0 / x.dt
    e = (.5e-5 * 86400 + .02 + x.drift(max(r, 0))) / x.dt
    lo, hi = int(floor(r - e)), int(floor(r + e)) + 1
    return [k for k in range(max(lo, 0), hi + 1) if abs(r - k) <= e]
