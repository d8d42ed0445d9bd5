from math import degrees, cos, radians, hypot, atan2, asin
from fractions import Fraction as Fr
from vk import vis, ref, sky, gen
from vk.sgp4ref import SatErr
from vk.run import pmap
from checks.c14 import parse
from checks.c16 import sun_meeus
from checks.c18 import bearing, plane

d180 = lambda a, b: abs(ref.wrap180(a - b))

def record(x, st, rec, geo, sun):
    """First disagreement between a record and the reference state of that instant, or None."""
    jd = st.mjd + ref.JD_OFF
    tol = st.stol
    # date and MJD
    p = parse(rec["Date"])
    if abs(Fr(str(rec["MJD"])) - Fr(st.mjd)) > Fr(55, 10 ** 7) + Fr(st.ptol0): return "MJD", "MJD %r, the instant is %.7f" % (rec["MJD"], st.mjd)
    if p is None or abs(p - Fr(st.mjd) * 86400) > Fr(5002, 10000) + Fr(st.ptol0 * 86400): return "date", "date %r, the instant is MJD %.7f" % (rec["Date"], st.mjd)
    # position
    if abs(rec["Distance"] - st.dist) > .0051 + st.ptol + 1e-9 * st.dist: return "distance", "distance %r, expected %.3f" % (rec["Distance"], st.dist)
    if not (0 <= rec["ra"] <= 360 and -90 <= rec["dec"] <= 90 and 0 <= rec["az"] <= 360 and -90 <= rec["alt"] <= 90 and 0 <= rec["PA"] <= 360): return "range", "value out of range: %r" % rec
    t = tol + 1e-4
    a = ref.sep(rec["ra"], rec["dec"], *ref.precess_first_order(jd, st.ra, st.dec))
    b = ref.angle(ref.unit(rec["ra"], rec["dec"]), ref.precess_rigorous(jd, ref.unit(st.ra, st.dec)))
    if a > t and b > t + ref.precess_bound(jd, st.dec): return "position", "J2000 position %r %r is %.5f deg from the expected one" % (rec["ra"], rec["dec"], a)
    alt, az, _ = ref.horizontal(st.dec, (st.lst - st.ra) / 15, x.obs.lat)
    ha = tol + 6e-5 + 3e-6
    if abs(rec["alt"] - alt) > ha: return "altitude", "altitude %r, expected %.5f" % (rec["alt"], alt)
    ch = cos(radians(alt))
    if degrees(ch) > 6 * ha and d180(rec["az"], az) * ch > ha * 1.3: return "azimuth", "azimuth %r, expected %.5f" % (rec["az"], az)
    if abs(rec["Separation"] - st.sep) > ha: return "zenith distance", "zenith distance %r, expected %.5f" % (rec["Separation"], st.sep)
    # motion
    try: s2 = vis.state(x.sat, x.obs, st.mjd + x.dt / 86400.0, x.radius)
    except SatErr: s2 = None
    if s2 is not None:
        m = ref.sep(st.ra, st.dec, s2.ra, s2.dec); mt = 2 * (degrees(.0015 if not x.deep else .06) / st.dist + 1e-6) + 2 * degrees(4e-5 * 8 / st.dist)
        mt = max(mt, tol + s2.stol)
        if abs(rec["Speed"] - m * 60 / x.dt) > .00052 + mt * 60 / x.dt: return "speed", "speed %r, expected %.4f" % (rec["Speed"], m * 60 / x.dt)
        # half a turn in right ascension: the plane formula may take either way round
        half = (180 - abs(ref.wrap180(s2.ra - st.ra))) * cos(radians(s2.dec)) < 3 * mt + .02
        if m > 40 * mt and m < 170 and not half:
            pt = degrees(mt / m) + 1e-6
            J = lambda r, d: ref.precess_rigorous(jd, ref.unit(r, d)); f = lambda v: degrees(atan2(v[1], v[0])); g = lambda v: degrees(atan2(v[2], hypot(v[0], v[1])))
            u, v = J(st.ra, st.dec), J(s2.ra, s2.dec)
            ok = [plane(st.ra, st.dec, s2.ra, s2.dec), bearing(st.ra, st.dec, s2.ra, s2.dec), plane(f(u), g(u), f(v), g(v)), bearing(f(u), g(u), f(v), g(v))]
            if not any(-1 - pt <= ref.wrap180(rec["PA"] - q) <= .5 + pt for q in ok): return "position angle", "position angle %r, expected %.2f" % (rec["PA"], ok[0])
    # sub-point
    lat, lon, al, th = ref.geodetic(st.pos, st.gmst)
    r = ref.norm(st.pos); pt = degrees(st.ptol / r) + 6e-4; cl = cos(radians(lat))
    if abs(geo["lat"] - lat) > pt or d180(geo["lon"], lon) * cl > pt * 1.2 or abs(geo["alt"] - al) > st.ptol + .0075: return "sub-point", "sub-point %r, expected %.4f %.4f %.3f" % (geo, lat, lon, al)
    if d180(geo["theta"], geo["lon"] + st.gmst * 15) > .0014 + st.ptol0 * 361: return "theta", "theta %r with longitude %r at sidereal time %.5f h" % (geo["theta"], geo["lon"], st.gmst)
    if not (-180 <= geo["lon"] <= 180 and -90 <= geo["lat"] <= 90): return "range", "sub-point %r" % geo
    # Sun
    if ref.sep(sun["ra"], sun["dec"], *ref.sun(jd)) > .021 or ref.sep(sun["ra"], sun["dec"], *sun_meeus(jd)) > .021: return "sun", "Sun at %r %r, expected %r" % (sun["ra"], sun["dec"], ref.sun(jd))
    tt = .0013 + st.ptol0 * 361
    if not -180 <= sun["lon"] <= 180: return "range", "sub-solar longitude %r" % sun["lon"]
    if d180(sun["lon"], sun["ra"] - 15 * st.gmst) > tt: return "sun longitude", "sub-solar longitude %r, expected %.4f" % (sun["lon"], ref.wrap180(sun["ra"] - 15 * st.gmst))
    alt, az, pa = ref.horizontal(sun["dec"], (st.lst - sun["ra"]) / 15, x.obs.lat); ch = cos(radians(alt)); cd = cos(radians(sun["dec"]))
    if abs(sun["alt"] - alt) > tt: return "sun altitude", "Sun's altitude %r, expected %.4f" % (sun["alt"], alt)
    if degrees(ch) > 6 * tt and d180(sun["az"], az) * ch > tt * 1.3: return "sun azimuth", "Sun's azimuth %r, expected %.4f" % (sun["az"], az)
    if degrees(ch) > 6 * tt and abs(x.obs.lat) < 89.9 and d180(sun["parang"], pa) * min(ch, cd) > tt * 1.5: return "sun parallactic angle", "Sun's parallactic angle %r, expected %.4f" % (sun["parang"], pa)
    e = ref.sep(ref.wrap360(st.lst), x.obs.lat, sun["ra"], sun["dec"])
    if abs(sun["separation_deg"] - e) > tt + 3e-4: return "sun separation", "Sun's separation %r, expected %.4f" % (sun["separation_deg"], e)

def run(c):
    c.rule = ("the start, end, middle and maximum records of the answers to random visibility requests, every field against an independent computation for the instant of the record and the site; duration and middle against start "
              "and end; one evaluation per record; distinct = distinct (request, record)")
    xs = vis.cases(c.rng, c.n(400, 5000))
    for x in xs:
        x.deep = x.sat.ref().deep
    todo = [x for x in xs if x.first is not None and not x.unsure]
    def go(x): return vis.execute(x)
    for x, r in zip(todo, pmap(go, todo)):
        if x.arange and r.json is not None and r.json["status"] == 2: c.count("requests stopped by the altitude range"); continue
        if not sky.ok_report(c, r, "run"): continue
        bad = lambda key, m: c.violation(key, "%s: %s" % (m, r.shell()), argv=r.argv, tle=x.sat.text)
        sat = r.json.get("satellite")
        if sat is None:
            # the Sun at the requested start
            s = r.json.get("sun")
            if s is None: bad("sun", "no Sun in an empty answer"); continue
            jd = x.t0 + ref.JD_OFF; L = ref.gmst_hours(jd) * 15 + x.obs.lon
            c.ev((tuple(r.argv), "sun")); c.count("empty answers")
            alt, az, pa = ref.horizontal(s["dec"], (L - s["ra"]) / 15, x.obs.lat)
            g = ref.gmst_hours(jd); e = ref.sep(ref.wrap360(L), x.obs.lat, s["ra"], s["dec"])
            if abs(s["separation_deg"] - e) > .0016: bad("empty:separation", "Sun %r, expected separation %.4f" % (s, e))
            if not -180 <= s["lon"] <= 180 or d180(s["lon"], s["ra"] - 15 * g) > .0013: bad("empty:longitude", "Sun %r, expected longitude %.4f" % (s, ref.wrap180(s["ra"] - 15 * g)))
            if ref.sep(s["ra"], s["dec"], *ref.sun(jd)) > .021 or abs(s["alt"] - alt) > .0013 or d180(s["az"], az) * cos(radians(alt)) > .002: bad("empty:sun", "Sun %r, expected altitude %.4f azimuth %.4f" % (s, alt, az))
            continue
        if sat.get("norad_n") != x.sat.norad: bad("identity", "satellite %r reported" % sat.get("norad_n")); continue
        hi = x.last[1]
        K = {}
        for w in ("start", "end", "max"):
            K[w] = [k for k in vis.index(x, sat["sat_" + w]["MJD"]) if k <= hi]
        res = {}
        def judge(w, mjd, drift):
            try: st = vis.state(x.sat, x.obs, mjd, x.radius, drift)
            except SatErr: return None
            st.ptol0 = drift / 86400
            return record(x, st, sat["sat_" + w], sat["geoloc_" + w], sat["sun_" + w])
        fit = {}
        for w in ("start", "end", "max"):
            c.ev((tuple(r.argv), w)); c.count("records: " + w)
            if not K[w]: bad(w + ":sample", "the %s MJD %r is not one of the samples from %.6f in steps of %d s" % (w, sat["sat_" + w]["MJD"], x.first, x.dt)); break
            out = [(k, judge(w, x.time(k), x.drift(k))) for k in K[w]]
            fit[w] = [k for k, m in out if m is None]
            if not fit[w]: bad(w + ":" + out[0][1][0], "%s record: %s, printed %r" % (w, out[0][1][1], sat["sat_" + w])); break
        else:
            pairs = [(a, b) for a in fit["start"] for b in fit["end"]]
            c.ev((tuple(r.argv), "mid")); c.count("records: mid")
            out = [judge("mid", (x.time(a) + x.time(b)) / 2, x.drift(b)) for a, b in pairs]
            if None not in out: bad("mid:" + out[0][0], "mid record: %s, printed %r" % (out[0][1], sat["sat_mid"])); continue
            d = r.json["sunlit_duration_minutes"]
            if not any(abs(d - (b - a) * x.dt / 60) <= .0051 + x.drift(b) / 60 + 1.2e-7 * d for a, b in pairs): bad("duration", "duration %r min, from sample %d to %d in steps of %d s is %.3f" % (d, *pairs[0], x.dt, (pairs[0][1] - pairs[0][0]) * x.dt / 60))
            if pairs[0][1] > pairs[0][0]: c.count("intervals longer than a sample")
            c.sample(dict(argv=r.argv[2:], start=sat["sat_start"], duration=d))
