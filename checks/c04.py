from math import cos, radians, degrees
from vk import ref, sky
from vk.run import pmap

def dist(e, obs, hav):
    if hav: return ref.sep(e.lon, e.lat, obs.lon, obs.lat)
    return ref.plane_sep(e.lon, e.lat, obs.lon, obs.lat)

def slack(e, hav):
    t = degrees(e.ptol / ref.norm(e.pos)) + 1e-5
    if hav: return t
    return t * (1 + 1 / max(cos(radians(e.lat)), 1e-6))

def run(c):
    c.rule = ("-E searches from observers placed on, beside or far from satellites' sub-points (both hemispheres, next to the 0 and 180 degree meridians and the poles), "
              "with and without -H, with an RA/Dec centre that must be ignored; one evaluation per (search, satellite); satellites nearer to the border than the "
              "tolerance are not judged; distinct = (search, satellite) inside or within 30 degrees of the border")
    rng = c.rng
    jobs = []
    for i in range(c.n(40, 400)):
        base = sky.Scene(rng, c.n(70, 110), dt=rng.choice([1, 1, 30, 600]))
        good = [e for e in base.exp if e.err is None]
        for j in range(c.n(4, 10)):
            e = rng.choice(good)
            hav = rng.random() < .5
            kind = rng.choice(["sub", "beside", "meridian0", "meridian180", "pole", "any", "edge", "edge"])
            lat, lon = e.lat, e.lon
            r = rng.choice([rng.uniform(.5, 6), rng.uniform(5, 60), rng.uniform(60, 179), 20])
            if kind == "beside" or kind == "edge": lat, lon = lat + rng.uniform(-20, 20), lon + rng.uniform(-30, 30)
            elif kind == "meridian0": lat, lon = rng.uniform(-70, 70), rng.uniform(-3, 3)
            elif kind == "meridian180": lat, lon = rng.uniform(-70, 70), 180 + rng.uniform(-3, 3)
            elif kind == "pole": lat, lon = rng.choice([90, -90, 1, -1]) * 1.0, rng.uniform(-180, 180); lat = lat if abs(lat) == 90 else lat * rng.uniform(80, 89.99)
            elif kind == "any": lat, lon = rng.uniform(-90, 90), rng.uniform(-180, 360)
            lat = round(max(-90, min(90, lat)), 5); lon = round(lon, 5)
            obs = sky.Obs(lat, lon, rng.choice([0.0, 1000.0]))
            if kind == "edge": r = max(.05, dist(e, obs, hav) + rng.choice([1, -1]) * (3 * slack(e, hav) + 3e-4))
            r = round(r, 5)
            args = ["-E", "-r%r" % r] + (["-H"] if hav else [])
            if rng.random() < .4: args.append("-p%.3f,%.3f" % (rng.uniform(0, 360), rng.uniform(-90, 90)))
            rng.shuffle(args)
            jobs.append((base, obs, args, r, hav, kind))
    def go(j):
        s, obs, args = j[0], j[1], j[2]
        a = [x if not x.startswith("-l") else "-l" + obs.arg for x in s.base_args()]
        return sky.run("sat_skymap", a + args, cwd=s.dir), sky.run("sat_skymap", a + args + ["-I"], cwd=s.dir)
    runs = pmap(go, jobs)
    for k, ((s, obs, args, r, hav, kind), (rn, ri)) in enumerate(zip(jobs, runs)):
        if not sky.ok_report(c, rn, "search") or not sky.ok_report(c, ri, "search"): continue
        for q in ("n_sats_found", "n_sats", "n_sunlit_sats"):
            c.check(rn.json[q] == ri.json[q], "count", "%s is %r listed, %r counted only: %s" % (q, rn.json[q], ri.json[q], ri.shell()), argv=ri.argv)
        got = dict(sky.sats_of(rn))
        # the second epoch may be the one that cannot be computed: such satellites are not judged
        for e in s.exp:
            if e.err is not None: continue
            d, m = dist(e, obs, hav), slack(e, hav)
            if abs(d - r) < m: c.count("not judged (on the border)"); continue
            if not hav and (abs(abs(ref.wrap180(e.lon - obs.lon)) - 180) < 1e-3 or abs(e.lat) > 89.99): continue
            inside = d <= r
            x = got.get(e.sat.norad)
            c.ev((k, e.sat.norad) if inside or d < r + 30 else None)
            c.count("observer: " + kind); c.count("inside" if inside else "outside")
            if abs(e.lon - ref.wrap180(obs.lon)) > 180 and inside: c.count("inside across the 180 degree meridian")
            if inside != (x is not None):
                c.violation("selection:" + ("haversine" if hav else "plane"), "%s %s listed but its sub-point (%.4f, %.4f) is %.5f deg from the observer, radius %r: %s" %
                            (e.sat.num, "is" if x else "is not", e.lat, e.lon, d, r, rn.shell()), tle=e.sat.text, argv=rn.argv)
            elif x is not None:
                if abs(x["data"][5] - d) > m + 6e-5:
                    c.violation("separation", "%s: separation %.4f printed, %.5f expected: %s" % (e.sat.num, x["data"][5], d, rn.shell()), tle=e.sat.text, argv=rn.argv)
                if "geoloc" not in x: c.violation("geoloc", "%s has no geodetic location with -E: %s" % (e.sat.num, rn.shell()), argv=rn.argv)
        extra = set(got) - {e.sat.norad for e in s.exp if e.err is None}
        c.check(not extra, "invented", "satellites that should not be there: %r" % extra, argv=rn.argv)
        if k % 40 == 0: c.sample(dict(args=args, observer=obs.arg, inside=len(got), of=len(s.exp)))
