from math import pi
from vk import gen, ref, sky
from vk.sgp4ref import SatErr
from vk.run import pmap

def edge(rng, num, mjd):
    """A satellite within a few kilometres of the shadow's edge: bisection on the mean anomaly."""
    y, d = gen.epoch_for(mjd, rng, 1)
    el = dict(gen.leo(rng, rng.choice(["circ", "high", "ecc"])) if rng.random() < .6 else gen.deep(rng, rng.choice(["geo", "gps", "molniya", "gto"])))
    jd = mjd + ref.JD_OFF; sv = ref.sun_vec(jd)
    def at(ma):
        s = gen.make_sat(rng, num, year=y, doy=d, bstar=0, desig="98067A  ", ndot=0, elnum=1, rev=1, **dict(el, ma=ma % 360))
        try: p, v = sky.posvel(s, jd)
        except SatErr: return s, None, None
        return s, ref.shadow(p, sv)[1], ref.norm(p)
    a = rng.uniform(0, 360)
    grid = [(a + 6 * i, at(a + 6 * i)[1]) for i in range(61)]
    cr = [(x, y2) for x, y2 in zip(grid, grid[1:]) if x[1] is not None and y2[1] is not None and (x[1] < 0) != (y2[1] < 0)]
    if not cr: return at(a)[0]
    (lo, ml), (hi, mh) = rng.choice(cr)
    want = rng.choice([-1, 1]) * rng.choice([.3, 1, 4, 15])
    best = None
    for _ in range(16):
        mid = (lo + hi) / 2
        s, m, R = at(mid)
        if m is None: break
        best = s
        if (m < want) == (ml < 0): lo = mid
        else: hi = mid
        if abs(m - want) < .1: break
    return best or at(a)[0]

def away(rng, num, mjd):
    """A state-vector set far behind (or before) the Earth, next to the line from the Sun through the Earth."""
    jd = mjd + ref.JD_OFF; sv = ref.sun_vec(jd); u = [x / ref.norm(sv) for x in sv]
    D = 10 ** rng.uniform(5, 6.3) * rng.choice([-1, -1, -1, 1])
    w = [rng.gauss(0, 1) for _ in u]; k = ref.dot(u, w); w = [a - k * b for a, b in zip(w, u)]; n = ref.norm(w)
    off = ref.ERAD * rng.uniform(0, 2)
    y, d = gen.epoch_for(mjd, rng, .2)
    return gen.high_state(rng, num, year=y, doy=d, r=[int(1e3 * (D * a + off * b / n)) for a, b in zip(u, w)], v=[int(rng.uniform(-5e5, 5e5)) for _ in u])

def run(c):
    c.rule = ("satellites anywhere and deliberately just inside or outside the shadow's edge and behind or before the Earth: flag against an independent segment-sphere test; the same satellites with other observers, intervals, "
              "regions, references and single requests must keep the flag; sets far behind the Earth; single instants of sat_visibility; one evaluation per (run, satellite); distinct = distinct (scene, satellite)")
    rng = c.rng
    scenes = []
    for i in range(c.n(16, 200)):
        mjd = rng.choice([rng.uniform(36500, 70000), rng.uniform(50000, 60000)])
        if i % 8 == 2:
            mjd = rng.uniform(47892, 60000); s = sky.Scene(rng, 40, mjd=mjd, maker=away)
        elif i % 2: s = sky.Scene(rng, 60, mjd=mjd, maker=edge)
        else: s = sky.Scene(rng, 120, mjd=mjd, deepfrac=.5)
        scenes.append(s)
    def go(s):
        r = __import__("random").Random(s.mjd)
        var = [s.run(["-H", "-r400", "-n0"])]
        for dt in (r.choice([3600, 7200, 1200]), -r.choice([600, 3600]), 1): var.append(s.run(["-H", "-r400", "-n0", "-t%d" % dt]))
        o = sky.pick_obs(r)
        var.append(sky.run("sat_skymap", ["cat.txt", "-D", s.dir, "-l" + o.arg, "-j%.5f" % s.mjd, "-r400", "-H", "-n0"], cwd=s.dir))
        var.append(s.run(["-E", "-H", "-r400", "-n0", "-G"])); var.append(s.run(["-r400", "-n0", "-p%.3f,%.3f" % (r.uniform(0, 360), r.uniform(-90, 90)), "-S", "SAT"]))
        for e in r.sample(s.exp, 3): var.append(s.run(["-s%d" % e.sat.norad])); var.append(s.run(["-s%d" % e.sat.norad, "-t%d" % r.choice([900, 5400])]))
        for e in r.sample(s.exp, 6): var.append(s.run(["-V", "-s%d" % e.sat.norad]))
        e = r.choice(s.exp); var.append(s.run(["-V", "-n0", "-S", e.sat.name[:r.choice([3, 6, 20])]]))
        var.append(s.run(["-V", "-H", "-r400", "-n0"]))
        vi = [(e, sky.run("sat_visibility", ["cat.txt", "-D", s.dir, "-l" + s.obs.arg, "-j%.5f,%.5f" % (s.mjd, s.mjd + .00001), "-r180", "-s%d" % e.sat.norad], cwd=s.dir)) for e in r.sample(s.exp, 5)]
        return var, vi
    soft = lambda e: e.ptol + (5 if e.sat.etype == "H" else .05)
    for k, (s, (rs, vi)) in enumerate(zip(scenes, pmap(go, scenes))):
        exp = {e.sat.norad: e for e in s.exp if e.err is None}
        for e, r in vi:
            if e.err is not None or ref.norm(e.pos) < ref.ERAD + e.ptol + .05 or abs(e.margin) < soft(e) + 10 * ref.norm(e.vel) / 60 * .03: continue
            if r.json is None or r.json.get("status") not in (0, 1): c.violation("run:visibility", "unreadable report from %s: %r" % (r.shell(), r.out[-200:]), argv=r.argv); continue
            c.ev((k, e.sat.norad, "v")); c.count("single instants of sat_visibility, %s" % ("in shadow" if e.blocked else "sunlit"))
            if ("satellite" in r.json) == bool(e.blocked): c.violation("flag", "%s %s, the Sun is %s (line of sight %.2f km from the surface): %s" % (e.sat.num, "is reported as visible" if "satellite" in r.json else "is not reported", "blocked" if e.blocked else "not blocked", e.margin, r.shell()), tle=e.sat.text, argv=r.argv)
        for j, r in enumerate(rs):
            if not sky.ok_report(c, r, "run"): continue
            only = "-V" in r.argv
            got = sky.sats_of(r)
            n1 = sum(x["data"][8] == 1 for _, x in got)
            if r.json["n_sunlit_sats"] != n1: c.violation("count", "n_sunlit_sats is %r, %d listed satellites are flagged: %s" % (r.json["n_sunlit_sats"], n1, r.shell()), argv=r.argv)
            for num, x in got:
                e = exp.get(num)
                if e is None: continue
                c.ev((k, num) if j == 0 else None)
                f = x["data"][8]
                if ref.norm(e.pos) < ref.ERAD + e.ptol + .05: c.count("not judged (below the equatorial radius)"); continue
                day = ref.dot(e.pos, ref.sun_vec(e.jd)) > 0
                if not day and abs(e.margin) < soft(e): c.count("not judged (on the shadow's edge)"); continue
                c.count("sunlit, day side" if day else "sunlit, night side" if not e.blocked else "in shadow")
                c.count("further than 100 000 km", int(ref.norm(e.pos) > 1e5)); c.count("within 20 km of the edge", int(not day and abs(e.margin) < 20))
                if f != (0 if e.blocked else 1): c.violation("flag", "%s is flagged %r, the Sun is %s (line of sight %.2f km from the surface): %s" % (e.sat.num, f, "blocked" if e.blocked else "not blocked", e.margin, r.shell()), tle=e.sat.text, argv=r.argv)
            if only and any(a.startswith("-s") for a in r.argv):
                num = int([a for a in r.argv if a.startswith("-s")][0][2:]); e = exp.get(num); c.count("single requests with -V")
                if e is not None and not (ref.norm(e.pos) < ref.ERAD + 1 or abs(e.margin) < soft(e)) and (len(got) == 1) != (not e.blocked):
                    c.violation("filter", "%s %s listed with -V: %s" % (e.sat.num, "is" if got else "is not", r.shell()), tle=e.sat.text, argv=r.argv)
            elif only:
                sel = r.argv[r.argv.index("-S") + 1] if "-S" in r.argv else ""
                have = {n for n, _ in got}
                for num, e in exp.items():
                    if not e.sat.name.startswith(sel): continue
                    if ref.norm(e.pos) < ref.ERAD + 1 or abs(e.margin) < soft(e): continue
                    if (num in have) != (not e.blocked): c.violation("filter", "%s %s listed with -V: %s" % (e.sat.num, "is" if num in have else "is not", r.shell()), tle=e.sat.text, argv=r.argv)
        c.sample(dict(argv=rs[0].argv[3:], sunlit=rs[0].json and rs[0].json["n_sunlit_sats"], of=len(s.sats)))
