import os, re, tempfile
from vk import vis, ref, sky, gen, build as B
from vk.sgp4ref import SatErr
from vk.run import run as run_, pmap

def decays(c):
    """Satellites whose position stops being computable within the interval, before, during and after a visibility."""
    rng = c.rng; jobs = []
    d = tempfile.mkdtemp(dir=B.scratch()); todo = c.n(60, 700); num = 60000
    for _ in range(40 * todo):
        if len(jobs) >= todo: break
        num += 1
        mjd = round(rng.uniform(50000, 62000), 5); y, dd = gen.epoch_for(mjd, rng, .02)
        hp, e = rng.uniform(130, 260), rng.choice([0, .0005, rng.uniform(0, .2)])
        sat = gen.make_sat(rng, num, year=y, doy=dd, bstar=rng.choice([.05, .1, .3, .9, -.1, -.5, -.9]), n=gen.n_from(hp, e), ecc=e, incl=gen.pick_incl(rng), node=rng.uniform(0, 360), argp=rng.uniform(0, 360), ma=rng.uniform(0, 360))
        def err(m):
            try: sat.ref().posvel((m + ref.JD_OFF - sat.el.epoch) * 1440); return False
            except SatErr: return True
        if err(mjd): continue
        g = next((k for k in range(1, 600) if err(mjd + k * .05)), None)
        if g is None: continue
        lo, hi = mjd + (g - 1) * .05, mjd + g * .05
        for _ in range(20):
            m = (lo + hi) / 2
            lo, hi = (lo, m) if err(m) else (m, hi)
        obs = sky.pick_obs(rng); dt = rng.choice([5, 10, 20, 60])
        t0 = round(max(mjd, hi - rng.choice([rng.uniform(0, 200), rng.uniform(0, 900), rng.uniform(0, 20)]) * dt / 86400), 5); t1 = round(hi + rng.uniform(2, 80) * dt / 86400, 5)
        f = "d%d.txt" % num
        with open(os.path.join(d, f), "w") as h: h.write(sat.text)
        jobs.append((sat, obs, t0, t1, dt, err, hi, [f, "-l" + obs.arg, "-j%.5f,%.5f" % (t0, t1), "-s%d" % num, "-t%d" % dt, "-r180"]))
    for (sat, obs, t0, t1, dt, err, hi, a), r in zip(jobs, pmap(lambda j: run_("sat_visibility", j[7], cwd=d), jobs)):
        c.ev(tuple(a)); bad = lambda key, m: c.violation(key, "%s: %s" % (m, r.shell()), argv=r.argv, tle=sat.text)
        if r.json is None: bad("decay:json", "no readable report (%s), exit %r" % (r.jerr, r.rc)); continue
        j = r.json; x = j.get("satellite")
        last = int((t1 - t0) * 86400 / dt + 1e-6)
        step = dt / 86400; e0 = next((k for k in range(last + 1) if err(t0 + k * step)), None)
        # the first samples that certainly cannot / may not be computed
        slop = 2 + int(2.0 / dt)
        # visibility as far as it can be told: the satellite clear of the Earth and of the edge of the shadow
        def vis_(k):
            try: s = vis.state(sat, obs, t0 + k * step, 180.0, 1e-3)
            except SatErr: return 0
            m = sat.ref()           # not judged where the orbit is outside the validity of the theory
            sat.ref().posvel((t0 + k * step + ref.JD_OFF - sat.el.epoch) * 1440)
            return s.vis if ref.norm(s.pos) > 6400 and m.last_el2 < .8 and .95 < m.last_a < 1.6 * m.ao else 0
        if j["status"] == 2 and r.rc == 1 and "compute" in j.get("errmsg", ""):
            c.count("searches that met a position that cannot be computed"); c.count("during a visibility", x is not None)
            m = re.search(r"MJD (-?[0-9.]+)", j["errmsg"])
            if not m: bad("decay:instant", "no instant in %r" % j["errmsg"]); continue
            q = float(m.group(1))
            if not any(err(q + z * step) for z in range(-slop, slop + 1)) and not err(q * (1) + 1e-3 * abs(q - (sat.el.epoch - ref.JD_OFF))):
                bad("decay:error", "stopped at MJD %.5f (%s), where the position can be computed (until MJD %.5f)" % (q, j["errmsg"], hi)); continue
            n = int(round((q - t0) / step)); w = [vis_(k) for k in range(max(n - slop, 0))]
            a_ = next((k for k, v in enumerate(w) if v > 0), None)
            if a_ is not None and x is None: bad("decay:start", "sample %d was visible before the end at sample %d, and no satellite is reported" % (a_, n)); continue
            if a_ is not None and -1 in w[a_:]: bad("decay:over", "the visibility from sample %d was over at sample %d, before the end at sample %d" % (a_, a_ + w[a_:].index(-1), n)); continue
            if x is not None and (x.get("sat_end", 0) is not None or "sat_start" not in x): bad("decay:record", "members %r" % list(x)); continue
        elif j["status"] == 0 and r.rc == 0:
            c.count("searches over before the position could not be computed")
            if x is None:
                if e0 is not None and e0 + slop <= last: bad("decay:silent", "ended without an error although the position cannot be computed at sample %d of %d" % (e0, last))
                continue
            n = int(round((x["sat_end"]["MJD"] - t0) / step))
            # the program stops at the sample after the end
            if e0 is not None and e0 + slop < n and sum(err(t0 + k * step) for k in range(n)) > slop: bad("decay:end", "the visibility ends at sample %d, but the position cannot be computed at sample %d" % (n, e0))
        else: bad("decay:status", "status %r (%r), exit %r" % (j["status"], j.get("errmsg"), r.rc))

def judge(c, x, r):
    bad = lambda key, m: c.violation(key, "%s: %s" % (m, r.shell()), argv=r.argv, tle=x.sat.text, kind=x.kind)
    n = r.json["n_sats_found"]
    sat = r.json.get("satellite")
    if x.unsure: c.count("requests that hinge on the Sun at the horizon (skipped)"); return
    if (sat is not None) != (n == 1) or n not in (0, 1): bad("count", "n_sats_found %r, satellite object %s" % (n, "present" if sat else "absent")); return
    if x.first is None or x.last[1] < 0:
        c.count("requests without a sample")
        if sat: bad("none", "a satellite is reported though there is no sample%s" % (" with the Sun down" if x.night else ""))
        return
    lo, hi = x.last
    ks0 = list(range(hi + 1)); sure_out = next((k for k in ks0 if x.altitude(k) < 0), None); may_out = next((k for k in ks0 if x.altitude(k) <= 0), None)
    if r.json["status"] == 2:
        c.count("requests stopped by the altitude range")
        if may_out is None: bad("altitude", "stopped (%s), but every altitude is inside %r" % (r.json.get("errmsg"), x.arange)); return
        # a visibility that is over before leaves nothing to stop
        a = None
        for k in range(may_out):
            v = x.at(k).vis
            if v == 0: break
            if a is None: a = k if v > 0 else None
            elif v < 0: bad("altitude", "stopped (%s), but the visibility of samples %d to %d is over before the altitude leaves %r at sample %d" % (r.json.get("errmsg"), a, k, x.arange, may_out)); break
        return
    st = [x.at(k) for k in range(hi + 1)]
    c.count("samples", len(st))
    if sat is None:
        c.count("requests without visibility")
        # the last sample may be missing by rounding
        if sure_out is not None and sure_out <= lo: bad("altitude", "the altitude of sample %d is %.3f km, outside %r, and the request is not refused" % (sure_out, st[sure_out].alt, x.arange)); return
        k = next((k for k in range(lo + 1) if st[k].vis > 0), None)
        if k is not None: bad("missed", "nothing reported, but sample %d (MJD %.6f, zenith distance %.4f) is sunlit and inside %r" % (k, st[k].mjd, st[k].sep, x.radius))
        elif "sun" not in r.json: bad("sun", "no Sun data for an empty answer")
        return
    for key in ("sat_start", "sat_end", "sat_mid", "sat_max"):
        if not isinstance(sat.get(key), dict): bad("record", "record %s is missing" % key); return
    ks = [k for k in vis.index(x, sat["sat_start"]["MJD"]) if k <= hi]
    ke = [k for k in vis.index(x, sat["sat_end"]["MJD"]) if k <= hi]
    km = [k for k in vis.index(x, sat["sat_max"]["MJD"]) if k <= hi]
    if not ks or not ke or not km: bad("sample", "start %r, end %r or maximum %r is not one of the samples from %.6f in steps of %d s" % (sat["sat_start"]["MJD"], sat["sat_end"]["MJD"], sat["sat_max"]["MJD"], x.first, x.dt)); return
    def start_ok(k): return st[k].vis >= 0 and all(st[j].vis <= 0 for j in range(k))
    s = [k for k in ks if start_ok(k)]
    if not s:
        k = ks[0]; j = next((j for j in range(k) if st[j].vis > 0), None)
        bad("start", "start at sample %d (MJD %.6f, zenith distance %.4f, shadow margin %.1f km)%s" % (k, st[k].mjd, st[k].sep, st[k].margin, "" if j is None else ", sample %d was visible before" % j)); return
    def end_ok(a, k): return k >= a and all(st[j].vis >= 0 for j in range(a, k)) and ((k > a and st[k].vis <= 0) or (k in range(lo, hi + 1) and st[k].vis >= 0))
    p = [(a, k) for a in s for k in ke if end_ok(a, k)]
    if not p:
        k = ke[0]; j = next((j for j in range(s[0], k) if st[j].vis < 0), None)
        bad("end", "end at sample %d of %d (MJD %.6f, zenith distance %.4f, shadow margin %.1f km) after the start at %d%s" % (k, hi, st[k].mjd, st[k].sep, st[k].margin, s[0], "" if j is None else ", sample %d was not visible" % j)); return
    if sure_out is not None and all(sure_out <= min(k, lo) for _, k in p): bad("altitude", "the altitude of sample %d is %.3f km, outside %r, before the end at sample %d" % (sure_out, st[sure_out].alt, x.arange, p[0][1])); return
    def max_ok(a, e, m):
        if not a <= m <= e or st[m].vis < 0: return False
        return all(st[m].sep <= st[j].sep + st[m].stol + st[j].stol for j in range(a, e + 1) if st[j].vis > 0)
    if not any(max_ok(a, e, m) for a, e in p for m in km):
        a, e = p[0]; b = min(range(a, e + 1), key=lambda j: st[j].sep if st[j].vis > 0 else 999)
        bad("max", "maximum at sample %d (zenith distance %.4f), but sample %d has %.4f in the interval %d..%d" % (km[0], st[km[0]].sep, b, st[b].sep, a, e)); return
    a, e = p[0]
    c.count("visibilities found"); c.count("starts after the first sample", a > 0); c.count("ends before the last sample", e < lo)
    if a > 0: c.count("starts by leaving the shadow" if st[a - 1].sep < x.radius else "starts by entering the circle")
    if st[e].vis < 0: c.count("ends by entering the shadow" if st[e].sep < x.radius else "ends by leaving the circle")
    if any(st[j].vis > 0 for j in range(e + 1, lo + 1)): c.count("requests with a later visibility")
    if x.night and x.first > x.t0: c.count("starts delayed to the night")

def run(c):
    c.rule = ("requests over passes, long intervals, deep-space satellites, single samples, empty and reversed intervals, wide steps, day and night sites, intervals cut near a change of visibility, orbits that decay within the interval; the reported start, end and maximum "
              "against an independent simulation of every sample; one evaluation per request; distinct = distinct requests")
    decays(c)
    xs = vis.cases(c.rng, c.n(480, 6000))
    for x, r in zip(xs, pmap(vis.execute, xs)):
        if x.arange and r.json is not None and r.json["status"] == 2 and r.rc == 1 and "altitude" in r.json.get("errmsg", "").lower(): pass
        elif not sky.ok_report(c, r, "run"): continue
        c.ev(tuple(r.argv)); c.count("kind " + x.kind)
        judge(c, x, r)
        c.sample(dict(argv=r.argv[2:], found=r.json["n_sats_found"], start=(r.json.get("satellite") or {}).get("sat_start")))
