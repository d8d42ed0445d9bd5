import os, tempfile
from math import isfinite
from vk import gen, ref, sky, vis, lib, build as B
from vk.sgp4ref import SatErr, SGP4
from vk.run import run as run_, pmap
from checks.c10 import state

F = lib.F

def any_sat(rng, num, mjd):
    y, d = gen.epoch_for(mjd, rng, 4)
    k = rng.random()
    if k < .12: return state(rng, num, year=y, doy=d, kind=rng.choice(["heo", "lunar", "L2", "far"]))
    et = rng.choice("00000000002345")
    el = gen.leo(rng) if k < .55 else gen.deep(rng)
    return gen.make_sat(rng, num, year=y, doy=d, etype=et, bstar=rng.choice([0, 1e-5, 1e-4, -1e-4, .01]), **el)

def write(path, sats): open(path, "w").write("".join(x.text for x in sats))

def catalogues(c):
    """Every entry of a catalogue against the entry of the same satellite alone, in other orders, selected by number."""
    rng = c.rng; jobs = []
    for i in range(c.n(14, 160)):
        mjd = round(rng.uniform(50000, 62000), 5); obs = sky.pick_obs(rng); d = tempfile.mkdtemp(dir=B.scratch())
        sats = [any_sat(rng, 100 + k, mjd) for k in range(rng.randint(12, 30))]
        # pairs that share the epoch, so that anything kept from the one would fit the other
        for k in range(3):
            a, b = rng.sample([x for x in sats if x.etype != "H"], 2)
            n = gen.make_sat(rng, 700 + k, year=a.year, doy=a.doy, incl=b.incl, node=a.node, ecc=b.ecc, argp=a.argp, ma=b.ma, n=b.n, bstar=0, etype=b.etype)
            sats.insert(rng.randint(0, len(sats)), n)
        for k in range(2):
            h = [x for x in sats if x.etype == "H"]
            if h:
                n = state(rng, 800 + k, year=h[0].year, doy=h[0].doy, kind=rng.choice(["heo", "lunar", "far"])); sats.insert(rng.randint(0, len(sats)), n)
        dt = rng.choice([1, 1, 60, -60, 3600])
        common = ["-D", d, "-l" + obs.arg, "-j%.5f" % mjd, "-t%d" % dt, "-r400", "-H", "-G", "-n0"]
        orders = [sats, sats[::-1]] + [rng.sample(sats, len(sats)) for _ in range(3)]
        # some sets first computed for nothing: filtered by name
        for k, o in enumerate(orders): write(os.path.join(d, "c%d.txt" % k), o)
        for x in sats: write(os.path.join(d, "s%d.txt" % x.norad), [x])
        parts = rng.sample(sats, len(sats)); q = len(parts) // 3
        for k in range(3): write(os.path.join(d, "p%d.txt" % k), parts[k * q:] if k == 2 else parts[k * q:(k + 1) * q])
        open(os.path.join(d, "p.lis"), "w").write("p0.txt\np1.txt\np2.txt\n")
        jobs.append((d, sats, common, obs, mjd))
    envs = [None, {"MALLOC_PERTURB_": "85", "VK_PAD": "x" * 3000}, {"MALLOC_PERTURB_": "170", "VK_PAD": "y" * 17}]
    def go(j):
        d, sats, common, obs, mjd = j
        alone = [(x, run_("sat_skymap", ["s%d.txt" % x.norad] + common, cwd=d)) for x in sats]
        many = [run_("sat_skymap", [f] + common, cwd=d, env=envs[k % 3]) for k, f in enumerate(["c0.txt", "c1.txt", "c2.txt", "c3.txt", "c4.txt", "@p.lis"])]
        again = [run_("sat_skymap", ["c0.txt"] + common, cwd=d, env=e) for e in envs]
        pick = [(x, run_("sat_skymap", ["c2.txt"] + common + ["-s%d" % x.norad], cwd=d)) for x in sats[:6]]
        m = ["-D", d, "-l" + obs.arg, "-j%.5f,%.5f" % (mjd, mjd + .04), "-t30", "-r120"]
        v = [(x, run_("sat_visibility", ["s%d.txt" % x.norad, "-s%d" % x.norad] + m, cwd=d), [run_("sat_visibility", [f, "-s%d" % x.norad] + m, cwd=d, env=e) for f, e in (("c0.txt", envs[0]), ("c1.txt", envs[1]), ("@p.lis", envs[2]))]) for x in sats[6:10]]
        return alone, many, again, pick, v
    for (d, sats, common, obs, mjd), (alone, many, again, pick, v) in zip(jobs, pmap(go, jobs)):
        one = {}
        for x, r in alone:
            if not sky.ok_report(c, r, "run"): return
            s = sky.sats_of(r); one[x.norad] = s[0][1] if s else None
            c.count("satellites without a position", not s)
        for r in many:
            if not sky.ok_report(c, r, "run"): continue
            got = dict(sky.sats_of(r))
            for x in sats:
                c.ev((r.shell(), x.norad)); c.count("entries compared with the satellite alone")
                if got.get(x.norad) != one[x.norad]: c.violation("catalogue", "satellite %d is %r among others and %r alone: %s" % (x.norad, got.get(x.norad), one[x.norad], r.shell()), argv=r.argv, tle=x.text, order=[y.norad for y in sats])
        for x, r in pick:
            if not sky.ok_report(c, r, "run"): continue
            got = dict(sky.sats_of(r)); c.ev((r.shell(),)); c.count("satellites picked by number")
            e, q = one[x.norad], got.get(x.norad)
            if (e is None) != (q is None) or (e and (e["data"][:5] + e["data"][6:], e["geoloc"]) != (q["data"][:5] + q["data"][6:], q["geoloc"])): c.violation("picked", "satellite %d picked is %r, alone %r: %s" % (x.norad, q, e, r.shell()), argv=r.argv, tle=x.text)
        for r in again:
            c.ev((r.shell(), "again", d)); c.count("repeated runs")
            if r.out != again[0].out: c.violation("repeat", "two runs of %s differ" % r.shell(), argv=r.argv, first=again[0].out[-4000:], second=r.out[-4000:])
        for x, r, rs in v:
            if r.json is None: sky.ok_report(c, r, "run", None); continue
            a = {k: w for k, w in r.json.items() if k != "run_command"}; a["input_params"] = {k: w for k, w in a.get("input_params", {}).items() if k != "tle_file"}
            for q in rs:
                if q.json is None: sky.ok_report(c, q, "run", None); continue
                b = {k: w for k, w in q.json.items() if k != "run_command"}; b["input_params"] = {k: w for k, w in b.get("input_params", {}).items() if k != "tle_file"}
                c.ev((q.shell(), x.norad)); c.count("visibility answers compared with the satellite alone")
                if a != b: c.violation("visibility", "sat_visibility says %r with others and %r alone: %s" % ({k: b.get(k) for k in b if b.get(k) != a.get(k)}, {k: a.get(k) for k in a if b.get(k) != a.get(k)}, q.shell()), argv=q.argv, tle=x.text)

def large(c):
    """A catalogue of a few thousand sets: many of them carry the elements of a few prototypes, whose entries must be those of the prototype alone."""
    rng = c.rng
    for i in range(c.n(2, 12)):
        mjd = round(rng.uniform(50000, 62000), 5); obs = sky.pick_obs(rng); d = tempfile.mkdtemp(dir=B.scratch())
        proto = [any_sat(rng, 100 + k, mjd) for k in range(rng.randint(5, 12))]
        proto = [x for x in proto if x.etype != "H"]
        common = ["-D", d, "-l" + obs.arg, "-j%.5f" % mjd, "-t%d" % rng.choice([1, 60]), "-r400", "-H", "-G", "-n0"]
        text = []; which = {}
        for k in range(rng.choice([1200, 2500, 6000])):
            x = rng.choice(proto); num = gen.norad_text(1000 + k); which[1000 + k] = x
            l1 = x.l1[:2] + num + x.l1[7:68]; l2 = x.l2[:2] + num + x.l2[7:68]
            text.append("%s\n%s\n%s\n" % (x.name_line, l1 + gen.checksum(l1), l2 + gen.checksum(l2)))
        open(os.path.join(d, "big.txt"), "w").write("".join(text))
        for x in proto: write(os.path.join(d, "s%d.txt" % x.norad), [x])
        alone = {x.norad: run_("sat_skymap", ["s%d.txt" % x.norad] + common, cwd=d) for x in proto}
        r = run_("sat_skymap", ["big.txt"] + common, cwd=d, timeout=120)
        if not sky.ok_report(c, r, "run") or not all(sky.ok_report(c, q, "run") for q in alone.values()): return
        got = dict(sky.sats_of(r)); e = {k: (sky.sats_of(q) or [(0, None)])[0][1] for k, q in alone.items()}
        pick = lambda q: None if q is None else (q["data"], q["geoloc"], q["intl_desig"], q["name"])
        for num, x in which.items():
            c.ev((r.shell(), num)); c.count("entries of large catalogues compared with the prototype alone")
            if pick(got.get(num)) != pick(e[x.norad]): c.violation("catalogue", "entry %d (%d in the list) is %r among %d others, its elements alone give %r: %s" % (num, num - 1000, got.get(num), len(which), e[x.norad], r.shell()), argv=r.argv, tle=x.text); return

def lib_set(rng, num):
    k = rng.random()
    y, d = rng.randint(1995, 2030), rng.uniform(1, 365)
    if k < .12: x = state(rng, num, year=y, doy=d, kind=rng.choice(["heo", "lunar", "L2", "far"])); x.model = 3; return x
    deep = k < .62
    el = gen.deep(rng) if deep else gen.leo(rng)
    x = gen.make_sat(rng, num, year=y, doy=d, bstar=rng.choice([0, 1e-5, 1e-4, -1e-4]), ndot=0, nddot=0, **el)
    x.model = rng.choice([3, 3, 4]) if deep else rng.choice([0, 1, 1, 2])
    return x

def walk(rng):
    """A sequence of times (minutes) of some style."""
    k = rng.choice(["step", "random", "zigzag", "fine", "repeat", "cross"])
    a = rng.choice([1, 10, 60, 1440]) * rng.uniform(.2, 3)
    if k == "step": t0 = rng.uniform(-3, 3) * 1440; return [t0 + i * a for i in range(14)]
    if k == "random": return [rng.uniform(-20, 20) * 1440 for _ in range(14)]
    if k == "zigzag": return [(-1) ** i * i * a for i in range(14)]
    if k == "fine": t0 = rng.uniform(-10, 10) * 1440; return [t0 + i * rng.choice([.1, 1, 29, 31]) for i in range(14)]
    if k == "repeat": p = [rng.uniform(-5, 5) * 1440 for _ in range(3)] + [0.0]; return [rng.choice(p) for _ in range(14)]
    return [x * rng.choice([1, -1]) for x in [0.0, 719.9, 720.0, 720.1, 1440.0, 29.9, 30.0, 30.1, 2160.0, 5000.0, 360.0, .001, 10000.0, 28800.0]]

def slack(x, t):
    """How far a kept deep-space term may move the satellite: lunar-solar terms of up to 30 minutes away and the steps of the resonance integration."""
    s = x.ref(True)
    p = s.posvel(t)[0]
    m = 0
    for o in (-30, -15, 15, 30): m = max(m, ref.norm(ref.sub(s.posvel(t, t + o)[0], p)))
    res = 0
    if s.irez:
        old = s._dspace
        try:
            for step in (5.0, 250.0):
                s._dspace = lambda tt, st=720.0, q=step: old(tt, q)
                res = max(res, ref.norm(ref.sub(s.posvel(t)[0], p)))
        finally: del s._dspace
    return m, res

def sequences(c):
    rng = c.rng; G = []
    for g in range(c.n(60, 700)):
        sets = [lib_set(rng, 100 + k) for k in range(rng.randint(2, 7))]
        ops = []
        for k, x in enumerate(sets):
            for t in walk(rng): ops.append((k, t))
        if rng.random() < .7: rng.shuffle(ops) if rng.random() < .5 else ops.sort(key=lambda o: rng.random() if rng.random() < .3 else o[1])
        G.append((sets, ops, [rng.random() < .3 for _ in ops]))
    def go(g):
        sets, ops, nv = g
        lines = []
        for k, x in enumerate(sets): lines += ["P%d\n%s\n%s" % (k, x.l1, x.l2), "I%d %d" % (k, x.model)]
        n0 = len(lines)
        for (k, t), z in zip(ops, nv): lines.append("T%d %d %s %d" % (k, sets[k].model, float.hex(t), z))
        a = lib.batch(lines)[n0:]
        lines = lines[:n0]; P = []
        for k, t in ops: lines += ["I%d %d" % (k, sets[k].model), "T%d %d %s" % (k, sets[k].model, float.hex(t))]
        b = lib.batch(lines)[n0 + 1::2]
        return a, b
    try: R = pmap(go, G)
    except lib.LibCrash as x: c.violation("crash", "the library stopped at %r (%s): %s" % (x.cmd, x.rc, x.err), cmd=x.cmd); return
    name = {v: k for k, v in lib.MODEL.items()}
    for (sets, ops, nv), (A, Bs) in zip(G, R):
        hist = {}
        for (k, t), z, a, b in zip(ops, nv, A, Bs):
            x = sets[k]; hist.setdefault(k, []).append(t)
            c.ev((x.l1, x.l2, tuple(hist[k]))); c.count("propagations by " + (name[x.model] if x.etype != "H" else "state vector"))
            exact = x.model < 3 or x.etype == "H"
            show = lambda: "%s of\n%s\nafter the times %r (and %d other sets): %r, fresh: %r" % (name[x.model], x.text, hist[k], len(sets) - 1, [F(w) for w in a[1:]], [F(w) for w in b[1:]])
            pa, pb = [F(w) for w in a[1:4]], [F(w) for w in b[1:4]]
            if exact:
                if a[0] != b[0] or a[1:4] != b[1:4] or (not z and a[4:] != b[4:]): c.violation("exact:" + name[x.model], show(), tle=x.text, times=hist[k]); break
                continue
            if a[0] != "0" or b[0] != "0":
                c.count("deep-space propagations with an error (not compared)"); continue
            if not all(isfinite(w) for w in pa + pb) and (x.ecc > .9 or x.model == 4 and x.incl > 175):          # SDP8 is singular at 180 deg
                c.count("deep-space propagations with an error (not compared)"); continue
            d = ref.norm(ref.sub(pa, pb))
            if d < .01: c.count("deep-space differences below 10 m"); continue
            try: m, res = slack(x, t)
            except SatErr: c.count("deep-space propagations with an error (not compared)"); continue
            c.counters["largest deep-space difference (m)"] = max(c.counters.get("largest deep-space difference (m)", 0), int(d * 1000))
            if x.ref(True).irez:
                # the steps taken depend on all the times asked for before
                for q in hist[k][:-1]:
                    try: res = max(res, slack(x, q)[1])
                    except SatErr: pass
            lim = .02 + 1.5 * m + 4 * res
            if d > lim: c.violation("deep:" + name[x.model], "%s: %.3f km apart, the granularity of the deep-space terms allows %.3f (+ %.3f by the integration)" % (show(), d, m, res), tle=x.text, times=hist[k]); break

def run(c):
    c.rule = ("catalogues of near-Earth, deep-space and state-vector sets in several orders and list files, each entry compared with that of the satellite alone and picked by number; the same run repeated with other memory contents; "
              "library sequences of times in many styles, interleaved over several sets and all models, each result compared with a fresh propagation (exactly for near-Earth sets and state vectors; deep-space within the change of the "
              "lunar-solar terms in 30 minutes and the step of the resonance integration); one evaluation per entry or propagation")
    catalogues(c)
    large(c)
    sequences(c)
