from math import isfinite
from vk import gen, ref, lib, sxpref
from vk.sgp4ref import SatErr, TWOPI
from vk.run import pmap
from checks.c08 import is_err

F = lib.F
NAMES = {v: k for k, v in lib.MODEL.items()}
H = .2

# published test cases of Spacetrack Report 3, km, every 360 minutes
STR3 = {
    "SGP": [(2328.96594238, -5995.21600342, 1719.97894287), (2456.00610352, -6071.94232178, 1222.95977784), (2567.39477539, -6112.49725342, 713.97710419),
            (2663.03179932, -6115.37414551, 195.73919105), (2742.85470581, -6079.13580322, -328.86091614)],
    "SGP4": [(2328.97048951, -5995.22076416, 1719.97067261), (2456.10705566, -6071.93853760, 1222.89727783), (2567.56195068, -6112.50384522, 713.96397400),
             (2663.09078980, -6115.48229980, 196.39640427), (2742.55133057, -6079.67144775, -326.38095856)],
    "SGP8": [(2328.87265015, -5995.21289063, 1720.04884338), (2456.04577637, -6071.90490722, 1222.84086609), (2567.68383789, -6112.40881348, 713.29282379),
             (2663.49508667, -6115.18182373, 194.62816810), (2743.29238892, -6078.90783691, -329.73434067)],
    "SDP4": [(7473.37066650, 428.95261765, 5828.74786377), (-3305.22537232, 32410.86328125, -24697.1767581), (14271.28759766, 24110.46411133, -4725.76837158),
             (-9990.05883789, 22717.35522461, -23616.89066250), (9787.86975097, 33753.34667969, -15030.81176758)],
    "SDP8": [(7469.47631836, 415.99390792, 5829.64318848), (-3337.38992310, 32351.39086914, -24658.63037109), (14226.54333496, 24236.08740234, -4856.19744873),
             (-10151.59838867, 22223.69848633, -23392.39770508), (9420.08203125, 33847.21875000, -15391.06469727)]}
NEAR = ("1 88888U          80275.98708465  .00073094  13844-3  66816-4 0    8", "2 88888  72.8435 115.9689 0086731  52.6988 110.5714 16.05824518  105")
DEEP = ("1 11801U          80230.29629788  .01431103  00000-0  14311-1       2", "2 11801  46.7916 230.4354 7318036  47.4722  10.4117  2.28537848")

def vel_bound(model, e, n=1):
    """Relative difference of the velocity from the derivative of the position: what the theories leave out, by eccentricity."""
    k = min(int(e * 10), 9)
    if model == "SGP": return 3e-3
    if model == "SGP4": return [4e-4, 8e-4, 1.2e-3, 1.6e-3, 2e-3][min(k, 4)]
    if model == "SGP8": return [1.2e-3, 1.5e-3, 1.8e-3, 2e-3, 2.4e-3][min(k, 4)]
    if e > .935 or 42241 / n ** (2 / 3) * (1 + e) > 2e5: return .3            # lunar distances: the periodics are large
    return [5e-4, 5e-4, 8e-4, 3e-3, 3e-3, 5e-3, 6e-3, 8e-3, 2e-2, 4e-2][k] * (2 if n < .4 else 1)

def model_bound(a, b, e, t):
    """km between two models at t minutes (no drag)."""
    k = min(int(e * 10), 9); d = abs(t) / 1440
    if (a, b) == ("SGP", "SGP4"): return 1.2 + 8 * d
    if b == "SGP8" or a == "SGP8": return 12 + 20 * e + (30 + 200 * e) * d
    if e > .9: return (600 if e < .935 else 1200) * (1 + 4 * d)
    return [4, 8, 15, 20, 30, 40, 60, 90, 350, 600][k] * (1 + 4 * d)

def batchmap(jobs, f, step=250):
    """jobs -> command lists by f(job); answers per job."""
    def part(js):
        cmds, cut = [], []
        for j in js: x = f(j); cmds += x; cut.append(len(x))
        out = lib.batch(cmds); r = []; i = 0
        for n in cut: r.append(out[i:i + n]); i += n
        return r
    return [r for p in pmap(part, [jobs[i:i + step] for i in range(0, len(jobs), step)]) for r in p]

def run(c):
    c.rule = ("every propagator on element sets over its whole domain within a day of the epoch: against an independent implementation of its theory (SGP, SGP8, SDP8 here; SGP4, SDP4 in C08, C09), the published positions, "
              "its velocity against a five-point derivative of its position, and the models against each other; one evaluation per (set, time, model); distinct = (set, time, model)")
    c.assumptions.append("SGP8 and SDP8 are singular at 180 degrees: they are judged against their theory up to 178 degrees of inclination and against the other models and their velocity up to 150")
    rng = c.rng
    T = lambda: rng.choice([0.0, rng.uniform(-60, 60), rng.uniform(-1440, 1440), rng.uniform(-1440, 1440)])
    try:
        # published positions
        for model, l in STR3.items():
            a, b = (x.ljust(68)[:68] for x in (NEAR if model.startswith("SG") else DEEP)); m = lib.MODEL[model]
            out = lib.batch(["P0\n%s\n%s" % (a + gen.checksum(a), b + gen.checksum(b)), "I0 %d" % m] + ["T0 %d %d" % (m, 360 * i) for i in range(5)])
            for i, (w, p) in enumerate(zip(out[2:], l)):
                d = ref.norm(ref.sub([F(x) for x in w[1:4]], p)); c.ev((model, i)); c.count("published positions")
                # the published deep-space runs predate the published corrections of the lunar-solar terms
                if not d < (1.0 if model == "SDP4" else 6.0 if model == "SDP8" else .05):
                    c.violation("str3:" + model, "%s at %d min: published position %r, computed %r, %.3f km apart" % (model, 360 * i, p, [F(x) for x in w[1:4]], d))
        # against the theory
        jobs = []
        for k in range(c.n(3000, 60000)):
            model = ("SGP", "SGP8", "SDP8", "SGP8")[k % 4]
            el = gen.deep(rng) if model == "SDP8" else gen.leo(rng)
            kw = {}
            if rng.random() < .5:
                kw["bstar"] = rng.choice([-1, 1, 1]) * 10 ** rng.uniform(-6, -.5)
                if rng.random() < .5 and model != "SDP8": el = gen.leo(rng, rng.choice(["circ", "tinye", "low220", "low156"])); el["ecc"] = rng.choice([el["ecc"], 0, 10 ** rng.uniform(-7, -2)])
            if model == "SGP": kw["ndot"] = rng.choice([0, rng.uniform(-.01, .01), rng.uniform(-1e-4, 1e-4)]); kw["nddot"] = rng.choice([0, rng.uniform(-1e-3, 1e-3), rng.uniform(-.1, .1)])
            jobs.append((model, gen.make_sat(rng, rng.randint(1, 99999), **dict(el, **kw)), T()))
        def cmds(j):
            m = lib.MODEL[j[0]]
            return ["P0\n%s\n%s" % (j[1].l1, j[1].l2), "I0 %d" % m, "T0 %d %s" % (m, float.hex(j[2])), "T0 %d %s 1" % (m, float.hex(j[2]))]
        for (model, s, t), o in zip(jobs, batchmap(jobs, cmds)):
            x = [F(y) for y in o[2][1:]]; code = int(o[2][0])
            bad = lambda key, m: c.violation(key, "%s, %s at %+.3f min: %s" % (model, s.num, t, m), tle=s.text, t=t)
            if o[3][0] != o[2][0] or not all(a == b or abs(F(a) - F(b)) < 1e-6 + 1e-9 * abs(F(b)) for a, b in zip(o[3][1:4], o[2][1:4])): bad("novel", "without the velocity the answer is %r, with it %r" % (o[3], o[2])); continue
            if model != "SGP" and s.incl > 178: c.count("not judged (near the singularity at 180 degrees)"); continue
            q = None
            try:
                if model == "SGP": r = sxpref.SGP(s.el, s.ndot * TWOPI / 1440 ** 2, s.nddot * TWOPI / 1440 ** 3)
                else:
                    r = sxpref.SGP8(s.el, model == "SDP8"); q = None if r.simple else r.qq
                p, v = r.posvel(t)
            except SatErr as z:
                if model == "SGP":
                    if not is_err(code): bad("no error", "impossible orbit (%d expected) but result code %d, position %r" % (z.code, code, x[:3]))
                    else: c.count("impossible orbits signalled")
                else: c.count("not judged (outside the domain of the theory)")
                continue
            c.ev((model, s.l1, s.l2, t)); c.count("theory " + model)
            if q is not None:
                c.count("strong drag")
                if s.ecc == 0: c.count("strong drag, circular")
                if abs(r.ed * r.qq * r.ga * t) > .9: c.count("not judged (the eccentricity leaves 0 to 1 at its present rate)"); continue
                if not all(map(isfinite, x)): bad("finite", "position %r" % (x[:3],)); continue
                if abs(q - 1) > 7.9: c.count("not judged against the theory (power law outside its range)"); continue
            if is_err(code): bad("error", "error %d for an orbit that can be computed" % code); continue
            a = r.ao if model == "SGP" else r.a
            tol = 1e-3 if model == "SGP" else .05 + 2e-6 * a * 6378.135 / (1 - s.ecc) ** 1.5
            if q is not None: tol += .1 + 1e-6 * ref.norm(p)            # drag may have raised the orbit
            d = ref.norm(ref.sub(x[:3], p)); dv = ref.norm(ref.sub(x[3:], v)) / 60
            vt = 1e-5 if model == "SGP" else 2e-5 + tol * 2e-3
            if not d <= tol or not dv <= vt: bad("theory:" + model, "position %r differs by %.5f km, velocity by %.3g km/s from the theory's %r" % (x[:3], d, dv, p)); continue
        # circular orbits with strong drag, where the power law of SGP8 degenerates
        jobs = []
        for k in range(c.n(300, 5000)):
            el = gen.leo(rng, "circ"); el["ecc"] = rng.choice([0, 0, 1e-7, 1e-6, 1e-5]); el["n"] = gen.n_from(rng.uniform(200, 400), el["ecc"])
            if rng.random() < .3: el["argp"] = rng.choice([0, 180])
            if rng.random() < .2: el["incl"] = 0
            if el["incl"] > 150: el["incl"] = 65
            jobs.append((gen.make_sat(rng, rng.randint(1, 99999), bstar=10 ** rng.uniform(-4, -1.6), **el), rng.uniform(-90, 90)))
        for (s, t), o in zip(jobs, batchmap(jobs, lambda j: ["P0\n%s\n%s" % (j[0].l1, j[0].l2), "I0 2", "T0 2 %s" % float.hex(j[1]), "I0 1", "T0 1 %s" % float.hex(j[1])])):
            a, b = [[F(y) for y in o[i][1:4]] for i in (2, 4)]; d = ref.norm(ref.sub(a, b)); c.ev(("circ", s.l1, s.l2, t)); c.count("circular orbits with drag")
            try: r = sxpref.SGP8(s.el)
            except SatErr: continue
            if not r.simple and 1 - r.ga * t < .02: c.count("not judged (decayed by the theory)"); continue
            if not d < 200: c.violation("circular", "SGP8, %s at %+.3f min: position %r, SGP4 %r" % (s.num, t, a, b), tle=s.text, t=t)
        # velocity and the other models
        jobs = []
        for k in range(c.n(2500, 40000)):
            deep = k % 5 > 2
            el = gen.deep(rng) if deep else gen.leo(rng, rng.choice(["circ", "ecc", "high", "near225", "tinye", "low220"]))
            jobs.append((deep, gen.make_sat(rng, rng.randint(1, 99999), bstar=0, ndot=0, nddot=0, **el), T()))
        def cmds(j):
            L = ["P0\n%s\n%s" % (j[1].l1, j[1].l2)]
            for m in ((3, 4) if j[0] else (0, 1, 2)):
                for q in (0, -2 * H, -H, H, 2 * H): L += ["I0 %d" % m, "T0 %d %s" % (m, float.hex(j[2] + q))]
            return L
        for (deep, s, t), o in zip(jobs, batchmap(jobs, cmds, 60)):
            pos = {}
            for i, m in enumerate((3, 4) if deep else (0, 1, 2)):
                w = o[2 + 10 * i:12 + 10 * i:2]; name = NAMES[m]
                if s.incl > (150 if name in ("SGP8", "SDP8") or deep and s.ecc > .9 else 179): continue
                if any(is_err(int(x[0])) for x in w): c.count("not judged (error reported)"); continue
                P = [[F(y) for y in x[1:4]] for x in w]; v = [F(y) for y in w[0][4:]]
                D = [(P[1][j] - 8 * P[2][j] + 8 * P[3][j] - P[4][j]) / (12 * H) for j in range(3)]
                e = ref.norm(ref.sub(v, D)) / ref.norm(D); c.ev((name, s.l1, s.l2, t, "v")); c.count("velocity " + name)
                # SGP8 and SDP8 solve Kepler's equation to 1e-6 rad
                noise = 2e-6 / H * (gen.XKE / s.el.n) ** (2 / 3) * 6378.135 / ref.norm(D) if name in ("SGP8", "SDP8") else 0
                if not e <= vel_bound(name, s.ecc, s.n) + noise:
                    c.violation("velocity:" + name, "%s, %s at %+.3f min: velocity %r km/min, the position changes by %r, relative difference %.2e" % (name, s.num, t, v, D, e), tle=s.text, t=t)
                pos[name] = P[0]
            for a, b in (("SGP", "SGP4"), ("SGP4", "SGP8"), ("SDP4", "SDP8")):
                if a in pos and b in pos:
                    d = ref.norm(ref.sub(pos[a], pos[b])); c.count("models %s-%s" % (a, b))
                    if not d <= model_bound(a, b, s.ecc, t): c.violation("models:%s-%s" % (a, b), "%s at %+.3f min: %s %r and %s %r are %.2f km apart (e %.4f)" % (s.num, t, a, pos[a], b, pos[b], d, s.ecc), tle=s.text, t=t)
    except lib.LibCrash as x: c.violation("crash", "the library stopped at %r (%s): %s" % (x.cmd, x.rc, x.err), cmd=x.cmd); return
    c.sample(dict(first=jobs[0][1].l1))
