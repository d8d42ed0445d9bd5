import math
from vk import gen, ref, lib
from vk.sgp4ref import SatErr
from vk.run import pmap
from checks.c26 import walk
from checks.c10 import state
from checks.c08 import is_err

F = lib.F
# farthest a one-day / half-day resonant satellite may be from the exact solution (km), +-20 days: {(order, step): limit}
LIMIT = {1: {(2, 60.): .1, (2, 10.): .005, (3, 60.): .005, (4, 60.): .002, (4, 240.): .02, (6, 240.): .005, (8, 240.): .005, (8, 720.): .01, (10, 720.): .01, (5, 10.): .002},
         2: {(2, 60.): .4, (2, 10.): .03, (3, 60.): .2, (4, 60.): .2, (4, 240.): .8, (6, 240.): .8, (8, 240.): .8, (8, 720.): 2.5, (10, 720.): 2.5, (5, 10.): .03}}
# the median of these distances over satellites (about seven times what is seen)
MEDIAN = {1: {(2, 60.): 2e-3, (2, 10.): 4e-5, (3, 60.): 1.5e-5, (4, 60.): 1.5e-5, (4, 240.): 6e-5, (6, 240.): 4e-5, (8, 240.): 4e-5, (8, 720.): 1e-4, (10, 720.): 1e-4, (5, 10.): 1.5e-5},
          2: {(2, 60.): 1e-2, (2, 10.): 3e-4, (3, 60.): 8e-4, (4, 60.): 8e-4, (4, 240.): 3.5e-3, (6, 240.): 3.5e-3, (8, 240.): 3.5e-3, (8, 720.): 1e-2, (10, 720.): 1e-2, (5, 10.): 1.5e-4}}

def near(a, b): return ref.norm(ref.sub(a, b))
def pos(w): return [F(x) for x in w[1:4]]

def deep_set(rng):
    y, d = rng.randint(1965, 2045), rng.uniform(1, 365)
    return gen.make_sat(rng, rng.randint(1, 99999), year=y, doy=d, bstar=rng.choice([0, 1e-4, -1e-4]), **gen.deep(rng))

def compliance(c):
    """Compliance on: the theory to a metre, whatever was computed before."""
    rng = c.rng
    G = []
    for g in range(c.n(110, 1600)):
        sets = [deep_set(rng) for _ in range(rng.randint(1, 4))]
        models = [rng.choice([3, 3, 3, 4]) for _ in sets]
        step = rng.choice([720.] * 4 + [360., 60., 1000.])
        ops = [(k, t) for k in range(len(sets)) for t in walk(rng)]
        rng.shuffle(ops) if rng.random() < .5 else None
        G.append((sets, models, step, ops, 1))
    def go(g):
        sets, models, step, ops, on = g
        head = ["W1 %d" % on, "w%r" % step] if step != 720. else ["W1 %d" % on]
        for k, x in enumerate(sets): head += ["P%d\n%s\n%s" % (k, x.l1, x.l2), "I%d %d" % (k, models[k])]
        n = len(head)
        L = head + ["T%d %d %s" % (k, models[k], float.hex(t)) for k, t in ops]
        a = lib.batch(L)[n:]
        L = list(head)
        for k, t in ops: L += ["I%d %d" % (k, models[k]), "T%d %d %s" % (k, models[k], float.hex(t))]
        return a, lib.batch(L)[n + 1::2]
    for (sets, models, step, ops, on), (A, Bs) in zip(G, pmap(go, G)):
        seen = {}
        for (k, t), a, b in zip(ops, A, Bs):
            x = sets[k]; seen.setdefault(k, []).append(t); what = "SDP4" if models[k] == 3 else "SDP8"
            c.ev((x.l1, x.l2, models[k], step, tuple(seen[k]))); c.count("propagations with compliance on, " + what)
            if len(seen[k]) > 1: c.count("of these after other times")
            if a[0] != b[0] or (not is_err(int(a[0])) and a != b):
                c.violation("history:" + what, "%s, compliance on, step %g, at %r after %r: %r, fresh: %r\n%s" % (what, step, t, seen[k][:-1], a, b, x.text), tle=x.text, times=seen[k]); break
            if models[k] != 3: continue
            try: p, v = x.ref(True).posvel(t, None, step=step)
            except SatErr: c.count("impossible orbits"); continue
            if is_err(int(a[0])): c.count("result code %s where the reference has a position" % a[0]); continue
            d = near(pos(a), p)
            # the periodics divide by the sine of the perturbed inclination
            if not d <= .001 / min(1, 10 * math.radians(max(1e-3, 179 - x.incl))) ** 2:
                c.violation("theory", "SDP4, compliance on, step %g, at %r: %r is %.6f km from the theory's %r\n%s" % (step, t, pos(a), d, p, x.text), tle=x.text, t=t, times=seen[k]); break

def accuracy(c):
    """Order and step: the exact solution of the resonance equations is approached."""
    rng = c.rng; P = []
    while len(P) < c.n(120, 2500):
        x = deep_set(rng)
        try: R = x.ref(True)
        except SatErr: continue
        if R.irez: P.append((x, [rng.uniform(-20, 20) * 1440 for _ in range(2)]))
    def go(p):
        x, ts = p; L = ["P0\n%s\n%s" % (x.l1, x.l2)]; K = []
        for o, s in LIMIT[1]:
            L += ["W0 %d" % o, "w%r" % s]
            for t in ts: L += ["I0 3", "T0 3 %s" % float.hex(t)]; K.append((len(L) - 1, o, s, t))
        L += ["W0 2", "w720"]
        for t in ts: L += ["I0 3", "T0 3 %s" % float.hex(t)]; K.append((len(L) - 1, 2, 720., t))
        out = lib.batch(L)
        return [(o, s, t, out[i]) for i, o, s, t in K]
    D = {}
    for (x, ts), rs in zip(P, pmap(go, P)):
        R = x.ref(True); lim = {}
        for t in ts:
            old = R._dspace
            R._dspace = lambda tt, stp=720.0: old(tt, 5.0)
            try: lim[t] = R.posvel(t)[0]
            except SatErr: lim[t] = None
            finally: del R._dspace
        for o, s, t, w in rs:
            if lim[t] is None or is_err(int(w[0])): continue
            c.ev((x.l1, x.l2, o, s, t)); c.count("resonant propagations of %s" % ("one day" if R.irez == 1 else "half a day"))
            show = "SDP4 with order %d and steps of %g at %r: %r" % (o, s, t, pos(w))
            if o == 2:
                d = near(pos(w), R.posvel(t, None, step=s)[0])
                if not d <= .001: c.violation("scheme", "%s is %.6f km from the theory's integration\n%s" % (show, d, x.text), tle=x.text, t=t, order=o, step=s); return
            l = LIMIT[R.irez].get((o, s))
            if l is None: continue
            d = near(pos(w), lim[t]); D.setdefault((R.irez, o, s), []).append(d)
            c.sample({"tle": x.text, "order": o, "step": s, "t": t, "km from the exact solution": d})
            if not d <= l: c.violation("accuracy", "%s is %.6f km from the exact solution (%.3f allowed)\n%s" % (show, d, l, x.text), tle=x.text, t=t, order=o, step=s); return
    for (k, o, s), v in sorted(D.items()):
        v.sort(); m = v[len(v) // 2]; c.sample({"resonance": k, "order": o, "step": s, "median km from the exact solution": m, "propagations": len(v)})
        if len(v) >= 60 and not m <= MEDIAN[k][o, s]:
            c.violation("accuracy:median", "SDP4 with order %d and steps of %g: half of %d %s-day resonant propagations are more than %.3g km from the exact solution (%.3g allowed)" % (o, s, len(v), "one" if k == 1 else "half", m, MEDIAN[k][o, s]), order=o, step=s)

def unaffected(c):
    """Sets without resonance do not notice order and step; the defaults can be restored."""
    rng = c.rng; P = []
    while len(P) < c.n(150, 2500):
        k = rng.random(); y, d = rng.randint(1980, 2040), rng.uniform(1, 365)
        if k < .15: x = state(rng, 5, year=y, doy=d, kind=rng.choice(["heo", "lunar", "L2", "far"])); m = 3
        elif k < .45: x = gen.make_sat(rng, 5, year=y, doy=d, bstar=rng.choice([0, 1e-4]), ndot=0, nddot=0, **gen.leo(rng)); m = rng.choice([0, 1, 2])
        else: x = deep_set(rng); m = rng.choice([3, 3, 4])
        P.append((x, m, [rng.uniform(-10, 10) * 1440 for _ in range(4)]))
    SET = ["W0 1", "W0 3", "W0 6", "W0 10", "w60", "w1440", "w300", "W1 1", "W1 1"]
    def go(p):
        x, m, ts = p
        run = lambda: [q for t in ts for q in ("I0 %d" % m, "T0 %d %s" % (m, float.hex(t)))]
        sets = rng2.sample(SET, 3)
        L = ["P0\n%s\n%s" % (x.l1, x.l2)] + run() + sets + run() + ["W0 2", "w720", "W1 0"] + run()
        o = lib.batch(L); n = 2 * len(ts)
        return sets, o[2:1 + n:2], o[1 + n + 4:1 + n + 3 + n:2], o[-n + 1::2]
    import random
    rng2 = random.Random(rng.random())
    for (x, m, ts), (sets, a, b, d) in zip(P, [go(p) for p in P]):
        for t, u, v, w in zip(ts, a, b, d):
            c.ev((x.l1, x.l2, m, t)); c.count("settings changed and restored")
            if u != w: c.violation("restored", "model %d at %r after %s and back to the defaults: %r, before %r\n%s" % (m, t, sets, w, u, x.text), tle=x.text, t=t, settings=sets); return
            free = m < 3 or x.etype == "H" or (x.etype != "H" and not x.ref(True).irez)
            if free:
                c.count("non-resonant propagations under other settings")
                if u != v: c.violation("unaffected", "model %d at %r under %s: %r, with the defaults %r (no resonance)\n%s" % (m, t, sets, v, u, x.text), tle=x.text, t=t, settings=sets); return
            elif u != v: c.count("resonant results that differ under the settings")

def sequences(c):
    """Order and step leave sequences of nearby times of non-resonant sets alone too (the stored periodics are kept)."""
    rng = c.rng; P = []
    while len(P) < c.n(80, 1500):
        x = deep_set(rng)
        try:
            if x.ref(True).irez: continue
        except SatErr: continue
        t0 = rng.uniform(-10, 10) * 1440
        P.append((x, rng.choice([3, 3, 4]), [t0] + [t0 + rng.uniform(-60, 60) for _ in range(5)], rng.sample(["W0 1", "W0 3", "W0 6", "W0 10", "w60", "w1440"], 2)))
    def go(p):
        x, m, ts, sets = p
        run = ["I0 %d" % m] + ["T0 %d %s" % (m, float.hex(t)) for t in ts]
        o = lib.batch(["P0\n%s\n%s" % (x.l1, x.l2)] + run + sets + run)
        n = len(run)
        return o[2:1 + n], o[-n + 1:]
    for (x, m, ts, sets), (a, b) in zip(P, pmap(go, P)):
        for i, (t, u, v) in enumerate(zip(ts, a, b)):
            c.ev((x.l1, x.l2, m, tuple(ts[:i + 1]))); c.count("nearby times under other orders and steps")
            if u != v: c.violation("unaffected", "model %d at %r after %s under %s: %r, with the defaults %r (no resonance)\n%s" % (m, t, ts[:i], sets, v, u, x.text), tle=x.text, times=ts, settings=sets); return

def run(c):
    c.rule = ("library sequences with the settings changed: compliance on, sequences of times of many styles over deep-space sets, each result compared bit for bit with a fresh propagation and within a metre with an independent implementation "
              "of the theory; resonant sets under ten pairs of order and step, against the scheme (order 2) and the solution with steps of 5 minutes; every other kind of set bit for bit unaffected; defaults restored; one evaluation per propagation")
    try: compliance(c); accuracy(c); unaffected(c); sequences(c)
    except lib.LibCrash as x: c.violation("crash", "the library stopped at %r (%s): %s" % (x.cmd, x.rc, x.err), cmd=x.cmd)
