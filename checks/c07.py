from vk import gen, ref, sky
from vk.run import pmap

def key(x): return (x["norad_n"], x["name"], x["intl_desig"], tuple(x["data"]), tuple(sorted(x["geoloc"].items())))

def run(c):
    c.rule = ("every search (region, whole sky, -E, by name, with a cap) is run plainly and with -a, -V and both in random positions; the filtered list must be the plain list with the entries "
              "that fail removed, all values equal; one evaluation per filtered run; distinct = filtered runs that both keep and drop something")
    rng = c.rng
    jobs = []
    for i in range(c.n(60, 700)):
        mk = None
        if i % 4 == 0:
            def mk(r, n, m):          # also below the surface
                y, d = gen.epoch_for(m, r, .003)
                if r.random() < .4:
                    q = ref.unit(r.uniform(0, 360), r.uniform(-90, 90)); w = ref.unit(r.uniform(0, 360), r.uniform(-90, 90)); h = r.choice([r.uniform(6240, 6500), r.uniform(6350, 6380)])
                    return gen.high_state(r, n, year=y, doy=d, r=[int(h * 1000 * v) for v in q], v=[int(7.9e7 * v) for v in w])
                return gen.make_sat(r, n, year=y, doy=d, bstar=0, **gen.leo(r, r.choice(["circ", "high"])))
        s = sky.Scene(rng, rng.randint(30, 80), maker=mk, dt=rng.choice([1, 1, 20, 900, -60]))
        for j in range(c.n(3, 6)):
            kind = rng.choice(["all", "all", "region", "-E", "-S", "near"])
            near = [e for e in s.exp if e.err is None]; near = rng.choice([e for e in near if e.blocked] or near) if rng.random() < .7 else rng.choice(near)
            base = {"all": ["-H", "-r200"], "region": ["-H", "-r%d" % rng.randint(40, 120), "-p%.3f,%.3f" % (rng.uniform(0, 360), rng.uniform(-90, 90))],
                    "-E": ["-E", "-H", "-r%d" % rng.randint(60, 150)], "-S": ["-SSAT"],
                    "near": ["-H", "-r%r" % rng.choice([.2, 1, 5, 30, 100]), "-p%.4f,%.4f" % (near.ra, near.dec)]}[kind]
            if rng.random() < .15 and kind == "region": base.remove("-H")
            alts = sorted(e.alt for e in s.exp if e.err is None)
            lo, hi = rng.choice([(rng.uniform(100, 1500), rng.uniform(600, 45000)), (rng.choice(alts) - 5, rng.choice(alts) + 5), (-100, rng.choice(alts) + 3), (round(rng.uniform(-60, 0), 1), rng.uniform(0, 500)), (rng.choice(alts) - 3, 1e6),
                                 (round(rng.choice(alts), 2), round(rng.choice(alts), 2))])
            if rng.random() < .35:        # a limit just beside a satellite
                x = rng.choice(alts); off = rng.choice([1, -1]) * rng.choice([.02, .1, .3, .6, .95])
                lo, hi = rng.choice([(x + off, 1e5), (-100, x + off), (x - abs(off), x + abs(off))])
            lo, hi = round(lo, 3), round(hi, 3)
            a = "-a%r,%r" % ((lo, hi) if rng.random() < .6 else (hi, lo))
            jobs.append((s, base, a, min(lo, hi), max(lo, hi), kind))
    def go(j):
        s, base, a = j[0], j[1], j[2]
        r = __import__("random").Random(repr(j[1:4]))
        def mix(extra):
            x = list(base) + (["-G"] if a not in extra or r.random() < .3 else []) + extra   # -a implies -G
            r.shuffle(x)
            f = s.base_args()
            return sky.run("sat_skymap", f + x if r.random() < .5 else f[1:] + x + f[:1], cwd=s.dir)
        one = r.choice([e.sat for e in s.exp if e.err is None])
        one = "-i" + gen.desig_text(one.desig) if one.desig.strip() and r.random() < .5 else "-s%d" % one.norad
        cap = r.randint(1, 12)
        return [mix([]), mix([a]), mix(["-V"]), mix([a, "-V"]), mix([one]), mix([one, a]), (mix([a, "-V", "-n%d" % cap]), cap), [(x, mix([x, "-I"] if x != "both" else [a, "-V", "-I"])) for x in (a, "-V", "both")]]
    for k, (j, (r0, ra, rv, rav, s0, sa, (rc, cap), rI)) in enumerate(zip(jobs, pmap(go, jobs))):
        s, base, a, lo, hi, kind = j
        if not all(sky.ok_report(c, r, "run") for r in (r0, ra, rv, rav, s0, sa, rc)): continue
        plain = r0.json.get("satellites", [])
        ok_a = lambda x: lo <= x["geoloc"]["alt"] <= hi
        sure = lambda x: min(abs(x["geoloc"]["alt"] - lo), abs(x["geoloc"]["alt"] - hi)) > .0051
        ok_v = lambda x: x["data"][8] == 1
        for name, r, f, need in (("altitude", ra, ok_a, True), ("sunlit", rv, ok_v, False), ("both", rav, lambda x: ok_a(x) and ok_v(x), True)):
            got = [key(x) for x in r.json.get("satellites", [])]
            unsure = {x["norad_n"] for x in plain if not sure(x)} if need else set()
            exp = [key(x) for x in plain if f(x) and x["norad_n"] not in unsure]
            g = [x for x in got if x[0] not in unsure]
            c.ev((k, name) if exp and len(exp) < len(plain) else None)
            c.count(name + " filtered runs"); c.count(name + ": kept", len(exp)); c.count(name + ": dropped", len(plain) - len(exp))
            if g != exp:
                extra = [x for x in g if x not in exp]; miss = [x for x in exp if x not in g]
                c.violation("filter:" + name, "limits %r..%r: %d kept, %d expected; unexpected %r, missing %r; %s" % (lo, hi, len(g), len(exp), extra[:2], miss[:2], r.shell()), argv=r.argv)
            n1 = sum(x["data"][8] for x in r.json.get("satellites", []))
            c.check(r.json["n_sats_found"] == len(got) and r.json["n_sunlit_sats"] == n1, "filter:count", "counts %r, %r for %d listed, %d sunlit: %s" %
                    (r.json["n_sats_found"], r.json["n_sunlit_sats"], len(got), n1, r.shell()), argv=r.argv)
        for (x, r), r2 in zip(rI, (ra, rv, rav)):       # only the counts
            c.count("filtered runs with counts only")
            if sky.ok_report(c, r, "run"): c.check((r.json["n_sats_found"], r.json["n_sunlit_sats"]) == (r2.json["n_sats_found"], r2.json["n_sunlit_sats"]), "filter:counts only", "counts %r, %r with -I, without it %r, %r: %s" %
                    (r.json["n_sats_found"], r.json["n_sunlit_sats"], r2.json["n_sats_found"], r2.json["n_sunlit_sats"], r.shell()), argv=r.argv)
        c.ev((k, "single"))
        if s0.json.get("satellites") != sa.json.get("satellites"):
            c.violation("filter:single", "-a changes a single-satellite request: %s" % sa.shell(), argv=sa.argv)
        full = [key(x) for x in rav.json.get("satellites", [])]
        got = [key(x) for x in rc.json.get("satellites", [])]
        c.ev((k, "cap") if len(full) > cap else None)
        c.check(got == full[:cap], "filter:cap", "with a cap of %d the filtered list is not the beginning of the uncapped one (%d listed): %s" % (cap, len(got), rc.shell()), argv=rc.argv)
        if k % 30 == 0: c.sample(dict(search=base, filter=a, plain=len(plain), altitude=len(ra.json.get("satellites", [])), sunlit=len(rv.json.get("satellites", []))))
