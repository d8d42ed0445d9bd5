import os, tempfile
from vk import gen, ref, sky
from vk.run import run as run_, pmap

NAMES = ["1998-067A PAYLOAD", "2MASS", "1", "2", "1KUNS-PF", "2 DELTA 1 R/B", "1 FIRST", "3CAT-1", "ISS (ZARYA)", "ISS DEB", "ISS", "STARLINK-1007", "STARLINK-10", "STARLINK-1",
         "AAAAAAAAAABBBBBBBBBBCCCC", "AAAAAAAAAABBBBBBBBBBCCC", "AAAAAAAAAABBBBBBBBBBCC", "ABCDEFGHIJKLMNOPQRSTUVWX", "COSMOS 2251 DEB", "cosmos 2251 deb", "A B  C", "O'NEIL & CO", "0 TOBOT"]

def catalogue(rng, mjd, high=False):
    """Sets with related numbers, designators and names, and second occurrences with other elements."""
    sats = []
    launch = "%02d%03d" % (rng.choice([57, 67, 98, 99, 0, 5, 19, 24]), rng.randint(1, 150))
    pieces = ["A", "B", "AA", "AB", "ABC", "AAA", "Z", "C", "ACE", "X"]
    used = set()
    for k in range(rng.randint(5, 24)):
        r = rng.random()
        if r < .35: num = rng.randint(1, 99999)
        elif r < .6: num = rng.randint(100000, 339999)
        elif r < .7: num = rng.randint(340000, 45435423)
        else: num = rng.choice([5, 50, 500, 5000, 50000, 25544, 25545, 100000, 100001, 339999, 340000, 99999, 9999, 10000])
        y, d = gen.epoch_for(mjd, rng, 1)
        if high: el = dict(n=rng.uniform(.9, 1.1), ecc=rng.uniform(0, .01), incl=rng.uniform(30, 120), node=rng.uniform(0, 360), argp=rng.uniform(0, 360), ma=rng.uniform(0, 360))
        else: el = gen.leo(rng, rng.choice(["circ", "high", "ecc"])) if rng.random() < .7 else gen.deep(rng, "gps")
        ds = (launch if rng.random() < .6 else "%02d%03d" % (rng.choice([57, 65, 99, 0, 7, 20, 24]), rng.randint(1, 999))) + rng.choice(pieces)
        if rng.random() < .04: ds = ""
        nm = rng.choice(NAMES) if rng.random() < .7 else "OBJ %d" % rng.randint(1, 99)
        if rng.random() < .1: nm = nm + "  "
        b = 0
        if not high and rng.random() < .06: y, d = gen.epoch_for(mjd - 40, rng, 1); el = dict(gen.leo(rng, "circ"), n=gen.n_from(150, 0), ecc=0); b = .9
        sats.append(gen.make_sat(rng, num, name=nm.rstrip(), year=y, doy=d, desig="%-8s" % ds, bstar=b, **el))
        sats[-1].name_line = nm
    for _ in range(rng.randint(0, 5)):           # later occurrence of the same number with other elements
        x = rng.choice(sats)
        y, d = gen.epoch_for(mjd, rng, 1)
        sats.append(gen.make_sat(rng, x.norad, name="LATER", year=y, doy=d, desig=x.desig, bstar=0, **gen.leo(rng, "circ")))
    return sats

def desig(x): return gen.desig_text(x.desig) if x.desig.strip() else "none"

def want_of(kind, key, sats):
    if kind == "s": m = [x for x in sats if x.norad == key][:1]
    elif kind == "i": m = [x for x in sats if x.desig.strip() and desig(x) == key][:1]
    else:
        seen = set(); m = []
        for x in sats:
            if x.name.startswith(key) and x.num not in seen: seen.add(x.num); m.append(x)
    return m

def requests(rng, sats):
    out = []
    for _ in range(6):
        x = rng.choice(sats)
        out.append(("s", x.norad if rng.random() < .8 else rng.choice([x.norad + 1, x.norad % 100000, 0, 45435424, 7777])))
    x = rng.choice(sats)         # numbers no catalogue can hold: congruent to an existing one modulo a power of two
    out.append(("s", x.norad + rng.choice([2 ** 32, -2 ** 32, 2 ** 33, 5 * 2 ** 32, 2 ** 40, 2 ** 64, -2 ** 64, 2 ** 31, 2 ** 20, 10 ** 9, 10 ** 5 * 1000003])))
    for _ in range(5):
        x = rng.choice(sats)
        if not x.desig.strip(): continue
        d = desig(x)
        out.append(("i", rng.choice([d, d, d, d, d + "A", d[:-1], d[:9], "1961-015A", d.lower()])))
    for _ in range(5):
        x = rng.choice(sats)
        n = x.name
        out.append(("S", rng.choice([n, n, n[:rng.randint(1, len(n))], n[:1], n + "Z", n[1:] or "q", "nothing", n.swapcase(), " " + n, ""])))
    return out

def run(c):
    c.rule = ("catalogues with related catalogue numbers (five digits, Alpha-5, extended), designators (pieces A, AA, AB, ABC of one launch) and names (prefixes of each other, digits first, 24 characters), "
              "with later occurrences of the same number; requests by -s, -i and -S, present and absent, with filters and options in any order, to both programs; one evaluation per request; "
              "distinct = requests that match something or are one character off")
    rng = c.rng
    jobs = []
    for i in range(c.n(70, 900)):
        mjd = round(rng.uniform(54000, 61000) if rng.random() < .7 else rng.choice([rng.uniform(36200, 41000), rng.uniform(69900, 72000)]), 5)     # epochs up to 2056
        sats = catalogue(rng, mjd, high=i % 3 == 0)
        d = tempfile.mkdtemp(dir=sky.B.scratch())
        nl = rng.choice(["\n", "\r\n"])
        if rng.random() < .3:
            k = rng.randint(1, len(sats) - 1)
            parts = [sats[:k], sats[k:]]
            for j, p in enumerate(parts):
                with open(os.path.join(d, "p%d" % j), "w", newline="") as f: f.write("".join(x.text for x in p).replace("\n", nl))
            with open(os.path.join(d, "l"), "w") as f: f.write("p0\np1\n")
            arg = "@l"
        else:
            with open(os.path.join(d, "c.txt"), "w", newline="") as f: f.write("".join(x.text for x in sats).replace("\n", nl))
            arg = "c.txt"
        obs = sky.pick_obs(rng)
        for kind, key in requests(rng, sats):
            m = want_of(kind, key, sats)
            text = str(key)
            if kind == "s" and rng.random() < .2: text = "%06d" % key
            if kind in "si" and rng.random() < .3:
                # sat_visibility: identity of the satellite it works on
                j0 = mjd
                a = ["-l" + obs.arg, "-j%.5f,%.5f" % (mjd, mjd + .002), "-r180", "-t60"]
                prog = "sat_visibility"
            else:
                a = ["-l" + obs.arg, "-j%.5f" % mjd]
                a += rng.choice([[], [], ["-p%.2f,%.2f" % (rng.uniform(0, 360), rng.uniform(-80, 80)), "-r0.1"], ["-r1"], ["-H"], ["-E"], ["-G"], ["-n1"] if kind != "S" else []])
                if rng.random() < .25: a.append("-V")
                if rng.random() < .2: a.append("-a%g,%g" % (rng.uniform(100, 900), rng.uniform(900, 40000)))
                prog = "sat_skymap"
            sel = rng.choice([["-" + kind + text], ["-" + kind, text]]) if text else ["-" + kind, text]
            groups = [[x] for x in a] + [sel]
            if rng.random() < .12 and kind != "S":      # the number prevails over a designator, and both over a name
                y = rng.choice(sats); o = []
                if kind == "s" and y.desig.strip(): o.append("-i" + desig(y))
                if prog == "sat_skymap": o.append("-S" + (y.name or "A"))
                if o: groups.append([rng.choice(o)]); c.count("requests with a second selection")
            rng.shuffle(groups)
            flat = [y for g in groups for y in g]
            argv = [arg] + flat if rng.random() < .6 or kind == "S" and text == "" else flat + [arg]
            jobs.append((prog, d, argv, kind, key, m, sats, obs, mjd, "-V" in a, [x for x in a if x.startswith("-a")]))
    runs = pmap(lambda j: run_(j[0], j[2], cwd=j[1]), jobs)
    for k, ((prog, d, argv, kind, key, m, sats, obs, mjd, vis, alt), rn) in enumerate(zip(jobs, runs)):
        if kind == "s" and not -2 ** 31 <= key < 2 ** 31:
            c.ev((k,)); c.count("%s requests by numbers beyond the range of integers" % prog)
            rep = rn.json
            if rep is None: c.violation("json", "unreadable report from %s: %s" % (rn.shell(), rn.jerr), argv=rn.argv)
            elif rep.get("satellites") or rep.get("satellite") or rep.get("n_sats_found", 0) > 0 or not rep["errmsg"]:
                c.violation("-s", "%s: nothing has this number, but %r is reported (%r)" % (rn.shell(), rep.get("satellites") or rep.get("satellite"), rep["errmsg"]), argv=rn.argv, catalogue="".join(x.text for x in sats))
            continue
        if prog == "sat_visibility":
            judge_vis(c, k, rn, kind, key, m, sats, obs, mjd); continue
        if not sky.ok_report(c, rn, "run"): continue
        rep = rn.json
        exps = [(x, sky.expected(x, obs, mjd)) for x in m]
        if any(e.err is not None for x, e in exps):
            if kind in "si" and rep["errmsg"]: c.ev((k,)); c.violation("-" + kind, "%s: error message %r although the (decayed) satellite is in the catalogue" % (rn.shell(), rep["errmsg"]), argv=rn.argv, catalogue="".join(x.text for x in sats))
            c.count("requests of decayed satellites" if kind in "si" else "not judged (no position)"); continue
        want, unsure = [], False
        for x, e in exps:
            if alt and kind == "S":
                lo, hi = sorted(float(v) for v in alt[0][2:].split(","))
                if min(abs(e.alt - lo), abs(e.alt - hi)) < .02: unsure = True
                if not lo <= e.alt <= hi: continue
            if vis:
                if abs(e.margin) < 2: unsure = True
                if e.blocked: continue
            want.append((x, e))
        if unsure: c.count("not judged (on a filter's border)"); continue
        got = rep.get("satellites", [])
        c.ev((k,) if m or kind != "S" else None)
        c.count("%s requests by -%s, %s" % (prog, kind, "present" if m else "absent"))
        bad = None
        exp = [(x.name, desig(x), x.norad) for x, e in want]
        g = [(x["name"], x["intl_desig"].rstrip(), x["norad_n"]) for x in got]
        if g != exp: bad = "reported %r, expected %r" % (g[:4], exp[:4])
        elif rep["n_sats_found"] != len(exp): bad = "n_sats_found %r for %d" % (rep["n_sats_found"], len(exp))
        elif kind in "si" and bool(rep["errmsg"]) != (not m): bad = "error message %r although the satellite is %s the catalogue" % (rep["errmsg"], "in" if m else "not in")
        else:
            for (x, e), y in zip(want, got):
                if abs(y["data"][4] - e.dist) > .0051 + e.ptol + 1e-9 * e.dist: bad = "%s: distance %r, expected %.2f (other elements?)" % (x.name, y["data"][4], e.dist)
                if kind in "si" and "geoloc" not in y: bad = "no geodetic location for a single satellite"
        if bad: c.violation("-" + kind, "%s: %s" % (rn.shell(), bad), argv=rn.argv, catalogue="".join(x.text for x in sats))
        if k % 150 == 0: c.sample(dict(argv=argv, reported=g[:3]))

def judge_vis(c, k, rn, kind, key, m, sats, obs, mjd):
    if rn.json is None: c.violation("vis:json", "unreadable report from %s: %s" % (rn.shell(), rn.jerr), argv=rn.argv); return
    rep = rn.json
    c.ev((k,)); c.count("sat_visibility requests by -%s, %s" % (kind, "present" if m else "absent"))
    bad = None
    if not m:
        if rep["status"] == 0 or rn.rc == 0 or not rep["errmsg"] or "satellite" in rep: bad = "absent satellite, but status %r, exit %r, %r" % (rep["status"], rn.rc, rep["errmsg"])
    else:
        x = m[0]
        es = [sky.expected(x, obs, mjd + t / 1440) for t in (0, 1, 2)]
        if any(e.err is not None for e in es): c.count("not judged (no position)"); return
        if rep["status"] != 0 or rn.rc != 0: bad = "present satellite, but status %r %r" % (rep["status"], rep["errmsg"])
        elif "satellite" in rep:
            s = rep["satellite"]
            got = (s["name"], s["intl_desig"].rstrip(), s["norad_n"])
            exp = (x.name, desig(x), x.norad)
            if got != exp: bad = "reported %r, expected %r" % (got, exp)
            elif abs(s["sat_start"]["Distance"] - es[0].dist) > .02 + es[0].ptol + 1e-9 * es[0].dist and not es[0].blocked and es[0].margin > 2: bad = "distance %r, expected %.2f" % (s["sat_start"]["Distance"], es[0].dist)
        elif not es[0].blocked and es[0].margin > 2 or not es[1].blocked and es[1].margin > 2: bad = "no visibility of a sunlit satellite within 180 degrees"
    if bad: c.violation("vis:-" + kind, "%s: %s" % (rn.shell(), bad), argv=rn.argv, catalogue="".join(x.text for x in sats))
