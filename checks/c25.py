import os, tempfile
from vk import gen, sky, vis, build as B
from vk.run import run as run_, pmap

def words(rng):
    """Texts that are no number."""
    return rng.choice(["", "abc", "nan", "NaN", "-nan", "inf", "-inf", "INFINITY", "1e999", "-1e400", "12x", "1.2.3", "--5", "+-3", "1e", "e5", "12 3", "x12", "1;2", "1_000", ".", "-", "+", "NULL", "5%", "12\n", "'1'", "ten", "1,", ",1"])

def num(rng, lo, hi): return rng.choice(["%d" % rng.randint(int(lo), int(hi)), "%.3f" % rng.uniform(lo, hi)])

DATES = ["", "2020", "2020-01-01", "2020-13-01T00:00:00", "2020-00-10T00:00:00", "2020-01-00T00:00:00", "2020-01-32T00:00:00", "2021-02-29T00:00:00", "2020-02-30T12:00:00", "2100-02-29T00:00:00", "1900-02-29T00:00:00",
         "2020-04-31T00:00:00", "2020-06-31T01:00:00", "2020-09-31T01:00:00", "2020-11-31T01:00:00", "2020-01-01T24:00:00", "2020-01-01T25:00:00", "2020-01-01T00:60:00", "2020-01-01T00:00:61", "2020-01-01T00:00:99", "2020-01-01 00:00:00",
         "2020/01/01T00:00:00", "2020-01-01T00:00:00Z", "2020-01-01T00:00:00x", "x2020-01-01T00:00:00", "2020-01-01T00:00", "2020-01-01T00", "-2020-01-01T00:00:00", "2020--1-01T00:00:00", "2020-01--1T00:00:00", "2020-01-01T-1:00:00",
         "2020-01-01T00:-1:00", "2020-01-01T00:00:-1", "58000.5", "now", "2020-01-01T00:00:00.5.5", "2020-01-01T00:00:00.5x", "20200101T000000", "01-01-2020T00:00:00", "2020-1a-01T00:00:00", "2020-01-01T00:00:00,5", "nan", "2020-01-01T00:00:00-05"]
def spoilt(rng):
    """A good date with a character that belongs to no date."""
    g = good_date(rng); k = rng.randint(0, len(g)); x = rng.choice(" /;_+Zzeatx'%*|#")
    return g[:k] + x + g[k + rng.randint(0, 1):]
def good_date(rng):
    from checks.c14 import text, mdays
    y, m = rng.choice([(2020, 2), (2000, 2), (rng.randint(1990, 2030), rng.randint(1, 12))]); d = rng.choice([1, mdays(y, m), rng.randint(1, mdays(y, m))])
    return text(y, m, d, rng.choice([0, 86399, rng.randint(0, 86399)])) + rng.choice(["", "", ".5", ".123", ".0"])

def several(rng, n, ok):
    """n comma separated values with something wrong."""
    k = rng.random()
    v = [ok() for _ in range(n)]
    if k < .5:
        q = rng.randrange(n); w = words(rng)
        while w in ("1,", ",1"): w = words(rng)
        v[q] = w; return ",".join(v)
    if k < .7 and n == 2: return ",".join(v[:-1])
    if k < .8: return ",".join(v + ["1"] * (2 if n == 2 and rng.random() < .5 else 1 if n != 2 else 2))
    if k < .9: return ",".join(v) + rng.choice([",", "x", " ,", ",x"])
    return rng.choice([";", " ", ":", ", ,"]).join(v) + "x" if n > 1 else words(rng)

def bad(rng, prog, opt):
    """An unusable value of an option."""
    n = lambda: num(rng, 1, 80)
    if opt == "l":
        k = rng.random()
        if k < .25: return "%s,%s" % (rng.choice(["90.001", "-90.0001", "91", "-180", "1e6", "90.00001"]), n())
        if k < .5: return "%s,%s,100" % (n(), rng.choice(["360.001", "-360.5", "720", "-1000", "1e9"]))
        if k < .7: return rng.choice(["", n(), n() + ",", "," + n(), ",,", n() + "," + n() + ",", n() + "," + n() + ",x", n() + ",20,30,40", "nan,0", "0,nan", "0,0,inf", "0,0,nan", "inf,0", "10 20", "10;20", "10,20x"])
        return several(rng, 3, n)
    if opt == "p":
        k = rng.random()
        if k < .25: return "%s,%s" % (rng.choice(["-0.001", "360.001", "-90", "400", "1e5"]), n())
        if k < .5: return "%s,%s" % (n(), rng.choice(["90.001", "-90.001", "180", "-1e4"]))
        if k < .7: return rng.choice([n(), "", n() + ",", "," + n(), "1,2,3", "12:30:00,45", "nan,3", "3,nan", "inf,0", "0,-inf"])
        return several(rng, 2, n)
    if opt == "a": return rng.choice([several(rng, 2, n), "100", "100,", ",100", "1,2,3", "nan,100", "100,nan", "0,inf", "100-200", ""])
    if opt == "r": return words(rng)
    if opt == "n": return rng.choice([words(rng), words(rng), "1e10", "-3e9", "2147483648", "99999999999"])
    if opt == "t":
        if prog == "sat_visibility" and rng.random() < .3: return rng.choice(["-1", "-0.5", "-60", "0"])
        return rng.choice([words(rng), words(rng), "0", "0.0", "-0", "0.5", "0.999", "1e10", "2147483648"])
    if opt == "s": return rng.choice([words(rng), words(rng), "1.5", "25544.0", "99999999999", "25544,", "0x10", "1e4", "12345678901234567890", "-99999999999", "4294992840", "-4294941752"])
    if opt == "j":
        if prog == "sat_skymap": return rng.choice([words(rng), words(rng), "1e10", "-1e10", "58000,58001", "-5e6"])
        return rng.choice([several(rng, 2, lambda: "58000"), "58000", "58000,", ",58000", "58000,58001,58002", "58000,nan", "inf,58000", "58000,1e12", "-1e7,58000", "1e12,58000", "58000-58001", ""])
    if opt == "d":
        if prog == "sat_skymap": return rng.choice(DATES) if rng.random() < .6 else spoilt(rng)
        g = good_date(rng); w = rng.choice(DATES)
        while "," in w: w = rng.choice(DATES)
        if rng.random() < .3: w = spoilt(rng)
        return rng.choice([g + "," + w, w + "," + g, g, g + ",", "," + g, g + "," + g + ",", g + "," + g + "," + g, g + ";" + g, w + "," + w])
    raise KeyError(opt)

NAMED = {"sat_skymap": ("hEGHITV", "adDijlnprsSt"), "sat_visibility": ("hNT", "adDijlrst")}
def unknown(rng, prog):
    sw, pa = NAMED[prog]
    k = rng.random()
    if k < .6:
        c = rng.choice([x for x in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789?_=.:;@#+~" if x not in sw + pa])
        return "-" + c + rng.choice(["", "", "5", "abc"])
    if k < .7: return rng.choice(["-", "--", "--help", "--version", "-\xe9", "-\x01", "-\"", "-\\"])
    return "-" + rng.choice(sw[1:]) + rng.choice(["1", "G", "x", " ", "=", "10,20", "-"])

def base(rng, prog, x):
    """Valid options of a request for that satellite."""
    o = [("l", "%.4f,%.4f" % (rng.uniform(-90, 90), rng.uniform(-360, 360)) + rng.choice(["", ",%.1f" % rng.uniform(0, 4000)]))]
    if prog == "sat_skymap":
        o.append(("j", "%.5f" % x["mjd"]))
        if rng.random() < .5: o.append(("p", "%.4f,%.4f" % (rng.uniform(0, 360), rng.uniform(-90, 90))))
        if rng.random() < .7: o.append(("r", "%d" % rng.choice([180, 30, 400])))
        if rng.random() < .3: o.append(("n", "%d" % rng.randint(0, 100)))
        for s in "EGHI":
            if rng.random() < .2: o.append((s, None))
        if rng.random() < .2: o.append(("s", "%d" % x["sats"][0].norad))
    else:
        o.append(("j", "%.5f,%.5f" % (x["mjd"], x["mjd"] + .05)))
        o.append(("s", "%d" % x["sats"][0].norad))
        if rng.random() < .3: o.append(("r", "%d" % rng.choice([180, 60])))
        if rng.random() < .2: o.append(("N", None))
    if rng.random() < .4: o.append(("t", "%d" % rng.choice([10, 60, 30])))
    return o

def line(rng, items, file, first):
    a = []
    for k, v in items:
        if v is None: a.append("-" + k)
        elif v == "" or rng.random() < .5: a += ["-" + k, v]
        else: a.append("-" + k + v)
    return [file] + a if first else a + [file]

VALID = {"l": ["90,0", "-90,0,0", "90.0,360", "0,-360,0", "0,0", "-0,-0,-0", "1e1,2e1,3e2", "+5,+5", "5,5,-400", "0,180", "0,-180", " 5,6"], "p": ["0,0", "360,90", "0,-90", "360,-90", "359.9999,0", "1e2,1e1", "0.0,-0.0"], "a": ["0,0", "5,1", "-5,1e9", "300,300.5"],
         "r": ["0", "-1", "1e5", "180", "360", "0.0001", "+20", "2e1"], "n": ["0", "-1", "1", "2147483647", "-2147483647", "10.0"], "t": ["1", "1e3", "60.0"], "s": ["1", "0", "-5", "99999", "100000", "2147483647", "00005"],
         "S": ["", "x", " ", "\"", "\\", "SAT"], "i": ["", "none", "1998-067A", "x" * 300, "\""]}

def run(c):
    c.rule = ("valid requests to both programs in which one argument is replaced by, or extended with, an unusable value, an unknown option or a missing value; element and list files that are missing, empty, directories or hold "
              "undecodable elements at any place; valid requests with extreme but legal values; one evaluation per run; distinct = command lines and file contents")
    rng = c.rng
    d = tempfile.mkdtemp(dir=B.scratch())
    worlds = []
    for w in range(c.n(8, 40)):
        mjd = round(rng.uniform(55000, 60500), 5); sub = os.path.join(d, "w%d" % w); os.mkdir(sub)
        sats = []
        for q in range(5):
            y, dd = gen.epoch_for(mjd, rng, 1); sats.append(gen.make_sat(rng, 1000 + 10 * w + q, year=y, doy=dd, bstar=0, **gen.leo(rng, rng.choice(["circ", "high"]))))
        x = dict(mjd=mjd, sats=sats, dir=sub)
        # undecodable: no mean motion
        y, dd = gen.epoch_for(mjd, rng, 1)
        x["dead"] = gen.make_sat(rng, 5000 + w, name="DEAD", year=y, doy=dd, bstar=0, incl=50, node=10, argp=10, ma=10, ecc=.001, n=0.0)
        W = lambda n, t: open(os.path.join(sub, n), "w").write(t)
        W("cat.txt", "".join(s.text for s in sats)); W("one.txt", sats[0].text); W("two.txt", sats[1].text)
        W("empty.txt", ""); W("dead.txt", x["dead"].text); W("mix.txt", sats[0].text + sats[1].text + x["dead"].text + sats[2].text + sats[3].text)
        os.mkdir(os.path.join(sub, "folder"))
        W("ok.lis", "one.txt\ntwo.txt\n"); W("none.lis", ""); W("comment.lis", "# nothing\n\n#\n")
        W("first.lis", "missing.txt\none.txt\n"); W("later.lis", "one.txt\nmissing.txt\ntwo.txt\n"); W("emptyrow.lis", "one.txt\nempty.txt\ntwo.txt\n"); W("folder.lis", "one.txt\nfolder\ntwo.txt\n"); W("dead.lis", "one.txt\ndead.txt\ntwo.txt\n")
        worlds.append(x)
    jobs = []
    # --- arguments
    for i in range(c.n(2500, 14000)):
        prog = rng.choice(["sat_skymap", "sat_visibility"]); x = rng.choice(worlds)
        o = base(rng, prog, x); sw, pa = NAMED[prog]
        kind = rng.choice(["value"] * 8 + ["unknown", "missing"])
        first = rng.random() < .6
        file = rng.choice(["cat.txt", "cat.txt", "@ok.lis"])
        if kind == "value":
            opt = rng.choice([k for k in pa if k not in "DiS"]); v = bad(rng, prog, opt)
            at = [q for q, (k, _) in enumerate(o) if k == opt]
            if at and rng.random() < .6: o[at[0]] = (opt, v)
            else: o.insert(rng.randint(0, len(o)), (opt, v))
            argv = line(rng, o, file, first); what = "-" + opt
        elif kind == "unknown":
            argv = line(rng, o, file, True); u = unknown(rng, prog); at = [0] + [q for q in range(1, len(argv) + 1) if q == len(argv) or argv[q].startswith("-") and argv[q][1:2] in tuple(sw + pa) and not (len(argv[q - 1]) == 2 and argv[q - 1][1] in pa)]
            argv.insert(rng.choice(at[1:]), u); what = "unknown"
        else:
            opt = rng.choice(pa); argv = line(rng, o, file, True) + ["-" + opt]; what = "no value"
        jobs.append((prog, argv, x, "argument " + what, [], True))
    # --- files
    for x in worlds:
        for prog in ("sat_skymap", "sat_visibility"):
            for file, may in [("missing.txt", []), ("empty.txt", []), ("folder", []), ("@missing.lis", []), ("@none.lis", []), ("@comment.lis", []), ("@folder", []), ("@first.lis", []), ("@later.lis", [0]), ("@emptyrow.lis", [0]), ("@folder.lis", [0]),
                              ("nodir/cat.txt", []), ("@cat.txt", []), ("dead.txt", []), ("mix.txt", [0, 1]), ("@dead.lis", [0]), ("x" * 255, []), ("", [])]:
                if prog == "sat_skymap": o = [("l", "10,20"), ("j", "%.5f" % x["mjd"]), ("r", "400"), ("H", None)] + rng.choice([[], [("G", None)], [("E", None)], [("I", None)], [("S", "")]]); num = None
                else:
                    num = x["sats"][2].norad if "dead" not in file and file != "mix.txt" else x["dead"].norad
                    o = [("l", "10,20"), ("j", "%.5f,%.5f" % (x["mjd"], x["mjd"] + .01)), ("s", "%d" % num)]; may = []
                jobs.append((prog, line(rng, o, file, rng.random() < .6 if file else True), x, "file " + (file if len(file) < 100 else "long name"), may, True))
            jobs.append((prog, line(rng, base(rng, prog, x), "cat.txt", True) + ["-D", os.path.join(x["dir"], "nodir")], x, "directory", [], True))
        o = [q for q in base(rng, "sat_visibility", x) if q[0] != "s"]
        jobs.append(("sat_visibility", line(rng, o, "cat.txt", True), x, "no satellite", [], True))
        for prog in ("sat_skymap", "sat_visibility"):
            o = [q for q in base(rng, prog, x) if q[0] not in "si"] + [("s", "%d" % x["sats"][0].norad)]
            for f in ("", "@"): jobs.append((prog, line(rng, o, f, f == "@" or rng.random() < .5), x, "no file named", [], True))
    # --- valid requests
    for i in range(c.n(900, 5000)):
        prog = rng.choice(["sat_skymap", "sat_visibility"]); x = rng.choice(worlds); sw, pa = NAMED[prog]
        o = base(rng, prog, x)
        for opt in rng.sample([k for k in VALID if k in pa], rng.randint(0, 3)):
            if prog == "sat_visibility" and opt in "asi": continue
            v = rng.choice(VALID[opt] + (["-1", "-60", "2147483647"] if opt == "t" and prog == "sat_skymap" else []))
            o = [q for q in o if q[0] != opt] + [(opt, v)]
        if rng.random() < .3:
            o = [q for q in o if q[0] != "j"]
            o.append(("d", good_date(rng) if prog == "sat_skymap" else rng.choice([good_date(rng) + "," + good_date(rng), "2020-02-29T00:00:00,2020-02-29T01:00:00", "2000-02-29T23:59:59,2000-03-01T00:10:00.5"])))
            if prog == "sat_visibility": o = [q for q in o if q[0] != "t"] + [("t", "86400")]
        jobs.append((prog, line(rng, o, rng.choice(["cat.txt", "@ok.lis", "one.txt"]), rng.random() < .6), x, "valid", None, False))
    runs = pmap(lambda j: run_(j[0], j[1], cwd=j[2]["dir"]), jobs)
    for (prog, argv, x, what, may, wrong), r in zip(jobs, runs):
        c.ev((prog, tuple(argv), x["dir"] if what[:4] == "file" else 0)); c.count(what if len(what) < 40 else what[:40])
        viol = lambda key, m: c.violation(key, "%s (in %s): %s" % (m, os.path.basename(x["dir"]), r.shell()), argv=r.argv)
        if r.crashed or r.json is None: viol("%s:report" % what, "no readable report (exit %s): %r %r" % (r.rc, r.out[-200:], r.err[-200:])); continue
        j = r.json; st, em = j.get("status"), j.get("errmsg")
        listed = [e["norad_n"] for e in j.get("satellites", [])] + ([j["satellite"]["norad_n"]] if "satellite" in j else [])
        if wrong:
            if not isinstance(st, int) or st == 0: viol("%s:status" % what, "unusable %s accepted: status %r" % (what, st)); continue
            if r.rc == 0: viol("%s:exit" % what, "status %r but exit code 0" % st); continue
            if not em: viol("%s:message" % what, "status %r without a message" % st); continue
            extra = [n for n in listed if n not in [x["sats"][q].norad for q in may]]
            if extra: viol("%s:satellites" % what, "lists %r" % extra[:3]); continue
            if not may and j.get("n_sats_found") != 0: viol("%s:count" % what, "n_sats_found %r" % j.get("n_sats_found")); continue
            c.count("rejected")
            if len(c.samples) < 6 and rng.random() < .02: c.sample(dict(argv=argv, status=st, errmsg=em))
        else:
            one = [v for k, v in zip(argv, argv[1:] + [""]) if k in ("-s", "-i")] + [a for a in argv if a[:2] in ("-s", "-i") and len(a) > 2]
            found = j["n_sats_found"] > 0
            if prog == "sat_visibility":
                # the set asked for is in cat.txt, and first in the others
                if st != 0 or r.rc != 0 or em: viol("valid:status", "status %r, exit %r, %r for a valid request" % (st, r.rc, em)); continue
            else:
                if st != 0 or r.rc != 0: viol("valid:status", "status %r, exit %r, %r for a valid request" % (st, r.rc, em)); continue
                if em and (not one or found): viol("valid:message", "message %r for a valid request" % em); continue
                if one and not found and not em:
                    # found, but without a position
                    c.count("single satellite: none listed and no message")
            c.count("accepted")
