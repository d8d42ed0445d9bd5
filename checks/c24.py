import os, re, tempfile
from math import cos, radians
from fractions import Fraction as Fr
from vk import gen, ref, sky, vis, build as B
from vk.run import run as run_, pmap
from checks.c14 import civil, parse, text

EX = Fr(108)                            # seconds: MJDs that are exact with five decimals

def date_of(units):
    """date text of an instant given in 1/800 days from MJD 0"""
    d, s = divmod(units, 800); y, m, dd = civil(d)
    return text(y, m, dd, s * 108)
def mjd_of(units): return "%d.%05d" % (units // 800, units % 800 * 125)

def near(a, b, k=2.5):
    return abs(a - b) <= k * 10 ** -max(len(repr(v).partition(".")[2]) for v in (a, b))
PARTNER = {"ra": "dec", "az": "alt", "lon": "lat", "theta": "lat"}

def same(a, b, tol, path=""):
    """First difference between two JSON values, or None; tol: the instants may differ by the resolution of a Julian Date (40 us), so
    numbers may differ in the last digits, and angles by that over the cosine of their partner."""
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b): return "%s: fields %r / %r" % (path, list(a), list(b))
        for k in a:
            x, y = a[k], b[k]
            if tol and isinstance(x, (int, float)) and isinstance(y, (int, float)):
                if k in PARTNER and PARTNER[k] in a:
                    if abs(ref.wrap180(x - y)) * cos(radians(a[PARTNER[k]])) <= (2.5e-3 if ".geoloc" in path or ".sun" in path else 3.5e-4): continue
                if k in ("parang", "PA", "Speed"): continue        # follow from the others
            d = same(x, y, tol, path + "." + k)
            if d: return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b): return "%s: %d / %d elements" % (path, len(a), len(b))
        if tol and path.endswith(".data"):
            for q in (0, 2):
                if ref.sep(a[q], a[q + 1], b[q], b[q + 1]) > 3.5e-4: return "%s: position %r / %r" % (path, a[q:q + 2], b[q:q + 2])
            if not near(a[4], b[4]) or not near(a[5], b[5], 4) or a[8] != b[8]: return "%s: %r / %r" % (path, a, b)
            return None
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, tol, "%s[%d]" % (path, i))
            if d: return d
        return None
    if a == b: return None
    if tol and isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if near(a, b): return None
        if abs(abs(a - b) - 360) < 2e-3 or abs(abs(a - b) - 24) < 2e-4: return None
    if tol and path.endswith("Date"):
        p, q = parse(a), parse(b)
        if p is not None and q is not None and abs(p - q) <= 1: return None
    return "%s: %r / %r" % (path, a, b)

NUM = {"r", "t", "n"}
def spell(rng, opt, v):
    """another way of writing the same number"""
    if opt == "r" and rng.random() < .4:
        x = float(v); s = rng.choice(["%.6f" % x, "%+.4f" % x, "%.8e" % x, "0" + v if x >= 0 else v])
        return s if float(s) == x else v
    return v

class Req:
    """A request: program, options {letter: value or None}, file, directory."""

def spec_sky(rng, cat, mjd, units, obs):
    o = {"l": obs}
    k = rng.random()
    if k < .35:
        ra, de = rng.uniform(0, 359.9), rng.uniform(-90, 90); o["p"] = "%.4f,%.4f" % (ra, de)
    o["date"] = units
    if rng.random() < .9: o["r"] = rng.choice(["180", "90", "45.5", "60", "20.25", "-3", "0"] if rng.random() < .3 else ["120", "180", "90", "75.5"])
    if rng.random() < .5: o["n"] = rng.choice(["1", "5", "1000", "0", "-1", "3", "2147483647"])
    if rng.random() < .6: o["t"] = rng.choice(["1", "2", "10", "60", "300", "-10", "86400", "86401", "100000", "250000", "-90000"])
    for s in "EGHIV":
        if rng.random() < .25: o[s] = None
    if rng.random() < .15: o["a"] = rng.choice(["0,100000", "300,2000", "2000,300", "-100,1e9", "500,500.5"])
    k = rng.random()
    x = rng.choice(cat)
    if k < .12: o["s"] = "%d" % x.norad
    elif k < .22: o["i"] = gen.desig_text(x.desig)
    elif k < .34: o["S"] = x.name[:rng.randint(0, len(x.name))]
    if o.get("S") == "": o["S"] = x.name[:1]
    return o

def spec_vis(rng, cat, mjd, units, obs):
    dt = rng.choice([7, 11, 13, 17])
    o = {"l": obs, "t": str(dt), "date": (units, units + rng.randint(1, 14) )}
    # the last sample well away from the end of the interval
    while not .2 < ((o["date"][1] - units) * 108 / dt) % 1 < .8: o["date"] = (units, o["date"][1] + 1)
    if rng.random() < .7: o["r"] = rng.choice(["90", "120", "180", "60.5", "45"])
    if rng.random() < .3: o["N"] = None
    if rng.random() < .3: o["a"] = "0,1e9"
    x = rng.choice(cat)
    if rng.random() < .5: o["s"] = "%d" % x.norad
    else: o["i"] = gen.desig_text(x.desig)
    return o

def render(rng, prog, o, file, dirs=(), order=True, usedate=False, last=None):
    """Command line of a request; dirs: directory options to add."""
    items = []
    for k, v in o.items():
        if k == "date":
            u = v if isinstance(v, tuple) else (v,)
            if usedate: k, v = "d", ",".join(date_of(x) for x in u)
            else: k, v = "j", ",".join(mjd_of(x) for x in u)
        items.append((k, v))
    items += list(dirs)
    if order: rng.shuffle(items)
    a = []
    for k, v in items:
        if v is None: a.append("-" + k); continue
        v = spell(rng, k, v) if order else v
        if order and rng.random() < .5: a += ["-" + k, v]
        else: a.append("-" + k + v)
    if last is None: last = order and rng.random() < .5
    return a + [file] if last else [file] + a

def echo(c, prog, r, o, name, usedate, mjdgiven=True):
    """The echoed request."""
    j = r.json; p = j.get("input_params")
    bad = lambda key, m: c.violation("echo:" + key, "%s: %s" % (m, r.shell()), argv=r.argv, echo=p)
    if j.get("run_command") != " ".join([prog] + r.argv): bad("command", "run_command %r" % j.get("run_command")); return
    if p is None: bad("missing", "no input_params"); return
    c.ev((tuple(r.argv), "echo"))
    if p["tle_file"] != name: bad("tle_file", "tle_file %r, expected %r" % (p["tle_file"], name)); return
    l = [float(x) for x in o["l"].split(",")]
    lat, lon = l[0], l[1]; ht = l[2] if len(l) > 2 else (2400.0 if prog == "sat_skymap" else 0.0)
    L = p["location"]
    if abs(L["lat"] - lat) > 5.1e-5 or abs(ref.wrap180(L["lon"] - lon)) > 5.1e-5 or abs(L["alt"] - ht) > .051 or abs(L["lon"] - (lon + 360 if lon < 0 else lon)) > 5.1e-5: bad("location", "location %r for %r" % (L, o["l"])); return
    if prog == "sat_skymap" and ("geoloc_fields" in j) != bool({"G", "E", "a", "s", "i"} & set(o)): bad("geoloc_fields", "geoloc_fields %s" % ("present" if "geoloc_fields" in j else "absent")); return
    R = p["region"]
    rad = float(o.get("r", 20 if prog == "sat_skymap" else 90))
    if abs(R["radius"] - rad) > 5.1e-5: bad("radius", "radius %r for %r" % (R["radius"], rad)); return
    if prog == "sat_skymap":
        if "p" in o and not {"E", "s", "i"} & set(o):
            ra, de = [float(x) for x in o["p"].split(",")]
            if abs(ref.wrap180(R["ra"] - ra)) > 5.1e-5 or abs(R["dec"] - de) > 5.1e-5: bad("region", "region %r for %r" % (R, o["p"])); return
        elif abs(R["dec"] - lat) > 5.1e-5 or abs(ref.wrap180(R["ra"] - R["lmst"] * 15)) > 1.1e-3 or R["alt"] < 89.999: bad("zenith", "region %r is not the zenith" % R); return
        u = [o["date"]]; m = [p["mjd"]]; e = [p["epoch_UTC"]]
        if p["max_sats"] != int(o.get("n", 1000)): bad("max_sats", "max_sats %r for %r" % (p["max_sats"], o.get("n"))); return
    else:
        u = o["date"]; m = p["mjd_range"]; e = p["date_utc_range"]
        if abs(R["dec"] - lat) > 5.1e-5: bad("region", "region %r" % R); return
    if p["delta_time_s"] != int(o.get("t", 1 if prog == "sat_skymap" else 3)): bad("interval", "delta_time_s %r for %r" % (p["delta_time_s"], o.get("t"))); return
    for x, a, b in zip(u, m, e):
        if abs(a - x / 800) > 1.01e-5 * .6: bad("mjd", "mjd %r for %s" % (a, mjd_of(x))); return
        q = parse(b)
        if q is None or abs(q - Fr(x) * 108) > (0 if usedate else Fr(1, 2)): bad("date", "date %r for %s" % (b, date_of(x))); return

def strip(j, *more):
    j = dict(j); j.pop("run_command", None)
    if "input_params" in j:
        j["input_params"] = {k: v for k, v in j["input_params"].items() if k not in more}
    return j

def run(c):
    c.rule = ("random requests to both programs, each written in several equivalent ways (order of the options, blank before values, file first or last, date or MJD, direct or one-row list, directory in the name, given or current, "
              "competing directory and date options, longitude east or west); one evaluation per pair of runs compared and per echo examined; distinct = command lines")
    rng = c.rng
    jobs = []
    for i in range(c.n(200, 2500)):
        prog = "sat_skymap" if i % 3 else "sat_visibility"
        units = rng.randint(800 * 53400, 800 * 62500); mjd = units / 800
        d = tempfile.mkdtemp(dir=B.scratch())
        other = tempfile.mkdtemp(dir=B.scratch())
        cat = []
        k = rng.randint(3, 25)
        base = rng.randint(1, 80000)
        for q in range(k):
            y, dd = gen.epoch_for(mjd, rng, 2)
            cat.append(gen.make_sat(rng, base + q, name=rng.choice(["SAT", "STAR", "COSMOS", "ISS"]) + " %d" % q, year=y, doy=dd, bstar=0, **(gen.leo(rng, rng.choice(["circ", "high"])) if rng.random() < .7 else gen.deep(rng, "geo"))))
        for nm in ("cat.txt", "vk-%s.txt" % os.path.basename(d)):
            with open(os.path.join(d, nm), "w") as f: f.write("".join(x.text for x in cat))
        # a decoy of the same name elsewhere
        with open(os.path.join(other, "cat.txt"), "w") as f: f.write("".join(x.text for x in cat[:1]).replace(cat[0].name, "DECOY", 1))
        with open(os.path.join(d, "one.lis"), "w") as f: f.write("# list\n" * rng.randint(0, 1) + "cat.txt" + rng.choice(["\n", "", "\r\n"]))
        if prog == "sat_visibility":
            o0 = vis.near(rng, rng.choice(cat), mjd, rng.uniform(0, 20))
        else: o0 = sky.pick_obs(rng)
        lon = round(o0.lon * 64) / 64 if rng.random() < .85 else rng.choice([0.0, 360.0, -180.0, 180.0, -359.96875, 359.96875, -360.0, 180.03125])
        west = lon - 360 if lon > 0 else lon + 360
        ob = "%r,%r" % (o0.lat, lon); o = None
        ht = "" if rng.random() < .3 else ",%r" % o0.ht
        o = (spec_sky if prog == "sat_skymap" else spec_vis)(rng, cat, mjd, units, ob + ht)
        D = ("D", d)
        ref_ = render(rng, prog, o, "cat.txt", [D], order=False)
        V = []                            # (kind, argv, cwd, file echoed, uses -d, tolerant)
        for _ in range(3): V.append(("order", render(rng, prog, o, "cat.txt", [D]), other, "cat.txt", False, False, o))
        V.append(("last", render(rng, prog, o, "cat.txt", [D], order=False, last=True), other, "cat.txt", False, False, o))
        V.append(("list", render(rng, prog, o, "@one.lis", [D]), other, "one.lis", False, False, o))
        V.append(("cwd", render(rng, prog, o, "cat.txt"), d, "cat.txt", False, False, o))
        V.append(("path", render(rng, prog, o, os.path.join(d, "cat.txt"), [("D", other)] if rng.random() < .5 else []), other, os.path.join(d, "cat.txt"), False, False, o))
        up = os.path.basename(d) + "/cat.txt"
        V.append(("relative path", render(rng, prog, o, rng.choice([up, "./" + up]), [("D", other)] if rng.random() < .7 else []), os.path.dirname(d), None, False, False, o))
        V.append(("date", render(rng, prog, o, "cat.txt", [D], usedate=True), other, "cat.txt", True, True, o))
        V.append(("-D and -T", render(rng, prog, o, "cat.txt", [D, ("T", None)]), other, "cat.txt", False, False, o))
        V.append(("-D. and -T", render(rng, prog, o, "cat.txt", [("D", rng.choice([".", "./", d])), ("T", None)]), d, "cat.txt", False, False, o))
        # a date beats an MJD, whichever comes first
        wrong = rng.choice([units + rng.randint(1, 10 ** 6), units - rng.randint(1, 10 ** 6), 800 * 40000])
        jj = ("j", mjd_of(wrong) if prog == "sat_skymap" else mjd_of(wrong) + "," + mjd_of(wrong + 3))
        V.append(("-d and -j", render(rng, prog, o, "cat.txt", [D, jj], usedate=True), other, "cat.txt", True, True, o))
        if abs(west) <= 360:
            q = dict(o); q["l"] = "%r,%r" % (o0.lat, west) + ht
            V.append(("longitude", render(rng, prog, q, "cat.txt", [D]), other, "cat.txt", False, True, q))
        if not ht:
            q = dict(o); q["l"] = ob + (",2400" if prog == "sat_skymap" else ",0")
            V.append(("default height", render(rng, prog, q, "cat.txt", [D]), other, "cat.txt", False, False, q))
        # the switch alone selects the default directory, not the current one
        V.append(("-T", render(rng, prog, o, "vk-%s.txt" % os.path.basename(d), [("T", None)]), d, None, False, False, o))
        # a name from the root is not looked for in the given directory
        V.append(("root", render(rng, prog, o, "/vk-%s.txt" % os.path.basename(d), [("D", d)]), d, None, False, False, o))
        jobs.append((prog, o, ref_, other, V))
    def go(j):
        prog, o, r, cwd, V = j
        return run_(prog, r, cwd=cwd), [run_(prog, v[1], cwd=v[2]) for v in V]
    for (prog, o, ra, cwd, V), (r0, rs) in zip(jobs, pmap(go, jobs)):
        if not sky.ok_report(c, r0, "run"): continue
        echo(c, prog, r0, o, "cat.txt", False)
        c.count("requests to " + prog); c.count("requests that list satellites", r0.json["n_sats_found"] > 0)
        for (kind, argv, cwd, name, usedate, tol, q), r in zip(V, rs):
            if kind == "root":
                c.ev((tuple(argv), kind)); c.count("pairs: root")
                f = next(x for x in argv if x.startswith("/vk-"))
                if r.json is None or r.json.get("status") != 2 or r.json.get("satellites") or not re.search(r"(^|\s)" + re.escape(f) + "$", r.json.get("errmsg", "")):
                    c.violation("root", "a file named from the root was looked for elsewhere: %s said %r" % (r.shell(), r.out[-300:]), argv=r.argv)
                continue
            if kind == "-T":
                c.ev((tuple(argv), kind)); c.count("pairs: -T")
                if r.json is None or r.json.get("status") != 2 or r.json.get("satellites") or "/usr/local/TLErepo/" not in r.json.get("errmsg", ""):
                    c.violation("-T", "-T did not look in the default directory: %s said %r" % (r.shell(), r.out[-300:]), argv=r.argv)
                continue
            if not sky.ok_report(c, r, "run"): continue
            c.ev((tuple(argv), kind)); c.count("pairs: " + kind)
            a, b = strip(r0.json, "tle_file", *(["epoch_UTC", "date_utc_range"] if tol else [])), strip(r.json, "tle_file", *(["epoch_UTC", "date_utc_range"] if tol else []))
            d = same(a, b, tol)
            if d and tol and kind != "longitude" and prog == "sat_skymap" and r0.json["n_sats_found"] != r.json["n_sats_found"] and abs(r0.json["n_sats_found"] - r.json["n_sats_found"]) == 1 and "satellites" in d:
                # one satellite within rounding of the border: cannot happen twice
                c.count("satellites on the border"); d = None if c.counters["satellites on the border"] <= 1 else d
            if d: c.violation("differs:" + kind, "%s; %s and %s" % (d, r0.shell(), r.shell()), argv=r0.argv, other=r.argv, cwd=cwd); continue
            echo(c, prog, r, q, name or r.json["input_params"].get("tle_file"), usedate)
        c.sample(dict(argv=rs[0].argv, also=rs[4].argv, found=r0.json["n_sats_found"]))
