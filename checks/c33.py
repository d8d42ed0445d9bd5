"""Layout of the reports: members, order, types, decimals, ranges and the descriptions that go with them."""
import json, os, re, tempfile
from vk import gen, ref, sky, vis, hostile, build as B
from vk.run import run as run_, pmap
from checks.c24 import spec_sky, spec_vis, render, mjd_of

class D(str):
    """A number with a decimal point, as it was printed."""

def pairs(l):
    if len(dict(l)) != len(l): raise ValueError("duplicate member")
    return dict(l)
def const(x): raise ValueError("not a number: " + x)
def load(t): return json.loads(t, parse_float=D, parse_constant=const, object_pairs_hook=pairs)

# ---------------------------------------------------------------- the description of the layout

def num(n, lo=None, hi=None): return ("num", n, lo, hi)
def cnt(lo=None, hi=None): return ("int", lo, hi)
STR, DATE = ("str",), ("date",)
def one(x): return ("is", x)

SWINFO = {"name": STR, "author": STR, "date": STR, "version": STR}
GEOF = {"lat": {"desc": one("Geodetic Latitude"), "unit": one("deg")}, "lon": {"desc": one("Geodetic Longitude"), "unit": one("deg")}, "alt": {"desc": one("Geodetic Altitude"), "unit": one("km")},
        "theta": {"desc": one("Equatorial angle (Lon + GMST = RA)"), "unit": one("deg")}}
LOCATION = {"lat": num(4, -90, 90), "lon": num(4, 0, 360), "alt": num(1)}
REGION = {"ra": num(4, 0, 360), "dec": num(4, -90, 90), "radius": num(4), "lmst": num(4, 0, 24), "az": num(4, 0, 360), "alt": num(4, -90, 90), "parang": num(3, -180, 180)}
NOTES = one("All coordinates and radius in degrees. GMST, LMST in hrs.")
SKYIN = {"tle_file": STR, "location": LOCATION, "region": REGION, "mjd": num(5), "epoch_UTC": STR, "gmst": num(4, 0, 24), "delta_time_s": cnt(), "max_sats": cnt(), "notes": NOTES}
VISIN = {"tle_file": STR, "location": LOCATION, "region": REGION, "mjd_range": [num(5), num(5)], "date_utc_range": [STR, STR], "gmst": num(4, 0, 24), "delta_time_s": cnt(), "notes": NOTES}
SUN = {"ra": num(3, 0, 360), "dec": num(3, -90, 90), "az": num(3, 0, 360), "alt": num(3, -90, 90), "lon": num(3, -180, 180), "parang": num(3, -180, 180), "separation_deg": num(3, 0, 180)}
GEO = {"lat": num(3, -90, 90), "lon": num(3, -180, 180), "alt": num(2), "theta": num(3, -180, 180)}
def ones(*l): return [one(x) for x in l]
DATAF = {"name": ones("RA_start", "Dec_start", "RA_end", "Dec_end", "Distance", "Separation", "PA", "Speed", "sunlit", "HPXID_8"),
         "desc": ones("RA T_ini", "Dec T_ini", "RA T_end", "Dec T_end", "distance to sat.", "angular separation", "position angle", "apparent angular rate of motion", "sunlit sat. flag", "HEALPix order 8 nested schema ID"),
         "type": ones("double", "double", "double", "double", "double", "float", "float", "float", "int", "int"), "unit": ones("deg", "deg", "deg", "deg", "km", "deg", "deg", "arcmin/s", "", "")}
SATF = {"desc": ones("Date start/end sunlit", "MJD start/end sunlit", "RA J2000", "Dec J2000", "Azimuth", "Altitude", "Distance to sat.", "Angular separation", "Position angle", "Apparent angular rate of motion"),
        "type": ones("datetime", "double", "double", "double", "double", "double", "double", "float", "float", "float"), "unit": ones("", "MJD", "deg", "deg", "deg", "deg", "km", "deg", "deg", "arcmin/s")}
def data(hav, neg): return [num(4, 0, 360), num(4, -90, 90), num(4, 0, 360), num(4, -90, 90), num(2, 0), num(4, 0, 180 if hav else None), cnt(-360, 360), num(3, None if neg else 0), cnt(0, 1), cnt(0, 786431)]
SATX = {"Date": DATE, "MJD": num(5), "ra": num(4, 0, 360), "dec": num(4, -90, 90), "az": num(4, 0, 360), "alt": num(4, -90, 90), "Distance": num(2, 0), "Separation": num(4, 0, 180), "PA": cnt(-360, 360), "Speed": num(3, 0)}
TAIL_SKY = {"run_command": STR, "status": cnt(-2, 2), "errmsg": STR, "n_sats_found": cnt(0), "n_sats": cnt(0), "n_sunlit_sats": cnt(0)}
TAIL_VIS = {"run_command": STR, "status": cnt(-2, 2), "errmsg": STR, "n_sats_found": cnt(0, 1)}
INSTANTS = ("start", "end", "mid", "max")

def satellite():
    s = {"name": STR, "intl_desig": STR, "norad_n": cnt(0)}
    for i in INSTANTS: s.update({"geoloc_" + i: GEO, "sun_" + i: SUN, "sat_" + i: SATX})
    return s

def check(v, t, path=""):
    """The first difference between a value and its description, or None."""
    if isinstance(t, dict):
        if not isinstance(v, dict): return "%s is %r" % (path, v)
        if list(v) != list(t): return "%s has members %r, expected %r" % (path or "the report", list(v), list(t))
        return next((d for d in (check(v[k], t[k], path + "." + k if path else k) for k in t) if d), None)
    if isinstance(t, list):
        if not isinstance(v, list) or len(v) != len(t): return "%s is %r, expected %d elements" % (path, v, len(t))
        return next((d for d in (check(x, y, "%s[%d]" % (path, i)) for i, (x, y) in enumerate(zip(v, t))) if d), None)
    if t[0] == "num":
        if not isinstance(v, D): return "%s is %r, not a number with a decimal point" % (path, v)
        if not re.fullmatch(r"-?\d+\.\d{%d}" % t[1], v): return "%s is %s, expected %d decimals" % (path, v, t[1])
        x = float(v)
        if t[2] is not None and x < t[2] or t[3] is not None and x > t[3]: return "%s is %s, outside %r..%r" % (path, v, t[2], t[3])
        return None
    if t[0] == "int":
        if isinstance(v, bool) or not isinstance(v, int): return "%s is %r, not a whole number" % (path, v)
        if t[1] is not None and v < t[1] or len(t) > 2 and t[2] is not None and v > t[2]: return "%s is %d, outside %r..%r" % (path, v, t[1], t[2])
        return None
    if t[0] == "is": return None if v == t[1] and isinstance(v, str) else "%s is %r, expected %r" % (path, v, t[1])
    if not isinstance(v, str) or isinstance(v, D): return "%s is %r, not a text" % (path, v)
    if t[0] == "date" and not re.fullmatch(r"-?\d{4,}-[01]\d-[0-3]\dT[0-2]\d:[0-5]\d:[0-5]\d", v): return "%s is %r, not a date" % (path, v)
    return None

def need(j, prog, sw):
    """The description of a report, from the request (the set of switches sw) and the members that only an outcome decides."""
    ok = j.get("status") == 0
    t = {"swinfo": dict(SWINFO, name=one(prog))}
    if prog == "sat_skymap":
        geo = bool(sw & set("GEasi"))
        begun = "input_params" in j
        if begun or ok or "geoloc_fields" in j and geo:
            if geo: t["geoloc_fields"] = GEOF
        if begun or ok: t.update(input_params=SKYIN, sun=SUN)
        found = j.get("n_sats_found", 0)
        if (begun or ok) and "I" not in sw and isinstance(found, int) and (found > 0 if ok else "satellites" in j):
            e = {"name": STR, "intl_desig": STR, "norad_n": cnt(0)}
            if geo: e["geoloc"] = GEO
            e["data"] = data("H" in sw, "neg" in sw)
            t.update(data_fields=DATAF, satellites=[e] * (found if ok else len(j["satellites"]) if isinstance(j["satellites"], list) else -1))
        t.update(TAIL_SKY)
        return t
    begun = "input_params" in j
    if begun or ok or "geoloc_fields" in j: t["geoloc_fields"] = GEOF
    if begun or ok: t["input_params"] = VISIN
    if ok and j.get("n_sats_found") == 1: t.update(sat_fields=SATF, satellite=satellite(), sunlit_duration_minutes=num(2, 0))
    elif ok: t["sun"] = SUN
    elif "satellite" in j:      # the position could not be computed any further
        s = {"name": STR, "intl_desig": STR, "norad_n": cnt(0), "geoloc_start": GEO, "sun_start": SUN, "sat_start": SATX, "sat_end": one(None)}
        t.update(sat_fields=SATF, satellite=s)
    t.update(TAIL_VIS)
    return t

def judge(c, prog, r, sw, path_ok=False):
    """sw: letters of the options given."""
    viol = lambda m: c.violation("layout:" + prog, "%s: %s" % (m, r.shell()[:1500]), argv=r.argv, out=r.text[:3000])
    try: j = load(r.text)
    except (ValueError, RecursionError): viol("no document"); return None
    if not isinstance(j, dict): viol("not an object"); return None
    if path_ok and j.get("status") != 0: viol("status %r, %r for a valid request" % (j.get("status"), j.get("errmsg"))); return None
    t = need(j, prog, sw)
    if isinstance(j.get("satellite"), dict) and j["satellite"].get("sat_end", 0) is None and "sat_end" in t.get("satellite", {}):
        j = dict(j, satellite={k: v for k, v in j["satellite"].items() if k != "sat_end"}); t["satellite"] = {k: v for k, v in t["satellite"].items() if k != "sat_end"}
        c.count("searches broken off after the start")
    d = check(j, t)
    if d: viol(d); return None
    return j

def run(c):
    c.rule = ("reports of both programs on random valid requests of every combination of options and on hostile element files, names, lists and command lines; one evaluation per report: its members and their order, the type, number of "
              "decimals and range of every value, the descriptions of the fields, and which parts are there for this request; distinct = command lines")
    rng = c.rng; B.build("plain"); jobs = []
    for i in range(c.n(24, 300)):
        prog = "sat_skymap" if i % 3 else "sat_visibility"
        units = rng.randint(800 * 52000, 800 * 62500); mjd = units / 800
        d = tempfile.mkdtemp(dir=B.scratch()); cat = []; base = rng.choice([rng.randint(1, 80000), rng.randint(100000, 339000), 5])
        obs = sky.pick_obs(rng)
        for q in range(rng.randint(3, 25)):
            y, dd = gen.epoch_for(mjd, rng, 2)
            k = rng.random()
            if k < .25: cat.append(sky.overhead(rng, base + q, mjd, obs)); continue
            cat.append(gen.make_sat(rng, base + q, name=rng.choice(["SAT", "STAR", "COSMOS", "ISS"]) + " %d" % q, year=y, doy=dd, bstar=0, **(gen.leo(rng, rng.choice(["circ", "high", "ecc"])) if rng.random() < .6 else gen.deep(rng))))
        with open(os.path.join(d, "cat.txt"), "w") as f: f.write("".join(x.text for x in cat))
        for q in range(30):
            if prog == "sat_visibility": o = vis.near(rng, rng.choice(cat), mjd, rng.uniform(0, 30))
            else: o = obs if rng.random() < .7 else sky.pick_obs(rng)
            ob = "%r,%r,%r" % (round(o.lat, 5), round(o.lon, 5), o.ht)
            o = (spec_sky if prog == "sat_skymap" else spec_vis)(rng, cat, mjd, units, ob)
            if prog == "sat_skymap" and rng.random() < .3: o["r"] = "400"
            if prog == "sat_visibility" and rng.random() < .5: o["r"] = "180"
            jobs.append((prog, o, render(rng, prog, o, "cat.txt", [("D", d)], usedate=rng.random() < .3), d))
    for (prog, o, a, d), r in zip(jobs, pmap(lambda j: run_(j[0], j[2], cwd=j[3]), jobs)):
        c.ev((prog, tuple(a)))
        sw = set(o) | ({"neg"} if o.get("t", "1").startswith("-") else set())
        j = judge(c, prog, r, sw, o.get("s") is None and o.get("i") is None and o.get("S") is None and o.get("a") is None)
        if j is None: continue
        L = j.get("satellites", [])
        c.count("reports of " + prog); c.count("satellites in them", len(L) + ("satellite" in j)); c.count("values in them", r.text.count(":") + r.text.count(","))
        if prog == "sat_skymap":
            c.check(j["status"] or j["n_sats_found"] <= max(0, int(o.get("n", 1000))) or int(o.get("n", 1000)) <= 0, "limit", "%d satellites for -n %s: %s" % (j["n_sats_found"], o.get("n"), r.shell()), argv=r.argv)
            c.count("with geodetic locations", "geoloc_fields" in j)
        if rng.random() < .002: c.sample(dict(argv=r.argv, members=list(j)))
    root = tempfile.mkdtemp(dir=B.scratch())
    J = hostile.jobs(rng, root, c.n(900, 15000), worlds=c.n(4, 12))
    J = [j for j in J if not j.mutated]
    for j, r in zip(J, pmap(lambda j: run_(j.prog, j.argv, cwd=j.cwd, timeout=60), J)):
        c.ev((j.prog, tuple(j.argv), j.cwd)); c.count("hostile runs: " + j.kind)
        if r.timeout: c.count("runs without an end within the limit (no verdict here)"); continue
        if r.text.startswith("Usage"): continue
        x = [a for a in j.argv if a[:1] == b"-" and len(a) > 1]
        sw = {chr(a[1]) for a in x}
        sw |= {"neg"} if any(a[:3] == b"-t-" or a == b"-t" for a in j.argv) else set()
        q = judge(c, j.prog, r, sw)
        if q is not None: c.count("hostile runs: status %r" % q["status"])
