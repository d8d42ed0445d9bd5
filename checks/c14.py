from fractions import Fraction as Fr
from math import floor
import tempfile, os
from vk import gen, lib, sky
from vk import build as B
from vk.run import pmap

F = lib.F

def days(y, m, d):
    """MJD of a proleptic Gregorian date."""
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy + 60 - 678941 + 0

def civil(mjd):
    z = mjd + 678941 - 60
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    m = mp + (3 if mp < 10 else -9)
    return yoe + era * 400 + (m <= 2), m, doy - (153 * mp + 2) // 5 + 1

assert days(1858, 11, 17) == 0 and days(2000, 1, 1) == 51544 and civil(51544) == (2000, 1, 1) and civil(-678941 + 60)[:2] == (0, 3), (days(1858, 11, 17), civil(0))

def leap(y): return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
def mdays(y, m): return [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]

def a_date(rng):
    y = rng.choice([rng.randint(1950, 2060), rng.randint(0, 9999), rng.choice([0, 1, 4, 100, 400, 1600, 1700, 1858, 1900, 2000, 2100, 2400, 9999, 1999, 2024])])
    m = rng.choice([rng.randint(1, 12), 1, 2, 3, 12])
    d = rng.choice([rng.randint(1, mdays(y, m)), 1, mdays(y, m)])
    if rng.random() < .1: y, m, d = rng.choice([(1858, 11, 17), (1858, 11, 16), (1858, 11, 18)])
    s = rng.choice([rng.randint(0, 86399), rng.randint(0, 86399), 0, 1, 43199, 43200, 43201, 86399, 86398, 3599, 3600])
    return y, m, d, s

def text(y, m, d, s): return "%04d-%02d-%02dT%02d:%02d:%02d" % (y, m, d, s // 3600, s // 60 % 60, s % 60)

def parse(t):
    """(instant in seconds from MJD 0 as Fraction) of a date text, or None when it is not a valid date."""
    import re
    g = re.fullmatch(r"(\d{4,})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?", t)
    if not g: return None
    y, m, d, h, mi, s = [int(x) for x in g.groups()[:6]]
    if not (1 <= m <= 12 and 1 <= d <= mdays(y, m) and h < 24 and mi < 60 and s < 60): return None
    return Fr(days(y, m, d)) * 86400 + h * 3600 + mi * 60 + s + (Fr(g.group(7)[1:]) / 10 ** (len(g.group(7)) - 1) if g.group(7) else 0)

def an_mjd(rng):
    base = rng.choice([rng.uniform(40000, 70000), rng.uniform(-678900, 2973000), float(rng.randint(-678900, 2973000)), rng.randint(33000, 70000) + .5, rng.uniform(-1.5, 1.5), float(rng.randint(40000, 70000)), rng.uniform(2973000, 3e7), rng.randint(-678900, 2973000) + rng.randint(0, 7) / 8,
                       float(days(rng.choice([1600, 1700, 1900, 2000, 2004, 2024, 2100, 2400]), rng.choice([1, 2, 3, 12]), rng.choice([1, 28])))])
    k = rng.random()
    if base * 8 % 1 == 0 and k > .5: return base
    if k < .25: base = floor(base) + rng.randint(0, 86399) / 86400
    elif k < .4: base = floor(base) + (rng.randint(0, 86399) + rng.choice([.5, .499, .501, .0004, .9996, -.0004])) / 86400
    elif k < .5: base = floor(base) + rng.choice([1 - 1e-9, 1e-9, .5 - 1e-9, .5 + 1e-9, 1 - 6e-6, 5.7e-6, 5.9e-6, 1 - 5.7e-6])
    elif k < .7: base = round(base, 5)
    return base

def run(c):
    c.rule = ("dates of years 0-9999 (month ends, leap days, century years, MJD origin, half-day and day boundaries) to MJD, MJDs of years 0-84000 to dates (nearest second; milliseconds), both ways in sequence, "
              "through the library and both programs, against integer arithmetic on the proleptic Gregorian calendar; one evaluation per conversion; distinct = distinct inputs")
    rng = c.rng
    cmds, jobs = [], []
    for i in range(c.n(15000, 400000)):
        y, m, d, s = a_date(rng); t = text(y, m, d, s)
        fr = Fr(0); suffix = ""
        if i % 3 == 0:
            k = rng.randint(1, 6); q = rng.randint(0, 10 ** k - 1); suffix = ".%0*d" % (k, q); fr = Fr(q, 10 ** k)
        cmds.append("D\n" + t + suffix); jobs.append(("D", t + suffix, Fr(days(y, m, d)) + (s + fr) / 86400, not suffix))
        if i % 20 == 0:         # a leap second is the same instant as the start of the next minute
            s2 = rng.choice([s, 86399, 43199, 3599]) // 60 * 60 + 59; t = text(y, m, d, s2)[:-2] + "60"
            cmds.append("D\n" + t); jobs.append(("D", t, Fr(days(y, m, d)) + Fr(s2 + 1, 86400), False))
        v = an_mjd(rng)
        cmds.append("m%s" % float.hex(v)); jobs.append(("m", v))
        cmds.append("f%s" % float.hex(v)); jobs.append(("f", v))
    for mj in range(*c.rng.choice([(-678881, -658881), (-10000, 10000), (50000, 70000), (88000, 108000), (2953000, 2973000)])) if not c.thorough else range(-678881, 2973000, 7):
        y, m, d = civil(mj)
        cmds.append("D\n" + text(y, m, d, 43200)); jobs.append(("D", text(y, m, d, 43200), Fr(mj) + Fr(1, 2), True))
    try: res = [x for p in pmap(lambda a: lib.batch(cmds[a:a + 5000]), range(0, len(cmds), 5000)) for x in p]
    except lib.LibCrash as x: c.violation("crash", "the library stopped at %r (%s): %s" % (x.cmd, x.rc, x.err), cmd=x.cmd); return
    back = []
    for j, w in zip(jobs, res):
        c.ev((j[0], j[1])); c.count({"D": "dates to MJD", "m": "MJDs to dates", "f": "MJDs to dates with milliseconds"}[j[0]])
        if j[0] == "D":
            mj = F(w[1])
            if w[0] != "0": c.violation("refused", "valid date %s is refused" % j[1], date=j[1]); continue
            if abs(Fr(mj) - j[2]) > Fr(52, 10 ** 7): c.violation("mjd", "%s is MJD %.6f, converted to %.6f" % (j[1], float(j[2]), mj), date=j[1]); continue
            if j[3]: back.append((j[1], mj))
        else:
            t = w[0]; p = parse(t)
            if p is None: c.violation("date", "MJD %r is converted to %r" % (j[1], t), mjd=j[1]); continue
            e = Fr(j[1]) * 86400
            dlt = float(abs(p - e)) - (0 if abs(j[1]) < 3e6 else 1e-3)          # resolution of the number
            if j[0] == "f" and j[1] * 8 % 1 == 0 and p != e: c.violation("date", "MJD %r is converted to %s, not exactly" % (j[1], t), mjd=j[1]); continue
            if j[0] == "m" and ("." in t or dlt > .50012) or j[0] == "f" and ("." not in t or len(t.split(".")[1]) != 3 or dlt > 1.02e-3):
                c.violation("date", "MJD %r is converted to %s, %.4f s away" % (j[1], t, dlt), mjd=j[1])
    res = [x for p in pmap(lambda a: lib.batch(["m%s" % float.hex(v) for _, v in back[a:a + 5000]]), range(0, len(back), 5000)) for x in p]
    for (t, v), w in zip(back, res):
        c.ev(("b", t)); c.count("round trips")
        if w[0] != t: c.violation("roundtrip", "%s is MJD %.6f, which is converted back to %s" % (t, v, w[0]), date=t)
    # through the programs
    d = tempfile.mkdtemp(dir=B.scratch())
    y0 = gen.make_sat(rng, 12345, year=2020, doy=100.5, bstar=0, **gen.leo(rng, "circ"))
    open(os.path.join(d, "c.txt"), "w").write(y0.text)
    def one(k):
        r = __import__("random").Random(k)
        t = None
        if k % 2:
            while True:
                y, m, dd, s = a_date(r)
                if 1957 <= y <= 2056: break
            t = text(y, m, dd, s); mj = Fr(days(y, m, dd)) + Fr(s, 86400)
            if k % 4 == 1:
                return t, mj, sky.run("sat_skymap", ["c.txt", "-D" + d, "-l10,20,30", "-d" + t, "-I"]), None
            q = r.randint(0, 999)
            return t + ".%03d" % q, mj + Fr(q, 86400000), sky.run("sat_skymap", ["c.txt", "-D" + d, "-l10,20,30", "-d%s.%03d" % (t, q), "-I"]), None
        v = round(an_mjd(r), 5)
        if not 33000 < v < 72000: v = round(r.uniform(36000, 72000), 5)
        if k % 4 == 0: return None, v, sky.run("sat_skymap", ["c.txt", "-D" + d, "-l10,20,30", "-j%.5f" % v, "-I"]), None
        w = round(v + r.uniform(.001, .002), 5)
        return None, v, sky.run("sat_visibility", ["c.txt", "-D" + d, "-l10,20,30", "-j%.5f,%.5f" % (v, w), "-s12345"]), w
    def sec(t):
        p = parse(t)
        return None if p is None else p
    for t, v, r, w in pmap(one, [rng.randint(0, 10 ** 9) for _ in range(c.n(200, 4000))]):
        if r.json is None: c.violation("program:json", "unreadable report (%s) from %s: %r" % (r.jerr, r.shell(), r.err[-300:]), argv=r.argv); continue
        if r.json["status"] == 2 and w is not None: c.count("position cannot be computed at that date"); continue
        ip = r.json["input_params"]
        c.ev(tuple(r.argv)); c.count("through " + r.prog)
        if w is None:
            if abs(Fr(str(ip["mjd"])) - Fr(v)) > Fr(102, 10 ** 7): c.violation("program:mjd", "reported MJD %r, expected %.6f: %s" % (ip["mjd"], float(v), r.shell()), argv=r.argv)
            p = sec(ip["epoch_UTC"])
            if p is None or abs(p - Fr(v) * 86400) > Fr(5002, 10000): c.violation("program:date", "reported date %r, expected MJD %.6f: %s" % (ip["epoch_UTC"], float(v), r.shell()), argv=r.argv)
        else:
            for a, b, x in ((ip["mjd_range"][0], ip["date_utc_range"][0], v), (ip["mjd_range"][1], ip["date_utc_range"][1], w)):
                p = sec(b)
                if abs(Fr(str(a)) - Fr(x)) > Fr(102, 10 ** 7) or p is None or abs(p - Fr(x) * 86400) > Fr(5002, 10000):
                    c.violation("program:range", "reported %r %r, expected MJD %.6f: %s" % (a, b, x, r.shell()), argv=r.argv)
    c.sample(dict(date=back[0][0], mjd=back[0][1]))
