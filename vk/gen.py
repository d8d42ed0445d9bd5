"""Workload generator: element sets, catalogues, observers, times. Everything derives from the given random.Random."""
from math import pi, cos, sqrt, floor
from datetime import date, timedelta
from .sgp4ref import Elements, XKE, RE, period_minutes, SGP4

TWOPI = 2 * pi
ALPHA = "ABCDEFGHJKLMNPQRSTUVWXYZ"          # Alpha-5 letters (no I, O)
D36 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"

def checksum(line68):
    return str(sum(int(c) if c.isdigit() else c == "-" for c in line68) % 10)

def norad_text(n):
    """Five characters of a catalogue number (Alpha-5 from 100000, the extended form from 340000)."""
    if n < 100000: return "%05d" % n
    if n < 340000: return ALPHA[n // 10000 - 10] + "%04d" % (n % 10000)
    d34 = "0123456789" + ALPHA
    n -= 340000
    if n < 32072064:
        last = ALPHA[n % 24]; n //= 24
        s = ""
        for _ in range(4): s = d34[n % 34] + s; n //= 34
        return s + last
    n -= 32072064
    if n < 9432960:
        s = str(n % 10); n //= 10
        s = ALPHA[n % 24] + s; n //= 24
        for _ in range(3): s = d34[n % 34] + s; n //= 34
        return s
    n -= 9432960
    if n < 2774400:
        s = "%02d" % (n % 100); n //= 100
        s = ALPHA[n % 24] + s; n //= 24
        for _ in range(2): s = d34[n % 34] + s; n //= 34
        return s
    n -= 2774400
    s = "%03d" % (n % 1000); n //= 1000
    s = ALPHA[n % 24] + s; n //= 24
    return d34[n] + s

def exp_field(v, rng=None):
    """±ddddd±e field (8 chars) of v (decimal point assumed before the mantissa); returns (text, exact value)."""
    if v == 0: return " 00000-0", 0.0
    sg = "-" if v < 0 else " "
    a = abs(v)
    e = 0
    while a >= 1.0: a /= 10; e += 1
    while a < 0.1 and e > -9: a *= 10; e -= 1
    m = int(round(a * 1e5))
    if m > 99999: m = 99999
    t = "%s%05d%s%d" % (sg, m, "-" if e <= 0 else "+", abs(e))
    return t, float("%s%de%d" % ("-" if v < 0 else "", m, e - 5))

def jd_of_epoch(year, day):
    """JD of the epoch: year and day of year (1 = 1 January 0h) with fraction."""
    return date(year, 1, 1).toordinal() + 1721424.5 + (day - 1)

def b36(v):
    s = "-" if v < 0 else "+"
    v = abs(v); t = ""
    for _ in range(8): t = D36[v % 36] + t; v //= 36
    return s + t

class Sat:
    """One element set with its name line and the values written in it."""
    def __init__(s, **k): s.__dict__.update(k)
    @property
    def text(s): return s.name_line + "\n" + s.l1 + "\n" + s.l2 + "\n"
    def ref(s, deep=None):
        if getattr(s, "_ref", None) is None: s._ref = SGP4(s.el, deep if deep is not None else s.forced_deep)
        return s._ref

def make_sat(rng, norad, name=None, year=None, doy=None, incl=None, node=None, ecc=None, argp=None, ma=None, n=None, bstar=None,
             desig=None, etype="0", ndot=None, nddot=None, elnum=None, rev=None, cls="U", badsum=(0, 0)):
    """Angles in degrees, n in revolutions per day. Values are rounded to the columns and the rounded ones kept."""
    if year is None: year = rng.randint(2005, 2030)
    if doy is None: doy = rng.uniform(1, 365.9)
    if desig is None:
        ly = rng.randint(1957, min(year, 2056))
        desig = "%02d%03d%-3s" % (ly % 100, rng.randint(1, 150), rng.choice(["A", "B", "C", "Z", "AB", "BQ", "AAC", "CSP"]))
    dtext = "%012.8f" % doy
    el_n = "%11.8f" % n
    i_t, o_t, w_t, m_t = ("%8.4f" % (x % 360 if j != 0 else x) for j, x in enumerate((incl, node, argp, ma)))
    i_t, o_t, w_t, m_t = (t if float(t) < 360 or j == 0 else "%8.4f" % 0 for j, t in enumerate((i_t, o_t, w_t, m_t)))
    e_i = min(9999999, max(0, int(round(ecc * 1e7))))
    if bstar is None: bstar = rng.choice([0, 1, 1, 1, -1]) * 10 ** rng.uniform(-6, -3.3)
    b_t, b_v = exp_field(bstar)
    if ndot is None: ndot = rng.choice([0, 1, -1]) * rng.uniform(0, 1e-4)
    nd_i = int(round(abs(ndot) * 1e8)) % 100000000
    nd_t = ("-" if ndot < 0 else " ") + ".%08d" % nd_i
    ndd_t, ndd_v = exp_field(0 if nddot is None else nddot)
    num = norad if isinstance(norad, str) else norad_text(norad)
    if elnum is None: elnum = rng.randint(0, 9999)
    if rev is None: rev = rng.randint(0, 99999)
    l1 = "1 %s%s %-8s %02d%s %s %s %s %s %4d" % (num, cls, desig, year % 100, dtext, nd_t, ndd_t, b_t, etype, elnum)
    l2 = "2 %s %s %s %07d %s %s %s%5d" % (num, i_t, o_t, e_i, w_t, m_t, el_n, rev)
    assert len(l1) == 68 and len(l2) == 68, (l1, l2)
    c1, c2 = checksum(l1), checksum(l2)
    l1 += str((int(c1) + badsum[0]) % 10)
    l2 += str((int(c2) + badsum[1]) % 10)
    d2r = pi / 180
    el = Elements(jd_of_epoch(year, float(dtext)), b_v, float(i_t) * d2r, float(o_t) * d2r, e_i * 1e-7, float(w_t) * d2r,
                  float(m_t) * d2r, float(el_n) * TWOPI / 1440.0)
    fd = {"2": False, "4": False, "3": True, "5": True}.get(etype)
    if name is None: name = "SAT %s" % num
    return Sat(name=name, name_line=name, l1=l1, l2=l2, el=el, num=num, norad=norad, desig=desig, etype=etype, forced_deep=fd,
               year=year, doy=float(dtext), ndot=(-1 if ndot < 0 else 1) * nd_i * 1e-8, nddot=ndd_v, bstar=b_v, elnum=elnum, rev=rev,
               cls=cls, incl=float(i_t), node=float(o_t), ecc=e_i * 1e-7, argp=float(w_t), ma=float(m_t), n=float(el_n))

def n_from(hp_km, ecc):
    a = (1 + hp_km / RE) / (1 - ecc)
    return XKE / a ** 1.5 * 1440 / TWOPI

def pick_incl(rng):
    return rng.choice([rng.uniform(0, 180), rng.uniform(0, 180), rng.uniform(0, 3), 0.0, 90.0, rng.uniform(89.9, 90.1),
                       rng.uniform(97, 99), rng.uniform(170, 180), 63.4349, rng.uniform(10, 14), rng.uniform(45, 56)])

def leo(rng, kind=None):
    """Element values of a near-Earth orbit (dict for make_sat)."""
    kind = kind or rng.choice(["circ", "circ", "ecc", "low98", "low156", "low220", "high", "near225", "tinye"])
    e = rng.uniform(0, 0.003)
    if kind == "circ": hp = rng.uniform(250, 2000)
    elif kind == "tinye": hp, e = rng.uniform(250, 1500), rng.choice([0.0, 1e-7, 5e-7, 5e-5, 1e-4, 1.001e-4])
    elif kind == "ecc": hp, e = rng.uniform(230, 900), rng.uniform(0.01, 0.45)
    elif kind == "low98": hp, e = rng.uniform(60, 98), rng.uniform(0.0, 0.1)
    elif kind == "low156": hp, e = rng.uniform(98, 156), rng.uniform(0.0, 0.3)
    elif kind == "low220": hp, e = rng.uniform(156, 220), rng.uniform(0.0, 0.3)
    elif kind == "high": hp = rng.uniform(2000, 5500)
    else:                       # period just below 225 minutes
        n = 1440 / rng.uniform(215, 224.5)
        e = rng.uniform(0, 0.4)
        return dict(n=n, ecc=e, incl=pick_incl(rng), node=rng.uniform(0, 360), argp=rng.uniform(0, 360), ma=rng.uniform(0, 360))
    n = n_from(hp, e)
    n = max(n, 6.45)            # stay near-Earth
    return dict(n=n, ecc=e, incl=pick_incl(rng), node=rng.uniform(0, 360), argp=rng.uniform(0, 360), ma=rng.uniform(0, 360))

def deep(rng, kind=None):
    kind = kind or rng.choice(["geo", "geo", "molniya", "molniya", "gps", "heo", "near225", "super", "sync_incl", "gto", "lowinc"] + ["far"] * (rng.random() < .3))
    d = dict(node=rng.uniform(0, 360), argp=rng.uniform(0, 360), ma=rng.uniform(0, 360))
    if kind == "geo": d.update(n=rng.uniform(0.99, 1.01), ecc=rng.uniform(0, 0.005), incl=rng.choice([rng.uniform(0, 0.2), rng.uniform(0.2, 15)]))
    elif kind == "sync_incl": d.update(n=rng.uniform(0.81, 1.19), ecc=rng.uniform(0, 0.4), incl=rng.uniform(0, 110))
    elif kind == "molniya": d.update(n=rng.uniform(1.90, 2.11), ecc=rng.choice([rng.uniform(0.5, 0.65), rng.uniform(0.65, 0.715), rng.uniform(0.7, 0.76)]),
                                     incl=rng.choice([rng.uniform(60, 66), rng.uniform(5, 120)]))
    elif kind == "gps": d.update(n=rng.uniform(1.95, 2.05), ecc=rng.uniform(0, 0.4), incl=rng.uniform(50, 60))
    elif kind == "heo": d.update(n=rng.uniform(0.2, 0.6), ecc=rng.choice([rng.uniform(0.3, 0.9), rng.uniform(.3, .9), rng.uniform(.85, .97)]), incl=pick_incl(rng))
    elif kind == "far": d.update(n=rng.uniform(.1, .25), ecc=rng.uniform(.9, .97), incl=pick_incl(rng))
    elif kind == "near225": d.update(n=1440 / rng.uniform(225.6, 240), ecc=rng.uniform(0, 0.4), incl=pick_incl(rng))
    elif kind == "super": d.update(n=rng.uniform(0.5, 0.95), ecc=rng.uniform(0, 0.3), incl=rng.uniform(0, 60))
    elif kind == "gto": d.update(n=rng.uniform(2.15, 2.35), ecc=rng.uniform(0.70, 0.74), incl=rng.uniform(0, 30))
    elif kind == "lowinc": d.update(n=rng.uniform(1.2, 5.0), ecc=rng.uniform(0, 0.3), incl=rng.uniform(0, 11.4))
    # perigee above the ground
    a = (XKE / (d["n"] * TWOPI / 1440)) ** (2 / 3)
    d["ecc"] = min(d["ecc"], max(0.0, 1 - (1 + 250 / RE) / a))
    return d

def high_state(rng, norad, name=None, year=None, doy=None, r=None, v=None, desig=None):
    """An 'H' set: r in metres, v in 1e-4 m/s (integers, equatorial)."""
    year = year or rng.randint(2018, 2026); doy = rng.uniform(1, 365) if doy is None else doy
    if desig is None: desig = "%02d%03d%-3s" % (rng.randint(10, 24), rng.randint(1, 150), "A")
    dtext = "%012.8f" % doy
    num = norad if isinstance(norad, str) else norad_text(norad)
    l1 = "1 %sU %-8s %02d%s %s %s %sH  999" % (num, desig, year % 100, dtext, b36(r[0]), b36(r[1]), b36(r[2]))
    l2 = ("2 %s" % num).ljust(33) + "%s %s %s    01" % (b36(v[0]), b36(v[1]), b36(v[2]))
    l1 = l1.ljust(68); l2 = l2.ljust(68)
    assert len(l1) == 68 and len(l2) == 68, (l1, len(l1), l2, len(l2))
    l1 += checksum(l1); l2 += checksum(l2)
    return Sat(name=name or "HIGH %s" % num, name_line=name or "HIGH %s" % num, l1=l1, l2=l2, num=num, norad=norad, desig=desig, etype="H",
               r=[x for x in r], v=[x * 1e-4 for x in v], epoch=jd_of_epoch(year, float(dtext)), year=year, doy=float(dtext), el=None,
               forced_deep=None)

def desig_text(d):
    """The designator as the programs print it."""
    yy = int(d[:2])
    return ("19" if yy >= 57 else "20") + d[:2] + "-" + d[2:].rstrip()

# ---------------------------------------------------------------- calendar
def mjd_of_date(y, m, d, sec=0.0):
    return date(y, m, d).toordinal() - 678576 + sec / 86400.0

def epoch_for(mjd, rng, spread=30.0):
    """(year, day of year) of an epoch within ±spread days of the MJD."""
    t = mjd + rng.uniform(-spread, spread)
    d = date.fromordinal(int(floor(t)) + 678576)
    return d.year, (d - date(d.year, 1, 1)).days + 1 + (t - floor(t))
