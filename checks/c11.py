from math import pi
from datetime import date
from vk import gen, lib
from vk.run import pmap

F = lib.F
D2R = pi / 180

def number(rng):
    return rng.choice([rng.randint(0, 99999), rng.randint(0, 999), rng.randint(100000, 339999), rng.randint(340000, 32412063), rng.randint(32412064, 41845023),
                       rng.randint(41845024, 44619423), rng.randint(44619424, 45435423),
                       rng.choice([0, 9, 99999, 100000, 339999, 340000, 32412063, 32412064, 41845023, 41845024, 44619423, 44619424, 45435423])])

def one(rng):
    """(line 1, line 2 with blanks for the checksum, expected values)."""
    n = number(rng)
    num = gen.norad_text(n)
    if n < 10000 and rng.random() < .3: num = "%5d" % n
    year = rng.choice([rng.randint(1957, 2056), rng.choice([1957, 1999, 2000, 2056, 2004, 2100 - 45])])
    if year > 2056: year = 2056
    leap = year % 4 == 0
    day = rng.choice([rng.randint(1, 365 + leap), 1, 365 + leap, 60, 99, 100])
    frac = rng.choice([rng.randint(0, 99999999), rng.randint(0, 99999999), rng.randint(99900000, 99999999), 50000000 + rng.randint(-99999, 99999), rng.randint(0, 99999), 0, 99999999, 50000000, 1])
    dt = "%03d.%08d" % (day, frac)
    if rng.random() < .15: dt = "%3d.%08d" % (day, frac)
    yt = "%02d" % (year % 100)
    if year % 100 < 10 and rng.random() < .15: yt = "%2d" % (year % 100)
    desig = rng.choice(["%02d%03d%-3s" % (rng.randint(0, 99), rng.randint(1, 999), rng.choice(["A", "ZZZ", "BQ", "CSP", "T"])), "        ", "98067A  "])
    cls = rng.choice("UUUCS ")
    nd = rng.choice([0, rng.randint(0, 99999), rng.randint(0, 99999999), 99999999]); nsg = rng.choice([" ", "-", "+"])
    def sci():
        m, e = rng.choice([0, rng.randint(10000, 99999), rng.randint(1, 9999), 10000, 99999]), rng.choice([rng.randint(0, 9), 0, 4, 3])
        sg, es = rng.choice([" ", "-", "+"]), rng.choice("--- +")
        if es == "+": e = min(e, 2)
        return "%s%05d%s%d" % (sg, m, es, e), (-1 if sg == "-" else 1) * m * 1e-5 * 10.0 ** (-e if es == "-" else e)
    nddt, nddv = sci(); bt, bv = sci()
    et = rng.choice("0000123456 H"[:11])
    el = rng.choice([rng.randint(0, 9999), 0, 9999, 999])
    l1 = "1 %s%s %s %s%s %s.%08d %s %s %s %4d" % (num, cls, desig, yt, dt, nsg, nd, nddt, bt, et, el)
    def ang(mx):
        v = rng.choice([rng.randint(0, mx * 10000 - 1), rng.randint(0, mx * 10000 - 1), 0, mx * 10000 - 1, rng.randint(0, 9999), rng.randint(0, 99999), 100000, 1000000])
        v %= mx * 10000
        return ("%08.4f" if rng.random() < .15 else "%8.4f") % (v / 1e4), v * 1e-4 * D2R
    it, iv = rng.choice([ang(180), ("180.0000", pi)]); ot, ov = ang(360); wt, wv = ang(360); mt, mv = ang(360)
    e = rng.choice([rng.randint(0, 9999999), rng.randint(0, 9999), 0, 1, 9999999])
    mm = rng.choice([rng.randint(0, 1799999999), rng.randint(1400000000, 1649999999), rng.randint(0, 99999999), 100000000, 1600000000])
    rev = rng.choice([rng.randint(0, 99999), 0, 99999, rng.randint(0, 999)])
    mt_ = ("%011.8f" if rng.random() < .1 else "%11.8f") % (mm / 1e8)
    l2 = "2 %s %s %s %07d %s %s %s%s" % (num, it, ot, e, wt, mt, mt_, ("%05d" if rng.random() < .2 else "%5d") % rev)
    assert len(l1) == 68 and len(l2) == 68, (l1, l2)
    ep = date(year, 1, 1).toordinal() + 1721424.5 + day - 1 + frac * 1e-8
    k = 2 * pi / 1440
    exp = dict(epoch=(ep, 1.5e-9), xndt2o=((-1 if nsg == "-" else 1) * nd * 1e-8 * k / 1440, 0), xndd6o=(nddv * k / 1440 ** 2, 0), bstar=(bv, 0),
               xincl=(iv, 0), xnodeo=(ov, 0), eo=(e * 1e-7, 0), omegao=(wv, 0), xmo=(mv, 0), xno=(mm * 1e-8 * k, 0))
    return l1, l2, exp, dict(norad=n, bulletin=el, rev=rev, cls=ord(cls), etype=ord(et), desig=desig)

NAMES = ["epoch", "xndt2o", "xndd6o", "bstar", "xincl", "xnodeo", "eo", "omegao", "xmo", "xno"]
INTS = ["norad", "bulletin", "rev", "cls", "etype"]

def judge(c, l1, l2, want_rc, exp, ints, w):
    if int(w[0]) != want_rc: c.violation("code", "result code %s, expected %d, for\n%s\n%s" % (w[0], want_rc, l1, l2), l1=l1, l2=l2); return
    for name, x in zip(NAMES, w[1:11]):
        v, tol = exp[name]
        if not abs(F(x) - v) <= tol + 3e-15 * 40 * abs(v): c.violation("value:" + name, "%s = %r, written %r, in\n%s\n%s" % (name, F(x), v, l1, l2), l1=l1, l2=l2)
    for name, x in zip(INTS, w[11:16]):
        if int(x) != ints[name]: c.violation("value:" + name, "%s = %s, written %d, in\n%s\n%s" % (name, x, ints[name], l1, l2), l1=l1, l2=l2)
    if bytes.fromhex(w[16]).decode("latin-1") != ints["desig"] or w[17] != "0": c.violation("value:desig", "designator %r, written %r, in %s" % (w[16:], ints["desig"], l1), l1=l1)

def run(c):
    c.rule = ("element pairs with every column drawn from its full range (limits included): decoded values against the written ones; all wrong checksum digits on either or both lines; the checksum function over "
              "all digits; state-vector sets; lines that are not element lines (short, long, swapped, foreign text, control characters); catalogue numbers of every scheme; one evaluation per call; "
              "distinct = distinct pairs")
    rng = c.rng
    cmds, jobs = [], []
    def put(l1, l2, kind, *a):
        cmds.append("P0\n%s\n%s" % (l1, l2)); jobs.append((kind, l1, l2) + a)
    for i in range(c.n(6000, 120000)):
        b1, b2, exp, ints = one(rng)
        k1, k2 = rng.choice([(0, 0), (0, 0), (rng.randint(1, 9), 0), (0, rng.randint(1, 9)), (rng.randint(1, 9), rng.randint(1, 9))])
        g1, g2 = int(gen.checksum(b1)), int(gen.checksum(b2))
        end = rng.choice(["", "", "\r", " ", "  trailing"]) if rng.random() < .3 else ""
        l1, l2 = b1 + str((g1 + k1) % 10) + end, b2 + str((g2 + k2) % 10) + end
        put(l1, l2, "ok", bool(k1) + 2 * bool(k2), exp, ints)
        if i % 4 == 0:
            for line, g in ((l1, g1), (l2, g2)):
                d = rng.randint(0, 9)
                cmds.append("K\n%s%d" % (line[:68], d)); jobs.append(("sum", line[:68] + str(d), (g - d) % 10))
        if i % 3 == 0:
            bad = list((l1, l2)); k = rng.randint(0, 8)
            j = rng.randint(0, 1)
            if k == 0: bad = [l2, l1]
            elif k == 1: bad = [l1, l1] if j else [l2, l2]
            elif k == 2: bad[j] = bad[j][:rng.randint(0, 67)]
            elif k == 3: p = rng.randint(2, 67); bad[j] = bad[j][:p] + rng.choice("\x01\t{|}~\x7f\xe9\x1f") + bad[j][p + 1:]
            elif k == 4: bad[j] = bad[j][:69] + chr(rng.randint(33, 126))
            elif k == 5: bad[j] = rng.choice("03456789 ABx-+") + bad[j][1:]
            elif k == 6: bad[j] = bad[j][0] + rng.choice("0123456789A-.") + bad[j][2:]
            elif k == 7: bad[j] = "".join(chr(rng.randint(32, 126)) for _ in range(rng.randint(0, 90)))
            else: bad = ["NAME OF A SATELLITE", l1]
            if not (bad[0][:2] == "1 " and bad[1][:2] == "2 " and k in (7,)): put(bad[0], bad[1], "bad", k)
        if i % 40 == 0:
            s = gen.high_state(rng, number(rng), year=rng.randint(1957, 2056), doy=rng.uniform(1, 365.9), r=[rng.randint(-36 ** 8 + 1, 36 ** 8 - 1), rng.randint(-10 ** 6, 10 ** 6), rng.randint(-10 ** 9, 10 ** 9)],
                               v=[rng.randint(-36 ** 8 + 1, 36 ** 8 - 1), rng.randint(-99, 99), rng.randint(-10 ** 8, 10 ** 8)])
            put(s.l1, s.l2, "H", s)
            q = rng.choice([33, 43, 53]) + rng.randint(0, 8)
            if rng.random() < .5: x = s.l1[:q] + rng.choice("a .,-+*" if (q - 33) % 10 else "0Z *.") + s.l1[q + 1:]; put(x[:68] + gen.checksum(x[:68]), s.l2, "badH")
            else: x = s.l2[:q] + rng.choice("a .,-+*" if (q - 33) % 10 else "0Z *.") + s.l2[q + 1:]; put(s.l1, x[:68] + gen.checksum(x[:68]), "badH")
        if i % 6 == 0:        # any characters that may stand in a line
            t = rng.choice("12") + " " + "".join(rng.choice(rng.choice(["0123456789", "- 1", ".+- ", "".join(map(chr, range(32, 123))), "z -"])) for _ in range(66)); d = rng.randint(0, 9)
            cmds.append("K\n%s%d" % (t, d)); jobs.append(("sum", t + str(d), (sum(int(x) for x in t if x.isdigit()) + t.count("-") - d) % 10))
    for n in [x for a, b in ((0, 99999), (100000, 339999), (340000, 32412063), (32412064, 41845023), (41845024, 44619423), (44619424, 45435423)) for x in [a, b] + [rng.randint(a, b) for _ in range(c.n(150, 3000))]]:
        b1, b2, exp, ints = one(rng)
        t = gen.norad_text(n); b1 = b1[:2] + t + b1[7:]; b2 = b2[:2] + t + b2[7:]; ints = dict(ints, norad=n)
        put(b1 + gen.checksum(b1), b2 + gen.checksum(b2), "ok", 0, exp, ints)
    try: res = [x for p in pmap(lambda a: lib.batch(cmds[a:a + 4000]), range(0, len(cmds), 4000)) for x in p]
    except lib.LibCrash as x: c.violation("crash", "the library stopped at %r (%s): %s" % (x.cmd, x.rc, x.err), cmd=x.cmd); return
    for j, w in zip(jobs, res):
        c.ev((j[1], j[2])); c.count({"ok": "valid pairs", "sum": "checksums", "bad": "not element lines", "H": "state vectors", "badH": "corrupt state vectors"}[j[0]])
        if j[0] == "ok":
            judge(c, j[1], j[2], j[3], j[4], j[5], w); c.count("result code %d" % j[3])
        elif j[0] == "sum":
            if int(w[0]) != j[2]: c.violation("checksum", "checksum function gives %s, expected %d for %r" % (w[0], j[2], j[1]), line=j[1])
        elif j[0] in ("bad", "badH"):
            if int(w[0]) >= 0: c.violation("accepted", "lines that are not an element pair (kind %s) are accepted with code %s:\n%r\n%r" % (j[3:] or "H", w[0], j[1], j[2]), l1=j[1], l2=j[2])
        else:
            s = j[3]
            got = [F(x) for x in w[5:11]] if w[0] == "0" else None
            if got is None: c.violation("H", "state-vector set refused with %s:\n%s" % (w[0], s.text), tle=s.text); continue
            # structure order: inclination, node, eccentricity, argument, anomaly, motion hold the vector
            for a, b in zip(got, list(s.r) + list(s.v)):
                if abs(a - b) > 1e-12 * abs(b): c.violation("H", "state vector decoded as %r, written %r %r:\n%s" % (got, s.r, s.v, s.text), tle=s.text); break
            if abs(F(w[1]) - s.epoch) > 1.5e-9 or int(w[11]) != s.norad: c.violation("H", "epoch %r or number %s of the state-vector set is wrong:\n%s" % (F(w[1]), w[11], s.text), tle=s.text)
    c.sample(dict(pair=[jobs[0][1], jobs[0][2]], answer=res[0]))
