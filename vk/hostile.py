"""Hostile inputs: command lines, catalogues and list files of every kind."""
import os, re
from . import gen

def jtext(b):
    """The text a report must show for these bytes: valid UTF-8 as it is, other bytes as Latin-1."""
    out, i = [], 0
    while i < len(b):
        n = 1
        for k in (2, 3, 4):
            try: s = b[i:i + k].decode("utf8")
            except UnicodeDecodeError: continue
            if len(s) == 1 and len(b[i:i + k]) == k: n = k
            break
        if b[i] < 128: out.append(chr(b[i])); i += 1
        elif n > 1: out.append(b[i:i + n].decode("utf8")); i += n
        else: out.append(chr(b[i])); i += 1
    return "".join(out)

NASTY = [b'"', b"\\", b'\\"', b"\\u0041", b"\\n", b"{", b"}", b"]", b"[", b",", b":", b"'", b"%s", b"%n%n", b"%d", b"\t", b"\x01", b"\x1f", b"\x7f", b"\x80", b"\xff", b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x9b\xb0", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80",
         b"\xc0\x80", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xe0\xa0\x80", b"\xed\x9f\xbf", b"\xed\xbf\xbf", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf0\x90\x80\x80", b"\xf4\x8f\xbf\xbf", b"\xc1\xbf", b"\xc2\x80", b"\xdf\xbf", b"\xef\xbf\xbf",
         b"\xf8\x88\x80\x80\x80", b"\xe1\x80", b"\xf1\x80\x80", b"\xe2(\xa1", b"\xf0(\x8c\xbc", b"\xe2\x82(", b"\xf0\x90(\xbc", b"\xfe", b"\xbf", b"\xf4\x90\x80\x80", b"\xf5", b"\xf5\x80\x80\x80", b"\xf7\xbf\xbf\xbf", b"\xf4\x80\x80\x80", b"\xf3\xbf\xbf\xbf", b"/", b"</script>", b"NaN", b"null", b" ", b"0", b"-", b"\x1b[0m", b"\x08", b"\x0c", b"\x0b"]

def nasty(rng, n=6, nul=False, nl=False):
    o = b"".join(rng.choice(NASTY) if rng.random() < .5 else bytes([rng.choice(b"ABCabc019 _")]) for _ in range(rng.randint(1, n)))
    if nul and rng.random() < .1: o += b"\0" + o
    if not nl: o = o.replace(b"\n", b"").replace(b"\r", b"")
    return o

def fix(l):
    """The line with a right check sum."""
    if len(l) < 68: return l
    s = 0
    for ch in l[:68]: s += ch - 48 if 48 <= ch < 58 else 1 if ch == 45 else 0
    return l[:68] + b"%d" % (s % 10) + l[69:]

FIELDS1 = [(2, 7), (7, 8), (9, 17), (18, 32), (33, 43), (44, 52), (53, 61), (62, 63), (64, 68), (18, 20), (20, 23), (23, 32), (0, 2), (59, 61)]
FIELDS2 = [(2, 7), (8, 16), (17, 25), (26, 33), (34, 42), (43, 51), (52, 63), (63, 68), (0, 2), (52, 55)]

def field(rng, n):
    k = rng.random()
    if k < .2: return b"9" * n
    if k < .35: return b"0" * n
    if k < .45: return b" " * n
    if k < .55: return bytes(rng.choice(b"0123456789") for _ in range(n))
    if k < .65: return (rng.choice([b"-", b"+", b"."]) + b"9" * n)[:n]
    if k < .75: return (b" " * n + rng.choice([b"nan", b"inf", b"-inf", b"1e99", b"0x1p9", b"-1", b"1e-9", b"1.", b".1", b"1e308", b"99999", b"-99999+9", b"-0"]))[-n:]
    if k < .85: return bytes(rng.choice(b"+-. 0123456789eE") for _ in range(n))
    if k < .93: return bytes(rng.randint(32, 126) for _ in range(n))
    return bytes(rng.choice([x for x in range(1, 256) if x not in (10, 13)]) for _ in range(n))

def near(l):
    """The line with its epoch within a million days of now: the day of the year keeps its point."""
    m = re.match(rb"\s*[-+]?(0[xX][0-9a-fA-F.pP+]*|[0-9]*\.?[0-9]*([eE][-+]?[0-9]+)?|\w*)", l[20:])
    return l if l[23:24] == b"." and not re.search(rb"[a-zA-Z]", m.group(0)) else l[:20] + b"%3d." % (sum(l[20:23]) % 366 + 1) + re.sub(rb"[^0-9]", b"0", l[24:32]) + l[32:]

def lines(rng, mjd, num):
    """Two element lines (bytes): valid, extreme or corrupted."""
    y, d = gen.epoch_for(mjd, rng, rng.choice([1, 30, 3000]))
    if not 1957 <= y <= 2056: y = 2000
    k = rng.random()
    if k < .12:
        R = rng.choice([7e6, 1e8, 1e3, 1, 2e12]); V = rng.choice([1e4, 1e8, 1e12, 0])
        s = gen.high_state(rng, num, year=y, doy=d, r=[int(rng.uniform(-R, R)) for _ in range(3)], v=[int(rng.uniform(-V, V)) for _ in range(3)])
    else:
        el = gen.leo(rng) if rng.random() < .5 else gen.deep(rng)
        if rng.random() < .25: el["n"] = rng.choice([0, 1e-8, 1e-4, .01, .1, 1, 2, 6.39, 6.4, 20, 30, 99.99])
        if rng.random() < .25: el["ecc"] = rng.choice([0, .9999999, .999, .95, .5, 1e-7])
        if rng.random() < .2: el["incl"] = rng.choice([0, 180, 90, 181, 270, 360, 999, .0001, 179.9999])
        b = rng.choice([None, None, 0, .9, -.9, 90, -90, 1e-9])
        s = gen.make_sat(rng, num, year=y, doy=d, bstar=b, etype=rng.choice("000000123459 AHx"), ndot=rng.choice([None, .99, -.99]), **el)
    l1, l2 = s.l1.encode(), s.l2.encode()
    k = rng.random()
    if k < .45: return l1, l2
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        if rng.random() < .45: a, b = rng.choice(FIELDS1); l1 = l1[:a] + field(rng, b - a) + l1[b:]
        else: a, b = rng.choice(FIELDS2); l2 = l2[:a] + field(rng, b - a) + l2[b:]
    k = rng.random()
    l1 = near(l1)
    if k < .8: l1, l2 = fix(l1), fix(l2)
    if rng.random() < .12:
        x = rng.choice([1, 2]); l = l1 if x == 1 else l2
        q = rng.random()
        if q < .3: l = l[:rng.randint(0, 69)]
        elif q < .5: l = l + rng.choice([b" ", b"x" * rng.randint(1, 300), b"\0", b"\x80"])
        elif q < .65: i = rng.randint(0, 68); l = l[:i] + bytes([rng.randint(0, 255)]) + l[i + 1:]
        elif q < .8: i = rng.randint(0, 68); l = l[:i] + l[i + rng.randint(1, 5):]
        elif q < .9: i = rng.randint(0, 68); l = l[:i] + l[i:i + 3] + l[i:]
        else: l = b""
        if x == 1: l1 = near(l)
        else: l2 = l
    return l1, l2

def name(rng):
    k = rng.random()
    if k < .3: return nasty(rng, 14)
    if k < .5: return (b"SAT " + nasty(rng, 4) + b" " * rng.randint(0, 30))
    if k < .6: return nasty(rng, 60)
    if k < .65: return b""
    if k < .7: return b"X" * rng.randint(20, 30) + nasty(rng)
    if k < .75: return rng.choice([b"1 ", b"2 ", b"0 ", b"1", b"2", b"1 25544U", b"#", b"# c"]) + nasty(rng)
    if k < .8: return b"x" * rng.choice([97, 98, 99, 100, 101, 150, 197, 198, 199, 200, 500])
    return b"SATELLITE %d" % rng.randint(0, 999)

def catalog(rng, mjd, n=None):
    """Bytes of an element file."""
    k = rng.random()
    if k < .03: return bytes(rng.randint(0, 255) for _ in range(rng.choice([1, 10, 99, 100, 101, 300, 3000])))
    if k < .05: return rng.choice([b"", b"\n", b"\r\n", b"x", b"\0", b"\n\n\n", b" " * 99, b" " * 100, b"1 ", b"1 \n2 \n"])
    eol = rng.choice([b"\n", b"\n", b"\n", b"\r\n", b" \n"])
    o = []
    for i in range(n if n is not None else rng.choice([1, 2, 5, 12, 30])):
        l1, l2 = lines(rng, mjd, rng.choice([rng.randint(0, 99999), rng.randint(0, 99999), rng.randint(100000, 339999), 10 + i, 11]))
        q = rng.random()
        if q < .75: o += [name(rng), l1, l2]
        elif q < .8: o += [l1, l2]
        elif q < .84: o += [name(rng), l1]
        elif q < .88: o += [name(rng), l2, l1]
        elif q < .91: o += [name(rng), l1, nasty(rng), l2]
        elif q < .94: o += [name(rng), b"", l1, l2]
        elif q < .97: o += [b"#" + name(rng), l1, l2]
        else: o += [name(rng), l1 + l2]
    t = eol.join(o)
    return t + eol if rng.random() < .8 else t[:rng.randint(0, len(t))] if rng.random() < .5 else t

def arg(rng):
    k = rng.random()
    if k < .3: return b"-" + bytes([rng.choice(b"adDijlnprsStEGHITVNhzZ?-0")]) + rng.choice([b"", nasty(rng), b"1", b"1,2", b"1,2,3", b"58000.5", b"58000,58000.1"])
    if k < .45: return nasty(rng, 10)
    if k < .5: return bytes(rng.randint(1, 255) for _ in range(rng.randint(1, 40)))
    if k < .56: return bytes([rng.choice(b"x1-,.9 @/\"\xc3")]) * rng.choice([30, 31, 32, 99, 100, 127, 128, 129, 255, 256, 4095, 4096, 4200, 4400, 5000, 100000])
    if k < .62: return b"-" + bytes([rng.choice(b"adDijlnprsSt")]) + bytes([rng.choice(b"x1,.9 -")]) * rng.choice([30, 100, 128, 256, 4200, 5000, 100000])
    if k < .7: return b"@" + nasty(rng)
    if k < .95: return rng.choice([b"-1e308", b"1e-320", b"nan", b"inf", b"99999999999999999999", b"-2147483648", b"2147483647", b"-9223372036854775808", b"0x7fffffff", b"1e5,1e5", b"-1", b"0", b"0,0", b"90,360", b"1e-300,1e300,1e300", b"58000", b"-2400000.5",
                                   b"2020-01-01T00:00:00", b"2020-02-29T23:59:59.999999999999999", b"9999-12-31T23:59:59", b"99999-01-01T00:00:00", b"0000-01-01T00:00:00", b"-4713-01-01T00:00:00", b"2020-1-1T1:1:1", b"%s%s%s%n", b"1,2,3,4,5", b",", b",,", b"-", b"--", b""])
    return b"\xff" * rng.randint(1, 5)

def mutate(rng, argv):
    """A few random changes of an argument vector (list of bytes)."""
    a = list(argv)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 6])):
        k = rng.random(); i = rng.randrange(len(a)) if a else 0
        if not a: a = [arg(rng)]
        elif k < .2: a[i] = arg(rng)
        elif k < .4: a.insert(rng.randint(0, len(a)), arg(rng))
        elif k < .5: del a[i]
        elif k < .6: a.insert(rng.randint(0, len(a)), a[i])
        elif k < .68: j = rng.randrange(len(a)); a[i], a[j] = a[j], a[i]
        elif k < .78: q = rng.randint(0, len(a[i])); a[i] = a[i][:q] + nasty(rng, 3) + a[i][q:]
        elif k < .88: a[i] = a[i][:rng.randint(0, len(a[i]))]
        elif k < .94 and a[i]: q = rng.randrange(len(a[i])); a[i] = a[i][:q] + bytes([rng.randint(1, 255)]) + a[i][q + 1:]
        else: a[i] = a[i] + a[rng.randrange(len(a))]
    return [x.replace(b"\0", b"")[:100000] for x in a]

# ---------------------------------------------------------------- whole runs

class Job:
    """One run: .prog .argv (bytes) .cwd .kind, and what is known about the result beforehand:
    .names  texts (bytes) that must be the listed names in this order, or None
    .mutated the command line is not a planned one (a visibility search may then legitimately take very long)"""
    def __init__(s, prog, argv, cwd, kind, names=None, mutated=False, must=None):
        s.prog, s.argv, s.cwd, s.kind, s.names, s.mutated, s.must = prog, [x if isinstance(x, bytes) else x.encode("latin-1") for x in argv], cwd, kind, names, mutated, must

class World:
    """A directory with files of every kind, for runs at one time."""
    def __init__(s, rng, root, k):
        from . import sky
        s.rng = rng; s.mjd = round(rng.uniform(51000, 62000), 5); s.obs = sky.pick_obs(rng)
        s.dir = os.path.join(root, "w%d" % k).encode(); os.makedirs(s.dir)
        s.sats = []
        for q in range(6):
            y, d = gen.epoch_for(s.mjd, rng, 2)
            s.sats.append(gen.make_sat(rng, 2000 + q, year=y, doy=d, bstar=0, **(gen.leo(rng, rng.choice(["circ", "high"])) if q < 4 else gen.deep(rng))))
        y, d = gen.epoch_for(s.mjd, rng, 1)
        dead = gen.make_sat(rng, 5000, name="DEAD", year=y, doy=d, bstar=0, incl=50, node=10, argp=10, ma=10, ecc=.001, n=0.0)
        s.n = 0
        s.write(b"cat.txt", "".join(x.text for x in s.sats).encode()); s.write(b"one.txt", s.sats[0].text.encode()); s.write(b"two.txt", s.sats[1].text.encode())
        s.write(b"empty.txt", b""); s.write(b"dead.txt", dead.text.encode()); s.write(b"mix.txt", (s.sats[0].text + s.sats[1].text + dead.text + s.sats[2].text).encode())
        os.mkdir(os.path.join(s.dir, b"folder"))
        for n, t in ((b"ok.lis", b"one.txt\ntwo.txt\n"), (b"none.lis", b""), (b"comment.lis", b"# no\n\n#\n"), (b"later.lis", b"one.txt\nmissing.txt\ntwo.txt\n"), (b"emptyrow.lis", b"one.txt\nempty.txt\n"), (b"folder.lis", b"two.txt\nfolder\n"), (b"dead.lis", b"one.txt\ndead.txt\ntwo.txt\n")): s.write(n, t)
    def write(s, n, b):
        with open(os.path.join(s.dir, n), "wb") as f: f.write(b)
        return n
    def new(s, b, ext=b".txt"):
        s.n += 1
        return s.write(b"f%d" % s.n + ext, b)

FILES = [b"cat.txt", b"cat.txt", b"cat.txt", b"one.txt", b"@ok.lis", b"missing.txt", b"empty.txt", b"dead.txt", b"mix.txt", b"mix.txt", b"folder", b"@none.lis", b"@comment.lis", b"@later.lis", b"@later.lis", b"@emptyrow.lis", b"@folder.lis", b"@dead.lis", b"@missing.lis", b"@folder", b"@cat.txt", b"@", b"", b"./cat.txt", b"nodir/cat.txt"]

def steps(rng): return rng.choice(["0.01", "0.03", "0.2"]), rng.choice(["30", "60", "10"])

def plain(rng, w, prog, num=None):
    """Valid options of a short run."""
    o = ["-l" + w.obs.arg]
    if prog == "sat_skymap":
        o += ["-j%.5f" % w.mjd] + (["-r%d" % rng.choice([400, 400, 180, 60])] if rng.random() < .9 else []) + ["-" + x for x in "EGHIV" if rng.random() < .2]
        o += rng.choice([[], [], [], ["-t60"], ["-t-3600"], ["-n%d" % rng.choice([0, 1, 2, 1000])], ["-a100,40000"], ["-p%.3f,%.3f" % (rng.uniform(0, 360), rng.uniform(-90, 90))]])
        if num is not None and rng.random() < .15: o += ["-s%d" % num]
    else:
        a, b = steps(rng)
        o += ["-j%.5f,%.5f" % (w.mjd, w.mjd + float(a)), "-t" + b, "-s%d" % (num if num is not None else w.sats[0].norad)] + (["-r180"] if rng.random() < .7 else []) + (["-N"] if rng.random() < .15 else []) + (["-a0,1e6"] if rng.random() < .1 else [])
    rng.shuffle(o)
    return [x.encode() for x in o]

def put(rng, f, o): return [f] + o if rng.random() < .6 or f[:1] == b"-" else o + [f] if o and o[0][:1] == b"-" else [f] + o

def jobs(rng, root, n, worlds=6):
    """n runs over hostile command lines, element files, list files and names."""
    ws = [World(rng, root, k) for k in range(worlds)]; out = []
    for i in range(n):
        w = rng.choice(ws); prog = rng.choice(["sat_skymap", "sat_skymap", "sat_visibility"]); k = rng.random()
        if k < .3:        # hostile elements
            b = catalog(rng, w.mjd); f = w.new(b); num = None
            if prog == "sat_visibility" or rng.random() < .3:
                L = [l for l in b.split(b"\n") if l[:2] == b"1 " and l[2:7].strip().isdigit()]
                num = int(rng.choice(L)[2:7]) if L else 25544
            if rng.random() < .15: f = b"@" + w.new(f + b"\n" + w.new(catalog(rng, w.mjd)) + b"\ncat.txt\n", b".lis")
            o = plain(rng, w, prog, num)
            if prog == "sat_skymap" and rng.random() < .05: o = [x for x in o if x[:2] != b"-j"] + [b"-j%.3f" % rng.choice([0, -400000, 900000, 15078, 88069])]
            out.append(Job(prog, put(rng, f, o), w.dir, "elements"))
        elif k < .45:     # clean elements with hostile names
            names, t = [], b""
            sats = rng.sample(w.sats, rng.randint(1, 5))
            if prog == "sat_visibility": sats = sats[:1]
            eol = rng.choice([b"\n", b"\n", b"\r\n"])
            for x in sats:
                while 1:
                    nm = name(rng)
                    if nm[:1] not in (b"1", b"2", b"#") and len(nm) < 69 and b"\0" not in nm and b"\n" not in nm and b"\r" not in nm: break
                names.append(nm); t += nm + eol + x.l1.encode() + eol + x.l2.encode() + eol
            o = [x for x in plain(rng, w, prog, sats[0].norad) if x[:2] not in (b"-n", b"-V", b"-I", b"-s", b"-a", b"-r", b"-p")] + [b"-r400"]
            if prog == "sat_visibility": o.append(b"-s%d" % sats[0].norad)
            out.append(Job(prog, put(rng, w.new(t), o), w.dir, "names", names=dict(zip([x.norad for x in sats], names))))
        elif k < .55:     # hostile file, list and directory names
            nm = nasty(rng, rng.choice([3, 10, 30])).replace(b"/", b"") or b"x"
            nm = nm[:200]
            q = rng.random(); must = None
            if nm[:1] in (b"-", b"@") or nm in (b".", b".."): nm = b"x" + nm
            o = plain(rng, w, prog)
            if q < .35: w.write(nm, open(os.path.join(w.dir, b"cat.txt"), "rb").read()); a = put(rng, nm, o); must = ("file", nm)
            elif q < .5: a = put(rng, nm + b".none", o); must = ("open", nm + b".none")
            elif q < .65: w.write(nm + b".lis", b"one.txt\n"); a = put(rng, b"@" + nm + b".lis", o); must = ("file", nm + b".lis")
            elif q < .8:
                r = nm.strip(b" \t\x0b\x0c") or b"x"
                if r[:1] == b"#": r = b"x" + r
                r += b".no"; o = [x for x in o if x[:2] not in (b"-n", b"-s") or prog != "sat_skymap"]; a = put(rng, b"@" + w.new(b"one.txt\n" + r + b"\n", b".lis"), o); must = ("open", r) if prog == "sat_skymap" or b"-s2000" not in o else None
            else: a = put(rng, b"cat.txt", o + [b"-D", nm + b".d"]); must = ("open", nm + b".d")
            out.append(Job(prog, a, w.dir, "file names", must=must))
        elif k < .63:     # error after some satellites, odd files
            out.append(Job(prog, put(rng, rng.choice(FILES), plain(rng, w, prog)), w.dir, "files"))
        elif k < .72:     # an unusable value, to be reported
            v = nasty(rng, rng.choice([2, 5, 20]))
            opt = rng.choice(b"adjlnprst" if prog == "sat_skymap" else b"adjlrst")
            v = b"x" + v
            o = plain(rng, w, prog); o.insert(rng.randint(0, len(o)), b"-" + bytes([opt]) + v)
            out.append(Job(prog, [b"cat.txt"] + o, w.dir, "value", must=("value", v)))
        elif k < .76:
            v = b"-" + rng.choice([b"z", b"Q", b"?", b"\xff", b"\xc3\xa9", b"\"", b"\\", b"{", b"\x01", b"E", b"I" if prog == "sat_skymap" else b"N"]) + (nasty(rng, 8) or b"x")
            if v[1:2] in b"IEN" and len(v) == 2: v += b"x"
            out.append(Job(prog, [b"cat.txt"] + plain(rng, w, prog) + [v], w.dir, "option", must=("value", v)))
        elif k < .84:     # extreme numbers
            e = lambda: rng.choice(["0", "-0", "1e308", "1e308", "1e308", "-1e308", "-1e308", "1.7976931348623157e308", "4.9e-324", "1e-300", "1e15", "-1e15", "1e30", "2147483647", "-2147483648", "1e5", "-1e5", "90", "-90", "360", "-360", "6378137", "-6378137", "-6356752.3", "89.99999999999999", "%r" % rng.uniform(-400, 400)])
            o = plain(rng, w, prog)
            for q in rng.sample("ajlnprt" if prog == "sat_skymap" else "alr", rng.randint(1, 3)):
                v = {"a": lambda: e() + "," + e(), "p": lambda: "%s,%s" % (rng.choice(["0", "360", e()]), rng.choice(["0", "90", "-90", e()])), "l": lambda: "%s,%s" % (rng.choice(["90", "-90", "0", "1e-300", e()]), rng.choice(["360", "0", "-360", e()])) + rng.choice(["", "," + e()]),
                     "j": lambda: rng.choice([e(), "-2400000.5", "-678576", "2973483", "5373484.5", "1e6", "-1e6", "%r" % rng.uniform(-3e6, 6e6)])}.get(q, e)()
                o = [x for x in o if x[:2] != b"-" + q.encode()] + [b"-" + q.encode() + v.encode()]
            # (a state vector or a resonant orbit millions of days away takes its time)
            far = any(x[:2] == b"-j" and b"," not in x and abs(float(x[2:])) > 1e6 for x in o)
            out.append(Job(prog, put(rng, b"cat.txt" if far or rng.random() < .5 else w.new(catalog(rng, w.mjd)), o), w.dir, "extreme numbers"))
        else:             # anything on the command line
            o = put(rng, rng.choice(FILES), plain(rng, w, prog))
            a = mutate(rng, o)
            if rng.random() < .1: a = [arg(rng).replace(b"\0", b"") for _ in range(rng.randint(0, 8))]
            out.append(Job(prog, a, w.dir, "arguments", mutated=True))
    return out
