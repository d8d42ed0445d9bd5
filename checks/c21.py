import os, subprocess, struct, tempfile, shutil
import numpy as np
from vk import build as B, healref as H
from vk.run import pmap

SPECIAL = np.array([0x7f800000, 0xff800000, 0x80000000, 0, 1, 0x80000001, 0x007fffff, 0x807fffff, 0x00800000, 0x7f7fffff, 0xff7fffff, 0x3f800000, 0xf1a56fb0, 0xf1a56faf, 0x00400000], dtype=np.uint32)

def call(exe, args, cwd):
    env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C"}; env.update(B.SAN_ENV)
    r = subprocess.run([exe] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=env, stdin=subprocess.DEVNULL)
    return r.returncode, r.stdout.decode("latin-1").strip("\n"), r.stderr.decode("latin-1")

def cards(path):
    """The header cards of the first extension, read directly from the file."""
    b = open(path, "rb").read(); hd = []; pos = 0; n = 0
    while pos + 80 <= len(b):
        k = b[pos:pos + 80].decode("latin-1"); pos += 80
        if n == 1: hd.append(k)
        if k.startswith("END" + " " * 10):
            pos = (pos + 2879) // 2880 * 2880; n += 1
            if n == 2: break
    v = {}
    for k in hd:
        if k[8:10] == "= ":
            t = k[10:].split("/")[0].strip() if "'" not in k[10:12] else k[10:].split("'")[1].strip()
            v[k[:8].strip()] = t
    return v, b[pos:]

def run(c):
    c.rule = ("random maps of random bit patterns (no NaN), with infinities, denormals, negative zeros and the null value, both orderings and all coordinate systems, through write, size query and read, the file also decoded "
              "independently; overwriting with and without the prefix; one evaluation per file operation; distinct = distinct (resolution, ordering, content)")
    rng = c.rng
    d = tempfile.mkdtemp(dir=B.scratch())
    exe = B.driver_cached("hpxfits.c", "plain", fitsio=True)
    jobs = []
    for i in range(c.n(60, 800)):
        ns = rng.choice([1, 2, 4, 8, 16, 32, 64, 128] + [rng.choice([3, 5, 12, 100]), 256] + ([512] if c.thorough else []))
        if i in (7, 8): ns = 512
        nest = rng.random() < .5 and ns & (ns - 1) == 0
        seed = rng.getrandbits(32); g = np.random.default_rng(seed)
        n = 12 * ns * ns
        kind = rng.choice(["bits", "bits", "special", "smooth", "special"])
        if kind == "bits": a = g.integers(0, 2 ** 32, n, dtype=np.uint32)
        elif kind == "special": a = g.choice(SPECIAL, n)
        else: a = np.sin(np.arange(n) * .1).astype(np.float32).view(np.uint32)
        nan = ((a & 0x7f800000) == 0x7f800000) & ((a & 0x7fffff) != 0)
        a = np.where(nan, np.uint32(0x42280000) + (a & 0xff), a).astype(np.uint32)
        jobs.append((i, ns, nest, a, rng.choice(["G", "E", "C", "Q", "G", "C", "Galactic", "Equatorial"[:1], "CEL"]), rng.choice([1, 1, 2, 127, -1]), kind, "asan" if i % 10 == 0 else "plain"))
    B.driver_cached("hpxfits.c", "asan", fitsio=True)
    def go(j):
        i, ns, nest, a, cs, flag, kind, variant = j
        out = []
        ex = B.driver_cached("hpxfits.c", variant, fitsio=True)
        raw, back, f = "raw%d" % i, "back%d" % i, "map%d.fits" % i
        a.tofile(os.path.join(d, raw))
        wr = ["w", f, str(ns), str(flag if nest else 0), cs, raw]
        what = "nside %d %s %s (%s)" % (ns, "nested" if nest else "ring", cs, kind)
        rc, o, e = call(ex, wr, d)
        if rc: return [("write", what + ": writing fails (%s): %s" % (rc, e[-1500:]))]
        k = "C" if cs[0] == "Q" else cs[0]
        if k not in "GE": k = "C"
        hd, data = cards(os.path.join(d, f))
        exp = dict(NSIDE=str(ns), ORDERING="NESTED" if nest else "RING", COORDSYS=k, PIXTYPE="HEALPIX", TTYPE1="SIGNAL")
        bad = {x: hd.get(x) for x in exp if hd.get(x) != exp[x]}
        if bad: out.append(("header", what + ": header %r, expected %r" % (bad, exp)))
        raw_in_file = np.frombuffer(data[:4 * a.size], dtype=">u4")
        if raw_in_file.size != a.size or (raw_in_file != a).any(): out.append(("file", what + ": the pixel values in the file are not those of the map"))
        rc, o, e = call(ex, ["s", f], d)
        if rc or o != "%d|%d|%s" % (12 * ns * ns, ns, exp["ORDERING"]): out.append(("size", what + ": size query gives %r (%s) %s" % (o, rc, e[-800:])))
        def rd(tag, want):
            rc, o, e = call(ex, ["r", f, back], d)
            if rc or o != "%d|%s|%s" % (ns, exp["ORDERING"], k): return (tag, what + ": read back as %r (%s) %s" % (o, rc, e[-800:]))
            b = np.fromfile(os.path.join(d, back), dtype=np.uint32)
            if b.size != want.size or (b != want).any():
                w = int(np.flatnonzero(b != want)[0]) if b.size == want.size else -1
                return (tag, what + ": pixel %d of %d reads %s, written %s" % (w, want.size, hex(int(b[w])), hex(int(want[w]))))
        x = rd("values", a)
        if x: out.append(x)
        # a second write without the prefix is refused and leaves the file, with it the file is replaced
        a2 = a[::-1].copy(); a2.tofile(os.path.join(d, raw))
        old = open(os.path.join(d, f), "rb").read()
        rc, o, e = call(ex, wr, d)
        if rc == 0 or rc == 99 or rc < 0: out.append(("refuse", what + ": writing over an existing file ends with %s %s" % (rc, e[-800:])))
        elif open(os.path.join(d, f), "rb").read() != old: out.append(("refuse", what + ": a refused write changed the file"))
        wr[1] = "!" + f
        rc, o, e = call(ex, wr, d)
        if rc: out.append(("replace", what + ": replacing fails (%s): %s" % (rc, e[-800:])))
        else:
            x = rd("replace", a2)
            if x: out.append(x)
        for x in (raw, back, f):
            if os.path.exists(os.path.join(d, x)): os.unlink(os.path.join(d, x))
        return out
    for j, out in zip(jobs, pmap(go, jobs)):
        i, ns, nest, a, cs, flag, kind, variant = j
        c.ev((ns, nest, a.tobytes()[:64], i), 6); c.count("maps"); c.count("maps under the sanitizers", variant != "plain"); c.count("pixels", a.size)
        c.count("infinite, denormal or negative zero pixels", int((((a & 0x7f800000) == 0x7f800000) | (((a & 0x7f800000) == 0) & (a != 0))).sum()))
        for key, msg in out: c.violation(key, msg, nside=ns, nest=nest, coordsys=cs, values=[hex(int(v)) for v in a[:24]])
    c.sample(dict(nside=jobs[0][1], nested=jobs[0][2], first=[hex(int(v)) for v in jobs[0][3][:4]]))
