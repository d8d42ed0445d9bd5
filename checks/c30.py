import os, re, subprocess, tempfile
from vk import gen, build as B
from vk.run import pmap

MAIN = "last-30-days stations visual active analyst weather noaa goes resource sarsat dmc tdrss argos spire geo iridium iridium-NEXT globalstar swarm amateur x-comm other-comm satnogs gorizont raduga molniya gnss gps-ops glo-ops galileo beidou sbas nnss musson science geodetic engineering education military radar cubesat other gpz gpz-plus".split()
SUPP = "starlink oneweb planet glonass meteosat intelsat ses telesat orbcomm cpf".split()
DEB = "1982-092 1999-025 iridium-33-debris cosmos-2251-debris".split()

def php(t):
    """The array as {key: number}, or None when the text is not one PHP array of numbers."""
    m = re.fullmatch(r"\s*<\?php\s*\$\w+\s*=\s*(?:array\s*\(|\[)(.*)(?:\)|\])\s*;\s*\?>\s*", t, re.S)
    if not m: return None
    body, out = m.group(1), {}
    items = [x.strip() for x in body.split(",")]
    if items and items[-1] == "": items.pop()                    # a last comma is allowed
    for x in items:
        q = re.fullmatch(r"""(?:"([^"$\\]*)"|'([^'\\]*)')\s*=>\s*(\d+(?:\.\d+)?)""", x)
        if not q: return None
        k = q.group(1) if q.group(1) is not None else q.group(2)
        if k in out: return None
        out[k] = float(q.group(3))
    return out

def script(d):
    """Copy of the script whose fixed log files lie in a scratch directory."""
    s = open(os.path.join(B.REPO, "scripts", "tle_satcount.sh"), errors="surrogateescape").read()
    p = os.path.join(d, "count.sh")
    open(p, "w", errors="surrogateescape").write(s.replace("/tmp/", d + "/log/").replace("/usr/local/TLErepo", d + "/default"))
    return p

def fill(rng, d, names, big):
    """Writes the files; returns {name: [numbers]}."""
    out = {}
    pool = [gen.norad_text(rng.choice([rng.randint(1, 99999), rng.randint(1, 99999), rng.randint(100000, 339999)])) for _ in range(rng.randint(1, 60))]
    for n in names:
        k = rng.choice([0, 1, 2, rng.randint(1, 40), rng.randint(1, 40), big])
        nums = [rng.choice(pool) if rng.random() < .6 else gen.norad_text(rng.randint(1, 99999)) for _ in range(k)]
        nl = rng.choice(["\r\n", "\n"]); t = ""
        proto = gen.make_sat(rng, 1, bstar=0, **gen.leo(rng))
        for x in nums:
            l1 = proto.l1[:2] + x + proto.l1[7:68]; l2 = proto.l2[:2] + x + proto.l2[7:68]
            t += rng.choice(["SAT " + x, "2 " + x, "1 2 3", "a.b|c 'd' \"e\" $f `g`", "ISS (ZARYA)", "0 NAME", "x" * 24]) + nl + l1 + gen.checksum(l1) + nl + l2 + gen.checksum(l2) + nl
        if t and rng.random() < .25: t = t[:-len(nl)]
        open(os.path.join(d, n + ".txt"), "w", newline="").write(t)
        out[n] = nums
    return out

def run(c):
    c.rule = ("directories with random subsets of the catalogue files (empty to thousands of entries, repeated numbers within and between files, LF and CRLF, with and without a last line ending, odd names), other files, results of earlier and "
              "interrupted runs and blanks in the path; log, number list and PHP array against the counts; one evaluation per number reported; distinct = (directory, item)")
    rng = c.rng; jobs = []
    for i in range(c.n(40, 400)):
        d = tempfile.mkdtemp(dir=B.scratch()); os.mkdir(d + "/log")
        td = os.path.join(d, rng.choice(["tle", "tle", "my tles", "a*b", "x.y", "default"])); os.mkdir(td)
        allf = MAIN + SUPP + DEB
        k = rng.random()
        if k < .3: names = allf
        elif k < .9: names = rng.sample(allf, rng.randint(1, len(allf)))
        else: names = rng.sample(rng.choice([DEB, MAIN, SUPP]), rng.randint(1, 4))
        have = fill(rng, td, names, rng.choice([200, 3000 if c.thorough else 500]))
        # files that are none of the catalogue's
        for n in ("readme", "supernew", "ALLsats.lis", "stations.bak"):
            if rng.random() < .5: open(os.path.join(td, n + ("" if "." in n else ".txt")), "w").write("X\n1 77777\n2 77777\n")
        if rng.random() < .4:
            # what an earlier or interrupted run left
            for n, t in [("cur_norad_ids.lis", "88888\n88889\n"), ("cur_norad_ids.lis_tmp", "88890\n88891\n"), ("cur_tlesat_count.php", "<?php old ?>\n"), ("../log/tle_satcount.log", "old 5\n"), ("../log/tle_satcount_deb.log", "old 7\n")]:
                if rng.random() < .7: open(os.path.join(td, n), "w").write(t)
        jobs.append((d, td, have, rng.random()))
    def go(j):
        d, td, have, q = j
        p = script(d)
        if os.path.basename(td) == "default" and q < .8: cmd, cwd = ["bash", p], d
        elif q < .3: cmd, cwd = ["bash", p, os.path.basename(td)], d
        else: cmd, cwd = ["bash", p, td], d + "/log"
        # the log directory is its working directory: a wrong cd does no harm
        return cmd, subprocess.run(cmd, cwd=cwd, env={"PATH": "/usr/bin:/bin", "LC_ALL": "C", "HOME": d}, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    for i, ((d, td, have, q), (cmd, r)) in enumerate(zip(jobs, pmap(go, jobs))):
        bad = lambda key, m: c.violation(key, "%s; files %r" % (m, {k: len(v) for k, v in have.items()}), cmd=cmd, stderr=r.stderr.decode("latin-1")[-2000:])
        def rd(p):
            try: return open(p, errors="surrogateescape").read()
            except OSError: return None
        log, deb, ids, ph = rd(d + "/log/tle_satcount.log"), rd(d + "/log/tle_satcount_deb.log"), rd(td + "/cur_norad_ids.lis"), rd(td + "/cur_tlesat_count.php")
        if None in (log, deb, ids, ph): bad("missing", "a file was not written: %r" % [k for k, v in (("log", log), ("debris log", deb), ("number list", ids), ("PHP", ph)) if v is None]); continue
        sats = {n: v for n, v in have.items() if n not in DEB}; debs = {n: v for n, v in have.items() if n in DEB}
        wl = {n: len(v) for n, v in sats.items()}; wd = {n: len(v) for n, v in debs.items()}
        uniq = sorted(set(x for v in sats.values() for x in v))
        for what, t, w in (("log", log, wl), ("debris log", deb, wd)):
            rows = [l.split() for l in t.split("\n") if l]
            c.ev((i, what), n=max(1, len(w)))
            if any(len(x) != 2 for x in rows) or len(set(x[0] for x in rows)) != len(rows) or {x[0]: x[1] for x in rows} != {k: str(v) for k, v in w.items()}:
                got = {x[0]: x[-1] for x in rows}; k = next((k for k in set(got) | set(w) if got.get(k) != str(w.get(k))), None)
                bad(what, "%s: %r has %r entries, %r reported" % (what, k, w.get(k), got.get(k))); break
        else:
            c.ev((i, "numbers")); c.count("distinct numbers", len(uniq)); c.count("numbers offered", sum(map(len, sats.values()))); c.count("files", len(have))
            g = [x.strip() for x in ids.split("\n") if x.strip()]
            if sorted(g) != uniq: bad("numbers", "number list has %d entries, %d expected; first difference %r" % (len(g), len(uniq), sorted(set(g) ^ set(uniq))[:3])); continue
            a = php(ph); c.ev((i, "php"), n=len(have) + 2)
            if a is None: bad("php", "not one PHP array: %r" % ph[:400]); continue
            w = dict(wl); w.update(wd); w["@ALL_merged_nodeb"] = len(uniq); w["@ALL_merged"] = len(uniq) + sum(wd.values())
            if a != w:
                k = next(k for k in set(a) | set(w) if a.get(k) != w.get(k)); bad("php:value", "PHP array says %r for %r, expected %r" % (a.get(k), k, w.get(k)))
            c.sample(dict(files=len(have), numbers=len(uniq), total=w["@ALL_merged"]))
