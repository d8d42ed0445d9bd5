import os, re, random, shutil, signal, subprocess, tempfile, threading, time, datetime
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import urlsplit, parse_qs
from vk import gen, build as B
from vk.run import pmap
from checks.c30 import php

MAIN = "last-30-days stations visual active analyst weather noaa goes resource sarsat dmc tdrss argos spire geo iridium iridium-NEXT globalstar swarm amateur x-comm other-comm satnogs gorizont raduga molniya gnss gps-ops glo-ops galileo beidou sbas nnss musson science geodetic engineering education military radar cubesat other".split()
SUPP = "starlink oneweb planet iridium gps glonass meteosat intelsat ses telesat orbcomm iss cpf".split()
DEB = "1982-092 1999-025 iridium-33-debris cosmos-2251-debris".split()
SPECIAL = "gpz gpz-plus".split()
COLL = [("GROUP", n, n) for n in MAIN] + [("FILE", n, {"iridium": "iridium-NEXT", "gps": "gps-ops"}.get(n, n)) for n in SUPP] + \
       [("GROUP", n, n) for n in DEB] + [("SPECIAL", n, n) for n in SPECIAL]
KEYS = {"science": "HST CXO GLAST SWIFT NUSTAR AGILE INTEGRAL ASTROSAT HXMT XMM WISE SDO IXPE".split(), "stations": ["ZARYA"], "active": ["CHEOPS", "TESS"]}
DAILY = {"gaia_2025": "GAIA", "jwt_2025": "JAMES WEBB", "euclid_2025": "EUCLID", "juice_2024": "JUICE"}
PLAIN = ["ISS (ZARYA)", "HST", "SWIFT", "AGILE", "XMM", "XMM-NEWTON (XMM)", "WISE", "SDO", "IXPE", "CXO", "GLAST (FGRST)", "FGRST (GLAST)", "NEOWISE", "ISS (ZARYA) 2", "NUSTAR", "INTEGRAL", "ASTROSAT", "HXMT (HUIYAN)", "CHEOPS", "TESS",
         "NOAA 15", "COSMOS 2251 DEB", "Tess lower", "hst", "STARLINK-1007", "POISK", "SWOT", "ZARIA", "XM-3", "ICON", "METOP-B", "0 X", "FALCON 9 R/B", "BEHIND HST", "OBJECT HST 2", "2 IXPE", "OLD ISS ZARYA", "THE TESS", "MINI CHEOPS", "MY SWIFT"]

class Site(ThreadingHTTPServer):
    """Stands in for the CelesTrak server; answers by the plan {(kind, name): (how, body)}."""
    daemon_threads = True; request_queue_size = 64
    def __init__(s, plan):
        s.plan, s.seen, s.lock = plan, [], threading.Lock()
        super().__init__(("127.0.0.1", 0), Answer)
        threading.Thread(target=s.serve_forever, kwargs={"poll_interval": .05}, daemon=True).start()
    def handle_error(s, *a): pass

class Answer(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"
    def log_message(s, *a): pass
    def page(s, code, body, **h):
        s.send_response(code); s.send_header("Content-Length", str(len(body)))
        for k, v in h.items(): s.send_header(k, v)
        s.end_headers(); s.wfile.write(body); s.close_connection = True
    def do_GET(s):
        u = urlsplit(s.path); q = {k: v[0] for k, v in parse_qs(u.query).items()}
        host = s.headers.get("Host", "").split(":")[0].replace("www.", "")
        moved = u.path.startswith("/moved"); path = u.path[6:] if moved else u.path
        kind = {"/NORAD/elements/gp.php": ("GROUP", "SPECIAL"), "/NORAD/elements/supplemental/sup-gp.php": ("FILE", "SOURCE")}.get(path, ())
        key = next(((k, q[k]) for k in kind if k in q), None)
        with s.server.lock: s.server.seen.append((host, key, moved))
        how, body = s.server.plan.get(key, ("404", b"")) if host in ("celestrak.com", "celestrak.org") and q.get("FORMAT", "").lower() == "tle" else ("404", b"")
        err = b"<html><body>Invalid query: no data found\r\n</body></html>\r\n"
        s.close_connection = True
        if how == "ok": s.page(200, body)
        elif how == "moved": s.page(200, body) if moved else s.page(random.choice([301, 302, 307]), err, Location="http://%s/moved%s" % (s.headers["Host"], s.path))
        elif how == "movederr": s.page(503, err) if moved else s.page(301, err, Location="http://%s/moved%s" % (s.headers["Host"], s.path))
        elif how == "chunked":
            s.send_response(200); s.send_header("Transfer-Encoding", "chunked"); s.end_headers()
            for i in range(0, len(body), 700):
                b = body[i:i + 700]; s.wfile.write(b"%x\r\n%s\r\n" % (len(b), b))
            s.wfile.write(b"0\r\n\r\n")
        elif how == "cut" or how == "stall":           # announced in full, but ends early
            s.send_response(200); s.send_header("Content-Length", str(len(body) + 500)); s.end_headers()
            s.wfile.write(body[:max(1, len(body) * 2 // 3)]); s.wfile.flush()
            if how == "stall": time.sleep(400)
        elif how == "cutchunk":
            s.send_response(200); s.send_header("Transfer-Encoding", "chunked"); s.end_headers()
            b = body[:max(1, len(body) // 2)]; s.wfile.write(b"%x\r\n%s\r\n" % (len(b) + 300, b)); s.wfile.flush()
        elif how == "drop": pass                        # closed without an answer
        else: s.page(int(how), err if how != "204" else b"")

GOOD = ["ok", "ok", "ok", "chunked", "moved"]
BAD = ["404", "403", "500", "503", "429", "cut", "cut", "cutchunk", "drop", "movederr", "204"]

def entries(rng, pool, n, keyed):
    out = []
    for _ in range(n):
        l1, l2 = rng.choice(pool); name = rng.choice(PLAIN)
        if rng.random() < .5: name = "%s-%d" % (name, rng.randint(1, 99))
        out.append((name.ljust(24)[:24] if rng.random() < .7 else name[:24], l1, l2))
    return "".join("%s\r\n%s\r\n%s\r\n" % e for e in out).encode()

def sets(t):
    """(name, line 1, line 2) of a file's complete entries; comments dropped."""
    L = [l.rstrip("\r\n").rstrip() for l in t.split("\n")]; L = [l for l in L if l and l[0] != "#"]
    return [tuple(L[i:i + 3]) for i in range(0, len(L) - 2, 3)] if len(L) % 3 == 0 else None

def daily(t):
    """{day: (line 1, line 2)} of a file of daily state vectors."""
    d = {}; L = t.replace("\r", "").split("\n")
    for i, l in enumerate(L):
        m = re.match(r"# MJD (\d+)", l)
        if m: d.setdefault(int(m.group(1)), []).append((L[i + 2], L[i + 3]))
    return d

CURL = """#!/bin/bash
# the real curl, led to the server of this run
a=(); for x in "$@"; do a+=("${x//https:/http:}"); done
exec /usr/bin/curl --noproxy '*' --connect-to "::127.0.0.1:$SITE_PORT" "${a[@]}"
"""
DATE = """#!/bin/bash
# the real date, at a given time
exec /usr/bin/date -u -d "@$SITE_TIME" "$@"
"""

def prepare(d):
    for x in ("log", "bin", "stub", "cwd"): os.mkdir(os.path.join(d, x))
    def put(p, t):
        with open(p, "w", errors="surrogateescape") as f: f.write(t)
        os.chmod(p, 0o755)
    sub = lambda t: t.replace("/tmp/", d + "/log/").replace("/usr/local/TLErepo", d + "/default").replace("/usr/local/bin", d + "/bin")
    rd = lambda n: open(os.path.join(B.REPO, "scripts", n), errors="surrogateescape").read()
    put(d + "/bin/tle_retrieve.sh", sub(rd("tle_retrieve.sh"))); put(d + "/bin/tle_satcount.sh", sub(rd("tle_satcount.sh")))
    put(d + "/stub/curl", CURL); put(d + "/stub/date", DATE)

def start(d, argv, cwd, port, now):
    env = {"PATH": d + "/stub:/usr/bin:/bin", "LC_ALL": "C", "HOME": d, "TMPDIR": d + "/log", "SITE_PORT": str(port), "SITE_TIME": str(now), "TZ": "UTC"}
    k = dict(user=65534, group=65534, extra_groups=[]) if os.geteuid() == 0 else {}
    if k:
        for r, ds, fs in os.walk(d):
            for x in ds + fs: os.lchown(os.path.join(r, x), 65534, 65534)
        os.chown(d, 65534, 65534)
    return subprocess.Popen(["bash", d + "/bin/tle_retrieve.sh"] + argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, **k)

def finish(p, limit):
    try: return p.communicate(timeout=limit) + (False,)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); return p.communicate() + (True,)

def snapshot(td):
    out = {}
    for n in sorted(os.listdir(td)):
        p = os.path.join(td, n)
        if os.path.isfile(p): out[n] = open(p, "rb").read()
    return out

def one(j):
    """Runs one history; returns [(key, message)], counters."""
    rng = random.Random(j["seed"]); V, N = [], {}
    cnt = lambda k, n=1: N.__setitem__(k, N.get(k, 0) + n)
    pool = j["pool"]; d = tempfile.mkdtemp(dir=B.scratch()); os.chmod(d, 0o755)
    prepare(d)
    form = j["form"]
    td = d + "/default" if form == "none" else d + "/cwd/" + ("my tles" if form == "blank" else "tle")
    if form != "missing": os.mkdir(td)
    keep = {"notes.lis": b"mine\n", "my.txt": b"SAT\n1\n2\n"}
    for n, t in keep.items(): open(d + "/cwd/" + n, "wb").write(t)
    if form == "missing":
        # names the script works with, in the directory it was called from
        for n in ("gps.txt", "gaia_2025.txt", "science.txt", "special.txt"): keep[n] = ("kept %s\n" % n).encode(); open(d + "/cwd/" + n, "wb").write(keep[n])
    argv = {"none": [], "abs": [td], "blank": [td], "rel": ["tle"], "missing": [td]}[form]
    now = j["now"]; day = now // 86400 + 40587
    if form != "missing":
        for n in DAILY:
            if rng.random() < .85: shutil.copy(os.path.join(B.REPO, "scripts", n + ".txt"), td)
        if rng.random() < .5: open(td + "/my.txt", "wb").write(keep["my.txt"])
        if rng.random() < .5: open(td + "/special.txt", "wb").write(b"OLD SPECIAL\n1 X\n2 X\n")
        if rng.random() < .4: open(td + "/tle.tmp", "wb").write(b"LEFT OVER\n1 X\n2 X\n")
        if rng.random() < .7:
            for n in set(x[2] for x in COLL):
                if rng.random() < .7: open(td + "/%s.txt" % n, "wb").write(entries(rng, pool, rng.randint(1, 8), n))
    for step in range(j["runs"]):
        last = step == j["runs"] - 1
        plan = {}
        pg = rng.choice([1, 1, .9, .6, .3, 0])
        for kind, n, f in COLL:
            how = rng.choice(GOOD) if rng.random() < pg else rng.choice(BAD)
            plan[kind, n] = (how, entries(rng, pool, rng.choice([1, 2, 5, 30, 200 if n in ("active", "science", "starlink") else 20]), n))
        if j["stall"] and last:
            i = len(MAIN); k = len(SUPP)
            for part in [(COLL[:i], COLL[i:i + k]), (COLL[i + k:-2], COLL[-2:])][j["stall"] - 1]:
                kind, n, f = rng.choice(part); plan[kind, n] = ("stall", plan[kind, n][1])
        site = Site(plan)
        before = snapshot(td) if form != "missing" else {}
        p = start(d, argv, d + "/cwd", site.server_port, now)
        killed = not last and rng.random() < .8
        if killed:
            time.sleep(rng.uniform(.02, 1.2)) ; 
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
        out, err, late = finish(p, 200)
        site.shutdown(); site.server_close()
        show = "argument %r, %s, previous files %d" % (form, "run %d of %d" % (step + 1, j["runs"]), len(before))
        bad = lambda k, m: V.append((k, "%s (%s)" % (m, show), err.decode("latin-1")[-600:]))
        if late: bad("time", "did not end within 200 s"); return V, N
        cnt("runs killed part way" if killed else "runs to the end"); cnt("requests answered", len(site.seen))
        for n, t in keep.items():
            q = d + "/cwd/" + n
            if not os.path.exists(q) or open(q, "rb").read() != t: bad("foreign", "%r in the directory it was called from was changed" % n); return V, N
        if form == "missing":
            x = sorted(set(os.listdir(d + "/cwd")) - set(keep))
            if x: bad("foreign", "%r appeared in the directory it was called from although the given directory does not exist" % x[:4])
            return V, N
        after = snapshot(td)
        ok = lambda k: plan[k][0] in ("ok", "chunked", "moved")
        # every collection: the file of the last complete answer, else as before
        cand = {}
        for kind, n, f in COLL: cand.setdefault(f, []).append((kind, n))
        for f, ks in sorted(cand.items()):
            if f == "gps-ops" and killed: pass
            old = before.get(f + ".txt"); got = after.get(f + ".txt")
            good = [k for k in ks if ok(k)]
            want = [plan[good[-1]][1]] if good else [old]
            if killed: want = [old] + [plan[k][1] for k in good]
            cnt("collections judged"); cnt("collections not retrieved" if not good else "collections retrieved")
            if got not in want:
                who = [(k, plan[k][0]) for k in ks]
                part = next((k for k in ks if got and not ok(k) and plan[k][1].startswith(got)), None)
                t = "a part of it" if part else "an error page" if got and b"<html" in got else "the previous one" if got == old else "missing" if got is None else repr(got[:60])
                bad("file", "%s.txt is %s; answers %r" % (f, t, who)); return V, N
        for n in before:
            if n.endswith(".txt") and n[:-4] not in cand and n not in ("special.txt", "gps.txt") and after.get(n) != before[n]: bad("foreign", "%r was changed" % n); return V, N
        if killed: continue
        new = sorted(n for n in after if n.endswith(".txt") and n not in before and n[:-4] not in cand and n != "special.txt")
        if new: bad("file", "unexpected files %r" % new); return V, N
        # the special satellites
        want = []
        for f, ks in KEYS.items():
            for s in sets(after.get(f + ".txt", b"").decode("latin-1")) or []:
                if any(k in s[0] for k in ks): want.append(tuple(x.rstrip() for x in s))
        sp = after.get("special.txt"); got = sets(sp.decode("latin-1")) if sp is not None else None
        if got is None: bad("special", "special.txt is missing or not made of complete entries: %r" % (sp and sp[:200])); return V, N
        rest = list(got)
        if b"\r" in sp: bad("special", "special.txt has carriage returns: %r" % sp[:80]); return V, N
        for s in want:
            if s not in rest: bad("special", "special.txt lacks %r" % (s,)); return V, N
            rest.remove(s); cnt("special satellites")
        for f, name in DAILY.items():
            t = after.get(f + ".txt"); mine = [s for s in rest if s[0] == name]; rest = [s for s in rest if s[0] != name]
            days = daily(t.decode("latin-1")) if t is not None else {}
            may = [x for q in (day, day + 1) for x in days.get(q, [])]
            if any(s[1:] not in [tuple(y.rstrip() for y in x) for x in may] for s in mine) or len(mine) > 1 or (len(mine) < 1 and day in days and day + 1 in days):
                bad("daily", "special.txt of MJD %d has %r for %s; that day's and the next day's are %r" % (day, mine, name, may)); return V, N
            cnt("daily state vectors", len(mine))
        if rest: bad("special", "special.txt has %r, which is not among the special satellites" % (rest[0],)); return V, N
        # the log
        log = open(d + "/log/tle_retrieve.log", errors="replace").read() if os.path.exists(d + "/log/tle_retrieve.log") else ""
        said = sorted((n, "fail" not in w.lower()) for n, w in re.findall(r"===> (?:SPECIAL )?(\S+) \.\.\.\s*([^\n]*)", log))
        true = sorted((n, ok((k, n))) for k, n, f in COLL)
        if said != true:
            x = next((a for a in set(said) ^ set(true)), None)
            bad("log", "the log says %r, true is %r" % ([a for a in said if x and a[0] == x[0]], [a for a in true if x and a[0] == x[0]])); return V, N
        # the count
        cp = after.get("cur_tlesat_count.php"); a = php(cp.decode("latin-1")) if cp is not None else None
        if a is None: bad("count", "no satellite count of the retrieved files was made"); return V, N
        for n in a:
            if n[0] == "@": continue
            t = after.get(n + ".txt")
            if t is None or a[n] != t.count(b"\n") / 3: bad("count", "the count says %r for %s, which has %r lines" % (a[n], n, t and t.count(b"\n"))); return V, N
            cnt("file counts compared")
        bad_hosts = [x for x in site.seen if x[0] not in ("celestrak.com", "celestrak.org") or x[1] is None]
        cnt("requests of no known collection", len(bad_hosts))
    shutil.rmtree(d, ignore_errors=True)
    return V, N

def lists(c):
    """The lists shipped with the program name files that are retrieved."""
    names = set(x[2] for x in COLL) | {"special"}
    for l, deb in (("ALL_merged.lis", True), ("ALL_merged_nodeb.lis", False)):
        rows = [x.strip() for x in open(os.path.join(B.REPO, l)) if x.strip() and x[0] != "#"]
        for x in rows:
            c.ev((l, x)); c.count("names in the shipped lists")
            n = x[:-4] if x.endswith(".txt") else x
            if n not in names: c.violation("list", "%s names %s, which the script does not retrieve" % (l, x)); break
            if not deb and n in DEB: c.violation("list", "%s names the debris file %s" % (l, x)); break
        if len(set(rows)) != len(rows): c.violation("list", "%s names a file twice" % l)
        if not rows: c.violation("list", "%s is empty" % l)
        if deb:
            for n in DEB:
                if n + ".txt" not in rows: c.violation("list", "%s lacks the debris file %s.txt" % (l, n)); break

def run(c):
    c.rule = ("the retrieval script with the real curl led to a local server that answers each collection with a complete file (also redirected or chunked), error pages, transfers cut short, dropped and stalled connections; directories in several forms and "
              "with earlier files; runs killed at random moments and repeated; dates over the years of the daily state vectors; after each run every file, special.txt, the log and the count against the server's ledger; one evaluation per collection")
    rng = c.rng
    pool = []
    for i in range(60):
        s = gen.make_sat(rng, rng.randint(1, 99999), bstar=0, **gen.leo(rng)); pool.append((s.l1, s.l2))
    jobs = []
    t0 = (60676 - 40587) * 86400
    for i in range(c.n(40, 500)):
        now = t0 + int(rng.uniform(-245, 364) * 86400)
        if rng.random() < .25: now = now // 86400 * 86400 + rng.choice([0, 1, 43199, 43200, 86399])
        jobs.append(dict(seed=rng.random(), pool=pool, now=now, form=["none", "abs", "abs", "rel", "blank", "missing"][i % 6] if i < 12 else rng.choice(["none", "abs", "abs", "rel", "blank", "missing"]),
                         runs=rng.choice([1, 1, 2, 3]), stall={1: 1, 2: 2}.get(i % 20, 0)))
        if jobs[-1]["stall"]: jobs[-1]["form"] = "abs"
    lists(c)
    for i, (V, N) in enumerate(pmap(one, jobs)):
        for k, n in N.items(): c.count(k, n)
        c.ev(jobs[i]["seed"], n=max(1, N.get("collections judged", 1)))
        if i < 3: c.sample(dict(form=jobs[i]["form"], runs=jobs[i]["runs"], **N))
        for k, m, err in V: c.violation(k, m, job={k: v for k, v in jobs[i].items() if k != "pool"}, stderr=err)
