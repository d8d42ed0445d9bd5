import os
from vk import gen, ref, sky
from vk.run import run as run_, pmap

def sat(rng, num, mjd, name=None):
    y, d = gen.epoch_for(mjd, rng, 2)
    el = gen.leo(rng, rng.choice(["circ", "high"])) if rng.random() < .8 else gen.deep(rng, "geo")
    return gen.make_sat(rng, num, year=y, doy=d, name=name, bstar=0, **el)

def eol(rng): return rng.choice(["\n", "\n", "\r\n"])

def write_cat(path, sats, rng, nl):
    t = "".join(x.text for x in sats).replace("\n", nl)
    if rng.random() < .3: t = t[:-len(nl)]                  # no line ending after the last line
    with open(path, "w", newline="") as f: f.write(t)

def write_list(path, rows, rng):
    nl = eol(rng)
    out = []
    for r in rows:
        while rng.random() < .25: out.append(rng.choice(["# comment", "", "#", "# %s" % r, "   ", "##", "## %s" % r, "#%s" % r, "\t"]))
        out.append(r + rng.choice(["", "", "", "  ", "\t"]))
    t = nl.join(out) + (nl if rng.random() < .7 else "")
    with open(path, "w", newline="") as f: f.write(t)

def run(c):
    c.rule = ("catalogues of random sequences of element sets with repeated numbers (same number, different elements and name) spread over several files named by list files with "
              "comments, blank rows and LF/CRLF endings, plus catalogues of up to tens of thousands of sets; one evaluation per (run, listed or expected entry); "
              "distinct = runs with a repeated number, a cap that cuts, or several files")
    rng = c.rng
    B = sky.B
    jobs = []
    import tempfile
    for i in range(c.n(90, 1200)):
        mjd = round(rng.uniform(54000, 61000), 5)
        obs = sky.pick_obs(rng)
        d = tempfile.mkdtemp(dir=B.scratch())
        nn = rng.randint(3, 40)
        pool = []
        for k in range(nn):
            num = rng.choice([rng.randint(1, 99999), rng.randint(1, 99999), rng.randint(100000, 339999), rng.randint(12340, 12349), rng.randint(0, 9) * 11111])
            pool.append(num)
        files, order = [], []
        nf = rng.choice([1, 1, 2, 3, 6])
        lib = {}
        cnt = 0
        for f in range(nf):
            sats = []
            for k in range(rng.randint(1, 30)):
                if lib and rng.random() < .25: sats.append(rng.choice(list(lib.values())))
                else:
                    cnt += 1
                    x = sat(rng, rng.choice(pool), mjd, "OBJ-%d" % cnt); lib[cnt] = x; sats.append(x)
            fn = rng.choice(["f%d.txt", "f%d.txt", "f%d.txt", " f%d.txt", "f#%d.txt", "f%d #x y.txt", "sub/f%d.txt", "g%d" + "-" * rng.randint(80, 240), "long%d/" + "x" * 150 + "/" + "y" * 200, "-f%d", "@f%d", "%d", ";f%d", "!%d", "1 %d", "2 %d.txt", "%d\"", "f%d,x", "~%d", "*f%d"]) % f
            os.makedirs(os.path.dirname(os.path.join(d, fn)), exist_ok=True)
            write_cat(os.path.join(d, fn), sats, rng, eol(rng))
            files.append((fn, sats))
        if nf == 1 and rng.random() < .5:
            rows, arg = [files[0]], files[0][0] if files[0][0][0] not in "-@" else "./" + files[0][0]
        else:
            rows = [rng.choice(files) for _ in range(rng.randint(1, 2 * nf))]
            if rng.random() < .3: rows = files
            write_list(os.path.join(d, "the.lis"), [r[0] for r in rows], rng)
            arg = "@the.lis"
        seen, want = set(), []
        for fn, sats in rows:
            for x in sats:
                if x.num in seen: continue
                seen.add(x.num); want.append(x)
        cap = rng.choice([None, None, None, 0, -1, -5, 1, 2, len(want), len(want) - 1, len(want) + 1, rng.randint(1, 60), rng.randint(1, 30000) * 65536 + rng.randint(1, max(1, len(want))), 2 ** rng.randint(8, 30) + rng.randint(-1, max(0, len(want) - 1)), 10 ** rng.randint(4, 9), 2147483647])
        mode = rng.choice(["-S", "-H", "region", "-E"])
        args = {"-S": ["-S", ""], "-H": ["-H", "-r200"], "region": ["-H", "-r%d" % rng.randint(40, 120)], "-E": ["-E", "-H", "-r%d" % rng.randint(40, 120)]}[mode]
        if rng.random() < .2: args.append("-I")
        if rng.random() < .3: args.append("-G")
        if cap is not None: args.append("-n%d" % cap)
        rng.shuffle(args) if "-S" not in args else None
        a = ["-l" + obs.arg, "-j%.5f" % mjd]
        a = a + args + [arg] if rng.random() < .4 else [arg] + a + args
        jobs.append(dict(d=d, argv=a + (["-D", d] if False else []), want=want, cap=cap, mode=mode, mjd=mjd, obs=obs, args=args, dup=sum(len(s) for f, s in rows) - len(want), rows=len(rows)))
    # large catalogues: beyond the default cap and beyond every internal buffer size
    for big in ([1500, 13000, 23500, 34000] if not c.thorough else [1001, 11666, 11667, 11668, 13333, 13334, 15001, 40000, 70000]):
        mjd = 58000.5
        d = tempfile.mkdtemp(dir=B.scratch())
        proto = [sat(rng, 1, mjd) for _ in range(7)]
        sats = []
        for k in range(big):
            p = proto[k % 7]
            num = gen.norad_text(k + 5 if k < 60000 else 100000 + k)
            l1 = p.l1[:2] + num + p.l1[7:68]; l2 = p.l2[:2] + num + p.l2[7:68]
            sats.append(gen.Sat(name="B%d" % k, name_line="B%d" % k, l1=l1 + gen.checksum(l1), l2=l2 + gen.checksum(l2), num=num, norad=k + 5 if k < 60000 else 100000 + k, el=p.el, etype="0", forced_deep=None))
        second = rng.sample(sats, big // 3) + sats[-5:] + sats[:5]
        write_cat(os.path.join(d, "a.txt"), sats, rng, "\n")
        write_cat(os.path.join(d, "b.txt"), second, rng, "\n")
        with open(os.path.join(d, "x.lis"), "w") as f: f.write("a.txt\nb.txt\n")
        obs = sky.Obs(10.0, 20.0, 0.0)
        caps = [None, 0] if big < 13000 else [2147483647 if big % 2 else 1000000, 0] if big < 20000 else [0, big - 3]
        for cap in caps:
            args = ["-H", "-r200"] + (["-n%d" % cap] if cap is not None else [])
            jobs.append(dict(d=d, argv=["@x.lis", "-l" + obs.arg, "-j%.5f" % mjd] + args, want=sats, cap=1000 if cap is None else cap, mode="big", mjd=mjd, obs=obs, args=args, dup=len(second), rows=2))
    runs = pmap(lambda j: run_("sat_skymap", j["argv"], cwd=j["d"], timeout=300), jobs)
    for k, (j, rn) in enumerate(zip(jobs, runs)):
        if not sky.ok_report(c, rn, "run"): continue
        want, cap = j["want"], j["cap"] if j["cap"] is not None else 1000
        unsure = set()
        if j["mode"] in ("region", "-E"):
            r = [float(a[2:]) for a in j["args"] if a.startswith("-r")][0]
            keep = []
            from checks import c03, c04
            for x in want:
                e = sky.expected(x, j["obs"], j["mjd"])
                if e.err is not None: unsure.add(x.num); continue
                if j["mode"] == "-E": d0, m = c04.dist(e, j["obs"], True), c04.slack(e, True); ins = d0 <= r; near = abs(d0 - r) < m
                else:
                    ra0, de0 = ref.wrap360(e.gmst * 15 + j["obs"].lon), j["obs"].lat
                    d0, d1 = c03.seps(e, ra0, de0, True, False), c03.seps(e, ra0, de0, True, True)
                    m = max(c03.slack(e, True, False), c03.slack(e, True, True))
                    ins = d0 <= r or d1 <= r; near = abs(d0 - r) < m or abs(d1 - r) < m
                if near: unsure.add(x.num)
                elif ins: keep.append(x)
            want = keep
            if unsure: c.count("runs not judged (satellite on the border)"); continue
        elif j["mode"] != "big":
            if any(sky.expected(x, j["obs"], j["mjd"]).err is not None for x in want): c.count("runs not judged (no position)"); continue
        if cap > 0: full = want; want = want[:cap]
        exp = [(x.norad, x.name) for x in want]
        rep = rn.json
        got = [(x["norad_n"], x["name"]) for x in rep.get("satellites", [])]
        c.ev(k if j["dup"] or j["rows"] > 1 or (cap > 0 and len(full) > len(want)) else None, n=max(1, len(exp)))
        c.count("runs"); c.count("repeated element sets offered", j["dup"])
        if j["mode"] == "big": c.count("largest catalogue", 0); c.counters["largest catalogue"] = max(c.counters["largest catalogue"], len(j["want"]))
        if cap > 0 and len(full) > len(want): c.count("runs cut by the cap")
        if len(set(x[0] for x in got)) != len(got):
            c.violation("repeated", "a catalogue number is listed twice: %s" % rn.shell(), argv=rn.argv, cwd_files=os.listdir(j["d"]))
        elif "-I" in j["args"]:
            if got or rep["n_sats_found"] != len(exp): c.violation("count", "%d found (expected %d) with -I: %s" % (rep["n_sats_found"], len(exp), rn.shell()), argv=rn.argv)
        elif got != exp:
            i = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
            c.violation("sequence", "entry %d is %r, expected %r (%d listed, %d expected): %s" % (i, got[i:i + 1], exp[i:i + 1], len(got), len(exp), rn.shell()), argv=rn.argv,
                        files={f: open(os.path.join(j["d"], f), errors="replace").read()[:20000] for f in os.listdir(j["d"]) if os.path.isfile(os.path.join(j["d"], f))})
        elif rep["n_sunlit_sats"] != sum(x["data"][8] for x in rep.get("satellites", [])): c.violation("sunlit", "n_sunlit_sats %r, %d flagged sunlit among %d: %s" % (rep["n_sunlit_sats"], sum(x["data"][8] for x in rep.get("satellites", [])), len(got), rn.shell()), argv=rn.argv)
        elif not (rep["n_sats_found"] == rep["n_sats"] == len(exp)):
            c.violation("count", "n_sats_found %r, n_sats %r but %d listed: %s" % (rep["n_sats_found"], rep["n_sats"], len(exp), rn.shell()), argv=rn.argv)
        if k % 30 == 0: c.sample(dict(argv=rn.argv, listed=len(got), duplicates=j["dup"], rows=j["rows"]))
