import os, tempfile
from vk import hostile, build as B
from vk.hostile import jtext
from vk.run import run as run_, pmap

PROGS = ("sat_skymap", "sat_visibility")

def finite(x):
    """Every number of the document (strict parsing has refused the others)."""
    if isinstance(x, dict): return sum(finite(v) for v in x.values())
    if isinstance(x, list): return sum(finite(v) for v in x)
    return 1 if isinstance(x, (int, float)) and not isinstance(x, bool) else 0

NAMED = {"sat_skymap": (b"hEGHITV", b"adDijlnprsSt"), "sat_visibility": (b"hNT", b"adDijlrst")}
def options(prog, argv):
    """The options of the command line, in order."""
    sw, pa = NAMED[prog]; o, i = [], 0
    while i < len(argv):
        a = argv[i]
        if a[:1] == b"-":
            o.append(a[1:2])
            if len(a) == 2 and a[1:2] in pa: i += 1
            elif len(a) > 2 and a[1:2] in sw: o[-1] = b"?"
        i += 1
    return o

def without(argv, sw):
    """The command line without a switch."""
    out, i = [], 0
    while i < len(argv):
        a = argv[i]
        if a[:1] == b"-" and len(a) == 2 and a[1:2] in NAMED["sat_skymap"][1]: out += argv[i:i + 2]; i += 2; continue
        if a != sw: out.append(a)
        i += 1
    return out

def natural(v): return isinstance(v, int) and not isinstance(v, bool) and v >= 0

def judge(c, j, r, viol):
    """The report of one run against what every report must be. Returns the document, or None."""
    argv = j.argv
    if r.usage:
        # only when it was asked for, or without an observing site
        o = options(j.prog, argv)
        if b"h" in o or b"l" not in o: c.count("usage text"); return None
        viol("usage", "prints its usage text"); return None
    if r.rc < 0 or r.rc in (99, 134, 139): viol("stopped", "stopped with exit code %s: %r" % (r.rc, r.err[-300:])); return None
    d = r.json
    if d is None: viol("malformed", "standard output is not one JSON document (%s): %r ... %r" % (r.jerr, r.out[:60], r.out[-160:])); return None
    try: r.out.decode("utf8")
    except UnicodeDecodeError as x: viol("encoding", "the report is not UTF-8 text: %s" % x); return None
    if not isinstance(d, dict): viol("malformed", "the document is no object"); return None
    if r.out.count(b"\n") > 1 and not r.out.endswith(b"}\n"): viol("malformed", "text after the document"); return None
    c.count("numbers read", finite(d))
    cmd = " ".join([j.prog] + [jtext(a) for a in argv])
    if d.get("run_command") != cmd: viol("command", "run_command is %r, the command is %r" % (str(d.get("run_command"))[:300], cmd[:300])); return None
    if not isinstance(d.get("status"), int) or isinstance(d.get("status"), bool): viol("status", "status is %r" % (d.get("status"),)); return None
    if not isinstance(d.get("errmsg"), str): viol("message", "errmsg is %r" % (d.get("errmsg"),)); return None
    for k in ("n_sats_found",) + (("n_sats", "n_sunlit_sats") if j.prog == "sat_skymap" else ()):
        if not natural(d.get(k)): viol("counts", "%s is %r" % (k, d.get(k))); return None
    found = d["n_sats_found"]
    if j.prog == "sat_skymap":
        L = d.get("satellites")
        info = b"I" in options(j.prog, argv)
        if info and L is not None: viol("information only", "satellites listed with -I"); return None
        if L is not None and (not isinstance(L, list) or not L): viol("list", "satellites is %r" % (L,)); return None
        L = L or []
        if not info:
            if len(L) != found: viol("found", "%d satellites listed, n_sats_found %d" % (len(L), found)); return None
            lit = sum(1 for e in L if e["data"][8] == 1)
            if lit != d["n_sunlit_sats"]: viol("sunlit", "%d sunlit satellites listed, n_sunlit_sats %d" % (lit, d["n_sunlit_sats"])); return None
            if any(e["data"][8] not in (0, 1) for e in L): viol("sunlit", "sunlit flag %r" % [e["data"][8] for e in L]); return None
        elif d["n_sunlit_sats"] > found: viol("sunlit", "%d sunlit of %d" % (d["n_sunlit_sats"], found)); return None
        for e in L:
            if not (isinstance(e.get("name"), str) and isinstance(e.get("intl_desig"), str) and isinstance(e.get("norad_n"), int) and len(e["data"]) == 10): viol("object", "satellite object %r" % (e,)); return None
        c.count("satellites listed", len(L)); c.count("sunlit satellites counted", d["n_sunlit_sats"])
    else:
        S = d.get("satellite")
        if ("satellite" in d) != (found == 1) or found > 1: viol("found", "n_sats_found %d, satellite object %s" % (found, "present" if "satellite" in d else "absent")); return None
        if S is not None and not (isinstance(S, dict) and isinstance(S.get("name"), str) and isinstance(S.get("norad_n"), int) and "sat_start" in S and "sat_end" in S): viol("object", "satellite object %r" % (S,)); return None
        L = [S] if S else []; c.count("visibility objects", len(L))
    c.count("%s, status %d%s" % (j.prog, d["status"], ", satellites listed" if L else ""))
    if d["status"] and L: c.count("error after satellites were listed")
    if not j.mutated and "input_params" in d:
        f = argv[0] if argv[0][:1] != b"-" else argv[-1]
        if d["input_params"].get("tle_file") != jtext(f[1:] if f[:1] == b"@" else f): viol("file name", "tle_file is %r, given %r" % (d["input_params"].get("tle_file"), f)); return None
        c.count("file names compared")
    if j.names is not None:
        for e in L:
            w = jtext(j.names[e["norad_n"]][:24].rstrip())
            if e["name"] != w: viol("name", "satellite %d is named %r, the file says %r" % (e["norad_n"], e["name"], j.names[e["norad_n"]])); return None
            c.count("names compared")
    if j.must:
        what, t = j.must
        if what in ("open", "value"):
            if d["status"] == 0: viol("accepted", "%r accepted" % t); return None
            t = t if what == "open" else t[:60]
            # a character cut in the middle by the limited message is shown byte by byte
            if jtext(t) not in d["errmsg"] and not (len(j.must[1]) > 60 and jtext(t)[:-4] in d["errmsg"]): viol("message text", "the message %r does not show %r" % (d["errmsg"][:300], t)); return None
            c.count("texts in messages compared")
    if d["status"] and len(c.samples) < 6 and c.rng.random() < .01: c.sample(dict(argv=r.argv, status=d["status"], errmsg=d["errmsg"][:200], satellites=len(L)))
    return d

def run(c):
    c.rule = ("runs of both programs on hostile element files (extreme, corrupted, truncated, binary), hostile names of satellites, files, lists and directories, unusable option values, broken lists and mutated command lines; "
              "one evaluation per run: exactly one strict JSON document, echo, status, message, counts and texts compared; distinct = command line and directory content")
    rng = c.rng; root = tempfile.mkdtemp(dir=B.scratch())
    B.build("plain")
    J = hostile.jobs(rng, root, c.n(5000, 60000), worlds=c.n(6, 20))
    for prog in PROGS:
        for a in ([], ["-h"], ["-l"], ["-l10,20"], ["cat.txt"], [""], ["cat.txt", "-l10,20", "-h"], ["-"], ["@"], ["-l10,20", "@"], ["-l10,20", "cat.txt"], ["cat.txt", "-l10,20", "-s"]):
            J.append(hostile.Job(prog, a, J[0].cwd, "short"))
    runs = pmap(lambda j: run_(j.prog, j.argv, cwd=j.cwd, timeout=10 if j.mutated else 60), J)
    for j, r in zip(J, runs):
        c.ev((j.prog, tuple(j.argv), j.cwd)); c.count("runs: " + j.kind)
        viol = lambda key, m: c.violation(key, "%s: %s: %s" % (j.prog, m, r.shell()[:1500]), argv=r.argv, file=_file(j))
        if r.timeout and not (j.mutated and j.prog == "sat_visibility"):
            viol("hang", "no document within the time limit"); continue
        if r.timeout:
            c.count("runs without an end within the limit (no verdict here)"); continue
        judge(c, j, r, viol)
    # requests for information only count what the full report lists
    I = [(j, r) for j, r in zip(J, runs) if j.prog == "sat_skymap" and not r.timeout and isinstance(r.json, dict) and "sun" in r.json and b"I" in options(j.prog, j.argv)]
    I = [(j, r, a) for j, r in I for a in [without(j.argv, b"-I")] if a and (a[0][:1] == b"-") == (j.argv[0][:1] == b"-") and (a[0][:1] != b"-" or a[-1] == j.argv[-1])]  # the file stays where it is looked for
    for (j, r, a), f in zip(I, pmap(lambda x: run_("sat_skymap", x[2], cwd=x[0].cwd, timeout=60), I)):
        d, g = r.json, f.json
        if not isinstance(g, dict): continue                     # judged above on other runs
        c.ev((j.prog, tuple(a), j.cwd)); c.count("information-only reports compared with the full ones", bool(d["n_sats_found"])); c.count("sunlit satellites counted with -I", d["n_sunlit_sats"])
        for k in ("status", "n_sats_found", "n_sats", "n_sunlit_sats"):
            if d.get(k) != g.get(k): c.violation("information only", "sat_skymap: %s is %r with -I, %r without (%d listed): %s" % (k, d.get(k), g.get(k), len(g.get("satellites", ())), r.shell()[:1500]), argv=r.argv, file=_file(j)); break

def _file(j):
    """Content of the element file, for the replay."""
    for a in j.argv:
        p = os.path.join(j.cwd, a.lstrip(b"@"))
        try:
            if a and os.path.isfile(p): return open(p, "rb").read(20000).decode("latin-1")
        except (OSError, ValueError): pass
    return None
