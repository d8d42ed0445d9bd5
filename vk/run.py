"""Runs the real programs and records what they did."""
import os, json, subprocess, re, resource
from concurrent.futures import ThreadPoolExecutor
from . import build as B

class Run:
    __slots__ = ("prog", "argv", "cwd", "rc", "out", "err", "timeout", "_json", "jerr", "variant")
    def __init__(s, prog, argv, cwd, rc, out, err, timeout, variant):
        s.prog, s.argv, s.cwd, s.rc, s.out, s.err, s.timeout, s.variant = prog, argv, cwd, rc, out, err, timeout, variant
        s._json = None; s.jerr = None
    @property
    def text(s): return s.out.decode("utf8", "surrogateescape")
    @property
    def usage(s): return s.out.startswith(b"Usage:")
    @property
    def json(s):
        if s._json is None and s.jerr is None:
            try:
                s._json = strict_json(s.text)
            except ValueError as e:
                s.jerr = str(e)
        return s._json
    @property
    def crashed(s):
        """A signal or a sanitizer report."""
        return s.rc < 0 or s.rc == 99 or b"runtime error:" in s.err or b"ERROR: AddressSanitizer" in s.err \
            or b"WARNING: MemorySanitizer" in s.err
    def shell(s):
        import shlex
        return " ".join(shlex.quote(a) for a in [s.prog] + list(s.argv))

def _noconst(x): raise ValueError("non-finite number " + x)
def _pairs(p):
    d = {}
    for k, v in p:
        if k in d: raise ValueError("duplicate key " + k)
        d[k] = v
    return d
def _float(x):
    v = float(x)
    if v != v or v in (float("inf"), float("-inf")): raise ValueError("number out of range " + x[:40])
    return v
def strict_json(t):
    return json.loads(t, parse_constant=_noconst, object_pairs_hook=_pairs, parse_float=_float)

HANGS = []       # runs that did not end within a generous limit: after 16 of them the others are not tried
def run(prog, argv, cwd=None, variant="plain", timeout=60, env=None, maxout=200_000_000):
    exe = B.exe(prog, variant)
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC"}
    if variant != "plain": e.update(B.SAN_ENV)
    if env: e.update(env)
    argv = [a if isinstance(a, bytes) else a.encode("utf8", "surrogateescape") for a in argv]
    if len(HANGS) >= 16:
        return Run(prog, [a.decode("utf8", "surrogateescape") for a in argv], cwd, -999, b"", b"not run: many runs before did not end", True, variant)
    try:
        r = subprocess.run([prog.encode()] + argv, executable=exe, cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        rc, out, err, to = r.returncode, r.stdout, r.stderr, False
    except subprocess.TimeoutExpired as x:
        rc, out, err, to = None, x.stdout or b"", x.stderr or b"", True
        if timeout >= 60: HANGS.append(argv)
    return Run(prog, [a.decode("utf8", "surrogateescape") for a in argv], cwd, -999 if to else rc, out[:maxout], err[:200000], to, variant)

WORKERS = 8
def pmap(f, items, workers=None):
    with ThreadPoolExecutor(workers or WORKERS) as ex:
        return list(ex.map(f, items))
