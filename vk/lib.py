"""Batch access to the library driver."""
import subprocess, os
from . import build as B

MODEL = {"SGP": 0, "SGP4": 1, "SGP8": 2, "SDP4": 3, "SDP8": 4}

class LibCrash(Exception):
    """The library stopped (signal / sanitizer) while executing command number .index."""
    def __init__(s, index, cmd, rc, err): s.index, s.cmd, s.rc, s.err = index, cmd, rc, err; Exception.__init__(s, "library stopped")

def F(x): return float.fromhex(x)

def batch(cmds, variant="plain", timeout=120, driver="lib.c"):
    """cmds: list of command texts (each gives exactly one answer line). Returns the list of answers split in words."""
    exe = B.driver_cached(driver, variant)
    env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC"}
    env.update(B.SAN_ENV)
    data = "".join(c + "\n" for c in cmds).encode("latin-1")
    for attempt in (0, 1):
        try:
            r = subprocess.run([exe], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
            break
        except subprocess.TimeoutExpired as x:
            if attempt:
                n = (x.stdout or b"").count(b"\n")
                raise LibCrash(n, cmds[min(n, len(cmds) - 1)], "timeout", "no answer within %d s" % timeout)
    out = r.stdout.decode("latin-1").split("\n")[:-1]
    if r.returncode or len(out) != len(cmds):
        n = len(out)
        raise LibCrash(n, cmds[min(n, len(cmds) - 1)], r.returncode, r.stderr.decode("latin-1")[-3000:])
    return [o.split(" ") for o in out]

def hpx(cmds, variant="plain", step=4000):
    """Answers of the HEALPix driver, several processes at a time."""
    from .run import pmap
    return [w for p in pmap(lambda a: batch(cmds[a:a + step], variant, driver="hpx.c"), range(0, len(cmds), step)) for w in p]
