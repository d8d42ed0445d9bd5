"""Builds the code under test from /repo's working tree into a scratch directory, in several variants."""
import os, shutil, subprocess, tempfile, atexit, threading

REPO = os.environ.get("VK_REPO", "/repo")
_scratch = None
TAG = ""          # set in a forked round: what it builds itself gets a name of its own

class HarnessError(Exception):
    """The check itself could not work: ends with exit 2, never with a verdict."""

class BuildError(HarnessError):
    pass

def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vk_")
        os.chmod(_scratch, 0o755)
        me = os.getpid()
        def clean(d=_scratch):
            if os.getpid() == me and d.startswith(tempfile.gettempdir() + "/vk_"):
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
    return _scratch

SAN = "-fno-omit-frame-pointer"
VARIANTS = {
    # the project's own flags
    "plain": dict(cc="gcc", cflags=None, opt="-O2"),
    "asan": dict(cc="gcc -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all " + SAN,
                 cflags="-g -O1 -fPIC -I../HealpixC", opt="-g -O1"),
    "msan": dict(cc="clang -fsanitize=memory -fno-sanitize-recover=all -fsanitize-memory-track-origins=1 " + SAN,
                 cflags="-g -O1 -fPIC -I../HealpixC -Wno-everything", opt="-g -O1 -Wno-everything"),
    "clangasan": dict(cc="clang -fsanitize=address,undefined,float-cast-overflow,bounds,integer-divide-by-zero -fno-sanitize-recover=all " + SAN,
                 cflags="-g -O1 -fPIC -I../HealpixC -Wno-everything", opt="-g -O1 -Wno-everything"),
    "fuzz": dict(cc="clang -fsanitize=fuzzer-no-link,address,undefined,float-cast-overflow,bounds,integer-divide-by-zero -fno-sanitize-recover=all " + SAN,
                 cflags="-g -O1 -fPIC -I../HealpixC -Wno-everything", opt="-g -O1 -Wno-everything"),
}

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "MSAN_OPTIONS": "exitcode=99:halt_on_error=1",
}

_built = {}
_lock = threading.Lock()

def _sh(cmd, cwd, what, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       stdin=subprocess.DEVNULL)
    if r.returncode:
        raise BuildError("%s failed (%s):\n%s" % (what, " ".join(cmd), r.stdout.decode("utf8", "replace")[-4000:]))

def build(variant="plain"):
    """Returns the directory of the built tree (…/src/sat_skymap etc.)."""
    with _lock:
        if variant in _built:
            return _built[variant]
        v = VARIANTS[variant]
        d = os.path.join(scratch(), "b_" + variant + TAG)
        os.makedirs(d)
        ign = shutil.ignore_patterns("*.o", "*.a", "*.so", "sat_skymap", "sat_visibility", "mjdnow", "_build", ".git")
        for sub in ("src", "HealpixC"):
            shutil.copytree(os.path.join(REPO, sub), os.path.join(d, sub), ignore=ign)
        base = ["make", "-s", "-j8", "CC=" + v["cc"], "OPT=" + v["opt"]]
        if v["cflags"]:
            base.append("CFLAGS=" + v["cflags"])
        src = os.path.join(d, "src")
        _sh(base + ["lib", "libhpx"], src, "library build")
        _sh(base + ["exe"], src, "program build")
        for x in ("sat_skymap", "sat_visibility", "mjdnow"):
            if not os.path.exists(os.path.join(src, x)):
                raise BuildError("no " + x + " after the build")
        _built[variant] = d
        return d

def exe(name, variant="plain"):
    return os.path.join(build(variant), "src", name)

def driver(source, variant="plain", fitsio=False, extra=None):
    """Compiles a C driver of /verif/drivers against the built libraries."""
    d = build(variant)
    v = VARIANTS[variant]
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers")
    out = os.path.join(d, os.path.splitext(source)[0] + ("_fits" if fitsio else "") + TAG)
    cmd = v["cc"].split() + ["-g", "-O1", "-w", "-I" + os.path.join(d, "src"), "-I" + os.path.join(d, "HealpixC"),
                              "-o", out, os.path.join(here, source)]
    if fitsio:
        cmd += ["-DENABLE_FITSIO", os.path.join(d, "HealpixC", "chealpix.c"), "-lcfitsio"]
    else:
        cmd += ["-L" + os.path.join(d, "HealpixC"), "-lchealpix"]
    cmd += [os.path.join(d, "src", "libsatskymap.a"), "-lm"] + (extra or [])
    _sh(cmd, d, "driver build")
    return out

_drv = {}
_drv_lock = threading.Lock()
def driver_cached(source, variant="plain", **k):
    key = (source, variant, str(sorted(k.items())))
    build(variant)
    with _drv_lock:
        if key not in _drv: _drv[key] = driver(source, variant, **k)
        return _drv[key]
