"""Verdicts, evidence, replays and known findings."""
import os, sys, io, json, time, pickle, shutil, random, traceback
from . import build as B, run

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAXV = 5
# how many times the base sizes a quick run covers (4 where not listed)
SCALE = dict(C01=2, C02=1, C05=2, C07=2, C17=2, C21=1, C22=1, C23=1, C24=2, C25=2, C26=2, C32=1)
# (rounds side by side, batches of them in a quick run) after the first round; (4, 1) where not listed
PAR = dict(C01=(2, 1), C02=(0, 0), C30=(2, 1), C32=(3, 1), **{"C" + x: (4, 2) for x in "03 04 06 08 09 11 13 15 16 17 18 19 20 21 25 27 29".split()})
MAXED = ("fuzzer: edges reached", "fuzzer: features reached", "largest catalogue", "largest deep-space difference (m)")

class Stop(Exception): pass

class Ctx:
    def __init__(s, prop, tier, seed):
        s.prop, s.tier, s.seed = prop, tier, seed
        s.rng = random.Random("%s-%d-%s" % (prop, seed, tier))
        s.t0 = time.time()
        s.evals = 0
        s.distinct = set()
        s.samples = []
        s.counters = {}
        s.rule = ""
        s.viols = []
        s.known_seen = {}
        s.known = load_known(prop)
        s.assumptions = []
        s.round = 0
    thorough = property(lambda s: s.tier == "thorough")
    def n(s, quick, thorough): return thorough if s.tier == "thorough" else min(quick * SCALE.get(s.prop, 4), max(quick, thorough))
    def count(s, k, n=1): s.counters[k] = s.counters.get(k, 0) + n
    def ev(s, key=None, n=1):
        """One evaluation of the oracle; key identifies a non-trivial distinct case."""
        s.evals += n
        if key is not None: s.distinct.add(key if isinstance(key, (int, str)) else hash(key))
    def sample(s, x, limit=6):
        if len(s.samples) < limit: s.samples.append(x)
    def violation(s, key, msg, **replay):
        """key: the specific failing input / site, as listed in the known-findings file."""
        for k, what in s.known:
            if k == key:
                if k not in s.known_seen:
                    s.known_seen[k] = what
                    print("KNOWN-FINDING: property=%s %s" % (s.prop, what))
                return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        body = dict(property=s.prop, key=key, message=msg, seed=s.seed, tier=s.tier, **replay)
        p = os.path.join(d, "%s-%s%d.json" % (s.prop, "r%d-" % s.round if s.round else "", len(s.viols)))
        with open(p, "w") as f: json.dump(body, f, indent=1, default=lambda o: o.decode("latin-1") if isinstance(o, bytes) else str(o))
        s.viols.append((key, msg, p))
        print(("  %s: %s" % (key, msg[:600])).replace("\n", "\\n").encode("ascii", "backslashreplace").decode())
        print("VIOLATION property=%s replay=%s" % (s.prop, p))
        sys.stdout.flush()
        if len(s.viols) >= MAXV: raise Stop()
    def check(s, ok, key, msg, **replay):
        if not ok: s.violation(key, msg if isinstance(msg, str) else msg(), **replay)
        return ok

def load_known(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            # finding: property=<id> key=<key> | <what fails>
            if l.startswith("finding: property=%s " % prop):
                rest = l.split("key=", 1)[1]
                k, what = rest.split("|", 1)
                out.append((k.strip(), what.strip()))
    return out

def guarded(c, fn):
    """Runs one round; returns None or the text of a harness error."""
    try:
        try: fn(c)
        except Stop: pass
        except (LookupError, TypeError, AttributeError, ValueError, ArithmeticError):
            # what came back does not have the documented form: the monitor could not even read it
            tr = traceback.format_exc()
            print(tr)
            try: c.violation("structure", "an answer without the documented structure or values:\n" + tr[-900:])
            except Stop: pass
    except Exception as e:
        traceback.print_exc(file=sys.stdout)
        return "%s: %s" % (type(e).__name__, e)

def forked(c, fn, r, q):
    """Round r in a process of its own: the work of the monitors in Python is not parallel otherwise."""
    rd, wr = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid:
        os.close(wr)
        return pid, os.fdopen(rd, "rb")
    try:
        os.close(rd)
        sys.stdout = io.StringIO()
        B.TAG = "_r%d" % r; run.WORKERS = q
        c.rng = random.Random("%s-%d-%s-round%d" % (c.prop, c.seed, c.tier, r)); c.round = r
        c.evals = 0; c.distinct = set(); c.samples = []; c.counters = {}; c.viols = []
        err = guarded(c, fn)
        b = pickle.dumps(dict(evals=c.evals, distinct=c.distinct, counters=c.counters, viols=c.viols, err=err, out=sys.stdout.getvalue(), rule=c.rule))
        with os.fdopen(wr, "wb") as f: f.write(b)
        os._exit(0)
    except BaseException:
        traceback.print_exc()
        os._exit(7)

def gather(c, kids):
    """Adds what the rounds saw; raises when one of them could not work."""
    err = None
    for r, (pid, f) in kids:
        b = f.read(); f.close()
        _, st = os.waitpid(pid, 0)
        if st or not b: err = err or "round %d ended with %d" % (r, st); continue
        x = pickle.loads(b)
        sys.stdout.write(x["out"]); sys.stdout.flush()
        c.evals += x["evals"]; c.distinct |= x["distinct"]; c.viols += x["viols"]
        for k, n in x["counters"].items(): c.counters[k] = max(c.counters.get(k, 0), n) if k in MAXED else c.counters.get(k, 0) + n
        err = err or x["err"]
    return err

def rounds(c, fn):
    """One round alone, which builds what is needed; then further rounds side by side, each with a seed of its own: a fixed number of
    them in a quick run, in a thorough run as many as fit into its time."""
    err = guarded(c, fn)
    if c.viols or err: return err
    t1 = time.time() - c.t0
    clean()
    par, batches = PAR.get(c.prop, (4, 1))
    if c.thorough: batches = 1000; par = min(par, 6)
    budget = float(os.environ.get("VERIF_BUDGET", "600")) if c.thorough else 1e9
    r = 1; took = t1 * (1 + par / 4.0)
    for _ in range(batches):
        if not par or time.time() - c.t0 + 1.2 * took > budget: break
        t = time.time()
        err = gather(c, [(k, forked(c, fn, k, max(2, 8 // par))) for k in range(r, r + par)])
        took = time.time() - t; r += par
        if c.viols or err: break
        clean()
    c.counters["rounds"] = r
    return err

def clean():
    for x in os.listdir(B.scratch()):
        if x.startswith("tmp"): shutil.rmtree(os.path.join(B.scratch(), x), ignore_errors=True)

def main(prop, fn, tier, seed, min_evals=10):
    c = Ctx(prop, tier, seed)
    rc = 0
    err = rounds(c, fn)
    if not err and not c.viols and c.evals < min_evals: err = "only %d evaluations were made" % c.evals
    if err and not c.viols:
        print("HARNESS-ERROR: " + err)
        rc = 2
    if c.viols: rc = 1
    cov = dict(evaluations=c.evals, distinct_nontrivial=len(c.distinct), rule=c.rule, samples=c.samples or ["none"], observed=c.counters)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(time.time() - c.t0, 2), violations=len(c.viols))
    if c.assumptions: ev["assumptions"] = c.assumptions
    if rc != 2:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    print("%s %s seed=%d: %d evaluations, %d distinct, %s, %.1f s" % (prop, tier, seed, c.evals, len(c.distinct),
          "VIOLATED" if rc == 1 else "held on everything explored" if rc == 0 else "no verdict", time.time() - c.t0))
    for k in sorted(c.counters): print("   %s: %s" % (k, c.counters[k]))
    return rc
