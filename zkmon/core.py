"""Runner of the checks: deterministic cases over worker processes, monitors' counters, verdicts.

A check is a module in zkmon.checks with

    ID, RULE            property id, how cases are made and what makes one non-trivial
    QUICK, THOROUGH     number of cases per tier
    case(ctx, rng, i)   runs case number i on the real code, reporting through ctx
    finish(ctx)         (optional) judges what the cases collected together
    REQUIRED            counters that must be non-zero, or the run is inconclusive

Verdicts: exit 0 held on everything observed, exit 1 VIOLATION, exit 2 inconclusive.
"""
import collections
import hashlib
import importlib
import json
import os
import random
import sys
import time
import traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZKMON_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings  # noqa: E402

warnings.simplefilter("ignore")
sys.unraisablehook = collections.deque(maxlen=0).append  # petlib recurses when multiplied by garbage


def make_rng(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h, "big"))


def short(x, n=700):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:
        s = "(%s without a description: %s)" % (type(x).__name__, type(e).__name__)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


class Ctx:
    """What one worker observed."""

    MAX_SAMPLES = 3

    def __init__(self, check, seed, tier):
        self.check, self.seed, self.tier = check, seed, tier
        self.i = None
        self.counts = {}
        self.keys = set()
        self.samples = []
        self.violations = []
        self.errors = []
        self.data = {}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def eval(self, key=None, n=1):
        """One judged execution; key: what makes it distinct (None: trivial)."""
        self.count("evaluations", n)
        if key is not None:
            self.keys.add(hashlib.md5(repr(key).encode()).digest())

    def sample(self, obj):
        if len(self.samples) < self.MAX_SAMPLES:
            self.samples.append(obj)

    def collect(self, name, value):
        self.data.setdefault(name, []).append(value)

    def violation(self, mech, detail, **extra):
        """mech: stable name of what failed; detail: the witness."""
        self.violations.append(
            dict(mech=mech, detail=short(detail, 4000), i=self.i, extra={k: short(v, 20000) for k, v in extra.items()})
        )

    def merge(self, other):
        for k, v in other.counts.items():
            self.count(k, v)
        self.keys |= other.keys
        self.samples = (self.samples + other.samples)[:8]
        self.violations += other.violations
        self.errors += other.errors
        for k, v in other.data.items():
            self.data.setdefault(k, []).extend(v)


def run_one(mod, ctx, i):
    ctx.i = i
    rng = make_rng(ctx.seed, mod.ID, i)
    try:
        mod.case(ctx, rng, i)
    except Exception as e:
        report_error(ctx, e, i)


def report_error(ctx, e, i):
    """
    An exception that the case did not expect. Cases expect all those that the library may raise, so
    one that came out of the library means that it failed at something that always works.
    """
    tb = traceback.format_exc(limit=-12)
    frames = traceback.extract_tb(e.__traceback__)
    lib = any(f.filename.startswith(os.path.join(REPO, "zksk")) for f in frames)
    if lib and not isinstance(e, (MemoryError, OSError, ImportError)):
        ctx.violation("library-error", "%s: %s\n%s" % (type(e).__name__, e, tb))
    else:
        ctx.errors.append(dict(i=i, tb=tb))


def worker(mod, seed, tier, indices, deadline, conn):
    ctx = Ctx(mod.ID, seed, tier)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)  # the library prints
    done = 0
    for i in indices:
        if time.time() > deadline:
            ctx.count("stopped_by_time_cap")
            break
        run_one(mod, ctx, i)
        done += 1
        if len(ctx.violations) >= 5 or len(ctx.errors) >= 20:
            break
    ctx.count("cases", done)
    conn.send(ctx)
    conn.close()
    os._exit(0)


def load_known():
    """Known findings: 'finding: property=<id> mech=<mechanism> <text>' lines."""
    out = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("finding: "):
                    words = line[len("finding: "):].strip().split(" ", 2)
                    prop, mech = words[0].split("=", 1)[1], words[1].split("=", 1)[1]
                    out[prop, mech] = words[2]
    except FileNotFoundError:
        pass
    return out


def run_check(cid, seed, tier, cap=None):
    mod = importlib.import_module("zkmon.checks." + cid.lower())
    t0 = time.time()
    ncases = mod.QUICK if tier == "quick" else mod.THOROUGH
    scale = float(os.environ.get("ZKMON_SCALE", "1"))
    ncases = max(1, int(ncases * scale))
    if cap is None:
        cap = 240 if tier == "quick" else 3000
    nproc = min(getattr(mod, "PROCS", 8), os.cpu_count() or 1, ncases)
    total = Ctx(mod.ID, seed, tier)
    if hasattr(mod, "setup"):
        mod.setup(total, seed, tier)
    procs = []
    deadline = t0 + cap
    for w in range(nproc):
        r, s = mp.Pipe(False)
        p = mp.Process(target=worker, args=(mod, seed, tier, range(w, ncases, nproc), deadline, s))
        p.start()
        s.close()
        procs.append((p, r))
    lost = 0
    for p, r in procs:
        try:
            if r.poll(max(1, deadline + 240 - time.time())):
                total.merge(r.recv())
            else:
                lost += 1
        except EOFError:
            lost += 1
        if lost and p.is_alive():
            p.kill()
        p.join()
    total.i = -1
    if hasattr(mod, "finish"):
        try:
            mod.finish(total)
        except Exception as e:
            report_error(total, e, -1)
    known = load_known()
    fresh, seen = [], {}
    for v in total.violations:
        if (cid, v["mech"]) in known:
            seen[v["mech"]] = known[cid, v["mech"]]
        else:
            fresh.append(v)
    for mech, text in sorted(seen.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (cid, mech, text))
    cov = dict(
        evaluations=total.counts.get("evaluations", 0),
        distinct_nontrivial=len(total.keys),
        rule=mod.RULE,
        samples=total.samples[:6],
        monitors={k: v for k, v in sorted(total.counts.items()) if k != "evaluations"},
        worker_processes=nproc,
    )
    ev = dict(
        property=cid, tier=tier, seed=int(seed), level="exploration", coverage=cov,
        assumptions=getattr(mod, "ASSUMPTIONS", []) + [
            "held means: on the executions counted here; nothing is claimed about others",
            "petlib, bplib and OpenSSL are trusted",
        ],
        wall_s=round(time.time() - t0, 2), violations=len(fresh),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if fresh:
        v = fresh[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (cid, seed))
        with open(path, "w") as f:
            json.dump(dict(check=cid, seed=seed, tier=tier, i=v["i"], violations=fresh[:10]), f, indent=1, default=str)
        for v in fresh[:5]:
            print("  %s: %s" % (v["mech"], short(v["detail"], 900)))
        print("VIOLATION property=%s replay=%s" % (cid, path))
        return 1
    if total.counts.get("calibration_failed"):
        # attacks were still tried; that they can show a fault is known only for the calibrated ones
        print("NOTE property=%s %d honest runs of the cheating prover's machinery were refused: %s" % (cid, total.counts["calibration_failed"], short(total.data.get("calib", [])[:2])))
    missing = [k for k in getattr(mod, "REQUIRED", []) if not total.counts.get(k)]
    if total.errors or lost or missing or not total.counts.get("evaluations"):
        print("INCONCLUSIVE property=%s errors=%d lost_workers=%d monitors_never_reached=%s" % (cid, len(total.errors), lost, missing))
        for e in total.errors[:3]:
            print(e["tb"])
        return 2
    print("HELD property=%s tier=%s seed=%s evaluations=%d distinct=%d wall=%.1fs %s" % (
        cid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0,
        json.dumps(cov["monitors"])))
    return 0


def replay(path, times=20):
    with open(path) as f:
        r = json.load(f)
    mod = importlib.import_module("zkmon.checks." + r["check"].lower())
    if r["i"] < 0:
        return run_check(r["check"], r["seed"], r["tier"])
    for t in range(times):
        ctx = Ctx(mod.ID, r["seed"], r["tier"])
        run_one(mod, ctx, r["i"])
        if ctx.violations:
            for v in ctx.violations[:5]:
                print("  %s: %s" % (v["mech"], v["detail"]))
                for k, x in v["extra"].items():
                    print("     %s = %s" % (k, x))
            print("VIOLATION property=%s replay=%s (repetition %d)" % (mod.ID, path, t + 1))
            return 1
        for e in ctx.errors:
            print(e["tb"])
    print("not reproduced in %d repetitions" % times)
    return 0


def main():
    args = sys.argv[1:]
    if args[0] == "--selftest":
        from zkmon import model

        print("zksk from", model.zksk.__file__)
        return 0
    if args[0] == "--replay":
        return replay(args[1])
    seed = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if len(args) > 1:
        tier = args[1]
    return run_check(args[0], seed, tier)
