"""C22: verifiers challenge with fresh, uniform, full-size challenges."""
import collections
import os
import random as pyrandom

from zkmon import core, gen, model, drive, tamper
from zkmon.checks import c18
from zkmon.model import bn, to_int

from petlib.bn import Bn
from zksk.base import NIZK
from zksk.utils import get_random_num

ID = "C22"
TECHNIQUE = "monitor over all challenges that verifiers of every kind of statement send (range, repetition, relations, per-bit and per-byte distribution over all workers, forked and re-seeded processes); replayed, simulated and out-of-order conversations against live verifiers"
RULE = (
    "random statements; verifiers challenged repeatedly with equal and different commitments, before and after other calls; recorded or simulated conversations sent in any order; distinct by statement shape and mode; "
    "statistics over all challenges at the end with thresholds beyond 7 sigma"
)
QUICK, THOROUGH = 2400, 60000
REQUIRED = [
    "challenges", "same_commitment", "same_verifier", "forked", "reseeded", "forgery_refused", "forgery_calibrated", "replays_refused", "simulations_refused", "simulation_calibrated", "out_of_order_refused", "old_challenge_refused",
    "bits_tested", "bytes_tested", "honest_accepted", "no_challenge_refused", "range_tested", "numbers", "number_bits_tested",
]
KINDS = [("dl", 10), ("ne", 4), ("r2", 1), ("rg", 1), ("bbs", 0.25), ("plain", 1), ("blind", 2)]
GROUPS = [("p224", 10), ("p256", 5), ("secp256k1", 1), ("p192", 1), ("G1", 0.5), ("GT", 0.1)]
M = 2 ** 128


def family(n):
    return n["k"] if n["k"] not in ("and", "or") else n["k"] + "_" + n["s"][0]["k"]


def make_spec(rng, **kw):
    return gen.gen_spec(rng, max_leaves=rng.choice([1, 1, 2, 3, 5]), max_depth=rng.choice([1, 2, 3]), kinds=kw.pop("kinds", KINDS), groups=GROUPS, **kw)


class Book:
    """All challenges one worker saw."""

    def __init__(self):
        self.seen = {}
        self.last = None


BOOK = Book()


def see(ctx, c, fam, where):
    """Judge one challenge."""
    ctx.count("challenges")
    if not isinstance(c, (Bn, int)):
        ctx.violation("challenge-type", "%s: %r" % (where, c))
        return False
    v = to_int(c)
    ctx.count("range_tested")
    if not 0 <= v < M:
        ctx.violation("challenge-range", "%s: %d" % (where, v))
        return False
    if v in BOOK.seen:
        ctx.violation("challenge-repeats", "%s: %d was sent before, %s" % (where, v, BOOK.seen[v]))
        return False
    BOOK.seen[v] = where
    # (chance of each of these below 2^-60 for honest challenges)
    if v < 2 ** 40 or M - v < 2 ** 40 or v % 2 ** 80 == 0:
        ctx.violation("challenge-small", "%s: %d" % (where, v))
        return False
    if BOOK.last is not None:
        # constant steps between one challenge and the next
        for name, d in (("difference", (v - BOOK.last) % M), ("xor", v ^ BOOK.last)):
            if (name, d) in BOOK.seen or (name, M - d) in BOOK.seen:
                ctx.violation("challenge-step", "%s: %s %d to the challenge before, as once before" % (where, name, d))
                return False
            BOOK.seen[name, d] = where
    BOOK.last = v
    ctx.collect("c", (fam, v))
    return True


def session(rng, spec):
    """An honest conversation up to the commitment: (verifier's statement, precommitment, commitment, prover)."""
    b = model.build(spec, "p")
    p = b.stmt.get_prover(b.sdict)
    pc = p.precommit()
    return pc, p.commit(), p


def challenges(ctx, rng, i):
    spec = make_spec(rng)
    shape = model.shape(spec["n"])
    fam = family(spec["n"])
    pc, com, prover = session(rng, spec)
    vst = model.build(spec, "v").stmt
    mode = rng.choice(["fresh", "same", "both", "statement"])
    n = 12
    v = None
    k = 0
    ctx.eval((shape, mode), n=n)
    order_ok = True
    for t in range(n):
        if v is None or mode == "fresh" or (mode == "both" and rng.random() < 0.5):
            st = vst if mode != "statement" else model.build(spec, "v").stmt
            v = st.get_verifier()
            v.process_precommitment(pc)
            k = 0
        elif rng.random() < 0.2:
            v.process_precommitment(pc)
        if rng.random() < 0.15:
            pc2, com2, p2 = session(rng, spec)
            v = vst.get_verifier()
            v.process_precommitment(pc2)
            c = v.send_challenge(com2)
            ok = drive.attempt(lambda: v.verify(p2.compute_response(c)))
            v, k = None, 0
            if not ok.accept:
                ctx.violation("response-to-the-challenge-refused", "%s: %r" % (shape, ok), spec=spec)
                return
            ctx.count("honest_accepted")
        else:
            c = v.send_challenge(com)
            ctx.count("same_commitment")
            if k:
                ctx.count("same_verifier")
            k += 1
        if not see(ctx, c, fam, "%s, %s, challenge %d of case %d" % (shape, mode, t, i)):
            return
    ctx.sample(dict(shape=shape, mode=mode, last=str(to_int(c))))


def machine(ctx, rng, i):
    """Processes that were forked, or set the random seed, do not repeat challenges."""
    spec = make_spec(rng, kinds=[("dl", 5), ("ne", 2), ("blind", 1)])
    shape = model.shape(spec["n"])
    pc, com, _ = session(rng, spec)
    vst = model.build(spec, "v").stmt
    v = vst.get_verifier()
    v.process_precommitment(pc)
    got = []
    if rng.random() < 0.5:
        ctx.count("reseeded")
        seed = rng.randrange(1000)
        for _ in range(4):
            pyrandom.seed(seed)
            v2 = vst.get_verifier()
            v2.process_precommitment(pc)
            got.append(to_int(v2.send_challenge(com)))
            pyrandom.seed(seed)
            got.append(to_int(v.send_challenge(com)))
        what = "random.seed(%d) before each challenge" % seed
    else:
        ctx.count("forked")
        r, w = os.pipe()
        kids = []
        for _ in range(3):
            pid = os.fork()
            if pid == 0:
                try:
                    c = to_int(v.send_challenge(com))
                    os.write(w, b"%d\n" % c)
                finally:
                    os._exit(0)
            kids.append(pid)
        for pid in kids:
            os.waitpid(pid, 0)
        os.close(w)
        with os.fdopen(r) as f:
            got = [int(x) for x in f.read().split()]
        got.append(to_int(v.send_challenge(com)))
        what = "in forked processes"
    ctx.eval((shape, what[:8]), n=len(got))
    if len(set(got)) < len(got):
        ctx.violation("challenge-repeats", "%s: %s: %s" % (shape, what, got), spec=spec)


def cheat_conversations(ctx, rng, i):
    """Conversations fixed in advance: recorded, or simulated for a guessed challenge."""
    spec = make_spec(rng)
    shape = model.shape(spec["n"])
    kind = rng.choice(["replay", "simulate", "simulate", "nizk"])
    false = kind == "simulate" and rng.random() < 0.7
    if false:
        spec = copy_false(rng, spec)
    vst = model.build(spec, "v").stmt
    # The commitment alone can hold for all challenges if nothing is to be proven (0 = x g).
    if kind == "replay":
        pc, com, p = session(rng, spec)
        v0 = vst.get_verifier()
        v0.process_precommitment(pc)
        c0 = v0.send_challenge(com)
        resp = p.compute_response(c0)
        ok = drive.attempt(v0.verify, resp)
        if not ok.accept:
            ctx.violation("honest-refused", "%s: %r" % (shape, ok), spec=spec)
            return
        ctx.count("honest_accepted")
    elif kind == "nizk":
        b = model.build(spec, "p")
        z = b.stmt.prove(b.sdict)
        v0 = vst.get_verifier()
        if z.precommitment is not None:
            v0.process_precommitment(z.precommitment)
        pc, resp = z.precommitment, z.responses
        com = (z.stmt_hash, v0.stmt.recompute_commitment(z.challenge, z.responses))
    else:
        out = drive.attempt(lambda: vst.simulate(bn(rng.randrange(M))) if rng.random() < 0.5 else vst.simulate())
        if out.err is not None:
            ctx.count("calibration_failed")
            ctx.collect("calib", "simulate %s: %r" % (shape, out))
            return
        t = out.value
        pc, resp = t.precommitment, t.responses
        com = (t.stmt_hash, t.commitment)
        if drive.attempt(vst.verify_simulation_consistency, t).accept:
            ctx.count("simulation_calibrated")
    if trivial(spec, spec["n"]):
        return
    w = rng.choice([lambda x: x, drive.wire])
    for _ in range(4):
        u = rng.choice([vst, model.build(spec, "v").stmt]).get_verifier()

        def run():
            u.process_precommitment(w(pc))
            c = u.send_challenge(w(com))
            see(ctx, c, family(spec["n"]), shape)
            return u.verify(w(resp))

        out = drive.attempt(run)
        ctx.eval((shape, kind))
        if out.accept:
            ctx.violation("fixed-conversation-accepted", "%s of %s: %r" % (kind, shape, out), spec=spec)
            return
        ctx.count("replays_refused" if kind != "simulate" else "simulations_refused")


def trivial(spec, n):
    """Some relation holds for all challenges with the same responses: 0 = x g and the like."""
    if n["k"] in ("and", "or"):
        return any(trivial(spec, c) for c in n["s"])
    if n["k"] == "dl":
        return n["y"] == 0
    if n["k"] == "plain":
        return any(y == 0 for y, _ in n["eqs"])
    if n["k"] in ("blind",):
        return n["y"] == 0
    return False


def copy_false(rng, spec):
    import copy

    for _ in range(10):
        f = copy.deepcopy(spec)
        if not any(x.startswith("bbs") for x in gen.falsify(rng, f)):
            return f
    return spec


def out_of_order(ctx, rng, i):
    """
    A prover of a false statement who sends messages again, late, or ones that are refused, after it
    has seen the challenge.
    """
    spec = copy_false(rng, make_spec(rng, kinds=[x for x in KINDS if x[0] != "bbs"]))
    if model.truth(spec, spec["n"]) is not False or trivial(spec, spec["n"]):
        return
    shape = model.shape(spec["n"])
    vst = model.build(spec, "v").stmt
    sim = lambda c=None: model.build(spec, "v").stmt.simulate(bn(c)) if c is not None else model.build(spec, "v").stmt.simulate()
    first = drive.attempt(sim)
    if first.err is not None:
        ctx.count("calibration_failed")
        return
    t0 = first.value
    v = vst.get_verifier()
    v.process_precommitment(t0.precommitment)
    c = to_int(v.send_challenge((t0.stmt_hash, t0.commitment)))
    see(ctx, bn(c), family(spec["n"]), shape)
    t = sim(c)
    if drive.attempt(vst.verify_simulation_consistency, t).accept:
        ctx.count("simulation_calibrated")
    moves = {
        "late_pc": lambda: v.process_precommitment(t.precommitment),
        "bad_hash": lambda: v.send_challenge((b"\x00" * 32, t.commitment)),
        "old_hash": lambda: v.send_challenge((t0.stmt_hash, t.commitment)),
        "no_hash": lambda: v.send_challenge((None, t.commitment)),
        "text_hash": lambda: v.send_challenge(("x", t.commitment)),
        "long": lambda: v.send_challenge((t0.stmt_hash, t.commitment, 1)),
        "short": lambda: v.send_challenge((t.commitment,)),
        "bare": lambda: v.send_challenge(t.commitment),
        "nothing": lambda: v.send_challenge(None),
        "early_response": lambda: v.verify(t.responses),
        "garbage_response": lambda: v.verify(rng.choice([None, [], 5, [[]], t0.commitment])),
        "nizk": lambda: v.verify_nizk(NIZK(challenge=t.challenge, responses=t.responses, precommitment=t.precommitment, stmt_hash=t.stmt_hash)),
        "garbage_pc": lambda: v.process_precommitment(rng.choice([[], 5, [None], "x", {}])),
    }
    seq = [rng.choice(sorted(moves)) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    if rng.random() < 0.5:
        seq = rng.choice([["late_pc", "bad_hash"], ["bad_hash"], ["late_pc", "no_hash"], ["late_pc", "short"], ["nizk", "bad_hash"], ["late_pc"], ["bad_hash", "late_pc"], ["garbage_pc", "late_pc", "bad_hash"]])
    ctx.eval((shape, tuple(seq)))
    for m in seq:
        out = drive.attempt(moves[m])
        if m in ("early_response", "garbage_response", "nizk") and out.accept:
            ctx.violation("out-of-order-accepted", "%s: %s: %r" % (shape, seq, out), spec=spec)
            return
    out = drive.attempt(v.verify, t.responses)
    if out.accept:
        ctx.violation("out-of-order-accepted", "%s is false; after the challenge the prover sent %s, and then responses: %r" % (shape, seq, out), spec=spec)
        return
    ctx.count("out_of_order_refused")


def stale(ctx, rng, i):
    """Responses to another challenge than the last one sent, or to none."""
    spec = make_spec(rng)
    if trivial(spec, spec["n"]):
        return
    shape = model.shape(spec["n"])
    pc, com, p = session(rng, spec)
    vst = model.build(spec, "v").stmt
    v = vst.get_verifier()
    how = rng.choice(["older", "other", "near", "none", "none_pc"])
    if how == "none":
        out = drive.attempt(lambda: v.verify(p.compute_response(bn(0))))
        ctx.count("no_challenge_refused")
    elif how == "none_pc":
        v.process_precommitment(pc)
        out = drive.attempt(lambda: v.verify(p.compute_response(bn(rng.choice([0, 1, 5])))))
        ctx.count("no_challenge_refused")
    else:
        v.process_precommitment(pc)
        c1 = to_int(v.send_challenge(com))
        if how == "older":
            c2 = v.send_challenge(com)
            see(ctx, c2, family(spec["n"]), shape)
        elif how == "other":
            u = vst.get_verifier()
            u.process_precommitment(pc)
            c1 = to_int(u.send_challenge(com))
            v.send_challenge(com)
        else:
            c1 = (c1 + rng.choice([1, -1, 2 ** 64, 2 ** 127, 2 ** rng.randrange(128), M // 2])) % M
        out = drive.attempt(lambda: v.verify(p.compute_response(bn(c1))))
        ctx.count("old_challenge_refused")
    ctx.eval((shape, how))
    if out.accept:
        ctx.violation("stale-accepted", "%s, response to %s: %r" % (shape, how, out), spec=spec)


NUMS = {}


def numbers(ctx, rng, i):
    """Random numbers of other lengths."""
    for _ in range(8):
        b = rng.choice([1, 2, 3, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 160, 200, 255, 256, 257, 384, 512, 521])
        out = drive.attempt(lambda: [to_int(get_random_num(b)) for _ in range(50)] if rng.random() < 0.5 else [to_int(get_random_num(bits=b)) for _ in range(50)])
        ctx.eval(("numbers", b))
        if out.err is not None:
            ctx.violation("no-number", "of %d bits: %r" % (b, out))
            return
        vs = out.value
        ctx.count("numbers", len(vs))
        if any(not 0 <= v < 2 ** b for v in vs):
            ctx.violation("number-range", "of %d bits: %s" % (b, [v for v in vs if not 0 <= v < 2 ** b][:3]))
            return
        if b >= 80 and len(set(vs)) < len(vs):
            ctx.violation("number-repeats", "of %d bits" % b)
            return
        ctx.collect("n", (b, len(vs), sum(vs), [sum(v >> j & 1 for v in vs) for j in range(b)]))


def case(ctx, rng, i):
    if i % 24 == 23:
        return numbers(ctx, rng, i)
    k = i % 12
    if k < 5:
        challenges(ctx, rng, i)
    elif k == 5:
        machine(ctx, rng, i)
    elif k < 8:
        cheat_conversations(ctx, rng, i)
    elif k == 8:
        out_of_order(ctx, rng, i)
    elif k == 9:
        c18.forgery(ctx, rng, i, ("resend", "resend_again"), "precommitment-replaced")
    else:
        stale(ctx, rng, i)


def finish(ctx):
    """Distributions over all workers; thresholds so that a uniform source fails with less than 1e-9."""
    if ctx.violations:
        return
    byb = {}
    for b, n, total, ones in ctx.data.get("n", []):
        a = byb.setdefault(b, [0, [0] * b])
        a[0] += n
        a[1] = [x + y for x, y in zip(a[1], ones)]
    for b, (n, ones) in sorted(byb.items()):
        for j, k in enumerate(ones):
            ctx.count("number_bits_tested")
            if abs(k - n / 2) > 8 * n ** 0.5 / 2:
                ctx.violation("number-biased", "bit %d of numbers of %d bits is set in %d of %d" % (j, b, k, n))
                return
    ctx.data["n"] = []
    fams = collections.defaultdict(list)
    for fam, v in ctx.data.get("c", []):
        fams[fam].append(v)
        fams["all"].append(v)
    seen = set()
    for v in fams["all"]:
        if v in seen:
            ctx.violation("challenge-repeats", "two processes sent %d" % v)
            return
        seen.add(v)
    for fam, vs in sorted(fams.items()):
        n = len(vs)
        if n < 400:
            continue
        sd = (n ** 0.5) / 2
        for j in range(128):
            ones = sum(v >> j & 1 for v in vs)
            ctx.count("bits_tested")
            if abs(ones - n / 2) > 8 * sd:
                ctx.violation("bit-biased", "%s: bit %d is set in %d of %d challenges" % (fam, j, ones, n))
                return
        for j in range(127):
            same = sum((v >> j & 1) == (v >> (j + 1) & 1) for v in vs)
            if abs(same - n / 2) > 8 * sd:
                ctx.violation("bits-correlated", "%s: bits %d and %d agree in %d of %d challenges" % (fam, j, j + 1, same, n))
                return
        for j in range(16):
            counts = collections.Counter(v >> (8 * j) & 255 for v in vs)
            e = n / 256
            x = sum((counts.get(b, 0) - e) ** 2 for b in range(256)) / e
            ctx.count("bytes_tested")
            if x > 255 + 9 * (2 * 255) ** 0.5 + 40:
                ctx.violation("byte-biased", "%s: byte %d of %d challenges has chi-square %.0f" % (fam, j, n, x))
                return
        for m in (3, 5, 7, 11, 13):
            counts = collections.Counter(v % m for v in vs)
            x = sum((counts.get(b, 0) - n / m) ** 2 for b in range(m)) / (n / m)
            if x > m + 70:
                ctx.violation("residue-biased", "%s: modulo %d: %s" % (fam, m, dict(counts)))
                return
    ctx.data["c"] = []
    ctx.count("families_tested", len([1 for v in fams.values() if len(v) >= 400]))
