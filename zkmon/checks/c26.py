"""C26: effort and size stay in proportion to the statement, and do not grow with use."""
import copy
import gc
import random
import sys

from zkmon import core, gen, model, drive
from zkmon.model import bn, P, order

from zksk import Secret, DLRep
from zksk.base import NIZK
from zksk.composition import AndProofStmt, OrProofStmt
from zksk.expr import wsum_secrets
from zksk.primitives.bbsplus import BBSPlusKeypair, BBSPlusSignatureCreator, BBSPlusSignatureStmt
from zksk.primitives.dl_notequal import DLNotEqual
from zksk.primitives.rangeproof import RangeStmt, PowerTwoRangeStmt
from zksk.utils import make_generators, sum_bn_array

ID = "C26"
TECHNIQUE = (
    "an interpreter-level meter (sys.monitoring) counts the instructions executed inside the library and the group code for every operation, serialized sizes and allocated blocks are recorded; "
    "growth is compared between sizes n and 4n, between depths d and 2d, and between the first and the last of many repetitions with the same objects"
)
RULE = (
    "random trees composed with k and 4k copies of themselves; families by number of terms, conjuncts, disjuncts, bits, messages, generators and depth; random trees whose objects are used over and over; "
    "distinct by family or tree shape, and operation"
)
QUICK, THOROUGH = 300, 8000
REQUIRED = [
    "width_compared", "depth_compared", "bits_compared", "copies_compared", "sizes_compared", "repetitions_compared", "blocks_compared", "op_make", "op_id", "op_prove", "op_verify", "op_live", "op_simulate", "op_consistency",
    "op_serialize", "op_deserialize", "op_refuse", "messages", "generators", "expressions", "pairing",
]

TOOL = 4


class TooMuch(Exception):
    pass


class Meter:
    """Instructions executed in the library and the code that it uses for group operations."""

    count = 0
    limit = None
    ready = False

    @classmethod
    def _event(cls, code, off):
        f = code.co_filename
        if "zksk" in f or "petlib" in f or "bplib" in f:
            cls.count += 1
            if cls.limit is not None and cls.count > cls.limit:
                cls.limit = None
                raise TooMuch("more than %d instructions" % (cls.count - 1))
            return None
        return sys.monitoring.DISABLE

    @classmethod
    def run(cls, f, *a, limit=None, **k):
        m = sys.monitoring
        if not cls.ready:
            m.use_tool_id(TOOL, "zkmon")
            m.register_callback(TOOL, m.events.INSTRUCTION, cls._event)
            cls.ready = True
        cls.count, cls.limit = 0, limit
        m.set_events(TOOL, m.events.INSTRUCTION)
        try:
            r = f(*a, **k)
        finally:
            m.set_events(TOOL, 0)
        return cls.count, r


def measure(ctx, make, simulable, limits):
    """make() -> (prover's statement, values, verifier's statement)"""
    cost, size = {}, {}

    def step(name, f):
        cost[name], r = Meter.run(f, limit=limits.get(name))
        ctx.count("op_" + name)
        return r

    p, d, v = step("make", make)
    proof = step("prove", lambda: p.prove(d, message="m"))
    raw = step("serialize", proof.serialize)
    size["proof"] = len(raw)
    back = step("deserialize", lambda: NIZK.deserialize(raw))
    if step("verify", lambda: v.verify(back, message="m")) is not True:
        ctx.violation("refused", "%s" % p)
    step("id", lambda: drive.attempt(v.get_proof_id))
    if step("live", lambda: drive.interact(p.get_prover(d), v.get_verifier(), tr=state_tr(size))) is not True:
        ctx.violation("refused", "%s" % p)
    step("refuse", lambda: drive.attempt(v.verify, back, message="n"))
    if simulable:
        t = step("simulate", v.simulate)
        if step("consistency", lambda: v.verify_simulation_consistency(t)) is not True:
            ctx.violation("refused", "simulation of %s" % p)
    return cost, size


class state_tr:
    """Records the lengths of the messages."""

    def __init__(self, size):
        object.__setattr__(self, "size", size)

    def __setattr__(self, k, v):
        self.size[k] = len(drive.encode(v))


def compare(ctx, what, sizes, make, most, most_size, simulable=True, repeat=1, given=False):
    """The last of sizes may cost at most `most` times what the one before costs."""

    def bound(k):
        # each relation looks at the whole dictionary of secrets it is given
        return 20 if k in ("prove", "live") and not given else most

    prev = None
    for n in sizes:
        limits = {}
        if prev is not None:
            limits = {k: 1.5 * bound(k) * c + 10 ** 5 for k, c in prev[0].items()}
        runs = []
        try:
            for _ in range(repeat):
                runs.append(measure(ctx, lambda: make(n), simulable, limits))
        except TooMuch as e:
            ctx.violation("too-much-work", "%s, %d after %d: %s; before: %s" % (what, n, prev[2], e, prev[0]))
            return
        if prev is None and n != sizes[-1]:
            # the most expensive of the small ones is compared with the cheapest of the large ones
            pick = max
        else:
            pick = min if n == sizes[-1] else max
        cost = {k: pick(r[0][k] for r in runs) for k in runs[0][0]}
        size = {k: pick(r[1][k] for r in runs) for k in runs[0][1]}
        ctx.eval((what, n))
        if prev is not None:
            for k in cost:
                if cost[k] > bound(k) * prev[0][k] + 3000:
                    ctx.violation("work-grows", "%s, %s: %d for %d, %d for %d" % (what, k, prev[0][k], prev[2], cost[k], n))
            for k in size:
                ctx.count("sizes_compared")
                if size[k] > most_size * prev[1][k] + 100:
                    ctx.violation("size-grows", "%s, %s: %d bytes for %d, %d for %d" % (what, k, prev[1][k], prev[2], size[k], n))
        prev = (cost, size, n)
    ctx.sample(dict(what=what, sizes=sizes, cost=prev[0], bytes=prev[1]))


# ---------------------------------------------------------------- families

G = "p224"


def triple(build, rng, init=False):
    """build(S) -> statement, with S(value) making secrets; prover's and verifier's statements from it."""
    vals = {}
    # ranges want their values at once
    def S(v):
        s = Secret(value=bn(v)) if init else Secret()
        if not init:
            vals[s] = bn(v)
        return s

    state = rng.getstate()
    p = build(S)
    d = dict(vals)
    rng.setstate(state)
    v = build(lambda v: Secret())
    return p, d, v


def dl(rng, S, n=1, g=G, pool=None):
    q = order(g)
    xs = [rng.randrange(q) for _ in range(n)]
    bs = [rng.randrange(1, q) for _ in range(n)]
    return DLRep(P(g, sum(x * b for x, b in zip(xs, bs)) % q), wsum_secrets([S(x) for x in xs], [P(g, b) for b in bs]))


def added(rng, S, n):
    q = order(G)
    xs = [rng.randrange(q) for _ in range(n)]
    e = S(xs[0]) * P(G, 3)
    for x in xs[1:]:
        e = e + S(x) * P(G, 3)
    return DLRep(P(G, 3 * sum(xs) % q), e)


def shared(rng, S, n):
    x = rng.randrange(order(G))
    s = S(x)
    bs = [rng.randrange(1, 10 ** 6) for _ in range(n)]
    return AndProofStmt(*[DLRep(P(G, x * b % order(G)), s * P(G, b)) for b in bs])


def repeated(rng, S, n):
    x = rng.randrange(order(G))
    s = S(x)
    return DLRep(P(G, 3 * n * x % order(G)), wsum_secrets([s] * n, [P(G, 3)] * n))


def linked(rng, S, n):
    """Each conjunct shares a secret with the next one."""
    q = order(G)
    xs = [rng.randrange(q) for _ in range(n + 1)]
    s = [S(x) for x in xs]
    return AndProofStmt(*[DLRep(P(G, (2 * xs[i] + 5 * xs[i + 1]) % q), s[i] * P(G, 2) + s[i + 1] * P(G, 5)) for i in range(n)])


def lacking(rng, S, n):
    one = rng.randrange(n)
    q = order(G)
    return OrProofStmt(*[dl(rng, S) if i == one else DLRep(P(G, rng.randrange(q)), Secret() * P(G, 7)) for i in range(n)])


def ranges(rng, S, n):
    x, r = rng.randrange(4), rng.randrange(order(G))
    return AndProofStmt(*[RangeStmt(P(G, (2 * x + 5 * r) % order(G)), P(G, 2), P(G, 5), 0, 4, S(x), S(r)) for _ in range(n)])


def unequal(rng, S, n):
    q = order(G)
    parts = []
    for _ in range(n):
        x = rng.randrange(q)
        parts.append(DLNotEqual((P(G, 2 * x % q), P(G, 2)), (P(G, (3 * x + 1) % q), P(G, 3)), S(x), bind=True))
    return AndProofStmt(*parts)


def flat(op, kids):
    s = kids[0]
    for k in kids[1:]:
        s = (s & k) if op == "and" else (s | k)
    return s


WIDTH = {
    "terms": (dl, [16, 64, 256]),
    "sum of terms": (added, [16, 64, 256]),
    "one secret in all terms": (repeated, [16, 64, 256]),
    "conjuncts": (lambda r, S, n: AndProofStmt(*[dl(r, S) for _ in range(n)]), [8, 32, 128]),
    "conjuncts with one secret": (shared, [8, 32, 128]),
    "linked conjuncts": (linked, [8, 32, 128]),
    "disjuncts": (lambda r, S, n: OrProofStmt(*[dl(r, S) for _ in range(n)]), [16, 64, 256]),
    "disjuncts lacking values": (lacking, [8, 32, 128]),
    "conjunction of disjunctions": (lambda r, S, n: AndProofStmt(*[OrProofStmt(dl(r, S), dl(r, S)) for _ in range(n)]), [6, 24, 96]),
    "disjunction of conjunctions": (lambda r, S, n: OrProofStmt(*[AndProofStmt(dl(r, S), dl(r, S)) for _ in range(n)]), [6, 24, 96]),
    "conjunction by operator": (lambda r, S, n: flat("and", [dl(r, S) for _ in range(n)]), [6, 24]),
    "disjunction by operator": (lambda r, S, n: flat("or", [dl(r, S) for _ in range(n)]), [6, 24]),
    "range proofs": (ranges, [2, 8, 32]),
    "inequalities": (unequal, [3, 12, 48]),
}


def deep(ops):
    def f(rng, S, n):
        st = dl(rng, S)
        for i in range(n):
            op = ops[i % len(ops)]
            kids = [st, dl(rng, S)]
            rng.shuffle(kids)
            st = (AndProofStmt if op == "and" else OrProofStmt)(*kids)
        return st

    return f


DEPTH = {"nested conjunctions": deep(["and"]), "nested disjunctions": deep(["or"]), "alternating": deep(["and", "or"]), "in pairs": deep(["and", "and", "or", "or"])}


def pow_range(rng, S, n):
    q = order(G)
    x, r = rng.randrange(2 ** n), rng.randrange(q)
    return PowerTwoRangeStmt(P(G, (2 * x + 5 * r) % q), P(G, 2), P(G, 5), n, S(x), S(r))


def any_range(rng, S, n):
    q = order(G)
    a = rng.randrange(100)
    x, r = a + rng.randrange(2 ** n - 1), rng.randrange(q)
    return RangeStmt(P(G, (2 * x + 5 * r) % q), P(G, 2), P(G, 5), bn(a), bn(a + 2 ** n - 1), S(x), S(r))


BITS = {"bits of a power-of-two range": pow_range, "bits of the width of a range": any_range}


def width(ctx, rng, i):
    name = list(WIDTH)[i % len(WIDTH)]
    f, sizes = WIDTH[name]
    k = rng.uniform(0.6, 1.3)
    # ranges want their values at once
    given = name == "range proofs" or rng.random() < 0.7
    sizes = [max(2, int(n * k)) for n in sizes[:-1]]
    sizes.append(4 * sizes[-1])
    sizes = sizes[-2:]
    # operators copy what has been composed so far, each time
    # and each or-proof in a conjunction is checked against all secrets of the conjunction
    most = 20 if "operator" in name or name in ("conjunction of disjunctions", "range proofs") else 5.5
    compare(ctx, "%s" % name, sizes, lambda n: triple(lambda S: f(rng, S, n), rng, given), most, 4.7, repeat=2, given=given)
    ctx.count("width_compared")


def depth(ctx, rng, i):
    name = list(DEPTH)[i % len(DEPTH)]
    n = rng.choice([6, 8, 10, 12])
    compare(ctx, name, [n, 2 * n], lambda n: triple(lambda S: DEPTH[name](rng, S, n), rng), 13, 2.6, repeat=4)
    ctx.count("depth_compared")


def bits(ctx, rng, i):
    name = list(BITS)[i % len(BITS)]
    n = rng.choice([3, 4, 5, 6, 8])
    compare(ctx, name, [n, 4 * n], lambda n: triple(lambda S: BITS[name](rng, S, n), rng, True), 20, 4.7, repeat=1)
    ctx.count("bits_compared")


def messages(ctx, rng, i):
    """Signed messages."""
    lo = rng.choice([3, 5, 7])
    bp = model.pair_ctx(0)
    pair = BBSPlusKeypair.generate(bp, 4 * lo + 2)
    sk, pk = pair.sk, pair.pk
    q = order("G1")
    prev = None
    for n in (lo, 4 * lo):
        ms = [bn(rng.randrange(q)) for _ in range(n)]
        cost = {}

        def issue():
            c = BBSPlusSignatureCreator(pk)
            com = c.commit(ms, zkp=True)
            return c.obtain_signature(sk.sign(com.com_message))

        cost["issue"], sig = Meter.run(issue)
        cost["check"], ok = Meter.run(lambda: sig.verify_signature(pk, ms))
        S = [Secret(), Secret()] + [Secret(value=m) for m in ms]
        cost["prove"], proof = Meter.run(lambda: BBSPlusSignatureStmt(list(S), pk, sig).prove())
        cost["verify"], ok2 = Meter.run(lambda: BBSPlusSignatureStmt([Secret() for _ in S], pk).verify(proof))
        size = len(proof.serialize())
        if not (ok and ok2):
            ctx.violation("refused", "BBS+ %d messages" % n)
        if prev:
            for k in cost:
                if cost[k] > 8 * prev[0][k] + 3000:
                    ctx.violation("work-grows", "BBS+, %s: %d, %d for four times as many messages" % (k, prev[0][k], cost[k]))
            if size > 4.7 * prev[1]:
                ctx.violation("size-grows", "BBS+: %d, %d for four times as many messages" % (prev[1], size))
        prev = cost, size
    ctx.count("messages")
    ctx.eval(("messages", lo))


def helpers(ctx, rng, i):
    g = rng.choice(["p224", "p256", "G1"])
    n = rng.choice([20, 30])
    grp = model.group(g)
    fs = {
        "make_generators": lambda n: make_generators(n, group=grp, seed=rng.randrange(10 ** 6)) if g != "G1" else None,
        "sum_bn_array": lambda n: sum_bn_array([bn(5)] * n, bn(101)),
        "wsum_secrets": lambda n: wsum_secrets([Secret(value=k) for k in range(n)], [P(g, 3)] * n),
        "eval": lambda n: wsum_secrets([Secret(value=k) for k in range(n)], [P(g, 3)] * n).eval(),
    }
    for name, f in fs.items():
        a = max(Meter.run(f, n)[0] for _ in range(3))
        b = min(Meter.run(f, 8 * n)[0] for _ in range(2))
        if b > 14 * a + 3000:
            ctx.violation("work-grows", "%s in %s: %d for %d, %d for %d" % (name, g, a, n, b, 8 * n))
        ctx.count("expressions")
        ctx.eval((name, g, n))
    ctx.count("generators")


# ---------------------------------------------------------------- copies of random trees


def renumbered(spec, k):
    """k copies of a tree, each with secrets of its own."""
    out = dict(copy.deepcopy(spec), secrets=[])
    kids = []
    for j in range(k):
        off = len(out["secrets"])
        s = copy.deepcopy(spec)
        for x in s["secrets"]:
            if x.get("name"):
                x["name"] += "_%d" % j
        out["secrets"] += s["secrets"]
        for n, _ in model.walk(s["n"]):
            for key in ("x", "r", "e", "sv"):
                if n.get(key) is not None and isinstance(n[key], int):
                    n[key] += off
            if "t" in n:
                n["t"] = [[x + off, b] for x, b in n["t"]]
            if "eqs" in n:
                n["eqs"] = [[y, [[x + off, b] for x, b in t]] for y, t in n["eqs"]]
            if n["k"] == "bbs":
                n["m"] = [x + off for x in n["m"]]
        kids.append(s["n"])
    return out, kids


WEIGHT = dict(rg=9, r2=5, bbs=6, ne=2)


def copies(ctx, rng, i):
    while True:
        spec = gen.gen_spec(rng, max_leaves=3, max_depth=2, groups=[("p224", 6), ("p256", 2), ("G1", 0.1)])
        if sum(WEIGHT.get(m["k"], 1) for m, _ in model.walk(spec["n"])) < 8 or rng.random() < 0.02:
            break
    op = rng.choice(["and", "or"])
    if spec["n"].get("sim"):
        spec["n"]["sim"] = False
    shape = model.shape(spec["n"])

    def make(k):
        s, kids = renumbered(spec, k)
        s["n"] = dict(k=op, s=kids)
        b = model.build(s, "p")
        return b.stmt, b.sdict, model.build(s, "v").stmt

    try:
        make(3)
    except Exception:
        ctx.count("not_composable")
        return
    k = rng.choice([3, 4, 5])
    if "bbs" in shape or "rg" in shape or "r2" in shape:
        k = 2
    compare(ctx, "%s of copies of %s" % (op, shape), [k, 4 * k], make, 20 if op == "and" and any(m["k"] in ("or", "r2", "rg", "plain") for m, _ in model.walk(spec["n"])) else 9, 4.7, repeat=2)
    ctx.count("copies_compared")


# ---------------------------------------------------------------- repetitions


def repetitions(ctx, rng, i):
    spec = gen.gen_spec(rng, max_leaves=rng.choice([1, 2, 3, 5]), max_depth=3, groups=[("p224", 6), ("p256", 2), ("G1", 0.6)])
    shape = model.shape(spec["n"])
    if "G1" in shape or "bbs" in shape:
        ctx.count("pairing")
    def objects():
        """What can be done with new objects: name: function"""
        b, v = model.build(spec, "p"), model.build(spec, "v")
        p, d, w = b.stmt, b.sdict, v.stmt
        prover, verifier = p.get_prover(d), w.get_verifier()
        first = p.prove(d)
        raw = first.serialize()
        bad = NIZK.deserialize(raw)
        tr = w.simulate()
        other = DLRep(P("bp512", 3), Secret(value=3) * P("bp512", 1))

        return {
            "prove": lambda: p.prove(d, message="x"),
            "prover": lambda: p.get_prover(d),
            "prover_again": lambda: prover.get_nizk_proof(),
            "verify": lambda: w.verify(bad),
            "refuse": lambda: drive.attempt(w.verify, bad, message="no"),
            "verifier_again": lambda: verifier.verify_nizk(bad),
            "simulate": w.simulate,
            "simulate_prover": p.simulate,
            "consistency": lambda: w.verify_simulation_consistency(tr),
            "live": lambda: drive.interact(p.get_prover(d), w.get_verifier()),
            "live_again": lambda: drive.interact(prover, verifier),
            "id": lambda: drive.attempt(w.get_proof_id),
            "compose": lambda: AndProofStmt(w, other),
            "compose_or": lambda: w | other,
            "vars": lambda: (w.get_secret_vars(), w.get_bases()),
            "deserialize": lambda: NIZK.deserialize(raw).serialize(),
            "abandon": lambda: p.get_prover(d).precommit(),
            "length": lambda: len(p.prove(d).serialize()),
            "eval": lambda: b.secrets and b.secrets[0] * P("p224", 3) + b.secrets[0] * P("p224", 3),
        }

    ops = objects()
    names = rng.sample(sorted(set(ops) - {"length"}), rng.choice([1, 1, 2, 3]))
    def once():
        for nm in names:
            drive.attempt(ops[nm])

    det = "%s with %s" % ("+".join(names), shape)
    costs, blocks, lens = [], [], []
    once()
    K = min(16, 2 * 10 ** 6 // (1 + Meter.run(once)[0]))
    if K < 4:
        ctx.count("too_heavy")
        return
    for r in range(3):
        part = []
        for _ in range(K // 2):
            part.append(Meter.run(once)[0])
            if "prove" in names and K > 10:
                lens.append(ops["length"]())
        costs.append(part)
        for _ in range(K - K // 2):
            once()
        gc.collect()
        blocks.append(sys.getallocatedblocks())
    ctx.eval((shape, tuple(names)), n=3 * K)
    ctx.count("repetitions_compared")
    # the first ones at their dearest, the last ones at their cheapest
    a, z = max(costs[0]), min(costs[2])
    if z > 1.02 * a + 40:
        # Or-proofs choose what to prove, which costs more or less. Does it get slower still?
        a2 = max(Meter.run(once)[0] for _ in range(20))
        for _ in range(100):
            once()
        z2 = min(Meter.run(once)[0] for _ in range(20))
        if z2 > 1.02 * a2 + 40:
            a, z = a2, z2
        else:
            # or is it at least slower than with objects that were not used before?
            z = min(z, z2)
            for _ in range(60):
                if z <= 1.02 * a + 40:
                    break
                used, ops = ops, objects()
                once()
                a = max(a, Meter.run(once)[0])
                ops = used
    if z > 1.02 * a + 40:
        ctx.violation("slower-with-use", "%s: at most %d instructions at first, at least %d later" % (det, a, z), spec=spec)
    ctx.count("blocks_compared")
    grown = min(blocks[1] - blocks[0], blocks[2] - blocks[1])
    if grown > 0.8 * K + 8:
        # once more, to tell apart a leak from something that is made once
        more = []
        for _ in range(3):
            s = sys.getallocatedblocks()
            for _ in range(2 * K):
                once()
            gc.collect()
            more.append(sys.getallocatedblocks() - s)
        if min(more) > 1.6 * K:
            ctx.violation("memory-kept", "%s: %s blocks more after %d repetitions each" % (det, more, 2 * K), spec=spec)
    if lens and max(lens[-4:]) > max(lens[:4]) * 1.3 + 64 and min(lens[-4:]) > max(lens[:4]):
        ctx.violation("larger-with-use", "%s: %s" % (det, lens), spec=spec)
    ctx.sample(dict(what=det, first=costs[0][:3], last=costs[2][-3:], blocks=blocks))


def case(ctx, rng, i):
    k = i % 12
    j = i // 12
    if k < 2:
        width(ctx, rng, 2 * j + k)
    elif k == 2:
        depth(ctx, rng, j)
    elif k == 3:
        bits(ctx, rng, j) if j % 3 else messages(ctx, rng, j)
    elif k == 4:
        helpers(ctx, rng, j)
    elif k < 8:
        copies(ctx, rng, i)
    else:
        repetitions(ctx, rng, i)
