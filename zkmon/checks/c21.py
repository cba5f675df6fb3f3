"""C21: an or-proof can be proven whenever one disjunct can be."""
import copy

from zkmon import core, gen, model, drive, prims
from zkmon.model import bn, P, order

from zksk import Secret, DLRep
from zksk.composition import AndProofStmt, OrProofStmt

ID = "C21"
TECHNIQUE = "random or-proofs with many disjuncts of which the integer model knows which ones can be proven; many provers of each (the library picks at random), monitors on every outcome; none may fail, and none may succeed where no disjunct can be proven"
RULE = (
    "or-proofs with 2 to 40 disjuncts (primitives, custom primitives, nested and/or) at the root or inside of trees, provable ones at random places, others without secret values or marked as simulated in any way; "
    "several provers per statement; distinct by shape and mode"
)
QUICK, THOROUGH = 1100, 50000
REQUIRED = [
    "proofs_accepted", "one_provable", "none_provable", "no_proof", "lacking_values", "flagged", "lacking_bbs", "lacking_rg", "lacking_r2", "lacking_ne", "lacking_nested", "flagged_nested", "custom_lacking",
    "wide", "deep", "reused_statement", "interactive", "values_later", "flag_later", "written_with_operators", "marked_and", "marked_or",
    "edge_dl", "edge_ne", "edge_r2", "edge_rg", "edge_bbs", "edge_plain", "edge_blind",
]
KINDS = [("dl", 10), ("ne", 4), ("r2", 1), ("rg", 1.3), ("bbs", 0.3), ("plain", 0.8), ("blind", 1.5)]
GROUPS = [("p224", 10), ("p256", 6), ("secp256k1", 1), ("G1", 0.6), ("bp512", 0.2)]


def tries(ctx, spec, rng, n, shape):
    """n provers; returns False after the first failure."""
    b = v = None
    for t in range(n):
        fresh = b is None or rng.random() < 0.4
        if fresh:
            b, v = model.build(spec, "p"), model.build(spec, "v")
        else:
            ctx.count("reused_statement")
        how = rng.choice(["nizk", "nizk", "live"])

        def go():
            if how == "nizk":
                return v.stmt.verify(drive.transport(b.stmt.prove(b.sdict, message="m%d" % t), rng.choice(["obj", "ser"])), message="m%d" % t)
            ctx.count("interactive")
            return drive.interact(b.stmt.get_prover(b.sdict), v.stmt.get_verifier())

        out = drive.attempt(go)
        if not out.accept:
            ctx.violation("provable-not-proven", "prover %d (%s, %s objects) of %s: %r" % (t, how, "new" if fresh else "the same", shape, out), spec=spec)
            return False
        ctx.count("proofs_accepted")
    return True


def note(ctx, spec):
    """What keeps the other disjuncts from being proven."""
    for n, path in model.walk(spec["n"]):
        if n["k"] != "or":
            continue
        able = [c for c in n["s"] if model.provable(spec, c)]
        if len(able) == 1:
            ctx.count("one_provable")
        if len(n["s"]) > 6:
            ctx.count("wide")
        if len(path) >= 2:
            ctx.count("deep")
        for c in n["s"]:
            if c in able:
                continue
            nested = "_nested" if c["k"] in ("and", "or") else ""
            if c.get("sim"):
                ctx.count("flagged")
                ctx.count("flagged" + nested)
            else:
                ctx.count("lacking_values")
                ctx.count("lacking" + (nested or "_" + c["k"]))


def able(ctx, rng, i):
    spec = None
    for _ in range(60):
        spec = gen.gen_spec(
            rng, extreme=0.06, root=rng.choice(["or", "or", None, "and"]), max_depth=rng.choice([1, 2, 3, 4]), max_leaves=rng.choice([2, 3, 4, 6, 10]), kinds=KINDS, groups=GROUPS, p_leaf=0.3, homog=0.9,
            plain_forms=("and", "single", "or"),
        )
        if any(n["k"] == "or" and not all(model.provable(spec, c) for c in n["s"]) for n, _ in model.walk(spec["n"])):
            break
    shape = model.shape(spec["n"])
    note(ctx, spec)
    n = 6 if "bbs" not in shape else 4
    ctx.eval((shape,), n=n)
    if tries(ctx, spec, rng, n, shape):
        ctx.sample(dict(shape=shape, provers=n))


def wide(ctx, rng, i):
    """Many disjuncts of one kind or of all; exactly one can be proven."""
    nk = rng.choice([3, 6, 10, 20, 40])
    kinds = rng.choice([[("dl", 1)], [("dl", 1)], [("ne", 1)], [("dl", 6), ("ne", 3), ("blind", 1)], KINDS]) if nk <= 10 else [("dl", 1)]
    for _ in range(30):
        g = gen.Gen(rng, kinds=kinds, groups=GROUPS[:2], max_depth=rng.choice([1, 2]), max_leaves=nk + 3, p_leaf=0.8, homog=1.0)
        at = rng.randrange(nk)
        subs = []
        for j in range(nk):
            subs.append(g.node(1, [], "true" if j == at else rng.choice(["missing", "missing", "sim"]), False))
        spec = dict(n=dict(k="or", s=subs), secrets=g.secrets, vnames=False)
        if rng.random() < 0.3:
            spec["n"] = dict(k="and", s=[spec["n"], g.leaf([], "true")])
        if model.provable(spec, spec["n"]) and model.truth(spec, spec["n"]) is True and gen.composition_ok(spec):
            break
    else:
        return
    shape = model.shape(spec["n"])
    note(ctx, spec)
    ctx.eval((shape,), n=4)
    tries(ctx, spec, rng, 4, shape)


EDGES = [(k, v, ty) for k in ("dl", "ne", "r2", "rg", "bbs", "plain", "blind") for v in (0, 1, -1) for ty in ("int", "bn") if (k, v) != ("r2", -1)]


def edges(ctx, rng, i):
    """Only one disjunct has its values, and all of these are 0, 1 or -1."""
    kind, val, ty = EDGES[i % len(EDGES)]
    for _ in range(50):
        g = gen.Gen(rng, kinds=[(kind, 1)], groups=GROUPS[:2], max_depth=1, max_leaves=4, homog=1.0, values=[val])
        subs = [g.leaf([], "true")]
        g.kinds = [("dl", 3), ("ne", 1)]
        for j in range(rng.choice([1, 1, 2, 4])):
            subs.append(g.leaf([], "missing"))
        rng.shuffle(subs)
        spec = dict(n=dict(k="or", s=subs), secrets=g.secrets, vnames=False)
        for s in g.secrets:
            s["ty"] = ty
        if model.provable(spec, spec["n"]) and model.truth(spec, spec["n"]) is True and gen.composition_ok(spec):
            break
    else:
        ctx.count("edge_impossible")
        return
    shape = "%s; values %d" % (model.shape(spec["n"]), val)
    note(ctx, spec)
    ctx.eval((shape,), n=3)
    if tries(ctx, spec, rng, 3, shape):
        ctx.count("edge_%s" % kind)


def none(ctx, rng, i):
    """No disjunct can be proven: no proof, and nothing that a verifier accepts."""
    g = gen.Gen(rng, kinds=KINDS, groups=GROUPS, max_depth=rng.choice([1, 2, 3]), max_leaves=rng.choice([2, 3, 5, 8]), p_leaf=0.4, homog=0.9)
    if rng.random() < 0.7:
        n = g.compose("or", rng.choice([2, 2, 3, 5]), g.max_depth, [], "missing", False)
    else:
        n = dict(k="and", s=[g.node(2, [], "true", True), g.compose("or", rng.choice([2, 3]), 2, [], "missing", True)])
        if rng.random() < 0.5:
            n["s"].reverse()
    spec = dict(n=n, secrets=g.secrets, vnames=False)
    if model.provable(spec, n) or not gen.composition_ok(spec):
        return
    shape = model.shape(n)
    ctx.count("none_provable")
    ctx.eval(("none", shape), n=3)
    b, v = model.build(spec, "p"), model.build(spec, "v")
    for t in range(3):
        out = drive.attempt(b.stmt.prove, b.sdict)
        if out.err is None and out.value is not None:
            ver = drive.attempt(lambda: v.stmt.verify(out.value))
            ctx.violation("unprovable-proven", "%s: a proof was made, and verification of it %r" % (shape, ver), spec=spec)
            return
        live = drive.attempt(lambda: drive.interact(b.stmt.get_prover(b.sdict), v.stmt.get_verifier()))
        if live.accept:
            ctx.violation("unprovable-accepted", "%s: %r" % (shape, live), spec=spec)
            return
        ctx.count("no_proof", 2)


class Guarded(prims.BlindPrim):
    """A custom primitive that tells whether it has its values."""

    def is_provable(self):
        return super().is_provable() and self.x.value is not None


def custom(ctx, rng, i):
    """Custom primitives, with and without their secret values."""
    g = rng.choice(["p224", "p256"])
    q = order(g)
    nk = rng.choice([2, 3, 4, 6])
    can = [rng.random() < 0.3 for _ in range(nk)]
    can[rng.randrange(nk)] = True
    if rng.random() < 0.2:
        can = [False] * nk
    xs = [rng.randrange(q) for _ in range(nk)]
    bs = [[rng.randrange(1, q) for _ in range(3)] for _ in range(nk)]
    kinds = [rng.choice(["guarded", "guarded", "dl", "and"]) for _ in range(nk)]
    cont = rng.choice(prims.CONTAINERS)
    how = rng.choice(["init", "dict"])

    def make(role):
        S, d = [], {}
        subs = []
        for x, b, ok, kind in zip(xs, bs, can, kinds):
            s = Secret()
            if role == "p" and ok:
                if how == "init":
                    s.value = bn(x)
                else:
                    d[s] = bn(x)
            pts = [P(g, t) for t in b]
            lhs = P(g, x * b[0])
            if kind == "dl":
                subs.append(DLRep(lhs, s * pts[0]))
            elif kind == "guarded":
                subs.append(Guarded(lhs, *pts, s, cont))
            else:
                subs.append(AndProofStmt(Guarded(lhs, *pts, s, cont), DLRep(P(g, x * b[1]), s * pts[1])))
        return OrProofStmt(*subs), d

    p, d = make("p")
    v, _ = make("v")
    ctx.eval(("custom", tuple(kinds), tuple(can), how), n=5)
    ctx.count("custom_lacking", can.count(False))
    for t in range(5):
        out = drive.attempt(p.prove, d)
        if not any(can):
            ctx.count("none_provable")
            if out.err is None and out.value is not None:
                ctx.violation("unprovable-proven", "custom %s: %r" % (kinds, out))
                return
            ctx.count("no_proof")
            continue
        ok = drive.attempt(v.verify, out.value) if out.err is None else out
        if not ok.accept:
            ctx.violation("provable-not-proven", "custom disjuncts %s, with values %s (%s), prover %d: %r" % (kinds, can, how, t, ok))
            return
        ctx.count("proofs_accepted")


def later(ctx, rng, i):
    """Values or marks that come and go between proofs with one statement."""
    g = rng.choice(["p224", "p256", "secp256k1"])
    q = order(g)
    nk = rng.choice([2, 3, 5])
    xs = [rng.randrange(q) for _ in range(nk)]
    bs = [rng.randrange(1, q) for _ in range(nk)]
    S = [Secret() for _ in range(nk)]
    mk = lambda s: OrProofStmt(*[DLRep(P(g, x * b), t * P(g, b)) for x, b, t in zip(xs, bs, s)])
    p, v = mk(S), mk([Secret() for _ in range(nk)])
    outer = rng.random() < 0.4
    if outer:
        z = Secret(value=bn(rng.randrange(q)))
        mk2 = lambda st, s: AndProofStmt(DLRep(P(g, 7 * core_int(z.value)), s * P(g, 7)), st)
        p, v = mk2(p, z), mk2(v, Secret())
    orr = p.subproofs[1] if outer else p
    log = []
    ctx.eval(("later", nk, outer, g), n=8)

    def expect(d, want):
        out = drive.attempt(p.prove, d)
        ok = drive.attempt(v.verify, out.value) if out.err is None and out.value is not None else out
        if want and not ok.accept:
            ctx.violation("provable-not-proven", "after %s: %r" % (log, ok))
            return False
        if not want and out.err is None and out.value is not None:
            ctx.violation("unprovable-proven", "after %s: verification %r" % (log, ok))
            return False
        ctx.count("proofs_accepted" if want else "no_proof")
        return True

    if not expect({}, False):
        return
    log.append("without values")
    have, flagged = set(), set()
    for _ in range(7):
        j = rng.randrange(nk)
        t = rng.random()
        d = {}
        if t < 0.5:
            have.add(j)
            d = {S[j]: bn(xs[j]) if rng.random() < 0.7 else xs[j]}
            log.append("value %d" % j)
            ctx.count("values_later")
        elif t < 0.75:
            orr.subproofs[j].set_simulated()
            flagged.add(j)
            log.append("mark %d" % j)
            ctx.count("flag_later")
        else:
            orr.subproofs[j].set_simulated(False)
            flagged.discard(j)
            log.append("unmark %d" % j)
        for k in have:
            d[S[k]] = bn(xs[k])
        if not expect(d, bool(have - flagged)):
            return


def operators(ctx, rng, i):
    """Trees written with & and | (which flatten), with marks on parts that do not hold."""
    g = rng.choice(["p224", "p256", "secp256k1"])
    q = order(g)
    count = [0]

    def tree(depth, good, kind=None):
        """good: can be proven, and every way of proving it works; otherwise it is marked or lacks values."""
        if depth == 0 or kind is None and rng.random() < 0.3:
            count[0] += 1
            x, b = rng.randrange(q), rng.randrange(1, q)
            if good:
                return dict(k="dl", x=x, b=b, y=x * b)
            if rng.random() < 0.5:
                return dict(k="dl", x=None, b=b, y=x * b)
            return dict(k="dl", x=x, b=b, y=rng.choice([x * b, x * b + 1]), mark=True)
        k = kind or rng.choice(["and", "or"])
        nk = rng.choice([2, 2, 3, 4])
        if good:
            at = rng.randrange(nk)
            subs = [tree(depth - 1, k == "and" or j == at) for j in range(nk)]
            return dict(k=k, s=subs)
        t = rng.random()
        if t < 0.7:
            # marked as a whole; what is inside may be wrong and have all values
            return dict(k=k, s=[false(depth - 1) for _ in range(nk)], mark=True)
        at = rng.randrange(nk)
        return dict(k=k, s=[tree(depth - 1, k == "and" and j != at) for j in range(nk)])

    def false(depth):
        if depth <= 0 or rng.random() < 0.5:
            count[0] += 1
            x, b = rng.randrange(q), rng.randrange(1, q)
            return dict(k="dl", x=x, b=b, y=x * b + rng.randrange(1, q))
        return dict(k=rng.choice(["and", "or"]), s=[false(depth - 1) for _ in range(2)])

    def build(n, role):
        if n["k"] == "dl":
            st = DLRep(P(g, n["y"]), Secret(value=bn(n["x"]) if role == "p" and n["x"] is not None else None) * P(g, n["b"]))
        else:
            parts = [build(c, role) for c in n["s"]]
            cut = n.setdefault("cut", rng.choice([0, 0, rng.randrange(1, len(parts))]))
            join = (lambda a, b: a & b) if n["k"] == "and" else (lambda a, b: a | b)

            def fold(ps):
                st = ps[0]
                for c in ps[1:]:
                    st = join(st, c)
                return st

            st = join(fold(parts[:cut]), fold(parts[cut:])) if cut else fold(parts)
        if role == "p" and n.get("mark"):
            st.set_simulated()
            ctx.count("marked_" + n["k"])
        return st

    def text(n):
        f = "~" if n.get("mark") else ""
        return f + ("dl" if n["k"] == "dl" and n["x"] is not None else "?" if n["k"] == "dl" else n["k"] + "(" + ",".join(map(text, n["s"])) + ")")

    for _ in range(20):
        count[0] = 0
        n = tree(rng.choice([2, 3, 4]), True, "or")
        if count[0] <= 14:
            break
    shape = "written " + text(n)
    ctx.eval((shape,), n=8)
    p = v = None
    for t in range(8):
        if p is None or rng.random() < 0.5:
            p, v = build(n, "p"), build(n, "v")
        out = drive.attempt(lambda: v.verify(p.prove()) if rng.random() < 0.7 else drive.interact(p.get_prover(), v.get_verifier()))
        if not out.accept:
            ctx.violation("provable-not-proven", "prover %d of %s: %r" % (t, shape, out))
            return
        ctx.count("proofs_accepted")
        ctx.count("written_with_operators")


def core_int(b):
    return model.to_int(b)


def case(ctx, rng, i):
    k = i % 10
    if k == 9:
        edges(ctx, rng, i // 10)
    elif k == 8:
        operators(ctx, rng, i)
    elif k < 4:
        able(ctx, rng, i)
    elif k == 4:
        wide(ctx, rng, i)
    elif k == 5:
        none(ctx, rng, i)
    elif k == 6:
        custom(ctx, rng, i)
    else:
        later(ctx, rng, i)
