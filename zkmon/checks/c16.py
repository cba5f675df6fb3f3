"""C16: unsound or malformed compositions are refused."""
import copy

from petlib.bn import Bn
from petlib.ec import EcGroup

from zkmon import gen, model, drive, adv, prims
from zkmon.checks.c06 import bound_secrets, rename, retarget, lca
from zkmon.model import bn, to_int, P, order

import zksk
from zksk import Secret, DLRep
from zksk.composition import AndProofStmt, OrProofStmt
from zksk.expr import wsum_secrets
from zksk.primitives.dl_notequal import DLNotEqual
from zksk.primitives.rangeproof import RangeStmt, PowerTwoRangeStmt
from zksk.primitives.bbsplus import BBSPlusSignatureStmt

ID = "C16"
TECHNIQUE = "fault injection into random statement trees (sharing of secrets that composition forbids, malformed parts); the library's prover, and a cheating prover whose messages are right in all else, against the library's verifier; acceptance monitors"
RULE = (
    "valid random trees where one secret is then used over groups of different orders, or inside and outside of an or-proof in a conjunction, at any two places; "
    "proven honestly (must be refused) and by a prover without checks (must not be accepted); and malformed statements of all kinds, also inside of trees; "
    "distinct by tree shape, places, fault, mode"
)
QUICK, THOROUGH = 1200, 40000
REQUIRED = [
    "refused_when_built",
    "order_prover", "order_verifier", "inout_prover", "inout_verifier", "calibrated", "valid_accepted", "in_simulated_subtree", "hidden_in_primitive", "identity_base",
    "under_or", "deep", "malformed", "missing_values", "by_name", "kind_dl", "kind_ne", "kind_rg", "kind_bbs", "kind_plain", "kind_blind",
]
KINDS = [("dl", 10), ("ne", 2.5), ("rg", 1), ("bbs", 0.25), ("plain", 2.0), ("blind", 1.5)]
MODES = ["interactive", "nizk", "nizk_wire"]


def rebind(n):
    """Secrets of a leaf that composition sees, including those in a primitive's or-proof."""
    if n["k"] == "plain":
        return model.leaf_secrets(n)
    return bound_secrets(n) if n["k"] != "bbs" else list(n["m"])


def leaves(spec, cond):
    return [(n, p) for n, p in model.walk(spec["n"]) if n["k"] not in ("and", "or") and rebind(n) and cond(n, p)]


def usable(spec, p):
    """Secrets with known values there."""
    n = adv.node_at(spec, p)
    return [s for s in rebind(n) if spec["secrets"][s]["v"] is not None]


def unify(rng, spec, pa, pb, small):
    """One secret for both leaves; everything is made true for its value. Returns it."""
    na, nb = adv.node_at(spec, pa), adv.node_at(spec, pb)
    a, b = usable(spec, pa), usable(spec, pb)
    if not a or not b:
        return None
    s, t = rng.choice(a), rng.choice(b)
    q = order(na["g"])
    if small:
        v = rng.choice([0, 0, 1, 5, 2 ** 20])
    else:
        v = spec["secrets"][s]["v"]
    spec["secrets"][s].update(v=v, ty="bn")
    for key in ("init",):
        if spec["secrets"][t].get(key):
            spec["secrets"][s][key] = True
    if rng.random() < 0.2:
        # two objects with one name are one secret
        spec["secrets"][s]["name"] = spec["secrets"][t]["name"] = "same"
        spec["secrets"][t].update(v=v, ty="bn", init=spec["secrets"][s].get("init"), how=spec["secrets"][s].get("how"))
        if not spec["secrets"][t]["init"]:
            spec["secrets"][t].pop("init")
        named = True
    else:
        rename(nb, t, s)
        named = False
    for x in {s, t} if named else {s}:
        for n, p in model.walk(spec["n"]):
            if n["k"] not in ("and", "or") and x in model.leaf_secrets(n) and model.known(spec, model.leaf_secrets(n)):
                retarget(rng, spec, p, x, v)
    return (s, t) if named else (s,)


def inject(rng, kind):
    """(valid spec, invalid spec, places, secrets) or None."""
    spec = gen.gen_spec(
        rng, root=rng.choice(["and", "and", "or"]), kinds=KINDS, max_leaves=rng.choice([2, 3, 3, 4, 5, 7]), max_depth=rng.choice([1, 2, 3, 4]), p_leaf=rng.choice([0.1, 0.35]),
        homog=0.2 if kind == "order" else 1.0, plain_forms=("and", "single", "or"), allow_missing=False, others=False,
    )
    adv.strip(spec)
    if not adv.leaf_all_true(spec, spec["n"]):
        return None
    ls = leaves(spec, lambda n, p: True)
    cands = []
    for n, p in ls:
        for m, r in ls:
            if kind == "order":
                if p < r and order(n["g"]) != order(m["g"]):
                    cands.append((p, r, None))
            elif order(n["g"]) == order(m["g"]) and p != r:
                # p below an or-proof (or hiding one) that is below a conjunction also holding r
                top = lca(p, r)
                if adv.node_at(spec, top)["k"] != "and":
                    # still forbidden if the or-proof with both has an inner one, under a conjunction: not here
                    continue
                below = [adv.node_at(spec, p[:j])["k"] for j in range(len(top) + 1, len(p))]
                hidden = n["k"] == "plain" and n["shape"] == "or" and len(n["eqs"]) > 1
                if "or" in below or hidden:
                    cands.append((p, r, hidden and "or" not in below))
    if not cands:
        return None
    bad = copy.deepcopy(spec)
    # hidden ones are rare
    hid = [c for c in cands if c[2]]
    pa, pb, hidden = rng.choice(hid) if hid and rng.random() < 0.6 else rng.choice(cands)
    ss = unify(rng, bad, pa, pb, kind == "order")
    if ss is None:
        return None
    if kind == "order" and rng.random() < 0.15:
        # in one of them, the secret is multiplied with the identity
        n = adv.node_at(bad, rng.choice([pa, pb]))
        vs = bad["secrets"]
        if n["k"] == "dl" and all(vs[j]["v"] is not None for j, _ in n["t"]):
            for e in n["t"]:
                if e[0] in ss:
                    e[1] = 0
            n["y"] = sum(vs[j]["v"] * b for j, b in n["t"]) % order(n["g"])
            hidden = "identity"
    if not adv.leaf_all_true(bad, bad["n"]):
        return None
    return spec, bad, pa, pb, ss, hidden


def prover_refuses(ctx, rng, spec, det):
    """Honest sessions must stop on the prover's side before it answers."""
    if rng.random() < 0.5:
        out = drive.attempt(lambda: (lambda b: b.stmt.prove(b.sdict))(model.build(spec, "p")))
        if out.err is None and out.value is not None:
            return "prove() made a proof"
        return None

    def run():
        b = model.build(spec, "p")
        p = b.stmt.get_prover(b.sdict)
        p.precommit()
        p.commit()
        return p.compute_response(bn(rng.randrange(2 ** 128)))

    out = drive.attempt(run)
    if out.err is None and out.value is not None:
        return "the prover answered a challenge"


def cheat(rng, spec, pa, pb, ss, mode, simulate):
    """The leaves' own provers, without the checks of composition."""
    sims = None
    top = lca(pa, pb)
    if simulate:
        # everything faulty is in a simulated disjunct
        for j in range(len(top), 0, -1):
            if adv.node_at(spec, top[: j - 1])["k"] == "or":
                par = top[: j - 1]
                others = [i for i, c in enumerate(adv.node_at(spec, par)["s"]) if i != top[j - 1] and adv.leaf_all_true(spec, c)]
                if others and adv.reachable(spec, par):
                    keep = rng.choice(others)
                    sims = adv.pick_real(rng, spec, par, [i for i in range(len(adv.node_at(spec, par)["s"])) if i != keep])
                    break
        if sims is None:
            return None
    else:
        if not adv.reachable(spec, pa):
            return None
        sims = adv.pick_real(rng, spec, pa)
    b = model.build(spec, "p", simflags=False)
    rd = adv.shared_randomizers(rng, spec, b)
    for s in ss:
        rd[b.secrets[s]] = bn(rng.randrange(2 ** 180))
    if len(ss) == 2:
        rd[b.secrets[ss[1]]] = rd[b.secrets[ss[0]]]
    a = drive.attempt(adv.Adv, spec, adv.honest_leaves(spec, b, rd), sims, rng)
    if a.err is not None:
        return None
    return drive.attempt(adv.session, lambda: model.build(spec, "v").stmt, a.value, None, None, mode)


def composition(ctx, rng, kind):
    for _ in range(400):
        x = inject(rng, kind)
        if x is not None:
            break
    else:
        ctx.count("no_place")
        return
    good, bad, pa, pb, ss, hidden = x
    mode = rng.choice(MODES)
    na, nb = adv.node_at(bad, pa), adv.node_at(bad, pb)
    shape = model.shape(bad["n"])
    det = "%s: %s and %s of %s" % (kind, pa, pb, shape)
    # calibration: without the fault, it is a fine statement
    out = drive.attempt(lambda: model.build(good, "v").stmt.verify((lambda b: b.stmt.prove(b.sdict))(model.build(good, "p"))))
    if out.accept:
        ctx.count("valid_accepted")
    else:
        ctx.count("calibration_failed")
        ctx.collect("calib", "valid tree %s: %r" % (model.shape(good["n"]), out))
    out = cheat(rng, good, pa, pb, (), mode, False)
    if out is not None:
        if out.accept:
            ctx.count("calibrated")
        else:
            ctx.count("calibration_failed")
            ctx.collect("calib", "cheating prover, valid tree %s: %r" % (model.shape(good["n"]), out))
    ctx.eval((kind, shape, pa, pb, mode))
    for n in (na, nb):
        ctx.count("kind_" + n["k"])
    if hidden == "identity":
        ctx.count("identity_base")
    elif hidden:
        ctx.count("hidden_in_primitive")
    if bad["n"]["k"] == "or":
        ctx.count("under_or")
    if max(len(pa), len(pb)) > 2:
        ctx.count("deep")
    if len(ss) == 2:
        ctx.count("by_name")
    # the honest prover refuses
    for flag in (False, True):
        spec = bad
        if flag:
            # with the fault in a part that is to be simulated
            top = lca(pa, pb)
            ks = [j for j in range(1, len(top) + 1) if adv.node_at(bad, top[: j - 1])["k"] == "or"]
            if not ks:
                continue
            spec = copy.deepcopy(bad)
            adv.node_at(spec, top[: rng.choice(ks)])["sim"] = True
            if not model.provable(spec, spec["n"]):
                continue
            ctx.count("in_simulated_subtree")
        why = prover_refuses(ctx, rng, spec, det)
        ctx.count(kind + "_prover")
        if why:
            ctx.violation(kind + "-not-refused-by-prover", "%s: %s" % (det, why), spec=spec)
            return
    # the verifier does not accept what a prover without checks sends
    for simulate in (False, True):
        out = cheat(rng, bad, pa, pb, ss, mode, simulate)
        if out is None:
            continue
        ctx.count(kind + "_verifier")
        ctx.count("verifier_raised_%s" % type(out.err).__name__ if out.err is not None else "verifier_said_no")
        if out.accept:
            ctx.violation(kind + "-accepted", "%s (%s, %s): %r" % (det, mode, "simulated" if simulate else "proven", out), spec=bad)
            return
    ctx.sample(dict(what=det, mode=mode))


# ---------------------------------------------------------------- malformed statements


def malformed(rng):
    """(name, function making a statement and the values); the statement is not a sensible one."""
    g = rng.choice(["p224", "p256", "p384", "G1"])
    others = [h for h in ("p224", "p256", "p192", "G1") if h != g]
    o = rng.choice(others)
    q = order(g)
    x = Secret(value=bn(rng.randrange(1, 2 ** 60)))
    y = Secret(value=bn(rng.randrange(1, 2 ** 60)))
    xv, yv = to_int(x.value), to_int(y.value)
    ok = lambda: DLRep(P(g, xv), x * P(g, 1))
    c = rng.randrange(20)
    if c == 0:
        t = [(x, P(g, 1 + k)) for k in range(rng.choice([1, 1, 2, 3, 6]))]
        t.insert(rng.randrange(len(t) + 1), (y, P(o, 1)))
        if rng.random() < 0.5:
            return "mixed bases", lambda: DLRep(P(g, xv + yv), wsum_secrets([s for s, _ in t], [b for _, b in t]))
        return "mixed bases", lambda: DLRep(P(g, xv + yv), sum((s * b for s, b in t[1:]), t[0][0] * t[0][1]))
    if c == 1:
        return "lhs of another group", lambda: DLRep(P(o, xv), x * P(g, 1))
    if c == 2:
        return "no conjunct", lambda: AndProofStmt()
    if c == 3:
        return "one conjunct", lambda: AndProofStmt(ok())
    if c == 4:
        return "one disjunct", lambda: OrProofStmt(ok())
    if c == 5:
        return "no disjunct", lambda: OrProofStmt()
    if c == 6:
        n, m = rng.sample([1, 2, 3], 2)
        S = [Secret(value=bn(1)) for _ in range(n)]
        return "wsum lengths", lambda: DLRep(P(g, min(n, m)), wsum_secrets(S, [P(g, 1)] * m))
    if c == 7:
        return "empty sum", lambda: DLRep(P(g, 0), wsum_secrets([], []))
    if c == 8:
        bad = rng.choice([1, None, "x", P(g, 1), [x * P(g, 1)], (x, P(g, 1))])
        return "not an expression", lambda: DLRep(P(g, 1), bad)
    if c == 9:
        bad = rng.choice([1, None, "x", 0, b"", [P(g, xv)], bn(3)])
        return "lhs not a point", lambda: DLRep(bad, x * P(g, 1))
    if c == 10:
        bad = rng.choice([1, None, "x", bn(5), [P(g, 1)]])
        return "base not a point", lambda: DLRep(P(g, xv), x * bad)
    if c == 11:
        bad = rng.choice([1, None, "x", P(g, 1)])
        cls = rng.choice([AndProofStmt, OrProofStmt])
        subs = [ok(), bad]
        rng.shuffle(subs)
        return "subproof not a statement", lambda: cls(*subs)
    if c == 12:
        v, i = (P(g, xv), P(g, 1)), (P(g, 7 * xv + 1), P(g, 7))
        v2, i2 = rng.choice([(v[:1], i), (v, i[:1]), (v + v[:1], i), (v, i + i[:1]), ((), i), (v, ())])
        return "pairs of wrong length", lambda: DLNotEqual(v2, i2, x, bind=rng.random() < 0.5)
    if c == 13:
        return "second pair of another group", lambda: DLNotEqual((P(g, xv), P(g, 1)), (P(o, xv + 1), P(o, 1)), x, bind=rng.random() < 0.5)
    if c == 14:
        H = rng.choice([P(o, 3 * xv), None, 5])
        return "points of the valid pair differ", lambda: DLNotEqual((H, P(g, 1)), (P(g, 1 + 3 * xv), P(g, 3)), x, bind=rng.random() < 0.5)
    if c == 15:
        v = rng.choice([1, 2, 3])
        z = Secret(value=bn(v))
        a = [P(g, v + 5 * xv), P(g, 1), P(g, 5)]
        j = rng.randrange(3)
        a[j] = P(o, 1 + j)
        if rng.random() < 0.5:
            return "range over groups", lambda: PowerTwoRangeStmt(a[0], a[1], a[2], 3, z, x)
        return "range over groups", lambda: RangeStmt(a[0], a[1], a[2], 0, 7, z, x)
    if c == 16:
        nb = rng.choice([0, -1, None, "3", 2.5])
        z = Secret(value=bn(0))
        return "number of bits", lambda: PowerTwoRangeStmt(P(g, 5 * xv), P(g, 1), P(g, 5), nb, z, x)
    if c == 17:
        z = Secret(value=bn(3))
        a, b = rng.choice([(5, 2), (3, 3), (4, 3), (3, 0)])
        return "empty range", lambda: RangeStmt(P(g, 3 + 5 * xv), P(g, 1), P(g, 5), a, b, z, x)
    if c == 18:
        pk = model.bbs_key(0)[1]
        ms = [1, 2]
        sig = model.bbs_sig(0, ms, 5, 6)
        # more or fewer messages than were signed
        n = rng.choice([1, 3, 4])
        S = [Secret(value=bn(v)) for v in [1, 2, 3, 4][:n]]
        bind = rng.random() < 0.5
        return "signature of other length", lambda: BBSPlusSignatureStmt(([Secret(), Secret()] if bind else []) + S, pk, sig, binding=bind)
    pk = model.bbs_key(0)[1]
    sig = model.bbs_sig(0, [1], 5, 6)
    return "more messages than generators", lambda: BBSPlusSignatureStmt([Secret(), Secret()] + [Secret(value=bn(1)) for _ in range(model.NUM_GENS + 2)], pk, sig)


def wrap(rng, name, mk):
    """The malformed statement somewhere in a tree."""
    c = rng.randrange(4)
    x = Secret(value=bn(3))
    ok = lambda: DLRep(P("p224", 9), x * P("p224", 3))
    no = lambda: DLRep(P("p224", 8), x * P("p224", 3))
    if c == 0:
        return name, mk
    if c == 1:
        return name + ", in a conjunction", lambda: ok() & mk() if rng.random() < 0.5 else AndProofStmt(mk(), ok())
    if c == 2:
        def f():
            other = ok()
            other.set_simulated()
            return OrProofStmt(*rng.sample([other, mk()], 2))

        return name + ", in a disjunction", f

    def h():
        other = no()
        other.set_simulated()
        return AndProofStmt(ok(), OrProofStmt(mk(), other))

    return name + ", nested", h


# cannot even be built
UNBUILDABLE = ("mixed bases", "no conjunct", "one conjunct", "no disjunct", "one disjunct", "wsum lengths", "not an expression", "base not a point", "pairs of wrong length")


def bad_statement(ctx, rng):
    name, mk = malformed(rng)
    if name in UNBUILDABLE:
        out = drive.attempt(mk)
        if out.err is None:
            ctx.violation("malformed-built", "%s: %s" % (name, type(out.value).__name__))
            return
        ctx.count("refused_when_built")
    name, mk = wrap(rng, name, mk)
    mode = rng.choice(["nizk", "wire", "interactive"])

    def run():
        st = mk()
        if mode == "interactive":
            return drive.interact(st.get_prover(), mk().get_verifier())
        n = st.prove()
        return mk().verify(drive.transport(n, "obj" if mode == "nizk" else "ser"))

    out = drive.attempt(run)
    ctx.count("malformed")
    ctx.eval(("malformed", name, mode))
    if out.accept:
        ctx.violation("malformed-accepted", "%s (%s): %r" % (name, mode, out))


def missing(ctx, rng):
    """A secret value that nothing can do without is not there."""
    spec = gen.gen_spec(rng, max_leaves=rng.choice([1, 2, 3, 4]), max_depth=3, allow_missing=False, others=False, kinds=[("dl", 8), ("ne", 3), ("bbs", 0.5), ("r2", 1), ("rg", 1)], shared_or=True)
    adv.strip(spec)
    needed = [p for n, p in model.walk(spec["n"]) if n["k"] not in ("and", "or") and all(adv.node_at(spec, p[:j])["k"] == "and" for j in range(len(p)))]
    if not needed:
        # below an or-proof: take it from all disjuncts
        victims = [s for n, p in model.walk(spec["n"]) if n["k"] not in ("and", "or") for s in model.leaf_secrets(n)[:1]]
    else:
        victims = [rng.choice(model.leaf_secrets(adv.node_at(spec, rng.choice(needed))))]
    for v in victims:
        spec["secrets"][v]["v"] = None
    if model.provable(spec, spec["n"]):
        return
    shape = model.shape(spec["n"])

    def run():
        b = model.build(spec, "p")
        return b.stmt.prove(b.sdict)

    out = drive.attempt(run)
    ctx.count("missing_values")
    ctx.eval(("missing", shape))
    if out.err is None and out.value is not None:
        res = drive.attempt(lambda: model.build(spec, "v").stmt.verify(out.value))
        if res.accept:
            ctx.violation("proven-without-values", "%s: %s" % (shape, victims), spec=spec)


def case(ctx, rng, i):
    k = i % 6
    if k < 2:
        composition(ctx, rng, "order")
    elif k < 4:
        composition(ctx, rng, "inout")
    elif k == 4:
        for _ in range(3):
            bad_statement(ctx, rng)
    else:
        missing(ctx, rng)
