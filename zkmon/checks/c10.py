"""C10: proofs of inequality of discrete logs are complete and sound."""
import copy

from zkmon import gen, model, drive, adv, formal
from zkmon.model import bn, to_int, order, P
from zkmon.checks.c09 import place

from zksk import Secret, DLRep
from zksk.composition import AndProofStmt, OrProofStmt
from zksk.primitives.dl_notequal import DLNotEqual

ID = "C10"
TECHNIQUE = "honest proofs over boundary values and placements, and adversarial sessions (identity and foreign precommitments, split witnesses), acceptance monitor against the integer model; over a formal group, an attacker solves whatever equations the verifier's code checks"
RULE = (
    "pairs (H0, h0), (H1, h1) with equal, nearly equal and random logarithms, special exponents, every placement; cheating provers send the "
    "identity, other points or other objects as precommitment, use different internal witnesses per equation, or another "
    "x in the binding equation; over formal groups, provers who solve whatever equations the verifier checks for"
    " precommitments of many forms; distinct by kind, placement, group, attack"
)
QUICK, THOROUGH = 6000, 100000
ATTACKS = ["identity", "identity", "identity_zero", "identity_foreign", "two_witnesses", "random_point", "object", "wrong_log", "bind_other", "alpha_only", "beta_zero"]
REQUIRED = ["unequal_accepted", "equal_refused", "wrong_pair_refused", "place_and", "place_or", "place_nested", "place_bare", "identity_from_honest_prover", "formal_attacks"] + ["evil_" + a for a in set(ATTACKS)]


def xval(rng, q):
    return rng.choice([0, 1, 2, q - 1, q, q + 1, -1, (q - 1) // 2, rng.randrange(q), rng.randrange(q), rng.randrange(100)])


def sec(rng, q, v):
    return dict(q=q, v=v, ty=rng.choice(["int", "bn"]), how=rng.choice(["init", "dict"]))


def case(ctx, rng, i):
    if i % 8 == 6:
        return formal_case(ctx, rng)
    if i % 2:
        return evil(ctx, rng, i // 2)
    g = gen.wchoice(rng, [x for x in gen.GROUPS_W if x[0] != "GT"])
    q = order(g)
    x = xval(rng, q)
    h0 = rng.choice([1, 2, q - 1, rng.randrange(1, q), rng.randrange(1, q)])
    h1 = rng.choice([h0, 1, q - h0, rng.randrange(1, q), rng.randrange(1, q)])
    kind = rng.choice(["unequal", "unequal", "equal", "wrong_pair"])
    H0 = x * h0 % q
    if kind == "equal":
        H1 = x * h1 % q
    else:
        d = rng.choice([h1, q - h1, 1, q - 1, rng.randrange(1, q), (-x * h1) % q or 1, (-2 * x * h1) % q or 1])
        H1 = (x * h1 + d) % q
    if kind == "wrong_pair":
        H0 = (H0 + rng.choice([1, h0, rng.randrange(1, q)])) % q
    leaf = dict(k="ne", g=g, v=[H0, h0], i=[H1, h1], x=0, bind=rng.random() < 0.5)
    spec = dict(secrets=[sec(rng, q, x)])
    place(rng, spec, leaf)
    mode = rng.choice(["nizk", "interactive", "wire"])

    def run():
        b = model.build(spec, "p")
        v = model.build(spec, "v").stmt
        if mode == "nizk":
            return v.verify(drive.transport(b.stmt.prove(b.sdict), "ser"))
        return drive.interact(b.stmt.get_prover(b.sdict), v.get_verifier(), drive.wire if mode == "wire" else None)

    if kind == "equal":
        b = model.build(spec, "p")
        pc = drive.attempt(lambda: b.leaves[next(p for n, p in model.walk(spec["n"]) if n is leaf)].get_prover(b.sdict).precommit())
        if pc.err is None and pc.value == P(g, 0):
            ctx.count("identity_from_honest_prover")
    out = drive.attempt(run)
    ctx.eval((kind, g, spec["place"], leaf["bind"], mode, x in (0, 1, q - 1, q), h0 == h1))
    ctx.count("place_" + spec["place"])
    det = "%s logs, x=%s, bind=%s, %s, %s, %s" % (kind, x, leaf["bind"], spec["place"], g, mode)
    if kind == "unequal":
        if not out.accept:
            ctx.violation("unequal-refused", "%s: %r" % (det, out), spec=spec)
        else:
            ctx.count("unequal_accepted")
    elif out.accept:
        ctx.violation(kind + "-accepted", "%s: %r" % (det, out), spec=spec)
    else:
        ctx.count(kind + "_refused")
        ctx.sample(dict(what=det, verdict=repr(out)))


class EvilNE:
    """
    The internal equations proven for chosen values: 0 = a g + b H0, C = a2 h + b2 H1, H0 = x g.
    """

    def __init__(self, n, pc, w1, w2, wx, k):
        self.q, self.n, self.pc = order(n["g"]), n, pc
        self.w1, self.w2, self.wx = w1, w2, wx
        self.k = k

    def precommit(self):
        return self.pc

    def commit(self):
        n, g = self.n, self.n["g"]
        ka, kb, kx = self.k
        H0, h0 = n["v"]
        H1, h1 = n["i"]
        out = [P(g, ka * h0 + kb * H0), P(g, ka * h1 + kb * H1)]
        if n["bind"]:
            out.append(P(g, kx * h0))
        return out

    def respond(self, c):
        ka, kb, kx = self.k
        r = lambda k, w: bn((k + c * w) % self.q)
        out = [[r(ka, self.w1[0]), r(kb, self.w1[1])], [r(ka, self.w2[0]), r(kb, self.w2[1])]]
        if self.n["bind"]:
            out.append([r(kx, self.wx)])
        return out


def session(rng, spec, path, obj, mode):
    mine = copy.deepcopy(spec)
    for n, _ in model.walk(mine["n"]):
        n.pop("sim", None)
    b = model.build(mine, "p", simflags=False)
    rd = adv.shared_randomizers(rng, mine, b)
    sims = []
    for k in range(len(path)):
        n = adv.node_at(mine, path[:k])
        if n["k"] == "or":
            sims += [path[:k] + (m,) for m in range(len(n["s"])) if m != path[k]]
    leaves = adv.honest_leaves(mine, b, rd, sub={path: lambda p, m: obj})
    return drive.attempt(adv.session, lambda: model.build(spec, "v", simflags=False).stmt, adv.Adv(mine, leaves, sims, rng), None, None, mode)


def evil(ctx, rng, j):
    att = ATTACKS[j % len(ATTACKS)]
    g = rng.choice(["p224", "p224", "p256", "p192", "G1", "G2"]) if j % 5 == 0 else "p224"
    q = order(g)
    x = xval(rng, q) % q
    h0, h1 = rng.randrange(1, q), rng.randrange(1, q)
    bind = rng.random() < 0.5 or att == "bind_other"
    mode = rng.choice(["interactive", "nizk", "nizk_wire"])
    ks = [rng.randrange(q) for _ in range(3)]
    H0 = x * h0 % q
    b = rng.randrange(1, q)

    # calibration: unequal logarithms, honest values
    H1 = (x * h1 + rng.randrange(1, q)) % q
    leaf = dict(k="ne", g=g, v=[H0, h0], i=[H1, h1], x=0, bind=bind)
    spec = dict(secrets=[sec(rng, q, x)])
    path = place(rng, spec, leaf)
    w = (x * b % q, -b % q)
    out = session(rng, spec, path, EvilNE(leaf, P(g, w[0] * h1 + w[1] * H1), w, w, x, ks), mode)
    if not out.accept:
        ctx.count("calibration_failed")
        ctx.collect("calib", "%s %s: %r" % (mode, spec["place"], out))
    else:
        ctx.count("evil_calibrated")

    leaf["i"][0] = H1 = x * h1 % q
    w2, wx, pc = w, x, P(g, 0)
    if att == "identity_zero":
        w = w2 = (0, 0)
    elif att == "identity_foreign":
        pc = rng.choice([P("p256", 0), P("p224", 0), P("p192", 0), P("G1", 0), P("G2", 0), P("GT", 0)])
    elif att == "two_witnesses":
        w2 = (rng.randrange(q), rng.randrange(q))
        pc = P(g, w2[0] * h1 + w2[1] * H1)
    elif att == "alpha_only":
        w2 = (rng.choice([1, w[0] + 1]), w[1])
        pc = P(g, w2[0] * h1 + w2[1] * H1)
    elif att == "beta_zero":
        # 0 = a g + b H0 does not hold for these
        w = w2 = (rng.randrange(1, q), 0)
        pc = P(g, w2[0] * h1)
    elif att == "random_point":
        pc = P(g, rng.randrange(1, q))
    elif att == "object":
        pc = rng.choice([None, 0, bn(0), [], [P(g, 0)], {}, "", b"", False, P(g, 0).export()])
    elif att == "wrong_log":
        # unequal, but the prover does not know the logarithm of H0
        leaf["v"][0] = (H0 + rng.randrange(1, q)) % q
        leaf["i"][0] = H1 = (x * h1 + rng.randrange(1, q)) % q
        pc = P(g, w[0] * h1 + w[1] * H1)
    elif att == "bind_other":
        # equal for x, the internal equations proven with another log in the first one
        leaf["bind"] = True
        y = (x + 1) % q
        w = w2 = (y * b % q, -b % q)
        pc = P(g, w[0] * h1 + w[1] * H1)
    out = session(rng, spec, path, EvilNE(leaf, pc, w, w2, wx, ks), mode)
    ctx.eval(("evil", att, g, spec["place"], leaf["bind"], mode, type(pc).__name__))
    ctx.count("evil_" + att)
    if out.accept:
        ctx.violation("evil-accepted", "%s, x=%s bind=%s %s %s %s: %r" % (att, x, leaf["bind"], spec["place"], g, mode, out), spec=spec)
    else:
        ctx.sample(dict(attack=att, place=spec["place"], verdict=repr(out)))


def formal_case(ctx, rng):
    """The attacker of zkmon.formal against equal logarithms, a missing logarithm, or another bound one."""
    F = formal.FGroup()
    a, b, z = F.sym("a"), F.sym("b"), F.sym("z")
    kind = rng.choice(["equal", "equal", "equal", "wrong_log", "bound_other", "true"])
    x = rng.choice([0, 1, -1, rng.randrange(formal.Q), rng.randrange(100)])
    h0 = rng.choice([a, a, a + b, 5 * a])
    h1 = rng.choice([b, b, h0, 7 * a, a + 3 * b])
    H0, H1 = x * h0, x * h1
    bind = rng.random() < 0.5 or kind == "bound_other"
    where = "bound" if kind == "bound_other" else rng.choice(["bare", "and", "or", "bound"])
    y = x
    if kind != "equal":
        H1 = H1 + rng.randrange(1, formal.Q) * rng.choice([h1, h0, b, z])
    if kind == "wrong_log":
        H0 = H0 + rng.randrange(1, formal.Q) * z
    elif kind == "bound_other":
        y = x + rng.choice([1, -1, rng.randrange(1, formal.Q)])
    at = rng.randrange(2)

    def build(v=None):
        s = Secret(v)
        leaf = DLNotEqual((H0, h0), (H1, h1), s, bind=bind)
        if where == "bare":
            return leaf
        if where == "bound":
            o = DLRep(y * b, (s if bind else Secret()) * b)
        else:
            o = DLRep(3 * b if where == "and" else z, Secret() * b)
        return (OrProofStmt if where == "or" else AndProofStmt)(*([o, leaf] if at else [leaf, o]))

    u, v = rng.randrange(formal.Q), rng.randrange(formal.Q)
    if kind == "true":
        got = drive.attempt(lambda: DLNotEqual((H0, h0), (H1, h1), Secret(x), bind=bind).get_prover().precommit())
        pc = got.value
    else:
        pc = rng.choice([
            u * h1 + v * H1, u * h1 + v * H1, u * h1 + v * H1, F.infinite(), u * h1, u * H1, u * h0, u * h0 + v * H0, F.generator(), u * a + v * b, u * z,
            u * (x * h1 + h1 - H1), H1, h1,
        ])
    if where != "bare" and pc is not None:
        pc = [None, pc] if at else [pc, None]
    formal.judge(ctx, "%s %s bind=%s" % (kind, where, bind), build, pc, rng, kind != "true", "x=%s (H0, h0)=(%r, %r) (H1, h1)=(%r, %r)" % (x, H0, h0, H1, h1))
