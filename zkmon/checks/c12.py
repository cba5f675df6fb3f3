"""C12: BBS+ possession proofs need a valid signature on the messages."""
import copy

from zkmon import model, drive, adv, formal
from zkmon.model import bn, to_int, order, P
from zkmon.checks.c09 import place

from zksk import Secret, DLRep
from zksk.composition import AndProofStmt, OrProofStmt
from zksk.primitives.bbsplus import BBSPlusKeypair, BBSPlusPublicKey, BBSPlusSignature, BBSPlusSignatureCreator, BBSPlusSignatureStmt

ID = "C12"
TECHNIQUE = "possession proofs over genuinely issued, forged, altered and foreign signatures at every placement, and adversarial provers with chosen internal witnesses, acceptance monitor against the signature's defining equation with the known secret key; over a formal pairing, an attacker solves whatever equations the verifier's code checks"
RULE = (
    "keys of several capacities, message vectors with boundary, repeated and shared values, signatures issued with and without blinding; then changed "
    "components, messages and keys, and provers whose internal values satisfy only some of the equations or differ between them; over formal pairings, provers who solve whatever equations the verifier checks for"
    " precommitments of many forms; distinct by "
    "kind, number of messages, placement, binding, transport"
)
QUICK, THOROUGH = 800, 24000
KINDS = ["valid", "valid", "valid", "bad_A", "bad_e", "bad_s", "foreign_key", "wrong_message", "swapped_messages", "unsigned", "bound_valid", "bound_wrong"]
ATTACKS = ["drop_dl2", "drop_dl1", "no_signature", "identities", "split_e", "split_delta1", "split_r1", "split_message", "shift_message", "replay_A"]
REQUIRED = ["valid_accepted", "bound_accepted", "invalid_refused", "bound_refused", "place_and", "place_or", "place_nested", "place_bare"] + ["kind_" + k for k in set(KINDS)] + ["evil_" + a for a in ATTACKS] + ["formal_attacks", "no_messages_valid", "no_messages_invalid"]
_keys = {}


def key(rng):
    """A fresh pair of keys now and then; capacities from one message on."""
    c = rng.choice([1, 2, 3, 5])
    k = (c, rng.randrange(2))
    if k not in _keys or rng.random() < 0.03:
        _keys[k] = BBSPlusKeypair.generate(model.pair_ctx(0), c)
    return _keys[k]


def cap(kp):
    return len(kp.pk.generators) - 2


def value(rng, q):
    return rng.choice([0, 1, q - 1, 2, rng.randrange(q), rng.randrange(q), rng.randrange(100), 2 ** 64, -1])


def valid(kp, sig, msgs):
    q = order("G1")
    g = kp.pk.generators
    acc = g[0] + bn(to_int(sig.s) % q) * g[1]
    for m, h in zip(msgs, g[2:]):
        acc = acc + bn(m % q) * h
    return bn((to_int(kp.sk.gamma) + to_int(sig.e)) % q) * sig.A == acc


def issue(rng, kp, vals):
    cr = BBSPlusSignatureCreator(kp.pk)
    com = cr.commit([bn(v) for v in vals], zkp=rng.random() < 0.5)
    return cr.obtain_signature(kp.sk.sign(com.com_message))


class Tree:
    """The possession proof at some place, with relations around it; one object per side."""

    def __init__(self, rng, kp, nm, bind, share, other):
        # share: list of message indices, equal for equal secrets; other: None or (message index, base, lhs) of a bound relation
        self.kp, self.nm, self.bind, self.share, self.other = kp, nm, bind, share, other
        self.where = rng.choice(["bare", "bare", "and", "or", "nested"])
        if other is not None and self.where in ("bare", "or"):
            self.where = "and"
        self.at = [rng.randrange(2) for _ in range(3)]
        self.d = [rng.randrange(1, 2 ** 60) for _ in range(3)]
        self.mark = rng.random() < 0.3
        self.stale = [rng.randrange(order("G1")) for _ in range(2)] if rng.random() < 0.3 else None

    def build(self, role, vals=None, sig=None, cls=BBSPlusSignatureStmt, how="init"):
        """Returns (statement, values to pass when proving, the leaf)."""
        secs = [Secret() for _ in range(self.nm)]
        ms = [secs[j] for j in self.share]
        sd = {}
        if role == "p" and vals is not None:
            for j, v in zip(self.share, vals):
                if how == "init" or self.where in ("or", "nested"):
                    secs[j].value = bn(v)
                else:
                    sd[secs[j]] = bn(v)
        es = [Secret(), Secret()] if self.bind else []
        if role == "p" and self.stale:
            # used for another signature before
            for s, v in zip(es, self.stale):
                s.value = bn(v)
        kw = dict(simulated=True) if role == "v" and self.mark else {}  # must not matter to a verifier
        leaf = cls(es + ms, self.kp.pk, sig if role == "p" else None, binding=self.bind, **kw)

        def rel(k, known=True):
            s = Secret(value=bn(self.d[k])) if role == "p" and known else Secret()
            return DLRep(P("p224", self.d[k] * 5), s * P("p224", 5))

        def pair(a, b, k, op):
            x, y = (a, b) if self.at[k] else (b, a)
            return (x & y) if op == "and" else (x | y)

        body = leaf
        if self.other is not None:
            j, base, lhs = self.other
            b = DLRep(P("G1", lhs), ms[j] * P("G1", base))
            body = pair(leaf, b, 0, "and")
        if self.where == "bare":
            return body, sd, leaf
        if self.where == "and":
            return (body if self.other is not None else pair(body, rel(0), 0, "and")), sd, leaf
        if self.where == "or":
            return pair(body, rel(0, False), 0, "or"), sd, leaf
        return pair(pair(body, rel(0, False), 1, "or"), rel(1), 2, "and"), sd, leaf


def run(rng, tree, mode, **kw):
    def f():
        st, sd, _ = tree.build("p", **kw)
        v = tree.build("v")[0]
        if mode in ("obj", "ser"):
            return v.verify(drive.transport(st.prove(sd), mode))
        return drive.interact(st.get_prover(sd), v.get_verifier(), drive.wire if mode == "wire" else None)

    return drive.attempt(f)


def case(ctx, rng, i):
    if i >= 300 or i % 6 == 4:
        for _ in range(4):
            formal_case(ctx, rng)
        if i >= 300 and i % 4:
            return
    if i % 2:
        return evil(ctx, rng, i // 2)
    q = order("G1")
    kind = KINDS[(i // 2) % len(KINDS)]
    kp = key(rng)
    nm = rng.choice([1, cap(kp), rng.randrange(1, cap(kp) + 1)])
    if kind in ("valid", "bad_A", "bad_e", "bad_s", "foreign_key", "unsigned") and rng.random() < 0.15:
        nm = 0
    if kind == "swapped_messages":
        while cap(kp) < 2:
            kp = key(rng)
        nm = rng.randrange(2, cap(kp) + 1)
    share = list(range(nm))
    if rng.random() < 0.25 and nm > 1:
        a, b = rng.sample(range(nm), 2)
        share[max(a, b)] = min(a, b)
    vs = [value(rng, q) for _ in range(nm)]
    vals = [vs[j] for j in share]
    sig = issue(rng, kp, vals)
    bind = rng.random() < 0.5
    other = None
    signed = list(vals)
    if kind == "bad_A":
        sig = BBSPlusSignature(A=rng.choice([sig.A + P("G1", 1), -1 * sig.A, 2 * sig.A, P("G1", 0), P("G1", rng.randrange(q))]), e=sig.e, s=sig.s)
    elif kind == "bad_e":
        sig = BBSPlusSignature(A=sig.A, e=bn((to_int(sig.e) + rng.choice([1, -1, rng.randrange(1, q)])) % q), s=sig.s)
    elif kind == "bad_s":
        sig = BBSPlusSignature(A=sig.A, e=sig.e, s=bn((to_int(sig.s) + rng.choice([1, -1, rng.randrange(1, q)])) % q))
    elif kind == "foreign_key":
        kp2 = BBSPlusKeypair.generate(model.pair_ctx(0), cap(kp))
        sig = issue(rng, kp2, vals)
    elif kind in ("wrong_message", "swapped_messages"):
        share, signed = list(range(nm)), list(vals)
        if kind == "wrong_message":
            j = rng.randrange(nm)
            signed[j] += rng.choice([1, -1, 2 ** 64, rng.randrange(1, q)])
        else:
            a, b = rng.sample(range(nm), 2)
            vals[a] = vals[b] + rng.choice([1, rng.randrange(1, q)])
            signed = list(vals)
            signed[a], signed[b] = signed[b], signed[a]
        sig = issue(rng, kp, signed)
    elif kind == "unsigned":
        sig = rng.choice([
            BBSPlusSignature(A=P("G1", rng.randrange(q)), e=bn(rng.randrange(q)), s=bn(rng.randrange(q))),
            BBSPlusSignature(A=kp.pk.generators[0], e=bn(0), s=bn(0)),
            BBSPlusSignature(A=P("G1", 0), e=bn(0), s=bn(0)),
        ])
    elif kind in ("bound_valid", "bound_wrong"):
        j, base = rng.randrange(nm), rng.randrange(1, q)
        lhs = vals[j] * base
        if kind == "bound_wrong":
            lhs += rng.choice([1, base, rng.randrange(1, q)])
        other = (j, base, lhs)
    good = valid(kp, sig, vals) and kind != "bound_wrong"
    tree = Tree(rng, kp, nm, bind, share, other)
    mode = rng.choice(["obj", "ser", "ser", "live", "wire"])
    out = run(rng, tree, mode, vals=vals, sig=sig, how=rng.choice(["init", "dict"]))
    ctx.eval((kind, nm, cap(kp), tree.where, bind, mode, share == list(range(nm))))
    ctx.count("kind_" + kind)
    ctx.count("place_" + tree.where)
    if nm == 0:
        ctx.count("no_messages_" + ("valid" if good else "invalid"))
    det = "%s: %d of %d messages, bind=%s, %s, %s, shared %s" % (kind, nm, cap(kp), bind, tree.where, mode, share)
    if good and not out.accept:
        ctx.violation("valid-refused", "%s: %r" % (det, out), vals=vals)
    elif not good and out.accept:
        ctx.violation(kind + "-accepted", "%s: %r" % (det, out), vals=vals)
    else:
        ctx.count("bound_accepted" if kind == "bound_valid" else "valid_accepted" if good else "bound_refused" if kind == "bound_wrong" else "invalid_refused")
        ctx.sample(dict(what=det, valid=good, verdict=repr(out)))


# ---------------------------------------------------------------- cheating provers


def evil_cls(precommit):
    """The library's statement, with the prover choosing the internal values."""
    return type("BBSPlusSignatureStmt", (BBSPlusSignatureStmt,), dict(precommit=precommit))


class EvilBBS:
    """
    The three internal equations proven with witnesses of their own.
    w1 = (r1, r2), w2 = (delta1, delta2, e), w3 = (e, r1, delta1, s, messages...)
    """

    def __init__(self, rng, kp, A1, A2, w1, w2, w3, k):
        self.q = order("G1")
        self.kp, self.pc = kp, dict(A1=A1, A2=A2)
        self.w = [w1, w2, w3]
        g, gp = kp.pk.generators, kp.pk.gen_pairs
        nm = len(w3) - 4
        self.bases = [
            [g[1], g[2]], [g[1], g[2], -1 * A1],
            [-1 * A2.pair(kp.pk.h0), g[2].pair(kp.pk.w), gp[2]] + gp[1:2 + nm],
        ]
        # shared randomizers, so that equal values give equal responses
        kr1, kr2, kd1, kd2, ke, ks = [k() for _ in range(6)]
        self.k = [[kr1, kr2], [kd1, kd2, ke], [ke, kr1, kd1, ks] + [k() for _ in range(nm)]]

    def precommit(self):
        return self.pc

    def commit(self):
        out = []
        for ks, bs in zip(self.k, self.bases):
            acc = bn(ks[0]) * bs[0]
            for k, b in zip(ks[1:], bs[1:]):
                acc = acc + bn(k) * b
            out.append(acc)
        return out

    def respond(self, c):
        return [[bn((k + c * x) % self.q) for k, x in zip(ks, ws)] for ks, ws in zip(self.k, self.w)]


def trapdoor_key(rng, nm):
    """A key with generators of known logarithms, so that each equation can be satisfied on its own."""
    from zksk.primitives.bbsplus import BBSPlusPublicKey, BBSPlusSecretKey

    q = order("G1")
    d = [rng.randrange(1, q) for _ in range(nm + 2)]
    gens = [P("G1", x) for x in d]
    h0, gamma = P("G2", 1), rng.randrange(1, q)
    pk = BBSPlusPublicKey(w=bn(gamma) * h0, h0=h0, generators=gens)
    sk = BBSPlusSecretKey(h0=h0, gamma=bn(gamma), generators=gens)
    return BBSPlusKeypair(generators=gens, h0=h0, sk=sk, pk=pk), d, gamma


def evil(ctx, rng, j):
    q = order("G1")
    att = ATTACKS[j % len(ATTACKS)]
    rnd = lambda: rng.randrange(1, q)
    if att.startswith("split") or att in ("identities", "shift_message", "replay_A"):
        return split(ctx, rng, att)
    # through the library's prover, with internal values of the prover's choice
    kp = key(rng)
    nm = rng.randrange(1, cap(kp) + 1)
    signed = [value(rng, q) for _ in range(nm)]
    sig = issue(rng, kp, signed)
    claim = list(signed)
    shift = rnd()

    def make(mult):
        def precommit(self):
            g1, g2 = self.bases[1], self.bases[2]
            r1, r2 = rnd(), rnd()
            e = to_int(sig.e)
            d1, d2 = (r1 * e - mult * shift) % q, r2 * e % q
            A1 = bn(r1) * g1 + bn(r2) * g2
            if att == "drop_dl1" and mult:
                A1 = bn(pow(e, -1, q)) * (bn(d1) * g1 + bn(d2) * g2)
            for s, v in ((self.r1, r1), (self.r2, r2), (self.delta1, d1), (self.delta2, d2)):
                s.value = bn(v)
            return dict(A1=A1, A2=bn(r1) * g2 + sig.A)

        return evil_cls(precommit)

    bind = rng.random() < 0.5
    tree = Tree(rng, kp, nm, bind, list(range(nm)), None)
    mode = rng.choice(["obj", "ser", "live", "wire"])
    out = run(rng, tree, mode, vals=signed, sig=sig, cls=make(0))
    if not out.accept:
        ctx.count("calibration_failed")
    else:
        ctx.count("evil_calibrated")
    cls = make(1)
    claim[0] = claim[0] + shift
    if att == "no_signature":
        # internal relations hold, the pairing equation does not
        cls = make(0)
        if rng.random() < 0.5:
            claim = [value(rng, q) for _ in range(nm)]
            if valid(kp, sig, claim):
                return
    out = run(rng, tree, mode, vals=claim, sig=sig, cls=cls)
    ctx.eval(("evil", att, nm, tree.where, bind, mode))
    ctx.count("evil_" + att)
    if out.accept:
        ctx.violation("evil-%s-accepted" % att, "%d messages, %s, %s: %r" % (nm, tree.where, mode, out))


def split(ctx, rng, att):
    """Each equation holds for its own witness; the values of shared secrets differ."""
    q = order("G1")
    rnd = lambda: rng.randrange(1, q)
    nm = rng.choice([1, 2, 3])
    kp, d, gamma = trapdoor_key(rng, nm)
    msgs = [rng.randrange(q) for _ in range(nm)]
    e, s, r1, r2 = rnd(), rnd(), rnd(), rnd()
    m_sum = sum(m * x for m, x in zip(msgs, d[2:]))
    a = (d[0] + s * d[1] + m_sum) * pow(gamma + e, -1, q) % q
    A1, A2 = P("G1", r1 * d[1] + r2 * d[2]), P("G1", r1 * d[2] + a)
    w1, w2, w3 = [r1, r2], [r1 * e % q, r2 * e % q, e], [e, r1, r1 * e % q, s] + msgs
    mode = rng.choice(["interactive", "nizk", "nizk_wire"])
    bind = rng.random() < 0.5
    # a bound relation on one of the messages
    mj = rng.randrange(nm)
    base = rnd()
    mark = rng.random() < 0.3  # must not matter to a verifier

    def mk(lhs):
        def f():
            ms = [Secret() for _ in range(nm)]
            st = BBSPlusSignatureStmt(([Secret(), Secret()] if bind else []) + ms, kp.pk, binding=bind, simulated=mark)
            return st & DLRep(P("G1", lhs), ms[mj] * P("G1", base))

        return f

    class Lin:
        """x base = lhs, with the randomizer of the message."""

        def __init__(self, x, k):
            self.x, self.k = x, k

        def precommit(self):
            return None

        def commit(self):
            return P("G1", self.k * base)

        def respond(self, c):
            return [bn((self.k + c * self.x) % q)]

    class Both:
        def __init__(self, ev, lin):
            self.subs = [ev, lin]

        def precommit(self):
            return adv.merge_pc([x.precommit() for x in self.subs])

        def commit(self):
            return [x.commit() for x in self.subs]

        def respond(self, c, _=None):
            return [x.respond(c) for x in self.subs]

    def go(A1, A2, w1, w2, w3, x):
        ev = EvilBBS(rng, kp, A1, A2, w1, w2, w3, rnd)
        return drive.attempt(adv.session, mk(x * base), Both(ev, Lin(x, ev.k[2][4 + mj])), None, None, mode)

    out = go(A1, A2, w1, w2, w3, msgs[mj])
    if not out.accept:
        ctx.count("calibration_failed")
        ctx.collect("calib", "%s: %r" % (mode, out))
    else:
        ctx.count("evil_calibrated")
    x = msgs[mj]
    inv = lambda v: pow(v % q, -1, q)
    # b: logarithms of the bases of the pairing equation; solve for one of the coefficients
    A2l = (r1 * d[2] + a) % q
    f = rnd()
    if att == "split_e":
        # another e in the pairing equation, made up for by s
        w3[0] = (e + f) % q
        w3[3] = (s + f * A2l * inv(d[1])) % q
    elif att == "split_delta1":
        w3[2] = (w3[2] + f) % q
        w3[4] = (w3[4] - f) % q  # the first message has the same base
        x = w3[4 + mj]
    elif att == "split_r1":
        w3[1] = (r1 + f) % q
        w3[4] = (w3[4] - f * gamma) % q
        x = w3[4 + mj]
    elif att == "split_message":
        x = (msgs[mj] + f) % q
    elif att == "shift_message":
        # a message and s shifted so that the equation holds no longer
        w3[4] = (w3[4] + f) % q
        x = w3[4 + mj]
    elif att == "identities":
        A1, A2 = P("G1", 0), P("G1", 0)
        w1, w2 = [0, 0], [0, 0, 0]
        w3 = [0, 0, 0, 0] + [0] * nm
        x = 0
    elif att == "replay_A":
        # A itself as A2 without its randomization taken into account
        A2 = P("G1", a)
    out = go(A1, A2, w1, w2, w3, x)
    ctx.eval(("evil", att, nm, bind, mode))
    ctx.count("evil_" + att)
    if out.accept:
        ctx.violation("evil-%s-accepted" % att, "%d messages, %s: %r" % (nm, mode, out))


# ---------------------------------------------------------------- formal pairings


def formal_case(ctx, rng):
    """
    The attacker of zkmon.formal, with some signatures of the issuer, against a statement that ties
    some of the values to public ones.
    """
    Q = formal.Q
    rnd = lambda: rng.randrange(1, Q)
    bp = formal.Pairing()
    cap = rng.choice([1, 2, 3, 4])
    gens = [bp.G1.sym("g%d" % k) for k in range(cap + 2)]
    pk = BBSPlusPublicKey(w=bp.G2.sym("w"), h0=bp.G2.sym("h0"), generators=gens)
    sigs = []
    for k in range(rng.choice([0, 1, 1, 1, 2])):
        e, s, ms = rnd(), rnd(), [rng.choice([0, 1, rnd()]) for _ in range(rng.randrange(cap + 1))]
        signed = gens[0] + s * gens[1]
        for m, g in zip(ms, gens[2:]):
            signed = signed + m * g
        sigs.append((bp.signature("A%d" % k, e, signed), [e, s] + ms + [0] * (cap - len(ms))))
    nm = rng.randrange(1, cap + 1)
    bind = rng.random() < 0.6
    # positions among e, s, messages with public values
    ref = list(rng.choice(sigs)[1]) if sigs else [rnd() for _ in range(cap + 2)]
    pos = rng.sample(range(0 if bind else 2, nm + 2), rng.randrange(1, nm + (3 if bind else 1)))
    val = {p: ref[p] + (rng.choice([0, 0, 1, -1, rnd()]) if rng.random() < 0.7 else 0) for p in pos}
    holds = lambda sig: all(sig[p] % Q == v % Q for p, v in val.items()) and not any(sig[nm + 2:])
    true = any(holds(v) for _, v in sigs)
    base = bp.G1.sym("b")
    where = rng.choice(["and", "and", "or"])

    def build():
        secs = [Secret() for _ in range(nm + 2)]
        leaf = BBSPlusSignatureStmt(secs if bind else secs[2:], pk, binding=bind)
        st = AndProofStmt(leaf, *[DLRep(val[p] * base, secs[p] * base) for p in pos])
        return st if where == "and" else OrProofStmt(st, DLRep(bp.G1.sym("z"), Secret() * base))

    # a precommitment around one of the signatures
    good = [v for v in sigs if holds(v[1])]
    A, sig = rng.choice(good) if true and rng.random() < 0.7 else rng.choice(sigs) if sigs else (bp.G1.infinite(), [rnd() for _ in range(cap + 2)])
    e = sig[0]
    shift = (sig[2] - val.get(2, sig[2])) * pow(e, -1, Q)
    r1 = rng.choice([rnd(), rnd(), shift, -shift, 0])
    r2 = rng.choice([rnd(), 0])
    honest = rng.random() < (0.7 if true else 0.3)
    A1, A2 = r1 * gens[1] + r2 * gens[2], A + r1 * gens[2]
    if honest:
        pass
    elif rng.random() < 0.6:
        A1 = rng.choice([bp.G1.infinite(), A1 + shift * gens[1], A1 - shift * gens[1], A1 + shift * gens[2], rnd() * gens[1] + rnd() * gens[2], rnd() * gens[0], rnd() * base, A])
    else:
        A2 = rng.choice([bp.G1.infinite(), gens[0], -A2, A, A + r1 * gens[1], A + r1 * gens[0], A2 + shift * gens[2], A2 - shift * gens[2], r1 * gens[2], rnd() * A2, A2 + rng.choice(sigs)[0] if sigs else base])
    pc = [dict(A1=A1, A2=A2)] + [None] * len(pos)
    if where == "or":
        pc = [pc, None]
    det = "%d signatures, %d of %d messages, bind=%s, public values at %s %s, signed %s" % (len(sigs), nm, cap, bind, pos, val, [v for _, v in sigs])
    formal.judge(ctx, "possession %s bind=%s %d" % (where, bind, nm), build, pc, rng, not true, det)
