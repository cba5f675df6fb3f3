"""C19: expressions denote the linear combination that was written."""
import copy
import functools
import pickle
import operator

from zkmon import core, drive
from zkmon.model import bn, to_int, P, order

import zksk
from zksk import Secret, DLRep
from zksk.composition import AndProofStmt
from zksk.expr import Expression, wsum_secrets, update_secret_values

ID = "C19"
TECHNIQUE = "random programs over live expression objects in lockstep with a list model; after every operation a monitor re-reads all live objects (terms, points, secrets), evaluations against the integer dot product"
RULE = (
    "programs of 5 to 40 operations (products in both orders, sums of any nesting, of an expression with itself, augmented assignment, wsum, reduce, copies, new values, evaluations, statements) "
    "in elliptic curve and pairing groups; distinct by program"
)
QUICK, THOROUGH = 3500, 100000
REQUIRED = [
    "terms_compared", "evaluations_agree", "missing_raises", "refused", "aliases_checked", "self_sums", "statements_accepted", "statements_refused",
    "point_times_secret", "same_identifier", "pairing_programs", "big_ints", "names_distinct", "copied_secrets", "evaluated_after_update",
]
GROUPS = ["p224"] * 6 + ["p256"] * 4 + ["secp256k1", "p384", "bp512", "G1", "G1", "G2", "GT"]


def value(rng, q):
    t = rng.random()
    if t < 0.4:
        return rng.choice([0, 0, 1, -1, 2, q - 1, q, q + 1, 2 * q + 3, -q, 2 ** 31, 2 ** 32, 2 ** 64, -(2 ** 80), q // 2])
    if t < 0.6:
        return rng.randrange(-50, 1000)
    return rng.randrange(-q, q) if t < 0.95 else rng.randrange(2 ** 500)


def typed(rng, v):
    return v if rng.random() < 0.5 else bn(v)


class Run:
    def __init__(self, ctx, rng, i):
        self.ctx, self.rng = ctx, rng
        self.g = rng.choice(GROUPS)
        self.q = order(self.g)
        self.S = [Secret() if rng.random() < 0.8 else Secret(name="n%d" % j) for j in range(rng.randrange(1, 6))]
        self.vals = [None] * len(self.S)
        for j in range(len(self.S)):
            if rng.random() < 0.6:
                self.set(j)
        # points under test, as objects of their own; several can be equal
        self.D = [rng.choice([0, 1, 2, self.q - 1] + [rng.randrange(self.q)] * 6) for _ in range(rng.randrange(1, 5))]
        self.P = [bn(d) * P(self.g, 1) for d in self.D]
        self.before = [p.export() for p in self.P]
        self.E = []  # (expression, [(secret index, point index)])
        self.ops = []

    def set(self, j):
        v = value(self.rng, self.q)
        if abs(v) >= 2 ** 32:
            self.ctx.count("big_ints")
        self.vals[j] = v
        if self.rng.random() < 0.7:
            self.S[j].value = typed(self.rng, v)
        else:
            update_secret_values({self.S[j]: typed(self.rng, v)})

    def term(self):
        r = self.rng
        j, k = r.randrange(len(self.S)), r.randrange(len(self.P))
        if r.random() < 0.5:
            e, op = self.S[j] * self.P[k], "s*p"
        elif r.random() < 0.7:
            e, op = self.P[k] * self.S[j], "p*s"
            self.ctx.count("point_times_secret")
        else:
            e, op = Expression(self.S[j], self.P[k]), "E"
        return e, [(j, k)], op

    def step(self):
        r = self.rng
        t = r.random()
        E = self.E
        if t < 0.25 or not E:
            e, m, op = self.term()
        elif t < 0.55:
            (a, ma), (b, mb) = r.choice(E), r.choice(E)
            if len(ma) + len(mb) > 60:
                return
            if a is b:
                self.ctx.count("self_sums")
            e, m, op = a + b, ma + mb, "+"
        elif t < 0.67:
            # augmented assignment: other names of the object keep what they had
            k = r.randrange(len(E))
            a, ma = E[k]
            b, mb = r.choice(E)
            if len(ma) + len(mb) > 60:
                return
            alias = a
            a += b
            self.ctx.count("aliases_checked")
            e, m, op = a, ma + mb, "+="
            if alias is a:
                self.ctx.violation("augmented-assignment-in-place", "operations %s" % self.ops)
        elif t < 0.77:
            idx = [(r.randrange(len(self.S)), r.randrange(len(self.P))) for _ in range(r.choice([1, 2, 3, 8]))]
            ss, bs = [self.S[j] for j, _ in idx], [self.P[k] for _, k in idx]
            s0, b0 = list(ss), list(bs)
            if r.random() < 0.3:
                ss, bs = tuple(ss), tuple(bs)
            e, m, op = wsum_secrets(ss, bs), idx, "wsum%d" % len(idx)
            if any(x is not y for x, y in zip(ss, s0)) or any(x is not y for x, y in zip(bs, b0)) or len(ss) != len(s0):
                self.ctx.violation("wsum-changes-lists", "operations %s" % self.ops)
        elif t < 0.83:
            parts = [r.choice(E) for _ in range(r.choice([2, 3]))]
            m = [x for _, p in parts for x in p]
            if len(m) > 60:
                return
            if r.random() < 0.5:
                e, op = functools.reduce(operator.add, [x for x, _ in parts]), "reduce"
            else:
                e, op = parts[-1][0], "foldr"
                for x, _ in parts[-2::-1]:
                    e = x + e
        elif t < 0.87:
            a, m = r.choice(E)
            e, m, op = copy.copy(a), list(m), "copy"
        elif t < 0.93:
            self.set(r.randrange(len(self.S)))
            self.ops.append("set")
            return
        elif t < 0.97:
            self.evaluate(*r.choice(E))
            self.ops.append("eval")
            return
        else:
            repr(r.choice(E)[0])
            return
        self.ops.append(op)
        E.append((e, m))
        if len(E) > 12:
            E.pop(r.randrange(len(E)))

    def monitor(self):
        for e, m in self.E:
            ss, bs = e.secrets, e.bases
            self.ctx.count("terms_compared", len(m))
            if len(ss) != len(m) or len(bs) != len(m) or any(s is not self.S[j] for s, (j, _) in zip(ss, m)) or any(b != self.P[k] for b, (_, k) in zip(bs, m)):
                self.ctx.violation("terms-differ", "%s: operations %s: an expression should have the terms %s, it has %d secrets and %d bases: %s" % (self.g, self.ops, m, len(ss), len(bs), [[self.S.index(s) if s in self.S else -1 for s in ss]]))
                return False
        for p, d, x in zip(self.P, self.D, self.before):
            if p.export() != x:
                self.ctx.violation("point-changed", "%s: operations %s" % (self.g, self.ops))
                return False
        for j, s in enumerate(self.S):
            if (s.value is None) != (self.vals[j] is None) or (s.value is not None and to_int(s.value) != self.vals[j]):
                self.ctx.violation("value-changed", "%s: operations %s: %r instead of %r" % (self.g, self.ops, s.value, self.vals[j]))
                return False
        return True

    def evaluate(self, e, m):
        out = drive.attempt(e.eval)
        if any(self.vals[j] is None for j, _ in m):
            if out.err is None:
                self.ctx.violation("evaluated-without-values", "%s: operations %s: %r" % (self.g, self.ops, out))
            else:
                self.ctx.count("missing_raises")
            return
        d = sum(self.vals[j] * self.D[k] for j, k in m) % self.q
        want = P(self.g, d)
        if out.err is not None or not (out.value == want) or out.value.export() != want.export():
            self.ctx.violation("value-differs", "%s: operations %s: terms %s values %s: %r" % (self.g, self.ops, m, self.vals, out))
        else:
            self.ctx.count("evaluations_agree")

    def statement(self):
        """A statement of the expression is the statement of its terms."""
        r = self.rng
        e, m = r.choice(self.E)
        if len(m) > 25 or any(self.D[k] == 0 for _, k in m):
            return
        for j in {j for j, _ in m}:
            if self.vals[j] is None:
                self.set(j)
        d = sum(self.vals[j] * self.D[k] for j, k in m) % self.q
        T = [Secret() for _ in self.S]
        other = wsum_secrets([T[j] for j, _ in m], [P(self.g, self.D[k]) for _, k in m])
        y = e.eval() if r.random() < 0.5 else P(self.g, d)
        st, vt = DLRep(y, e), DLRep(P(self.g, d), other)
        if st.prehash_statement().digest() != vt.prehash_statement().digest():
            self.ctx.violation("identifier-differs", "%s: operations %s: terms %s" % (self.g, self.ops, m))
            return
        self.ctx.count("same_identifier")
        z = drive.attempt(st.prove)
        ok = drive.attempt(lambda: vt.verify(z.value)) if z.err is None else z
        if not ok.accept:
            self.ctx.violation("statement-refused", "%s: operations %s: terms %s values %s: %r" % (self.g, self.ops, m, self.vals, ok))
            return
        self.ctx.count("statements_accepted")
        if len(m) > 1:
            k = r.randrange(len(m))
            m2 = m[:k] + m[k + 1:] if r.random() < 0.5 else m + [m[k]]
            bad = DLRep(P(self.g, d), wsum_secrets([T[j] for j, _ in m2], [P(self.g, self.D[k]) for _, k in m2]))
            if drive.attempt(bad.verify, z.value).accept:
                self.ctx.violation("other-terms-accepted", "%s: terms %s instead of %s" % (self.g, m2, m))
            self.ctx.count("statements_refused")


def program(ctx, rng, i):
    run = Run(ctx, rng, i)
    if run.g in ("G1", "G2", "GT"):
        ctx.count("pairing_programs")
    n = rng.randrange(5, 41)
    for _ in range(n):
        run.step()
        if ctx.violations or not run.monitor():
            return
    for e, m in run.E[:3]:
        run.evaluate(e, m)
    if run.E:
        run.statement()
        run.monitor()
    ctx.eval((run.g, tuple(run.ops)), n=len(run.ops))
    ctx.sample(dict(group=run.g, operations=run.ops, live=len(run.E)))


def junk(ctx, rng, i):
    """Not sums of secret times point: refused, at the latest when proving or verifying."""
    g = rng.choice(GROUPS)
    q = order(g)
    x, z, b, b2 = [rng.randrange(1, q) for _ in range(4)]
    S, T = Secret(value=bn(x)), Secret(value=bn(z))
    p, p2 = P(g, b), P(g, b2)
    e = S * p
    f = T * p2 + S * p
    other = P(rng.choice([h for h in GROUPS if h != g]), 5)
    bad = rng.choice([5, bn(7), "x", None, 2.5, [p], b"x", object(), True, {}, Secret(value=bn(3)), p])
    nonpt = rng.choice([5, bn(7), "x", None, 2.5, [p], b"x", object(), True, {}, T, S, e])
    tries = {
        "expr+x": lambda: e + bad,
        "x+expr": lambda: bad + e,
        "expr*x": lambda: e * bad,
        "expr*expr": lambda: e * f,
        "expr-expr": lambda: f - e,
        "-expr": lambda: -e,
        "secret+secret": lambda: S + T,
        "secret-secret": lambda: S - T,
        "secret+x": lambda: S + bad,
        "x+secret": lambda: bad + S,
        "secret*nonpoint": lambda: S * nonpt,
        "nonpoint*secret": lambda: nonpt * S,
        "term+secret*nonpoint": lambda: f + S * nonpt,
        "secret*nonpoint+term": lambda: S * nonpt + f,
        "E(nonsecret)": lambda: Expression(rng.choice([5, bn(7), "x", None, p, e]), p),
        "wsum empty": lambda: wsum_secrets([], []),
        "wsum short": lambda: wsum_secrets([S], [p, p2]),
        "wsum long": lambda: wsum_secrets([S, T], [p]),
        "wsum very long": lambda: wsum_secrets([S] * 5, [p] * 3),
        "wsum nonsecret": lambda: wsum_secrets([S, bad if not isinstance(bad, Secret) else 3], [p, p2]),
        "wsum nonpoint": lambda: wsum_secrets([S, T], [p, nonpt]),
        "other group": lambda: f + S * other,
        "expr+point": lambda: e + p,
        "point+expr": lambda: p + e,
        "sum()": lambda: sum([5, e]),
        "expr/": lambda: e / 2,
        "expr**": lambda: e ** 2,
        "raw secret": lambda: S,
        "raw point": lambda: p,
        "raw": lambda: bad,
    }
    for name in rng.sample(sorted(tries), 8):
        out = drive.attempt(tries[name])
        ctx.eval((name, g, type(bad).__name__ if "x" in name else type(nonpt).__name__))
        if out.err is None:
            how = "of type %s" % type(out.value).__name__
            if name in ("expr+x", "x+expr", "expr+point", "wsum short", "wsum long", "wsum very long", "E(nonsecret)", "secret+secret", "expr*expr", "wsum nonsecret") and isinstance(out.value, Expression):
                ctx.violation("made-an-expression", "%s with %r in %s made an expression with %d terms" % (name, type(bad), g, len(out.value.secrets)))
                continue

            def accepted():
                y = rng.choice([P(g, 0), p, P(g, x * b % q), P(g, (x * b + z * b2) % q)])
                st = DLRep(y, out.value)
                return st.verify(st.prove({S: bn(x), T: bn(z)}))

            r = drive.attempt(accepted)
            if r.accept:
                ctx.violation("nonsense-proven", "%s %s in %s: %r" % (name, how, g, r))
                continue
        ctx.count("refused")
        if len(e.secrets) != 1 or len(f.secrets) != 2 or e.bases != (p,) or f.bases != (p2, p):
            ctx.violation("refusal-changes-operands", "%s in %s" % (name, g))
            return


def names(ctx, rng, i):
    """Secrets without names are told apart, however they come and go."""
    live = []
    for _ in range(rng.randrange(50, 400)):
        if live and rng.random() < 0.3:
            live.pop(rng.randrange(len(live)))
        live.append(Secret(value=rng.choice([None, 1, bn(1)])))
        if rng.random() < 0.3:
            # a copy, the original of which goes
            one = live.pop(rng.randrange(len(live)))
            one.value = None
            live.append(rng.choice([copy.copy, copy.deepcopy, lambda s: pickle.loads(pickle.dumps(s))])(one))
            if live[-1].name != one.name or live[-1] != one or hash(live[-1]) != hash(one):
                ctx.violation("copy-differs", "%r %r" % (live[-1], one))
            del one
            ctx.count("copied_secrets")
    ctx.eval(("names", len(live) // 40))
    d = {}
    for s in live:
        d[s] = 1
    if len({s.name for s in live}) < len(live) or len(d) < len(live) or any(x == y for x, y in zip(live, live[1:])):
        ctx.violation("names-collide", "%d secrets, %d names, %d keys" % (len(live), len({s.name for s in live}), len(d)))
    ctx.count("names_distinct", len(live))


def values(ctx, rng, i):
    """Values that are set later, again and taken away, in each of the ways there are."""
    g = rng.choice([x for x in GROUPS if x != "GT"])
    q = order(g)
    n = rng.choice([1, 2, 3, 5])
    S = [Secret() for _ in range(n)]
    B = [rng.randrange(1, q) for _ in range(n)]
    e = wsum_secrets(S, [P(g, b) for b in B])
    now = [None] * n
    hist = []
    for _ in range(rng.randrange(3, 9)):
        how = rng.choice(["attr", "update", "update", "none", "prove"])
        js = rng.sample(range(n), rng.randrange(1, n + 1))
        vals = {j: value(rng, q) for j in js}
        if how == "attr":
            for j, v in vals.items():
                S[j].value = typed(rng, v)
                now[j] = v
        elif how == "update":
            update_secret_values({S[j]: typed(rng, v) for j, v in vals.items()})
            now = [vals.get(j, v) for j, v in enumerate(now)]
        elif how == "none":
            for j in js:
                S[j].value = None
                now[j] = None
        else:
            # a proof does not need the values of the secrets it is not about
            x = Secret()
            st = AndProofStmt(DLRep(P(g, 3), x * P(g, 1)), DLRep(P(g, 6), x * P(g, 2)))
            st.verify(st.prove({x: 3}))
        hist.append((how, js))
        out = drive.attempt(e.eval)
        ctx.eval(("values", g, n, tuple(h for h, _ in hist)))
        if None in now:
            if out.err is None:
                ctx.violation("evaluated-without-values", "%s: after %s, values %s: %r" % (g, hist, now, out))
                return
            continue
        want = P(g, sum(v * b for v, b in zip(now, B)) % q)
        if out.err is not None or not out.value == want:
            ctx.violation("wrong-value-after-update", "%s: after %s, values %s: %r" % (g, hist, now, out))
            return
        ctx.count("evaluated_after_update")


def case(ctx, rng, i):
    k = i % 8
    if k == 7 and i // 8 % 2:
        return values(ctx, rng, i)
    if k < 5:
        program(ctx, rng, i)
    elif k < 7:
        junk(ctx, rng, i)
    else:
        names(ctx, rng, i)
