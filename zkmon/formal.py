"""
Groups in which nothing is known but what is written down.

A point is a formal sum of symbols with coefficients modulo a prime, so no symbol is a multiple of
another one, and "the prover knows no representation" is decided by linear algebra instead of being
assumed. The library's own code runs over these groups as it does over any other. An attacker hands
the verifier's own code a precommitment of his choice, reads off the relations that the verifier
will check, solves them for any secrets at all, and if he can, runs a whole session. Unlike an
attacker written for the equations of one protocol he finds what a changed protocol leaves open.
"""
from zkmon import core  # noqa: F401

from petlib.bn import Bn
from petlib.pack import register_coders, encode
import msgpack

from zksk.base import NIZK, build_fiat_shamir_challenge
from zksk.composition import OrProofStmt

Q = 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551


def to_int(b):
    return int(b) if isinstance(b, int) else int(str(b))


def bn(v):
    return Bn.from_decimal(str(int(v)))


class FGroup:
    """The formal group over all symbols; pairing: None or a Pairing."""

    def __init__(self, name="F", pairing=None):
        self.name, self.pairing = name, pairing

    def order(self):
        return bn(Q)

    def infinite(self):
        return FPoint(self, {})

    def generator(self):
        return self.sym("G")

    def hash_to_point(self, data):
        return self.sym("#" + bytes(data).hex())

    def sym(self, name, c=1):
        return FPoint(self, {name: c})

    def combo(self, cs):
        return FPoint(self, cs)

    def sum(self, points):
        res = self.infinite()
        for p in points:
            res = res + p
        return res

    def wsum(self, weights, points):
        if len(weights) != len(points):
            raise ValueError("Should have as many weights as generators.")
        return self.sum([w * p for w, p in zip(weights, points)])

    def __eq__(self, other):
        return isinstance(other, FGroup) and (self.name, self.pairing) == (other.name, other.pairing)

    def __hash__(self):
        return hash(self.name)


class FPoint:
    def __init__(self, group, v):
        self.group = group
        self.v = {k: c % Q for k, c in v.items() if c % Q}

    def __add__(self, other):
        assert self.group == other.group
        out = dict(self.v)
        for k, c in other.v.items():
            out[k] = out.get(k, 0) + c
        return FPoint(self.group, out)

    def __mul__(self, n):
        if not isinstance(n, (int, Bn)):
            return NotImplemented
        n = to_int(n)
        return FPoint(self.group, {k: c * n for k, c in self.v.items()})

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __sub__(self, other):
        return self + -other

    def __eq__(self, other):
        return isinstance(other, FPoint) and self.group == other.group and self.v == other.v

    def __hash__(self):
        return hash(repr(self))

    def __repr__(self):
        return "%s(%s)" % (self.group.name, " + ".join("%d %s" % (c, k) for k, c in sorted(self.v.items(), key=str)))

    def export(self, form=0):
        return repr(self).encode()

    def pair(self, other):
        return self.group.pairing.pair(self, other)


def _no_decoder(data):
    raise ValueError("formal points stay in this process")


register_coders(FPoint, 119, lambda p: repr(p).encode(), _no_decoder)


class Pairing:
    """
    G1 x G2 -> GT on formal sums. G2 has h0 and w = gamma h0 for an unknown gamma. A signature
    (A, e) on P is a symbol A of G1 with e(A, w) = e(P, h0) - e(A, h0) e.
    """

    def __init__(self):
        self.G1, self.G2, self.GT = FGroup("G1", self), FGroup("G2", self), FGroup("GT", self)
        self.sigs = {}

    def groups(self):
        return self.G1, self.G2, self.GT

    def signature(self, name, e, signed):
        self.sigs[name] = (e, signed)
        return self.G1.sym(name)

    def pair(self, a, b):
        out = self.GT.infinite()
        for x, c in a.v.items():
            for y, d in b.v.items():
                if y == "w" and x in self.sigs:
                    e, signed = self.sigs[x]
                    t = self.pair(signed, self.G2.sym("h0")) + FPoint(self.GT, {(x, "h0"): -e})
                else:
                    t = FPoint(self.GT, {(x, y): 1})
                out = out + c * d * t
        return out


# ---------------------------------------------------------------- linear algebra


class System:
    """Linear equations modulo Q, in reduced form."""

    def __init__(self):
        self.rows = {}

    def copy(self):
        s = System()
        s.rows = dict(self.rows)
        return s

    def add(self, coefs, rhs):
        """False if the equation contradicts the others."""
        row = {k: c % Q for k, c in coefs.items() if c % Q}
        row[None] = -rhs % Q
        for p in list(row):
            if p is not None and p in self.rows and row.get(p):
                f = row[p]
                for k, c in self.rows[p].items():
                    row[k] = (row.get(k, 0) - f * c) % Q
        row = {k: c for k, c in row.items() if c}
        piv = next((k for k in row if k is not None), None)
        if piv is None:
            return not row
        inv = pow(row[piv], -1, Q)
        row = {k: c * inv % Q for k, c in row.items()}
        for p, other in list(self.rows.items()):
            if other.get(piv):
                f = other[piv]
                new = dict(other)
                for k, c in row.items():
                    new[k] = (new.get(k, 0) - f * c) % Q
                self.rows[p] = {k: c for k, c in new.items() if c}
        self.rows[piv] = row
        return True

    def relation(self, lhs, terms):
        keys = set(lhs.v)
        for _, base in terms:
            keys |= set(base.v)
        for key in sorted(keys, key=str):
            coefs = {}
            for name, base in terms:
                coefs[name] = coefs.get(name, 0) + base.v.get(key, 0)
            if not self.add(coefs, lhs.v.get(key, 0)):
                return False
        return True

    def solution(self, names, rng):
        free = {n: rng.randrange(Q) for n in names if n not in self.rows}
        out = dict(free)
        for p, row in self.rows.items():
            out[p] = -sum(c * (1 if k is None else free.get(k, 0)) for k, c in row.items() if k != p) % Q
        return out


# ---------------------------------------------------------------- the attacker


class Node:
    """One statement of the verifier's tree, and how the attacker proves it."""


class Leaf(Node):
    def __init__(self, stmt, split=None):
        # split: "leaf" to use values of its own in every relation, "term" in every term
        self.stmt = stmt
        own = {None: lambda k: (), "leaf": lambda k: (id(self),), "term": lambda k: (id(self), k)}[split]
        self.terms = [((s.name,) + own(k), b) for k, (s, b) in enumerate(zip(stmt.secret_vars, stmt.bases))]

    def names(self):
        return {n for n, _ in self.terms}

    def solve(self, system, rng):
        system = system.copy()
        return system if system.relation(self.stmt.lhs, self.terms) else None

    def commit(self, ks):
        com = self.stmt.lhs.group.infinite()
        for n, b in self.terms:
            com = com + ks[n[0]] * b
        self.ks = [ks[n[0]] for n, _ in self.terms]
        return com

    def respond(self, c, w):
        return [bn((k + to_int(c) * w[n]) % Q) for k, (n, _) in zip(self.ks, self.terms)]


class Conj(Node):
    def __init__(self, subs):
        self.subs = subs

    def names(self):
        return set().union(*[s.names() for s in self.subs])

    def solve(self, system, rng):
        for s in self.subs:
            system = s.solve(system, rng)
            if system is None:
                return None
        return system

    def commit(self, ks):
        return [s.commit(ks) for s in self.subs]

    def respond(self, c, w):
        return [s.respond(c, w) for s in self.subs]


class Disj(Node):
    def __init__(self, subs, stmts):
        self.subs, self.stmts = subs, stmts

    def names(self):
        return set().union(*[s.names() for s in self.subs])

    def solve(self, system, rng):
        for k in rng.sample(range(len(self.subs)), len(self.subs)):
            got = self.subs[k].solve(system, rng)
            if got is not None:
                self.real = k
                return got
        return None

    def commit(self, ks):
        own = {n[0]: self.rng.randrange(Q) for n in self.subs[self.real].names()}
        self.sims = [None if k == self.real else s.simulate_proof() for k, s in enumerate(self.stmts)]
        return [self.subs[k].commit(own) if sim is None else sim.commitment for k, sim in enumerate(self.sims)]

    def respond(self, c, w):
        rest = (to_int(c) - sum(to_int(s.challenge) for s in self.sims if s is not None)) % 2 ** 128
        cs = [bn(rest) if s is None else s.challenge for s in self.sims]
        return (cs, [self.subs[k].respond(rest, w) if s is None else s.responses for k, s in enumerate(self.sims)])


def read(stmt, rng, split=None):
    """The attacker's view of a verifier's statement."""
    inner = getattr(stmt, "constructed_stmt", None)
    if inner is not None:
        return read(inner, rng, split)
    subs = getattr(stmt, "subproofs", None)
    if subs is None:
        return Leaf(stmt, split)
    nodes = [read(s, rng, split) for s in subs]
    if isinstance(stmt, OrProofStmt):
        out = Disj(nodes, list(subs))
        out.rng = rng
        return out
    return Conj(nodes)


def find(stmt, *attrs):
    """The parts of a statement that have the given attributes."""
    out = [stmt] if all(hasattr(stmt, a) for a in attrs) else []
    for s in getattr(stmt, "subproofs", None) or []:
        out += find(s, *attrs)
    return out


class Attack:
    """
    One attempt to have a statement accepted. outcome: "unsolvable" (no secrets satisfy what the
    verifier checks), "invalid" (the session was refused), "accepted", "inapplicable".
    """

    def __init__(self, build, precommitment, rng, mode):
        self.why = None
        try:
            mine = build().get_verifier()
            mine.process_precommitment(precommitment)
            # Without a solution, at least one that uses several values for a secret
            for self.split in (None, "leaf", "term"):
                node = read(mine.stmt, rng, self.split)
                system = node.solve(System(), rng)
                if system is not None:
                    break
        except Exception as e:
            self.outcome, self.why = "inapplicable", e
            return
        if system is None:
            self.outcome = "unsolvable"
            return
        w = system.solution(node.names(), rng)
        try:
            com = node.commit({n[0]: rng.randrange(Q) for n in node.names()})
            prehash = mine.stmt.prehash_statement()
            digest = prehash.digest()
            if mode == "nizk":
                c = build_fiat_shamir_challenge(prehash, precommitment, com)
                nizk = NIZK(c, node.respond(c, w), precommitment, digest)
        except Exception as e:
            self.outcome, self.why = "inapplicable", e
            return
        try:
            if mode == "nizk":
                ok = build().verify(nizk)
            else:
                v = build().get_verifier()
                v.process_precommitment(precommitment)
                ok = v.verify(node.respond(v.send_challenge((digest, com)), w))
        except Exception as e:
            ok, self.why = False, e
        self.outcome = "accepted" if ok else "invalid"


def judge(ctx, what, build, precommitment, rng, false, det):
    """
    Attack; a false statement must never be accepted, a true one (with a good precommitment) shows
    that the attacker can do it.
    """
    mode = rng.choice(["nizk", "interactive"])
    a = Attack(build, precommitment, rng, mode)
    ctx.count("formal_" + a.outcome if false else "formal_calibration_" + a.outcome)
    ctx.eval(("formal", what, mode, false, a.outcome))
    if false:
        ctx.count("formal_attacks")
        if a.outcome == "invalid" and a.split:
            ctx.count("formal_refused_split_by_" + a.split)
        if a.outcome == "accepted":
            ctx.violation("formal-accepted", "%s, %s, split by %s: %s" % (what, mode, a.split, det), precommitment=precommitment)
    else:
        ctx.count("formal_calibrations")
    return a
