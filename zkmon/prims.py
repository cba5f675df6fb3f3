"""Custom primitives, written as docs/new_primitives.rst tells users to, with an event log."""
from zkmon import core  # noqa: F401  (puts /repo on the path)

import random

from petlib.bn import Bn
from petlib.ec import EcGroup
from zksk import Secret, DLRep
from zksk.expr import wsum_secrets
from zksk.exceptions import ValidationError
from zksk.extended import ExtendedProofStmt

LOG = None  # when a list, hooks append (event, instance tag, data)
VETO = {}  # tag: exception that validation raises
EVIL = {}  # tag: (log of h, log of k): the prover's precommitment is the identity
LAX = False  # validation accepts the identity


def log(ev, stmt, data=None):
    if LOG is not None:
        LOG.append((ev, getattr(stmt, "tag", None), data))


class PlainPrim(ExtendedProofStmt):
    """Only overrides construct_stmt. shape: and / single / or."""

    def __init__(self, eqs, shape, tag=None):
        # eqs: list of (lhs, [(secret, base), ...])
        self.eqs, self.shape, self.tag = eqs, shape, tag

    def construct_stmt(self, precommitment):
        log("construct", self, precommitment)
        reps = [DLRep(y, wsum_secrets([s for s, _ in t], [b for _, b in t])) for y, t in self.eqs]
        if len(reps) == 1:
            return reps[0]
        res = reps[0]
        for r in reps[1:]:
            res = (res & r) if self.shape == "and" else (res | r)
        return res

    def validate(self, precommitment):
        ok = self.tag not in VETO
        log("validate", self, (precommitment, ok))
        if not ok:
            raise VETO[self.tag]


def free_value(depth):
    """Anything that can be serialized."""
    r = random
    t = r.random()
    if depth and t < 0.4:
        n = r.choice([0, 1, 2, 3])
        if r.random() < 0.5:
            return [free_value(depth - 1) for _ in range(n)]
        if r.random() < 0.5:
            return tuple(free_value(depth - 1) for _ in range(n))
        return {r.choice(["a", "b", "", "\u00e9", "0", "None"]): free_value(depth - 1) for _ in range(n)}
    return r.choice([
        None, True, False, 0, 1, -1, 2 ** 31, "", "x", "]", "\u00e9", b"", b"\x00", b"abc", Bn(0), Bn(5), Bn.from_decimal(str(r.getrandbits(300))), Bn(-3), 1.5,
        r.choice(POINTS),
    ])


_G = [EcGroup(713), EcGroup(415)]
POINTS = [g.generator() for g in _G] + [g.infinite() for g in _G]
CONTAINERS = ["point", "dict", "list", "tuple", "nested", "strmix"]


def pack_pc(kind, pt, nonce):
    if kind == "point":
        return pt
    if kind == "dict":
        return {"C": pt, "n": nonce}
    if kind == "list":
        return [pt, nonce]
    if kind == "tuple":
        return (pt, nonce)
    if kind == "nested":
        return {"a": [pt, {"n": nonce}], "b": []}
    if kind == "free":
        v = [free_value(3), pt, free_value(2)]
        return v if random.random() < 0.5 else {"": free_value(1), "C": pt, "z": free_value(2)}
    return ["some text \u00e9", pt, nonce, b"\x00\xff", None, True]


def unpack_pc(kind, pc):
    if kind == "point":
        return pc
    if kind == "dict":
        return pc["C"]
    if kind in ("list", "tuple"):
        return pc[0]
    if kind == "free" and isinstance(pc, dict):
        return pc["C"]
    if kind == "nested":
        return pc["a"][0]
    return pc[1]


class BlindPrim(ExtendedProofStmt):
    """
    y = x g, along with a commitment C = x h + r k made by the prover (C is not the identity).
    """

    def __init__(self, y, g, h, k, x, container="point", tag=None):
        self.y, self.g, self.h, self.k, self.x = y, g, h, k, x
        self.r = Secret()
        self.container, self.tag = container, tag
        self.order = g.group.order()

    def precommit(self):
        log("precommit", self)
        self.r.value = self.order.random()
        if self.tag in EVIL:
            hh, kk = EVIL[self.tag]
            q = int(str(self.order))
            x = int(str(self.x.value))
            self.r.value = Bn.from_decimal(str(-x * hh * pow(kk, -1, q) % q))
            return pack_pc(self.container, self.g.group.infinite(), self.order.random())
        xv = Bn.from_decimal(str(self.x.value))
        return pack_pc(self.container, xv * self.h + self.r.value * self.k, self.order.random())

    def construct_stmt(self, precommitment):
        log("construct", self, precommitment)
        C = unpack_pc(self.container, precommitment)
        return DLRep(self.y, self.x * self.g) & DLRep(C, self.x * self.h + self.r * self.k)

    def simulate_precommit(self):
        log("simulate_precommit", self)
        if self.tag in EVIL:
            return pack_pc(self.container, self.g.group.infinite(), self.order.random())
        return pack_pc(self.container, self.order.random() * self.k, self.order.random())

    def validate(self, precommitment):
        C = unpack_pc(self.container, precommitment)
        ok = LAX or (not (C == self.g.group.infinite()) and self.tag not in VETO)
        log("validate", self, (precommitment, ok))
        if self.tag in VETO:
            raise VETO[self.tag]
        if not ok:
            raise ValidationError("C is the identity")
