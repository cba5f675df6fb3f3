"""
Reference model: statements as JSON-able specs over known discrete logarithms.

Every point is d * G for a known integer d, so whether a witness satisfies a statement is decided
here with integers modulo the group order, without the code under test.
"""
from zkmon import core  # noqa: F401

import copy
import math
import pickle

from petlib.bn import Bn
from petlib.ec import EcGroup
import zksk
from zksk import Secret, DLRep
from zksk.expr import wsum_secrets
from zksk.composition import AndProofStmt, OrProofStmt
from zksk.pairings import BilinearGroupPair
from zksk.primitives.dl_notequal import DLNotEqual
from zksk.primitives.rangeproof import RangeStmt, PowerTwoRangeStmt
from zksk.primitives.bbsplus import (
    BBSPlusSignature,
    BBSPlusSignatureStmt,
    BBSPlusSecretKey,
    BBSPlusPublicKey,
)
from zksk.utils import make_generators
from zkmon import prims

assert zksk.__file__.startswith(core.REPO), zksk.__file__


def bn(v):
    return Bn.from_decimal(str(int(v)))


def to_int(b):
    return int(b) if isinstance(b, int) else int(str(b)) if isinstance(b, Bn) else b


EC_NIDS = {"p224": 713, "p256": 415, "secp256k1": 714, "p384": 715, "bp512": 933, "p192": 409}
_groups = {}
_pairs = {}


def pair_ctx(which=0):
    if which not in _pairs:
        _pairs[which] = BilinearGroupPair()
    return _pairs[which]


def group(name):
    if name not in _groups:
        if name in EC_NIDS:
            _groups[name] = EcGroup(EC_NIDS[name])
        else:
            _groups[name] = getattr(pair_ctx(0), name)
    return _groups[name]


_orders = {}


def order(name):
    if name not in _orders:
        _orders[name] = to_int(group(name).order())
    return _orders[name]


_points = {}


def P(name, d):
    """The point d * G of the group."""
    q = order(name)
    d %= q
    key = (name, d)
    pt = _points.get(key)
    if pt is None:
        if len(_points) > 4000:
            _points.clear()
        g = group(name)
        pt = g.infinite() if d == 0 else bn(d) * g.generator()
        _points[key] = pt
    return pt


# ---------------------------------------------------------------- BBS+ keys

_keys = {}
NUM_GENS = 8


def bbs_key(kid):
    """Key number kid (a JSON-able id): (sk, pk, gamma)."""
    if kid not in _keys:
        bp = pair_ctx(0)
        gens = make_generators(NUM_GENS, group=bp.G1, seed=1000 + 97 * kid)
        h0 = bp.G2.generator()
        gamma = bn(core.make_rng("bbskey", kid).randrange(1, order("G1")))
        sk = BBSPlusSecretKey(h0=h0, gamma=gamma, generators=gens)
        pk = BBSPlusPublicKey(w=gamma * h0, h0=h0, generators=gens)
        _keys[kid] = (sk, pk, gamma)
    return _keys[kid]


_sigs = {}


def bbs_sig(kid, msgs, e, s):
    """The signature (A, e, s) on the messages, computed from the secret key."""
    q = order("G1")
    key = (kid, tuple(m % q for m in msgs), e, s)
    if key not in _sigs:
        if len(_sigs) > 500:
            _sigs.clear()
        sk, pk, gamma = bbs_key(kid)
        g = pk.generators
        acc = g[0] + bn(s % q) * g[1]
        for m, h in zip(msgs, g[2:]):
            acc = acc + bn(m % q) * h
        inv = pow((to_int(gamma) + e) % q, -1, q)
        _sigs[key] = BBSPlusSignature(A=bn(inv) * acc, e=bn(e), s=bn(s))
    return _sigs[key]


# ---------------------------------------------------------------- specs

LEAVES = ("dl", "ne", "r2", "rg", "bbs", "plain", "blind")


def kids(n):
    return n["s"] if n["k"] in ("and", "or") else []


def walk(n, path=()):
    yield n, path
    for i, c in enumerate(kids(n)):
        yield from walk(c, path + (i,))


def leaf_secrets(n):
    """Ids of the secrets of the leaf that its prover has to know."""
    k = n["k"]
    if k == "dl":
        return [s for s, _ in n["t"]]
    if k == "ne":
        return [n["x"]]
    if k in ("r2", "rg"):
        return [n["x"], n["r"]]
    if k == "bbs":
        return list(n["m"])
    if k == "plain":
        return [s for _, t in n["eqs"] for s, _ in t]
    if k == "blind":
        return [n["x"]]
    return [s for c in kids(n) for s in leaf_secrets(c)]


def known(spec, sids):
    return all(spec["secrets"][s]["v"] is not None for s in sids)


def provable(spec, n):
    if n.get("sim"):
        return False
    if n["k"] == "and":
        return all(provable(spec, c) for c in n["s"])
    if n["k"] == "or":
        return any(provable(spec, c) for c in n["s"])
    if n["k"] == "bbs":
        return n["sig"] is not None and known(spec, leaf_secrets(n))
    return known(spec, leaf_secrets(n))


def val(spec, sid):
    return spec["secrets"][sid]["v"]


def truth(spec, n):
    """True / False under the prover's values; None if it depends on the disjunct the prover picks."""
    q = order(n["g"]) if "g" in n else None
    k = n["k"]
    v = lambda s: val(spec, s)
    if k == "and":
        ts = [truth(spec, c) for c in n["s"]]
        return False if False in ts else None if None in ts else True
    if k == "or":
        ts = {truth(spec, c) for c in n["s"] if provable(spec, c)}
        return ts.pop() if len(ts) == 1 else None
    if k == "dl":
        return (sum(v(s) * b for s, b in n["t"]) - n["y"]) % q == 0
    if k == "ne":
        x = v(n["x"])
        return (x * n["v"][1] - n["v"][0]) % q == 0 and (x * n["i"][1] - n["i"][0]) % q != 0
    if k == "r2":
        x, r = v(n["x"]), v(n["r"])
        return (x * n["gg"] + r * n["hh"] - n["c"]) % q == 0 and 0 <= x < 2 ** n["n"]
    if k == "rg":
        x, r = v(n["x"]), v(n["r"])
        return (x * n["gg"] + r * n["hh"] - n["c"]) % q == 0 and n["a"] <= x < n["b"]
    if k == "bbs":
        q = order("G1")
        sg = n["sig"]
        return (
            len(n["m"]) == len(sg["m"])
            and all((v(s) - m) % q == 0 for s, m in zip(n["m"], sg["m"]))
            and sg["key"] == n["key"]
            and not sg.get("bad")
        )
    if k == "plain":
        ts = [(sum(v(s) * b for s, b in t) - y) % q == 0 for y, t in n["eqs"]]
        if n["shape"] == "or":
            return True if all(ts) else False if not any(ts) else None
        return all(ts)
    if k == "blind":
        return (v(n["x"]) * n["gg"] - n["y"]) % q == 0
    raise ValueError(k)


def shape(n):
    """Structure of a node without its numbers, for coverage counts."""
    k = n["k"]
    f = "~" if n.get("sim") else ""
    if k in ("and", "or"):
        return f + k + "(" + ",".join(shape(c) for c in n["s"]) + ")"
    if k == "dl":
        return f + "dl%d%s" % (len(n["t"]), n["g"])
    if k == "r2":
        return f + "r2_%d%s" % (n["n"], n["g"])
    if k == "rg":
        return f + "rg_%d%s" % ((n["b"] - n["a"]).bit_length(), n["g"])
    if k == "ne":
        return f + "ne%d%s" % (n["bind"], n["g"])
    if k == "bbs":
        return f + "bbs%d%s" % (len(n["m"]), "b" if n["bind"] else "u")
    if k == "plain":
        return f + "plain_%s%d" % (n["shape"], len(n["eqs"]))
    return f + "blind_" + n["cont"]


# ---------------------------------------------------------------- building statements


class Built:
    def __init__(self, stmt, secrets, sdict, leaves):
        self.stmt, self.secrets, self.sdict, self.leaves = stmt, secrets, sdict, leaves


def sec_value(s):
    v = s["v"]
    if s.get("ty") == "int":
        return v
    return bn(v)


def build(spec, role, tag=None, simflags=None, deliver=None, values=None, pool=None):
    """
    Construct the statement with the library.

    role: 'p' (secrets get their values) or 'v' (public information only).
    deliver: None: as the spec says; 'init' / 'dict': all values this way (where possible)
    values: override the values of secrets (sid -> int)
    pool: objects to use for the secrets, whatever they were used for before
    """
    if simflags is None:
        simflags = role == "p"
    secrets, sdict = [], {}
    # these get their values from the signature
    taken = {s for n, _ in walk(spec["n"]) if n["k"] == "bbs" and n["bind"] for s in (n["e"], n["sv"])}
    for i, s in enumerate(spec["secrets"]):
        name = s.get("name")
        if name is not None and role == "v" and spec.get("vnames"):
            name = "v_" + name
        if pool is not None:
            sec = pool[i]
        else:
            sec = Secret(name=name) if name is not None else Secret()
            if s.get("copied"):
                # only the copy stays
                sec = copy.deepcopy(sec) if s["copied"] == 2 else pickle.loads(pickle.dumps(sec)) if s["copied"] == 3 else copy.copy(sec)
        if role == "p":
            s2 = s if values is None or i not in values else dict(s, v=values[i])
            if s2["v"] is not None:
                how = "init" if s.get("init") or s.get("twins") else (deliver or s.get("how", "init"))
                if how == "init":
                    sec.value = sec_value(s2)
                else:
                    sdict[sec] = sec_value(s2)
            elif pool is not None and i not in taken:
                sec.value = None
            elif s.get("stale") is not None and i in taken:
                sec.value = bn(s["stale"])
        secrets.append(sec)
    leaves = {}
    S = secrets
    if pool is None and any(s.get("twins") for s in spec["secrets"]):
        kept = taken | {s for n, _ in walk(spec["n"]) if n["k"] == "r2" for s in (n["x"], n["r"])}
        S = Twins(secrets, {i for i, s in enumerate(spec["secrets"]) if s.get("twins") and i not in kept})
    stmt = build_node(spec, spec["n"], S, role, simflags, (), leaves, values)
    return Built(stmt, secrets, sdict, leaves)


class Twins(list):
    """Gives the secrets as separate objects of the same name and value, one for every use."""

    def __init__(self, secrets, which):
        list.__init__(self, secrets)
        self.which = which

    def __getitem__(self, i):
        s = list.__getitem__(self, i)
        return Secret(name=s.name, value=s.value) if i in self.which else s


WATCH = None  # list of (container given to the library, its items at that time), to see that they stay as they are


def watched(container):
    if WATCH is not None:
        WATCH.append((container, list(container.items()) if isinstance(container, dict) else list(container)))
    return container


def build_node(spec, n, S, role, simflags, path, leaves=None, values=None):
    k = n["k"]
    sim = bool(simflags and n.get("sim"))
    bt = bn if n.get("bnp") else int  # type of integer parameters
    if k in ("and", "or"):
        subs = [build_node(spec, c, S, role, simflags, path + (i,), leaves, values) for i, c in enumerate(n["s"])]
        if n.get("op") == "chain":
            st = subs[0]
            for c in subs[1:]:
                st = (st & c) if k == "and" else (st | c)
        else:
            st = (AndProofStmt if k == "and" else OrProofStmt)(*subs)
    elif k == "dl":
        g = n["g"]
        terms = [(S[s], P(g, b)) for s, b in n["t"]]
        if n.get("w"):
            expr = wsum_secrets(watched([s for s, _ in terms]), watched([b for _, b in terms]))
        else:
            expr = terms[0][0] * terms[0][1]
            for s, b in terms[1:]:
                expr = expr + s * b
        if n.get("simctor"):
            st = DLRep(P(g, n["y"]), expr, simulated=sim)
        else:
            st = DLRep(P(g, n["y"]), expr)
    elif k == "ne":
        g = n["g"]
        v, i = n["v"], n["i"]
        kw = dict(simulated=sim) if n.get("simctor") else {}
        st = DLNotEqual((P(g, v[0]), P(g, v[1])), (P(g, i[0]), P(g, i[1])), S[n["x"]], bind=n["bind"], **kw)
    elif k == "r2":
        g = n["g"]
        st = PowerTwoRangeStmt(P(g, n["c"]), P(g, n["gg"]), P(g, n["hh"]), n["n"], S[n["x"]], S[n["r"]])
    elif k == "rg":
        g = n["g"]
        st = RangeStmt(P(g, n["c"]), P(g, n["gg"]), P(g, n["hh"]), bt(n["a"]), bt(n["b"]), S[n["x"]], S[n["r"]])
    elif k == "bbs":
        sk, pk, _ = bbs_key(n["key"])
        sig = None
        if role == "p" and n["sig"] is not None:
            sg = n["sig"]
            sig = bbs_sig(sg["key"], sg["m"], sg["e"], sg["s"])
            if sg.get("bad"):
                sig = bad_sig(sig, sg["bad"])
        msgs = [S[s] for s in n["m"]]
        kw = dict(simulated=sim) if n.get("simctor") else {}
        if n["bind"]:
            st = BBSPlusSignatureStmt(watched([S[n["e"]], S[n["sv"]]] + msgs), pk, sig, **kw)
        else:
            st = BBSPlusSignatureStmt(watched(msgs), pk, sig, binding=False, **kw)
    elif k == "plain":
        g = n["g"]
        st = prims.PlainPrim([(P(g, y), [(S[s], P(g, b)) for s, b in t]) for y, t in n["eqs"]], n["shape"], tag=(role, path))
    elif k == "blind":
        g = n["g"]
        st = prims.BlindPrim(P(g, n["y"]), P(g, n["gg"]), P(g, n["hh"]), P(g, n["kk"]), S[n["x"]], n["cont"], tag=(role, path))
    else:
        raise ValueError(k)
    if sim and not n.get("simctor"):
        st.set_simulated()
    if role == "v" and list(path) in spec.get("vsim", ()):
        # Marks are the prover's business: they must not make a difference to a verifier
        st.set_simulated()
    if leaves is not None:
        leaves[path] = st
    return st


def bad_sig(sig, how):
    q = order("G1")
    A, e, s = sig.A, to_int(sig.e), to_int(sig.s)
    if how == "A":
        return BBSPlusSignature(A=A + P("G1", 1), e=sig.e, s=sig.s)
    if how == "e":
        return BBSPlusSignature(A=A, e=bn((e + 1) % q), s=sig.s)
    if how == "s":
        return BBSPlusSignature(A=A, e=sig.e, s=bn((s + 1) % q))
    if how == "inf":
        return BBSPlusSignature(A=P("G1", 0), e=sig.e, s=sig.s)
    raise ValueError(how)
