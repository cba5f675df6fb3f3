"""Paths into nested messages, and ways to change what is there."""
from zkmon import model
from zkmon.model import bn, to_int, P

from petlib.bn import Bn
from petlib.ec import EcPt
from zksk.pairings import G1Point, G2Point, AdditivePoint

POINTS = (EcPt, G1Point, G2Point, AdditivePoint)


def paths(x, path=()):
    """All positions of a nested message, containers included."""
    yield path
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            yield from paths(y, path + (i,))
    elif isinstance(x, dict):
        for k in x:
            yield from paths(x[k], path + (k,))


def get(x, path):
    for p in path:
        x = x[p]
    return x


def put(x, path, v):
    """Copy with the position replaced."""
    if not path:
        return v
    p = path[0]
    if isinstance(x, dict):
        return {k: (put(y, path[1:], v) if k == p else y) for k, y in x.items()}
    out = [put(y, path[1:], v) if i == p else y for i, y in enumerate(x)]
    return tuple(out) if isinstance(x, tuple) else out


def num_delta(rng):
    """Not a multiple of any group order."""
    return rng.choice([1, -1, 2, -2, 2 ** rng.randrange(1, 250), -(2 ** rng.randrange(1, 250)), rng.randrange(1, 2 ** 60)])


def gname(p):
    """A group of the model's for the point's type, or None."""
    if isinstance(p, EcPt):
        return {v: k for k, v in model.EC_NIDS.items()}.get(p.group.nid())
    return {G1Point: "G1", G2Point: "G2", AdditivePoint: "GT"}[type(p)]


def change_point(rng, p):
    g = gname(p)
    G = P(g, 1)
    c = rng.randrange(5)
    if c == 0:
        return "plus_g", p + G
    if c == 1:
        return "neg", -1 * p
    if c == 2:
        return "infinite", P(g, 0)
    if c == 3:
        return "double", 2 * p
    return "random", P(g, rng.randrange(2, model.order(g)))


def change(rng, x):
    """(name, other value) for the atom or container x, or None."""
    if isinstance(x, bool) or x is None:
        return ("type", "") if rng.random() < 0.5 else ("type", 0 if x is None else None)
    if isinstance(x, (Bn, int)):
        if rng.random() < 0.06:
            return "none", None
        return "num", bn(to_int(x) + num_delta(rng))
    if isinstance(x, POINTS):
        return change_point(rng, x)
    if isinstance(x, bytes):
        return change_bytes(rng, x)
    if isinstance(x, str):
        n, y = change_bytes(rng, x.encode())
        return n, y.decode("latin-1")
    if isinstance(x, dict):
        if rng.random() < 0.5:
            return "extra_key", dict(x, zz=bn(1))
        k = rng.choice(sorted(x, key=str))
        return "drop_key", {a: b for a, b in x.items() if a != k}
    if isinstance(x, (list, tuple)):
        x = list(x)
        if not x:
            return "append", [bn(0)]
        c = rng.randrange(5)
        if c == 0:
            return "append_last", x + [x[-1]]
        if c == 1:
            return "append_zero", x + [bn(0)]
        if c == 2:
            return "drop_last", x[:-1]
        if c == 3:
            return "drop_first", x[1:]
        return "prepend", [x[0]] + x
    return None


def change_bytes(rng, x):
    c = rng.randrange(6)
    if not x or c == 0:
        return "append", x + b"\x00"
    if c == 1:
        return "truncate", x[:-1]
    if c == 2:
        return "empty", b""
    if c == 3:
        return "half", x[: len(x) // 2]
    if c == 4:
        return "prefix", b"\x00" + x
    j = rng.randrange(len(x))
    return "flip", x[:j] + bytes([x[j] ^ (1 << rng.randrange(8))]) + x[j + 1:]


def differs(a, b):
    """Surely different contents (numbers modulo every order)."""
    if type(a) in (list, tuple) and type(b) in (list, tuple):
        return len(a) != len(b) or any(differs(x, y) for x, y in zip(a, b))
    if type(a) is dict and type(b) is dict:
        return set(a) != set(b) or any(differs(a[k], b[k]) for k in a)
    if isinstance(a, (Bn, int)) and isinstance(b, (Bn, int)) and not isinstance(a, bool):
        d = to_int(a) - to_int(b)
        return d != 0 and all(d % model.order(g) for g in ("p224", "p256", "secp256k1", "p384", "bp512", "p192", "G1"))
    try:
        return not (a == b)
    except Exception:
        return True
