"""C03: serialized proofs are portable across processes."""
import json
import os
import subprocess
import sys

from zkmon import bare, core, gen, model, drive, peer
from zkmon.model import order
from zkmon.checks.c01 import note, message
from zksk.base import NIZK

ID = "C03"
TECHNIQUE = "two-process sessions with different hash seeds and allocation: proofs cross as bytes in both directions, identifiers and re-encodings compared"
RULE = (
    "random statement trees over all groups; one process proves, another one (other PYTHONHASHSEED, other object "
    "identities and secret names) rebuilds the statement from public data, decodes, compares identifiers and "
    "verifies; distinct by tree shape, direction and message"
)
QUICK, THOROUGH = 1000, 20000
REQUIRED = ["changed_serialized", "over_64k", "parent_to_peer", "peer_to_parent", "leaf_bbs", "leaf_rg", "leaf_ne", "leaf_blind", "leaf_plain", "node_or", "group_G1", "group_G2", "group_GT", "hash_seeds_differ", "bare_decoded", "bare_pairing"]
GROUPS = [("p224", 6), ("p256", 5), ("secp256k1", 2), ("bp512", 1), ("p384", 1), ("p192", 1), ("G1", 2), ("G2", 1), ("GT", 0.7)]
_peer = None


def get_peer(ctx, rng):
    global _peer
    if _peer is None:
        _peer = peer.Peer(rng.randrange(1, 4000000000))
        if _peer.ask(op="hashinfo")["hash"] != hash("zksk"):
            ctx.count("hash_seeds_differ")
    return _peer


def large(rng):
    """A statement whose proof takes more than 64 kB, sometimes more than a megabyte."""
    g = rng.choice(["p224", "p256"])
    q = order(g)
    n = rng.choice([2400, 2400, 3000, 5000, 9000, 9000, 36000])
    how = rng.choice(["terms", "range"]) if n == 2400 else "terms"
    sec = lambda v: dict(q=q, v=v, ty="bn", how="init", init=True)
    if how == "range":
        x, r, gg, hh, nb = rng.randrange(2 ** 150), rng.randrange(q), rng.randrange(1, q), rng.randrange(1, q), 200
        leaf = lambda: dict(k="r2", g=g, c=(x * gg + r * hh) % q, gg=gg, hh=hh, n=nb, x=0, r=1)
        return dict(secrets=[sec(x), sec(r)], n=dict(k="and", s=[leaf() for _ in range(3)]))
    # many different secrets over few different bases
    vs = [rng.randrange(q) for _ in range(n)]
    bs = [rng.randrange(1, q) for _ in range(7)]
    t = [[i, bs[i % 7]] for i in range(n)]
    return dict(secrets=[sec(v) for v in vs], n=dict(k="dl", g=g, t=t, y=sum(vs[i] * b for i, b in t) % q))


def case(ctx, rng, i):
    p = get_peer(ctx, rng)
    big = i % 128 in (5, 9)
    if big:
        spec = large(rng)
    else:
        spec = gen.gen_spec(rng, groups=GROUPS, extreme=0.06, twins=rng.choice([0, 0, 0.3]))
    spec = json.loads(json.dumps(spec))
    note(ctx, spec)
    for n, _ in model.walk(spec["n"]):
        if "g" in n:
            ctx.count("group_" + n["g"])
    msg = message(rng)
    shape = model.shape(spec["n"])
    here = i % 3 != 0

    def bad(mech, detail):
        ctx.violation(mech, "%s of %s: %s" % ("parent to peer" if here else "peer to parent", shape, detail), spec=spec, message=msg)

    if here:
        b = model.build(spec, "p")
        out = drive.attempt(lambda: b.stmt.prove(b.sdict, message=msg))
        if out.err is not None:
            return bad("not-proven", out)
        nizk = out.value
        raw = drive.attempt(nizk.serialize)
        if raw.err is not None:
            return bad("not-serializable", raw)
        raw = raw.value
        back = drive.attempt(NIZK.deserialize, raw)
        if back.err is not None:
            return bad("not-deserializable", back)
        if not same(back.value, nizk):
            return bad("round-trip-differs", ("%r != %r" % (back.value, nizk))[:2000])
        if len(raw) > 2 ** 16:
            ctx.count("over_64k")
        ctx.count("round_trips_equal")
        if not changed(ctx, rng, nizk, raw, bad):
            return
        r = p.ask(op="verify", spec=spec, nizk=raw.hex(), msg=msg)
        ctx.eval((shape, here, msg))
        if not r["accept"]:
            return bad("refused-by-other-process", r["verdict"])
        if r["stmt_hash"] != nizk.stmt_hash.hex():
            return bad("identifier-differs", "%s != %s" % (r["stmt_hash"], nizk.stmt_hash.hex()))
        if r["again"] != raw.hex():
            return bad("re-encoding-differs", "%s != %s" % (r["again"], raw.hex()))
        ctx.count("parent_to_peer")
        if not big:
            decode_first(ctx, spec, raw, nizk, msg)
        ctx.sample(dict(shape=shape, bytes=len(raw), stmt_hash=r["stmt_hash"], verdict=r["verdict"]))
    else:
        r = p.ask(op="prove", spec=spec, msg=msg)
        if "err" in r:
            return bad("not-proven", r["err"])
        raw = bytes.fromhex(r["nizk"])
        out = drive.attempt(lambda: model.build(spec, "v").stmt.verify(NIZK.deserialize(raw), message=msg))
        ctx.eval((shape, here, msg))
        if not out.accept:
            return bad("refused-by-other-process", out)
        h = peer.stmt_hash(spec, NIZK.deserialize(raw).precommitment).hex()
        if h != r["stmt_hash"]:
            return bad("identifier-differs", "%s != %s" % (h, r["stmt_hash"]))
        ctx.count("peer_to_parent")


_waiting = []


def decode_first(ctx, spec, raw, nizk, msg):
    """Proofs are gathered for a process that decodes them before it imports anything else."""
    pairing = any(n.get("g") in ("G1", "G2", "GT") or n["k"] == "bbs" for n, _ in model.walk(spec["n"]))
    _waiting.append((spec, raw.hex(), bare.fields(NIZK.deserialize(raw)), msg, pairing))
    if len(_waiting) < 25:
        return
    batch = _waiting[:]
    _waiting.clear()
    out = subprocess.run(
        [sys.executable, "-W", "ignore", "-m", "zkmon.bare"], input=json.dumps([dict(spec=s, nizk=r, msg=m) for s, r, _, m, _ in batch]),
        stdout=subprocess.PIPE, cwd=core.VERIF, env=dict(os.environ, ZKMON_REPO=core.REPO, PYTHONDONTWRITEBYTECODE="1"), text=True, timeout=600,
    )
    if out.returncode:
        raise RuntimeError("bare process failed")
    for (s, r, k, m, pairing), a in zip(batch, json.loads(out.stdout)):
        det = "decoded first, %s" % model.shape(s["n"])
        if "err" in a:
            ctx.violation("not-decoded-first", "%s: %s" % (det, a["err"]), spec=s)
        elif a["kinds"] != k:
            ctx.violation("decoded-otherwise", "%s: %s instead of %s" % (det, str(a["kinds"])[:500], str(k)[:500]), spec=s)
        elif a["again"] != r or not a["accept"]:
            ctx.violation("refused-when-decoded-first", "%s: %s" % (det, a["verdict"]), spec=s)
        else:
            ctx.count("bare_decoded")
            if pairing:
                ctx.count("bare_pairing")


def changed(ctx, rng, nizk, raw, bad):
    """A changed proof's bytes are those of what it is now."""
    for obj in (nizk, NIZK.deserialize(raw)):
        obj.serialize()
        f, v = rng.choice([("challenge", obj.challenge + 1), ("stmt_hash", bytes(32)), ("responses", [obj.responses, obj.challenge]), ("precommitment", [obj.challenge, b"", None])])
        old = getattr(obj, f)
        setattr(obj, f, v)
        out = drive.attempt(lambda: NIZK.deserialize(obj.serialize()))
        setattr(obj, f, old)
        if out.err is not None or not same(getattr(out.value, f), v):
            bad("changed-proof-serialized-otherwise", "%s: %r" % (f, out))
            return False
    ctx.count("changed_serialized")
    return True


def same(a, b):
    """Equal field by field; sequences by their elements."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, NIZK) and isinstance(b, NIZK):
        return all(same(getattr(a, f), getattr(b, f)) for f in ("challenge", "responses", "precommitment", "stmt_hash"))
    return a == b
