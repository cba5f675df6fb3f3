"""C25: garbage is never accepted and does no harm."""
import decimal
import fractions
import os

import msgpack

from zkmon import core, gen, model, drive, tamper
from zkmon.checks.c07 import degenerate
from zkmon.model import bn, to_int, P

from petlib.bn import Bn
from bplib import bp
from bplib.bp import BpGroup
from petlib.ec import EcGroup
from petlib.pack import encode, decode
from zksk import Secret
from zksk.base import NIZK, SimulationTranscript

ID = "C25"
TECHNIQUE = "fuzzing of every entry point that takes messages (bytes, fields, positions, spliced parts) with an acceptance monitor; a liveness monitor presents genuine proofs and runs to the same objects afterwards"
RULE = (
    "random statements; garbage bytes, garbage structures, garbage at random positions, truncated, flipped and recombined encodings, parts of other proofs, garbage protocol messages and challenges; "
    "what equals the genuine contents is not judged; distinct by tree shape, entry point and garbage"
)
QUICK, THOROUGH = 900, 30000
REQUIRED = [
    "bytes_random", "bytes_structured", "bytes_mutated", "bytes_decoded", "fields_refused", "positions_refused", "splices_refused", "wire_garbage", "objects_refused",
    "interactive_refused", "at_commitment", "at_responses", "at_precommitment", "simulation_refused", "prover_garbage", "genuine_after", "genuine_run_after", "genuine_simulation_after",
    "deep", "huge", "interactive_parts", "bytes_longer",
] + ["leaf_" + k for k in ("dl", "ne", "r2", "rg", "bbs", "plain", "blind")]
CURVES = ["p224", "p256", "secp256k1", "p384", "G1"]


def plain_atom(rng):
    """Something that bytes can decode to."""
    k = rng.randrange(12)
    if k == 0:
        return rng.choice([None, True, False])
    if k == 1:
        return rng.choice([0, 1, -1, 2, 2 ** 31, 2 ** 63 - 1, -2 ** 63, 2 ** 64 - 1])
    if k == 2:
        return rng.choice([0.0, -0.0, 1.5, float("nan"), float("inf"), 1e300])
    if k == 3:
        return rng.choice(["", "x", "\x00", "challenge", "p" * 500, "\u00e9"])
    if k == 4:
        return rng.choice([b"", b"\x00", b"\xff" * 32, bytes(rng.randrange(256) for _ in range(rng.randrange(70)))])
    if k in (5, 6, 7):
        return bn(rng.choice([0, 1, -1, 2 ** 128, 2 ** 256, 2 ** 4000, -2 ** 512, rng.randrange(2 ** 128), rng.randrange(2 ** 256), model.order("p224"), model.order("p224") - 1]))
    if k in (8, 9):
        g = rng.choice(CURVES)
        return P(g, rng.choice([0, 1, -1, 2, rng.randrange(model.order(g))]))
    if k == 10:
        g = rng.choice(["G2", "GT", "bp512", "p192"])
        return P(g, rng.choice([0, 1, 5]))
    return rng.choice([[], (), {}])


def plain(rng, depth=0):
    k = rng.randrange(10)
    if depth > 4 or k < 4 + depth:
        return plain_atom(rng)
    n = rng.choice([0, 1, 1, 2, 2, 3, 5])
    if k == 9:
        return {rng.choice(["a", "stmt", 0, 1, b"k"]): plain(rng, depth + 1) for _ in range(n)}
    out = [plain(rng, depth + 1) for _ in range(n)]
    return tuple(out) if rng.random() < 0.4 else out


def strange(rng, v):
    """Objects that only a caller in the same process can present."""
    k = rng.randrange(16)
    if k == 0:
        return object()
    if k == 1:
        return Ellipsis
    if k == 2:
        return rng.choice([set(), {1, 2}, frozenset()])
    if k == 3:
        return rng.choice([range(3), iter([bn(1)]), (x for x in [1]), zip([1], [2])])
    if k == 4:
        return rng.choice([int, Bn, NIZK, Exception, Exception("x")])
    if k == 5:
        return rng.choice([lambda *a, **k: True, len])
    if k == 6:
        s = Secret(value=3)
        return rng.choice([s, s * P("p224", 5), Secret()])
    if k == 7:
        return rng.choice([v, v.get_verifier()])
    if k == 8:
        return rng.choice([bytearray(b"abc"), memoryview(b"abc"), 3j, decimal.Decimal(3), fractions.Fraction(1, 3)])
    if k == 9:
        x = []
        x.append(x)
        return x
    if k == 10:
        return NIZK(challenge=bn(1), responses=[bn(2)], precommitment=None, stmt_hash=b"")
    return plain(rng)


def deep(rng, n):
    x = plain_atom(rng)
    for _ in range(n):
        x = [x] if rng.random() < 0.8 else (x,)
    return x


def structured_bytes(ctx, rng):
    k = rng.randrange(5)
    if k == 0:
        return msgpack.packb([encode(plain(rng)) for _ in range(rng.choice([4, 4, 4, 3, 5, 0]))], use_bin_type=True)
    if k == 1:
        return encode(plain(rng))
    if k == 2:
        return msgpack.packb([bytes(rng.randrange(256) for _ in range(rng.randrange(20))) for _ in range(4)], use_bin_type=True)
    if k == 3:
        # extension types with made up contents
        return msgpack.packb([msgpack.packb(msgpack.ExtType(rng.randrange(128), bytes(rng.randrange(256) for _ in range(rng.randrange(40))))) for _ in range(4)], use_bin_type=True)
    ctx.count("deep")
    return msgpack.packb([encode(deep(rng, rng.choice([10, 100, 400]))) for _ in range(4)], use_bin_type=True)


def mutate_bytes(rng, raw):
    x = bytearray(raw)
    for _ in range(rng.choice([1, 1, 1, 2, 5])):
        k = rng.randrange(7)
        j = rng.randrange(len(x)) if x else 0
        if k <= 2 and x:
            x[j] ^= 1 << rng.randrange(8)
        elif k == 3 and x:
            x[j] = rng.randrange(256)
        elif k == 4:
            x = x[:j] + bytes([rng.randrange(256)]) + x[j:]
        elif k == 5:
            del x[j:j + rng.choice([1, 1, 3, 30])]
        else:
            a = rng.randrange(len(x) + 1)
            x = x[:j] + x[a:a + 40] + x[j:]
    return bytes(x)


UNKNOWN_CURVE = 77


def decodes_in_child(x):
    """Decode in a forked process first: None, or what killed it."""
    pid = os.fork()
    if pid == 0:
        try:
            known = set(EcGroup.list_curves())
            make = EcGroup.__init__

            def watched(self, nid=713, *a, **k):
                if nid not in known:
                    os._exit(UNKNOWN_CURVE)  # petlib and bplib use a null pointer for these
                make(self, nid, *a, **k)

            pairing = BpGroup.__init__

            def watched_pairing(self, nid=bp.NID_fp254bnb, *a, **k):
                if nid != bp.NID_fp254bnb:
                    os._exit(UNKNOWN_CURVE)
                pairing(self, nid, *a, **k)

            EcGroup.__init__, BpGroup.__init__ = watched, watched_pairing
            drive.attempt(lambda: NIZK.deserialize(x))
        finally:
            os._exit(0)
    _, status = os.waitpid(pid, 0)
    return status or None


def fields(z):
    return [z.challenge, z.responses, z.precommitment, z.stmt_hash]


def genuinely_same(z, w):
    """Not surely different: not judged."""
    try:
        return not any(tamper.differs(a, b) for a, b in zip(fields(z), fields(w)))
    except Exception:
        return True


def points(x):
    out = set()
    for p in tamper.paths(x):
        v = tamper.get(x, p)
        if isinstance(v, tamper.POINTS):
            out.add(encode(v))
    return out


def lost(x, p, y):
    """The precommitments' points at p are gone; the rest (placeholders, a custom primitive's other data) need not matter."""
    try:
        a, b = points(tamper.get(x, p)), points(y)
    except Exception:
        return False
    return bool(a) and not a & b


def fits(n):
    """
    False if other contents are a proof as well: responses of secrets with vanishing or equal
    coefficients, challenges of a statement 0 = x g.
    """
    if n["k"] in ("and", "or"):
        return all(fits(c) for c in n["s"])
    q = model.order(n["g"]) if "g" in n else None
    for y, t in ([(n["y"], n["t"])] if n["k"] == "dl" else n["eqs"] if n["k"] == "plain" else []):
        bs = [b % q for _, b in t]
        if y % q == 0 or len(set(bs)) < len(bs):
            return False
    return True


class Case:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        for _ in range(50):
            spec = gen.gen_spec(rng, max_leaves=rng.choice([1, 2, 3, 5]), kinds=[("dl", 8), ("ne", 3), ("r2", 0.8), ("rg", 0.8), ("bbs", 0.3), ("plain", 1.5), ("blind", 3)])
            if not degenerate(spec["n"]) and fits(spec["n"]):
                break
        else:
            raise RuntimeError("only degenerate statements")
        self.spec, self.shape = spec, model.shape(spec["n"])
        for n, _ in model.walk(spec["n"]):
            if n["k"] not in ("and", "or"):
                ctx.count("leaf_" + n["k"])
        self.v = model.build(spec, "v").stmt
        self.b = model.build(spec, "p")
        self.msg = rng.choice(["", "m"])

    def prove(self):
        return self.b.stmt.prove(self.b.sdict, message=self.msg)

    def judge(self, what, desc, out, **extra):
        self.ctx.eval((self.shape, what, core.short(desc, 200)))
        if out.accept:
            self.ctx.violation("garbage-accepted-" + what, "%s: %s: %r" % (self.shape, desc, out), spec=self.spec, **extra)
            return False
        self.ctx.count(what + "_refused")
        return True

    def genuine(self, prior):
        """The same objects still work."""
        rng, ctx = self.rng, self.ctx
        k = rng.randrange(4)
        if k < 2:
            out = drive.attempt(lambda: self.v.verify(drive.transport(self.prove(), rng.choice(["obj", "ser"])), message=self.msg))
            name = "genuine_after"
        elif k == 2:
            out = drive.attempt(lambda: drive.interact(self.b.stmt.get_prover(self.b.sdict), self.v.get_verifier()))
            if out.err is None:
                out = drive.attempt(lambda: self.run_again())
            name = "genuine_run_after"
        else:
            out = drive.attempt(lambda: self.v.verify_simulation_consistency(self.v.simulate()))
            name = "genuine_simulation_after"
        if not out.accept:
            ctx.violation("harmed", "%s: after %s, %s: %r" % (self.shape, core.short(prior, 300), name, out), spec=self.spec)
            return False
        ctx.count(name)
        return True

    def run_again(self):
        p, u = self.b.stmt.get_prover(self.b.sdict), self.v.get_verifier()
        u.process_precommitment(p.precommit())
        return u.verify(p.compute_response(u.send_challenge(p.commit())))

    def verify(self, z):
        return drive.attempt(lambda: self.v.verify(z, message=self.msg))


def as_bytes(c, z):
    rng, ctx = c.rng, c.ctx
    raw = z.serialize()
    for _ in range(8):
        k = rng.choice(["random", "structured", "mutated", "mutated", "mutated"])
        if k == "random":
            x = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 4, 30, len(raw)])))
        elif k == "structured":
            x = structured_bytes(ctx, rng)
        elif rng.random() < 0.5:
            x = mutate_bytes(rng, raw)
        else:
            # inside one of the four encoded fields
            parts = msgpack.unpackb(raw)
            j = rng.randrange(4)
            parts[j] = mutate_bytes(rng, parts[j])
            x = msgpack.packb(parts, use_bin_type=True)
        ctx.count("bytes_" + k)
        dead = decodes_in_child(x)
        if dead is not None:
            ctx.eval((c.shape, "bytes", k, x[:20]))
            if os.WIFEXITED(dead) and os.WEXITSTATUS(dead) == UNKNOWN_CURVE:
                ctx.violation("unknown-curve-crash", "%s bytes naming an unknown curve: %s" % (k, x.hex()), spec=c.spec)
                ctx.violations[:-1] = [v for v in ctx.violations[:-1] if v["mech"] != "unknown-curve-crash"]
                ctx.count("unknown_curve_crash")
                continue
            ctx.violation("crash", "%s bytes end the process (status %d): %s" % (k, dead, x.hex()), spec=c.spec)
            return
        d = drive.attempt(lambda: NIZK.deserialize(x))
        if d.err is not None:
            ctx.eval((c.shape, "bytes", k, x[:20]))
            ctx.count("bytes_undecodable")
            continue
        ctx.count("bytes_decoded")
        if genuinely_same(z, d.value):
            ctx.count("same_contents")
            continue
        if not c.judge("bytes", "%s bytes %s" % (k, x.hex()), c.verify(d.value)):
            return
        # and the bytes themselves instead of an object
        c.judge("objects", "raw bytes", c.verify(x))


def as_longer(c, z):
    """The genuine encoding with something before or behind it, or in another structure."""
    rng, ctx = c.rng, c.ctx
    raw = z.serialize()
    parts = msgpack.unpackb(raw)
    pack = lambda x: msgpack.packb(x, use_bin_type=True)
    junk = rng.choice([b"\0", b"\xc0", b"x", bytes(rng.randrange(256) for _ in range(9)), raw, encode(bn(5))])
    j = rng.randrange(4)
    for what, x in (
        ("bytes behind", raw + junk),
        ("a byte missing", raw[:-1]),
        ("further fields", pack(parts + [rng.choice([encode(bn(1)), encode(None), junk, None, raw])] * rng.choice([1, 2]))),
        ("bytes behind a field", pack(parts[:j] + [parts[j] + junk] + parts[j + 1 :])),
        ("fields missing", pack(parts[: rng.randrange(4)])),
        ("within a list", pack([parts])),
        ("with names", pack(dict(zip("abcd", parts)))),
        ("numbered", pack(dict(enumerate(parts)))),
        ("text before", b"zk" + raw),
    ):
        out = drive.attempt(lambda: c.verify(NIZK.deserialize(x)))
        ctx.count("bytes_longer")
        if not c.judge("longer", "the encoding with %s (%d bytes)" % (what, len(x)), out.value if out.err is None else out, hex=x.hex()):
            return


def unknown_curves(ctx, rng):
    """The recorded finding, looked for in each run."""
    for point, code in ((P("p224", 5), 2), (P("G1", 5).pt, 101)):
        nid = rng.choice([0, 5, 99999, -1])
        inner = msgpack.packb((nid, point.export()))
        part = msgpack.packb(msgpack.ExtType(code, inner))
        x = msgpack.packb([encode(bn(1)), part, encode(None), encode(b"")], use_bin_type=True)
        dead = decodes_in_child(x)
        ctx.eval(("unknown-curve", code))
        if dead is not None:
            ctx.violation("unknown-curve-crash", "point with extension type %d and curve number %d: %s" % (code, nid, x.hex()))
            ctx.count("unknown_curve_crash")


def as_fields(c, z):
    rng, ctx = c.rng, c.ctx
    for _ in range(8):
        n = rng.choice([1, 1, 1, 2, 3, 4])
        f = fields(z)
        which = rng.sample(range(4), n)
        odd = rng.random() < 0.4
        for j in which:
            f[j] = strange(rng, c.v) if odd else plain(rng)
            if rng.random() < 0.05:
                f[j] = deep(rng, rng.choice([50, 900, 5000]))
                ctx.count("deep")
            elif rng.random() < 0.05:
                f[j] = Bn(rng.choice([1, -1])) * Bn(3).pow(rng.choice([10 ** 4, 6 * 10 ** 4]))
                ctx.count("huge")
        desc = "fields %s are %s" % (sorted(which), core.short([f[j] for j in sorted(which)], 1500))
        w = NIZK(*f)
        if not odd and rng.random() < 0.5:
            t = drive.attempt(lambda: NIZK.deserialize(w.serialize()))
            if t.err is not None:
                continue
            w = t.value
            ctx.count("wire_garbage")
        if genuinely_same(z, w):
            continue
        if not c.judge("fields", desc, c.verify(w)):
            return
    for _ in range(3):
        x = strange(rng, c.v)
        if not c.judge("objects", core.short(x, 300), c.verify(x)):
            return


def as_positions(c, z):
    rng, ctx = c.rng, c.ctx
    for _ in range(10):
        f = fields(z)
        desc = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            j = rng.choice([0, 1, 1, 1, 2, 2, 3])
            ps = list(tamper.paths(f[j]))
            p = rng.choice(ps)
            y = plain(rng)
            if rng.random() < 0.3 and isinstance(tamper.get(f[j], p), (list, tuple)):
                y = list(tamper.get(f[j], p))
                k = rng.randrange(4)
                if k == 0:
                    y = y[::-1]
                elif k == 1:
                    y = y + y
                elif k == 2:
                    y = [y]
                else:
                    y = y + [plain(rng)]
            f[j] = tamper.put(f[j], p, y)
            desc.append((j, p, core.short(y, 200)))
        w = NIZK(*f)
        if rng.random() < 0.4:
            t = drive.attempt(lambda: NIZK.deserialize(w.serialize()))
            if t.err is not None:
                continue
            w = t.value
            ctx.count("wire_garbage")
        if genuinely_same(z, w):
            continue
        if not c.judge("positions", desc, c.verify(w)):
            return


def as_splices(c, z):
    """Parts of other proofs for the same or another statement."""
    rng = c.rng
    if rng.random() < 0.5:
        other = c.prove()
        whose = "the same statement"
    else:
        b = model.build(gen.gen_spec(rng, max_leaves=3), "p")
        other = b.stmt.prove(b.sdict, message=c.msg)
        whose = "another statement"
    for _ in range(6):
        f, o = fields(z), fields(other)
        desc = []
        if rng.random() < 0.4:
            for j in rng.sample(range(4), rng.choice([1, 2, 3])):
                f[j] = o[j]
                desc.append(j)
        else:
            j = rng.choice([1, 1, 2])
            p = rng.choice(list(tamper.paths(f[j])))
            src = rng.choice([j, 1, 2, 0])
            ps = [x for x in tamper.paths(o[src]) if x == p] if rng.random() < 0.5 else None
            q = rng.choice(ps or list(tamper.paths(o[src])))
            f[j] = tamper.put(f[j], p, tamper.get(o[src], q))
            desc = [(j, p, src, q)]
        w = NIZK(*f)
        if genuinely_same(z, w) or genuinely_same(other, w) and whose == "the same statement":
            continue
        if not c.judge("splices", "%s from a proof of %s" % (desc, whose), c.verify(w)):
            return


def as_messages(c, z):
    """In the interactive protocol."""
    rng, ctx = c.rng, c.ctx
    for _ in range(5):
        where = rng.choice(["precommitment", "commitment", "responses", "responses", "all"])
        odd = rng.random() < 0.4
        what = []

        def bad(name, x):
            if where not in (name, "all"):
                return x
            k, p = rng.random(), ()
            if k < 0.4:
                y = strange(rng, c.v) if odd else plain(rng)
            elif k < 0.5:
                y = fields(z)[{"precommitment": 2, "commitment": 3, "responses": 1}[name]]
            else:
                p = rng.choice(list(tamper.paths(x)))
                part = strange(rng, c.v) if odd else plain(rng)
                y = tamper.put(x, p, part)
                ctx.count("interactive_parts")
            try:
                if lost(x, p, tamper.get(y, p)) if name == "precommitment" else tamper.differs(x, y):
                    what.append((name, core.short(y, 500)))
            except Exception:
                pass
            return y

        def go():
            p, u = c.b.stmt.get_prover(c.b.sdict), c.v.get_verifier()
            pc = p.precommit()
            u.process_precommitment(bad("precommitment", pc))
            com = p.commit()
            if where == "precommitment" and rng.random() < 0.5:
                # the identifier that the verifier expects now
                com = (u.stmt.prehash_statement().digest(), com[1])
            ch = u.send_challenge(bad("commitment", com))
            return u.verify(bad("responses", p.compute_response(ch)))

        out = drive.attempt(go)
        if not what:
            continue
        ctx.count("at_" + where)
        if not c.judge("interactive", what, out):
            return


def as_simulation(c, z):
    rng = c.rng
    tr = c.v.simulate()
    f0 = [tr.commitment, tr.challenge, tr.responses, tr.precommitment, tr.stmt_hash]
    for _ in range(6):
        f = list(f0)
        j = rng.choice([0, 0, 1, 2, 2, 3, 4])
        p = rng.choice(list(tamper.paths(f[j])))
        y = strange(rng, c.v) if rng.random() < 0.3 else plain(rng)
        f[j] = tamper.put(f[j], p, y)
        try:
            if not tamper.differs(f0[j], f[j]):
                continue
        except Exception:
            continue
        if j == 3 and not lost(f0[3], p, y):
            continue
        w = SimulationTranscript(*f)
        out = drive.attempt(lambda: c.v.verify_simulation_consistency(w))
        if not c.judge("simulation", "field %d at %s is %s" % (j, p, core.short(y, 300)), out):
            return


def as_challenges(c, z):
    """A prover answers, or not; it can still prove."""
    rng, ctx = c.rng, c.ctx
    for _ in range(3):
        p = c.b.stmt.get_prover(c.b.sdict)
        drive.attempt(p.precommit)
        if rng.random() < 0.8:
            drive.attempt(p.commit)
        drive.attempt(lambda: p.compute_response(strange(rng, c.v) if rng.random() < 0.5 else plain(rng)))
        drive.attempt(lambda: c.b.stmt.simulate(strange(rng, c.v) if rng.random() < 0.5 else plain(rng)))
        drive.attempt(lambda: c.b.stmt.prove(c.b.sdict, message=rng.choice([None, 5, b"\xff", [], object()])))
        ctx.count("prover_garbage")
    ctx.eval((c.shape, "challenges"))


WAYS = [as_bytes, as_longer, as_fields, as_fields, as_positions, as_positions, as_splices, as_messages, as_messages, as_simulation, as_challenges]


def case(ctx, rng, i):
    if i == 0:
        unknown_curves(ctx, rng)
    c = Case(ctx, rng)
    z = c.prove()
    if not c.verify(z).accept:
        ctx.count("genuine_refused")
        return
    way = WAYS[i % len(WAYS)]
    way(c, z)
    c.genuine(way.__name__)
    if rng.random() < 0.3:
        way = rng.choice(WAYS)
        way(c, z)
        c.genuine(way.__name__)
