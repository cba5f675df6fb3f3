"""C23: custom primitives' checks are enforced wherever they occur."""
import copy
import random as pyrandom

from zkmon import core, gen, model, drive, prims
from zkmon.model import bn, to_int

from petlib.pack import encode
from zksk.base import NIZK
from zksk.exceptions import ValidationError

ID = "C23"
TECHNIQUE = "online trace checker: custom primitives log construct/precommit/simulate/validate events with their place in the tree; every verification's event trace is checked against the messages sent; faults are injected (vetoes, invalid, missing, moved precommitments) at random places"
RULE = (
    "random trees with custom primitives (with and without precommitments, of any serializable type) at all depths, in proven and simulated disjuncts; interactive and not; "
    "distinct by shape and fault"
)
QUICK, THOROUGH = 4000, 100000
REQUIRED = [
    "traces", "accepted", "events", "validated_places", "constructed_places", "veto_refused", "veto_calibrated", "evil_refused", "evil_calibrated", "missing_refused", "moved_refused",
    "in_simulated", "in_or", "in_and", "free_values", "veto_in_simulated", "evil_in_simulated", "interactive", "depth3", "evil_second_refused",
]
KINDS = [("dl", 4), ("ne", 0.8), ("rg", 0.15), ("bbs", 0.05), ("plain", 3), ("blind", 7)]
GROUPS = [("p224", 10), ("p256", 5), ("secp256k1", 1), ("G1", 0.4)]
ERRORS = [ValidationError("no"), ValueError("no"), RuntimeError("no"), AssertionError(), KeyError("x"), ValidationError(), Exception("?")]


def make_spec(rng, need=("plain", "blind")):
    for _ in range(50):
        spec = gen.gen_spec(rng, extreme=0.06, max_leaves=rng.choice([1, 2, 3, 4, 7]), max_depth=rng.choice([1, 2, 3, 4]), kinds=KINDS, groups=GROUPS, homog=0.9, p_leaf=0.3)
        for n, _ in model.walk(spec["n"]):
            # places in the tree as written
            n.pop("op", None)
            if n["k"] == "blind" and rng.random() < 0.3:
                n["cont"] = "free"
        if custom(spec, need):
            return spec
    raise RuntimeError("no custom primitives")


def custom(spec, kinds=("plain", "blind")):
    return [(n, path) for n, path in model.walk(spec["n"]) if n["k"] in kinds]


def at(pc, path):
    """The part of the precommitment message for the place."""
    for j in path:
        if pc is None:
            return None
        pc = pc[j]
    return pc


def put(pc, path, v):
    if not path:
        return v
    pc = list(pc)
    pc[path[0]] = put(pc[path[0]], path[1:], v)
    return pc


def same(a, b):
    return encode(a) == encode(b)


def enclosing(spec, path):
    n = spec["n"]
    out = [n]
    for j in path[:-1]:
        n = n["s"][j]
        out.append(n)
    return out if path else []


def simulated_place(spec, path):
    """In a disjunct that is not the one that is proven, for certain."""
    n = spec["n"]
    for j in path:
        if n["k"] == "or" and not model.provable(spec, n["s"][j]):
            return True
        n = n["s"][j]
    return bool(n.get("sim"))


class Conversation:
    """One proof towards a verifier whose primitives log what happens to them."""

    def __init__(self, rng, spec, how):
        self.spec, self.how = spec, how
        self.b, self.v = model.build(spec, "p", tag=True), model.build(spec, "v", tag=True)
        self.ser = rng.random() < 0.5
        self.pc = None
        # another, valid precommitment that the verifier is sent before
        self.first = None
        self.twice = how == "live" and rng.random() < 0.35

    def make(self):
        """Proof, or the prover with its first message."""
        if self.how == "nizk":
            self.z = self.b.stmt.prove(self.b.sdict)
            self.pc = self.z.precommitment
        else:
            if self.twice:
                evil, prims.EVIL = prims.EVIL, {}
                try:
                    other = model.build(self.spec, "p", tag=True)
                    self.first = other.stmt.get_prover(other.sdict).precommit()
                finally:
                    prims.EVIL = evil
            self.p = self.b.stmt.get_prover(self.b.sdict)
            self.pc = self.p.precommit()

    def check(self, change=None):
        """Verify; returns (outcome, what the verifier was sent, events on the verifier's side)."""
        w = (lambda x: drive.wire(x)) if self.ser else (lambda x: x)
        pc = self.pc if change is None else change(self.pc)
        prims.LOG = []
        try:
            if self.how == "nizk":
                z = NIZK(challenge=self.z.challenge, responses=self.z.responses, precommitment=pc, stmt_hash=self.z.stmt_hash)
                out = drive.attempt(lambda: self.v.stmt.verify(drive.transport(z, "ser" if self.ser else "obj")))
            else:

                def go():
                    u = self.v.stmt.get_verifier()
                    if self.first is not None:
                        u.process_precommitment(w(self.first))
                        prims.LOG.clear()
                    u.process_precommitment(w(pc))
                    com = self.p.commit()
                    if change is not None or self.first is not None:
                        # the hash that this verifier expects
                        com = (u.stmt.prehash_statement().digest(), com[1])
                    c = u.send_challenge(w(com))
                    return u.verify(w(self.p.compute_response(c)))

                out = drive.attempt(go)
        finally:
            log, prims.LOG = prims.LOG, None
        return out, pc, [(e, tag[1], d) for e, tag, d in log if tag is not None and tag[0] == "v"]


def judge_trace(ctx, spec, out, pc, events, det):
    """The specification of the verifier's trace."""
    ctx.count("traces")
    ctx.count("events", len(events))
    for e, path, d in events:
        if e in ("precommit", "simulate_precommit"):
            ctx.violation("verifier-made-precommitment", "%s: %s at %s" % (det, e, path), spec=spec)
            return False
        if e == "construct" and not same(d, at(pc, path)):
            ctx.violation("constructed-from-other", "%s: at %s from %s, sent was %s" % (det, path, core.short(d, 200), core.short(at(pc, path), 200)), spec=spec)
            return False
    if not out.accept:
        return True
    for n, path in custom(spec):
        sent = at(pc, path)
        mine = [(e, d) for e, p, d in events if p == path]
        cons = [k for k, (e, d) in enumerate(mine) if e == "construct"]
        vals = [k for k, (e, d) in enumerate(mine) if e == "validate" and same(d[0], sent)]
        if not cons:
            ctx.violation("not-constructed", "%s: accepted, %s at %s has events %s" % (det, n["k"], path, [e for e, _ in mine]), spec=spec)
            return False
        ctx.count("constructed_places")
        if any(e == "validate" and not d[1] for e, d in mine):
            ctx.violation("accepted-despite-failed-validation", "%s: at %s" % (det, path), spec=spec)
            return False
        if not vals:
            ctx.violation("accepted-without-validation", "%s: %s at %s has events %s" % (det, n["k"], path, [e for e, _ in mine]), spec=spec)
            return False
        ctx.count("validated_places")
    return True


def note(ctx, spec):
    for n, path in custom(spec):
        if any(m["k"] == "or" for m in enclosing(spec, path)):
            ctx.count("in_or")
        if any(m["k"] == "and" for m in enclosing(spec, path)):
            ctx.count("in_and")
        if simulated_place(spec, path):
            ctx.count("in_simulated")
        if len(path) >= 3:
            ctx.count("depth3")
        if n.get("cont") == "free":
            ctx.count("free_values")


def start(ctx, rng, spec, det):
    """An honest conversation that is accepted with a correct trace, or None."""
    conv = Conversation(rng, spec, "nizk" if rng.random() < 0.6 else "live")
    made = drive.attempt(conv.make)
    if made.err is not None:
        ctx.violation("honest-failed", "%s: %r" % (det, made), spec=spec)
        return None
    return conv


def honest(ctx, rng, i):
    spec = make_spec(rng)
    shape = model.shape(spec["n"])
    note(ctx, spec)
    conv = start(ctx, rng, spec, shape)
    if conv is None:
        return
    if conv.how == "live":
        ctx.count("interactive")
    out, pc, events = conv.check()
    ctx.eval((shape, conv.how))
    if conv.first is not None:
        # whether the verifier goes on is up to it, but if so with the checks of the second one
        if judge_trace(ctx, spec, out, pc, events, shape + " sent twice"):
            ctx.count("twice_accepted" if out.accept else "twice_refused")
        return
    if not out.accept:
        ctx.violation("honest-refused", "%s (%s): %r; precommitment %s" % (shape, conv.how, out, core.short(pc, 600)), spec=spec)
        return
    if judge_trace(ctx, spec, out, pc, events, shape):
        ctx.count("accepted")
        ctx.sample(dict(shape=shape, trace=[(e, list(p)) for e, p, _ in events][:20]))


def veto(ctx, rng, i):
    """Validation fails at one place; everything else is in order."""
    spec = make_spec(rng)
    shape = model.shape(spec["n"])
    n, path = rng.choice(custom(spec))
    err = rng.choice(ERRORS)
    conv = start(ctx, rng, spec, shape)
    if conv is None:
        return
    if conv.how == "nizk":
        out, pc, events = conv.check()
        if not out.accept:
            ctx.count("calibration_failed")
            ctx.collect("calib", "%s: %r" % (shape, out))
            return
        ctx.count("veto_calibrated")
    prims.VETO = {("v", path): err}
    try:
        out, pc, events = conv.check()
    finally:
        prims.VETO = {}
    det = "%s, %s raised at %s by %s (%s)" % (shape, type(err).__name__, path, n["k"], conv.how)
    ctx.eval((shape, path, type(err).__name__, conv.how))
    if out.accept:
        ctx.violation("accepted-despite-veto", "%s: %r" % (det, out), spec=spec)
        return
    if judge_trace(ctx, spec, out, pc, events, det):
        ctx.count("veto_refused")
        if simulated_place(spec, path):
            ctx.count("veto_in_simulated")


def evil(ctx, rng, i):
    """An invalid precommitment, with a proof that is otherwise correct."""
    spec = make_spec(rng, ("blind",))
    shape = model.shape(spec["n"])
    n, path = rng.choice(custom(spec, ("blind",)))
    det = "%s, identity at %s" % (shape, path)
    prims.EVIL = {("p", path): (n["hh"], n["kk"])}
    try:
        conv = start(ctx, rng, spec, det)
        if conv is None:
            return
        out, pc, events = conv.check()
        sent = prims.unpack_pc(n["cont"], at(pc, path))
        if not sent == model.P(n["g"], 0):
            return
        ctx.eval((shape, path, conv.how))
        if out.accept:
            ctx.violation("invalid-precommitment-accepted", "%s (%s): %r" % (det, conv.how, out), spec=spec)
            return
        if not judge_trace(ctx, spec, out, pc, events, det):
            return
        ctx.count("evil_refused")
        if conv.first is not None:
            ctx.count("evil_second_refused")
        if simulated_place(spec, path):
            ctx.count("evil_in_simulated")
        if conv.how == "nizk":
            prims.LAX = True
            ok, _, _ = conv.check()
            prims.LAX = False
            if ok.accept:
                ctx.count("evil_calibrated")
            else:
                ctx.count("calibration_failed")
                ctx.collect("calib", "%s lax: %r" % (det, ok))
    finally:
        prims.EVIL, prims.LAX = {}, False


def missing(ctx, rng, i):
    """Precommitments left out, or moved from one place to another."""
    spec = make_spec(rng, ("blind",))
    shape = model.shape(spec["n"])
    places = custom(spec, ("blind",))
    n, path = rng.choice(places)
    conv = start(ctx, rng, spec, shape)
    if conv is None:
        return
    what = rng.choice(["missing", "all", "moved", "deeper"])
    if what == "moved":
        if len(places) < 2:
            what = "missing"
        else:
            (_, pa), (_, pb) = rng.sample(places, 2)
            a, b = at(conv.pc, pa), at(conv.pc, pb)
            change = lambda pc: put(put(pc, pa, b), pb, a)
    if what == "missing":
        change = lambda pc: put(pc, path, None)
    elif what == "all":
        change = lambda pc: None
    elif what == "deeper":
        change = lambda pc: put(pc, path, [at(pc, path)])
    out, pc, events = conv.check(change)
    det = "%s, %s (%s)" % (shape, what, conv.how)
    ctx.eval((shape, what, path))
    if out.accept:
        ctx.violation("changed-precommitment-accepted", "%s: %r" % (det, out), spec=spec)
        return
    made = [e for e, _, _ in events if e in ("precommit", "simulate_precommit")]
    if made:
        ctx.violation("verifier-made-precommitment", "%s: %s" % (det, made), spec=spec)
        return
    ctx.count("moved_refused" if what == "moved" else "missing_refused")


def case(ctx, rng, i):
    pyrandom.seed(rng.randrange(2 ** 32))  # the primitives' free values
    k = i % 10
    if k < 4:
        honest(ctx, rng, i)
    elif k < 7:
        veto(ctx, rng, i)
    elif k < 9:
        evil(ctx, rng, i)
    else:
        missing(ctx, rng, i)
