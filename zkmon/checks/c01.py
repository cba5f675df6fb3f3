"""C01: honest non-interactive proofs verify."""
from zkmon import gen, model, drive

ID = "C01"
TECHNIQUE = "acceptance monitor over random true and provable statement trees (integer model), values delivered in all ways, proofs verified by the same object, a separate one, and after serialization"
RULE = (
    "random statement trees (all primitives, custom primitives, and/or nesting, shared secrets, boundary values, "
    "EC and pairing groups), true and provable per the integer model; distinct by tree shape+delivery; trees of "
    "one bare DLRep are trivial"
)
QUICK, THOROUGH = 2000, 40000
REQUIRED = ["accepted_separate", "accepted_serialized", "accepted_same_object", "leaf_bbs", "leaf_rg", "leaf_ne", "leaf_blind", "leaf_plain", "node_or"]

MESSAGES = ["", "", "a", "hello", "x" * 1000, "\u00e9\u4e2d\U0001f600", "\x00", "{'a': 1}", "line\nline", " "]


def message(rng):
    m = rng.choice(MESSAGES)
    if rng.random() < 0.3:
        m += "".join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0x100, 0xD000)])) for _ in range(rng.randrange(1, 40)))
    return m


def note(ctx, spec):
    for n, _ in model.walk(spec["n"]):
        ctx.count(("node_" if n["k"] in ("and", "or") else "leaf_") + n["k"])


def case(ctx, rng, i):
    spec = gen.gen_spec(rng, extreme=0.06, twins=rng.choice([0, 0, 0.3]))
    note(ctx, spec)
    msg = message(rng)
    mode = rng.choice(["same_object", "separate", "separate", "serialized", "serialized"])
    how = rng.choice([None, None, "init", "dict"])
    shape = model.shape(spec["n"])

    def run():
        b = model.build(spec, "p", deliver=how)
        if rng.random() < 0.3 and len(b.sdict) > 0:
            # give known values again
            for s, v in zip(b.secrets, spec["secrets"]):
                if s.value is not None and v["v"] is not None:
                    b.sdict[s] = model.sec_value(v)
        if rng.random() < 0.5:
            nizk = b.stmt.prove(b.sdict, message=msg)
        elif msg == "" and not b.sdict:
            nizk = b.stmt.prove()
        else:
            nizk = b.stmt.get_prover(b.sdict).get_nizk_proof(msg)
        if mode == "serialized":
            nizk = drive.transport(nizk, "ser")
        stmt = b.stmt if mode == "same_object" else model.build(spec, "v").stmt
        if msg == "" and rng.random() < 0.5:
            return stmt.verify(nizk)
        return stmt.verify(nizk, message=msg)

    out = drive.attempt(run)
    ctx.eval((shape, how, mode) if len(shape) > 8 else None)
    if out.accept:
        ctx.count("accepted_" + mode)
        ctx.sample(dict(shape=shape, mode=mode, message=msg[:40], verdict=repr(out)))
    else:
        ctx.violation("honest-proof-refused", "%s %s values=%s: %r" % (mode, shape, how, out), spec=spec, message=msg)
