"""C02: honest interactive runs are accepted."""
from zkmon import gen, model, drive
from zkmon.checks.c01 import note

ID = "C02"
TECHNIQUE = "honest interactive sessions over random statement trees, every message optionally crossing an encoded wire, acceptance monitor"
RULE = (
    "random statement trees (as C01), run message by message between a prover and a separately built verifier, with "
    "messages passed as objects or encoded and decoded; distinct by tree shape, delivery and transport"
)
QUICK, THOROUGH = 1800, 40000
REQUIRED = ["accepted_object", "accepted_wire", "accepted_runner", "accepted_again", "leaf_bbs", "leaf_rg", "leaf_ne", "leaf_blind", "leaf_plain", "node_or", "precommitment_messages"]


def case(ctx, rng, i):
    spec = gen.gen_spec(rng, extreme=0.06, twins=rng.choice([0, 0, 0.3]))
    note(ctx, spec)
    mode = ["object", "wire", "wire", "runner", "same_object", "wire", "again"][i % 7]
    how = rng.choice([None, None, "init", "dict"])
    shape = model.shape(spec["n"])
    tr = drive.Transcript()

    def run():
        b = model.build(spec, "p", deliver=how)
        if mode == "same_object":
            # verifiers do not use the secret values
            return drive.interact(b.stmt.get_prover(b.sdict), b.stmt.get_verifier(), None, tr)
        v = model.build(spec, "v").stmt
        if mode == "again":
            # the verifier's object serves one run after another
            u = v.get_verifier()
            for k in range(rng.randrange(1, 4)):
                if rng.random() < 0.5:
                    b2 = model.build(spec, "p", deliver=how)
                    ok = drive.interact(b2.stmt.get_prover(b2.sdict), u, drive.wire)
                else:
                    ok = drive.interact(b.stmt.get_prover(b.sdict), u)
                if ok is not True:
                    return ok
            return drive.interact(b.stmt.get_prover(b.sdict), u, drive.wire, tr)
        prover = b.stmt.get_prover(b.sdict)
        if mode == "runner":
            from zksk.utils.debug import SigmaProtocol

            return SigmaProtocol(v.get_verifier(), prover).verify(verbose=False)
        return drive.interact(prover, v.get_verifier(), drive.wire if mode != "object" else None, tr)

    out = drive.attempt(run)
    ctx.eval((shape, how, mode))
    if tr.precommitment is not None:
        ctx.count("precommitment_messages")
    if out.accept:
        ctx.count("accepted_" + mode)
        ctx.sample(dict(shape=shape, mode=mode, challenge=repr(tr.challenge), verdict=repr(out)))
    else:
        ctx.violation("honest-run-refused", "%s %s values=%s: %r" % (mode, shape, how, out), spec=spec)
