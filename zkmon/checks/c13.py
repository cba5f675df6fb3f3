"""C13: simulated transcripts are consistent, and are never proofs."""
from zkmon import gen, model, drive, tamper
from zkmon.model import bn, to_int, order, P

from zksk.base import NIZK, SimulationTranscript, build_fiat_shamir_challenge

ID = "C13"
TECHNIQUE = "simulation of random statements without and with values, true and false; equations recomputed independently, replay and tampering monitors (values changed, fields blanked or dropped)"
RULE = (
    "random statements of every primitive and nesting, made satisfied or not, built with no, some or all values, simulated for chosen (0, 1, largest, random) "
    "and default challenges; each transcript checked, presented as a proof in every way, and changed at random positions; "
    "distinct by tree shape, truth, values, challenge kind and change"
)
QUICK, THOROUGH = 1100, 20000
REQUIRED = [
    "consistent", "challenge_kept", "without_values", "with_values", "false_statement", "as_nizk_refused", "as_fs_nizk_refused", "fresh_challenge_refused",
    "change_refused", "recomputed", "fresh_default_challenge", "change_commitment", "change_responses", "change_challenge", "change_precommitment", "change_stmt_hash", "two_differ",
] + ["leaf_" + k for k in ("dl", "ne", "r2", "rg", "bbs", "plain", "blind")]
M = 2 ** 128


def equations(spec, n, com, resp, c):
    """The verification equations of linear relations, from the integers: False if one does not hold."""
    if n["k"] == "and":
        return len(com) == len(resp) == len(n["s"]) and all(equations(spec, x, a, b, c) is not False for x, a, b in zip(n["s"], com, resp))
    if n["k"] == "or":
        cs, rs = [to_int(x) for x in resp[0]], resp[1]
        if not (len(cs) == len(rs) == len(com) == len(n["s"])) or (sum(cs) - c) % M or not all(0 <= x < M for x in cs):
            return False
        return all(equations(spec, x, a, b, d) is not False for x, a, b, d in zip(n["s"], com, rs, cs))
    if n["k"] != "dl":
        return None
    if len(resp) != len(n["t"]):
        return False
    by = {}
    for (s, _), r in zip(n["t"], resp):
        if by.setdefault(s, to_int(r)) != to_int(r):
            return False
    q = order(n["g"])
    return com == P(n["g"], (sum(to_int(r) * b for (_, b), r in zip(n["t"], resp)) - c * n["y"]) % q)


def consistent(spec, tr):
    return drive.attempt(lambda: model.build(spec, "v").stmt.verify_simulation_consistency(tr))


def case(ctx, rng, i):
    big = rng.random() < 0.3
    spec = gen.gen_spec(
        rng, extreme=0.06, max_leaves=None if big else rng.choice([1, 1, 2, 3]), max_depth=4 if big else 2,
        kinds=[("dl", 8), ("ne", 2), ("r2", 1), ("rg", 1), ("bbs", 0.35), ("plain", 1.2), ("blind", 1.2)],
    )
    true = True
    if rng.random() < 0.5:
        gen.falsify(rng, spec)
        true = False
    shape = model.shape(spec["n"])
    how = rng.choice(["none", "none", "all", "some"])
    if how == "none":
        b = model.build(spec, "v")
    else:
        if how == "some":
            for s in spec["secrets"]:
                if rng.random() < 0.5 and not s.get("init"):
                    s["v"] = None
            for n, _ in model.walk(spec["n"]):
                if n["k"] == "bbs" and rng.random() < 0.5:
                    n["sig"] = None
        b = model.build(spec, "p", simflags=rng.random() < 0.5)
    ck = rng.choice(["default", "default", "zero", "one", "max", "random", "random", "small"])
    c = {"zero": 0, "one": 1, "max": M - 1, "random": rng.randrange(M), "small": rng.randrange(2 ** 32)}.get(ck)
    det = "%s, %s, values %s, challenge %s" % (shape, "true" if true else "false", how, ck)
    out = drive.attempt(lambda: b.stmt.simulate() if c is None else b.stmt.simulate(challenge=bn(c)) if rng.random() < 0.5 else b.stmt.simulate(bn(c)))
    ctx.eval((shape, true, how, ck))
    if out.err is not None:
        ctx.violation("simulation-failed", "%s: %r" % (det, out), spec=spec)
        return
    tr = out.value
    for n, _ in model.walk(spec["n"]):
        if n["k"] not in ("and", "or"):
            ctx.count("leaf_" + n["k"])
    ctx.count("without_values" if how == "none" else "with_values")
    if not true:
        ctx.count("false_statement")
    if c is not None:
        if to_int(tr.challenge) != c:
            ctx.violation("other-challenge", "%s: %s instead of %s" % (det, tr.challenge, c), spec=spec)
        ctx.count("challenge_kept")
    else:
        tr2 = drive.attempt(b.stmt.simulate)
        if not 0 <= to_int(tr.challenge) < M:
            ctx.violation("challenge-range", "%s: %s" % (det, tr.challenge), spec=spec)
        if tr2.err is None and (to_int(tr2.value.challenge) == to_int(tr.challenge)):
            ctx.violation("challenge-repeats", "%s: %s" % (det, tr.challenge), spec=spec)
        ctx.count("fresh_default_challenge")
    c = to_int(tr.challenge)
    # the transcript as it is, for another party
    via = rng.choice(["obj", "wire"])
    if via == "wire":
        w = drive.attempt(lambda: SimulationTranscript(*[drive.wire(x) for x in (tr.commitment, tr.challenge, tr.responses, tr.precommitment)], stmt_hash=tr.stmt_hash))
        if w.err is not None:
            ctx.violation("not-encodable", "%s: %r" % (det, w), spec=spec)
            return
        tr = w.value
    out = consistent(spec, tr)
    if not out.accept:
        ctx.violation("inconsistent", "%s (%s): %r" % (det, via, out), spec=spec)
        return
    ctx.count("consistent")
    ctx.sample(dict(what=det, verdict=repr(out)))
    eq = drive.attempt(equations, spec, spec["n"], tr.commitment, tr.responses, c)
    if eq.err is not None or eq.value is False:
        ctx.violation("equations", "%s: %r" % (det, eq), spec=spec)
    ctx.count("recomputed")
    # two simulations, even for one challenge, have nothing in common
    again = drive.attempt(lambda: b.stmt.simulate(challenge=bn(c)))
    if again.err is not None:
        ctx.violation("simulation-failed", "%s, again: %r" % (det, again), spec=spec)
    elif drive.attempt(lambda: again.value.commitment == tr.commitment).accept:
        ctx.violation("simulation-repeats", "%s" % det, spec=spec)
    else:
        if not consistent(spec, again.value).accept:
            ctx.violation("inconsistent", "%s, second simulation" % det, spec=spec)
        ctx.count("two_differ")
    never_a_proof(ctx, rng, spec, tr, det)
    for _ in range(3):
        changed(ctx, rng, spec, tr, det)


def challenge_free(n):
    """The equations hold for whatever challenge: zero has the witness zero, which anyone knows."""
    if n["k"] == "and":
        return all(challenge_free(c) for c in n["s"])
    if n["k"] == "dl":
        return n["y"] % order(n["g"]) == 0
    if n["k"] == "plain":
        return n["shape"] != "or" and all(y % order(n["g"]) == 0 for y, _ in n["eqs"])
    return False


def used_precommitments(n, pc, path=()):
    """Places of the numbers and points in the precommitments of primitives that have one."""
    if n["k"] in ("and", "or"):
        if pc is None:
            return []
        return [p for i, (c, x) in enumerate(zip(n["s"], pc)) for p in used_precommitments(c, x, path + (i,))]
    if n["k"] == "rg":
        return [p for i in (1, 2) for p in used_precommitments(dict(k="r2"), pc[i], path + (i,))]
    if n["k"] in ("ne", "r2", "bbs", "blind"):
        return [path + p for p in tamper.paths(pc) if isinstance(tamper.get(pc, p), tamper.POINTS + (tamper.Bn,))]
    return []


def never_a_proof(ctx, rng, spec, tr, det):
    if challenge_free(spec["n"]):
        ctx.count("challenge_free_statements")
        return
    mk = lambda: model.build(spec, "v").stmt
    msg = rng.choice(["", "m"])
    n = NIZK(challenge=tr.challenge, responses=tr.responses, precommitment=tr.precommitment, stmt_hash=tr.stmt_hash)
    for obj in [n] + ([tr] if rng.random() < 0.5 else []):
        out = drive.attempt(lambda: mk().verify(obj, message=msg))
        ctx.eval((det, "as_nizk"))
        if out.accept:
            ctx.violation("simulation-accepted-as-proof", "%s: %r" % (det, out), spec=spec)
        ctx.count("as_nizk_refused")

    def fs():
        v = mk().get_verifier()
        if tr.precommitment is not None:
            v.process_precommitment(tr.precommitment)
        c = build_fiat_shamir_challenge(v.stmt.prehash_statement(), tr.precommitment, tr.commitment, message=msg)
        return mk().verify(NIZK(challenge=c, responses=tr.responses, precommitment=tr.precommitment, stmt_hash=tr.stmt_hash), message=msg)

    out = drive.attempt(fs)
    if out.accept:
        ctx.violation("simulation-accepted-as-proof", "%s, with the right challenge: %r" % (det, out), spec=spec)
    ctx.count("as_fs_nizk_refused")

    def live():
        v = mk().get_verifier()
        v.process_precommitment(tr.precommitment)
        v.send_challenge((tr.stmt_hash, tr.commitment))
        return v.verify(tr.responses)

    out = drive.attempt(live)
    ctx.eval((det, "live"))
    if out.accept:
        ctx.violation("simulation-accepted-interactively", "%s: %r" % (det, out), spec=spec)
    ctx.count("fresh_challenge_refused")


def changed(ctx, rng, spec, tr, det):
    fields = ["commitment", "responses", "challenge", "stmt_hash", "commitment", "responses"] + (["precommitment"] * 2 if tr.precommitment is not None else [])
    f = rng.choice(fields)
    x = getattr(tr, f)
    if f == "challenge":
        if challenge_free(spec["n"]):
            return
        # modulo the challenge space, an or-proof cannot tell
        what, y, path = "num", bn(to_int(x) + rng.choice([1, -1, rng.randrange(1, 2 ** 64), 2 ** rng.randrange(120)])), ()
    else:
        ps = list(tamper.paths(x)) if f != "precommitment" else used_precommitments(spec["n"], x)
        if not ps:
            return
        path = rng.choice(ps)
        if f == "precommitment" or rng.random() < 0.8:
            ch = tamper.change(rng, tamper.get(x, path))
        else:
            if challenge_free(spec["n"]):
                return
            if f == "responses":
                path = ()
            ch = ("blank", rng.choice([None, None, b"", [], "", 0, bn(0), (), {}]))
        if ch is None:
            return
        what = ch[0]
        y = tamper.put(x, path, ch[1])
        if not tamper.differs(x, y):
            return
    t2 = SimulationTranscript(commitment=tr.commitment, challenge=tr.challenge, responses=tr.responses, precommitment=tr.precommitment, stmt_hash=tr.stmt_hash)
    setattr(t2, f, y)
    out = consistent(spec, t2)
    ctx.eval((det, f, path, what))
    ctx.count("change_" + f)
    if out.accept:
        ctx.violation("changed-transcript-consistent", "%s: %s at %s of %s: %r" % (det, what, path, f, out), spec=spec, before=tamper.get(x, path), after=tamper.get(y, path) if what not in ("drop_key",) else None)
    else:
        ctx.count("change_refused")
