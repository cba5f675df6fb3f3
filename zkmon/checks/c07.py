"""C07: any change to a proof or its message is detected."""
import copy
import unicodedata

from zkmon import gen, model, drive, tamper
from zkmon.checks.c01 import note, message
from zkmon.model import bn, to_int, order, P

from zksk import Secret, DLRep
from zksk.base import NIZK
from zksk.composition import AndProofStmt, OrProofStmt

ID = "C07"
TECHNIQUE = "systematic tampering with every position of real proofs and messages, plus statements chosen after the challenge, acceptance monitor"
RULE = (
    "genuine proofs of random statement trees (accepted as they are); then every kind of change at random positions "
    "of challenge, responses, precommitment, statement hash and message; changes that keep all numbers modulo the "
    "order are not made; distinct by tree shape, position and kind of change"
)
QUICK, THOROUGH = 300, 12000
REQUIRED = [
    "genuine_accepted", "challenge_refused", "responses_refused", "precommitment_refused", "stmt_hash_refused", "message_refused",
    "wide_commitment_refused", "wide_message_refused", "adaptive_lhs_refused", "adaptive_base_refused", "subchallenge_positions",
]


def degenerate(n):
    """A secret whose coefficient vanishes: its response does not matter to the equation."""
    if n["k"] in ("and", "or"):
        return any(degenerate(c) for c in n["s"])
    for t in ([n["t"]] if n["k"] == "dl" else [t for _, t in n["eqs"]] if n["k"] == "plain" else []):
        acc = {}
        for s, b in t:
            acc[s] = acc.get(s, 0) + b
        if any(v % order(n["g"]) == 0 for v in acc.values()):
            return True
    return False


def messages(rng, m):
    out = [m + " ", m + "\x00", " " + m, m + "a", m[:-1], m[1:], m.upper(), m.lower(), m.strip(), m * 2, m[::-1], "", "other", repr(m), m + "\n"]
    out += [unicodedata.normalize("NFD", m), unicodedata.normalize("NFC", m), unicodedata.normalize("NFKC", m), m.encode("ascii", "ignore").decode(), m.encode("ascii", "replace").decode(), m.encode("latin-1", "ignore").decode("latin-1")]
    if m:
        j = rng.randrange(len(m))
        out += [m[:j] + chr(ord(m[j]) ^ 1) + m[j + 1:], m[:j] + m[j + 1:], m[:j] + m[j] + m[j:], m[:j], m[j:]]
        k = rng.randrange(len(m))
        x = list(m)
        x[j], x[k] = x[k], x[j]
        out.append("".join(x))
    out = [x for x in out if x != m]
    return out


LONG = ["x" * 1000 + "y", "k=v;" * 300, "\u00e9" * 70 + "z", "A" * 64, "A" * 65, "a" * 4097, "caf\u00e9", "\ufb01le \u212b", "stra\u00dfe", "0", "1", "1.0", "None", "b''"]


def wide(ctx, rng, i):
    """Many conjuncts or disjuncts and long messages: what comes last counts as well."""
    g = rng.choice(["p224", "p256"])
    q = order(g)
    kind = rng.choice(["and", "and", "or", "groups"])
    n = rng.choice([40, 150, 300, 600])
    base = P(g, rng.randrange(1, q))
    xs = [rng.randrange(1, 2 ** 16) for _ in range(n)]

    def make(values):
        S = [Secret(value=bn(x) if values else None) for x in xs]
        leaves = [DLRep(x * base, s * base) for x, s in zip(xs, S)]
        if kind == "or":
            for l in leaves[:-1]:
                l.set_simulated()
            return OrProofStmt(*leaves)
        if kind == "and":
            return AndProofStmt(*leaves)
        return AndProofStmt(*[AndProofStmt(*leaves[j:j + 20]) for j in range(0, n, 20)])

    msg = "pay 1 to Bob; " * rng.choice([1, 1, 7000, 80000]) + "end"
    st, v = make(True), make(False)
    nizk = st.prove(message=msg)
    if not drive.attempt(v.verify, nizk, msg).accept:
        ctx.count("genuine_refused")
        return
    ctx.count("genuine_accepted")
    at = rng.choice([n - 1, n - 1, n - 2, rng.randrange(n)])
    path = (at, 0) if kind == "and" else (1, at, 0) if kind == "or" else (at // 20, at % 20, 0)
    d = rng.choice([1, rng.randrange(1, q)])
    z = tamper.put(nizk.responses, path, bn((to_int(tamper.get(nizk.responses, path)) + d) % q))
    out = drive.attempt(v.verify, NIZK(challenge=nizk.challenge, responses=z, precommitment=nizk.precommitment, stmt_hash=nizk.stmt_hash), msg)
    ctx.eval((kind, n, "wide", at == n - 1))
    if out.accept:
        ctx.violation("changed-responses-accepted", "response %d of %s of %d statements: %r" % (at, kind, n, out))
        return
    ctx.count("wide_commitment_refused")
    other = rng.choice([msg[:-1] + "D", msg + " ", msg[:-1], msg[:-3] + "END", msg[:len(msg) // 2] + "X" + msg[len(msg) // 2 + 1:]])
    out = drive.attempt(v.verify, nizk, other)
    ctx.eval((kind, len(msg), "wide message"))
    if out.accept:
        ctx.violation("changed-message-accepted", "a message of %d characters and one of %d, proof of %s of %d: %r" % (len(msg), len(other), kind, n, out))
        return
    ctx.count("wide_message_refused")


def case(ctx, rng, i):
    if i % 60 == 7:
        return wide(ctx, rng, i)
    if i % 6 == 5:
        return adaptive(ctx, rng)
    for _ in range(50):
        spec = gen.gen_spec(rng, extreme=0.06, max_leaves=rng.choice([1, 2, 3, 4, 5]), kinds=[("dl", 8), ("ne", 3), ("r2", 1), ("rg", 1), ("bbs", 0.5), ("plain", 1), ("blind", 2.5)])
        if not degenerate(spec["n"]):
            break
    else:
        return
    note(ctx, spec)
    msg = rng.choice(LONG) if rng.random() < 0.4 else message(rng)
    shape = model.shape(spec["n"])
    b = model.build(spec, "p")
    nizk = b.stmt.prove(b.sdict, message=msg)
    v = model.build(spec, "v").stmt

    def verify(n, m=msg, how="obj"):
        return drive.attempt(lambda: v.verify(drive.transport(n, how), message=m))

    if not verify(nizk).accept:
        ctx.count("genuine_refused")
        return
    ctx.count("genuine_accepted")

    def judge(field, pos, kind, n, m=msg):
        how = rng.choice(["obj", "ser"])
        out = verify(n, m, how)
        ctx.eval((shape, field, pos, kind))
        if out.accept:
            ctx.violation("changed-%s-accepted" % field, "%s: %s at %s of %s (%s): %r" % (field, kind, pos, shape, how, out), spec=spec, message=msg, tampered=repr(n), genuine=repr(nizk), m=m)
        else:
            ctx.count(field + "_refused")
            ctx.sample(dict(shape=shape, field=field, position=repr(pos), change=kind, verdict=repr(out)))

    def repl(**kw):
        f = dict(challenge=nizk.challenge, responses=nizk.responses, precommitment=nizk.precommitment, stmt_hash=nizk.stmt_hash)
        f.update(kw)
        return NIZK(**f)

    c = to_int(nizk.challenge)
    cs = [c + 1, c - 1, c + 2 ** 256, c % 2 ** 128, c % 2 ** 255, -c, 0, 1, c ^ 1, c ^ (1 << rng.randrange(256)), c + order("p224"), c % order("p224"), c + order("p256"), c >> 8, c << 8]
    for x in rng.sample(cs, 2):
        if x != c:
            judge("challenge", "", "%s" % cs.index(x), repl(challenge=bn(x)))
    if rng.random() < 0.2:
        judge("challenge", "", "type", repl(challenge=rng.choice([None, str(c), [bn(c)], b""])))

    atoms = [p for p in tamper.paths(nizk.responses) if not isinstance(tamper.get(nizk.responses, p), (list, tuple))]
    for p in rng.sample(atoms, min(4, len(atoms))):
        x = tamper.get(nizk.responses, p)
        name, y = tamper.change(rng, x)
        if y is not None and rng.random() < 0.4:
            # everywhere where the same number occurs, as for a shared secret
            new = nizk.responses
            for p2 in atoms:
                if tamper.get(new, p2) == x:
                    new = tamper.put(new, p2, y)
            judge("responses", p, "all:" + name, repl(responses=new))
        else:
            judge("responses", p, name, repl(responses=tamper.put(nizk.responses, p, y)))
    conts = [p for p in tamper.paths(nizk.responses) if isinstance(tamper.get(nizk.responses, p), (list, tuple))]
    p = rng.choice(conts)
    name, y = tamper.change(rng, tamper.get(nizk.responses, p))
    judge("responses", p, "container:" + name, repl(responses=tamper.put(nizk.responses, p, y)))
    # subchallenges of or-proofs
    subs = [p for p in or_paths(spec["n"], nizk.responses)]
    for p in rng.sample(subs, min(2, len(subs))):
        ctx.count("subchallenge_positions")
        chals = list(tamper.get(nizk.responses, p))
        a, b2 = rng.sample(range(len(chals)), 2)
        d = rng.choice([1, 2 ** 127, rng.randrange(1, 2 ** 128)])
        new = list(chals)
        kind = rng.choice(["swap", "move", "overflow", "one"])
        if kind == "swap":
            new[a], new[b2] = new[b2], new[a]
        elif kind == "move":  # the sum stays
            new[a], new[b2] = bn((to_int(new[a]) + d) % 2 ** 128), bn((to_int(new[b2]) - d) % 2 ** 128)
        elif kind == "overflow":
            new[a] = bn(to_int(new[a]) + 2 ** 128)
        else:
            new[a] = bn((to_int(new[a]) + d) % 2 ** 128)
        if new != chals:
            judge("responses", p, "subchallenges:" + kind, repl(responses=tamper.put(nizk.responses, p, new)))

    pc = nizk.precommitment
    if pc is not None:
        pos = list(tamper.paths(pc))
        for p in rng.sample(pos, min(5, len(pos))):
            r = tamper.change(rng, tamper.get(pc, p))
            if r and tamper.differs(r[1], tamper.get(pc, p)):
                judge("precommitment", p, r[0], repl(precommitment=tamper.put(pc, p, r[1])))
        lists = [p for p in pos if isinstance(tamper.get(pc, p), (list, tuple)) and len(tamper.get(pc, p)) > 1]
        if lists:
            p = rng.choice(lists)
            x = list(tamper.get(pc, p))
            a, b2 = rng.sample(range(len(x)), 2)
            if tamper.differs(x[a], x[b2]):
                x[a], x[b2] = x[b2], x[a]
                judge("precommitment", p, "swap", repl(precommitment=tamper.put(pc, p, x)))
        judge("precommitment", "", "none", repl(precommitment=None))
    else:
        judge("precommitment", "", "added", repl(precommitment=rng.choice([[], [None], {}, P("p224", 5), bn(1), "", 0, False])))

    h = nizk.stmt_hash
    for _ in range(2):
        name, y = tamper.change_bytes(rng, h)
        judge("stmt_hash", "", name, repl(stmt_hash=y))
    if rng.random() < 0.3:
        judge("stmt_hash", "", "type", repl(stmt_hash=rng.choice([None, "", h.hex(), [h], True])))

    ms = messages(rng, msg)
    for m in rng.sample(ms, min(3, len(ms))):
        judge("message", "", m[:30], nizk, m)
    if rng.random() < 0.3:
        judge("message", "", "surrogate", nizk, msg + "\udcff")


def or_paths(n, part, path=()):
    """Positions of the lists of subchallenges."""
    if n["k"] == "and":
        for i, c in enumerate(n["s"]):
            yield from or_paths(c, part[i], path + (i,))
    elif n["k"] == "or":
        yield path + (0,)
        for i, c in enumerate(n["s"]):
            yield from or_paths(c, part[1][i], path + (1, i))


def adaptive(ctx, rng):
    """
    The cheating prover picks part of the statement after it has seen the challenge: commitment and
    responses first, then the left-hand side or base that makes the equation hold.
    """
    g = gen.wchoice(rng, gen.GROUPS_W)
    q = order(g)
    ctxt = rng.choice(["bare", "and", "and", "or"])
    nt = rng.choice([1, 2, 3])
    t = [[j, rng.randrange(1, q)] for j in range(nt)]
    x = [rng.randrange(q) for _ in t]
    y = sum(a * b for a, (_, b) in zip(x, t)) % q
    other = dict(k="dl", g=g, t=[[nt, rng.randrange(1, q)]], y=0)
    xo = rng.randrange(q)
    other["y"] = xo * other["t"][0][1] % q
    at = rng.randrange(2)
    secrets = [dict(q=q, v=v, ty="bn", how="init") for v in x + [xo]]

    def spec_with(leaf):
        if ctxt == "bare":
            n = leaf
        else:
            n = dict(k=ctxt, s=[other, leaf] if at else [leaf, other])
            if ctxt == "or":
                other["sim"] = True
        return dict(n=n, secrets=secrets)

    leaf = dict(k="dl", g=g, t=t, y=y)
    spec = spec_with(leaf)
    b = model.build(spec, "p")
    nizk = b.stmt.prove(b.sdict, message="m")
    if ctxt == "bare":
        rs, c, where = list(nizk.responses), to_int(nizk.challenge), ()
    elif ctxt == "and":
        rs, c, where = list(nizk.responses[at]), to_int(nizk.challenge), (at,)
    else:
        rs, c, where = list(nizk.responses[1][at]), to_int(nizk.responses[0][at]), (1, at)
    com = (sum(to_int(r) * bb for r, (_, bb) in zip(rs, t)) - c * y) % q
    new = [bn(rng.randrange(q)) for _ in rs]
    forged = NIZK(challenge=nizk.challenge, responses=tamper.put(nizk.responses, where, new), precommitment=nizk.precommitment, stmt_hash=nizk.stmt_hash)
    what = rng.choice(["lhs", "base"])
    leaf2 = copy.deepcopy(leaf)
    if what == "lhs":
        leaf2["y"] = (sum(to_int(r) * bb for r, (_, bb) in zip(new, t)) - com) * pow(c, -1, q) % q
    else:
        j = rng.randrange(nt)
        rest = sum(to_int(r) * bb for k, (r, (_, bb)) in enumerate(zip(new, t)) if k != j)
        leaf2["t"][j][1] = (com + c * y - rest) * pow(to_int(new[j]), -1, q) % q
    spec2 = spec_with(leaf2)
    v = model.build(spec2, "v").stmt
    forged.stmt_hash = v.prehash_statement().digest()
    out = drive.attempt(lambda: v.verify(forged, message="m"))
    ctx.eval((ctxt, at, g, nt, what, "adaptive"))
    if out.accept:
        ctx.violation("adaptive-%s-accepted" % what, "statement chosen after the challenge accepted (%s, %s)" % (ctxt, g), spec=spec2)
    else:
        ctx.count("adaptive_%s_refused" % what)
