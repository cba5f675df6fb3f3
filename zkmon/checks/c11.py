"""C11: BBS+ issuance yields valid signatures on exactly the signed messages."""
from zkmon import core, model, drive, tamper
from zkmon.model import bn, to_int, order, P

from petlib.bn import Bn
from zksk.base import NIZK
from zksk.primitives.bbsplus import BBSPlusKeypair, BBSPlusSignatureCreator, BBSPlusSignature, UserCommitmentMessage

ID = "C11"
TECHNIQUE = "random issuance histories over several keys and users, every signature judged by its defining equation with the known secret key, tampering monitor"
RULE = (
    "histories of commit (blinded or not), sign and obtain over several keys and users in random interleavings, message "
    "vectors of every length up to the capacity with boundary values; then verification for the messages, for changed "
    "messages, keys and components; distinct by number of messages, blinding, capacity, history and change"
)
QUICK, THOROUGH = 400, 10000
REQUIRED = [
    "issued_valid", "issued_blinded", "issued_plain", "oracle_valid", "oracle_invalid", "changed_message_refused", "changed_signature_refused",
    "other_key_refused", "blinding_verified", "blinding_changed_refused", "over_capacity_refused", "full_capacity", "reused_creator", "no_messages", "interleaved",
]
_keys = []


def keys(rng):
    if len(_keys) < 3 or rng.random() < 0.05:
        _keys.append((BBSPlusKeypair.generate(model.pair_ctx(0), rng.choice([1, 2, 3, 5])), ))
        if len(_keys) > 5:
            _keys.pop(0)
    return rng.choice(_keys)[0]


def val(rng, q):
    t = rng.random()
    if t < 0.4:
        return rng.choice([0, 1, 2, q - 1, -1, q // 2, 2 ** 64, 2 ** 128])
    if t < 0.6:
        return rng.randrange(-10, 1000)
    return rng.randrange(q)


def obj(rng, v):
    return v if rng.random() < 0.3 else bn(v)


def valid(kp, sig, msgs):
    """The defining equation, with the secret key."""
    q = order("G1")
    g = kp.pk.generators
    acc = g[0] + bn(to_int(sig.s) % q) * g[1]
    for m, h in zip(msgs, g[2:]):
        acc = acc + bn(to_int(m) % q) * h
    return bn((to_int(kp.sk.gamma) + to_int(sig.e)) % q) * sig.A == acc


def case(ctx, rng, i):
    q = order("G1")
    kps = [keys(rng) for _ in range(2)]
    users = []
    for u in range(rng.choice([1, 2, 3])):
        kp = rng.choice(kps)
        users.append(dict(kp=kp, creator=BBSPlusSignatureCreator(kp.pk), com=None, pres=None, n=0))
    done = []
    log = []
    for _ in range(rng.randrange(3, 14)):
        k = rng.randrange(len(users))
        u = users[k]
        kp = u["kp"]
        cap = len(kp.pk.generators) - 2
        if u["com"] is None or rng.random() < 0.15:
            n = rng.choice([cap, max(0, cap - 1), rng.randrange(0, cap + 1), rng.randrange(0, cap + 1)])
            vals = [val(rng, q) for _ in range(n)]
            msgs = [obj(rng, v) for v in vals]
            zkp = rng.random() < 0.6
            before = list(map(to_int, msgs))
            out = drive.attempt(lambda: u["creator"].commit(msgs, zkp=zkp) if not zkp or rng.random() < 0.5 else u["creator"].commit(msgs))
            if out.err is not None:
                ctx.eval()
                ctx.violation("commit-failed", "%d messages, blinded=%s, key for %d: %r" % (n, zkp, cap, out), messages=vals)
                return
            if list(map(to_int, msgs)) != before:
                ctx.violation("messages-changed", "commit changed the list of messages")
            u.update(com=out.value, vals=vals, zkp=zkp, pres=None)
            u["n"] += 1
            log.append("c%d%s" % (k, "b" if zkp else ""))
            if zkp:
                blinding(ctx, rng, kp, out.value, vals)
        elif u["pres"] is None or rng.random() < 0.15:
            u["pres"] = kp.sk.sign(u["com"].com_message)
            log.append("s%d" % k)
        else:
            out = drive.attempt(u["creator"].obtain_signature, u["pres"])
            log.append("o%d" % k)
            if out.err is not None:
                ctx.violation("obtain-failed", repr(out))
                return
            done.append((u, kp, out.value, u["vals"], u["zkp"], u["n"], "".join(log)))
            if rng.random() < 0.7:
                u["com"] = u["pres"] = None
    for u, kp, sig, vals, zkp, nth, hist in done:
        msgs = [obj(rng, v) for v in vals]
        cap = len(kp.pk.generators) - 2
        out = drive.attempt(sig.verify_signature, kp.pk, msgs)
        ctx.eval((len(vals), cap, zkp, nth, hist[-12:]))
        det = "%d messages %s, blinded=%s, capacity %d, issuance number %d of the user, history %s" % (len(vals), [core.short(str(v), 12) for v in vals], zkp, cap, nth, hist)
        if not out.accept or not valid(kp, sig, vals):
            ctx.violation("issued-invalid", "%s: library %r, defining equation %s" % (det, out, valid(kp, sig, vals)), messages=vals)
            continue
        ctx.count("issued_valid")
        ctx.count("issued_blinded" if zkp else "issued_plain")
        ctx.count("oracle_valid")
        if len(vals) == cap:
            ctx.count("full_capacity")
        if not vals:
            ctx.count("no_messages")
        if nth > 1:
            ctx.count("reused_creator")
        if len(users) > 1:
            ctx.count("interleaved")
        ctx.sample(dict(history=hist, messages=len(vals), verdict=repr(out)))
        changed(ctx, rng, kps, kp, sig, vals, det)


def judge(ctx, what, kp, sig, vals, det, kind):
    ok = drive.attempt(sig.verify_signature, kp.pk, [bn(v) for v in vals])
    truth = drive.attempt(valid, kp, sig, vals)
    ctx.eval((what, kind, len(vals)))
    expect = truth.err is None and truth.value and len(vals) <= len(kp.pk.generators) - 2
    if ok.accept and not expect:
        ctx.violation(what + "-accepted", "%s (%s): %r" % (kind, det, ok), values=vals)
    elif expect and not ok.accept:
        ctx.violation("valid-refused", "%s (%s): %r" % (kind, det, ok), values=vals)
    elif expect:
        ctx.count("same_meaning_accepted")
    else:
        ctx.count(what + "_refused")
        ctx.count("oracle_invalid")


def changed(ctx, rng, kps, kp, sig, vals, det):
    q = order("G1")
    cap = len(kp.pk.generators) - 2
    # other messages; a missing message counts as zero, and numbers count modulo the order
    ms = []
    if vals:
        j = rng.randrange(len(vals))
        d = rng.choice([1, -1, 2 ** 64, 2 ** 128, rng.randrange(1, q), q])
        ms += [("add", vals[:j] + [vals[j] + d] + vals[j + 1:]), ("neg", vals[:j] + [-vals[j]] + vals[j + 1:]), ("drop_last", vals[:-1]), ("drop_first", vals[1:])]
    if len(vals) > 1:
        a, b = rng.sample(range(len(vals)), 2)
        x = list(vals)
        x[a], x[b] = x[b], x[a]
        y = list(vals)
        y[a], y[b] = y[a] + 1, y[b] - 1
        ms += [("swap", x), ("move", y), ("reverse", vals[::-1])]
    if len(vals) < cap:
        ms += [("append", vals + [rng.choice([1, q - 1, rng.randrange(1, q)])]), ("prepend", [rng.randrange(1, q)] + vals)]
    for name, x in rng.sample(ms, min(2, len(ms))):
        judge(ctx, "changed_message", kp, sig, x, det, name)
    over = vals + [rng.choice([0, 1, rng.randrange(q)]) for _ in range(cap - len(vals) + rng.choice([1, 2]))]
    judge(ctx, "over_capacity", kp, sig, over, det, "over")
    A, e, s = sig.A, to_int(sig.e), to_int(sig.s)
    c = rng.choice([
        ("A+", A + P("G1", 1), e, s), ("-A", -1 * A, e, s), ("A=0", P("G1", 0), e, s), ("2A", 2 * A, e, s), ("e+1", A, e + 1, s), ("e-1", A, e - 1, s), ("e=0", A, 0, s),
        ("s+1", A, e, s + 1), ("s-1", A, e, s - 1), ("s=0", A, e, 0), ("swap", A, s, e), ("e+q", A, e + q, s), ("s+q", A, e, s + q), ("-e", A, -e, s), ("-s", A, e, -s),
    ])
    judge(ctx, "changed_signature", kp, BBSPlusSignature(A=c[1], e=bn(c[2]), s=bn(c[3])), vals, det, c[0])
    for k2 in kps:
        if k2.pk.w != kp.pk.w and len(vals) <= len(k2.pk.generators) - 2:
            judge(ctx, "other_key", k2, sig, vals, det, "key")


def blinding(ctx, rng, kp, com, vals):
    out = drive.attempt(com.verify_blinding, kp.pk)
    ctx.eval(("blinding", len(vals)))
    if not out.accept:
        ctx.violation("blinding-refused", "%d messages: %r" % (len(vals), out), values=vals)
        return
    ctx.count("blinding_verified")
    n = com.com_nizk_proof
    c, what = com.com_message, None
    k = rng.randrange(5)
    if k == 0:
        what, c = tamper.change_point(rng, c)
    elif k == 1:
        j = rng.randrange(len(n.responses))
        what, n = "response", NIZK(n.challenge, tamper.put(n.responses, (j,), bn(to_int(n.responses[j]) + tamper.num_delta(rng))), n.precommitment, n.stmt_hash)
    elif k == 2:
        what, n = "challenge", NIZK(bn(to_int(n.challenge) + tamper.num_delta(rng)), n.responses, n.precommitment, n.stmt_hash)
    elif k == 3:
        what, n = "count", NIZK(n.challenge, rng.choice([n.responses[:-1], list(n.responses) + [n.responses[0]], list(n.responses) + [bn(0)]]), n.precommitment, n.stmt_hash)
    else:
        # the commitment of the same messages without g1, or to another one
        what, c = "other", rng.choice([c + kp.pk.generators[1], c + kp.pk.generators[2], c + kp.pk.generators[0]])
    out = drive.attempt(UserCommitmentMessage(c, n).verify_blinding, kp.pk)
    ctx.eval(("blinding", what, len(vals)))
    if out.accept:
        ctx.violation("changed-blinding-accepted", "%s, %d messages: %r" % (what, len(vals), out))
    else:
        ctx.count("blinding_changed_refused")
    out = drive.attempt(UserCommitmentMessage(com.com_message).verify_blinding, kp.pk)
    if out.accept:
        ctx.violation("no-blinding-proof-accepted", repr(out))
