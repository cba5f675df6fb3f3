"""C05: or-proofs cannot be proven without a witness, however the challenge is split."""
import random

from zkmon import gen, model, drive, adv
from zkmon.adv import M
from zkmon.model import bn, to_int

ID = "C05"
TECHNIQUE = "adversarial prover sessions (all simulated / one or all witnesses with a wrong challenge split; subchallenges and responses omitted, surplus, out of range, congruent, mistyped), acceptance monitor, with the honest twin as calibration"
RULE = (
    "random trees with an or-proof as target; the cheating prover simulates the disjuncts in advance and/or answers "
    "with subchallenges that do not add up, are surplus, missing, out of range or of other types; distinct by "
    "tree shape, place of the target and attack; honest runs of the same machinery must be accepted (calibration)"
)
QUICK, THOROUGH = 1500, 20000
REQUIRED = ["skip_refused", "no_witness_refused", "one_witness_refused", "all_witness_refused"]
PLAN = dict(kinds=[("dl", 12), ("ne", 2), ("rg", 0.5), ("r2", 0.5), ("blind", 1), ("bbs", 0.1)])


def trivial(n):
    """0 = x g: anybody knows a witness, and simulations of it hold for every challenge."""
    if n["k"] == "dl":
        return n["y"] % model.order(n["g"]) == 0
    return n["k"] == "plain" and any(y % model.order(n["g"]) == 0 for y, _ in n["eqs"])


def make_spec(rng):
    small = rng.random() < 0.7
    for _ in range(300):
        kw = dict(PLAN)
        if small:
            kw.update(max_leaves=rng.choice([2, 3, 4]), max_depth=2)
        spec = gen.gen_spec(rng, extreme=0.06, root=rng.choice(["or", "and", "or"]), **kw)
        adv.strip(spec)
        if any(trivial(n) for n, _ in model.walk(spec["n"])):
            continue
        ors = [p for n, p in model.walk(spec["n"]) if n["k"] == "or" and adv.leaf_all_true(spec, n)]
        ors = [p for p in ors if adv.reachable(spec, p)]
        if ors and adv.leaf_all_true(spec, spec["n"]):
            return spec, rng.choice(ors)
    raise RuntimeError("no or-proof")


def other_types(c, q):
    return [int(str(c)), str(c), str(c).encode(), None, [bn(to_int(c))], float(1.5), True, -1]


def no_witness_attacks(rng, n, q):
    """Functions (chals, resps, c) -> part of the response."""

    def append(chals, resps, c):
        return (chals + [bn((c - sum(map(to_int, chals))) % M)], resps)

    def append_both(chals, resps, c):
        return (chals + [bn((c - sum(map(to_int, chals))) % M)], resps + [resps[-1]])

    def append_many(chals, resps, c):
        x = [bn(rng.randrange(M)) for _ in range(3)]
        return (chals + x + [bn((c - sum(map(to_int, chals + x))) % M)], resps)

    def insert(chals, resps, c):
        j = rng.randrange(n)
        return (chals[:j] + [bn((c - sum(map(to_int, chals))) % M)] + chals[j:], resps)

    def residual(chals, resps, c):
        j = rng.randrange(n)
        out = list(chals)
        out[j] = bn((c - sum(to_int(x) for i, x in enumerate(chals) if i != j)) % M)
        return (out, resps)

    def unchanged(chals, resps, c):
        return (chals, resps)

    def shift_q(chals, resps, c, sign=1):
        # c_j + m q acts like c_j on points, but can fix the sum modulo M (q odd)
        j = rng.randrange(n)
        d = (c - sum(map(to_int, chals))) % M
        m = d * pow(q, -1, M) % M
        out = list(chals)
        out[j] = bn(to_int(out[j]) + (m * q if sign > 0 else -((-m) % M) * q))
        return (out, resps)

    def shift_neg(chals, resps, c):
        return shift_q(chals, resps, c, -1)

    def drop(chals, resps, c):
        j = rng.randrange(n)
        out = list(chals)
        del out[j]
        if out:
            out[0] = bn((c - sum(map(to_int, out[1:]))) % M)
        return (out, resps)

    def drop_keep(chals, resps, c):
        return (chals[:-1], resps)

    def empty(chals, resps, c):
        return ([], resps)

    def typed(chals, resps, c):
        j = rng.randrange(n)
        out = list(chals)
        out[j] = rng.choice(other_types(bn((c - sum(to_int(x) for i, x in enumerate(chals) if i != j)) % M), q))
        return (out, resps)

    def floatsum(chals, resps, c):
        return (list(chals) + [None], resps)

    def mod_other(chals, resps, c):
        return ([bn(to_int(x) + M * rng.randrange(1, 5)) for x in chals], resps)

    def drop_tail(chals, resps, c):
        # fewer disjuncts altogether: pairs that match can be dropped in lockstep
        return (chals[:-1], resps[:-1])

    return [unchanged, append, append_both, append_many, insert, residual, shift_q, shift_neg, drop, drop_keep, drop_tail, empty, typed, floatsum, mod_other]


def deltas(rng, q):
    return rng.choice([
        lambda: 1, lambda: M - 1, lambda: 1 << rng.randrange(128), lambda: (1 << rng.randrange(128)) * rng.randrange(1, 2 ** 16) % M or 1,
        lambda: q % M or 1, lambda: rng.randrange(1, M), lambda: M // 2, lambda: 128, lambda: 127, lambda: 2 ** 64, lambda: 3, lambda: 2 ** 32 * rng.randrange(1, 2 ** 64),
    ])()


def case(ctx, rng, i):
    spec, target = make_spec(rng)
    tn = adv.node_at(spec, target)
    n = len(tn["s"])
    mode = rng.choice(["interactive", "nizk", "nizk_wire"])
    built = model.build(spec, "p", simflags=False)
    rd = adv.shared_randomizers(rng, spec, built)
    leaves = adv.honest_leaves(spec, built, rd)
    mk = lambda: model.build(spec, "v").stmt
    shape = model.shape(spec["n"])
    g = next(x["g"] for x, _ in model.walk(tn) if "g" in x)
    q = model.order(g)

    def judge(kind, name, a, split=None, mutate=None):
        out = drive.attempt(adv.session, mk, a, split, mutate, mode)
        ctx.eval((shape, target, kind, name, mode))
        if out.accept:
            ctx.violation("or-accepted-" + kind, "%s %s at %s of %s (%s): %r" % (kind, name, target, shape, mode, out), spec=spec)
        else:
            ctx.count(kind + "_refused")
            if out.err is None:
                ctx.count("refused_by_verdict")
            ctx.sample(dict(shape=shape, target=target, attack=kind + ":" + name, mode=mode, verdict=repr(out)))

    ok = [j for j in range(n) if adv.leaf_all_true(spec, tn["s"][j])]
    # calibration: the honest strategy of this very machinery has to be accepted
    keep = rng.choice(ok)
    a = adv.Adv(spec, leaves, adv.pick_real(rng, spec, target, [j for j in range(n) if j != keep]), rng)
    out = drive.attempt(adv.session, mk, a, None, None, mode)
    if not out.accept:
        ctx.count("calibration_failed")
        ctx.collect("calib", "%s %s: %r" % (mode, shape, out))
    else:
        ctx.count("calibrated_" + ("interactive" if mode == "interactive" else "nizk"))

    kind = ["no_witness", "no_witness", "one_witness", "all_witness"][i % 4]
    if kind == "no_witness":
        # a constant challenge for all simulations makes collisions of sums more likely to show
        sc = rng.choice([None, None, 0, 1, M - 1])
        attacks = no_witness_attacks(rng, n, q)
        for att in [attacks[(i // 4) % len(attacks)], rng.choice(attacks)]:
            a = adv.Adv(spec, leaves, adv.pick_real(rng, spec, target, list(range(n))), rng, sim_challenge=sc)

            def split(path, c, fixed, m):
                if path == target:
                    return [fixed[j] for j in range(m)]
                return adv.honest_split(rng)(path, c, fixed, m)

            # the challenge that reaches the target is not the top one below other or-proofs
            seen = {}

            def split2(path, c, fixed, m):
                if path == target:
                    seen["c"] = c
                return split(path, c, fixed, m)

            def mutate(r, c):
                return adv.resp_at(spec, r, target, lambda part: att(part[0], part[1], seen["c"]))

            # with one constant challenge, the sum could be right by chance only for c itself
            judge("no_witness", att.__name__, a, split2, mutate)
        skip(ctx, rng, spec, target, leaves, mk, mode, shape)
        return
    reals = [keep] if kind == "one_witness" else ok
    d = deltas(rng, q)
    out_of_range = rng.random() < 0.25

    def split(path, c, fixed, m):
        chals = adv.honest_split(rng)(path, c, fixed, m)
        if path == target:
            j = rng.choice(reals)
            if out_of_range:
                chals[j] += rng.choice([M, -M, 2 * M, M * rng.randrange(1, 2 ** 100)])
            else:
                chals[j] = (chals[j] + d) % M
        return chals

    a = adv.Adv(spec, leaves, adv.pick_real(rng, spec, target, [j for j in range(n) if j not in reals]), rng)
    judge(kind, "out_of_range" if out_of_range else "delta", a, split)


def cut_part(rng, x):
    """Something instead of the responses of one disjunct."""
    r = rng.random()
    if isinstance(x, tuple) and len(x) == 2 and r < 0.5:
        return rng.choice([([], x[1]), (x[0], []), ([], []), (x[0], [None] * len(x[1])), (x[0][:1], x[1][:1])])
    if isinstance(x, list) and x and r < 0.5:
        j = rng.randrange(len(x))
        return rng.choice([x[:j], x[:j] + [rng.choice(adv.BLANKS)] + x[j + 1:], x[:j] + [cut_part(rng, x[j])] + x[j + 1:], [rng.choice(adv.BLANKS)] * len(x)])
    return rng.choice(adv.BLANKS)


def skip(ctx, rng, spec, target, leaves, mk, mode, shape):
    """No witness for any disjunct, and no (complete) responses for the one that takes up the rest of the challenge."""
    n = len(adv.node_at(spec, target)["s"])
    j = rng.randrange(n)
    gone = rng.random() < 0.2
    a = adv.Adv(spec, leaves, adv.pick_real(rng, spec, target, list(range(n))), rng)
    seed = rng.random()
    memo = {}

    def split(path, c, fixed, m):
        if path == target:
            return [(c - sum(fixed[x] for x in range(m) if x != j)) % M if i == j else fixed[i] for i in range(m)]
        out = [fixed.get(i) for i in range(m)]
        free = [i for i in range(m) if i not in fixed]
        for i in free[1:]:
            out[i] = memo.setdefault((path, i), rng.randrange(M))
        if free:
            out[free[0]] = (c - sum(x for x in out if x is not None)) % M
        return out

    def responses(c):
        def part(p):
            rs = list(p[1])
            if gone:
                del rs[j]
            else:
                rs[j] = cut_part(random.Random(seed), rs[j])
            return (p[0], rs)

        return adv.resp_at(spec, a.respond(c, split), target, part)

    out = drive.attempt(adv.skipping, mk, a, responses, mode, rng)
    ctx.eval((shape, target, "skip", j, gone, mode))
    if out.accept:
        ctx.violation("or-accepted-skip", "no response for disjunct %d of %s in %s (%s): %r" % (j, target, shape, mode, out), spec=spec)
    else:
        ctx.count("skip_refused")
