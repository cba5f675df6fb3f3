"""C04: a wrong witness is never accepted."""
import copy
import random

from zkmon import gen, model, drive, adv
from zkmon.checks.c01 import note, message
from zkmon.checks.c05 import trivial

ID = "C04"
TECHNIQUE = "honest prover code run on false statements (integer oracle decides falsity), acceptance monitor, interactive and not; omission attacks (verifier's messages cut, doubled, blanked) and fixpoint attacks (points chosen after the challenge is known)"
RULE = (
    "random true statement trees, then made false at a random place: public part of one conjunct (and of every "
    "provable disjunct of an or-proof) changed, or other secret values used; false per the integer model; distinct "
    "by tree shape, kind of falsehood and mode"
)
QUICK, THOROUGH = 3000, 60000
REQUIRED = ["refused_nizk", "refused_interactive", "refused_values", "refused_by_verdict", "true_version_accepted", "what_dl", "what_ne", "what_rg", "what_r2", "what_bbs", "what_plain", "what_blind", "omission_refused", "fixpoint_tried", "omission_delete", "omission_tail", "omission_blank", "omission_double"]
KINDS = [("dl", 8), ("ne", 3), ("r2", 1.5), ("rg", 2), ("bbs", 0.7), ("plain", 1.5), ("blind", 1.5)]


def wrong_values(rng, spec):
    """Other values for one or several secrets: sid -> value, making the statement false."""
    used = sorted({s for n, _ in model.walk(spec["n"]) for s in model.leaf_secrets(n) if spec["secrets"][s]["v"] is not None})
    for _ in range(20):
        over = {}
        for s in rng.sample(used, rng.choice([1, 1, min(2, len(used))])):
            q, v = spec["secrets"][s]["q"], spec["secrets"][s]["v"]
            over[s] = rng.choice([v + 1, v - 1, -v, 0, 1, v + rng.randrange(1, q), q - v, 2 * v, v ^ 1, v + 2 ** 128])
        false = copy.deepcopy(spec)
        for s, v in over.items():
            false["secrets"][s]["v"] = v
        # the signature stays the one on the original messages
        if model.truth(false, false["n"]) is False:
            return false, over
    return None, None


def run(spec, mode, msg):
    b = model.build(spec, "p")
    v = model.build(spec, "v").stmt
    if mode == "interactive":
        return drive.interact(b.stmt.get_prover(b.sdict), v.get_verifier())
    if mode == "nizk_same_object":
        v = b.stmt
    return v.verify(b.stmt.prove(b.sdict, message=msg), message=msg)


# ---------------------------------------------------------------- a prover that leaves something out


def cut(rng, tree, path, how):
    """A copy of nested lists without the part at the path (all of it, or all from there on)."""
    if not path:
        return rng.choice([None, [], b"", 0, "", ()])
    out = list(tree)
    j = path[0]
    if len(path) > 1 and rng.random() < 0.7:
        out[j] = cut(rng, out[j], path[1:], how)
    elif how == "blank":
        out[j] = rng.choice([None, [], b"", 0, "", {}, ()])
    elif how == "tail":
        out = out[:j]
    elif how == "double":
        out[j] = out[j - 1]
    else:
        del out[j]
    return out


def cut_responses(rng, n, part, path, how):
    """The same for responses, where or-proofs have pairs of challenges and responses."""
    if not path or n["k"] == "and":
        if path and len(path) > 1 and rng.random() < 0.7:
            out = list(part)
            out[path[0]] = cut_responses(rng, n["s"][path[0]], out[path[0]], path[1:], how)
            return out
        return cut(rng, part, path[:1], how)
    chals, resps = part
    both = rng.random() < 0.5
    j = path[0]
    if len(path) > 1 and rng.random() < 0.7:
        out = list(resps)
        out[j] = cut_responses(rng, n["s"][j], out[j], path[1:], how)
        return (chals, out)
    return (cut(rng, chals, [j], how) if both else chals, cut(rng, resps, [j], how))


class Absent:
    """A leaf for which there is nothing to send."""

    def precommit(self):
        return None

    def commit(self):
        return None

    def respond(self, c):
        return None


def omission(ctx, rng, i):
    """One conjunct is false; its messages are left out, or replaced by those of another one."""
    for _ in range(200):
        spec = gen.gen_spec(rng, root=rng.choice(["and", "and", "or"]), kinds=KINDS, max_leaves=rng.choice([2, 3, 4, 5]), allow_missing=False)
        adv.strip(spec)
        paths = [p for n, p in model.walk(spec["n"]) if p and n["k"] not in ("and", "or") and all(adv.node_at(spec, p[:k])["k"] == "and" for k in range(len(p))) and not (n["k"] == "plain" and n["shape"] == "or")]
        if paths:
            break
    else:
        ctx.count("no_conjunct")
        return
    path = rng.choice(paths)
    node = adv.node_at(spec, path)
    false = copy.deepcopy(spec)
    fn = adv.node_at(false, path)
    for _ in range(20):
        w = gen.falsify_leaf(rng, false, fn)
        if model.truth(false, fn) is False and not trivial(fn):
            break  # (for 0 = x g, there is a witness)
    else:
        return
    built = model.build(false, "p", simflags=False)
    rd = adv.shared_randomizers(rng, false, built)
    how = ["delete", "tail", "blank", "double"][i % 4]
    parts = rng.choice([("com",), ("resp",), ("com", "resp"), ("com", "resp", "pc"), ("com", "pc"), ("pc",)])
    leaf = rng.choice(["real", "simulated", "absent"])

    def mk(p, n):
        if p != path:
            return adv.RealLeaf(built.leaves[p], built.sdict, rd)
        if leaf == "absent":
            return Absent()
        st = model.build_node(false, n, [model.Secret() for _ in false["secrets"]], "v", False, p)
        if leaf == "simulated":
            return adv.SimNode(st, rng.randrange(adv.M))
        try:
            return adv.RealLeaf(built.leaves[p], built.sdict, rd)
        except Exception:  # refuses to
            return adv.SimNode(st, rng.randrange(adv.M))

    mode = rng.choice(["interactive", "interactive", "interactive", "nizk"])
    n = false["n"]

    def attack():
        try:
            a = adv.Adv(false, mk, adv.pick_real(rng, spec), rng)
        except Exception as e:
            ctx.count("omission_not_started")
            raise
        pc0, com0 = a.precommit, a.commit

        def precommit():
            pc = pc0()
            return cut(rng, pc, path, how) if "pc" in parts and pc is not None else pc

        def commit():
            com = com0()
            return cut(rng, com, path, how) if "com" in parts else com

        a.precommit, a.commit = precommit, commit
        mut = (lambda r, c: cut_responses(rng, n, r, path, how)) if "resp" in parts else None
        return adv.session(lambda: model.build(false, "v").stmt, a, None, mut, mode)

    def fixpoint():
        """Only the responses are cut, and the commitment is the one that the verifier computes."""
        a = adv.Adv(false, mk, adv.pick_real(rng, spec), rng)
        seed, memo = rng.random(), {}

        def split(path, c, fixed, m):
            out = [fixed.get(i) for i in range(m)]
            free = [i for i in range(m) if i not in fixed]
            for i in free[1:]:
                out[i] = memo.setdefault((path, i), rng.randrange(adv.M))
            if free:
                out[free[0]] = (c - sum(x for x in out if x is not None)) % adv.M
            return out

        return adv.skipping(lambda: model.build(false, "v").stmt, a, lambda c: cut_responses(random.Random(seed), n, a.respond(c, split), path, how), mode, rng)

    if all(adv.node_at(false, path[:k])["k"] == "and" for k in range(len(path))) and "or" not in {m["k"] for m, _ in model.walk(n)} and rng.random() < 0.4:
        out = drive.attempt(fixpoint)
        ctx.eval(("fixpoint", model.shape(n), path, how, leaf, mode))
        ctx.count("fixpoint_tried")
        if out.accept:
            ctx.violation("omission-accepted", "%r (false: %s), commitment computed by the verifier: %r" % ((model.shape(n), path, how, leaf, mode), w, out), spec=false)
        return
    out = drive.attempt(attack)
    key = (model.shape(n), path, how, parts, leaf, mode)
    ctx.eval(("omission",) + key)
    if out.accept:
        ctx.violation("omission-accepted", "%r (false: %s): %r" % (key, w, out), spec=false)
        return
    ctx.count("omission_refused")
    ctx.count("omission_" + how)
    if out.err is None:
        ctx.count("omission_refused_by_verdict")


def case(ctx, rng, i):
    if i % 5 == 4:
        return omission(ctx, rng, i // 5)
    true = gen.gen_spec(rng, extreme=0.06, twins=rng.choice([0, 0, 0.3]), kinds=KINDS, allow_missing=rng.random() < 0.5, max_leaves=rng.choice([1, 2, 3, 4, 5, 8]))
    note(ctx, true)
    msg = message(rng)
    mode = ["nizk", "interactive", "nizk_same_object", "interactive"][i % 4]
    shape = model.shape(true["n"])
    if i % 3 == 2:
        spec, over = wrong_values(rng, true)
        what = ["values"]
        if spec is None:
            ctx.count("no_wrong_values")
            return
    else:
        spec = copy.deepcopy(true)
        what = gen.falsify(rng, spec)
    # a disjunction is false for a prover only if all it could pick is false
    if model.truth(spec, spec["n"]) is not False or not gen.composition_ok(spec):
        ctx.count("not_false")
        return
    if i % 6 == 0:
        out = drive.attempt(run, true, mode, msg)
        if out.accept:
            ctx.count("true_version_accepted")
    out = drive.attempt(run, spec, mode, msg)
    ctx.eval((shape, tuple(what), mode))
    for w in what:
        ctx.count("what_" + w.split(":")[0])
    if out.accept:
        ctx.violation("false-accepted", "%s %s (false: %s): %r" % (mode, shape, what, out), spec=spec)
        return
    ctx.count("refused_" + ("interactive" if mode == "interactive" else "nizk"))
    if what == ["values"]:
        ctx.count("refused_values")
    ctx.count("refused_by_verdict" if out.err is None else "refused_by_error")
    ctx.sample(dict(shape=shape, false=what, mode=mode, verdict=repr(out)))
