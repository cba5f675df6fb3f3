"""C06: a shared secret has one value across a conjunction."""
import copy

from zkmon import gen, model, drive, adv
from zkmon.model import bn, to_int, P, order

ID = "C06"
TECHNIQUE = "adversarial prover sessions splicing conjuncts proven with different values of a shared secret, acceptance monitor"
RULE = (
    "random trees with a secret occurring at least twice in one conjunction (inside a relation, across conjuncts at "
    "any depth, in bound primitives, in signature components); the cheating prover proves each occurrence for a "
    "different value, each conjunct being true on its own; distinct by tree shape, places and attack; the honest "
    "session of the same machinery, and the same tree with distinct secrets, have to be accepted"
)
QUICK, THOROUGH = 900, 25000
REQUIRED = [
    "refused_across", "refused_twins", "refused_within", "distinct_accepted",
    "kind_dl", "kind_ne", "kind_rg", "kind_bbs", "kind_plain", "kind_blind", "sig_component",
]
KINDS = [("dl", 10), ("ne", 3), ("rg", 1), ("bbs", 0.5), ("plain", 1), ("blind", 1.5)]


def bound_secrets(n):
    """Secrets of a leaf that its statement ties to other occurrences."""
    if n["k"] == "ne" and not n["bind"]:
        return []
    if n["k"] == "r2":
        return []
    if n["k"] == "plain" and n["shape"] == "or":
        return []
    if n["k"] == "bbs" and n["bind"]:
        return [n["e"], n["sv"]] + n["m"]
    return model.leaf_secrets(n)


def lca(a, b):
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    return a[:i]


def only_ands(spec, top, path):
    for i in range(len(top), len(path)):
        if adv.node_at(spec, path[:i])["k"] != "and":
            return False
    return True


def pairs(spec):
    """(secret, path1, path2) with an unbroken conjunction between the two leaves."""
    occ = {}
    for n, p in model.walk(spec["n"]):
        if n["k"] not in ("and", "or"):
            for s in set(bound_secrets(n)):
                occ.setdefault(s, []).append(p)
    out = []
    for s, ps in occ.items():
        for i, a in enumerate(ps):
            for b in ps[:i]:
                top = lca(a, b)
                if only_ands(spec, top, a) and only_ands(spec, top, b):
                    out.append((s, a, b))
    return out


def link_sig(rng, spec):
    """Use e or s of a signature in a further conjunct (true)."""
    ws = [(n, p) for n, p in model.walk(spec["n"]) if n["k"] == "bbs" and n["bind"] and n["sig"] is not None]
    if not ws:
        return
    n, p = rng.choice(ws)
    sid = n[rng.choice(["e", "sv"])]
    v = n["sig"]["e" if sid == n["e"] else "s"]
    spec["secrets"][n["e"]]["v"], spec["secrets"][n["sv"]]["v"] = n["sig"]["e"], n["sig"]["s"]
    b = rng.randrange(1, order("G1"))
    leaf = dict(k="dl", g="G1", t=[[sid, b]], y=v * b % order("G1"))
    parent = adv.node_at(spec, p[:-1]) if p else None
    if parent is not None and parent["k"] == "and":
        parent["s"].append(leaf)
    else:
        pair = dict(k="and", s=[dict(n), leaf])
        n.clear()
        n.update(pair)
    return sid


def make(rng):
    for _ in range(400):
        spec = gen.gen_spec(rng, extreme=0.06, root=rng.choice(["and", "and", "or"]), kinds=KINDS, max_leaves=rng.choice([2, 3, 3, 4, 6]), max_depth=3, homog=0.9, plain_forms=("and", "single"), twins=rng.choice([0, 0, 0.5]))
        adv.strip(spec)
        sid = link_sig(rng, spec) if rng.random() < 0.7 else None
        ps = [(s, a, b) for s, a, b in pairs(spec) if spec["secrets"][s]["v"] is not None]
        if sid is not None:
            ps = [x for x in ps if x[0] == sid] or ps
        if not ps or not adv.leaf_all_true(spec, spec["n"]):
            continue
        s, a, b = rng.choice(ps)
        if rng.random() < 0.5:
            a, b = b, a
        top = lca(a, b)
        if adv.reachable(spec, top) and adv.leaf_all_true(spec, adv.node_at(spec, top)):
            return spec, s, a, b, top
    raise RuntimeError("no shared secret")


def retarget(rng, spec, path, s, new):
    """The public part of the leaf is made true for another value of the secret."""
    n = adv.node_at(spec, path)
    q = order(n["g"])
    v = lambda i: new if i == s else spec["secrets"][i]["v"]
    k = n["k"]
    if k == "dl":
        n["y"] = sum(v(i) * b for i, b in n["t"]) % q
    elif k == "ne":
        n["v"][0] = v(n["x"]) * n["v"][1] % q
        n["i"][0] = (v(n["x"]) * n["i"][1] + rng.randrange(1, q)) % q
    elif k == "rg":
        n["c"] = (v(n["x"]) * n["gg"] + v(n["r"]) * n["hh"]) % q
        size = n["b"] - n["a"]
        n["a"] = v(n["x"]) - rng.randrange(size)
        n["b"] = n["a"] + size
        n["bnp"] = True
    elif k == "bbs":
        n["sig"]["m"] = [v(i) % q for i in n["m"]]
        if n["bind"]:
            for key, sid in (("e", n["e"]), ("s", n["sv"])):
                if v(sid) is not None:
                    n["sig"][key] = v(sid) % q
    elif k == "plain":
        n["eqs"] = [[sum(v(i) * b for i, b in t) % q, t] for _, t in n["eqs"]]
    elif k == "blind":
        n["y"] = v(n["x"]) * n["gg"] % q


class RawDL:
    """A relation proven with one value per term, whatever the sharing of secrets."""

    def __init__(self, rng, n, values, ks):
        self.q = order(n["g"])
        self.n, self.values, self.ks = n, values, ks

    def precommit(self):
        return None

    def commit(self):
        n = self.n
        return P(n["g"], sum(k * b for k, (_, b) in zip(self.ks, n["t"])))

    def respond(self, c):
        return [bn((k + c * v) % self.q) for k, v in zip(self.ks, self.values)]


def case(ctx, rng, i):
    mode = rng.choice(["interactive", "nizk", "nizk_wire"])
    if i % 4 == 3:
        return within(ctx, rng, mode)
    spec, s, a, b, top = make(rng)
    v = spec["secrets"][s]["v"]
    q = spec["secrets"][s]["q"]
    new = rng.choice([v + 1, v - 1, -v, 0, 1, rng.randrange(q), rng.randrange(q), 2 * v, v + 2 ** 128, v + 2 ** 64])
    if (new - v) % q == 0:
        new = v + 1
    honest = copy.deepcopy(spec)
    retarget(rng, spec, a, s, new)
    na, nb = adv.node_at(spec, a), adv.node_at(spec, b)
    shape = model.shape(spec["n"])

    sims = adv.pick_real(rng, honest, top, [])
    # calibration: one value everywhere
    built = model.build(honest, "p", simflags=False)
    rd = adv.shared_randomizers(rng, honest, built)
    out = drive.attempt(adv.session, lambda: model.build(honest, "v").stmt, adv.Adv(honest, adv.honest_leaves(honest, built, rd), sims, rng), None, None, mode)
    if not out.accept:
        ctx.collect("calib", "%s %s: %r" % (mode, shape, out))
        ctx.count("calibration_failed")
    else:
        ctx.count("calibrated")

    same_rd = rng.random() < 0.6
    b1 = model.build(spec, "p", simflags=False)
    b2 = model.build(spec, "p", simflags=False, values={s: new})
    rd1 = adv.shared_randomizers(rng, spec, b1)
    rd2 = {x2: rd1[x1] for x1, x2 in zip(b1.secrets, b2.secrets)}
    if not same_rd:
        rd2[b2.secrets[s]] = bn(rng.randrange(q))
    leaves1 = adv.honest_leaves(spec, b1, rd1)

    def make_leaf(path, n):
        if path == a:
            return adv.RealLeaf(b2.leaves[path], b2.sdict, rd2)
        return leaves1(path, n)

    mutate, how = None, "plain"
    if rng.random() < 0.3 and na["k"] == "dl":
        # hide the other value behind further or moved responses
        how = rng.choice(["append", "prepend_other", "add_order"])

        def mutate(r, c):
            def f(part):
                part = list(part)
                if how == "append":
                    return part + [part[-1]]
                if how == "prepend_other":
                    return [part[0]] + part
                j = [x for x, _ in na["t"]].index(s)
                part[j] = bn(to_int(part[j]) + q)
                return part

            return adv.resp_at(spec, r, a, f)

    out = drive.attempt(adv.session, lambda: model.build(spec, "v").stmt, adv.Adv(spec, make_leaf, sims, rng), None, mutate, mode)
    ctx.eval((shape, a, b, how, same_rd, mode))
    ctx.count("kind_" + na["k"])
    ctx.count("kind_" + nb["k"])
    for n in (na, nb):
        if n["k"] == "bbs" and n["bind"] and s in (n["e"], n["sv"]):
            ctx.count("sig_component")
    if out.accept:
        ctx.violation("two-values-accepted", "%s: %s and %s of %s use different values of one secret (%s): %r" % (mode, a, b, shape, how, out), spec=spec)
        return
    ctx.count("refused_across")
    if spec["secrets"][s].get("twins"):
        ctx.count("refused_twins")
    ctx.sample(dict(shape=shape, places=[a, b], kinds=[na["k"], nb["k"]], mode=mode, verdict=repr(out)))

    # conversely, with a secret of its own the same leaf is fine
    dist = copy.deepcopy(spec)
    dist["secrets"].append(dict(dist["secrets"][s], v=new, how="init", init=True))
    dist["secrets"][-1].pop("name", None)
    rename(adv.node_at(dist, a), s, len(dist["secrets"]) - 1)
    if gen.composition_ok(dist):
        bd = model.build(dist, "p", simflags=False)
        rdd = adv.shared_randomizers(rng, dist, bd)
        out = drive.attempt(adv.session, lambda: model.build(dist, "v").stmt, adv.Adv(dist, adv.honest_leaves(dist, bd, rdd), sims, rng), None, None, mode)
        if not out.accept:
            ctx.violation("distinct-secrets-refused", "%s: %s: %r" % (mode, model.shape(dist["n"]), out), spec=dist)
        else:
            ctx.count("distinct_accepted")


def rename(n, old, new):
    for key in ("x", "r", "e", "sv"):
        if n.get(key) == old:
            n[key] = new
    if "t" in n:
        n["t"] = [[new if s == old else s, b] for s, b in n["t"]]
    if "eqs" in n:
        n["eqs"] = [[y, [[new if s == old else s, b] for s, b in t]] for y, t in n["eqs"]]
    if "m" in n:
        n["m"] = [new if s == old else s for s in n["m"]]


def within(ctx, rng, mode):
    """A secret repeated inside of one linear relation, at a random place of a tree."""
    spec = gen.gen_spec(rng, root=rng.choice([None, "and", "or"]), kinds=[("dl", 10), ("ne", 1), ("blind", 1)], max_leaves=rng.choice([1, 2, 3, 4]), max_depth=2, twins=rng.choice([0, 0, 0.5]))
    adv.strip(spec)
    cand = [p for n, p in model.walk(spec["n"]) if n["k"] == "dl" and model.known(spec, model.leaf_secrets(n))]
    cand = [p for p in cand if adv.reachable(spec, p) and adv.leaf_all_true(spec, adv.node_at(spec, p))]
    if not cand or not adv.leaf_all_true(spec, spec["n"]):
        ctx.count("no_place")
        return
    path = rng.choice(cand)
    n = adv.node_at(spec, path)
    q = order(n["g"])
    j = rng.randrange(len(n["t"]))
    s = n["t"][j][0]
    # one more occurrence, anywhere
    at = rng.randrange(len(n["t"]) + 1)
    n["t"].insert(at, [s, rng.randrange(1, q)])
    values = [spec["secrets"][x]["v"] for x, _ in n["t"]]
    j = at if rng.random() < 0.5 else rng.choice([k for k, (x, _) in enumerate(n["t"]) if x == s])
    values[j] = values[j] + rng.choice([1, -1, rng.randrange(1, q)])
    n["y"] = sum(v * b for v, (_, b) in zip(values, n["t"])) % q
    by = {x: rng.randrange(q) for x, _ in n["t"]}
    ks = [by[x] if rng.random() < 0.8 else rng.randrange(q) for x, _ in n["t"]]
    shape = model.shape(spec["n"])
    built = model.build(spec, "p", simflags=False)
    rd = adv.shared_randomizers(rng, spec, built)
    for sec, x in zip(built.secrets, range(len(spec["secrets"]))):
        if x in by and all(x not in model.leaf_secrets(m) for m, p in model.walk(spec["n"]) if p != path and m["k"] not in ("and", "or")):
            rd[sec] = bn(by[x])
        elif x in by:
            # shared with other leaves: use theirs, so that only this relation is odd
            by[x] = to_int(rd[sec])
    ks = [by[x] if rng.random() < 0.8 else rng.randrange(q) for x, _ in n["t"]]
    sims = adv.pick_real(rng, dict(spec, n=subst_true(spec, path)), path, []) if path else []
    leaves = adv.honest_leaves(spec, built, rd, sub={path: lambda p, m: RawDL(rng, m, values, ks)})
    out = drive.attempt(adv.session, lambda: model.build(spec, "v").stmt, adv.Adv(spec, leaves, sims, rng), None, None, mode)
    ctx.eval((shape, path, "within", len(n["t"]), mode))
    if out.accept:
        ctx.violation("two-values-in-one-relation-accepted", "%s: relation %s of %s: %r" % (mode, path, shape, out), spec=spec)
        return
    ctx.count("refused_within")
    # the same cheating machinery with equal values has to be accepted
    values = [spec["secrets"][x]["v"] for x, _ in n["t"]]
    n["y"] = sum(v * b for v, (_, b) in zip(values, n["t"])) % q
    ks = [by[x] for x, _ in n["t"]]
    leaves = adv.honest_leaves(spec, built, rd, sub={path: lambda p, m: RawDL(rng, m, values, ks)})
    out = drive.attempt(adv.session, lambda: model.build(spec, "v").stmt, adv.Adv(spec, leaves, sims, rng), None, None, mode)
    if not out.accept:
        ctx.collect("calib", "within %s %s: %r" % (mode, shape, out))
        ctx.count("calibration_failed")
    else:
        ctx.count("calibrated_within")


def subst_true(spec, path):
    """The tree with the leaf at path made true (for planning only)."""
    tree = copy.deepcopy(spec["n"])
    n = tree
    for i in path:
        n = n["s"][i]
    q = order(n["g"])
    n["y"] = sum(spec["secrets"][x]["v"] * b for x, b in n["t"]) % q
    return tree
