"""C08: a proof only verifies for the statement it was made for."""
import copy

from zkmon import gen, model, drive, adv, peer
from zkmon.checks.c01 import note
from zkmon.model import order, bn, to_int

from zksk.base import NIZK

ID = "C08"
TECHNIQUE = "proofs and interactive commitments presented against systematically changed statements (precommitment, responses and hash adapted), acceptance and identifier monitors; large statements that differ late"
RULE = (
    "genuine proofs of random trees, presented for a statement that differs in one respect: a point, base, order or "
    "number of terms, sharing of secrets, number, order or grouping of subproofs, connective, primitive, curve or "
    "parameter; precommitments and responses are moved along with the change; pairs whose canonical form is equal are "
    "dropped; distinct by tree shape, place and change"
)
QUICK, THOROUGH = 390, 22500
REQUIRED = [
    "genuine_accepted", "refused", "identifiers_differ", "large_differ", "interactive_mismatch", "ch_sharing_split", "ch_sharing_merge", "ch_reorder", "ch_connective",
    "ch_regroup", "ch_regroup_or", "ch_curve", "ch_range_bounds", "ch_bind", "ch_class", "ch_point", "ch_drop_sub", "ch_dup_sub",
]
SAME_SIZE = {"p256": "secp256k1", "secp256k1": "p256", "p224": "p192", "p192": "p224", "p384": "bp512", "bp512": "p384", "G1": "p256"}


def canon(spec):
    ids = {}

    def sid(s):
        return ids.setdefault(s, len(ids))

    def rec(n):
        k = n["k"]
        q = order(n["g"]) if "g" in n else None
        if k in ("and", "or"):
            return [k] + [rec(c) for c in n["s"]]
        if k == "dl":
            return [k, n["g"], n["y"] % q] + [[sid(s), b % q] for s, b in n["t"]]
        if k == "ne":
            return [k, n["g"], [a % q for a in n["v"] + n["i"]], n["bind"], sid(n["x"]) if n["bind"] else None]
        if k == "r2":
            return [k, n["g"], n["c"] % q, n["gg"] % q, n["hh"] % q, n["n"]]
        if k == "rg":
            return [k, n["g"], n["c"] % q, n["gg"] % q, n["hh"] % q, n["a"], n["b"], sid(n["x"]), sid(n["r"])]
        if k == "bbs":
            es = [sid(n["e"]), sid(n["sv"])] if n["bind"] else [sid(object()), sid(object())]
            return [k, n["key"], es, [sid(s) for s in n["m"]]]
        if k == "plain":
            return [k, n["g"], n["shape"], [[y % q, [[sid(s), b % q] for s, b in t]] for y, t in n["eqs"]], n.get("cls")]
        return [k, n["g"], [n[f] % q for f in ("y", "gg", "hh", "kk")], sid(n["x"])]

    return rec(spec["n"])


def sid_slots(n):
    """(getter name, index) of places of secrets that are part of the statement."""
    k = n["k"]
    if k == "dl":
        return [("t", j) for j in range(len(n["t"]))]
    if k == "plain":
        return [("eqs", j, l) for j, (_, t) in enumerate(n["eqs"]) for l in range(len(t))]
    if k == "ne":
        return [("x",)] if n["bind"] else []
    if k == "rg":
        return [("x",), ("r",)]
    if k == "blind":
        return [("x",)]
    if k == "bbs":
        return [("m", j) for j in range(len(n["m"]))]
    return []


def slot(n, sl, new=None):
    if sl[0] == "t":
        if new is not None:
            n["t"][sl[1]][0] = new
        return n["t"][sl[1]][0]
    if sl[0] == "eqs":
        if new is not None:
            n["eqs"][sl[1]][1][sl[2]][0] = new
        return n["eqs"][sl[1]][1][sl[2]][0]
    if sl[0] == "m":
        if new is not None:
            n["m"][sl[1]] = new
        return n["m"][sl[1]]
    if new is not None:
        n[sl[0]] = new
    return n[sl[0]]


def ident(x):
    return x


class Change:
    """tpc/tresp/tcom: how precommitments, responses and commitments of the node move along."""

    def __init__(self, name, path, perm=None, resp=None, isor=False):
        self.name, self.path, self.perm, self.resp, self.isor = name, path, perm, resp, isor

    def apply_list(self, part):
        if self.perm is None or part is None:
            return part
        return self.perm(list(part))

    def apply_resp(self, part):
        if self.resp is not None:
            return self.resp(part)
        if self.perm is None:
            return part
        if self.isor:
            return (self.perm(list(part[0])), self.perm(list(part[1])))
        return self.perm(list(part))


def at_pc(n, pc, path, f):
    if pc is None:
        return f(None) if not path else None
    if not path:
        return f(pc)
    return [at_pc(n["s"][path[0]], x, path[1:], f) if j == path[0] else x for j, x in enumerate(pc)]


def at_com(com, path, f):
    if not path:
        return f(com)
    return [at_com(x, path[1:], f) if j == path[0] else x for j, x in enumerate(com)]


def mutate(rng, spec):
    """Change the spec in place; returns a Change, or None."""
    nodes = list(model.walk(spec["n"]))
    comp = [(n, p) for n, p in nodes if n["k"] in ("and", "or")]
    leaves = [(n, p) for n, p in nodes if n["k"] not in ("and", "or")]
    kind = rng.choice([
        "point", "point", "terms", "sharing_split", "sharing_split", "sharing_merge", "sharing_move", "reorder", "reorder", "connective", "regroup", "curve", "range_bounds",
        "range_bounds", "bind", "class", "drop_sub", "dup_sub", "replace_sub", "bbs", "shape",
    ])
    if kind in ("reorder", "connective", "regroup", "drop_sub", "dup_sub", "replace_sub"):
        if not comp:
            return None
        n, p = rng.choice(comp)
        m = len(n["s"])
        isor = n["k"] == "or"
        n.pop("op", None)
        if kind == "reorder":
            perm = list(range(m))
            while perm == list(range(m)):
                rng.shuffle(perm)
            n["s"] = [n["s"][i] for i in perm]
            return Change(kind, p, lambda x: [x[i] for i in perm], isor=isor)
        if kind == "connective":
            n["k"] = "and" if isor else "or"
            if isor:
                return Change(kind, p, resp=lambda part: part[1])
            return Change(kind, p, resp=lambda part: ([bn(0)] * m, part))
        if kind == "regroup":
            if m < 3:
                # and(a, b) -> and(and(a, b), b)
                n["s"] = [dict(k=n["k"], s=copy.deepcopy(n["s"])), copy.deepcopy(n["s"][1])]
                if isor:
                    return None
                return Change(kind, p, lambda x: [list(x), x[1]])
            n["s"] = [dict(k=n["k"], s=n["s"][:2])] + n["s"][2:]
            if isor:
                def nest(part):
                    cs, rs = list(part[0]), list(part[1])
                    return ([bn((to_int(cs[0]) + to_int(cs[1])) % adv.M)] + cs[2:], [(cs[:2], rs[:2])] + rs[2:])

                return Change(kind + "_or", p, lambda x: [x[:2]] + x[2:], resp=nest)
            return Change(kind, p, lambda x: [x[:2]] + x[2:])
        if kind == "drop_sub":
            if m < 3:
                return None
            j = rng.randrange(m)
            n["s"] = [c for i, c in enumerate(n["s"]) if i != j]
            return Change(kind, p, lambda x: x[:j] + x[j + 1:], isor=isor)
        if kind == "dup_sub":
            j = rng.randrange(m)
            n["s"] = n["s"] + [copy.deepcopy(n["s"][j])]
            return Change(kind, p, lambda x: x + [x[j]], isor=isor)
        a, b = rng.sample(range(m), 2)
        n["s"] = list(n["s"])
        n["s"][a] = copy.deepcopy(n["s"][b])
        return Change(kind, p, lambda x: [x[b] if i == a else y for i, y in enumerate(x)], isor=isor)

    if kind == "range_bounds":
        c = [x for x in leaves if x[0]["k"] in ("rg", "r2")]
        if not c:
            return None
        n, p = rng.choice(c)
        if n["k"] == "r2":
            n["n"] += rng.choice([1, -1]) if n["n"] > 1 else 1
            return Change(kind, p)
        d = rng.choice([1, -1, 2, 5])
        w = rng.choice(["a", "b", "ab"])
        if "a" in w:
            n["a"] += d
        if "b" in w:
            n["b"] += d
        if n["b"] <= n["a"]:
            return None
        n["bnp"] = True
        return Change(kind, p)
    if kind == "bbs":
        c = [x for x in leaves if x[0]["k"] == "bbs"]
        if not c:
            return None
        n, p = rng.choice(c)
        if rng.random() < 0.5:
            n["key"] += 1
        else:
            rng.shuffle(n["m"])
        return Change(kind, p)
    if kind == "shape":
        c = [x for x in leaves if x[0]["k"] == "plain"]
        if not c:
            return None
        n, p = rng.choice(c)
        n["shape"] = {"and": "or", "or": "and", "single": "single"}[n["shape"]]
        return Change(kind, p)
    if kind == "bind":
        c = [x for x in leaves if x[0]["k"] == "ne"]
        if not c:
            return None
        n, p = rng.choice(c)
        n["bind"] = not n["bind"]
        if n["bind"]:
            return Change(kind, p, resp=lambda part: list(part) + [[part[0][0]]])
        return Change(kind, p, resp=lambda part: list(part)[:2])
    if kind == "class":
        # a relation on its own, and the same one as a user's primitive
        c = [x for x in leaves if x[0]["k"] == "dl"]
        if not c:
            return None
        n, p = rng.choice(c)
        new = dict(k="plain", g=n["g"], shape="single", eqs=[[n["y"], n["t"]]])
        n.clear()
        n.update(new)
        return Change(kind, p)

    n, p = rng.choice(leaves)
    k = n["k"]
    if kind == "curve":
        if n["g"] not in SAME_SIZE or k == "bbs":
            return None
        n["g"] = SAME_SIZE[n["g"]]
        return Change(kind, p)
    if kind == "point":
        q = order(n["g"])
        d = rng.choice([1, q - 1, rng.randrange(1, q)])
        if k == "dl":
            if rng.random() < 0.4:
                n["y"] = (n["y"] + d) % q if rng.random() < 0.7 else (-n["y"]) % q
            else:
                t = rng.choice(n["t"])
                t[1] = (t[1] + d) % q or 1
        elif k == "ne":
            a = rng.choice([n["v"], n["i"]])
            j = rng.randrange(2)
            a[j] = (a[j] + d) % q or 1
        elif k in ("r2", "rg"):
            f = rng.choice(["c", "gg", "hh"])
            n[f] = (n[f] + d) % q or 1
        elif k == "plain":
            e = rng.choice(n["eqs"])
            if rng.random() < 0.5:
                e[0] = (e[0] + d) % q
            else:
                t = rng.choice(e[1])
                t[1] = (t[1] + d) % q or 1
        elif k == "blind":
            f = rng.choice(["y", "gg", "hh", "kk"])
            n[f] = (n[f] + d) % q or 1
        else:
            return None
        return Change(kind, p)
    if kind == "terms":
        if k != "dl":
            return None
        c = rng.randrange(4)
        m = len(n["t"])
        if c == 0 and m > 1:
            a, b = rng.sample(range(m), 2)
            n["t"][a], n["t"][b] = n["t"][b], n["t"][a]

            def sw(x):
                x = list(x)
                x[a], x[b] = x[b], x[a]
                return x

            return Change(kind, p, resp=sw)
        if c == 1 and m > 1:
            n["t"] = n["t"][:-1]
            return Change(kind, p, resp=lambda x: list(x)[:-1])
        if c == 2:
            n["t"] = n["t"] + [list(n["t"][-1])]
            return Change(kind, p, resp=lambda x: list(x) + [x[-1]])
        if m > 1:
            # only the bases change places
            a, b = rng.sample(range(m), 2)
            n["t"][a][1], n["t"][b][1] = n["t"][b][1], n["t"][a][1]
            return Change(kind, p)
        return None
    # sharing of secrets
    slots = [(n2, p2, sl) for n2, p2 in leaves for sl in sid_slots(n2)]
    if not slots:
        return None
    use = {}
    for n2, p2, sl in slots:
        use.setdefault(slot(n2, sl), []).append((n2, p2, sl))
    if kind == "sharing_split":
        c = [v for v in use.values() if len(v) > 1]
        if not c:
            return None
        n2, p2, sl = rng.choice(rng.choice(c))
        spec["secrets"].append(dict(spec["secrets"][slot(n2, sl)], v=None))
        spec["secrets"][-1].pop("name", None)
        slot(n2, sl, len(spec["secrets"]) - 1)
        return Change(kind, p2)
    if len(slots) < 2:
        return None
    (n2, p2, sl), (n3, p3, sl3) = rng.sample(slots, 2)
    a, b = slot(n2, sl), slot(n3, sl3)
    if a == b or order(n2["g"]) != order(n3["g"]):
        return None
    if kind == "sharing_merge":
        for n4, p4, s4 in use[a]:
            slot(n4, s4, b)
    else:
        slot(n2, sl, b)
        slot(n3, sl3, a)
    return Change(kind, p2)


# ---------------------------------------------------------------- identifiers of large statements


def large_tree(rng, nleaves, nsecrets):
    q = order("p224")

    def leaf():
        m = rng.choice([1, 1, 2, 3, rng.randrange(1, 12)])
        return dict(k="dl", g="p224", y=rng.randrange(8), t=[[rng.randrange(nsecrets), rng.randrange(1, 6)] for _ in range(m)])

    level = [leaf() for _ in range(nleaves)]
    while len(level) > 1:
        out = []
        while level:
            k = rng.choice([1, 2, 2, 3, 5, 9, len(level)])
            part, level = level[:k], level[k:]
            out.append(part[0] if len(part) == 1 else dict(k=rng.choice(["and", "or"]), s=part))
        level = out
    return dict(n=level[0], secrets=[dict(q=q, v=None) for _ in range(nsecrets)])


def large(ctx, rng, i):
    """Statements of many relations and secrets that differ at one place only, anywhere."""
    nl = rng.choice([1, 2, 3, 9, 17, 30, 60])
    ns = rng.choice([2, 3, 9, 10, 17, 33, 65, 129, 260])
    spec = large_tree(rng, nl, ns)
    if rng.random() < 0.3:
        # one relation with many terms, every secret once
        perm = rng.sample(range(ns), ns)
        spec["n"] = dict(k="dl", g="p224", y=3, t=[[s, 1 + s % 5] for s in perm])
    ident = lambda s: model.build(s, "v").stmt.prehash_statement().digest()
    a = ident(spec)
    if ident(copy.deepcopy(spec)) != a:
        ctx.violation("identifier-differs", "%d relations, %d secrets: two statements built alike" % (nl, ns), spec=spec)
    mine = canon(spec)
    done = 0
    for _ in range(80):
        if done >= 12:
            break
        other = copy.deepcopy(spec)
        ch = mutate(rng, other)
        if ch is None or canon(other) == mine:
            continue
        done += 1
        b = drive.attempt(ident, other)
        ctx.eval(("large", nl, ns, ch.name, ch.path))
        if b.err is None and b.value == a:
            ctx.violation("same-identifier", "%d relations, %d secrets: %s at %s" % (nl, ns, ch.name, ch.path), spec=spec, other=other)
            return
        ctx.count("large_differ")


def case(ctx, rng, i):
    if i % 3 == 2:
        return large(ctx, rng, i)
    spec = gen.gen_spec(
        rng, max_leaves=rng.choice([1, 2, 2, 3, 3, 4, 5]), max_depth=3, allow_missing=False,
        kinds=[("dl", 8), ("ne", 2), ("r2", 0.7), ("rg", 1), ("bbs", 0.4), ("plain", 1.2), ("blind", 1.2)],
    )
    note(ctx, spec)
    shape = model.shape(spec["n"])
    mine = canon(spec)
    b = model.build(spec, "p")
    nizk = b.stmt.prove(b.sdict, message="m")
    if drive.attempt(lambda: model.build(spec, "v").stmt.verify(nizk, message="m")).accept:
        ctx.count("genuine_accepted")
    else:
        ctx.count("genuine_refused")
        return
    inter = None
    done = 0
    for _ in range(60):
        if done >= 8:
            break
        other = copy.deepcopy(spec)
        ch = mutate(rng, other)
        if ch is None or canon(other) == mine:
            continue
        done += 1
        has_range = any(n["k"] in ("rg", "r2") for s in (spec, other) for n, _ in model.walk(s["n"]))
        out = drive.attempt(lambda: model.build(other, "v").stmt.verify(nizk, message="m"))
        ctx.eval((shape, ch.name, ch.path, "as_is"))
        ctx.count("ch_" + ch.name)
        det = "%s at %s of %s" % (ch.name, ch.path, shape)
        if out.accept:
            ctx.violation("accepted-for-other-statement", "%s: %r" % (det, out), spec=spec, other=other)
            continue
        ctx.count("refused")
        # moved along with the change
        pc2 = at_pc(spec["n"], nizk.precommitment, ch.path, ch.apply_list)
        moved = drive.attempt(lambda: adv.resp_at(spec, nizk.responses, ch.path, ch.apply_resp))
        h2 = drive.attempt(peer.stmt_hash, other, pc2)
        if moved.err is None:
            n2 = NIZK(challenge=nizk.challenge, responses=moved.value, precommitment=pc2, stmt_hash=h2.value if h2.err is None else nizk.stmt_hash)
            n3 = NIZK(challenge=nizk.challenge, responses=moved.value, precommitment=pc2, stmt_hash=nizk.stmt_hash)
            for n in (n2, n3):
                out = drive.attempt(lambda: model.build(other, "v").stmt.verify(n, message="m"))
                ctx.eval((shape, ch.name, ch.path, "moved"))
                if out.accept:
                    ctx.violation("accepted-for-other-statement", "%s, moved along: %r" % (det, out), spec=spec, other=other)
                else:
                    ctx.count("refused")
        if h2.err is None:
            if not has_range and h2.value == nizk.stmt_hash:
                ctx.violation("same-identifier", "%s: both %s" % (det, h2.value.hex()), spec=spec, other=other)
            ctx.count("identifiers_differ")
            ctx.sample(dict(change=det, identifiers=[nizk.stmt_hash.hex()[:16], h2.value.hex()[:16]]))
        # interactively
        prover = model.build(spec, "p")
        prover = prover.stmt.get_prover(prover.sdict)
        v = model.build(other, "v").stmt.get_verifier()

        def run():
            pc = at_pc(spec["n"], prover.precommit(), ch.path, ch.apply_list)
            v.process_precommitment(pc)
            h, com = prover.commit()
            return h, at_com(com, ch.path, ch.apply_list)

        r = drive.attempt(run)
        if r.err is None:
            out = drive.attempt(v.send_challenge, r.value)
            ctx.eval((shape, ch.name, ch.path, "interactive"))
            if out.err is not None:
                ctx.count("interactive_mismatch")
            elif not has_range:
                ctx.violation("commitment-for-other-statement-challenged", "%s: %r" % (det, out), spec=spec, other=other)
            else:
                out = drive.attempt(lambda: v.verify(adv.resp_at(spec, prover.compute_response(out.value), ch.path, ch.apply_resp)))
                if out.accept:
                    ctx.violation("accepted-for-other-statement", "%s, interactively: %r" % (det, out), spec=spec, other=other)
                else:
                    ctx.count("interactive_refused")
