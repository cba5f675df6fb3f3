"""C09: range proofs are complete and sound."""
import copy

from zkmon import gen, model, drive, adv, formal
from zkmon.model import bn, to_int, order, P, Secret, DLRep

from zksk.primitives.rangeproof import RangeOnlyStmt, RangeStmt, PowerTwoRangeStmt
from zksk.composition import AndProofStmt, OrProofStmt

ID = "C09"
TECHNIQUE = "all small ranges and values around their ends through the real prover, and adversarial sessions with malformed bit commitments, acceptance monitor against the integer range; over a formal group, an attacker solves whatever equations the verifier's code checks"
RULE = (
    "every (size, position of the value) for small ranges and bit counts, with random lower ends (negative, huge), "
    "groups, placement in a tree; then cheating provers with surplus, missing, non-bit, swapped or wrongly combined "
    "bit commitments; over formal groups, provers who solve whatever equations the verifier checks for bit commitments of many forms; distinct by size, position, placement, attack"
)
QUICK, THOROUGH = 7200, 120000
REQUIRED = [
    "inside_accepted", "outside_refused", "only_inside_accepted", "only_outside_refused", "evil_refused", "evil_surplus", "evil_missing",
    "evil_nonbit", "evil_wrong_value", "evil_swap", "evil_rand", "evil_one_sided", "place_and", "place_or", "place_nested", "place_bare", "evil_weights", "evil_inverted", "evil_no_opening", "formal_attacks", "wide_accepted", "wide_refused", "empty_refused", "only_empty_refused", "formal_empty",
]

COMBOS = []
for size in [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 64]:
    for off in range(-2, size + 2) if size < 10 else [-2, -1, 0, 1, size // 2, size - 2, size - 1, size, size + 1]:
        COMBOS.append(("rg", size, off))
for size in [0, -1, -2, -3, -4, -7, -8, -16]:
    # an empty range, or one whose ends are in the wrong order
    for off in sorted({-9, -2, -1, 0, 1, 2, 8, size, size - 1, size + 1, -size, size // 2}):
        COMBOS.append(("rg", size, off))
for n in [1, 2, 3, 4, 6]:
    for x in sorted(set([-1, 0, 1, 2, 2 ** n - 2, 2 ** n - 1, 2 ** n, 2 ** n + 1, 2 ** (n + 1) - 1]) | set(range(2 ** n if n < 4 else 0))):
        COMBOS.append(("r2", n, x))


def place(rng, spec, leaf):
    """Put the leaf somewhere; returns its path."""
    q = order(leaf["g"])

    def other():
        spec["secrets"].append(dict(q=q, v=rng.randrange(q), ty="bn", how=rng.choice(["init", "dict"])))
        b = rng.randrange(1, q)
        return dict(k="dl", g=leaf["g"], t=[[len(spec["secrets"]) - 1, b]], y=spec["secrets"][-1]["v"] * b % q)

    w = rng.choice(["bare", "bare", "and", "or", "nested"])
    spec["place"] = w
    if w == "bare":
        spec["n"], path = leaf, ()
    elif w == "and":
        at = rng.randrange(2)
        spec["n"], path = dict(k="and", s=[other(), leaf] if at else [leaf, other()]), (at,)
    elif w == "or":
        at = rng.randrange(2)
        o = dict(other(), sim=True)
        spec["n"], path = dict(k="or", s=[o, leaf] if at else [leaf, o]), (at,)
    else:
        at, at2 = rng.randrange(2), rng.randrange(2)
        o = dict(other(), sim=True)
        inner = dict(k="and", s=[other(), leaf] if at else [leaf, other()])
        mid = dict(k="or", s=[o, inner] if at2 else [inner, o])
        at3 = rng.randrange(2)
        spec["n"] = dict(k="and", s=[other(), mid] if at3 else [mid, other()])
        path = (at3, at2, at)
    gen.vmarks(rng, spec, 0.3)
    return path


def lower(rng):
    return rng.choice([0, 0, 1, -1, -3, rng.randrange(-50, 1000), rng.randrange(-(2 ** 80), 2 ** 100), 2 ** 63, -(2 ** 63)])


def case(ctx, rng, i):
    if i % 6 == 4:
        return formal_case(ctx, rng)
    if i % 2:
        return evil(ctx, rng, i // 2)
    j = i // 2
    wide = j % 40 == 7
    kind, a1, a2 = huge(rng) if wide else COMBOS[j % len(COMBOS)] if j < 2 * len(COMBOS) or rng.random() < 0.5 else big(rng)
    if kind == "rg" and (j % 9 == 0 or wide and rng.random() < 0.3):
        return range_only(ctx, rng, a1, a2)
    g = rng.choice(["p224", "p256", "p192"]) if wide else rng.choice(["p224", "p224", "p256", "p192"]) if a1 > 5 or rng.random() < 0.9 else rng.choice(["G1", "bp512", "secp256k1"])
    q = order(g)
    gg, hh, r = rng.randrange(1, q), rng.randrange(1, q), rng.choice([0, 1, rng.randrange(q), rng.randrange(q)])
    if kind == "rg":
        a = lower(rng)
        x = a + a2
        inside = 0 <= a2 < a1
        leaf = dict(k="rg", g=g, c=(x * gg + r * hh) % q, gg=gg, hh=hh, a=a, b=a + a1, x=0, r=1, bnp=rng.random() < 0.5)
    else:
        x = a2
        inside = 0 <= x < 2 ** a1
        leaf = dict(k="r2", g=g, c=(x * gg + r * hh) % q, gg=gg, hh=hh, n=a1, x=0, r=1)
    spec = dict(secrets=[dict(q=q, v=x, ty=rng.choice(["int", "bn"]), how="init", init=True), dict(q=q, v=r, ty=rng.choice(["int", "bn"]), how="init", init=True)])
    place(rng, spec, leaf)
    mode = rng.choice(["nizk", "interactive", "wire"])

    def run():
        b = model.build(spec, "p")
        v = model.build(spec, "v").stmt
        if mode == "nizk":
            return v.verify(drive.transport(b.stmt.prove(b.sdict), "ser"))
        return drive.interact(b.stmt.get_prover(b.sdict), v.get_verifier(), drive.wire if mode == "wire" else None)

    out = drive.attempt(run)
    ctx.eval((kind, a1, a2, spec["place"], g, mode))
    ctx.count("place_" + spec["place"])
    det = "%s %s value at %s (%s, %s, %s)" % (kind, a1, a2, spec["place"], g, mode)
    if inside and not out.accept:
        ctx.violation("inside-refused", "%s: %r" % (det, out), spec=spec)
    elif not inside and out.accept:
        ctx.violation("outside-accepted", "%s: %r" % (det, out), spec=spec)
    else:
        ctx.count("inside_accepted" if inside else "outside_refused")
        if a1 > 2 ** 64 or kind == "r2" and a1 > 64:
            ctx.count("wide_accepted" if inside else "wide_refused")
        if kind == "rg" and a1 <= 0:
            ctx.count("empty_refused")
        ctx.sample(dict(what=det, inside=inside, verdict=repr(out)))


def big(rng):
    if rng.random() < 0.5:
        size = rng.choice([100, 1000, 10 ** 6, rng.randrange(10, 5000)])
        if rng.random() < 0.6:
            size = max(1, 2 ** rng.randrange(2, 28) + rng.choice([0, 1, -1, -1, 2, -2]))
        return "rg", size, rng.choice([-1, -1, 0, size - 1, size, size, size + 1, size // 2, rng.randrange(size), -size, 2 * size, 2 ** (size - 1).bit_length()])
    n = rng.choice([8, 16, 20, 32])
    return "r2", n, rng.choice([0, 2 ** n - 1, 2 ** n, -1, rng.randrange(2 ** n), -(2 ** n)])


def huge(rng):
    """Ranges of more than 64 bits, well below the order of the groups."""
    n = rng.choice([63, 64, 65, 66, 80, 96, 127, 128, 129, rng.randrange(60, 170)])
    if rng.random() < 0.5:
        size = 2 ** n + rng.choice([0, 1, -1, rng.randrange(2 ** n)])
        return "rg", size, rng.choice([-1, 0, size - 1, size, rng.randrange(size), rng.randrange(size), 2 ** (n - 1), 2 ** 64, 2 ** 63])
    return "r2", n, rng.choice([0, 2 ** n - 1, 2 ** n, -1, 2 ** (n - 1), rng.randrange(2 ** n), rng.randrange(2 ** n), 2 ** 64 - 1])


def range_only(ctx, rng, size, off):
    a = rng.choice([0, 1, -5, rng.randrange(-100, 10 ** 6), 2 ** 70])
    t = bn if rng.random() < 0.4 else int

    def run():
        st = RangeOnlyStmt(t(a), t(a + size), Secret(value=t(a + off)))
        return st.verify(st.prove())

    out = drive.attempt(run)
    inside = 0 <= off < size
    ctx.eval(("only", size, off))
    if inside != out.accept:
        ctx.violation("only-inside-refused" if inside else "only-outside-accepted", "RangeOnlyStmt(%d, %d) for %d: %r" % (a, a + size, a + off, out))
    else:
        ctx.count("only_inside_accepted" if inside else "only_outside_refused")
        if size <= 0:
            ctx.count("only_empty_refused")


# ---------------------------------------------------------------- cheating provers


class EvilBits:
    """
    The prover of a power-of-two range with chosen bit commitments: digits[i] * g + rs[i] * h.
    Disjuncts that hold are proven by the library; for a digit other than 0 and 1, both are simulated.
    """

    def __init__(self, rng, n, digits, rs, rand, bits=None):
        self.rng, self.node, self.digits, self.rs, self.rand = rng, n, digits, rs, rand
        g, gg, hh = n["g"], n["gg"], n["hh"]
        q = order(g)
        self.Cs = [P(g, d * gg + r * hh) for d, r in zip(digits, rs)]
        self.subs = []
        nb = n["n"] if bits is None else bits
        for C, d, r in list(zip(self.Cs, digits, rs))[:nb]:
            s = Secret(value=bn(r))
            h, G = P(g, hh), P(g, gg)
            p0, p1 = DLRep(C, s * h), DLRep(C - G, s * h)
            if d == 0:
                p1.set_simulated()
            elif d == 1:
                p0.set_simulated()
            st = p0 | p1
            if d in (0, 1):
                self.subs.append(("real", st.get_prover()))
            else:
                self.subs.append(("sim", st.simulate(bn(rng.randrange(adv.M)))))

    def precommit(self):
        return {"Cs": self.Cs, "rand": self.rand}

    def pack(self, xs):
        return xs[0] if self.node["n"] == 1 and len(xs) == 1 else xs

    def commit(self):
        return self.pack([s.commit()[1] if k == "real" else s.commitment for k, s in self.subs])

    def respond(self, c):
        return self.pack([s.compute_response(bn(c)) if k == "real" else s.responses for k, s in self.subs])


def bits_of(v, n):
    return [(v >> i) & 1 for i in range(n)]


def combine_rand(rs, r, q):
    return bn((sum(x << i for i, x in enumerate(rs)) - r) % q)


ATTACKS = ["surplus", "surplus", "missing", "nonbit", "nonbit", "wrong_value", "wrong_value", "swap", "rand", "one_sided", "one_sided", "weights", "no_opening", "surplus_zero", "inverted"]


def evil(ctx, rng, j):
    """A power-of-two range, or a range seen as a relation and two of them, at some place of a tree."""
    att = ATTACKS[j % len(ATTACKS)]
    g = rng.choice(["p224", "p224", "p256", "G1"]) if rng.random() < 0.5 else "p224"
    q = order(g)
    gg, hh, r = rng.randrange(1, q), rng.randrange(1, q), rng.randrange(q)
    generic = rng.random() < 0.5 or att in ("swap", "one_sided")
    sec = lambda v: dict(q=q, v=v, ty="bn", how="init", init=True)
    if generic:
        size = rng.choice([3, 5, 6, 7] if att == "one_sided" else [2, 3, 4, 5, 8])
        nb = max(1, (size - 1).bit_length())
        offset = 2 ** nb - size
        a = lower(rng)
    else:
        nb = rng.choice([1, 2, 3, 4])
        size, a, offset = 2 ** nb, 0, 0

    def build(x):
        """Spec for the verifier, spec for the cheating prover, place of the range."""
        c = (x * gg + r * hh) % q
        spec = dict(secrets=[sec(x), sec(r), sec(x - a), sec(x - a + offset)])
        if generic:
            leaf = dict(k="rg", g=g, c=c, gg=gg, hh=hh, a=a, b=a + size, x=0, r=1, bnp=True)
        else:
            leaf = dict(k="r2", g=g, c=c, gg=gg, hh=hh, n=nb, x=0, r=1)
        st = rng.getstate()
        path = place(rng, spec, leaf)
        mine = copy.deepcopy(spec)
        if generic:
            n = adv.node_at(mine, path)
            r2 = lambda d, s: dict(k="r2", g=g, c=(c + d * gg) % q, gg=gg, hh=hh, n=nb, x=s, r=1)
            new = dict(k="and", s=[dict(k="dl", g=g, t=[[0, gg], [1, hh]], y=c), r2(-a, 2), r2(-a + offset, 3)])
            n.clear()
            n.update(new)
        return spec, mine, path

    def attempt(spec, mine, path, subs):
        """subs: place below path -> leaf object."""
        mode = rng.choice(["interactive", "nizk", "nizk_wire"])
        for n, _ in model.walk(mine["n"]):
            n.pop("sim", None)
        b = model.build(mine, "p", simflags=False)
        rd = adv.shared_randomizers(rng, mine, b)
        # the plan simulates the other disjuncts
        sims = []
        for k in range(len(path)):
            n = adv.node_at(mine, path[:k])
            if n["k"] == "or":
                sims += [path[:k] + (m,) for m in range(len(n["s"])) if m != path[k]]
        leaves = adv.honest_leaves(mine, b, rd, sub={path + p: (lambda o: lambda pp, nn: o)(o) for p, o in subs.items()})
        # plan for or-nodes elsewhere
        A = adv.Adv(mine, leaves, sims, rng)
        return mode, drive.attempt(adv.session, lambda: model.build(spec, "v", simflags=False).stmt, A, None, None, mode)

    def honest(spec, mine, path, x):
        subs = {}
        for p, v, n in parts(mine, path, x):
            rs = [rng.randrange(q) for _ in range(nb)]
            subs[p] = EvilBits(rng, n, bits_of(v, nb), rs, combine_rand(rs, r, q))
        return subs

    def parts(mine, path, x):
        if generic:
            return [((1,), x - a, adv.node_at(mine, path + (1,))), ((2,), x - a + offset, adv.node_at(mine, path + (2,)))]
        return [((), x, adv.node_at(mine, path))]

    # calibration: the machinery proves a value inside
    x = a + rng.randrange(size)
    spec, mine, path = build(x)
    mode, out = attempt(spec, mine, path, honest(spec, mine, path, x))
    if not out.accept:
        ctx.count("calibration_failed")
        ctx.collect("calib", "%s: %r" % (mode, out))
    else:
        ctx.count("evil_calibrated")

    inside = x
    outside = rng.choice([a + size, a + size + 1, a - 1, a - 2, a + 2 * size, a + size + rng.randrange(1000), a + q // 2, a + rng.randrange(size, q)])
    if att == "one_sided":
        outside = rng.choice([a + size + rng.randrange(offset), a - 1 - rng.randrange(offset)])
    if att in ("surplus", "surplus_zero"):
        outside = a + size + rng.randrange(3 * size)
    if att == "inverted":
        outside = a - rng.randrange(1, 2 ** nb)
    x = outside if att != "missing" and att != "rand" else inside
    if att == "swap":
        x = inside if offset == 0 else rng.choice([inside, outside])
        if offset == 0:
            att = "wrong_value"
            x = outside
    spec, mine, path = build(x)
    subs = {}
    ps = parts(mine, path, x)
    bad = rng.randrange(len(ps))
    for k, (p, v, n) in enumerate(ps):
        extra = 0
        if 0 <= v < 2 ** nb and att not in ("swap",) and not (len(ps) == 1 or (k == bad and att in ("missing", "rand", "surplus_zero"))):
            rs = [rng.randrange(q) for _ in range(nb)]
            subs[p] = EvilBits(rng, n, bits_of(v, nb), rs, combine_rand(rs, r, q))
            continue
        if att == "surplus":
            m = max(nb + 1, v.bit_length()) if v >= 0 else nb
            rs = [rng.randrange(q) for _ in range(m)]
            vv = v if v >= 0 else v % 2 ** nb
            subs[p] = EvilBits(rng, n, bits_of(vv, m), rs, combine_rand(rs, r, q))
        elif att == "surplus_zero":
            # the surplus "bit" carries everything that is missing
            rs = [rng.randrange(q) for _ in range(nb + 1)]
            low = rng.randrange(2 ** nb)
            top = (v - low) * pow(2 ** nb, -1, q) % q
            subs[p] = EvilBits(rng, n, bits_of(low, nb) + [top], rs, combine_rand(rs, r, q))
        elif att == "missing":
            rs = [rng.randrange(q) for _ in range(nb - 1)]
            vv = v % 2 ** max(0, nb - 1)
            subs[p] = EvilBits(rng, n, bits_of(vv, nb - 1), rs, combine_rand(rs, r, q))
        elif att == "nonbit":
            rs = [rng.randrange(q) for _ in range(nb)]
            at = rng.randrange(nb)
            d = bits_of(rng.randrange(2 ** nb), nb)
            d[at] = 0
            d[at] = (v - sum(y << z for z, y in enumerate(d))) * pow(2 ** at, -1, q) % q
            subs[p] = EvilBits(rng, n, d, rs, combine_rand(rs, r, q))
        elif att == "wrong_value":
            rs = [rng.randrange(q) for _ in range(nb)]
            subs[p] = EvilBits(rng, n, bits_of(rng.choice([v % 2 ** nb, 0, 2 ** nb - 1, rng.randrange(2 ** nb)]), nb), rs, combine_rand(rs, r, q))
        elif att == "inverted":
            # the bits combine to the inverse of the commitment
            rs = [rng.randrange(q) for _ in range(nb)]
            subs[p] = EvilBits(rng, n, bits_of(-v, nb), rs, bn((-sum(k << z for z, k in enumerate(rs)) - r) % q))
        elif att == "swap":
            rs = [rng.randrange(q) for _ in range(nb)]
            w = ps[1 - k][1]
            subs[p] = EvilBits(rng, n, bits_of(w % 2 ** nb, nb), rs, combine_rand(rs, r, q))
        elif att == "rand":
            rs = [rng.randrange(q) for _ in range(nb)]
            rd = combine_rand(rs, r, q)
            rd = rng.choice([bn((to_int(rd) + 1) % q), bn(0), -rd, None, bn(to_int(rd) // 2), P(g, 3), b"", bn(r)])
            subs[p] = EvilBits(rng, n, bits_of(v, nb), rs, rd)
        elif att == "one_sided":
            # the part that holds is shown twice
            w = ps[1 - k][1]
            rs = [rng.randrange(q) for _ in range(nb)]
            subs[p] = EvilBits(rng, n, bits_of(w % 2 ** nb, nb), rs, combine_rand(rs, r, q))
        elif att == "weights":
            # bits right in number and value of their plain sum or in the reverse order
            rs = [rng.randrange(q) for _ in range(nb)]
            d = bits_of(v % 2 ** nb, nb)[::-1]
            subs[p] = EvilBits(rng, n, d, rs, bn((sum(rs) - r) % q) if rng.random() < 0.5 else combine_rand(rs[::-1], r, q))
        else:
            # the commitment is not opened: bits of another value, shifted into the revealed randomizer
            rs = [rng.randrange(q) for _ in range(nb)]
            subs[p] = EvilBits(rng, n, bits_of(rng.randrange(2 ** nb), nb), rs, bn(rng.randrange(q)))
    if (att == "weights" or att == "no_opening" or att == "swap") and 0 <= x - a < size and not any(isinstance(o, EvilBits) for o in subs.values()):
        return
    mode, out = attempt(spec, mine, path, subs)
    inside_now = 0 <= x - a < size
    ctx.eval(("evil", att, size, nb, generic, spec["place"], mode))
    ctx.count("evil_" + att)
    if out.accept:
        ctx.violation("evil-accepted", "%s: %s-bit range of size %d (%s), value at %d %s: %r" % (att, nb, size, spec["place"], x - a, mode, out), spec=spec)
    else:
        ctx.count("evil_refused")
        ctx.sample(dict(attack=att, size=size, bits=nb, place=spec["place"], verdict=repr(out), inside=inside_now))


def digits(rng, v, n):
    """Numbers for n bit commitments that are to add up to v."""
    bits = lambda m, k: [m >> i & 1 for i in range(k)]
    how = rng.choice(["honest", "top", "first", "any", "longer", "shorter", "other", "absorb", "wrap", "zero"])
    if how == "honest":
        return bits(v % 2 ** n, n)
    if how == "top":
        low = v % 2 ** (n - 1)
        return bits(low, n - 1) + [(v - low) >> (n - 1)]
    if how == "first":
        return [v] + [0] * (n - 1)
    if how == "absorb" or how == "any":
        ds = [rng.randrange(2) if how == "absorb" else rng.randrange(-2, 4) for _ in range(n)]
        j = rng.randrange(n)
        rest = sum(d << i for i, d in enumerate(ds) if i != j)
        ds[j] = (v - rest) * pow(2 ** j, -1, formal.Q)
        return ds
    if how == "longer":
        k = n + rng.choice([1, 2, 3, n])
        return bits(v % 2 ** k, k)
    if how == "shorter":
        k = rng.randrange(0, n)
        return bits(v % 2 ** k, k)
    if how == "wrap":
        return bits(v % formal.Q, 256)
    return bits(0 if how == "zero" else rng.randrange(2 ** n), n)


def openings(rng, leaf, F):
    """A precommitment for the leaf, whose commitment is a formal sum of g and h."""
    v, r = (leaf.com.v.get(k, 0) for k in "gh")
    v = v - formal.Q if v > formal.Q // 2 else v
    ds = digits(rng, v, leaf.num_bits)
    rs = [rng.randrange(formal.Q) for _ in ds]
    Cs = [F.combo({"g": d, "h": k}) for d, k in zip(ds, rs)]
    rand = sum(k << i for i, k in enumerate(rs)) - r
    miss = leaf.com.v.get("z", 0)
    if miss and Cs:
        j = rng.randrange(len(Cs))
        Cs[j] = Cs[j] + miss * pow(2 ** j, -1, formal.Q) * F.sym("z")
    t = rng.random()
    if t < 0.05:
        rand += 1
    elif t < 0.1 and Cs:
        Cs[rng.randrange(len(Cs))] += rng.randrange(1, 5) * rng.choice([leaf.g, leaf.h])
    return dict(Cs=Cs, rand=bn(rand % formal.Q))


def formal_case(ctx, rng):
    """The attacker of zkmon.formal against values out of range, or commitments with an unknown part."""
    F = formal.FGroup()
    g, h, z = F.sym("g"), F.sym("h"), F.sym("z")
    two = rng.random() < 0.4
    n = rng.choice([1, 2, 3, 4, 7])
    size = 2 ** n if two else rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 0, -1, -4])
    a = 0 if two else rng.choice([0, 0, 1, -2, rng.randrange(-100, 100), 2 ** 70])
    inside = rng.random() < 0.25
    inside = inside and size > 0
    off = rng.randrange(size) if inside else rng.choice([-1, -2, size, size + 1, -size, 2 * size, 2 ** n, 2 ** (n + 1) - 1, 2 ** (size - 1).bit_length() - 1, 10 ** 6] + ([0, 0, size // 2] if size <= 0 else []))
    inside = 0 <= off < size
    v, r = a + off, rng.randrange(formal.Q)
    com = v * g + r * h
    true = inside
    if size <= 0:
        ctx.count("formal_empty")
    if rng.random() < 0.2:
        com, true = com + rng.randrange(1, formal.Q) * z, False
    where = rng.choice(["bare", "and", "or", "bound"])
    w, at = v, rng.randrange(2)
    if where == "bound" and not two and rng.random() < 0.5:
        w, true = v + rng.choice([1, -1, 2 ** n]), False

    def build(x=None, y=None):
        sx, sy = Secret(x), Secret(y)
        leaf = PowerTwoRangeStmt(com, g, h, n, sx, sy) if two else RangeStmt(com, g, h, a, a + size, sx, sy)
        if where == "bare":
            return leaf
        if where == "bound":
            o = DLRep(w * h, (Secret() if two else sx) * h)
        else:
            o = DLRep(3 * g if where == "and" else z, Secret() * g)
        return (OrProofStmt if where == "or" else AndProofStmt)(*([o, leaf] if at else [leaf, o]))

    def attempt():
        if true and rng.random() < 0.5:
            leaf = build(v, r) if where == "bare" else build(v, r).subproofs[at]
            pc = leaf.get_prover().precommit()
        elif two:
            pc = openings(rng, next(iter(formal.find(build(), "com", "num_bits"))), F)
        else:
            s = build() if where == "bare" else build().subproofs[at]
            pc = [openings(rng, p, F) if hasattr(p, "num_bits") else None for p in s.subproofs]
        return pc

    made = drive.attempt(attempt)
    if made.err is not None:
        ctx.count("formal_inapplicable")
        return
    pc = made.value
    if where != "bare":
        pc = [None, pc] if at else [pc, None]
    formal.judge(ctx, "%s %s inside=%s" % ("r2" if two else "rg", where, inside), build, pc, rng, not true, "value at %d of %d, a=%d, com=%r, bound to %s" % (off, size, a, com, w))
