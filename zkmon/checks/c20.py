"""C20: pairing-group wrappers behave as additive groups with a bilinear map."""
from zkmon import core, drive, model
from zkmon.model import bn, to_int, order

from bplib.bp import BpGroup
from petlib.pack import encode, decode
from zksk.pairings import BilinearGroupPair

ID = "C20"
TECHNIQUE = "random programs over points of G1, G2 and GT in lockstep with integers modulo the order; every result is compared with bplib's own element for that integer, all live points are monitored for changes"
RULE = (
    "programs of 6 to 30 operations (multiples by integers of any size and sign, sums, differences, weighted sums, pairings, encoding and decoding, other instances of the pair of groups), "
    "and identities of the groups; distinct by program"
)
QUICK, THOROUGH = 900, 40000
REQUIRED = [
    "points_compared", "pairings", "identity_results", "negative_multiples", "huge_multiples", "zero_multiples", "order_multiples", "decoded", "other_instance",
    "wsum", "sum", "equal_pairs", "unequal_pairs", "length_mismatch_refused", "hashed", "int_multiples",
]

_inst = []
_ref = {}


def instances():
    if not _inst:
        _inst.append(model.pair_ctx(0))
        _inst.append(BilinearGroupPair())
        _inst.append(BilinearGroupPair(BpGroup()))
    return _inst


def ref(kind, d):
    """Bytes of the point d times the generator, made with bplib only."""
    q = order("G1")
    d %= q
    key = kind, d
    if key not in _ref:
        if len(_ref) > 3000:
            _ref.clear()
        bp = instances()[0].bpgp
        g1, g2 = bp.gen1(), bp.gen2()
        if kind == "G1":
            e = g1.inf(bp) if d == 0 else g1 * bn(d)
        elif kind == "G2":
            e = g2.inf(bp) if d == 0 else g2 * bn(d)
        else:
            t = bp.pair(g1, g2)
            e = t.one(bp) if d == 0 else t ** bn(d)
        _ref[key] = e.export()
    return _ref[key]


def scalar(ctx, rng, q):
    t = rng.random()
    if t < 0.5:
        v = rng.choice([0, 0, 1, -1, 2, -2, q - 1, q, q, q + 1, 2 * q, -q, -q - 1, 3 * q + 5, 2 ** 32, 2 ** 64, 2 ** 256, -(2 ** 300), q // 2])
    elif t < 0.7:
        v = rng.randrange(-1000, 1000)
    else:
        v = rng.randrange(-q, q)
    if v % q == 0:
        ctx.count("order_multiples" if v else "zero_multiples")
    if v < 0:
        ctx.count("negative_multiples")
    if abs(v) > q + 1:
        ctx.count("huge_multiples")
    if rng.random() < 0.4:
        ctx.count("int_multiples")
        return v, v
    return v, bn(v)


class Run:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.q = order("G1")
        self.L = []  # [kind, discrete log, point, bytes]
        self.ops = []

    def bad(self, mech, detail):
        self.ctx.violation(mech, "operations %s: %s" % (self.ops, detail))
        return False

    def add(self, kind, d, pt):
        d %= self.q
        r = ref(kind, d)
        b = pt.export()
        self.ctx.count("points_compared")
        if d == 0:
            self.ctx.count("identity_results")
        inst = self.rng.choice(instances())
        inf = getattr(inst, kind).infinite()
        # bplib's bytes of equal elements are equal, and the wrapper's equality agrees
        if b != r:
            return self.bad("point-differs", "%s point for %d is %s, not %s" % (kind, d, b.hex(), r.hex()))
        if (pt == inf) != (d == 0) or (pt != inf) == (d == 0):
            return self.bad("identity-comparison", "%s point for %d: ==%s !=%s" % (kind, d, pt == inf, pt != inf))
        if not (pt.group == getattr(inst, kind)) or any(pt.group == getattr(inst, k) for k in ("G1", "G2", "GT") if k != kind):
            return self.bad("group-comparison", "%s point's group is %r" % (kind, pt.group))
        self.L.append([kind, d, pt, b])
        if len(self.L) > 14:
            self.L.pop(self.rng.randrange(len(self.L)))
        return True

    def some(self, kind=None):
        c = [x for x in self.L if kind is None or x[0] == kind]
        return self.rng.choice(c) if c else None

    def fresh(self):
        r = self.rng
        kind = r.choice(["G1", "G1", "G2", "GT"])
        inst = r.choice(instances())
        g = getattr(inst, kind)
        if r.random() < 0.12:
            self.ops.append("inf" + kind)
            return self.add(kind, 0, g.infinite())
        if r.random() < 0.5:
            self.ops.append("rnd" + kind)
            d = r.randrange(self.q)
            return self.add(kind, d, bn(d) * g.generator())
        self.ops.append("gen" + kind)
        return self.add(kind, 1, g.generator())

    def step(self):
        r, q, ctx = self.rng, self.q, self.ctx
        if not self.L:
            return self.fresh()
        t = r.random()
        kind, d, p, _ = self.some()
        if t < 0.1:
            return self.fresh()
        if t < 0.35:
            v, w = scalar(ctx, r, q)
            self.ops.append("mul")
            return self.add(kind, d * v, w * p if r.random() < 0.6 else p * w)
        if t < 0.5:
            k2, d2, p2, _ = self.some(kind)
            self.ops.append("add")
            return self.add(kind, d + d2, p + p2)
        if t < 0.58:
            if kind == "GT":
                self.ops.append("neg")
                return self.add(kind, -d, -1 * p)
            k2, d2, p2, _ = self.some(kind)
            self.ops.append("sub")
            return self.add(kind, d - d2, p - p2)
        if t < 0.68:
            xs = [self.some(kind) for _ in range(r.choice([0, 1, 2, 3, 6]))]
            self.ops.append("sum%d" % len(xs))
            ctx.count("sum")
            return self.add(kind, sum(x[1] for x in xs), getattr(r.choice(instances()), kind).sum([x[2] for x in xs]))
        if t < 0.78:
            xs = [self.some(kind) for _ in range(r.choice([0, 1, 2, 3, 4] if kind != "GT" else [1, 2]))]
            ws = [scalar(ctx, r, q) for _ in xs]
            g = getattr(r.choice(instances()), kind)
            self.ops.append("wsum%d" % len(xs))
            ctx.count("wsum")
            if r.random() < 0.2:
                extra = drive.attempt(g.wsum, [w for _, w in ws] + [bn(1)] * r.choice([1, 2]), [x[2] for x in xs])
                short = drive.attempt(g.wsum, [w for _, w in ws], [x[2] for x in xs] + [p])
                if extra.err is None or short.err is None:
                    return self.bad("wsum-of-unequal-lengths", "%s: %r, %r" % (kind, extra, short))
                ctx.count("length_mismatch_refused", 2)
            return self.add(kind, sum(v * x[1] for (v, _), x in zip(ws, xs)), g.wsum([w for _, w in ws], [x[2] for x in xs]))
        if t < 0.9:
            a, b = self.some("G1"), self.some("G2")
            if a is None or b is None:
                return self.fresh()
            self.ops.append("pair")
            ctx.count("pairings")
            return self.add("GT", a[1] * b[1], a[2].pair(b[2]))
        self.ops.append("dec")
        enc = encode(p)
        x = decode(enc)
        ctx.count("decoded")
        if type(x) is not type(p) or not (x == p) or not (p == x) or repr(x) != repr(p) or encode(x) != enc:
            return self.bad("decoded-differs", "%s point for %d: %r and %r" % (kind, d, p, x))
        ctx.count("other_instance")
        return self.add(kind, d, x)

    def monitor(self):
        r = self.rng
        for kind, d, p, b in self.L:
            if p.export() != b:
                return self.bad("point-changed", "%s point for %d" % (kind, d))
        kind, d, p, _ = self.some()
        kind2, d2, p2, _ = self.some(kind)
        same = d == d2
        self.ctx.count("equal_pairs" if same else "unequal_pairs")
        if (p == p2) != same or (p != p2) == same or (repr(p) == repr(p2)) != same or (encode(p) == encode(p2)) != same:
            return self.bad("equality-inconsistent", "%s points for %d and %d: == %s, != %s, repr %s %s" % (kind, d, d2, p == p2, p != p2, p, p2))
        return True


def program(ctx, rng, i):
    run = Run(ctx, rng)
    n = rng.randrange(6, 31)
    for _ in range(n):
        if run.step() is False or not run.monitor():
            return
    ctx.eval(tuple(run.ops), n=len(run.ops))
    ctx.sample(dict(operations=run.ops, results=[(k, str(d)) for k, d, _, _ in run.L[:4]]))


def laws(ctx, rng, i):
    """Identities between points whose logarithms are unknown."""
    q = order("G1")
    inst, inst2 = rng.sample(instances(), 2)
    G1, G2, GT = inst.groups()
    for g in (G1, G2, GT):
        if to_int(g.order()) != q:
            return ctx.violation("order-differs", "%s" % g.order())
    s, s2 = (bytes(rng.randrange(256) for _ in range(rng.choice([1, 3, 32, 100]))) for _ in range(2))
    a, a2, b = G1.hash_to_point(s), G1.hash_to_point(s2), inst2.G1.hash_to_point(s)
    ctx.count("hashed")
    h = bn(rng.randrange(1, q)) * G2.generator()
    h2 = bn(rng.randrange(1, q)) * inst2.G2.generator()
    x, y = scalar(ctx, rng, q), scalar(ctx, rng, q)
    e = a.pair(h)
    checks = {
        "hash deterministic": a == b and encode(a) == encode(b),
        "hash distinct": (a == a2) == (s == s2),
        "hash not the identity": a != G1.infinite(),
        "hash has the order": bn(q) * a == G1.infinite() and bn(q - 1) * a + a == G1.infinite(),
        "commutative": a + a2 == a2 + a and h + h2 == h2 + h,
        "associative": (a + a2) + b == a + (a2 + b) and (h + h2) + h == h + (h2 + h),
        "inverse": a + -1 * a == G1.infinite() and h + -1 * h == G2.infinite() and e + -1 * e == GT.infinite(),
        "difference": (a - a2) + a2 == a and (h - h2) + h2 == h,
        "scalars add": x[1] * a + y[1] * a == bn(x[0] + y[0]) * a and x[1] * h + y[1] * h == bn(x[0] + y[0]) * h and x[1] * e + y[1] * e == bn(x[0] + y[0]) * e,
        "scalars multiply": x[1] * (y[1] * a) == bn(x[0] * y[0]) * a and x[1] * (y[1] * h) == bn(x[0] * y[0]) * h and x[1] * (y[1] * e) == bn(x[0] * y[0]) * e,
        "distributive": x[1] * (a + a2) == x[1] * a + x[1] * a2,
        "left linear": (a + a2).pair(h) == a.pair(h) + a2.pair(h) and (x[1] * a).pair(h) == x[1] * e,
        "right linear": a.pair(h + h2) == a.pair(h) + a.pair(h2) and a.pair(y[1] * h) == y[1] * e,
        "bilinear": (x[1] * a).pair(y[1] * h) == bn(x[0] * y[0]) * e,
        "not degenerate": e != GT.infinite(),
        "identities pair to the identity": G1.infinite().pair(h) == GT.infinite() and a.pair(G2.infinite()) == GT.infinite(),
        "order of GT": bn(q) * e == GT.infinite() and bn(q - 1) * e != GT.infinite(),
        "instances agree": b.pair(h) == e and encode(b.pair(h)) == encode(e),
        "groups differ": not (G1 == G2) and not (G1 == GT) and not (G2 == GT) and G1 == inst2.G1 and G2 == inst2.G2 and GT == inst2.GT,
    }
    ctx.eval(("laws", s, x[0], y[0]), n=len(checks))
    for name, ok in sorted(checks.items()):
        if not ok:
            ctx.violation("law-fails", "%s; scalars %s %s, hashed %s %s" % (name, x[0], y[0], s.hex(), s2.hex()))
            return


def case(ctx, rng, i):
    if i % 4 == 3:
        laws(ctx, rng, i)
    else:
        program(ctx, rng, i)
