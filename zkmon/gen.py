"""Random specs: wide, with boundary values, heavy tails in size and depth, shared secrets."""
from zkmon import model
from zkmon.model import order, leaf_secrets, provable, truth, walk, kids, known

GROUPS_W = [("p224", 10), ("p256", 8), ("secp256k1", 2), ("bp512", 1), ("p384", 1), ("p192", 1), ("G1", 1.0), ("G2", 0.35), ("GT", 0.2)]
KINDS_W = [("dl", 10), ("ne", 3), ("r2", 1.2), ("rg", 1.5), ("bbs", 0.35), ("plain", 1), ("blind", 1.6)]


def wchoice(rng, pairs):
    t = rng.random() * sum(w for _, w in pairs)
    for v, w in pairs:
        t -= w
        if t <= 0:
            return v
    return pairs[-1][0]


class Gen:
    def __init__(self, rng, kinds=None, groups=None, max_depth=4, max_leaves=None, p_leaf=0.35, ors=True, others=True, values=None, plain_forms=("and", "single", "or"), homog=0.6, shared_or=True, allow_missing=True, twins=0):
        self.rng = rng
        self.twins = twins
        self.kinds = kinds or KINDS_W
        self.groups = groups or GROUPS_W
        if max_leaves is None:
            max_leaves = wchoice(rng, [(1, 1), (2, 3), (3, 3), (4, 2), (6, 1), (12, 0.35), (30, 0.06)])
        self.max_depth, self.max_leaves, self.p_leaf = max_depth, max_leaves, p_leaf
        self.ors, self.others = ors, others
        self.secrets = []
        self.leaves = 0
        self.values = values
        self.plain_forms = plain_forms
        self.shared_or = shared_or
        self.allow_missing = allow_missing
        # mostly one group for all of a statement, so that secrets can be shared
        self.main_group = wchoice(rng, self.groups) if rng.random() < homog else None

    # ------------------------------------------------------------ secrets

    def value(self, q):
        r = self.rng
        if self.values:
            return r.choice(self.values)
        t = r.random()
        if t < 0.35:
            return r.choice([0, 1, 2, 3, -1, -2, q - 1, q - 2, q, q + 1, 2 * q, 2 * q + 3, -q, -q - 1, q // 2, (q + 1) // 2, 2 ** 63, 2 ** 64 - 1, 2 ** 128, 2 ** 128 - 1])
        if t < 0.55:
            return r.randrange(-100, 1000)
        if t < 0.95:
            return r.randrange(q)
        return r.randrange(-(2 ** 600), 2 ** 600)

    def new_secret(self, q, v=None, unknown=False, init=False):
        r = self.rng
        s = dict(q=q, v=None if unknown else (self.value(q) if v is None else v))
        s["ty"] = r.choice(["int", "bn"])
        s["how"] = r.choice(["init", "dict"])
        if init:
            s["init"] = True
        if r.random() < 0.15:
            s["name"] = "n%d_%s" % (len(self.secrets), r.choice(["x", "y", "x y", "s\u00e9cret", "0"]))
        elif r.random() < 0.12:
            s["copied"] = r.randrange(1, 4)  # see model.build
        if self.twins and r.random() < self.twins:
            s["twins"] = True
        self.secrets.append(s)
        return len(self.secrets) - 1

    def pick(self, q, pool, unknown=False, init=False, cond=None):
        """A secret for the order q: one of the pool, or a new one that joins it."""
        r = self.rng
        if not unknown and r.random() < 0.45:
            c = [i for i in pool if self.secrets[i]["q"] == q and self.secrets[i]["v"] is not None and (cond is None or cond(self.secrets[i]["v"]))]
            if c:
                i = r.choice(c)
                if init:
                    self.secrets[i]["init"] = True
                return i
        i = self.new_secret(q, unknown=unknown, init=init)
        if cond is not None and not unknown:
            while not cond(self.secrets[i]["v"]):
                self.secrets[i]["v"] = r.randrange(256)
        pool.append(i)
        return i

    def base(self, q):
        r = self.rng
        t = r.random()
        if t < 0.1:
            return 1
        if t < 0.13:
            return r.choice([2, q - 1])
        return r.randrange(1, q)

    def grp(self, kind=None):
        if kind in ("bbs",):
            return "G1"
        g = self.main_group if self.main_group and self.rng.random() < 0.85 else wchoice(self.rng, self.groups)
        if kind in ("r2", "rg", "ne", "blind", "plain") and g in ("G2", "GT"):
            g = "p224" if g == "GT" else g
        return g

    # ------------------------------------------------------------ leaves
    # mode: 'true' (satisfied, provable), 'sim' (flagged to be simulated; satisfied or not; values
    # known or not), 'missing' (some values not known to the prover)

    def leaf(self, pool, mode):
        r = self.rng
        self.leaves += 1
        kinds = self.kinds
        if mode == "missing":
            kinds = [(k, w) for k, w in kinds if k not in ("plain", "blind")]
        k = wchoice(r, kinds)
        n = getattr(self, "leaf_" + k)(pool, mode)
        if mode == "sim":
            n["sim"] = True
            if k in ("dl", "ne", "bbs") and r.random() < 0.5:
                n["simctor"] = True
        return n

    def flags(self, mode):
        """(unknown secrets?, satisfied?)"""
        r = self.rng
        if mode == "true":
            return False, True
        if mode == "missing":
            return True, r.random() < 0.3
        return r.random() < 0.5, r.random() < 0.4

    def leaf_dl(self, pool, mode):
        r = self.rng
        g = self.grp()
        q = order(g)
        unk, sat = self.flags(mode)
        nt = min(r.choice([1, 1, 1, 2, 2, 3, 4, 6]) if r.random() < 0.95 else r.randrange(7, 24), 24 if g in ("p224", "p256") else 5)
        t = []
        u = r.randrange(nt)
        for j in range(nt):
            s = self.pick(q, pool, unknown=unk and (j == u or r.random() < 0.3))
            b = r.choice(t)[1] if t and r.random() < 0.06 else self.base(q)
            t.append([s, b])
        if unk:
            y = r.randrange(q)
        else:
            y = sum(self.secrets[s]["v"] * b for s, b in t) % q
            if not sat:
                y = (y + r.choice([1, q - 1, r.randrange(1, q)])) % q
        return dict(k="dl", g=g, t=t, y=y, w=r.random() < 0.5)

    def leaf_ne(self, pool, mode):
        r = self.rng
        g = self.grp("ne")
        q = order(g)
        unk, sat = self.flags(mode)
        x = self.pick(q, pool, unknown=unk)
        xv = r.randrange(q) if unk else self.secrets[x]["v"]
        h0, h1 = self.base(q), self.base(q)
        H0 = xv * h0 % q
        H1 = (xv * h1 + r.choice([1, q - 1, 2, r.randrange(1, q)])) % q
        if r.random() < 0.08 and xv % q:
            H1 = 0
        if not sat:
            if r.random() < 0.5:
                H1 = xv * h1 % q
            else:
                H0 = (H0 + r.randrange(1, q)) % q
        return dict(k="ne", g=g, v=[H0, h0], i=[H1, h1], x=x, bind=r.random() < 0.7)

    def rnd(self, q, pool, unk):
        return self.pick(q, pool, unknown=unk, init=True)

    def leaf_r2(self, pool, mode):
        r = self.rng
        g = self.grp("r2")
        q = order(g)
        unk, sat = self.flags(mode)
        nb = r.choice([1, 1, 2, 3, 4, 5, 8]) if r.random() < 0.93 else r.choice([16, 33])
        if g in ("G1", "G2", "p384", "bp512"):
            nb = min(nb, 3)
        x = self.pick(q, pool, unknown=unk, init=True, cond=lambda v: 0 <= v < 2 ** nb)
        if not unk and not (0 <= self.secrets[x]["v"] < 2 ** nb):
            raise AssertionError
        rr = self.rnd(q, pool, unk)
        gg, hh = r.sample([r.randrange(1, q) for _ in range(4)], 2)
        if unk:
            c = r.randrange(q)
        else:
            c = (self.secrets[x]["v"] * gg + self.secrets[rr]["v"] * hh) % q
            if not sat:
                c = (c + r.randrange(1, q)) % q
        return dict(k="r2", g=g, c=c, gg=gg, hh=hh, n=nb, x=x, r=rr)

    def leaf_rg(self, pool, mode):
        r = self.rng
        g = self.grp("rg")
        q = order(g)
        unk, sat = self.flags(mode)
        x = self.pick(q, pool, unknown=unk, init=True)
        rr = self.rnd(q, pool, unk)
        xv = r.randrange(100) if unk else self.secrets[x]["v"]
        size = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 100, 256]) if r.random() < 0.9 else r.choice([2 ** 16, 2 ** 20 + 1])
        if g in ("G1", "G2", "p384", "bp512"):
            size = min(size, 5)
        off = r.choice([0, size - 1, r.randrange(size)])
        if not sat and r.random() < 0.7:
            off = r.choice([-1, size, size + 1, -5])
        a = xv - off
        gg, hh = r.sample([r.randrange(1, q) for _ in range(4)], 2)
        if unk:
            c = r.randrange(q)
        else:
            c = (self.secrets[x]["v"] * gg + self.secrets[rr]["v"] * hh) % q
            if not sat and 0 <= off < size:
                c = (c + r.randrange(1, q)) % q
        bnp = r.random() < 0.5
        return dict(k="rg", g=g, c=c, gg=gg, hh=hh, a=a, b=a + size, x=x, r=rr, bnp=bnp)

    def leaf_bbs(self, pool, mode):
        r = self.rng
        q = order("G1")
        unk, sat = self.flags(mode)
        nm = r.choice([1, 2, 2, 3, 5])
        nosig = unk and r.random() < 0.5
        ms = [self.pick(q, pool, unknown=unk and not (nosig and r.random() < 0.5)) for _ in range(nm)]
        bind = r.random() < 0.6
        key = r.randrange(3)
        sm = [r.randrange(q) if self.secrets[s]["v"] is None else self.secrets[s]["v"] % q for s in ms]
        sig = None
        if not nosig:
            sig = dict(key=key, m=sm, e=r.randrange(q), s=r.randrange(q))
            if not sat:
                if r.random() < 0.5:
                    sig["bad"] = r.choice(["A", "e", "s"])
                else:
                    sig["m"] = [(m + 1) % q for m in sm]
        elif not any(self.secrets[s]["v"] is None for s in ms):
            pass
        n = dict(k="bbs", g="G1", key=key, m=ms, bind=bind, sig=sig)
        if bind:
            n["e"], n["sv"] = self.new_secret(q, unknown=True), self.new_secret(q, unknown=True)
            if r.random() < 0.3:
                # left from another signature
                for s in (n["e"], n["sv"]):
                    self.secrets[s]["stale"] = r.randrange(q)
        return n

    def leaf_plain(self, pool, mode):
        r = self.rng
        g = self.grp("plain")
        q = order(g)
        _, sat = self.flags(mode)
        shape = r.choice(self.plain_forms)
        eqs = []
        p2 = pool if shape != "or" else []
        for _ in range(1 if shape == "single" else r.choice([2, 2, 3])):
            t = [[self.pick(q, p2), self.base(q)] for _ in range(r.choice([1, 2]))]
            y = sum(self.secrets[s]["v"] * b for s, b in t) % q
            if not sat:
                y = (y + r.randrange(1, q)) % q
            eqs.append([y, t])
        return dict(k="plain", g=g, shape=shape, eqs=eqs)

    def leaf_blind(self, pool, mode):
        r = self.rng
        g = self.grp("blind")
        q = order(g)
        _, sat = self.flags(mode)
        x = self.pick(q, pool)
        gg = self.base(q)
        y = self.secrets[x]["v"] * gg % q
        if not sat:
            y = (y + r.randrange(1, q)) % q
        from zkmon.prims import CONTAINERS

        return dict(k="blind", g=g, y=y, gg=gg, hh=self.base(q), kk=self.base(q), x=x, cont=r.choice(CONTAINERS))

    # ------------------------------------------------------------ trees

    def node(self, depth, pool, mode, under_and):
        """
        mode 'true': satisfied and provable. 'sim': flagged. 'missing': not provable for lack of values.
        Secrets of an or-proof below an and-proof stay inside of it.
        """
        r = self.rng
        if depth <= 0 or self.leaves + 1 >= self.max_leaves or r.random() < self.p_leaf:
            return self.leaf(pool, mode)
        k = r.choice(["and", "or"]) if self.ors else "and"
        nk = min(r.choice([2, 2, 2, 3, 3, 4, 5]), max(2, self.max_leaves - self.leaves + 1))
        if r.random() < 0.02:
            nk = r.randrange(6, 13)
        return self.compose(k, nk, depth, pool, mode, under_and)

    def compose(self, k, nk, depth, pool, mode, under_and):
        r = self.rng
        if k == "and":
            if mode == "missing":
                j = r.randrange(nk)
                modes = ["missing" if i == j or r.random() < 0.2 else "true" for i in range(nk)]
            elif mode == "sim":
                modes = [r.choice(["true", "sim", "true"]) for _ in range(nk)]
            else:
                modes = ["true"] * nk
            subs = [self.node(depth - 1, pool, m, True) for m in modes]
        else:
            if mode == "missing":
                modes = [r.choice(["missing", "missing", "sim"]) for _ in range(nk)]
                if not self.allow_missing:
                    modes = ["sim"] * nk
            elif mode == "sim":
                modes = [r.choice(["true", "sim", "missing"] if self.allow_missing else ["true", "sim"]) for _ in range(nk)]
            else:
                oth = ["sim", "missing"] if self.allow_missing else ["sim"]
                if not self.others:
                    oth = ["true"]
                j = r.randrange(nk)
                modes = ["true" if i == j or r.random() < 0.25 else r.choice(oth) for i in range(nk)]
            p = [] if under_and else (pool if self.shared_or else [])
            subs = [self.node(depth - 1, p, m, False) for m in modes]
        n = dict(k=k, s=subs)
        # operators flatten: only where the tree stays as it is written here (a range proof is a conjunction)
        if not any(c["k"] == k or (k == "and" and c["k"] == "rg") for c in subs) and r.random() < 0.6:
            n["op"] = "chain"
        if mode == "sim":
            n["sim"] = True
        return n

    # ------------------------------------------------------------ shapes that random growth does not reach

    def terms(self, pool, n):
        """A relation of n terms."""
        r = self.rng
        q = order("p224")
        t = [[self.pick(q, pool), self.base(q)] for _ in range(n)]
        self.leaves += 1
        return dict(k="dl", g="p224", t=t, y=sum(self.secrets[x]["v"] * b for x, b in t) % q, w=r.random() < 0.5)

    def extreme(self, root):
        r = self.rng
        self.main_group = self.main_group or r.choice(["p224", "p256"])
        what = r.choice(["deep", "deep", "wide", "wide", "terms"])
        if what == "terms" and not root:
            return self.terms([], r.choice([40, 64, 65, 100, 130, 257, 300]))
        if what != "deep":
            k = root or r.choice(["and", "or"]) if self.ors else "and"
            few, self.p_leaf = self.p_leaf, 0.97
            n = self.compose(k, r.choice([16, 17, 20, 32, 33, 40, 64, 65]), 1, [], "true", False)
            self.p_leaf = few
            if what == "terms":
                n["s"][r.randrange(len(n["s"]))] = self.terms([], r.choice([40, 64, 65]))
            return n
        # connectives down to the bottom, a leaf or two beside each
        depth = r.choice([6, 8, 10, 12, 15, 18])
        ks = [root or r.choice(["and", "or"])] + [r.choice(["and", "or"]) for _ in range(depth - 1)]
        if not self.ors:
            ks = ["and"] * depth

        def down(d, pool, under_and):
            k = ks[d]
            p = pool if k == "and" else [] if under_and or not self.shared_or else pool
            below = (lambda: self.leaf(p, "true")) if d + 1 == depth else (lambda: down(d + 1, p, k == "and"))
            beside = []
            for _ in range(r.choice([1, 1, 1, 2])):
                m = "true" if k == "and" else r.choice(["sim", "sim", "missing" if self.allow_missing else "sim", "true"] if self.others else ["true"])
                beside.append(self.leaf(p, m))
            subs = beside + [None]
            r.shuffle(subs)
            subs[subs.index(None)] = below()
            n = dict(k=k, s=subs)
            if not any(c["k"] == k or (k == "and" and c["k"] == "rg") for c in subs) and r.random() < 0.6:
                n["op"] = "chain"
            return n

        return down(0, [], False)

    def spec(self, root=None, nk=None, extreme=False):
        if extreme:
            n = self.extreme(root)
        elif root in ("and", "or"):
            n = self.compose(root, nk or self.rng.choice([2, 2, 3, 4]), self.max_depth, [], "true", False)
        else:
            n = self.node(self.max_depth, [], "true", False)
        spec = dict(n=n, secrets=self.secrets, vnames=self.rng.random() < 0.5)
        vmarks(self.rng, spec)
        return spec


def vmarks(rng, spec, often=0.2):
    """Nodes that are marked as simulated in the verifier's copy, where it must not matter."""
    spec.pop("vsim", None)
    if rng.random() < often:
        p = rng.choice([0.2, 0.5, 1])
        spec["vsim"] = [list(path) for _, path in walk(spec["n"]) if rng.random() < p]
    return spec


def gen_spec(rng, root=None, extreme=0, **kw):
    """A spec that an honest prover can prove: whatever provable disjuncts it picks hold."""
    big = extreme and rng.random() < extreme
    if big:
        # mostly cheap leaves
        kinds = [(k, w if k == "dl" else w / 4) for k, w in kw.get("kinds") or KINDS_W if k not in ("bbs",)]
        kw = dict(kw, kinds=kinds, groups=[("p224", 5), ("p256", 3), ("p192", 1)], homog=1)
    for _ in range(50):
        spec = Gen(rng, **kw).spec(root, extreme=big)
        if provable(spec, spec["n"]) and truth(spec, spec["n"]) is True and composition_ok(spec):
            if big:
                spec["extreme"] = True
            return spec
    raise RuntimeError("generator failed")


# ---------------------------------------------------------------- composition rules (as documented)


def node_secret_occ(n):
    """Secrets of a statement as composition sees them: [(sid, order)], with repetition."""
    k = n["k"]
    if k in ("and", "or"):
        return [x for c in n["s"] for x in node_secret_occ(c)]
    q = order(n["g"])
    if k == "ne" and not n["bind"]:
        return []
    if k == "r2":
        return []
    if k == "bbs":
        return [(s, q) for s in ([n["e"], n["sv"]] if n["bind"] else []) + n["m"]]
    if k == "rg":
        return [(n["x"], q), (n["r"], q)]
    return [(s, q) for s in leaf_secrets(n)]


def composition_ok(spec):
    """No secret over groups of different orders; none both inside and outside of an or-proof."""
    occ = {}
    for s, q in node_secret_occ(spec["n"]):
        if occ.setdefault(s, q) != q:
            return False
    return True


# ---------------------------------------------------------------- breaking a spec


def falsify_leaf(rng, spec, n):
    """Change the public part of a provable, satisfied leaf so that the prover's values do not satisfy it."""
    r = rng
    k = n["k"]
    q = order(n["g"])
    d = r.choice([1, q - 1, 2, r.randrange(1, q), r.randrange(1, q)])
    if k == "dl":
        c = r.random()
        if c < 0.6:
            n["y"] = (n["y"] + d) % q
            return "dl:lhs"
        if c < 0.7:
            n["y"] = (-n["y"]) % q
            return "dl:neg"
        if c < 0.8:
            n["y"] = 0
            return "dl:inf"
        t = r.choice(n["t"])
        t[1] = (t[1] + d) % q or 1
        return "dl:base"
    if k == "ne":
        x = spec["secrets"][n["x"]]["v"]
        if r.random() < 0.6:
            n["i"][0] = x * n["i"][1] % q
            return "ne:equal"
        n["v"][0] = (n["v"][0] + d) % q
        return "ne:valid_pair"
    if k in ("r2", "rg"):
        if r.random() < 0.3:
            n["c"] = (n["c"] + d * n["gg"]) % q
            return k + ":com"
        if r.random() < 0.15:
            n["c"] = (n["c"] + d * n["hh"]) % q
            return k + ":com_h"
        x = spec["secrets"][n["x"]]["v"]
        if k == "rg":
            size = n["b"] - n["a"]
            off = r.choice([-1, -2, size, size + 1, -(2 ** (size - 1).bit_length()), 2 ** max(1, (size - 1).bit_length())])
            n["a"] = x - off
            n["b"] = n["a"] + size
            return "rg:outside"
        if x >= 2:
            n["n"] = r.randrange(1, x.bit_length())
            return "r2:bits"
        n["c"] = (n["c"] + d * n["gg"]) % q
        return "r2:com"
    if k == "bbs":
        c = r.random()
        if c < 0.5:
            n["sig"]["bad"] = r.choice(["A", "e", "s", "inf"])
            return "bbs:" + n["sig"]["bad"]
        if c < 0.8:
            j = r.randrange(len(n["m"]))
            n["sig"]["m"][j] = (n["sig"]["m"][j] + d) % q
            return "bbs:msg"
        n["sig"]["key"] = n["key"] + 1
        return "bbs:key"
    if k == "plain":
        if n["shape"] == "or":
            for e in n["eqs"]:
                e[0] = (e[0] + d) % q
        else:
            e = r.choice(n["eqs"])
            e[0] = (e[0] + d) % q
        return "plain:lhs"
    if k == "blind":
        n["y"] = (n["y"] + d) % q
        return "blind:lhs"
    raise ValueError(k)


def falsify(rng, spec, n=None, what=None):
    """Break the spec in place, so that whatever the prover picks is not satisfied. Returns what was done."""
    top = n is None
    n = spec["n"] if top else n
    what = [] if what is None else what
    if n["k"] == "and":
        m = [c for c in n["s"]]
        falsify(rng, spec, rng.choice(m), what)
    elif n["k"] == "or":
        for c in n["s"]:
            if provable(spec, c):
                falsify(rng, spec, c, what)
    else:
        for _ in range(50):
            what.append(falsify_leaf(rng, spec, n))
            if truth(spec, n) is False:
                break
    return what
