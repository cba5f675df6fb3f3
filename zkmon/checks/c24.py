"""C24: generators, random numbers and sums."""
import hashlib
import os
import pickle
import random as pyrandom
import sys

from zkmon import core, model, drive, peer
from zkmon.model import bn, to_int, P

from petlib.bn import Bn
from petlib.ec import EcPt, EcGroup
from zksk.pairings import BilinearGroupPair, G1Point
from zksk.primitives.bbsplus import BBSPlusKeypair
from zksk.utils import make_generators, get_random_point, get_random_num, sum_bn_array, ensure_bn

ID = "C24"
TECHNIQUE = "differential monitor of generator derivation across processes, forks and counts; profiler hook records every scalar in sight during derivation and a relation oracle tests them against the group; range/uniformity monitors for random numbers; sums against integer arithmetic"
RULE = "random groups, counts, seeds (negative, zero, huge), bit lengths and arrays; distinct by the arguments"
QUICK, THOROUGH = 320, 12000
REQUIRED = [
    "processes_agree", "prefixes", "in_group", "pairs_distinct", "relations_tested", "scalars_seen", "traced_relations", "fresh_pairs", "fork_fresh", "numbers", "exhausted_ranges",
    "bit_frequencies", "sums", "big_integers", "keypairs", "seed_zero", "seed_negative", "seed_huge", "far_seeds", "many", "same_random_state", "few_bits",
]
GROUPS = ["p224", "p224", "p256", "secp256k1", "p384", "p192", "bp512", "G1", "G1"]
HASHES = ["md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha3_256", "sha3_512", "blake2b", "blake2s"]


_peer = None


def ask(**kw):
    global _peer
    if _peer is None:
        _peer = peer.Peer(pyrandom.randrange(1, 10 ** 6))
    return _peer.ask(**kw)


def export(p):
    return p.export()


def some_seed(ctx, rng):
    k = rng.randrange(6)
    if k == 0:
        ctx.count("seed_zero")
        return 0
    if k == 1:
        ctx.count("seed_negative")
        return -rng.randrange(1, 2 ** rng.randrange(1, 70))
    if k == 2:
        ctx.count("seed_huge")
        return rng.randrange(2 ** 31, 2 ** rng.choice([33, 64, 65, 128, 500]))
    if k == 3:
        return 42
    return rng.randrange(2 ** rng.randrange(1, 31))


def in_group(g, name, p):
    if name == "G1":
        return isinstance(p, G1Point) and P("G1", 0) == bn(model.order("G1")) * p
    return isinstance(p, EcPt) and g.check_point(p) and p.group == g and (bn(model.order(name)) * p).is_infinite()


def check_gens(ctx, name, gens, det):
    """In the group, and pairwise distinct."""
    g = model.group(name)
    seen = {}
    for j, p in enumerate(gens):
        if not in_group(g, name, p):
            ctx.violation("not-in-group", "%s: generator %d is %r" % (det, j, p))
            return False
        if p == P(name, 0):
            ctx.violation("infinite", "%s: generator %d" % (det, j))
            return False
        ctx.count("in_group")
        e = export(p)
        if e in seen:
            ctx.violation("not-distinct", "%s: generators %d and %d are both %r" % (det, seen[e], j, p))
            return False
        seen[e] = j
    ctx.count("pairs_distinct", len(gens) * (len(gens) - 1) // 2)
    return True


def hash_scalars(seed, j, num):
    """Scalars a lazy derivation would use for the generator number j."""
    out = set()
    texts = [b"%d" % (seed + j), b"%d" % j, b"%d" % seed, b"%d%d" % (seed, j), b"%d,%d" % (seed, j), b"%d-%d" % (seed, j), b"%d_%d" % (seed, j)]
    for t in texts:
        for h in HASHES:
            d = hashlib.new(h, t).digest()
            for cut in (d, d[:32], d[:28], d[:16]):
                out.add(int.from_bytes(cut, "big"))
                out.add(int.from_bytes(cut, "little"))
            out.add(int(hashlib.new(h, t).hexdigest(), 16))
    return out


def relations(ctx, name, gens, seed, det, rng):
    """No small or guessable linear relation among the generators and the group's own."""
    q = model.order(name)
    G = P(name, 1)
    pts = [("G", G)] + [("g%d" % j, p) for j, p in enumerate(gens)]
    # small multiples of each other
    bound = 12 if name == "G1" else 40
    table = {}
    for label, p in pts:
        acc = p
        for k in range(1, bound + 1):
            for s, x in ((k, acc), (-k, -1 * acc)):
                e = export(x)
                if e in table and table[e][0] != label:
                    ctx.violation("related", "%s: %d * %s = %d * %s" % (det, s, label, table[e][1], table[e][0]))
                    return False
                table.setdefault(e, (label, s))
                ctx.count("relations_tested")
            acc = acc + p
    # sums and differences of two
    some = pts if len(pts) <= 9 else [pts[0]] + rng.sample(pts[1:], 8)
    pairs = {}
    for a in range(len(some)):
        for b in range(a + 1, len(some)):
            for s in (1, -1):
                x = some[a][1] + (some[b][1] if s == 1 else -1 * some[b][1])
                for y, t in ((x, 1), (-1 * x, -1)):
                    e = export(y)
                    txt = "%d * (%s %+d %s)" % (t, some[a][0], s, some[b][0])
                    ctx.count("relations_tested")
                    hit = table.get(e)
                    if hit is None and e in pairs and t == 1:
                        hit = pairs[e]
                    if hit is not None:
                        ctx.violation("related", "%s: %s = %s" % (det, txt, hit))
                        return False
                    if t == 1:
                        pairs[e] = txt
    # the generator or a neighbour times something derived from the seed
    if seed is not None:
        for j in {rng.randrange(len(gens))}:
            mults = hash_scalars(seed, j, len(gens))
            mults |= {seed + j, seed, j, seed * (j + 1), 2 ** 16 + 1}
            for k in mults:
                ctx.count("relations_tested")
                if k % q and bn(k % q) * G == gens[j]:
                    ctx.violation("related", "%s: generator %d = %d * G" % (det, j, k % q))
                    return False
    return True


class Scalars:
    """Profiler hook: integers (and strings of bytes as integers) in the frames of the derivation."""

    def __init__(self):
        self.found = {}

    def note(self, v, depth=0):
        if isinstance(v, bool) or v is None:
            return
        if isinstance(v, (int, Bn)):
            try:
                self.found.setdefault(to_int(v), len(self.found))
            except Exception:
                return
        elif isinstance(v, (bytes, bytearray)) and 8 <= len(v) <= 80:
            self.found.setdefault(int.from_bytes(v, "big"), len(self.found))
            self.found.setdefault(int.from_bytes(v, "little"), len(self.found))
        elif isinstance(v, (list, tuple)) and depth < 2:
            for y in v[:50]:
                self.note(y, depth + 1)

    def hook(self, frame, event, arg):
        if event not in ("call", "return"):
            return
        code = frame.f_code
        # numbers under construction or destruction are not looked at
        if code.co_name.startswith("__") or code.co_filename.endswith("petlib/bn.py"):
            return
        sys.setprofile(None)
        try:
            if event == "return":
                self.note(arg)
            for v in list(frame.f_locals.values()):
                self.note(v)
        finally:
            sys.setprofile(self.hook)

    def run(self, f):
        sys.setprofile(self.hook)
        try:
            return f()
        finally:
            sys.setprofile(None)


def traced(ctx, rng, i):
    """No scalar in sight while generators are derived relates them to a known base."""
    name = rng.choice(GROUPS)
    g, q = model.group(name), model.order(name)
    num = rng.choice([1, 2, 3, 5])
    seed = some_seed(ctx, rng) if rng.random() < 0.7 else None
    det = "make_generators(%d, %s, seed=%s)" % (num, name, seed)
    s = Scalars()
    gens = s.run(lambda: make_generators(num, group=g, seed=seed))
    ctx.eval(("traced", name, num, seed))
    if not check_gens(ctx, name, gens, det):
        return
    ks = [k % q for k in s.found]
    ks = [k for k in dict.fromkeys(ks) if k]
    ctx.count("scalars_seen", len(ks))
    ks = ks[:200]
    bases = [("G", P(name, 1)), ("first", gens[0])]
    if name == "G1":
        ks = ks[:60]
    for k in ks:
        inv = pow(k, -1, q)
        for label, b in bases:
            for m in (k, inv):
                x = bn(m) * b
                for j, p in enumerate(gens):
                    if m in (1, q - 1) and label == "first" and j == 0:
                        continue
                    ctx.count("traced_relations")
                    if x == p or x == -1 * p:
                        ctx.violation("derived-as-multiple", "%s: generator %d = +-%d * %s, a scalar used while deriving it" % (det, j, m, label))
                        return


def seeded(ctx, rng, i):
    name = rng.choice(GROUPS)
    g = model.group(name)
    num = rng.choice([1, 2, 3, 5, 8, 13, 30] + ([120] if name != "G1" else []))
    if rng.random() < 0.15:
        num = rng.choice([256, 257, 300, 513, 700] + ([1025, 1500] if name != "G1" else []))
        ctx.count("many")
    seed = some_seed(ctx, rng)
    det = "make_generators(%d, %s, seed=%d)" % (num, name, seed)
    default = seed == 42 and rng.random() < 0.5
    kw = {} if default else dict(seed=seed)
    pyrandom.seed(rng.random())
    gens = make_generators(num, group=g, **kw)
    ctx.eval(("seeded", name, num, seed))
    if len(gens) != num:
        ctx.violation("wrong-count", "%s gives %d" % (det, len(gens)))
        return
    if not check_gens(ctx, name, gens, det):
        return
    # another call and count, after other uses
    m = rng.choice([0, 1, num // 2, num, num + 3])
    make_generators(2, group=model.group(rng.choice(GROUPS)), seed=rng.choice([None, seed + 1]))
    pyrandom.seed(rng.random())
    other = make_generators(m, group=g, **kw)
    c = min(m, num)
    if [export(p) for p in other[:c]] != [export(p) for p in gens[:c]]:
        ctx.violation("not-reproducible", "%s: differs from a later call for %d" % (det, m))
        return
    ctx.count("prefixes")
    if rng.random() < 0.3:
        # a separately made group object
        h = EcGroup(model.EC_NIDS[name]) if name != "G1" else BilinearGroupPair().G1
        if [export(p) for p in make_generators(num, group=h, **kw)] != [export(p) for p in gens]:
            ctx.violation("not-reproducible", "%s: another group object" % det)
            return
        ctx.count("other_group_object")
    # another process
    if rng.random() < 0.6:
        single = rng.random() < 0.3
        if single:
            mine = [get_random_point(g, seed=seed + j).export().hex() for j in range(min(num, 8))]
            theirs = ask(op="gens", group=name, num=len(mine), seed=seed, single=True)["pts"]
        else:
            mine = [export(p).hex() for p in gens]
            theirs = ask(op="gens", group=name, num=num, seed=seed)["pts"]
        if mine != theirs:
            ctx.violation("process-dependent", "%s: %s here, %s there" % (det, core.short(mine, 300), core.short(theirs, 300)))
            return
        ctx.count("processes_agree")
    # seeds that are far apart
    dist = rng.choice([num, num + 1, 10 * num, 1000, 10 ** rng.randrange(3, 40), 2 ** rng.randrange(10, 130), 2 ** rng.choice([16, 31, 32, 63, 64])])
    far = seed + rng.choice([1, -1]) * max(num, dist)
    if rng.random() < 0.1 and abs(seed) >= num:
        far = -seed
    apart = make_generators(num, group=g, seed=far)
    if {export(p) for p in apart} & {export(p) for p in gens}:
        ctx.violation("seeds-collide", "%s and seed %d share generators" % (det, far))
        return
    ctx.count("far_seeds")
    relations(ctx, name, gens[:12], seed, det, rng)
    ctx.sample(dict(args=det, first=export(gens[0]).hex()))


def in_child(f):
    """f() in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = pickle.dumps(f())
            os.write(w, out)
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        chunk = os.read(r, 65536)
        if not chunk:
            break
        data += chunk
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(data)


def fresh(ctx, rng, i):
    """Unseeded generators and random numbers repeat nowhere."""
    name = rng.choice(GROUPS)
    g = model.group(name)
    num = rng.choice([1, 2, 4])
    state = rng.random()

    def draw():
        pyrandom.seed(state)
        a = [export(p) for p in make_generators(num, group=g, seed=None)] + [export(get_random_point(g))]
        return a, [to_int(get_random_num(256)), to_int(get_random_num(128))]

    forks = rng.random() < 0.5
    draws = [draw(), draw(), draw()]
    if forks:
        draws += [in_child(draw), in_child(draw)]
        ctx.count("fork_fresh")
    ctx.eval(("fresh", name, num, forks, state))
    ctx.count("same_random_state")
    pts = [e for d in draws for e in d[0]]
    nums = [n for d in draws for n in d[1]]
    det = "unseeded %s, forks %s" % (name, forks)
    if len(set(pts)) != len(pts):
        ctx.violation("not-fresh", "%s: points repeat" % det)
        return
    if len(set(nums)) != len(nums):
        ctx.violation("not-fresh", "%s: numbers repeat: %s" % (det, nums))
        return
    fixed = {export(p) for p in make_generators(16, group=g)} | {export(P(name, k)) for k in range(1, 30)}
    if fixed & set(pts):
        ctx.violation("not-fresh", "%s: a fixed point" % det)
        return
    ctx.count("fresh_pairs", len(pts) * (len(pts) - 1) // 2)
    check_gens(ctx, name, make_generators(num, group=g, seed=None), det)


def few_bits(ctx, rng):
    """Generators of a given number of bits are about as many as these bits allow."""
    bits, num = rng.choice([1, 2, 3, 4, 5, 6, 7, 7, 8, 9, 12, 15, 16, 17, 33, 63, 65, 127]), 48
    name = rng.choice(["p224", "p256", "secp256k1", "G1"])
    seed = rng.choice([None, some_seed(ctx, rng)])
    gens = make_generators(num, group=model.group(name), random_bits=bits, seed=seed)
    got = len({export(p) for p in gens})
    ctx.eval(("few", name, bits, seed is None))
    # of 2^bits values, num draws hit 2^bits (1 - (1 - 2^-bits)^num) on average
    want = 2 ** bits * (1 - (1 - 2.0 ** -bits) ** num) if bits < 40 else num
    if got < want / 2 or bits >= 40 and got < num:
        ctx.violation("few-bits", "%d generators of %d bits in %s (seed %s): %d distinct points, where %.0f were to be expected" % (num, bits, name, seed, got, want))
        return
    if not all(in_group(model.group(name), name, p) for p in gens):
        ctx.violation("not-in-group", "generators of %d bits in %s" % (bits, name))
        return
    ctx.count("few_bits")


def numbers(ctx, rng, i):
    if rng.random() < 0.5:
        bits = rng.choice([1, 2, 3, 4, 5, 6])
        n = 2 ** bits * 40  # a value is missing with probability < 2^bits * e^-40
        got = [to_int(get_random_num(bits)) for _ in range(n)]
        ctx.eval(("range", bits, i))
        bad = [v for v in got if not 0 <= v < 2 ** bits]
        if bad:
            ctx.violation("out-of-range", "get_random_num(%d) gave %s" % (bits, bad[:5]))
            return
        lost = set(range(2 ** bits)) - set(got)
        if lost:
            ctx.violation("range-not-covered", "get_random_num(%d) never gave %s in %d draws" % (bits, sorted(lost)[:9], n))
            return
        ctx.count("exhausted_ranges")
        ctx.count("numbers", n)
        return
    bits = rng.choice([7, 8, 16, 31, 32, 33, 64, 100, 127, 128, 129, 192, 224, 256, 257, 512, 521])
    n = 1500
    got = [to_int(get_random_num(bits)) for _ in range(n)]
    ctx.eval(("bits", bits, i))
    bad = [v for v in got if not 0 <= v < 2 ** bits]
    if bad:
        ctx.violation("out-of-range", "get_random_num(%d) gave %s" % (bits, bad[:5]))
        return
    if bits >= 100 and len(set(got)) != n:
        ctx.violation("not-fresh", "get_random_num(%d) repeats" % bits)
        return
    for k in range(bits):
        f = sum(v >> k & 1 for v in got)
        ctx.count("bit_frequencies")
        if abs(f - n / 2) > 9 * (n ** 0.5) / 2:
            ctx.violation("not-uniform", "get_random_num(%d): bit %d set in %d of %d" % (bits, k, f, n))
            return
    # neighbouring bits and draws are independent
    for k in range(bits - 1):
        f = sum((v >> k ^ v >> (k + 1)) & 1 for v in got)
        h = sum((v >> k ^ w >> k) & 1 for v, w in zip(got, got[1:]))
        ctx.count("bit_frequencies", 2)
        if abs(f - n / 2) > 9 * (n ** 0.5) / 2 or abs(h - n / 2) > 9 * (n ** 0.5) / 2:
            ctx.violation("not-uniform", "get_random_num(%d): bit %d depends on others" % (bits, k))
            return
    ctx.count("numbers", n)


def some_int(ctx, rng):
    k = rng.randrange(6)
    v = rng.choice([0, 1, 2, 3, rng.randrange(2 ** 8), rng.randrange(2 ** 31), 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64, rng.randrange(2 ** 256), rng.randrange(2 ** 600)])
    if v >= 2 ** 32:
        ctx.count("big_integers")
    return -v if k == 0 else v


def sums(ctx, rng, i):
    for _ in range(30):
        m = max(1, abs(some_int(ctx, rng)))
        vals = [some_int(ctx, rng) for _ in range(rng.choice([0, 1, 2, 3, 7, 40]))]
        arr = [bn(v) if rng.random() < 0.6 else v for v in vals]
        mod = bn(m) if rng.random() < 0.6 else m
        before = [to_int(x) for x in arr]
        given = rng.choice([list, tuple, iter])(arr)
        s = sum_bn_array(given, mod)
        ctx.eval(("sum", m, tuple(vals)))
        if to_int(s) != sum(vals) % m:
            ctx.violation("wrong-sum", "sum_bn_array(%s, %d) = %s, not %d" % (vals, m, s, sum(vals) % m))
            return
        if [to_int(x) for x in arr] != before or to_int(mod) != m:
            ctx.violation("arguments-changed", "sum_bn_array(%s, %d)" % (vals, m))
            return
        v = some_int(ctx, rng)
        b = ensure_bn(v)
        if not isinstance(b, Bn) or to_int(b) != v or to_int(ensure_bn(bn(v))) != v:
            ctx.violation("wrong-number", "ensure_bn(%d) = %r" % (v, b))
            return
        ctx.count("sums")


def keypairs(ctx, rng, i):
    n = rng.choice([1, 2, 5, 9])
    pair = model.pair_ctx(0)
    pyrandom.seed(7)
    a, b = BBSPlusKeypair.generate(pair, n), None
    pyrandom.seed(7)
    b = BBSPlusKeypair.generate(pair, n)
    det = "BBS+ key for %d" % n
    ctx.eval(("key", n, i))
    for k in (a, b):
        if not check_gens(ctx, "G1", list(k.pk.generators), det):
            return
        if not relations(ctx, "G1", list(k.pk.generators)[:8], 42, det, rng):
            return
        if len(k.pk.generators) < n:
            ctx.violation("wrong-count", det)
            return
    if [export(p) for p in a.pk.generators] != [export(p) for p in b.pk.generators]:
        ctx.violation("not-reproducible", "%s: generators differ" % det)
        return
    if to_int(a.sk.gamma) == to_int(b.sk.gamma) or a.pk.w == b.pk.w:
        ctx.violation("not-fresh", "%s: secret keys repeat" % det)
        return
    if to_int(a.sk.gamma).bit_length() < 100:
        ctx.violation("not-fresh", "%s: secret key %d" % (det, to_int(a.sk.gamma)))
        return
    ctx.count("keypairs")


def case(ctx, rng, i):
    k = i % 16
    if k < 5:
        seeded(ctx, rng, i)
    elif k < 9:
        traced(ctx, rng, i)
    elif k < 11:
        fresh(ctx, rng, i)
        few_bits(ctx, rng)
    elif k < 13:
        numbers(ctx, rng, i)
    elif k < 15:
        sums(ctx, rng, i)
    else:
        keypairs(ctx, rng, i)
