"""C15: fresh, full-size randomness, so that secrets stay hidden."""
import copy
import os
import pickle
import random
import time

from zkmon import gen, model, drive
from zkmon.checks import c14
from zkmon.model import bn, to_int, order, P

import zksk
from zksk import Secret
from zksk.primitives.rangeproof import RangeOnlyStmt
from zksk.primitives.bbsplus import BBSPlusKeypair, BBSPlusSignatureCreator
from zksk.utils import get_random_num, make_generators, get_random_point

ID = "C15"
TECHNIQUE = "an extractor recovers the randomizers and internal secrets from transcripts (by known witnesses, and by answering two challenges for one commitment); monitors look for repetitions, constant differences and ratios, values that are sums, products or quotients of others, bias per bit, and repetition after fork with all other sources of randomness frozen"
RULE = (
    "random statements proven repeatedly (same prover, same statement, fresh ones, interactively and not, with the global generator reseeded in between), fixed families for statistics, "
    "pairs of forked processes with equal state, BBS+ issuance and key generation; distinct by tree shape and sequence of kinds of proofs, family, or operation"
)
QUICK, THOROUGH = 2800, 60000
REQUIRED = ["nonces", "rewound_nonces", "internal_values", "shared_nonces", "forks", "issuance", "keys", "range_only", "statistics", "extraction_confirmed", "differences", "ratios", "relations", "callers_dictionary"]
M = 2 ** 128


# ---------------------------------------------------------------- extraction


def shape_of(spec, n, path=()):
    """("dl", q, names) / ("and" | "or", [...]) as the responses are laid out; names of known secrets are ints."""
    k = n["k"]
    if k in ("and", "or"):
        return (k, [shape_of(spec, c, path + (i,)) for i, c in enumerate(n["s"])])
    q = order(n["g"]) if k != "bbs" else order("G1")
    I = lambda x: (path, x)
    dl = lambda *names: ("dl", q, list(names))
    if k == "dl":
        return dl(*[s for s, _ in n["t"]])
    if k == "ne":
        reps = [dl(I("alpha"), I("beta")), dl(I("alpha"), I("beta"))]
        return ("and", reps + ([dl(n["x"])] if n["bind"] else []))
    if k == "r2":
        bits = [("or", [dl(I("r%d" % i)), dl(I("r%d" % i))]) for i in range(n["n"])]
        return ("and", bits) if len(bits) > 1 else bits[0]
    if k == "rg":
        nb = max(1, (n["b"] - n["a"] - 1).bit_length())

        def bits(p):
            b = [("or", [dl(I("%s%d" % (p, i))), dl(I("%s%d" % (p, i)))]) for i in range(nb)]
            return ("and", b) if nb > 1 else b[0]

        return ("and", [dl(n["x"], n["r"]), bits("u"), bits("v")])
    if k == "bbs":
        e, s = I("e"), I("s")
        return ("and", [dl(I("r1"), I("r2")), dl(I("d1"), I("d2"), e), dl(e, I("r1"), I("d1"), s, *n["m"])])
    if k == "plain":
        reps = [dl(*[s for s, _ in t]) for _, t in n["eqs"]]
        return (n["shape"], reps) if len(reps) > 1 else reps[0]
    if k == "blind":
        return ("and", [dl(n["x"]), dl(n["x"], I("r"))])
    raise ValueError(k)


def extract(known, sh, r1, c1, r2, c2, scope, path, out):
    """
    out: list of (scope, name, q, nonce or None, extracted value or None). r2, c2 may be None (no
    second answer).
    """
    if sh[0] == "and":
        assert len(sh[1]) == len(r1)
        for i, c in enumerate(sh[1]):
            extract(known, c, r1[i], c1, None if r2 is None else r2[i], c2, scope, path + (i,), out)
    elif sh[0] == "or":
        assert len(sh[1]) == len(r1[0]) == len(r1[1])
        for i, c in enumerate(sh[1]):
            d1 = to_int(r1[0][i])
            d2 = None if r2 is None else to_int(r2[0][i])
            again = None if r2 is None or d1 == d2 else r2[1][i]
            extract(known, c, r1[1][i], d1, again, d2, path + (i,), path + (i,), out)
    else:
        _, q, names = sh
        assert len(names) == len(r1)
        for j, name in enumerate(names):
            s1 = to_int(r1[j])
            x = None
            if r2 is not None and (c1 - c2) % q:
                x = (s1 - to_int(r2[j])) * pow(c1 - c2, -1, q) % q
            if isinstance(name, int):
                v = known.get(name)
            else:
                v = x
            out.append((scope, name, q, None if v is None else (s1 - c1 * v) % q, x))


def proof(rng, b, p, kind):
    """(prover, precommitment, commitment, c1, r1, c2, r2)"""
    if kind == "prove":
        n = b.stmt.prove(b.sdict, message=rng.choice(["", "m"]))
        return p, n.precommitment, None, to_int(n.challenge), n.responses, None, None
    if kind == "nizk":
        p = p or b.stmt.get_prover(b.sdict)
        n = p.get_nizk_proof()
        return p, n.precommitment, None, to_int(n.challenge), n.responses, None, None
    if kind == "new" or p is None:
        p = b.stmt.get_prover(b.sdict)
    pc = p.precommit()
    com = p.commit()[1]
    c1, c2 = rng.randrange(M), rng.randrange(M)
    if rng.random() < 0.1:
        c1 = rng.choice([0, 1, M - 1])
    r1 = p.compute_response(bn(c1))
    out = drive.attempt(p.compute_response, bn(c2))
    return p, pc, com, c1, r1, c2, out.value if out.err is None else None


def known_values(spec):
    return {i: s["v"] for i, s in enumerate(spec["secrets"]) if s["v"] is not None}


def signature_values(spec, n, path=()):
    """Names of internal secrets with fixed values."""
    for m, p in model.walk(n):
        if m["k"] == "bbs":
            yield (p, "e")
            yield (p, "s")
        if m["k"] == "r2" and m["n"] == 1:
            yield (p, "r0")  # r itself is what opens the only bit commitment, up to the known difference


def observe(ctx, spec, fixed, proofs, det):
    """proofs: list of (pc, com, c1, r1, c2, r2). Returns per-proof lists of extracted things."""
    known = known_values(spec)
    sh = shape_of(spec, spec["n"])
    per = []
    for pc, com, c1, r1, c2, r2 in proofs:
        out = []
        try:
            extract(known, sh, r1, c1, r2, c2, (), (), out)
        except (AssertionError, TypeError, IndexError):
            ctx.count("layout_unknown")
            per.append([])
            continue
        per.append(out)
        for scope, name, q, k, x in out:
            if isinstance(name, int) and name in known and x is not None:
                if x == known[name] % q:
                    ctx.count("extraction_confirmed")
                else:
                    ctx.count("calibration_failed")
                    ctx.collect("calib", "%s: %s" % (det, name))
    return per


def blinder(name):
    """Internal secrets that are drawn at random (the others are products of these and known values)."""
    return not isinstance(name, int) and (name[1] == "beta" or name[1][0] in "ruv")


def judge(ctx, spec, fixed, per, det):
    """Repetitions and simple relations of what was extracted."""
    seenk, seenx = {}, {}
    diffs, ratios, steps = {}, {}, {}
    last = {}
    everything = {}
    for r, out in enumerate(per):
        mine = {}
        for scope, name, q, k, x in out:
            if k is None:
                continue
            ctx.count("nonces")
            if x is not None:
                ctx.count("rewound_nonces")
            lab = (scope, name)
            if lab in mine and mine[lab][1] == q:
                # one secret in one conjunction
                ctx.count("shared_nonces")
                if mine[lab][0] != k:
                    ctx.violation("not-shared", "%s: proof %d, secret %s" % (det, r, lab), spec=spec)
                continue
            mine[lab] = (k, q)
            if k < 2 ** 40 or q - k < 2 ** 40:
                ctx.violation("small-nonce", "%s: proof %d, secret %s: %d" % (det, r, lab, k), spec=spec)
            for kk in (k, q - k):
                if (q, kk) in seenk:
                    ctx.violation("nonce-repeats", "%s: proof %d, %s has the nonce of %s" % (det, r, lab, seenk[q, kk]), spec=spec)
                    return
            seenk[q, k] = (r, lab)
            everything.setdefault(q, []).append((k, r, lab))
            if x is not None and blinder(name) and name not in fixed:
                ctx.count("internal_values")
                for xx in (x, q - x):
                    if (q, xx) in seenx and seenx[q, xx] != (r, name):
                        ctx.violation("internal-value-repeats", "%s: proof %d, %s equals %s" % (det, r, lab, seenx[q, xx]), spec=spec)
                        return
                    if (q, xx) in seenk:
                        ctx.violation("nonce-is-value", "%s: proof %d, %s" % (det, r, lab), spec=spec)
                seenx[q, x] = (r, name)
                if x < 2 ** 40 or q - x < 2 ** 40:
                    ctx.violation("small-value", "%s: proof %d, %s = %d" % (det, r, lab, x), spec=spec)
                everything.setdefault(q, []).append((x, r, ("value", name)))
        labs = sorted(mine, key=repr)[:8]
        for a, la in enumerate(labs):
            k, q = mine[la]
            if la in last:
                d = (k - last[la]) % q
                ctx.count("differences")
                if (la, d) in steps:
                    ctx.violation("constant-step", "%s: %s" % (det, la), spec=spec)
                steps[la, d] = r
            last[la] = k
            for lb in labs[:a]:
                k2, q2 = mine[lb]
                if q2 != q:
                    continue
                for what, d in (("difference", (k - k2) % q), ("sum", (k + k2) % q), ("xor", k ^ k2)):
                    ctx.count("differences")
                    if (la, lb, what, d) in diffs:
                        ctx.violation("constant-" + what, "%s: %s and %s in proofs %d and %d" % (det, la, lb, diffs[la, lb, what, d], r), spec=spec)
                    diffs[la, lb, what, d] = r
                ctx.count("ratios")
                f = k * pow(k2, -1, q) % q
                if (la, lb, f) in ratios or f < 2 ** 40 or q - f < 2 ** 40:
                    ctx.violation("constant-ratio", "%s: %s and %s in proof %d" % (det, la, lb, r), spec=spec)
                ratios[la, lb, f] = r
    for q, vs in everything.items():
        relations(ctx, spec, q, vs, known_values(spec), fixed, det)
        vs.sort()
        for (a, r, la), (b, r2, lb) in zip(vs, vs[1:]):
            if b - a < 2 ** 60 and a != b:
                ctx.violation("near-values", "%s: proofs %d, %d: %s and %s differ by %d" % (det, r, r2, la, lb, b - a), spec=spec)


def relations(ctx, spec, q, vs, known, fixed, det):
    """No random value may be a simple function of two others, or of another one and a secret."""
    rnd = [(v, (r, lab)) for v, r, lab in vs][-24:]
    pub = [(v % q, ("known", i)) for i, v in known.items() if 2 ** 40 < v % q < q - 2 ** 40][:6]
    index = {}
    for v, lab in rnd:
        for w in (v, q - v, 2 * v % q, -2 * v % q, pow(v, -1, q), -pow(v, -1, q) % q):
            index.setdefault(w, lab)
    for i, (a, la) in enumerate(rnd):
        for b, lb in rnd[: i + 1] + pub:
            ctx.count("relations")
            ds = [("product", a * b % q), ("quotient", a * pow(b, -1, q) % q)]
            if lb[0] != "known":
                ds += [("sum", (a + b) % q), ("difference", (a - b) % q)] if la != lb else []
            elif a in (b, q - b):
                ctx.violation("value-is-secret", "%s: %s is %s" % (det, la, lb), spec=spec)
            for what, d in ds:
                if index.get(d, la) not in (la, lb) or what == "product" and d in (1, q - 1):
                    ctx.violation("dependent-values", "%s: %s of %s and %s gives %s" % (det, what, la, lb, index.get(d)), spec=spec)
                    return


# ---------------------------------------------------------------- histories

KINDS = ["prove", "nizk", "new", "same", "fresh", "copy"]


def history(ctx, rng, i):
    spec = gen.gen_spec(rng, max_leaves=rng.choice([1, 2, 2, 3, 4]), max_depth=rng.choice([1, 2]), p_leaf=0.3)
    shape = model.shape(spec["n"])
    kinds = [rng.choice(KINDS) for _ in range(rng.choice([3, 4, 6]))]
    reseed = rng.random() < 0.5
    b = model.build(spec, "p")
    p = None
    proofs = []
    for kind in kinds:
        if reseed:
            random.seed(7)
        if kind == "fresh":
            b = model.build(spec, "p")
            p = None
        if kind == "copy":
            out = drive.attempt(copy.deepcopy, p)
            if out.err is None and p is not None:
                p = out.value
        p, *rest = proof(rng, b, p, kind)
        proofs.append(rest)
    ctx.eval((shape, tuple(kinds), reseed), n=len(kinds))
    det = "%s, %s%s" % (shape, kinds, ", reseeded" if reseed else "")
    fixed = set(signature_values(spec, spec["n"]))
    per = observe(ctx, spec, fixed, proofs, det)
    judge(ctx, spec, fixed, per, det)
    # everything sent, across proofs
    pub = c14.public_values(spec)
    seen = {}
    for r, (pc, com, c1, r1, c2, r2) in enumerate(proofs):
        for v in set(c14.atoms(pc) + c14.atoms(com) + c14.atoms(r1)):
            if v in pub or v[0] == "num" and v[1] < 2 ** 40:
                continue
            ctx.count("values_sent")
            if v in seen:
                ctx.violation("message-repeats", "%s: proofs %d and %d share %s" % (det, seen[v], r, v), spec=spec)
                return
            seen[v] = r
    ctx.sample(dict(what=det, nonces=sum(1 for out in per for x in out if x[3] is not None), values_sent=len(seen)))


def given_twice(ctx, rng, i):
    """A caller's dictionary with randomizers of some secrets, used for several commitments."""
    spec = gen.gen_spec(rng, max_leaves=rng.choice([1, 2, 3]), max_depth=2, kinds=[("dl", 6), ("ne", 2), ("bbs", 0.3), ("r2", 1)])
    shape = model.shape(spec["n"])
    b = model.build(spec, "p")
    known = known_values(spec)
    ids = [x for x in known if spec["secrets"][x]["v"] is not None]
    mine = {}
    for x in rng.sample(ids, rng.randrange(min(2, len(ids)) + 1)):
        mine[b.secrets[x]] = bn(rng.randrange(2 ** 100, 2 ** 180))
    given = {to_int(v) for v in mine.values()}
    sh = shape_of(spec, spec["n"])
    seen = {}
    p = None
    for r in range(3):
        if p is None or rng.random() < 0.7:
            p = b.stmt.get_prover(b.sdict)
            p.precommit()
        com = drive.attempt(p.commit, mine)
        if com.err is not None:
            ctx.count("given_refused")
            return
        c1, c2 = rng.randrange(M), rng.randrange(M)
        r1 = p.compute_response(bn(c1))
        out = drive.attempt(p.compute_response, bn(c2))
        got = []
        try:
            extract(known, sh, r1, c1, out.value if out.err is None else None, c2, (), (), got)
        except (AssertionError, TypeError, IndexError):
            ctx.count("layout_unknown")
            return
        for scope, name, q, k, x in got:
            if k is None or k in given:
                continue
            if seen.get((q, k), (r, scope, name)) != (r, scope, name):
                ctx.violation("nonce-repeats", "%s: commitment %d with the caller's dictionary, %s has the nonce of %s" % (shape, r, name, seen[q, k]), spec=spec)
                return
            seen[q, k] = (r, scope, name)
        ctx.count("callers_dictionary")
    ctx.eval((shape, "given"), n=3)


# ---------------------------------------------------------------- statistics


def hist(ctx, key, q, v):
    """Collect digits and bits of a value that should be uniform modulo q."""
    h = ctx.data.setdefault("hist", [{}])[0]
    e = h.setdefault(key, [0, [0] * 16, [0] * 16, [0] * 192])
    e[0] += 1
    e[1][v * 16 // q] += 1
    e[2][v % 16] += 1
    w = (v * 2 ** 64 // q) | ((v & (2 ** 64 - 1)) << 64) | (((v >> 64) & (2 ** 64 - 1)) << 128)
    s = bin(w)[2:]
    b = e[3]
    for pos, ch in enumerate(reversed(s)):
        if ch == "1":
            b[pos] += 1


_fam = []


def families():
    if _fam:
        return _fam
    r = random.Random(5)
    big = {"bp512": ("dl2", "and", "ne1", "ne0", "r2", "or"), "p384": ("dl5", "and_or", "ne0"), "G1": ("dl2", "and"), "G2": ("dl2",)}
    for g in ("p224", "p256", "secp256k1", *big):
        q = order(g)
        v = [r.randrange(q) for _ in range(6)] + [2, 0]
        S = [dict(q=q, v=x, ty="bn", how="init", init=True) for x in v]

        def dl(*ids):
            t = [[s, r.randrange(1, q)] for s in ids]
            return dict(k="dl", g=g, t=t, y=sum(v[s] * b for s, b in t) % q)

        def ne(s, bind):
            h0, h1 = r.randrange(1, q), r.randrange(1, q)
            return dict(k="ne", g=g, v=[v[s] * h0 % q, h0], i=[(v[s] * h1 + 7) % q, h1], x=s, bind=bind)

        def rr(k, s, t, **kw):
            gg, hh = r.randrange(1, q), r.randrange(1, q)
            return dict(k=k, g=g, c=(v[s] * gg + v[t] * hh) % q, gg=gg, hh=hh, x=s, r=t, **kw)

        blind = dict(k="blind", g=g, y=v[0] * 3 % q, gg=3, hh=r.randrange(q), kk=r.randrange(q), x=0, cont="dict")
        A = lambda *s: dict(k="and", s=list(s))
        O = lambda *s: dict(k="or", s=list(s))
        for name, n in [
            ("dl2", dl(0, 1)), ("dl5", dl(0, 1, 2, 3, 7)), ("and", A(dl(0, 1), dl(1, 2), A(dl(3), dl(0)))), ("ne1", ne(0, True)), ("ne0", ne(1, False)),
            ("r2", rr("r2", 6, 4, n=3)), ("rg", rr("rg", 6, 3, a=-1, b=4)), ("or", O(dl(0), A(dl(1), ne(2, True)), dl(3))), ("and_or", A(dl(5), O(dl(0), dl(1)))), ("blind", blind),
        ]:
            if name in big.get(g, [name]):
                _fam.append((g + ":" + name, dict(n=n, secrets=S)))
    # conjunctions over groups of different orders
    for gs in (("p224", "bp512"), ("p256", "p224"), ("p192", "p384", "p224")):
        S, leaves = [], []
        for g in gs:
            q = order(g)
            S.append(dict(q=q, v=r.randrange(q), ty="bn", how="init", init=True))
            b = r.randrange(1, q)
            leaves.append(dict(k="dl", g=g, t=[[len(S) - 1, b]], y=S[-1]["v"] * b % q))
        _fam.append(("_".join(gs) + ":and", dict(n=dict(k="and", s=leaves), secrets=S)))
    q = order("G1")
    S = [dict(q=q, v=r.randrange(q), ty="bn", how="init", init=True) for _ in range(2)] + [dict(q=q, v=None), dict(q=q, v=None)]
    for bind in (True, False):
        n = dict(k="bbs", g="G1", key=0, m=[0, 1], bind=bind, sig=dict(key=0, m=[S[0]["v"], S[1]["v"]], e=12345, s=987654321))
        if bind:
            n["e"], n["sv"] = 2, 3
        _fam.append(("bbs%d" % bind, dict(n=n, secrets=S)))
    return _fam


def statistic(ctx, rng, i):
    fams = families()
    # BBS+ is slow: less often
    f = i % (len(fams) - 2) if i % 40 else len(fams) - 2 + i // 40 % 2
    name, spec = fams[f]
    b = model.build(spec, "p")
    p = None
    fixed = set(signature_values(spec, spec["n"]))
    proofs, kinds = [], []
    for r in range(4 if name.startswith("bbs") else 12):
        kind = KINDS[r % 4]
        kinds.append(kind)
        p, *rest = proof(rng, b, p, kind)
        proofs.append(rest)
    per = observe(ctx, spec, fixed, proofs, name)
    judge(ctx, spec, fixed, per, name)
    for kind, out, (pc, com, c1, r1, c2, r2) in zip(kinds, per, proofs):
        done = set()
        for scope, nm, q, k, x in out:
            if k is not None and (scope, nm) not in done:
                done.add((scope, nm))
                hist(ctx, (name, kind, "nonce", scope, nm), q, k)
                hist(ctx, ("all " + name, "any", "nonce", q), q, k)
                hist(ctx, ("all", "any", "nonce", q), q, k)
                if x is not None and blinder(nm) and nm not in fixed:
                    hist(ctx, (name, "any", "value", nm), q, x)
                    hist(ctx, ("all", "any", "value", q), q, x)
        for v in c14.atoms(pc):
            if v[0] == "num":
                hist(ctx, (name, "any", "precommitment"), order(spec["n"]["g"]) if "g" in spec["n"] else 2 ** 250, v[1])
    ctx.eval(("stat", name), n=len(proofs))


# ---------------------------------------------------------------- forks


def outputs(spec, b, p, verifier, message):
    """Random values of everything a process may do next."""
    out = []
    random.seed(3)
    const = time.time()
    for f in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "process_time"):
        setattr(time, f, lambda c=getattr(time, f)(): 1234567)
    pc = p.precommit()
    com = p.commit()[1]
    r = p.compute_response(bn(12345))
    out.append(("prover", c14.atoms(pc) + c14.atoms(com) + c14.atoms(r)))
    n = b.stmt.prove(b.sdict, message=message)
    out.append(("prove", c14.atoms(n.precommitment) + c14.atoms(n.responses) + [("num", to_int(n.challenge))]))
    if verifier is not None:
        out.append(("challenge", [("num", to_int(verifier[0].send_challenge(verifier[1])))]))
    sim = drive.attempt(b.stmt.simulate)
    if sim.err is None:
        t = sim.value
        out.append(("simulate", c14.atoms(t.precommitment) + c14.atoms(t.commitment) + c14.atoms(t.responses) + [("num", to_int(t.challenge))]))
    out.append(("get_random_num", [("num", to_int(get_random_num(128))) for _ in range(3)]))
    out.append(("make_generators", [("p", x.export()) for x in make_generators(3, seed=None)] + [("p", get_random_point().export())]))
    if spec["n"]["k"] == "bbs":
        kp = BBSPlusKeypair.generate(model.pair_ctx(0), 2)
        out.append(("keypair", [("num", to_int(kp.sk.gamma))]))
    return out


def forks(ctx, rng, i):
    spec = gen.gen_spec(rng, max_leaves=rng.choice([1, 2, 3]), max_depth=2, groups=[("p224", 4), ("p256", 2), ("G1", 0.4)])
    shape = model.shape(spec["n"])
    b = model.build(spec, "p")
    p = b.stmt.get_prover(b.sdict)
    if rng.random() < 0.5:
        drive.attempt(p.get_nizk_proof)
    v = model.build(spec, "v").stmt.get_verifier()
    q = b.stmt.get_prover(b.sdict)
    pc = q.precommit()
    h, com = q.commit()
    verifier = (v, (h, com)) if drive.attempt(v.process_precommitment, pc).err is None else None
    got = []
    for child in range(2):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                data = pickle.dumps(outputs(spec, b, p, verifier, "m"))
                with os.fdopen(wr, "wb") as f:
                    f.write(data)
                os._exit(0)
            finally:
                os._exit(1)
        os.close(wr)
        with os.fdopen(rd, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            ctx.count("fork_failed")
            return
        got.append(pickle.loads(data))
    ctx.count("forks")
    pub = c14.public_values(spec)
    ctx.eval(("fork", shape), n=2)
    for (op, a), (_, c) in zip(*got):
        ctx.count("forked_" + op)
        both = {x for x in set(a) & set(c) if x not in pub and not (x[0] == "num" and x[1] < 2 ** 40)}
        if both:
            ctx.violation("repeats-after-fork", "%s of %s: %s" % (op, shape, sorted(both)[:3]), spec=spec)


# ---------------------------------------------------------------- issuance, keys


def issuance(ctx, rng, i):
    q = order("G1")
    sk, pk, _ = model.bbs_key(rng.randrange(3))
    nm = rng.choice([1, 2, 4])
    ms = [rng.choice([0, 1, rng.randrange(q)]) for _ in range(nm)]
    creator = BBSPlusSignatureCreator(pk)
    seen = {}

    def fresh(what, v, stat=True):
        if v in seen:
            ctx.violation("issuance-repeats", "%s equals %s" % (what, seen[v]), ms=ms)
        seen[v] = what
        if stat:
            hist(ctx, ("issuance", what.split()[0]), q, v)

    for r in range(7):
        if rng.random() < 0.3:
            creator = BBSPlusSignatureCreator(pk)
        random.seed(9)
        com = creator.commit([bn(m) for m in ms], zkp=True)
        pre = sk.sign(com.com_message)
        sig = creator.obtain_signature(pre)
        s1 = (to_int(sig.s) - to_int(pre.s)) % q
        fresh("s1 of %d" % r, s1)
        fresh("e of %d" % r, to_int(pre.e))
        fresh("s2 of %d" % r, to_int(pre.s))
        fresh("commitment %d" % r, com.com_message.export(), False)
        n = com.com_nizk_proof
        c = to_int(n.challenge)
        for j, (s, x) in enumerate(zip(n.responses, [s1] + ms)):
            fresh("nonce %d of %d" % (j, r), (to_int(s) - c * x) % q)
    ctx.count("issuance")
    ctx.eval(("issuance", nm), n=7)


def keys(ctx, rng, i):
    q = order("G1")
    seen = set()
    for r in range(7):
        random.seed(2)
        kp = BBSPlusKeypair.generate(model.pair_ctx(rng.randrange(2)), 1)
        g = to_int(kp.sk.gamma)
        if g in seen or g < 2 ** 40:
            ctx.violation("key-repeats", "%d" % g)
        seen.add(g)
        hist(ctx, ("keys", "gamma"), q, g)
        ctx.count("keys")
    ctx.eval(("keys",), n=7)


def range_only(ctx, rng, i):
    """RangeOnlyStmt commits to the value itself: the randomizer has to be fresh, too."""
    q = order("p224")
    x = rng.randrange(5, 9)
    seen = {}
    for r in range(4):
        random.seed(4)
        st = RangeOnlyStmt(5, 9, Secret(value=bn(x)))
        p, pc, com, c1, r1, c2, r2 = proof(rng, type("B", (), dict(stmt=st, sdict={})), None, "new")
        out = []
        if r2 is None:
            return
        extract({0: x}, ("dl", q, [0, "r"]), r1[0], c1, r2[0], c2, (), (), out)
        for scope, name, _, k, v in out:
            vals = [("nonce", k)] + ([("randomizer", v)] if name == "r" else [])
            for what, z in vals:
                if z in seen:
                    ctx.violation("range-only-repeats", "%s in statement %d equals %s" % (what, r, seen[z]), x=x)
                seen[z] = (what, r)
                hist(ctx, ("range_only", what), q, z)
        for a in set(c14.atoms(pc)):
            if a[0] == "num" and a[1] < 2 ** 40:
                continue
            if a in seen:
                ctx.violation("range-only-repeats", "precommitment", x=x)
            seen[a] = ("precommitment", r)
        ctx.count("range_only")
    ctx.eval(("range_only", x), n=4)


def case(ctx, rng, i):
    k = i % 20
    if k < 8:
        history(ctx, rng, i)
    elif k < 16:
        statistic(ctx, rng, i // 20 * 8 + k - 8)
    elif k == 16:
        forks(ctx, rng, i)
    elif k == 17:
        issuance(ctx, rng, i)
    elif k == 18:
        keys(ctx, rng, i)
        for _ in range(2):
            given_twice(ctx, rng, i)
    else:
        range_only(ctx, rng, i)


def finish(ctx):
    tot = {}
    for h in ctx.data.pop("hist", []):
        for key, (n, a, b, bits) in h.items():
            e = tot.setdefault(key, [0, [0] * 16, [0] * 16, [0] * 192])
            e[0] += n
            for x, y in ((e[1], a), (e[2], b), (e[3], bits)):
                for j, z in enumerate(y):
                    x[j] += z
    for key, (n, a, b, bits) in sorted(tot.items(), key=repr):
        if n < 80:
            continue
        ctx.count("statistics")
        for w, what in ((a, "leading"), (b, "trailing")):
            if c14.chi2(w) > (110 if n < 800 else 80):
                ctx.violation("not-uniform", "%s digits of %s: %s" % (what, key, w))
        for pos, ones in enumerate(bits):
            if (2 * ones - n) ** 2 > 64 * n:
                ctx.violation("biased-bit", "bit %d of %s: %d of %d" % (pos, key, ones, n))
                break
    ctx.count("uniform_samples", sum(e[0] for e in tot.values()))
