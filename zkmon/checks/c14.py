"""C14: or-proofs do not reveal which disjunct is real."""
import collections
import copy

import msgpack
from petlib.bn import Bn
from petlib.pack import encode

from zkmon import gen, model, drive, adv, tamper
from zkmon.model import bn, to_int, order, P

ID = "C14"
TECHNIQUE = "transcripts of one statement with each disjunct as the real one, compared by distinguishers: structure, types, ranges, coincidences of values (also across repeated proofs), and uniformity and two-sample tests given all witnesses"
RULE = (
    "random statements with an or-proof several disjuncts of which hold, proven with each of two as the real one (others flagged, or lacking values), interactively and not, "
    "several times with one prover or statement; and fixed statements many times for statistics (uniformity with p < 1e-10) per position, real disjunct, and challenge; "
    "distinct by tree shape, place, real disjuncts, mode"
)
QUICK, THOROUGH = 1600, 60000
REQUIRED = ["structure_compared", "coincidences_compared", "repeated_prover", "repeated_statement", "multiples_tried", "statistics", "two_samples_compared", "others_flagged", "others_missing", "with_precommitment", "subchallenges_in_range", "responses_in_range"]
M = adv.M


# ---------------------------------------------------------------- what a transcript looks like


def skeleton(x):
    if isinstance(x, (list, tuple)):
        return ["seq"] + [skeleton(y) for y in x]
    if isinstance(x, dict):
        return ["dict"] + [(k, skeleton(v)) for k, v in x.items()]
    if isinstance(x, tamper.POINTS):
        return [type(x).__name__, tamper.gname(x)]
    return type(x).__name__


def wire_skeleton(raw):
    """Of the encoding: types, lengths of containers, type codes; lengths of points."""

    def ext(code, data):
        return ("ext", code, len(data) if code in (2, 111, 112) else None)

    def rec(x):
        if isinstance(x, tuple):  # made by ext
            return x
        if isinstance(x, list):
            return [rec(y) for y in x]
        if isinstance(x, dict):
            return [(rec(k), rec(v)) for k, v in x.items()]
        if isinstance(x, (bytes, str)):
            return (type(x).__name__, len(x))
        return (type(x).__name__, x if x is None or isinstance(x, bool) else None)

    def top(x):
        try:
            return ("packed", rec(msgpack.unpackb(x, ext_hook=ext)))
        except Exception:
            return rec(x)

    x = msgpack.unpackb(raw, ext_hook=ext)
    return [top(y) for y in x] if isinstance(x, list) else rec(x)


def atoms(x):
    """Values of a message that can coincide, in order."""
    if isinstance(x, (list, tuple)):
        return [a for y in x for a in atoms(y)]
    if isinstance(x, dict):
        return [a for y in x.values() for a in atoms(y)]
    if isinstance(x, tamper.POINTS):
        return [(tamper.gname(x), x.export())]
    if isinstance(x, (Bn, int)) and not isinstance(x, bool):
        return [("num", to_int(x))]
    if isinstance(x, bytes) and len(x) > 8:
        return [("bytes", x)]
    return []


def pattern(values, public):
    """Which values are equal to which, or to something public."""
    first = {}
    out = []
    for i, v in enumerate(values):
        if v in public:
            out.append(("public", v))
        elif v[0] == "num" and v[1] < 2 ** 40:
            out.append(("small",))
        else:
            out.append(first.setdefault(v, i))
    return out


def public_values(spec):
    """Points of the statement, the identity and the generators, with their negatives."""
    pub = set()
    for n, _ in model.walk(spec["n"]):
        if n["k"] in ("and", "or"):
            continue
        g = n["g"]
        k = n["k"]
        ds = {0, 1}
        if k == "dl":
            ds |= {n["y"]} | {b for _, b in n["t"]}
        elif k == "ne":
            ds |= set(n["v"] + n["i"])
        elif k == "r2":
            ds |= {n["c"], n["gg"], n["hh"]}
        elif k == "rg":
            ds |= {n["c"], n["gg"], n["hh"]}
        elif k == "plain":
            ds |= {y for y, _ in n["eqs"]} | {b for _, t in n["eqs"] for _, b in t}
        elif k == "blind":
            ds |= {n["y"], n["gg"], n["hh"], n["kk"]}
        for d in ds:
            for e in (d, -d):
                pub.add((g, P(g, e).export()))
        if k == "bbs":
            for p in model.bbs_key(n["key"])[1].generators[:5]:
                pub.add(("G1", p.export()))
    return pub


def check_ranges(ctx, n, resp, det, spec):
    """Subchallenges in the challenge space, responses reduced modulo the order."""
    k = n["k"]
    if k == "and":
        for c, r in zip(n["s"], resp):
            check_ranges(ctx, c, r, det, spec)
    elif k == "or":
        for c in resp[0]:
            if not 0 <= to_int(c) < M:
                ctx.violation("subchallenge-range", "%s: %s" % (det, c), spec=spec)
            ctx.count("subchallenges_in_range")
        for c, r in zip(n["s"], resp[1]):
            check_ranges(ctx, c, r, det, spec)
    elif k in ("dl", "ne", "bbs", "blind"):
        q = order(n["g"])
        for _, v in (a for a in atoms(resp)):
            if not 0 <= v < q:
                ctx.violation("response-range", "%s: %s in %s" % (det, v, model.shape(n)), spec=spec)
            ctx.count("responses_in_range")


# ---------------------------------------------------------------- statements with several real disjuncts


def make_spec(rng):
    for _ in range(300):
        spec = gen.gen_spec(
            rng, root=rng.choice(["or", "or", "and"]), max_leaves=rng.choice([2, 3, 3, 4, 5]), max_depth=rng.choice([1, 2, 3]), shared_or=rng.random() < 0.5,
            kinds=[("dl", 8), ("ne", 2.5), ("r2", 0.8), ("rg", 0.8), ("bbs", 0.25), ("plain", 1), ("blind", 1.5)], plain_forms=("and", "single"),
        )
        adv.strip(spec)
        ors = [(n, p) for n, p in model.walk(spec["n"]) if n["k"] == "or"]
        ors = [(n, p, [j for j, c in enumerate(n["s"]) if adv.leaf_all_true(spec, c)]) for n, p in ors if adv.reachable(spec, p)]
        ors = [x for x in ors if len(x[2]) > 1]
        if ors and adv.leaf_all_true(spec, spec["n"]):
            n, p, ok = rng.choice(ors)
            return spec, p, rng.sample(ok, 2)
    raise RuntimeError("no statement")


def real_at(rng, spec, target, j, missing):
    """The statement with disjunct j of the target as the only one to be proven there."""
    s = copy.deepcopy(spec)
    sims = adv.pick_real(rng, s, target, [i for i in range(len(adv.node_at(s, target)["s"])) if i != j])
    for p in sims:
        n = adv.node_at(s, p)
        n["sim"] = True
        if rng.random() < 0.3 and n["k"] in ("dl", "ne", "bbs"):
            n["simctor"] = True
    if missing:
        # instead of flags, let values be missing where they are used by nothing real
        used = set()

        def real(n):
            if n.get("sim"):
                return
            if n["k"] in ("and", "or"):
                for c in n["s"]:
                    real(c)
            else:
                used.update(model.leaf_secrets(n))

        real(s["n"])
        for p in sims:
            n = adv.node_at(s, p)
            ids = {x for m, _ in model.walk(n) for x in (model.leaf_secrets(m) if m["k"] not in ("and", "or") else [])}
            ks = {m["k"] for m, _ in model.walk(n)}
            if n["k"] in ("dl", "ne", "bbs") and not ids & used and not ks & {"plain", "blind"} and not any(s["secrets"][x].get("init") for x in ids):
                for x in ids:
                    s["secrets"][x]["v"] = None
                n.pop("sim")
                n.pop("simctor", None)
    return s


def proofs(rng, spec, reps, style):
    """Messages of several proofs: list of (precommitment, commitment or None, responses)."""
    b = model.build(spec, "p")
    out = []
    if style == "prover":
        p = b.stmt.get_prover(b.sdict)
        for r in range(reps):
            if r % 2:
                n = p.get_nizk_proof()
                out.append((n.precommitment, None, n.responses, n.stmt_hash, n.serialize()))
            else:
                out.append(live(rng, p))
    else:
        for r in range(reps):
            if style == "fresh" and r:
                b = model.build(spec, "p")
            if r % 2:
                n = b.stmt.prove(b.sdict)
                out.append((n.precommitment, None, n.responses, n.stmt_hash, n.serialize()))
            else:
                out.append(live(rng, b.stmt.get_prover(b.sdict)))
    return out


def live(rng, p):
    pc = p.precommit()
    h, com = p.commit()
    return (pc, com, p.compute_response(bn(rng.randrange(M))), h, encode([pc, com]))


def compare(ctx, rng, i):
    spec, target, js = make_spec(rng)
    shape = model.shape(spec["n"])
    style = rng.choice(["prover", "stmt", "fresh"])
    reps = 4
    runs = []
    for j in js:
        missing = rng.random() < 0.5
        s = real_at(rng, spec, target, j, missing)
        ctx.count("others_missing" if missing else "others_flagged")
        out = drive.attempt(proofs, rng, s, reps, style)
        if out.err is not None:
            ctx.count("not_provable")
            return
        runs.append(out.value)
    ctx.count("repeated_prover" if style == "prover" else "repeated_statement" if style == "stmt" else "fresh_statements")
    ctx.eval((shape, target, tuple(js), style), n=2 * reps)
    det = "disjuncts %s of %s at %s, %s" % (js, shape, target, style)
    a, b = runs
    if any(x[0] is not None for x in a + b):
        ctx.count("with_precommitment")
    pub = public_values(spec)
    for m, name in ((0, "precommitment"), (1, "commitment"), (2, "responses"), (4, "encoding")):
        for r in range(2):  # live ones with live ones
            if m == 4:
                f = lambda x: wire_skeleton(x[4])
            else:
                f = lambda x: skeleton(x[m])
            sa = {repr(f(x)) for x in a[r::2]}
            sb = {repr(f(x)) for x in b[r::2]}
            ctx.count("structure_compared")
            if sa != sb or len(sa) != 1:
                ctx.violation("structure", "%s of %s: %s against %s" % (name, det, core_short(sa), core_short(sb)), spec=spec)
                return
    for x in a + b:
        check_ranges(ctx, spec["n"], x[2], det, spec)
    pats = []
    for run in runs:
        ps = []
        for x in run:
            ps.append(pattern(atoms(x[0]) + atoms(x[1]) + atoms(x[2]), pub))
        # across the proofs
        seen, rep = {}, []
        for r, x in enumerate(run):
            for pos, v in enumerate(atoms(x[0]) + atoms(x[1]) + atoms(x[2])):
                if v in pub or (v[0] == "num" and v[1] < 2 ** 40):
                    continue
                if v in seen and seen[v][0] != r:
                    rep.append((r, pos))
                seen.setdefault(v, (r, pos))
        pats.append((ps, rep))
    ctx.count("coincidences_compared")
    for m in range(reps):
        if pats[0][0][m] != pats[1][0][m]:
            d = [(p, u, v) for p, (u, v) in enumerate(zip(pats[0][0][m], pats[1][0][m])) if u != v]
            ctx.violation("coincidences", "%s: %s" % (det, d[:4]), spec=spec)
            return
    if pats[0][1] or pats[1][1]:
        ctx.violation("values-repeat-across-proofs", "%s: %s / %s" % (det, pats[0][1][:5], pats[1][1][:5]), spec=spec)
    ha, hb = a[0][3], b[0][3]
    if a[0][0] is None and ha != hb:
        ctx.violation("identifier", "%s: the identifier depends on the real disjunct" % det, spec=spec)
    ctx.sample(dict(what=det, skeleton=skeleton(a[0][2]) if len(shape) < 60 else "...", coincidences=pats[0][0][0][:12]))


def core_short(x):
    s = str(sorted(x))
    return s if len(s) < 600 else s[:600] + "..."


# ---------------------------------------------------------------- statistics

S = 11  # seeds of the fixed values of the families


def dl(g, ids, coefs, vals):
    q = order(g)
    return dict(k="dl", g=g, t=[[s, b] for s, b in zip(ids, coefs)], y=sum(vals[s] * b for s, b in zip(ids, coefs)) % q)


def families():
    return families_over("p224", S) + families_over("bp512", S + 1)[::3] + families_over("p384", S + 2)[4:7:2] + families_over("G1", S + 3)[2:3]


def families_over(g, seed):
    """(name, order, values, tree, place of the or-proof)"""
    q = order(g)
    r = __import__("random").Random(seed)
    v = [r.randrange(q) for _ in range(8)]
    c = lambda k: [r.randrange(1, q) for _ in range(k)]
    O = lambda *s: dict(k="or", s=list(s))
    A = lambda *s: dict(k="and", s=list(s))
    d = lambda *ids: dl(g, ids, c(len(ids)), v)
    ne = lambda s, bind: (lambda h0, h1: dict(k="ne", g=g, v=[v[s] * h0 % q, h0], i=[(v[s] * h1 + 7) % q, h1], x=s, bind=bind))(*c(2))
    rr = lambda s, t, x, n: (lambda gg, hh: dict(k="r2", g=g, c=(x * gg + v[t] * hh) % q, gg=gg, hh=hh, n=n, x=s, r=t))(*c(2))
    v[6] = 2
    fams = [
        ("or(dl,dl)", O(d(0), d(1)), ()),
        ("or(dl2,dl,dl3)", O(d(0, 1), d(2), d(3, 4, 0)), ()),
        ("and(dl,or(dl,and(dl,dl)))", A(d(5), O(d(0), A(d(1), d(1, 2)))), (1,)),
        ("or(or(dl,dl),dl)", O(O(d(0), d(1)), d(2)), ()),
        ("or(ne,dl)", O(ne(0, True), d(1)), ()),
        ("or(dl,dl,dl,dl)", O(d(0), d(0), d(1), d(2)), ()),
        ("or(r2,dl)", O(rr(6, 7, 2, 2), d(1)), ()),
        ("or(dl,and(r2,ne))", O(d(1), A(rr(6, 7, 2, 3), ne(0, False))), ()),
    ]
    return [((name if g == "p224" else "%s: %s" % (g, name)), q, v, n, target) for name, n, target in fams]


_fam = []
CH = [0, 1, M - 1, M // 2]


def numbers(n, resp, c, path, v, q, out):
    """(position, value, range) of subchallenges, responses and the nonces they leave when the witness is known."""
    if n["k"] == "and":
        for i, (x, r) in enumerate(zip(n["s"], resp)):
            numbers(x, r, c, path + (i,), v, q, out)
    elif n["k"] == "or":
        for i, (x, ci, r) in enumerate(zip(n["s"], resp[0], resp[1])):
            out.append((path + (i, "c"), to_int(ci), M))
            numbers(x, r, to_int(ci), path + (i,), v, q, out)
    elif n["k"] == "dl":
        for i, (s, _) in enumerate(n["t"]):
            out.append((path + (i, "s"), to_int(resp[i]), q))
            out.append((path + (i, "k"), (to_int(resp[i]) - c * v[s]) % q, q))
    elif n["k"] == "ne":
        for i in range(len(resp)):
            for j in range(len(resp[i])):
                out.append((path + (i, j, "s"), to_int(resp[i][j]), q))
        if len(resp) > 2:
            out.append((path + ("k",), (to_int(resp[2][0]) - c * v[n["x"]]) % q, q))
    elif n["k"] == "r2":
        for i, x in enumerate(resp):
            for j in range(2):
                out.append((path + (i, j, "c"), to_int(x[0][j]), M))
                out.append((path + (i, j, "s"), to_int(x[1][j][0]), q))


def statistics(ctx, rng, i):
    if not _fam:
        _fam.append(families())
    fams = _fam[0]
    fi = i % len(fams)
    name, q, v, n, target = fams[fi]
    m = len(adv.node_at(dict(n=n), target)["s"])
    real = (i // len(fams)) % m
    spec = dict(n=n, secrets=[dict(q=q, v=x, ty="bn", how="init", init=True) for x in v])
    s = real_at(rng, spec, target, real, False)
    b = model.build(s, "p")
    rows = []
    reps = 12
    p = b.stmt.get_prover(b.sdict)
    for r in range(reps):
        if r % 4 == 0:
            out = b.stmt.prove(b.sdict, message=str(i))
            pc, c, resp, mode = out.precommitment, to_int(out.challenge), out.responses, "nizk"
        elif r % 4 == 1:
            out = p.get_nizk_proof()
            pc, c, resp, mode = out.precommitment, to_int(out.challenge), out.responses, "nizk"
        else:
            if r % 4 == 2:
                p = b.stmt.get_prover(b.sdict)
            pc = p.precommit()
            p.commit()
            c = rng.choice(CH) if r % 8 < 4 else rng.randrange(M)
            mode = "live_%s" % (c if c in CH else "rnd")
            mode = "live_edge" if c in CH else "live"
            resp = p.compute_response(bn(c))
        out = []
        numbers(n, resp, c, (), v, q, out)
        for pos, val, rg in out:
            rows.append(((fi, real, mode, pos), (val * 16 // rg, val % 16), val if rg == M else None))
        for part, msg in (("precommitment", pc), ("responses", resp)):
            for pos, (_, val) in enumerate(x for x in atoms(msg) if x[0] == "num"):
                ctx.data.setdefault("nums", []).append(((fi, part, pos), real, (max(-1, min(val * 16 // q, 16)), val % 16)))
    ctx.eval(("stat", name, real), n=reps)
    ctx.data.setdefault("rows", []).extend(rows)


# ---------------------------------------------------------------- sizes of hidden multiples

_steps = {}


def is_small(g, pt, bits):
    """Is the point k G for a number |k| < 2^bits? (baby steps, giant steps)"""
    half = 17 if g == "p224" else 15
    if g not in _steps:
        t, p, G = set(), P(g, 0), P(g, 1)
        for _ in range(2 ** half + 1):
            t.add(p.export())
            p = p + G
        _steps[g] = t, P(g, 2 ** half), P(g, -(2 ** half))
    t, up, down = _steps[g]
    for step in (up, down):
        p = pt
        for _ in range(2 ** (bits - half)):
            if p.export() in t:
                return True
            p = p + step
    return False


def small_multiples(ctx, rng, i):
    """Precommitments, whether simulated or not, are no small multiples of the generator (or differ by one from what is public)."""
    kind = ["ne", "r2", "bbs", "ne"][i % 4]
    g = "G1" if kind == "bbs" else "p224"
    q = order(g)
    x, r, y = 2, rng.randrange(q), rng.randrange(q)
    secrets = [dict(q=q, v=v, ty="bn", how="init", init=True) for v in (x, r, y)]
    if kind == "ne":
        n = dict(k="ne", g=g, v=[x, 1], i=[x - 1, 1], x=0, bind=rng.random() < 0.5)
    elif kind == "r2":
        gg = rng.randrange(q)
        n = dict(k="r2", g=g, c=(x * gg + r) % q, gg=gg, hh=1, n=2, x=0, r=1)
    else:
        e, s = rng.randrange(q), rng.randrange(q)
        secrets += [dict(q=q, v=None), dict(q=q, v=None)]
        n = dict(k="bbs", g=g, key=0, m=[0, 1], e=3, sv=4, bind=True, sig=dict(key=0, m=[x, r], e=e, s=s))
    other = dict(k="dl", g=g, t=[[2, 1]], y=y)
    spec = dict(n=dict(k="or", s=[n, other]), secrets=secrets)
    for real in (0, 1):
        s = copy.deepcopy(spec)
        s["n"]["s"][1 - real]["sim"] = True
        b = model.build(s, "p")
        out = drive.attempt(lambda: b.stmt.get_prover(b.sdict).precommit())
        if out.err is not None:
            ctx.violation("not-provable", "%s: %r" % (kind, out), spec=s)
            return
        pc = out.value[0]
        pts = [pc] if kind == "ne" else list(pc["Cs"]) if kind == "r2" else [pc["A1"], pc["A2"]]
        if kind == "r2":
            pts += [z + P(g, -n["gg"]) for z in pts] + [z + P(g, -n["c"]) for z in pts[:1]]
        for j, z in enumerate(pts):
            ctx.count("multiples_tried")
            if is_small(g, z, (32 if ctx.tier == "thorough" else 30) if g == "p224" else 26):
                ctx.violation("small-multiple", "%s, disjunct %d real: point %d of the precommitment is a small multiple of the generator" % (kind, real, j), spec=s)
                return
    ctx.eval(("small", kind), n=2)


def case(ctx, rng, i):
    if i % 120 == 60:
        return small_multiples(ctx, rng, i // 120)
    if i % 2:
        statistics(ctx, rng, i // 2)
    else:
        compare(ctx, rng, i // 2)


def chi2(counts):
    n = sum(counts)
    e = n / len(counts)
    return sum((c - e) ** 2 / e for c in counts)


def two_samples(a, b):
    """Chi-squared of two histograms, rare values taken together."""
    na, nb = sum(a.values()), sum(b.values())
    cells, rare = [], [0, 0]
    for k in set(a) | set(b):
        if a[k] + b[k] >= 20:
            cells.append((a[k], b[k]))
        else:
            rare = [rare[0] + a[k], rare[1] + b[k]]
    if sum(rare) >= 20:
        cells.append(tuple(rare))
    x = 0
    for u, v in cells:
        for got, n in ((u, na), (v, nb)):
            e = (u + v) * n / (na + nb)
            x += (got - e) ** 2 / e
    return x


def finish(ctx):
    rows = ctx.data.pop("rows", [])
    by = {}
    for key, uv, val in rows:
        by.setdefault(key, []).append((uv, val))
        # all modes of one position together, too
        by.setdefault((key[0], key[1], "all", key[3]), []).append((uv, val))
    fams = families()
    for key, vs in sorted(by.items(), key=repr):
        if len(vs) < 100:
            continue
        ctx.count("statistics")
        where = "%s, real disjunct %d, %s, position %s" % (fams[key[0]][0], key[1], key[2], key[3])
        for w, what in ((0, "leading"), (1, "trailing")):
            counts = [0] * 16
            for uv, _ in vs:
                if 0 <= uv[w] < 16:
                    counts[uv[w]] += 1
            x = chi2(counts) if sum(counts) == len(vs) else 1e9
            if x > 110:  # 15 degrees of freedom: p < 1e-15
                ctx.violation("not-uniform", "%s digits at %s: %s" % (what, where, counts))
        if vs[0][1] is not None:
            n = len(vs)
            for bit in range(128):
                ones = sum((val >> bit) & 1 for _, val in vs)
                if (2 * ones - n) ** 2 > 64 * n:  # 8 standard deviations
                    ctx.violation("biased-bit", "bit %d of the subchallenge at %s: %d of %d" % (bit, where, ones, n))
                    break
    ctx.count("samples", len(rows))
    # numbers at one position, between the proofs that differ in what is real
    nums = {}
    for key, real, cats in ctx.data.pop("nums", []):
        nums.setdefault(key, {}).setdefault(real, []).append(cats)
    for key, per in sorted(nums.items(), key=repr):
        for w, what in ((0, "size"), (1, "trailing digit")):
            hist = {r: collections.Counter(c[w] for c in vs) for r, vs in per.items()}
            for r1 in sorted(hist):
                for r2 in sorted(hist):
                    if r1 < r2 and min(sum(hist[r1].values()), sum(hist[r2].values())) >= 100:
                        ctx.count("two_samples_compared")
                        x = two_samples(hist[r1], hist[r2])
                        if x > 110:
                            ctx.violation("distributions-differ", "%s of number %d of the %s of %s: %s if disjunct %d is real, %s if %d is" % (what, key[2], key[1], fams[key[0]][0], dict(hist[r1]), r1, dict(hist[r2]), r2))
