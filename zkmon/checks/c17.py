"""C17: statement objects can be reused and recomposed freely."""
import copy
import json

from zkmon import gen, model, drive, tamper
from zkmon.model import bn, to_int, P, order

import zksk
from zksk import Secret, DLRep
from zksk.base import NIZK
from zksk.composition import AndProofStmt, OrProofStmt

ID = "C17"
TECHNIQUE = "random histories of operations over a pool of shared statement, expression and secret objects; every outcome is compared with that of the same operation on objects built for it alone, and with a model; arguments that callers pass are compared before and after, secrets are reused over unrelated statements, and one object is used some hundred times"
RULE = (
    "histories of 8 to 40 operations (composition, also of composed, flagged and repeated operands; proofs interactive or not, with right and wrong values; abandoned sessions; verification of genuine, changed and foreign proofs; "
    "simulation; flags; copies; queries) over a growing pool of statements sharing secrets and expressions; containers, values and messages that callers pass, before and after each operation; distinct by sequence of operations and shapes"
)
QUICK, THOROUGH = 900, 40000
REQUIRED = [
    "op_prove", "op_live", "op_verify", "op_verify_changed", "op_verify_foreign", "op_simulate", "op_compose", "op_flag", "op_abandon", "op_wrong_values", "op_copy", "op_query",
    "proven_after_composition", "operand_proven_after_composed_use", "same_operand_twice", "refused_as_fresh", "shared_expression", "extended", "arguments_unchanged", "secrets_with_a_past", "long_run_uses", "given_randomizers", "proven_with_used_secrets",
]
MODES = ["prove", "live"]


class World:
    def __init__(self, rng):
        self.rng = rng
        g = gen.Gen(rng, max_leaves=3, max_depth=2, p_leaf=0.6, plain_forms=("and", "single"), homog=0.85, groups=[("p224", 10), ("p256", 6), ("secp256k1", 1), ("G1", 0.7)],
                    kinds=[("dl", 9), ("ne", 3), ("r2", 1), ("rg", 1), ("bbs", 0.2), ("plain", 1.2), ("blind", 1.5)])
        self.pool = []
        nodes = []
        self.uid = 0
        for _ in range(rng.choice([2, 3, 4])):
            mode = rng.choice(["true", "true", "true", "sim", "missing"])
            if rng.random() < 0.6 or mode == "missing":
                g.leaves = 0
                n = g.leaf(self.pool, mode)
            else:
                g.leaves = 0
                n = g.node(2, self.pool, mode, False)
            nodes.append(n)
        # relations that extend others
        for n in list(nodes):
            if n["k"] == "dl" and rng.random() < 0.7:
                m = copy.deepcopy(n)
                for _ in range(rng.choice([0, 1, 2])):
                    m["t"].append([rng.choice([s for s, _ in n["t"]]), rng.randrange(1, order(n["g"]))])
                vals = [g.secrets[s]["v"] for s, _ in m["t"]]
                if None not in vals:
                    m["y"] = (sum(v * b for v, (_, b) in zip(vals, m["t"])) + rng.choice([0, 0, 0, 1])) % order(m["g"])
                m.pop("sim", None)
                m.pop("simctor", None)
                nodes.append(m)
        self.secrets = g.secrets
        for n in nodes:
            for m, _ in model.walk(n):
                m.pop("op", None)
                if m["k"] not in ("and", "or"):
                    self.uid += 1
                    m["uid"] = self.uid
        self.P = [Secret(name=s["name"]) if s.get("name") else Secret() for s in self.secrets]
        self.V = [Secret() for s in self.secrets]
        self.sdict = {}
        for s, sec in zip(self.secrets, self.P):
            if s["v"] is None:
                continue
            if s.get("init") or s.get("how") == "init":
                sec.value = model.sec_value(s)
            else:
                self.sdict[sec] = model.sec_value(s)
        self.ex = {"p": {}, "v": {}}
        # statements: [node, object of the prover, object of the verifier, history]
        self.st = []
        for n in nodes:
            if self.ok(n):
                self.st.append([n, self.make(n, "p"), self.make(n, "v"), []])

    def spec(self, n):
        return dict(n=n, secrets=self.secrets)

    def ok(self, n):
        return gen.composition_ok(self.spec(n)) and inout_ok(n)

    def make(self, n, role):
        """Like model.build_node, with relations made from common expressions."""
        S = self.P if role == "p" else self.V
        if n["k"] in ("and", "or"):
            st = (AndProofStmt if n["k"] == "and" else OrProofStmt)(*[self.make(c, role) for c in n["s"]])
            if role == "p" and n.get("sim"):
                st.set_simulated()
            return st
        if n["k"] != "dl":
            return model.build_node(self.spec(n), n, S, role, role == "p", ("u", n["uid"]))
        cache = self.ex[role]
        e = None
        key = ()
        for s, b in n["t"]:
            key += ((s, b),)
            if key in cache:
                self.shared = True
                e = cache[key]
                continue
            one = cache.get(((s, b),))
            if one is None:
                one = cache[((s, b),)] = S[s] * P(n["g"], b)
            if e is None:
                e = one
            else:
                e = e + one
            cache[key] = e
        st = DLRep(P(n["g"], n["y"]), e)
        if role == "p" and n.get("sim"):
            st.set_simulated()
        return st

    shared = False

    def fresh(self, n, role):
        return model.build(self.spec(copy.deepcopy(n)), role)


def occ(n):
    """Secrets of a node as composition sees them, with those that its object makes when constructed."""
    if n["k"] in ("and", "or"):
        return [x for c in n["s"] for x in occ(c)]
    out = [s for s, _ in gen.node_secret_occ(n)]
    if n["k"] == "blind" or (n["k"] == "bbs" and not n["bind"]):
        out.append(("r", n["uid"]))
    return out


def inout_ok(n):
    """No secret both inside and outside of an or-proof in a conjunction; an object that makes a secret when constructed occurs once."""

    def ors(m):
        if m["k"] == "or":
            yield m
        for c in model.kids(m):
            yield from ors(c)

    all_ = occ(n)
    if any(isinstance(x, tuple) and all_.count(x) > 1 for x in all_):
        return False
    for m, _ in model.walk(n):
        if m["k"] != "and":
            continue
        all_ = occ(m)
        for o in ors(m):
            mine = occ(o)
            if any(all_.count(s) > mine.count(s) for s in set(mine)):
                return False
    return True


def canon(n):
    """The public statement, for comparison."""
    ids = {}

    def rec(x):
        if isinstance(x, dict):
            out = {}
            for k, v in sorted(x.items()):
                if k in ("sim", "simctor", "uid", "sig", "w", "bnp", "op"):
                    continue
                out[k] = ids.setdefault(v, len(ids)) if k in ("x", "r", "e", "sv") else rec_t(k, v)
            return out
        if isinstance(x, list):
            return [rec(y) for y in x]
        return x

    def rec_t(k, v):
        if k == "t":
            return [[ids.setdefault(s, len(ids)), b] for s, b in v]
        if k == "m":
            return [ids.setdefault(s, len(ids)) for s in v]
        if k == "eqs":
            return [[y, [[ids.setdefault(s, len(ids)), b] for s, b in t]] for y, t in v]
        return rec(v)

    return json.dumps(rec(n), sort_keys=True)


def verify_fresh(w, n, nizk, msg):
    return drive.attempt(lambda: w.fresh(n, "v").stmt.verify(nizk, message=msg))


def prove_with(w, stmt, sdict, mode, msg, verifier):
    """Verdict of an honest run; returns (Outcome, nizk or None)."""
    box = []

    def run():
        if mode == "prove":
            z = stmt.prove(dict(sdict), message=msg)
            box.append(z)
            return verifier().verify(z, message=msg)
        p = stmt.get_prover(dict(sdict))
        return drive.interact(p, verifier().get_verifier())

    return drive.attempt(run), box[0] if box else None


OPS = [("prove", 5), ("live", 3), ("verify", 4), ("verify_changed", 2), ("verify_foreign", 1.5), ("simulate", 3), ("compose", 5), ("flag", 1.5), ("abandon", 1.5), ("wrong_values", 1), ("copy", 1), ("query", 1.5)]


def history(ctx, rng, i):
    w = World(rng)
    if not w.st:
        return
    if w.shared:
        ctx.count("shared_expression")
    nizks = []  # (statement index, nizk, message)
    trace = []
    n_ops = rng.choice([8, 12, 20, 40])
    for step in range(n_ops):
        op = gen.wchoice(rng, OPS)
        j = rng.randrange(len(w.st))
        n, p, v, hist = w.st[j]
        ctx.count("op_" + op)
        shape = model.shape(n)
        trace.append((op, j))
        det = "step %d, %s of %s (number %d, before: %s)" % (step, op, shape, j, hist[-8:])

        def bad(mech, text):
            ctx.violation(mech, "%s: %s" % (det, text), trace=trace, nodes=[x[0] for x in w.st], secrets=w.secrets)

        if op in ("prove", "live"):
            msg = rng.choice(["", "m"])
            if rng.random() < 0.3:
                vf = lambda: v
            elif rng.random() < 0.15:
                vf = lambda: p
            else:
                vf = lambda: w.fresh(n, "v").stmt
            out, z = prove_with(w, p, w.sdict, op, msg, vf)
            b = w.fresh(n, "p")
            ref, _ = prove_with(w, b.stmt, b.sdict, op, msg, lambda: w.fresh(n, "v").stmt)
            spec = w.spec(n)
            want = model.truth(spec, n) if model.provable(spec, n) else False
            if want is not None:
                if ref.accept != want and not n.get("sim"):
                    ctx.count("calibration_failed")
                    ctx.collect("calib", "%s fresh: %r" % (shape, ref))
                elif out.accept != ref.accept:
                    bad("differs-from-fresh", "%r; with objects of its own: %r" % (out, ref))
                    return
                if out.accept:
                    if any(h.startswith("composed") for h in hist):
                        ctx.count("proven_after_composition")
                    if any(h == "part proven" for h in hist):
                        ctx.count("operand_proven_after_composed_use")
                    if z is not None:
                        nizks.append((j, z, msg))
                        if len(nizks) > 8:
                            nizks.pop(rng.randrange(8))
                else:
                    ctx.count("refused_as_fresh")
            if any(m["k"] in ("ne", "r2", "rg", "bbs", "plain", "blind") for m, _ in model.walk(n)):
                ctx.count("extended")
            hist.append(op)
            mark_parts(w, j)
        elif op in ("verify", "verify_changed", "verify_foreign"):
            if not nizks:
                continue
            t, z, msg = rng.choice(nizks)
            if rng.random() < 0.5:
                z = drive.transport(z, "ser")
            tn, tp, tv, th = w.st[t]
            obj = tv if rng.random() < 0.75 else tp
            if op == "verify":
                det = "step %d, verify of %s (number %d, before: %s)" % (step, model.shape(tn), t, th[-8:])
                out = drive.attempt(obj.verify, z, message=msg)
                if not out.accept:
                    if verify_fresh(w, tn, z, msg).accept:
                        bad("genuine-refused", "%r; by a fresh statement accepted" % out)
                        return
            elif op == "verify_changed":
                how, y = changed(rng, z)
                out = drive.attempt(obj.verify, y, message=msg + ("x" if how == "message" else ""))
                if out.accept and not verify_fresh(w, tn, y, msg + ("x" if how == "message" else "")).accept:
                    bad("changed-accepted", how)
                    return
            else:
                if canon(tn) == canon(n):
                    continue
                obj = v if rng.random() < 0.75 else p
                out = drive.attempt(obj.verify, z, message=msg)
                if out.accept:
                    bad("foreign-accepted", "a proof of %s" % model.shape(tn))
                    return
            (th if op != "verify_foreign" else hist).append(op)
        elif op == "simulate":
            obj = v if rng.random() < 0.6 else p
            c = rng.choice([None, bn(rng.randrange(2 ** 128))])

            def run(s, t):
                tr = s.simulate(c) if c is not None else s.simulate()
                if c is not None and tr.challenge != c:
                    return False
                return t.verify_simulation_consistency(tr)

            out = drive.attempt(run, obj, obj if rng.random() < 0.5 else w.fresh(n, "v").stmt)
            ref = drive.attempt(run, w.fresh(n, "v").stmt, w.fresh(n, "v").stmt)
            if not ref.accept:
                ctx.count("calibration_failed")
                ctx.collect("calib", "simulation of %s: %r" % (shape, ref))
            elif not out.accept:
                bad("simulation-differs", "%r" % out)
                return
            hist.append("simulate")
        elif op == "compose":
            k = rng.choice(["and", "or"])
            idx = [rng.randrange(len(w.st)) for _ in range(rng.choice([2, 2, 2, 3, 4]))]
            m = dict(k=k, s=[copy.deepcopy(w.st[x][0]) for x in idx])
            if not w.ok(m) or len(list(model.walk(m))) > 25:
                continue
            if any(x["k"] == k or x["k"] == "rg" for x in m["s"]) or rng.random() < 0.5:
                cls = AndProofStmt if k == "and" else OrProofStmt
                mk = lambda col: cls(*[w.st[x][col] for x in idx])
                how = "composed"
            else:
                def mk(col):
                    r = w.st[idx[0]][col]
                    for x in idx[1:]:
                        r = (r & w.st[x][col]) if k == "and" else (r | w.st[x][col])
                    return r
                how = "composed by operator"
            new = [m, mk(1), mk(2), []]
            new.append(idx)
            w.st.append(new[:4])
            w.parts = getattr(w, "parts", {})
            w.parts[len(w.st) - 1] = idx
            if len(set(idx)) < len(idx):
                ctx.count("same_operand_twice")
            for x in idx:
                w.st[x][3].append(how)
        elif op == "flag":
            val = rng.random() < 0.5
            p.set_simulated(val)
            if val:
                n["sim"] = True
            else:
                n.pop("sim", None)
            n.pop("simctor", None)
            hist.append("flag %s" % val)
        elif op == "abandon":
            def run():
                q = p.get_prover(dict(w.sdict))
                u = v.get_verifier()
                upto = rng.randrange(5)
                if upto > 0:
                    pc = q.precommit()
                    u.process_precommitment(pc)
                if upto > 1:
                    c = q.commit()
                if upto > 2:
                    h = u.send_challenge(c)
                if upto > 3:
                    q.compute_response(h)

            drive.attempt(run)
            hist.append("abandon")
        elif op == "wrong_values":
            wrong = dict(w.sdict)
            mine = [s for s in wrong if rng.random() < 0.5]
            for s in mine:
                wrong[s] = bn(rng.randrange(1000))
            vf = lambda: w.fresh(n, "v").stmt
            prove_with(w, p, wrong, rng.choice(MODES), "", vf)
            # the values given last count for all of the objects sharing the secrets
            hist.append("wrong_values")
        elif op == "copy":
            f = copy.copy if rng.random() < 0.7 else copy.deepcopy
            if f is copy.copy:
                a = drive.attempt(f, p)
                b = drive.attempt(f, v)
                if a.err is None and b.err is None:
                    w.st.append([copy.deepcopy(n), a.value, b.value, ["copy"]])
            else:
                b = drive.attempt(f, v)
                if b.err is None:
                    # a copy has secrets of its own; as a verifier it is the same statement
                    w.st[j][2] = b.value
            hist.append("copied")
        else:
            for obj in (p, v):
                for f in (lambda: repr(obj), lambda: obj.get_secret_vars(), lambda: obj.get_bases(), lambda: obj.get_proof_id(), lambda: obj.prehash_statement(), lambda: obj.is_provable(), lambda: obj.simulated,
                          lambda: obj.get_prover(dict(w.sdict)), lambda: obj.get_verifier(), lambda: obj.validate_composition()):
                    if rng.random() < 0.5:
                        drive.attempt(f)
            hist.append("query")
    ctx.eval(tuple((op, model.shape(w.st[j][0])) for op, j in trace), n=len(trace))
    ctx.sample(dict(operations=trace[:30], statements=[model.shape(x[0]) for x in w.st][:8]))


def mark_parts(w, j):
    for x in getattr(w, "parts", {}).get(j, []):
        w.st[x][3].append("part proven")


def changed(rng, z):
    c = rng.randrange(4)
    if c == 0:
        return "message", z
    f = dict(challenge=z.challenge, responses=z.responses, precommitment=z.precommitment, stmt_hash=z.stmt_hash)
    if c == 1:
        f["challenge"] = bn(to_int(z.challenge) + rng.choice([1, 2 ** 128, -1]))
        return "challenge", NIZK(**f)
    key = rng.choice(["responses", "responses", "precommitment", "stmt_hash"])
    ps = [x for x in tamper.paths(f[key])]
    path = rng.choice(ps)
    r = tamper.change(rng, tamper.get(f[key], path))
    if r is None:
        return "message", z
    f[key] = tamper.put(f[key], path, r[1])
    return key, NIZK(**f)


# ---------------------------------------------------------------- what callers pass stays theirs


def frozen(x):
    """A copy of a message."""
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [frozen(y) for y in x])
    if isinstance(x, dict):
        return [(k, frozen(v)) for k, v in x.items()]
    return (tamper.gname(x), x.export()) if isinstance(x, tamper.POINTS) else repr(x)


def same(a, b):
    return len(a) == len(b) and all(x is y if not isinstance(x, tuple) else x[0] is y[0] and x[1] is y[1] for x, y in zip(a, b))


def arguments(ctx, rng, i):
    spec = gen.gen_spec(
        rng, max_leaves=rng.choice([1, 2, 3]), max_depth=2, kinds=[("dl", 5), ("ne", 2), ("r2", 1), ("rg", 0.5), ("bbs", 2), ("plain", 1), ("blind", 2)],
    )
    model.WATCH = given = []
    try:
        b, v = model.build(spec, "p"), model.build(spec, "v")
    finally:
        model.WATCH = None
    keys = [(m["key"], list(model.bbs_key(m["key"])[1].generators)) for m, _ in model.walk(spec["n"]) if m["k"] == "bbs"]
    values = lambda: [None if s.value is None else to_int(s.value) for s in b.secrets]
    before = values()
    sd = dict(b.sdict)
    sd0 = list(sd.items())
    after = [to_int(sd[s]) if s in sd else x for s, x in zip(b.secrets, before)]
    det = model.shape(spec["n"])

    def look(when):
        for c, items in given:
            now = list(c.items()) if isinstance(c, dict) else list(c)
            if not same(now, items):
                ctx.violation("argument-changed", "%s, %s: %s given, now %s" % (det, when, items, now), spec=spec)
                return False
        if not same(list(sd.items()), sd0):
            ctx.violation("values-changed", "%s, %s: the mapping of values was changed" % (det, when), spec=spec)
        elif values() not in (before, after) and not all(x in (y, z) for x, y, z in zip(values(), before, after)):
            ctx.violation("secret-changed", "%s, %s: %s became %s" % (det, when, before, values()), spec=spec)
        elif any(s.value is not None for s in v.secrets):
            ctx.violation("verifier-secret-set", "%s, %s: %s" % (det, when, v.secrets), spec=spec)
        elif any(not same(model.bbs_key(k)[1].generators, g) for k, g in keys):
            ctx.violation("key-changed", "%s, %s" % (det, when), spec=spec)
        else:
            ctx.count("arguments_unchanged")
            return True
        return False

    if not look("construction"):
        return
    for op in rng.sample(["prove", "live", "simulate", "copy", "refuse"], rng.randrange(2, 6)):
        if op == "prove":
            z = b.stmt.prove(sd)
            was = frozen([z.challenge, z.responses, z.precommitment, z.stmt_hash])
            v.stmt.verify(z)
            if frozen([z.challenge, z.responses, z.precommitment, z.stmt_hash]) != was:
                ctx.violation("proof-changed", "%s: verification changes the proof" % det, spec=spec)
                return
        elif op == "live":
            p, u = b.stmt.get_prover(sd), v.stmt.get_verifier()
            msgs = []
            # randomizers of the caller's, for some of the secrets
            rd = None
            if rng.random() < 0.6:
                most = rng.choice([0.5, 1])
                rd = {x: bn(rng.randrange(d["q"])) for x, d in zip(b.secrets, spec["secrets"]) if rng.random() < most}
                if rng.random() < 0.3:
                    rd[Secret()] = bn(5)
                rd0 = list(rd.items())

            def see(m, name):
                msgs.append((m, frozen(m), name))
                return m

            u.process_precommitment(see(p.precommit(), "precommitment"))
            c = see(u.send_challenge(see(p.commit() if rd is None else p.commit(rd), "commitment")), "challenge")
            ok = u.verify(see(p.compute_response(c), "responses"))
            if rd is not None:
                if not same(list(rd.items()), rd0):
                    ctx.violation("randomizers-changed", "%s: the caller's randomizers %s are now %s" % (det, rd0, rd), spec=spec)
                    return
                ctx.count("given_randomizers")
                if not ok:
                    ctx.violation("refused-with-randomizers", "%s: %s" % (det, rd0), spec=spec)
                    return
            for m, was, name in msgs:
                if frozen(m) != was:
                    ctx.violation("message-changed", "%s: the %s changed after it was passed on" % (det, name), spec=spec)
                    return
        elif op == "simulate":
            t = v.stmt.simulate()
            was = frozen([t.commitment, t.challenge, t.responses, t.precommitment, t.stmt_hash])
            v.stmt.verify_simulation_consistency(t)
            if frozen([t.commitment, t.challenge, t.responses, t.precommitment, t.stmt_hash]) != was:
                ctx.violation("transcript-changed", "%s: the consistency check changes the transcript" % det, spec=spec)
                return
        elif op == "copy":
            copy.copy(b.stmt)
            copy.copy(v.stmt)
        else:
            t = v.stmt.simulate()
            drive.attempt(v.stmt.verify, NIZK(t.challenge, t.responses, t.precommitment, t.stmt_hash))
        ctx.eval(("arguments", det, op))
        if not look(op):
            return


# ---------------------------------------------------------------- secrets that outlive their values


def lifetimes(ctx, rng, i):
    """One set of secret objects, used in one statement after the other, with other values each time."""
    P = [Secret(name="p%d" % j if rng.random() < 0.2 else None) for j in range(120)]
    V = [Secret() for _ in P]
    used_for = {}
    kept = []
    trace = []
    for step in range(rng.randrange(3, 8)):
        spec = gen.gen_spec(
            rng, max_leaves=rng.choice([1, 1, 2, 3]), max_depth=2, kinds=[("dl", 4), ("ne", 3), ("r2", 1), ("rg", 1), ("bbs", 2.5), ("plain", 1), ("blind", 1.5)],
        )
        if len(spec["secrets"]) > len(P):
            continue
        false = rng.random() < 0.25
        if false:
            gen.falsify(rng, spec)
            if model.truth(spec, spec["n"]) is not False:
                continue
        perm = list(range(len(P)))
        k = len(spec["secrets"]) + rng.randrange(3)
        head = perm[:k]
        rng.shuffle(head)
        perm[:k] = head
        shape = model.shape(spec["n"])
        mode = rng.choice(["prove", "prove", "live"])

        def run():
            b = model.build(spec, "p", pool=[P[x] for x in perm])
            v = model.build(spec, "v") if rng.random() < 0.5 else model.build(spec, "v", pool=[V[x] for x in perm])
            kept.append((v.stmt, None, shape))
            if mode == "live":
                return drive.interact(b.stmt.get_prover(b.sdict), v.stmt.get_verifier())
            z = b.stmt.prove(b.sdict)
            ok = v.stmt.verify(z)
            if ok:
                kept[-1] = (v.stmt, z, shape)
            return ok

        out = drive.attempt(run)
        trace.append((mode, false, shape))
        again = sum(1 for s in range(len(spec["secrets"])) if perm[s] in used_for)
        ctx.eval(("lifetimes",) + tuple(trace))
        if again:
            ctx.count("secrets_with_a_past", again)
        if out.accept and false:
            ctx.violation("false-accepted", "after %s: %r" % (trace, out), spec=spec)
            return
        if not out.accept and not false:
            ref = prove_alone(spec, mode)
            if not ref.accept:
                ctx.count("calibration_failed")
                ctx.collect("calib", "%s: %r" % (shape, ref))
                return
            ctx.violation("past-of-secrets-matters", "%s, %s, accepted with new secrets, but after %s: %r" % (mode, shape, trace[:-1], out), spec=spec)
            return
        if not false:
            ctx.count("proven_with_used_secrets" if again else "proven_with_new_secrets")
        for s in range(len(spec["secrets"])):
            used_for[perm[s]] = step
        # earlier statements are as good as they were
        st, z, sh = rng.choice(kept)
        if z is not None:
            out = drive.attempt(st.verify, z)
            if not out.accept:
                ctx.violation("earlier-proof-refused", "%s after %s: %r" % (sh, trace, out), spec=spec)
                return


def prove_alone(spec, mode):
    def run():
        b, v = model.build(spec, "p"), model.build(spec, "v")
        if mode == "live":
            return drive.interact(b.stmt.get_prover(b.sdict), v.stmt.get_verifier())
        return v.stmt.verify(b.stmt.prove(b.sdict))

    return drive.attempt(run)


def marathon(ctx, rng, i):
    """The same few objects used many times over."""
    spec = gen.gen_spec(rng, max_leaves=rng.choice([1, 2, 3]), max_depth=2, kinds=[("dl", 8), ("ne", 2), ("plain", 1), ("blind", 1), ("r2", 0.5)], groups=[("p224", 3), ("p256", 1)])
    shape = model.shape(spec["n"])
    b, v = model.build(spec, "p"), model.build(spec, "v")
    prover, verifier = b.stmt.get_prover(b.sdict), v.stmt.get_verifier()
    n = rng.choice([150, 300, 600])
    first = None
    seen = set()
    for k in range(n):
        how = rng.choice(["prove", "prover", "live", "verifier", "simulate"])
        det = "%s, use %d, %s" % (shape, k, how)
        if how == "simulate":
            out = drive.attempt(lambda: v.stmt.verify_simulation_consistency(v.stmt.simulate()))
        elif how == "live":
            out = drive.attempt(lambda: drive.interact(b.stmt.get_prover(b.sdict), v.stmt.get_verifier()))
        elif how == "verifier":
            verifier = v.stmt.get_verifier() if rng.random() < 0.05 else verifier
            if any(m["k"] in ("ne", "rg", "r2", "plain", "blind", "or", "bbs") for m, _ in model.walk(spec["n"])):
                continue
            out = drive.attempt(lambda: drive.interact(prover, verifier))
        else:
            z = b.stmt.prove(b.sdict) if how == "prove" else prover.get_nizk_proof()
            c = to_int(z.challenge)
            if c in seen:
                ctx.violation("proof-repeats", det, spec=spec)
                return
            seen.add(c)
            first = first or z
            out = drive.attempt(lambda: v.stmt.verify(z) and v.stmt.verify(first))
        if not out.accept:
            ctx.violation("fails-in-the-long-run", "%s: %r" % (det, out), spec=spec)
            return
        ctx.count("long_run_uses")
    ctx.eval(("marathon", shape, n))


def case(ctx, rng, i):
    if i % 40 == 10:
        marathon(ctx, rng, i)
        return
    if i % 8 == 6:
        lifetimes(ctx, rng, i)
        return
    if i % 4 == 3:
        arguments(ctx, rng, i)
    else:
        history(ctx, rng, i)
