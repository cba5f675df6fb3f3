"""C18: concurrent protocol runs do not affect each other."""
import copy
import sys
import threading
import time

from zkmon import core, gen, model, drive, adv, tamper
from zkmon.model import bn, to_int, P, order
from zkmon.checks import c12

import zksk
from zksk import Secret, DLRep
from zksk.base import NIZK, build_fiat_shamir_challenge
from zksk.composition import AndProofStmt, OrProofStmt
from zksk.primitives.dl_notequal import DLNotEqual
from zksk.primitives.rangeproof import PowerTwoRangeStmt
from zksk.primitives.bbsplus import BBSPlusSignatureCreator

ID = "C18"
TECHNIQUE = "random schedules of protocol messages of several sessions over shared statement objects, with per-session verdict monitors; adaptive cross-session forgeries; threads with injected switches over objects of their own"
RULE = (
    "2 to 6 sessions (interactive and not, honest, crossed with another, over a false statement, with other values of the secrets) over shared statements and statements sharing operands, in random order of messages; "
    "forgeries choosing precommitments in one session after the challenge of another; and threads; distinct by schedule and shapes"
)
QUICK, THOROUGH = 1300, 50000
REQUIRED = [
    "sessions", "overlapping", "crossed_refused", "false_refused", "forgery_refused", "forgery_calibrated", "threads", "thread_switches", "shared_threads", "shared_thread_switches", "other_values_accepted", "other_values_refused", "other_values_r2", "other_values_ne", "other_values_ne_bound",
    "shared_operand", "with_precommitment", "same_object_both_roles", "issuance_interleaved", "issuance_threads",
]
KINDS = [("dl", 8), ("ne", 4), ("r2", 1), ("rg", 1), ("bbs", 0.25), ("plain", 1.2), ("blind", 2)]
GROUPS = [("p224", 10), ("p256", 5), ("secp256k1", 1), ("G1", 0.6)]


class Session:
    """One run as a list of steps; steps of several sessions are interleaved by the scheduler."""

    def __init__(self, name, pstmt, vstmt, sdict, kind, msg=""):
        self.name, self.kind = name, kind
        self.p, self.v, self.sdict, self.msg = pstmt, vstmt, sdict, msg
        self.verdict = None
        self.err = None
        self.pos = 0
        self.pc = self.com = self.ch = self.resp = None
        self.inject = {}  # replaces messages towards the verifier
        self.steps = {
            "live": [self.get_prover, self.get_verifier, self.precommit, self.send_pc, self.commit, self.challenge, self.respond, self.verify],
            "nizk": [self.prove, self.verify_nizk],
            "slow_nizk": [self.get_prover, self.get_verifier, self.nizk, self.verify_nizk2],
        }[kind]

    def get_prover(self):
        self.prover = self.p.get_prover(dict(self.sdict))

    def get_verifier(self):
        self.verifier = self.v.get_verifier()

    def precommit(self):
        self.pc = self.prover.precommit()

    def send_pc(self):
        self.verifier.process_precommitment(self.inject.get("pc", lambda: self.pc)())

    def commit(self):
        self.com = self.prover.commit()

    def challenge(self):
        self.ch = self.verifier.send_challenge(self.inject.get("com", lambda: self.com)())

    def respond(self):
        self.resp = self.prover.compute_response(self.ch)

    def verify(self):
        self.verdict = self.verifier.verify(self.inject.get("resp", lambda: self.resp)())

    def prove(self):
        self.z = self.p.prove(dict(self.sdict), message=self.msg)

    def nizk(self):
        self.z = self.prover.get_nizk_proof(self.msg)

    def verify_nizk(self):
        self.verdict = self.v.verify(drive.transport(self.z, "ser"), message=self.msg)

    def verify_nizk2(self):
        self.verdict = self.verifier.verify_nizk(self.z, self.msg)

    def done(self):
        return self.err is not None or self.pos == len(self.steps)

    def step(self):
        try:
            self.steps[self.pos]()
        except Exception as e:
            self.err = e
        self.pos += 1

    def accepted(self):
        return self.err is None and bool(self.verdict)

    def outcome(self):
        return "raised %r" % self.err if self.err is not None else "returned %r" % (self.verdict,)


def run(rng, sessions, waits=()):
    """Interleave at random; waits: (a, step, b, step) - a's step needs b to be past a step. Returns the schedule."""
    sched = []
    style = rng.choice(["uniform", "rounds", "bursts", "uniform"])
    burst = None
    while True:
        ready = [s for s in sessions if not s.done() and not any(a is s and s.pos == i and not (b.done() or b.pos > j) for a, i, b, j in waits)]
        if not ready:
            break
        if style == "rounds":
            s = min(ready, key=lambda s: (s.pos, rng.random()))
        elif style == "bursts" and burst in ready and rng.random() < 0.7:
            s = burst
        else:
            s = rng.choice(ready)
        burst = s
        sched.append("%s.%d" % (s.name, s.pos))
        s.step()
    return sched


def shared_statements(rng):
    """One or two statements over common operands, as objects of both worlds, with spec nodes."""
    while True:
        spec = gen.gen_spec(rng, max_leaves=rng.choice([1, 2, 2, 3, 4]), max_depth=2, kinds=KINDS, groups=GROUPS, plain_forms=("and", "single"), homog=0.9)
        for n, _ in model.walk(spec["n"]):
            n.pop("op", None)
        b, v = model.build(spec, "p"), model.build(spec, "v")
        out = [(spec["n"], b.stmt, v.stmt)]
        if rng.random() < 0.4:
            # another statement around the same objects
            q = order("p224")
            x = rng.randrange(q)
            S, T = Secret(value=bn(x)), Secret()
            base = rng.randrange(1, q)
            leaf = dict(k="dl", g="p224", t=[[len(spec["secrets"]), base]], y=x * base % q)
            spec["secrets"].append(dict(q=q, v=x, ty="bn", how="init"))
            b.secrets.append(S)
            v.secrets.append(T)
            mk = lambda s: DLRep(P("p224", leaf["y"]), s * P("p224", base))
            k = rng.choice(["and", "or"])
            cls = AndProofStmt if k == "and" else OrProofStmt
            from zkmon.checks.c17 import inout_ok

            node = dict(k=k, s=[copy.deepcopy(spec["n"]), leaf])
            for j, (m, _) in enumerate(model.walk(node)):
                m["uid"] = j
            if inout_ok(node) and model.provable(spec, node) and model.truth(spec, node) is True:
                out.append((node, cls(b.stmt, mk(S)), cls(v.stmt, mk(T))))
        return spec, b, v, out


def schedule(ctx, rng, i):
    spec, b, v, sts = shared_statements(rng)
    sessions, expect = [], []
    waits = []
    fspec = None
    N = rng.choice([2, 2, 3, 4, 6])
    false_v = None
    for a in range(N):
        n, p, w = rng.choice(sts)
        kind = rng.choice(["live", "live", "live", "nizk", "slow_nizk"])
        vs = w
        t = rng.random()
        if t < 0.1:
            vs = p
            ctx.count("same_object_both_roles")
        s = Session("s%d" % a, p, vs, b.sdict, kind, rng.choice(["", "m%d" % a]))
        want = True
        if t > 0.8 and fspec is None:
            # whether a signature is valid does not show in the statement: something else
            for _ in range(5):
                fspec = copy.deepcopy(dict(spec, n=sts[0][0]))
                if not any(x.startswith("bbs") for x in gen.falsify(rng, fspec)):
                    false_v = model.build(fspec, "v").stmt
                    break
        if t > 0.8 and false_v is not None:
            # the verifier's statement is a false one; everything else is honest
            s.v = false_v
            s.p = sts[0][1]
            want = False
            if kind == "live":
                # with the right hash, so that it is about the rest
                def com(s=s):
                    pre = s.verifier.stmt.prehash_statement().digest()
                    return (pre, s.com[1])

                s.inject["com"] = com
        sessions.append(s)
        expect.append(want)
    # two honest live sessions with messages crossed
    if rng.random() < 0.4:
        n, p, w = rng.choice(sts)
        x, y = Session("x", p, w, b.sdict, "live"), Session("y", p, w, b.sdict, "live")
        what = rng.choice(["pc", "com", "resp", "com", "resp"])
        at = {"pc": 3, "com": 5, "resp": 7}[what]
        made = {"pc": 2, "com": 4, "resp": 6}[what]
        x.inject[what] = lambda: getattr(y, what)
        waits.append((x, at, y, made))
        if what == "com":
            # y's commitment under x's precommitment
            x.inject["com"] = lambda: (x.verifier.stmt.prehash_statement().digest(), y.com[1])
        if what == "pc":
            x.inject["com"] = lambda: (x.verifier.stmt.prehash_statement().digest(), x.com[1])
        sessions += [x, y]
        expect += ["crossed " + what, True]
    sched = run(rng, sessions, waits)
    shapes = [model.shape(n) for n, _, _ in sts]
    ctx.eval((tuple(shapes), tuple(sched)), n=len(sessions))
    ctx.count("sessions", len(sessions))
    # overlap: another session's step between the first and last of one
    for s in sessions:
        at = [k for k, x in enumerate(sched) if x.startswith(s.name + ".")]
        if at and at[-1] - at[0] + 1 > len(at):
            ctx.count("overlapping")
    if len(sts) > 1:
        ctx.count("shared_operand")
    if any(s.pc is not None for s in sessions):
        ctx.count("with_precommitment")
    det = "statements %s, schedule %s" % (shapes, sched)
    for s, want in zip(sessions, expect):
        if want is True and not s.accepted():
            # is it about the concurrency?
            alone = Session("alone", *(lambda B, V: (B.stmt, V.stmt, B.sdict))(*alone_objects(spec, sts, s)), s.kind, s.msg)
            run(rng, [alone])
            if not alone.accepted():
                ctx.count("calibration_failed")
                ctx.collect("calib", "%s alone: %s" % (shapes, alone.outcome()))
                continue
            ctx.violation("honest-refused", "session %s (%s): %s; alone it is accepted. %s" % (s.name, s.kind, s.outcome(), det), spec=spec)
            return
        if want is False:
            if s.accepted():
                ctx.violation("false-accepted", "session %s (%s): %s. %s" % (s.name, s.kind, s.outcome(), det), spec=fspec)
                return
            ctx.count("false_refused")
        if isinstance(want, str):
            if s.accepted() and not (want == "crossed pc" and not tamper_differs(s, sessions)):
                ctx.violation("crossed-accepted", "session %s: %s. %s" % (s.name, want, det), spec=spec)
                return
            ctx.count("crossed_refused")
    ctx.sample(dict(schedule=sched, statements=shapes, outcomes=[s.outcome() for s in sessions][:6]))


def tamper_differs(s, sessions):
    """The crossed precommitment is another one (it may be constant, as without randomness)."""
    y = [z for z in sessions if z.name == "y"][0]
    if s.pc is None and y.pc is None:
        return False
    return tamper.differs(strip_pc(s.pc), strip_pc(y.pc))


def strip_pc(pc):
    return pc


def alone_objects(spec, sts, s):
    for n, p, w in sts:
        if p is s.p:
            sp = dict(spec, n=n)
            return model.build(sp, "p"), model.build(sp, "v")
    raise KeyError


# ---------------------------------------------------------------- other values


class Piece:
    """A statement with many witnesses, or many ways to write its only one."""

    def __init__(self, rng, g, kind):
        self.g, self.q, self.kind = g, order(g), kind
        q = self.q
        self.a, self.b, self.y, self.c = rng.randrange(1, q), rng.randrange(1, q), rng.randrange(q), rng.randrange(1, q)
        self.bits = rng.choice([1, 2, 3])
        self.stale = self.values(rng, True)
        self.S, self.T = self.secrets(True), self.secrets(False)

    def secrets(self, prover):
        vals = self.stale if prover and self.kind == "r2" else [None] * len(self.stale)
        return [Secret(value=None if v is None else bn(v)) for v in vals]

    def stmt(self, X):
        pt = lambda k: P(self.g, k)
        if self.kind == "dl":
            return DLRep(pt(self.y), X[0] * pt(self.a) + X[1] * pt(self.b))
        if self.kind == "r2":
            return PowerTwoRangeStmt(pt(self.y), pt(self.a), pt(self.b), self.bits, X[0], X[1])
        return DLNotEqual((pt(self.y * self.a), pt(self.a)), (pt(self.y * self.b + self.c), pt(self.b)), X[0], bind=self.kind == "ne_bound")

    def values(self, rng, true):
        q = self.q
        if self.kind.startswith("ne"):
            return [self.y + q * rng.choice([0, 1, -1, 2]) + (0 if true else rng.choice([1, -1, rng.randrange(1, q)]))]
        v = rng.randrange(q) if self.kind == "dl" else rng.randrange(2 ** self.bits)
        w = (self.y - v * self.a) * pow(self.b, -1, q) % q
        return [v, w if true else (w + rng.choice([1, q - 1])) % q]


def other_values(ctx, rng, i):
    """One statement object, proven in overlapping sessions with different witnesses, some of them wrong."""
    g = rng.choice(["p224", "p256"])
    m = rng.choice([1, 2, 3])
    ps = [Piece(rng, g, rng.choice(["dl", "dl", "r2", "ne", "ne_bound"])) for _ in range(m)]
    k = rng.choice(["and", "or"])
    cls = AndProofStmt if k == "and" else OrProofStmt
    if m == 1:
        p, w = ps[0].stmt(ps[0].S), ps[0].stmt(ps[0].T)
    else:
        p, w = cls(*[x.stmt(x.S) for x in ps]), cls(*[x.stmt(x.T) for x in ps])

    def witness(true):
        bad = rng.randrange(m)
        wrong = [not true and (k == "or" or j == bad) for j in range(m)]
        d = {}
        for x, f in zip(ps, wrong):
            d.update(zip(x.S, [bn(v) if rng.random() < 0.7 else v for v in x.values(rng, not f)]))
        return d

    sessions, want = [], []
    for j in range(rng.choice([2, 3, 4])):
        true = j == 0 or rng.random() < 0.7
        want.append(true)
        sessions.append(Session("s%d" % j, p, w, witness(true), rng.choice(["live", "live", "slow_nizk", "nizk"])))
    sched = run(rng, sessions)
    what = "%s of %s" % (k, [x.kind for x in ps])
    ctx.eval(("values", what, tuple(want), tuple(sched)), n=len(sessions))
    for s, true in zip(sessions, want):
        if s.accepted() != true:
            ctx.violation("other-values-refused" if true else "other-values-wrong-accepted", "%s: %s: %s; witnesses right: %s; schedule %s" % (what, s.name, s.outcome(), want, sched))
            return
        ctx.count("other_values_accepted" if true else "other_values_refused")
        for x in ps:
            ctx.count("other_values_" + x.kind)


# ---------------------------------------------------------------- forgery over two sessions


def forgery(ctx, rng, i, orders=("both_first", "late", "reuse"), mech="forged-over-two-sessions"):
    """
    A false inequality. Once the challenge of a session is known, a precommitment that fits is sent
    in another session over the same statement object.
    """
    g = rng.choice(["p224", "p256", "G1"])
    q = order(g)
    x = rng.randrange(1, q)
    h0, h1 = rng.randrange(1, q), rng.randrange(1, q)
    false = rng.random() < 0.8
    H0 = x * h0 % q
    H1 = x * h1 % q if false else (x * h1 + 1) % q
    bind = rng.random() < 0.5
    tree = rng.choice(["alone", "and", "or_and"])
    z = rng.randrange(1, q)
    xs = Secret()

    def make():
        X, Z, W = Secret(), Secret(), Secret()
        ne = DLNotEqual((P(g, H0), P(g, h0)), (P(g, H1), P(g, h1)), X, bind=bind)
        if tree == "alone":
            return ne
        s = AndProofStmt(DLRep(P(g, z), Z * P(g, 1)), ne)
        return s if tree == "and" else OrProofStmt(s, DLRep(P(g, 77), W * P(g, 3)))

    vst = make()
    order_ = rng.choice(orders)
    va = vst.get_verifier()
    vb = vst.get_verifier() if order_ == "both_first" else None

    def wrap_pc(c):
        if tree == "alone":
            return c
        return [None, c] if tree == "and" else [[None, c], None]

    ka, kb, r2, kx, kz = [rng.randrange(q) for _ in range(5)]
    c1 = P(g, rng.randrange(1, q))
    # the first relation has the identity on its left: commitments for it fit all challenges
    com_ne = [P(g, ka * h0 + kb * H0), P(g, r2)] + ([P(g, kx * h0)] if bind else [])
    com = com_ne
    sim_c, sim_s = rng.randrange(2 ** 128), rng.randrange(q)
    if tree != "alone":
        com = [P(g, kz), com_ne]
    if tree == "or_and":
        com = [com, P(g, sim_s * 3 - sim_c * 77)]

    def respond(c, c2):
        sne = [[bn(ka), bn(kb)], [bn(ka), bn(kb)]] + ([[bn((kx + c2 * x) % q)]] if bind else [])
        if tree == "alone":
            return sne
        r = [[bn((kz + c2 * z) % q)], sne]
        if tree == "and":
            return r
        return ([bn(c2), bn(sim_c)], [r, [bn(sim_s)]])

    def fit(c):
        """(what the second session is told, responses)"""
        c2 = (c - sim_c) % 2 ** 128 if tree == "or_and" else c
        # ka h1 + kb H1 = r2 + c2 C
        C = (ka * h1 + kb * H1 - r2) * pow(c2, -1, q) % q
        return P(g, C), respond(c, c2)

    def attack():
        va.process_precommitment(wrap_pc(c1))
        h = va.stmt.prehash_statement().digest()
        c = to_int(va.send_challenge((h, com)))
        C, r = fit(c)
        u = vb
        if u is None:
            u = vst.get_verifier() if order_ == "late" else va
        if order_ == "reuse":
            # the prover of a simulation over the same object
            vst.simulate(bn(5))
            u = vst.get_verifier()
        if order_ == "resend":
            # no other session: the precommitment of this one again
            u = va
        elif order_ == "resend_again":
            u = va
            u.process_precommitment(wrap_pc(P(g, rng.randrange(1, q))))
        u.process_precommitment(wrap_pc(C))
        return va.verify(r)

    out = drive.attempt(attack)
    ctx.eval(("forgery", tree, bind, order_, g, false))
    if out.accept:
        ctx.violation(mech, "%s, %s, %s: %r" % (tree, order_, "false" if false else "true, without knowing the secret", out))
        return
    ctx.count("forgery_refused")

    # calibration: were the precommitment chosen after the challenge in one session, it would do
    def check_equations():
        v = vst.get_verifier()
        v.process_precommitment(wrap_pc(c1))
        h = v.stmt.prehash_statement().digest()
        c = v.send_challenge((h, com))
        C, r = fit(to_int(c))
        v2 = vst.get_verifier()
        v2.process_precommitment(wrap_pc(C))
        return v2.stmt.recompute_commitment(c, r) == com

    cal = drive.attempt(check_equations)
    if cal.accept:
        ctx.count("forgery_calibrated")
    else:
        ctx.count("calibration_failed")
        ctx.collect("calib", "forgery %s: %r" % (tree, cal))


# ---------------------------------------------------------------- threads


def threads(ctx, rng, i):
    """Threads with statements of their own, switched at random points."""
    n = rng.choice([3, 4, 6])
    jobs = []
    for t in range(n):
        lst = []
        for _ in range(4):
            # bplib is not made for threads: elliptic curves only
            spec = gen.gen_spec(rng, max_leaves=rng.choice([1, 2, 3]), max_depth=2, kinds=[k for k in KINDS if k[0] != "bbs"], groups=[("p224", 5), ("p256", 5)])
            bad = copy.deepcopy(spec)
            gen.falsify(rng, bad)
            lst.append((spec, bad, rng.choice(["live", "nizk"]), rng.randrange(2 ** 32)))
        jobs.append(lst)
    results = [[] for _ in range(n)]
    switches = [0] * n
    names = [[] for _ in range(n)]
    gate = threading.Barrier(n)

    def work(t):
        r = core.make_rng("thread", i, t)

        def prof(frame, event, arg):
            if r.random() < 0.006:
                switches[t] += 1
                time.sleep(0)

        gate.wait()
        sys.setprofile(prof)
        try:
            for spec, bad, kind, seed in jobs[t]:
                def go(ps, vs):
                    b = model.build(ps, "p")
                    v = model.build(vs, "v")
                    names[t].append([s.name for s, d in zip(b.secrets, ps["secrets"]) if not d.get("name")])
                    keep.append(b)
                    if kind == "nizk":
                        return v.stmt.verify(b.stmt.prove(b.sdict, message=str(seed)), message=str(seed))
                    return drive.interact(b.stmt.get_prover(b.sdict), v.stmt.get_verifier())

                good = drive.attempt(go, spec, spec)
                evil = drive.attempt(go, bad, bad)
                results[t].append((good, evil))
        finally:
            sys.setprofile(None)

    keep = []
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(t,)) for t in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    ctx.count("threads", n)
    ctx.count("thread_switches", sum(switches))
    ctx.eval(("threads", i), n=2 * sum(len(r) for r in results))
    flat = [x for t in names for l in t for x in l]
    if len(set(flat)) < len(flat):
        ctx.violation("secret-names-collide", "%d secrets have %d names" % (len(flat), len(set(flat))))
    for t in range(n):
        for (spec, bad, kind, seed), (good, evil) in zip(jobs[t], results[t]):
            if not good.accept:
                b, v = model.build(spec, "p"), model.build(spec, "v")
                alone = drive.attempt(lambda: v.stmt.verify(b.stmt.prove(b.sdict)))
                if alone.accept:
                    ctx.violation("honest-refused-in-thread", "%s: %r" % (model.shape(spec["n"]), good), spec=spec)
                    return
                ctx.count("calibration_failed")
            if evil.accept:
                ctx.violation("false-accepted-in-thread", "%s: %r" % (model.shape(bad["n"]), evil), spec=bad)
                return


def shared_threads(ctx, rng, i):
    """
    Threads that verify with one statement object, and that run provers which were made before from
    one statement object.
    """
    n = rng.choice([3, 4, 6])
    # "blind" sets values of secrets that all its copies share
    kinds = [k for k in KINDS if k[0] not in ("bbs", "blind")]
    spec = gen.gen_spec(rng, max_leaves=rng.choice([2, 3, 4, 6]), max_depth=3, kinds=kinds, groups=[("p224", 5), ("p256", 3)], shared_or=True)
    shape = model.shape(spec["n"])
    b, w = model.build(spec, "p"), model.build(spec, "v")
    bad = copy.deepcopy(spec)
    gen.falsify(rng, bad)
    f = model.build(bad, "p")
    good_z = b.stmt.prove(dict(b.sdict), message="m")
    before = rng.choice(["", "simulate", "verify", "prove"])
    if before == "simulate":
        drive.attempt(b.stmt.simulate)
        drive.attempt(w.stmt.simulate)
    elif before == "verify":
        w.stmt.verify(good_z, message="m")
    elif before == "prove":
        b.stmt.prove(dict(b.sdict))
    bad_z = drive.attempt(lambda: f.stmt.prove(dict(f.sdict), message="m"))
    # (the statement of the verifier may well be true)
    refused = bad_z.err is None and not drive.attempt(lambda: w.stmt.verify(bad_z.value, message="m")).accept
    provers = [[b.stmt.get_prover(dict(b.sdict)) for _ in range(4)] for _ in range(n)]
    results = [[] for _ in range(n)]
    switches = [0] * n
    gate = threading.Barrier(n)
    for p in sum(provers, []):
        p.had = p.precommit() if rng.random() < 0.5 else None
        p.was = p.had is not None

    def work(t):
        r = core.make_rng("shared thread", i, t)

        def prof(frame, event, arg):
            if r.random() < 0.01:
                switches[t] += 1
                time.sleep(0)

        gate.wait()
        sys.setprofile(prof)
        try:
            for p in provers[t]:
                def live():
                    v = w.stmt.get_verifier()
                    v.process_precommitment(p.had if p.was else p.precommit())
                    c = v.send_challenge(p.commit())
                    return v.verify(p.compute_response(c))

                kind = "live" if p.was else r.choice(["live", "nizk"])
                if kind == "live":
                    results[t].append((True, "live", drive.attempt(live)))
                else:
                    results[t].append((True, "nizk", drive.attempt(lambda: w.stmt.verify(p.get_nizk_proof("m"), message="m"))))
                results[t].append((True, "again", drive.attempt(lambda: w.stmt.verify(good_z, message="m"))))
                if refused:
                    results[t].append((False, "false", drive.attempt(lambda: w.stmt.verify(bad_z.value, message="m"))))
                results[t].append((False, "message", drive.attempt(lambda: w.stmt.verify(good_z, message="n"))))
        finally:
            sys.setprofile(None)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(t,)) for t in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    ctx.count("shared_thread_switches", sum(switches))
    ctx.eval(("shared threads", shape, before), n=sum(len(r) for r in results))
    for want, kind, out in sum(results, []):
        if want and not out.accept:
            ctx.violation("honest-refused-in-thread", "%s over shared statement objects %s after %s: %r" % (kind, shape, before or "nothing", out), spec=spec)
            return
        if not want and out.accept:
            ctx.violation("false-accepted-in-thread", "%s over shared statement objects %s after %s: %r" % (kind, shape, before or "nothing", out), spec=spec)
            return
    ctx.count("shared_threads", n)


def issuance(ctx, rng, i):
    """Several users obtain signatures under one key, in any order of their steps, or in threads."""
    q = order("G1")
    kp = c12.key(rng)
    n = rng.choice([2, 2, 3, 4])
    users = []
    for _ in range(n):
        vals = [c12.value(rng, q) for _ in range(rng.randrange(0, c12.cap(kp) + 1))]
        users.append(dict(vals=vals, msgs=[bn(v % q) for v in vals], cr=BBSPlusSignatureCreator(kp.pk), zkp=rng.random() < 0.8))

    def commit(u):
        u["com"] = u["cr"].commit(u["msgs"], zkp=u["zkp"])

    def sign(u):
        if u["zkp"] and not u["com"].verify_blinding(kp.pk):
            raise AssertionError("request refused")
        u["pre"] = kp.sk.sign(u["com"].com_message)

    def obtain(u):
        u["sig"] = u["cr"].obtain_signature(u["pre"])

    steps = [commit, sign, obtain]
    errs = []
    log = []

    def step(k):
        u = users[k]
        f = steps[u.setdefault("at", 0)]
        u["at"] += 1
        log.append("%d%s" % (k, f.__name__[0]))
        try:
            f(u)
        except Exception as e:
            errs.append("user %d, %s: %s: %s" % (k, f.__name__, type(e).__name__, e))

    if rng.random() < 0.5:
        todo = [k for k in range(n) for _ in steps]
        rng.shuffle(todo)
        for k in todo:
            step(k)
        how = "interleaved"
    else:
        gate = threading.Barrier(n)

        def work(k):
            gate.wait()
            for _ in steps:
                step(k)

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
            [t.start() for t in ts]
            [t.join() for t in ts]
        finally:
            sys.setswitchinterval(old)
        how = "threads"
    ctx.eval(("issuance", how, n, tuple(log)))
    det = "%d users, %s: %s" % (n, how, " ".join(log))
    if errs:
        ctx.violation("issuance-failed", "%s: %s" % (det, "; ".join(errs)))
        return
    for k, u in enumerate(users):
        out = drive.attempt(u["sig"].verify_signature, kp.pk, u["msgs"])
        if not out.accept or not c12.valid(kp, u["sig"], u["vals"]):
            ctx.violation("issued-invalid", "%s: user %d got a signature that is invalid: %r" % (det, k, out))
            return
    ctx.count("issuance_" + how)


def case(ctx, rng, i):
    k = i % 13
    if i % 26 == 5:
        issuance(ctx, rng, i)
    if k < 8:
        schedule(ctx, rng, i)
    elif k == 8:
        other_values(ctx, rng, i)
    elif k < 12:
        forgery(ctx, rng, i)
    elif i // 13 % 2 == 0:
        threads(ctx, rng, i)
    else:
        shared_threads(ctx, rng, i)
