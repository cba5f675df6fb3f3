"""
A cheating prover. Drives the library's own leaf provers and simulators through the public prover
interface, and assembles their messages into those of a composed proof, so that it can do what an
honest prover would not: split or-challenges at will, use different witnesses per conjunct, skip
the prover-side checks, or replace the messages of a primitive.
"""
from zkmon import core, model, drive
from zkmon.model import bn, to_int

from zksk.base import NIZK, build_fiat_shamir_challenge

M = 2 ** 128


def merge_pc(pcs):
    return None if all(p is None for p in pcs) else pcs


class RealLeaf:
    """A leaf proven with the library's prover."""

    def __init__(self, stmt, sdict, randomizers=None):
        self.prover = stmt.get_prover(sdict)
        if self.prover is None:
            raise RuntimeError("no leaf prover")
        self.rd = randomizers

    def precommit(self):
        return self.prover.precommit()

    def commit(self):
        return self.prover.commit(dict(self.rd) if self.rd is not None else None)[1]

    def respond(self, c):
        return self.prover.compute_response(bn(c))


class SimNode:
    """A subtree simulated for a challenge chosen in advance."""

    def __init__(self, stmt, c):
        self.c = c
        self.tr = stmt.simulate(bn(c))

    def precommit(self):
        return self.tr.precommitment

    def commit(self):
        return self.tr.commitment

    def respond(self, c):
        return self.tr.responses


def honest_split(rng):
    def split(path, c, fixed, n):
        """Challenges adding up to c, with the fixed ones given (there is a free one)."""
        free = [i for i in range(n) if i not in fixed]
        out = [fixed.get(i) for i in range(n)]
        for i in free[1:]:
            out[i] = rng.randrange(M)
        if free:
            out[free[0]] = (c - sum(x for x in out if x is not None)) % M
        return out

    return split


class Adv:
    """
    sim: paths of disjuncts to be simulated in advance (whole subtrees)
    make_leaf(path, node) -> object with precommit / commit / respond, for the other leaves
    """

    def __init__(self, spec, make_leaf, sim=(), rng=None, sim_challenge=None):
        self.spec, self.rng = spec, rng
        self.make_leaf, self.sim = make_leaf, set(sim)
        self.fixed = {}  # path of disjunct -> challenge
        self.sim_challenge = sim_challenge
        self.root = self.setup(spec["n"], ())

    def setup(self, n, path):
        if path in self.sim:
            c = self.sim_challenge if self.sim_challenge is not None else self.rng.randrange(M)
            secrets = [model.Secret() for _ in self.spec["secrets"]]
            st = model.build_node(self.spec, n, secrets, "v", False, path)
            self.fixed[path] = c
            return ("leaf", SimNode(st, c))
        if n["k"] in ("and", "or"):
            return (n["k"], [self.setup(ch, path + (i,)) for i, ch in enumerate(n["s"])])
        return ("leaf", self.make_leaf(path, n))

    def _map(self, t, f):
        if t[0] == "leaf":
            return f(t[1])
        return [self._map(x, f) for x in t[1]]

    def precommit(self):
        def rec(t):
            if t[0] == "leaf":
                return t[1].precommit()
            return merge_pc([rec(x) for x in t[1]])

        return rec(self.root)

    def commit(self):
        return self._map(self.root, lambda l: l.commit())

    def respond(self, c, split=None):
        split = split or honest_split(self.rng)

        def rec(t, path, c):
            if t[0] == "leaf":
                return t[1].respond(c)
            if t[0] == "and":
                return [rec(x, path + (i,), c) for i, x in enumerate(t[1])]
            n = len(t[1])
            fixed = {i: self.fixed[path + (i,)] for i in range(n) if path + (i,) in self.fixed}
            chals = split(path, c, fixed, n)
            resps = [rec(x, path + (i,), chals[i]) for i, x in enumerate(t[1])]
            return ([bn(x) for x in chals], resps)

        return rec(self.root, (), c)


def session(mk_stmt, adv, split=None, mutate=None, mode="interactive", message="", stmt_hash=None):
    """
    Run the cheating prover against a fresh verifier; mk_stmt() builds the verifier's statement.
    mutate(responses, challenge) changes the final response. Returns the verifier's verdict.
    """
    v = mk_stmt().get_verifier()
    pc = adv.precommit()
    mine = mk_stmt().get_verifier()  # to compute the statement's hash, as any party can
    mine.process_precommitment(pc)
    prehash = mine.stmt.prehash_statement()
    h = prehash.digest() if stmt_hash is None else stmt_hash
    com = adv.commit()
    if mode == "interactive":
        v.process_precommitment(pc)
        c = v.send_challenge((h, com))
        r = adv.respond(to_int(c), split)
        if mutate:
            r = mutate(r, to_int(c))
        return v.verify(r)
    c = build_fiat_shamir_challenge(prehash, pc, com, message=message)
    r = adv.respond(to_int(c), split)
    if mutate:
        r = mutate(r, to_int(c))
    nizk = NIZK(challenge=c, responses=r, precommitment=pc, stmt_hash=h)
    if mode == "nizk_wire":
        nizk = drive.transport(nizk, "ser")
    # as the library's users verify
    return mk_stmt().verify(nizk, message=message)


def honest_leaves(spec, built, randomizers=None, sub=None):
    """Leaf sessions of a prover build (secret objects shared between leaves)."""
    if sub is None:
        sub = {}

    def make(path, n):
        if path in sub:
            return sub[path](path, n)
        return RealLeaf(built.leaves[path], built.sdict, randomizers)

    return make


def shared_randomizers(rng, spec, built, n=None):
    """One randomizer per secret, as an honest conjunction uses."""
    return {s: bn(rng.randrange(model_q)) for s, model_q in zip(built.secrets, [x["q"] for x in spec["secrets"]])}


def resp_at(spec, r, path, f):
    """Replace the response part r of the node at `path` by f(part), in a copied tree."""

    def rec(n, part, path):
        if not path:
            return f(part)
        i = path[0]
        child = n["s"][i]
        if n["k"] == "and":
            return [rec(child, x, path[1:]) if j == i else x for j, x in enumerate(part)]
        ch, rs = part
        return (ch, [rec(child, x, path[1:]) if j == i else x for j, x in enumerate(rs)])

    return rec(spec["n"], r, path)


def node_at(spec, path):
    n = spec["n"]
    for i in path:
        n = n["s"][i]
    return n


def pick_real(rng, spec, target=None, target_sims=None):
    """
    A plan to prove everything from known values: for each or-node, the disjuncts to simulate.
    On the way to `target` (a path), disjuncts are chosen so that it is proven for real; its own
    disjuncts to simulate are target_sims.
    """
    sims = []

    def rec(n, path):
        if n["k"] == "and":
            for i, c in enumerate(n["s"]):
                rec(c, path + (i,))
        elif n["k"] == "or":
            m = len(n["s"])
            if target is not None and path == target:
                for i in range(m):
                    if i in target_sims:
                        sims.append(path + (i,))
                    else:
                        rec(n["s"][i], path + (i,))
                return
            ok = [i for i, c in enumerate(n["s"]) if leaf_all_true(spec, c)]
            if target is not None and target[: len(path)] == path:
                keep = target[len(path)]
            else:
                keep = rng.choice(ok)
            for i in range(m):
                if i != keep:
                    sims.append(path + (i,))
            rec(n["s"][keep], path + (keep,))

    rec(spec["n"], ())
    return sims


def leaf_all_true(spec, n):
    """The node can be proven for real with known values, for some choice of disjuncts."""
    if n["k"] == "and":
        return all(leaf_all_true(spec, c) for c in n["s"])
    if n["k"] == "or":
        return any(leaf_all_true(spec, c) for c in n["s"])
    if not model.known(spec, model.leaf_secrets(n)) or (n["k"] == "bbs" and n["sig"] is None):
        return False
    return model.truth(spec, dict(n, sim=False)) is True


def strip(spec):
    """The cheating prover decides what to simulate, not the flags."""
    for n, _ in model.walk(spec["n"]):
        n.pop("sim", None)
        n.pop("simctor", None)


def reachable(spec, path):
    """All and-siblings on the way can be proven."""
    n = spec["n"]
    for i in path:
        if n["k"] == "and" and not all(leaf_all_true(spec, c) for c in n["s"]):
            return False
        n = n["s"][i]
    return True


# ---------------------------------------------------------------- responses that leave no trace


BLANKS = [None, [], (), {}, b"", "", 0, False, [None], [[]], ([], [])]


def skipping(mk_stmt, a, responses, mode, rng, message=""):
    """
    Let the verifier's own code say which commitment goes with responses(c), made without a witness,
    for a challenge guessed in advance, and hope that the commitment is the same for the real one.
    """
    pc = a.precommit()
    a.commit()
    mine = mk_stmt().get_verifier()
    mine.process_precommitment(pc)
    prehash = mine.stmt.prehash_statement()
    h = prehash.digest()
    guess = rng.randrange(M)
    com = mine.stmt.recompute_commitment(bn(guess), responses(guess))
    if mode == "interactive":
        v = mk_stmt().get_verifier()
        v.process_precommitment(pc)
        c = v.send_challenge((h, com))
        return v.verify(responses(to_int(c)))
    c = build_fiat_shamir_challenge(prehash, pc, com, message=message)
    nizk = NIZK(challenge=c, responses=responses(to_int(c)), precommitment=pc, stmt_hash=h)
    if mode == "nizk_wire":
        nizk = drive.transport(nizk, "ser")
    return mk_stmt().verify(nizk, message=message)
