"""
A second process: proves or verifies what it is told over stdin/stdout, one JSON object per line.
Run with another hash seed than its parent; it allocates some junk first, so that object
identities (from which secrets' names derive) differ as well.
"""
import json
import os
import subprocess
import sys


class Peer:
    def __init__(self, hashseed):
        from zkmon import core

        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", ZKMON_REPO=core.REPO)
        self.p = subprocess.Popen(
            [sys.executable, "-W", "ignore", "-m", "zkmon.peer"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            cwd=core.VERIF, env=env, text=True,
        )

    def ask(self, **req):
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("peer died")
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.wait(20)


def stmt_hash(spec, precommitment):
    """The identifier a verifier computes for the statement, once it has the precommitment."""
    from zkmon import model

    v = model.build(spec, "v").stmt.get_verifier()
    if precommitment is not None:
        v.process_precommitment(precommitment)
    return v.stmt.prehash_statement().digest()


def answer(req):
    from zkmon import model, drive
    from zksk.base import NIZK

    op = req["op"]
    if op == "hashinfo":
        return dict(hash=hash("zksk"), pid=os.getpid())
    if op == "gens":
        from zksk.utils import make_generators, get_random_point

        g = model.group(req["group"])
        if req.get("single"):
            return dict(pts=[get_random_point(g, seed=req["seed"] + i).export().hex() for i in range(req["num"])])
        kw = {} if req["seed"] is None else dict(seed=req["seed"])
        return dict(pts=[p.export().hex() for p in make_generators(req["num"], group=g, **kw)])
    if op == "prove":
        def run():
            b = model.build(req["spec"], "p")
            return b.stmt.prove(b.sdict, message=req["msg"])

        out = drive.attempt(run)
        if out.err is not None:
            return dict(err=repr(out))
        n = out.value
        return dict(nizk=n.serialize().hex(), stmt_hash=n.stmt_hash.hex())
    if op == "verify":
        raw = bytes.fromhex(req["nizk"])
        out = drive.attempt(lambda: model.build(req["spec"], "v").stmt.verify(NIZK.deserialize(raw), message=req["msg"]))
        n = drive.attempt(NIZK.deserialize, raw)
        res = dict(accept=out.accept, verdict=repr(out))
        h = drive.attempt(lambda: stmt_hash(req["spec"], n.value.precommitment).hex())
        res["stmt_hash"] = h.value if h.err is None else repr(h)
        again = drive.attempt(lambda: n.value.serialize().hex())
        res["again"] = again.value if again.err is None else repr(again)
        return res
    raise ValueError(op)


def main():
    junk = [object() for _ in range(12345)]
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # prints of the library do not disturb the protocol
    for line in sys.stdin:
        out.write(json.dumps(answer(json.loads(line))) + "\n")
        out.flush()
    del junk


if __name__ == "__main__":
    main()
