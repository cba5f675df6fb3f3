"""
A process that decodes proofs before it imports anything but NIZK, and verifies them afterwards.
Reads a JSON list of requests from stdin, writes a JSON list of answers.
"""
import json
import os
import sys


def kinds(x):
    """The types of what a proof is made of."""
    if isinstance(x, (list, tuple)):
        return [kinds(y) for y in x]
    if isinstance(x, dict):
        return {str(k): kinds(v) for k, v in x.items()}
    return type(x).__name__


def fields(nizk):
    return kinds([nizk.challenge, nizk.responses, nizk.precommitment, nizk.stmt_hash])


def main():
    sys.path.insert(0, os.environ["ZKMON_REPO"])
    from zksk.base import NIZK

    reqs = json.load(sys.stdin)
    got = []
    for r in reqs:
        try:
            n = NIZK.deserialize(bytes.fromhex(r["nizk"]))
            got.append((n, dict(kinds=fields(n), again=n.serialize().hex())))
        except Exception as e:
            got.append((None, dict(err="%s: %s" % (type(e).__name__, e))))
    from zkmon import model, drive

    for r, (n, a) in zip(reqs, got):
        if n is not None:
            out = drive.attempt(lambda: model.build(r["spec"], "v").stmt.verify(n, message=r["msg"]))
            a["accept"], a["verdict"] = out.accept, repr(out)
    print(json.dumps([a for _, a in got]))


if __name__ == "__main__":
    main()
