"""Sessions between a prover and a verifier, recorded message by message."""
from zkmon import core  # noqa: F401

from petlib.pack import encode, decode
from zksk.base import NIZK


class Outcome:
    """accept is True only if the verifier said True; err is the exception otherwise raised."""

    def __init__(self, accept=None, err=None, value=None):
        self.accept, self.err, self.value = accept, err, value

    def __repr__(self):
        if self.err is not None:
            return "raised %s: %s" % (type(self.err).__name__, core.short(str(self.err), 300))
        return "returned %r" % (self.value,)


def attempt(f, *a, **k):
    try:
        r = f(*a, **k)
    except Exception as e:  # a refusal, as far as acceptance goes
        return Outcome(False, e)
    # Anything truthy makes a caller's `if verify(...)` take the accepting branch
    return Outcome(bool(r), None, r)


def wire(x):
    return decode(encode(x))


def transport(nizk, how):
    if how == "obj":
        return nizk
    return NIZK.deserialize(nizk.serialize())


class Transcript:
    def __init__(self):
        self.precommitment = self.commitment = self.challenge = self.responses = None


def interact(prover, verifier, over=None, tr=None):
    """Run the interactive protocol as the library's own runner does; messages through `over`."""
    over = over or (lambda x: x)
    tr = tr or Transcript()
    pc = over(prover.precommit())
    tr.precommitment = pc
    verifier.process_precommitment(pc)
    com = over(prover.commit())
    tr.commitment = com
    ch = over(verifier.send_challenge(com))
    tr.challenge = ch
    resp = over(prover.compute_response(ch))
    tr.responses = resp
    return verifier.verify(resp)
