"""Writes properties.jsonl (run by hand after an edit here)."""
import json, os

F = "zksk/"
B, C, X, E_, D, R, N, S, G, U, W = (F + "base.py", F + "composition.py", F + "expr.py", F + "extended.py", F + "primitives/dlrep.py", F + "primitives/rangeproof.py", F + "primitives/dl_notequal.py", F + "primitives/bbsplus.py", F + "pairings.py", F + "utils/groups.py", F + "utils/debug.py")
props = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    props.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None)))


p("C01", "Honest non-interactive proofs verify",
  "For every well-formed statement built from the library's primitives and and/or composition (any nesting, shared secrets, any supported group) and every witness satisfying the disjuncts that are not marked as simulated and whose values are known, the non-interactive proof the prover makes is accepted by a verifier who built the same statement from public information only, with the same message. This does not depend on how the secret values are delivered (at construction or when proving; range proofs need them at construction), on their size, sign or reduction modulo the order, or on whether the same or another statement object verifies.",
  ["inputs", "programs", "configurations"], "All statements, witnesses, groups and messages.",
  "The tests prove a few dozen fixed statements with one witness each, mostly on one curve, with few nested combinations of primitives.",
  [B, C, D, E_, R, N, S], [("get_nizk_proof / verify_nizk", B), ("And/Or provers and verifiers", C), ("ExtendedProver / ExtendedVerifier", E_)],
  ["ComposableProofStmt.prove", "ComposableProofStmt.verify"])
p("C02", "Honest interactive runs are accepted",
  "For every such statement and witness, the interactive protocol (precommit, commit, challenge, response) between a prover and a separately built verifier ends in acceptance. It still does when every message crosses the wire, i.e., is encoded and decoded in between.",
  ["inputs", "programs", "configurations"], "All statements, witnesses and groups; in-memory and encoded messages.",
  "The tests run the interactive protocol on some statements with shared objects in memory; none encodes the messages.",
  [B, C, D, E_, W], [("commit / send_challenge / compute_response / verify", B), ("ExtendedVerifier", E_)],
  ["Prover.precommit, commit, compute_response", "Verifier.process_precommitment, send_challenge, verify"])
p("C03", "Serialized proofs are portable across processes",
  "Serializing and deserializing a non-interactive proof gives a proof with the same contents that is accepted, also by another process (with another hash seed, other object identities and secret names), for every kind of statement including pairing groups. The statement identifier a prover computes equals the one any verifier process computes for the same statement.",
  ["inputs", "configurations"], "All statements; pairs of processes with different hash seeds.",
  "The tests serialize a few proofs and verify them in the same process; process-dependent identifiers cannot show there.",
  [B, C, G, X], [("NIZK.serialize / deserialize", B), ("prehash_statement", C), ("point encoders and representations", G)],
  ["NIZK.serialize", "NIZK.deserialize", "NIZK.stmt_hash"])
p("C04", "A wrong witness is never accepted",
  "If the values the prover uses do not satisfy the statement (a conjunct, or every disjunct it could pick, is false for them), then proving raises an error or the proof is refused, non-interactively and interactively. Acceptance never depends on which primitive or position in the tree is the false one.",
  ["inputs", "programs"], "All statements and non-satisfying assignments, including near misses.",
  "The tests try a few wrong values per primitive; a verifier that skips a conjunct, a term or a primitive passes unless that very one is wrong.",
  [B, C, D, R, N, S], [("recompute_commitment", C), ("verify / verify_nizk", B)], ["ComposableProofStmt.verify", "Verifier.verify"])
p("C05", "Or-proofs cannot be proven without a witness",
  "A prover who knows no witness for any disjunct of an or-proof is refused whatever subchallenges and responses it sends: in particular when the subchallenges do not add up to the challenge, are too many or too few, lie out of the challenge range, or are of the wrong type. A prover who knows a witness is refused as well whenever the subchallenges it uses do not add up to the verifier's challenge.",
  ["inputs", "programs"], "All or-proofs at any place of a tree, and all strategies for splitting the challenge.",
  "The tests contain one or two tampered or-transcripts; cheating strategies that choose subchallenges after seeing the challenge are not exercised.",
  [C], [("challenge consistency check", C)], ["Verifier.verify", "Verifier.verify_nizk"])
p("C06", "A shared secret has one value across a conjunction",
  "If a secret occurs several times in a conjunction (inside one linear relation, in several conjuncts, in nested conjunctions, or in the bound secrets of primitives), a prover who uses different values for the occurrences is refused, even if each conjunct on its own is proven correctly. Conversely, distinct secrets are never forced to be equal.",
  ["inputs", "programs"], "All conjunctions with shared secrets, all spliced proofs.",
  "The tests check a handful of two-conjunct cases; the check has to hold for each pair of occurrences in every tree.",
  [C, D, E_, N, S, R], [("check_responses_consistency", D + ", " + C + ", " + E_)], ["Verifier.verify", "Verifier.verify_nizk"])
p("C07", "Any change to a proof or its message is detected",
  "A non-interactive proof is refused if its challenge, any response (modulo the group order), any part of its precommitment, its statement hash, or the message is changed in any way. The challenge depends on the statement, the precommitment, the commitment and the whole message.",
  ["inputs"], "All proofs, all single and combined modifications, all pairs of messages.",
  "The tests tamper with a few fields of a few proofs; a field that enters the checks only in part goes unnoticed.",
  [B, C, D, E_], [("build_fiat_shamir_challenge", B), ("verify_nizk", B)], ["ComposableProofStmt.verify(nizk, message)"])
p("C08", "A proof only verifies for the statement it was made for",
  "A proof is refused for every other statement: one that differs in any public element, base, order of terms, sharing of secrets, number or order of subproofs, connective, primitive, or parameter of a primitive. Different statements have different statement identifiers, and interactive verifiers refuse commitments made for another statement (the bounds and commitment of a range proof enter through its validation instead of the identifier).",
  ["inputs", "programs"], "All pairs of different statements.",
  "The tests compare a few pairs; identifiers that drop or merge one ingredient still separate those.",
  [B, C, D, E_], [("get_proof_id / prehash_statement / check_statement", C)], ["NIZK.stmt_hash", "ComposableProofStmt.verify", "Verifier.send_challenge"])
p("C09", "Range proofs are complete and sound",
  "For every range [a, b) and power-of-two range, a proof is accepted if and only if the committed value lies in the range and the prover knows an opening; values just outside, negative values, wraparound, and malformed bit commitments (too many, too few, non-bits, wrong combination) are refused. It holds wherever the range proof occurs in a larger statement.",
  ["inputs"], "All bounds, values, commitments, and cheating precommitments.",
  "The tests use about ten fixed ranges; off-by-one errors at other sizes and forged bit commitments are not covered.",
  [R], [("bit or-proofs and recombination check", R)], ["RangeStmt", "PowerTwoRangeStmt"])
p("C10", "Proofs of inequality of discrete logs are complete and sound",
  "An inequality proof is accepted if and only if the prover knows x with H0 = x h0 and H1 != x h1; it is refused for equal logarithms whatever precommitment (such as the identity) is sent, interactively and not, at any place of a tree. If it is binding, x is tied to its other occurrences.",
  ["inputs", "programs"], "All pairs of points, secrets, and cheating precommitments, everywhere in a tree.",
  "The tests check few fixed values; a cheating precommitment in a nested position is not tried.",
  [N, E_], [("validate", N), ("full_validate", C)], ["DLNotEqual"])
p("C11", "BBS+ issuance yields valid signatures on exactly the signed messages",
  "Whatever messages (any number up to the capacity of the key) and with or without blinding, in any order of operations, an issued signature verifies under the key for these messages, and for no others (messages count modulo the order, a missing one as zero), nor under another key or after any change to the signature. Blinded commitments carry a proof that verifies, and does not verify for another commitment.",
  ["inputs", "histories"], "All message vectors, keys, issuance histories and modifications.",
  "The tests issue a single signature on fixed messages.",
  [S, G], [("commit / sign / obtain_signature / verify_signature", S)], ["BBSPlusSignature.verify_signature", "UserCommitmentMessage.verify_blinding"])
p("C12", "BBS+ possession proofs need a valid signature on the messages",
  "A proof of possession is accepted if and only if the prover holds a valid signature under the verifier's key on the messages it uses; forged, altered or foreign signatures and wrong messages are refused. Messages bound to other statements have to be the signed ones.",
  ["inputs", "programs"], "All keys, message vectors, signatures, bindings, and cheating precommitments.",
  "The tests prove one signature, and do not try dishonest provers.",
  [S, E_, G], [("construct_stmt", S)], ["BBSPlusSignatureStmt"])
p("C13", "Simulated transcripts are consistent, and are never proofs",
  "Every statement that supports simulation can be simulated without secret values, whether or not it is true, with any given challenge; the transcript carries that challenge and satisfies the verification equations. Presented as a non-interactive proof, or against a fresh challenge, it is refused (unless the statement's equations hold for every challenge, such as 0 = x g), and a transcript with another commitment, challenge, response, statement hash, or number or point of a primitive's precommitment is reported as inconsistent.",
  ["inputs", "programs"], "All statements, true or false, and all challenges.",
  "The tests simulate a few statements, and only some with a given challenge.",
  [C, D, E_, R, N, S], [("simulate / simulate_proof", C), ("verify_simulation_consistency", C)], ["simulate", "verify_simulation_consistency"])
p("C14", "Or-proofs do not reveal which disjunct is real",
  "The transcript of an or-proof (structure, types and ranges of all values, precommitments, equalities between them, and their distributions) does not depend on which disjunct the prover proved and which ones it simulated. This also holds for several proofs made with one prover, statement, or copies of them.",
  ["inputs", "programs", "histories"], "All or-proofs, all choices of the real disjunct, sequences of proofs.",
  "The tests only check acceptance; nothing looks at what a transcript gives away.",
  [C, R, E_, D], [("OrProver / simulate_proof / residual challenge", C), ("simulate_precommit", E_)], ["prove() output", "messages of the prover"])
p("C15", "Proof randomness is fresh and full-size, so secrets stay hidden",
  "Every proof uses fresh randomizers, uniform over the whole group order and independent for distinct secrets, and fresh precommitments; occurrences of the same secret in a conjunction share theirs. From any number of transcripts, also of copied or forked provers, no response, commitment or precommitment repeats or allows to compute a secret. The same goes for the random numbers of keys, blinded commitments and signatures.",
  ["inputs", "histories"], "All statements, all sequences of proofs.",
  "Acceptance does not depend on the quality of the randomness, so no functional test can tell.",
  [D, C, R, N, S, U], [("get_randomizers / update_randomizers", D + ", " + C), ("precommit", S)], ["messages of the prover"])
p("C16", "Unsound or malformed compositions are refused",
  "A conjunction or disjunction where a secret is shared over groups of different orders, or a conjunction where a secret occurs both inside and outside of an or-proof, is refused by the prover and by the verifier, at any depth, also within or-proofs that a custom primitive constructs. Malformed statements (mixed groups in a relation, fewer than two subproofs, mismatched lengths, missing secret values) never lead to an accepted proof; relations over several groups, sums of unequal lengths, things that are not expressions, bases that are not points, and compositions of fewer than two subproofs cannot be built at all.",
  ["programs", "inputs"], "All invalid trees, at all depths, on both sides.",
  "The tests cover a few flat invalid trees on the prover side.",
  [C, D, X], [("validate_composition", C), ("validate_secrets_reoccurence", C), ("validate_group_orders", C)], ["prove", "verify"])
p("C17", "Statement objects can be reused and recomposed freely",
  "The outcome of proving, verifying or simulating does not depend on what was done before with the same statement, expression or secret objects: any sequence of proofs, failed verifications, simulations and compositions leaves each statement as usable as a freshly built one. Composing copies, so later operations on the operands do not change the composed statement, nor the other way round.",
  ["histories"], "All sequences of operations on a set of statement objects.",
  "The tests use each object once or twice, in a fixed order.",
  [C, D, E_, X], [("copies at composition", C), ("simulated flag", C), ("per-run statements", E_)], ["results of prove / verify / simulate"])
p("C18", "Concurrent protocol runs do not affect each other",
  "With any number of interactive and non-interactive runs in flight, interleaved at message granularity over shared statement objects, or in threads - over separate objects, or over shared statements from which they verify or have provers made before - each run has the outcome it would have alone: honest runs are accepted, and no mixture of messages from different runs makes a verifier accept a false statement.",
  ["schedules"], "All interleavings of protocol messages of several runs.",
  "The tests run one session at a time.",
  [B, C, E_, N], [("state of a run in prover, verifier and their statement copies", C + ", " + E_)], ["results of verify"])
p("C19", "Expressions denote the linear combination that was written",
  "Building expressions from secrets and points with * and + (in any nesting and order, with repeated operands) yields exactly the listed terms in order, does not change the operands, and evaluates to the same point as the linear combination of the values the secrets have by then, however and how often these were set. Anything else than sums of secret times point is refused, at the latest when a statement is built from it or proven, and evaluation without all values raises an error.",
  ["programs", "inputs"], "All expression-building programs.",
  "The tests build a few expressions of two or three terms, each used once.",
  [X], [("Expression.__add__ / eval", X), ("wsum_secrets", X)], ["Expression.bases, secrets, eval"])
p("C20", "Pairing-group wrappers behave as additive groups with a bilinear map",
  "Points of G1, G2 and GT obey the laws of additive groups of the given order (identity, inverses, scalar multiplication by any integer, sums and weighted sums), pairing is bilinear and non-degenerate, and equality, representation and encoding are consistent: equal points compare equal after encoding and decoding, also between different instances of the pair of groups.",
  ["inputs"], "All points, scalars and operation sequences.",
  "The tests check a few identities on generators.",
  [G], [("operators, sum, wsum, pair", G), ("pt_enc / pt_dec", G)], ["G1Point, G2Point, AdditivePoint"])
p("C21", "An or-proof can be proven whenever one disjunct can be",
  "If the prover can prove at least one disjunct, the or-proof succeeds and verifies every time, however many other disjuncts lack secret values or are marked as simulated, of whatever kind and depth they are. Primitives that say that they lack values (is_provable) are not picked, and if no disjunct can be proven, no proof is produced.",
  ["inputs", "programs"], "All or-proofs and all subsets of provable disjuncts.",
  "The prover picks a disjunct at random, so a test passes by chance; few kinds of disjuncts are tried.",
  [C, E_, D], [("OrProofStmt.get_prover", C)], ["prove"])
p("C22", "Verifiers challenge with fresh, uniform, full-size challenges",
  "Each challenge an interactive verifier sends is drawn anew and uniformly from [0, 2^128), whatever the commitment, statement or previous runs; it is the challenge the response is checked against. Messages that arrive out of order, again, late or after a refused one never change what the challenge is for, so no false statement is accepted; a recorded or precomputed conversation is refused by a fresh verifier. Random numbers of any other length are uniform over their whole range too.",
  ["inputs", "histories"], "All verifiers, all sequences of sessions.",
  "A constant or short challenge passes every honest test.",
  [B, C, U, E_], [("send_challenge", B + ", " + C), ("get_random_num", U)], ["Verifier.send_challenge"])
p("C23", "Custom primitives' checks are enforced wherever they occur",
  "For a primitive defined by the user, wherever it occurs in a tree, the verifier constructs it from exactly the precommitment the prover sent, and accepts only after its validation of this precommitment succeeded; a validation error at any place means refusal. The verifier never makes precommitments itself, and any serializable precommitment other than None works.",
  ["programs", "inputs"], "All trees containing custom primitives, all precommitment types, and all failing positions.",
  "The tests have one or two custom primitives at the top of a statement.",
  [E_, C, B], [("full_validate", C), ("process_precommitment", E_ + ", " + C)], ["construct_stmt, validate, precommit calls"])
p("C24", "Generators are reproducible, distinct and unrelated",
  "Generators derived from the same seed are the same in every process and for every count, lie in the requested group, and are pairwise distinct with no evident linear relation between them or with the group's own generator; seeds further apart than the count give different ones, and without a seed they are fresh in every call, process and fork. Random numbers of a given bit length cover exactly that range uniformly, and sums modulo a modulus are correct.",
  ["inputs", "configurations"], "All counts, seeds, groups, bit lengths and processes.",
  "The tests look at single values.",
  [U, S], [("get_random_point / make_generators", U)], ["make_generators", "get_random_num"])
p("C25", "Garbage is never accepted and does no harm",
  "Whatever bytes or objects are presented as a proof or as protocol messages (wrong types, lengths, nesting, points, other proofs' parts, genuine encodings with something added or missing), verification never returns success, and the statement keeps accepting genuine proofs afterwards.",
  ["inputs", "fault_sequences"], "All malformed proofs and messages.",
  "The tests never present malformed proofs.",
  [B, C, D, E_, R, N, S], [("verify_nizk / deserialize", B)], ["verify"])
p("C26", "Effort and size grow in proportion and not with use",
  "The work for building, identifying, proving, verifying, simulating and serializing a statement, and the size of its proofs and messages, grow polynomially with it and never exponentially: sizes linearly with the number of terms, subproofs, signed messages and bits of a range, verifying and simulating linearly as well (with the square for conjunctions of or-proofs and range proofs, and for proving), and all work at most with the third power of the nesting depth. The width of a range counts by its bits only. However often the same objects are used, operations do not get slower, proofs do not get larger, and nothing is kept in memory.",
  ["inputs", "programs"], "All statements of all sizes and all histories of operations.",
  "The tests use small statements a few times each and do not look at the cost.",
  [C, D, E_, R, N, S, X, U, B], [("full_validate, get_proof_id, validate_composition", C)], ["prove, verify, simulate"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in props:
        assert len(x["title"]) <= 80, x["title"]
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(props))
