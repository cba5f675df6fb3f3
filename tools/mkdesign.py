"""Puts the table of planted bugs into DESIGN.md, between the markers (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LATE = {
    "n09-first-precommitment": "second precommitments", "n18-s1-set": "issuance sessions (C11 caught it)", "n20-order-of-identity": "identity bases",
    "m01-ends-in-order": "empty and reversed ranges", "m06-point-bits-floor": "generators of few bits",
    "b45-bind-drops": "formal-group attacker", "b48-sim-rand": "two-sample comparison per position", "b54-callers-list": "arguments mode", "b70-bbs-keeps-values": "stale values in signature slots, lifetimes",
    "b75-missing-hash": "blanked fields", "b85-or-response-count": "skip mode", "b89-late-ids": "large identifiers", "b98-bits-msb": "wide ranges", "c08-generators-order": "many generators",
    "f02-hash-first-part": "wide statements", "f06-keep-values": "values in every way (C19)", "f39-random-bytes": "get_random_num", "f40-shared-randomizers": "threads over shared statements",
    "j26-provable-zero": "values 0, 1, -1 (C21 edges)", "k04-bits-of-order": "histograms per order over all families", "l12-extra-fields": "longer encodings", "l13-trailing-bytes": "longer encodings", "l30-fills-callers": "callers' dictionaries, repeatedly", "k06-s1-short": "more issuance samples",
    "h35-combination-abscissa": "inverted combinations", "i32-order-from-first": "mixed-order conjunctions", "i33-deserialize-order": "large proofs",
    "c10-randomizers-added": "callers' randomizers", "b44-range-no-offset": "sizes near powers of two", "d11-bbs-half-blinded": "products and quotients of values",
}
ALSO = {"b70-bbs-keeps-values": "C01, C17"}
rows = ["| id | property | what it breaks | needs | missed at first; added |", "|---|---|---|---|---|"]
ids = sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    clean = lambda s: s.replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s%s | %s | %s | %s |" % (i, m["property"], ", " + ALSO[i] if i in ALSO else "", clean(m["what_it_breaks"]), clean(m["needs"]), LATE.get(i, "")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = s.index("<!-- table -->"), s.index("<!-- end -->")
s = s[:a] + "<!-- table -->\n%d changes:\n\n" % len(ids) + "\n".join(rows) + "\n" + s[b:]
open(p, "w").write(s)
print(len(ids))
