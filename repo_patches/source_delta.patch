From fc6284e9e4a276ac8d3f34892215191d84d8bcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 01/35] fix: or-proof residual challenge lies in the same range
 as simulated ones

The challenge of the proven disjunct used to be negative, unlike the
challenges of the simulated disjuncts, so a transcript showed which
disjunct is the real one.
---
 zksk/composition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 0d4ae5b..16741b1 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -36,7 +36,7 @@ def _find_residual_challenge(subchallenges, challenge, modulus):
     modulus = Bn(2).pow(modulus)
     temp_arr = subchallenges.copy()
     temp_arr.append(-challenge)
-    return -sum_bn_array(temp_arr, modulus)
+    return (-sum_bn_array(temp_arr, modulus)) % modulus
 
 
 def _assign_secret_ids(secret_vars):
-- 
2.43.0


From cc4cb1e2a2a20828ddad2c2266f1d0ba11125f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 02/35] fix: or-proof verification rejects surplus or
 out-of-range subchallenges

A prover knowing no witness could append a subchallenge, or shift one by
a multiple of the group order, to satisfy the challenge sum.
---
 zksk/composition.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 16741b1..c66eea1 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -421,6 +421,14 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         self.or_challenges = responses[0]
         responses = responses[1]
 
+        # There must be exactly one challenge per subproof, drawn from the challenge space.
+        # Otherwise the constraint below does not bind the subproofs to the global challenge.
+        max_challenge = Bn(2).pow(CHALLENGE_LENGTH)
+        if len(self.or_challenges) != len(self.subproofs) or not all(
+            isinstance(c, Bn) and 0 <= c < max_challenge for c in self.or_challenges
+        ):
+            raise InconsistentChallengeError("Inconsistent challenges.")
+
         # We check for challenge consistency i.e the constraint was respected
         if _find_residual_challenge(
             self.or_challenges, challenge, CHALLENGE_LENGTH
-- 
2.43.0


From 18d65d72f57c4286259ee83f937b9a3d8435e9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 03/35] fix: real and simulated composed proofs encode
 precommitments alike

A simulated and/or subproof without precommitments yielded a list of None
where a real one yields None, which showed which disjunct is simulated. An
or-proof also dropped the precommitments when all were empty containers, so
a separate verifier could not construct the statement.
---
 zksk/composition.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index c66eea1..4f44972 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -39,6 +39,25 @@ def _find_residual_challenge(subchallenges, challenge, modulus):
     return (-sum_bn_array(temp_arr, modulus)) % modulus
 
 
+def _merge_precommitments(precommitments):
+    """
+    Precommitment of a composed proof, given the precommitments of its subproofs.
+
+    Real and simulated proofs have to use the same encoding, so that they look alike.
+
+    >>> _merge_precommitments([None, None]) is None
+    True
+    >>> _merge_precommitments([None, []])
+    [None, []]
+
+    Args:
+        precommitments: The precommitments of the subproofs, None for those without one.
+    """
+    if all(p is None for p in precommitments):
+        return None
+    return precommitments
+
+
 def _assign_secret_ids(secret_vars):
     """
     Assign consecutive identifiers to secrets.
@@ -561,7 +580,7 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
             commitment=com,
             challenge=challenge,
             responses=(or_chals, resp),
-            precommitment=precom,
+            precommitment=_merge_precommitments(precom),
         )
 
 
@@ -606,9 +625,7 @@ class OrProver(Prover):
                 else:
                     index1 = index
                 precommitment.append(self.simulations[index1].precommitment)
-        if not any(precommitment):
-            return None
-        return precommitment
+        return _merge_precommitments(precommitment)
 
     def internal_commit(self, randomizers_dict=None):
         """
@@ -821,7 +838,10 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
             precom.append(simulation.precommitment)
 
         return SimulationTranscript(
-            commitment=com, challenge=challenge, responses=resp, precommitment=precom
+            commitment=com,
+            challenge=challenge,
+            responses=resp,
+            precommitment=_merge_precommitments(precom),
         )
 
     def validate_secrets_reoccurence(self, forbidden_secrets=None):
-- 
2.43.0


From 06984da4a9534ccad77435d653a00556026ddc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 04/35] fix: proving or simulating a statement does not mark it
 as simulated

After one proof, an or-proof (or a new composition of the same statements)
could not be proven any more.
---
 zksk/composition.py      | 1 -
 zksk/primitives/dlrep.py | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 4f44972..3a4da6e 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -320,7 +320,6 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         """
         Generate the transcript of a simulated non-interactive proof.
         """
-        self.set_simulated()
         self.prepare_simulate_proof()
         transcript = self.simulate_proof(challenge=challenge)
         transcript.stmt_hash = self.prehash_statement().digest()
diff --git a/zksk/primitives/dlrep.py b/zksk/primitives/dlrep.py
index 27ec139..3052d68 100644
--- a/zksk/primitives/dlrep.py
+++ b/zksk/primitives/dlrep.py
@@ -123,7 +123,7 @@ class DLRep(ComposableProofStmt):
         secrets_dict = self.secret_values
         # If missing secrets or simulation parameter set, return now
         if (
-            self.set_simulated()
+            self.simulated
             or secrets_dict == {}
             or any(sec not in secrets_dict.keys() for sec in set(self.secret_vars))
         ):
-- 
2.43.0


From 760dfe412488df74b2ced8c711dddc41b3ee9a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 05/35] fix: adding expressions does not modify the operands

---
 zksk/expr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zksk/expr.py b/zksk/expr.py
index 955c39e..afd34aa 100644
--- a/zksk/expr.py
+++ b/zksk/expr.py
@@ -56,9 +56,10 @@ class Expression:
             raise InvalidExpression(
                 "Invalid expression. Only linear combinations of group elements are supported."
             )
-        self._secrets.extend(other._secrets)
-        self._bases.extend(other._bases)
-        return self
+        result = Expression(self._secrets[0], self._bases[0])
+        result._secrets = self._secrets + other._secrets
+        result._bases = self._bases + other._bases
+        return result
 
     @property
     def secrets(self):
-- 
2.43.0


From 0b8dfdae50939b3a0d5e775935f251aacf2f4d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:02 +0000
Subject: [PATCH 06/35] fix: compare G2 and GT groups by value, as G1

A deserialized point belongs to another group object, so statements mixing
such points with local ones (e.g., in a received BBS+ proof) were refused.
---
 zksk/pairings.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 01667af..cb3ae7f 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -63,6 +63,9 @@ class GTGroup:
             self.gen = self.bp.G1.generator().pair(self.bp.G2.generator())
         return self.gen
 
+    def __eq__(self, other):
+        return self.__class__ == other.__class__ and self.bp.bpgp == other.bp.bpgp
+
     def sum(self, points):
         res = self.infinite()
         for p in points:
@@ -273,6 +276,9 @@ class G2Group:
     def order(self):
         return self.bp.bpgp.order()
 
+    def __eq__(self, other):
+        return self.__class__ == other.__class__ and self.bp.bpgp == other.bp.bpgp
+
     # TODO throw these on a base class
     def sum(self, points):
         res = self.infinite()
-- 
2.43.0


From 304af39bd89cecc45680f8ef9d81ba0e2f19f6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 07/35] fix: represent pairing points by their value, not by a
 per-process hash

The representation enters the statement hash, so proofs on G1, G2 and GT
could not be verified by another process (Python randomizes hashes).
---
 zksk/pairings.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index cb3ae7f..7c7b9db 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -120,7 +120,7 @@ class AdditivePoint:
     __rmul__ = __mul__
 
     def __repr__(self):
-        return "GTPt(" + str(self.pt.__hash__()) + ")"
+        return "GTPt(" + self.export().hex() + ")"
 
 
 class G1Point:
@@ -161,7 +161,7 @@ class G1Point:
         return AdditivePoint(self.bp.bpgp.pair(self.pt, other.pt), self.bp)
 
     def __repr__(self):
-        return "G1Pt(" + str(self.pt.__hash__()) + ")"
+        return "G1Pt(" + self.export().hex() + ")"
 
 
 class G2Point:
@@ -199,7 +199,7 @@ class G2Point:
     __rmul__ = __mul__
 
     def __repr__(self):
-        return "G2Pt(" + str(self.pt.__hash__()) + ")"
+        return "G2Pt(" + self.export().hex() + ")"
 
 
 class G1Group:
-- 
2.43.0


From aaea9546805b20832599cba9a74fe7ef683f5c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 08/35] fix: weighted sums over pairing groups refuse
 mismatched lengths

Surplus weights were ignored, so a BBS+ signature did not cover the
messages beyond the number of generators.
---
 zksk/pairings.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 7c7b9db..e1698cd 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -73,6 +73,8 @@ class GTGroup:
         return res
 
     def wsum(self, weights, generators):
+        if len(weights) != len(generators):
+            raise ValueError("Should have as many weights as generators.")
         res = self.infinite()
         for w, g in zip(weights, generators):
             res = res + w * g
@@ -243,6 +245,8 @@ class G1Group:
 
     # TODO throw these on a base class
     def wsum(self, weights, generators):
+        if len(weights) != len(generators):
+            raise ValueError("Should have as many weights as generators.")
         res = self.infinite()
         for w, g in zip(weights, generators):
             res = res + w * g
@@ -287,6 +291,8 @@ class G2Group:
         return res
 
     def wsum(self, weights, generators):
+        if len(weights) != len(generators):
+            raise ValueError("Should have as many weights as generators.")
         res = self.infinite()
         for w, g in zip(weights, generators):
             res = res + w * g
-- 
2.43.0


From 4d41beeb255b407ae650eec21f17806f61563eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 09/35] fix: BilinearGroupPair uses the group it is given

---
 zksk/pairings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index e1698cd..43f1295 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -20,7 +20,8 @@ class BilinearGroupPair:
 
     def __init__(self, bp_group=None):
         if bp_group is None:
-            self.bpgp = BpGroup()
+            bp_group = BpGroup()
+        self.bpgp = bp_group
         self.GT = GTGroup(self)
         self.G1 = G1Group(self)
         self.G2 = G2Group(self)
-- 
2.43.0


From 87fa5fa0ed17418f22b61eef6c1e004d4d58002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 10/35] fix: extended proofs over a single statement or an
 or-proof work interactively

Their verifier passed an argument that only the verifier of and-proofs has.
---
 zksk/extended.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/zksk/extended.py b/zksk/extended.py
index 047d133..dc37942 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -224,18 +224,6 @@ class ExtendedVerifier(Verifier):
         self.stmt.full_construct_stmt(precommitment)
         self.constructed_verifier = self.stmt.constructed_stmt.get_verifier()
 
-    def send_challenge(self, com):
-        """
-        Transfer the commitment to the inner proof, and compute the challenge.
-        """
-
-        statement, self.commitment = com
-        self.stmt.check_statement(statement)
-        self.challenge = self.constructed_verifier.send_challenge(
-            self.commitment, ignore_statement_hash_checks=True
-        )
-        return self.challenge
-
     def check_responses_consistency(self, responses, responses_dict):
         """
         Wrap the consistency check of the innter proof.
-- 
2.43.0


From f1831a7ae772ef0c9b07ee4492a4401b77eef9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 11/35] fix: range proofs for ranges of one or two values

They need a single bit, hence a single or-proof instead of a conjunction.
---
 zksk/primitives/rangeproof.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index ff57624..b817575 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -130,6 +130,8 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
 
             bit_proofs.append(p0 | p1)
 
+        if len(bit_proofs) == 1:
+            return bit_proofs[0]
         return AndProofStmt(*bit_proofs)
 
     def simulate_precommit(self):
@@ -213,7 +215,7 @@ class GenericRangeStmtMaker:
         """
         a = ensure_bn(a)
         b = ensure_bn(b)
-        num_bits = (b - a - 1).num_bits()
+        num_bits = max(1, (b - a - 1).num_bits())
         offset = Bn(2) ** num_bits - (b - a)
 
         com_shifted1 = com - a * g
@@ -284,7 +286,7 @@ class GenericRangeOnlyStmtMaker:
 
         a = ensure_bn(a)
         b = ensure_bn(b)
-        num_bits = (b - a - 1).num_bits()
+        num_bits = max(1, (b - a - 1).num_bits())
         offset = Bn(2) ** num_bits - (b - a)
         com_shifted1 = com - a * g
         com_shifted2 = com_shifted1 + offset * g
-- 
2.43.0


From 32261cd9e4c87f3ab98bff5db6ff1b8c53688a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 12/35] fix: range proofs refuse surplus bit commitments

Commitments beyond the claimed number of bits entered the sum without
any proof, so values out of range could be proven to be in range.
---
 zksk/primitives/rangeproof.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index b817575..017f09e 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -156,6 +156,10 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         """
         rand = precommitment["rand"]
 
+        # More bits than claimed would allow values out of range
+        if len(precommitment["Cs"]) != self.num_bits:
+            raise ValidationError("Wrong number of bit commitments")
+
         # Combine bit commitments into value commitment
         combined = self.g.group.infinite()
         power = Bn(1)
-- 
2.43.0


From 0e3149b768ea2be8ac334342776eec8c1a8fdbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 13/35] fix: range proofs can be simulated when the secret is
 out of range

E.g., as a disjunct of an or-proof of which another disjunct holds.
---
 zksk/primitives/rangeproof.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index 017f09e..8f0c165 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -111,7 +111,10 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         """
         Construct the internal proof statement.
         """
-        if self.is_prover:
+        mark_disjuncts = (
+            self.is_prover and 0 <= self.x.value < Bn(2).pow(self.num_bits)
+        )
+        if mark_disjuncts:
             # Indicators that tell us which or-clause is true
             actual_value = ensure_bn(self.x.value)
             value_as_bits = decompose_into_n_bits(actual_value, self.num_bits)
@@ -124,7 +127,7 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
             p1 = DLRep(precommitment["Cs"][i] - self.g, self.randomizers[i] * self.h)
 
             # When we are a prover, mark which disjunct is true
-            if self.is_prover:
+            if mark_disjuncts:
                 p0.set_simulated(zero_simulated[i])
                 p1.set_simulated(one_simulated[i])
 
-- 
2.43.0


From 794d81707229a4826f3356158ce07840ca451fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 14/35] fix: copying a composed statement copies its subproofs

Copies of an and/or-proof shared their subproofs, so two occurrences of
one in a bigger proof messed each other up.
---
 zksk/composition.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 3a4da6e..98853cc 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -351,6 +351,15 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
 
 
 class _CommonComposedStmtMixin:
+    def __copy__(self):
+        """
+        Copy the whole tree, as the subproofs can hold state too.
+        """
+        result = self.__class__.__new__(self.__class__)
+        result.__dict__.update(self.__dict__)
+        result.subproofs = [copy.copy(p) for p in self.subproofs]
+        return result
+
     def get_secret_vars(self):
         secret_vars = []
         for sub in self.subproofs:
-- 
2.43.0


From 19ee326e4fb2be39c0534333566fb4d5bf3e6e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 15/35] fix: the same primitive can occur twice in a
 conjunction

The occurrences drew values independently for internal secrets that they
shared, so honest proofs failed to verify.
---
 zksk/extended.py               | 15 +++++++++++++++
 zksk/primitives/bbsplus.py     | 18 +++++++++++-------
 zksk/primitives/dl_notequal.py |  8 ++++++--
 zksk/primitives/rangeproof.py  |  4 ++++
 4 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/zksk/extended.py b/zksk/extended.py
index dc37942..c96df15 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -36,6 +36,21 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
     Proof that deals with precommitments.
     """
 
+    def __copy__(self):
+        """
+        Copy with internal secrets of its own, as these differ from one proof to the next.
+        """
+        result = self.__class__.__new__(self.__class__)
+        result.__dict__.update(self.__dict__)
+        result.make_internal_secrets()
+        return result
+
+    def make_internal_secrets(self):
+        """
+        Make the secrets that only the constructed statement uses. Override if needed.
+        """
+        pass
+
     @abc.abstractmethod
     def construct_stmt(self):
         """
diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index 62edede..bd845d9 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -237,13 +237,7 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
         self.bases = pk.generators[: len(secret_vars)]
         self.order = self.bases[0].group.order()
 
-        # The prover will compute the following secrets:
-        self.r1, self.r2, self.delta1, self.delta2 = (
-            Secret(),
-            Secret(),
-            Secret(),
-            Secret(),
-        )
+        self.make_internal_secrets()
 
         # Below is boilerplate
         self.secret_vars = secret_vars
@@ -254,6 +248,16 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
 
         self.set_simulated(simulated)
 
+    def make_internal_secrets(self):
+        """Make the secrets of the internal proof."""
+        # The prover will compute the following secrets:
+        self.r1, self.r2, self.delta1, self.delta2 = (
+            Secret(),
+            Secret(),
+            Secret(),
+            Secret(),
+        )
+
     def precommit(self):
         """
         Generate the lacking information to construct a complete proof.
diff --git a/zksk/primitives/dl_notequal.py b/zksk/primitives/dl_notequal.py
index 713254b..a7af47d 100644
--- a/zksk/primitives/dl_notequal.py
+++ b/zksk/primitives/dl_notequal.py
@@ -50,8 +50,7 @@ class DLNotEqual(ExtendedProofStmt):
 
         self.x = x
 
-        # The internal ZK proof uses two constructed secrets
-        self.alpha, self.beta = Secret(), Secret()
+        self.make_internal_secrets()
 
         self.lhs = [valid_pair[0], invalid_pair[0]]
         self.g = valid_pair[1]
@@ -60,6 +59,11 @@ class DLNotEqual(ExtendedProofStmt):
         self.bind = bind
         self.set_simulated(simulated)
 
+    def make_internal_secrets(self):
+        """Make the secrets of the internal proof."""
+        # The internal ZK proof uses two constructed secrets
+        self.alpha, self.beta = Secret(), Secret()
+
     def precommit(self):
         """Build the left-hand side of the internal proof statement."""
         order = self.g.group.order()
diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index 8f0c165..8da857f 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -76,6 +76,10 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         self.order = g.group.order()
         self.num_bits = num_bits
 
+        self.make_internal_secrets()
+
+    def make_internal_secrets(self):
+        """Make the secrets of the internal proof."""
         # The constructed proofs need extra randomizers as secrets
         self.randomizers = [Secret() for _ in range(self.num_bits)]
 
-- 
2.43.0


From 5d708fac469319d1f88fc42c7aa4730d8c483022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 16/35] fix: concurrent runs with one statement object do not
 share state

Provers and verifiers kept the state of a run (precommitment, constructed
statement, simulations) in the statement itself. With two runs in flight a
verifier could check the responses of one run against the statement of the
other, which allowed to prove false statements.
---
 zksk/composition.py | 26 +++++++++++++++++++++-----
 zksk/extended.py    | 15 ++++++++++++---
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 98853cc..9ed7259 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -338,7 +338,7 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         """
         verifier = self.get_verifier()
         verifier.process_precommitment(transcript.precommitment)
-        self.check_statement(transcript.stmt_hash)
+        verifier.stmt.check_statement(transcript.stmt_hash)
         verifier.commitment, verifier.challenge = (
             transcript.commitment,
             transcript.challenge,
@@ -360,6 +360,16 @@ class _CommonComposedStmtMixin:
         result.subproofs = [copy.copy(p) for p in self.subproofs]
         return result
 
+    def with_subproofs(self, subproofs):
+        """
+        Get this statement over the given subproofs.
+
+        Provers and verifiers use this to tie the statement to the state of their run.
+        """
+        result = copy.copy(self)
+        result.subproofs = subproofs
+        return result
+
     def get_secret_vars(self):
         secret_vars = []
         for sub in self.subproofs:
@@ -515,10 +525,15 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
                 return None
             self.chosen_idx = random_gen.choice(possible)
             valid_prover = self.subproofs[self.chosen_idx].get_prover(secrets_dict)
-        return OrProver(self, valid_prover)
+
+        # Every run has its own simulations, hence needs its own statement.
+        stmt = copy.copy(self)
+        stmt.subproofs[self.chosen_idx] = valid_prover.stmt
+        return OrProver(stmt, valid_prover)
 
     def get_verifier(self):
-        return OrVerifier(self, [sub.get_verifier() for sub in self.subproofs])
+        subs = [sub.get_verifier() for sub in self.subproofs]
+        return OrVerifier(self.with_subproofs([sub.stmt for sub in subs]), subs)
 
     def validate_composition(self):
         """
@@ -784,13 +799,14 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
             # TODO: It'd be great to know which one is failing.
             raise ValueError("Failed to construct prover for a conjunct")
 
-        return AndProver(self, subs)
+        return AndProver(self.with_subproofs([sub.stmt for sub in subs]), subs)
 
     def get_verifier(self):
         """
         Constructs a Verifier for the and-proof, based on a list of the Verifiers of each subproof.
         """
-        return AndVerifier(self, [sub.get_verifier() for sub in self.subproofs])
+        subs = [sub.get_verifier() for sub in self.subproofs]
+        return AndVerifier(self.with_subproofs([sub.stmt for sub in subs]), subs)
 
     def get_randomizers(self):
         """
diff --git a/zksk/extended.py b/zksk/extended.py
index c96df15..7e24f1b 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -24,6 +24,7 @@ The protocol of an extended proof is as follows:
 """
 
 import abc
+import copy
 
 from zksk.base import Prover, Verifier
 from zksk.composition import ComposableProofStmt
@@ -42,6 +43,8 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         """
         result = self.__class__.__new__(self.__class__)
         result.__dict__.update(self.__dict__)
+        result._precommitment = None
+        result._constructed_stmt = None
         result.make_internal_secrets()
         return result
 
@@ -124,14 +127,20 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         for k, v in secrets_dict.items():
             k.value = v
 
-        self.secret_values = {}
-        self.secret_values.update(secrets_dict)
+        # Every run has its own precommitment, hence needs its own statement.
+        stmt = copy.copy(self)
+        stmt.secret_values = {}
+        stmt.secret_values.update(secrets_dict)
 
-        return ExtendedProver(self, self.secret_values)
+        return ExtendedProver(stmt, stmt.secret_values)
 
     def get_verifier_cls(self):
         return ExtendedVerifier
 
+    def get_verifier(self):
+        # Every run has its own precommitment, hence needs its own statement.
+        return self.get_verifier_cls()(copy.copy(self))
+
     def recompute_commitment(self, challenge, responses):
         return self.constructed_stmt.recompute_commitment(challenge, responses)
 
-- 
2.43.0


From c1e06efb397c35fe0f7c788471e4e76487b3e77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 17/35] fix: a DLRep prover keeps the secret values it was made
 with

It shared them with all later provers of the same statement.
---
 zksk/primitives/dlrep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/primitives/dlrep.py b/zksk/primitives/dlrep.py
index 3052d68..5b60e79 100644
--- a/zksk/primitives/dlrep.py
+++ b/zksk/primitives/dlrep.py
@@ -136,7 +136,7 @@ class DLRep(ComposableProofStmt):
             if not isinstance(sec, Bn):
                 secrets_dict[name] = Bn(sec)
 
-        return DLRepProver(self, secrets_dict)
+        return DLRepProver(self, secrets_dict.copy())
 
     def get_proof_id(self, secret_id_map=None):
         """
-- 
2.43.0


From 1ca1436bbebc8b619a1578a821011bcd4cf17c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 18/35] fix: or-proofs skip disjuncts lacking secret values,
 whatever their kind

Only single DLRep disjuncts were skipped. When the draw fell on an and-proof
or a primitive without its secret values, proving failed.
---
 zksk/composition.py            | 36 ++++++++++++++++++++++++++++------
 zksk/exceptions.py             |  4 ++++
 zksk/primitives/bbsplus.py     |  7 +++++++
 zksk/primitives/dl_notequal.py |  3 +++
 zksk/primitives/rangeproof.py  |  3 +++
 5 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 9ed7259..a544540 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -18,7 +18,8 @@ from zksk.utils import get_random_num, sum_bn_array
 from zksk.utils.misc import get_default_attr
 from zksk.exceptions import StatementSpecError, StatementMismatch
 from zksk.exceptions import InvalidSecretsError, GroupMismatchError
-from zksk.exceptions import InconsistentChallengeError
+from zksk.exceptions import InconsistentChallengeError, IncompleteValuesError
+from zksk.exceptions import MissingConjunctProverError
 
 
 def _find_residual_challenge(subchallenges, challenge, modulus):
@@ -310,6 +311,14 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         """
         self._simulated = value
 
+    def is_provable(self):
+        """
+        Tell if an or-proof can pick this proof to be proven, rather than simulated.
+
+        Override to return False if secret values needed to compute the proof are not known.
+        """
+        return not self.simulated
+
     def prepare_simulate_proof(self):
         """
         Additional steps to prepare before simulating the proof. Override if needed.
@@ -453,6 +462,18 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         # simulations/execution)
         self.subproofs = [copy.copy(p) for p in list(subproofs)]
 
+    def is_provable(self):
+        return not self.simulated and any(sub.is_provable() for sub in self.subproofs)
+
+    def _get_subprover(self, index, secrets_dict):
+        """
+        Get a prover for a disjunct, or None if some of its secret values are not known.
+        """
+        try:
+            return self.subproofs[index].get_prover(secrets_dict)
+        except IncompleteValuesError:
+            return None
+
     def recompute_commitment(self, challenge, responses):
         # We retrieve the challenges, hidden in the responses tuple
         self.or_challenges = responses[0]
@@ -498,10 +519,10 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
 
         # TODO: Add a unit test where simulation must be True/False for all subproofs
 
-        # Prepare the draw. Disqualify proofs with simulation parameter set to true
+        # Prepare the draw. Disqualify proofs that are set to be simulated or cannot be proven
         candidates = {}
         for index, subproof in enumerate(self.subproofs):
-            if not self.subproofs[index].simulated:
+            if subproof.is_provable():
                 candidates[index] = subproof
 
         if len(candidates) == 0:
@@ -516,7 +537,7 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         self.chosen_idx = random_gen.choice(possible)
 
         # Feed the selected proof the secrets it needs if we have them, and try to get_prover
-        valid_prover = self.subproofs[self.chosen_idx].get_prover(secrets_dict)
+        valid_prover = self._get_subprover(self.chosen_idx, secrets_dict)
         while valid_prover is None:
             possible.remove(self.chosen_idx)
             # If there is no proof left, abort and say we cannot get a prover
@@ -524,7 +545,7 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
                 self.chosen_idx = None
                 return None
             self.chosen_idx = random_gen.choice(possible)
-            valid_prover = self.subproofs[self.chosen_idx].get_prover(secrets_dict)
+            valid_prover = self._get_subprover(self.chosen_idx, secrets_dict)
 
         # Every run has its own simulations, hence needs its own statement.
         stmt = copy.copy(self)
@@ -770,6 +791,9 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         # occurrences of the same proof in the tree indeed have their own randomnesses.
         self.subproofs = [copy.copy(p) for p in list(subproofs)]
 
+    def is_provable(self):
+        return not self.simulated and all(sub.is_provable() for sub in self.subproofs)
+
     def validate_composition(self, *args, **kwargs):
         """
         Validate that composition is done correctly.
@@ -797,7 +821,7 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
 
         if None in subs:
             # TODO: It'd be great to know which one is failing.
-            raise ValueError("Failed to construct prover for a conjunct")
+            raise MissingConjunctProverError("Failed to construct prover for a conjunct")
 
         return AndProver(self.with_subproofs([sub.stmt for sub in subs]), subs)
 
diff --git a/zksk/exceptions.py b/zksk/exceptions.py
index 7546475..c1d7b9b 100644
--- a/zksk/exceptions.py
+++ b/zksk/exceptions.py
@@ -7,6 +7,10 @@ class IncompleteValuesError(Exception):
     """Cannot evaluate a proof as not all secret values are set."""
 
 
+class MissingConjunctProverError(IncompleteValuesError, ValueError):
+    """Cannot prove a conjunction as one of its conjuncts cannot be proven."""
+
+
 class InvalidExpression(Exception):
     pass
 
diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index bd845d9..18bc25c 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -258,6 +258,13 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
             Secret(),
         )
 
+    def is_provable(self):
+        return (
+            super().is_provable()
+            and self.signature is not None
+            and all(secret.value is not None for secret in self.secret_vars)
+        )
+
     def precommit(self):
         """
         Generate the lacking information to construct a complete proof.
diff --git a/zksk/primitives/dl_notequal.py b/zksk/primitives/dl_notequal.py
index a7af47d..e2a9ecc 100644
--- a/zksk/primitives/dl_notequal.py
+++ b/zksk/primitives/dl_notequal.py
@@ -64,6 +64,9 @@ class DLNotEqual(ExtendedProofStmt):
         # The internal ZK proof uses two constructed secrets
         self.alpha, self.beta = Secret(), Secret()
 
+    def is_provable(self):
+        return super().is_provable() and self.x.value is not None
+
     def precommit(self):
         """Build the left-hand side of the internal proof statement."""
         order = self.g.group.order()
diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index 8da857f..d62fa77 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -83,6 +83,9 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         # The constructed proofs need extra randomizers as secrets
         self.randomizers = [Secret() for _ in range(self.num_bits)]
 
+    def is_provable(self):
+        return super().is_provable() and self.is_prover
+
     def precommit(self):
         """
         Commit to the bit-decomposition of the value.
-- 
2.43.0


From 7cfc66f23b041150fa19c60d20d48eb32ab049bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 19/35] fix: verifiers check the composition, and so do provers
 in all disjuncts

Only the prover refused invalid compositions (a secret shared over groups of
different orders, or both inside and outside of an or-proof), for which a
cheating prover can make a proof of a false statement.
---
 zksk/base.py        |  1 +
 zksk/composition.py | 12 ++++++++++++
 zksk/extended.py    |  3 +++
 3 files changed, 16 insertions(+)

diff --git a/zksk/base.py b/zksk/base.py
index e181697..647a4f9 100644
--- a/zksk/base.py
+++ b/zksk/base.py
@@ -204,6 +204,7 @@ class Verifier(metaclass=abc.ABCMeta):
         return self.challenge
 
     def pre_verification_validation(self, response, *args, **kwargs):
+        self.stmt.validate_composition()
         self.stmt.full_validate(*args, **kwargs)
 
         if not self.check_responses_consistency(response, {}):
diff --git a/zksk/composition.py b/zksk/composition.py
index a544540..9dd4aa8 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -253,6 +253,14 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         # TODO: calling return here is deceptive if we ask to throw an Exception
         return self.validate(*args, **kwargs)
 
+    def validate_composition(self):
+        """
+        Validate that composition is done correctly.
+
+        Both the prover and the verifier do so. Does nothing if not overriden.
+        """
+        pass
+
     def validate_secrets_reoccurence(self, forbidden_secrets=None):
         """
         Check if a secret appears both inside an outside an or-proof.
@@ -561,6 +569,8 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         Validate that composition is done correctly.
         """
         self.validate_group_orders()
+        for sub in self.subproofs:
+            sub.validate_composition()
 
     def validate_secrets_reoccurence(self, forbidden_secrets=None):
         """
@@ -800,6 +810,8 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         """
         self.validate_group_orders()
         self.validate_secrets_reoccurence()
+        for sub in self.subproofs:
+            sub.validate_composition()
 
     def recompute_commitment(self, challenge, responses):
         com = []
diff --git a/zksk/extended.py b/zksk/extended.py
index 7e24f1b..7721f83 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -100,6 +100,9 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
     def full_validate(self, *args, **kwargs):
         self.validate(self.precommitment, *args, **kwargs)
 
+    def validate_composition(self):
+        self.constructed_stmt.validate_composition()
+
     @property
     def constructed_stmt(self):
         return get_default_attr(self, "_constructed_stmt")
-- 
2.43.0


From 4823ff9d929dcf68852c919530f902f781990638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 20/35] fix: an or-prover makes fresh simulations for every
 proof

Two proofs of one prover object had the same simulated parts, which showed
which disjunct is the real one.
---
 zksk/composition.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 9dd4aa8..c4af25f 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -659,14 +659,25 @@ class OrProver(Prover):
         """
         Run all the required simulations and stores them.
         """
-        self.simulations = []
         for index, subproof in enumerate(self.stmt.subproofs):
             if index != self.true_prover_idx:
                 subproof.prepare_simulate_proof()
-                sim = subproof.simulate_proof()
-                self.simulations.append(sim)
+        self.run_simulations()
+        self.is_precommitted = False
+
+    def run_simulations(self):
+        self.simulations = []
+        for index, subproof in enumerate(self.stmt.subproofs):
+            if index != self.true_prover_idx:
+                self.simulations.append(subproof.simulate_proof())
+        self.is_committed = False
 
     def precommit(self):
+        # Simulations are single use: seeing them twice would tell them from the real proof.
+        if self.is_precommitted or self.is_committed:
+            self.setup_simulations()
+        self.is_precommitted = True
+
         # Generate precommitment for the legit subprover, and gather the precommitments from the
         # stored simulations.
         precommitment = []
@@ -692,6 +703,11 @@ class OrProver(Prover):
         # Now that all proofs have been constructed, we can check
         self.stmt.validate_composition()
 
+        # Simulations are single use: seeing them twice would tell them from the real proof.
+        if self.is_committed:
+            self.run_simulations()
+        self.is_committed = True
+
         commitment = []
         for index, _ in enumerate(self.stmt.subproofs):
             if index == self.true_prover_idx:
-- 
2.43.0


From 1a0af8c2eebc66fa0beecb496df1159df72f2298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 21/35] fix: BBS+ issuance without blinding after one with
 blinding

The blinding factor of the earlier issuance was still added to the signature,
making it invalid.
---
 zksk/primitives/bbsplus.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index 18bc25c..1fe03a6 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -95,6 +95,7 @@ class BBSPlusSignatureCreator:
             messages, self.pk.generators[2 : len(messages) + 2]
         )
         com_nizk_proof = None
+        self.s1 = None
         if zkp:
             self.s1 = self.pk.generators[0].group.order().random()
             lhs = self.s1 * self.pk.generators[1] + lhs
-- 
2.43.0


From 1e6c7d30841847b851e34f8cd665c1717d7f8008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 22/35] fix: primitives without precommitment can be simulated

As documented, if a primitive only overrides construct_stmt then simulations
are automatically enabled.
---
 zksk/extended.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zksk/extended.py b/zksk/extended.py
index 7721f83..8c0d04c 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -87,6 +87,9 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         It should compute the same output as generated by precommit, but without relying on any
         secrets.
         """
+        if type(self).precommit is ExtendedProofStmt.precommit:
+            # No precommitment to simulate
+            return self.precommit()
         raise StatementSpecError(
             "Override simulate_precommit in order to " "use or-proofs and simulations"
         )
-- 
2.43.0


From 253edf09dbd22552ec40b00a5e20fd3aab9d505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 23/35] fix: precommitments can be any serializable object

A string could not be hashed, and a tuple is a list after serialization, so
the statement did not match any more.
---
 zksk/base.py     | 8 +++++---
 zksk/extended.py | 4 +++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/zksk/base.py b/zksk/base.py
index 647a4f9..c07c862 100644
--- a/zksk/base.py
+++ b/zksk/base.py
@@ -81,10 +81,12 @@ def build_fiat_shamir_challenge(stmt_prehash, *args, message=""):
     """
     # Start building the complete hash for the challenge
     for elem in args:
-        if not isinstance(elem, bytes) and not isinstance(elem, str):
-            encoded = encode(elem)
-        else:
+        if isinstance(elem, bytes):
             encoded = elem
+        elif isinstance(elem, str):
+            encoded = elem.encode()
+        else:
+            encoded = encode(elem)
         stmt_prehash.update(encoded)
 
     stmt_prehash.update(message.encode())
diff --git a/zksk/extended.py b/zksk/extended.py
index 8c0d04c..5319937 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -26,6 +26,8 @@ The protocol of an extended proof is as follows:
 import abc
 import copy
 
+from petlib.pack import encode
+
 from zksk.base import Prover, Verifier
 from zksk.composition import ComposableProofStmt
 from zksk.exceptions import StatementSpecError
@@ -157,7 +159,7 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         if self.constructed_stmt is not None:
             proof_id = [
                 self.__class__.__name__,
-                self.precommitment,
+                encode(self.precommitment),
                 self.constructed_stmt.get_proof_id(secret_id_map),
             ]
         else:
-- 
2.43.0


From 7d3d204cbc01681981eb5b83577a123632fb335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 24/35] fix: proofs with surplus responses are refused

Responses beyond the number of subproofs were ignored, so a proof could be
changed and still verify.
---
 zksk/composition.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index c4af25f..dcc1c52 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -19,7 +19,7 @@ from zksk.utils.misc import get_default_attr
 from zksk.exceptions import StatementSpecError, StatementMismatch
 from zksk.exceptions import InvalidSecretsError, GroupMismatchError
 from zksk.exceptions import InconsistentChallengeError, IncompleteValuesError
-from zksk.exceptions import MissingConjunctProverError
+from zksk.exceptions import MissingConjunctProverError, ValidationError
 
 
 def _find_residual_challenge(subchallenges, challenge, modulus):
@@ -484,8 +484,7 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
 
     def recompute_commitment(self, challenge, responses):
         # We retrieve the challenges, hidden in the responses tuple
-        self.or_challenges = responses[0]
-        responses = responses[1]
+        self.or_challenges, responses = responses
 
         # There must be exactly one challenge per subproof, drawn from the challenge space.
         # Otherwise the constraint below does not bind the subproofs to the global challenge.
@@ -494,6 +493,8 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
             isinstance(c, Bn) and 0 <= c < max_challenge for c in self.or_challenges
         ):
             raise InconsistentChallengeError("Inconsistent challenges.")
+        if len(responses) != len(self.subproofs):
+            raise ValidationError("Should have as many responses as subproofs.")
 
         # We check for challenge consistency i.e the constraint was respected
         if _find_residual_challenge(
@@ -830,6 +831,9 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
             sub.validate_composition()
 
     def recompute_commitment(self, challenge, responses):
+        if len(responses) != len(self.subproofs):
+            raise ValidationError("Should have as many responses as subproofs.")
+
         com = []
         for index, subproof in enumerate(self.subproofs):
             com.append(subproof.recompute_commitment(challenge, responses[index]))
-- 
2.43.0


From 202229b7a019fd446e0217857ea994dc5869f06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:31 +0000
Subject: [PATCH 25/35] fix: multiplying a GT point by zero

---
 zksk/pairings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 43f1295..fbf2e20 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -108,7 +108,7 @@ class AdditivePoint:
         this value.
         """
         if nb == 0:
-            return AdditivePoint(self.pt / self.pt, self.bp)
+            return AdditivePoint(self.pt.one(self.bp.bpgp), self.bp)
         return AdditivePoint(self.pt ** nb, self.bp)
 
     def __eq__(self, other):
-- 
2.43.0


From 0cc75200f204263f7466665c912081a118f316ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 26/35] fix: an or-prover makes its simulations when proving
 starts

Copies of an unused prover (as after fork) sent the same simulated parts,
which showed which disjunct is the real one.
---
 zksk/composition.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index dcc1c52..f3fa75c 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -653,8 +653,8 @@ class OrProver(Prover):
         self.stmt = stmt
         self.true_prover_idx = self.stmt.chosen_idx
 
-        # Create a list storing the SimulationTranscripts
-        self.setup_simulations()
+        # The list of the SimulationTranscripts, made anew for each proof
+        self.simulations = None
 
     def setup_simulations(self):
         """
@@ -664,7 +664,6 @@ class OrProver(Prover):
             if index != self.true_prover_idx:
                 subproof.prepare_simulate_proof()
         self.run_simulations()
-        self.is_precommitted = False
 
     def run_simulations(self):
         self.simulations = []
@@ -675,9 +674,7 @@ class OrProver(Prover):
 
     def precommit(self):
         # Simulations are single use: seeing them twice would tell them from the real proof.
-        if self.is_precommitted or self.is_committed:
-            self.setup_simulations()
-        self.is_precommitted = True
+        self.setup_simulations()
 
         # Generate precommitment for the legit subprover, and gather the precommitments from the
         # stored simulations.
@@ -705,7 +702,9 @@ class OrProver(Prover):
         self.stmt.validate_composition()
 
         # Simulations are single use: seeing them twice would tell them from the real proof.
-        if self.is_committed:
+        if self.simulations is None:
+            self.setup_simulations()
+        elif self.is_committed:
             self.run_simulations()
         self.is_committed = True
 
-- 
2.43.0


From a68a46cca16465abaa5a24090b6c1dcaf4073e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 27/35] fix: secrets are checked inside of custom primitives'
 or-proofs, too

A conjunction could share a secret with an or-proof constructed by a
primitive. Nothing made a prover use the same value in both.
---
 zksk/extended.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zksk/extended.py b/zksk/extended.py
index 5319937..21f5ba7 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -108,6 +108,9 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
     def validate_composition(self):
         self.constructed_stmt.validate_composition()
 
+    def validate_secrets_reoccurence(self, forbidden_secrets=None):
+        self.constructed_stmt.validate_secrets_reoccurence(forbidden_secrets)
+
     @property
     def constructed_stmt(self):
         return get_default_attr(self, "_constructed_stmt")
-- 
2.43.0


From f6cad97094849aa084b816df6984c0a062e84278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 28/35] fix: a pairing point times a secret is an expression

Point * Secret gave a point wrapping an expression, instead of the same
expression as Secret * Point (as is the case for elliptic curve points).
---
 zksk/pairings.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index fbf2e20..a7c16dd 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -5,6 +5,7 @@ Wrapper around ``bplib`` points that ensures additive notation for all points.
 import attr
 
 from bplib.bp import BpGroup, G1Elem, G2Elem, GTElem
+from petlib.bn import Bn
 
 import petlib.pack as pack
 import msgpack
@@ -107,6 +108,8 @@ class AdditivePoint:
         Special case in 0 as the underlying ``bplib`` function is broken for
         this value.
         """
+        if not isinstance(nb, (int, Bn)):
+            return NotImplemented
         if nb == 0:
             return AdditivePoint(self.pt.one(self.bp.bpgp), self.bp)
         return AdditivePoint(self.pt ** nb, self.bp)
@@ -150,6 +153,8 @@ class G1Point:
         return self + (-1 * other)
 
     def __mul__(self, nb):
+        if not isinstance(nb, (int, Bn)):
+            return NotImplemented
         return G1Point(self.pt * nb, self.bp)
 
     def export(self, form=0):
@@ -191,6 +196,8 @@ class G2Point:
         return self + (-1 * other)
 
     def __mul__(self, nb):
+        if not isinstance(nb, (int, Bn)):
+            return NotImplemented
         return G2Point(self.pt * nb, self.bp)
 
     def export(self, form=0):
-- 
2.43.0


From 93cab8bcd517f35186a4661453c394c786cfd8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 29/35] fix: python integers of any size

Secret values, range bounds, messages and numbers to sum could be integers
below 2^32 only (or big numbers); others failed with errors from petlib.
---
 zksk/expr.py                   |  3 ++-
 zksk/pairings.py               | 10 ++++++----
 zksk/primitives/dl_notequal.py |  6 ++++--
 zksk/primitives/dlrep.py       |  4 ++--
 zksk/primitives/rangeproof.py  | 13 +++++++------
 zksk/utils/groups.py           |  8 +++++---
 6 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/zksk/expr.py b/zksk/expr.py
index afd34aa..663a716 100644
--- a/zksk/expr.py
+++ b/zksk/expr.py
@@ -15,6 +15,7 @@ import struct
 import hashlib
 
 from zksk.exceptions import InvalidExpression, IncompleteValuesError
+from zksk.utils import ensure_bn
 
 
 class Expression:
@@ -79,7 +80,7 @@ class Expression:
                 )
 
         def ith_mul(i):
-            return self._secrets[i].value * self._bases[i]
+            return ensure_bn(self._secrets[i].value) * self._bases[i]
 
         summation = ith_mul(0)
         for i in range(1, len(self._secrets)):
diff --git a/zksk/pairings.py b/zksk/pairings.py
index a7c16dd..7b641d1 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -10,6 +10,8 @@ from petlib.bn import Bn
 import petlib.pack as pack
 import msgpack
 
+from zksk.utils import ensure_bn
+
 
 class BilinearGroupPair:
     """
@@ -110,9 +112,9 @@ class AdditivePoint:
         """
         if not isinstance(nb, (int, Bn)):
             return NotImplemented
-        if nb == 0:
+        if ensure_bn(nb) == 0:
             return AdditivePoint(self.pt.one(self.bp.bpgp), self.bp)
-        return AdditivePoint(self.pt ** nb, self.bp)
+        return AdditivePoint(self.pt ** ensure_bn(nb), self.bp)
 
     def __eq__(self, other):
         return self.pt == other.pt
@@ -155,7 +157,7 @@ class G1Point:
     def __mul__(self, nb):
         if not isinstance(nb, (int, Bn)):
             return NotImplemented
-        return G1Point(self.pt * nb, self.bp)
+        return G1Point(self.pt * ensure_bn(nb), self.bp)
 
     def export(self, form=0):
         return self.pt.export(form) if form else self.pt.export()
@@ -198,7 +200,7 @@ class G2Point:
     def __mul__(self, nb):
         if not isinstance(nb, (int, Bn)):
             return NotImplemented
-        return G2Point(self.pt * nb, self.bp)
+        return G2Point(self.pt * ensure_bn(nb), self.bp)
 
     def export(self, form=0):
         return self.pt.export(form) if form else self.pt.export()
diff --git a/zksk/primitives/dl_notequal.py b/zksk/primitives/dl_notequal.py
index e2a9ecc..da61c64 100644
--- a/zksk/primitives/dl_notequal.py
+++ b/zksk/primitives/dl_notequal.py
@@ -17,6 +17,7 @@ from zksk.exceptions import ValidationError
 from zksk.extended import ExtendedProofStmt, ExtendedVerifier
 from zksk.composition import AndProofStmt
 from zksk.primitives.dlrep import DLRep
+from zksk.utils import ensure_bn
 
 
 class DLNotEqual(ExtendedProofStmt):
@@ -73,10 +74,11 @@ class DLNotEqual(ExtendedProofStmt):
         blinder = order.random()
 
         # Set the value of the two internal secrets
-        self.alpha.value = self.x.value * blinder % order
+        value = ensure_bn(self.x.value)
+        self.alpha.value = value * blinder % order
         self.beta.value = -blinder % order
 
-        precommitment = blinder * (self.x.value * self.h - self.lhs[1])
+        precommitment = blinder * (value * self.h - self.lhs[1])
         return precommitment
 
     def construct_stmt(self, precommitment):
diff --git a/zksk/primitives/dlrep.py b/zksk/primitives/dlrep.py
index 5b60e79..e2f9a9d 100644
--- a/zksk/primitives/dlrep.py
+++ b/zksk/primitives/dlrep.py
@@ -18,7 +18,7 @@ from petlib.bn import Bn
 
 from zksk.base import Verifier, Prover, SimulationTranscript
 from zksk.expr import Secret, Expression
-from zksk.utils import get_random_num
+from zksk.utils import get_random_num, ensure_bn
 from zksk.consts import CHALLENGE_LENGTH
 from zksk.composition import ComposableProofStmt
 from zksk.exceptions import IncompleteValuesError, InvalidExpression
@@ -134,7 +134,7 @@ class DLRep(ComposableProofStmt):
         # We check everything is indeed a big number, else we cast it
         for name, sec in secrets_dict.items():
             if not isinstance(sec, Bn):
-                secrets_dict[name] = Bn(sec)
+                secrets_dict[name] = ensure_bn(sec)
 
         return DLRepProver(self, secrets_dict.copy())
 
diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index d62fa77..6352b99 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -109,7 +109,7 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         for r in self.randomizers:
             rand = rand.mod_add(r.value * power, self.order)
             power *= 2
-        rand = rand.mod_sub(self.randomizer.value, self.order)
+        rand = rand.mod_sub(ensure_bn(self.randomizer.value), self.order)
         precommitment["rand"] = rand
 
         return precommitment
@@ -237,11 +237,12 @@ class GenericRangeStmtMaker:
         x1 = Secret()
         x2 = Secret()
         if x.value is not None:
-            x1.value = x.value - a
-            x2.value = x.value - a + offset
+            value = ensure_bn(x.value)
+            x1.value = value - a
+            x2.value = value - a + offset
 
             # Ensure secret is in range
-            if x.value < a or x.value >= b:
+            if value < a or value >= b:
                 warnings.warn("Secret outside of given range [{}, {})".format(a, b))
 
         com_stmt = DLRep(com, x * g + r * h)
@@ -308,8 +309,8 @@ class GenericRangeOnlyStmtMaker:
         x1 = Secret()
         x2 = Secret()
         if x is not None:
-            x1.value = x.value - a
-            x2.value = x.value - a + offset
+            x1.value = ensure_bn(x.value) - a
+            x2.value = ensure_bn(x.value) - a + offset
 
         com_stmt = DLRep(com, x * g + r * h)
         p1 = PowerTwoRangeStmt(
diff --git a/zksk/utils/groups.py b/zksk/utils/groups.py
index 4520762..af49153 100644
--- a/zksk/utils/groups.py
+++ b/zksk/utils/groups.py
@@ -1,4 +1,5 @@
 import math
+import operator
 import secrets
 import hashlib
 import warnings
@@ -96,11 +97,11 @@ def sum_bn_array(arr, modulus):
     2
     """
     if not isinstance(modulus, Bn):
-        modulus = Bn(modulus)
+        modulus = ensure_bn(modulus)
     res = Bn(0)
     for elem in arr:
         if not isinstance(elem, Bn):
-            elem = Bn(elem)
+            elem = ensure_bn(elem)
         res = res.mod_add(elem, modulus)
     return res
 
@@ -117,4 +118,5 @@ def ensure_bn(x):
     if isinstance(x, Bn):
         return x
     else:
-        return Bn(x)
+        # Bn() takes small integers only
+        return Bn.from_decimal(str(operator.index(x)))
-- 
2.43.0


From d3ccd0f8012811736113db4723cfd04e2bc1a105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:17 +0000
Subject: [PATCH 30/35] fix: commitments and precommitments cannot change once
 challenged

A verifier stored a commitment before it checked the statement, and took
precommitments at any time. A prover who knows the challenge could replace
both with ones that fit, e.g., by a refused message, and prove false
statements.
---
 zksk/base.py        | 5 ++++-
 zksk/composition.py | 8 +++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/zksk/base.py b/zksk/base.py
index c07c862..c38cead 100644
--- a/zksk/base.py
+++ b/zksk/base.py
@@ -200,8 +200,9 @@ class Verifier(metaclass=abc.ABCMeta):
                 compared against the local statement, and the commmitment as a
                 (potentially multi-level list of) base(s) of the group.
         """
-        statement, self.commitment = commitment
+        statement, commitment = commitment
         self.stmt.check_statement(statement)
+        self.stmt_hash, self.commitment = statement, commitment
         self.challenge = get_random_num(bits=CHALLENGE_LENGTH)
         return self.challenge
 
@@ -226,6 +227,8 @@ class Verifier(metaclass=abc.ABCMeta):
             bool: True if verification succeeded, False otherwise.
         """
         # TODO: I really don't think this chain should be raising exceptions
+        # The challenge is for what was sent before it: precommitments must not change afterwards.
+        self.stmt.check_statement(self.stmt_hash)
         self.pre_verification_validation(response, *args, **kwargs)
 
         # Retrieve the commitment using the verification identity
diff --git a/zksk/composition.py b/zksk/composition.py
index f3fa75c..24ad14f 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -356,7 +356,8 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         verifier = self.get_verifier()
         verifier.process_precommitment(transcript.precommitment)
         verifier.stmt.check_statement(transcript.stmt_hash)
-        verifier.commitment, verifier.challenge = (
+        verifier.stmt_hash, verifier.commitment, verifier.challenge = (
+            transcript.stmt_hash,
             transcript.commitment,
             transcript.challenge,
         )
@@ -1017,10 +1018,11 @@ class AndVerifier(Verifier):
                 we don't check the inner statements.
         """
         if ignore_statement_hash_checks:
-            self.commitment = commitment
+            statement = self.stmt.prehash_statement().digest()
         else:
-            statement, self.commitment = commitment
+            statement, commitment = commitment
             self.stmt.check_statement(statement)
+        self.stmt_hash, self.commitment = statement, commitment
         self.challenge = get_random_num(CHALLENGE_LENGTH)
         return self.challenge
 
-- 
2.43.0


From 51a3ab273d7b32f1e4b5c0f5adab9a934e0a9278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 31/35] fix: operators keep the designation of a composed
 statement as simulated

Operators flatten statements of the same kind into one; if the statement was
designated as to be simulated, its subproofs could then be picked to be proven,
even with values that do not satisfy them.
---
 zksk/composition.py | 47 ++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 24ad14f..b245fb9 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -81,6 +81,29 @@ def _assign_secret_ids(secret_vars):
     return secret_id_map
 
 
+def _flatten(stmt, composed_cls):
+    """
+    Subproofs by which to replace a statement that becomes part of a statement of the same kind.
+
+    A statement that is designated as to be simulated passes this on to its subproofs.
+
+    Args:
+        stmt: Proof statement.
+        composed_cls: Class of the new statement.
+
+    Returns:
+        list: Subproofs if the statement is of the given class, otherwise just the statement.
+    """
+    if not isinstance(stmt, composed_cls):
+        return [stmt]
+    if not stmt.simulated:
+        return stmt.subproofs
+    subproofs = [copy.copy(sub) for sub in stmt.subproofs]
+    for sub in subproofs:
+        sub.set_simulated()
+    return subproofs
+
+
 class ComposableProofStmt(metaclass=abc.ABCMeta):
     """
     A composable sigma-protocol proof statement.
@@ -139,16 +162,9 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         If called multiple times, subproofs are flattened so that only one :py:class:`AndProofStmt`
         remains at the root.
         """
-        if isinstance(other, AndProofStmt):
-            if isinstance(self, AndProofStmt):
-                return AndProofStmt(*self.subproofs, *other.subproofs)
-            else:
-                return AndProofStmt(self, *other.subproofs)
-
-        elif isinstance(self, AndProofStmt):
-            return AndProofStmt(*self.subproofs, other)
-
-        return AndProofStmt(self, other)
+        return AndProofStmt(
+            *_flatten(self, AndProofStmt), *_flatten(other, AndProofStmt)
+        )
 
     def __or__(self, other):
         """
@@ -157,16 +173,7 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         If called multiple times, subproofs are flattened so that only one :py:class:`OrProofStmt`
         remains at the root.
         """
-        if isinstance(other, OrProofStmt):
-            if isinstance(self, OrProofStmt):
-                return OrProofStmt(*self.subproofs, *other.subproofs)
-            else:
-                return OrProofStmt(self, *other.subproofs)
-
-        elif isinstance(self, OrProofStmt):
-            return OrProofStmt(*self.subproofs, other)
-
-        return OrProofStmt(self, other)
+        return OrProofStmt(*_flatten(self, OrProofStmt), *_flatten(other, OrProofStmt))
 
     def get_prover_cls(self):
         if hasattr(self, "prover_cls"):
-- 
2.43.0


From 253c676c43a3667e3a16159e4f273c03d1509378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:10 +0000
Subject: [PATCH 32/35] fix: names of secrets are random

They were derived from the address of the object, which can be used again
once the object is gone while copies with the same name are still alive.
---
 zksk/expr.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/zksk/expr.py b/zksk/expr.py
index 663a716..2a1371b 100644
--- a/zksk/expr.py
+++ b/zksk/expr.py
@@ -11,8 +11,7 @@ Tiny expression language suitable for expressing statements on discrete logarith
 
 """
 
-import struct
-import hashlib
+import os
 
 from zksk.exceptions import InvalidExpression, IncompleteValuesError
 from zksk.utils import ensure_bn
@@ -113,8 +112,7 @@ class Secret:
         self.value = value
 
     def _generate_unique_name(self):
-        h = struct.pack(">q", super().__hash__())
-        return hashlib.sha256(h).hexdigest()[: self.NUM_NAME_BYTES * 4]
+        return os.urandom(self.NUM_NAME_BYTES).hex()
 
     def __mul__(self, base):
         """
-- 
2.43.0


From 042fe412c0c142a1b678a92ef93eb07724302379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:41 +0000
Subject: [PATCH 33/35] fix: provers of primitives keep the values they were
 made with

---
 zksk/extended.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/zksk/extended.py b/zksk/extended.py
index 21f5ba7..b02ea39 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -31,6 +31,7 @@ from petlib.pack import encode
 from zksk.base import Prover, Verifier
 from zksk.composition import ComposableProofStmt
 from zksk.exceptions import StatementSpecError
+from zksk.expr import update_secret_values
 from zksk.utils.misc import get_default_attr
 
 
@@ -227,8 +228,14 @@ class ExtendedProver(Prover):
         return self.response
 
     def precommit(self):
-        self.precommitment = self.stmt._precommit()
-        self.process_precommitment()
+        # Other provers for the same secrets may have set other values in the meantime.
+        current_values = {k: k.value for k in self.secret_values}
+        update_secret_values(self.secret_values)
+        try:
+            self.precommitment = self.stmt._precommit()
+            self.process_precommitment()
+        finally:
+            update_secret_values(current_values)
         try:
             for p in self.constructed_prover.subs:
                 p.precommit()
-- 
2.43.0


From 7ac2bc789ea0108240664770d90a6720c744b345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:29 +0000
Subject: [PATCH 34/35] fix: signatures on no messages can be shown

---
 zksk/primitives/bbsplus.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index 1fe03a6..cfab6b1 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -284,8 +284,10 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
         self.delta2.value = r2 * self.signature.e % self.order
 
         precommitment = {}
-        precommitment["A1"] = r1 * self.bases[1] + r2 * self.bases[2]
-        precommitment["A2"] = r1 * self.bases[2] + self.signature.A
+        # The second base is needed even if there are no messages
+        g1, g2 = self.pk.generators[1:3]
+        precommitment["A1"] = r1 * g1 + r2 * g2
+        precommitment["A2"] = r1 * g2 + self.signature.A
 
         return precommitment
 
@@ -298,7 +300,7 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
         """
 
         self.A1, self.A2 = precommitment["A1"], precommitment["A2"]
-        g0, g1, g2 = self.bases[0], self.bases[1], self.bases[2]
+        g0, g1, g2 = self.pk.generators[:3]
 
         dl1 = DLRep(self.A1, self.r1 * g1 + self.r2 * g2)
         dl2 = DLRep(
@@ -309,7 +311,7 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
         self.pair_lhs = self.A2.pair(self.pk.w) + (-1 * self.pk.gen_pairs[0])
         bases = [
             -1 * (self.A2.pair(self.pk.h0)),
-            self.bases[2].pair(self.pk.w),
+            g2.pair(self.pk.w),
             self.pk.gen_pairs[2],
         ]
         bases.extend(self.pk.gen_pairs[1 : len(self.bases)])
-- 
2.43.0


From 0fc2ec70747503aa715c6023f452ccbfe1585764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:20 +0000
Subject: [PATCH 35/35] fix: proofs over pairing groups decode wherever proofs
 do

---
 zksk/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zksk/base.py b/zksk/base.py
index c38cead..ba14bda 100644
--- a/zksk/base.py
+++ b/zksk/base.py
@@ -14,6 +14,7 @@ from hashlib import sha256
 from collections import defaultdict
 import attr
 
+import zksk.pairings  # Without it, decoding does not know the points of pairing groups
 from zksk.utils import get_random_num
 from zksk.consts import CHALLENGE_LENGTH
 from zksk.exceptions import ValidationError
-- 
2.43.0

