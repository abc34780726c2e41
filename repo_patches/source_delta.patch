From 12db5ea9ad30f0a7cdce366adb8b92d7624ef064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 01/60] fix: measuring the identity no longer fails with an
 IndexError

---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 3d45e74..f9dc472 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -700,7 +700,7 @@ def measure(
     # Outcome is random if one meas_op does not commute with at least one
     # stabilizer, which appear after n_qubits. We don't care about not commuting
     # with the de-stabilisers
-    if nonzero[-1] >= number_of_qubits:
+    if (nonzero >= number_of_qubits).any():
         # Find the first non-commuting (with meas_op) stabilizer
         first_nc_stab = nonzero[nonzero >= number_of_qubits][0]
         index_pos = np.where(nonzero == first_nc_stab)[0][0]
-- 
2.43.0


From 529042b978554d2677208c90cd6f7c041bd56a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 02/60] fix: reset to the eigenstates of Y and of explicitly
 signed +X/+Z

---
 src/plaquette/pauli.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index f9dc472..b769ae6 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1269,10 +1269,12 @@ def reset_qubits_to_eigenstate(
             state, single_qubit_pauli_operator(pauli, qubit, state_qubits)
         )
         if meas_outcome:
-            if pauli == "Z" or pauli == "-Z":
-                state = x(state, qubit)
-            elif pauli == "X" or pauli == "-X":
+            # Any Pauli anticommuting with the measured one maps the -1 onto the
+            # +1 eigenstate
+            if pauli[-1] == "X":
                 state = z(state, qubit)
+            else:
+                state = x(state, qubit)
     return state
 
 
-- 
2.43.0


From 58c70a28f13ca5f52cbd7123425f9d01002fff8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 03/60] fix: build identity Pauli operators from strings and
 dictionaries

---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index b769ae6..29560c5 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -345,7 +345,7 @@ def dict_to_pauli(ops: PauliDict, qubits: Optional[int] = None) -> Tableau:
             from ``ops``'s keys.
     """
     # TODO: add tests
-    max_qubit_index = max(ops.keys())
+    max_qubit_index = max(ops.keys(), default=-1)
     if qubits is None:
         qubits = max_qubit_index + 1
 
-- 
2.43.0


From daf56848856ff22c3232d050fc3be5f86c9dac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 04/60] fix: apply_operator accepts numpy arrays instead of
 rejecting them

---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 29560c5..2b77c9b 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -133,7 +133,7 @@ def apply_operator(op: Tableau, state: Tableau) -> Tableau:
     if state.ndim != 2:
         raise ValueError("`state` must be a 2D numpy array")
 
-    if isinstance(op, np.ndarray):
+    if not isinstance(op, np.ndarray):
         raise TypeError("`op` must be a numpy array")
 
     if op.ndim == 1:
-- 
2.43.0


From 81e0ad45a4667c1af5122991ac4073b7ee577d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 05/60] fix: insert_qubit_at and append_qubit return a valid
 state

---
 src/plaquette/pauli.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 2b77c9b..fbeb481 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -408,27 +408,24 @@ def insert_qubit_at(state: Tableau, pos: int | Sequence[int]) -> Tableau:
             "you're looking for pauli.pad_operator()?"
         )
     number_of_qubits = state.shape[1] // 2
-    if isinstance(pos, int):
-        pos = np.array([pos])
+    pos = np.atleast_1d(pos)
     if (pos > number_of_qubits).any():
         raise IndexError(
             f"Cannot insert a new qubit at position {pos} for a state with "
             f"{number_of_qubits} qubits."
         )
-    h_pos = np.concatenate((pos, np.array(pos) + number_of_qubits))
-    number_of_missing_qubits = np.max(h_pos) - number_of_qubits
-    v_pos = np.concatenate(
-        (
-            [number_of_qubits] * number_of_missing_qubits,
-            [2 * number_of_qubits] * number_of_missing_qubits,
-        )
-    )
+    new_qubits = len(pos)
+    h_pos = np.concatenate((pos, pos + number_of_qubits))
+    v_pos = [number_of_qubits] * new_qubits + [2 * number_of_qubits] * new_qubits
 
     state = np.insert(state, h_pos, 0, axis=1)
     state = np.insert(state, v_pos, 0, axis=0)
-    number_of_qubits += number_of_missing_qubits
-    state[v_pos[:number_of_qubits], h_pos[:number_of_qubits]] = 1
-    state[v_pos[number_of_qubits:], h_pos[number_of_qubits:-1]] = 1
+    total_qubits = number_of_qubits + new_qubits
+    # Columns and rows of the new qubits *after* the insertion
+    columns = np.sort(pos) + np.arange(new_qubits)
+    rows = number_of_qubits + np.arange(new_qubits)
+    state[rows, columns] = 1
+    state[rows + total_qubits, columns + total_qubits] = 1
     return state
 
 
-- 
2.43.0


From e565562c459feb0fa5d766e26e13cf19bc821374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 06/60] fix: string_to_state builds and checks destabilisers
 over GF(2)

---
 src/plaquette/pauli.py | 84 +++++++++++++++++++++++++++++++-----------
 1 file changed, 62 insertions(+), 22 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index fbeb481..640deeb 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1117,31 +1117,22 @@ def string_to_state(
             )
     else:
         # If no destabilisers are given, we need to calculate them
-        ident_size = count_qubits(binary_stabilisers[0])[0]
-        ident = np.eye(ident_size, dtype="u1")
-        zero = np.zeros(ident.shape, dtype="u1")
-        omega = np.block([[zero, ident], [ident, zero]])
-        binary_destabilisers = (
-            np.linalg.pinv(binary_stabilisers[:, :-1].T) @ omega
-        ).astype("u1")
-        # attach an empty column for the sign info
-        binary_destabilisers = np.hstack(
-            (binary_destabilisers, np.zeros((ident_size, 1), dtype="u1"))
-        )
+        binary_destabilisers = _destabilisers_from_stabilisers(binary_stabilisers)
 
     # No matter how we got the destabilisers, check things for sanity
     for i, s in enumerate(binary_stabilisers):
         for j, d in enumerate(binary_destabilisers):
-            if i < j:  # avoid calculating things twice
-                continue
-            # reuse the indices to also check commutation relations among
-            # stabilisers and destabilisers themselves
-            if commutator_sign(binary_stabilisers[i], binary_stabilisers[j]):
-                raise ValueError(f"Stabiliser {i} does not commute with stabiliser {j}")
-            if commutator_sign(binary_destabilisers[i], binary_destabilisers[j]):
-                raise ValueError(
-                    f"Destabiliser {i} does not commute with destabiliser {j}"
-                )
+            if i >= j:  # avoid calculating things twice
+                # reuse the indices to also check commutation relations among
+                # stabilisers and destabilisers themselves
+                if commutator_sign(binary_stabilisers[i], binary_stabilisers[j]):
+                    raise ValueError(
+                        f"Stabiliser {i} does not commute with stabiliser {j}"
+                    )
+                if commutator_sign(binary_destabilisers[i], binary_destabilisers[j]):
+                    raise ValueError(
+                        f"Destabiliser {i} does not commute with destabiliser {j}"
+                    )
 
             # otherwise we check the relationships between stabilisers and destab
             if i == j and not commutator_sign(s, d):
@@ -1149,7 +1140,7 @@ def string_to_state(
                 raise ValueError(
                     f"Destabiliser {j} does not anticommute with its stabiliser"
                 )
-            elif j > i and commutator_sign(s, d):
+            elif j != i and commutator_sign(s, d):
                 # different indices should commute instead
                 raise ValueError(
                     f"Destabiliser {j} does not commute with stabiliser {i}"
@@ -1157,6 +1148,55 @@ def string_to_state(
     return np.vstack((binary_destabilisers, binary_stabilisers), dtype="u1")
 
 
+def _destabilisers_from_stabilisers(stabilisers: Tableau) -> Tableau:
+    """Find destabilisers completing the given stabilisers to a full tableau.
+
+    Args:
+        stabilisers: the binary form of ``n`` stabiliser operators on ``n`` qubits.
+
+    Returns:
+        the ``n`` destabilisers, all with positive sign.
+
+    Raises:
+        ValueError: if the stabilisers do not commute, are not independent or do
+            not define a state.
+    """
+    n_stabs, n = len(stabilisers), stabilisers.shape[1] // 2
+    for i, j in itertools.combinations(range(n_stabs), 2):
+        if commutator_sign(stabilisers[i], stabilisers[j]):
+            raise ValueError(f"Stabiliser {j} does not commute with stabiliser {i}")
+    if n_stabs != n:
+        raise ValueError(f"{n} stabilisers are needed for a state of {n} qubits")
+    # Row k of `a` gives the commutator of stabiliser k with a binary operator. Use
+    # Gauss-Jordan elimination over GF(2) to get operators which anticommute with one
+    # stabiliser each. The right half of `a` keeps track of the operations on rows.
+    a = np.hstack(
+        (stabilisers[:, n : 2 * n], stabilisers[:, :n], np.eye(n, dtype="u1"))
+    )
+    destabilisers = np.zeros((n, 2 * n + 1), dtype="u1")
+    pivots: list[int] = []
+    for column in range(2 * n):
+        row = len(pivots)
+        candidates = np.nonzero(a[row:, column])[0]
+        if len(candidates) == 0:
+            continue
+        a[[row, row + candidates[0]]] = a[[row + candidates[0], row]]
+        others = np.nonzero(a[:, column])[0]
+        others = others[others != row]
+        a[others] ^= a[row]
+        pivots.append(column)
+        if len(pivots) == n:
+            break
+    else:
+        raise ValueError("Stabilisers are not independent")
+    destabilisers[:, pivots] = a[:, 2 * n :].T
+    # Multiplying by stabilisers makes the destabilisers commute with each other
+    for i, j in itertools.combinations(range(n), 2):
+        if commutator_sign(destabilisers[i], destabilisers[j]):
+            destabilisers[j, :-1] ^= stabilisers[i, :-1]
+    return destabilisers
+
+
 def tensor_product(*operators: Tableau) -> Tableau:
     """Compute the tensor product among the given operators or states.
 
-- 
2.43.0


From da0087d42884c2b6788adcadacb3ee99c193d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 07/60] fix: destructive measurement of several qubits at once

---
 src/plaquette/pauli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 640deeb..34a1a46 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -486,7 +486,6 @@ def _measure_base(state, base, targets, *, destructive=False, forced_outcomes=No
         be done highest-index first. The relationship target-forced outcome
         is preserved also at the output.
     """
-    n_q = count_qubits(state)[0]
 
     if isinstance(targets, int):
         targets = [targets]
@@ -533,7 +532,9 @@ def _measure_base(state, base, targets, *, destructive=False, forced_outcomes=No
     for sorted_idx in reversed(np.argsort(targets)):
         state, m = measure(
             state,
-            single_qubit_pauli_operator(base, targets[sorted_idx], n_q),
+            single_qubit_pauli_operator(
+                base, targets[sorted_idx], count_qubits(state)[0]
+            ),
             forced_outcome=_fo[sorted_idx],
         )
         measurement_results[sorted_idx] = m
-- 
2.43.0


From aa3d0d78948b60d85ab7126a0316b6ce76e7d2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 08/60] fix: string_to_pauli rejects unrecognised characters as
 documented

---
 src/plaquette/pauli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 34a1a46..1fcbd62 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1020,6 +1020,8 @@ def string_to_pauli(op_str: str, qubits: Optional[int] = None) -> Tableau:
     # Remove visual separators
     op_str = op_str.replace(" ", "")
     op_str = op_str.replace("_", "")
+    if not re.fullmatch(r"([-+]?[XYZI]\d+)+|[-+]?[XYZI]*", op_str):
+        raise ValueError(f"{op_str!r} is not a valid Pauli operator")
     # Check if there's a digit somewhere
     if any(map(lambda c: c.isdigit(), op_str)):
         # In that case we assume short form and bring this into canonical form
-- 
2.43.0


From cbf22bf6f27806962a35a8e6b0e15b20316702c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:37 +0000
Subject: [PATCH 09/60] fix: multiply honours the initial phase for a single
 operator

---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 1fcbd62..fda6a10 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1465,7 +1465,7 @@ def multiply(
         raise ValueError("At least one operator is necessary")
     elif len(operators) == 1:
         # If only one operator is given, treat this product as being with an identity.
-        return operators[0], -1 if operators[0][-1] else 1
+        return operators[0], initial_phase * (-1 if operators[0][-1] else 1)
     elif len(operators) > 2:
         prod, phase = multiply(
             operators[-2], operators[-1], initial_phase=initial_phase
-- 
2.43.0


From 445256873213521a82ad305e0205bc3dbdfa3d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:13 +0000
Subject: [PATCH 10/60] fix: a device recognises the circuit of a builder it
 already ran

---
 src/plaquette/device/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/plaquette/device/__init__.py b/src/plaquette/device/__init__.py
index d99abf0..a654cd3 100644
--- a/src/plaquette/device/__init__.py
+++ b/src/plaquette/device/__init__.py
@@ -407,6 +407,9 @@ class Device:
         # backend is None in the case of a local simulator, but now we
         # can actually create one, since we have a circuit
         if self._backend_name in local_simulators:
+            # A builder is only a wrapper: what is run (and compared) is its circuit
+            if isinstance(circuit, plaq_circuit.CircuitBuilder):
+                circuit = circuit.circ
             if self._backend is None or self.circuit is not circuit:
                 self._backend = self._backend_class(
                     circuit, *self._args, **self._kwargs
-- 
2.43.0


From 570d1fbd7c012d2e885e9dfa6a37a0140e957c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 11/60] fix: DEPOLARIZE can be simulated with the stim backend

---
 src/plaquette/device/_stimsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/device/_stimsim.py b/src/plaquette/device/_stimsim.py
index 146a6b2..ff358bd 100644
--- a/src/plaquette/device/_stimsim.py
+++ b/src/plaquette/device/_stimsim.py
@@ -55,7 +55,8 @@ def circuit_to_stim(circ: circuit.Circuit) -> tuple[stim.Circuit, list[bool]]:
                 res.append(name, args)
                 meas_is_erasure.extend([False] * len(args))
             case "DEPOLARIZE":
-                res.append(name, args, 1.0)
+                # X, Y or Z with a probability of 1/3 each
+                res.append("PAULI_CHANNEL_1", args, (1 / 3, 1 / 3, 1 / 3))
             case "E_PAULI":
                 assert len(args) == 4
                 res.append("PAULI_CHANNEL_1", args[3], args[:3])
-- 
2.43.0


From 8c50d1ebd500aed35b16cc2631cf9ea696cb8625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 12/60] fix: stim results of a circuit without measurements

---
 src/plaquette/device/_stimsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/device/_stimsim.py b/src/plaquette/device/_stimsim.py
index ff358bd..fccc571 100644
--- a/src/plaquette/device/_stimsim.py
+++ b/src/plaquette/device/_stimsim.py
@@ -149,7 +149,7 @@ class StimSimulator(device.AbstractSimulator):
         # Convert the circuit to Stim format. A sampler is not built until an RNG
         # is supplied.
         self.stim_circ, is_erasure = circuit_to_stim(self.circ)
-        self.meas_is_erasure = np.array(is_erasure)
+        self.meas_is_erasure = np.array(is_erasure, dtype=bool)
         if stim_seed is None:
             self.stim_seed = plaquette.rng.integers(0, 2**63)
         else:
-- 
2.43.0


From 0c10fcab042443b87e5c3872044df13965f37bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:52 +0000
Subject: [PATCH 13/60] fix: stim backend notices changes of the circuit
 between runs

---
 src/plaquette/device/_stimsim.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/device/_stimsim.py b/src/plaquette/device/_stimsim.py
index fccc571..4fd5efb 100644
--- a/src/plaquette/device/_stimsim.py
+++ b/src/plaquette/device/_stimsim.py
@@ -148,14 +148,19 @@ class StimSimulator(device.AbstractSimulator):
         self.batch_size = batch_size
         # Convert the circuit to Stim format. A sampler is not built until an RNG
         # is supplied.
-        self.stim_circ, is_erasure = circuit_to_stim(self.circ)
-        self.meas_is_erasure = np.array(is_erasure, dtype=bool)
+        self._translate()
         if stim_seed is None:
             self.stim_seed = plaquette.rng.integers(0, 2**63)
         else:
             self.stim_seed = stim_seed
         self.reset()
 
+    def _translate(self):
+        """Convert the circuit to Stim's format and remember what was converted."""
+        self.stim_circ, is_erasure = circuit_to_stim(self.circ)
+        self.meas_is_erasure = np.array(is_erasure, dtype=bool)
+        self._translated_gates = list(self.circ.gates)
+
     def reset(self, new_seed: Optional[int] = None):
         """Compile a new Stim sampler.
 
@@ -171,9 +176,13 @@ class StimSimulator(device.AbstractSimulator):
         self.batch_remaining = 0
 
     def run(self, *, after_reset=True):  # noqa: D102
-        # Sample a new match if necessary.
         if not after_reset:
             raise ValueError("Stim does not allow sampling without resetting")
+        if self.circ.gates != self._translated_gates:
+            # The circuit was modified (or replaced) since it was converted.
+            self._translate()
+            self.reset()
+        # Sample a new batch if necessary.
         if self.batch_remaining == 0:
             self.batch = self.stim_sampler.sample(shots=self.batch_size)
             self.batch_remaining = self.batch_size
-- 
2.43.0


From 36af437b41ecfa2b269f52d7b1dffff557d7b85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 14/60] fix: logical X stays defined after its initial
 measurement

---
 src/plaquette/circuit/generator.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index 60cf239..c52e2af 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -238,7 +238,9 @@ class QECCircuitGenerator:
             self.apply_measurement_error(op)
         self.apply_gate_and_error("M", ancilla, None, with_errors)
 
-    def measure_logical_ops(self, logop_indices: Sequence[int]):
+    def measure_logical_ops(
+        self, logop_indices: Sequence[int], restore_basis: bool = False
+    ):
         """Measure logical operators.
 
         Args:
@@ -246,6 +248,10 @@ class QECCircuitGenerator:
                 Specifies which logical operators should be measured. See
                 :meth:`plaquette.codes.StabilizerCode.logical_ops_to_indices` for
                 details.
+            restore_basis:
+                If ``True``, data qubits which were rotated to be measured in the
+                Z-basis are rotated back after each operator. Without this, they are
+                not left in an eigenstate of the measured operator.
         """
         for i in logop_indices:
             op = self.lat.logical_ops[i]
@@ -262,6 +268,12 @@ class QECCircuitGenerator:
                         case lattice.Pauli.Y:
                             raise ValueError("Pauli Y not implemented yet")
                     self.apply_gate_and_error("M", dataqubit, None, with_errors=False)
+                if restore_basis:
+                    for edge in op.edges:
+                        if edge.factor == lattice.Pauli.X:
+                            self.apply_gate_and_error(
+                                "H", edge.data.equbit_idx, None, with_errors=False
+                            )
             else:
                 self.measure_op(op, with_errors=False)
 
@@ -355,7 +367,7 @@ class QECCircuitGenerator:
         if lcomm.any():
             raise ValueError("Some measured logical operators do not commute")
         # Measure logical operators for state preparation
-        self.measure_logical_ops(logop_indices)
+        self.measure_logical_ops(logop_indices, restore_basis=True)
         # Measure stabilizer generators for state preparation (without errors)
         self.measure_stabgens(with_errors=False)
         for _ in range(self.code.n_rounds - 1):
@@ -368,7 +380,7 @@ class QECCircuitGenerator:
         # Measure last round of stabilizer generators (without errors)
         self.measure_stabgens(with_errors=False)
         # Measure logical operators for state verification
-        self.measure_logical_ops(logop_indices)
+        self.measure_logical_ops(logop_indices, restore_basis=True)
         return self.cb.circ
 
 
-- 
2.43.0


From 9145b0ac795b6a83faced3bd2e53bbfcc829825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 15/60] fix: stabilisers without a schedule are measured
 sequentially

---
 src/plaquette/circuit/generator.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index c52e2af..21cabf4 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -286,7 +286,14 @@ class QECCircuitGenerator:
                 verification are currently performed without errors.)
         """
         time_steps = self.lat.n_time_steps
-        if isinstance(time_steps, int):
+        # Editing a lattice (e.g. to apply fabrication errors) can create edges which do
+        # not belong to any time step. They can only be measured sequentially.
+        scheduled = all(
+            edge.measurement_time_step is not None
+            for op in self.lat.stabgens
+            for edge in op.edges
+        )
+        if isinstance(time_steps, int) and scheduled:
             self.measure_stabgens_pl(with_errors=with_errors)
         else:
             self.measure_stabgens_seq(with_errors=with_errors)
-- 
2.43.0


From 81da11ed735ce4dbe41c0043bd5559b0ad0ab05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:07 +0000
Subject: [PATCH 16/60] fix: a code's operators follow its fabrication errors

---
 src/plaquette/codes/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/codes/__init__.py b/src/plaquette/codes/__init__.py
index 79dcbf0..7d005b9 100644
--- a/src/plaquette/codes/__init__.py
+++ b/src/plaquette/codes/__init__.py
@@ -290,6 +290,8 @@ class LatticeCode(StabilizerCode):
         """
         self.lattice._fabrication_error_warning(stacklevel=3)
         self.lattice.apply_fabrication_errors(**params)
+        # The operators of the code have changed
+        super().__init__(self.lattice.stabilisers, self.lattice.logical_operators)
 
     @classmethod
     def from_operators(
-- 
2.43.0


From 8d7085dbb90932b5c5a3e94e1991cabd18dc5623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:31 +0000
Subject: [PATCH 17/60] fix: codes of different sizes are not equal

---
 src/plaquette/codes/__init__.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/plaquette/codes/__init__.py b/src/plaquette/codes/__init__.py
index 7d005b9..8a826eb 100644
--- a/src/plaquette/codes/__init__.py
+++ b/src/plaquette/codes/__init__.py
@@ -113,19 +113,11 @@ class StabilizerCode:
         """
         if not isinstance(other, StabilizerCode):
             return NotImplemented
-        return bool(  # mypy complains otherwise
-            np.all(
-                [
-                    (s1 == s2).all()
-                    for s1, s2 in zip(self.stabilisers, other.stabilisers)
-                ]
-            )
-            and np.all(
-                [
-                    (l1 == l2).all()
-                    for l1, l2 in zip(self.logical_ops, other.logical_ops)
-                ]
-            )
+        return (
+            len(self.stabilisers) == len(other.stabilisers)
+            and len(self.logical_ops) == len(other.logical_ops)
+            and all(map(np.array_equal, self.stabilisers, other.stabilisers))
+            and all(map(np.array_equal, self.logical_ops, other.logical_ops))
         )
 
     @property
-- 
2.43.0


From 769d3fb51b291439ab32708fb3accfdb35f52625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:35 +0000
Subject: [PATCH 18/60] fix: check(rank=True) checks the rank

---
 src/plaquette/codes/__init__.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/plaquette/codes/__init__.py b/src/plaquette/codes/__init__.py
index 8a826eb..14edab4 100644
--- a/src/plaquette/codes/__init__.py
+++ b/src/plaquette/codes/__init__.py
@@ -192,11 +192,20 @@ class StabilizerCode:
         assert np.all(
             commutator_sign(self.stabilisers, self.stabilisers) == 0
         ), "Stabilizer generators do not commute with themselves"
-        # if rank:
-        #     assert (
-        #         self.stabilisers.check_matrix_rank()
-        #         == self.n_data_qubits - self.n_logical_qubits
-        #     ), "Rank of the check matrix is incorrect"
+        if rank:
+            # Gaussian elimination over GF(2), signs are irrelevant
+            rows = [row[:-1].astype(bool) for row in np.array(self.stabilisers)]
+            n_independent = 0
+            while rows:
+                pivot_row = rows.pop()
+                if not pivot_row.any():
+                    continue
+                n_independent += 1
+                column = pivot_row.argmax()
+                rows = [row ^ pivot_row if row[column] else row for row in rows]
+            assert (
+                n_independent == self.n_data_qubits - self.n_logical_qubits
+            ), "Rank of the check matrix is incorrect"
 
     def logical_ops_to_indices(self, logical_ops: str | Sequence[int]) -> Sequence[int]:
         """Convert specification of logical operators to index sequence.
-- 
2.43.0


From 5375213caed12ba5ccded6b6ece4600b2bd6294a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:35 +0000
Subject: [PATCH 19/60] fix: generating a circuit leaves the given error
 dictionaries alone

---
 src/plaquette/circuit/generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index 21cabf4..644652c 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -103,11 +103,12 @@ class QECCircuitGenerator:
             raise KeyError("There is an invalid key in the gate errors dictionary.")
 
         self.code = code
-        self.qubit_errors = qubit_errordata
+        # Missing keys are added below, but not to the dictionaries of the caller
+        self.qubit_errors = cast(QubitErrorsDict, dict(qubit_errordata))
         for key in QubitErrorsDict.__optional_keys__:
             self.qubit_errors.setdefault(key, {})  # type: ignore
 
-        self.gate_errors = gate_errordata
+        self.gate_errors = cast(GateErrorsDict, dict(gate_errordata))
         for key in GateErrorsDict.__optional_keys__:
             self.gate_errors.setdefault(key, {})  # type: ignore
 
-- 
2.43.0


From 83cd9b5c95658ea39845c954ca57454201a82294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:01 +0000
Subject: [PATCH 20/60] fix: a circuit generator can be used more than once

---
 src/plaquette/circuit/generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index 644652c..a88207e 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -374,6 +374,8 @@ class QECCircuitGenerator:
         lcomm = commutator_sign(logical_ops_op, logical_ops_op)
         if lcomm.any():
             raise ValueError("Some measured logical operators do not commute")
+        # Start from an empty circuit, also if this generator was used before
+        self.cb = circuit.CircuitBuilder(circuit.Circuit())
         # Measure logical operators for state preparation
         self.measure_logical_ops(logop_indices, restore_basis=True)
         # Measure stabilizer generators for state preparation (without errors)
-- 
2.43.0


From b42b624da2bb174c0c5c6d9f96bdc08116a52c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:39 +0000
Subject: [PATCH 21/60] fix: split results by the weights of the measured
 logical operators

---
 src/plaquette/device/__init__.py | 66 +++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/src/plaquette/device/__init__.py b/src/plaquette/device/__init__.py
index a654cd3..6687b83 100644
--- a/src/plaquette/device/__init__.py
+++ b/src/plaquette/device/__init__.py
@@ -31,6 +31,7 @@ array into different parts (this assumes that the circuit was generated using
 """
 
 import abc
+import itertools as it
 from dataclasses import dataclass
 from typing import Iterable, Optional, Sequence
 
@@ -219,6 +220,7 @@ class MeasurementSample:
         raw_results: np.ndarray,
         erasure: Optional[np.ndarray] = None,
         logical_ancilla: bool = False,
+        logical_ops: str | Sequence[int] | None = None,
     ):
         """Unpack the results from a simulator into a more convenient format.
 
@@ -231,31 +233,51 @@ class MeasurementSample:
                 :meth:`AbstractSimulator.get_sample`.
             logical_ancilla: flag for alternative method to measure logical operators
                 via additional ancilla that is entangled with several physical qubits
+            logical_ops: the measured logical operators, as used to generate the
+                circuit. Only needed without ``logical_ancilla`` and if the number of
+                results does not determine on how many data qubits each of the
+                measured operators acts.
         """
         if not logical_ancilla:
             # Default behavior
-            code_distance = count_qubits(code.logical_ops, include_identities=False)[0]
-
-            logical_op_initial = np.array(
-                [
-                    np.sum(raw_results[i * code_distance : (i + 1) * code_distance]) % 2
-                    for i in range(code.n_logical_qubits)
-                ],
-                dtype=int,
-            )
-            # fmt: off
-            logical_op_final = np.array(
-                [
-                    np.sum(
-                        raw_results[len(raw_results) - (i * code_distance)
-                            - code_distance : len(raw_results) - (i * code_distance)]  # noqa
-                    ) % 2 for i in range(code.n_logical_qubits)
-                ][::-1], dtype=int,
-            )
-            ancillas = np.array(
-                raw_results[code.n_logical_qubits * code_distance : -code.n_logical_qubits * code_distance] # noqa
-            )
-            # fmt: on
+            weights = [
+                int(w) for w in count_qubits(code.logical_ops, include_identities=False)
+            ]
+            if logical_ops is not None:
+                op_weights = tuple(
+                    weights[i] for i in code.logical_ops_to_indices(logical_ops)
+                )
+            else:
+                n_single = len(raw_results) - (code.n_rounds + 1) * code.n_stabgens
+                # Either X or Z was measured on each logical qubit
+                candidates = [
+                    ws
+                    for ws in it.product(*map(set, zip(weights[::2], weights[1::2])))
+                    if 2 * sum(ws) == n_single
+                ]
+                if len(candidates) != 1:
+                    raise ValueError(
+                        "Number of results does not match or is ambiguous, specify the "
+                        "measured logical operators"
+                    )
+                op_weights = candidates[0]
+            # One result per data qubit of each operator, in sequence
+            n_results = sum(op_weights)
+            offsets = np.cumsum([0, *op_weights])
+
+            def parities(results):
+                return np.array(
+                    [
+                        np.sum(results[i:j], dtype=int) % 2
+                        for i, j in zip(offsets[:-1], offsets[1:])
+                    ],
+                    dtype=int,
+                )
+
+            n_total = len(raw_results)
+            logical_op_initial = parities(raw_results[:n_results])
+            logical_op_final = parities(raw_results[n_total - n_results :])
+            ancillas = np.array(raw_results[n_results : n_total - n_results])
         else:
             # Alternative behavior
             logical_op_initial = np.array(raw_results[: code.n_logical_qubits])
-- 
2.43.0


From beb0507edc6830959756dc39cbeed1efc2c29c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:52 +0000
Subject: [PATCH 22/60] fix: codes with more operators than data qubits

---
 src/plaquette/codes/latticebase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/codes/latticebase.py b/src/plaquette/codes/latticebase.py
index 1aa9182..210a507 100644
--- a/src/plaquette/codes/latticebase.py
+++ b/src/plaquette/codes/latticebase.py
@@ -931,7 +931,10 @@ class CodeLatticeFromStab(CodeLattice):
             if def_logical_ops is None:
                 raise TypeError("def_logical_ops is required")
             self.def_logical_ops = def_logical_ops
-        super().__init__((self.n_data_qubits, 3))
+        n_rows = max(
+            self.n_data_qubits, len(self.def_stabgens), len(self.def_logical_ops)
+        )
+        super().__init__((n_rows, 3))
         for i in range(self.n_data_qubits):
             self.add_data((i, 1))
         for i, stab in enumerate(self.def_stabgens):
-- 
2.43.0


From 20264a54b1975a3a0a9c46c8cff441c1e88a2f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 23/60] fix: decoders can be built from weights or without
 error data

---
 src/plaquette/decoders/decoderbase.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/plaquette/decoders/decoderbase.py b/src/plaquette/decoders/decoderbase.py
index 2e3b8e8..36bf5e8 100644
--- a/src/plaquette/decoders/decoderbase.py
+++ b/src/plaquette/decoders/decoderbase.py
@@ -373,13 +373,6 @@ class DecoderInterface:
                                 errordata["pauli"][q][k] = 1e-15  # type: ignore
                     if erasures and not errordata["erasure"].get(q):
                         errordata["erasure"][q] = {"p": 0}
-        else:
-            errordata: ErrorDataDict = {  # type: ignore[no-redef]
-                "pauli": {
-                    q: _default_pauli_errors
-                    for q in range(len(code.lattice.dataqubits))
-                }
-            }
 
         synmgr = syngraph.SyndromeGraphManager(
             code, errordata, weighted=weighted, weights=weights
-- 
2.43.0


From db8d9275225ee4dbf6863bba96279923b8ee50d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:11 +0000
Subject: [PATCH 24/60] fix: building a decoder leaves the given error data
 alone

---
 src/plaquette/decoders/decoderbase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/plaquette/decoders/decoderbase.py b/src/plaquette/decoders/decoderbase.py
index 36bf5e8..2275cab 100644
--- a/src/plaquette/decoders/decoderbase.py
+++ b/src/plaquette/decoders/decoderbase.py
@@ -5,6 +5,7 @@
 from __future__ import annotations
 
 import abc
+import copy
 import warnings
 from typing import NoReturn, Optional, Sequence, Type
 
@@ -347,6 +348,8 @@ class DecoderInterface:
             "z": 1e-15,
         }
         if errordata is not None:
+            # Defaults are added below, but not to the dictionary of the caller
+            errordata = copy.deepcopy(errordata)
             if "pauli" not in errordata:
                 errordata["pauli"] = {
                     q: _default_pauli_errors
-- 
2.43.0


From 2967eafe984f1fdd75a66d087ef120e4bf48aac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:08 +0000
Subject: [PATCH 25/60] fix: certain errors are not ignored by decoders

---
 src/plaquette/syngraph/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/syngraph/__init__.py b/src/plaquette/syngraph/__init__.py
index e6d55f2..8fff3b0 100644
--- a/src/plaquette/syngraph/__init__.py
+++ b/src/plaquette/syngraph/__init__.py
@@ -751,7 +751,8 @@ class SyndromeGraph:
            This method does not enable any edges.
         """
         for edge in self.edges:
-            if np.isinf(edge.weight):
+            # A weight of -inf stands for a certain error, which must not be ignored
+            if np.isposinf(edge.weight):
                 edge.disable()
 
     def _check_edges_duplicate(self) -> None:
-- 
2.43.0


From 692b7ec67348eebf3e2e51e97d13b25ac3f58e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:22 +0000
Subject: [PATCH 26/60] fix: erasures of all qubits with the same syndrome are
 decoded

---
 src/plaquette/syngraph/__init__.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/syngraph/__init__.py b/src/plaquette/syngraph/__init__.py
index 8fff3b0..abfcd95 100644
--- a/src/plaquette/syngraph/__init__.py
+++ b/src/plaquette/syngraph/__init__.py
@@ -604,6 +604,8 @@ class SyndromeGraph:
     _init_complete: bool = False
     #: Edge weights in an array. Used by :meth:`_set_edge_weights_on_components`.
     _edge_weights: np.ndarray
+    #: Disabled duplicates of each edge (indexed by :attr:`Edge.edge_idx`)
+    _duplicates: dict[int, list[Edge]]
 
     def __init__(
         self, n_rounds: int, stabgens: Sequence[Tableau], weights: Optional[dict]
@@ -628,6 +630,7 @@ class SyndromeGraph:
         self.vertices_at_time = []
         self.edges = []
         self.components = []
+        self._duplicates = {}
         self._init_error_ops()
         self._init_vertices()
         self._init_qubit_error_edges(stabgens)
@@ -772,11 +775,15 @@ class SyndromeGraph:
                     edge_dict[key] = [edge]
                 for _, edges in edge_dict.items():
                     if len(edges) > 1:
-                        self._select_lightest_edge(edges)
+                        selected = self._select_lightest_edge(edges)
+                        duplicates = [e for e in edges if e is not selected]
+                        for duplicate in duplicates:
+                            self._duplicates.pop(duplicate.edge_idx, None)
+                        self._duplicates[selected.edge_idx] = duplicates
 
     @staticmethod
-    def _select_lightest_edge(edges: Sequence[Edge]):
-        """Disable all but the lightest edge from a sequence.
+    def _select_lightest_edge(edges: Sequence[Edge]) -> Edge:
+        """Disable all but the lightest edge from a sequence and return the latter.
 
         If all edges have weight NaN, disable all edges except the first one.
 
@@ -794,6 +801,7 @@ class SyndromeGraph:
         for edge in edges:
             if edge is not selected_edge:
                 edge.disable()
+        return selected_edge
 
     def _init_conn_components(self) -> None:
         """Find connected components."""
@@ -918,6 +926,9 @@ class SyndromeGraph:
             if isinstance(edge, QubitErrorEdge):
                 edge.set_erased(qubit_erased[edge.time_step, edge.qubit_idx])
                 edge_erased[edge.edge_idx] = edge.erased
+        # Decoders only see the enabled one of several duplicate edges
+        for edge_idx, duplicates in self._duplicates.items():
+            edge_erased[edge_idx] |= any(edge.erased for edge in duplicates)
         for comp in self.components_with_edges:
             comp.set_erasure(edge_erased[comp.parent_edge_idx])
 
@@ -978,6 +989,15 @@ class SyndromeGraph:
             for idx, result in zip(comp.parent_edge_idx, comp.edge_decoder_result):
                 self.edges[idx].set_decoder_result(result)
             comp.decoder_results_new = False
+        # If only a duplicate of the selected edge was erased, it is the likely error
+        for edge_idx, duplicates in self._duplicates.items():
+            edge = self.edges[edge_idx]
+            for duplicate in duplicates:
+                duplicate.set_decoder_result(False)
+            erased = next((dup for dup in duplicates if dup.erased), None)
+            if edge.decoder_result and not edge.erased and erased is not None:
+                edge.set_decoder_result(False)
+                erased.set_decoder_result(True)
 
     def result_as_error_op_selection(self) -> np.ndarray:
         """Determine which error operators are selected by the current result.
-- 
2.43.0


From db7156c278d83eacb7185ca87dcec59ee63d036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:09 +0000
Subject: [PATCH 27/60] fix: union find treats edges of weight zero as erased

---
 src/plaquette/decoders/unionfind_decoder.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/plaquette/decoders/unionfind_decoder.py b/src/plaquette/decoders/unionfind_decoder.py
index 9e15703..4ef3790 100644
--- a/src/plaquette/decoders/unionfind_decoder.py
+++ b/src/plaquette/decoders/unionfind_decoder.py
@@ -606,7 +606,8 @@ class UnionFindNoWeights:
                 for edge in self.graph.edges:
                     edge.set_weight(2, 1)
         else:
-            weights = self._c * weights / np.min(weights[weights != 0])
+            if np.any(weights != 0):
+                weights = self._c * weights / np.min(weights[weights != 0])
             self._set_weights(weights)
             self.weighted = True
 
@@ -712,9 +713,12 @@ class UnionFind(UnionFindNoWeights):
     def _set_weights(self, weights: np.ndarray):
         """Set weights."""
         assert weights.shape == (len(self.graph.edges),)
-        increments = 1 / (2 * weights)
-        for edge, incr in zip(self.graph.edges, increments):
-            edge.set_weight(1.0, incr)
+        for edge, weight in zip(self.graph.edges, weights):
+            if weight == 0:
+                # Edges with weight zero are complete already (like erased edges).
+                edge.set_weight(0.0, 0.0)
+            else:
+                edge.set_weight(1.0, 1 / (2 * weight))
 
 
 class UnionFindDecoder(erasure_dec.ErasureDecoderInterface):
-- 
2.43.0


From 1157975ee82bc13aea0f2da531106333bd5cfa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:04 +0000
Subject: [PATCH 28/60] fix: the product of a single operator is a new array

---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index fda6a10..661fc67 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1465,7 +1465,7 @@ def multiply(
         raise ValueError("At least one operator is necessary")
     elif len(operators) == 1:
         # If only one operator is given, treat this product as being with an identity.
-        return operators[0], initial_phase * (-1 if operators[0][-1] else 1)
+        return operators[0].copy(), initial_phase * (-1 if operators[0][-1] else 1)
     elif len(operators) > 2:
         prod, phase = multiply(
             operators[-2], operators[-1], initial_phase=initial_phase
-- 
2.43.0


From 8e10206264e8d17540a05c7f5f63bf71a845583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:16 +0000
Subject: [PATCH 29/60] fix: ErrorData.update accepts dataframes

---
 src/plaquette/errors/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index a6e09b1..b49bb4e 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -747,18 +747,18 @@ class ErrorData:  # noqa: D101
                 If ``False``, just updates overlapping locations in the dataframe.
                 and missing locations are appended to the dataframe
         """
-        if qubit_errors:
+        if qubit_errors is not None:
             if overwrite:
-                self.qubit_errors = qubit_errors
+                self.qubit_errors = qubit_errors.set_index(["qubit_id"], drop=False)
             else:
-                qubit_errors.set_index(["qubit_id"], drop=True, inplace=True)
-                for col in qubit_errors.colums:
+                qubit_errors = qubit_errors.set_index(["qubit_id"], drop=True)
+                for col in qubit_errors.columns:
                     if col not in self.qubit_errors.columns:
                         self.qubit_errors[col] = None
                     self.qubit_errors.update(qubit_errors.loc[:, col])
 
             self.enabled_qubit_errors = set(self.qubit_errors.columns[2:])
-        if gate_errors:
+        if gate_errors is not None:
             if overwrite:
                 self.gate_errors = gate_errors
             else:
-- 
2.43.0


From 5cefba261dd12289d2ef85eda517cc18236e7a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:16 +0000
Subject: [PATCH 30/60] fix: ErrorData.update_from_csv enables the qubit errors
 it loads

---
 src/plaquette/errors/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index b49bb4e..61028d0 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -787,7 +787,7 @@ class ErrorData:  # noqa: D101
         if qubit_error_csv:
             qubit_errors = pd.read_csv(qubit_error_csv)
             if overwrite:
-                self.qubit_errors = qubit_errors
+                self.qubit_errors = qubit_errors.set_index(["qubit_id"], drop=False)
             else:
                 qubit_errors.set_index(["qubit_id"], drop=True, inplace=True)
                 for col in qubit_errors.columns:
@@ -795,6 +795,8 @@ class ErrorData:  # noqa: D101
                         self.qubit_errors[col] = None
                     self.qubit_errors.update(qubit_errors.loc[:, col])
 
+            self.enabled_qubit_errors = set(self.qubit_errors.columns[2:])
+
         if gate_error_csv:
             gate_errors = pd.read_csv(gate_error_csv)
             exp_types = ("int", "str", "float")
-- 
2.43.0


From 9e6c4b7002c6a8586acacdad9d448b0144b4ce2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:05 +0000
Subject: [PATCH 31/60] fix: qubit error columns are recognised in any order

---
 src/plaquette/errors/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 61028d0..acf620b 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -398,12 +398,16 @@ class ErrorData:  # noqa: D101
         if not self.qubit_errors.empty:
             self.qubit_errors.set_index(["qubit_id"], drop=False, inplace=True)
             if not self.enabled_qubit_errors:
-                self.enabled_qubit_errors = set(self.qubit_errors.columns[2:])
+                self.enabled_qubit_errors = self._qubit_error_columns()
 
         if not self.gate_errors.empty:
             if not self.enabled_gate_errors:
                 self.enabled_gate_errors = set(self.gate_errors.gate.unique())
 
+    def _qubit_error_columns(self) -> set[str]:
+        """Names of the columns that specify errors, irrespective of their order."""
+        return set(self.qubit_errors.columns) - {"qubit_id", "qubit_type"}
+
     @classmethod
     def from_csv(
         cls, qubit_error_csv: str | None = None, gate_error_csv: str | None = None
@@ -757,7 +761,7 @@ class ErrorData:  # noqa: D101
                         self.qubit_errors[col] = None
                     self.qubit_errors.update(qubit_errors.loc[:, col])
 
-            self.enabled_qubit_errors = set(self.qubit_errors.columns[2:])
+            self.enabled_qubit_errors = self._qubit_error_columns()
         if gate_errors is not None:
             if overwrite:
                 self.gate_errors = gate_errors
@@ -795,7 +799,7 @@ class ErrorData:  # noqa: D101
                         self.qubit_errors[col] = None
                     self.qubit_errors.update(qubit_errors.loc[:, col])
 
-            self.enabled_qubit_errors = set(self.qubit_errors.columns[2:])
+            self.enabled_qubit_errors = self._qubit_error_columns()
 
         if gate_error_csv:
             gate_errors = pd.read_csv(gate_error_csv)
-- 
2.43.0


From 14d798c8df04004a01b79b81cd0f0bfa5ef340f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:05 +0000
Subject: [PATCH 32/60] fix: missing values in the qubit error table are
 ignored

---
 src/plaquette/errors/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index acf620b..17deeac 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -885,7 +885,9 @@ class ErrorData:  # noqa: D101
                             if self.qubit_errors["qubit_type"][idx] == "data"
                         }
                     for k, v in qubit_errors["pauli"].items():
-                        v[f"{e.casefold()}"] = self.qubit_errors[e][k]  # type: ignore
+                        p = self.qubit_errors[e][k]
+                        if not pd.isna(p):  # missing values are ignored
+                            v[f"{e.casefold()}"] = p  # type: ignore
 
                 case "erasure":
                     if qubit_errors.get("erasure") is None:
@@ -896,7 +898,8 @@ class ErrorData:  # noqa: D101
                         }
 
                     for key, val in qubit_errors["erasure"].items():
-                        val["p"] = self.qubit_errors[e][key]
+                        if not pd.isna(self.qubit_errors[e][key]):
+                            val["p"] = self.qubit_errors[e][key]
 
                 case "measurement":
                     if qubit_errors.get("measurement") is None:
@@ -909,7 +912,8 @@ class ErrorData:  # noqa: D101
                             }
                         )
                     for key, val in qubit_errors["measurement"].items():
-                        val["p"] = self.qubit_errors[e][key]
+                        if not pd.isna(self.qubit_errors[e][key]):
+                            val["p"] = self.qubit_errors[e][key]
 
                 case "fabrication":
                     pass
-- 
2.43.0


From f22de955ea7636f9b4b7bd0ea69c2458386d658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:05 +0000
Subject: [PATCH 33/60] fix: gate error CSV files with one value per cell can
 be read

---
 src/plaquette/errors/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 17deeac..ec66b7e 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -445,7 +445,7 @@ class ErrorData:  # noqa: D101
 
         gate_errors: pd.DataFrame = pd.DataFrame()
         if gate_error_csv:
-            gate_errors = pd.read_csv(gate_error_csv)
+            gate_errors = pd.read_csv(gate_error_csv, dtype=str)
             exp_types = ("int", "str", "float")
             for key, et in zip(gate_errors.keys()[1:], exp_types):
                 gate_errors[key] = delimited_string_list_to_series(gate_errors[key], et)
@@ -802,7 +802,7 @@ class ErrorData:  # noqa: D101
             self.enabled_qubit_errors = self._qubit_error_columns()
 
         if gate_error_csv:
-            gate_errors = pd.read_csv(gate_error_csv)
+            gate_errors = pd.read_csv(gate_error_csv, dtype=str)
             exp_types = ("int", "str", "float")
             for key, et in zip(gate_errors.keys()[1:], exp_types):
                 gate_errors[key] = delimited_string_list_to_series(gate_errors[key], et)
@@ -1236,7 +1236,7 @@ def assimilate_gate_errors(
     """
     gate_pd = pd.DataFrame(columns=["gate", "on_qubits", "induced_errors", "probs"])
     try:
-        gate_csv = pd.read_csv(gate_error_config[1])
+        gate_csv = pd.read_csv(gate_error_config[1], dtype=str)
     except FileNotFoundError:
         gate_csv = pd.DataFrame(
             columns=["gate", "on_qubits", "induced_errors", "probs"]
-- 
2.43.0


From 6fd2d8878c9fe6d0a8e58f8bb8c206b9251e2c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:05 +0000
Subject: [PATCH 34/60] fix: ErrorData.save_to_csv writes files that from_csv
 can read

---
 src/plaquette/errors/__init__.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index ec66b7e..de81572 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -867,8 +867,17 @@ class ErrorData:  # noqa: D101
             qubit_error_path = "./qubit_error.csv"
         if gate_error_path is None:
             gate_error_path = "./gate_error.csv"
-        self.qubit_errors.to_csv(qubit_error_path)
-        self.gate_errors.to_csv(gate_error_path)
+        self.qubit_errors.to_csv(qubit_error_path, index=False)
+        gate_errors = self.gate_errors.reindex(
+            columns=["gate", "on_qubits", "induced_errors", "probs"]
+        )
+        for key in gate_errors.columns[1:]:
+            # the inverse of `delimited_string_list_to_series`
+            gate_errors[key] = [
+                val if isinstance(val, str) else "|".join(str(x) for x in val)
+                for val in gate_errors[key]
+            ]
+        gate_errors.to_csv(gate_error_path, index=False)
 
     @property
     def qubit_errors_dict(self) -> QubitErrorsDict:
-- 
2.43.0


From 3bfccf1de9f47b6cadb68ca1f5c76e28546f5f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:05 +0000
Subject: [PATCH 35/60] fix: gaussian errors of two-qubit gates are mapped to
 their channel

---
 src/plaquette/errors/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index de81572..9eea939 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -938,6 +938,9 @@ class ErrorData:  # noqa: D101
 
         for row in self.gate_errors.itertuples():
             if row.gate in self.enabled_gate_errors:
+                induced_errors = row.induced_errors
+                if isinstance(induced_errors, str):
+                    induced_errors = [induced_errors]
                 match row.gate:
                     # single qubit gate errors
                     case "H" | "M" | "R":
@@ -949,14 +952,14 @@ class ErrorData:  # noqa: D101
                             ] = SinglePauliChannelErrorValueDict(  # type: ignore
                                 {
                                     str(k).lower(): v
-                                    for k, v in zip(row.induced_errors, row.probs)
+                                    for k, v in zip(induced_errors, row.probs)
                                 }
                             )
                     # two qubit gate errors
                     case "CX" | "CZ":
                         if gate_errors_dict.get(row.gate) is None:
                             gate_errors_dict[row.gate] = {}
-                        if not set(single_paulis).isdisjoint(set(row.induced_errors)):
+                        if not set(single_paulis).isdisjoint(set(induced_errors)):
                             raise KeyError("Two qubit channels must be provided!")
                         for i in range(0, len(row.on_qubits), 2):
                             gate_errors_dict[row.gate][
@@ -964,7 +967,7 @@ class ErrorData:  # noqa: D101
                             ] = TwoPauliChannelErrorValueDict(  # type: ignore
                                 {
                                     str(k).lower(): v
-                                    for k, v in zip(row.induced_errors, row.probs)
+                                    for k, v in zip(induced_errors, row.probs)
                                 }
                             )
 
-- 
2.43.0


From 7d89cef07828b19d394a794b0ff9ee33f06a990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:55 +0000
Subject: [PATCH 36/60] fix: gaussian error rates are probabilities drawn from
 plaquette.rng

---
 src/plaquette/errors/__init__.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 9eea939..ff336c1 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -1217,10 +1217,10 @@ def assimilate_qubit_errors(
                     qubit_pd.shape[0], qubit_error_config[0][label][1]
                 )
             case "gaussian":
-                qubit_pd[label] = np.random.default_rng().normal(
-                    loc=qubit_error_config[0][label][1],
-                    scale=qubit_error_config[0][label][2],
-                    size=qubit_pd.shape[0],
+                qubit_pd[label] = generate_gaussian_errors(
+                    qubit_error_config[0][label][1],
+                    qubit_error_config[0][label][2],
+                    qubit_pd["qubit_id"],
                 )
             case "user":
                 if qubit_csv_df.empty:
@@ -1283,10 +1283,8 @@ def assimilate_gate_errors(
                             )
 
                         elif params[0] == "gaussian":
-                            probs = np.random.default_rng().normal(
-                                loc=params[2],
-                                scale=params[3],
-                                size=len(lattice.stabgens),
+                            probs = generate_gaussian_errors(
+                                params[2], params[3], lattice.stabgens
                             )
                             for i, p in zip(lattice.stabgens, probs):
                                 gate_pd = pd.concat(
@@ -1334,10 +1332,8 @@ def assimilate_gate_errors(
                             )
 
                         elif params[0] == "gaussian":
-                            probs = np.random.default_rng().normal(
-                                loc=params[2],
-                                scale=params[3],
-                                size=len(on_qubits) // 2,
+                            probs = generate_gaussian_errors(
+                                params[2], params[3], on_qubits[::2]
                             )
 
                             for ind, p in enumerate(probs):
-- 
2.43.0


From 14012fe6e6895befdaf52ef3dd29e3d0a6cf345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:55 +0000
Subject: [PATCH 37/60] fix: gaussian errors without spread are constant

---
 src/plaquette/errors/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index ff336c1..4c8a256 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -229,6 +229,9 @@ def generate_gaussian_errors(
             f"Invalid std deviation={std_dev}. Must be between 0.0 and 1.0"
         )
 
+    if std_dev == 0.0:
+        return np.full(len(qubit_list), fill_value=float(mean))
+
     distribution = truncnorm(
         (0.0 - mean) / std_dev, (1.0 - mean) / std_dev, mean, std_dev
     )
-- 
2.43.0


From 2a37dabfbd11d69a793386ba9846d530d0b40995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:55 +0000
Subject: [PATCH 38/60] fix: configured errors are simulated in a fixed order

---
 src/plaquette/frontend/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index f1b80f8..dddf6ef 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -714,7 +714,7 @@ class QubitErrorsConfig:
         if not self.sample:
             return None
         sim_qub_errors_distr: dict = dict()
-        for key in self.QUBIT_KEYS:
+        for key in sorted(self.QUBIT_KEYS):
             qubit_metadata = cast(_QubitErrorMetadata, getattr(self, key))
             if qubit_metadata.enabled and not qubit_metadata.is_empty():
                 if qubit_metadata.distribution == "user":
@@ -1324,7 +1324,7 @@ class GateErrorsConfig:
             return None
 
         sim_gate_errors_distr: dict = dict()
-        for key in self.GATE_KEYS:
+        for key in sorted(self.GATE_KEYS):
             gate_metadata = cast(_GateErrorMetadata, getattr(self, key))
             if not gate_metadata.is_empty() and gate_metadata.enabled:
                 if isinstance(gate_metadata.distribution, str):
-- 
2.43.0


From 2f78afd527aa61f84a63db72d7bbf6610c1de2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:18 +0000
Subject: [PATCH 39/60] fix: a code configuration needs a positive size and
 number of rounds

---
 src/plaquette/frontend/__init__.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index dddf6ef..259acc5 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -118,16 +118,13 @@ class CodeConfig:
 
         if self.name in self.VALID_CODES[4:]:
             self.size = -1
-        elif (
-            (self.size < 0 or self.rounds < 0)
-            or not (isinstance(self.size, int) and isinstance(self.rounds, int))
-            and self.name in self.VALID_CODES[:4]
-        ):
+            params = [self.rounds]
+        else:
+            params = [self.size, self.rounds]
+        if not all(isinstance(param, int) and param > 0 for param in params):
             raise ValueError(
                 "For the given code, size and round must be positive integers!"
             )
-        else:
-            self.size = cast(int, self.size)
 
     @classmethod
     def from_dict(cls, config_dict: dict) -> CodeConfig:
-- 
2.43.0


From 5ebd024d2c94f85dbb37bfc108299f4d96df4236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:18 +0000
Subject: [PATCH 40/60] fix: loading an error configuration leaves the given
 dictionary alone

---
 src/plaquette/frontend/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 259acc5..a696a6c 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -557,6 +557,7 @@ class QubitErrorsConfig:
                 },
            }
         """
+        configdata = dict(configdata)  # do not alter the given dictionary
         if configdata.get("data_path") is not None:
             if configdata.get("load_file") is not None:
                 _validate_filepath(configdata["data_path"], configdata["load_file"])
@@ -1141,6 +1142,7 @@ class GateErrorsConfig:
            }
 
         """
+        configdata = dict(configdata)  # do not alter the given dictionary
         if configdata.get("data_path") is not None:
             if configdata.get("load_file") is not None:
                 _validate_filepath(configdata["data_path"], configdata["load_file"])
-- 
2.43.0


From 80a360684d91af44fa8751c42af6f658ac497249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:18 +0000
Subject: [PATCH 41/60] fix: no errors are simulated if sampling is off for
 qubits and gates

---
 src/plaquette/frontend/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index a696a6c..a5a59ed 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1413,9 +1413,13 @@ class ErrorsConfig:
         Returns:
             An :class:`~plaquette.errors.ErrorData` object.
         """
+        qubit_errors = self.qubit_errors.simulated_errors
+        if qubit_errors is None:
+            # No qubit errors; `None` would select the default ones.
+            qubit_errors = ({}, self.qubit_errors.data_path)
         ed = ErrorData.from_lattice(
             lattice,
-            self.qubit_errors.simulated_errors,
+            qubit_errors,
             self.gate_errors.simulated_errors,
         )
         return ed
-- 
2.43.0


From 56bd89fcf97ca2f2041a47d91c85f7c6ab73a339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:18 +0000
Subject: [PATCH 42/60] fix: general settings of an experiment are optional

---
 src/plaquette/frontend/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index a5a59ed..1eb16b3 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -2098,8 +2098,11 @@ class ExperimentConfig:
         config_dict.setdefault("decoder", {})
         config_dict.setdefault("circuit", {})
         config_dict.setdefault("code", {})
+        general = {}
+        if config_dict.get("general") is not None:
+            general["general_conf"] = cast(GeneralConfig, config_dict["general"])
         return cls(
-            general_conf=cast(GeneralConfig, config_dict.get("general")),
+            **general,
             device_conf=DeviceConfig.from_dict(cast(dict, config_dict.get("device"))),
             circuit_conf=CircuitConfig.from_dict(
                 cast(dict, config_dict.get("circuit"))
-- 
2.43.0


From 537b10d7a46be9bb9de6295dda2595fa56db48af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:18 +0000
Subject: [PATCH 43/60] fix: experiment configurations can be validated and
 saved

---
 src/plaquette/frontend/__init__.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 1eb16b3..d064253 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -2116,13 +2116,20 @@ class ExperimentConfig:
 
     def as_dict(self) -> dict[str, Any]:
         """Return all class attributes as dictionary."""
-        return_dict: dict[str, Any] = dict()
-        for dfield in fields(self):
-            if dfield.name == "exp_objects":
-                continue
-            return_dict[dfield.name] = self.__getattribute__(dfield.name).as_dict()
-
-        return return_dict
+        code = self.code_conf.as_dict()
+        if code["size"] == -1:
+            del code["size"]  # not relevant to the code
+        return {
+            "general": dict(self.general_conf),
+            "device": self.device_conf.as_dict(),
+            "circuit": self.circuit_conf.as_dict(),
+            "code": code,
+            "errors": {
+                "qubit_errors": self.errors_conf.qubit_errors.as_dict(),
+                "gate_errors": self.errors_conf.gate_errors.as_dict(),
+            },
+            "decoder": self.decoder_conf.as_dict(),
+        }
 
     def update(self, **kwargs):
         """Update class attributes with given ``**kwargs``.
@@ -2247,12 +2254,12 @@ class ExperimentConfig:
     def dump_toml(self, toml_path: str) -> None:
         """Save the config as a ``toml`` file at the given path."""
         with open(toml_path, "w") as file:
-            toml.dump(self.__dict__, file)
+            toml.dump(self.as_dict(), file)
 
     def dump_json(self, json_path: str):
         """Save the config as a ``json`` file at the given path."""
         with open(json_path, "w") as file:
-            json.dump(self.__dict__, file)
+            json.dump(self.as_dict(), file)
 
     def run(self):
         """Run an experiment to get a logical error rate.
-- 
2.43.0


From e25d9d9617138ba297d53cf02da0bec1dcc04dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:18 +0000
Subject: [PATCH 44/60] fix: the fabrication entry of a gate error
 configuration is kept

---
 src/plaquette/frontend/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index d064253..9d64d41 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1173,6 +1173,7 @@ class GateErrorsConfig:
             H=cast(_GateErrorMetadata, configdata.get("H")),
             M=cast(_GateErrorMetadata, configdata.get("M")),
             R=cast(_GateErrorMetadata, configdata.get("R")),
+            fabrication=cast(_GateErrorMetadata, configdata.get("fabrication")),
         )
 
     @classmethod
-- 
2.43.0


From 2e4d4fe4b3bfe52ab5cd9a302624c1431ec82d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:32 +0000
Subject: [PATCH 45/60] fix: running an experiment returns the logical error
 rate

---
 src/plaquette/frontend/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 9d64d41..1007e0f 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -2270,13 +2270,16 @@ class ExperimentConfig:
         """
         match self.general_conf["qec_property"]:
             case ["logical_error_rate"]:
-                if self._device._backend_class in plaquette.device.local_simulators:
+                if self._device._backend_name in plaquette.device.local_simulators:
                     test_success = np.zeros([self.device_conf.shots], dtype=bool)
                     for i in tqdm(range(self.device_conf.shots)):
                         self._device.run(cast(Circuit, self._circuit))
                         raw, erasure = self._device.get_sample()
                         results = MeasurementSample.from_code_and_raw_results(
-                            self._code, raw, erasure
+                            self._code,
+                            raw,
+                            erasure,
+                            logical_ops=self.general_conf["logical_op"],
                         )
                         correction = self._decoder.decode(
                             results.erased_qubits, results.syndrome
-- 
2.43.0


From d34d63e48b31696c81cdb0af97c3153459c45bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:41 +0000
Subject: [PATCH 46/60] fix: experiments can name one logical operator per
 logical qubit

---
 src/plaquette/frontend/schemas.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/plaquette/frontend/schemas.py b/src/plaquette/frontend/schemas.py
index 448037d..f47a0d0 100644
--- a/src/plaquette/frontend/schemas.py
+++ b/src/plaquette/frontend/schemas.py
@@ -15,8 +15,7 @@ def get_exp_config_schema() -> dict:
                 "properties": {
                     "logical_op": {
                         "type": "string",
-                        "enum":  ["X", "Z"],
-                        "minItems": 1
+                        "pattern": "^[XZ]+$"
                     },
                     "qec_property": {
                         "type": "array",
-- 
2.43.0


From 067dfa309b8886a79ba3e0a2def11aabfa5c96a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:56 +0000
Subject: [PATCH 47/60] fix: updating an empty qubit error table fills it

---
 src/plaquette/errors/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 4c8a256..41320eb 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -755,7 +755,7 @@ class ErrorData:  # noqa: D101
                 and missing locations are appended to the dataframe
         """
         if qubit_errors is not None:
-            if overwrite:
+            if overwrite or self.qubit_errors.empty:
                 self.qubit_errors = qubit_errors.set_index(["qubit_id"], drop=False)
             else:
                 qubit_errors = qubit_errors.set_index(["qubit_id"], drop=True)
@@ -793,7 +793,7 @@ class ErrorData:  # noqa: D101
         """
         if qubit_error_csv:
             qubit_errors = pd.read_csv(qubit_error_csv)
-            if overwrite:
+            if overwrite or self.qubit_errors.empty:
                 self.qubit_errors = qubit_errors.set_index(["qubit_id"], drop=False)
             else:
                 qubit_errors.set_index(["qubit_id"], drop=True, inplace=True)
-- 
2.43.0


From 1ccc60f2e9ed8f8a071d5d41cc65324093388eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 48/60] fix: experiments loaded from one dictionary do not
 share general settings

---
 src/plaquette/frontend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 1007e0f..34cd1c3 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -2101,7 +2101,7 @@ class ExperimentConfig:
         config_dict.setdefault("code", {})
         general = {}
         if config_dict.get("general") is not None:
-            general["general_conf"] = cast(GeneralConfig, config_dict["general"])
+            general["general_conf"] = cast(GeneralConfig, dict(config_dict["general"]))
         return cls(
             **general,
             device_conf=DeviceConfig.from_dict(cast(dict, config_dict.get("device"))),
-- 
2.43.0


From 1c24c15ab819e06b69703c95e94b5dc6366d7bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 49/60] fix: export circuits without measurements as valid
 OpenQASM

The program declared a classical register of size zero, which OpenQASM does
not allow, and which CircuitVisualizer could not load.
---
 src/plaquette/circuit/openqasm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/circuit/openqasm.py b/src/plaquette/circuit/openqasm.py
index c198311..6e552c8 100644
--- a/src/plaquette/circuit/openqasm.py
+++ b/src/plaquette/circuit/openqasm.py
@@ -79,8 +79,10 @@ def convert_to_openqasm(
         "OPENQASM 2.0;",
         'include "qelib1.inc";',
         f"qreg q[{circuit.number_of_qubits}];",
-        f"creg c[{circuit.number_measured_qubits}];",
     ]
+    # Registers cannot be empty
+    if circuit.number_measured_qubits > 0:
+        qasm_lines.append(f"creg c[{circuit.number_measured_qubits}];")
 
     meas_idx = 0
 
-- 
2.43.0


From 4f4e04ffe542bb55969921312b823a71450ae924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 50/60] fix: draw operators with Pauli Y factors

Both drawing back ends raised KeyError for lattices with a Y edge.
---
 src/plaquette/visualizer/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/visualizer/__init__.py b/src/plaquette/visualizer/__init__.py
index 7ef3f1f..37b9d14 100644
--- a/src/plaquette/visualizer/__init__.py
+++ b/src/plaquette/visualizer/__init__.py
@@ -241,6 +241,7 @@ class LatticeVisualizer:
     #: Plotly options for drawing edges
     edge_kw = {
         "X": dict(name="Pauli X", line=dict(color="cornflowerblue", dash="solid")),
+        "Y": dict(name="Pauli Y", line=dict(color="mediumpurple", dash="2px 4px")),
         "Z": dict(name="Pauli Z", line=dict(color="yellowgreen", dash="5px 5px")),
     }
 
@@ -420,6 +421,7 @@ class LatticeVisualizer:
     #: Matplotlib options for drawing edges
     mpl_edge_kw = {
         "X": dict(label="Pauli X", linestyle="solid", color="cornflowerblue"),
+        "Y": dict(label="Pauli Y", linestyle="dotted", color="mediumpurple"),
         "Z": dict(label="Pauli Z", linestyle="dashed", color="yellowgreen"),
     }
 
-- 
2.43.0


From e412f66c649353d4f45495d0237c4ca7e9a82362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 51/60] fix: restore the colours of the visualizer when a
 drawing fails

After an invalid argument in grey mode, lattices were drawn in grey and every
later grey drawing raised AssertionError.
---
 src/plaquette/visualizer/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/plaquette/visualizer/__init__.py b/src/plaquette/visualizer/__init__.py
index 37b9d14..02d6786 100644
--- a/src/plaquette/visualizer/__init__.py
+++ b/src/plaquette/visualizer/__init__.py
@@ -374,10 +374,11 @@ class LatticeVisualizer:
         vdf = pd.concat((vdf, self._mk_pauliframe_df(error, correction, only_pauli)))
         if grey:
             self._set_grey()
-        fig = self._draw(vdf, edf, height, margin)
-        if grey:
-            self._reset_grey()
-        return fig
+        try:
+            return self._draw(vdf, edf, height, margin)
+        finally:
+            if grey:
+                self._reset_grey()
 
     #: Matplotlib options for drawing vertices
     mpl_vertex_kw = {
-- 
2.43.0


From d1ff1003d47b84529427a25975ef928ae508f5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 52/60] fix: read gate error files by the names of their
 columns

Columns in another order were converted to the wrong types: loading failed,
or the gate labels were turned into lists.
---
 src/plaquette/errors/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 41320eb..6168b33 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -449,8 +449,8 @@ class ErrorData:  # noqa: D101
         gate_errors: pd.DataFrame = pd.DataFrame()
         if gate_error_csv:
             gate_errors = pd.read_csv(gate_error_csv, dtype=str)
-            exp_types = ("int", "str", "float")
-            for key, et in zip(gate_errors.keys()[1:], exp_types):
+            exp_types = dict(on_qubits="int", induced_errors="str", probs="float")
+            for key, et in exp_types.items():
                 gate_errors[key] = delimited_string_list_to_series(gate_errors[key], et)
 
         else:
@@ -806,8 +806,8 @@ class ErrorData:  # noqa: D101
 
         if gate_error_csv:
             gate_errors = pd.read_csv(gate_error_csv, dtype=str)
-            exp_types = ("int", "str", "float")
-            for key, et in zip(gate_errors.keys()[1:], exp_types):
+            exp_types = dict(on_qubits="int", induced_errors="str", probs="float")
+            for key, et in exp_types.items():
                 gate_errors[key] = delimited_string_list_to_series(gate_errors[key], et)
             if overwrite:
                 self.gate_errors = gate_errors
@@ -1256,8 +1256,8 @@ def assimilate_gate_errors(
         gate_csv = pd.DataFrame(
             columns=["gate", "on_qubits", "induced_errors", "probs"]
         )
-    exp_types = ("int", "str", "float")
-    for key, et in zip(gate_csv.keys()[1:], exp_types):
+    exp_types = dict(on_qubits="int", induced_errors="str", probs="float")
+    for key, et in exp_types.items():
         gate_csv[key] = delimited_string_list_to_series(gate_csv[key], et)
 
     for label in gate_error_config[0].keys():
-- 
2.43.0


From 4eadc22e3110367cf111c755fdf70d66daf1fda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:46 +0000
Subject: [PATCH 53/60] fix: union-find decoding with very different weights

---
 src/plaquette/decoders/unionfind_decoder.py | 33 ++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/decoders/unionfind_decoder.py b/src/plaquette/decoders/unionfind_decoder.py
index 4ef3790..f27ffd8 100644
--- a/src/plaquette/decoders/unionfind_decoder.py
+++ b/src/plaquette/decoders/unionfind_decoder.py
@@ -65,6 +65,7 @@ Basic ideas:
 
 from __future__ import annotations
 
+from collections import Counter
 from typing import Optional, Type
 
 import numpy as np
@@ -661,6 +662,7 @@ class UnionFindNoWeights:
         min_size = min(len(c.boundary) for c in self.graph.open_clusters)
         edges_grown = 0
         new_edges = list()
+        n_steps = self.count_uneventful_steps(min_size) + 1
         for cluster in self.graph.open_clusters:
             if len(cluster.boundary) > min_size:
                 continue
@@ -669,7 +671,10 @@ class UnionFindNoWeights:
                 for edge in vertex.neigh_edges():
                     # Should we only grow edges to unused vertices?
                     if not edge.is_complete():
-                        edge.grow(growth_increment)
+                        if growth_increment is None:
+                            edge.grow(n_steps * edge.growth_increment)
+                        else:
+                            edge.grow(growth_increment)
                         edges_grown += 1
                         if edge.is_complete():
                             new_edges.append(edge)
@@ -679,6 +684,32 @@ class UnionFindNoWeights:
             for cluster in self.graph.clusters:
                 cluster.update_after_growth()
 
+    def count_uneventful_steps(self, size: int) -> int:
+        """Count the steps before the one in which the next edge completes.
+
+        Such steps only grow the same edges again. If weights differ by many orders of
+        magnitude, there are too many of them to be done one by one.
+
+        Args:
+            size: Size of the boundary of the open clusters that grow.
+        """
+        reached = Counter(
+            edge
+            for cluster in self.graph.open_clusters
+            if len(cluster.boundary) == size
+            for vertex in cluster.boundary
+            for edge in vertex.neigh_edges()
+            if not edge.is_complete() and edge.growth_increment > 0
+        )
+        n_steps = min(
+            (
+                (edge.max_growth - edge.cur_growth) / (count * edge.growth_increment)
+                for edge, count in reached.items()
+            ),
+            default=0,
+        )
+        return max(0, int(n_steps) - 1)
+
     def handle_new_edges(self, new_edges: list[Edge]):
         """Handle new completed edges."""
         for edge in new_edges:
-- 
2.43.0


From bba0dc01086438d022afe106f47b651b2ffc7fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 54/60] fix: X, Y and Z gates with iterators as qubits

---
 src/plaquette/pauli.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 661fc67..69e879f 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1372,8 +1372,8 @@ def x(state: Tableau, qubits: int | Iterable[int]) -> Tableau:
         state: The state in the tableau representation
         qubits: The indices of the target qubit
     """
-    if isinstance(qubits, int):
-        qubits = [qubits]
+    # The qubits are gone through twice, which an iterator does not allow.
+    qubits = [qubits] if isinstance(qubits, int) else list(qubits)
     number_of_qubits = state.shape[1] // 2
 
     if any(map(lambda q: q >= number_of_qubits, qubits)):
@@ -1397,6 +1397,7 @@ def y(state: Tableau, qubits: int | Iterable[int]) -> Tableau:
         state: The state in the tableau representation
         qubits: The indices of the target qubit
     """
+    qubits = [qubits] if isinstance(qubits, int) else list(qubits)
     return z(x(state, qubits), qubits)
 
 
@@ -1512,8 +1513,8 @@ def z(state: Tableau, qubits: int | Iterable[int] | Tableau):
         state: The state in the tableau representation
         qubits: The indices of the target qubit
     """
-    if isinstance(qubits, int):
-        qubits = [qubits]
+    # The qubits are gone through twice, which an iterator does not allow.
+    qubits = [qubits] if isinstance(qubits, int) else list(qubits)
     number_of_qubits = state.shape[1] // 2
 
     if any(map(lambda q: q >= number_of_qubits, qubits)):
-- 
2.43.0


From 8652b1c2da6a971adcb9f461519546b901857b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:21 +0000
Subject: [PATCH 55/60] fix: resetting qubits given as an array

---
 src/plaquette/pauli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 69e879f..643b7c9 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1312,9 +1312,9 @@ def reset_qubits_to_eigenstate(
             # Any Pauli anticommuting with the measured one maps the -1 onto the
             # +1 eigenstate
             if pauli[-1] == "X":
-                state = z(state, qubit)
+                state = z(state, [qubit])
             else:
-                state = x(state, qubit)
+                state = x(state, [qubit])
     return state
 
 
-- 
2.43.0


From bc8997a909137f4f4ad6bf9f18be8ec54d45cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 56/60] fix: signs of products of operators on more than 100
 qubits

---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 643b7c9..e77d507 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1492,7 +1492,7 @@ def multiply(
         # The sign information is also entirely included in ``initial_phase`` and copied
         # to the sign bit only to be used in those algorithms that require it. If we
         # don't do this, we will ignore minus-signs from ``i`` factors.
-        phase = initial_phase * 1j**phase_exponent * (1 - 2 * ans[-1])
+        phase = initial_phase * 1j ** (phase_exponent % 4) * (1 - 2 * ans[-1])
         if phase.imag != 0:
             sign_bit = 1 if phase.imag < 0 else 0
         elif phase.real != 0:
-- 
2.43.0


From 4fb68f751c26738c3c2e76e73000aaf4217ed93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:49 +0000
Subject: [PATCH 57/60] fix: an experiment's device is available once it is
 built

---
 src/plaquette/frontend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 34cd1c3..fcbdbfb 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1868,7 +1868,7 @@ class ExperimentConfig:
     @property
     def device(self):
         """The built :class:`~.AbstractSimulator` object in the experiment."""
-        if self._circuit is None:
+        if self._device is None:
             raise ValueError(
                 "Simulator has not been instantiated yet, use build() or "
                 + "build_device() method to do so!"
-- 
2.43.0


From 3ce951e07ad60fadde858a7f7208ea6be7a25504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:24 +0000
Subject: [PATCH 58/60] fix: qubit errors are read from files with all their
 digits

---
 src/plaquette/errors/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 6168b33..b1f649d 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -438,7 +438,7 @@ class ErrorData:  # noqa: D101
         """
         qubit_errors: pd.DataFrame = pd.DataFrame()
         if qubit_error_csv:
-            qubit_errors = pd.read_csv(qubit_error_csv)
+            qubit_errors = pd.read_csv(qubit_error_csv, float_precision="round_trip")
         else:
             warnings.warn(
                 "Qubit errors are not provided! "
@@ -792,7 +792,7 @@ class ErrorData:  # noqa: D101
             None, updates in-place.
         """
         if qubit_error_csv:
-            qubit_errors = pd.read_csv(qubit_error_csv)
+            qubit_errors = pd.read_csv(qubit_error_csv, float_precision="round_trip")
             if overwrite or self.qubit_errors.empty:
                 self.qubit_errors = qubit_errors.set_index(["qubit_id"], drop=False)
             else:
@@ -1200,7 +1200,9 @@ def assimilate_qubit_errors(
     qubit_pd.set_index(["qubit_id"], drop=False, inplace=True)
 
     try:
-        qubit_csv_df = pd.read_csv(qubit_error_config[1])
+        qubit_csv_df = pd.read_csv(
+            qubit_error_config[1], float_precision="round_trip"
+        )
         qubit_csv_df.set_index(["qubit_id"], drop=True, inplace=True)
     except FileNotFoundError:
         warnings.warn(
-- 
2.43.0


From 378db090769ac12a70121875a2ccb43f99e178f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:25 +0000
Subject: [PATCH 59/60] fix: too few stabilisers are refused also when
 destabilisers are given

---
 src/plaquette/pauli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index e77d507..5735609 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1118,6 +1118,9 @@ def string_to_state(
                 "when providing both, the number of stabilisers and "
                 "destabilisers must match"
             )
+        n = binary_stabilisers.shape[1] // 2
+        if len(stabilisers) != n:
+            raise ValueError(f"{n} stabilisers are needed for a state of {n} qubits")
     else:
         # If no destabilisers are given, we need to calculate them
         binary_destabilisers = _destabilisers_from_stabilisers(binary_stabilisers)
-- 
2.43.0


From 50f7daca0a7fdde73186ae1758ef4cbf0edd8ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:50 +0000
Subject: [PATCH 60/60] fix: refused fabrication errors leave the code
 unchanged

---
 src/plaquette/codes/__init__.py    |  7 +++--
 src/plaquette/codes/latticebase.py | 48 ++++++++++++++++++++++--------
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/plaquette/codes/__init__.py b/src/plaquette/codes/__init__.py
index 14edab4..f343b67 100644
--- a/src/plaquette/codes/__init__.py
+++ b/src/plaquette/codes/__init__.py
@@ -290,9 +290,10 @@ class LatticeCode(StabilizerCode):
         :meth:`plaquette.codes.latticebase.CodeLattice.apply_fabrication_errors`.
         """
         self.lattice._fabrication_error_warning(stacklevel=3)
-        self.lattice.apply_fabrication_errors(**params)
-        # The operators of the code have changed
-        super().__init__(self.lattice.stabilisers, self.lattice.logical_operators)
+        with self.lattice._unchanged_on_error():
+            self.lattice.apply_fabrication_errors(**params)
+            # The operators of the code have changed
+            super().__init__(self.lattice.stabilisers, self.lattice.logical_operators)
 
     @classmethod
     def from_operators(
diff --git a/src/plaquette/codes/latticebase.py b/src/plaquette/codes/latticebase.py
index 210a507..b07ec08 100644
--- a/src/plaquette/codes/latticebase.py
+++ b/src/plaquette/codes/latticebase.py
@@ -19,13 +19,16 @@ A concise summary of the constituents of the lattice is available in
 
 from __future__ import annotations
 
+import copy
 import enum
 import itertools as it
 import sys
 import warnings
 from collections.abc import Iterable, Sequence
+from contextlib import contextmanager
 from dataclasses import dataclass
 from dataclasses import field as dfield
+from dataclasses import fields as dfields
 from typing import ClassVar, Final, Literal, Optional, cast, overload
 
 import numpy as np
@@ -816,19 +819,38 @@ class CodeLattice:
            and will cause a warning.
         """
         self._fabrication_error_warning(stacklevel=3)
-        if keep_gauge is not None:
-            self.fabrication_err_keep_gauge = keep_gauge
-        if boundary_join is not None:
-            self.fabrication_err_boundary_join = boundary_join
-        remove_qubits = self._fabrication_errors_get_remove_qubits(
-            faulty_qubits, faulty_gates, faulty_stabilizers
-        )
-        for _, qubit in sorted(remove_qubits.items()):
-            assert isinstance(qubit, DataVertex)
-            # NB: disable_qubit() removes entries from self.equbits. All the indices
-            # are no longer valid after the first call to remove_dataqubit().
-            self.remove_dataqubit(qubit)
-        self.assign_indices()
+        with self._unchanged_on_error():
+            if keep_gauge is not None:
+                self.fabrication_err_keep_gauge = keep_gauge
+            if boundary_join is not None:
+                self.fabrication_err_boundary_join = boundary_join
+            remove_qubits = self._fabrication_errors_get_remove_qubits(
+                faulty_qubits, faulty_gates, faulty_stabilizers
+            )
+            for _, qubit in sorted(remove_qubits.items()):
+                assert isinstance(qubit, DataVertex)
+                # NB: disable_qubit() removes entries from self.equbits. All the indices
+                # are no longer valid after the first call to remove_dataqubit().
+                self.remove_dataqubit(qubit)
+            self.assign_indices()
+
+    @contextmanager
+    def _unchanged_on_error(self):
+        """Undo all changes of the lattice if the code inside of a block fails."""
+        attrs = {name: copy.copy(value) for name, value in vars(self).items()}
+        vertices = [
+            (v, {f.name: copy.copy(getattr(v, f.name)) for f in dfields(v)})
+            for v in self.vertices
+        ]
+        try:
+            yield
+        except BaseException:
+            vars(self).clear()
+            vars(self).update(attrs)
+            for vertex, values in vertices:
+                for name, value in values.items():
+                    setattr(vertex, name, value)
+            raise
 
     def _fabrication_errors_get_remove_qubits(
         self,
-- 
2.43.0

