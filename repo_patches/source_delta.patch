From 916cea9f88024cd7ce981b4b3c19e0e4eaf5482f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 01/42] fix: TaskGraph orders wires by port, not by the order
 edges are stored

run, prepend and decompose_TaskGraph_nodes took the edges of a node in the
order networkx stores them (grouped by neighbour), so data reached the wrong
wire once a task had been added in parallel before a bare wire. The CDR graph
relied on that order; its last two tasks are now joined explicitly.
---
 qermit/clifford_noise_characterisation/ccl.py |  9 ++++
 qermit/taskgraph/task_graph.py                | 49 +++++++++++++------
 2 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index 259daf9..53de5f1 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -586,6 +586,15 @@ def gen_CDR_MitEx(
         )
     )
     _experiment_taskgraph.append(_post_task_graph)
+    # the correction task expects the calibration wire first
+    _experiment_taskgraph.append(
+        MitTask(
+            _label="SwapCalibrationAndExpectation",
+            _n_in_wires=2,
+            _n_out_wires=2,
+            _method=lambda obj, expectation, calibrated: (calibrated, expectation),
+        )
+    )
     _experiment_taskgraph.append(cdr_correction_task_gen())
 
     return MitEx(device_backend).from_TaskGraph(_experiment_taskgraph)
diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index ae65a9d..b756712 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -178,7 +178,12 @@ class TaskGraph:
         # schemes so fine
         task_copy = copy(task)
 
-        for i, edge in enumerate(list(self._task_graph.out_edges(self._i, keys=True))):
+        # edges are stored grouped by the node they reach, so order them by port
+        out_edges = sorted(
+            self._task_graph.out_edges(self._i, keys=True),
+            key=lambda edge: edge[2][0],
+        )
+        for i, edge in enumerate(out_edges):
             self._task_graph.add_edge(
                 task_copy, edge[1], key=(i, edge[2][1]), data=None
             )
@@ -228,14 +233,24 @@ class TaskGraph:
                         if hasattr(sub_task, "_label"):
                             sub_task._label = task._label + sub_task._label
 
-                    task_in_edges = list(self._task_graph.in_edges(task, keys=True))
-                    task_out_edges = list(self._task_graph.out_edges(task, keys=True))
+                    # edges meeting at the same port are joined below, so
+                    # order each set of edges by port
+                    task_in_edges = sorted(
+                        self._task_graph.in_edges(task, keys=True),
+                        key=lambda edge: edge[2][1],
+                    )
+                    task_out_edges = sorted(
+                        self._task_graph.out_edges(task, keys=True),
+                        key=lambda edge: edge[2][0],
+                    )
 
-                    task_input_out_edges = list(
-                        task._task_graph.out_edges(task._i, keys=True)
+                    task_input_out_edges = sorted(
+                        task._task_graph.out_edges(task._i, keys=True),
+                        key=lambda edge: edge[2][0],
                     )
-                    task_output_in_edges = list(
-                        task._task_graph.in_edges(task._o, keys=True)
+                    task_output_in_edges = sorted(
+                        task._task_graph.in_edges(task._o, keys=True),
+                        key=lambda edge: edge[2][1],
                     )
 
                     if (
@@ -353,10 +368,13 @@ class TaskGraph:
 
         :return: Data from input edges to output vertex, assigned as wires.
         """
-        for edge, wire in zip(
-            self._task_graph.out_edges(self._i, data=True), input_wires
-        ):
-            edge[2]["data"] = wire
+        # edges are stored grouped by the node they reach, so order them by port
+        input_edges = sorted(
+            self._task_graph.out_edges(self._i, data=True, keys=True),
+            key=lambda edge: edge[2][0],
+        )
+        for edge, wire in zip(input_edges, input_wires):
+            edge[3]["data"] = wire
 
         # topological_sort fixes any dependency issues so can iterate and assume
         # input wires all realised before a task is reached
@@ -399,10 +417,11 @@ class TaskGraph:
             for _, _, ports, o_data in out_edges:
                 o_data["data"] = outputs[ports[0]]
 
-        output_wire = [
-            edge[2]["data"]
-            for edge in list(self._task_graph.in_edges(self._o, data=True))
-        ]
+        output_edges = sorted(
+            self._task_graph.in_edges(self._o, data=True, keys=True),
+            key=lambda edge: edge[2][1],
+        )
+        output_wire = [edge[3]["data"] for edge in output_edges]
         return cast(Tuple[List[Wire]], tuple(output_wire))
 
     def get_cache(self) -> OrderedDict[str, Tuple[MitTask, List[Wire]]]:
-- 
2.43.0


From ad6230890a555060d2b008a4bf924cabbf0a6beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:07 +0000
Subject: [PATCH 02/42] fix: copies of a TaskGraph, and graphs nested in
 others, share no structure

copy() of a TaskGraph (taken by prepend, append, parallel and most MitRes and
MitEx generators) shared the internal graph, so changing the copy changed the
original, and decompose_TaskGraph_nodes emptied graphs held elsewhere.
---
 qermit/taskgraph/task_graph.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index b756712..4f1ea1d 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -70,6 +70,16 @@ class TaskGraph:
         self.characterisation = task_graph.characterisation
         return self
 
+    def __copy__(self):
+        """
+        Returns a TaskGraph with its own tasks and wires, so that changing the
+        copy does not change the original.
+        """
+        copied = self.__class__.__new__(self.__class__)
+        copied.__dict__.update(self.__dict__)
+        copied._task_graph = deepcopy(self._task_graph)
+        return copied
+
     @property
     def tasks(self) -> List[MitTask]:
         """
@@ -227,8 +237,10 @@ class TaskGraph:
             for task in node_list:
                 # => TaskGraph object with _task_graph attribute for decomposition
                 if hasattr(task, "_task_graph"):
+                    # the graph held by the node may be in use elsewhere
+                    task_graph = deepcopy(task._task_graph)
                     # relabel task names for ease of viewing wit visualisation methods
-                    for sub_task in list(task._task_graph.nodes):
+                    for sub_task in list(task_graph.nodes):
                         # in practice only IOTask
                         if hasattr(sub_task, "_label"):
                             sub_task._label = task._label + sub_task._label
@@ -245,11 +257,11 @@ class TaskGraph:
                     )
 
                     task_input_out_edges = sorted(
-                        task._task_graph.out_edges(task._i, keys=True),
+                        task_graph.out_edges(task._i, keys=True),
                         key=lambda edge: edge[2][0],
                     )
                     task_output_in_edges = sorted(
-                        task._task_graph.in_edges(task._o, keys=True),
+                        task_graph.in_edges(task._o, keys=True),
                         key=lambda edge: edge[2][1],
                     )
 
@@ -285,13 +297,13 @@ class TaskGraph:
                             )
                         )
 
-                    # remove all input and output edges from task._task_graph
+                    # remove all input and output edges from task_graph
                     # remove all input and output edges from self._task_graph task
                     # replace in_edges to task in self._task_graph with in_edges to first tasks in task
                     for outside_edge, inside_edge in zip(
                         task_in_edges, task_input_out_edges
                     ):
-                        task._task_graph.remove_edge(inside_edge[0], inside_edge[1])
+                        task_graph.remove_edge(inside_edge[0], inside_edge[1])
                         self._task_graph.remove_edge(outside_edge[0], outside_edge[1])
                         self._task_graph.add_edge(
                             outside_edge[0],
@@ -303,7 +315,7 @@ class TaskGraph:
                     for outside_edge, inside_edge in zip(
                         task_out_edges, task_output_in_edges
                     ):
-                        task._task_graph.remove_edge(inside_edge[0], inside_edge[1])
+                        task_graph.remove_edge(inside_edge[0], inside_edge[1])
                         self._task_graph.remove_edge(outside_edge[0], outside_edge[1])
                         self._task_graph.add_edge(
                             inside_edge[0],
@@ -313,7 +325,7 @@ class TaskGraph:
                         )
 
                     # add all remaining edges, filling the rest of the subsituted graph
-                    self._task_graph.add_edges_from(task._task_graph.edges)
+                    self._task_graph.add_edges_from(task_graph.edges)
                     self._task_graph.remove_node(task)
                     check_for_decompose = True
                     break
-- 
2.43.0


From c4eb5b810a374c42a42be62e29bb45bf8e09493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:39 +0000
Subject: [PATCH 03/42] fix: split_shots_task_gen keeps a circuit whose shots
 equal max_shots

---
 qermit/taskgraph/mitres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/taskgraph/mitres.py b/qermit/taskgraph/mitres.py
index 74c473c..cce1a00 100644
--- a/qermit/taskgraph/mitres.py
+++ b/qermit/taskgraph/mitres.py
@@ -344,7 +344,7 @@ def split_shots_task_gen(max_shots: int) -> MitTask:
         for i, circ_shots in enumerate(circuit_wires):
             div_val = circ_shots.Shots // max_shots
             # Divide into jobs of size max_shots
-            if circ_shots.Shots > max_shots:
+            if circ_shots.Shots >= max_shots:
                 split_circuit_wires.extend(
                     [
                         CircuitShots(circ_shots.Circuit, max_shots)
-- 
2.43.0


From 0975bd8e1745b942aabedce94c1c57e76e463d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 04/42] fix: ObservableTracker copies and defaults share no
 state; extended strings are tracked

---
 qermit/taskgraph/utils.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/qermit/taskgraph/utils.py b/qermit/taskgraph/utils.py
index 8c88520..724cdee 100644
--- a/qermit/taskgraph/utils.py
+++ b/qermit/taskgraph/utils.py
@@ -222,7 +222,7 @@ class ObservableTracker:
     QubitPauliString in a given QubitPauliOperator.
     """
 
-    def __init__(self, qubit_pauli_operator: QubitPauliOperator = QubitPauliOperator()):
+    def __init__(self, qubit_pauli_operator: Optional[QubitPauliOperator] = None):
         """
         Default constructor, creates an empty dict object for mapping QubitPauliStrings to measurement circuits
         and the qubits measured to get expectation, along with an empty list for storing measurement circuits and
@@ -231,6 +231,9 @@ class ObservableTracker:
         :param qubit_pauli_operator: QubitPauliOperator for which given ObservableTracker is expected
             to retain measurement circuits all QubitPauliString keys for before any Backend execution.
         """
+        # the operator may be extended in place, so a default is never shared
+        if qubit_pauli_operator is None:
+            qubit_pauli_operator = QubitPauliOperator()
         self._qubit_pauli_operator = qubit_pauli_operator
         # indices being index in measurement circuits
         self._qps_to_indices: Dict[
@@ -252,11 +255,15 @@ class ObservableTracker:
         # these variables could be mutated in the first ObservableTracker and effect
         # this one
         # To fix, copy everything
-        new_obj = ObservableTracker(copy(to_copy._qubit_pauli_operator))
+        new_obj = ObservableTracker(
+            QubitPauliOperator(copy(to_copy._qubit_pauli_operator._dict))
+        )
 
-        new_obj._qps_to_indices = copy(to_copy._qps_to_indices)
+        new_obj._qps_to_indices = {
+            qps: copy(indices) for qps, indices in to_copy._qps_to_indices.items()
+        }
         new_obj._measurement_circuits = copy(to_copy._measurement_circuits)
-        new_obj._partitions = copy(to_copy._partitions)
+        new_obj._partitions = [copy(partition) for partition in to_copy._partitions]
         return new_obj
 
     def __str__(self):
@@ -302,6 +309,8 @@ class ObservableTracker:
         :param new_operator: Each QubitPauliString and coefficient added to held operator.
         """
         self._qubit_pauli_operator += new_operator
+        for qps in self._qubit_pauli_operator._dict:
+            self._qps_to_indices.setdefault(qps, list())
 
     def remove_strings(self, strings: List[QubitPauliString]):
         """
-- 
2.43.0


From b7341fecd2d56946114407a8c4feb024a98bbf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:54 +0000
Subject: [PATCH 05/42] fix: SPAM correction pairs each transition matrix with
 its own qubits

---
 qermit/spam/full_transition_tomography.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qermit/spam/full_transition_tomography.py b/qermit/spam/full_transition_tomography.py
index 0f14950..5b41b6c 100644
--- a/qermit/spam/full_transition_tomography.py
+++ b/qermit/spam/full_transition_tomography.py
@@ -506,7 +506,13 @@ def correct_transition_noise(
     # if qubit in subset has no bit, skip it
     char_bits_order = []
     unused_final_qbs = []
-    for subset in noise_characterisation.CorrelatedNodes:
+    # the matrices are held in the order given by NodeToIntDict, which need not be
+    # the order of the subsets in CorrelatedNodes
+    node_index_dict = noise_characterisation.NodeToIntDict
+    for subset in sorted(
+        noise_characterisation.CorrelatedNodes,
+        key=lambda subset: node_index_dict[subset[0]],
+    ):
         for q in subset:
             if q in final_measures_qb_map:
                 char_bits_order.append(final_measures_qb_map[q])
-- 
2.43.0


From 29212db8b2df5a0dca99f86ef94657ac89cccc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 06/42] fix: folding by gates keeps the implicit wire swaps and
 bits of the circuit

---
 qermit/zero_noise_extrapolation/zne.py | 29 ++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index c075b35..ca5a286 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -187,10 +187,12 @@ class Folding(Enum):
                 "in the compiled circuit, and i is an integer."
             )
 
-        # Copy qubit register of original circuit.
+        # Copy qubit and bit registers of original circuit.
         folded_circuit = Circuit()
         for qubit in circ.qubits:
             folded_circuit.add_qubit(qubit)
+        for bit in circ.bits:
+            folded_circuit.add_bit(bit)
 
         for i, gate in enumerate(circ.get_commands()):
             # Barriers are not folded and added as given.
@@ -211,7 +213,12 @@ class Folding(Enum):
             else:
                 folded_circuit.add_gate(gate.op, gate.args)
 
-        return [folded_circuit]
+        # The commands do not include implicit wire swaps, which compilation
+        # may have introduced, so these are copied from the original circuit.
+        folded_c_dict = folded_circuit.to_dict()
+        folded_c_dict["implicit_permutation"] = circ.to_dict()["implicit_permutation"]
+
+        return [Circuit.from_dict(folded_c_dict)]
 
     @staticmethod
     def gate(circ: Circuit, noise_scaling: float, **kwargs) -> List[Circuit]:
@@ -270,9 +277,18 @@ class Folding(Enum):
         # Calculate how many times each individual command needs to be folded
         num_folds = {i: list(commands_to_fold).count(i) for i in range(num_commands)}
 
+        # Circuit with the same qubits, used to invert one command at a time.
+        # Classical bits, and the implicit wire swaps at the end of the
+        # circuit, have no part in this.
         command_circ_dict = {
             key: val for key, val in c_dict.items() if key != "commands"
         }
+        command_circ_dict.update(
+            {
+                "bits": [],
+                "implicit_permutation": [[q, q] for q in c_dict["qubits"]],
+            }
+        )
 
         folded_command_list = []
         # For each command, fold the appropriate number of times.
@@ -336,9 +352,18 @@ class Folding(Enum):
         fold = True
         folded_command_list = []
 
+        # Circuit with the same qubits, used to invert one command at a time.
+        # Classical bits, and the implicit wire swaps at the end of the
+        # circuit, have no part in this.
         command_circ_dict = {
             key: val for key, val in c_dict.items() if key != "commands"
         }
+        command_circ_dict.update(
+            {
+                "bits": [],
+                "implicit_permutation": [[q, q] for q in c_dict["qubits"]],
+            }
+        )
 
         for command in c_dict["commands"]:
             # Barriers are added to the circuit but otherwise effectively
-- 
2.43.0


From 07eb15df030e853ce56515183475666036d918e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:57 +0000
Subject: [PATCH 07/42] fix: folding does not lose a fold to the rounding of
 the noise scaling

---
 qermit/zero_noise_extrapolation/zne.py | 42 +++++++++++++++++---------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index ca5a286..c6ad0e5 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -50,6 +50,10 @@ box_types = {
     OpType.Unitary3qBox,
 }
 
+# Allowance made for the rounding of noise scalings, which are floats, when
+# calculating the number of gates to fold.
+rounding_tolerance = 1e-6
+
 
 class Folding(Enum):
     """Folding techniques used to increase the noise levels.
@@ -140,34 +144,39 @@ class Folding(Enum):
 
         _allow_approx_fold = kwargs.get("_allow_approx_fold", True)
 
-        # All gates will be folded by an amount equal to the even number
-        # less than noise_scaling-1. By doing so the noise is scaled by the
-        # odd integer less than noise_scaling.
-        num_folds_dict = {
-            i: (int(noise_scaling - 1) // 2)
+        foldable_gates = [
+            i
             for i, cmd in enumerate(circ.get_commands())
             if (
                 not (cmd.op.type == OpType.Barrier)
                 and (cmd.op.type not in box_types)
                 and (len(cmd.qubits) == 2)
             )
-        }
+        ]
 
-        if len(num_folds_dict) == 0:
+        if len(foldable_gates) == 0:
             raise RuntimeError(
                 "There are no valid q qubits gates in this circuit to fold. "
                 "Your circuit should include 2 qubit gates other than "
                 "Barrier and CircBox."
             )
 
-        # The remaining noise scaling is achieved by randomly selecting gates
-        # to scale. fold_frac gives the fraction of gates which need to be
-        # folded to achieve noise_scaling. The appropriate fraction of
-        # gates is then randomly selected.
-        fold_frac = ((noise_scaling - 1) % 2) / 2
+        # The total number of times gates should be folded. The number is
+        # rounded down, but noise_scaling may itself be subject to rounding.
+        total_num_folds = int(
+            (noise_scaling - 1) * len(foldable_gates) / 2 + rounding_tolerance
+        )
+
+        # All gates are folded the same number of times, as far as possible.
+        # By doing so the noise is scaled by the odd integer less than
+        # noise_scaling. The remaining noise scaling is achieved by randomly
+        # selecting gates to fold once more.
+        num_folds_dict = {
+            i: total_num_folds // len(foldable_gates) for i in foldable_gates
+        }
         to_fold = np.random.choice(
-            list(num_folds_dict.keys()),
-            size=int(len(num_folds_dict.keys()) * fold_frac),
+            foldable_gates,
+            size=total_num_folds % len(foldable_gates),
             replace=False,
         )
         for i in to_fold:
@@ -255,7 +264,10 @@ class Folding(Enum):
         # Calculate the number of gates that need to be folded. Note that only
         # non barrier commands should be folded so only these are counted.
         num_additional_commands = (noise_scaling - 1) * num_non_barrier_commands
-        num_folded_commands = int(num_additional_commands // 2)
+        # This is rounded down, but noise_scaling may itself be subject to rounding.
+        num_folded_commands = int(
+            (num_additional_commands + 2 * rounding_tolerance) // 2
+        )
 
         true_noise_scaling = 1 + ((num_folded_commands * 2) / num_non_barrier_commands)
         # This check isolates the case where the noise folding that can be achieved is different
-- 
2.43.0


From d77a0b36ac1b411a46a6b69985b556fe88ac606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:31 +0000
Subject: [PATCH 08/42] fix: Fit.polynomial refuses a degree equal to the
 number of data points

---
 qermit/zero_noise_extrapolation/zne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index c6ad0e5..e2b0d0a 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -600,7 +600,7 @@ class Fit(Enum):
         """
 
         # Raised if the degree of the polynomial requested is negative, or too high to fit the data to
-        if (deg > len(x)) or (deg < 0):
+        if (deg > len(x) - 1) or (deg < 0):
             raise ValueError(
                 "The degree of the polynomial must be positive and can be at most m-1, where m is the number of data points."
             )
-- 
2.43.0


From d5048e87a298a2db55fca80b90dc3bf1f86ef28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 09/42] fix: exponential fits of data that exceeds 1, or has no
 scaling of 1, start within their bounds

---
 qermit/zero_noise_extrapolation/zne.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index e2b0d0a..569bd42 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -539,14 +539,17 @@ class Fit(Enum):
 
         # Fit data to polyexponential function
         # TODO: Improve bounds here.
+        # Expectation values may exceed 1 as they include the coefficients of
+        # the Pauli strings. The bounds are scaled accordingly.
+        y_scale = max(1, *[abs(float(i)) for i in y])
         bounds = (
-            [-1, -2, *[-np.inf for i in range(deg)]],
-            [1, 2, *[np.inf for i in range(deg)]],
+            [-y_scale, -2 * y_scale, *[-np.inf for i in range(deg)]],
+            [y_scale, 2 * y_scale, *[np.inf for i in range(deg)]],
         )
 
         # Initialise decaying poly-exponential with intersect at
         # unfolded noisy value.
-        least_noisy_y_index = x.index(1)
+        least_noisy_y_index = x.index(min(x))
         p0 = [0, y[least_noisy_y_index], *[-1 for i in range(deg)]]
 
         vals = curve_fit(
-- 
2.43.0


From 0344479e7428609953dcacd46f7401db2c958d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:04 +0000
Subject: [PATCH 10/42] fix: error distributions which are empty, or contain
 negligible rates or the identity, can be scaled

---
 qermit/noise_model/noise_model.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/qermit/noise_model/noise_model.py b/qermit/noise_model/noise_model.py
index 943d14b..558059b 100644
--- a/qermit/noise_model/noise_model.py
+++ b/qermit/noise_model/noise_model.py
@@ -145,7 +145,20 @@ class ErrorDistribution:
                 + "Please report this as an issue."
             )
 
-        if not self == ErrorDistribution.from_ptm(ptm=ptm, pauli_index=pauli_index):
+        # Note that from_ptm omits the identity, and errors which occur with
+        # negligible probability. As such these are not compared by key.
+        from_ptm_distribution = ErrorDistribution.from_ptm(
+            ptm=ptm, pauli_index=pauli_index
+        ).distribution
+        if not all(
+            math.isclose(
+                self.distribution.get(error, 0),
+                from_ptm_distribution.get(error, 0),
+                abs_tol=0.01,
+            )
+            for error in pauli_index.keys()
+            if error != identity
+        ):
             raise Exception(
                 "From PTM does not match to PTM. "
                 + "This is a fault in Qermit. "
@@ -396,6 +409,10 @@ class ErrorDistribution:
         :return: A new error distribution with the noise scaled.
         """
 
+        # If there is no noise then there is nothing to scale.
+        if self.distribution == {}:
+            return ErrorDistribution(distribution={}, rng=self.rng)
+
         ptm, pauli_index = self.to_ptm()
         scaled_ptm = fractional_matrix_power(ptm, scaling_factor)
         return ErrorDistribution.from_ptm(ptm=scaled_ptm, pauli_index=pauli_index)
-- 
2.43.0


From fd0677358fb3762c5519408ef2517db71241fdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:19 +0000
Subject: [PATCH 11/42] fix: PauliErrorTranspile keeps implicit wire swaps and
 single qubits and bits

---
 qermit/noise_model/pauli_error_transpile.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/qermit/noise_model/pauli_error_transpile.py b/qermit/noise_model/pauli_error_transpile.py
index 2c39844..0284e7b 100644
--- a/qermit/noise_model/pauli_error_transpile.py
+++ b/qermit/noise_model/pauli_error_transpile.py
@@ -23,12 +23,12 @@ def PauliErrorTranspile(noise_model: NoiseModel) -> BasePass:
         :return: Circuit with additional noise operations.
         """
 
-        # Initialise circuit with the same registers as input.
+        # Initialise circuit with the same qubits and bits as input.
         noisy_circuit = Circuit()
-        for q_register in circuit.q_registers:
-            noisy_circuit.add_q_register(q_register)
-        for c_register in circuit.c_registers:
-            noisy_circuit.add_c_register(c_register)
+        for qubit in circuit.qubits:
+            noisy_circuit.add_qubit(qubit)
+        for bit in circuit.bits:
+            noisy_circuit.add_bit(bit)
 
         # Add each command in the original circuit,
         # and a pauli error if appropriate.
@@ -57,6 +57,13 @@ def PauliErrorTranspile(noise_model: NoiseModel) -> BasePass:
                                 "Not a Pauli noise model." + f" Contains {pauli} error"
                             )
 
-        return noisy_circuit
+        # The commands do not include implicit wire swaps, which compilation
+        # may have introduced, so these are copied from the original circuit.
+        noisy_circuit_dict = noisy_circuit.to_dict()
+        noisy_circuit_dict["implicit_permutation"] = circuit.to_dict()[
+            "implicit_permutation"
+        ]
+
+        return Circuit.from_dict(noisy_circuit_dict)
 
     return CustomPass(add_gates)
-- 
2.43.0


From 35ec2952477b78f742670dc7f017cb26c3c22357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:34 +0000
Subject: [PATCH 12/42] fix: carry Paulis through the implicit wire swaps of a
 circuit

---
 qermit/noise_model/noise_model.py  |  7 +++++++
 qermit/noise_model/qermit_pauli.py | 22 +++++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/qermit/noise_model/noise_model.py b/qermit/noise_model/noise_model.py
index 558059b..a9b7411 100644
--- a/qermit/noise_model/noise_model.py
+++ b/qermit/noise_model/noise_model.py
@@ -735,4 +735,11 @@ class NoiseModel:
                     qubits=cast(List[Qubit], command.args),
                 )
 
+        # The commands do not include the implicit wire swaps at the end of
+        # the circuit.
+        if direction == Direction.forward:
+            pauli_error._permute_qubits(
+                permutation=cliff_circ.implicit_qubit_permutation()
+            )
+
         return pauli_error
diff --git a/qermit/noise_model/qermit_pauli.py b/qermit/noise_model/qermit_pauli.py
index 2b16823..d48a392 100644
--- a/qermit/noise_model/qermit_pauli.py
+++ b/qermit/noise_model/qermit_pauli.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from typing import List
+from typing import Dict, List
 
 from pytket.circuit import Circuit, Op, OpType, Qubit
 from pytket.pauli import Pauli, QubitPauliString, QubitPauliTensor, pauli_string_mult
@@ -130,6 +130,26 @@ class QermitPauli:
                 qubits=command.qubits,
             )
 
+        self._permute_qubits(permutation=circuit.implicit_qubit_permutation())
+
+    def _permute_qubits(self, permutation: Dict[Qubit, Qubit]) -> None:
+        """Commute the Pauli through a permutation of qubits, for example the
+        implicit wire swaps of a circuit.
+
+        :param permutation: Map from qubits to the qubits they are moved to.
+        """
+        qubit_pauli_tensor = self.qubit_pauli_tensor
+        self.input_pauli_tensor = QubitPauliTensor(
+            string=QubitPauliString(
+                map={
+                    self.qubit_index[permutation.get(qubit, qubit)]: pauli
+                    for qubit, pauli in qubit_pauli_tensor.string.map.items()
+                }
+            ),
+            coeff=qubit_pauli_tensor.coeff,
+        )
+        self.unitary_tableau = UnitaryTableau(nqb=len(self.qubit_list))
+
     def apply_gate(self, op: Op, qubits: List[Qubit]) -> None:
         """Commute the Pauli through the gate.
         Given a Clifford gate G, transform the Pauli P to Q
-- 
2.43.0


From 15dca62bbee5ab5b599fc31a4177f1226a630fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:07 +0000
Subject: [PATCH 13/42] fix: collated frame randomisation results keep the
 order of bits

---
 qermit/frame_randomisation/frame_randomisation.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/qermit/frame_randomisation/frame_randomisation.py b/qermit/frame_randomisation/frame_randomisation.py
index 6a2f01e..82b561d 100644
--- a/qermit/frame_randomisation/frame_randomisation.py
+++ b/qermit/frame_randomisation/frame_randomisation.py
@@ -135,18 +135,16 @@ def frame_randomisation_result_task_gen(samples: int) -> MitTask:
         ]
         results = []
         for chunk in chunked_results:
-            all_counts = [result.get_counts() for result in chunk]
+            # the counts of every result list the bits in the same order
+            c_bits = list(cast(Sequence[Bit], chunk[0].c_bits))
+            all_counts = [result.get_counts(cbits=c_bits) for result in chunk]
             combined_counts = reduce(operator.add, all_counts)
             outcome_array = {
                 OutcomeArray.from_readouts([key]): val
                 for key, val in combined_counts.items()
             }
             outcome_counts = Counter(outcome_array)
-            results.append(
-                BackendResult(
-                    counts=outcome_counts, c_bits=cast(Sequence[Bit], chunk[0].c_bits)
-                )
-            )
+            results.append(BackendResult(counts=outcome_counts, c_bits=c_bits))
         return (results,)
 
     return MitTask(
-- 
2.43.0


From f79b28c2215ea63d78b4b9724f76b00bf34991b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:07 +0000
Subject: [PATCH 14/42] fix: merged shots keep the order of bits

---
 qermit/taskgraph/mitres.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/qermit/taskgraph/mitres.py b/qermit/taskgraph/mitres.py
index cce1a00..8c686b4 100644
--- a/qermit/taskgraph/mitres.py
+++ b/qermit/taskgraph/mitres.py
@@ -402,14 +402,13 @@ def group_shots_task_gen() -> MitTask:
 
         # For each circuit, combine the results.
         for chunk in grouped_results:
-            # Concatenate shots from all results
-            combined_shots = np.concatenate([result.get_shots() for result in chunk])
-            outcome_array = OutcomeArray.from_readouts(combined_shots)
-            merged_results.append(
-                BackendResult(
-                    shots=outcome_array, c_bits=cast(Sequence[Bit], chunk[0].c_bits)
-                )
+            # Concatenate shots from all results, with bits in the same order
+            c_bits = list(cast(Sequence[Bit], chunk[0].c_bits))
+            combined_shots = np.concatenate(
+                [result.get_shots(cbits=c_bits) for result in chunk]
             )
+            outcome_array = OutcomeArray.from_readouts(combined_shots)
+            merged_results.append(BackendResult(shots=outcome_array, c_bits=c_bits))
 
         return (merged_results,)
 
-- 
2.43.0


From f87195a464824d6b93f639098dc8e443392c6ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:00 +0000
Subject: [PATCH 15/42] fix: CDR training circuits keep the circuit's qubits,
 bits and wire swaps

---
 qermit/clifford_noise_characterisation/ccl.py | 72 ++++++++++++++++---
 1 file changed, 62 insertions(+), 10 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index 53de5f1..85ab5ca 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -17,12 +17,13 @@ import random
 import warnings
 from copy import copy
 from enum import Enum
-from typing import List, Tuple, cast
+from typing import Dict, List, Tuple, cast
 
 import numpy as np
-from pytket import Circuit, OpType
+from pytket import Circuit, OpType, Qubit
 from pytket.backends import Backend
 from pytket.passes import AutoRebase, DecomposeBoxes
+from pytket.pauli import QubitPauliString
 from pytket.unit_id import UnitID
 from pytket.utils import QubitPauliOperator, get_operator_expectation_value
 
@@ -95,6 +96,60 @@ def sample_weighted_clifford_angle(rz_angle: float, **kwargs) -> float:
     return 0.5 * random.choices(range(4), weights)[0]
 
 
+def _empty_state_circuit(c: Circuit) -> Circuit:
+    """
+    :param c: Circuit for which a state circuit is to be produced.
+
+    :return: Circuit without gates on the qubits and bits of c.
+    """
+    circuit = Circuit()
+    for qubit in c.qubits:
+        circuit.add_qubit(qubit)
+    for bit in c.bits:
+        circuit.add_bit(bit)
+    return circuit
+
+
+def _copy_wire_swaps(c: Circuit, state_circuit: Circuit) -> Circuit:
+    """
+    :param c: Circuit for which the state circuit was produced, command by command.
+    :param state_circuit: State circuit of c.
+
+    :return: State circuit with the implicit wire swaps of c, which are not part
+        of its commands.
+    """
+    circuit_dict = state_circuit.to_dict()
+    circuit_dict["implicit_permutation"] = c.to_dict()["implicit_permutation"]
+    return Circuit.from_dict(circuit_dict)
+
+
+def _exact_expectation(
+    c: Circuit, operator: QubitPauliOperator, backend: Backend
+) -> complex:
+    """
+    :param c: Circuit preparing a state.
+    :param operator: Operator on the qubits of c.
+    :param backend: Backend used, which may support default registers only.
+
+    :return: Expectation value of operator in the state prepared by c.
+    """
+    flat_c = c.copy()
+    flat_c.replace_implicit_wire_swaps()
+    qubit_map = cast(Dict[UnitID, UnitID], flat_c.flatten_registers())
+    flat_operator = QubitPauliOperator(
+        {
+            QubitPauliString(
+                {
+                    cast(Qubit, qubit_map.get(qubit, qubit)): pauli
+                    for qubit, pauli in string.map.items()
+                }
+            ): coeff
+            for string, coeff in operator._dict.items()
+        }
+    )
+    return get_operator_expectation_value(flat_c, flat_operator, backend)
+
+
 def gen_state_circuits(
     c: Circuit, n_non_cliffords: int, n_pairs: int, total_state_circuits: int, **kwargs
 ) -> List[Circuit]:
@@ -135,7 +190,6 @@ def gen_state_circuits(
     # Work in CX, H, Rz basis for ease
     DecomposeBoxes().apply(c)
     ufr_rebase.apply(c)
-    c.flatten_registers()
     all_coms = c.get_commands()
 
     #  angles that make Clifford gates for S^n
@@ -162,7 +216,7 @@ def gen_state_circuits(
         # make special case where its not possible to swap pairs
         # produce state circuits until limit reached
         while len(state_circuits) < total_state_circuits:
-            new_circuit = Circuit(c.n_qubits, len(c.bits))
+            new_circuit = _empty_state_circuit(c)
             for i in range(len(all_coms)):
                 com = all_coms[i]
                 if com.op.type == OpType.Rz:
@@ -188,7 +242,7 @@ def gen_state_circuits(
                     new_circuit.add_gate(com.op.type, cast(List[UnitID], com.qubits))
 
             # all circuits accepted and run, some results later discarded if not accepted by Metropolis-Hastings rule
-            state_circuits.append(new_circuit)
+            state_circuits.append(_copy_wire_swaps(c, new_circuit))
         return state_circuits
 
     # reassign variables where appropriate to guarantee there is always one pair of non-Clifford Clifford
@@ -214,7 +268,7 @@ def gen_state_circuits(
         non_clifford_pair_elements = random.sample(list(non_cliffords), n_pairs)
 
         # create new Circuit from scratch
-        new_circuit = Circuit(c.n_qubits, len(c.bits))
+        new_circuit = _empty_state_circuit(c)
         for i in range(len(all_coms)):
             com = all_coms[i]
             if com.op.type == OpType.Rz:
@@ -270,7 +324,7 @@ def gen_state_circuits(
                 new_circuit.add_gate(com.op.type, cast(List[UnitID], com.qubits))
 
         # all circuits accepted and run, some results later discarded if not accepted by Metropolis-Hastings rule
-        state_circuits.append(new_circuit)
+        state_circuits.append(_copy_wire_swaps(c, new_circuit))
 
     return state_circuits
 
@@ -342,9 +396,7 @@ def ccl_state_task_gen(
                 )
 
                 pauli_expectation_list = [
-                    get_operator_expectation_value(
-                        c, qubit_pauli_operator, simulator_backend
-                    )
+                    _exact_expectation(c, qubit_pauli_operator, simulator_backend)
                     for c in state_circuits
                 ]
                 all_close = all(
-- 
2.43.0


From e3098b9a9499c855f89176c26949a1454b4cf046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:29 +0000
Subject: [PATCH 16/42] fix: CDR training circuits keep Clifford rotations when
 one rotation is not Clifford

---
 qermit/clifford_noise_characterisation/ccl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index 85ab5ca..fc2e5cb 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -219,7 +219,7 @@ def gen_state_circuits(
             new_circuit = _empty_state_circuit(c)
             for i in range(len(all_coms)):
                 com = all_coms[i]
-                if com.op.type == OpType.Rz:
+                if i in rz_ops:
                     new_circuit.add_barrier(cast(List[UnitID], com.qubits))
                     original_angle = com.op.params[0]
                     if not isinstance(original_angle, float):
@@ -237,9 +237,9 @@ def gen_state_circuits(
                 # A special case for Barrier metaop
                 elif com.op.type == OpType.Barrier:
                     new_circuit.add_barrier(com.args)
-                # CX or H gate, add as is
+                # CX, H or Clifford Rz gate, add as is
                 else:
-                    new_circuit.add_gate(com.op.type, cast(List[UnitID], com.qubits))
+                    new_circuit.add_gate(com.op, cast(List[UnitID], com.qubits))
 
             # all circuits accepted and run, some results later discarded if not accepted by Metropolis-Hastings rule
             state_circuits.append(_copy_wire_swaps(c, new_circuit))
-- 
2.43.0


From 595dd2fa744106ea63aa4264b98d492a35c118c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:29 +0000
Subject: [PATCH 17/42] fix: gen_CDR_MitEx uses the states_simulator_mitex
 given

---
 qermit/clifford_noise_characterisation/ccl.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index fc2e5cb..38a4a09 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -570,11 +570,15 @@ def gen_CDR_MitEx(
     """
     _states_sim_mitex = copy(
         kwargs.get(
-            "states_simluator_mitex",
-            MitEx(
-                simulator_backend,
-                _label="StatesSimMitEx",
-                mitres=gen_compiled_MitRes(simulator_backend, 0),
+            "states_simulator_mitex",
+            # this key was misspelt, and remains accepted
+            kwargs.get(
+                "states_simluator_mitex",
+                MitEx(
+                    simulator_backend,
+                    _label="StatesSimMitEx",
+                    mitres=gen_compiled_MitRes(simulator_backend, 0),
+                ),
             ),
         )
     )
-- 
2.43.0


From c240448b8825506fe55a8062c538743f3286ed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:29 +0000
Subject: [PATCH 18/42] fix: operators of CDR training experiments are
 independent

---
 qermit/clifford_noise_characterisation/ccl.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index 38a4a09..eac0a3f 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -419,7 +419,7 @@ def ccl_state_task_gen(
                         Circuit=c, Shots=shots, SymbolsDict=SymbolsDict()
                     ),
                     ObservableTracker=ObservableTracker(
-                        copy(qubit_pauli_operator)
+                        QubitPauliOperator(copy(qubit_pauli_operator._dict))
                     ),  # no copy means changes to one QubitPauliOperator can be made to all
                 )
                 wire_device = ObservableExperiment(
@@ -428,7 +428,9 @@ def ccl_state_task_gen(
                         Shots=copy(shots),
                         SymbolsDict=SymbolsDict(),
                     ),
-                    ObservableTracker=ObservableTracker(copy(qubit_pauli_operator)),
+                    ObservableTracker=ObservableTracker(
+                        QubitPauliOperator(copy(qubit_pauli_operator._dict))
+                    ),
                 )
                 simulator_wires.append(wire_sim)
                 device_wires.append(wire_device)
-- 
2.43.0


From 0852b19d13dbf946eeeb91680cec21a774d08c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 19/42] fix: CDR training circuits of circuits with
 measurements

---
 qermit/clifford_noise_characterisation/ccl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index eac0a3f..e0c9a3a 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -232,7 +232,7 @@ def gen_state_circuits(
                     )
                     new_circuit.add_barrier(cast(List[UnitID], com.qubits))
                 # Measure gate has special case, but can assume 1 qubit to 1 bit
-                elif com.op.type is OpType.Measure:
+                elif com.op.type == OpType.Measure:
                     new_circuit.Measure(com.qubits[0], com.bits[0])
                 # A special case for Barrier metaop
                 elif com.op.type == OpType.Barrier:
@@ -314,7 +314,7 @@ def gen_state_circuits(
                     )
                     new_circuit.add_barrier(cast(List[UnitID], com.qubits))
             # Measure gate has special case, but can assume 1 qubit to 1 bit
-            elif com.op.type is OpType.Measure:
+            elif com.op.type == OpType.Measure:
                 new_circuit.Measure(com.qubits[0], com.bits[0])
             # A special case for Barrier metaop
             elif com.op.type == OpType.Barrier:
-- 
2.43.0


From 278dba4f2d5d760e6171b46f3a391789c8f88625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 20/42] fix: DFSC characterises circuits with implicit wire
 swaps

---
 qermit/clifford_noise_characterisation/dfsc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qermit/clifford_noise_characterisation/dfsc.py b/qermit/clifford_noise_characterisation/dfsc.py
index 9a945ef..d7ee3a8 100644
--- a/qermit/clifford_noise_characterisation/dfsc.py
+++ b/qermit/clifford_noise_characterisation/dfsc.py
@@ -73,6 +73,8 @@ def preparation_circuit_for_partition(
     # transform string, then append gates for preparing
     # +1 eigenstate to circuit
     # use RemoveRedundancies after to minimise gates required in cosntruction
+    # the basis change does not take implicit wire swaps into account
+    clifford_circuit.replace_implicit_wire_swaps()
     Transform.RebaseToCliffordSingles().apply(clifford_circuit)
     for string in partition:
         transformed_string = apply_clifford_basis_change(string, clifford_circuit)
-- 
2.43.0


From 28f4322ab715f43bd1a5c7e25496d7ba38c98082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 21/42] fix: DFSC corrects strings whose characterisation value
 is negative

---
 qermit/clifford_noise_characterisation/dfsc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/dfsc.py b/qermit/clifford_noise_characterisation/dfsc.py
index d7ee3a8..ec0265b 100644
--- a/qermit/clifford_noise_characterisation/dfsc.py
+++ b/qermit/clifford_noise_characterisation/dfsc.py
@@ -262,8 +262,8 @@ def DFSC_characterisation_task_gen() -> MitTask:
 
 def DFSC_correction_task_gen(zero_threshold: float) -> MitTask:
     """
-    For each experiment expectation, if characterisation value greater than threshold, divide experiment expectation
-    by characterisation value to correct for depolarising noise.
+    For each experiment expectation, if the magnitude of the characterisation value is greater than threshold,
+    divide experiment expectation by it to correct for depolarising noise.
 
     :param zero_threshold: Method does not correct for zero characterisation expectation values, threshold for this zero limit.
 
@@ -293,7 +293,8 @@ def DFSC_correction_task_gen(zero_threshold: float) -> MitTask:
         ):
             new_qpo = dict()
             for key in experiment_qpo._dict:
-                val = characterisation_qpo._dict[key]
+                # the state characterised is an eigenstate, with eigenvalue +1 or -1
+                val = abs(characterisation_qpo._dict[key])
                 if val > zero_threshold:
                     new_qpo[key] = experiment_qpo._dict[key] / val
                 else:
-- 
2.43.0


From 2bf06008c68762e0dea0ddfa50b5e46b11464eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:22 +0000
Subject: [PATCH 22/42] fix: PEC training circuits keep the qubits of the
 circuit

---
 .../pec_learning_based.py                                | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qermit/probabilistic_error_cancellation/pec_learning_based.py b/qermit/probabilistic_error_cancellation/pec_learning_based.py
index 845ed87..0ca970e 100644
--- a/qermit/probabilistic_error_cancellation/pec_learning_based.py
+++ b/qermit/probabilistic_error_cancellation/pec_learning_based.py
@@ -136,16 +136,19 @@ def random_commuting_clifford(
 
         new_qps = QubitPauliString(cast(List[Qubit], new_qps_qbs), qps_paulis)
 
-        place_with_map(rand_cliff_circ, n_q_map)
+        # Only the circuit being simulated is relabelled, as the observables of
+        # the training circuits refer to the qubits of the original circuit.
+        sim_circ = rand_cliff_circ.copy()
+        place_with_map(sim_circ, n_q_map)
 
         # Check if state is supported, otherwise use shots, otherwise raise error
         if simulator_backend.supports_state:
             expect_val = get_pauli_expectation_value(
-                rand_cliff_circ, new_qps, simulator_backend
+                sim_circ, new_qps, simulator_backend
             )
         elif simulator_backend.supports_shots or simulator_backend.supports_counts:
             expect_val = get_pauli_expectation_value(
-                rand_cliff_circ, new_qps, simulator_backend, n_shots=n_shots
+                sim_circ, new_qps, simulator_backend, n_shots=n_shots
             )
         else:
             raise RuntimeError(
-- 
2.43.0


From 9573862ec1e40a5c1dac21350ccdeb7476005420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:22 +0000
Subject: [PATCH 23/42] fix: random Clifford circuits include all Pauli gates

---
 .../cliff_circuit_gen.py                               | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
index 8b4e4ed..f5973fc 100644
--- a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
+++ b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
@@ -16,7 +16,7 @@
 from typing import List, Tuple
 
 import numpy as np
-from pytket import Circuit
+from pytket import Circuit, OpType
 
 
 def sample_q_mallows(n_qubits: int) -> Tuple[List[int], List[int]]:
@@ -102,10 +102,12 @@ def clifford_canonical_F(
     # Add Pauli gate
     for i, gate in enumerate(pauli_layer):
         if gate == 0:
-            circ.X(i, opgroup="Clifford 1")
+            circ.add_gate(OpType.noop, [i], opgroup="Clifford 1")
         elif gate == 1:
-            circ.Y(i, opgroup="Clifford 1")
+            circ.X(i, opgroup="Clifford 1")
         elif gate == 2:
+            circ.Y(i, opgroup="Clifford 1")
+        elif gate == 3:
             circ.Z(i, opgroup="Clifford 1")
 
     return circ
@@ -213,7 +215,7 @@ def random_clifford_circ(n_qubits: int, **kwargs) -> Circuit:
 
     # Append Clifford gate. Here the Pauli gates are assigned at random.
     cliff_circ = clifford_canonical_F(
-        [np.random.randint(2) for _ in range(n_qubits)], Gamma2, Delta2
+        [np.random.randint(4) for _ in range(n_qubits)], Gamma2, Delta2
     )
     circ = circ.add_circuit(cliff_circ, [i for i in range(n_qubits)], [])
 
-- 
2.43.0


From 4116903be5c09b1357ef6ebdfc8c3b694ea586ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:22 +0000
Subject: [PATCH 24/42] fix: random Clifford circuits do not discard the seed
 of PEC

---
 qermit/probabilistic_error_cancellation/cliff_circuit_gen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
index f5973fc..5f14d66 100644
--- a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
+++ b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
@@ -201,10 +201,12 @@ def random_clifford_circ(n_qubits: int, **kwargs) -> Circuit:
     Hadamard gates acting on a subset of the qubits, and S is a permutation layer.
 
     :param n_qubits: The number of qubits on which the returned random Clifford circuit should act
+    :key seed: Seed for np.random. By default np.random is not seeded.
     :return: A random Clifford circuit acting on n_qubits qubits
     """
 
-    np.random.seed(kwargs.get("seed", None))
+    if "seed" in kwargs:
+        np.random.seed(kwargs["seed"])
 
     circ = Circuit(n_qubits)
 
-- 
2.43.0


From 7372d49afb6810f28b6fb13fc692d0d808f444b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:22 +0000
Subject: [PATCH 25/42] fix: the last attempt at a PEC training circuit counts

---
 qermit/probabilistic_error_cancellation/pec_learning_based.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/probabilistic_error_cancellation/pec_learning_based.py b/qermit/probabilistic_error_cancellation/pec_learning_based.py
index 0ca970e..4359160 100644
--- a/qermit/probabilistic_error_cancellation/pec_learning_based.py
+++ b/qermit/probabilistic_error_cancellation/pec_learning_based.py
@@ -158,7 +158,7 @@ def random_commuting_clifford(
 
         # Check if the number of attempts at finding a circuit with non-zero expectation exceeds the maximum.
         count += 1
-        if count == max_count:
+        if count == max_count and round(abs(expect_val)) == 0:
             raise RuntimeError(
                 "Could not find circuit with non-zero expectation. It's possible there are none."
             )
-- 
2.43.0


From 563f9ed0dded11fb02228aad50f4df46cabbbecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:22 +0000
Subject: [PATCH 26/42] fix: label_gates refuses gates whose name is part of
 TK1 or CX

---
 qermit/probabilistic_error_cancellation/pec_learning_based.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qermit/probabilistic_error_cancellation/pec_learning_based.py b/qermit/probabilistic_error_cancellation/pec_learning_based.py
index 4359160..6668bfe 100644
--- a/qermit/probabilistic_error_cancellation/pec_learning_based.py
+++ b/qermit/probabilistic_error_cancellation/pec_learning_based.py
@@ -665,10 +665,10 @@ def label_gates(circ: Circuit) -> Circuit:
     frame_count = 0
     for command in command_list:
         labelled_command = command.copy()
-        if labelled_command["op"]["type"] in ("TK1"):
+        if labelled_command["op"]["type"] == "TK1":
             labelled_command["opgroup"] = "Computing %i" % comp_count
             comp_count += 1
-        elif labelled_command["op"]["type"] in ("CX"):
+        elif labelled_command["op"]["type"] == "CX":
             labelled_command["opgroup"] = "Frame %i" % frame_count
             frame_count += 1
         else:
-- 
2.43.0


From db817f4b27281aee1f1a9de784b060f67168a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 27/42] fix: spectral filtering runs every grid point with its
 own symbol values

---
 qermit/spectral_filtering/spectral_filtering.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/qermit/spectral_filtering/spectral_filtering.py b/qermit/spectral_filtering/spectral_filtering.py
index 2eaefe0..b99fb8d 100644
--- a/qermit/spectral_filtering/spectral_filtering.py
+++ b/qermit/spectral_filtering/spectral_filtering.py
@@ -9,7 +9,12 @@ from pytket.pauli import QubitPauliString
 from pytket.utils import QubitPauliOperator
 from scipy import fft, interpolate  # type: ignore
 
-from qermit import AnsatzCircuit, ObservableExperiment, SymbolsDict
+from qermit import (
+    AnsatzCircuit,
+    ObservableExperiment,
+    ObservableTracker,
+    SymbolsDict,
+)
 from qermit.taskgraph.mitex import MitEx, gen_compiled_MitRes
 from qermit.taskgraph.mittask import MitTask
 from qermit.taskgraph.task_graph import TaskGraph
@@ -411,8 +416,15 @@ def gen_obs_exp_grid_gen_task() -> MitTask:
                 circ = obs_exp.AnsatzCircuit.Circuit.copy()
                 anz_circ = AnsatzCircuit(circ, obs_exp.AnsatzCircuit.Shots, sym_dict)
 
+                # Each point has its own tracker, as the measurement circuits
+                # it will hold depend on the symbol values of the point.
                 obs_exp_grid[grid_point] = ObservableExperiment(
-                    anz_circ, obs_exp.ObservableTracker
+                    anz_circ,
+                    ObservableTracker(
+                        QubitPauliOperator(
+                            copy(obs_exp.ObservableTracker.qubit_pauli_operator._dict)
+                        )
+                    ),
                 )
 
             obs_exp_grid_list.append(obs_exp_grid)
-- 
2.43.0


From 2cad63725de42fa73fbe44d732b378dd150cbe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:37 +0000
Subject: [PATCH 28/42] fix: boxing Cliffords keeps the order of operations
 sharing a bit

---
 .../box_clifford_subcircuits.py               | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
index 093c90b..77d805c 100644
--- a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
+++ b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
@@ -1,5 +1,5 @@
 import networkx as nx  # type: ignore
-from pytket._tket.unit_id import Qubit
+from pytket._tket.unit_id import Qubit, UnitID
 from pytket.circuit import CircBox, Circuit, Command, OpType
 from pytket.passes import BasePass, CustomPass
 
@@ -84,22 +84,22 @@ def _circuit_to_graph(circuit: Circuit) -> tuple[nx.DiGraph, list[Command]]:
     :return: Tuple of graph and list of commands. Nodes are indexes
         in the list of commands.
     """
-    # Lists the most recent node to act on a particular qubits. If a
-    # new gate is found to act on that qubit then an edge between the
+    # Lists the most recent node to act on a particular qubit or bit. If a
+    # new gate is found to act on that qubit or bit then an edge between the
     # node which corresponds to the new gate and the node which
-    # most recently acted on that qubit is added. This builds a DAG
+    # most recently acted on it is added. This builds a DAG
     # showing the temporal order of gates.
     node_command = circuit.get_commands()
-    current_node: dict[Qubit, int] = {}
+    current_node: dict[UnitID, int] = {}
     dag = nx.DiGraph()
     for node, command in enumerate(node_command):
         dag.add_node(node)
-        for qubit in command.qubits:
-            # This if statement is used in case the qubit has not been
+        for unit in command.args:
+            # This if statement is used in case the unit has not been
             # acted on yet.
-            if qubit in current_node.keys():
-                dag.add_edge(current_node[qubit], node)
-            current_node[qubit] = node
+            if unit in current_node.keys():
+                dag.add_edge(current_node[unit], node)
+            current_node[unit] = node
 
     return dag, node_command
 
-- 
2.43.0


From 85773a904694f29607ab46decb837cab6121f36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:37 +0000
Subject: [PATCH 29/42] fix: boxing Cliffords keeps implicit wire swaps

---
 qermit/coherent_pauli_checks/box_clifford_subcircuits.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
index 77d805c..2c27239 100644
--- a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
+++ b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
@@ -302,7 +302,14 @@ def _box_clifford_transform(circuit: Circuit) -> Circuit:
 
             implemented_commands[node_to_implement_list[0]] = True
 
-    return clifford_box_circuit
+    # The commands do not include implicit wire swaps, which compilation
+    # may have introduced.
+    clifford_box_circuit_dict = clifford_box_circuit.to_dict()
+    clifford_box_circuit_dict["implicit_permutation"] = circuit.to_dict()[
+        "implicit_permutation"
+    ]
+
+    return Circuit.from_dict(clifford_box_circuit_dict)
 
 
 def BoxClifford() -> BasePass:
-- 
2.43.0


From b3b3577c1754d8331ee08b8ebe9c3563d3607304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:37 +0000
Subject: [PATCH 30/42] fix: Clifford sub-DAGs are merged in order, so that
 none depend on each other cyclically

---
 .../coherent_pauli_checks/monochromatic_convex_subdag.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qermit/coherent_pauli_checks/monochromatic_convex_subdag.py b/qermit/coherent_pauli_checks/monochromatic_convex_subdag.py
index f93803f..663a9d1 100644
--- a/qermit/coherent_pauli_checks/monochromatic_convex_subdag.py
+++ b/qermit/coherent_pauli_checks/monochromatic_convex_subdag.py
@@ -129,8 +129,13 @@ def get_monochromatic_convex_subdag(
     while subgraph_merged:
         subgraph_merged = False
 
-        # Try to merge all pairs of sub-DAGs
-        for subdag_one, subdag_two in combinations(set(node_subdag.values()), 2):
+        # Try to merge all pairs of sub-DAGs. Sub-DAGs are merged in the order
+        # of the coloured nodes, rather than that of the set. When nodes are
+        # ordered temporally this ensures that there are no cyclic dependencies
+        # between merged sub-DAGs.
+        for subdag_one, subdag_two in combinations(
+            sorted(set(node_subdag.values())), 2
+        ):
             if _can_merge(
                 dag=dag,
                 subdag_one=subdag_one,
-- 
2.43.0


From 55c879542d59b953ade166aab7f43627cdfbea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:37 +0000
Subject: [PATCH 31/42] fix: Pauli checks can be added to circuits with
 barriers

---
 qermit/coherent_pauli_checks/pauli_sampler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qermit/coherent_pauli_checks/pauli_sampler.py b/qermit/coherent_pauli_checks/pauli_sampler.py
index b77d3ea..1a0431d 100644
--- a/qermit/coherent_pauli_checks/pauli_sampler.py
+++ b/qermit/coherent_pauli_checks/pauli_sampler.py
@@ -105,7 +105,13 @@ class PauliSampler(ABC):
                 ]
 
             # Add original command
-            pauli_check_circuit.add_gate(command.op, command.args)
+            if command.op.type == OpType.Barrier:
+                pauli_check_circuit.add_barrier(
+                    units=command.args,
+                    data=command.op.data,  # type: ignore
+                )
+            else:
+                pauli_check_circuit.add_gate(command.op, command.args)
 
             # Add barriers and checks if appropriate.
             if (command.op.type == OpType.CircBox) and (
-- 
2.43.0


From 5d1bc9487917e75be73dfccff65df85ebd8103d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 32/42] fix: Clifford boxes that are given a check at their
 start are given its end

---
 qermit/coherent_pauli_checks/pauli_sampler.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/qermit/coherent_pauli_checks/pauli_sampler.py b/qermit/coherent_pauli_checks/pauli_sampler.py
index 1a0431d..d210be2 100644
--- a/qermit/coherent_pauli_checks/pauli_sampler.py
+++ b/qermit/coherent_pauli_checks/pauli_sampler.py
@@ -53,15 +53,10 @@ class PauliSampler(ABC):
         # if the command is a circbox named 'Clifford Subcircuit'
         for command in circuit.get_commands():
             # Add barriers and check if appropriate
-            if (
-                (command.op.type == OpType.CircBox)
-                and (cast(CircBox, command.op).get_circuit().name is not None)
-                and (
-                    str(cast(CircBox, command.op).get_circuit().name).startswith(
-                        "Clifford Subcircuit"
-                    )
-                )
-            ):
+            is_clifford_box = (command.op.type == OpType.CircBox) and str(
+                cast(CircBox, command.op).get_circuit().name
+            ).startswith("Clifford Subcircuit")
+            if is_clifford_box:
                 clifford_subcircuit = self._decompose_clifford_subcircuit_box(command)
 
                 # List of Paulis to be used as checks before the subcircuit.
@@ -114,9 +109,7 @@ class PauliSampler(ABC):
                 pauli_check_circuit.add_gate(command.op, command.args)
 
             # Add barriers and checks if appropriate.
-            if (command.op.type == OpType.CircBox) and (
-                cast(CircBox, command.op).get_circuit().name == "Clifford Subcircuit"
-            ):
+            if is_clifford_box:
                 # For each check, commute the pauli through
                 # the clifford circuit.
                 for end_stabiliser, control_qubit in zip(
-- 
2.43.0


From 44050f0dc9206387c53c56d6cd8ef09c09b96c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:04 +0000
Subject: [PATCH 33/42] fix: Pauli checks keep, and are carried through,
 implicit wire swaps

---
 qermit/coherent_pauli_checks/pauli_sampler.py | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/qermit/coherent_pauli_checks/pauli_sampler.py b/qermit/coherent_pauli_checks/pauli_sampler.py
index d210be2..b483556 100644
--- a/qermit/coherent_pauli_checks/pauli_sampler.py
+++ b/qermit/coherent_pauli_checks/pauli_sampler.py
@@ -46,6 +46,7 @@ class PauliSampler(ABC):
             pauli_check_circuit.add_bit(bit)
 
         ancilla_count = 0
+        ancilla_list: List[Qubit] = []
 
         postselect_bits = set()
 
@@ -72,6 +73,7 @@ class PauliSampler(ABC):
                     )
                 ]
                 ancilla_count += len(start_stabiliser_list)
+                ancilla_list += control_qubit_list
 
                 # Add ancilla qubits and check gates
                 for start_stabiliser, control_qubit in zip(
@@ -115,17 +117,10 @@ class PauliSampler(ABC):
                 for end_stabiliser, control_qubit in zip(
                     reversed(end_stabiliser_list), reversed(control_qubit_list)
                 ):
-                    for clifford_command in clifford_subcircuit.get_commands():
-                        if clifford_command.op.type == OpType.Barrier:
-                            continue
-
-                        # TODO: an error would be raised here if clifford_command
-                        # is not Clifford. It could be worth raising a clearer
-                        # error.
-                        end_stabiliser.apply_gate(
-                            op=clifford_command.op,
-                            qubits=clifford_command.qubits,
-                        )
+                    # TODO: an error would be raised here if clifford_subcircuit
+                    # is not Clifford. It could be worth raising a clearer
+                    # error.
+                    end_stabiliser.apply_circuit(clifford_subcircuit)
 
                     pauli_check_circuit.add_barrier(command.args + [control_qubit])
 
@@ -155,7 +150,14 @@ class PauliSampler(ABC):
                         bit=measure_bit,
                     )
 
-        return pauli_check_circuit, postselect_bits
+        # The commands do not include implicit wire swaps, which compilation
+        # may have introduced.
+        pauli_check_circuit_dict = pauli_check_circuit.to_dict()
+        pauli_check_circuit_dict["implicit_permutation"] = circuit.to_dict()[
+            "implicit_permutation"
+        ] + [[qubit.to_list(), qubit.to_list()] for qubit in ancilla_list]
+
+        return Circuit.from_dict(pauli_check_circuit_dict), postselect_bits
 
     @staticmethod
     def _decompose_clifford_subcircuit_box(clifford_subcircuit_box: Command) -> Circuit:
-- 
2.43.0


From da02ce0e8d83ab17f64210455f4ff692fa1e637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 34/42] fix: leakage detection keeps bits that are not written
 to

---
 qermit/leakage_detection/leakage_detection.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/qermit/leakage_detection/leakage_detection.py b/qermit/leakage_detection/leakage_detection.py
index cc3b8d0..2391ecc 100644
--- a/qermit/leakage_detection/leakage_detection.py
+++ b/qermit/leakage_detection/leakage_detection.py
@@ -47,6 +47,15 @@ def gen_add_leakage_gadget_circuit_task(backend: Backend) -> MitTask:
             for circuit_shots in circuit_shots_list
         ]
 
+        # Bits which are not written to are removed when the gadgets are added.
+        # They are added back as they should appear in the results.
+        for circuit_shots, detection_circuit_shots in zip(
+            circuit_shots_list, detection_circuit_shots_list
+        ):
+            for bit in circuit_shots.Circuit.bits:
+                if bit not in detection_circuit_shots.Circuit.bits:
+                    detection_circuit_shots.Circuit.add_bit(bit)
+
         # For each circuit create a postselection manager. These may be
         # different for each circuit, if for example the circuits are of
         # different sizes.
-- 
2.43.0


From f7f3f9155f73addc0550ccd330a4dae8ca6d8783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 35/42] fix: MockQuantinuumBackend passes get_result's keyword
 arguments on

---
 qermit/noise_model/mock_quantinuum_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/noise_model/mock_quantinuum_backend.py b/qermit/noise_model/mock_quantinuum_backend.py
index 344534e..ba0a5bd 100644
--- a/qermit/noise_model/mock_quantinuum_backend.py
+++ b/qermit/noise_model/mock_quantinuum_backend.py
@@ -119,4 +119,4 @@ class MockQuantinuumBackend(QuantinuumBackend):
         :param handle: handle to results
         :return: Results corresponding to handle.
         """
-        return self.noisy_backend.get_result(handle, *kwargs)
+        return self.noisy_backend.get_result(handle, **kwargs)
-- 
2.43.0


From 0a1d573fb4c79bf93ab5beeb6cb904924a55582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 36/42] fix: copies of tasks and task graphs have their own
 characterisation

---
 qermit/taskgraph/mittask.py    | 12 ++++++++++++
 qermit/taskgraph/task_graph.py |  3 ++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/qermit/taskgraph/mittask.py b/qermit/taskgraph/mittask.py
index 65d1c14..908586b 100644
--- a/qermit/taskgraph/mittask.py
+++ b/qermit/taskgraph/mittask.py
@@ -86,6 +86,18 @@ class MitTask:
             self.run = MethodType(_method, self)
         self.characterisation: dict = {}
 
+    def __copy__(self):
+        """
+        Returns a MitTask with its own characterisation, so that running the
+        copy does not change the original.
+        """
+        copied = self.__class__.__new__(self.__class__)
+        copied.__dict__.update(self.__dict__)
+        copied.characterisation = dict(self.characterisation)
+        if isinstance(self.__dict__.get("run"), MethodType):
+            copied.run = MethodType(self.run.__func__, copied)
+        return copied
+
     @property
     def label(self) -> str:
         return self._label
diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index 4f1ea1d..b159dbf 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -67,7 +67,7 @@ class TaskGraph:
         """
         self._task_graph = deepcopy(task_graph._task_graph)
         self._label = task_graph._label
-        self.characterisation = task_graph.characterisation
+        self.characterisation = dict(task_graph.characterisation)
         return self
 
     def __copy__(self):
@@ -78,6 +78,7 @@ class TaskGraph:
         copied = self.__class__.__new__(self.__class__)
         copied.__dict__.update(self.__dict__)
         copied._task_graph = deepcopy(self._task_graph)
+        copied.characterisation = dict(self.characterisation)
         return copied
 
     @property
-- 
2.43.0


From 36e46cc2e5b2a9c75d0e1987eecc15c9bff3be65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 37/42] fix: running a task graph with too few wires does not
 reuse data of an earlier run

---
 qermit/taskgraph/task_graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index b159dbf..d853cc9 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -386,6 +386,9 @@ class TaskGraph:
             self._task_graph.out_edges(self._i, data=True, keys=True),
             key=lambda edge: edge[2][0],
         )
+        # data of an earlier run is not used
+        for edge in input_edges:
+            edge[3]["data"] = None
         for edge, wire in zip(input_edges, input_wires):
             edge[3]["data"] = wire
 
-- 
2.43.0


From d367d2ab1fc0c1e55b2db9b5fcc054a5518f6e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 38/42] fix: MitEx works on its own copy of the MitRes given

---
 qermit/taskgraph/mitex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qermit/taskgraph/mitex.py b/qermit/taskgraph/mitex.py
index 4871040..82f6aa1 100644
--- a/qermit/taskgraph/mitex.py
+++ b/qermit/taskgraph/mitex.py
@@ -14,7 +14,7 @@
 
 
 import inspect
-from copy import deepcopy
+from copy import copy, deepcopy
 from typing import List, OrderedDict, Tuple, Union, cast
 
 import networkx as nx  # type: ignore
@@ -307,7 +307,7 @@ class MitEx(TaskGraph):
         )
 
         # if mitres isn't defined, build around a mitres which compiles circuits
-        _mitres = kwargs.get("mitres", gen_compiled_MitRes(backend))
+        _mitres = copy(kwargs.get("mitres", gen_compiled_MitRes(backend)))
         self._task_graph.add_edge(
             collate_circuit_shots_task, _mitres, key=(0, 0), data=None
         )
-- 
2.43.0


From 6cebab062baa6b43b73f869fe51909e4e08fcb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:14 +0000
Subject: [PATCH 39/42] fix: random Clifford circuits on several qubits are
 uniform

---
 .../cliff_circuit_gen.py                          | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
index 5f14d66..70aa6ea 100644
--- a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
+++ b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
@@ -72,11 +72,11 @@ def clifford_canonical_F(
 
     :param pauli_layer: Description of which Pauli gate should act on each qubits. This is an element of {0,1,2,3}^n
     with 0 -> I, 1->X, 2->Y, 3->Z.
-    :param gamma: Describes on which qubits CX acts. In particular the circuit contains CX_{i,j} if
-    gamma[i][j]=1. The gates are ordered such the control qubit index increases with time.
-    :param delta: Describes on which qubits CZ acts. In particular the circuit contains CX_{i,j} if
-    delta[i][j]=1. The gates are ordered such the control qubit index increases with time. The circuit include S_i
-    if delta[i][i]=1.
+    :param gamma: Describes on which qubits CZ acts. In particular the circuit contains CZ_{i,j} if
+    gamma[i][j]=1. The gates are ordered such the control qubit index increases with time. The circuit include S_i
+    if gamma[i][i]=1.
+    :param delta: Lower triangular matrix describing on which qubits CX acts. In particular, for i<j, the circuit
+    contains CX_{i,j} if delta[j][i]=1. The gates are ordered such the control qubit index increases with time.
     :return: A Hadamard free Clifford circuit.
     """
 
@@ -85,7 +85,7 @@ def clifford_canonical_F(
     # Add layer of CX gates
     for j in range(len(delta)):
         for i in range(j):
-            if delta[i][j]:
+            if delta[j][i]:
                 circ.CX(i, j, opgroup="Clifford 2")
 
     # Add layer of CZ gates
@@ -221,7 +221,8 @@ def random_clifford_circ(n_qubits: int, **kwargs) -> Circuit:
     )
     circ = circ.add_circuit(cliff_circ, [i for i in range(n_qubits)], [])
 
-    # Implement swap layer based on S
+    # Implement swap layer based on S, which permutes qubit permute[i] to i
+    permute = [permute.index(i) for i in range(n_qubits)]
     for i in range(len(permute)):
         while not (permute[i] == i):
             temp = permute[i]
-- 
2.43.0


From d023ab96801865835e5a7b42ced7e559f051209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 40/42] fix: drawings of task graphs show every task, whatever
 its label

---
 qermit/taskgraph/graphviz.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/qermit/taskgraph/graphviz.py b/qermit/taskgraph/graphviz.py
index cf45f15..94e5f4e 100644
--- a/qermit/taskgraph/graphviz.py
+++ b/qermit/taskgraph/graphviz.py
@@ -1,5 +1,6 @@
 """Visualise TaskGraph using graphviz."""
 
+import html
 from typing import TYPE_CHECKING, Iterable, Optional, Tuple
 
 import graphviz as gv  # type: ignore
@@ -135,9 +136,15 @@ def _taskgraph_to_graphviz(
     }
     gv_graph.attr(**graph_atrr)
 
+    # Tasks are identified by their position in the graph, since several tasks
+    # may have the same label.
+    node_identifiers = {
+        node: f"{prefix}node_{i}" for i, node in enumerate(nx_graph.nodes)
+    }
+
     for node in nx_graph.nodes:
-        node_identifier = prefix + _convert_nodename(node)
-        node_name = node_identifier
+        node_identifier = node_identifiers[node]
+        node_name = prefix + _convert_nodename(node)
 
         node_label, fillcolor = _node_features(node_name, node)
 
@@ -151,7 +158,7 @@ def _taskgraph_to_graphviz(
 
         html_label = _format_html_label(
             node_back_color=fillcolor,
-            node_label=node_label,
+            node_label=html.escape(node_label),
             inputs_row=_html_ports(in_ports) if in_ports else "",
             outputs_row=_html_ports(out_ports) if out_ports else "",
             border_colour=_COLOURS["background"]
@@ -178,8 +185,8 @@ def _taskgraph_to_graphviz(
         src_port = edge[2][0]
         tgt_port = edge[2][1]
 
-        src_nodename = f"{_convert_nodename(src_node)}:out_{src_port}"
-        tgt_nodename = f"{_convert_nodename(tgt_node)}:in_{tgt_port}"
+        src_nodename = f"{node_identifiers[src_node]}:out_{src_port}"
+        tgt_nodename = f"{node_identifiers[tgt_node]}:in_{tgt_port}"
         gv_graph.edge(
             src_nodename,
             tgt_nodename,
-- 
2.43.0


From d83f8353b7d1373db13c7691dfbdc7a49ae436bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 41/42] fix: the tasks of a graph are all its tasks

---
 qermit/taskgraph/task_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index d853cc9..7795b94 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -87,7 +87,7 @@ class TaskGraph:
         Returns a list of all tasks with both input and output ports
         in the TaskGraph.
         """
-        return list(self._task_graph)[2:]
+        return [task for task in self._task_graph if not isinstance(task, IOTask)]
 
     def __call__(self, input_wires: List[Wire]) -> Tuple[List[Wire]]:
         return self.run(input_wires)
-- 
2.43.0


From 495de05e0a4abf403eb516ff7f72760962954e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:00 +0000
Subject: [PATCH 42/42] fix: a string measured by several circuits has the mean
 of their estimates

---
 qermit/taskgraph/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qermit/taskgraph/utils.py b/qermit/taskgraph/utils.py
index 724cdee..a2dcc81 100644
--- a/qermit/taskgraph/utils.py
+++ b/qermit/taskgraph/utils.py
@@ -438,6 +438,10 @@ class ObservableTracker:
                 invert = measure_info[2]
                 counts = result.get_counts(bits)
                 expectation += ((-1) ** invert) * expectation_from_counts(counts)
+            # if several circuits measure the string, each estimates its expectation
+            n_estimates = len(self._qps_to_indices[qps])
+            if n_estimates > 1:
+                expectation /= n_estimates
             # once expectation has been derived from all suitable results, add to dictionary
             coeff = self._qubit_pauli_operator[qps]
             results_dict[qps] = expectation * coeff
-- 
2.43.0

