prop("Q19", "Learning-based PEC finds the weights that undo errors around two-qubit gates",
     "When the exact value of every string is the same combination of the noisy values of the circuits with one Pauli pair around one two-qubit gate, for the experiment's circuit and its Clifford copies alike, learning-based probabilistic error cancellation returns, for every string of every experiment of a batch and under the caller's own qubits, exactly coefficient times the exact value. Circuits with errors differ from the circuit in that pair only; training circuits are the circuit with each single-qubit gate replaced by a drawn single-qubit Clifford, all of which are equally likely, and have a value other than zero for their string, or are refused after the attempts allowed; noisy and exact values are paired by training circuit; experiments are unchanged; no random generator is reseeded unasked.",
     ["input"], "all weights, values, coefficients and shots; circuits, draws and batches within the bounds",
     "The method is exact only if errors, training circuits, strings and experiments are all paired correctly; tests check pieces on one experiment.",
     ["qermit/probabilistic_error_cancellation/pec_learning_based.py", "qermit/probabilistic_error_cancellation/cliff_circuit_gen.py"],
     ["label_gates, wrap_frame_gates, substitute_pauli_but_one, random_commuting_clifford", "random_clifford_circ", "collate, learn and combine tasks", "gen_PEC_learning_based_MitEx"],
     "circuits run on the device and the simulator, operators returned")
prop("Q01", "Task graphs deliver every wire's data to the port it is joined to",
     "However a task graph is composed (tasks and nested graphs added at either end or in parallel, plain wires added, graphs copied or flattened), running it applies every task to exactly the data the composition joined to its input ports and returns the outputs in port order. Flattening nested graphs or copying a graph gives a graph computing the same outputs, and growing or flattening one graph never changes another one. Each run is of its own data only: too few wires are never made up for with those of an earlier run, and what is given to, or recorded in, one graph never reaches another one made from it or from the same tasks.",
     ["history", "input"], "all histories of composition steps (append, prepend, parallel, add wires, nest, copy, flatten) and all wire data",
     "Unit tests run a handful of fixed small graphs; which order edges are visited in only matters for particular interleavings of composition steps.",
     ["qermit/taskgraph/task_graph.py", "qermit/taskgraph/mittask.py"],
     ["Wire bookkeeping when tasks and graphs are added at either end or in parallel", "Data propagation while running", "Flattening of nested graphs and copying"],
     "values returned by running a graph; wire counts; recorded characterisation and cache", state=["the internal multigraph with port-labelled edges"])

prop("Q03", "Splitting a job into capped batches runs every requested shot exactly once",
     "When requests are split so that no job exceeds the given maximum number of shots, every job asks for between one and the maximum number of shots of one request's circuit, and the jobs of a request add up to exactly the shots requested. Merging hands each request, in request order, exactly the shots of its own jobs; without splitting, every circuit runs with its own shots and its own result is returned in its place. Compilation asked for is done first, at the level asked for.",
     ["input"], "all numbers of requests, shots per request (at least one), maxima, shot tables and repeated circuits",
     "The interesting cases are arithmetic boundaries (requests equal to, or multiples of, the maximum) mixed with other requests in one batch.",
     ["qermit/taskgraph/mitres.py"],
     ["Division of requests into jobs and the index of jobs", "Grouping of results by index", "Compile, submit and retrieve steps of a plain result-returning method"],
     "the list of jobs handed to the backend and the results returned")

prop("Q05", "Reported expectation values are exact averages of the right measured bits",
     "An experiment's result holds, for exactly the Pauli strings of its observable, the string's coefficient times the (inverted where so registered) parity average of the bits registered for the string, whatever the counts, bit order or coefficients. The measurement circuits that qermit generates, directly or with measurement reduction, make this the true expectation value of the string in the ansatz state, with the ansatz's parameters substituted, for every state; reduction takes fewer circuits than strings as soon as two strings can be measured together; observables on qubits missing from the circuit are rejected before anything runs.",
     ["input"], "all Pauli strings, counts, coefficients, states, bit orders, register names and parameter values",
     "A sign, a bit order or a basis change is wrong only for particular strings, counts and states; samples of a few circuits on a noiseless simulator show few of them.",
     ["qermit/taskgraph/mitex.py", "qermit/taskgraph/utils.py", "qermit/taskgraph/measurement_reduction.py"],
     ["Measurement circuits for a Pauli string", "Expectation from counts and measurement info", "Measurement reduction mapping", "Symbol substitution", "Rejection of unknown qubits"],
     "the returned QubitPauliOperators, and the circuits and shots handed to the backend")

prop("Q06", "Observable trackers and symbol tables are faithful, independent records",
     "After any history of creating, copying, extending, changing, removing from, adding measurement circuits to and clearing observable trackers, every tracker reports exactly the strings, coefficients and circuits its own history gave it, and estimates use exactly those, a string measured by several circuits getting the mean of what each gives; no tracker's history shows in another, copies and defaults included. Symbol tables keep symbols in the order added, hold the last value given, and reject values for unknown symbols.",
     ["history", "input"], "all bounded histories over several trackers or tables, all coefficients and values",
     "Sharing between copies or default arguments shows only after particular sequences of calls on several objects.",
     ["qermit/taskgraph/utils.py"],
     ["ObservableTracker operations and copies", "SymbolsDict operations", "MeasurementCircuit symbols"],
     "accessors of the tracker / table and the operator returned by get_expectations", state=["strings to measurement info", "measurement circuits", "operator coefficients"])

prop("Q07", "Post-selection keeps exactly the shots whose post-selection bits are all zero",
     "Post-selecting a result gives, over exactly the computation bits, every shot whose post-selection bits are all 0 and no other, each with its computation bits unchanged; merging gives every shot without its post-selection bits. In a batch every circuit gets its own post-selected result in its place, repeatedly, and bits with both roles are rejected.",
     ["input"], "all counts and shot tables, bit names, orders and roles",
     "Bits can be in any order and register and any outcomes may be missing; tests fix one layout.",
     ["qermit/postselection/postselect_manager.py", "qermit/postselection/postselect_mitres.py"],
     ["Selection, removal of bits and merging of counts", "Pairing of managers and results"],
     "counts of the returned results")

prop("Q08", "Readout correction inverts the characterised noise of each block of qubits",
     "Characterising readout noise prepares every basis state of every correlated block and takes each block's transition probabilities from its own qubits. Applying the correction to results distorted by exactly that noise gives back the ideal distribution, for every block order and size, outcome order, partial or mid-circuit measurement, and batch of circuits reusing one characterisation; the inverse method never returns negative counts, and both methods return a distribution over the same bits with the same number of shots.",
     ["input"], "all ideal distributions over the block's outcomes, block partitions and orders, measured subsets and bit orders",
     "An index or ordering error cancels for symmetric noise and single blocks, which are what the samples use.",
     ["qermit/spam/full_transition_tomography.py", "qermit/spam/full_spam_correction.py", "qermit/spam/spam_mitres.py"],
     ["Calibration circuits and transition matrices", "Correction of counts", "Pairing of results with circuits and qubit maps"],
     "counts of the returned results, calibration circuits run")

prop("Q09", "Digital noise scaling keeps the circuit's action and scales its gates as asked",
     "Every folding method (whole circuit, two-qubit gates, random gates, odd gates) returns a circuit with the same unitary as the one given, for all parameters, wire permutations and random selections. The gates appear scaling times: exactly where that number is achievable, otherwise the closest below it or, if approximation is not allowed, a ValueError; an achievable scaling is never refused. Gates never directly follow their own inverse, and the circuit given is not changed. Noise-aware scaling by a factor instead returns as many copies as asked for, each with errors drawn afresh after every noisy gate at the rates of the noise model scaled by the factor less one.",
     ["input"], "all gate parameters, real scalings and random selections, circuits over gate alphabets",
     "Tests fold a few fixed circuits; implicit wire swaps, rounding of scalings and particular random selections do not occur in them.",
     ["qermit/zero_noise_extrapolation/zne.py"],
     ["Folding.circuit / two_qubit_gate / gate / odd_gate"], "the folded circuits")

prop("Q10", "Zero-noise extrapolation recovers the noise-free value of every string",
     "When expectation values depend polynomially on the noise scaling, zero-noise extrapolation with a polynomial fit of that degree returns, for every string of every experiment of a batch and under the caller's own qubits, exactly coefficient times the noise-free expectation; on other data a polynomial fit returns the best fitting polynomial's value at zero. Results of several circuits of one experiment are averaged, each scaled copy of an experiment is independent of the others, degrees the data can not determine are refused, and other models are fitted to scaling/value pairs from a feasible start and evaluated at zero.",
     ["input"], "all noise coefficients, states, data, scalings lists and orders, qubit placements, shots",
     "Tests extrapolate a few fixed curves; pairing errors between scalings, experiments, strings and qubits cancel in them.",
     ["qermit/zero_noise_extrapolation/zne.py"],
     ["Fit", "extrapolation, duplication, merging, compilation and relabelling tasks", "gen_ZNE_MitEx"], "the operators returned by the ZNE MitEx and its tasks")

prop("Q11", "Pauli operators are carried through Clifford circuits exactly",
     "A Pauli operator with a phase, taken through a Clifford circuit (implicit wire permutations included), becomes exactly the operator that acts after the circuit as the original acts before it, phase included, and multiplying Paulis on either side at any point accumulates exactly. Its circuit, controlled circuit and inverse implement it, phase included; removing qubits keeps the rest; it is measurable on qubits where it flips them; operators are equal exactly when string and phase are. Circuits that are not Clifford, or act on bits, are refused.",
     ["input", "history"], "all Paulis, phases, Clifford gate sequences and products within the bounds, compared in an arbitrary state",
     "A phase or a permutation goes wrong only for particular gate, Pauli and qubit combinations; tests check a few.",
     ["qermit/noise_model/qermit_pauli.py"],
     ["apply_gate / apply_circuit through the tableau", "pre- and post-multiplication", "circuit, control circuit, dagger, reduce, measurable"],
     "qubit_pauli_tensor and the circuits returned")

prop("Q12", "Error distributions are sampled, scaled, mixed and post-selected exactly",
     "Sampling gives each error with exactly its own rate and none with what is left, from the given generator only. Transfer matrices are the signed sums of rates and give the rates back. Scaling by k gives the channel applied k times (by one half, the channel whose square is the given one), mixing the mean of the rates; storing, ordering and comparing keep and reflect the rates. Logical error counts become probabilities over shots, and post-selecting on qubits conditions on no measurable error there and removes them. Rates summing to over 1 and mismatched or malformed input are refused.",
     ["input"], "all rates, draws, counts and phases; lists of errors within the bounds",
     "Sampling and scaling are only statistically visible to tests, and at a few rates.",
     ["qermit/noise_model/noise_model.py"],
     ["ErrorDistribution sample/to_ptm/from_ptm/scale/mixture/order/to_dict", "LogicalErrorDistribution", "NoiseModel scale and storage"],
     "samples drawn, rates and matrices returned")

prop("Q13", "Noise is inserted after each noisy gate and logical errors amount to it",
     "Compiling noise into a circuit puts after every gate with a noise model the error drawn for it, on that gate's qubits, and keeps everything else of the circuit, implicit wire swaps, bits and measurements included. Propagating noise through a Clifford circuit returns the one Pauli error which, before (backward) or after (forward) the noiseless circuit, has exactly the effect of the drawn errors inside it; counting repeats this for the number of instances asked, leaves out instances without error, and gives probabilities over all instances. The circuit given is not changed.",
     ["input", "schedule"], "all Clifford gate sequences, error models and draws within the bounds, compared in an arbitrary state",
     "Noise is random, so tests only see statistics; an error pulled through the wrong side of a gate changes few of them.",
     ["qermit/noise_model/noise_model.py", "qermit/noise_model/pauli_error_transpile.py"],
     ["random_propagate, counter_propagate, get_effective_pre_error_distribution", "PauliErrorTranspile"],
     "noisy circuits and logical errors returned")

prop("Q14", "Simulation by transpiling takes every shot from its own transpiled circuit",
     "The transpiler backend takes exactly the requested shots of every circuit: each shot is one run of its own copy of the circuit, freshly transpiled from the circuit given and rebased for the simulator, in batches no larger than the maximum, with one core or several. Counts are those of these shots, bit by bit in the order asked for; every handle gives the result of its own circuit, in any order and repeatedly; circuits given are not changed.",
     ["input", "schedule"], "all numbers of shots, batch sizes, outcomes, bit orders and retrieval orders within the bounds, eager or lazy workers",
     "Boundaries of batches, and reuse of one transpiled circuit for many shots, do not show in statistics of a few runs.",
     ["qermit/noise_model/transpiler_backend.py"],
     ["Batching", "Transpilation per shot", "Collation of counts", "Handles"],
     "circuits handed to the simulator, counts and results returned")

prop("Q15", "Frame randomisation spreads shots over equivalent circuits and adds them up",
     "Frame randomisation runs, for every circuit of a batch, exactly the number of randomised circuits asked for, each with the same unitary as the circuit and measuring the same qubits into the same bits, and each with the requested shots divided by that number, rounded up. The result returned for a circuit, in request order, holds exactly the counts of its own randomised circuits added up, bit by bit, whatever order their results list the bits in; a method given by the user still works as before.",
     ["input"], "all shots, numbers of samples, frames drawn, gate angles, counts and bit orders within the bounds",
     "Frames of other circuits, lost remainders or swapped bits change statistics only slightly on the symmetric circuits tests use.",
     ["qermit/frame_randomisation/frame_randomisation.py"],
     ["Generation of randomised circuits and shots", "Collation of counts"],
     "circuits and shots handed to the backend, counts returned")

prop("Q16", "Clifford data regression corrects each string with its own training data",
     "When the exact values of training circuits are a polynomial (of the model's degree) of their noisy values, Clifford data regression returns, for every string of every experiment of a batch and however often it is run, exactly that polynomial at the experiment's noisy value; other data is fitted by least squares. Strings without training data are left as they are. Noisy and exact results of the same training circuit are paired, pairs are kept as the likelihood function accepts them, the quality check alters nothing and warns exactly when too many training circuits are far away, and mismatched results are refused.",
     ["input"], "all coefficients, noisy and exact values, draws, and batches within the bounds",
     "Pairing errors between experiments, strings or training circuits cancel when tests use one experiment and one string.",
     ["qermit/clifford_noise_characterisation/cdr_post.py", "qermit/clifford_noise_characterisation/ccl.py"],
     ["_PolyCDRCorrect", "Calibration, correction and quality check tasks", "Batching and likelihood filtering of training results", "gen_CDR_MitEx"],
     "the operators returned by the CDR MitEx and its tasks, warnings")

prop("Q17", "CDR training circuits are near-Clifford copies of the circuit",
     "Every training circuit of Clifford data regression has the gates, qubits, bits, measurements and implicit wire swaps of the experiment's circuit with its parameters substituted; only non-Clifford rotations differ, each either keeping its angle or becoming a Clifford rotation, with exactly as many kept as asked for, or all but one. As many as asked for are run, the same ones in the same order on the device and on the simulator, with the experiment's shots, strings and coefficients, sharing nothing; sets whose exact values are all close are generated anew up to the number of attempts, then a warning is given. The experiment is unchanged.",
     ["input"], "all random draws for the circuits within the bounds, all simulated values, coefficients and shots",
     "Draws are random: a choice that loses a gate or keeps one rotation too few is seldom visible in expectation values.",
     ["qermit/clifford_noise_characterisation/ccl.py"],
     ["gen_state_circuits, sample_weighted_clifford_angle", "ccl_state_task_gen"],
     "circuits, shots and observables of the training experiments")

prop("Q18", "DFSC divides every string by the factor characterised for it",
     "For every string of every experiment, DFSC runs the experiment's circuit at Clifford angles, with the experiment's shots, from a product state that makes the string's noise-free value +1 or -1 (implicit wire swaps and qubit names included), measures that string, and divides the experiment's value by the magnitude obtained for it, unless that is within the threshold, where the value is left as it is. If noise shrinks each string by a factor of its own, the result is exactly the noise-free value for every string. Results and characterisations of different number are refused; experiments are unchanged.",
     ["input"], "all factors and values; circuits, strings and batches within the bounds",
     "Noiseless tests have factor one everywhere, so characterisations of other strings or experiments would not show.",
     ["qermit/clifford_noise_characterisation/dfsc.py"],
     ["preparation_circuit_for_partition, get_clifford_mcs", "Circuit, collation, characterisation and correction tasks", "gen_DFSC_MitEx"],
     "characterisation circuits, operators returned")

prop("Q20", "Spectral filtering reads the filtered landscape at the experiment's own values",
     "For every experiment of a batch, spectral filtering runs the experiment's circuit, with its own shots and strings, once at every point of the grid of symbol values (n equally spaced values from 0 to 2-2/n for each symbol) and no other, each run with the values of its point. The value returned for each string is its coefficient times the results at these points, without the Fourier components the filter given removes (by default those smaller than its threshold), interpolated linearly in each symbol between the neighbouring points. Symbol values outside the grid's range are refused, and experiments and arrays given are not changed.",
     ["input"], "all results, coefficients, shots and symbol values; numbers of symbols, values and experiments within the bounds",
     "Grids mixed up between points, strings, symbols or experiments give smooth landscapes as well; tests use one experiment with one symbol.",
     ["qermit/spectral_filtering/spectral_filtering.py", "qermit/spectral_filtering/signal_filter.py"],
     ["Grid of symbol values and experiments", "Flattening, reshaping", "Fourier transform, filter, inverse, interpolation", "gen_spectral_filtering_MitEx"],
     "circuits and shots run, operators returned")

prop("Q21", "Pauli checks keep the circuit and detect exactly the anticommuting errors",
     "Boxing Clifford gates keeps the circuit's operation, measurements, conditions and wire permutation for all angles, with every Clifford gate in a box and boxes of Clifford gates only; the sub-DAGs boxed can be put in an order and no two of them could be merged. Adding checks to a circuit with boxes leaves its action as it was, adds one ancilla and bit per check, and a Pauli error within a box makes exactly those checks measure one that anticommute with it. Random checks are never the identity and as many as asked for; optimal checks miss errors of the least probability possible. The method returns, for every circuit of a batch and over its own bits, exactly the shots whose checks are all zero.",
     ["input"], "all angles, temporal orders of graphs, checks and errors, draws, error probabilities, counts, bit orders",
     "Boxes that depend on each other, barriers, conditions, wire swaps or several checks in a box only break particular circuits; tests use a few.",
     ["qermit/coherent_pauli_checks/box_clifford_subcircuits.py", "qermit/coherent_pauli_checks/monochromatic_convex_subdag.py", "qermit/coherent_pauli_checks/pauli_sampler.py", "qermit/coherent_pauli_checks/coherent_pauli_checks_mitres.py"],
     ["Circuit to graph, merging of sub-DAGs, boxing", "add_pauli_checks_to_circbox", "Samplers", "gen_coherent_pauli_check_mitres"],
     "circuits returned and run, counts returned")

prop("Q22", "Leakage detection keeps exactly the shots in which no measured qubit leaked",
     "Every circuit of a batch is run with its own shots, with a leakage gadget for its measured qubits added to it and its own operations and bits kept. The result for each circuit, over exactly its own bits, holds every shot in which none of its measured qubits leaked with its outcome unchanged, and no other; repeatedly, for any numbers of spare qubits, and leaving the circuits given unchanged. The mock device used with it runs each circuit with its own shots and returns for every handle the results of its own circuit.",
     ["input"], "all counts of leaked qubits and outcomes, shots, retrieval orders",
     "Circuits of different sizes in a batch, unused bits or qubits, and devices without spare qubits do not occur in the tests.",
     ["qermit/leakage_detection/leakage_detection.py", "qermit/noise_model/mock_quantinuum_backend.py", "qermit/postselection/postselect_mitres.py"],
     ["Gadget circuits and post-selection managers", "Pairing of managers and results", "Mock device's handles"],
     "circuits and shots run, counts returned")

prop("Q02", "Methods leave what they are given as it was and do not depend on it later",
     "Building a method around graphs, circuits or observables of the user's, and running it, leaves these as they were: graphs keep their tasks, wires, labels, characterisation, jobs and results; circuits, shots, parameters and observables of the experiments are the same (universal frame randomisation rebases circuits in place). Whatever is done to a graph after a method was built around it (tasks added at either end, flattened, further methods built around it or the method grown), the method runs the same jobs and gives the same results as if nothing had been done, repeatedly and whatever characterisation is given to other runs.",
     ["history", "input"], "all histories of build, change and run steps within the bounds, options of all methods, shots and coefficients",
     "Tests build each method once, around fresh graphs, and run it once; sharing only shows in what happens later.",
     ["qermit/taskgraph/task_graph.py", "qermit/taskgraph/mitex.py", "qermit/spam/spam_mitres.py", "qermit/clifford_noise_characterisation/ccl.py", "qermit/clifford_noise_characterisation/dfsc.py", "qermit/zero_noise_extrapolation/zne.py", "qermit/probabilistic_error_cancellation/pec_learning_based.py", "qermit/spectral_filtering/spectral_filtering.py", "qermit/frame_randomisation/frame_randomisation.py", "qermit/postselection/postselect_mitres.py", "qermit/leakage_detection/leakage_detection.py", "qermit/taskgraph/measurement_reduction.py"],
     ["Copies of graphs, tasks and experiments in the gen_* functions", "TaskGraph copying"],
     "graphs given, jobs run, results returned", state=["the internal multigraph of the graph given", "characterisation of graphs and tasks"])
prop("Q23", "Random Clifford circuits are uniform over all Clifford operators",
     "random_clifford_circ(n) returns a circuit on n qubits which implements every n-qubit Clifford operator (up to global phase) with exactly the same probability, for every n: choices of layers and of gates in them that differ give different operators, each with the weight of one operator, and the Pauli gates drawn change signs only, each choice differently. A seed given is set once before anything is drawn; without one no random generator is seeded. A Hadamard-free circuit has, in order, the CX layer of its lower triangular delta, the CZ and S layers of its gamma, and its Pauli gates.",
     ["input"], "all draws of the random generator, 1-3 qubits (weights: 4 in the thorough tier)",
     "No number of samples tells a distribution over 24, 11520 or 92897280 operators from one that misses some; the existing tests draw a few circuits.",
     ["qermit/probabilistic_error_cancellation/cliff_circuit_gen.py"],
     ["sample_q_mallows", "find_random_gamma_delta", "clifford_canonical_F", "random_clifford_circ"],
     "circuits returned, as stabiliser tableaux", technique="symbolic execution with guarded gates: draws are solver variables, the tableau is a formula over them, and z3 decides that no two draws give one operator; weights by optimisation over path conditions")
prop("Q24", "Simulated devices apply exactly the noise asked for",
     "The noisy simulator depolarises every single-qubit gate of its gate set on every qubit at the single-qubit rate, every CX on every ordered pair of qubits at the two-qubit rate, and flips the readout of every qubit, either value, at the readout rate, and nothing else. The mock device runs every circuit as gates from that set only, so that each gate is noisy, with the outcomes distributed as those of the circuit given were there no noise, with its own shots; circuits which the device can not run are refused unless the check is turned off.",
     ["input"], "all rates, shots and numbers of qubits within the bounds; circuits of the mock device's gates",
     "Noise shows in statistics only: a pair of qubits or a direction without noise is not seen by any test.",
     ["qermit/noise_model/noisy_aer_backend.py", "qermit/noise_model/mock_quantinuum_backend.py"],
     ["NoisyAerBackend.depolarizing_noise_model", "MockQuantinuumBackend.process_circuit(s)"],
     "the noise model given to the simulator; circuits and shots it is given")
prop("Q25", "A task graph lists and draws all its tasks and wires",
     "However a task graph was composed, its list of tasks holds every task, as often as it was added, and nothing else; its drawing shows one box for each task, with the task's name and its numbers of inputs and outputs, and one line for each wire, between exactly the ports which data passes between when the graph is run, also if several tasks have one name. Names with any characters give drawings that can be rendered. Drawing does not change the graph.",
     ["input", "history"], "all compositions within the bounds, with equal and different names, nested graphs; data and functions of the tasks are arbitrary",
     "Tests only call the drawing function; which of the boxes and lines belong together is not looked at, and graphs whose tasks share names are not drawn.",
     ["qermit/taskgraph/graphviz.py", "qermit/taskgraph/task_graph.py"],
     ["_taskgraph_to_graphviz", "TaskGraph.tasks", "TaskGraph.get_task_graph"],
     "DOT source of drawings; TaskGraph.tasks; results of runs",
     technique="bounded symbolic execution: the drawing is read back and evaluated with uninterpreted functions, z3 decides that it computes what the graph returns")
