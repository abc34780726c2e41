# ---------------------------------------------------------------- stabiliser engine
prop("P01", "Every Clifford gate acts on a stabiliser state exactly as quantum mechanics says",
     "Applying X, Y, Z, H, S, CX or CZ (on one qubit, a list or other collection of qubits, or pairwise on lists of qubit pairs) to any "
     "valid tableau, by function or through the quantum state object, yields a valid tableau in which every stabiliser "
     "and destabiliser row, sign included, is the old row conjugated by that unitary, and leaves all other qubits alone. "
     "Hence every sequence of gates tracks the true state, including its signs. Qubits that the state does not have are refused.",
     ["inputs", "histories"], "for every reachable tableau, every gate, every qubit or ordered list of qubits",
     "Tests apply a few gates to a few hand-written tableaux; the sign rules only misbehave for particular Paulis on particular qubits, so all (tableau, gate, target) transitions must be visited.",
     ["pauli.py", "device/__init__.py"],
     [("gate update rules and their sign corrections", "pauli.py: hadamard, phase_gate, control_not_gate, control_phase_gate, x, y, z"),
      ("state object wrapper", "device/__init__.py: QuantumState")],
     "explicit-state exploration of the tableau transition system, every transition executed on the real gate functions and compared with dense matrix conjugation",
     "model_checking",
     "All tableaux for 1 and 2 qubits, all stabiliser states for 3 qubits, all targets and ordered target lists; larger registers by locality (4-5 qubits, families). Trusts numpy and the 60-line dense reference.",
     [("tableau", "stabiliser and destabiliser rows with sign bit", "device/__init__.py: QuantumState.tableau")])

prop("P02", "Measurements and resets obey the projection postulate on every stabiliser state",
     "Measuring any signed Pauli operator returns each outcome with its Born-rule probability and leaves a valid tableau of "
     "the projected state; a deterministic outcome is never altered by randomness or by forcing, and a random one can be forced. "
     "Destructive X/Z measurement removes exactly the measured qubits and leaves the conditional state of the rest, and resetting "
     "qubits leaves them in the requested eigenstate while acting on the rest like measuring and discarding the result.",
     ["inputs", "histories"], "for every reachable tableau, every Pauli operator, every subset and order of target qubits, every resolution of the random outcome",
     "Tests sample random outcomes a few times on named states; a bias, a wrong sign in a deterministic outcome or a wrong residual state shows only for particular (state, operator, outcome) triples.",
     ["pauli.py", "device/__init__.py"],
     [("measurement update (commuting and anticommuting cases)", "pauli.py: measure"),
      ("destructive measurement / partial trace", "pauli.py: _measure_base, _ptrace"),
      ("reset by measure-and-correct", "pauli.py: reset_qubits_to_eigenstate")],
     "exhaustive enumeration of (state, operator, random outcome) with the random number generator replaced by a branching one; outcome distributions and post-states compared with dense projectors",
     "model_checking",
     "All operators with signs on all 1-2 qubit tableaux and 3-qubit stabiliser states, all target subsets/orders; sequences of three measurements on 4-5 qubit graph states. Resets are compared as channels.",
     [("tableau", "state before/after", "device/__init__.py: QuantumState.tableau")])

prop("P03", "Pauli operator arithmetic and conversions are exact",
     "Operators written as strings, index strings, dictionaries or binary rows convert into each other without changing the operator "
     "(including its sign and the identity), and malformed ones are rejected. Commutation, products of two operators (with their sign), "
     "tensor products, padding, embedding of single-qubit operators and counting of qubits agree with matrix algebra on every operator.",
     ["inputs"], "for every Pauli operator and every pair of Pauli operators up to the bound, in every accepted notation",
     "Tests use a handful of operators; sign errors depend on the particular pair of Paulis and on their positions.",
     ["pauli.py"],
     [("string and dictionary parsing/printing", "pauli.py: string_to_pauli, pauli_to_string, dict_to_pauli, pauli_to_dict"),
      ("products and commutation", "pauli.py: multiply, commutator_sign, tensor_product, _g")],
     "exhaustive enumeration of all Pauli operators and pairs up to 3-4 qubits in every notation, compared with dense matrix algebra",
     "exploration",
     "Complete for pairs up to 3 qubits; parser inputs: all strings over the relevant alphabet up to a length. Known finding: products of three or more operators (see KNOWN_FINDINGS.txt).")

prop("P04", "Constructing and composing states gives valid tableaux of the requested state",
     "Building a state from a list of stabiliser strings (with or without destabilisers) yields a valid tableau stabilised by exactly those operators, "
     "and inconsistent lists are rejected; inserting or appending qubits adds them in the zero state and leaves the others untouched; applying a Pauli operator to a "
     "state and printing a state and reading it back preserve the state exactly.",
     ["inputs", "histories"], "for every stabiliser group up to the bound, every choice of generators, every insertion position and every Pauli operator",
     "Tests build a few named states; validity of the computed destabilisers depends on the whole generator set.",
     ["pauli.py"],
     [("state construction and destabiliser completion", "pauli.py: string_to_state"),
      ("qubit insertion", "pauli.py: insert_qubit_at, append_qubit"),
      ("operator application", "pauli.py: apply_operator")],
     "exhaustive enumeration of all stabiliser states/generator sets up to 3 qubits executed on the real constructors, compared with dense projectors",
     "model_checking",
     "All states of 1-2 qubits with all generating sets, 3 qubits with one or several generating sets each, all insertion positions; rejects checked on all commuting/dependent combinations in the bound.")

# ---------------------------------------------------------------- circuits and devices
prop("P05", "Circuit text, builder calls and appended gates describe the same circuit",
     "A program written as text, through builder methods or by appending gates yields the same gate list; printing and re-reading a circuit reproduces it, whatever the "
     "spacing, blank lines and comments. The reported numbers of qubits, measurements and erasure points are those of the gate list, and malformed instructions are refused.",
     ["inputs", "histories"], "for every sequence of instructions up to the bound, over every instruction kind and every mix of the three interfaces",
     "Tests parse a few programs; counting and formatting rules depend on the instruction, its argument order and its position.",
     ["circuit/__init__.py"],
     [("parser and printer", "circuit/__init__.py: Circuit.from_str, __str__"), ("builder", "circuit/__init__.py: CircuitBuilder"),
      ("register sizes", "circuit/__init__.py: Circuit.number_of_qubits")],
     "exhaustive enumeration of instruction sequences and of their construction interfaces on the real classes, compared with the written-out instruction list",
     "model_checking",
     "All sequences over an alphabet that covers every instruction, all splits over text/append/builder, a table of malformed lines.")

prop("P06", "Running a circuit on the Clifford backend follows the documented semantics",
     "For every circuit, every measurement record and erasure record is produced with the documented joint probability, in program order, and leaves the documented quantum state. "
     "This includes resets, Pauli, two-qubit and erasure channels, depolarisation, and conditional error blocks where a continuation happens exactly when its head happened and an alternative only when nothing before it in the block did.",
     ["inputs", "histories"], "for every circuit up to the bound and every resolution of every random choice",
     "Tests sample a few circuits; probabilities, record order and the conditional blocks need every random branch of every instruction sequence.",
     ["device/_circuitsim.py", "device/__init__.py"],
     [("instruction interpreter", "device/_circuitsim.py: CircuitSimulator"), ("random choices", "__init__.py: rng")],
     "stateless exploration of the real simulator with the random generator replaced by a branching one: every circuit up to a length and every random outcome with its exact probability, against a dense channel reference",
     "model_checking",
     "All sequences of <=3 instructions after 4 preparations on 2 qubits, <=2 on 3 qubits, conditional blocks to length 5, selected longer circuits and circuits of up to 131 (thorough 260) qubits with few random choices; Trusts the dense reference (channels on <=4 qubits).",
     [("error block state", "whether the current error chain has happened", "device/_circuitsim.py: CircuitSimulator.in_error")])

prop("P07", "A device session returns exactly the record of the shots it ran",
     "Repeated runs, runs that keep the state, partial stepping, resets, growing the circuit and switching circuits return precisely the measurement and erasure results of the "
     "executed instructions, never stale, duplicated or missing ones, on either local backend and through a remote one. Runs are reproducible from the package's random generator, and reading before running is refused.",
     ["histories", "schedules"], "for every sequence of session calls up to the bound and every resolution of the random choices",
     "Tests call run once or twice; stale records and shot bookkeeping appear only in particular call sequences.",
     ["device/__init__.py", "device/_circuitsim.py", "device/_stimsim.py"],
     [("device session", "device/__init__.py: Device.run, get_sample, reset"), ("local stepping", "device/_circuitsim.py: CircuitSimulator"),
      ("shot batching", "device/_stimsim.py: StimSimulator")],
     "exhaustive enumeration of call sequences on the real devices (random choices branched), compared with a reference session semantics; stim shots compared with the batch stim itself draws",
     "model_checking",
     "All call sequences to depth 3-4 over 5 circuits, both backends; stim's internal sampling is trusted, its shots are identified by 100-coin circuits.",
     [("record", "measurement and erasure lists accumulated so far", "device/__init__.py: Device")])

prop("P08", "The stim backend means the same circuit as the documented semantics",
     "Every supported circuit executed through the stim backend gives measurement and erasure records with the same joint distribution, in the same order, as the documented semantics; "
     "unsupported constructs are refused rather than mistranslated.",
     ["inputs"], "for every supported circuit up to the bound and every noise event and measurement outcome of its translation",
     "Tests compare a few sampled circuits; a mistranslated probability or an exchanged record needs exact comparison over all noise events.",
     ["device/_stimsim.py"],
     [("translation", "device/_stimsim.py: circuit_to_stim"), ("record splitting", "device/_stimsim.py: StimSimulator.get_sample")],
     "every circuit up to a length is translated by the real code and the translation is executed exhaustively (all outcomes and noise events); the exact distribution is compared with the reference, and real shots are checked for membership",
     "model_checking",
     "<=3 instructions on 2 qubits (quick: a fixed half), <=2-3 on 3 qubits, all 15 two-qubit error arguments, circuits of up to 131 qubits with few random choices. Trusts stim's own sampler and the dense reference.")

prop("P09", "An exported OpenQASM program computes the same results as the circuit",
     "Exporting a noise-free circuit gives a valid OpenQASM 2 program whose classical register holds, in program order, the circuit's measurement results with the same joint distribution and the same final state; "
     "noisy instructions are refused.",
     ["inputs"], "for every circuit up to the bound and all measurement outcomes",
     "Tests compare a few fixed texts; whether text means the same circuit needs executing it over all outcomes.",
     ["circuit/openqasm.py"],
     [("export", "circuit/openqasm.py: convert_to_openqasm")],
     "every circuit up to a length is exported, parsed with Qiskit's importer and executed over all outcomes; joint distribution and final states compared with the reference",
     "model_checking",
     "<=3 instructions (thorough 4) on 2-3 qubits. Known finding: reset is not exported; circuits with reset are judged modulo that finding only.")

# ---------------------------------------------------------------- codes
prop("P10", "Predefined and user-defined codes are valid codes with the promised parameters",
     "Every predefined code of every size has commuting generators of the stated number and rank, logical operators that commute with them and pair up as logical X and Z, and the promised distance; "
     "its lattice describes exactly the same operators, every accepted measurement order is free of conflicts, and with the default one no ancilla fault, although it spreads to several data qubits, lowers the distance. "
     "The validity check accepts exactly the valid codes, codes rebuilt from their operators are equal, different ones are not, and queries about operators and positions answer exactly.",
     ["inputs"], "for every code family and size up to the bound, every error below the distance, every edge order, and every replacement of one or two operators of sample codes",
     "Tests look at one or two sizes; a wrong boundary, index or schedule shows only at particular sizes or positions, and distance is a statement about all errors.",
     ["codes/__init__.py", "codes/latticebase.py", "codes/latticeinstances.py"],
     [("lattice construction", "codes/latticeinstances.py"), ("validity check", "codes/__init__.py: StabilizerCode.check"),
      ("lattice from operators", "codes/latticebase.py: CodeLattice.from_operators"), ("logical operator selection", "codes/__init__.py: logical_ops_to_indices")],
     "exhaustive enumeration of families, sizes, edge orders, all errors below the distance and all operator replacements, executed on the real constructors and compared with symplectic algebra on integers",
     "model_checking",
     "Sizes up to 6 (repetition 9, toric 4; thorough: 8/15/6); rotated edge orders are judged only if the two middle steps are opposite, as the default order.")

prop("P11", "Removing faulty qubits leaves a valid code that still holds the logical qubit",
     "Declaring any set of data qubits, stabilisers or gates faulty yields a valid code on exactly the remaining qubits: generators that lose commutation are merged or dropped, the others are restricted, and each logical operator is the old one up to generators. "
     "The removal is refused only if a logical operator cannot be moved off the faulty qubit, refused requests change nothing, and circuits generated for the edited code measure its operators.",
     ["inputs", "histories"], "for every set of faulty elements up to the bound, in one call or in any order of calls",
     "Tests remove one or two hand-picked qubits; which generators merge depends on the combination and on the order.",
     ["codes/__init__.py", "codes/latticebase.py", "circuit/generator.py"],
     [("fabrication errors", "codes/__init__.py: LatticeCode.apply_fabrication_errors"),
      ("lattice editing", "codes/latticebase.py: create_superstab, multiply_logical_with_stab, remove_data, remove_stabilizer")],
     "exhaustive exploration of removal histories (all sets to size 2-4, all orders of two) on the real code, compared with a reference edit and with symplectic algebra; the generated circuits are decided by exact parity analysis",
     "model_checking",
     "Planar (and rotated/toric) codes of size 2-4 (thorough 5), sets of up to 3-4 qubits. Removals that leave no generator or an identity generator are not judged.",
     [("lattice", "vertices, edges and indices while qubits are removed", "codes/latticebase.py: CodeLattice")])

# ---------------------------------------------------------------- experiments
prop("P12", "The generated circuit is exactly the error-correction experiment asked for",
     "For every code, number of rounds, choice of measured logical operators and of an ancilla, and every error configuration, the generated circuit measures each generator once per round, in order, and the logical operators at the end: "
     "without errors all syndrome bits and logical toggles are zero, and every configured error appears as a noise event with its probability at its place and nothing else does. An erasure of probability zero is still reported. The same holds after faulty qubits were removed. "
     "Generating again gives the same circuit, leaves the given data alone, and impossible requests are refused.",
     ["inputs", "histories"], "for every code and size in the bound, every choice of logical operators, every single error entry and combination of kinds, and all measurement outcomes",
     "Tests compare a few generated texts; whether each entry of the error data has exactly its effect must be decided per location and for all measurement outcomes.",
     ["circuit/generator.py", "codes/__init__.py"],
     [("circuit generation", "circuit/generator.py: QECCircuitGenerator, generate_qec_circuit")],
     "every configuration in the bound is generated by the real code; determinism of all parities is decided over all outcomes, and the effect of every noise event is propagated exhaustively and compared with a reference experiment and the code's algebra",
     "model_checking",
     "Codes of distance 2-3 (thorough 5), 1-3 (5) rounds, every single error entry; parities decided by stim's symbolic detector analysis. Two-qubit measurement of one qubit in two bases is not judged.",
     [("circuit", "instructions emitted so far", "circuit/generator.py: QECCircuitGenerator")])

prop("P13", "Every fault shows up as exactly the syndrome, toggles and erasures it causes",
     "Running an error-correction circuit in which given faults happen and splitting its record yields syndrome bits, logical toggles and erasure flags, which are exactly the set of those changed by these faults according to the code's algebra, per shot, per round and on both local backends. "
     "Splitting any raw record attributes each result to the right round and generator, and erasures to the right qubit and round.",
     ["inputs", "fault_sequences", "schedules"], "for every single fault (and pairs in small codes) at every location, every unit record, every random outcome in the smallest codes",
     "Tests run without errors or look at sampled averages; a record attributed to a neighbour or to the next round shows only for particular fault locations.",
     ["device/__init__.py", "circuit/generator.py", "device/_circuitsim.py", "device/_stimsim.py"],
     [("splitting of results", "device/__init__.py: MeasurementSample.from_code_and_raw_results"), ("running", "device/__init__.py: Device.run, get_sample")],
     "exhaustive fault injection: every fault location and kind (and pairs) is executed on the real devices, and each result compared with Pauli propagation and with the code's algebra; the splitting is a linear map decided on all unit vectors plus all-combination shots",
     "model_checking",
     "Codes up to distance 3 (toric 2-3), 1-3 rounds; clifford backend on one of the four quarter combinations for larger codes in quick. All outcomes of random measurements only for the smallest codes.")

# ---------------------------------------------------------------- decoding
prop("P14", "The decoding graph says exactly which error flips which syndrome bits",
     "For every code, number of rounds and weights, the decoding graph has one vertex per syndrome bit and one edge per elementary error, joining exactly the bits that this error flips, with its weight; of errors with equal effect the most likely one is used and impossible ones are not. "
     "Connected parts, syndromes, erasures and results pass between the whole and its parts unchanged, and the operator of a set of edges is the product of its errors. Inconsistent weights are refused.",
     ["inputs"], "for every code of two qubits with up to three generators, every code family and size in the bound, every assignment of weights from a set incl. ties and infinities",
     "Tests look at one planar code; duplicates, ties, infinite weights and disconnected parts need all weight patterns.",
     ["syngraph/__init__.py"],
     [("graph construction", "syngraph/__init__.py: SyndromeGraph"), ("disabling of parallel and impossible edges", "syngraph/__init__.py: SyndromeGraph._check_edges_infweight"),
      ("components", "syngraph/__init__.py: SyndromeGraph.set_syndrome, set_erasure, get_correction")],
     "exhaustive enumeration of small graphs with all weight patterns and of the families, executed on the real graph and compared with a reference built from symplectic algebra",
     "model_checking",
     "Families to distance 5 (thorough 7), up to 3 (5) rounds. An erasure of an error whose equal twin is used instead may be dropped or moved to the twin.")

prop("P15", "Decoders weigh every error by the probability it was given",
     "A decoder built for a code, a number of rounds and error data gives every elementary error the weight that its total probability implies, whichever kinds of error data are given, missing or zero, and explicit weights are used as they are. "
     "Unweighted decoders treat all errors alike. Probabilities and combinations that cannot be used are refused, and building a decoder leaves the given data unchanged.",
     ["inputs"], "for every assignment of error entries from a grid to the qubits of small codes, every entry on every qubit of larger codes, and all combinations of kinds and flags, for every decoder",
     "Tests check a few weights of one code; a probability attributed to the neighbour or to the other kind of error shows only with distinct entries at every place.",
     ["decoders/decoderbase.py", "decoders/__init__.py", "syngraph/weights.py", "syngraph/__init__.py"],
     [("weights from error data", "syngraph/weights.py"), ("construction of decoders", "decoders/decoderbase.py: DecoderInterface.from_code")],
     "exhaustive enumeration of error data on the real decoder constructors, with the weight of every edge read back and compared with the log-likelihood of the algebraically matching errors",
     "model_checking",
     "Codes of distance 2-3 (thorough to 5), all assignments of 15 entries to the qubits of the smallest codes; two rounds. Erasures do not enter weights.")

prop("P16", "Every decoder returns a correction that explains the syndrome",
     "For every syndrome that some error (within the given erasure and error model) can cause, each decoder returns a correction with exactly that syndrome, in the documented form and with each error at most once, whatever the weights. "
     "Questions without an answer or of the wrong size are refused rather than answered wrongly.",
     ["inputs"], "for every decoding graph of up to four vertices, every code family in the bound, every syndrome, erasure, decoder and weight pattern",
     "Tests decode a few syndromes of one or two codes; growth and peeling fail only for particular graphs, boundaries and clusters.",
     ["decoders/unionfind_decoder.py", "decoders/unionfind_erasure.py", "decoders/fusionblossom.py", "decoders/matching.py", "decoders/interfaces.py", "decoders/decoderbase.py", "syngraph/__init__.py"],
     [("union find", "decoders/unionfind_decoder.py"), ("matching interfaces", "decoders/interfaces.py")],
     "exhaustive enumeration of decoding graphs, syndromes and erasures executed on the real decoders, judged by linear algebra over GF(2)",
     "model_checking",
     "All graphs on up to four vertices incl. dangling edges (thorough five), families to distance 3, up to 3 rounds. The matching libraries themselves are trusted.")

prop("P17", "Decoders undo every error lighter than half the distance",
     "The matching decoders return a most likely explanation of every syndrome, and every decoder undoes, up to stabilisers, all combinations of e errors and s known erasures with 2e + s below the distance of the code, also over several rounds. "
     "With weights, errors lighter than half of the lightest undetectable non-trivial error are undone.",
     ["inputs", "fault_sequences"], "for every syndrome of small systems, every weight pattern from a set, and every error and erasure set within half the distance of larger codes",
     "Tests sample error rates; a decoder that returns a valid but not a good correction passes them and lowers the effective distance only for particular error patterns.",
     ["decoders/unionfind_decoder.py", "decoders/unionfind_erasure.py", "decoders/fusionblossom.py", "decoders/matching.py", "decoders/interfaces.py", "syngraph/__init__.py", "syngraph/weights.py"],
     [("union find growth and peeling", "decoders/unionfind_decoder.py"), ("matching interfaces", "decoders/interfaces.py")],
     "exhaustive decoding of all syndromes compared with dynamic programming over all error sets, and of all error/erasure sets within half the distance",
     "model_checking",
     "Families to distance 3-5 (thorough 7), up to 3 rounds; union find with weights on dyadic patterns. fusion-blossom is allowed its documented integer weight resolution of 1%.")

prop("P18", "A decoder's answer does not depend on what it was asked before",
     "The correction returned for a syndrome and erasure is the one a freshly built decoder returns, whatever questions were asked before, including refused ones, and whatever the caller does to the arrays it passed or received. "
     "Two decoders built for the same code do not influence each other. "
     "A decoder whose graph manager announces new weights or a new graph answers from then on like a new decoder with these.",
     ["histories"], "for every ordered pair or triple of questions in direct succession on the same decoder, and for every interleaving of two decoders of small codes",
     "Tests build a decoder, ask once or twice and stop; leftovers of an earlier question matter only for particular successions.",
     ["decoders/unionfind_decoder.py", "decoders/unionfind_erasure.py", "decoders/fusionblossom.py", "decoders/matching.py", "decoders/interfaces.py", "decoders/decoderbase.py", "syngraph/__init__.py"],
     [("decoding", "decoders/decoderbase.py: DecoderInterface.decode"), ("reset of cluster and solver state", "decoders/unionfind_decoder.py, decoders/interfaces.py"),
      ("selected syndrome and erasure", "syngraph/__init__.py: SyndromeGraphManager")],
     "exhaustive exploration of question histories (sequences containing every pair/triple of questions) on the real decoder objects, compared with unused ones",
     "model_checking",
     "All pairs (triples in the smallest systems) of questions for codes of distance 2-3, all decoders; all sequences of two (thorough three) changes of weights or graph. Ties must be broken alike after any history.",
     [("clusters", "union-find forest between questions", "decoders/unionfind_decoder.py"), ("solver", "library state between questions", "decoders/interfaces.py")])

prop("P19", "An experiment with fewer faults than half the distance succeeds",
     "When any set of data-qubit errors, erasures and measurement errors with 2e + s below the distance happens between the rounds of a generated experiment, then running it, splitting the results, decoding and judging gives success, for every code, logical operator, backend and decoder. "
     "With more faults the verdict is the one the code's algebra gives for the actual faults and the returned correction: success exactly if their product flips none of the measured logical operators.",
     ["inputs", "fault_sequences"], "for every fault set below half the distance (and all larger ones of small systems), every decoder, both backends, with and without ancilla, both logical operators",
     "Tests compare sampled logical error rates of one code; a convention mismatch between two parts cancels in some configurations and shows only in others.",
     ["decoders/decoderbase.py", "device/__init__.py", "circuit/generator.py", "codes/__init__.py", "syngraph/__init__.py"],
     [("verdict", "decoders/decoderbase.py: check_success"), ("pipeline", "circuit/generator.py: generate_qec_circuit; device/__init__.py: Device; decoders/__init__.py")],
     "exhaustive fault injection through the whole real pipeline, with the verdict compared with Pauli algebra; every correction and toggle pattern of small codes judged directly",
     "model_checking",
     "Codes to distance 5, 1-3 rounds, one to two faults (three for repetition in thorough). Faults inside the measurement circuits are not promised to be corrected and not judged.")

# ---------------------------------------------------------------- error data and configuration
prop("P20", "Error tables, error files and error dictionaries say the same thing",
     "After any sequence of adding, updating, overwriting, loading, enabling and saving, the dictionaries that generators and decoders get contain exactly the errors that were given, each at its qubits, gate and channel with its probability, whatever the order of rows and columns; missing values and disabled errors contribute nothing. "
     "Saving to files and loading back changes nothing, and given tables are left alone. "
     "Error data that names unknown errors, channels, or qubits that a code does not have in that place is refused by the check against the code, and all other error data passes.",
     ["inputs", "histories"], "for every sequence of table operations up to the depth, every small gate error file and every single invalid entry",
     "Tests perform one or two operations on one table; a value that lands at the neighbouring qubit, or is lost by a later update, needs particular successions and layouts.",
     ["errors/__init__.py"],
     [("tables and dictionaries", "errors/__init__.py: ErrorData.update, update_from_csv, qubit_errors_dict, gate_errors_dict"), ("check against a code", "errors/__init__.py: check_against_code")],
     "exhaustive exploration of operation sequences on the real error tables side by side with a dictionary model, compared after every step; all mutations of valid error dictionaries",
     "model_checking",
     "Depth two over all 27 operations and 4 starts (thorough: three). Of several rows for one gate and qubit the last one counts, as documented.",
     [("tables", "qubit and gate error tables and sets of enabled errors between operations", "errors/__init__.py: ErrorData")])

prop("P21", "An experiment configuration builds exactly the experiment it describes",
     "From dictionaries, TOML or JSON files, and after any sequence of updates and builds, building yields the code, the errors with their probabilities, the circuit, the device, the decoder with its weights and the random seed that the configuration names; a piece is available exactly once it was built, disabled or unsampled errors contribute nothing, and random error rates are probabilities drawn from the seeded generator only. "
     "Saving and loading back changes nothing, experiments do not share settings, and configurations that make no sense are refused at the latest when built. "
     "The same configuration builds the same experiment in every process.",
     ["inputs", "histories"], "for every combination of entries from a grid, every sequence of updates up to the depth and every single invalid entry",
     "Tests load a few complete files; defaults, disabled entries and their combinations, and what an earlier build leaves behind, are a product space.",
     ["frontend/__init__.py", "frontend/schemas.py", "errors/__init__.py"],
     [("configuration classes", "frontend/__init__.py: ExperimentConfig, ErrorsConfig, QubitErrorsConfig, GateErrorsConfig, CodeConfig, DecoderConfig, DeviceConfig"),
      ("errors from configurations", "errors/__init__.py: assimilate_qubit_errors, assimilate_gate_errors, generate_gaussian_errors")],
     "exhaustive enumeration of configurations and of update/build/save histories on the real classes, with everything built compared with a description computed from the configuration alone",
     "model_checking",
     "Seven kinds of entry for each of the five qubit and five gate errors (quick: half of the products), update sequences of length 2 (thorough 3) over 24 operations. The shape of the gaussian distribution is not judged.",
     [("experiment", "configuration objects and built parts between updates", "frontend/__init__.py: ExperimentConfig")])

prop("P22", "The logical error rate is the fraction of shots whose errors are not corrected",
     "Running a built experiment takes exactly the configured number of independent shots of its circuit on its device, and returns the fraction of them in which the decoder's correction does not undo the effect of the errors on the logical operators. "
     "The same configuration and seed give the same rate in every process and after building again.",
     ["inputs", "schedules"], "for every answer of the random number generator in small experiments, every combination of up to three errors that surely happen, both devices and all decoders",
     "Tests only check that an experiment can be built; sampled rates cannot tell a wrong rate from chance.",
     ["frontend/__init__.py", "device/__init__.py", "decoders/decoderbase.py", "errors/__init__.py"],
     [("running an experiment", "frontend/__init__.py: ExperimentConfig.run, ExperimentConfig.build"), ("splitting and verdict", "device/__init__.py: MeasurementSample; decoders/decoderbase.py: check_success")],
     "exhaustive exploration of all random choices of the real experiment (clifford device), the exact distribution of the rate compared with the one computed from the circuit's noise and the code's algebra; enumeration of error patterns of probability one on both devices",
     "model_checking",
     "Exact distributions for codes of 3-5 (thorough 7) qubits, 1-3 rounds and 1-4 shots; single, double and some triple errors of probability one for codes to distance 3. Decoder answers are taken as given (P16-P18).")

prop("P23", "Drawings show exactly the code, the data and the circuit they were given",
     "A drawing of a code shows every data qubit, stabiliser generator and logical operator once, at its place and with its indices, and lines from each operator to exactly the data qubits it acts on, with the right Pauli factor. "
     "Given a syndrome, exactly the generators with syndrome bit one are highlighted; given an error or correction, exactly the qubits with an X (Z) component are marked so; given error probabilities, each qubit shows its own. "
     "Options hide or colour only what they say; drawing, also a refused one, changes neither the arguments nor any other drawing. "
     "A drawn circuit has exactly the circuit's instructions, in order; circuits that cannot be drawn are refused.",
     ["inputs", "histories"], "for every syndrome and error of small codes with every choice of options, every small lattice, every history of drawings and every circuit up to the depth",
     "No test looks at a figure; whether the marked qubit is the faulty one depends on code, numbering, syndrome and options together.",
     ["visualizer/__init__.py", "circuit/openqasm.py"],
     [("figures of lattices", "visualizer/__init__.py: LatticeVisualizer._mk_df, _mk_pauliframe_df, draw_lattice, draw_latticedata, draw_lattice_mpl"), ("figures of circuits", "visualizer/__init__.py: CircuitVisualizer")],
     "exhaustive enumeration of lattices, syndromes, errors, options and drawing histories on the real visualizer, each figure read back and compared with the lattice and the arguments",
     "model_checking",
     "All syndromes with all 24 option sets and all 4^n errors for codes to 5 qubits, single and double errors beyond; histories of 3 (thorough 4) drawings over 11 calls. Rendering by Plotly, Matplotlib and Qiskit is trusted.",
     [("colours", "styles swapped while a grey figure is made", "visualizer/__init__.py: LatticeVisualizer")])
