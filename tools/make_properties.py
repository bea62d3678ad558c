#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here so that they are readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

DPC = "src/patches/dense_patch_computation.cpp"
prop("C01", "Routes are legal, complete and shortest for every search strategy",
 "A route returned between two patches for a pair of X/Z operators is a simple chain of unoccupied, edge-adjacent tiles that leaves the source and enters the target through boundaries exposing the requested operators (rough for X, smooth for Z), with exactly the joining sides marked as joined; the same holds for the loop from a patch back to itself. A route is returned if and only if such a chain exists, and no legal chain uses fewer tiles. This holds identically for Dijkstra, A*, Boost and the caching router on an unchanged lattice.",
 ["inputs", "configurations"],
 "Every lattice shape, occupancy, pair of patch positions (including the same patch), patch orientations, operator pair and search strategy.",
 "No listed test calls a router at all; the regression specs exercise a handful of fixed layouts with the default strategy.",
 ["src/layout/graph_search/custom_graph_search.cpp", "src/layout/graph_search/boost_based_graph_search.cpp", "src/layout/router.cpp", "src/patches/dense_slice.cpp"],
 [("edge predicate of the lattice graph", "SliceSearchAdaptor::have_directed_edge"), ("priority-queue search and back-tracking", "do_graph_search_route_ancilla"), ("Boost edge list", "boost_graph_search::graph_search_route_ancilla"), ("route cache", "CachedRouter::find_routing_ancilla")],
 ["Router::find_routing_ancilla"])

prop("C02", "Each instruction takes effect exactly once, in program order per patch",
 "In every pipeline (stream, wave and dag) a program that can be completed is completed: every instruction takes effect exactly once, none is dropped, repeated or invented, and the run ends only when all have finished. Two instructions that share a patch (or a declared client) take effect in program order, and an instruction that follows a multi-slice operation on a patch waits for it to finish. Instructions on disjoint patches never prevent one another from eventually completing.",
 ["programs", "schedules", "configurations"],
 "Every instruction program over the supported instruction set, every layout, pipeline and legal delay caused by lattice congestion or magic-state shortage.",
 "The dag unit tests check the container on three-node graphs; no test runs a pipeline, so nothing checks order or completeness of the emitted schedule.",
 [DPC, "src/scheduler/wave_scheduler.cpp", "include/lsqecc/scheduler/wave_scheduler.hpp", "include/lsqecc/dag/dependency_dag.hpp", "src/dag/domain_dags.cpp"],
 [("per-patch last-instruction chains and dependency counts", "WaveScheduler::WaveScheduler, schedule_dependent_instructions"), ("retry queue", "run_through_dense_slices_streamed"), ("dag heads", "run_through_dense_slices_dag")],
 ["run_through_dense_slices instruction and slice visitors"],
 state=[("dependency_counts_", "unfinished predecessors per instruction", "WaveScheduler")])

prop("C03", "Every emitted slice is physically justified by the instructions it realises",
 "In every emitted slice each occupied tile and each active boundary is accounted for by the layout, a live patch, a magic-state source or exactly one operation in progress, and each joint measurement applied in the slice appears as one connected chain of otherwise unused tiles linking exactly its two patches through boundaries of the requested operator types. No tile serves two operations and no patch is merged twice in the same slice, and a patch that is merged or rotating is not moved, rotated or transformed in that slice. Everything temporary is gone in the slice after the operation ends.",
 ["programs", "schedules", "configurations"],
 "Every program, layout (including crowded ones), pipeline, routing strategy and slice index.",
 "No test inspects a slice; the regression specs compare text output of about a dozen fixed programs.",
 [DPC, "src/patches/dense_slice.cpp", "src/patches/patches.cpp", "src/layout/router.cpp"],
 [("merging two patches", "merge_patches, stitch_boundaries, mark_routing_region"), ("clearing temporary state between slices", "advance_slice"), ("single occupancy", "DenseSlice::place_single_cell_sparse_patch")],
 ["slice visitor of run_through_dense_slices"])

prop("C04", "Logical patches persist and change place or orientation only as programmed",
 "From the moment a patch exists (declared, initialised, or bound to a magic or Y state) until it is measured, exactly one tile carries its identifier, on the same tile and with the same boundary orientation, except that a Hadamard swaps its rough and smooth sides at once and a rotation occupies the patch plus one free neighbouring tile for exactly three slices and then returns it to its tile with its sides swapped. Initialised patches appear on a free designated ancilla tile, or directly beside the requested boundary of the requested neighbour, in standard orientation. A measured patch disappears, freeing its tile, in the slice after its measurement and its identifier never reappears unless initialised again.",
 ["programs", "schedules", "configurations"],
 "Every program, layout, pipeline and slice index.",
 "No unit test runs the slicer; regression specs freeze text of a few programs and would not notice a wrong orientation in most.",
 [DPC, "src/patches/dense_slice.cpp", "src/patches/patches.cpp", "src/layout/layout.cpp"],
 [("rotation as a busy region", "single_patch_rotation_a_la_litinski, BusyRegion handling"), ("Hadamard", "CellBoundaries::instant_rotate"), ("ancilla placement", "place_ancilla_next_to, find_free_ancilla_location"), ("measurement clean-up", "advance_slice")],
 ["slice visitor of run_through_dense_slices"])

prop("C05", "Magic and Y states are produced on schedule and consumed at most once each",
 "Each distillation region delivers one magic state every distillation period (the k-th region's period being longer by k when staggering is on), on a free routing tile touching that region, or none if all such tiles are occupied at that moment; in layouts with reserved magic-state tiles each reserved tile holds a fresh state one period after the layout starts or after its previous state left the tile, and is never used for anything else. A magic-state request binds the available state nearest to the named patch, or waits; one state is never bound to two identifiers and an unbound state never disappears. Predistilled Y states are likewise bound to one identifier at a time, nearest first, and become available again when released.",
 ["programs", "schedules", "configurations"],
 "Every arrangement of distillation regions and reserved tiles, every distillation period and stagger option, every history of requests, uses and congestion.",
 "No test uses a distillation region; regression specs use one default layout and one period.",
 [DPC, "src/layout/ascii_layout_spec.cpp", "src/patches/dense_slice.cpp"],
 [("state production", "advance_slice"), ("binding", "MagicStateRequest and YStateRequest branches of try_apply_instruction_direct_followup"), ("periods and stagger", "LayoutFromSpec::init_cache")],
 ["slice visitor of run_through_dense_slices"],
 state=[("time_to_next_magic_state_by_distillation_region", "countdown per region", "DenseSlice"), ("magic_states", "tiles with an unbound state", "DenseSlice")])

prop("C06", "Local compilation realises long-range operations by neighbouring tiles only",
 "With local instructions enabled, a Bell-pair initialisation or Bell-based CNOT is replaced by operations that each act on edge-adjacent tiles along one route, arranged so that tiles are prepared before they are used and used by at most one operation per slice, and whose combined effect on the logical qubits is exactly the Bell pair between the two named ends, or the CNOT, up to Pauli corrections. When it finishes, every intermediate tile has been released, the control and target are where they were, and (for a Bell pair) exactly the two requested identifiers remain on the end tiles.",
 ["programs", "configurations", "inputs"],
 "Every route length and shape, layout, relative position of control and target, and mixture of several such operations in a program, in the stream and wave pipelines.",
 "No test enables local instructions; one regression spec prints the result of a few layouts.",
 [DPC, "include/lsqecc/ls_instructions/local_instructions.hpp"],
 [("decomposition along a route", "compile_long_range_Bell"), ("resuming a partially applied decomposition", "BellPairInit and BellBasedCNOT branches of try_apply_instruction_direct_followup"), ("local operations", "try_apply_local_instruction")],
 ["slice and instruction visitors"])

prop("C07", "EDPC compiles each wave of CNOTs along edge-disjoint paths that all complete",
 "In the EDPC pipeline the CNOTs routed together use paths that share no tile edge and at most two of which meet on any tile, and where two paths cross one is executed entirely before the other in the two-phase schedule at that tile. CNOTs whose paths can only cross, once or several times in a row, are still routed together. Every routed CNOT completes as adjacent-tile operations whose combined effect is that CNOT up to Pauli corrections, the qubits return to their original orientation, and all path tiles are released. Every CNOT of the program is executed exactly once and in per-qubit program order.",
 ["programs", "configurations", "schedules"],
 "Every set of CNOTs issued in one wave or across waves, on every EDPC-capable layout and qubit placement.",
 "Nothing in the unit tests runs EDPC; one regression spec prints three fixed circuits.",
 [DPC, "src/patches/dense_slice.cpp", "src/scheduler/wave_scheduler.cpp", "src/layout/graph_search/custom_graph_search.cpp"],
 [("edge reservation by labels", "mark_routing_region, DenseSlice::mark_boundaries_for_crossing_cell, flip_crossing_chain"), ("deferred compilation", "WaveScheduler::schedule_wave"), ("routing over crossed tiles", "have_directed_edge_EDPC")],
 ["slice and instruction visitors"])

prop("C08", "The lattice-surgery program of a circuit implements that circuit",
 "For every circuit of supported gates, the lattice-surgery instructions produced from it implement the same unitary on the declared qubits for every combination of measurement outcomes, up to Pauli corrections determined by those outcomes (and, where the option asks for corrections, the conditional corrections are present). This covers CNOT and CZ in each ancilla/boundary variant and correction mode, H, X, Z, S and T through each S-state injection option, Bell-based CNOTs and resets, and all temporary patches are measured out.",
 ["programs", "configurations", "fault_sequences"],
 "Every circuit, every CNOT style and correction mode, every injection option, every measurement-outcome history.",
 "No test covers gate translation; regression specs freeze the emitted text, not its meaning.",
 ["src/ls_instructions/ls_instructions_from_gates.cpp", "src/ls_instructions/ls_instruction_stream.cpp", "src/ls_instructions/teleported_s_gate_injection_stream.cpp", "src/ls_instructions/catalytic_s_gate_injection_stream.cpp"],
 [("gate to instruction translation", "LSIinstructionFromGatesGenerator"), ("gate stream adaptor", "LSInstructionStreamFromGateStream::get_next_instruction"), ("S injection", "TeleportedSGateInjectionStream, CatalyticSGateInjectionStream")],
 ["LSInstructionStream::get_next_instruction"])

prop("C09", "Injected rotations expose every measured operator and change nothing else",
 "After boundary-rotation injection, whenever a joint measurement is issued each named operator of a layout-resident qubit is exposed, given the rotations issued so far, on a side of that qubit adjacent to routing space. The injected stream is the original stream with only single-patch rotations inserted, each on a patch that is about to be measured and does not already expose the operator, and every original instruction is kept in order.",
 ["programs", "configurations", "histories"],
 "Every instruction program, every layout and history of previous rotations and Hadamards.",
 "No test uses the injection stream.",
 ["src/ls_instructions/boundary_rotation_injection_stream.cpp", "src/layout/dynamic_layouts/determine_exposed_operators.cpp"],
 [("orientation tracking", "BoundaryRotationInjectionStream"), ("exposed operators of a tile", "find_exposed_operators")],
 ["LSInstructionStream::get_next_instruction"])

prop("C10", "Lattice-surgery instruction text round-trips and bad text is rejected",
 "Every instruction of the textual format is parsed to exactly the instruction it denotes (operation, patches, operators, placement, and signs), blank lines are ignored, and printing a parsed instruction and parsing the result gives an equal instruction. Text that is not an instruction of the format (unknown name, missing, surplus or malformed arguments) is rejected with an error and never silently read as some other instruction, and never crashes.",
 ["inputs"],
 "Every line of text up to a length over the format's vocabulary, and every instruction value that the compiler can print.",
 "Six parser tests cover single happy-path lines; printing is not tested and rejection is tested nowhere.",
 ["src/ls_instructions/ls_instructions_parse.cpp", "src/ls_instructions/parse_utils.cpp", "src/ls_instructions/ls_instructions.cpp", "src/ls_instructions/ls_instruction_stream.cpp"],
 [("line parser", "parse_ls_instruction"), ("printer", "operator<< for LSInstruction")],
 ["parse_ls_instruction", "LSInstructionStreamFromFile", "operator<<"])

prop("C11", "OpenQASM programs are read as the gates they spell, and bad text is rejected",
 "Each supported OpenQASM statement is read as the gate it denotes, on the qubits and in the order written, with angles given as multiples and fractions of pi (including negative ones) read exactly, any annotation on a CNOT obeyed, and headers, blank lines and comments ignored. Unsupported or malformed statements, gates before the register is declared and qubits outside the register are rejected with an error rather than misread, and never crash.",
 ["inputs"],
 "Every statement text over the supported vocabulary up to a length and every short program of such statements.",
 "Two parse_gates tests look at two rz angles.",
 ["src/gates/parse_gates.cpp", "src/ls_instructions/parse_utils.cpp", "external/include/lstk/lstk.hpp"],
 [("line and argument splitting", "parse_gates.cpp, lstk::split_on"), ("angle parsing", "parse_angle in parse_gates.cpp"), ("CNOT annotations", "GateStreamFromFile")],
 ["GateStreamFromFile::get_next_gate", "parse_gate"])

prop("C12", "Layouts provide exactly the tiles their description asks for",
 "A layout read from a text grid has exactly the grid's dimensions, one qubit per Q, ancilla, dead, Y-state and reserved tile per A, X, Y and M, one distillation region per edge-connected group of equal digits, with its delivery tiles being precisely the routing tiles touching it; ragged, empty, unknown-character and contradictory grids are rejected. Every generated layout (compact, compact without clogging, EDPC with any lanes, condensation and factory options) provides at least the requested number of qubits, each reachable from every other and from the magic-state sources through routing tiles.",
 ["configurations", "inputs"],
 "Every small text grid over the layout alphabet and every generator parameter combination up to a bound.",
 "The layout parser is not built in the test configuration and no test generates a layout.",
 ["src/layout/ascii_layout_spec.cpp", "src/layout/dynamic_layouts/compact_layout.cpp", "src/layout/dynamic_layouts/edpc_layout.cpp"],
 [("grid parsing and region discovery", "AsciiLayoutSpec, LayoutFromSpec::init_cache"), ("generators", "make_compact_layout, make_edpc_layout")],
 ["Layout interface"])

prop("C13", "Slice output and statistics report exactly what was computed",
 "The JSON output of a run is one well-formed array with one entry per emitted slice, and each entry reproduces every tile of that slice: occupied or empty, patch kind, activity, label, and the kind and activity of each of its four sides. The per-slice volume statistics classify every tile exactly once so that the categories add up to the lattice area, and the reported numbers of slices and instructions equal the slices emitted and the instructions executed.",
 ["programs", "configurations", "inputs"],
 "Every slice content and every run, pipeline and output option.",
 "No test covers JSON output or statistics.",
 ["src/patches/slices_to_json.cpp", "src/patches/slice_stats.cpp", "src/pipelines/slicer.cpp", DPC],
 [("JSON writer", "slice_to_json, SliceJsonWriter in slicer.cpp"), ("volume counter", "compute_volume_counts"), ("counters", "DensePatchComputationResult")],
 ["command-line output", "slice_to_json", "SliceStats"])

prop("C14", "The dependency graph always reflects exactly the unfinished order constraints",
 "At every point of any sequence of pushes, pops of ready nodes, expansions and proximity marks, the dependency graph contains exactly the unfinished instructions, its ready set is exactly those with no unfinished non-commuting predecessor, and order between remaining non-commuting instructions is preserved (replacements inherit the order of what they replace). Edges and reverse edges of the underlying graph always agree, heads, tails and topological order are consistent with them, and a graph whose ready nodes are repeatedly popped always becomes empty.",
 ["histories", "programs"],
 "Every operation sequence up to a depth, over every commutation relation on a few instructions.",
 "Unit tests run about fifteen fixed sequences on graphs of at most four nodes.",
 ["src/dag/directed_graph.cpp", "include/lsqecc/dag/directed_graph.hpp", "include/lsqecc/dag/dependency_dag.hpp", "src/dag/domain_dags.cpp"],
 [("node removal and expansion", "DirectedGraph::remove_node, expand, substitute"), ("order construction", "DependencyDag::push")],
 ["DirectedGraph and DependencyDag public operations"])

prop("C15", "Operations are declared commuting only when they really commute",
 "Whenever the commutation test says that two gates, or two lattice-surgery instructions, may be exchanged, executing them in either order has the same effect: for gates the two products are the same unitary, for instructions neither reads, writes, creates or destroys a patch the other uses.",
 ["inputs", "programs"],
 "Every pair of gates over a few qubits (including controlled and nested ones, every supported angle), and every pair of instructions.",
 "One test evaluates three pairs of gates.",
 ["include/lsqecc/dag/commutation_trait.hpp", "include/lsqecc/gates/gates.hpp", "src/gates/gates.cpp", "include/lsqecc/ls_instructions/ls_instructions.hpp", "src/ls_instructions/ls_instructions.cpp"],
 [("gate commutation", "CommutationTrait<gates::Gate>::can_commute"), ("instruction commutation", "CommutationTrait<LSInstruction>::can_commute, get_operating_patches")],
 ["CommutationTrait::can_commute"])

prop("C16", "A compilation's result depends only on its own input",
 "Compiling the same input with the same options always gives the same output, whatever was compiled earlier in the same process and however often, including after runs that failed. No setting, default, counter or cache of one compilation leaks into another.",
 ["histories", "inputs"],
 "Every sequence of compilations in one process over a set of inputs and options.",
 "Each test runs in its own process, and none compiles twice.",
 ["src/pipelines/slicer.cpp", "src/gates/parse_gates.cpp", "src/gates/gates.cpp", DPC, "src/patches/patches.cpp"],
 [("process-wide defaults and counters", "ControlledGate::default_ancilla_placement, operation id counter, patch id counter")],
 ["run_slicer_program_from_strings"])

prop("C17", "Every invocation ends with an honest outcome",
 "Every command-line or embedded invocation terminates with either the requested output and a success status, or a diagnostic and a failure status: unknown or contradictory options, missing files, malformed programs or layouts, and programs that do not fit the layout are reported as errors, never as a crash, hang, empty success or truncated output passed off as complete. With a time limit, a run that cannot progress stops with an error soon after the limit; with graceful mode, what was produced until the failure is still well-formed output.",
 ["configurations", "inputs", "fault_sequences"],
 "Every combination of options, every input class (well-formed, malformed, unsatisfiable) and every point of failure.",
 "The command-line front end is not built in the test configuration.",
 ["src/pipelines/slicer.cpp", "src/lsqecc_slicer_main.cpp", DPC],
 [("option handling and error mapping", "run_slicer_program, run_slicer_program_from_strings"), ("time limit and graceful mode", "run_through_dense_slices")],
 ["run_slicer_program exit code and streams", "run_slicer_program_from_strings JSON"])

prop("C18", "A circuit fed from the database is read completely, in layer order",
 "For every contents of the circuit tables, the database gate source yields every supported gate of every layer exactly once, layer by layer in increasing order, with the qubits and parameters stored, and reports the end only after the last layer. Empty layers or layers made only of ignored operations do not end the circuit, and asking for a gate past the end is an error, not undefined behaviour.",
 ["inputs", "histories", "fault_sequences"],
 "Every small table contents: number of layers, gates per layer, supported and ignored kinds, and fetch order.",
 "Needs a database; no test touches it.",
 ["src/gates/postgres_gate_stream.cpp", "include/lsqecc/gates/postgres_gate_stream.hpp", "include/pqpp/pq.hpp"],
 [("layer cursor", "PandoraPostgresGateStream")],
 ["GateStream::get_next_gate"])

prop("C19", "All pipelines and options compute the same logical result",
 "For every program that completes, the stream, wave and dag pipelines, every routing strategy and every output option realise the same logical operations: the same joint measurements between the same patches with the same operators, single-patch measurements, rotations and Hadamards, in the same order on every patch, and end with the same live patches in the same orientation. Only their timing, routes and ancilla placement may differ.",
 ["programs", "schedules", "configurations"],
 "Every program over the supported instruction set, on every layout, across all pipeline and routing choices.",
 "No test compares two pipelines.",
 [DPC, "src/scheduler/wave_scheduler.cpp", "src/layout/router.cpp"],
 [("common instruction application", "try_apply_instruction_direct_followup"), ("three drivers", "run_through_dense_slices_streamed / _dag / _wave")],
 ["slice visitor: operations are read back from the emitted slices"])

prop("C20", "Patches introduced by the compiler never reuse an identifier already in use",
 "Every temporary patch the compiler introduces (CNOT ancillas, magic and Y states, Bell pair ends, injected S-gate states) gets an identifier different from every declared qubit, from every identifier the input program mentions, and from every other temporary patch alive at the same time.",
 ["programs", "configurations"],
 "Every circuit and instruction program, including ones whose identifiers are large, sparse or only mentioned later, and every injection option.",
 "No test generates identifiers.",
 ["include/lsqecc/ls_instructions/id_generator.hpp", "src/pipelines/slicer.cpp", "src/ls_instructions/ls_instructions_from_gates.cpp", "src/ls_instructions/ls_instruction_stream.cpp", "src/ls_instructions/teleported_s_gate_injection_stream.cpp", "src/ls_instructions/catalytic_s_gate_injection_stream.cpp"],
 [("shared generator", "IdGenerator"), ("starting point", "LSInstructionStreamFromGateStream, run_slicer_program")],
 ["LSInstructionStream::get_next_instruction, printed instructions"])

prop("C21", "Decomposed rotations equal the rotation they replace",
 "Every replacement of a gate by other gates computes the same unitary up to global phase: controlled phase and controlled Z-rotations by CNOTs and Z-rotations for every angle including negative ones, Z-rotations by multiples of pi/4 exactly by Z, S and T gates, and Z- and X-rotations by pi over a power of two by Clifford+T sequences within the approximation's stated accuracy.",
 ["inputs", "configurations"],
 "Every rational multiple of pi with bounded numerator and denominator, every control/target pair, and every entry of the built-in approximation table.",
 "The commutation test uses rz gates but nothing multiplies a decomposition out.",
 ["src/gates/gates.cpp", "src/gates/gate_approximator.cpp", "src/gates/decompose_rotation_stream.cpp", "include/lsqecc/gates/pi_over_2_to_the_n_rz_gate_approximations.hpp", "src/gates/parse_gates.cpp"],
 [("exact decompositions", "decompose_CRZ_gate and friends in gates.cpp"), ("approximation table", "approximate_RZ_gate"), ("stream adaptor", "DecomposeRotationStream")],
 ["decomposition functions; GateStream output multiplied out as matrices"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
