"""Writes properties.jsonl (kept as a script so that the lines stay readable)."""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)


prop("C01", "Gaussian circuits act on phase space exactly as documented",
     "Every circuit built from the built-in Gaussian states, gates and channels, on any set of mode labels and in any interleaving, yields the state whose means, covariance matrix, norm and photon numbers are those obtained by applying each component's documented phase-space action in order. Tensoring independent components or inserting a component on other modes never changes the result on a mode.",
     ["programs", "inputs"],
     "all gate/channel sequences up to a depth over an alphabet with every built-in Gaussian component, several mode placements with gaps, zero, negative and large parameters, pure and mixed starting states",
     "tests apply single components or a few fixed circuits and mostly compare the library with itself (S = product of its own symplectics); composition order, mode gaps and pure/mixed promotion are sampled at a handful of points",
     ["mrmustard/physics/triples.py", "mrmustard/physics/gaussian_integrals.py", "mrmustard/physics/bargmann_utils.py", "mrmustard/physics/symplectics.py", "mrmustard/lab/circuit_components.py", "mrmustard/lab/transformations/", "mrmustard/lab/states/"],
     [("closed-form Bargmann triples of every component", "mrmustard/physics/triples.py"), ("Gaussian integral used for every contraction", "mrmustard/physics/gaussian_integrals.py"), ("wire composition and index order", "mrmustard/physics/wires.py"), (">> adds missing adjoints", "mrmustard/lab/circuit_components.py __rshift__")],
     observe=["state.phase_space(0)", "state.probability / L2_norm", "state.number_means"])

prop("C02", "Fock arrays are exact number-basis matrix elements at every shape",
     "The Fock array of any built-in state, gate or channel contains the exact matrix elements between number states, whatever shape is requested (square or not, small or large) and whichever computation method is selected. An array computed at one shape is always a corner of the array computed at a larger one, and amplitudes of circuit outputs equal those obtained by multiplying the components' matrices.",
     ["inputs", "configurations"],
     "every built-in component x every shape up to a bound in each index (all non-square combinations) x every computation method and stability setting x an alphabet of parameters including zero and negative values",
     "tests check a few square shapes per component, often against the same recurrence; non-square shapes and method/shape combinations that take different loop bounds are not enumerated",
     ["mrmustard/math/lattice/strategies/", "mrmustard/lab/transformations/bsgate.py", "mrmustard/lab/transformations/dgate.py", "mrmustard/lab/transformations/sgate.py", "mrmustard/lab/states/number.py", "mrmustard/physics/fock_utils.py", "mrmustard/lab/circuit_components.py"],
     [("dedicated recurrences for displacement, squeezing, beam splitter", "mrmustard/math/lattice/strategies/{displacement,squeezer,beamsplitter}.py"), ("generic Bargmann-to-Fock recurrence", "mrmustard/math/lattice/strategies/vanilla/"), ("shape validation and defaults", "CircuitComponent._check_fock_shape / auto_shape")],
     observe=["component.fock_array(shape)"])

prop("C03", "A network contracts to the same component in every order",
     "Contracting a circuit gives the same component whichever valid bracketing or contraction path is used, whether it is written as a chain of operators, as a circuit object, or with states and measurements grouped first. Mixing representations of the individual components only changes the representation of the result, never its values up to the retained Fock cutoff.",
     ["programs", "schedules"],
     "all contraction orders (all full binary bracketings / edge-contraction sequences) of every circuit in a bounded family, each with several assignments of representations to components",
     "a test contracts one circuit along one or two paths; the number of contraction orders grows factorially",
     ["mrmustard/lab/circuit_components.py", "mrmustard/lab/circuits.py", "mrmustard/physics/wires.py", "mrmustard/physics/ansatz/polyexp_ansatz.py", "mrmustard/physics/ansatz/array_ansatz.py", "mrmustard/lab/states/ket.py", "mrmustard/lab/states/dm.py", "mrmustard/lab/transformations/base.py"],
     [("index bookkeeping of pairwise contraction", "CircuitComponent.contract, Wires.__matmul__"), ("typed results", "Ket/DM/Unitary/Channel.__rshift__"), ("path execution", "Circuit.contract")],
     observe=["result arrays, wires and values"])

prop("C04", "Path optimisation returns valid, cheapest paths and never alters the result",
     "For every closed circuit the optimiser returns a complete contraction path that can be executed and gives the same result as contracting in circuit order; without simplification heuristics no valid path has a lower cost under the documented cost model. Shapes it assigns to components never cut off amplitudes that contribute to the result.",
     ["programs", "schedules"],
     "every closed circuit in a bounded family (topologies with chains, branches and re-joining wires, mixed representations and cutoffs) x every random initial path choice; optimum compared with exhaustive enumeration of all paths",
     "the optimiser is randomised and the tests run it on a few circuits without re-joining wires, never comparing with all paths",
     ["mrmustard/path/branch_and_bound.py", "mrmustard/path/optimize.py", "mrmustard/lab/circuits.py"],
     [("branch and bound with pruning", "branch_and_bound.optimal_contraction"), ("Fock shape propagation incl. beam-splitter photon conservation", "branch_and_bound.optimize_fock_shapes"), ("graph of components", "branch_and_bound.parse_components")],
     observe=["circuit.path", "circuit.contract()", "component shapes after optimize"])

prop("C05", "All representations of a component describe the same object",
     "Converting a state or transformation between its Bargmann, Fock, quadrature, phase-space and characteristic-function descriptions, in any order and on any subset of modes, always describes the same physical object: values read in one description equal those derived from another, and converting back recovers the original. Wigner, Husimi, quadrature distribution and photon-number amplitudes of a state are mutually consistent.",
     ["inputs", "histories"],
     "every conversion history up to a depth x an alphabet of pure/mixed, Gaussian/non-Gaussian, one- and multi-mode components x grids of evaluation points",
     "tests check single conversions of few states; chains of conversions, subsets of modes and non-Gaussian inputs are not enumerated",
     ["mrmustard/lab/circuit_components.py", "mrmustard/lab/circuit_components_utils/", "mrmustard/physics/fock_utils.py", "mrmustard/physics/wigner.py", "mrmustard/physics/husimi.py", "mrmustard/physics/bargmann_utils.py", "mrmustard/lab/states/base.py"],
     [("basis-change components", "mrmustard/lab/circuit_components_utils/b_to_q.py, b_to_ps.py, b_to_ch.py"), ("to_fock/to_bargmann/to_quadrature/quadrature", "mrmustard/lab/circuit_components.py"), ("discretised Wigner function", "mrmustard/physics/wigner.py")])

prop("C06", "Wire bookkeeping is a faithful composition algebra",
     "Composing the wire layouts of two components connects exactly the outgoing wires of the first with the incoming wires of the second that carry the same mode and side, keeps every other wire with its attributes in the standard order, reports the permutation that reorders the result, and rejects exactly the compositions that would leave two equal wires. Composition is associative whenever defined, adjoint and dual are involutions that commute, and views or copies never change the original.",
     ["inputs", "histories"],
     "all pairs and triples of wire layouts over two/three modes (every subset of the four quantum wire kinds, plus classical wires) and all view/adjoint/dual sequences up to a depth",
     "tests use hand-picked layouts; the composition rule has 2^8 layouts on two modes alone and 2^16 pairs",
     ["mrmustard/physics/wires.py"],
     [("composition", "Wires.__matmul__"), ("contracted indices/labels", "Wires.contracted_indices, contracted_labels"), ("overlap check", "Wires.__add__"), ("views", "Wires cached properties")],
     observe=["wires of results, permutations, index tuples, exceptions"])

prop("C07", "Ansatz algebra is the algebra of the functions it represents",
     "Adding, multiplying, tensoring, contracting, tracing, reordering, conjugating, scaling, partially evaluating or simplifying an ansatz gives an ansatz whose values are those of the corresponding operation on the represented functions or arrays, for every combination of number of variables, derived polynomial variables, batch shape and linear superposition. Equality distinguishes any two ansatze that represent different functions, and holds for the same terms in any order of superposition.",
     ["inputs", "histories"],
     "all operation sequences up to a depth over an alphabet of small ansatze covering every combination of (variables, derived variables, batch dimensions, superposition) and every choice of contracted/reordered indices",
     "tests use random triples with one shape at a time; the cross product of batch, superposition, derived variables and index choices is not enumerated",
     ["mrmustard/physics/ansatz/polyexp_ansatz.py", "mrmustard/physics/ansatz/array_ansatz.py", "mrmustard/physics/gaussian_integrals.py", "mrmustard/physics/utils.py"],
     [("PolyExpAnsatz operations", "mrmustard/physics/ansatz/polyexp_ansatz.py"), ("ArrayAnsatz operations", "mrmustard/physics/ansatz/array_ansatz.py"), ("complex Gaussian integral with polynomial part", "mrmustard/physics/gaussian_integrals.py")])

prop("C08", "Batches and superpositions behave elementwise and linearly",
     "A component with batched parameters behaves, under every operation, as the collection of components obtained from each batch entry separately, with batch axes of operands combined as requested. A sum of components behaves under every linear operation as the sum of the results, and its quadratic quantities include all cross terms.",
     ["inputs", "programs"],
     "every built-in component with each parameter batched (zero, one, two batch axes, size-one axes, mixed batched/unbatched parameters) and superposed states x all operations of an alphabet x pairs of operands",
     "tests batch one component with one shape and mostly check only shapes; combining batched and superposed operands is covered at a few points",
     ["mrmustard/lab/circuit_components.py", "mrmustard/physics/ansatz/", "mrmustard/lab/utils.py", "mrmustard/physics/triples.py", "mrmustard/lab/states/", "mrmustard/math/lattice/strategies/vanilla/batch.py"],
     [("batch strings and outer/zip modes", "CircuitComponent.contract, physics/utils.py"), ("linear superposition axis", "PolyExpAnsatz._lin_sup"), ("batched recurrences", "vanilla_batch_numba")])

prop("C09", "Every Fock recurrence computes the same coefficients of exp(zAz/2+bz)c",
     "All available algorithms for turning a Gaussian exponential into number-basis coefficients (default, numerically stable, batched, photon-number-ordered, diagonal-only, one-mode-left, into a preallocated buffer) return exactly the coefficients of its power series at every shape. Restricting the output (diagonal, photon-number or norm bound, preallocated larger buffer) never changes the coefficients that are returned. The automatic shape of a Gaussian state is the one these coefficients prescribe for the requested probability. Cutoffs set by hand take precedence over it, wire by wire, and stay with a component that is relabelled.",
     ["inputs", "configurations"],
     "all shapes up to a bound for 1-4 indices x all algorithms and options x an alphabet of (A, b, c) covering real, complex, zero blocks, zero vacuum amplitude and batches",
     "tests compare two algorithms on a few square shapes; loop bounds that only matter for particular non-square shapes or tiny cutoffs are not enumerated",
     ["mrmustard/math/lattice/", "mrmustard/math/backend_numpy.py", "mrmustard/math/backend_manager.py"],
     [("vanilla/stable/batch", "mrmustard/math/lattice/strategies/vanilla/"), ("binomial", "mrmustard/math/lattice/strategies/binomial.py"), ("fast diagonal", "mrmustard/math/lattice/strategies/fast_diagonal.py"), ("compactFock", "mrmustard/math/lattice/strategies/compactFock/"), ("dispatch", "BackendManager.hermite_renormalized*")])

prop("C10", "Hand-written gradients equal the derivative of what they differentiate",
     "For every computation with a hand-written gradient rule, the gradient returned for any loss, any argument and any output shape is the derivative of the forward computation. Gradients obtained through whole circuits with trainable parameters equal the derivative of the cost.",
     ["inputs", "configurations"],
     "every differentiable special function and every trainable component x all small shapes (incl. non-square) x every single output element as loss (a basis of all linear losses) x an alphabet of parameters",
     "tests check gradients for one random cotangent and one square shape per function, if at all",
     ["mrmustard/math/jax_vjps/", "mrmustard/math/lattice/strategies/vanilla/gradients.py", "mrmustard/math/lattice/strategies/beamsplitter.py", "mrmustard/math/lattice/strategies/squeezer.py", "mrmustard/math/lattice/strategies/displacement.py", "mrmustard/math/lattice/strategies/compactFock/"],
     [("vector-Jacobian products", "mrmustard/math/jax_vjps/"), ("recurrences for gradients", "mrmustard/math/lattice/strategies/*")])

prop("C11", "Physical components stay physical and inverses undo",
     "Built-in unitaries preserve inner products and are undone by their inverse and by their dual; built-in channels are completely positive and trace preserving; built-in states are normalised and positive; and any composition of them is again physical and is reported as such, while components that are not physical are reported as not physical. Taking the dual or the adjoint twice gives back the original, and duals of sequences reverse the order.",
     ["programs", "inputs"],
     "all compositions up to a depth of every built-in component, with every unary operation (dual, adjoint, inverse, relabelling of modes) inserted at every position",
     "tests check physicality of single random components; inverses and duals of composed, relabelled or mixed-representation components are sampled only",
     ["mrmustard/lab/transformations/base.py", "mrmustard/lab/states/", "mrmustard/lab/circuit_components.py", "mrmustard/physics/triples.py", "mrmustard/physics/gaussian.py"],
     [("dual/adjoint/on", "mrmustard/lab/circuit_components.py"), ("is_physical/is_CP/is_TP/is_positive", "mrmustard/lab/transformations/base.py, mrmustard/lab/states/dm.py"), ("inverse", "Transformation.inverse")])

prop("C12", "Measurement, reduction and expectation obey the Born rule",
     "Projecting a state onto outcomes, tracing out or keeping any subset of modes in any order, and taking expectation values of states or unitary-like operators give the values of the Born rule on the state's density matrix; probabilities over a complete set of outcomes sum to the state's norm; and doing it on disjoint modes in any order commutes. Purity, probability, fidelity, overlaps and photon-number statistics agree with the density matrix.",
     ["inputs", "schedules"],
     "all subsets and orders of modes measured/traced/kept for every 1-3 mode state of an alphabet (pure, mixed, superposed, Fock, batched) x operators on every subset of modes",
     "tests trace or measure one mode of one state; order and subset combinations are not enumerated",
     ["mrmustard/lab/states/ket.py", "mrmustard/lab/states/dm.py", "mrmustard/lab/states/base.py", "mrmustard/lab/circuit_components_utils/trace_out.py", "mrmustard/physics/gaussian.py", "mrmustard/physics/fock_utils.py"],
     [("partial trace", "DM/Ket.__getitem__, TraceOut"), ("expectation", "Ket/DM.expectation"), ("fock_distribution, number statistics", "mrmustard/lab/states/"), ("fidelity", "mrmustard/physics/gaussian.py, State.fidelity")])

prop("C13", "Results depend only on current settings, never on the history of settings",
     "After any sequence of setting changes, nested setting contexts, exceptions inside contexts and earlier computations, every setting has the value a last-in-first-out discipline prescribes, and a computation gives the result it would give in a fresh process with the same settings. Dimensionless quantities do not depend on the value of the reduced Planck constant.",
     ["histories", "configurations"],
     "all sequences up to a depth of set / enter context / exit / exit by exception / compute operations over two values of each relevant setting, compared with a stack model and fresh computations",
     "tests use one context at a time and a fixed value of the constant; caches filled under one setting and read under another are not exercised",
     ["mrmustard/utils/settings.py", "mrmustard/math/caching.py", "mrmustard/physics/fock_utils.py", "mrmustard/physics/wigner.py", "mrmustard/math/backend_manager.py", "mrmustard/physics/triples.py"],
     [("settings context manager", "mrmustard/utils/settings.py Settings.__call__/__exit__"), ("memoised computations", "mrmustard/math/caching.py and lru_cache/cached_property users")],
     state=[("settings", "process-wide mutable configuration", "mrmustard/utils/settings.py"), ("caches", "memoised arrays keyed by arguments", "mrmustard/math/caching.py, lattice paths, lru_cache")])

prop("C14", "Serialisation round-trips every component and circuit",
     "Saving any component or circuit and loading it back, zipped or not, any number of times, gives an object of the same kind that is equal to the original and keeps its modes, parameters, trainability, bounds, name, contraction path and batch or superposition structure. A loaded object behaves like the original in later operations.",
     ["inputs", "histories"],
     "every built-in component and composite objects x (batched, superposed, trainable, converted, relabelled) x save options x repeated save/load histories",
     "tests round-trip a few components once",
     ["mrmustard/utils/serialize.py", "mrmustard/lab/circuit_components.py", "mrmustard/lab/circuits.py", "mrmustard/physics/ansatz/", "mrmustard/math/parameter_set.py"],
     [("save/load", "mrmustard/utils/serialize.py"), ("_serialize/_deserialize", "mrmustard/lab/circuit_components.py"), ("Circuit.serialize/deserialize", "mrmustard/lab/circuits.py")])

prop("C15", "Saving and loading never lose or mix up stored data",
     "After any sequence of saves, loads and removals under any file names, every stored object that was not explicitly removed or overwritten loads back to what was last saved under its name, and loading does not alter or delete files other than the one it was asked to remove. If a save or load fails part-way, the error is reported and previously stored objects of other names remain loadable.",
     ["histories", "crash_points", "fault_sequences"],
     "all sequences up to a depth of save (zipped/plain, with/without arrays) / load (keeping/removing) over colliding file names, and every file-system operation of every save and load made to fail in turn",
     "tests do one save and one load with fresh names and never inject a failure",
     ["mrmustard/utils/serialize.py"],
     [("temporary json/npz next to the archive", "mrmustard/utils/serialize.py save/load")],
     state=[("cache directory", "files named <stem>.zip/.json/.npz", "settings.CACHE_DIR")])

prop("C16", "Samplers follow the Born rule and are reproducible",
     "The outcome probabilities a sampler uses, including those conditioned on outcomes already drawn for earlier modes, equal the Born-rule probabilities of the measured state, for every outcome sequence that can be drawn. With a given seed the samples are reproducible regardless of other use of the random generator, and user-supplied samples, probabilities and cutoffs are honoured.",
     ["inputs", "schedules", "histories"],
     "every outcome of every random draw (the random generator replaced by an enumerated choice) for 1-3 mode states of an alphabet and all samplers; all interleavings of seeded sampling with other draws",
     "tests draw random samples and compare averages with loose tolerance",
     ["mrmustard/lab/samplers.py", "mrmustard/physics/fock_utils.py", "mrmustard/lab/states/"],
     [("sequential conditional sampling", "mrmustard/lab/samplers.py"), ("probabilities from Fock/quadrature distributions", "State.fock_distribution, quadrature_distribution")],
     state=[("rng", "process-wide random generator", "settings.rng")])

prop("C17", "Training keeps parameters consistent and inside their constraints",
     "Whatever sequence of parameter reads, updates and training steps is performed, a component always reflects the current value of its parameters, constant parameters never change, components built from one variable all follow it, and parameters that must be symplectic, orthogonal, unitary or within bounds remain so after every step. The optimiser stops when asked to, records its history faithfully and returns objects of the same kind as it was given.",
     ["histories", "inputs"],
     "all sequences up to a depth of reads/updates/training steps over every trainable built-in component, each parameter trainable or constant, with and without bounds, with losses that push against the bounds",
     "tests train a few specific costs to convergence and check the final value",
     ["mrmustard/math/parameters.py", "mrmustard/math/parameter_set.py", "mrmustard/training/optimizer.py", "mrmustard/training/parameter_update.py", "mrmustard/lab/circuit_components.py", "mrmustard/physics/ansatz/base.py"],
     [("parameter registry", "ParameterSet"), ("lazy regeneration of the ansatz", "PolyExpAnsatz._generate_ansatz, ArrayAnsatz"), ("Riemannian updates", "mrmustard/training/parameter_update.py"), ("training loop", "Optimizer")])

prop("C18", "The two numerical backends compute the same results",
     "Every numerical primitive and every component operation gives the same values, shapes and errors with either numerical backend, and switching between backends at any point of a session leaves later results correct.",
     ["configurations", "histories", "inputs"],
     "every public numerical primitive over small input alphabets (shapes, dtypes, axes) under both backends; every component operation of an alphabet under both; all switch histories up to a depth",
     "each test runs under one backend at a time and never compares the two or switches inside a session",
     ["mrmustard/math/backend_manager.py", "mrmustard/math/backend_numpy.py", "mrmustard/math/backend_jax.py", "mrmustard/math/jax_vjps/"],
     [("dispatch", "BackendManager._apply"), ("numpy implementation", "mrmustard/math/backend_numpy.py"), ("jax implementation", "mrmustard/math/backend_jax.py")])

prop("C19", "Operations never modify their operands",
     "Using a component, ansatz or circuit as an operand, converting it, evaluating it, displaying it or optimising a circuit built from it leaves its values, shape, wires, name and parameters unchanged, and later changes to the shape, wires or component list of a result do not reach back into it; arrays passed in are left as they were. Evaluating the same expression twice gives the same answer.",
     ["histories", "programs"],
     "all ordered pairs/triples of operations from the full public operation alphabet applied to shared operands, with a deep snapshot compared after every step",
     "tests build fresh operands for each assertion, so aliasing between operands and results is invisible",
     ["mrmustard/lab/circuit_components.py", "mrmustard/physics/wires.py", "mrmustard/physics/ansatz/", "mrmustard/lab/circuits.py", "mrmustard/lab/transformations/phasenoise.py"],
     [("light copies and shared ansatz objects", "CircuitComponent._light_copy, on, to_fock"), ("cached wire views", "mrmustard/physics/wires.py")])

prop("C20", "Index-notation contraction equals the sum it denotes",
     "For every set of operands, index string and explicit contraction path, contracting several objects in one index expression gives the object obtained by summing/integrating over all repeated indices and batching over shared batch labels, with output indices in the requested order. The result does not depend on the path or on which operands are given in which representation.",
     ["inputs", "schedules"],
     "all index strings up to a size bound (all label assignments with each label used at most twice) x all contraction paths x representation assignments x batch labels",
     "tests check a handful of strings and one path each",
     ["mrmustard/physics/mm_einsum.py", "mrmustard/physics/ansatz/"],
     [("pairwise contraction with conversions", "mrmustard/physics/mm_einsum.py")])

prop("C21", "Meaningless requests are rejected, never answered silently",
     "Constructing or combining objects with inconsistent arguments (repeated, missing or clashing modes, mode orders that are not honoured, wrong array sizes, incompatible wires or shapes, parameters outside documented ranges that the constructor checks, unknown settings or backends) raises an error instead of returning an object with another meaning. Rejected requests leave all objects and settings unchanged.",
     ["inputs"],
     "all argument combinations from small alphabets of valid and invalid values for every public constructor and operation, classified by an independent validity predicate",
     "tests check one invalid value per function",
     ["mrmustard/lab/", "mrmustard/physics/wires.py", "mrmustard/physics/ansatz/", "mrmustard/math/backend_manager.py", "mrmustard/utils/settings.py"],
     [("constructor validation", "from_ansatz/from_bargmann/from_fock/from_phase_space, gates"), ("shape validation", "_check_fock_shape, ArrayAnsatz.reduce"), ("wire overlap check", "Wires.__add__")])

prop("C22", "Components survive compilation and tree transformations unchanged",
     "Flattening any component, ansatz, circuit or parameter collection into leaves and rebuilding it gives an equal object of the same kind, and evaluating any operation inside a just-in-time compiled or vectorised function gives the same values as outside. Compiled results never depend on values seen in an earlier call.",
     ["programs", "histories"],
     "every built-in component (each parameter trainable or constant) x every operation of an alphabet x repeated calls with changed parameters, compiled versus eager",
     "tests compile a few functions once",
     ["mrmustard/lab/", "mrmustard/physics/ansatz/", "mrmustard/math/parameter_set.py", "mrmustard/math/parameters.py", "mrmustard/math/backend_jax.py"],
     [("tree flatten/unflatten", "_tree_flatten/_tree_unflatten of every class")])

prop("C23", "Gaussian information measures equal those of the density matrix",
     "For every Gaussian state, purity, von Neumann entropy, fidelity with another Gaussian state, symplectic eigenvalues, photon number means and covariances and physicality computed in phase space equal the same quantity computed from its density matrix, and are invariant under Gaussian unitaries applied to all arguments. Conversions between symplectic/channel matrices and Bargmann matrices are mutual inverses.",
     ["inputs"],
     "all states of a bounded alphabet of 1-2 mode Gaussian states and all pairs of them; all channels/unitaries of an alphabet",
     "tests check a few closed-form values",
     ["mrmustard/physics/gaussian.py", "mrmustard/physics/bargmann_utils.py", "mrmustard/lab/states/base.py", "mrmustard/lab/transformations/base.py"],
     [("closed-form Gaussian formulas", "mrmustard/physics/gaussian.py"), ("XY/symplectic <-> Bargmann", "mrmustard/physics/bargmann_utils.py")])

out = Path(__file__).resolve().parents[1] / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
