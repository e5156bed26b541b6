"""Property statements (see tools/gen.py)."""
ALL_IN = ["inputs"]
P = {}


def prop(pid, title, statement, q, why, files, mech, note, over=None, obs=None):
    P[pid] = dict(title=title, statement=statement, q=q, why=why, files=files, mech=mech, note=note,
                  over=over or ["inputs"], obs=obs or [])


NOTE = "Doubles are treated as reals, allocation succeeds, the VC generator, clang's front end and z3 are trusted. "

prop("P01", "Every gate denotes its documented matrix, and it is unitary",
     "For every supported one- and two-qubit gate type and all real parameter values, the gate matrix produced by the library equals the gate's documented matrix. Every such matrix is unitary.",
     "all gate types, all real parameters (including negative, large and special angles)",
     "unit tests compare a few gates at a few angles; the parameters are continuous and entry-wise sign or factor slips survive sampled angles",
     ["src/dd/GateMatrixDefinitions.cpp", "include/mqt-core/dd/GateMatrixDefinitions.hpp"],
     [("closed formulas per gate", "opToSingleQubitGateMatrix, opToTwoQubitGateMatrix"),
      ("constant matrices", "GateMatrixDefinitions.hpp")],
     NOTE + "Every matrix entry and every unitarity equation is an obligation for symbolic parameters.",
     obs=["opToSingleQubitGateMatrix", "opToTwoQubitGateMatrix"])
prop("P02", "Inverting a gate, compound operation or circuit yields its adjoint",
     "For every supported unitary operation and all parameters, its inverse denotes the conjugate transpose of the operation, both when the operation object is inverted and when the decision diagram of the inverse is requested. Compound operations and whole circuits invert to the reversed sequence of inverses, and a circuit's global phase is negated.",
     "all gate types, parameters, targets and control sets; all operation sequences",
     "tests invert a handful of gates with fixed parameters; a wrong sign, a forgotten target swap or a wrong order shows only for particular gate types and parameters",
     ["src/ir/operations/StandardOperation.cpp", "src/dd/Operations.cpp", "src/ir/operations/CompoundOperation.cpp", "src/ir/QuantumComputation.cpp"],
     [("type/parameter/target rewriting", "StandardOperation::invert"), ("inverse branch", "dd::getStandardOperationDD"),
      ("reversal", "CompoundOperation::invert, QuantumComputation::invert")],
     NOTE + "Sequence level: proved for an arbitrary three-element sequence (bounded), element level for all inputs.",
     over=["inputs", "programs"], obs=["Operation::getInverted", "getInverseDD", "QuantumComputation::invert"])
prop("P03", "Automatic gate simplification never changes the denoted matrix",
     "When an operation is created with arbitrary parameters, the library may replace it by a simpler gate type with other parameters; the operation it ends up with always denotes the matrix of the gate that was asked for, on the same targets and controls, up to the documented numerical tolerance.",
     "all parameterised gate types, all real parameters",
     "the rewriting is a tree of special angles; tests hit a few leaves, and any leaf may pick the wrong gate or drop a parameter",
     ["src/ir/operations/StandardOperation.cpp"],
     [("special-angle decision tree", "StandardOperation::parseU3, parseU2, parseU1, checkUgate")],
     NOTE + "Tolerance tests are idealised to exact equality of angles (mod 2 pi).",
     obs=["StandardOperation constructors, getType, getParameter"])
prop("P04", "Node creation preserves the represented object and is canonical",
     "Creating a node from arbitrary successor edges yields an edge that represents exactly the vector or matrix with those parts. The stored node is normalised (vector successor weights have norm one with a real positive largest weight, the first largest matrix successor weight is one, zero successors are the zero terminal), so successor lists that are multiples of each other give the same node with the factor in the edge weight. Matrix nodes that resemble the identity are skipped, and unused nodes are given back.",
     "all levels, all successor edges and weights, vector, matrix and density-matrix nodes, cached and stored edge weights",
     "tests build a few gates and states; a wrong factor or a missed zero shows only for particular magnitudes, phases and ties of the weights",
     ["include/mqt-core/dd/Package.hpp", "src/dd/Edge.cpp", "src/dd/CachedEdge.cpp"],
     [("normalisation", "Edge::normalize, CachedEdge::normalize"), ("node creation and identity skipping", "Package::makeDDNode")],
     NOTE + "The comparison tolerance is idealised to zero; unique table, memory manager and number table are used through their contracts.",
     obs=["Package::makeDDNode"])
prop("P05", "Adding decision diagrams adds the represented vectors and matrices",
     "The sum of two vector or two matrix decision diagrams represents the entry-wise sum, for operands of any shape, including shared, zero, terminal and identity diagrams and operands on different levels. The operands are not changed, and a result stored for reuse is the sum of the operands it is stored under.",
     "all vector and matrix diagrams of any size, all levels and weights, all contents of the compute table",
     "tests add a few states of two or three qubits; a wrong branch for one mix of levels, a zero successor or a cached result shows only for particular diagram shapes",
     ["include/mqt-core/dd/Package.hpp"],
     [("recursive addition with skipped levels", "Package::add2"), ("entry point", "Package::add")],
     NOTE + "Induction over levels: the recursive call, makeDDNode and the compute table are used through their contracts; near-zero tests are idealised to exact zero.",
     obs=["Package::add"])
prop("P06", "Multiplying decision diagrams is matrix multiplication",
     "The product of a matrix diagram with a vector or matrix diagram represents the matrix product of what the operands represent, for operands of any shape, including zero, identity and diagrams whose top levels are skipped. A result stored for reuse is the product of the unit-weight operands it is stored under.",
     "all matrix and vector diagrams of any size, all levels and weights, all contents of the compute table",
     "tests multiply a few small gates and states; a wrong index or a lost weight for one combination of skipped levels, zero blocks and cached results needs particular shapes",
     ["include/mqt-core/dd/Package.hpp", "src/dd/Package.cpp"],
     [("recursive block multiplication with skipped levels", "Package::multiply2"), ("entry point", "Package::multiply, applyOperation")],
     NOTE + "Induction over levels, one result entry at a time; the products that do not contribute to that entry are taken as all zero or all non-zero. Recursive call, addition, makeDDNode and the compute table are used through their contracts.",
     obs=["Package::multiply, applyOperation"])
prop("P07", "Adjoint, conjugate, inner and tensor product and trace of diagrams are correct",
     "For diagrams of any shape, the conjugate transpose, the conjugate, the inner product (and fidelity and expectation value), the tensor product at the requested qubit offset, and the normalised full or partial trace with respect to any set of qubits represent exactly the result of that operation on the represented vectors and matrices. Results stored for reuse belong to the operands they are stored under.",
     "all diagrams of any size, all levels, weights and offsets, all compute-table contents; all sets of traced-out qubits",
     "tests use a few two- or three-qubit diagrams; skipped levels, shared nodes, offsets and reused results need particular shapes or histories",
     ["include/mqt-core/dd/Package.hpp", "src/dd/Package.cpp"],
     [("adjoint and conjugate", "Package::conjugateTransposeRec, conjugateRec"), ("inner product", "Package::innerProduct, fidelity, expectationValue"),
      ("tensor product", "Package::kronecker2"), ("trace", "Package::trace, partialTrace")],
     NOTE + "Induction over levels; recursive calls, addition, makeDDNode and compute tables are used through their contracts. Partial trace: three qubits, every subset, every level (bounded).",
     obs=["Package::conjugateTranspose, conjugate, innerProduct, fidelity, expectationValue, kronecker, trace, partialTrace"])
prop("P08", "The diagram built for an operation is exactly its matrix on its qubits",
     "For every one- and two-qubit matrix, every target and every set of positive and negative controls, the diagram built for the gate represents exactly the controlled matrix, the identity on all other qubits; requests that do not fit the package are rejected. The diagram of an operation is that of its gate matrix, targets and controls after the given permutation, a (controlled) global phase is that phase (on the controls), a barrier the identity, and a compound operation the product of its elements in order, for the operation as well as for its inverse.",
     "all matrices, targets, control sets and kinds, permutations and operation sequences",
     "tests build some gates with one or two controls; the construction treats controls below, between and above the targets differently, and every position, kind and target order matters",
     ["src/dd/Package.cpp", "src/dd/Operations.cpp", "src/ir/Permutation.cpp"],
     [("bottom-up construction", "Package::makeGateDD, makeTwoQubitGateDD"), ("dispatch", "dd::getDD, getStandardOperationDD"), ("relabelling", "Permutation::apply")],
     NOTE + "All matrices and qubits, up to three controls per gate in every relative position (bounded); makeDDNode is used through its contract (P04), gate matrices are P01. Sequences of three elements (bounded).",
     over=["inputs", "programs"], obs=["Package::makeGateDD, makeTwoQubitGateDD", "dd::getDD, getInverseDD"])
prop("P09", "The real-number table returns one canonical entry per value",
     "Looking up a real number returns an existing entry whenever one lies within the tolerance, otherwise a new entry with exactly that value; constants map to the fixed entries, and negative numbers to the sign-tagged entry of their magnitude. Stored values never change while referenced, every bucket stays sorted with its entries more than the tolerance apart, and looking a stored value up again returns the same entry. Garbage collection removes exactly the entries that nothing references.",
     "all values (at, near and away from bucket borders), all bucket contents, all operation sequences",
     "tests look up a few numbers; canonicity across bucket borders and at the tolerance needs particular values in a particular insertion order",
     ["src/dd/RealNumberUniqueTable.cpp", "include/mqt-core/dd/RealNumberUniqueTable.hpp"],
     [("neighbouring-bucket search", "RealNumberUniqueTable::lookup, findOrInsert, insertFront, insertBack"), ("mark-free sweep", "garbageCollect")],
     NOTE + "The allocator is replaced by its contract. Bucket lists of up to three arbitrary entries (bounded); buckets, values and counters arbitrary.",
     over=["inputs", "histories"], obs=["RealNumberUniqueTable::lookup, garbageCollect, incRef, decRef"])
prop("P10", "Unique tables store every node once, count references and collect garbage",
     "Looking up a node returns the stored node with the same level, successors and weights if there is one and gives the superfluous node back, otherwise the node is stored; no other stored node is moved or changed. Reference counts change by one, saturate, and the number of active nodes is kept. Garbage collection removes and gives back exactly the nodes nothing refers to, growing the table keeps its nodes, and clearing empties it.",
     "all nodes (vector, matrix, density matrix), all table contents, all hash collisions, all histories",
     "tests insert a few nodes; a lost, duplicated or prematurely freed node needs particular collisions and histories of reference counts",
     ["include/mqt-core/dd/UniqueTable.hpp", "src/dd/UniqueTable.cpp", "src/dd/Edge.cpp"],
     [("collision chains", "UniqueTable::lookup, searchTable, nodesAreEqual, hash"), ("counts", "UniqueTable::incRef, decRef"), ("sweep", "UniqueTable::garbageCollect"), ("size", "UniqueTable::resize, clear")],
     NOTE + "One operation from an arbitrary table of two levels with two buckets of up to two nodes (bounded); nodes, weights, counts and limits arbitrary. Stored weights are canonical (P09).",
     over=["inputs", "histories"], obs=["UniqueTable::lookup, incRef, decRef, garbageCollect, resize, clear"])
prop("P11", "Compute tables only return what was stored for exactly these operands",
     "A compute table lookup returns nothing or the result stored last for exactly these operands (for density-matrix operands also with the same temporary flags, for noise also for the same qubits), and never one stored before the last clear or of the other kind (density matrix or not). Every table has exactly its configured size, which must be a power of two, and clearing a table empties all of its slots.",
     "all operands, all hash collisions, all histories of insertions, lookups and clears, all table sizes",
     "tests look up a few operands in large tables; returning a colliding or outdated entry needs colliding operands in a particular history",
     ["include/mqt-core/dd/ComputeTable.hpp", "include/mqt-core/dd/UnaryComputeTable.hpp", "include/mqt-core/dd/DensityNoiseTable.hpp", "include/mqt-core/dd/StochasticNoiseOperationTable.hpp"],
     [("key comparison", "ComputeTable::lookup, UnaryComputeTable::lookup, DensityNoiseTable::lookup"), ("slots", "hash, insert, clear"), ("per-qubit cache", "StochasticNoiseOperationTable")],
     NOTE + "Tables of one or two slots and up to two insertions (bounded; a slot only depends on the last insertion into it); operands, results and flags arbitrary. The hash is replaced by its contract, which is proved for the real hash.",
     over=["inputs", "histories"], obs=["ComputeTable, UnaryComputeTable, DensityNoiseTable, StochasticNoiseOperationTable"])
prop("P12", "Garbage collection never changes diagrams in use or later results",
     "Whatever is computed, referenced, released and collected in whatever order, every referenced vector, matrix and density-matrix diagram keeps representing what it represented, and operations carried out after a collection, a clearing or a reset give correct results, because nothing that refers to a collected node or number is ever reused. Referencing and releasing a diagram counts every node exactly once per user, applying an operation keeps its result and releases its operand, and what nobody references any more is collected.",
     "all histories of computing, referencing, releasing, collecting, clearing and resetting",
     "tests collect once or twice at fixed points; a stale table entry or a missing reference shows only when a freed node is reused for something else",
     ["src/dd/Package.cpp", "include/mqt-core/dd/Package.hpp"],
     [("collection and cache invalidation", "Package::garbageCollect, clearComputeTables, reset"), ("reference counting", "Package::incRef, decRef"), ("result protocol", "Package::applyOperation, applyOperationToDensity")],
     NOTE + "Which kinds of nodes and numbers the entries of each table refer to is specified by hand; unique tables (P10), number table (P09) and compute tables (P11) are used through their contracts.",
     over=["inputs", "histories"], obs=["Package::garbageCollect, incRef, decRef, reset, applyOperation"])
prop("P13", "Memory hands out clean, distinct entries and never moves live ones",
     "Every entry obtained from a memory manager is zero-initialised where it was never used before, distinct from every entry in use, and keeps its address and content while further entries are obtained and others are given back. Entries given back are reused before new memory is taken, resetting makes all memory available again without leaving stale data, and the usage counters state the true numbers.",
     "all histories of obtaining, giving back and resetting; all chunk sizes and fill levels",
     "tests take a handful of entries; an entry handed out twice, a chunk border or stale data after a reset needs a particular history",
     ["src/dd/MemoryManager.cpp", "include/mqt-core/dd/MemoryManager.hpp"],
     [("free list and chunks", "MemoryManager::get, returnEntry, getEntryFromChunk, allocateNewChunk"), ("reuse of all memory", "MemoryManager::reset")],
     NOTE + "One operation from an arbitrary state with up to two chunks of three entries and two returned entries (bounded); counters and contents arbitrary.",
     over=["inputs", "histories"], obs=["MemoryManager::get, returnEntry, reset"])

prop("P14", "Complex arithmetic agrees with the field of complex numbers",
     "Sum, product, quotient, magnitude, conjugate and negation of complex values and of stored (sign-tagged) complex numbers equal the mathematical operation on the numbers they denote, for every combination of operand kinds. Negation and conjugation share the table entry, and reference counting changes the count by one and never the value.",
     "all values, all sign tags and constants, all operand-kind combinations",
     "tests use a few fixed numbers; a sign slip in one overload or for one sign tag survives them",
     ["src/dd/ComplexValue.cpp", "src/dd/Complex.cpp", "src/dd/ComplexNumbers.cpp", "src/dd/RealNumber.cpp"],
     [("operator overloads", "dd::operator+,*,/"), ("sign tagging", "RealNumber::flipPointerSign, val"), ("counts", "RealNumber::incRef, decRef")],
     NOTE, obs=["dd::ComplexValue, dd::Complex, dd::ComplexNumbers, dd::RealNumber"])

prop("P15", "Measurements have the right odds, outcomes and post-measurement states",
     "Measuring a qubit of a normalised state returns each outcome exactly for the random numbers that give it its Born probability, and replaces the state by the normalised projection onto the reported outcome (other states are rejected unchanged); measuring all qubits draws every qubit with its conditional probability and, when collapsing, leaves that basis state. The probabilities reported for qubits and subdiagrams are their squared norms. Measurement, reset and classically controlled operations act on the permuted qubits, store each outcome in its bit, flip a reset qubit exactly if it was 1, and apply the controlled operation exactly if the comparison with the register or bit holds, also for copies.",
     "all normalised states, all sampled numbers, all permutations, all register values and comparisons",
     "tests sample a few states with a fixed seed and check histograms loosely; diagrams that share nodes, vanishing branches and permuted qubits are rarely hit",
     ["src/dd/Package.cpp", "src/dd/Operations.cpp", "src/ir/operations/ClassicControlledOperation.cpp"],
     [("breadth-first accumulation of path probabilities", "Package::determineMeasurementProbabilities, assignProbabilities"),
      ("collapse", "Package::measureOneCollapsing, performCollapsingMeasurement, measureAll"),
      ("dynamic circuit primitives", "dd::applyMeasurement, applyReset, applyClassicControlledOperation")],
     NOTE + "Path probabilities over up to three levels with up to two nodes each (bounded), measureAll on up to three qubits (bounded), operations on up to three qubits and registers of up to four bits (bounded); everything else for all inputs.",
     obs=["Package::measureAll, measureOneCollapsing", "dd::applyMeasurement, applyReset, applyClassicControlledOperation"])
prop("P16", "Noise acts on density matrices as its channel, on states as samples of it",
     "Applying operations and the deterministic noise effects (amplitude damping, phase flip, depolarisation) to a density matrix gives exactly the gate conjugation followed by the Kraus sums of the effects on the used qubits, with the probability for the number of qubits involved, and intermediate in-place modifications of nodes are always undone. Measuring a density matrix returns each outcome with its Born probability and leaves the normalised projection. Stochastic noise draws every Pauli operation with its probability, damps with the probability given by the state, keeps the state normalised, and is on average the same channel.",
     "all density matrices, all probabilities, all noise effects in all orders, all sampled numbers",
     "tests compare a few diagonal entries of one circuit loosely; skipped levels, off-diagonal blocks, tagged pointers and multi-qubit probabilities need particular states",
     ["src/dd/NoiseFunctionality.cpp", "include/mqt-core/dd/Package.hpp", "src/dd/Node.cpp", "src/dd/Package.cpp"],
     [("channels", "DeterministicNoiseFunctionality::applyNoiseEffects, apply*ToEdges"), ("temporary modifications", "dNode::applyDmChangesToNode, revertDmChangesToNode"),
      ("density arithmetic", "Package::multiply, add2, trace, measureOneCollapsing (dEdge)"), ("sampling", "StochasticNoiseFunctionality")],
     NOTE + "One level of each recursion is proved for arbitrary diagrams; the tags with which one node is referred to within one call are assumed to agree, effects contain amplitude damping at most once; operations on one to three qubits and traces over three qubits (bounded).",
     obs=["DeterministicNoiseFunctionality::applyNoiseEffects", "StochasticNoiseFunctionality::applyNoiseOperation", "Package::measureOneCollapsing(dEdge&, ...)"])
prop("P17", "Arithmetic on symbolic expressions commutes with evaluation",
     "For every assignment of values to variables, evaluating the sum, difference, negation, scalar multiple or scalar quotient of symbolic expressions gives that operation on the evaluated operands, in every supported operand order. Expressions stay in canonical form (terms sorted by variable, one per variable, no zero coefficient), two expressions are equal exactly if their terms and constants agree, and only division by zero is rejected.",
     "all expressions and operand orders, all assignments",
     "tests add and multiply a few fixed expressions; merging terms of two sorted lists has cases (overlap, cancellation, operand order) that need particular variables",
     ["include/mqt-core/ir/operations/Expression.hpp"],
     [("merge of sorted term lists", "Expression::operator+=, operator-="), ("mixed operand overloads", "operator+,-,*,/")],
     NOTE + "Expressions with up to two terms each (bounded); variables, coefficients, constants and the assignment arbitrary. Comparison tolerances are idealised to exact equality.",
     obs=["sym::Expression, sym::Term operators, evaluate"])
prop("P18", "Instantiating a symbolic gate gives the gate of the evaluated parameters",
     "For every parameterised gate with any mix of symbolic and numeric parameters and every assignment, instantiating it (in place or as a new operation) yields an operation with the matrix of the gate at the evaluated parameters, on the same targets and controls. Inverting the symbolic operation first yields the adjoint of that matrix, copies behave alike, and the operation is symbolic exactly as long as one of its parameters is.",
     "all parameterised gate types, all symbolic/numeric patterns, all parameters and assignments",
     "tests instantiate few gates with one pattern; the gate simplification works on mixed symbolic and numeric parameters and may drop or permute one",
     ["src/ir/operations/SymbolicOperation.cpp", "src/ir/operations/StandardOperation.cpp"],
     [("symbolic gate canonicalisation", "SymbolicOperation::checkSymbolicUgate, parseU3, parseU2, parseU1"), ("instantiation", "instantiate, getInstantiatedOperation"), ("inversion", "SymbolicOperation::invert")],
     NOTE + "Symbolic parameters of the form c*x+k (longer ones: P17); checkUgate is used through its contract (P03), Term::evaluate through its contract.",
     obs=["SymbolicOperation::getInstantiatedOperation, instantiate, invert, equals"])
prop("P19", "Diagrams and dense vectors and matrices convert into each other exactly",
     "Every entry read from a diagram (by path, by index, or as dense or sparse vector or matrix) is the product of the weights along its path, skipped matrix levels meaning identity, and entries are only left out if they are below the requested threshold. Diagrams built from a dense vector or matrix have exactly those entries, and the zero, basis, product, GHZ and W state constructors build exactly those states on the requested qubits; sizes that do not fit are rejected.",
     "all diagrams, all entries, all thresholds, all dense inputs",
     "tests read a few entries of small diagrams; a wrong index bit, a lost weight or a mishandled skipped level needs particular shapes and positions",
     ["src/dd/Edge.cpp", "src/dd/Package.cpp"],
     [("reading", "Edge::getValueByPath, getValueByIndex, traverseVector, traverseMatrix, getVector, getMatrix"),
      ("building", "Package::makeStateFromVector, makeDDFromMatrix, makeZeroState, makeBasisState, makeGHZState, makeWState")],
     NOTE + "Traversals are proved one level at a time; path lengths, dense sizes and the standard states are bounded (two to four qubits).",
     obs=["Edge::getValueByPath, getValueByIndex, getVector, getMatrix", "Package::makeStateFromVector, makeDDFromMatrix, makeGHZState, ..."])
prop("P20", "Operations compare equal, inverse or commuting only if they really are",
     "Operations that compare equal (directly or up to qubit permutations) act identically: same type, parameters, controls with polarity and targets, where only phase gates may exchange controls and target; identical operations of every kind (standard, symbolic, measurement, reset, classic-controlled, compound) compare equal. An operation is reported as the inverse of another one only if it is, and two operations reported as commuting at every qubit commute. Reordering operations loses none and keeps the order of operations that share a qubit or a classical bit.",
     "all operation kinds and types, all qubits, controls, polarities, parameters and permutations",
     "tests compare a few hand-picked pairs; a wrong equality or commutation needs particular combinations of type, polarity, permutation and parameter",
     ["src/ir/operations/Operation.cpp", "src/ir/operations/StandardOperation.cpp", "src/ir/operations/NonUnitaryOperation.cpp", "src/ir/operations/CompoundOperation.cpp", "src/ir/operations/ClassicControlledOperation.cpp", "src/ir/operations/SymbolicOperation.cpp"],
     [("equality", "Operation::equals and its overrides"), ("inverse", "isInverseOf"), ("commutation", "commutesAtQubit")],
     NOTE + "Up to two controls and two targets per operation, compound operations of up to two; that contracts imply equal matrices rests on lemmas proved over the real gate matrices (diagonal flags, phase gates, one-parameter families). Compound isInverseOf and reorderOperations are covered by the native companion only (bounded).",
     obs=["Operation::operator==, equals", "isInverseOf, commutesAtQubit, QuantumComputation::reorderOperations"])
prop("P21", "Removing ancillary and garbage qubits keeps everything else of a diagram",
     "Reducing ancillary qubits zeroes exactly the entries of a matrix whose input (or output, in inverse mode) has one of them set. Reducing garbage qubits combines exactly the entries of a vector or matrix that differ in garbage positions only into one at garbage zero, with the root of the sum of the squared magnitudes, and without garbage nothing changes; asking for magnitudes only leaves real non-negative entries. This holds for every diagram, and the reference of the operand is handed over to the result.",
     "all vector and matrix diagrams, all sets of qubits, both directions, both modes",
     "tests reduce a few gates; skipped levels, shared successors, weighted identities and sets of several qubits need particular diagrams",
     ["src/dd/Package.cpp", "include/mqt-core/dd/Package.hpp"],
     [("ancillary qubits", "Package::createInitialMatrix, reduceAncillae, reduceAncillaeRecursion"), ("garbage qubits", "Package::reduceGarbage, reduceGarbageRecursion, addMagnitudes")],
     NOTE + "addMagnitudes at every level for arbitrary diagrams; the reductions for nodes up to level 2 of diagrams on 3 qubits (bounded), at level 2 every two successors at a time; weights and lower diagrams arbitrary.",
     obs=["Package::reduceAncillae, createInitialMatrix", "Package::reduceGarbage (vector and matrix)"])
prop("P22", "Simulation, functionality and sampling account for layouts and outputs",
     "Simulating a circuit or building its functionality (sequentially or recursively) applies every operation once, in order and on the levels that hold its qubits under the initial layout, accounting for SWAPs it executes by relabelling, moves every output to its requested position, reduces ancillary and garbage qubits and includes the global phase. Every sampled bit shows the qubit that was last measured into it (without measurements, the output at that position), in as many shots as asked for, also for circuits with mid-circuit measurements, resets and classical control. The caller's state or its reference is handed over, and exactly the result stays referenced.",
     "all circuits, layouts, output permutations, garbage and ancillary qubits, phases, measurement maps",
     "tests use trivial layouts and measurement maps; combinations of relabelled SWAPs, partial outputs, repeated measurements and few operations are needed",
     ["src/dd/Simulation.cpp", "src/dd/FunctionalityConstruction.cpp", "include/mqt-core/dd/Simulation.hpp", "include/mqt-core/dd/Operations.hpp"],
     [("simulation", "simulate, applyUnitaryOperation"), ("functionality", "buildFunctionality, buildFunctionalityRecursive"), ("output permutation", "changePermutation"), ("sampling", "sample")],
     NOTE + "Circuits on 3 qubits with up to 6 gates (recursive), 3 gates (sequential), 3 measurements and 4 dynamic operations (bounded); all layouts, outputs, outcomes and states within these. Diagram operations are used by contract.",
     obs=["simulate, sample", "buildFunctionality, buildFunctionalityRecursive, changePermutation"])

prop("P23", "Circuit optimisations keep the behaviour of circuits",
     "Removing identities, fusing single-qubit gates, reconstructing and decomposing SWAPs, cancelling CNOTs, replacing MCX by MCZ, flattening, and collecting blocks of unitary gates keep the operation a circuit performs exactly, including its measurements and classically controlled operations and their order; eliding permutations keeps it up to the updated layout and outputs, and backpropagating the output permutation yields a complete layout that reaches every output. Removing diagonal gates before measurements and eliminating resets keep the distribution of the classical outcomes, and removing final measurements keeps the distribution of the qubits. Each pass removes what it is named for: no identity, uncontrolled SWAP (decomposed or elided), controlled X, compound operation, final measurement or reset is left.",
     "all circuits of operations the passes document as supported",
     "tests compare a few circuits gate by gate; interplay with controls, compound operations, measurements and classical control needs particular sequences",
     ["src/circuit_optimizer/CircuitOptimizer.cpp", "src/ir/QuantumComputation.cpp"],
     [("local rewriting", "singleQubitGateFusion, swapReconstruction, cancelCNOTs, decomposeSWAP, replaceMCXWithMCZ"), ("removal", "removeIdentities, removeDiagonalGatesBeforeMeasure, removeFinalMeasurements, eliminateResets"), ("structure", "flattenOperations, collectBlocks, reorderOperations"), ("permutations", "elidePermutations, backpropagateOutputPermutation")],
     NOTE + "Circuits of up to three (partly four) operations on two or three qubits from the alphabet of each pass (bounded), on arbitrary states and with arbitrary phase and generic gates. deferMeasurements, and collectBlocks on circuits with measurements or resets, are not claimed (findings in DESIGN.md).",
     obs=["the passes of CircuitOptimizer"])

prop("P24", "Graphs, disjoint sets and symmetric matrices represent what was added",
     "A directed graph knows exactly the vertices and edges that were added, with their degrees and numbers; an acyclic graph moreover rejects exactly the edges that would close a cycle, knows which vertices reach which others, and orders its vertices so that every edge leads forward. An undirected graph rejects repeated edges and reports adjacency, labels, degrees, neighbours and adjacent edges consistently and symmetrically, including those of loops. Elements of a disjoint-set structure have the same representative exactly if unions connect them, and a symmetric matrix has one entry for each unordered pair of indices.",
     "all graphs, histories of insertions and unions, and indices",
     "tests build one small graph each; cycles through several earlier edges, loops and repeated unions need particular histories",
     ["include/mqt-core/datastructures/DirectedGraph.hpp", "include/mqt-core/datastructures/DirectedAcyclicGraph.hpp", "include/mqt-core/datastructures/UndirectedGraph.hpp", "include/mqt-core/datastructures/DisjointSet.hpp", "include/mqt-core/datastructures/SymmetricMatrix.hpp"],
     [("acyclic graphs", "DirectedAcyclicGraph::addEdge, isReachable, orderTopologically"), ("undirected graphs", "UndirectedGraph::addEdge, isAdjacent, getNeighbours"), ("disjoint sets", "DisjointSet::findSet, unionSet")],
     NOTE + "Directed graphs: the representation invariant is established and kept for every graph of up to four vertices, so all histories of such graphs are covered. Undirected graphs on three vertices, three unions of four elements, matrices of up to four rows (bounded). Layer is not claimed (finding in DESIGN.md).",
     obs=["DirectedGraph, DirectedAcyclicGraph", "UndirectedGraph", "DisjointSet", "SymmetricMatrix"])

NA = {}
