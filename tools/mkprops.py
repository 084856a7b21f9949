#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that the text has one source)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": None}})
I = "include/dd/"
prop("C01", "Arithmetic on edge weights is complex arithmetic",
 "Adding, subtracting, multiplying, dividing, conjugating, negating and taking the squared magnitude of complex edge weights yields the value the complex-number operation defines for the operands' values. This holds for every sign and magnitude of the parts, for the shared constants zero and one, and also when the result is written over one of the operands. Operands that are not the result, and the shared constants, are left unchanged.",
 ["inputs"], "all operand values, all sign encodings, all aliasings of result and operands, all shared-constant operands",
 "The tests multiply and add a handful of numbers; shortcut cases, sign bits and aliasing form a product space they sample at a few points.",
 [I+"ComplexNumbers.hpp", I+"ComplexTable.hpp", I+"Complex.hpp", I+"ComplexCache.hpp"],
 [("ComplexNumbers::add/sub/mul/div/mag2/conj/neg and the *Cached variants", I+"ComplexNumbers.hpp"), ("sign stored in the low pointer bit", I+"ComplexTable.hpp Entry")],
 [("Complex{r,i}", "handles of the real and imaginary magnitude, sign in the low bit", I+"Complex.hpp")],
 ["ComplexNumbers static arithmetic"])
prop("C02", "Number lookup is sound, within tolerance and free of near-duplicates",
 "Looking up a number returns a handle whose signed value differs from the requested one by at most the tolerance; if a value within the tolerance is already stored (or is one of the built-in constants) that stored number is returned and nothing is added, otherwise exactly one new number with the requested value is added. Consequently stored magnitudes always stay pairwise further apart than the tolerance, however lookups and collections are interleaved.",
 ["inputs", "histories"], "every requested value, every reachable table content, every tolerance below the bucket width",
 "Tests look up a few values around bucket borders; the invariant over all table contents and histories cannot be sampled.",
 [I+"ComplexTable.hpp", I+"ComplexNumbers.hpp"],
 [("ComplexTable::lookup/findOrInsert/insert", I+"ComplexTable.hpp"), ("ComplexNumbers::lookup", I+"ComplexNumbers.hpp")],
 [("table/tailTable", "sorted bucket chains and their last elements", I+"ComplexTable.hpp")], ["ComplexTable::lookup", "ComplexNumbers::lookup"])
prop("C03", "Number reference counts and reclamation",
 "Every acquire of a stored number raises its reference count by exactly one and every release lowers it by exactly one (saturated counts and the built-in constants never change, releasing an unreferenced number is reported as an error). Garbage collection removes exactly the numbers with reference count zero and reports how many it removed; every referenced number keeps its identity and value and is still found by lookup afterwards.",
 ["inputs", "histories"], "every table content, every reference-count state, every sequence of acquire, release, lookup and collect",
 "The tests collect tables with one or two entries; unlinking at head, middle and tail of arbitrary chains is not exercised.",
 [I+"ComplexTable.hpp", I+"ComplexNumbers.hpp"],
 [("ComplexTable::incRef/decRef/garbageCollect", I+"ComplexTable.hpp")],
 [("refCount", "per-entry reference count", I+"ComplexTable.hpp")], ["ComplexTable::garbageCollect", "ComplexNumbers::garbageCollect"])
prop("C04", "Scratch complex numbers are never handed out twice",
 "A scratch complex number obtained from the package is always distinct from every scratch number that is still in use, its two parts are distinct, and it carries exactly the requested value. Returning a scratch number makes it available again, and the in-use count equals the numbers handed out minus those returned; merely peeking at a temporary changes neither.",
 ["histories"], "every sequence of obtain, peek and return operations, including growth of the backing storage",
 "Double hand-out shows only in specific obtain/return/grow interleavings; tests follow two or three.",
 [I+"ComplexCache.hpp", I+"ComplexNumbers.hpp"],
 [("ComplexCache::getCachedComplex/getTemporaryComplex/returnToCache", I+"ComplexCache.hpp")],
 [("available/count", "free list of scratch entries and number in use", I+"ComplexCache.hpp")], ["ComplexNumbers::getCached", "ComplexNumbers::returnToCache", "ComplexNumbers::cacheCount"])
prop("C05", "Structurally equal nodes are shared",
 "Storing a node whose level-wise contents equal those of a stored node yields that stored node, otherwise the given node itself becomes stored and is later found; so at any time no two stored nodes are structurally equal. A node handed out as fresh is never a node that is stored or still in use elsewhere, and stored nodes are not altered by storing others. (Density nodes: while no temporary view of them is switched on.)",
 ["inputs", "histories"], "every table content, every node content, every sequence of obtain, store and return operations, for state, matrix and density nodes",
 "Canonicity is a statement over all table contents; tests compare a few hand-built diagrams.",
 [I+"UniqueTable.hpp", I+"Node.hpp"],
 [("UniqueTable::lookup/searchTable/getNode/returnNode", I+"UniqueTable.hpp")],
 [("tables", "hash chains per variable", I+"UniqueTable.hpp")], ["UniqueTable::lookup"])
prop("C06", "Node reference counts match their users",
 "After any sequence of acquire and release operations on diagrams, each node's reference count equals the number of outstanding external acquisitions plus the number of edges from referenced nodes to it (unless saturated), and likewise for the edge weights. In particular everything reachable from an acquired diagram is referenced, and releasing an unreferenced node is reported as an error.",
 ["inputs", "histories"], "every diagram shape (shared sub-diagrams included) and every sequence of acquire and release",
 "Sharing patterns are unbounded; tests check the count of one node.",
 [I+"UniqueTable.hpp", I+"Package.hpp", I+"ComplexNumbers.hpp"],
 [("UniqueTable::incRef/decRef", I+"UniqueTable.hpp"), ("Package::incRef/decRef", I+"Package.hpp")],
 [("ref", "per-node reference count", I+"Node.hpp")], ["Package::incRef", "Package::decRef"])
prop("C07", "Node collection removes exactly the unreferenced nodes",
 "When a node collection runs, it removes exactly the stored nodes whose reference count is zero and reports their number; all other nodes stay stored, unaltered and are still found by lookup. When fewer nodes are stored than the collection threshold and collection is not forced, nothing changes.",
 ["inputs", "histories"], "every table content and reference-count state, for state, matrix and density nodes",
 "Unlinking from arbitrary chains over all variables and buckets; tests collect one or two nodes.",
 [I+"UniqueTable.hpp"], [("UniqueTable::garbageCollect", I+"UniqueTable.hpp")],
 [("nodeCount", "number of stored nodes", I+"UniqueTable.hpp")], ["UniqueTable::garbageCollect"])
prop("C08", "No memoised result refers to collected data",
 "Whenever a garbage collection of the package removes nodes of some kind or removes numbers, every memoised operation result that could refer to a removed node or number is forgotten before the collection returns; when numbers are removed, unreferenced nodes of every kind (whose weights are unreferenced, too) are removed with them. Clearing the compute tables or resetting the package forgets every memoised result. A collection reports success exactly when it removed something.",
 ["histories"], "every combination of which node kinds and numbers were collected, for forced and threshold-driven collections",
 "A stale memo entry becomes visible only when a removed object is recycled at the same address and the same operation is repeated.",
 [I+"Package.hpp"], [("Package::garbageCollect/clearComputeTables/reset", I+"Package.hpp")], [], ["Package::garbageCollect"])
prop("C09", "Memo tables only return what was stored for the same operands",
 "A memo-table lookup yields a result only if exactly that result was inserted for the same operands (the same node with weights that compare equal, i.e. agree within the tolerance, and for a density-matrix node the same temporary view flags; and the same auxiliary key: qubit count, control set, target, used qubits, operation) and the table has not been cleared since; in all other cases it reports a miss. An insertion makes its own result available to the next lookup of the same operands and never makes a different result appear for other operands.",
 ["inputs", "histories"], "every operand pair, every hash collision pattern, every insert/lookup/clear history, for all memo-table kinds",
 "A wrong hit needs a hash collision between specific operands; tests never provoke one.",
 [I+"ComputeTable.hpp", I+"UnaryComputeTable.hpp", I+"ToffoliTable.hpp", I+"DensityNoiseTable.hpp", I+"StochasticNoiseOperationTable.hpp"],
 [("lookup/insert/clear of each table", I+"ComputeTable.hpp")], [], ["ComputeTable::lookup"])
prop("C10", "Node construction preserves meaning and yields normal form",
 "Building a state or matrix node from successor edges returns an edge that represents exactly the vector or matrix whose quarters or halves the successors represent (zero if all are zero), in exact arithmetic. The resulting node is in normal form: the squared magnitudes of a state node's two weights sum to one with the weight of the larger one real and positive, a matrix node's largest weight is one and all magnitudes are at most one, and zero weights point to the terminal.",
 ["inputs"], "all successor edges and weights, cached and uncached construction",
 "Weights are continuous; tests build a few concrete nodes.",
 [I+"Package.hpp"], [("Package::normalize/makeDDNode", I+"Package.hpp")], [], ["Package::makeDDNode"])
prop("C11", "Addition of diagrams adds vectors and matrices",
 "The diagram returned by adding two diagrams represents, at every index, the sum of the two operands' entries, in exact arithmetic. All scratch numbers used on the way are given back.",
 ["inputs", "histories"], "all operand diagrams of equal size, any memo-table content consistent with earlier operations",
 "Tests add a few small diagrams, mostly with equal structure.",
 [I+"Package.hpp"], [("Package::add/add2", I+"Package.hpp")], [], ["Package::add"])
prop("C12", "Multiplication of diagrams multiplies matrices",
 "The diagram returned by multiplying a matrix diagram with a vector or matrix diagram represents the matrix product, at every index, in exact arithmetic. All scratch numbers used on the way are given back.",
 ["inputs", "histories"], "all operand diagrams of equal size, any memo-table content consistent with earlier operations",
 "Tests multiply a few gates; identity shortcuts, zero edges and memo hits form many combinations.",
 [I+"Package.hpp"], [("Package::multiply/multiply2", I+"Package.hpp")], [], ["Package::multiply"])
prop("C13", "Kronecker product and extension",
 "The Kronecker product of two diagrams represents the tensor product of the represented vectors or matrices, entry by entry, in exact arithmetic, whether or not the left operand is an identity and whatever the operands' weights (the levels of the left operand being moved above those of the right one, which is the default mode). Extending a matrix diagram by identity qubits above or below is the tensor product with identities.",
 ["inputs", "histories"], "all operand diagrams and weights, any consistent memo-table content",
 "Tests use Bell-state-sized operands with unit weights.",
 [I+"Package.hpp"], [("Package::kronecker/kronecker2/extend", I+"Package.hpp")], [], ["Package::kronecker", "Package::extend"])
prop("C14", "Transposition and conjugate transposition",
 "Transposing a matrix diagram yields the diagram of the transposed matrix, conjugate-transposing yields that of the adjoint, at every index and in exact arithmetic, and neither changes its operand. A matrix node marked symmetric represents a symmetric matrix and one marked identity represents an identity.",
 ["inputs", "histories"], "all matrix diagrams, any consistent memo-table content",
 "The symmetry shortcut is only wrong for nodes whose flag is wrong; tests transpose a few gates.",
 [I+"Package.hpp"], [("Package::transpose/conjugateTranspose/checkSpecialMatrices", I+"Package.hpp")], [], ["Package::transpose", "Package::conjugateTranspose"])
prop("C15", "Inner product, fidelity and expectation value",
 "The inner product of two state diagrams equals the sum over all indices of the conjugated first amplitude times the second, the fidelity is its squared magnitude, and the expectation value of an operator is the real part of the inner product of the state with the operator applied to it, in exact arithmetic.",
 ["inputs", "histories"], "all state diagrams, any consistent memo-table content",
 "Tests use product and Bell states with real amplitudes, for which conjugation errors are invisible.",
 [I+"Package.hpp"], [("Package::innerProduct/fidelity/expectationValue", I+"Package.hpp")], [], ["Package::innerProduct"])
prop("C16", "Trace and partial trace",
 "The trace of a matrix diagram is the sum of the diagonal entries, and the partial trace over a set of qubits is the matrix obtained by summing the diagonal blocks of the eliminated qubits, in exact arithmetic. The marking names every qubit of the matrix.",
 ["inputs"], "all matrix diagrams and all subsets of eliminated qubits",
 "Tests trace identities and one gate.",
 [I+"Package.hpp"], [("Package::trace/partialTrace", I+"Package.hpp")], [], ["Package::trace", "Package::partialTrace"])
prop("C17", "Gate diagrams represent the controlled gate",
 "Building the diagram of a single-qubit gate with any set of positive and negative controls and any target (controls above or below the target) yields the matrix that applies the gate to the target when all controls are satisfied and is the identity otherwise; a two-qubit gate diagram yields the matrix acting on the two targets in the given order and as identity elsewhere.",
 ["inputs", "configurations"], "all gate matrices, numbers of qubits, targets, control sets and polarities",
 "Tests cover a few control/target layouts of X and Z.",
 [I+"Package.hpp", I+"Control.hpp"], [("Package::makeGateDD/makeTwoQubitGateDD", I+"Package.hpp")], [], ["Package::makeGateDD"])
prop("C18", "Gate matrices have their standard definition",
 "Each predefined gate matrix, constant or parametrised, equals the textbook definition of that gate for every parameter value (the angle beta of the XX-YY and XX+YY gates entering as e^{+i beta} in the upper and e^{-i beta} in the lower off-diagonal entry); in particular every one is unitary, inverse pairs are mutually inverse, and rotations by angle zero are the identity.",
 ["inputs"], "all angles",
 "Parameters are real numbers; tests evaluate few angles and mostly check that code runs.",
 [I+"GateMatrixDefinitions.hpp"], [("gate constants and *mat functions", I+"GateMatrixDefinitions.hpp")], [], ["Xmat...", "U3mat", "RXmat..."])
prop("C19", "State construction",
 "Constructing the zero state, a computational or product basis state, or a state from an amplitude vector yields a diagram whose amplitude at every index is the one requested, for every number of qubits and start offset allowed (a basis string names every qubit from zero up to the last one built); requests exceeding the configured number of qubits are rejected.",
 ["inputs", "configurations"], "all sizes, basis strings and amplitude vectors",
 "Tests construct a few small states.",
 [I+"Package.hpp"], [("Package::makeZeroState/makeBasisState/makeStateFromVector", I+"Package.hpp")], [], ["Package::makeBasisState", "Package::makeStateFromVector"])
prop("C20", "Reading amplitudes and matrix entries",
 "Reading a single amplitude or matrix entry by index or by path returns the product of the weights along exactly that path, zero as soon as a weight on it is zero, and leaves the diagram unchanged; building a matrix diagram from a dense matrix and reading it back returns the entries.",
 ["inputs"], "all diagrams and all indices",
 "Tests read a few entries.",
 [I+"Package.hpp"], [("Package::getValueByPath", I+"Package.hpp")], [], ["Package::getValueByPath"])
prop("C21", "Measurement collapses to the announced outcome",
 "The probability pair reported for a qubit sums to the state's squared norm and equals the squared norms of the projections; a collapsing measurement returns outcome 0 or 1 according to these probabilities and leaves the normalised projection onto that outcome as the state. Measuring all qubits returns a bit string reachable with non-zero amplitude.",
 ["inputs", "histories"], "all states, qubits and random draws",
 "Outcomes are random; tests check a Bell state.",
 [I+"Package.hpp"], [("Package::determineMeasurementProbabilities/measureOneCollapsing/measureAll", I+"Package.hpp")], [], ["Package::measureOneCollapsing"])
prop("C22", "Serialised diagrams read back unchanged",
 "Writing a state or matrix diagram to text or binary form and reading it back into a package of sufficient size yields a diagram representing the same vector or matrix (in binary form the identical edge within the same package); malformed or oversized input is rejected with an error.",
 ["inputs"], "all diagrams, both formats",
 "Tests write and read Bell-sized diagrams.",
 [I+"Export.hpp", I+"Package.hpp"], [("serialize/deserialize", I+"Export.hpp")], [], ["serialize", "Package::deserialize"])
prop("C23", "Density-matrix edge views are reversible and exact",
 "Switching a density-matrix edge to its conjugated or transposed view and back leaves the node's successor edges, weights and flags exactly as before, and the view presents exactly the conjugated, respectively block-transposed, successors. The node address is never changed by the tag bits.",
 ["inputs"], "all density nodes, flag and tag combinations",
 "The flags form a product space with the node contents; tests run a few noise simulations.",
 [I+"Node.hpp", I+"Package.hpp"], [("dNode::applyDmChangesToEdge/revertDmChangesToEdge and siblings", I+"Node.hpp")], [], ["dEdge::applyDmChangesToEdges"])
prop("C24", "Identity diagrams",
 "Requesting the identity over any contiguous range of qubits yields a diagram of the identity matrix on exactly that range with weight one, whatever ranges were requested before, and the stored identities are dropped when the package is reset, its compute tables are cleared or matrix nodes are collected.",
 ["inputs", "histories"], "all ranges and all request histories",
 "Tests request identities from qubit zero in increasing size.",
 [I+"Package.hpp"], [("Package::makeIdent/idTable", I+"Package.hpp")], [], ["Package::makeIdent"])
prop("C25", "Ancilla reduction",
 "Reducing ancillary qubits zeroes exactly the matrix columns (regular mode) or rows in which a marked qubit is one and leaves every other entry as it was, in exact arithmetic, for any marking of qubits; unmarked diagrams are returned unchanged.",
 ["inputs"], "all diagrams and all qubit markings",
 "Tests mark one or two qubits of small circuits.",
 [I+"Package.hpp"], [("Package::reduceAncillae/reduceAncillaeRecursion", I+"Package.hpp")], [], ["Package::reduceAncillae"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
