"""Which specification modules decide which property."""
PROPS = {
 "C01": dict(specs=["arith"], replay="replay.cpp", note="Result-over-operand aliasing is covered for the pattern the code uses (same part over same part)."),
 "C02": dict(specs=["numtable"], replay="replay.cpp", note="Values are mathematical reals; requested magnitudes below 2^40 and tolerance below 1e-6 (the bucket width); the table constructor and clear() are outside the proof."),
 "C03": dict(specs=["numgc"], replay="replay.cpp", note="clear() and the constructor are outside the proof."),
 "C04": dict(specs=["cache"], replay="replay.cpp"),
 "C05": dict(specs=["unique"], replay="replay.cpp", note="Nodes keep their contents while stored (density nodes: no temporary view is switched on while they are stored); fewer than 2^64 nodes. clear() and resize() are not covered."),
 "C06": dict(specs=["refs"], replay="replay.cpp", note="Successors of a stored node exist (no null edges) and are the terminal or of a lower level; operands carry no temporary flags; fewer than 2^64 outstanding acquisitions. The counts of single numbers are C03."),
 "C07": dict(specs=["nodegc"], replay="replay.cpp", note="At most 128 levels (the qubit type), fewer than 2^60 nodes; the chunk pool and the lists are the representation invariant of C05."),
 "C08": dict(specs=["pkggc"], replay="replay.cpp", note="The collectors of the tables by contract: what they keep is C07 (nodes) and C03 (numbers); that clear() empties a memo table is C09 and C24."),
 "C09": dict(specs=["memo"], replay="replay.cpp", note="Every instantiation of the five table templates in the package (and the larger density and noise tables of other configurations). std::set and std::vector operands by their content (equality and copying are trusted); the hash of a weight is taken as a function of its value (rounding to an integer); fewer than 2^64 insertions between two clears."),
 "C10": dict(specs=["node", "dd_trans"], replay="replay.cpp", note="State and matrix nodes (density nodes share the template and are not claimed); the unique table by contract (C05-C07)."),
 "C11": dict(specs=["dd_add"], replay="replay.cpp", note="Node construction and memo tables by contract (C10, C09)."),
 "C12": dict(specs=["dd_mul", "dd_add"], replay="replay.cpp", note="Node construction and memo tables by contract (C10, C09)."),
 "C13": dict(specs=["kron", "ident"], replay="replay.cpp", note="Default mode (the left operand is moved above the right one), levels starting at 0; node construction and memo tables by contract (C10, C09)."),
 "C14": dict(specs=["dd_trans"], replay="replay.cpp", note="Node construction and memo tables by contract (C10, C09)."),
 "C15": dict(specs=["inner"], replay="replay.cpp", note="Lowest level 0; operands of the same size; the product of operator and state is C12; memo tables by contract (C09); that the level-wise sum is the sum over all indices is its definition by recursion."),
 "C16": dict(specs=["trace", "dd_add"], replay="replay.cpp", note="Lowest level 0; node construction and memo tables by contract (C10, C09); std::vector<bool> and the algorithms over it by trusted contract; that an unmarked matrix is its own partial trace, and that a fully marked one ends at the terminal, are inductions whose steps are proved."),
 "C18": dict(specs=["gates"], replay="replay.cpp", note="cos and sin by their defining identities and addition theorems; the double constants SQRT2_2 and PI stand for the exact numbers."),
 "C19": dict(specs=["state"], replay="replay.cpp", note="Node construction by contract, with its normal form (C10); start + n does not wrap around and a basis string names every qubit up to the last one built; amplitude vectors of at most 2^30 entries; std::vector, its iterators, std::string and log2 of a power of two by trusted contract; SQRT2_2 stands for the exact number."),
 "C20": dict(specs=["entries"], replay="replay.cpp", note="Lowest level 0, at most 30 qubits; node construction by contract (C10); std::vector, std::string and log2 of a power of two by trusted contract; that the blocks of a matrix make up the matrix is its definition by recursion (one step of it is proved for reading and for building)."),
 "C23": dict(specs=["dmviews"], replay="replay.cpp", note="Two edges switched together point to different nodes (switching one node twice is outside the contract, as the assertion in applyDmChangesToNode states)."),
 "C24": dict(specs=["ident", "pkggc"], replay="replay.cpp", note="Node construction by contract (C10)."),
}
NA = {
 "C17": "makeGateDD/makeTwoQubitGateDD walk a std::set of controls while they build four partial diagrams; the iteration contract for the set and the two loop invariants over partial gate diagrams were not brought under contract in the time available. The bounded replay of this property is not offered as a check.",
 "C21": "The outcome is drawn from a std::mt19937_64 ('according to these probabilities' is a statement about a random generator, not a functional postcondition), and the probabilities are sums over all paths gathered by std::queue/std::map traversals with rounding thresholds; no contract within this verifier's reach expresses it.",
 "C22": "The round trip goes through iostreams, decimal printing and parsing of doubles and std::regex, which are outside the analysed code; a contract for them strong enough to conclude the property would be the property itself.",
 "C25": "reduceAncillae and its recursion are not under contract (two defects in them were found by the bounded replay and repaired); without a discharged contract no proof is claimed.",
}
