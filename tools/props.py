#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table below and specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import specs
L = "cpp/lib_moment/"
def P(id, title, st, over, q, why, files, mech, state=None, obs=None):
    d = dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why, anchors=dict(files=[L + f for f in files], mechanism=[dict(name=a, where=L + b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=L + c) for a, b, c in state]
    if obs: d["anchors"]["observe_at"] = obs
    return d
PROPS = [
P("C01", "Word codes are an injective, order-preserving enumeration of words",
  "For an alphabet of any supported size, the numeric code of a word is unique to that word, and codes order words first by length and then lexicographically, for every word up to the advertised longest encodable length. The code of any contiguous sub-word obtained incrementally equals the code computed from scratch, and no word within the advertised length overflows the code.",
  ["inputs"], "all pairs of words over all alphabet sizes, up to the longest encodable length",
  "Tests encode a handful of short words over small alphabets; collisions or overflow only show for particular pairs or at the extreme length.",
  ["shortlex_hasher.h", "utilities/substring_hasher.h", "hashed_sequence.h"], [("positional code with precomputed strides", "shortlex_hasher.h"), ("sub-word walker", "utilities/substring_hasher.h")]),
P("C02", "Signs act as fourth roots of unity and words compare consistently",
  "The sign attached to a word multiplies, conjugates, negates and converts exactly like a fourth root of unity. Word equality, ordering and sign-difference tests agree with comparing code and sign, a strict total order results, and the zero word is annihilating and distinct from identity.",
  ["inputs"], "all pairs and triples of signs and words", "Tests look at a few sign products; the algebra has to be closed for all combinations because every later simplification relies on it.",
  ["sequence_sign_type.h", "hashed_sequence.h", "hashed_sequence.cpp"], [("sign arithmetic", "sequence_sign_type.h"), ("word comparison", "hashed_sequence.h")]),
P("C03", "Bit sets behave as mathematical sets of indices",
  "For every capacity, including zero and exact multiples of the page width, set, unset, test, complement, union, intersection, symmetric difference, population count, emptiness, first index, iteration and comparison agree with a set of integers. No operation ever exposes an index at or beyond the capacity.",
  ["inputs", "histories"], "all bit patterns at page boundaries and all short operation sequences", "Tests fix a few sizes and patterns; errors hide in the final partial page.",
  ["utilities/dynamic_bitset.h"], [("masked final page", "utilities/dynamic_bitset.h")]),
P("C04", "Small-buffer vectors behave like ordinary sequences under any history",
  "Any sequence of construction, append, insert, erase, resize, clear, reserve, copy, move, assignment and swap leaves the container with exactly the contents an ordinary sequence would have. Crossing the inline/heap boundary in either direction never loses, duplicates or corrupts elements and never accesses memory out of bounds.",
  ["histories", "inputs"], "operation histories of bounded length with arbitrary values around the inline capacity", "Tests check single operations from fixed states; the defects of such containers need specific sequences over the boundary.",
  ["utilities/small_vector.h"], [("inline buffer with heap spill", "utilities/small_vector.h")]),
P("C05", "Simplification of operator words is a canonical form in locality scenarios",
  "Two operator words denote the same operator (operators of different parties commute, projectors are idempotent, outcomes of one measurement are orthogonal) if and only if their simplified forms are identical, and simplified forms are shortest and fixed under further simplification. Multiplication, conjugation, negation and appending commute with simplification, multiplication is associative, and the code carried always matches the stored word.",
  ["inputs", "configurations"], "all words, signs and party/measurement/outcome layouts within bounds", "Tests multiply a few specific words in two or three layouts.",
  ["dictionary/operator_sequence.cpp", "dictionary/operator_sequence.h", "scenarios/context.cpp", "scenarios/locality/locality_context.cpp", "scenarios/locality/party.cpp"], [("sort by party then cancel", "scenarios/locality/locality_context.cpp"), ("hash upkeep", "dictionary/operator_sequence.cpp")]),
P("C06", "Inflation scenarios have canonical words and canonical moments",
  "In an inflated network two words denote the same operator exactly when their simplified forms agree, and the canonical representative of a moment is a moment related to it by permuting copies of sources, unchanged by further simplification. Moments whose operators correspond one to one in order under such a permutation share it, unrelated moments never do, and the factors of a moment are exactly its source-connected components.",
  ["inputs", "configurations"], "all words and observable-variant lists over small networks and inflation levels", "Tests examine a few hand-picked moments of the triangle and pair scenarios.",
  ["scenarios/inflation/inflation_context.cpp", "scenarios/inflation/observable.cpp", "scenarios/inflation/causal_network.cpp"], [("permutation of source copies", "scenarios/inflation/inflation_context.cpp")]),
P("C07", "Pauli words multiply, commute and conjugate as the matrices they name",
  "Simplifying, multiplying and conjugating words of Pauli operators on any number of qubits yields the same matrix, including the phase, as the product of the named matrices; each site contributes at most one operator in site order. Commutators and anticommutators of polynomials equal AB-BA and AB+BA exactly; those of single words are half of that, zero exactly when they vanish.",
  ["inputs"], "all words and phases on a bounded number of qubits", "Tests check selected products; phases combine over many sites.",
  ["scenarios/pauli/pauli_context.cpp", "scenarios/pauli/pauli_context.h"], [("site-wise products with accumulated sign", "scenarios/pauli/pauli_context.cpp")]),
P("C08", "Lattice translation symmetry picks one representative per orbit",
  "Two Pauli words have the same simplified moment if and only if one is a translation of the other under the wrapping rule of the lattice, and the representative is itself a translate of the word. The packed-bit encoding of words, shifts along rows and columns and subset tests agree with moving qubits one at a time on every lattice shape.",
  ["inputs", "configurations"], "all words on lattices of bounded shape, wrapping and open", "Tests cover particular lattices; packing spans machine words only for larger ones.",
  ["scenarios/pauli/symmetry/site_hasher.h", "scenarios/pauli/symmetry/moment_simplifier_wrapping.h", "scenarios/pauli/symmetry/moment_simplifier_no_wrapping.cpp", "scenarios/pauli/symmetry/lattice_duplicator.cpp"], [("packed cyclic shifts", "scenarios/pauli/symmetry/site_hasher.h")]),
P("C09", "Algebraic rewriting is sound, terminating and, when complete, canonical",
  "Reducing a word by a rulebook only applies the given equalities, terminates, is idempotent and tracks signs exactly; a word equal to zero is reported as zero. A rulebook declared complete reduces any two words connected by its rules to the same word, and completion never equates words the original rules and their conjugates do not. (Rules that make the identity zero are excluded.)",
  ["inputs", "configurations"], "all words up to a length under symbolic choice of rules", "Tests complete a few fixed rulebooks and reduce a few words.",
  ["scenarios/algebraic/operator_rulebook.cpp", "scenarios/algebraic/operator_rule.cpp", "scenarios/algebraic/algebraic_context.cpp"], [("rewriting and overlap completion", "scenarios/algebraic/operator_rulebook.cpp")]),
P("C10", "Dictionaries enumerate every canonical word up to a length exactly once",
  "The list of words generated up to a given length contains every non-zero canonical word of that length or less exactly once, starting at the identity and in order of length (in increasing code order where one generic enumeration is used), and nothing else; a list handed out stays valid. The conjugate list pairs entry by entry with the conjugates, for every scenario kind.",
  ["inputs", "configurations"], "all words over bounded layouts and lengths, for generic, locality, inflation, Pauli and algebraic scenarios", "Tests check listings for a few scenarios.",
  ["dictionary/operator_sequence_generator.cpp", "dictionary/dictionary.cpp", "dictionary/multi_operator_iterator.h", "scenarios/locality/locality_osg.cpp", "scenarios/pauli/pauli_osg.cpp"], [("generate, canonicalise, dedupe", "dictionary/operator_sequence_generator.cpp")]),
P("C11", "Symbol registration is a bijection from moments modulo conjugation",
  "After any history of registrations, each distinct canonical moment has exactly one symbol, a moment and its conjugate share it with the conjugation flag set appropriately, and lookups return the symbol, sign and conjugation that reproduce the moment. Real/imaginary basis columns are dense, unique, present exactly when the part can be non-zero, and merging never resurrects a vanished part.",
  ["histories", "inputs"], "all registration histories of bounded length over arbitrary words and signs", "No existing test in the built suite exercises the symbol table.",
  ["symbolic/symbol_table.cpp", "symbolic/symbol.h", "symbolic/symbol_lookup_result.h"], [("hash index with conjugation flag", "symbolic/symbol_table.cpp")]),
P("C12", "Polynomials are canonical and behave as complex linear combinations",
  "Any polynomial built, added, subtracted, scaled, conjugated or negated has strictly ordered terms, no duplicate and no zero terms, and evaluates like the complex linear combination it denotes under every assignment of symbol values. Classification as zero, scalar, monomial, real or Hermitian agrees with that denotation.",
  ["inputs"], "all polynomials of bounded term count over symbolic symbol identities and exactly represented coefficients", "Polynomials are not covered by the built suite.",
  ["symbolic/polynomial.cpp", "symbolic/polynomial.h", "symbolic/polynomial_factory.cpp", "symbolic/polynomial_ordering.h", "symbolic/monomial.h"], [("sort, merge, prune", "symbolic/polynomial.cpp")]),
P("C13", "Moment rules eliminate their leading term; reduction is canonical",
  "A rule made from a polynomial equation replaces its leading symbol so that the equation holds identically after substitution, for every coefficient and conjugation pattern. Reduction by a rulebook is idempotent, linear, never reintroduces an eliminated symbol, and yields a value equal to the original whenever all equations hold.",
  ["inputs"], "all small polynomials and rulebooks of a few rules with symbolic symbol ids, conjugation and coefficients", "Rules are not covered by the built suite.",
  ["symbolic/rules/moment_rule.cpp", "symbolic/rules/moment_rulebook.cpp"], [("leading-term elimination", "symbolic/rules/moment_rule.cpp"), ("rulebook completion", "symbolic/rules/moment_rulebook.cpp")]),
P("C14", "Tensor indexing is a bijection between index tuples and storage offsets",
  "For every shape, converting index tuples to offsets and back is the identity, offsets are dense, strides agree with the storage order, and iteration over a whole tensor, a block or a spliced sub-range visits exactly the right elements once in the right order. Out-of-range indices are rejected, not read.",
  ["inputs", "configurations"], "all shapes of bounded rank and dimension, all indices", "Tests use a few fixed shapes.",
  ["tensor/tensor.h", "tensor/auto_storage_tensor.h", "tensor/square_matrix.h", "tensor/multi_dimensional_index_iterator.h", "tensor/multi_dimensional_offset_index_iterator.h", "tensor/index_flattener.h"], [("stride tables", "tensor/tensor.h")]),
P("C15", "Combinatorial iterators enumerate exactly the intended objects in order",
  "Enumerations of combinations, partitions, permutations, triangular index pairs, and related integer utilities visit each object exactly once in the documented order with correct counts. Sorting permutations and powers return the mathematically exact result within range.",
  ["inputs"], "all parameters within bounds and all symbolic positions or values", "Tests list outputs for individual parameters.",
  ["utilities/combinations.h", "utilities/multi_partition.h", "utilities/ordered_permutation.h", "utilities/recursive_index.h", "utilities/triangular_index_iterator.h", "utilities/shift_sorter.h", "utilities/ipow.h", "utilities/kronecker_power.h", "utilities/iter_tuple.h"], [("odometer style iterators", "utilities/combinations.h")]),
P("C16", "Probability and correlator tensors all describe one distribution",
  "For every layout, each entry of the explicit probability and correlator tensors is a fixed affine combination of reduced probabilities such that probabilities over all outcomes of a measurement sum to the marginal, implied final outcomes complete it, and the operator word behind each entry is the one its indices name. Conversions and rule generation from values agree with those identities, and out-of-range requests are rejected.",
  ["inputs", "configurations"], "all layouts within bounds, all indices, symbolic values", "Tests cover conversion for a few layouts only.",
  ["probability/collins_gisin.cpp", "probability/probability_tensor.cpp", "probability/full_correlator.cpp", "scenarios/locality/locality_collins_gisin.cpp", "scenarios/locality/locality_probability_tensor.cpp", "scenarios/locality/locality_full_correlator.cpp", "scenarios/locality/tensor_conversion.cpp", "probability/virtual_polynomial_view.cpp"], [("alternating sums over implicit outcomes", "scenarios/locality/tensor_conversion.cpp")]),
P("C17", "Moment and localizing matrices contain exactly the moments they are defined by",
  "Entry (i,j) of a moment matrix is the moment of conj(word_i)*word_j, and of a localizing matrix conj(word_i)*word*word_j, as an operator and as a symbol with the right sign and conjugation; matrices declared Hermitian equal their conjugate transpose. Multiplying a matrix by a word, scaling or adding matrices acts entry by entry on those moments.",
  ["inputs", "configurations"], "all small scenarios and levels, symbolic localizing words and phases", "Matrices are not in the built suite; each entry depends on sign/conjugation conventions.",
  ["matrix/operator_matrix/operator_matrix_factory.h", "matrix/operator_matrix/moment_matrix.h", "matrix/operator_matrix/localizing_matrix.h", "matrix/monomial_matrix.cpp", "matrix/symbolic_matrix.cpp", "matrix/monomial_matrix_factory.h"], [("row/column product then symbol lookup", "matrix/operator_matrix/operator_matrix_factory_singlethreaded.h")]),
P("C18", "Generated groups and word representations respect multiplication",
  "The group generated from invertible matrices is closed, contains each element once, and includes the identity and every generator; a generator whose own powers exceed the largest allowed subgroup is refused. The representation on longer words induced from the letters sends every word to the product of the images of its letters, signs included, simplified in the context; letter matrices of the wrong shape, or images that cannot be written with real coefficients, are refused.",
  ["inputs", "configurations"], "all generators from bounded families of small signed permutation matrices", "Tests check a few named groups.",
  ["scenarios/symmetrized/group.cpp", "scenarios/symmetrized/representation.cpp", "scenarios/symmetrized/representation_mapper.cpp", "scenarios/symmetrized/group_rep_generation_worker.cpp"], [("Dimino generation", "scenarios/symmetrized/group.cpp")]),
P("C19", "Maps between scenarios are linear, consistent and invertible where claimed",
  "The map from the symbols of a base scenario to those of a derived one sends every symbol to the combination dictated by the change of variables, respects conjugation, and mapping a new symbol's definition forward gives the new symbol (or at least the same meaning, when words and their adjoints are mixed). The decomposition of the transformation accounts for every non-trivial row and column exactly once; transformations that move the identity are refused, and so are symbols beyond the transformation's reach. Under a symmetry, symmetric words have equal images, and derived matrices are the images of their sources entry by entry, Hermitian when the source is.",
  ["inputs", "configurations"], "all small transformation matrices with symbolic entries from a bounded set", "Tests use a few fixed matrices.",
  ["scenarios/derived/map_core.cpp", "scenarios/derived/lu_map_core_processor.cpp", "scenarios/derived/symbol_table_map.cpp"], [("LU of the core", "scenarios/derived/lu_map_core_processor.cpp")]),
P("C20", "Factorisation of inflation moments into independent factors is unique and exact",
  "Each moment of an inflated network is recorded as the multiset of its fundamental factors, each factor is itself a registered moment that does not factorise, and a lookup by factors returns a moment with exactly those factors, or nothing when none is registered. Multiplying moments (or polynomials of moments) combines the multisets, with identity neutral and zero absorbing, products that are not registered are refused, and a rule giving a factor a value carries over to every product containing it.",
  ["inputs", "histories"], "all moments over small networks, all registration orders", "The factor table is not covered by the built suite.",
  ["scenarios/inflation/factor_table.cpp", "scenarios/inflation/inflation_context.cpp"], [("factor lists indexed by tree", "scenarios/inflation/factor_table.cpp")]),
P("C21", "Extended inflation matrices factorise their extension entries exactly",
  "An extended moment matrix contains the original block unchanged, and every extension entry is the moment whose factors are those of the original entry together with the extension symbol. Each suggested extension is a factor of some factorising moment of the matrix and generates at least one that the suggestions before it do not, and together the suggestions generate every factorising moment that any single factor could. Unknown extension symbols are refused without effect.",
  ["inputs", "configurations"], "small networks and levels with every choice of extension symbols", "Not covered by the built suite.",
  ["scenarios/inflation/extended_matrix.cpp", "scenarios/inflation/extension_suggester.cpp"], [("combine symbolic factors", "scenarios/inflation/factor_table.cpp")]),
P("C22", "Substituting moments in a matrix equals rewriting each entry",
  "The matrix obtained by applying substitution rules or given values has each entry equal to the reduction of the original entry, keeps or refines Hermiticity accordingly, and its list of included symbols is exactly the symbols appearing. Numeric evaluation of a matrix in its basis reproduces the entries.",
  ["inputs"], "small matrices with symbolic entries and rules", "Not covered by the built suite.",
  ["matrix/substituted_matrix.cpp", "matrix/value_matrix.cpp", "matrix/symbolic_matrix.cpp", "matrix/matrix_basis.cpp"], [("entrywise reduce", "matrix/substituted_matrix.cpp")]),
P("C23", "Work partitioning covers every element exactly once",
  "For every number of workers and amount of work, the pieces assigned to workers are disjoint, contiguous, cover all the work and differ in size by at most one. Consumers of the task queue see every queued item exactly once and in order.",
  ["inputs", "histories"], "all worker counts and work sizes", "Tests check a few splits.",
  ["utilities/variable_chunk_range.h", "multithreading/queue.h", "multithreading/multithreading.h"], [("chunk arithmetic", "utilities/variable_chunk_range.h")]),
P("C24", "Names of operators and texts round-trip",
  "Automatically generated and user supplied names are unique, valid and resolve back to the operator they were given to (adjoints included); different words of a scenario, signs included, are shown as different texts. Texts of symbols are read exactly by their grammar. Conversions between text encodings are lossless on valid text, and unknown or malformed names are rejected.",
  ["inputs"], "all indices and all short strings", "Tests check individual strings.",
  ["utilities/alphabetic_namer.cpp", "scenarios/algebraic/name_table.cpp", "utilities/utf_conversion.cpp", "scenarios/locality/locality_operator_formatter.cpp"], [("bijective base-26", "utilities/alphabetic_namer.cpp")]),
P("C25", "Lookup structures return exactly what was inserted",
  "Index trees, persistent stores, sorted-range intersections and merges behave as finite maps or sets: anything inserted is found with its value, anything else is not, stored objects keep their identity, and iteration is sorted and complete.",
  ["histories", "inputs"], "all insertion histories of bounded length with symbolic keys", "Tests insert fixed keys.",
  ["utilities/index_tree.h", "utilities/persistent_storage.h", "utilities/linear_map_merge.h", "utilities/first_intersection_index.h", "utilities/recursive_index.h"], [("sorted child lists", "utilities/index_tree.h")]),
P("C26", "Matrix systems return one stable matrix per request",
  "Requesting the same matrix twice returns the same object, different requests give different offsets, offsets are dense and stable as more matrices and rules are added, and lookups of ungenerated matrices fail explicitly. Newly generated matrices register every symbol they use.",
  ["histories"], "all request histories of bounded length", "Not covered by the built suite.",
  ["matrix_system/matrix_system.cpp", "matrix_system/matrix_indices.h", "matrix_system/index_storage/vector_index_storage.h", "matrix_system/index_storage/map_index_storage.h", "matrix_system/index_storage/polynomial_index_storage.h"], [("index to offset storage", "matrix_system/matrix_indices.h")]),
P("C27", "Imported matrices keep their symbols and gain only justified structure",
  "An imported matrix of symbols keeps its entries and is accepted exactly when these are consistent with the declared kind (real, symmetric, complex or Hermitian). Exactly the real or imaginary parts of symbols that must vanish for consistency are removed, across all imports so far; a refused import has no effect, and matrices imported earlier stay correct.",
  ["inputs"], "small matrices of symbolic entries", "Not covered by the built suite.",
  ["scenarios/imported/imported_matrix_system.cpp"], [("symmetry-driven reality constraints", "scenarios/imported/imported_matrix_system.cpp")]),
P("C28", "Exported coordinates denote the same polynomials and rules",
  "Exporting a polynomial to its real and imaginary coordinates (real vectors, complex vectors, rows of triplets, one column per polynomial) yields exactly the coefficients with which the real and imaginary parts of the moments enter the real and imaginary parts of the polynomial's value; converting coordinates back yields the polynomial they describe. A rulebook exported as a matrix leaves a vector of values unchanged (or, in homogeneous form, annihilates it) exactly when the values satisfy the rules. Symbols or coordinates outside the table are refused.",
  ["inputs"], "all polynomials and rulebooks up to a size over all kinds of symbols, symbolic coefficients and values",
  "Not covered by the built suite; tests sample single terms and a few rules, mostly with real coefficients.",
  ["symbolic/polynomial_to_basis.h", "symbolic/polynomial_to_basis.cpp", "symbolic/rules/moment_rulebook_to_basis.cpp"], [("coefficient export", "symbolic/polynomial_to_basis.cpp"), ("rulebook export", "symbolic/rules/moment_rulebook_to_basis.cpp")]),
P("C29", "Raw polynomial arithmetic agrees with the operator algebra",
  "A raw polynomial stands for a weighted sum of operator words. Sums, differences and products of raw polynomials denote the sums, differences and products of the operators, with every phase of a word carried into its weight; results list distinct non-zero words in order with non-vanishing weights. Conversion to symbols denotes the same value, registers exactly the missing words or refuses them, and conversion back returns the same operator; symbols that are unknown or stand for no word are refused.",
  ["inputs"], "all pairs of small polynomials over several algebras, symbolic weights", "Not covered by the built suite.",
  ["dictionary/raw_polynomial.h", "dictionary/raw_polynomial.cpp", "scenarios/context.cpp", "symbolic/polynomial_factory.cpp"], [("collecting like words", "dictionary/raw_polynomial.cpp"), ("conversion through the symbol table", "symbolic/polynomial_factory.cpp")]),
]
NOTE = "Bounded symbolic execution of the real implementation (its LLVM IR, regenerated from the working tree): every assertion is decided by an SMT solver for all inputs on every path within the bounds recorded in the evidence file; outside those bounds nothing is claimed. Trusted: clang, the executor and its library stand-ins (validated by replaying path witnesses natively), z3. Counterexamples are reported only after they reproduce on natively compiled code."
TECH = "symbolic execution of LLVM IR of the real code with an SMT solver (bounded), counterexamples replayed natively"
NA = {}
def main():
    ids = [p["id"] for p in PROPS]
    with open(V + "/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            for x in p["anchors"]["files"]: assert os.path.exists("/repo/" + x), x
            f.write(json.dumps(p) + "\n")
    checks = [dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, technique=TECH, level="model_checking", level_note=NOTE) for i in ids if i in specs.SPECS]
    na = [dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in specs.SPECS]
    json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
    print(len(checks), "claimed,", len(na), "not")
main()
