#!/usr/bin/env python3
"""Writes properties.jsonl (the statements live here so that they can be edited comfortably)."""
import json, os
L = "cpp/lib_moment/"
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[L + f for f in files],
                     state=[dict(name=n, meaning=m, where=L + w) for n, m, w in state],
                     mechanism=[dict(name=n, where=L + w) for n, w in mech], observe_at=observe, hook_needed=hook)))

prop("P01", "Locality scenarios reduce operator words to the right canonical form",
 "In a locality scenario every word of measurement operators is reduced to one canonical word (with a possible result of zero) that denotes the same operator, where operators of different parties commute, operators of a projective measurement are idempotent, and distinct outcomes of one projective measurement multiply to zero. "
 "Two words get equal canonical forms exactly when those rules make them equal, and products, repeated appends and conjugation of canonical words agree with reduction of the concatenated or reversed word.",
 ["inputs", "configurations"], "Every party/measurement/outcome layout and every operator word (and pair of words).",
 "Unit tests sample a handful of words in a few fixed layouts; equality of normal forms is a statement about all pairs of words.",
 ["scenarios/locality/locality_context.cpp", "scenarios/locality/party.cpp", "scenarios/locality/measurement.h", "dictionary/operator_sequence.cpp", "scenarios/context.cpp"],
 [("operator word", "sequence of operator numbers with a sign and a hash", "dictionary/operator_sequence.h")],
 [("sort by party, remove repeats, detect orthogonality", "scenarios/locality/locality_context.cpp"), ("multiply / conjugate", "scenarios/context.cpp")],
 ["OperatorSequence construction", "operator*", "conjugate()", "append"])

prop("P02", "Pauli words multiply, conjugate and commute like the matrices they denote",
 "In a Pauli scenario every word over X, Y, Z on any qubits reduces to the unique sorted word with at most one letter per qubit and the exact phase (1, i, -1 or -i) of the corresponding matrix product. "
 "Products, conjugates, negation, commutators and anticommutators of words and of polynomials of words equal those of the matrices.",
 ["inputs"], "All words, phases, pairs of words and small polynomials of words on any number of qubits.",
 "Tests sample a few products; phases accumulate over the whole word so only all words decide it.",
 ["scenarios/pauli/pauli_context.cpp", "dictionary/raw_polynomial.cpp", "sequence_sign_type.h"],
 [("sequence sign", "power of i multiplying the word", "sequence_sign_type.h")],
 [("Cayley table", "scenarios/pauli/pauli_context.cpp"), ("merge multiply", "scenarios/pauli/pauli_context.cpp")],
 ["OperatorSequence construction", "PauliContext::multiply/commutator/anticommutator/conjugate"])

prop("P03", "Algebraic rewrite rules are completed and applied soundly",
 "Reducing a word with the user's rewrite rules, before or after completion, never changes the element it denotes (including its sign or phase, and whether it is zero) modulo the equalities the user stated, their conjugates and (if requested) commutativity, never loops, and never yields a longer or lexicographically later word; a rule is said to imply another only if the other follows from it. "
 "When completion reports success, two words that the stated rules make equal reduce to the same word, so every word has one normal form. Completion does succeed on the usual finite presentations (Pauli, projective, dihedral, symmetric, clock-and-shift, fermionic). Words too long for their 64-bit rank, and rules that imply 1 = 0, are not covered.",
 ["inputs", "programs"], "All small rule sets (with signs, zero and identity right-hand sides, self-adjoint or not) and all words up to a length bound.",
 "Tests complete a few textbook groups; soundness and confluence quantify over rule sets and words.",
 ["scenarios/algebraic/operator_rulebook.cpp", "scenarios/algebraic/operator_rule.cpp", "scenarios/algebraic/algebraic_context.cpp", "scenarios/algebraic/algebraic_precontext.cpp", "hashed_sequence.cpp"],
 [("rule", "directed rewrite left -> sign * right", "scenarios/algebraic/operator_rule.h"), ("rulebook", "ordered rule list", "scenarios/algebraic/operator_rulebook.h")],
 [("Knuth-Bendix completion", "scenarios/algebraic/operator_rulebook.cpp"), ("greedy reduction", "scenarios/algebraic/operator_rulebook.cpp")],
 ["OperatorRulebook::reduce", "complete()", "AlgebraicContext::additional_simplification/conjugate"])

prop("P04", "Word dictionaries list every canonical word exactly once",
 "For every scenario and length, the list of generators contains each non-zero canonical word reachable with at most that many operators exactly once, with the identity first and shorter words before longer ones, and the conjugate list holds the conjugates position by position. "
 "Lists of shorter words are prefixes of lists of longer ones, asking in any order gives the same lists, earlier obtained lists stay valid, and testing a raw word for being canonical agrees with the list; restricted (nearest-neighbour) lists contain exactly the words of that restriction.",
 ["configurations", "histories"], "All small scenarios of every family, all lengths, and every order of requesting lengths.",
 "Tests check particular lists and lengths, never orders of requests or whole-list completeness against an independent enumeration.",
 ["dictionary/dictionary.cpp", "dictionary/operator_sequence_generator.cpp", "dictionary/dictionary_map.cpp", "dictionary/osg_pair.h", "scenarios/locality/locality_osg.cpp", "scenarios/pauli/pauli_osg.cpp", "scenarios/pauli/pauli_dictionary.cpp", "scenarios/pauli/pauli_index_collections.cpp", "scenarios/inflation/inflation_osg.cpp"],
 [("word list", "lazily grown list per level", "dictionary/dictionary.h")],
 [("generation and unique constructor", "dictionary/operator_sequence_generator.cpp"), ("lazy growth", "dictionary/dictionary.cpp")],
 ["Dictionary::Level", "Dictionary::WordCount", "operator_sequence_generator()"])

prop("P05", "The symbol table holds one symbol per moment, with correct flags",
 "However matrices, monomials and polynomials are created and merged, each canonical moment has exactly one symbol, shared with its conjugate; zero and one are symbols 0 and 1; a look-up by word or conjugated word returns that symbol with the right conjugation flag. "
 "A symbol is marked real, imaginary, complex or zero exactly as its word's Hermiticity dictates, its real and imaginary basis positions are assigned without gaps or duplicates and map back to it, and numbers once given never change.",
 ["histories", "inputs"], "All short sequences of registrations/merges/look-ups over small scenarios.",
 "Tests register a few fixed words; the invariant must survive every order of registration.",
 ["symbolic/symbol_table.cpp", "symbolic/symbol.cpp", "symbolic/symbol_lookup_result.h", "matrix_system/matrix_system.cpp"],
 [("symbols", "unique moments with flags and basis keys", "symbolic/symbol_table.h"), ("hash table", "hash to symbol id", "symbolic/symbol_table.h")],
 [("merge_in", "symbolic/symbol_table.cpp"), ("renumerate_bases", "symbolic/symbol_table.cpp")],
 ["SymbolTable::where", "operator[]", "Basis"])

prop("P06", "Moment, localizing and commutator matrices contain the right elements",
 "Entry (i,j) of a moment matrix is the moment of (generator i)* (generator j); of a localizing matrix, of (generator i)* W (generator j) for the word or polynomial W; of Pauli (anti)commutator matrices, the (anti)commutator or its localized version, all with the exact scalar factor. "
 "The symbols attached to the entries, the Hermitian and complex flags, and the list of symbols used agree with those entries, and expanding the matrix over its real and imaginary basis matrices (dense, sparse and complex forms alike) reproduces it.",
 ["configurations", "inputs"], "All small scenarios of every family, levels, localizing words and polynomials.",
 "Tests compare a few whole matrices; flags and bases are only checked for hand-picked matrices.",
 ["matrix/operator_matrix/operator_matrix.cpp", "matrix/operator_matrix/moment_matrix.h", "matrix/operator_matrix/localizing_matrix.h", "matrix/monomial_matrix.cpp", "matrix/polynomial_matrix.cpp", "matrix/symbolic_matrix.cpp", "matrix/matrix_basis.cpp", "matrix_system/matrix_system.cpp", "scenarios/pauli/pauli_matrix_system.cpp", "matrix/composite_matrix.cpp"],
 [("symbol matrix", "square array of monomials or polynomials", "matrix/symbolic_matrix.h")],
 [("operator matrix factories", "matrix/operator_matrix/operator_matrix_factory.h"), ("basis generation", "matrix/matrix_basis.cpp")],
 ["MatrixSystem::MomentMatrix/LocalizingMatrix/...", "SymbolicMatrix::Basis"])

prop("P07", "Multithreaded matrix creation equals single-threaded, in every schedule",
 "Building matrices with worker threads gives, in every interleaving of the workers, exactly the matrix and symbols that the single-threaded path gives, and always terminates. "
 "No two threads access the same memory without synchronisation when at least one writes, and a failure in one worker is reported to the caller without deadlock or process termination.",
 ["schedules", "fault_sequences"], "All thread interleavings (up to a bound on preemptions) of matrix construction, transformation and extension with several workers, and a fault in any worker.",
 "The test suite runs each multithreaded case once under the operating system's scheduler.",
 ["matrix/operator_matrix/operator_matrix_factory_multithreaded.h", "matrix/operator_matrix/operator_matrix_transformation.h", "multithreading/matrix_transformation_worker.h", "multithreading/multithreading.cpp", "scenarios/inflation/multithreading/extended_matrix_worker.cpp"],
 [("worker bundle", "shared buffers and barriers of the workers", "matrix/operator_matrix/operator_matrix_factory_multithreaded.h")],
 [("phase hand-over by barriers/futures", "matrix/operator_matrix/operator_matrix_factory_multithreaded.h")],
 ["MatrixSystem::MomentMatrix.create(..., Always)", "transformation results"])

prop("P08", "The shared work queue delivers every item exactly once and wakes every waiter",
 "Every item put in the multi-producer queue is handed to exactly one consumer as long as consumers keep asking (to at most one if the queue is closed, after which nothing more is handed out), items of one producer come out in the order they went in, and a waiting consumer is woken when an item arrives or the queue is closed. "
 "No schedule of producers, consumers and closing leads to a lost wake-up, deadlock, crash or lost or repeated item.",
 ["schedules"], "All interleavings of a few producers, consumers and an abort, up to a bound on preemptions.",
 "Tests exercise the queue with one or two threads under one schedule.",
 ["multithreading/queue.h"],
 [("linked list", "dummy-tailed singly linked list with head and tail locks", "multithreading/queue.h")],
 [("two-lock queue with condition variable", "multithreading/queue.h")],
 ["push/emplace/try_pop/wait_pop_front/abort"])

prop("P09", "Monomial and polynomial arithmetic is exact and canonical",
 "Adding, negating, scaling, multiplying and conjugating monomials and polynomials of moments gives the same value as the same operation on complex numbers for every assignment of values consistent with each symbol's realness. "
 "The result is always canonical: sorted by the factory's order, no repeated or (within tolerance) zero terms, no conjugation mark on Hermitian symbols; equality, Hermiticity and realness predicates agree with the values.",
 ["inputs", "programs"], "All polynomials with few terms over a few symbols of every kind, and all sequences of a few operations.",
 "Tests check chosen expressions; canonicality must survive every combination of operations.",
 ["symbolic/monomial.cpp", "symbolic/monomial.h", "symbolic/polynomial.cpp", "symbolic/polynomial.h", "symbolic/polynomial_factory.cpp", "symbolic/monomial_comparator.h", "symbolic/monomial_comparator_by_hash.cpp"],
 [("polynomial", "sorted list of monomials", "symbolic/polynomial.h")],
 [("sort, merge duplicates, prune zeros", "symbolic/polynomial.cpp")],
 ["Polynomial", "PolynomialFactory"])

prop("P10", "Moment rulebooks substitute consistently and completely",
 "A moment rulebook built from polynomials asserted to be zero reduces every polynomial to one that has the same value for every assignment of the moments that satisfies the stated equations (and their conjugates), and reduction never loops and is idempotent. "
 "Up to the zero tolerance of the matrix system: after completion no rule can reduce another, each stated polynomial reduces to zero, adding already implied rules changes nothing, contradictions are reported, and a rulebook compares as a subset of another exactly when its rules are implied.",
 ["inputs", "histories", "programs"], "All small systems of equations over a few symbols (real and complex), in every insertion order, with substitution lists and merges.",
 "Tests use a handful of rule sets in one order.",
 ["symbolic/rules/moment_rulebook.cpp", "symbolic/rules/moment_rule.cpp", "symbolic/polynomial_ordering.h"],
 [("rules", "map from leading monomial to rule", "symbolic/rules/moment_rulebook.h")],
 [("completion", "symbolic/rules/moment_rulebook.cpp"), ("reduce", "symbolic/rules/moment_rule.cpp")],
 ["MomentRulebook::reduce/complete/compare/combine_and_complete"])

prop("P11", "Substituted matrices equal the element-wise reduction of their source",
 "A matrix with a rulebook applied, and any matrix created afterwards from that pair, has at every entry the rulebook's reduction of the source entry, whichever of monomial or polynomial, single- or multi-threaded path builds it. "
 "Its Hermitian and complex flags, symbol list and basis describe the resulting entries, and the same source and rulebook always give the same matrix.",
 ["inputs", "configurations"], "All small scenarios, matrices of each kind and small rulebooks.",
 "Tests compare one or two substituted matrices.",
 ["matrix/substituted_matrix.cpp", "matrix_system/standard_matrix_indices.cpp", "symbolic/rules/moment_rulebook.cpp"],
 [("substituted index", "(source matrix, rulebook) to matrix", "matrix_system/standard_matrix_indices.h")],
 [("element-wise map", "matrix/substituted_matrix.cpp")],
 ["MatrixSystem::SubstitutedMatrix"])

prop("P12", "Polynomials and real-coordinate vectors convert without loss",
 "Converting a polynomial to its pair of (real, imaginary) coordinate vectors or to coordinate masks, and vectors back to a polynomial, keeps its value: the real part of the polynomial's value is the linear functional given by the vectors, and the complex vectors give the whole value. "
 "Vectors become the polynomial in which a real coordinate stands for the Hermitian part (X+X*)/2 and an imaginary coordinate for the anti-Hermitian part (X-X*)/2, so a polynomial survives the round trip once the weights of its imaginary coordinates are divided by i. "
 "Masks mark exactly the coordinates with non-zero weight, the homogeneous matrix of a completed rulebook has exactly the equations of its rules as row space, and its rewrite matrix maps every vector to one that satisfies the rules, leaving those that already do unchanged.",
 ["inputs"], "All polynomials with few terms over symbols of each kind and all small coordinate vectors.",
 "Tests convert a few polynomials; several of these conversions are not exercised by the compiled tests at all.",
 ["symbolic/polynomial_to_basis.cpp", "symbolic/polynomial_to_basis_mask.cpp", "symbolic/rules/moment_rulebook_to_basis.cpp", "symbolic/polynomial_factory.cpp"],
 [("basis keys", "real/imaginary coordinate of each symbol", "symbolic/symbol_table.h")],
 [("coordinate maps", "symbolic/polynomial_to_basis.cpp")],
 ["PolynomialToBasisVec", "BasisVecToPolynomial", "PolynomialToBasisMask", "MomentRulebookToBasis"])

prop("P13", "Matrix multiplication, addition and scaling are element-wise exact",
 "Multiplying a matrix of the system by a monomial, polynomial or scalar on either side, adding matrices, and joining matrices gives entries that are the products or sums of the corresponding entries (words multiplied on the stated side in the scenario's algebra). "
 "Hermitian flag, complex flag, symbol list and basis of the result agree with its entries.",
 ["inputs", "configurations"], "All small scenarios, matrix kinds, multiplicands and sides.",
 "Tests check few products, mostly in code left out of the build.",
 ["matrix/symbolic_matrix.cpp", "matrix/monomial_matrix.cpp", "matrix/polynomial_matrix.cpp", "matrix/value_matrix.cpp", "matrix/composite_matrix.cpp"],
 [("matrix", "monomial or polynomial matrix with flags", "matrix/symbolic_matrix.h")],
 [("pre/post multiply, addition", "matrix/symbolic_matrix.cpp")],
 ["SymbolicMatrix::pre_multiply/post_multiply/add"])

prop("P14", "A matrix system creates each object once and keeps its indices valid",
 "For every history of requests, the same description (level, localizing word or polynomial, rulebook pair, ...) always resolves to the same matrix, distinct descriptions resolve to matrices with their own contents, and references obtained stay valid while new objects are made. "
 "Requests made by concurrent threads, in any interleaving, create an object at most once and return the same object; deleted or unknown numbers are reported as such.",
 ["histories", "schedules"], "All short histories of create/find/get/delete operations, and all interleavings of two or three threads asking for the same or different objects.",
 "Tests make each request once, from one thread.",
 ["matrix_system/matrix_system.cpp", "matrix_system/matrix_indices.h", "multithreading/maintains_mutex.h", "matrix_system/index_storage/map_index_storage.h", "matrix_system/index_storage/polynomial_index_storage.h", "matrix_system/rulebook_storage.cpp"],
 [("index tables", "description to matrix number", "matrix_system/matrix_indices.h")],
 [("read-write lock with re-check", "matrix_system/matrix_indices.h")],
 ["MatrixSystem::*.find/create/operator()", "delete_matrix"])

prop("P15", "Inflation moments are canonicalised and factorised correctly",
 "In an inflated causal network two words that do not split into factors are given the same moment exactly when a relabelling of the copies of each source maps one to the other, and the canonical word is one of those images; words that fall apart are given moments with the same factors, in order of factors. "
 "Each moment is split into its finest set of factors that share no source copy, whose product is the whole word, and the table of factors lists for each symbol the symbols of its factors.",
 ["configurations", "inputs"], "All small causal networks, inflation levels and operator words.",
 "Tests check a few words on a few networks; the equivalence is a statement over all words and permutations.",
 ["scenarios/inflation/inflation_context.cpp", "scenarios/inflation/causal_network.cpp", "scenarios/inflation/factor_table.cpp", "scenarios/inflation/observable.cpp", "scenarios/inflation/source.cpp"],
 [("variants", "copies of observables indexed by source copies", "scenarios/inflation/inflation_context.h"), ("factor table", "factors of each symbol", "scenarios/inflation/factor_table.h")],
 [("source permutation", "scenarios/inflation/inflation_context.cpp"), ("factorize", "scenarios/inflation/inflation_context.cpp")],
 ["InflationContext::simplify_as_moment/factorize", "FactorTable"])

prop("P16", "Scalar-extended matrices hold the products of moments they claim",
 "A moment matrix extended by scalar moments keeps the original matrix as its leading block, and each new row and column entry is the symbol whose factors are exactly the factors of the generator's moment together with those of the extension moment (or of the two extension moments). "
 "Automatic suggestions contain only factors of moments in the matrix, and the extended matrix and its symbols are the same whether one or many threads build it.",
 ["configurations", "inputs"], "All small networks, moment matrices and extension lists.",
 "Tests build a few extensions of two networks.",
 ["scenarios/inflation/extended_matrix.cpp", "scenarios/inflation/extension_suggester.cpp", "scenarios/inflation/extended_matrix_indices.cpp", "scenarios/inflation/factor_table.cpp", "utilities/index_tree.h", "scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp"],
 [("extension", "list of scalar symbols", "scenarios/inflation/extended_matrix.h")],
 [("combine factors", "scenarios/inflation/factor_table.cpp")],
 ["InflationMatrixSystem::ExtendedMatrix"])

prop("P17", "Probability, correlator and Collins-Gisin objects describe the same statistics",
 "For every behaviour of the parties, the values that the Collins-Gisin, full-correlator and joint-probability objects assign through the moments agree with the behaviour's true probabilities and correlations, for whole arrays, single entries, implicit outcomes and ranges. "
 "Conversions between the three arrays are mutually inverse on valid statistics, and constraining a measurement's outcome probabilities (conditioned or not) yields polynomials that vanish exactly on behaviours with those probabilities.",
 ["configurations", "inputs"], "All small layouts of parties, measurements and outcomes (locality and inflation), all deterministic behaviours (which span the rest), all entries and index ranges.",
 "Tests check few entries of CHSH-like layouts.",
 ["probability/collins_gisin.cpp", "probability/full_correlator.cpp", "probability/probability_tensor.cpp", "probability/polynomial_tensor.cpp", "probability/virtual_polynomial_view.cpp", "scenarios/locality/locality_collins_gisin.cpp", "scenarios/locality/locality_full_correlator.cpp", "scenarios/locality/locality_probability_tensor.cpp", "scenarios/locality/tensor_conversion.cpp", "scenarios/inflation/inflation_collins_gisin.cpp", "scenarios/inflation/inflation_probability_tensor.cpp"],
 [("tensors", "arrays over global measurement/outcome indices", "probability/collins_gisin.h")],
 [("inclusion-exclusion for implicit outcomes", "probability/probability_tensor.cpp"), ("tensor conversion", "scenarios/locality/tensor_conversion.cpp")],
 ["CollinsGisin/FullCorrelator/ProbabilityTensor look-ups", "tensor conversion", "explicit value rules"])

prop("P18", "Symmetry groups and their representations on words are right",
 "From any generating set of matrices the group enumeration returns exactly the finite group they generate, each element once, and reports failure instead of looping when the bound is exceeded. "
 "The representation on words of each length is a homomorphism that acts as the letter-wise substitution of the generators would, for all group elements and lengths.",
 ["inputs", "configurations"], "All small generating sets of signed permutations and small invertible matrices, all supported word lengths, single and multithreaded.",
 "Tests check two or three groups.",
 ["scenarios/symmetrized/group.cpp", "scenarios/symmetrized/representation.cpp", "scenarios/symmetrized/representation_mapper.cpp", "scenarios/symmetrized/group_rep_generation_worker.cpp"],
 [("representations", "matrices per word length", "scenarios/symmetrized/group.h")],
 [("dimino closure", "scenarios/symmetrized/group.cpp"), ("Kronecker power and folding", "scenarios/symmetrized/representation_mapper.cpp")],
 ["Group::dimino_generation", "Group::create_representation"])

prop("P19", "Symmetrised systems map moments to their group averages consistently",
 "Each moment of the base system is mapped to a polynomial of the derived system that equals its average over the group on every invariant state; applying the forward map after the inverse map is the identity. "
 "Matrices of the derived system are the element-wise images of the base matrices, and the map takes conjugates to conjugates and constants to themselves.",
 ["configurations", "inputs"], "All small base scenarios with small symmetry groups, all symbols and matrices of supported size.",
 "Tests check two symmetrised scenarios.",
 ["scenarios/derived/symbol_table_map.cpp", "scenarios/derived/map_core.cpp", "scenarios/derived/lu_map_core_processor.cpp", "scenarios/derived/derived_matrix_system.cpp", "scenarios/derived/derived_matrix_indices.cpp", "scenarios/symmetrized/symmetrized_matrix_system.cpp"],
 [("symbol map", "forward and inverse polynomial maps", "scenarios/derived/symbol_table_map.h")],
 [("map core and LU decomposition", "scenarios/derived/map_core.cpp")],
 ["SymbolTableMap::operator()/inverse", "DerivedMatrixSystem matrices"])

prop("P20", "Lattice symmetry identifies Pauli moments exactly up to translation",
 "With translational symmetry on, two Pauli moments on a chain or lattice get the same canonical word exactly when a lattice translation (cyclic if the lattice wraps; within the unbounded lattice otherwise) takes one to the other, and the canonical word is such a translate of the original with the same scalar factor. "
 "The orbit produced for symmetric duplication consists of exactly the translates that fit on the lattice, and symmetric matrices contain only canonical words.",
 ["configurations", "inputs"], "All chain lengths and lattice shapes up to a bound, wrapped and not, and all words on them.",
 "Tests check selected words on a few lattices.",
 ["scenarios/pauli/symmetry/moment_simplifier.cpp", "scenarios/pauli/symmetry/moment_simplifier_wrapping.h", "scenarios/pauli/symmetry/moment_simplifier_no_wrapping.cpp", "scenarios/pauli/symmetry/site_hasher.h", "scenarios/pauli/symmetry/lattice_duplicator.cpp", "scenarios/pauli/pauli_context.cpp"],
 [("site hash", "packed two-bit letters", "scenarios/pauli/symmetry/site_hasher.h")],
 [("minimum over cyclic shifts", "scenarios/pauli/symmetry/site_hasher.h"), ("duplication", "scenarios/pauli/symmetry/lattice_duplicator.cpp")],
 ["PauliContext::simplify_as_moment", "MomentSimplifier", "LatticeDuplicator"])

prop("P21", "Index iterators and combinatorial enumerators visit everything exactly once",
 "Every multi-dimensional index iterator, combination, partition, permutation, triangular and recursive index enumerator visits each item of its mathematical domain exactly once, in its stated order, with correct offsets, and then compares equal to its end. "
 "Ranking, powering and sorting helpers agree with their definitions for all arguments in range.",
 ["inputs", "configurations"], "All domain sizes up to a bound.",
 "Tests list a few domains by hand.",
 ["tensor/multi_dimensional_index_iterator.h", "tensor/multi_dimensional_offset_index_iterator.h", "utilities/combinations.h", "utilities/multi_partition.h", "utilities/ordered_permutation.h", "utilities/triangular_index_iterator.h", "utilities/recursive_index.h", "utilities/ipow.h", "utilities/shift_sorter.h", "utilities/alphabetic_namer.cpp", "tensor/index_flattener.cpp"],
 [], [("iterators", "utilities/combinations.h")], ["iterator sequences"])

prop("P22", "UTF-8 and UTF-16 text conversion is lossless on valid text and never overruns",
 "Every sequence of Unicode code points converts between UTF-8 and UTF-16 and back unchanged, and 7-bit conversion keeps exactly the characters it can represent. "
 "Malformed or truncated input never reads or writes outside the given buffers.",
 ["inputs"], "All code points, all short sequences of boundary code points, and all short malformed byte and code-unit strings.",
 "Tests convert a dozen strings.",
 ["utilities/utf_conversion.cpp", "utilities/utf_conversion.h"],
 [], [("encoder/decoder", "utilities/utf_conversion.cpp")], ["UTF conversion functions"])

prop("P23", "Containers behave like their mathematical models under any operation sequence",
 "The small vector, bit set, tensor, square matrix, auto-storage tensor and index-tree containers give, after any sequence of operations including copies, moves, self-assignment, growth and shrinkage, the same contents, sizes, comparisons and iteration order as a plain reference container. "
 "No operation reads or writes outside the storage, leaks or double-frees, and moved-from small vectors stay usable.",
 ["histories", "inputs"], "All operation sequences up to a length bound over small element alphabets.",
 "Tests apply one or two operations at a time.",
 ["utilities/small_vector.h", "utilities/dynamic_bitset.h", "utilities/index_tree.h", "tensor/tensor.h", "tensor/square_matrix.h", "tensor/auto_storage_tensor.h", "utilities/linear_map_merge.h"],
 [("inline buffer", "small-size storage", "utilities/small_vector.h")],
 [("grow/shrink between inline and heap", "utilities/small_vector.h")], ["container API"])

prop("P24", "Shared handle storage never confuses or prematurely destroys objects",
 "An object put into the persistent handle store is returned for its own handle only, for as long as it is stored; handles of other types, stale handles and handles never issued are rejected, whatever the order of store, release and look-up. "
 "Concurrent use by several threads, in any interleaving, keeps this true.",
 ["histories", "schedules"], "All short histories of store/look-up/release and all interleavings of two or three threads.",
 "The store is hardly tested.",
 ["utilities/persistent_storage.h", "utilities/persistent_storage.cpp"],
 [("storage map", "handle to shared object", "utilities/persistent_storage.h")],
 [("signature check, mutex", "utilities/persistent_storage.h")], ["PersistentStorage API"])

prop("P25", "Imported symbol matrices are taken in faithfully and consistently",
 "A matrix of symbolic entries imported into an operator-free system has exactly the given entries; every symbol it mentions exists, symbols used on conjugate-symmetric positions of Hermitian matrices are marked consistently real, imaginary or complex, and the matrix's flags and basis reproduce its entries. "
 "Later imports never invalidate earlier matrices, and inconsistent imports are rejected without changing the system.",
 ["inputs", "histories"], "All small matrices over a few symbols with signs and conjugations, and all short sequences of imports.",
 "Tests import a handful of matrices.",
 ["scenarios/imported/imported_matrix_system.cpp", "scenarios/imported/imported_context.h", "symbolic/symbol_table.cpp", "matrix/monomial_matrix.cpp"],
 [("symbols", "symbols without words", "symbolic/symbol_table.h")],
 [("import and merge", "scenarios/imported/imported_matrix_system.cpp")], ["ImportedMatrixSystem::import_matrix"])

prop("P26", "Lazily grown shared tables are safe for concurrent readers, in every schedule",
 "Threads that concurrently ask one scenario for word lists of any lengths, or look up probability and symbol tables while another thread adds to them under the documented locks, all get the same correct answers as when asking alone. "
 "In no interleaving is there unsynchronised conflicting access, use of moved or freed entries, or deadlock.",
 ["schedules"], "All interleavings up to a preemption bound of two or three threads making requests that force the shared tables to grow.",
 "Tests never share a scenario between threads.",
 ["dictionary/dictionary.cpp", "dictionary/dictionary.h", "dictionary/osg_pair.h", "probability/maintains_tensors.cpp", "multithreading/maintains_mutex.h", "tensor/auto_storage_tensor.h", "scenarios/pauli/pauli_dictionary.cpp"],
 [("word list cache", "grows under a lock", "dictionary/dictionary.h")],
 [("double-checked growth", "dictionary/dictionary.cpp")], ["Dictionary::Level from several threads"])

prop("P27", "Names and printed forms identify operators and moments unambiguously",
 "The text shown for operators, words, monomials, polynomials and descriptions of matrices differs for different objects of one scenario, and reads as the factor (to the printed precision), sign, conjugation and letters of the object it shows; symbol numbers are told from scalars by their hash. "
 "A monomial given as text is read as the factor, symbol and conjugation it spells, or rejected. User-supplied operator names are accepted exactly when valid and unique, and looking a name up returns the operator that prints with that name (and its conjugate for the starred name).",
 ["inputs", "configurations"], "All words up to a length in small scenarios of each family; all short candidate names; all small coefficient/symbol combinations.",
 "Tests compare a few printed strings.",
 ["scenarios/algebraic/name_table.cpp", "scenarios/algebraic/algebraic_precontext.cpp", "scenarios/locality/locality_operator_formatter.cpp", "scenarios/inflation/inflation_context.cpp", "utilities/format_factor.cpp", "symbolic/polynomial.cpp", "symbolic/monomial.cpp", "utilities/alphabetic_namer.cpp"],
 [("name table", "operator names both ways", "scenarios/algebraic/name_table.h")],
 [("formatters", "utilities/format_factor.cpp")], ["formatted strings", "NameTable::find"])

prop("P28", "The MATLAB front end passes calls and data through faithfully",
 "Every MATLAB call validates its arguments, and numeric arrays, sparse matrices, strings and handles cross the MATLAB/C++ boundary unchanged in both directions. ",
 ["inputs"], "All argument lists of the MATLAB-facing functions.",
 "There are no automatic tests of this layer in the build.",
 ["../mex_functions/mex_main.cpp"], [], [], ["mtk(...) calls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        p["anchors"]["files"] = [os.path.normpath(x) for x in p["anchors"]["files"]]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
repo = "/repo/"
for p in P:
    for x in p["anchors"]["files"] + [m["where"] for m in p["anchors"]["mechanism"]] + [s["where"] for s in p["anchors"]["state"]]:
        if not os.path.exists(repo + x): print("missing", p["id"], x)
