prop("C01", "Expression algebra keeps the value through every history of operations",
     "Building an expression from constants, variables, powers, tensors and user-defined atoms with the public algebra "
     "(construction, +, -, *, the in-place forms, append/prepend, scaling, cloning, conjugation/adjoint, expand, flatten, "
     "simplify, visiting) always yields an expression whose value is what ordinary associative algebra assigns to that "
     "history, with the order of noncommuting factors kept. Operands that were not targets of an operation keep their value, and "
     "equal expressions always report equal hashes.",
     ["histories", "inputs"],
     "every history of algebra calls over a pool of expressions, including aliasing (an expression added to or multiplied by itself) and hashes read between mutations",
     "the tests check a fixed list of short expressions against their printed form; they never interleave mutation, hashing, aliasing and simplification",
     ["SeQuant/core/expressions/expr.hpp", "SeQuant/core/expressions/expr.cpp", "SeQuant/core/expressions/sum.hpp", "SeQuant/core/expressions/product.hpp",
      "SeQuant/core/expressions/constant.hpp", "SeQuant/core/expressions/variable.hpp", "SeQuant/core/expressions/power.hpp",
      "SeQuant/core/expressions/expr_algorithms.cpp", "SeQuant/core/expressions/expr_algorithms.hpp"],
     [("Sum/Product append, prepend, scale and flatten", "core/expressions/sum.hpp, product.hpp"),
      ("expand, flatten, rapid_simplify, simplify", "core/expressions/expr_algorithms.cpp"),
      ("memoized hash reset on mutation", "core/expressions/*.hpp")],
     "stateful property-based testing against a matrix-valued reference model",
     "Random histories (up to ~25 operations) over an expression pool; each expression is shadowed by an exact 2x2 matrix over GF(p^2), "
     "so false agreement is about 1e-9. Trusts the harness's reference algebra.",
     state=[("memoized hash", "cached structural hash of an expression", "core/expressions/expr.hpp")])

prop("C02", "Canonicalization and simplification preserve the value of tensor expressions",
     "Canonicalizing or simplifying a tensor expression, by any of the offered methods and tensor-network implementations, never changes its "
     "value: for every assignment of numbers to the tensors that respects their declared permutational symmetries, summing over repeated "
     "(dummy) indices gives the same result before and after, for all values of the external indices.",
     ["inputs", "configurations"],
     "all products and (nested) sums of tensors with any permutational, bra-ket and column symmetry, with dummy, external, auxiliary, proto and empty index slots, repeated tensors, under every index-space convention and canonicalization method",
     "tests compare the canonical form of a few dozen hand-written networks with a recorded string; a wrong sign or relabelling elsewhere is invisible to them",
     ["SeQuant/core/tensor_network/v1.cpp", "SeQuant/core/tensor_network/v2.cpp", "SeQuant/core/tensor_network/v3.cpp", "SeQuant/core/tensor_network/canonicals.hpp",
      "SeQuant/core/tensor_canonicalizer.cpp", "SeQuant/core/expressions/expr.cpp", "SeQuant/core/expressions/product.hpp",
      "SeQuant/core/expressions/tensor.cpp", "SeQuant/core/bliss.hpp", "SeQuant/core/utility/tuple.hpp"],
     [("graph canonicalization of tensor networks", "core/tensor_network/v3.cpp, vertex_painter.cpp"),
      ("tensor slot canonicalization and phase", "core/tensor_canonicalizer.cpp"),
      ("factor reordering and summand merging", "core/expressions/expr.cpp, core/expressions/expr_algorithms.cpp")],
     "property-based testing: metamorphic relation (value before = value after) with an exact numeric evaluator",
     "Random networks of 1-5 tensors and nested sums, evaluated exactly over GF(p^2) with tensors that are random functions having exactly the "
     "declared symmetries. Products of Products joined by dummies are a known finding. TensorNetworkV2 is given what it is made for: column-symmetric tensors without bra-ket symmetry, traces and hyperedges.")

prop("C03", "Canonical form does not depend on how an expression is written",
     "Two products of tensors that differ only by the naming of dummy indices, the order of commuting factors, or slot permutations the "
     "tensors' declared symmetries allow are brought to the same canonical form (up to the matching sign), so that their difference "
     "simplifies to zero and equivalent summands merge. Products that are not related in this way are never merged.",
     ["inputs"],
     "all tensor networks and all equivalent rewritings of them (dummy renaming, factor reordering, symmetry-allowed slot permutations), and all inequivalent damaged copies",
     "each test pins one rewriting of one network; the property quantifies over the orbit of every network under renaming, reordering and symmetry",
     ["SeQuant/core/tensor_network/v3.cpp", "SeQuant/core/tensor_network/canonicals.hpp", "SeQuant/core/tensor_network/vertex_painter.cpp",
      "SeQuant/core/tensor_canonicalizer.cpp", "SeQuant/core/expressions/product.hpp", "SeQuant/core/expressions/expr.cpp", "SeQuant/core/tensor_network/slot.hpp"],
     [("colored-graph canonical labelling", "core/tensor_network/v3.cpp"),
      ("canonical dummy relabelling", "core/tensor_network/v3.cpp"),
      ("summand hashing and merging", "core/expressions/expr.cpp")],
     "property-based testing: metamorphic relation over generated equivalent rewritings, exact numeric oracle for inequivalence",
     "Random networks and random members of their equivalence class; canonical forms compared by equality. Inequivalence is decided "
     "by the numeric evaluator.")

prop("C05", "Wick's theorem reproduces the operator algebra of Fock space",
     "WickTheorem applied to a sequence of normal-ordered operators, or to a product or sum of tensors and normal-ordered operators, gives, "
     "with full contractions, the vacuum expectation value and, with all contractions, the normal-ordered form of the operator itself, as "
     "defined by the fermionic (or bosonic) algebra on Fock space; this holds for physical and Fermi vacua, pure and mixed occupied/unoccupied "
     "index spaces, spin-orbital and spin-free bases, with or without the use of topological equivalence, for external indices that appear "
     "repeatedly, and when connections between operators are required or forbidden exactly the contractions satisfying them are kept. "
     "In counting mode the number of contractions is reported exactly.",
     ["inputs", "configurations"],
     "all sequences of up to 5 normal operators and ~12 elementary operators over every registered index space, all contracted tensors with any symmetry, all connectivity constraints, and all option combinations",
     "tests pin the number of terms or the printed result for a few operator strings; signs, multiplicities and topological factors for other inputs, options and connectivity sets are not sampled",
     ["SeQuant/core/wick.hpp", "SeQuant/core/wick.impl.hpp", "SeQuant/core/op.hpp", "SeQuant/core/hugenholtz.hpp", "SeQuant/core/index_space_registry.hpp"],
     [("recursive contraction, phases and connectivity", "core/wick.hpp (recursive_nontensor_wick)"),
      ("overlap reduction", "core/wick.impl.hpp (reduce_wick_impl)"),
      ("topological equivalence of operators and indices", "core/wick.impl.hpp (compute)")],
     "property-based testing: reference model (second quantization on an explicit Fock space, exact arithmetic) and enumeration of contractions",
     "Each index space gets 1-2 orbitals; operators act on explicit Fock states over GF(p^2). Connected subsets are compared with independently "
     "enumerated contractions. Input is restricted to operator strings in which an index occurs at most once per creator/annihilator kind.")

prop("C04", "Expressions are values: equality, order and hash follow the contents",
     "After any history of edits made through their own interface (construction, assignment, index replacement, adjoint, "
     "change of label or bundles, swaps and permutations, erasing and inserting operators) a Tensor or NormalOperator reports exactly "
     "the contents a newly made one with the same data reports: indices, ranks, slots, symmetries, text, hash and Hugenholtz vertex; copies do "
     "not change with the original. Equality of expressions of all kinds (numbers, variables, powers, tensors, operators, sums, products, nested) and of indices is an equivalence that "
     "holds exactly when their contents agree, equal objects have equal hashes, and the order is a strict total order of "
     "equivalence classes; index labels, full labels and orders agree with space, ordinal and proto indices.",
     ["histories", "inputs"],
     "all histories of edits and reads of memoized state (hash, Hugenholtz vertex, net ranks) of tensors and operators; all pairs and triples of expressions and of indices",
     "memoized state goes stale only when a particular edit follows a particular read; the tests edit objects once, and compare a handful of pairs",
     ["SeQuant/core/expressions/tensor.hpp", "SeQuant/core/expressions/tensor.cpp", "SeQuant/core/op.hpp", "SeQuant/core/index.hpp", "SeQuant/core/index.cpp", "SeQuant/core/expressions/expr.hpp",
      "SeQuant/core/expressions/product.hpp", "SeQuant/core/expressions/sum.hpp", "SeQuant/core/expressions/power.hpp", "SeQuant/core/expressions/expr.cpp", "SeQuant/core/hugenholtz.hpp"],
     [("bundles, net ranks and hash of tensors", "core/expressions/tensor.hpp"), ("memoized vertex and hash of operators", "core/op.hpp"),
      ("comparison of expressions", "core/expressions/expr.hpp, product.hpp, sum.hpp"), ("comparison of indices", "core/index.hpp")],
     "stateful (model-based) property-based testing; laws of equivalence and order over generated pairs and triples",
     "Histories of 2-8 edits interleaved with reads against a plain model; 3-6 objects from a small pool, so that equal and nearly equal ones are frequent. Factors edited through "
     "the expression that contains them are not covered.",
     state=[("hash_value_", "memoized hash of an expression", "core/expressions/expr.hpp"), ("hug_", "memoized Hugenholtz vertex of an operator", "core/op.hpp"),
            ("bra_net_rank_, ket_net_rank_", "number of non-empty slots", "core/expressions/tensor.hpp")])

prop("C06", "Adjoint, commutation, reordering and merging of operators on Fock space",
     "The adjoint of any expression of numbers, variables, powers, tensors and fermionic normal operators has the complex conjugate matrix "
     "elements with bra and ket exchanged, and the adjoint of the adjoint is the original up to the order of factors and nesting; commutes_with is symmetric and "
     "says that two expressions commute only if they do on Fock space; expanding, canonicalizing or simplifying a product (or nested product of sums) of tensors "
     "and fermionic operators keeps its vacuum expectation value; merging a sequence of normal operators into one (normalize) gives "
     "exactly its operators, creators first, with the sign of the permutation, and with the requested index pairs in one column when there are as many creators as annihilators.",
     ["inputs"],
     "all products and sums of tensors and normal operators (of any rank, with unequal numbers of creators and annihilators) over all index spaces and vacua, all requested pairings",
     "tests adjoin and reorder a few particle-conserving operators; signs show only for odd, particle-number-changing or overlapping operators",
     ["SeQuant/core/op.hpp", "SeQuant/core/op.cpp", "SeQuant/core/expressions/product.hpp", "SeQuant/core/expressions/sum.hpp", "SeQuant/core/expressions/expr.cpp",
      "SeQuant/core/expressions/expr.hpp", "SeQuant/core/expressions/power.hpp", "SeQuant/core/expressions/variable.hpp"],
     [("adjoint", "core/op.hpp, core/expressions/product.hpp"), ("commutes_with_atom", "core/op.hpp"), ("reordering of factors", "core/expressions/expr.cpp (Product::canonicalize_impl)"),
      ("normalize", "core/op.hpp")],
     "property-based testing: reference model (second quantization on an explicit Fock space, exact arithmetic), laws of the adjoint",
     "Operators with up to 2+2 (merging: 3+3) indices, products of up to 3 (nested: 5) of them. Bosonic operators in merging only.")
