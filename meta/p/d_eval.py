prop("C13", "Evaluation trees, caches, batching and CSE keep the value",
     "Evaluating the tree that binarize() makes of an expression or ResultExpr (with any layout of the result, with and without a cache made by cache_manager() with "
     "any of its options, over any number of passes with resets and persistent data, in batches of any size over any batchable index, or of an array of trees as "
     "one sum) gives the value of the expression, as a function of its external indices, and leaves the data of the leaves as they were. Nodes that the cache "
     "identifies have equal values up to the recorded phase. to_expr() of a tree is an expression of the same value. eliminate_common_subexpressions() gives trees of the same "
     "results and values, in which each intermediate is defined before its first use and is named uniquely. extract_subtrees() takes out the largest subtrees with a property, one of "
     "each kind, leaves an operand like them in their place, and nothing else changes.",
     ["inputs", "histories"],
     "sums and products (nested) of tensors of all symmetries, powers and scalars, one to five trees with common parts, hyperindices and proto-indices, all cache options",
     "the tests evaluate a few dozen CC-like terms with the numerical backends",
     ["SeQuant/core/eval/eval_expr.cpp", "SeQuant/core/eval/eval_expr.hpp", "SeQuant/core/eval/eval.hpp", "SeQuant/core/eval/cache_manager.hpp",
      "SeQuant/core/eval/cache_manager.cpp", "SeQuant/core/eval/eval_node_compare.hpp", "SeQuant/core/optimize/common_subexpression_elimination.hpp", "SeQuant/core/optimize/extract_subtrees.hpp"],
     [("making of trees: indices, phases, hashes", "core/eval/eval_expr.cpp"), ("the interpreter of trees, batched and not", "core/eval/eval.hpp"),
      ("counting of repeats, lifetimes", "core/eval/cache_manager.hpp"), ("identity of nodes", "core/eval/eval_node_compare.hpp"),
      ("definitions and uses of intermediates", "core/optimize/common_subexpression_elimination.hpp")],
     "property-based testing: random forests of expressions evaluated by the library's interpreter with a reference backend (dense arrays over GF(p^2)) "
     "against direct evaluation",
     "Tensors with an index that has proto-indices carry these in their own slots (intermediates do not keep track of proto-indices); identical tensor blocks are "
     "those of equal label and sequence of index spaces; a forest for CSE has no braket-symmetric tensors in nested sums. The TA/BTAS/TAPP backends need libraries "
     "that are not installed: dense arithmetic stands in for them.",
     state=[("trees", "evaluation trees of a forest", "core/eval/eval_expr.hpp"), ("cache", "entries with life counts and data, over passes and resets", "core/eval/cache_manager.hpp")])
