prop("C19", "Symbolic costs are exact polynomials with a consistent order",
     "Asymptotic costs behave as polynomials in the extents of index spaces with rational coefficients: sums, differences, products, powers and multiples agree with polynomial arithmetic, equal polynomials compare equal "
     "however they were built, evaluation at given extents (total or selected) is that of the polynomial, and comparison is a strict weak order decided by the leading term. "
     "The cost of a tree of evaluations is the sum over its contractions, additions and multiplications of the product of the extents of the distinct indices of each; symmetry only lowers it; minimal storage is the "
     "largest total of two operands and a result; the peak of cached intermediates is the largest total size held at a time when each intermediate is kept from when it is made until its last use.",
     ["inputs", "histories"],
     "random sequences of up to 8 operations on costs; trees of random networks of up to 5 tensors in every convention of spaces; sums of up to 5 terms with common parts",
     "the tests check some twenty costs given by hand and a handful of trees, peak_cache not at all beyond running",
     ["SeQuant/core/asy_cost.cpp", "SeQuant/core/asy_cost.hpp", "SeQuant/core/eval/eval_expr.hpp", "SeQuant/core/eval/eval_node.hpp", "SeQuant/core/eval/cache_manager.cpp"],
     [("arithmetic of costs", "core/asy_cost.cpp AsyCost::operator+,-,*,/"), ("order", "core/asy_cost.cpp AsyCost::operator<"), ("cost of a node", "core/eval/eval_node.hpp Flops, Memory, FlopsWithSymm, asy_cost, min_storage"), ("peak of caches", "core/eval/cache_manager.cpp peak_cache")],
     "property-based testing: random operation sequences against a reference polynomial ring; random evaluation trees against costs counted from their indices; a reference simulation of the cache",
     "Order is stated for costs of nonnegative coefficients; the factor of multiplications without contraction and FlopsWithSymm are bounded, not equated.")
