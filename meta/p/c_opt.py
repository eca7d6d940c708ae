prop("C11", "Optimizer keeps the value, the factors, and the summands",
     "optimize() returns an expression of the same value as its argument, which it leaves as it was, for every objective function and all other options "
     "(extents, CSE subnets, volatile weights, footprint, roofline, batching, pruning, reordering). A Product of tensors and scalars comes back as a binary tree "
     "of the same factors with the same coefficient; a Sum has the same summands, each optimized, in the same order if no reordering is requested. "
     "ResultExpr keeps its result. Reordering puts the summands in the order given by clusters(), a partition of them; Fusion of two Products pulls out exactly the "
     "common leading (trailing) factors and keeps the value of their sum.",
     ["inputs"],
     "all products and sums of tensors and scalars that can be evaluated (nested, with hyperindices, proto-indices, empty slots), all options",
     "the tests optimize a few dozen products with one or two objective functions and compare the text",
     ["SeQuant/core/optimize/optimize.cpp", "SeQuant/core/optimize/single_term.hpp", "SeQuant/core/optimize/fusion.cpp", "SeQuant/core/optimize/sum.cpp"],
     [("optimization of a product", "core/optimize/single_term.hpp"), ("optimization of sums and nested expressions", "core/optimize/optimize.cpp"),
      ("factoring two products", "core/optimize/fusion.cpp"), ("clustering of summands", "core/optimize/sum.cpp")],
     "property-based testing: random tensor networks and options against exact numerical evaluation of both sides",
     "Values by the numeric evaluator over GF(p^2); the tensors of a network are not contracted with themselves and not more than 6 in number.")
prop("C12", "Optimizer finds a tree of least cost",
     "For a Product of up to 7 tensors (with any incidences of plain and composite indices and any extents) the binary tree returned by optimize() is, under the cost "
     "model its options describe (extents, inner_pow, volatile weight, footprint weight, roofline, batching policy), as good as the best of all binary trees: least "
     "additive cost for DenseFLOPs and DenseSize; for DensePeakSize and DensePeakSizeBatched, evaluated in the order in which the tree is written, fewest "
     "(weighted) flops among the trees whose peak is within the tolerance of the least peak. With prune_outer_products (the default) 'all trees' means "
     "those without disconnected intermediates, unless the product itself is disconnected. peak_cost() and peak_cost_batched() return the least peaks. CSE subnets are off. "
     "Empty slots of tensors cost nothing.",
     ["inputs"],
     "all products of 3-7 tensors, all extents, all cost options (at most 2 batchable indices)",
     "the tests check the tree of a dozen products, with extents of a fixed set of spaces",
     ["SeQuant/core/optimize/single_term.hpp", "SeQuant/core/optimize/single_term_detail.hpp", "SeQuant/core/optimize/cost_model.hpp"],
     [("subset enumeration, open indices, costs", "core/optimize/single_term_detail.hpp"), ("objectives and their recurrences", "core/optimize/cost_model.hpp"),
      ("choice of the objective, assembly of the tree", "core/optimize/single_term.hpp")],
     "property-based testing: random networks against brute-force enumeration of all evaluation trees with independently written costs",
     "The cost definitions are those documented in options.hpp; which of several trees of equal cost is returned is not specified.")
