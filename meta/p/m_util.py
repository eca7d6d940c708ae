prop("C22", "Trees, permutations, bit sets, exact numbers and memoization follow their models",
     "A full binary tree keeps its shape, data and consistent links to parents through any history of copies, moves (also from within itself), assignments to parts, folds and transformations; trees are equal exactly if shape and data are; "
     "visits from any node see exactly the nodes below it in the order asked for, also if the visitor prunes or cuts off branches. Parities of permutations, of sorting swaps and of successive permutations, and the number of loops of "
     "paired columns are right for every permutation, and input not to be overwritten is not. Subsets and bipartitions of every set of bits are each listed once, in order. Complex rationals obey exact arithmetic; fractions "
     "approximating a number are within the tolerance and the simplest; text is converted to a number only if all of it is one, in range. A memoized value is computed once whatever threads ask for it, stays where it is, and a computation that fails can be tried again.",
     ["inputs", "histories", "schedules"],
     "histories of up to 12 operations over trees of up to 63 nodes; permutations of up to 9 elements; masks of 8-64 bits with up to 8 set; up to 4 threads with 8 calls each over 7 keys",
     "unit tests use a few fixed trees and numbers; parity, loops, and memoization have no tests",
     ["SeQuant/core/binary_node.hpp", "SeQuant/core/utility/permutation.hpp", "SeQuant/core/algorithm.hpp", "SeQuant/core/utility/swap.hpp", "SeQuant/core/complex.hpp", "SeQuant/core/rational.hpp", "SeQuant/core/math.hpp",
      "SeQuant/core/utility/conversion.hpp", "SeQuant/core/utility/memoize.hpp"],
     [("trees", "core/binary_node.hpp FullBinaryNode, detail::visit, transform_node, fold_left_to_node"), ("permutations", "core/utility/permutation.hpp; core/algorithm.hpp bubble_sort, next_permutation_parity; core/utility/swap.hpp"),
      ("sets of bits", "core/algorithm.hpp bits::"), ("numbers", "core/complex.hpp, core/rational.hpp to_rational, core/math.hpp, core/utility/conversion.hpp string_to"), ("memoization", "core/utility/memoize.hpp memoize")],
     "property-based testing: model-based histories for trees; brute-force references for permutations, loops, bits and numbers; random plans of calls in real threads for memoization",
     "to_rational is only tried with tolerances for which its limit of 1000 steps suffices; schedules are those the machine produces.")
