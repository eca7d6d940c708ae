prop("C21", "Inspecting, rewriting, typesetting expressions sees each index, term, factor",
     "For every expression: the open indices (contracted away or not, by bra, ket, auxiliary slots; of lone tensors, products, sums, and nested ones), the pairing of bra with ket indices, and the list of all indices are "
     "those that follow from the slots of its tensors; empty slots are no indices. Popping a tensor by its label, transforming indices and scaling, replacing one subexpression with another (in an expression or in "
     "a named result) give the expression written with that change everywhere and no other change; the result keeps its value for any values of the tensors and the indices of a result stay what they were. "
     "The description of a difference of two expressions is empty exactly if they are equal; validity checks accept what is well formed and refuse duplicate or mismatching indices. "
     "Visits come to every node once, operands before what they are part of, and to the leaves in the order they are written. The target indices of every subset of tensors are exactly those open in the subset, needed by the rest, or asked for. Typeset text shows every index as many times as it occurs, with balanced braces, and tells different expressions apart; of a label every character shows, in order, with its accent.",
     ["inputs"],
     "expressions of up to 4 terms of up to 4 factors, nested up to 3 levels, with constants, variables, powers, normal-ordered operators, empty slots, dependent and auxiliary indices; up to 6 tensors for subsets",
     "unit tests check a dozen fixed expressions",
     ["SeQuant/core/utility/indices.hpp", "SeQuant/core/utility/expr.cpp", "SeQuant/core/utility/expr.hpp", "SeQuant/core/utility/tensor.hpp", "SeQuant/core/io/latex/latex.cpp", "SeQuant/core/expressions/power.hpp", "SeQuant/core/expressions/expr.hpp", "SeQuant/core/expressions/expr_range.hpp"],
     [("indices of expressions", "core/utility/indices.hpp get_unique_indices, get_uncontracted_indices, external_indices, get_used_indices, subset_target_indices"),
      ("inspection", "core/utility/expr.cpp diff, is_valid; core/utility/tensor.hpp block comparison and hash"),
      ("rewriting", "core/utility/expr.cpp transform_expr, pop_tensor; core/utility/expr.hpp replace"),
      ("typesetting", "core/io/latex/latex.cpp and the to_latex members of expressions")],
     "property-based testing: random expressions; a plain recursion over the slots, factors and terms as the oracle, evaluation over a prime field for rewritten ones, single random edits for differences and typesetting",
     "transform_expr refuses nested expressions (documented by an exception), so it gets flat ones.")
