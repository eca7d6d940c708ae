prop("C20", "Decompositions of operators and cumulants are those of generalized normal order",
     "antisymmetrize returns the sum over all distinct arrangements of the bra and of the ket indices of a product over its antisymmetric factors, with their signs and the product's own coefficient. "
     "Cumulants written by density matrices, and products of one to three operators written by cumulants or density matrices and operators of lower rank (exact, or without cumulants above a given rank) are those "
     "that follow recursively from the definition of the generalized normal order, for any values of the ingredients. Substituting three-body operators in an expression replaces every one, wherever it is, "
     "with the result summed over spins as it is for a singlet, or in terms of sums of like terms. Arguments are left as they were where they are not references.",
     ["inputs"],
     "products of up to 4 tensors and operators; cumulants and operators of ranks 1-3 over up to 3 different index spaces in every convention; sums of up to 3 products with coefficients; pairings of up to 5 pairs of indices",
     "no unit test covers this code; one program, not among the tests, prints some results",
     ["SeQuant/domain/mbpt/antisymmetrizer.cpp", "SeQuant/domain/mbpt/antisymmetrizer.hpp", "SeQuant/domain/mbpt/rdm.cpp", "SeQuant/domain/mbpt/rdm.hpp"],
     [("antisymmetrization", "domain/mbpt/antisymmetrizer.cpp antisymm_element, antisymmetrize"), ("pairing of indices", "domain/mbpt/antisymmetrizer.cpp num_closed_loops, max_similarity, spin_sum"),
      ("cumulants and operators", "domain/mbpt/rdm.cpp cumu*_to_density, two_body_decomp, three_body_decomp, three_body_substitution")],
     "property-based testing: random products, operators and expressions; values over a prime field with arbitrary antisymmetric (for spin sums: singlet) arrays against a recursion in the same arrays",
     "three_body_decomposition of rank 3 is left out (documented as not supported yet).")
