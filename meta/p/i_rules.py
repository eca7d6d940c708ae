prop("C10", "Integral factorizations preserve the value of expressions",
     "density_fit, tensor_hypercontract and csv_transform replace every tensor they are to replace, anywhere in an expression, and nothing else: the value of what they return is that of the original expression "
     "with the replaced tensors given by their definitions (sums over auxiliary indices of products of factors, antisymmetrized where the tensor is; expansion of dependent indices in a basis, "
     "orthonormal or not, overlaps included). Indices they introduce never coincide with others, also when they are applied repeatedly; the symmetries they claim of the factors hold; the argument is left as it was.",
     ["inputs"],
     "sums of products (nested once) of up to 4 tensors of ranks 1-3 with several tensors to replace, in every convention of spaces, evaluated exactly; up to 4 dependent indices per tensor",
     "the tests check seven expressions of one or two terms; csv_transform is not tested at all",
     ["SeQuant/domain/mbpt/rules/df.cpp", "SeQuant/domain/mbpt/rules/thc.cpp", "SeQuant/domain/mbpt/rules/csv.cpp"],
     [("density fitting", "domain/mbpt/rules/df.cpp density_fit"), ("hypercontraction", "domain/mbpt/rules/thc.cpp tensor_hypercontract"), ("cluster-specific virtuals", "domain/mbpt/rules/csv.cpp csv_transform")],
     "property-based testing: random expressions; values before and after over GF(p^2) with the tensors overridden by their definitions",
     "Tensors to be fitted are not Symmetry::Symm and have no empty slots; overlaps in an orthonormal basis are between that basis and cluster-specific orbitals in it.")
