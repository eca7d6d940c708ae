prop("C23", "Biorthogonalized closed-shell equations are those of the definition",
     "The biorthogonal transformation of an expression, or of a set of results that pair the same indices (of one or several spaces) in different ways, gives for each the sum over all permutations "
     "of the paired indices with the coefficients that follow from the overlaps of permuted spin-free states: the normalized pseudoinverse of the matrix of their numbers of loops and signs; a needed pairing that is "
     "missing is refused, and nothing else about the results changes. closed_shell_CC_spintrace of antisymmetrized spin-orbital equations gives these sums of the spin-summed equations (V1), or a compact form of "
     "them (V2) from which projection with the weights of the non-null space gives the same values. The weights are the exact ones for every number of particles and number type, each for the permutation of "
     "its rank.",
     ["inputs"],
     "1 to 4 pairs of indices (weights: up to 5); sums of up to 3 products of up to 4 tensors and variables, rank up to 4; up to 2 spaces on either side; exact values over a finite field",
     "the tests compare some short texts; the file is not even part of builds without libperm; sets of results are tested for two pairs only",
     ["SeQuant/domain/mbpt/biorthogonalization.hpp", "SeQuant/domain/mbpt/biorthogonalization.cpp", "SeQuant/domain/mbpt/spin.cpp"],
     [("coefficients", "domain/mbpt/biorthogonalization.cpp make_hardcoded_biorthogonalizer_matrix, compute_biorthogonalizer_matrix, detail::compute_nns_p_coeffs; .hpp detail::nns_projection_weights"),
      ("transformation", "domain/mbpt/biorthogonalization.cpp biorthogonal_transform, create_expr_for"),
      ("residuals", "domain/mbpt/spin.cpp closed_shell_CC_spintrace_v1, _v2; domain/mbpt/biorthogonalization.cpp biorthogonal_transform_pre_nnsproject, WK_biorthogonalization_filter")],
     "property-based testing: random expressions and sets of results; values against explicit sums over permutations with coefficients solved for exactly in the group algebra",
     "libperm is not installed: a stand-in (harness/shim/libperm) gives permutations, their products and ranks in the order of Myrvold and Ruskey, which the tabulated coefficients agree with. Expressions are meant to keep "
     "their value when pairs trade places; where they do not, either side may be permuted. V2 with complex coefficients is not generated.")
