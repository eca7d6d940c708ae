prop("C09", "Spin tracing preserves the value of expressions",
     "Spin integration gives expressions of spin-free (or spin-specific) quantities whose value is that of the spin-orbital expression they came from: spintrace equals the sum over "
     "all spins of internal indices for every spin of the external groups, closed_shell_spintrace what follows when alpha and beta orbitals "
     "agree, open_shell_spintrace each spin case of it, for expressions and tensor-valued results with any externals, numbers of particles, antisymmetrizers and column symmetries. The "
     "steps keep values too: expansion of A, S, P operators and of antisymmetric tensors, symmetrization, permutations, biorthogonal S_maps, adding, removing and swapping spin, "
     "and only the documented changes are made to the argument.",
     ["inputs"],
     "sums of up to 4 products of up to 4 tensors of rank up to 3 (mixed bra, ket, auxiliary indices; antisymmetric, column-symmetric, nonsymmetric) with up to 3 (4 in projector "
     "expansions) pairs of externals, evaluated exactly over small alpha and beta orbital spaces",
     "the tests compare text or term counts for some tensors and CC methods; the value of an arbitrary network after tracing is never computed",
     ["SeQuant/domain/mbpt/spin.hpp", "SeQuant/domain/mbpt/spin.cpp", "SeQuant/domain/mbpt/antisymmetrizer.hpp"],
     [("spin tracing", "domain/mbpt/spin.cpp spintrace, closed_shell_spintrace, open_shell_spintrace, open_shell_CC_spintrace"),
      ("expansion of A, S, P; antisymmetric tensors", "domain/mbpt/spin.cpp expand_A_op, S_maps, expand_P_op, expand_antisymm, symmetrize_expr"),
      ("spin labels", "domain/mbpt/spin.cpp append_spin, remove_spin, swap_spin, make_spinalpha")],
     "property-based testing: random tensor networks; values before and after over GF(p^2), exact",
     "Externals of expressions with A are named as canonicalization would name them, as the functions make dummies of them. Dependent indices, Symmetry::Symm tensors and Power are not generated.")
