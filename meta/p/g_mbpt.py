prop("C07", "Many-body operators mean the matrices they stand for",
     "Every expression of many-body operators (sums and products of Hamiltonian, cluster, general, excitation, deexcitation, projection and perturbed operators, "
     "their adjoints, scalars) denotes a matrix in Fock space: the one given by the documented tensor and normal-ordered operator of each factor. Rewriting "
     "(simplify, canonicalize, expand), adjoint and the Lie similarity transformation give the matrix they should; operators that compare equal are equal, and "
     "equal ones hash equally; vacuum and reference expectation values, with or without screening and topology, explicit or connected, are the expectation values of that "
     "matrix; and the functions that screen by quantum numbers (can_change_qns, raises_vacuum_to_rank, lowers_rank_to_vacuum, ...) never deny a change that the matrix makes.",
     ["inputs"],
     "sums of products of up to 4 operators of ranks up to 3 between any occupied, active and virtual spaces, spin-orbital or spin-free, vacuum physical or determinant, "
     "batched or not, evaluated exactly over at most 7 spin orbitals in every convention of spaces; commutators to third order",
     "the tests compare term counts and a few expressions of the standard methods; the meaning of arbitrary products, ranks, spaces and orders is never evaluated",
     ["SeQuant/domain/mbpt/op.hpp", "SeQuant/domain/mbpt/op.ipp", "SeQuant/domain/mbpt/op.cpp", "SeQuant/domain/mbpt/vac_av.cpp", "SeQuant/domain/mbpt/utils.cpp", "SeQuant/domain/mbpt/op_registry.cpp"],
     [("tensor forms, normalization, quantum numbers", "domain/mbpt/op.cpp op::, op::tensor::"), ("commutation, equality, adjoint", "domain/mbpt/op.ipp Operator"),
      ("expectation values, density matrices", "domain/mbpt/op.cpp expectation_value_impl, vac_av.cpp"), ("Campbell expansion, screening", "domain/mbpt/utils.cpp")],
     "property-based testing: random operator expressions against a dense Fock-space model over GF(p^2)",
     "Operators of dependent (CSV) indices are not generated; at most one batched operator per product; the connected form of lst is checked for single-reference spaces only, where it is meant to hold.")
prop("C08", "Coupled-cluster equations are those of the model's definition",
     "For every rank, ansatz (traditional, orbital-optimized, unitary), truncation of the commutator expansions, treatment of singles, projection manifold and basis, "
     "and whatever screening or topological shortcuts are on, the equations CC derives equal their definitions: energy and amplitudes <P|exp(-S) H exp(S)|0>, multipliers "
     "<0|(1+L)[Hbar,tau]|0> and their pseudoenergy, first-order perturbed amplitudes and multipliers with the frequency term, right and left equation-of-motion sigma "
     "vectors <0|dl [Hbar,R]|0> and <0|L [Hbar,dr]|0> of every number of particles and holes, and reduced density matrices <0|(1+L) exp(-S) a exp(S)|0>, as numbers for any values of integrals and amplitudes.",
     ["inputs"],
     "ranks 1-2 (3 at times), all ansaetze and options, up to 6 spin orbitals, with and without inactive orbitals, spin-orbital and spin-free; up to two batching indices; density matrices to rank 2",
     "the tests compare the number of terms of standard cases",
     ["SeQuant/domain/mbpt/models/cc.hpp", "SeQuant/domain/mbpt/models/cc.cpp", "SeQuant/domain/mbpt/vac_av.cpp", "SeQuant/domain/mbpt/op.cpp", "SeQuant/core/wick.impl.hpp"],
     [("screening by projection manifold, connections", "domain/mbpt/models/cc.cpp"), ("Campbell expansion", "domain/mbpt/utils.cpp lst"), ("topology, connections", "core/wick.impl.hpp")],
     "property-based testing: random models and options, against exp(-S) H exp(S) applied in Fock space over GF(p^2)",
     "The spin-free projector is the tensor S as the library defines it, whatever its biorthogonality; dependent (CSV) indices are not generated.")
