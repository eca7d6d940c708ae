prop("C18", "Exported code computes what was exported",
     "For any sequence of groups of expressions, export_groups() makes the calls of a generator in an order in which every object is declared in the scope the "
     "generator asks for before its use (and only there), created or loaded before it is computed with, unloaded again and persisted if it is a result; executing "
     "the calls gives every result the value of its expression (added to what was there, for results that accumulate), whatever may be pruned, whatever load and "
     "zero strategies and memory layout are set, and with the indices of tensors reordered consistently. Programs generated for NumPy, PyTorch, Julia "
     "(TensorOperations, TensorKit, ITensor), ITF and as text, with or without the optimizing generator in between, are well-formed and, executed, write exactly the "
     "results, with these values; ITF programs loop over the indices that are to be looped over and import just what comes from outside.",
     ["inputs"],
     "one to four expressions or results of nested sums and products with scalars, variables, powers and tensors with any symmetry, in named or unnamed groups; "
     "all declaration scopes, prunable scalars and strategies",
     "the tests compare a few generated texts with stored ones (and need a library that is not installed)",
     ["SeQuant/core/export/export.hpp", "SeQuant/core/export/context.cpp", "SeQuant/core/export/reordering_context.cpp", "SeQuant/core/export/expression_group.hpp",
      "SeQuant/core/export/python_einsum.hpp", "SeQuant/core/export/julia_tensor_operations.hpp", "SeQuant/core/export/julia_itensor.hpp",
      "SeQuant/core/export/julia_tensor_kit.hpp", "SeQuant/core/export/itf.hpp", "SeQuant/core/export/itf.cpp", "SeQuant/core/export/generation_optimizer.hpp", "SeQuant/core/export/text_generator.hpp"],
     [("pruning of scalars, naming and reuse of intermediates", "core/export/export.hpp PreprocessVisitor"), ("order of calls, loading and unloading", "core/export/export.hpp GenerationVisitor"),
      ("reordering of indices", "core/export/reordering_context.cpp"), ("einsum subscripts, names of blocks", "core/export/python_einsum.hpp"),
      ("integrals in ITF order, loops, declarations", "core/export/itf.cpp ItfContext::rewrite"), ("cancelled operations", "core/export/generation_optimizer.hpp")],
     "property-based testing: random groups of expressions exported to a generator that is a virtual machine, and interpretation of the generated programs, over "
     "GF(p^2), against direct evaluation",
     "Adjoint leaves are documented to be exported for real fields only; proto-indices are not supported by the generators. The labels I and Z are those of "
     "intermediates. Tensor blocks are named by label and the tags of spaces, hence leaves with equal name are equal. Not written by the generators, hence left out: conjugated variables, powers of variables and indices whose letters clash in ITF; TensorKit arrays without bra; one ITensor array with several sets of indices.")
