prop("C24", "Results do not depend on the number of threads",
     "Canonicalization and simplification of a sum, Wick's theorem applied to a sum, the optimization of a sum and eager sums give with any number of threads and under any schedule what they give with one: the same "
     "canonical text and value, the same number of attempted and useful contractions, the same trees of contractions in the same order; the expression they were applied to by copy or const reference stays as it was. "
     "The helpers they are built on call their function once for every item or thread id, with no more calls at a time than threads, lose no part of a reduction, and return when all calls have; the number of threads "
     "is what it was set to, and numbers below one are refused.",
     ["inputs", "schedules"],
     "sums of up to 24 terms of up to 3 tensors (Wick: 6 terms of up to 12 elementary operators in all; optimizer: 14 terms of up to 4 tensors), 2, 3, 4 or 8 threads, up to 3 runs each with pauses in callbacks; helpers: up to 200 items, 1-8 threads",
     "the tests run with the number of threads of the machine and compare with short texts: a race in a sum of two terms shows once in a great many runs, and never on a loaded machine",
     ["SeQuant/core/runtime.hpp", "SeQuant/core/expressions/expr.cpp", "SeQuant/core/expressions/sum.hpp", "SeQuant/core/wick.impl.hpp", "SeQuant/core/optimize/optimize.cpp"],
     [("sums", "core/expressions/expr.cpp Sum::canonicalize_impl; core/tensor_canonicalizer.cpp, core/tensor_network/v3.cpp: what the summands share"), ("Wick", "core/wick.impl.hpp WickTheorem::compute, wick_task; core/wick.hpp Stats"),
      ("optimizer", "core/optimize/optimize.cpp optimize_impl"), ("helpers", "core/runtime.hpp for_each, transform_reduce, parallel_do, set_num_threads; core/expressions/sum.hpp transform_sum_expr")],
     "property-based testing: random sums and schedules (numbers of threads, pauses at drawn points of callbacks), differential against the run with one thread and against the numeric model",
     "Schedules are those that the machine and the drawn pauses produce. The variant of the helpers for the <execution> header is not built (nor is it in the official build).")
