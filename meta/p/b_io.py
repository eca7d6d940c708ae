prop("C14", "Text form of expressions: round trip, meaning, rejection of garbage",
     "The text produced by io::serialization::to_string for a flat expression with real coefficients (numbers, variables, powers, tensors with any symmetries, "
     "fermionic and bosonic normal operators, their products and sums of these), or for a ResultExpr of it, is parsed by from_string to an expression that compares "
     "equal, hashes equal and is written as the same text, for every set of default symmetries when symmetries are annotated, and for matching defaults when they are not; for nested "
     "expressions the value is kept. Text written by hand in any notation of the grammar, with any white space, is parsed to the expression that ordinary "
     "notation (precedence of ^, *, juxtaposition, +, -, parentheses) assigns to it. Any other text is rejected by an exception, a SerializationError "
     "always pointing into the text, and whatever text is accepted has a text form that parses to the same value.",
     ["inputs"],
     "all flat expressions over all index-space conventions, labels and symmetries; all renderings of an expression in the grammar; all texts",
     "the tests parse and print a fixed list of strings; precedence, number formats, label characters, symmetry letters and errors at other positions are not sampled",
     ["SeQuant/core/io/serialization/serialization.cpp", "SeQuant/core/io/serialization/v1/serialize.cpp", "SeQuant/core/io/serialization/v1/deserialize.cpp",
      "SeQuant/core/io/serialization/v1/ast_conversions.hpp", "SeQuant/core/io/serialization/v1/semantic_actions.hpp"],
     [("printing of expressions", "core/io/serialization/v1/serialize.cpp"), ("grammar", "core/io/serialization/v1/deserialize.cpp"),
      ("conversion to expressions, symmetry defaults, errors", "core/io/serialization/v1/ast_conversions.hpp")],
     "property-based testing: round trip, generated renderings against a reference meaning, mutation fuzzing of the text",
     "Random expressions and texts; values compared exactly by the numeric evaluator with every index external. Coefficients with an imaginary part are a known finding; "
     "tensors with empty slots have no text form and are not generated.")
