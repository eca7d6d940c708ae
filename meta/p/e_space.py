prop("C15", "Index space registries are algebras of sets, through any history",
     "After any history of adding, combining, removing and replacing spaces, masks, choices of special spaces, clearing, copying (copies share spaces), cloning and assigning, every query "
     "of an IndexSpaceRegistry answers for its current contents: lookup by key, label and attributes; base spaces and base types; the special spaces per quantum numbers; "
     "union and intersection, which are those of the bit sets and throw when not registered; occupied and unoccupied tests. Operations that cannot be done throw and change nothing. "
     "Attributes obey the laws of pairs of sets, with a total order consistent with equality, and equal spaces hash equally.",
     ["histories", "inputs"],
     "histories of 3 to 24 operations over one to three registries, some sharing spaces; spaces of all 15 patterns of four bits and four quantum numbers",
     "the tests use the registries of a few conventions, built once",
     ["SeQuant/core/index_space_registry.hpp", "SeQuant/core/space.hpp", "SeQuant/core/attr.hpp"],
     [("contents, shared by copies", "core/index_space_registry.hpp"), ("bit sets of types and quantum numbers", "core/space.hpp")],
     "model-based testing: random histories of operations on registries compared after each step with a reference model (a plain map of spaces)",
     "valid_unIon is specified only for spaces of equal quantum numbers neither of which includes the other. Unions and intersections that come out as a single bit are not made.",
     state=[("spaces", "set of spaces, shared by copies", "core/index_space_registry.hpp"), ("special spaces", "type, and type per quantum numbers, of each", "core/index_space_registry.hpp")])
prop("C16", "Indices are values with canonical labels, a total order and exact replacement",
     "An index is determined by its space, ordinal, proto-indices (a set if symmetric, else a list) however it was made, copied, moved or assigned: label() is base or base_ordinal, "
     "full_label() appends the proto-indices, Index(label()) is the index without them, and ==, <=>, the comparison functors, hash and color follow these data (unset ordinals come first). "
     "Ordinals reserved for temporary indices, malformed labels, unknown spaces and duplicate proto-indices are rejected by an exception. replace_space and drop_proto_indices change what they say only. "
     "transform(map) replaces an index, or else its proto-indices and then once more the index, never one that is tagged already. "
     "Factories and make_tmp_index never give an index twice, also to several threads, keep proto-indices and their asymmetry, respect the validator and start at their first ordinal.",
     ["inputs", "histories", "schedules"],
     "pools of 3 to 16 indices over the spaces of all conventions or without a registry; maps of up to 5 replacements; up to 4 threads",
     "the tests construct a few dozen indices by hand",
     ["SeQuant/core/index.hpp", "SeQuant/core/index.cpp", "SeQuant/core/space.hpp", "SeQuant/core/tag.hpp"],
     [("constructors, labels, order", "core/index.hpp"), ("replacement", "core/index.hpp"), ("counters of temporary indices", "core/index.hpp")],
     "model-based testing: random histories of indices compared with a reference model (a plain record); multi-threaded runs with an exact oracle on the set of results",
     "Indices with tags are compared only via transform(). The order of indices with distinct user-given tags is not covered.",
     state=[("label", "memoized label and full label", "core/index.hpp"), ("tag", "mark of replaced indices", "core/index.hpp"), ("counters", "last ordinal per space", "core/index.hpp")])
prop("C17", "Default contexts follow every history of settings and nested scopes",
     "get_default_context(s) is the context last set for statistics s (or for Arbitrary, or a default one) in the innermost scope; leaving a scope, also by an exception, restores all that was there before it, "
     "whatever was set, reset or changed within, and also if the scope's context equals the one outside; the same holds for the default mbpt context. Indices made from labels, reserved ordinals, hole/particle/complete "
     "spaces, default canonicalization options, operator classes and hermiticities come from the current context. Contexts keep the options they are given; copies share their registries, clones do not; "
     "contexts of different options are not equal. Operator registries answer for their current contents through any history.",
     ["histories", "inputs"],
     "histories of up to 30 steps, scopes nested up to 5 deep, contexts often equal to or a clone of the current one",
     "the tests set and scope a handful of contexts",
     ["SeQuant/core/context.hpp", "SeQuant/core/context.cpp", "SeQuant/core/utility/context.hpp", "SeQuant/core/options.hpp", "SeQuant/domain/mbpt/context.cpp",
      "SeQuant/domain/mbpt/op_registry.hpp", "SeQuant/domain/mbpt/op_registry.cpp"],
     [("contexts per statistics", "core/context.cpp"), ("scopes", "core/utility/context.hpp"), ("operators", "domain/mbpt/op_registry.cpp")],
     "model-based testing: random histories compared after each step with a reference model (a stack of maps of plain records)",
     "Whether contexts with different registries of equal contents are equal is not specified.",
     state=[("default contexts", "a context per statistics", "core/context.cpp"), ("operators", "class and hermiticity by label, shared by copies", "domain/mbpt/op_registry.hpp")])
