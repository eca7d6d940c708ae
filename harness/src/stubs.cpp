// biorthogonalization.cpp needs libperm, which is not installed; nothing
// checked here calls it
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/slotted_index.hpp>
#include <stdexcept>
namespace sequant::mbpt {
ExprPtr biorthogonal_transform_pre_nnsproject(ExprPtr&, const container::svector<container::svector<SlottedIndex>>&, bool) {
  throw std::logic_error("biorthogonalization is not available");
}
}
