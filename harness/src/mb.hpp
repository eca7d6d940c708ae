// Worlds and random operators for the many-body (domain/mbpt) properties.
#pragma once
#include <SeQuant/core/context.hpp>
#include <SeQuant/core/runtime.hpp>
#include <SeQuant/core/io/shorthands.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>
#include <SeQuant/domain/mbpt/context.hpp>
#include <SeQuant/domain/mbpt/convention.hpp>
#include <SeQuant/domain/mbpt/op.hpp>
#include <SeQuant/domain/mbpt/op_registry.hpp>
#include <SeQuant/domain/mbpt/utils.hpp>
#include <SeQuant/domain/mbpt/vac_av.hpp>

#include "fock.hpp"
#include "gen.hpp"
#include "pbt.hpp"

namespace mb {
namespace sq = sequant;
namespace mbpt = sequant::mbpt;
using pbt::Case;
using pbt::Src;
using sq::ExprPtr;

struct World {
  gen::World w;
  int kind = 0;
  bool spinfree = false, physical = false, batch = false;
  int nocc = 0, nvirt = 0;  // modes in hole/particle spaces (spatial)
  std::unique_ptr<fock::Space> f;
};
struct WorldOptions {
  std::vector<int> kinds = {0, 1, 2, 3};
  bool spinfree = true, physical = false, batch = false;
  int modes = 6;   // at most, incl. spin
};
inline void init() {
  sq::set_num_threads(1);
  sq::TensorCanonicalizer::register_instance(std::make_shared<sq::DefaultTensorCanonicalizer>());
  sq::TensorCanonicalizer::set_cardinal_tensor_labels(mbpt::cardinal_tensor_labels());
}
World make_world(Src& s, const WorldOptions& o);
/// normal-ordered operator or sum; `rank`: upper bound on creators + annihilators over 2, reduced by what is used
struct OpGen {
  World& w;
  bool conserving = false;   // particle-conserving operators only
  bool projectors = true, adjoints = true, batched = false, general = true;
  bool sums = true;
  bool no_scalars = false;
};
ExprPtr random_op(Src& s, OpGen& g, int max_rank);
std::string show(const ExprPtr& e);
}  // namespace mb
