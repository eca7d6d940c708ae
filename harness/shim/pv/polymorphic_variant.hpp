// The library of this name is not installed. This has what
// SeQuant/core/export/generation_optimizer.hpp uses of it: a variant of
// classes with a common base that is used like a pointer to that base.
#pragma once
#include <utility>
#include <variant>

namespace pv {
template <class Base, class... Ts>
class polymorphic_variant {
  std::variant<Ts...> v;

 public:
  template <class T, class = std::enable_if_t<(std::is_same_v<std::decay_t<T>, Ts> || ...)>>
  polymorphic_variant(T&& t) : v(std::forward<T>(t)) {}
  Base& get() { return std::visit([](auto& x) -> Base& { return x; }, v); }
  const Base& get() const { return std::visit([](auto& x) -> const Base& { return x; }, v); }
  Base* operator->() { return &get(); }
  const Base* operator->() const { return &get(); }
  Base& operator*() { return get(); }
  const Base& operator*() const { return get(); }
  operator Base&() { return get(); }
  operator const Base&() const { return get(); }
};
}  // namespace pv
