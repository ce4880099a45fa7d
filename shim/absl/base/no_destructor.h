#pragma once
// Stand-in for absl/base/no_destructor.h.
#include <new>
#include <type_traits>
#include <utility>
namespace absl {
template <typename T>
class NoDestructor {
 public:
  template <typename... Ts,
            typename std::enable_if<!std::is_same<void(std::decay_t<Ts>&...),
                                                  void(NoDestructor&)>::value,
                                    int>::type = 0>
  explicit constexpr NoDestructor(Ts&&... args)
      : p_(new T(std::forward<Ts>(args)...)) {}
  explicit NoDestructor(const T& x) : p_(new T(x)) {}
  explicit NoDestructor(T&& x) : p_(new T(std::move(x))) {}
  NoDestructor(const NoDestructor&) = delete;
  NoDestructor& operator=(const NoDestructor&) = delete;
  T& operator*() { return *p_; }
  T* operator->() { return p_; }
  T* get() { return p_; }
  const T& operator*() const { return *p_; }
  const T* operator->() const { return p_; }
  const T* get() const { return p_; }

 private:
  T* p_;
};
}  // namespace absl
