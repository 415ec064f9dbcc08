#ifndef VERIF_SHIM_ABSL_NO_DESTRUCTOR_H_
#define VERIF_SHIM_ABSL_NO_DESTRUCTOR_H_
#include <initializer_list>
#include <new>
#include <type_traits>
#include <utility>
namespace absl {
template <typename T>
class NoDestructor {
 public:
  template <typename... Ts,
            typename std::enable_if<
                !(sizeof...(Ts) == 1 &&
                  (std::is_same<NoDestructor, std::decay_t<Ts>>::value && ...)),
                int>::type = 0>
  explicit NoDestructor(Ts&&... args) {
    new (&space_) T(std::forward<Ts>(args)...);
  }
  explicit NoDestructor(const T& x) { new (&space_) T(x); }
  explicit NoDestructor(T&& x) { new (&space_) T(std::move(x)); }
  NoDestructor(const NoDestructor&) = delete;
  NoDestructor& operator=(const NoDestructor&) = delete;
  T& operator*() { return *get(); }
  T* operator->() { return get(); }
  T* get() { return reinterpret_cast<T*>(&space_); }
  const T& operator*() const { return *get(); }
  const T* operator->() const { return get(); }
  const T* get() const { return reinterpret_cast<const T*>(&space_); }
 private:
  alignas(T) unsigned char space_[sizeof(T)];
};
}  // namespace absl
#endif
