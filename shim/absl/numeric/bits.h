// absl/numeric/bits.h with the result types of current absl (and std): bit_width returns int.
#ifndef VERIF_SHIM_ABSL_NUMERIC_BITS_H_
#define VERIF_SHIM_ABSL_NUMERIC_BITS_H_
#include <cstdint>
#include <limits>
#include <type_traits>
namespace absl {
template <class T>
constexpr typename std::enable_if<std::is_unsigned<T>::value, int>::type bit_width(T x) {
  int n = 0;
  while (x) {
    ++n;
    x = static_cast<T>(x >> 1);
  }
  return n;
}
template <class T>
constexpr typename std::enable_if<std::is_unsigned<T>::value, int>::type popcount(T x) {
  int n = 0;
  while (x) {
    n += x & 1;
    x = static_cast<T>(x >> 1);
  }
  return n;
}
template <class T>
constexpr typename std::enable_if<std::is_unsigned<T>::value, int>::type countl_zero(T x) {
  return std::numeric_limits<T>::digits - bit_width(x);
}
template <class T>
constexpr typename std::enable_if<std::is_unsigned<T>::value, int>::type countl_one(T x) {
  return countl_zero(static_cast<T>(~x));
}
template <class T>
constexpr typename std::enable_if<std::is_unsigned<T>::value, int>::type countr_zero(T x) {
  if (x == 0) return std::numeric_limits<T>::digits;
  int n = 0;
  while (!(x & 1)) {
    ++n;
    x = static_cast<T>(x >> 1);
  }
  return n;
}
template <class T>
constexpr typename std::enable_if<std::is_unsigned<T>::value, int>::type countr_one(T x) {
  return countr_zero(static_cast<T>(~x));
}
template <class T>
constexpr typename std::enable_if<std::is_unsigned<T>::value, bool>::type has_single_bit(T x) {
  return x != 0 && (x & (x - 1)) == 0;
}
template <class T>
constexpr typename std::enable_if<std::is_unsigned<T>::value, T>::type bit_floor(T x) {
  return x == 0 ? 0 : static_cast<T>(T{1} << (bit_width(x) - 1));
}
template <class T>
constexpr typename std::enable_if<std::is_unsigned<T>::value, T>::type bit_ceil(T x) {
  return x <= 1 ? T{1} : static_cast<T>(T{1} << bit_width(static_cast<T>(x - 1)));
}
template <class T>
constexpr typename std::enable_if<std::is_unsigned<T>::value, T>::type rotl(T x, int s) {
  const int d = std::numeric_limits<T>::digits;
  s &= d - 1;
  return s == 0 ? x : static_cast<T>((x << s) | (x >> (d - s)));
}
template <class T>
constexpr typename std::enable_if<std::is_unsigned<T>::value, T>::type rotr(T x, int s) {
  return rotl(x, -s);
}
}  // namespace absl
#endif
