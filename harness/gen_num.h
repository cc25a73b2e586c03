// Generators of hostile numbers.
#pragma once
#include "vf.h"

namespace vf {
// finite, moderate magnitude, often small integers or dyadic fractions
template <class T> T moderate(Rng &r) {
  if constexpr (std::is_integral_v<T>) {
    switch (r.in(0, 3)) {
    case 0:
      return static_cast<T>(r.in(-3, 3));
    case 1:
      return static_cast<T>(r.in(-20, 20));
    default:
      return static_cast<T>(r.in(-1000, 1000));
    }
  } else {
    switch (r.in(0, 5)) {
    case 0:
      return static_cast<T>(r.in(-3, 3));
    case 1:
      return static_cast<T>(double(r.in(-64, 64)) / 8);
    case 2:
      return static_cast<T>(std::ldexp(r.unit() * 2 - 1, int(r.in(-20, 20))));
    default:
      return static_cast<T>((r.unit() * 2 - 1) * 10);
    }
  }
}
template <class T> T nonneg(Rng &r) {
  const T x = moderate<T>(r);
  return x < 0 ? static_cast<T>(-x) : x;
}
template <class T> T nonzero(Rng &r) {
  T x;
  do
    x = moderate<T>(r);
  while (x == 0);
  return x;
}
// any value of a floating-point type, special ones included
template <class T> T special(Rng &r) {
  using L = std::numeric_limits<T>;
  switch (r.in(0, 9)) {
  case 0:
    return L::quiet_NaN();
  case 1:
    return L::infinity();
  case 2:
    return -L::infinity();
  case 3:
    return T(0);
  case 4:
    return -T(0);
  case 5:
    return r.pick({L::max(), L::lowest(), L::min(), -L::min(), L::denorm_min()});
  default:
    return moderate<T>(r);
  }
}
// any integer, biased to extremes and powers of two
template <class T> T any_int(Rng &r) {
  using L = std::numeric_limits<T>;
  switch (r.in(0, 6)) {
  case 0:
    return static_cast<T>(r.in(-5, 5));
  case 1:
    return static_cast<T>(L::max() - r.in(0, 5));
  case 2:
    return static_cast<T>(L::min() + r.in(0, 5));
  case 3: {
    const int bits = int(sizeof(T) * 8) - 1;
    const int64_t p = int64_t(uint64_t(1) << r.in(0, bits - 1));
    const int64_t v = p + r.in(-2, 2);
    return static_cast<T>(r.chance(1, 2) ? v : -v);
  }
  case 4:
    return static_cast<T>(r.in(-1000000, 1000000));
  default:
    return static_cast<T>(r.next());
  }
}
template <class T> const char *tname() {
  if (std::is_same_v<T, double>)
    return "double";
  if (std::is_same_v<T, float>)
    return "float";
  if (std::is_same_v<T, int64_t>)
    return "int64";
  if (std::is_same_v<T, int32_t>)
    return "int32";
  if (std::is_same_v<T, bool>)
    return "bool";
  return "?";
}
// |a-b| within rel relative or abs_ absolute tolerance; equal specials agree
template <class A, class B>
bool close(const A a, const B b, const double rel, const double abs_ = 0) {
  const long double x = static_cast<long double>(a), y = static_cast<long double>(b);
  if (std::isnan(x) || std::isnan(y))
    return std::isnan(x) && std::isnan(y);
  if (std::isinf(x) || std::isinf(y))
    return x == y;
  const long double m = std::max(std::fabs(x), std::fabs(y));
  return std::fabs(x - y) <= rel * m + abs_;
}
template <class T> bool same(const T a, const T b) {
  if constexpr (std::is_floating_point_v<T>)
    if (std::isnan(a) || std::isnan(b))
      return std::isnan(a) && std::isnan(b);
  return a == b;
}
} // namespace vf
