// Event coordinates, bin edges and their exact comparison (as long double,
// which holds every int64 and double).
#pragma once
#include "parts.h"
#include <cmath>

namespace vf {
using Real = long double;
template <class F> decltype(auto) for_number(const DType t, F &&f) {
  if (t == dtype<double>)
    return f(Tag<double>{});
  if (t == dtype<float>)
    return f(Tag<float>{});
  if (t == dtype<int64_t>)
    return f(Tag<int64_t>{});
  if (t == dtype<int32_t>)
    return f(Tag<int32_t>{});
  if (t == dtype<bool>)
    return f(Tag<bool>{});
  if (t == dtype<time_point>)
    return f(Tag<time_point>{});
  fail("harness", "not a number");
}
template <class T> Real to_real(const T &x) {
  if constexpr (std::is_same_v<T, time_point>)
    return Real(x.time_since_epoch());
  else
    return Real(x);
}
template <class T> T from_real(const Real x) {
  if constexpr (std::is_same_v<T, time_point>)
    return time_point(int64_t(x));
  else
    return T(x);
}
inline Real num(const Variable &v, const IndexMap &at) {
  return for_number(v.dtype(), [&](auto tag) { return to_real(raw_value<typename decltype(tag)::type>(v, at)); });
}
inline Real var_num(const Variable &v, const IndexMap &at) {
  return v.dtype() == dtype<float> ? Real(raw_variance<float>(v, at)) : Real(raw_variance<double>(v, at));
}
inline void put(Variable &v, const IndexMap &at, const Real x) {
  for_number(v.dtype(), [&](auto tag) {
    using T = typename decltype(tag)::type;
    raw_set<T>(v, at, from_real<T>(x));
  });
}
inline void put_var(Variable &v, const IndexMap &at, const Real x) {
  if (v.dtype() == dtype<float>)
    *(v.variances<float>().data() + flat_offset(v, at)) = float(x);
  else
    *(v.variances<double>().data() + flat_offset(v, at)) = double(x);
}
inline std::vector<Real> numbers(const Variable &v, const Dim d, const IndexMap &at = {}) {
  std::vector<Real> out;
  for (int64_t i = 0; i < v.dims()[d]; ++i) {
    auto f = at;
    f.emplace_back(d, i);
    out.push_back(num(v, f));
  }
  return out;
}
inline bool floating(const DType t) { return t == dtype<double> || t == dtype<float>; }
inline Real limit(const DType t, const bool lowest) {
  return for_number(t, [&](auto tag) -> Real {
    using T = typename decltype(tag)::type;
    if constexpr (std::is_same_v<T, time_point>)
      return lowest ? Real(std::numeric_limits<int64_t>::min()) : Real(std::numeric_limits<int64_t>::max());
    else
      return lowest ? Real(std::numeric_limits<T>::lowest()) : Real(std::numeric_limits<T>::max());
  });
}
inline bool exact(const Real x, const DType t) {
  if (std::isnan(x) || std::isinf(x))
    return floating(t);
  if (x < limit(t, true) || x > limit(t, false))
    return false;
  return for_number(t, [&](auto tag) { return to_real(from_real<typename decltype(tag)::type>(x)) == x; });
}
// the value of type t (below the limit of its range) nearest to x
inline Real snap(Real x, const DType t) {
  if (std::isnan(x))
    return floating(t) ? x : Real(0);
  x = std::clamp(x, limit(t, true), limit(t, false));
  return for_number(t, [&](auto tag) { return to_real(from_real<typename decltype(tag)::type>(x)); });
}
inline Real next_up(const Real x, const DType t, const bool up) {
  if (t == dtype<double>)
    return std::nextafter(double(x), up ? INFINITY : -INFINITY);
  if (t == dtype<float>)
    return std::nextafter(float(x), up ? INFINITY : -INFINITY);
  return snap(x + (up ? 1 : -1), t);
}
// n ascending values of type t: even steps, nearly even steps, or any
inline std::vector<Real> rand_ascending(Rng &rng, const int64_t n, const DType t, const bool strict, std::string *kind = nullptr) {
  std::vector<Real> e;
  const auto k = rng.in(0, 6);
  const char *names[] = {"even", "irregular", "far-even", "far-irregular", "wide", "tiny", "few-values"};
  if (kind)
    *kind = names[k];
  const bool f = floating(t);
  const Real big = t == dtype<double> ? 1.7e18L : t == dtype<float> ? 1.7e9L : t == dtype<int32_t> ? 2e9L : 1.7e18L;
  const Real ulp = t == dtype<double> ? 256 : t == dtype<float> ? 128 : 1;
  Real x = Real(rng.in(-20, 20));
  const Real step = f ? rng.pick<Real>({1, 0.5L, 0.1L, 1.0L / 3, 1e-3L, 7}) : Real(rng.pick({1, 2, 7, 1000}));
  switch (k) {
  case 0:
    for (int64_t i = 0; i < n; ++i)
      e.push_back(snap(x + Real(i) * step, t));
    break;
  case 1:
    for (int64_t i = 0; i < n; ++i) {
      e.push_back(snap(x, t));
      x += f ? Real(rng.in(strict ? 1 : 0, 40)) / 8 : Real(rng.in(strict ? 1 : 0, 5));
    }
    break;
  case 2:
    for (int64_t i = 0; i < n; ++i)
      e.push_back(snap(big + Real(i) * ulp * 3, t));
    break;
  case 3:
    x = rng.chance(1, 2) ? big : -big;
    for (int64_t i = 0; i < n; ++i) {
      e.push_back(snap(x, t));
      x += Real(rng.in(strict ? 1 : 0, rng.chance(1, 6) ? 30 : 3)) * ulp;
    }
    break;
  case 4: { // the whole range of the type
    const Real lo = f ? -1e30L : limit(t, true) + Real(rng.in(0, 3)), hi = f ? 1e30L : limit(t, false) - Real(rng.in(0, 3));
    for (int64_t i = 0; i < n; ++i)
      e.push_back(snap(n == 1 ? lo : lo + (hi - lo) / Real(n - 1) * Real(i), t));
    break;
  }
  case 5:
    for (int64_t i = 0; i < n; ++i)
      e.push_back(f ? snap(Real(i) * (t == dtype<float> ? Real(std::numeric_limits<float>::denorm_min()) : Real(std::numeric_limits<double>::denorm_min())) * Real(rng.pick({1, 1, 3})), t) : Real(i));
    std::sort(e.begin(), e.end());
    break;
  default:
    for (int64_t i = 0; i < n; ++i)
      e.push_back(Real(rng.in(-3, 3)));
    std::sort(e.begin(), e.end());
  }
  if (f && n > 2 && !strict && rng.chance(1, 10))
    e.front() = -INFINITY;
  if (f && n > 2 && !strict && rng.chance(1, 10))
    e.back() = INFINITY;
  if (strict) // distinct
    for (size_t i = 1; i < e.size(); ++i)
      while (e[i] <= e[i - 1]) {
        const auto y = next_up(e[i - 1], t, true);
        if (y <= e[i - 1]) { // end of range
          for (size_t j = 0; j < e.size(); ++j)
            e[j] = Real(j);
          return e;
        }
        e[i] = y;
      }
  return e;
}
// a value of type t on, next to, between or outside of the given ones
inline Real rand_near(Rng &rng, const std::vector<Real> &e, const DType t) {
  if (e.empty() || rng.chance(1, 10))
    return floating(t) ? rng.pick<Real>({NAN, INFINITY, -INFINITY, -0.0L, 1, 1e30L}) : Real(rng.in(-5, 5));
  const auto i = size_t(rng.in(0, int64_t(e.size()) - 1));
  const Real a = e[i], b = e[std::min(i + 1, e.size() - 1)];
  switch (rng.in(0, 5)) {
  case 0:
    return snap(a, t);
  case 1:
    return next_up(snap(a, t), t, true);
  case 2:
    return next_up(snap(a, t), t, false);
  case 3:
    return snap(a - Real(rng.in(0, 4)), t);
  default:
    return snap(std::isfinite(a) && std::isfinite(b) ? a + (b - a) * Real(rng.in(0, 8)) / 8 : Real(rng.in(-5, 5)), t);
  }
}
// bin of x: lower edge included, upper edge excluded; -1: none
inline int64_t bin_of(const Real x, const std::vector<Real> &edges) {
  for (size_t i = 0; i + 1 < edges.size(); ++i)
    if (x >= edges[i] && x < edges[i + 1])
      return int64_t(i);
  return -1;
}
inline Variable number_var(Rng &rng, const DType t, const Dimensions &dims, const units::Unit &unit, const bool variances = false) {
  return for_number(t, [&](auto tag) -> Variable {
    using T = typename decltype(tag)::type;
    return blank<T>(rng, dims, unit, variances);
  });
}
inline Variable number_line(Rng &rng, const DType t, const Dim d, const std::vector<Real> &x, const units::Unit &unit) {
  Variable v = for_number(t, [&](auto tag) -> Variable { return makeVariable<typename decltype(tag)::type>(Dimensions(d, int64_t(x.size())), unit); });
  for (size_t i = 0; i < x.size(); ++i)
    put(v, {{d, int64_t(i)}}, x[i]);
  return vf::relayout(rng, v);
}
inline DType common(const DType a, const DType b) { return a == b ? a : core::common_type(a, b); }
struct Types {
  DType coord = dtype<double>, edges = dtype<double>, both = dtype<double>;
  units::Unit unit = units::m;
};
inline Types rand_types(Rng &rng) {
  Types t;
  t.coord = rng.pick({dtype<double>, dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>, dtype<time_point>});
  t.edges = t.coord == dtype<time_point> || rng.chance(2, 3) ? t.coord : rand_numeric(rng);
  t.both = common(t.coord, t.edges);
  if (t.coord == dtype<time_point>)
    t.unit = units::ns;
  return t;
}
// sums of the weights of events
struct Sum {
  Real value = 0, variance = 0, magnitude = 0, variance_magnitude = 0;
  int64_t n = 0;
  void add(const Real v, const Real var) {
    value += v;
    variance += var;
    magnitude += std::fabs(v);
    variance_magnitude += std::fabs(var);
    ++n;
  }
};
inline bool close_sum(const Real got, const Real expected, const Real magnitude, const int64_t n, const DType t) {
  if (!floating(t))
    return got == expected;
  const Real eps = t == dtype<float> ? 1.2e-7L : 2.3e-16L;
  return std::fabs(got - expected) <= magnitude * eps * Real(n + 4);
}
} // namespace vf
