// C03: numeric helpers against exact (128-bit / long double) arithmetic.
#include "gen_num.h"
#include "scipp/common/numeric.h"
#include "scipp/core/element/arithmetic.h"
#include "scipp/core/element/math.h"
#include "scipp/core/element/util.h"
#include "scipp/core/time_point.h"
#include <cmath>

using namespace scipp;
using namespace vf;
namespace el = scipp::core::element;
using I128 = __int128;
using LD = long double;

namespace {
template <class T> bool fits(const I128 x) {
  return x >= I128(std::numeric_limits<T>::min()) && x <= I128(std::numeric_limits<T>::max());
}
std::string s128(I128 x) {
  if (x == 0)
    return "0";
  const bool neg = x < 0;
  std::string s;
  while (x != 0) {
    int d = int(x % 10);
    s.insert(s.begin(), char('0' + (d < 0 ? -d : d)));
    x /= 10;
  }
  return neg ? "-" + s : s;
}
I128 floordiv(const I128 a, const I128 b) {
  if (b == 0)
    return 0;
  I128 q = a / b;
  if (a % b != 0 && ((a < 0) != (b < 0)))
    --q;
  return q;
}

template <class A, class B> void int_division(Rng &rng) {
  const A a = rng.chance(1, 3) ? moderate<A>(rng) : any_int<A>(rng);
  const B b = rng.chance(1, 2) ? moderate<B>(rng) : any_int<B>(rng);
  using R = std::common_type_t<A, B>;
  const I128 q = floordiv(a, b);
  const I128 m = b == 0 ? I128(0) : I128(a) - q * I128(b);
  if (!fits<R>(q))
    return; // lowest / -1
  obs("int-division");
  nontrivial(STR(tname<A>() << a << '/' << tname<B>() << b));
  const auto args = STR(tname<A>() << ' ' << a << " by " << tname<B>() << ' ' << b);
  CHECK("floor_divide:int", I128(numeric::floor_divide(a, b)) == q,
        "floor division of " << args << " gives " << numeric::floor_divide(a, b)
                             << ", expected " << s128(q));
  CHECK("floor_divide:functor", I128(el::floor_divide(a, b)) == q, args);
  CHECK("remainder:int", I128(numeric::remainder(a, b)) == m,
        "remainder of " << args << " gives " << numeric::remainder(a, b)
                        << ", expected " << s128(m));
  CHECK("remainder:functor", I128(el::mod(a, b)) == m, args);
  if constexpr (std::is_same_v<A, R>) {
    A x = a;
    el::mod_equals(x, b);
    CHECK("remainder:inplace", I128(x) == m, args);
    if constexpr (std::is_same_v<A, B>) {
      x = a;
      el::floor_divide_equals(x, b);
      CHECK("floor_divide:inplace", I128(x) == q, args);
    }
  }
  const double td = el::divide(a, b);
  CHECK("true_divide", same(td, double(a) / double(b)), "true division of " << args);
}

template <class A, class B> void float_division(Rng &rng) {
  const A a = moderate<A>(rng);
  const B b = moderate<B>(rng);
  using R = std::common_type_t<A, B>;
  const LD eps = std::numeric_limits<R>::epsilon();
  const auto args = STR(tname<A>() << ' ' << a << " by " << tname<B>() << ' ' << b);
  const R q = numeric::floor_divide(a, b);
  const auto r = numeric::remainder(a, b);
  obs("float-division");
  nontrivial("float " + args);
  CHECK("floor_divide:functor", same<R>(q, el::floor_divide(a, b)), args);
  CHECK("remainder:functor", same<double>(r, el::mod(a, b)), args);
  if (b == 0) {
    CHECK("remainder:zero", std::isnan(r), "remainder of " << args << " is " << r);
    return;
  }
  const LD exact = LD(a) / LD(b);
  const LD lo = std::floor(exact * (1 - 2 * eps * (exact < 0 ? -1 : 1)));
  const LD hi = std::floor(exact * (1 + 2 * eps * (exact < 0 ? -1 : 1)));
  CHECK("floor_divide:float", q >= R(lo) - eps * std::fabs(lo) && q <= R(hi) + eps * std::fabs(hi),
        "floor division of " << args << " gives " << q << ", exact quotient " << exact);
  CHECK("floor_divide:integral", q == std::floor(q), args << " gives " << q);
  const LD slack = 4 * eps * (std::fabs(LD(a)) + std::fabs(LD(b)));
  CHECK("remainder:float", std::fabs(LD(q) * LD(b) + LD(r) - LD(a)) <= slack,
        "quotient " << q << " and remainder " << r << " of " << args);
  CHECK("remainder:range",
        b > 0 ? (r >= -slack && r <= LD(b) + slack) : (r <= slack && r >= LD(b) - slack),
        "remainder " << r << " of " << args);
}

template <class B, class E> void powers(Rng &rng) {
  const auto args = [](auto b, auto e) {
    return STR(tname<B>() << ' ' << b << " to the power " << tname<E>() << ' ' << e);
  };
  if constexpr (std::is_integral_v<B>) {
    const B b = rng.chance(1, 2) ? static_cast<B>(rng.in(-12, 12)) : any_int<B>(rng);
    const E e = static_cast<E>(rng.chance(1, 4) ? rng.in(0, 2) : rng.in(0, 64));
    I128 p = 1;
    for (E i = 0; i < e; ++i) {
      p *= b;
      if (!fits<B>(p))
        return;
    }
    obs("int-power");
    nontrivial(args(b, e));
    CHECK("pow:int", I128(numeric::pow(b, e)) == p,
          args(b, e) << " gives " << numeric::pow(b, e) << ", expected " << s128(p));
    if constexpr (std::is_same_v<B, int64_t>)
      CHECK("pow:functor", I128(el::pow(b, e)) == p, args(b, e));
  } else {
    const B b = rng.chance(1, 4) ? special<B>(rng) : moderate<B>(rng);
    if constexpr (std::is_integral_v<E>) {
      const E e = rng.chance(1, 6) ? any_int<E>(rng) : static_cast<E>(rng.in(-20, 20));
      const B got = el::pow(b, e);
      obs("power-integer-exponent");
      nontrivial(args(b, e));
      if (e < -1000 || e > 1000)
        return; // no undefined behaviour is all that is asked here
      const LD want = std::pow(LD(b), LD(e));
      const LD lim = std::numeric_limits<B>::max() / 4;
      if (std::isfinite(b) && b != 0 && (std::fabs(want) > lim || std::fabs(want) < 4 / lim))
        return;
      CHECK("pow:integer-exponent",
            close(got, B(want), (100 + 4.0 * std::fabs(double(e))) * std::numeric_limits<B>::epsilon()),
            args(b, e) << " gives " << got << ", expected " << want);
    } else {
      const E e = moderate<E>(rng);
      const auto got = el::pow(b, e);
      obs("power-float-exponent");
      CHECK("pow:float-exponent", same<decltype(got)>(got, std::pow(b, e)), args(b, e));
    }
  }
}

// ---- spacing and order ----------------------------------------------------
template <class T> T tmake(I128 x) {
  if constexpr (std::is_same_v<T, core::time_point>)
    return T(int64_t(x));
  else
    return static_cast<T>(x);
}
template <class T> void int_spacing(Rng &rng) {
  using I = std::conditional_t<std::is_same_v<T, core::time_point>, int64_t, T>;
  const int n = int(rng.in(0, 8));
  std::vector<I128> v;
  const I128 start = rng.chance(2, 3) ? I128(rng.in(-10, 10)) : I128(any_int<I>(rng));
  const I128 step = rng.chance(1, 2) ? I128(rng.in(-2, 3)) : I128(any_int<I>(rng));
  const int kind = int(rng.in(0, 3));
  I128 x = start;
  for (int i = 0; i < n; ++i) {
    v.push_back(x);
    I128 d = step;
    if (kind == 1 && rng.chance(1, 3))
      d = -step;
    if (kind == 2 && rng.chance(1, 3))
      d = step + rng.in(-1, 1);
    if (kind == 3)
      d = rng.pick({-1, 1, 1});
    x += d;
  }
  std::vector<T> data;
  std::vector<std::string> shown;
  for (const auto e : v) {
    if (!fits<I>(e))
      return;
    // differences of time points are durations in 64 bits
    if (std::is_same_v<T, core::time_point> && (e > (I128(1) << 61) || e < -(I128(1) << 61)))
      return;
    data.push_back(tmake<T>(e));
    shown.push_back(s128(e));
  }
  bool even = n >= 2, consecutive = true, up = true, down = true;
  for (int i = 1; i < n; ++i) {
    if (v[i] - v[i - 1] != v[1] - v[0])
      even = false;
    if (v[i] - v[i - 1] != 1)
      consecutive = false;
    up = up && v[i] >= v[i - 1];
    down = down && v[i] <= v[i - 1];
  }
  if (n >= 2 && v[1] <= v[0])
    even = false;
  obs("int-sequences");
  if (n > 2)
    nontrivial("seq " + vec(shown));
  obs(even ? "evenly-spaced" : "not-evenly-spaced");
  const scipp::span<const T> sp(data.data(), data.data() + data.size());
  CHECK("islinspace:int", numeric::islinspace(sp) == even,
        vec(shown) << " is " << (even ? "" : "not ") << "evenly spaced upwards");
  CHECK("islinspace:functor", el::islinspace(sp) == even, vec(shown));
  if constexpr (std::is_integral_v<T>) {
    CHECK("isarange", numeric::isarange(sp) == consecutive,
          vec(shown) << " is " << (consecutive ? "" : "not ") << "consecutive");
    CHECK("isarange:functor", el::isarange(sp) == consecutive, vec(shown));
  }
  bool u = true, d = true;
  for (int i = 1; i < n; ++i) {
    el::issorted_nondescending(u, data[i - 1], data[i]);
    el::issorted_nonascending(d, data[i - 1], data[i]);
  }
  CHECK("issorted", u == up && d == down, vec(shown));
}
template <class T> void float_spacing(Rng &rng) {
  const int n = int(rng.in(0, 12));
  const T a = moderate<T>(rng);
  const T w = nonzero<T>(rng);
  std::vector<T> v;
  const bool lin = rng.chance(1, 2);
  for (int i = 0; i < n; ++i)
    v.push_back(i == n - 1 && n > 1 ? T(a + w) : T(a + (n > 1 ? w / (n - 1) * i : 0)));
  const T eps = std::numeric_limits<T>::epsilon();
  obs("float-sequences");
  const auto check = [&](const bool want, const char *what) {
    const scipp::span<const T> sp(v.data(), v.data() + v.size());
    CHECK("islinspace:float", numeric::islinspace(sp) == want,
          what << ' ' << vec(v) << " expected " << want);
  };
  if (n < 2)
    return check(false, "short");
  const T scale = std::fabs(v.front()) + std::fabs(v.back());
  // spacing must be well above rounding to be decidable
  if (std::fabs(w) / (n - 1) < 64 * eps * scale)
    return;
  nontrivial("float seq " + vec(v));
  if (lin)
    return check(w > 0, "regular");
  const int k = int(rng.in(0, n - 1));
  switch (rng.in(0, 3)) {
  case 0: // an interior element is off
    if (k > 0 && k < n - 1 && n > 2) {
      v[k] += T(rng.pick({-1, 1})) * w / (n - 1) * T(rng.pick({0.25, 0.5, 1.0, 2.0}));
      check(false, "perturbed");
    }
    break;
  case 1:
    if (k > 0 && k < n - 1) {
      v[k] = std::numeric_limits<T>::quiet_NaN();
      check(false, "with NaN");
    }
    break;
  case 2: // zig-zag
    if (n > 4) {
      std::swap(v[1], v[2]);
      check(false, "swapped");
    }
    break;
  default:
    for (auto &x : v)
      x = a;
    check(false, "constant");
  }
}

template <class T> void midpoints(Rng &rng) {
  obs("midpoints");
  if constexpr (std::is_same_v<T, core::time_point>) {
    const int64_t a = any_int<int64_t>(rng), b = any_int<int64_t>(rng);
    const I128 want = I128(a) + (I128(b) - I128(a)) / 2;
    CHECK("midpoint:time", el::midpoint(T(a), T(b)) == T(int64_t(want)), a << ' ' << b);
  } else if constexpr (std::is_integral_v<T>) {
    const T a = any_int<T>(rng), b = any_int<T>(rng);
    const I128 want = I128(a) + (I128(b) - I128(a)) / 2;
    CHECK("midpoint:int", I128(el::midpoint(a, b)) == want,
          a << ' ' << b << " gives " << el::midpoint(a, b));
  } else {
    T a = special<T>(rng), b = special<T>(rng);
    if (!std::isfinite(a) || !std::isfinite(b))
      return;
    const LD want = LD(a) / 2 + LD(b) / 2;
    CHECK("midpoint:float",
          close(el::midpoint(a, b), T(want), 2 * std::numeric_limits<T>::epsilon(),
                std::numeric_limits<T>::denorm_min()),
          a << ' ' << b << " gives " << el::midpoint(a, b));
  }
}

template <class T> void predicates(Rng &rng) {
  T x;
  if constexpr (std::is_integral_v<T>)
    x = any_int<T>(rng);
  else
    x = special<T>(rng);
  const LD v = x;
  CHECK("isnan", numeric::isnan(x) == bool(std::isnan(v)), v);
  CHECK("isinf", numeric::isinf(x) == bool(std::isinf(v)), v);
  CHECK("isfinite", numeric::isfinite(x) == bool(std::isfinite(v)), v);
  CHECK("signbit", numeric::signbit(x) == bool(std::signbit(v)), v);
  obs("predicates");
  if constexpr (std::is_integral_v<T>) {
    if (x != std::numeric_limits<T>::min())
      CHECK("abs", I128(el::abs(x)) == (I128(x) < 0 ? -I128(x) : I128(x)), v);
  } else
    CHECK("abs", same<T>(el::abs(x), std::fabs(x)), v);
}
} // namespace

SUITE(int_division) {
  int_division<int64_t, int64_t>(rng);
  int_division<int64_t, int32_t>(rng);
  int_division<int32_t, int64_t>(rng);
  int_division<int32_t, int32_t>(rng);
}
SUITE(float_division) {
  float_division<double, double>(rng);
  float_division<double, float>(rng);
  float_division<float, double>(rng);
  float_division<float, float>(rng);
  float_division<double, int64_t>(rng);
  float_division<double, int32_t>(rng);
  float_division<int64_t, double>(rng);
  float_division<int32_t, double>(rng);
  float_division<float, int32_t>(rng);
}
SUITE(powers) {
  powers<int64_t, int64_t>(rng);
  powers<int64_t, int32_t>(rng);
  powers<int32_t, int32_t>(rng);
  powers<double, int64_t>(rng);
  powers<double, int32_t>(rng);
  powers<float, int64_t>(rng);
  powers<float, int32_t>(rng);
  powers<double, double>(rng);
  powers<float, float>(rng);
  powers<double, float>(rng);
}
SUITE(spacing) {
  int_spacing<int64_t>(rng);
  int_spacing<int32_t>(rng);
  int_spacing<core::time_point>(rng);
  float_spacing<double>(rng);
  float_spacing<float>(rng);
}
SUITE(misc) {
  midpoints<double>(rng);
  midpoints<float>(rng);
  midpoints<int64_t>(rng);
  midpoints<int32_t>(rng);
  midpoints<core::time_point>(rng);
  predicates<double>(rng);
  predicates<float>(rng);
  predicates<int64_t>(rng);
  predicates<int32_t>(rng);
}
