// C06: spatial transformations compose and act like the maps they denote.
#include "gen_num.h"
#include "scipp/core/eigen.h"
#include "scipp/core/element/arithmetic.h"
#include "scipp/core/element/geometric_operations.h"
#include "scipp/core/spatial_transforms.h"
#include "vf.h"
#include <Eigen/Geometry>
#include <variant>

using namespace vf;
using namespace scipp::core;
using M = Eigen::Matrix3d;
using A = Eigen::Affine3d;
using V = Eigen::Vector3d;
using LD = long double;

namespace {
// The map as a plain function of three numbers: x -> L x + t
struct Map {
  LD l[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  LD t[3] = {0, 0, 0};
  std::array<LD, 3> operator()(const std::array<LD, 3> &x) const {
    std::array<LD, 3> y{};
    for (int i = 0; i < 3; ++i) {
      y[i] = t[i];
      for (int j = 0; j < 3; ++j)
        y[i] += l[i][j] * x[j];
    }
    return y;
  }
};
Map compose(const Map &f, const Map &g) { // f after g
  Map h;
  for (int i = 0; i < 3; ++i) {
    h.t[i] = f.t[i];
    for (int j = 0; j < 3; ++j) {
      h.t[i] += f.l[i][j] * g.t[j];
      h.l[i][j] = 0;
      for (int k = 0; k < 3; ++k)
        h.l[i][j] += f.l[i][k] * g.l[k][j];
    }
  }
  return h;
}
// Read a map off an object through its components only.
Map map_of(const M &m) {
  Map f;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      f.l[i][j] = m(i, j);
  return f;
}
Map map_of(const A &a) {
  Map f;
  for (int i = 0; i < 3; ++i) {
    f.t[i] = a.matrix()(i, 3);
    for (int j = 0; j < 3; ++j)
      f.l[i][j] = a.matrix()(i, j);
  }
  CHECK("affine-last-row", a.matrix()(3, 0) == 0 && a.matrix()(3, 1) == 0 && a.matrix()(3, 2) == 0 && a.matrix()(3, 3) == 1, a.matrix());
  return f;
}
Map map_of(const Translation &x) {
  Map f;
  for (int i = 0; i < 3; ++i)
    f.t[i] = x.vector()[i];
  return f;
}
Map map_of(const Quaternion &q) {
  auto c = q; // components in the documented order x, y, z, w
  const LD x = c(0), y = c(1), z = c(2), w = c(3);
  Map f;
  const LD r[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)},
                      {2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)},
                      {2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)}};
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      f.l[i][j] = r[i][j];
  return f;
}
LD scale(const Map &f) {
  LD s = 1;
  for (int i = 0; i < 3; ++i) {
    s = std::max(s, std::fabs(f.t[i]));
    for (int j = 0; j < 3; ++j)
      s = std::max(s, std::fabs(f.l[i][j]));
  }
  return s;
}
LD distance(const Map &f, const Map &g) {
  LD d = 0;
  for (int i = 0; i < 3; ++i) {
    d = std::max(d, std::fabs(f.t[i] - g.t[i]));
    for (int j = 0; j < 3; ++j)
      d = std::max(d, std::fabs(f.l[i][j] - g.l[i][j]));
    if (std::isnan(f.t[i]) || std::isnan(g.t[i]))
      return 1e300L;
  }
  return std::isnan(d) ? LD(1e300L) : d;
}
std::string show(const Map &f) {
  std::ostringstream os;
  os.precision(17);
  os << "[L";
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      os << ' ' << double(f.l[i][j]);
  os << " t";
  for (int i = 0; i < 3; ++i)
    os << ' ' << double(f.t[i]);
  os << ']';
  return os.str();
}

// well-conditioned, non-commuting parameters
M rand_m(Rng &r) {
  for (;;) {
    M m;
    if (r.chance(1, 4)) { // scaling
      m.setZero();
      for (int i = 0; i < 3; ++i)
        m(i, i) = double(r.in(1, 32)) / 8 * (r.chance(1, 4) ? -1 : 1);
    } else
      for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
          m(i, j) = r.chance(1, 5) ? 0 : r.unit() * 4 - 2;
    const LD det = m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0));
    if (std::fabs(det) > 0.1L)
      return m;
  }
}
V rand_v(Rng &r) {
  V v;
  for (int i = 0; i < 3; ++i)
    v[i] = r.chance(1, 6) ? 0 : r.chance(1, 3) ? double(r.in(-9, 9)) : r.unit() * 20 - 10;
  return v;
}
Quaternion rand_q(Rng &r) {
  LD c[4], n = 0;
  do {
    n = 0;
    for (auto &x : c) {
      x = r.chance(1, 5) ? 0 : r.unit() * 2 - 1;
      n += x * x;
    }
  } while (n < 0.01L);
  n = std::sqrt(n);
  Quaternion q;
  for (int i = 0; i < 4; ++i)
    q(i) = double(c[i] / n);
  return q;
}
A rand_a(Rng &r) {
  A a = A::Identity();
  const M m = rand_m(r);
  const V v = rand_v(r);
  for (int i = 0; i < 3; ++i) {
    a.matrix()(i, 3) = v[i];
    for (int j = 0; j < 3; ++j)
      a.matrix()(i, j) = m(i, j);
  }
  return a;
}
template <class T> T make(Rng &r) {
  if constexpr (std::is_same_v<T, M>)
    return rand_m(r);
  else if constexpr (std::is_same_v<T, A>)
    return rand_a(r);
  else if constexpr (std::is_same_v<T, Translation>)
    return Translation(rand_v(r));
  else
    return rand_q(r);
}
template <class T> std::string name() {
  return std::is_same_v<T, M> ? "linear" : std::is_same_v<T, A> ? "affine" : std::is_same_v<T, Translation> ? "translation" : "rotation";
}
constexpr LD tol = 1e-12L;

// the element kernel used for products of two variables of these types
template <class X, class Y> auto product(const X &x, const Y &y) {
  constexpr bool moved = std::is_same_v<X, A> || std::is_same_v<X, Translation>;
  constexpr bool other = std::is_same_v<Y, A> || std::is_same_v<Y, Translation> || std::is_same_v<Y, V>;
  if constexpr (moved && other)
    return element::apply_spatial_transformation.template operator()<const X &, const Y &>(x, y); // by reference, as transform does
  else
    return element::multiply.template operator()<const X &, const Y &>(x, y);
}
template <class T> auto settle(T &&x) {
  if constexpr (std::is_base_of_v<Eigen::EigenBase<std::decay_t<T>>, std::decay_t<T>>)
    return x.eval();
  else
    return std::decay_t<T>(std::forward<T>(x));
}

void same_map(const Map &got, const Map &want, const char *key, const std::string &what) {
  const LD s = scale(want);
  CHECK(key, distance(got, want) <= tol * s * 16, what << ": got " << show(got) << ", expected " << show(want));
}
void act(const V &got, const std::array<LD, 3> &want, const Map &f, const char *key, const std::string &what) {
  for (int i = 0; i < 3; ++i)
    CHECK(key, std::fabs(LD(got[i]) - want[size_t(i)]) <= tol * 400 * scale(f),
          what << ": component " << i << " is " << got[i] << ", expected " << want[size_t(i)]);
}
std::array<LD, 3> arr(const V &v) { return {v[0], v[1], v[2]}; }

template <class X> void single(Rng &rng) {
  const X x = make<X>(rng);
  const auto f = map_of(x);
  const auto what = name<X>() + ' ' + show(f);
  nontrivial(what);
  obs("applications");
  const V v = rand_v(rng);
  const V direct = x * v;
  act(direct, f(arr(v)), f, "apply", what);
  act(settle(product(x, v)), f(arr(v)), f, "apply-kernel", what);
  // inverse
  const X inv(x.inverse());
  const V back = inv * direct;
  for (int i = 0; i < 3; ++i)
    CHECK("inverse", std::fabs(back[i] - v[i]) <= 1e-9 * double(scale(f)), what << ": inverse maps back to " << back << " instead of " << v);
  Map id;
  CHECK("inverse-map", distance(compose(f, map_of(inv)), id) < 1e-9L * scale(f) * scale(map_of(inv)), what);
  // equality and copies
  using scipp::numeric::operator==;
  using scipp::numeric::operator!=;
  X copy = x;
  CHECK("equal", copy == x && !(copy != x), what);
  const int which = int(rng.in(0, 2));
  if constexpr (std::is_same_v<X, Quaternion>) {
    const int w4 = int(rng.in(0, 3));
    copy(w4) += 0.25;
    CHECK("unequal", copy != x && !(copy == x), what << " component " << w4);
    for (int bad : {4, -1, 100}) {
      bool refused = false;
      try {
        copy(bad) = 1;
      } catch (const std::out_of_range &) {
        refused = true;
      }
      CHECK("component-refused", refused, bad);
    }
    // not necessarily normalised
    Quaternion q = x;
    const double s = double(rng.in(1, 16)) / 4;
    for (int i = 0; i < 4; ++i)
      q(i) *= s;
    auto one = q * q.inverse();
    for (int i = 0; i < 4; ++i)
      CHECK("scaled-inverse", std::fabs(one(i) - (i == 3)) < 1e-12, what << " scaled by " << s << " component " << i << " is " << one(i));
  } else if constexpr (std::is_same_v<X, Translation>) {
    copy(which) += 0.25;
    CHECK("unequal", copy != x && !(copy == x), what << " component " << which);
    CHECK("component", copy(which) == x.vector()[which] + 0.25, what);
  } else if constexpr (std::is_same_v<X, A>) {
    const int col = int(rng.in(0, 3));
    copy.matrix()(which, col) += 0.25;
    using namespace scipp::numeric;
    CHECK("unequal", copy != x && !(copy == x), what << " component " << which << ',' << col);
  }
  CHECK("identity-defaults", distance(map_of(Quaternion()), id) == 0 && distance(map_of(Translation()), id) == 0, "");
}
template <class X, class Y> void pair(Rng &rng) {
  const X x = make<X>(rng);
  const Y y = make<Y>(rng);
  const auto f = map_of(x), g = map_of(y);
  const auto want = compose(f, g);
  const auto what = name<X>() + ' ' + show(f) + " times " + name<Y>() + ' ' + show(g);
  nontrivial(what);
  obs("products");
  const auto xy = settle(product(x, y));
  same_map(map_of(xy), want, "product-kernel", what);
  const auto direct = settle(x * y);
  same_map(map_of(direct), want, "product", what);
  const V v = rand_v(rng);
  const V one = xy * v;
  const V two = x * V(y * v);
  act(one, want(arr(v)), want, "product-acts", what);
  act(two, want(arr(v)), want, "one-after-the-other", what);
  // the more general kind denotes the same map
  if constexpr (std::is_same_v<std::decay_t<decltype(direct)>, A>)
    obs("affine-products");
}
template <class X, class Y, class Z> void triple(Rng &rng) {
  const X x = make<X>(rng);
  const Y y = make<Y>(rng);
  const Z z = make<Z>(rng);
  const auto xy = settle(product(x, y));
  const auto yz = settle(product(y, z));
  const auto left = settle(product(xy, z));
  const auto right = settle(product(x, yz));
  const auto want = compose(map_of(x), compose(map_of(y), map_of(z)));
  const auto what = name<X>() + ' ' + show(map_of(x)) + " times " + name<Y>() + ' ' + show(map_of(y)) + " times " + name<Z>() + ' ' + show(map_of(z));
  nontrivial(what);
  obs("triples");
  same_map(map_of(left), want, "associative-left", what);
  same_map(map_of(right), want, "associative-right", what);
  const V v = rand_v(rng);
  act(V(left * v), want(arr(v)), want, "triple-acts", what);
  act(V(x * V(y * V(z * v))), want(arr(v)), want, "triple-one-by-one", what);
}
template <class X, class Y> void triples(Rng &rng) {
  triple<X, Y, M>(rng);
  triple<X, Y, A>(rng);
  triple<X, Y, Translation>(rng);
  triple<X, Y, Quaternion>(rng);
}
template <class X> void with_all(Rng &rng, const bool three) {
  if (three) {
    triples<X, M>(rng);
    triples<X, A>(rng);
    triples<X, Translation>(rng);
    triples<X, Quaternion>(rng);
  } else {
    pair<X, M>(rng);
    pair<X, A>(rng);
    pair<X, Translation>(rng);
    pair<X, Quaternion>(rng);
  }
}
} // namespace

SUITE(single) {
  single<M>(rng);
  single<A>(rng);
  single<Translation>(rng);
  single<Quaternion>(rng);
}
SUITE(pairs) {
  with_all<M>(rng, false);
  with_all<A>(rng, false);
  with_all<Translation>(rng, false);
  with_all<Quaternion>(rng, false);
}
SUITE(triples) {
  with_all<M>(rng, true);
  with_all<A>(rng, true);
  with_all<Translation>(rng, true);
  with_all<Quaternion>(rng, true);
}
// vectors: components, special values, construction
SUITE(vectors) {
  V v;
  bool nan = false, fin = true;
  for (int i = 0; i < 3; ++i) {
    v[i] = special<double>(rng);
    nan = nan || std::isnan(v[i]);
    fin = fin && std::isfinite(v[i]);
  }
  nontrivial(STR(v.transpose()));
  obs("vectors");
  CHECK("isnan", scipp::numeric::isnan(v) == nan, v);
  CHECK("isfinite", scipp::numeric::isfinite(v) == fin, v);
  CHECK("isinf", scipp::numeric::isinf(v) == (!fin && !nan), v);
  const V p = element::geometry::position(v[0], v[1], v[2]);
  for (int i = 0; i < 3; ++i)
    CHECK("position", same(p[i], v[i]), v);
  CHECK("components", same(element::geometry::x(p), v[0]) && same(element::geometry::y(p), v[1]) && same(element::geometry::z(p), v[2]), v);
  CHECK("structured", is_structured(dtype<V>) && is_structured(dtype<M>) && is_structured(dtype<A>) && is_structured(dtype<Translation>) &&
                          is_structured(dtype<Quaternion>) && !is_structured(dtype<double>) && !is_structured(dtype<int64_t>),
        "");
}
