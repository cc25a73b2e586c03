// C02: uncertainty propagation of value/variance pairs against analytic
// derivatives evaluated in long double.
#include "gen_num.h"
#include "scipp/core/element/arithmetic.h"
#include "scipp/core/element/comparison.h"
#include "scipp/core/element/math.h"
#include "scipp/core/element/special_values.h"
#include "scipp/core/element/util.h"
#include "scipp/core/value_and_variance.h"
#include "scipp/core/transform_common.h"

using namespace scipp;
using namespace vf;
namespace el = scipp::core::element;
using LD = long double;

namespace {
template <class T> double tol() {
  return std::is_same_v<T, float> ? 3e-5 : 1e-12;
}
template <class T> struct elem_type {
  using type = T;
};
template <class T> struct elem_type<ValueAndVariance<T>> {
  using type = T;
};
template <class X> LD val(const X &x) {
  if constexpr (is_ValueAndVariance_v<X>)
    return x.value;
  else
    return x;
}
template <class X> LD var(const X &x) {
  if constexpr (is_ValueAndVariance_v<X>)
    return x.variance;
  else
    return 0;
}
template <class X> std::string show(const X &x) {
  if constexpr (is_ValueAndVariance_v<X>)
    return STR(tname<typename X::value_type>() << '(' << x.value << " var "
                                               << x.variance << ')');
  else
    return STR(tname<X>() << '(' << +x << ')');
}
template <class X> X gen(Rng &r, bool nz = false) {
  if constexpr (is_ValueAndVariance_v<X>) {
    using T = typename X::value_type;
    return X{nz ? nonzero<T>(r) : moderate<T>(r),
             r.chance(1, 6) ? T(0) : nonneg<T>(r)};
  } else
    return nz ? nonzero<X>(r) : moderate<X>(r);
}

template <class R>
void expect(const char *op, const R &res, LD value, LD variance, double eps,
            const std::string &args, LD cancel = 0, LD value_scale = 0) {
  static_assert(is_ValueAndVariance_v<R>);
  using T = typename R::value_type;
  // results outside the comfortable range of T: nothing to say
  const LD big = std::numeric_limits<T>::max() / 4;
  const LD small = std::numeric_limits<T>::min() * 4 / std::numeric_limits<T>::epsilon();
  if (std::fabs(value) > big || variance > big ||
      (value != 0 && std::fabs(value) < small) ||
      (variance != 0 && variance < small))
    return;
  obs(op);
  CHECK(std::string("value:") + op,
        close(res.value, value, eps, double(eps * value_scale)),
        op << ' ' << args << " -> value " << res.value << ", expected " << value);
  CHECK(std::string("variance:") + op,
        close(res.variance, variance, 4 * eps, double(eps * cancel)),
        op << ' ' << args << " -> variance " << res.variance << ", expected "
           << variance);
}

template <class A, class B> void binary(Rng &rng) {
  const A a = gen<A>(rng);
  const B b = gen<B>(rng);
  const B d = gen<B>(rng, true);
  using TA = typename elem_type<A>::type;
  using TB = typename elem_type<B>::type;
  const double eps = std::is_same_v<TA, float> || std::is_same_v<TB, float>
                         ? tol<float>()
                         : tol<double>();
  const auto args = show(a) + " , " + show(b);
  const auto dargs = show(a) + " , " + show(d);
  const LD scale = std::fabs(val(a)) + std::fabs(val(b));
  nontrivial(args + dargs);
  expect("+", a + b, val(a) + val(b), var(a) + var(b), eps, args, 0, scale);
  expect("-", a - b, val(a) - val(b), var(a) + var(b), eps, args, 0, scale);
  expect("*", a * b, val(a) * val(b),
         var(a) * val(b) * val(b) + var(b) * val(a) * val(a), eps, args);
  const LD q = val(a) / val(d);
  expect("/", a / d, q,
         var(a) / (val(d) * val(d)) + var(d) * q * q / (val(d) * val(d)), eps,
         dargs);
  // the functors used by array operations
  expect("add", el::add(a, b), val(a) + val(b), var(a) + var(b), eps, args, 0, scale);
  expect("subtract", el::subtract(a, b), val(a) - val(b), var(a) + var(b), eps,
         args, 0, scale);
  expect("multiply", el::multiply(a, b), val(a) * val(b),
         var(a) * val(b) * val(b) + var(b) * val(a) * val(a), eps, args);
  expect("divide", el::divide(a, d), q,
         var(a) / (val(d) * val(d)) + var(d) * q * q / (val(d) * val(d)), eps,
         dargs);
  // comparisons look at values only
#define CMP(OP)                                                                \
  CHECK("compare" #OP, (a OP b) == (static_cast<decltype(TA() + TB())>(val(a)) \
                                        OP static_cast<decltype(TA() + TB())>( \
                                            val(b))),                          \
        args << " compared with " #OP);
  CMP(==) CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)
#undef CMP
  obs("comparisons", 6);
}

template <class A, class B> void inplace(Rng &rng) {
  const A a0 = gen<A>(rng);
  const B b = gen<B>(rng);
  const B d = gen<B>(rng, true);
  using TB = typename elem_type<B>::type;
  using TA = typename A::value_type;
  const double eps = std::is_same_v<TA, float> || std::is_same_v<TB, float>
                         ? tol<float>()
                         : tol<double>();
  const auto args = show(a0) + " , " + show(b);
  const auto dargs = show(a0) + " , " + show(d);
  const LD scale = std::fabs(val(a0)) + std::fabs(val(b));
  A a = a0;
  el::add_equals(a, b);
  expect("+=", a, val(a0) + val(b), var(a0) + var(b), eps, args, 0, scale);
  a = a0;
  el::subtract_equals(a, b);
  expect("-=", a, val(a0) - val(b), var(a0) + var(b), eps, args, 0, scale);
  a = a0;
  el::multiply_equals(a, b);
  expect("*=", a, val(a0) * val(b),
         var(a0) * val(b) * val(b) + var(b) * val(a0) * val(a0), eps, args);
  a = a0;
  el::divide_equals(a, d);
  const LD q = val(a0) / val(d);
  expect("/=", a, q,
         var(a0) / (val(d) * val(d)) + var(d) * q * q / (val(d) * val(d)), eps,
         dargs);
  // NaN-ignoring accumulation: NaN counts as exact zero
  if constexpr (is_ValueAndVariance_v<B>) {
    A acc = a0;
    B x = b;
    const int which = int(rng.in(0, 3));
    if (which & 1)
      acc.value = std::numeric_limits<TA>::quiet_NaN();
    if (which & 2)
      x.value = std::numeric_limits<TB>::quiet_NaN();
    el::nan_add_equals(acc, x);
    const LD va = (which & 1) ? 0 : val(a0), vb = (which & 2) ? 0 : val(b);
    const LD wa = (which & 1) ? 0 : var(a0), wb = (which & 2) ? 0 : var(b);
    expect("nan_add", acc, va + vb, wa + wb, eps, args, 0, scale);
    A m = a0;
    el::max_equals(m, A{b.value, b.variance});
    const A bb{b.value, b.variance};
    const A &wmax = bb.value > a0.value ? bb : a0;
    if (bb.value != a0.value)
      CHECK("max", m.value == wmax.value && m.variance == wmax.variance,
            "max " << args << " -> " << show(m));
    m = a0;
    el::min_equals(m, bb);
    const A &wmin = bb.value < a0.value ? bb : a0;
    if (bb.value != a0.value)
      CHECK("min", m.value == wmin.value && m.variance == wmin.variance,
            "min " << args << " -> " << show(m));
  }
  // assigning a plain number drops the uncertainty
  A z = a0;
  z = TB(3);
  CHECK("assign-plain", z.value == 3 && z.variance == 0, "assignment " << show(z));
}

template <class T, class E> void powers(Rng &rng) {
  using VV = ValueAndVariance<T>;
  const double eps = std::is_same_v<T, float> || std::is_same_v<E, float>
                         ? 10 * tol<float>()
                         : 10 * tol<double>();
  VV a = gen<VV>(rng);
  E e;
  if constexpr (std::is_integral_v<E>) {
    e = static_cast<E>(rng.in(-6, 8));
  } else {
    e = rng.chance(1, 3) ? E(rng.in(-6, 8)) : E(rng.unit() * 8 - 4);
    if (e != std::floor(e))
      a.value = std::fabs(a.value);
  }
  if (a.value == 0 && e <= 0)
    return; // covered by pow_special
  const LD v = std::pow(LD(a.value), LD(e));
  const LD d = e == 0 ? LD(0) : LD(e) * std::pow(LD(a.value), LD(e) - 1);
  // intermediate results of the kernel must be representable, too
  const LD lim = std::sqrt(LD(std::numeric_limits<T>::max())) / 4;
  if (std::fabs(v) > lim || std::fabs(d) > lim ||
      (v != 0 && std::fabs(v) < 4 / lim) || (d != 0 && std::fabs(d) < 4 / lim))
    return;
  const auto args = show(a) + " , " + show(e);
  nontrivial("pow " + args);
  expect("pow", el::pow(a, e), v, d * d * LD(a.variance), eps, args);
}

template <class T> void powers_special(Rng &rng) {
  // The value of a power is that of the plain power whatever the variance.
  using VV = ValueAndVariance<T>;
  const T b = special<T>(rng);
  const T e = rng.chance(1, 2) ? T(rng.in(-4, 4)) : moderate<T>(rng);
  const auto res = el::pow(VV{b, T(1)}, e);
  const LD want = std::pow(b, e);
  obs("pow-special");
  CHECK("pow-special:value",
        close(res.value, want, 10 * tol<T>(), std::numeric_limits<T>::min()),
        "pow(" << b << "+-1, " << e << ") has value " << res.value
               << " but the plain power is " << want);
  if (e == 0 && std::isfinite(b))
    CHECK("pow-special:variance", res.variance == 0,
          "pow(" << b << "+-1, 0) has variance " << res.variance);
}

template <class T> void unary(Rng &rng) {
  using VV = ValueAndVariance<T>;
  const double eps = tol<T>();
  const VV a = gen<VV>(rng);
  const VV p{std::fabs(gen<VV>(rng, true).value), nonneg<T>(rng)};
  const VV n = gen<VV>(rng, true);
  nontrivial("unary " + show(a) + show(p) + show(n));
  const LD av = val(a), aw = var(a), pv = val(p), pw = var(p), nv = val(n), nw = var(n);
  expect("negate", el::negative(a), -av, aw, 0, show(a));
  expect("abs", el::abs(a), std::fabs(av), aw, 0, show(a));
  expect("sqrt", el::sqrt(p), std::sqrt(pv), pw / (4 * pv), eps, show(p));
  if (std::fabs(av) < 40)
    expect("exp", el::exp(a), std::exp(av), std::exp(2 * av) * aw, 30 * eps, show(a));
  expect("log", el::log(p), std::log(pv), pw / (pv * pv), eps, show(p), 0, 1);
  expect("log10", el::log10(p), std::log10(pv),
         pw / (pv * pv) / (std::log(LD(10)) * std::log(LD(10))), eps, show(p), 0, 1);
  expect("reciprocal", el::reciprocal(n), 1 / nv, nw / (nv * nv * nv * nv), eps,
         show(n));
  CHECK("values", el::values(a) == a.value, show(a));
  CHECK("variances", el::variances(a) == a.variance, show(a));
  CHECK("stddevs", close(el::stddevs(a), std::sqrt(aw), eps), show(a));
  // conversions keep both parts
  const auto d = static_cast<ValueAndVariance<double>>(a);
  CHECK("convert", d.value == double(a.value) && d.variance == double(a.variance), show(a));
  const auto f = static_cast<ValueAndVariance<float>>(a);
  CHECK("convert", f.value == float(a.value) && f.variance == float(a.variance), show(a));
  ValueAndVariance<double> as{1.0, 1.0};
  as = a;
  CHECK("assign", as.value == double(a.value) && as.variance == double(a.variance), show(a));
}

template <class T> void specials(Rng &rng) {
  using VV = ValueAndVariance<T>;
  const VV x{special<T>(rng), nonneg<T>(rng)};
  const VV rep{moderate<T>(rng), nonneg<T>(rng)};
  const auto is = [](const VV &a, const VV &b) {
    return same(a.value, b.value) && same(a.variance, b.variance) &&
           (std::isnan(a.value) || std::signbit(a.value) == std::signbit(b.value));
  };
  const bool nan = std::isnan(x.value), inf = std::isinf(x.value), neg = std::signbit(x.value);
  obs("special-values");
  CHECK("isnan", el::isnan(x) == nan, show(x));
  CHECK("isinf", el::isinf(x) == inf, show(x));
  CHECK("isfinite", el::isfinite(x) == (!nan && !inf), show(x));
  CHECK("isposinf", el::isposinf(x) == (inf && !neg), show(x));
  CHECK("isneginf", el::isneginf(x) == (inf && neg), show(x));
  CHECK("isnan-plain", el::isnan(x.value) == nan, show(x));
  CHECK("isinf-plain", el::isinf(x.value) == inf, show(x));
  CHECK("isposinf-plain", el::isposinf(x.value) == (inf && !neg), show(x));
  CHECK("isneginf-plain", el::isneginf(x.value) == (inf && neg), show(x));
  VV out{T(99), T(99)};
  CHECK("nan_to_num", is(el::nan_to_num(x, rep), nan ? rep : x), show(x));
  el::nan_to_num_out_arg(out, x, rep);
  CHECK("nan_to_num_out", is(out, nan ? rep : x), show(x));
  CHECK("pos_inf_to_num", is(el::positive_inf_to_num(x, rep), inf && !neg ? rep : x), show(x));
  el::positive_inf_to_num_out_arg(out, x, rep);
  CHECK("pos_inf_to_num_out", is(out, inf && !neg ? rep : x), show(x));
  CHECK("neg_inf_to_num", is(el::negative_inf_to_num(x, rep), inf && neg ? rep : x), show(x));
  el::negative_inf_to_num_out_arg(out, x, rep);
  CHECK("neg_inf_to_num_out", is(out, inf && neg ? rep : x), show(x));
  // min/max with NaN: the plain forms give NaN, the nan-forms skip it
  const T a = special<T>(rng), b = special<T>(rng);
  const auto minmax = [&](auto op, const char *name, bool skip, bool wantmax) {
    VV m{a, T(1)};
    op(m, VV{b, T(2)});
    T want;
    bool first;
    if (std::isnan(a) || std::isnan(b)) {
      if (skip)
        first = std::isnan(b);
      else
        first = std::isnan(a) && !std::isnan(b);
      want = first ? a : b;
      CHECK(name, same(m.value, want), name << ' ' << a << ' ' << b << " -> " << m.value);
      if (skip && !(std::isnan(a) && std::isnan(b)))
        CHECK(name, m.variance == (first ? T(1) : T(2)), name << " variance");
    } else {
      want = wantmax ? std::max(a, b) : std::min(a, b);
      CHECK(name, m.value == want, name << ' ' << a << ' ' << b << " -> " << m.value);
      if (a != b)
        CHECK(name, m.variance == (want == a ? T(1) : T(2)), name << " variance");
    }
  };
  minmax([](auto &x, const auto &y) { el::max_equals(x, y); }, "max_equals", false, true);
  minmax([](auto &x, const auto &y) { el::min_equals(x, y); }, "min_equals", false, false);
  minmax([](auto &x, const auto &y) { el::nanmax_equals(x, y); }, "nanmax_equals", true, true);
  minmax([](auto &x, const auto &y) { el::nanmin_equals(x, y); }, "nanmin_equals", true, false);
}
// isclose with uncertain operands compares values against the tolerance
template <class T> void closeness(Rng &rng) {
  using VV = ValueAndVariance<T>;
  const VV a = gen<VV>(rng), b{rng.chance(1, 3) ? a.value : moderate<T>(rng), nonneg<T>(rng)};
  const T t = nonneg<T>(rng);
  const bool want = std::fabs(a.value - b.value) <= t;
  CHECK("isclose", el::isclose(a.value, b.value, t) == want, show(a) << show(b) << t);
  CHECK("isclose-nan", el::isclose_equal_nan(a.value, b.value, t) == want, show(a) << show(b) << t);
}
} // namespace

using D = double;
using F = float;
using VD = ValueAndVariance<double>;
using VF = ValueAndVariance<float>;

SUITE(binary) {
  binary<VD, VD>(rng);
  binary<VD, VF>(rng);
  binary<VF, VD>(rng);
  binary<VF, VF>(rng);
  binary<VD, D>(rng);
  binary<VD, F>(rng);
  binary<VF, F>(rng);
  binary<VD, int64_t>(rng);
  binary<VD, int32_t>(rng);
  binary<VF, int64_t>(rng);
  binary<VF, int32_t>(rng);
  binary<D, VD>(rng);
  binary<F, VD>(rng);
  binary<F, VF>(rng);
  binary<D, VF>(rng);
  binary<VF, D>(rng);
  binary<int64_t, VD>(rng);
  binary<int32_t, VD>(rng);
  binary<int64_t, VF>(rng);
  binary<int32_t, VF>(rng);
}
SUITE(inplace) {
  inplace<VD, VD>(rng);
  inplace<VD, VF>(rng);
  inplace<VF, VD>(rng);
  inplace<VF, VF>(rng);
  inplace<VD, D>(rng);
  inplace<VD, F>(rng);
  inplace<VF, F>(rng);
  inplace<VF, D>(rng);
  inplace<VD, int64_t>(rng);
  inplace<VD, int32_t>(rng);
  inplace<VF, int64_t>(rng);
  inplace<VF, int32_t>(rng);
}
SUITE(powers) {
  powers<D, D>(rng);
  powers<D, F>(rng);
  powers<F, F>(rng);
  powers<F, D>(rng);
  powers<D, int64_t>(rng);
  powers<D, int32_t>(rng);
  powers<F, int64_t>(rng);
  powers<F, int32_t>(rng);
}
SUITE(pow_special) {
  powers_special<D>(rng);
  powers_special<F>(rng);
}
SUITE(unary) {
  unary<D>(rng);
  unary<F>(rng);
}
SUITE(specials) {
  specials<D>(rng);
  specials<F>(rng);
  closeness<D>(rng);
  closeness<F>(rng);
}
