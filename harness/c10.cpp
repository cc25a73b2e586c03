// C10: units of operations and unit conversion.  Oracle: dimensional analysis
// on exponent vectors with exact rational multipliers, and exact (128-bit)
// integer arithmetic for conversions.
#include "gen_ds.h"
#include "ops.h"
#include "scipp/core/element/to_unit.h"
#include "scipp/dataset/to_unit.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/reduction.h"
#include <array>

using namespace vf;
using units::Unit;

namespace {
using I128 = __int128;
// m, s, kg, A, K, mol, cd, currency, count, rad
constexpr int low[10]{-128, -128, -32, -32, -32, -8, -8, -8, -8, -32}, high[10]{127, 127, 31, 31, 31, 7, 7, 7, 7, 31};
struct Model {
  std::array<int, 10> e{};
  int64_t num = 1, den = 1; // multiplier
  bool fits() const {
    for (int i = 0; i < 10; ++i)
      if (e[size_t(i)] < low[i] || e[size_t(i)] > high[i])
        return false;
    return true;
  }
  bool one() const { return e == std::array<int, 10>{} && num == den; }
  bool operator==(const Model &o) const { return e == o.e && num == o.num && den == o.den; }
  std::string text() const { return STR(vec(std::vector<int>(e.begin(), e.end())) << '*' << num << '/' << den); }
};
constexpr I128 limit = 1000000000000000ll;
bool reduce(Model &m, I128 num, I128 den) {
  auto a = num, b = den;
  while (b != 0) {
    const auto t = a % b;
    a = b;
    b = t;
  }
  num /= a;
  den /= a;
  m.num = int64_t(num);
  m.den = int64_t(den);
  return num < limit && den < limit;
}
bool times(const Model &a, const Model &b, Model &out) {
  out = a;
  for (size_t i = 0; i < 10; ++i)
    out.e[i] += b.e[i];
  return reduce(out, I128(a.num) * b.num, I128(a.den) * b.den);
}
Model inverse(const Model &a) {
  Model m;
  for (size_t i = 0; i < 10; ++i)
    m.e[i] = -a.e[i];
  m.num = a.den;
  m.den = a.num;
  return m;
}
bool power(const Model &a, const int64_t p, Model &out) {
  out = Model{};
  const auto b = p < 0 ? inverse(a) : a;
  const auto n = p < 0 ? -p : p;
  for (size_t i = 0; i < 10; ++i)
    out.e[i] = int(std::clamp<int64_t>(b.e[i] * n, -1000000, 1000000));
  if (b.num == 1 && b.den == 1)
    return true;
  I128 x = 1, y = 1;
  for (int64_t i = 0; i < n; ++i) {
    x *= b.num;
    y *= b.den;
    if (x >= limit || y >= limit)
      return false;
  }
  return reduce(out, x, y);
}
struct Named {
  const char *name;
  Model model;
};
Model dim(const int i, const int64_t num = 1, const int64_t den = 1) {
  Model m;
  m.e[size_t(i)] = 1;
  m.num = num;
  m.den = den;
  return m;
}
const std::vector<Named> &lengths() {
  static const std::vector<Named> t{{"m", dim(0)}, {"km", dim(0, 1000)}, {"cm", dim(0, 1, 100)}, {"mm", dim(0, 1, 1000)}, {"um", dim(0, 1, 1000000)},
      {"nm", dim(0, 1, 1000000000)}, {"angstrom", dim(0, 1, 10000000000)}};
  return t;
}
const std::vector<Named> &times_() {
  static const std::vector<Named> t{{"s", dim(1)}, {"ms", dim(1, 1, 1000)}, {"us", dim(1, 1, 1000000)}, {"ns", dim(1, 1, 1000000000)}, {"min", dim(1, 60)},
      {"h", dim(1, 3600)}, {"D", dim(1, 86400)}, {"week", dim(1, 604800)}};
  return t;
}
const std::vector<Named> &others() {
  static const std::vector<Named> t = [] {
    Model newton;
    newton.e = {1, -2, 1};
    Model percent;
    percent.den = 100;
    return std::vector<Named>{{"one", {}}, {"kg", dim(2)}, {"g", dim(2, 1, 1000)}, {"mg", dim(2, 1, 1000000)}, {"A", dim(3)}, {"mA", dim(3, 1, 1000)}, {"K", dim(4)},
        {"mK", dim(4, 1, 1000)}, {"mol", dim(5)}, {"cd", dim(6)}, {"counts", dim(8)}, {"rad", dim(9)}, {"mrad", dim(9, 1, 1000)}, {"N", newton}, {"%", percent}};
  }();
  return t;
}
const Named &rand_named(Rng &rng) { return rng.pick(rng.chance(1, 3) ? lengths() : rng.chance(1, 2) ? times_() : others()); }

// does the unit denote the model?
void agree(const Unit &u, const Model &m, const std::string &what) {
  CHECK("unit-algebra", u.has_value(), what << " yields no unit but expected " << m.text());
  const auto b = u.underlying().base_units();
  const std::array<int, 10> e{b.meter(), b.second(), b.kg(), b.ampere(), b.kelvin(), b.mole(), b.candela(), b.currency(), b.count(), b.radian()};
  CHECK("unit-algebra", e == m.e, what << " yields " << u.name() << " with exponents " << vec(std::vector<int>(e.begin(), e.end())) << " but expected " << m.text());
  const auto expected = double(m.num) / double(m.den);
  CHECK("unit-algebra", std::abs(u.underlying().multiplier() - expected) <= 1e-11 * expected, what << " yields multiplier " << u.underlying().multiplier() << " but expected " << m.text());
}
} // namespace

// histories of unit arithmetic
SUITE(algebra) {
  auto start = rand_named(rng);
  Unit u(start.name);
  Model m = start.model;
  std::string log = start.name;
  agree(u, m, log);
  for (int step = 0; step < 12; ++step) {
    const auto &o = rand_named(rng);
    const Unit v(o.name);
    const auto kind = rng.in(0, 6);
    Model expected;
    bool ok = true, representable = true;
    std::optional<Unit> result;
    std::optional<std::string> error;
    std::string what;
    if (kind <= 3) {
      const bool divide = kind >= 2;
      const bool swap = rng.chance(1, 4), in_place = !swap && rng.chance(1, 2);
      representable = divide ? (swap ? times(o.model, inverse(m), expected) : times(m, inverse(o.model), expected)) : times(m, o.model, expected);
      what = log + (divide ? " / " : " * ") + o.name + (swap ? " (swapped)" : "");
      error = error_of([&] {
        if (in_place) {
          auto c = u;
          if (divide)
            c /= v;
          else
            c *= v;
          result = c;
        } else
          result = divide ? (swap ? v / u : u / v) : (swap ? v * u : u * v);
      });
      ok = expected.fits();
    } else if (kind == 4) {
      const auto p = rng.chance(1, 8) ? rng.pick({int64_t(1) << 32, (int64_t(1) << 32) + 1, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max(), int64_t(1) << 31})
                                      : rng.chance(1, 4) ? rng.in(-40, 40) : rng.in(-4, 4);
      if (p > 1000 || p < -1000) {
        if (m.num != m.den)
          continue;
        expected.e = m.e;
        ok = m.one();
      } else {
        representable = power(m, p, expected);
        ok = expected.fits();
      }
      what = log + " ^ " + std::to_string(p);
      error = error_of([&] { result = units::pow(u, p); });
      if (m.one() && error && (p > 1000 || p < -1000)) // may be refused
        continue;
    } else if (kind == 5) {
      expected = m;
      ok = true;
      for (size_t i = 0; i < 10; ++i) {
        ok = ok && m.e[i] % 2 == 0;
        expected.e[i] = m.e[i] / 2;
      }
      const auto rn = int64_t(std::llround(std::sqrt(double(m.num)))), rd = int64_t(std::llround(std::sqrt(double(m.den))));
      representable = rn * rn == m.num && rd * rd == m.den;
      expected.num = rn;
      expected.den = rd;
      what = "sqrt(" + log + ")";
      error = error_of([&] { result = units::sqrt(u); });
      if (!representable && ok)
        continue;
    } else {
      // same-unit rules
      const bool same = m == o.model;
      for (int k = 0; k < 4; ++k) {
        const auto &other = k < 2 ? v : u;
        const bool equal = k >= 2 || same;
        std::optional<Unit> r;
        const auto e = error_of([&] { r = k % 2 ? u - other : rng.chance(1, 2) ? u + other : u % other; });
        CHECK("unit-addition", equal ? !e && *r == u : e == std::optional<std::string>("UnitError"),
            "adding/subtracting/modulo of " << u.name() << " and " << other.name() << " gives " << (e ? *e : r->name()));
        CHECK("unit-equality", (u == other) == equal && (u != other) == !equal && (other == u) == equal, "equality of " << u.name() << " and " << other.name() << " models " << m.text() << ' ' << o.model.text());
      }
      CHECK("unit-base", u.has_same_base(v) == (m.e == o.model.e), "same base of " << u.name() << " and " << v.name());
      CHECK("unit-equality", Unit(u) == u && units::identical(u, u) && !(u == units::none) && std::hash<Unit>{}(u) == std::hash<Unit>{}(Unit(u)), "unit " << u.name() << " differs from itself");
      obs("unit-comparisons");
      continue;
    }
    CHECK("unit-refusal", ok == !error, what << " gives " << (error ? *error : result->name()) << " but expected " << (ok ? expected.text() : "refusal"));
    if (!ok) {
      CHECK("unit-refusal", error->rfind("UnitError", 0) == 0, what << " refused with " << *error);
      obs("unit-refused");
      agree(u, m, log + " after a refused operation");
      continue;
    }
    if (!representable)
      return;
    agree(*result, expected, what);
    obs("unit-operations");
    // equal models are equal units, whatever the way they were reached
    CHECK("unit-equality", (*result == u) == (expected == m), what << ": equality of " << result->name() << " and " << u.name());
    if (rng.chance(1, 3))
      continue;
    u = *result;
    m = expected;
    log = log.size() > 200 ? u.name() : '(' + what + ')';
    nontrivial(what);
  }
  // none behaves as the absence of a unit
  CHECK("unit-none", units::none * units::none == units::none && units::none / units::none == units::none && units::sqrt(units::none) == units::none &&
                         units::pow(units::none, 3) == units::none && units::none + units::none == units::none && !units::none.has_value(),
      "none with none");
  CHECK("unit-none", error_of([&] { u *units::none; }) && error_of([&] { units::none *u; }) && error_of([&] { u / units::none; }) && error_of([&] { units::none / u; }) &&
                         error_of([&] { u + units::none; }) && error_of([&] { units::none - u; }),
      u.name() << " with none");
}

namespace {
// The unit of a result: nullopt stands for refusal.
using Rule = std::optional<Unit>;
bool angle(const Unit &u) { return u.has_same_base(units::rad); }
DType elem_type(const Variable &v) { return variable::variableFactory().elem_dtype(v); }
Rule unit_rule(const Operation &op, const std::vector<Unit> &u, const Args &args) {
  const auto &n = op.name;
  const auto is = [&](std::initializer_list<const char *> l) { return std::find(l.begin(), l.end(), n) != l.end(); };
  const auto same = u.size() > 1 && u[0] == u[1];
  const auto none = units::none, one = units::one;
  const auto attempt = [](auto &&f) -> Rule {
    try {
      return f();
    } catch (const except::UnitError &) {
      return std::nullopt;
    }
  };
  if (is({"abs", "norm", "floor", "ceil", "rint", "values", "stddevs", "negative"}))
    return u[0];
  if (n == "variances")
    return attempt([&] { return u[0] * u[0]; });
  if (is({"exp", "log", "log10", "erf", "erfc", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh"}))
    return u[0] == one ? Rule(one) : std::nullopt;
  if (n == "reciprocal")
    return attempt([&] { return one / u[0]; });
  if (n == "sqrt")
    return attempt([&] { return units::sqrt(u[0]); });
  if (is({"sin", "cos", "tan"}))
    return angle(u[0]) ? Rule(one) : std::nullopt;
  if (is({"asin", "acos", "atan"}))
    return u[0] == one ? Rule(units::rad) : std::nullopt;
  if (is({"isnan", "isinf", "isfinite", "isposinf", "isneginf"}))
    return none;
  if (n == "not")
    return u[0] == none ? Rule(none) : std::nullopt;
  if (is({"and", "or", "xor", "or_equals", "and_equals", "xor_equals"}))
    return u[0] == none && u[1] == none ? Rule(none) : std::nullopt;
  if (is({"add", "subtract", "mod", "add_equals", "subtract_equals", "mod_equals"}))
    return same ? Rule(u[0]) : std::nullopt;
  if (is({"multiply", "dot", "cross", "multiply_equals"}))
    return attempt([&] { return u[0] * u[1]; });
  if (n == "transform") {
const auto linear = [](const Variable &v) {
      const auto t = elem_type(v);
      return t != dtype<Aff3> && t != dtype<Translation> && t != dtype<Vec3>;
    };
    // a map with a translation moves only things of its own unit
    if (linear(args[0]) || (elem_type(args[0]) == dtype<Vec3>) || linear(args[1]))
      return attempt([&] { return u[0] * u[1]; });
    return same ? Rule(u[0]) : std::nullopt;
  }
  if (is({"divide", "floor_divide", "divide_equals", "floor_divide_equals"}))
    return attempt([&] { return u[0] / u[1]; });
  if (is({"equal", "not_equal", "less", "greater", "less_equal", "greater_equal"}))
    return same ? Rule(none) : std::nullopt;
  if (n == "atan2")
    return same && u[0] != none ? Rule(units::rad) : std::nullopt;
  if (is({"nan_to_num", "pos_inf_to_num", "neg_inf_to_num"}))
    return same ? Rule(u[0]) : std::nullopt;
  if (n == "where")
    return u[0] == none && u[1] == u[2] ? Rule(u[1]) : std::nullopt;
  if (is({"isclose", "isclose_nan"}))
    return same && u[3] == u[0] && u[2] == (u[0] == none ? none : one) ? Rule(none) : std::nullopt;
  fail("harness", "no unit rule for " + n);
}
Unit get_unit(const Variable &v) { return variable::variableFactory().elem_unit(v); }
void put_unit(Variable &v, const Unit &u) { variable::variableFactory().set_elem_unit(v, u); }
Unit rand_unit(Rng &rng) {
  switch (rng.in(0, 5)) {
  case 0:
    return rng.pick({units::none, units::one, units::rad, units::deg});
  case 1:
    return Unit(rand_named(rng).name) * Unit(rand_named(rng).name);
  case 2: {
    const Unit u(rand_named(rng).name);
    return units::pow(u, rng.in(-7, 7));
  }
  case 3:
    return units::pow(Unit(rng.pick(lengths()).name), rng.in(-12, 12));
  default:
    return Unit(rand_named(rng).name);
  }
}
} // namespace

// The unit of every element-wise operation, or its refusal.
SUITE(operations) {
  const auto group = rng.in(0, 5);
  const auto &op = rng.pick(group < 2 ? unary_ops() : group < 5 ? binary_ops() : ternary_ops());
  if (op.pow)
    return;
  const auto spec = rand_operands(rng, op);
  const auto dims = rand_dims(rng, 2, 3);
  const bool binned = rng.chance(1, 4) && op.kind != Kind::where && op.kind != Kind::close;
  Args args;
  for (size_t i = 0; i < spec.size(); ++i) {
    auto s = spec[i].spec;
    s.variances = s.variances && (op.in_place ? i == 0 : true);
    if (binned && i == 0)
      args.push_back(rand_bins(rng, spec[i].type, dims, s));
    else {
      if (binned)
        s.variances = false;
      auto d = i == 0 || s.variances ? dims : sub_dims(rng, dims);
      args.push_back(rand_var(rng, spec[i].type, d, s));
    }
    if (!args.back().dims().empty() && args.back().is_slice())
      args.back() = copy(args.back()); // units of slices cannot be set
  }
  const auto with = [&](const std::vector<Unit> &u, Args &used) {
    used.clear();
    for (size_t i = 0; i < args.size(); ++i) {
      used.push_back(copy(args[i]));
      put_unit(used.back(), u[i]);
    }
    return error_of([&] { used[0] = op.run(used); });
  };
  // units that certainly fit: do these elements fit?
  std::vector<Unit> fitting(args.size(), units::one);
  if (op.kind == Kind::boolean)
    fitting.assign(args.size(), units::none);
  if (op.kind == Kind::angle)
    fitting[0] = units::rad;
  if (op.kind == Kind::where)
    fitting[0] = units::none;
  Args used;
  if (const auto e = with(fitting, used)) {
    CHECK("unit-refused", *e != "UnitError" || !unit_rule(op, fitting, args), op.name << " of " << describe(args[0]) << " refuses plain units");
    obs("elements-do-not-fit");
    return;
  }
  CHECK("unit-of-result", Rule(get_unit(used[0])) == unit_rule(op, fitting, args), op.name << " of plain units gives " << get_unit(used[0]).name());
  for (int k = 0; k < 4; ++k) {
    std::vector<Unit> u;
    const auto common = rng.chance(2, 3) ? rand_unit(rng) : units::one;
    for (size_t i = 0; i < args.size(); ++i)
      u.push_back(rng.chance(1, 2) ? common : rng.chance(1, 3) ? fitting[i] : rand_unit(rng));
    const auto expected = unit_rule(op, u, args);
    const auto e = with(u, used);
    std::string names;
    for (const auto &x : u)
      names += x.name() + ", ";
    const auto what = STR(op.name << " with units " << names << "of " << core::to_string(args[0].dtype()) << (binned ? " binned" : ""));
    if (!expected) {
      CHECK("unit-refusal", e.has_value(), what << " must be refused but gives " << get_unit(used[0]).name());
      // also not an error of some other kind
      CHECK("unit-refusal-kind", *e == "UnitError", what << " refused with " << *e);
      obs("operations-refused");
    } else {
      CHECK("unit-refused", !e, what << " must give " << expected->name() << " but is refused with " << *e);
      CHECK("unit-of-result", get_unit(used[0]) == *expected, what << " gives " << get_unit(used[0]).name() << " but expected " << expected->name());
      for (size_t i = 1; i < used.size(); ++i)
        CHECK("unit-of-operand", get_unit(used[i]) == u[i], what << " changed the unit of operand " << i);
      obs("operations-accepted");
      nontrivial(what);
    }
  }
}

// powers take the power of the unit
SUITE(powers) {
  const auto type = rand_numeric(rng);
  Spec s;
  auto n = rng.chance(1, 4) ? rng.in(-40, 40) : rng.in(-4, 6);
  s.small = n > 6 || n < -6 ? 1 : 4; // no overflow
  s.positive = true;
  const bool binned = rng.chance(1, 4);
  const auto dims = rand_dims(rng, 2, 3);
  auto base = copy(binned ? rand_bins(rng, type, dims, s) : rand_var(rng, type, dims, s));
  const auto &named = rand_named(rng);
  put_unit(base, Unit(named.name));
  const auto et = rand_numeric(rng);
  const bool is_int_base = type == dtype<int64_t> || type == dtype<int32_t>, is_int_exp = et == dtype<int64_t> || et == dtype<int32_t>;
  if (is_int_base && is_int_exp && n < 0)
    n = -n;
  const bool fraction = !is_int_exp && rng.chance(1, 4);
  const Variable exponent = for_dtype(et, [&](auto tag) -> Variable {
    using T = typename decltype(tag)::type;
    if constexpr (std::is_arithmetic_v<T>)
      return makeVariable<T>(Dimensions{}, units::one, Values{T(fraction ? T(n) + T(0.5) : T(n))});
    else
      return {};
  });
  const auto before = full(base);
  Model expected;
  const bool representable = power(named.model, n, expected);
  const bool ok = named.model.one() || (!fraction && expected.fits());
  std::optional<Variable> r;
  const auto e = error_of([&] { r = variable::pow(base, exponent); });
  const auto what = STR("pow of " << named.name << " to " << n << (fraction ? ".5 " : " ") << core::to_string(type) << '^' << core::to_string(et));
  if (e == std::optional<std::string>("TypeError"))
    return obs("powers-not-supported");
  CHECK("unit-refusal", ok == !e, what << " gives " << (e ? *e : get_unit(*r).name()));
  CHECK("input-changed", full(base) == before, what << " changed its base " << diff(full(base), before));
  if (!ok) {
    CHECK("unit-refusal-kind", *e == "UnitError", what << " refused with " << *e);
    obs("powers-refused");
    return;
  }
  if (named.model.one())
    CHECK("unit-of-result", get_unit(*r) == units::one, what << " gives " << get_unit(*r).name());
  else if (representable)
    agree(get_unit(*r), expected, what);
  obs("powers");
  nontrivial(what);
  // anything but a dimensionless exponent is refused
  auto bad = copy(exponent);
  bad.setUnit(rng.pick({units::none, units::m, units::rad}));
  CHECK("unit-refusal", error_of([&] { variable::pow(base, bad); }) == std::optional<std::string>("UnitError"), what << " accepts exponent of unit " << bad.unit().name());
}

// reductions keep the unit
SUITE(reductions) {
  const auto type = rng.pick({dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>});
  Spec s;
  s.unit = rand_unit(rng);
  const auto dims = rand_dims(rng, 3, 3, false);
  const bool binned = rng.chance(1, 4);
  const auto v = binned ? rand_bins(rng, type, dims, s) : rand_var(rng, type, dims, s);
  using F = std::function<Variable(const Variable &)>;
  static const std::vector<std::pair<std::string, F>> all{{"sum", [](auto &x) { return variable::sum(x); }}, {"nansum", [](auto &x) { return variable::nansum(x); }},
      {"mean", [](auto &x) { return variable::mean(x); }}, {"nanmean", [](auto &x) { return variable::nanmean(x); }}, {"max", [](auto &x) { return variable::max(x); }},
      {"nanmax", [](auto &x) { return variable::nanmax(x); }}, {"min", [](auto &x) { return variable::min(x); }}, {"nanmin", [](auto &x) { return variable::nanmin(x); }}};
  const auto &[name, f] = rng.pick(all);
  std::optional<Variable> r;
  const auto e = error_of([&] { r = f(v); });
  if (e) {
    // counts divided by their number are no counts, so there is no mean without unit
    const bool mean = name == "mean" || name == "nanmean";
    CHECK("unit-refused", *e != "UnitError" || (mean && s.unit == units::none), name << " refuses unit " << s.unit.name());
    obs("reductions-not-supported");
    return;
  }
  CHECK("unit-of-result", r->unit() == s.unit, name << " of " << s.unit.name() << " gives " << r->unit().name());
  obs("reductions");
  nontrivial(STR(name << ' ' << s.unit.name() << core::to_string(type) << binned));
}

namespace {
struct Factor {
  I128 num, den;
};
// exact rounding half away from zero
I128 rounded(const I128 x, const Factor &f) {
  const auto p = x * f.num;
  const auto a = p < 0 ? -p : p;
  const auto q = (2 * a + f.den) / (2 * f.den);
  return p < 0 ? -q : q;
}
std::string show128(I128 x) {
  if (x == 0)
    return "0";
  std::string s;
  const bool neg = x < 0;
  for (auto y = neg ? -x : x; y > 0; y /= 10)
    s.insert(s.begin(), char('0' + int(y % 10)));
  return (neg ? "-" : "") + s;
}
// is x the conversion of an integer, held by T?
template <class T> void check_integer(const int64_t in, const int64_t out, const Factor &f, const bool exact, const std::string &what) {
  const auto want = rounded(in, f);
  if (exact) {
    if (want >= std::numeric_limits<T>::min() && want <= std::numeric_limits<T>::max()) {
      CHECK("conversion-value", I128(out) == want, what << ": " << in << " converts to " << out << " but exactly " << show128(want));
      obs("integers-exact");
    } else {
      CHECK("conversion-overflow", out == (want < 0 ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max()), what << ": " << in << " converts to " << out << " but exactly " << show128(want));
      obs("integers-saturated");
    }
  } else {
    const auto x = (long double)in * (long double)f.num / (long double)f.den;
    if (std::fabs(x) < (long double)std::numeric_limits<T>::max() * (1 - 1e-15L)) {
      CHECK("conversion-value", std::fabs((long double)out - x) <= 0.5L + std::fabs(x) * 0x1p-50L, what << ": " << in << " converts to " << out << " but exactly " << x);
      obs("integers-near");
    }
  }
}
template <class T> void check_floating(const T in, const T out, const Factor &f, const std::string &what) {
  if (std::isnan(in) || std::isinf(in)) {
    CHECK("conversion-value", std::isnan(in) ? std::isnan(out) : in == out, what << ": " << in << " converts to " << out);
    obs("special-values");
    return;
  }
  const auto x = (long double)in * (long double)f.num / (long double)f.den;
  const auto eps = std::is_same_v<T, float> ? 0x1p-23L : 0x1p-50L;
  if (std::fabs(x) > (long double)std::numeric_limits<T>::max() / 2)
    return;
  CHECK("conversion-value", std::fabs((long double)out - x) <= std::fabs(x) * eps + std::numeric_limits<T>::denorm_min(), what << ": " << in << " converts to " << out << " but exactly " << x);
  obs("floats");
}
int64_t wide(Rng &rng, const Factor &f, const int64_t lo, const int64_t hi) {
  switch (rng.in(0, 5)) {
  case 0:
    return rng.in(-20, 20);
  case 1: // near the point where the result just fits
    if (f.num > f.den)
      return int64_t(std::clamp<I128>(I128(rng.chance(1, 2) ? hi : lo) * f.den / f.num + rng.in(-2, 2), lo, hi));
    return rng.in(lo, hi);
  case 2: // near a half
    if (f.den > f.num)
      return int64_t(std::clamp<I128>((2 * I128(rng.in(-1000, 1000)) + 1) * f.den / (2 * f.num) + rng.in(-1, 1), lo, hi));
    return rng.in(-1000000, 1000000);
  case 3:
    return rng.pick({lo, hi, lo + 1, hi - 1, int64_t(0)});
  case 4: // beyond the precision of double
    return std::clamp<int64_t>(rng.in(int64_t(1) << 53, int64_t(1) << 56) * (rng.chance(1, 2) ? 1 : -1), lo, hi);
  default:
    return rng.in(std::max<int64_t>(lo, -1000000000000), std::min<int64_t>(hi, 1000000000000));
  }
}
struct Pair {
  Unit from, to;
  Factor f;
  bool time = false, long_time = false;
  std::string text;
};
Pair rand_pair(Rng &rng) {
  Pair p;
  const bool time = rng.chance(1, 2);
  const auto &a = rng.pick(time ? times_() : lengths()), &b = rng.pick(time ? times_() : lengths());
  p.from = Unit(a.name);
  p.to = Unit(b.name);
  p.f = {I128(a.model.num) * b.model.den, I128(a.model.den) * b.model.num};
  auto x = p.f.num, y = p.f.den;
  while (y != 0) {
    const auto t = x % y;
    x = y;
    y = t;
  }
  p.f.num /= x;
  p.f.den /= x;
  p.time = time;
  p.long_time = a.model.num >= 86400 || b.model.num >= 86400;
  p.text = std::string(a.name) + "->" + b.name;
  return p;
}
} // namespace

SUITE(conversion) {
  auto p = rand_pair(rng);
  const auto type = rng.pick({dtype<int64_t>, dtype<int64_t>, dtype<int32_t>, dtype<double>, dtype<float>, dtype<time_point>, dtype<Vec3>, dtype<Aff3>, dtype<Translation>});
  const auto dims = rand_dims(rng, 2, 4);
  const bool binned = rng.chance(1, 4);
  const bool floating = type == dtype<double> || type == dtype<float>;
  Spec s;
  s.unit = p.from;
  s.specials = rng.chance(1, 3);
  s.variances = floating && rng.chance(1, 2);
  auto v = binned ? rand_bins(rng, type, dims, s) : rand_var(rng, type, dims, s);
  // wide values
  const auto fill = [&](Variable &x) {
    const auto places = indices_of(x.dims());
    for (const auto &at : places) {
      if (type == dtype<int64_t>)
        raw_set<int64_t>(x, at, wide(rng, p.f, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max()));
      else if (type == dtype<time_point>)
        raw_set<time_point>(x, at, time_point(wide(rng, p.f, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max())));
      else if (type == dtype<int32_t>)
        raw_set<int32_t>(x, at, int32_t(wide(rng, p.f, std::numeric_limits<int32_t>::min(), std::numeric_limits<int32_t>::max())));
    }
  };
  if (!v.is_readonly()) {
    if (binned) {
      if (!v.bin_buffer<Variable>().is_readonly())
        fill(v.bin_buffer<Variable>());
    } else
      fill(v);
  }
  const auto before = full(v);
  const auto what = STR("to_unit " << p.text << ' ' << core::to_string(type) << (binned ? " binned" : "") << show(v.dims()));
  std::optional<Variable> r;
  const auto policy = rng.chance(1, 2) ? CopyPolicy::Always : CopyPolicy::TryAvoid;
  const auto e = error_of([&] { r = variable::to_unit(v, p.to, policy); });
  CHECK("input-changed", full(v) == before, what << " changed its input " << diff(full(v), before));
  const bool same = p.from == p.to;
  const bool refuse = type == dtype<time_point> && !same && (!p.time || p.long_time);
  if (e == std::optional<std::string>("VariancesError") && s.variances && !binned)
    return obs("broadcast-variances-refused");
  CHECK("conversion-refusal", refuse == e.has_value(), what << (e ? " refused with " + *e : std::string(" accepted")));
  if (e) {
    CHECK("conversion-refusal", *e == "UnitError", what << " refused with " << *e);
    obs("conversions-refused");
    return;
  }
  CHECK("conversion-unit", get_unit(*r) == p.to, what << " gives unit " << get_unit(*r).name());
  if (same) {
    CHECK("conversion-copy", r->is_same(v) == (policy == CopyPolicy::TryAvoid), what << " with copy policy");
    CHECK("conversion-value", full(*r) == before, what << " changes values " << diff(full(*r), before));
    obs("same-unit");
    return;
  }
  CHECK("conversion-copy", !r->is_same(v), what << " returns its input");
  CHECK("conversion-shape", r->dtype() == v.dtype() && show(r->dims()) == show(v.dims()), what << " gives " << describe(*r));
  const bool exact = p.f.num == 1 || p.f.den == 1;
  const auto compare = [&](const Variable &in, const IndexMap &i, const Variable &out, const IndexMap &o) {
    if (type == dtype<int64_t>)
      check_integer<int64_t>(raw_value<int64_t>(in, i), raw_value<int64_t>(out, o), p.f, exact, what);
    else if (type == dtype<int32_t>)
      check_integer<int32_t>(raw_value<int32_t>(in, i), raw_value<int32_t>(out, o), p.f, p.f.den == 1, what);
    else if (type == dtype<time_point>)
      check_integer<int64_t>(raw_value<time_point>(in, i).time_since_epoch(), raw_value<time_point>(out, o).time_since_epoch(), p.f, exact, what);
    else if (type == dtype<double>)
      check_floating(raw_value<double>(in, i), raw_value<double>(out, o), p.f, what);
    else if (type == dtype<float>)
      check_floating(raw_value<float>(in, i), raw_value<float>(out, o), p.f, what);
    else if (type == dtype<Vec3>)
      for (int k = 0; k < 3; ++k)
        check_floating(raw_value<Vec3>(in, i)[k], raw_value<Vec3>(out, o)[k], p.f, what);
    else if (type == dtype<Translation>)
      for (int k = 0; k < 3; ++k)
        check_floating(raw_value<Translation>(in, i).vector()[k], raw_value<Translation>(out, o).vector()[k], p.f, what);
    else
      for (int k = 0; k < 16; ++k) {
        const auto a = raw_value<Aff3>(in, i).matrix()(k / 4, k % 4), b = raw_value<Aff3>(out, o).matrix()(k / 4, k % 4);
        if (k % 4 == 3 && k < 12)
          check_floating(a, b, p.f, what);
        else
          CHECK("conversion-value", a == b, what << " changes the linear part");
      }
    CHECK("conversion-variances", in.has_variances() == out.has_variances(), what << " variances");
    if (in.has_variances()) {
      const Factor f2{p.f.num * p.f.num, p.f.den * p.f.den};
      if (type == dtype<double>)
        check_floating(raw_variance<double>(in, i), raw_variance<double>(out, o), f2, what + " variance");
      else
        check_floating(raw_variance<float>(in, i), raw_variance<float>(out, o), f2, what + " variance");
      obs("variances");
    }
  };
  each_index(v.dims(), [&](const IndexMap &at) {
    if (!binned)
      return compare(v, at, *r, at);
    const auto [b, n] = raw_range(v, at);
    const auto [b2, n2] = raw_range(*r, at);
    CHECK("conversion-bins", n - b == n2 - b2, what << " changes the bin size at " << show(at));
    const auto d = v.bin_buffer<Variable>().dims().inner();
    for (int64_t k = 0; k < n - b; ++k)
      compare(v.bin_buffer<Variable>(), {{d, b + k}}, r->bin_buffer<Variable>(), {{r->bin_buffer<Variable>().dims().inner(), b2 + k}});
    obs("bins");
  });
  nontrivial(before.substr(0, 120) + p.text);
  // there and back: exact where the way there was lossless
  if (p.f.den == 1 && (type == dtype<int64_t> || type == dtype<time_point>) && !binned && p.f.num < (I128(1) << 62)) {
    const auto back = variable::to_unit(*r, p.from);
    each_index(v.dims(), [&](const IndexMap &at) {
      const auto get = [&](const Variable &x) { return type == dtype<int64_t> ? raw_value<int64_t>(x, at) : raw_value<time_point>(x, at).time_since_epoch(); };
      const auto w = I128(get(v)) * p.f.num;
      if (w <= std::numeric_limits<int64_t>::max() && w >= std::numeric_limits<int64_t>::min())
        CHECK("conversion-round-trip", get(back) == get(v), what << " and back turns " << get(v) << " into " << get(back));
    });
    obs("round-trips");
  }
}

// the elementary scaling alone, with integer scales up to the largest
SUITE(kernel) {
  namespace el = core::element;
  const auto hi = std::numeric_limits<int64_t>::max(), lo = std::numeric_limits<int64_t>::min();
  const int64_t scale = rng.pick({int64_t(1), int64_t(2), int64_t(3), int64_t(7), int64_t(60), int64_t(1000), int64_t(86400), int64_t(1000000000), int64_t(1000000000000000000), rng.in(1, 9000000000000000000), rng.in(1, 1000000)});
  const bool divide = rng.chance(1, 2);
  const Factor f = divide ? Factor{1, scale} : Factor{scale, 1};
  const auto x = wide(rng, f, lo, hi);
  const auto what = STR("element " << (divide ? "division" : "multiplication") << " by " << scale);
  if (divide) {
    check_integer<int64_t>(x, el::to_unit_divide(x, scale), f, true, what);
    check_integer<int64_t>(x, el::to_unit_divide(time_point(x), scale).time_since_epoch(), f, true, what + " time");
  } else {
    check_integer<int64_t>(x, el::to_unit(x, scale), f, true, what);
    check_integer<int64_t>(x, el::to_unit(time_point(x), scale).time_since_epoch(), f, true, what + " time");
  }
  // through floating-point factors: int32 is exact as long as double is
  const auto y = int32_t(wide(rng, f, std::numeric_limits<int32_t>::min(), std::numeric_limits<int32_t>::max()));
  const double s = divide ? 1.0 / double(scale) : double(scale);
  const auto r32 = el::to_unit(y, s);
  const auto exact = (long double)y * (divide ? 1.0L / (long double)scale : (long double)scale);
  if (std::fabs(exact) < 2147483646.0L)
    CHECK("conversion-value", std::fabs((long double)r32 - exact) <= 0.5L + std::fabs(exact) * 0x1p-50L, what << ": int32 " << y << " gives " << r32);
  else if (std::fabs(exact) > 2147483650.0L)
    CHECK("conversion-overflow", r32 == (exact < 0 ? std::numeric_limits<int32_t>::min() : std::numeric_limits<int32_t>::max()), what << ": int32 " << y << " gives " << r32);
  const auto r64 = el::to_unit(x, s);
  const auto e64 = (long double)x * (divide ? 1.0L / (long double)scale : (long double)scale);
  if (std::fabs(e64) < 9.2e18L)
    CHECK("conversion-value", std::fabs((long double)r64 - e64) <= 0.5L + std::fabs(e64) * 0x1p-50L, what << " (floating) of " << x << " gives " << r64);
  else if (std::fabs(e64) > 9.3e18L)
    CHECK("conversion-overflow", r64 == (e64 < 0 ? lo : hi), what << " (floating) of " << x << " gives " << r64);
  CHECK("conversion-special", el::to_unit(std::numeric_limits<int64_t>::max(), std::numeric_limits<double>::infinity()) == hi && el::to_unit(lo, std::numeric_limits<double>::infinity()) == lo, "infinite scale");
  obs("kernels", 4);
  nontrivial(STR(what << x << y));
}

SUITE(angles) {
  // trigonometry of any angle is that of the angle in radians
  const auto type = rng.pick({dtype<double>, dtype<float>});
  Spec s;
  s.unit = rng.pick({units::deg, Unit("mrad"), units::rad});
  const auto dims = rand_dims(rng, 2, 4);
  const auto v = rng.chance(1, 3) ? rand_bins(rng, type, dims, s) : rand_var(rng, type, dims, s);
  const auto before = full(v);
  const auto in_rad = variable::to_unit(v, units::rad);
  CHECK("angle", full(variable::sin(v)) == full(variable::sin(in_rad)) && full(variable::cos(v)) == full(variable::cos(in_rad)) && full(variable::tan(v)) == full(variable::tan(in_rad)),
      "trigonometry in " << s.unit.name() << " differs from that in rad");
  CHECK("input-changed", full(v) == before, "trigonometry changed its input");
  if (s.unit == units::deg && !is_binned(v))
    each_index(dims, [&](const IndexMap &at) {
      const double x = type == dtype<double> ? raw_value<double>(v, at) : raw_value<float>(v, at);
      const double y = type == dtype<double> ? raw_value<double>(in_rad, at) : raw_value<float>(in_rad, at);
      CHECK("angle", std::abs(y - x * (M_PI / 180)) <= std::abs(y) * 1e-6, x << " deg in rad is " << y);
      obs("angles");
    });
  nontrivial(before.substr(0, 200));
}

// what cannot be converted is refused
SUITE(refusals) {
  const auto type = rng.pick({dtype<int64_t>, dtype<int32_t>, dtype<double>, dtype<float>, dtype<time_point>, dtype<Vec3>, dtype<Mat3>, dtype<std::string>, dtype<bool>, dtype<Quaternion>});
  Spec s;
  const auto from = rand_unit(rng), to = rand_unit(rng);
  s.unit = from;
  auto v = rand_var(rng, type, rand_dims(rng, 2, 3), s);
  const auto before = full(v);
  std::optional<Variable> r;
  const auto e = error_of([&] { r = variable::to_unit(v, to); });
  const auto what = STR("to_unit of " << core::to_string(type) << " from " << from.name() << " to " << to.name());
  const bool base = from.has_value() && to.has_value() && from.has_same_base(to);
  CHECK("input-changed", full(v) == before, what << " changed its input");
  if (from == to) {
    CHECK("conversion-refusal", !e && full(*r) == before, what << (e ? *e : full(*r)));
    obs("same-unit");
  } else if (!base) {
    CHECK("conversion-refusal", e == std::optional<std::string>("UnitError"), what << (e ? " refused with " + *e : std::string(" accepted")));
    obs("incompatible-refused");
    nontrivial(what);
  } else if (type == dtype<Mat3> || type == dtype<Quaternion> || type == dtype<std::string> || type == dtype<bool>) {
    CHECK("conversion-refusal", e.has_value(), what << " accepted");
    obs("types-refused");
  } else if (type != dtype<time_point>) {
    CHECK("conversion-refusal", !e, what << " refused with " << *e);
    CHECK("conversion-unit", r->unit() == to, what << " gives " << r->unit().name());
    obs("converted");
  }
}

// data arrays: coordinates stay, masks are not shared
SUITE(arrays) {
  auto p = rand_pair(rng);
  ArraySpec s;
  s.data.unit = p.from;
  s.type = rand_numeric(rng);
  s.binned = rng.chance(1, 3);
  auto a = rand_array(rng, rand_dims(rng, 2, 3), s, "n");
  if (is_binned(a.data()) && get_unit(a.data()) != p.from) {
    auto data = a.data();
    if (error_of([&] { put_unit(data, p.from); }))
      return;
  }
  const auto before = full(a);
  const auto r = dataset::to_unit(a, p.to, rng.chance(1, 2) ? CopyPolicy::Always : CopyPolicy::TryAvoid);
  CHECK("input-changed", full(a) == before, "to_unit of array changed its input " << diff(full(a), before));
  CHECK("conversion-value", full(r.data()) == full(variable::to_unit(a.data(), p.to)), "data of array conversion differs from conversion of its data: " << diff(full(r.data()), full(variable::to_unit(a.data(), p.to))));
  auto expected = DataArray(a);
  expected.setData(r.data());
  CHECK("conversion-metadata", full(r) == full(expected), "conversion of an array " << diff(full(r), full(expected)));
  obs("arrays");
  nontrivial(before.substr(0, 200));
}
