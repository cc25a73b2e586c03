// The element-wise operations of variables, as a table.
#pragma once
#include "gen_var.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/astype.h"
#include "scipp/variable/comparison.h"
#include "scipp/variable/hyperbolic.h"
#include "scipp/variable/logical.h"
#include "scipp/variable/math.h"
#include "scipp/variable/misc_operations.h"
#include "scipp/variable/pow.h"
#include "scipp/variable/special_values.h"
#include "scipp/variable/to_unit.h"
#include "scipp/variable/trigonometry.h"
#include "scipp/variable/util.h"

namespace vf {
namespace var = scipp::variable;
using Args = std::vector<Variable>;
enum class Kind { any, floating, number, integer, boolean, angle, vector, transform, where, close, to_num, divide };
struct Operation {
  std::string name;
  int arity;
  Kind kind;
  std::function<Variable(Args &)> run; // in place: changes and returns args[0]
  bool in_place = false;
  bool pow = false;
};

inline const std::vector<Operation> &unary_ops() {
  using namespace scipp::variable;
#define OP1(NAME, KIND) {#NAME, 1, Kind::KIND, [](Args &a) -> Variable { return var::NAME(a[0]); }}
  static const std::vector<Operation> ops{OP1(abs, number), OP1(exp, floating), OP1(log, floating), OP1(log10, floating), OP1(reciprocal, floating),
      OP1(sqrt, floating), OP1(norm, vector), OP1(floor, floating), OP1(ceil, floating), OP1(rint, floating), OP1(erf, floating), OP1(erfc, floating),
      OP1(values, floating), OP1(variances, floating), OP1(stddevs, floating), OP1(sin, angle), OP1(cos, angle), OP1(tan, angle), OP1(asin, floating),
      OP1(acos, floating), OP1(atan, floating), OP1(sinh, floating), OP1(cosh, floating), OP1(tanh, floating), OP1(asinh, floating),
      OP1(acosh, floating), OP1(atanh, floating), OP1(isnan, number), OP1(isinf, number), OP1(isfinite, number), OP1(isposinf, number),
      OP1(isneginf, number),
      {"negative", 1, Kind::number, [](Args &a) -> Variable { return -a[0]; }},
      {"not", 1, Kind::boolean, [](Args &a) -> Variable { return ~a[0]; }}};
#undef OP1
  return ops;
}
inline const std::vector<Operation> &binary_ops() {
  using namespace scipp::variable;
#define OP2(NAME, KIND, EXPR) {NAME, 2, Kind::KIND, [](Args &a) -> Variable { return EXPR; }}
#define IN2(NAME, KIND, STMT)                                                                                                                           \
  {NAME, 2, Kind::KIND, [](Args &a) -> Variable {                                                                                                       \
     STMT;                                                                                                                                              \
     return a[0];                                                                                                                                       \
   },                                                                                                                                                   \
   true}
  static const std::vector<Operation> ops{OP2("add", number, a[0] + a[1]), OP2("subtract", number, a[0] - a[1]), OP2("multiply", number, a[0] * a[1]),
      OP2("divide", divide, a[0] / a[1]), OP2("floor_divide", divide, var::floor_divide(a[0], a[1])), OP2("mod", divide, a[0] % a[1]),
      {"pow", 2, Kind::number, [](Args &a) -> Variable { return var::pow(a[0], a[1]); }, false, true},
      OP2("equal", any, var::equal(a[0], a[1])), OP2("not_equal", any, var::not_equal(a[0], a[1])), OP2("less", number, var::less(a[0], a[1])),
      OP2("greater", number, var::greater(a[0], a[1])), OP2("less_equal", number, var::less_equal(a[0], a[1])),
      OP2("greater_equal", number, var::greater_equal(a[0], a[1])), OP2("and", boolean, a[0] & a[1]), OP2("or", boolean, a[0] | a[1]),
      OP2("xor", boolean, a[0] ^ a[1]), OP2("dot", vector, var::dot(a[0], a[1])), OP2("cross", vector, var::cross(a[0], a[1])),
      OP2("atan2", floating, var::atan2(a[0], a[1])), OP2("transform", transform, a[0] * a[1]),
      OP2("nan_to_num", to_num, var::nan_to_num(a[0], a[1])), OP2("pos_inf_to_num", to_num, var::pos_inf_to_num(a[0], a[1])),
      OP2("neg_inf_to_num", to_num, var::neg_inf_to_num(a[0], a[1])), IN2("add_equals", number, a[0] += a[1]),
      IN2("subtract_equals", number, a[0] -= a[1]), IN2("multiply_equals", number, a[0] *= a[1]), IN2("divide_equals", divide, a[0] /= a[1]),
      IN2("floor_divide_equals", divide, var::floor_divide_equals(a[0], a[1])), IN2("mod_equals", divide, a[0] %= a[1]),
      IN2("or_equals", boolean, a[0] |= a[1]), IN2("and_equals", boolean, a[0] &= a[1]), IN2("xor_equals", boolean, a[0] ^= a[1])};
#undef OP2
#undef IN2
  return ops;
}
inline const std::vector<Operation> &ternary_ops() {
  static const std::vector<Operation> ops{{"where", 3, Kind::where, [](Args &a) -> Variable { return var::where(a[0], a[1], a[2]); }},
      {"isclose", 4, Kind::close, [](Args &a) -> Variable { return var::isclose(a[0], a[1], a[2], a[3]); }},
      {"isclose_nan", 4, Kind::close, [](Args &a) -> Variable { return var::isclose(a[0], a[1], a[2], a[3], var::NanComparisons::Equal); }}};
  return ops;
}
// Mostly fitting operand types and specs for an operation.
struct Operand {
  DType type = dtype<double>;
  Spec spec;
};
inline std::vector<Operand> rand_operands(Rng &rng, const Operation &op) {
  std::vector<Operand> out(size_t(op.arity));
  DType same = dtype<double>;
  const bool wild = rng.chance(1, 12); // ill-fitting types and units
  const auto common = rng.pick({units::one, units::m, units::counts, units::s});
  const auto common_type = rng.chance(1, 2) ? rand_numeric(rng) : dtype<double>;
  for (size_t i = 0; i < out.size(); ++i) {
    auto &o = out[i];
    o.spec.unit = common;
    o.type = rng.chance(2, 3) ? common_type : rand_numeric(rng);
    o.spec.specials = rng.chance(1, 3);
    switch (op.kind) {
    case Kind::any:
      if (rng.chance(1, 4)) {
        if (i == 0)
          same = rand_dtype(rng);
        o.type = same;
      }
      o.spec.small = rng.chance(1, 2) ? 2 : 0;
      break;
    case Kind::floating:
      o.type = rng.pick({dtype<double>, dtype<double>, dtype<float>});
      if (op.arity == 1)
        o.spec.unit = rng.chance(2, 3) ? units::one : common;
      if (i == 1)
        o.type = out[0].type;
      break;
    case Kind::angle:
      o.type = rng.pick({dtype<double>, dtype<float>});
      o.spec.unit = rng.pick({units::rad, units::rad, units::deg});
      break;
    case Kind::number:
      if (op.pow) {
        o.spec.unit = i == 0 ? rng.pick({units::one, units::one, units::m}) : units::one;
        if (i == 1)
          o.spec.small = 3, o.spec.positive = !rng.chance(1, 4);
        else if (o.type == dtype<int64_t> || o.type == dtype<int32_t>)
          o.spec.small = 9;
      } else if (op.name.rfind("mult", 0) == 0 && rng.chance(1, 2))
        o.spec.unit = i == 0 ? common : units::one;
      else if (rng.chance(1, 12) && !op.in_place)
        o.type = i == 0 ? dtype<time_point> : dtype<int64_t>, o.spec.unit = units::ns;
      if (op.in_place && i == 0 && rng.chance(1, 2))
        o.type = dtype<double>;
      break;
    case Kind::divide:
      if (op.in_place && i == 0 && op.name == "divide_equals")
        o.type = rng.pick({dtype<double>, dtype<float>});
      break;
    case Kind::integer:
      o.type = rng.pick({dtype<int64_t>, dtype<int32_t>});
      break;
    case Kind::boolean:
      o.type = dtype<bool>;
      o.spec.unit = units::none;
      break;
    case Kind::vector:
      o.type = dtype<Vec3>;
      break;
    case Kind::transform:
      if (i == 0) {
        o.type = rng.pick({dtype<Mat3>, dtype<Aff3>, dtype<Quaternion>, dtype<Translation>});
        o.spec.unit = o.type == dtype<Aff3> || o.type == dtype<Translation> ? units::m : units::one;
      } else {
        o.type = rng.pick({dtype<Vec3>, dtype<Vec3>, dtype<Mat3>, dtype<Aff3>, dtype<Quaternion>, dtype<Translation>});
        o.spec.unit = o.type == dtype<Mat3> || o.type == dtype<Quaternion> ? units::one : units::m;
      }
      break;
    case Kind::where:
      if (i == 0)
        o.type = dtype<bool>, o.spec.unit = units::none;
      else
        o.type = i == 2 ? out[1].type : rng.pick({dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>, dtype<bool>, dtype<time_point>, dtype<Vec3>});
      break;
    case Kind::close:
      o.type = i < 2 || rng.chance(1, 3) ? common_type : dtype<double>;
      o.spec.unit = i == 2 ? units::one : common;
      o.spec.small = rng.chance(1, 2) ? 3 : 0;
      o.spec.positive = i >= 2;
      break;
    case Kind::to_num:
      o.type = i == 0 ? rng.pick({dtype<double>, dtype<float>}) : out[0].type;
      o.spec.specials = i == 0;
      break;
    }
    if (wild) {
      o.type = rng.chance(1, 2) ? o.type : rand_dtype(rng);
      o.spec.unit = rng.pick({o.spec.unit, units::one, units::none, units::m, units::s});
    }
    const bool floating = o.type == dtype<double> || o.type == dtype<float>;
    o.spec.variances = floating && rng.chance(op.name == "variances" || op.name == "stddevs" ? 4 : 1, 5);
    if (op.name == "isclose" || op.name == "isclose_nan")
      o.spec.variances = floating && i < 2 && (i == 0 ? rng.chance(1, 6) : out[0].spec.variances);
  }
  return out;
}
} // namespace vf
