// C11: element-wise operations do not depend on layout.  Oracle: the same
// operation on zero-dimensional copies of the operand elements, read from raw
// memory, for every position.
#include "ops.h"

using namespace vf;

namespace {
bool variance_broadcast(const Dimensions &dims, const Variable &v, const bool has_variances) {
  if (!has_variances)
    return false;
  if (dims.ndim() > v.dims().ndim())
    return true;
  if (dims.volume() == 0)
    return false;
  for (const auto s : v.strides())
    if (s == 0)
      return true;
  return false;
}
bool elem_variances(const Variable &v) { return is_binned(v) ? v.bin_buffer<Variable>().has_variances() : v.has_variances(); }
const Variable &elements(const Variable &v) { return is_binned(v) ? v.bin_buffer<Variable>() : v; }

// bins with the sizes of `like` in another memory layout
Variable bins_like(Rng &rng, const DType type, const Variable &like, const Spec &s) {
  const Dim event = rng.chance(1, 2) ? Dim("event") : Dim("verif-event");
  const auto dims = shuffled(rng, like.dims());
  auto indices = blank<scipp::index_pair>(rng, dims, units::none, false);
  auto at = indices_of(dims);
  if (rng.chance(1, 2))
    rng.shuffle(at);
  int64_t pos = rng.in(0, 2);
  const bool wrong = rng.chance(1, 25);
  for (const auto &i : at) {
    const auto [b, e] = raw_range(like, i);
    raw_set<scipp::index_pair>(indices, i, {pos, pos + e - b});
    pos += e - b + (rng.chance(1, 4) ? 1 : 0);
  }
  if (wrong && !at.empty()) {
    const auto i = rng.pick(at);
    const auto [b, e] = raw_value<scipp::index_pair>(indices, i);
    if (e > b)
      raw_set<scipp::index_pair>(indices, i, {b, e - 1});
  }
  auto buffer = for_dtype(type, [&](auto tag) {
    using T = typename decltype(tag)::type;
    return rand_typed<T>(rng, Dimensions(event, pos + rng.in(0, 2)), s, true);
  });
  return variable::make_bins_no_validate(indices, event, buffer);
}

std::string kind_of(const std::optional<std::string> &e) { return e ? e->substr(0, 60) : "none"; }

void check_op(Rng &rng, const Operation &op, const bool binned) {
  const auto spec = rand_operands(rng, op);
  const auto full = rand_dims(rng, rng.chance(1, 6) ? 4 : 3, rng.chance(1, 20) ? 40 : 4);
  Args args;
  const bool any_variances = [&] {
    for (const auto &o : spec)
      if (o.spec.variances)
        return true;
    return false;
  }();
  for (size_t i = 0; i < spec.size(); ++i) {
    auto dims = full;
    if (i > 0 || !op.in_place)
      dims = rng.chance(1, 3) ? shuffled(rng, full) : full;
    const bool keep = spec[i].spec.variances && !rng.chance(1, 8);
    if (!keep && (i > 0 || !op.in_place) && rng.chance(1, 2))
      dims = sub_dims(rng, full);
    if (rng.chance(1, 40) && !dims.empty()) // mismatching length
      dims.resize(dims.inner(), dims[dims.inner()] + 1);
    const bool make_binned = binned && (i == 0 ? rng.chance(4, 5) : rng.chance(1, 2)) && (i == 0 || is_binned(args[0]) || rng.chance(1, 2));
    if (make_binned) {
      if (i > 0 && is_binned(args[0]) && !rng.chance(1, 20))
        args.push_back(bins_like(rng, spec[i].type, args[0], spec[i].spec));
      else
        args.push_back(rand_bins(rng, spec[i].type, dims, spec[i].spec));
    } else if (i == 0 && op.in_place)
      args.push_back(for_dtype(spec[i].type, [&](auto tag) {
        using T = typename decltype(tag)::type;
        auto v = blank<T>(rng, dims, spec[i].spec.unit, spec[i].spec.variances);
        copy(rand_typed<T>(rng, dims, spec[i].spec, true), v);
        return v;
      }));
    else if (rng.chance(any_variances ? 0 : 1, 10))
      args.push_back(variable::broadcast(rand_var(rng, spec[i].type, sub_dims(rng, dims), spec[i].spec), dims));
    else
      args.push_back(rand_var(rng, spec[i].type, dims, spec[i].spec));
  }
  std::string what = op.name;
  for (const auto &a : args)
    what += " | " + describe(a);
  // ---- prediction of refusal from shapes
  std::optional<std::string> refuse;
  Dimensions dims;
  try {
    dims = args[0].dims();
    for (size_t i = 1; i < args.size(); ++i)
      dims = op.name == "where" ? merge(dims, args[i].dims()) : merge(dims, args[i].dims());
    if (op.in_place)
      for (const auto &a : args)
        if (!args[0].dims().includes(a.dims()))
          refuse = "DimensionError";
  } catch (const except::DimensionError &) {
    refuse = "DimensionError";
  }
  if (op.in_place && elements(args[0]).is_readonly()) // events in a broadcast buffer share memory
    refuse = "VariableError";
  const bool any_bins = std::any_of(args.begin(), args.end(), is_binned);
  bool variances_trouble = false; // judged below, precedence of errors is not specified
  // these do not combine variances, so broadcasting is fine
  static const std::set<std::string> forced{"values", "variances", "stddevs", "where", "equal", "not_equal", "less", "greater", "less_equal",
                                            "greater_equal", "nan_to_num", "pos_inf_to_num", "neg_inf_to_num"};
  if (!refuse && !forced.count(op.name))
    for (size_t i = 0; i < args.size(); ++i) {
      const bool target = op.in_place && i == 0;
      if (!target && variance_broadcast(dims, args[i], elem_variances(args[i])))
        variances_trouble = true;
      if (any_bins && !is_binned(args[i]) && args[i].has_variances())
        variances_trouble = true;
    }
  if (op.in_place && any_bins && !is_binned(args[0]))
    refuse = "exception";
  if (op.pow) {
    if (is_binned(args[1]))
      refuse = "exception";
    if (elements(args[0]).unit() != units::one && args[1].dims().ndim() != 0)
      refuse = "DimensionError";
    // copying makes an explicit broadcast concrete, so the base is no longer
    // broadcast when the operation looks at it
    if (elements(args[0]).unit() != units::one && args[1].dims().ndim() == 0)
      variances_trouble = elem_variances(args[1]) || (is_binned(args[0]) && elem_variances(args[1]));
  }
  const auto sizes_at = [&](const IndexMap &at) -> int64_t { // -1: no bins, -2: mismatch
    int64_t n = -1;
    for (const auto &a : args)
      if (is_binned(a)) {
        const auto [b, e] = raw_range(a, at);
        if (n >= 0 && e - b != n)
          return -2;
        n = e - b;
      }
    return n;
  };
  // ---- expected elements by position
  std::vector<std::vector<std::string>> expected;
  std::optional<Variable> proto;
  std::optional<std::string> scalar_error;
  const auto scalar = [&](const Args &cells) -> std::optional<Variable> {
    Args c = cells;
    std::optional<Variable> r;
    const auto e = error_of([&] { r = op.run(c); });
    if (e) {
      scalar_error = e;
      return std::nullopt;
    }
    return r;
  };
  const auto default_cell = [&](const Variable &a) {
    return for_dtype(elements(a).dtype(), [&](auto tag) {
      using T = typename decltype(tag)::type;
      if constexpr (core::canHaveVariances<T>())
        if (elem_variances(a))
          return makeVariable<T>(Dimensions{}, elements(a).unit(), Values{T(1)}, Variances{T(1)});
      return makeVariable<T>(Dimensions{}, elements(a).unit());
    });
  };
  if (!refuse) {
    if (dims.volume() > 0)
      for (const auto &at : indices_of(dims)) {
        const auto n = sizes_at(at);
        if (n == -2) {
          refuse = "exception";
          break;
        }
        std::vector<std::string> row;
        for (int64_t k = 0; k < (n < 0 ? 1 : n); ++k) {
          Args cells;
          for (const auto &a : args) {
            if (is_binned(a)) {
              const Dim d = std::get<1>(a.constituents<Variable>());
              cells.push_back(cell(a.bin_buffer<Variable>(), {{d, raw_range(a, at).first + k}}));
            } else
              cells.push_back(cell(a, at));
          }
          if (const auto r = scalar(cells); r) {
            row.push_back(text_at(*r, {}));
            proto = *r;
          } else
            break;
        }
        if (scalar_error)
          break;
        expected.push_back(row);
      }
    if (!proto && !scalar_error && !refuse) { // no elements at all
      Args cells;
      for (const auto &a : args)
        cells.push_back(a.dims().ndim() == 0 && !is_binned(a) ? cell(a, {}) : default_cell(a));
      proto = scalar(cells);
    }
  }
  // ---- the operation itself
  std::vector<Content> before;
  for (const auto &a : args)
    before.push_back(content(a));
  Args given = args;
  std::optional<Variable> result;
  const auto error = error_of([&] { result = op.run(given); });
  CHECK("documented-error", !error || error->find("bad_") == std::string::npos, what << ": " << *error);
  for (size_t i = op.in_place ? 1 : 0; i < args.size(); ++i)
    CHECK("operand-changed", content(args[i]) == before[i], what << ": operand " << i << " became " << describe(args[i]));
  if (variances_trouble && !refuse && (op.arity == 4 || (op.pow && dims.volume() == 0)) && !error) {
    // composed of several operations, some of which do not look at variances
  } else if (refuse || variances_trouble) {
    obs("refused-" + std::string(variances_trouble && !refuse ? "variances" : "shape"));
    CHECK("accepted", bool(error), what << ": accepted, gave " << describe(*result));
    return;
  }
  if (scalar_error) {
    obs("refused-scalar");
    CHECK("accepted-unlike-scalar", bool(error), what << ": scalars refused with " << *scalar_error << " but the arrays gave " << describe(*result));
    if (dims.volume() > 0 && !op.pow && !op.in_place) // precedence of errors differs in place
      CHECK("error-kind", kind_of(error).substr(0, 9) == kind_of(scalar_error).substr(0, 9), what << ": " << *error << " but for scalars " << *scalar_error);
    return;
  }
  if (op.in_place && proto && proto->unit() != elements(args[0]).unit() && (args[0].is_slice() || elements(args[0]).is_slice())) {
    obs("refused-unit-of-slice"); // a part must not change the unit of the whole
    CHECK("accepted-unit-of-slice", error && error->rfind("UnitError", 0) == 0, what << ": changing the unit of a slice gave " << kind_of(error));
    return;
  }
  if (op.pow && any_bins && error && error->find("negative powers") != std::string::npos)
    for (const auto &at : indices_of(args[1].dims()))
      if (text_at(args[1], at).rfind("-", 0) == 0) {
        obs("refused-negative-power"); // even if all bins at that position are empty
        return;
      }
  CHECK("refused", !error, what << ": refused with " << *error << " although every scalar operation succeeds");
  nontrivial(what);
  obs("accepted-" + op.name);
  const auto &r = *result;
  if (op.arity == 4) // composed of several operations, order of dimensions unspecified
    CHECK("dims", r.dims().includes(dims) && dims.includes(r.dims()), what << ": dims " << show(r.dims()) << " instead of " << show(dims));
  else
    CHECK("dims", r.dims() == dims, what << ": dims " << show(r.dims()) << " instead of " << show(dims));
  CHECK("binned", is_binned(r) == any_bins, what << ": result " << describe(r));
  const auto &re = elements(r);
  if (proto) {
    CHECK("unit", re.unit() == proto->unit(), what << ": unit " << re.unit().name() << " but scalars give " << proto->unit().name());
    CHECK("dtype", re.dtype() == proto->dtype(), what << ": " << core::to_string(re.dtype()) << " but scalars give " << core::to_string(proto->dtype()));
    CHECK("variances", re.has_variances() == proto->has_variances(), what << ": variances " << re.has_variances() << " unlike scalars");
  }
  size_t p = 0;
  each_index(dims, [&](const IndexMap &at) {
    const auto got = any_bins ? events_text(r, at) : std::vector<std::string>{text_at(r, at)};
    CHECK("element", got == expected[p], what << ": at " << show(at) << " got " << vec(got) << " expected " << vec(expected[p]));
    obs(any_bins ? "bins-compared" : "elements-compared", got.size());
    ++p;
  });
}
} // namespace

SUITE(unary) { check_op(rng, rng.pick(unary_ops()), false); }
SUITE(binary) { check_op(rng, rng.pick(binary_ops()), false); }
SUITE(many) { check_op(rng, rng.pick(ternary_ops()), false); }
SUITE(binned) { check_op(rng, rng.chance(1, 3) ? rng.pick(unary_ops()) : rng.pick(binary_ops()), true); }
