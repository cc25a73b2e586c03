// C12: in-place operations change their target, all of it, and nothing else.
// Oracle: snapshots of whole buffers, 0-D operations on copies of the elements
// as they were before, and element-wise expectations for copies into slices.
#include "gen_ds.h"
#include "ops.h"
#include "scipp/dataset/add_equals.h"
#include "scipp/dataset/divide_equals.h"
#include "scipp/dataset/multiply_equals.h"
#include "scipp/dataset/subtract_equals.h"

using namespace vf;

namespace {
const Variable &elements(const Variable &v) { return is_binned(v) ? v.bin_buffer<Variable>() : v; }
std::string kind_of(const std::optional<std::string> &e) { return e ? e->substr(0, 90) : "none"; }

// one square variable and views of it that overlap each other
struct Shared {
  Variable whole;
  int64_t n;
};
Shared shared_square(Rng &rng, const DType type, const Spec &s) {
  const auto n = rng.in(2, 5);
  Dimensions d;
  d.addInner(vdim(0), n);
  d.addInner(vdim(1), n);
  if (rng.chance(1, 4))
    d.addInner(vdim(2), rng.in(1, 3));
  return {for_dtype(type, [&](auto tag) { return rand_typed<typename decltype(tag)::type>(rng, d, s, true); }), n};
}
Variable window(Rng &rng, const Variable &v, const int64_t n, const int64_t m, const bool target) {
  auto out = v;
  const auto a = rng.in(0, n - m), b = rng.in(0, n - m);
  out = out.slice({vdim(0), a, a + m});
  if (!target && rng.chance(1, 4))
    out = out.slice({vdim(1), b});
  else
    out = out.slice({vdim(1), b, b + m});
  if (out.dims().contains(vdim(2)) && !target && rng.chance(1, 3))
    out = out.slice({vdim(2), rng.in(0, out.dims()[vdim(2)] - 1)});
  if (rng.chance(1, 3) && out.dims().contains(vdim(1))) { // swap the labels: a transposed view
    out = out.rename_dims({{vdim(0), Dim("tmp")}});
    out = out.rename_dims({{vdim(1), vdim(0)}});
    out = out.rename_dims({{Dim("tmp"), vdim(1)}});
  }
  if (target && rng.chance(1, 3) && out.dims().ndim() > 1) {
    std::vector<Dim> l(out.dims().labels().begin(), out.dims().labels().end());
    rng.shuffle(l);
    out = out.transpose(l);
  }
  return out;
}
std::vector<const Operation *> in_place_ops() {
  std::vector<const Operation *> out;
  for (const auto &op : binary_ops())
    if (op.in_place)
      out.push_back(&op);
  return out;
}
std::vector<std::string> raw_memory(const Variable &whole) { return content(whole).cells; }

template <class T> const void *address(const Variable &v, const IndexMap &at) { return v.values<T>().data() + flat_offset(v, at); }

// positions of `whole` (row-major, contiguous) addressed by the view
std::map<size_t, IndexMap> addressed(const Variable &whole, const Variable &view) {
  std::map<size_t, IndexMap> out;
  for_dtype(whole.dtype(), [&](auto tag) {
    using T = typename decltype(tag)::type;
    const auto base = reinterpret_cast<const char *>(std::as_const(whole).values<T>().data());
    each_index(view.dims(), [&](const IndexMap &at) {
      out[size_t(reinterpret_cast<const char *>(std::as_const(view).values<T>().data() + flat_offset(view, at)) - base) / sizeof(T)] = at;
    });
  });
  return out;
}
} // namespace

// ---- target and operand are overlapping views of one buffer, or unrelated
SUITE(dense) {
  static const auto ops = in_place_ops();
  const auto &op = *rng.pick(ops);
  auto spec = rand_operands(rng, op);
  const bool alias = rng.chance(2, 3);
  if (alias) {
    spec[1] = spec[0];
    spec[0].spec.variances = spec[1].spec.variances = rng.chance(1, 6) && spec[0].type != dtype<bool> && core::canHaveVariances<double>() && (spec[0].type == dtype<double> || spec[0].type == dtype<float>);
  }
  Variable whole, target, operand;
  if (alias) {
    const auto sh = shared_square(rng, spec[0].type, spec[0].spec);
    whole = sh.whole;
    const auto m = rng.in(1, sh.n);
    target = window(rng, whole, sh.n, m, true);
    operand = rng.chance(1, 10) ? target : window(rng, whole, sh.n, m, false);
  } else {
    const auto dims = rand_dims(rng);
    target = for_dtype(spec[0].type, [&](auto tag) {
      using T = typename decltype(tag)::type;
      auto v = blank<T>(rng, dims, spec[0].spec.unit, spec[0].spec.variances, &whole);
      for (const auto &[i, at] : addressed(whole, v)) {
        *(v.template values<T>().data() + flat_offset(v, at)) = rand_elem<T>(rng, spec[0].spec);
        if constexpr (core::canHaveVariances<T>())
          if (v.has_variances())
            *(v.template variances<T>().data() + flat_offset(v, at)) = nonneg<T>(rng);
      }
      return v;
    });
    auto od = rng.chance(2, 3) ? sub_dims(rng, dims) : dims;
    if (rng.chance(1, 20))
      od.addInner(Dim("verif-extra"), 2);
    operand = rand_var(rng, spec[1].type, od, spec[1].spec);
  }
  const bool readonly = rng.chance(1, 25);
  if (readonly)
    target = target.as_const();
  const auto what = op.name + (alias ? " aliased " : " ") + describe(target) + " and " + describe(operand);
  const auto before = raw_memory(whole);
  const auto unit = whole.unit();
  const auto operand_before = full(operand);
  // expectation
  std::map<size_t, std::string> expected;
  std::optional<std::string> scalar_error;
  std::optional<units::Unit> new_unit;
  if (target.dims().includes(operand.dims()))
    for (const auto &[i, at] : addressed(whole, target)) {
      Args cells{cell(target, at), cell(operand, at)};
      scalar_error = error_of([&] { op.run(cells); });
      if (scalar_error)
        break;
      expected[i] = text_at(cells[0], {});
      new_unit = cells[0].unit();
    }
  Args args{target, operand};
  const auto error = error_of([&] { op.run(args); });
  const auto after = raw_memory(whole);
  if (!alias)
    CHECK("operand-changed", full(operand) == operand_before, what << ": operand became " << describe(operand));
  if (error) {
    obs("failed");
    CHECK("partial", after == before, what << ": failed (" << *error << ") but the data became " << vec(after) << " from " << vec(before));
    CHECK("partial-unit", whole.unit() == unit && target.unit() == unit, what << ": failed (" << *error << ") but the unit became " << whole.unit().name());
    nontrivial(what);
    return;
  }
  CHECK("readonly", !readonly, what << ": wrote through a read-only view");
  if (!target.dims().includes(operand.dims()))
    fail("accepted", what + ": operand has more dimensions than the target");
  CHECK("accepted", !scalar_error, what << ": scalars fail with " << *scalar_error);
  if (new_unit) {
    CHECK("unit", target.unit() == *new_unit, what << ": unit " << target.unit().name() << " instead of " << new_unit->name());
    CHECK("slice-unit", whole.unit() == *new_unit, what << ": part changed the unit of the whole");
  }
  for (size_t i = 0; i < after.size(); ++i) {
    const auto it = expected.find(i);
    const bool same_object = alias && target.has_variances() && operand.dims() == target.dims() && it != expected.end() &&
                             target.is_same(operand);
    if (it != expected.end() && !same_object)
      CHECK("element", after[i] == it->second, what << ": element " << i << " became " << after[i] << " instead of " << it->second << ", before " << vec(before));
    else if (it == expected.end())
      CHECK("outside", after[i] == before[i], what << ": element " << i << " outside the target changed from " << before[i] << " to " << after[i]);
  }
  obs(alias ? "aliased" : "unrelated");
  obs("outside-checked", after.size() - expected.size());
  nontrivial(what);
}

// ---- results written into an output argument
SUITE(out_argument) {
  struct Out {
    std::string name;
    const Operation *op;
    std::function<void(const Args &, Variable &)> run;
  };
  const auto find = [](const std::vector<Operation> &t, const std::string &n) -> const Operation * {
    for (const auto &o : t)
      if (o.name == n)
        return &o;
    return nullptr;
  };
#define O1(NAME) Out{#NAME, find(unary_ops(), #NAME), [](const Args &a, Variable &out) { var::NAME(a[0], out); }}
#define O2(NAME) Out{#NAME, find(binary_ops(), #NAME), [](const Args &a, Variable &out) { var::NAME(a[0], a[1], out); }}
  static const std::vector<Out> outs{O1(abs), O1(exp), O1(log), O1(log10), O1(reciprocal), O1(sqrt), O1(floor), O1(ceil), O1(rint),
      O1(sin), O1(cos), O1(tan), O1(asin), O1(acos), O1(atan), O1(sinh), O1(cosh), O1(tanh), O1(asinh), O1(acosh), O1(atanh),
     
      O2(atan2), O2(pow), O2(nan_to_num)};
  const auto &o = rng.pick(outs);
  const auto spec = rand_operands(rng, *o.op);
  const auto dims = rand_dims(rng, 2);
  Args args;
  for (const auto &s : spec)
    args.push_back(rand_var(rng, s.type, args.empty() || s.spec.variances || rng.chance(1, 2) ? dims : sub_dims(rng, dims), s.spec));
  std::optional<Variable> reference;
  Args given = args;
  const auto ref_error = error_of([&] { reference = o.op->run(given); });
  // the output: fitting, ill-fitting, or one of the operands
  Variable whole, out;
  // converting what an integer cannot hold to an integer is undefined
  const auto is_integer = [](const DType t) { return t != dtype<double> && t != dtype<float>; };
  const bool any_float = std::any_of(args.begin(), args.end(), [&](auto &a) { return !is_integer(a.dtype()); });
  const bool any_integer = std::any_of(args.begin(), args.end(), [&](auto &a) { return is_integer(a.dtype()); });
  const bool alias = rng.chance(1, 4) && !(any_float && any_integer);
  const bool fits = reference && rng.chance(2, 3);
  auto type = fits ? reference->dtype() : rand_numeric(rng);
  if (any_float && is_integer(type))
    type = dtype<double>;
  const bool variances = fits ? reference->has_variances() : rng.chance(1, 4) && (type == dtype<double> || type == dtype<float>);
  if (alias) {
    // an output shared by the first or second operand
    auto &a = args[size_t(rng.in(0, int64_t(args.size()) - 1))];
    a = copy(a);
    out = a;
    whole = a;
  } else {
    Spec s;
    s.unit = rng.chance(1, 2) ? units::one : units::m;
    s.variances = variances;
    auto od = rng.chance(1, 15) ? rand_dims(rng, 2) : dims;
    out = for_dtype(type, [&](auto tag) { return blank<typename decltype(tag)::type>(rng, od, s.unit, variances, &whole); });
  }
  const auto what = o.name + " into " + (alias ? "an operand: " : "") + describe(out) + " from " + describe(args[0]) + (args.size() > 1 ? " and " + describe(args[1]) : "");
  const auto before = raw_memory(whole);
  const auto unit = whole.unit();
  std::vector<std::string> operands_before;
  for (const auto &a : args)
    operands_before.push_back(full(a));
  const auto error = error_of([&] { o.run(args, out); });
  if (error) {
    obs("failed");
    CHECK("partial", raw_memory(whole) == before && whole.unit() == unit, what << ": failed (" << *error << ") but the output changed to " << describe(whole));
    nontrivial(what);
    return;
  }
  for (size_t i = 0; i < args.size(); ++i)
    if (!args[i].is_same(out))
      CHECK("operand-changed", full(args[i]) == operands_before[i], what << ": operand " << i << " changed");
  if (!reference) {
    obs("accepted-unlike-value"); // e.g. variances of the output decide
    return;
  }
  if (out.dtype() == reference->dtype() && out.has_variances() == reference->has_variances() && out.dims().includes(reference->dims())) {
    const auto expected = content(reference->dims() == out.dims() ? *reference : copy(variable::broadcast(*reference, out.dims())));
    const auto got = content(out);
    CHECK("result", got.cells == expected.cells, what << ": got " << got.text() << " instead of " << expected.text());
    CHECK("result-unit", out.unit() == reference->unit(), what << ": unit " << out.unit().name() << " instead of " << reference->unit().name());
    const auto in = addressed(whole, out);
    const auto after = raw_memory(whole);
    for (size_t i = 0; i < after.size(); ++i)
      if (!in.count(i))
        CHECK("outside", after[i] == before[i], what << ": element " << i << " outside the output changed");
    obs(alias ? "out-aliased" : "out-written");
    nontrivial(what);
  } else
    obs("out-other-type");
}

// ---- copies into slices
SUITE(assignment) {
  const auto type = rand_dtype(rng);
  const auto big = rand_dims(rng, 3, 4, false);
  if (big.empty())
    return;
  Spec s;
  s.unit = units::m;
  s.variances = (type == dtype<double> || type == dtype<float>)&&rng.chance(1, 3);
  if (type != dtype<double> && type != dtype<float> && type != dtype<int64_t> && type != dtype<int32_t> && type != dtype<Vec3>)
    s.unit = units::one;
  auto whole = for_dtype(type, [&](auto tag) { return rand_typed<typename decltype(tag)::type>(rng, big, s, true); });
  const auto d = big.labels()[size_t(rng.in(0, big.ndim() - 1))];
  const auto b = rng.in(0, big[d] - 1);
  const auto slice = rng.chance(1, 3) ? core::Slice(d, b) : core::Slice(d, b, rng.in(b, big[d]));
  const auto target = whole.slice(slice);
  Variable source;
  const bool alias = rng.chance(1, 4);
  if (alias) {
    const auto n = slice.end() == -1 ? 1 : slice.end() - slice.begin();
    const auto c = rng.in(0, big[d] - n);
    source = slice.end() == -1 ? whole.slice({d, c}) : whole.slice({d, c, c + n});
  } else {
    auto t = s;
    if (rng.chance(1, 12))
      t.variances = !t.variances && (type == dtype<double> || type == dtype<float>);
    if (rng.chance(1, 12))
      t.unit = units::kg;
    auto sd = rng.chance(1, 3) ? sub_dims(rng, target.dims()) : shuffled(rng, target.dims());
    if (rng.chance(1, 15))
      sd.addInner(Dim("verif-extra"), 2);
    source = rand_var(rng, rng.chance(1, 12) ? rand_dtype(rng) : type, sd, t);
  }
  const auto what = STR("set " << d.name() << ' ' << slice.begin() << ':' << slice.end() << " of " << describe(whole) << " to " << (alias ? "own " : "") << describe(source));
  const auto before = raw_memory(whole);
  const auto unit = whole.unit();
  const auto source_before = full(source);
  std::map<size_t, std::string> expected;
  if (target.dims().includes(source.dims()))
    for (const auto &[i, at] : addressed(whole, target))
      expected[i] = text_at(source, at);
  auto w = whole;
  const int way = int(rng.in(0, 1));
  const auto error = error_of([&] {
    if (way == 0)
      w.setSlice(slice, source);
    else {
      auto view = w.slice(slice);
      copy(source, view);
    }
  });
  const auto after = raw_memory(whole);
  if (!alias)
    CHECK("operand-changed", full(source) == source_before, what << ": source changed");
  const bool fits = target.dims().includes(source.dims()) && source.dtype() == type && source.unit() == unit && source.has_variances() == whole.has_variances();
  if (error) {
    CHECK("refused", !fits, what << ": refused with " << *error);
    CHECK("partial", after == before && whole.unit() == unit, what << ": failed (" << *error << ") but became " << describe(whole));
    obs("failed");
  } else {
    CHECK("accepted", fits || way == 1, what << ": accepted");
    CHECK("accepted", target.dims().includes(source.dims()), what << ": accepted");
    for (size_t i = 0; i < after.size(); ++i)
      if (expected.count(i))
        CHECK("element", after[i] == expected[i], what << ": element " << i << " became " << after[i] << " instead of " << expected[i]);
      else
        CHECK("outside", after[i] == before[i], what << ": element " << i << " outside the slice changed");
    obs(alias ? "set-aliased" : "set");
  }
  nontrivial(what);
}

// ---- binned targets
namespace {
Variable sized_bins(Rng &rng, const Dimensions &dims, const Variable *like, const Variable &buffer_source, const DType type, const Spec &s) {
  if (!like)
    return rand_bins(rng, type, dims, s);
  // other bins of the same sizes, in the given buffer if it is long enough
  auto indices = blank<scipp::index_pair>(rng, dims, units::none, false);
  int64_t total = 0;
  each_index(dims, [&](const IndexMap &at) { total += raw_range(*like, at).second - raw_range(*like, at).first; });
  Variable buffer = buffer_source;
  if (!buffer.is_valid() || buffer.dims()[Dim("event")] < total)
    buffer = for_dtype(type, [&](auto tag) { return rand_typed<typename decltype(tag)::type>(rng, Dimensions(Dim("event"), total + rng.in(0, 2)), s, true); });
  int64_t pos = rng.in(0, buffer.dims()[Dim("event")] - total);
  auto all = indices_of(dims);
  if (rng.chance(1, 2))
    rng.shuffle(all);
  const bool wrong = rng.chance(1, 12);
  for (const auto &at : all) {
    auto n = raw_range(*like, at).second - raw_range(*like, at).first;
    const auto len = wrong && n > 0 && rng.chance(1, 3) ? n - 1 : n;
    raw_set<scipp::index_pair>(indices, at, {pos, pos + len});
    pos += n;
  }
  return variable::make_bins_no_validate(indices, Dim("event"), buffer);
}
} // namespace

SUITE(binned) {
  static const auto ops = in_place_ops();
  const auto &op = *rng.pick(ops);
  auto spec = rand_operands(rng, op);
  const auto dims = rand_dims(rng, 2);
  auto ts = spec[0].spec;
  // bins in a buffer that can be written
  auto first = rand_bins(rng, spec[0].type, dims, ts);
  Variable buffer = std::get<2>(first.constituents<Variable>());
  if (buffer.is_readonly()) {
    buffer = copy(buffer);
    first = variable::make_bins_no_validate(first.bin_indices(), Dim("event"), buffer);
  }
  auto target = first;
  if (!dims.empty() && rng.chance(1, 3)) {
    const auto d = dims.labels()[0];
    const auto b = rng.in(0, dims[d]);
    target = first.slice({d, b, rng.in(b, dims[d])});
  }
  Variable operand;
  const auto how = rng.in(0, 4);
  if (how == 0)
    operand = rand_var(rng, spec[1].type, sub_dims(rng, target.dims()), {false, false, false, spec[1].spec.unit, spec[1].spec.small});
  else if (how == 1)
    operand = sized_bins(rng, target.dims(), &target, Variable{}, spec[1].type, spec[1].spec);
  else if (how == 2) {
    spec[1] = spec[0];
    operand = sized_bins(rng, target.dims(), &target, buffer, spec[0].type, ts); // other bins of the same buffer
  } else if (how == 3) {
    operand = target;
  } else
    operand = rand_bins(rng, spec[1].type, target.dims(), spec[1].spec);
  const auto what = op.name + (how == 2 ? " same buffer " : how == 3 ? " itself " : " ") + describe(target) + " buffer " + describe(buffer) + " and " + describe(operand);
  const auto before = raw_memory(copy(buffer));
  const auto unit = buffer.unit();
  const auto operand_before = full(operand);
  std::map<size_t, std::string> expected;
  bool misfit = !target.dims().includes(operand.dims());
  std::optional<std::string> scalar_error;
  std::optional<units::Unit> new_unit;
  if (!misfit)
    each_index(target.dims(), [&](const IndexMap &at) {
      const auto [b, e] = raw_range(target, at);
      if (is_binned(operand)) {
        const auto [b2, e2] = raw_range(operand, at);
        if (e2 - b2 != e - b)
          misfit = true;
      }
      if (misfit || scalar_error)
        return;
      for (auto k = b; k < e; ++k) {
        Args cells{cell(buffer, {{Dim("event"), k}}), is_binned(operand) ? cell(elements(operand), {{Dim("event"), raw_range(operand, at).first + k - b}}) : cell(operand, at)};
        scalar_error = error_of([&] { op.run(cells); });
        if (scalar_error)
          return;
        expected[size_t(k)] = text_at(cells[0], {});
        new_unit = cells[0].unit();
      }
    });
  Args args{target, operand};
  const auto error = error_of([&] { op.run(args); });
  const auto after = raw_memory(copy(buffer));
  if (how != 2 && how != 3)
    CHECK("operand-changed", full(operand) == operand_before, what << ": operand became " << describe(operand));
  if (error) {
    CHECK("partial", after == before && buffer.unit() == unit, what << ": failed (" << *error << ") but the events became " << vec(after) << " from " << vec(before));
    obs("failed");
    if (misfit)
      obs("failed-misfit");
  } else {
    CHECK("accepted", !misfit && !scalar_error, what << ": accepted");
    if (new_unit)
      CHECK("unit", elements(target).unit() == *new_unit, what << ": unit " << elements(target).unit().name());
    const bool correlated = how == 3 && buffer.has_variances();
    for (size_t i = 0; i < after.size(); ++i)
      if (!expected.count(i))
        CHECK("outside", after[i] == before[i], what << ": event " << i << " outside the bins changed from " << before[i]);
      else if (!correlated)
        CHECK("element", after[i] == expected[i], what << ": event " << i << " became " << after[i] << " instead of " << expected[i] << " before " << vec(before));
    obs(how == 2 ? "binned-same-buffer" : "binned-done");
  }
  nontrivial(what);
}

// ---- data arrays
namespace {
template <class A, class B> void arith(const int op, A &a, const B &b) {
  if (op == 0)
    a += b;
  else if (op == 1)
    a -= b;
  else if (op == 2)
    a *= b;
  else
    a /= b;
}
// an array that mostly fits as an operand for `a`
DataArray partner(Rng &rng, const DataArray &a, const bool sub = true) {
  ArraySpec s;
  s.type = rng.chance(1, 4) ? rand_numeric(rng) : dtype<double>;
  s.data.unit = rng.chance(1, 8) ? units::kg : a.unit();
  s.coords = false;
  s.attrs = false;
  const auto dims = sub && rng.chance(1, 3) ? sub_dims(rng, a.dims()) : rng.chance(1, 3) ? shuffled(rng, a.dims()) : a.dims();
  s.data.variances = rng.chance(1, 6) && (s.type == dtype<double> || s.type == dtype<float>);
  auto b = rand_array(rng, dims, s);
  for (const auto &[k, c] : a.coords())
    if (rng.chance(1, 2))
      try {
        b.coords().set(k, rng.chance(1, 15) ? c + c : copy(c));
      } catch (const std::exception &) {
      }
  if (rng.chance(1, 25))
    b.coords().set(Dim("verif-other"), makeVariable<double>(Dimensions{}));
  if (rng.chance(1, 20))
    b.masks().set("m0", makeVariable<double>(Dimensions{}, Values{1.0}));
  return b;
}
std::map<std::string, std::string> expected_masks(const Masks &a, const Masks &b) {
  std::map<std::string, std::string> out;
  for (const auto &[k, m] : a) {
    auto c = content(m);
    if (b.contains(k)) {
      size_t i = 0;
      each_index(m.dims(), [&](const IndexMap &at) {
        if (raw_value<bool>(b[k], at))
          c.cells[i] = "true";
        ++i;
      });
    }
    out[k] = c.text() + vec(c.cells);
  }
  for (const auto &[k, m] : b)
    if (!a.contains(k))
      out[k] = content(m).text() + vec(content(m).cells);
  return out;
}
std::map<std::string, std::string> texts(const Masks &a) {
  std::map<std::string, std::string> out;
  for (const auto &[k, m] : a)
    out[k] = content(m).text() + vec(content(m).cells);
  return out;
}
std::string coords_text(const DataArray &a) {
  std::string s;
  for (const auto &[k, x] : a.coords())
    s += k.name() + full(x);
  for (const auto &[k, x] : a.attrs())
    s += "attr" + k.name() + full(x);
  return s;
}
} // namespace

SUITE(arrays) {
  ArraySpec s;
  s.type = rng.chance(1, 4) ? rand_numeric(rng) : dtype<double>;
  s.data.unit = rng.pick({units::m, units::m, units::counts});
  s.data.variances = rng.chance(1, 4) && (s.type == dtype<double> || s.type == dtype<float>);
  const auto dims = rand_dims(rng, 3, 3, false);
  auto whole = rand_array(rng, dims, s, "name");
  if (whole.data().is_readonly())
    whole.setData(copy(whole.data()));
  auto target = whole;
  target = whole.view();
  const bool sliced = !dims.empty() && rng.chance(1, 3);
  if (sliced) {
    const auto d = dims.labels()[size_t(rng.in(0, dims.ndim() - 1))];
    const auto b = rng.in(0, dims[d] - 1);
    target = whole.slice(rng.chance(1, 2) ? core::Slice(d, b) : core::Slice(d, b, rng.in(b, dims[d])));
  }
  const auto op = int(rng.in(0, 3));
  auto other = partner(rng, target);
  const bool with_var = rng.chance(1, 4);
  const auto what = STR("operator " << op << (sliced ? " on slice of " : " on ") << brief(full(whole)) << "\n with " << (with_var ? describe(other.data()) : brief(full(other))));
  const auto before = full(whole), other_before = full(other);
  // expectation from copies
  auto data = copy(target.data());
  const auto data_error = error_of([&] { arith(op, data, copy(other.data())); });
  std::optional<std::map<std::string, std::string>> masks;
  if (!with_var)
    try {
      masks = expected_masks(target.masks(), other.masks());
    } catch (const Failure &) { // operand mask with more dimensions or of another type
    } catch (const std::exception &) {
    }
  const auto coords_before = coords_text(whole);
  const auto old_masks = texts(target.masks());
  const auto error = error_of([&] {
    if (with_var)
      arith(op, target, other.data());
    else
      arith(op, target, other);
  });
  CHECK("operand-changed", full(other) == other_before, what << ": operand changed");
  if (error) {
    CHECK("partial", full(whole) == before, what << ": failed (" << *error << ") but left " << diff(full(whole), before));
    obs("array-failed");
    nontrivial(what);
    return;
  }
  CHECK("accepted", !data_error, what << ": accepted, but the data alone fails with " << *data_error);
  CHECK("data", content(target.data()) == content(data), what << ": data " << content(target.data()).text() << " instead of " << content(data).text());
  CHECK("coords", coords_text(whole) == coords_before, what << ": coordinates changed");
  if (with_var)
    CHECK("masks", texts(target.masks()) == old_masks, what << ": masks changed");
  else {
    CHECK("masks-accepted", bool(masks), what << ": accepted although a mask does not fit");
    for (const auto &[k, m] : *masks) {
      CHECK("masks", target.masks().contains(k), what << ": mask " << k << " missing");
      const auto got = content(target.masks()[k]);
      CHECK("masks", got.text() + vec(got.cells) == m, what << ": mask " << k << " is " << got.text() << " instead of " << m);
    }
    CHECK("masks", size_t(target.masks().size()) == masks->size(), what << ": too many masks");
  }
  obs(sliced ? "array-slices" : "arrays");
  nontrivial(what);
}

// ---- whole datasets
SUITE(datasets) {
  ArraySpec s;
  s.type = rng.chance(1, 5) ? rand_numeric(rng) : dtype<double>;
  s.data.unit = units::m;
  s.edges = rng.chance(1, 2);
  const auto dims = rand_dims(rng, 2, 3, false);
  auto ds = rand_dataset(rng, dims, s, 4);
  for (const auto &n : names(ds)) // all writable
    if (ds[n].data().is_readonly())
      ds.setData(n, copy(ds[n].data()));
  const int sharing = int(rng.in(0, 3)); // some items are parts of one buffer
  if (sharing == 0 && !dims.empty()) {
    auto bd = dims;
    const auto d = dims.labels()[0];
    bd.resize(d, dims[d] * 2 + 1);
    const auto buffer = for_dtype(dtype<double>, [&](auto) { return rand_typed<double>(rng, bd, s.data, true); });
    ds.setData("a", buffer.slice({d, 0, dims[d]}));
    const auto start = dims[d] + rng.in(0, 1);
    ds.setData("b", buffer.slice({d, start, start + dims[d]}));
  }
  const auto op = int(rng.in(0, 3));
  const int form = int(rng.in(0, 2)); // Dataset, DataArray, Variable
  Dataset rhs;
  DataArray array;
  Variable variable;
  bool own = rng.chance(1, 3);
  const auto n = names(ds);
  if (form == 0) {
    if (own)
      rhs = ds;
    else {
      rhs = Dataset({}, {});
      rhs.setCoords(Coords(ds.sizes(), {}));
      for (const auto &k : n)
        if (rng.chance(2, 3))
          try {
            rhs.setData(k, partner(rng, ds[k], false));
          } catch (const std::exception &) {
          }
      if (rng.chance(1, 12))
        rhs.setData("unknown", partner(rng, ds[n[0]], false).data());
    }
  } else if (form == 1)
    array = own ? ds[rng.pick(n)] : partner(rng, ds[rng.pick(n)]);
  else {
    variable = own ? ds[rng.pick(n)].data() : partner(rng, ds[rng.pick(n)]).data();
    if (own && !variable.dims().empty() && rng.chance(1, 2))
      variable = variable.slice({variable.dims().labels()[0], 0});
  }
  const auto before = full(ds);
  const auto what = STR("dataset operator " << op << " form " << form << (own ? " own" : "") << (sharing == 0 ? " shared buffer" : "") << "\n" << brief(before) << "\n with "
                                            << (form == 0 ? brief(full(rhs)) : form == 1 ? brief(full(array)) : describe(variable)));
  std::map<std::string, std::string> expected;
  std::optional<std::string> item_error;
  for (const auto &k : n) {
    auto data = copy(ds[k].data());
    if (form == 0 && !rhs.contains(k)) {
      expected[k] = full(data);
      continue;
    }
    const auto operand = form == 0 ? copy(rhs[k].data()) : form == 1 ? copy(array.data()) : copy(variable);
    item_error = error_of([&] { arith(op, data, operand); });
    if (item_error)
      break;
    expected[k] = full(data);
  }
  const auto error = error_of([&] {
    if (form == 0)
      arith(op, ds, rhs);
    else if (form == 1)
      arith(op, ds, array);
    else
      arith(op, ds, variable);
  });
  if (error) {
    CHECK("partial", full(ds) == before, what << ": failed (" << *error << ") but left " << diff(full(ds), before));
    obs("dataset-failed");
    nontrivial(what);
    return;
  }
  CHECK("accepted", !item_error, what << ": accepted although an item fails with " << *item_error);
  for (const auto &k : n)
    CHECK("item", full(ds[k].data()) == expected[k], what << ": item " << k << " " << diff(full(ds[k].data()), expected[k]));
  obs(own ? "dataset-own" : "datasets");
  nontrivial(what);
}

// ---- assigning parts of data arrays and datasets
SUITE(collections) {
  ArraySpec s;
  s.data.unit = units::m;
  s.attrs = false;
  s.unaligned = rng.chance(1, 4);
  const auto dims = rand_dims(rng, 2, 4, false);
  if (dims.empty())
    return;
  auto ds = rand_dataset(rng, dims, s, 3);
  for (const auto &n : names(ds)) {
    if (ds[n].data().is_readonly())
      ds.setData(n, copy(ds[n].data()));
  }
  const auto n = names(ds);
  const auto d = dims.labels()[size_t(rng.in(0, dims.ndim() - 1))];
  const auto b = rng.in(0, dims[d] - 1);
  const auto slice = rng.chance(1, 3) ? core::Slice(d, b) : core::Slice(d, b, rng.in(b, dims[d]));
  const int form = int(rng.in(0, 3)); // array<-array, array<-variable, dataset<-array/variable/dataset
  const auto part = ds[n[0]].slice(slice);
  auto src = partner(rng, part);
  if (rng.chance(1, 15)) {
    auto x = src.dims();
    x.addInner(Dim("verif-extra"), 2);
    src = DataArray(rand_var(rng, dtype<double>, x, s.data));
  }
  if (rng.chance(1, 2)) // masks that exist
    for (const auto &k : std::vector<std::string>(src.masks().keys_begin(), src.masks().keys_end()))
      if (!part.masks().contains(k))
        src.masks().erase(k);
  Dataset src_ds({}, {});
  if (form == 3) {
    src_ds.setCoords(Coords(src.dims(), {}));
    for (const auto &k : n)
      if (!rng.chance(1, 12))
        try {
          src_ds.setData(k, partner(rng, ds[k].slice(slice), false));
        } catch (const std::exception &) {
        }
  }
  auto array = ds[n[0]];
  const auto before = full(ds);
  const auto src_before = full(src) + full(src_ds);
  const auto what = STR("form " << form << " set " << d.name() << ' ' << slice.begin() << ':' << slice.end() << " of " << brief(before) << "\n to " << brief(full(src)) << (form == 3 ? brief(full(src_ds)) : ""));
  const auto error = error_of([&] {
    if (form == 0)
      array.setSlice(slice, src);
    else if (form == 1)
      array.setSlice(slice, src.data());
    else if (form == 2) {
      if (rng.chance(1, 2))
        ds.setSlice(slice, src);
      else
        ds.setSlice(slice, src.data());
    } else
      ds.setSlice(slice, src_ds);
  });
  CHECK("operand-changed", full(src) + full(src_ds) == src_before, what << ": source changed");
  if (error) {
    CHECK("partial", full(ds) == before, what << ": failed (" << *error << ") but left " << diff(full(ds), before));
    obs("set-failed");
    nontrivial(what);
    return;
  }
  // the data of every touched item holds the source in the slice
  for (const auto &k : n) {
    if (form < 2 && k != n[0])
      continue;
    const auto &given = form == 3 ? src_ds[k].data() : src.data();
    const auto now = ds[k].data().slice(slice);
    each_index(now.dims(), [&](const IndexMap &at) {
      CHECK("element", text_at(now, at) == text_at(given, at), what << ": item " << k << " at " << show(at) << " is " << text_at(now, at) << " instead of " << text_at(given, at));
    });
  }
  obs("set-part");
  nontrivial(what);
}
