// C14: reductions equal a plain loop.  Oracle: the elements (or events) that
// belong to each output position are collected from raw memory, masks applied,
// and folded in long double / 128-bit integers / element by element.
#include "fold.h"

using namespace vf;

namespace {
struct Input {
  R r;
  const char *name;
  DType type;
  Spec spec;
};
Input rand_input(Rng &rng, const bool want_supported = true) {
  Input in;
  do {
    const auto &[r, name] = rng.pick(reductions);
    in.r = r;
    in.name = name;
    in.type = is_logical(r) && rng.chance(9, 10) ? dtype<bool> : rng.pick({dtype<double>, dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>, dtype<bool>, dtype<time_point>, dtype<Vec3>, dtype<std::string>});
  } while (supported(in.r, in.type) != want_supported);
  in.spec.variances = (in.type == dtype<double> || in.type == dtype<float>) && rng.chance(2, 5);
  in.spec.specials = rng.chance(1, 4);
  in.spec.small = rng.chance(1, 4) ? 3 : 0;
  in.spec.unit = in.type == dtype<bool> || in.type == dtype<std::string> ? (is_logical(in.r) || !is_mean(in.r) ? units::none : units::none) : in.type == dtype<time_point> ? units::Unit(units::ns) : rng.pick({units::one, units::m, units::Unit("counts")});
  return in;
}
bool mean_of_no_unit(const Input &in) { return is_mean(in.r) && in.spec.unit == units::none; }
} // namespace

SUITE(dense) {
  random_partition(rng);
  auto in = rand_input(rng);
  if (mean_of_no_unit(in))
    in.spec.unit = units::one;
  const auto v = rand_var(rng, in.type, rand_dims(rng, 4, rng.chance(1, 10) ? 30 : 5), in.spec);
  const auto before = full(v);
  const auto what = STR(in.name << ' ' << describe(v));
  if (broadcast_variances(v) && is_mean(in.r))
    return;
  if (rng.chance(1, 4)) {
    const auto out = reduce(in.r, v);
    check_result(in.type, in.r, v, {}, out, Dimensions{}, what + " over all", int(v.dims().ndim()));
    CHECK("unit", out.unit() == in.spec.unit, what << " has unit " << out.unit().name());
  } else if (!v.dims().empty()) {
    const auto d = v.dims().labels()[size_t(rng.in(0, v.dims().ndim() - 1))];
    auto dims = v.dims();
    dims.erase(d);
    const auto out = reduce(in.r, v, d);
    check_result(in.type, in.r, v, {}, out, dims, what + " over " + d.name(), 1);
    CHECK("unit", out.unit() == in.spec.unit, what << " has unit " << out.unit().name());
    // the result is not a view of the input
    if (out.dims().volume() > 0 && in.type != dtype<std::string>) {
      auto o = out;
      CHECK("fresh", !o.is_readonly(), what);
    }
  }
  CHECK("input-changed", full(v) == before, what);
  nontrivial(what);
}

SUITE(refusals) {
  const auto in = rand_input(rng, rng.chance(1, 3));
  const auto dims = rand_dims(rng, 3, 3);
  const auto v = rand_var(rng, in.type, dims, in.spec);
  const auto what = STR(in.name << ' ' << describe(v));
  const auto before = full(v);
  if (!supported(in.r, in.type)) {
    const auto d = dims.empty() ? vdim(0) : dims.labels().front();
    const auto e = error_of([&] { return void(reduce(in.r, v, d)); });
    if (dims.empty()) {
      CHECK("refusal", e.has_value(), what);
    } else if (is_sum(in.r) && ignores_nan(in.r) && (in.type == dtype<Vec3> || in.type == dtype<bool>)) {
      // whether NaN-ignoring forms exist for types without NaN is not specified
    } else {
      CHECK("refusal", e.has_value(), what << " did not fail");
      obs("type-refused");
    }
  } else {
    const auto e = error_of([&] { return void(reduce(in.r, v, vdim(6))); });
    CHECK("refusal", e.has_value(), what << " over a missing dimension gave " << e.value_or("no error"));
    const auto e2 = error_of([&] { return void(reduce(in.r, DataArray(v), vdim(6))); });
    CHECK("refusal", e2.has_value(), what << " over a missing dimension gave " << e2.value_or("no error"));
    obs("dim-refused");
  }
  CHECK("input-changed", full(v) == before, what);
  nontrivial(what);
}

// longer than the internal chunk sizes
SUITE(large) {
  random_partition(rng);
  auto in = rand_input(rng);
  if (mean_of_no_unit(in))
    in.spec.unit = units::one;
  if (in.type == dtype<Vec3>)
    in.type = dtype<double>;
  in.spec.small = rng.pick({2, 1000, 40000});
  std::vector<int> which{0, 1, 2};
  rng.shuffle(which);
  const auto a = rng.pick({int64_t(2), int64_t(23), int64_t(24), int64_t(25), int64_t(47), rng.in(1, 130), int64_t(16384), int64_t(17000)});
  const auto b = 16384 / a + rng.in(0, 3);
  Dimensions dims;
  dims.addInner(vdim(which[0]), rng.chance(1, 2) ? a : b);
  dims.addInner(vdim(which[1]), dims.volume() == a ? b : a);
  if (rng.chance(1, 4))
    dims.addInner(vdim(which[2]), 2);
  const auto v = rand_var(rng, in.type, dims, in.spec);
  if (broadcast_variances(v))
    return;
  const auto what = STR(in.name << ' ' << core::to_string(in.type) << show(dims) << " strides " << vec(std::vector<int64_t>(v.strides().begin(), v.strides().end())));
  if (rng.chance(1, 3)) {
    check_result(in.type, in.r, v, {}, reduce(in.r, v), Dimensions{}, what + " over all", int(dims.ndim()));
  } else {
    const auto d = dims.labels()[size_t(rng.in(0, dims.ndim() - 1))];
    auto rest = dims;
    rest.erase(d);
    if (rng.chance(1, 3) || in.type == dtype<bool>)
      check_result(in.type, in.r, v, {}, reduce(in.r, v, d), rest, what + " over " + d.name(), 1);
    else { // accumulating into something that is not neutral
      Spec s = in.spec;
      s.specials = false;
      auto acc = rand_var(rng, in.type, rest, s);
      if (!acc.is_readonly() && !is_mean(in.r)) {
        // model: the accumulator is one more slice
        auto ext = dims;
        ext.resize(d, dims[d] + 1);
        auto joined = for_dtype(in.type, [&](auto tag) {
          using T = typename decltype(tag)::type;
          auto j = s.variances ? Variable(dtype<T>, ext, s.unit, Values{}, Variances{}) : Variable(dtype<T>, ext, s.unit, Values{});
          copy(acc, j.slice({d, 0}));
          copy(v, j.slice({d, 1, dims[d] + 1}));
          return j;
        });
        switch (in.r) {
        case R::sum:
          sum_into(acc, v);
          break;
        case R::nansum:
          nansum_into(acc, v);
          break;
        case R::min:
          min_into(acc, v);
          break;
        case R::max:
          max_into(acc, v);
          break;
        case R::nanmin:
          nanmin_into(acc, v);
          break;
        case R::nanmax:
          nanmax_into(acc, v);
          break;
        case R::all:
          all_into(acc, v);
          break;
        default:
          any_into(acc, v);
        }
        check_result(in.type, in.r, joined, {}, acc, rest, what + " accumulated over " + d.name(), 1);
        obs("accumulated");
      }
    }
  }
  obs("large-inputs");
  nontrivial(what);
}

namespace {
std::vector<Variable> masks_on(const DataArray &a, const Dim d) {
  std::vector<Variable> out;
  for (const auto &[k, m] : a.masks())
    if (m.dims().contains(d))
      out.push_back(m);
  return out;
}
std::vector<Variable> masks_on(const DataArray &a) {
  std::vector<Variable> out;
  for (const auto &[k, m] : a.masks())
    if (!m.dims().empty())
      out.push_back(m);
  return out;
}
// everything but the data
std::string surroundings(const DataArray &a, const std::optional<Dim> dropped, const bool all = false) {
  std::string s; // names are not compared, the mean over all dims drops them
  std::map<std::string, std::string> parts;
  const auto keep = [&](const Variable &v) { return all ? v.dims().empty() : !dropped || !v.dims().contains(*dropped); };
  for (const auto &[k, x] : a.coords())
    if (keep(x))
      parts["coord " + k.name()] = full(x);
  for (const auto &[k, x] : a.masks())
    if (keep(x))
      parts["mask " + k] = full(x);
  for (const auto &[k, x] : a.attrs())
    if (keep(x))
      parts["attr " + k.name()] = full(x);
  for (const auto &[k, x] : parts)
    s += "\n  " + k + '=' + x;
  return s;
}
ArraySpec array_spec(const Input &in) {
  ArraySpec s;
  s.type = in.type;
  s.data = in.spec;
  return s;
}
} // namespace

SUITE(arrays) {
  random_partition(rng);
  auto in = rand_input(rng);
  if (mean_of_no_unit(in))
    in.spec.unit = units::one;
  auto s = array_spec(in);
  s.binned = rng.chance(1, 4);
  if (in.type == dtype<Vec3> && s.binned)
    s.binned = false;
  auto dims = rand_dims(rng, 3, 4);
  auto a = rand_array(rng, dims, s, "name");
  // more masks than rand_array makes
  for (int i = 0; i < 3; ++i)
    if (rng.chance(1, 3)) {
      const auto md = sub_dims(rng, dims);
      auto m = rand_var(rng, dtype<bool>, md, {false, false, false, units::none});
      if (rng.chance(1, 6))
        m = variable::broadcast(makeVariable<bool>(Dimensions{}, units::none, Values{true}), md);
      a.masks().set("extra" + std::to_string(i), m);
    }
  const auto before = full(a);
  const auto what = STR(in.name << ' ' << brief(before));
  const bool bins = s.binned;
  std::optional<Dim> dim;
  if (!dims.empty() && rng.chance(3, 4))
    dim = dims.labels()[size_t(rng.in(0, dims.ndim() - 1))];
  const auto masks = dim ? masks_on(a, *dim) : masks_on(a);
  auto rest = dim ? dims : Dimensions{};
  if (dim)
    rest.erase(*dim);
  DataArray out;
  const auto e = error_of([&] { out = dim ? reduce(in.r, a, *dim) : reduce(in.r, a); });
  if (e && (broadcast_variances(a.data()) || (!dim && is_mean(in.r) && in.type == dtype<bool>))) {
    obs("refused");
    CHECK("input-changed", full(a) == before, what);
    return;
  }
  if (e && bins) {
    // masks on bins and on dense data at once are not offered for all types
    obs("binned-refused");
    obs("binned-refused: " + e->substr(0, 50) + in.name);
    CHECK("input-changed", full(a) == before, what);
    return;
  }
  CHECK("works", !e, what << " failed: " << *e);
  if (bins && is_mean(in.r) && !masks.empty()) { // see suite findings
    obs("masked-binned-means");
    return;
  }
  check_result(in.type, in.r, a.data(), masks, out.data(), rest, what + (dim ? " over " + dim->name() : " over all"), int(dims.ndim()) + 1);
  const auto expected = surroundings(a, dim, !dim), got = surroundings(out, std::nullopt);
  CHECK("surroundings", got == expected, what << (dim ? " over " + dim->name() : " over all") << ' ' << diff(got, expected));
  CHECK("input-changed", full(a) == before, what);
  // masks of the result are copies
  for (auto &&[k, m] : out.masks())
    if (m.dims().volume() > 0 && !m.is_readonly()) {
      auto w = m;
      w.setSlice(Slice{}, makeVariable<bool>(Values{true}, units::none));
    }
  CHECK("masks-shared", full(a) == before, what << ": changing a mask of the result changed the input");
  obs(bins ? "binned-arrays" : "arrays");
  if (!masks.empty())
    obs("masked");
  nontrivial(what);
}

SUITE(datasets) {
  auto in = rand_input(rng);
  if (mean_of_no_unit(in))
    in.spec.unit = units::one;
  if (in.type == dtype<Vec3> || in.type == dtype<time_point> || !supported(in.r, in.type))
    in.type = dtype<double>;
  const auto s = array_spec(in);
  const auto dims = rand_dims(rng, 3, 4);
  Dataset d;
  {
    auto first = rand_array(rng, dims, s, "a");
    d = Dataset({}, first.coords());
    d.setData("a", first);
    auto t = s;
    t.coords = false;
    for (int i = 0; i < 2; ++i)
      if (rng.chance(1, 2))
        d.setData(i ? "b" : "c", rand_array(rng, rng.chance(1, 4) ? dims : shuffled(rng, dims), t, ""));
  }
  const auto before = full(d);
  const auto what = STR(in.name << " dataset " << brief(before));
  const bool all = dims.empty() || rng.chance(1, 3);
  const auto dim = all ? vdim(6) : dims.labels()[size_t(rng.in(0, dims.ndim() - 1))];
  Dataset out({}, d.coords());
  const auto e = error_of([&] { out = all ? reduce(in.r, d) : reduce(in.r, d, dim); });
  CHECK("input-changed", full(d) == before, what);
  if (e) {
    bool why = all && is_mean(in.r) && in.type == dtype<bool>;
    for (const auto &name : names(d))
      why |= broadcast_variances(Variable(d[name].data()));
    CHECK("works", why, what << " failed: " << *e);
    return;
  }
  CHECK("items", names(out).size() == names(d).size(), what);
  for (const auto &name : names(d)) {
    const auto item = d[name];
    auto rest = all ? Dimensions{} : item.dims();
    if (!all)
      rest.erase(dim);
    CHECK("items", out.contains(name), what << " lost " << name);
    const auto got = out[name];
    check_result(in.type, in.r, item.data(), all ? masks_on(item) : masks_on(item, dim), got.data(), rest, what + " item " + name, int(dims.ndim()) + 1);
    const auto x = surroundings(got, std::nullopt), y = surroundings(item, all ? std::nullopt : std::optional(dim), all);
    CHECK("surroundings", x == y, what << " item " << name << ' ' << diff(x, y));
  }
  CHECK("input-changed", full(d) == before, what);
  obs("datasets");
  nontrivial(what);
}

SUITE(binned) {
  random_partition(rng);
  auto in = rand_input(rng);
  if (in.type == dtype<Vec3> || in.type == dtype<time_point>)
    in.type = dtype<double>;
  if (mean_of_no_unit(in))
    in.spec.unit = units::one;
  auto dims = rand_dims(rng, 3, rng.chance(1, 8) ? 30 : 4);
  auto s = array_spec(in);
  Variable v;
  if (rng.chance(1, 2))
    v = rand_bins(rng, in.type, dims, in.spec, rng.chance(1, 6) ? 40 : 4);
  else {
    v = rand_table_bins(rng, dims, s, rng.chance(1, 6) ? 40 : 4);
    auto buffer = v.bin_buffer<DataArray>();
    const auto n = buffer.dims()[event_dim(v)];
    if (rng.chance(1, 3)) {
      buffer.masks().set("em2", rand_var(rng, dtype<bool>, Dimensions(event_dim(v), n), {false, false, false, units::none}));
      v = dataset::make_bins_no_validate(v.bin_indices(), event_dim(v), buffer);
    }
    obs("event-masked", buffer.masks().empty() ? 0 : 1);
  }
  const auto before = full(v);
  const auto what = STR(in.name << " binned " << brief(before));
  const auto kind = rng.in(0, 2);
  if (kind == 0) {
    const auto out = reduce_bins(in.r, v);
    check_result(in.type, in.r, v, {}, out, dims, "bins_" + what, 1);
    CHECK("unit", out.unit() == in.spec.unit, what << " has unit " << out.unit().name());
  } else if (kind == 1 || dims.empty()) {
    check_result(in.type, in.r, v, {}, reduce(in.r, v), Dimensions{}, what + " over all", int(dims.ndim()) + 1);
  } else {
    const auto d = dims.labels()[size_t(rng.in(0, dims.ndim() - 1))];
    auto rest = dims;
    rest.erase(d);
    check_result(in.type, in.r, v, {}, reduce(in.r, v, d), rest, what + " over " + d.name(), 1);
  }
  // the form for arrays keeps everything but the data
  if (kind == 0) {
    DataArray a = rand_array(rng, dims, s, "name");
    a.setData(v);
    const auto was = full(a);
    const auto out = reduce_bins(in.r, a);
    check_result(in.type, in.r, v, {}, out.data(), dims, "bins_" + what + " array", 1);
    CHECK("surroundings", surroundings(out, std::nullopt) == surroundings(a, std::nullopt), what);
    for (auto &&[k, m] : out.masks())
      if (m.dims().volume() > 0 && !m.is_readonly()) {
        auto w = m;
        w.setSlice(Slice{}, makeVariable<bool>(Values{true}, units::none));
      }
    CHECK("input-changed", full(a) == was, what);
    Dataset ds({}, a.coords());
    ds.setData("p", a);
    const auto dout = reduce_bins(in.r, ds);
    check_result(in.type, in.r, v, {}, dout["p"].data(), dims, "bins_" + what + " dataset", 1);
  }
  CHECK("input-changed", full(v) == before, what);
  obs("binned");
  nontrivial(what);
}

// Inputs on which the library is known to differ from the plain definition
// (known-findings.txt); the other suites leave them out.
namespace {
const double inf = std::numeric_limits<double>::infinity();
}
SUITE(infinite_max) {
  const auto x = Dim("x");
  const auto v = makeVariable<double>(Dims{x}, Shape{2}, Values{-inf, -inf});
  CHECK("max-of-minus-infinity", variable::max(v, x).value<double>() == -inf, "max of [-inf, -inf] is " << variable::max(v, x).value<double>());
}
SUITE(infinite_min) {
  const auto x = Dim("x");
  const auto v = makeVariable<double>(Dims{x}, Shape{2}, Values{inf, inf});
  CHECK("min-of-infinity", variable::min(v, x).value<double>() == inf, "min of [inf, inf] is " << variable::min(v, x).value<double>());
}
SUITE(infinite_nansum) {
  const auto x = Dim("x");
  const auto v = makeVariable<double>(Dims{x}, Shape{3}, Values{inf, -inf, 1.0});
  CHECK("nansum-of-infinities", std::isnan(variable::nansum(v, x).value<double>()), "nansum of [inf, -inf, 1] is " << variable::nansum(v, x).value<double>());
}
SUITE(masked_mean_no_events) {
  const auto x = Dim("x");
  const auto idx = makeVariable<scipp::index_pair>(Dims{x}, Shape{1}, Values{std::pair<scipp::index, scipp::index>{0, 0}}, units::none);
  DataArray a(variable::make_bins_no_validate(idx, Dim("event"), makeVariable<double>(Dims{Dim("event")}, Shape{0})));
  a.masks().set("m", makeVariable<bool>(Dims{x}, Shape{1}, Values{false}, units::none));
  const auto m = dataset::mean(a, x).data().value<double>();
  CHECK("masked-mean-of-no-events", std::isnan(m), "mean of one empty, not masked bin is " << m);
}
