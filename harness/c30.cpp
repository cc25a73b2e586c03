// C30: conversion, construction and structured elements keep every
// representable value. Oracle: the language's own conversion of each raw
// element, for elements within the range of the target type.
#include "events.h"
#include "parts.h"
#include "scipp/dataset/astype.h"
#include "scipp/variable/astype.h"
#include "scipp/variable/creation.h"
#include "scipp/variable/structures.h"
#include "scipp/variable/util.h"

using namespace vf;

namespace {
const std::vector<DType> &types() {
  static const std::vector<DType> t{dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>, dtype<bool>};
  return t;
}
template <class F> decltype(auto) for_basic(const DType t, F &&f) {
  if (t == dtype<bool>)
    return f(Tag<bool>{});
  if (t == dtype<double>)
    return f(Tag<double>{});
  if (t == dtype<float>)
    return f(Tag<float>{});
  if (t == dtype<int64_t>)
    return f(Tag<int64_t>{});
  if (t == dtype<int32_t>)
    return f(Tag<int32_t>{});
  fail("harness", "type");
}
template <class T, class S> bool in_range(const S x) { // of conversion S -> T
  if constexpr (std::is_same_v<T, bool> || std::is_same_v<S, T> || std::is_same_v<S, bool>)
    return true;
  else if constexpr (std::is_floating_point_v<T>) {
    if constexpr (std::is_same_v<S, double> && std::is_same_v<T, float>)
      return !std::isfinite(x) || std::fabs(x) <= double(std::numeric_limits<float>::max());
    return true;
  } else if constexpr (std::is_floating_point_v<S>) {
    const S low = -std::ldexp(S(1), std::numeric_limits<T>::digits), high = -low;
    return std::isfinite(x) && std::trunc(x) >= low && std::trunc(x) < high;
  } else
    return x >= std::numeric_limits<T>::lowest() && x <= std::numeric_limits<T>::max();
}
template <class S> S wild_value(Rng &rng) {
  if constexpr (std::is_same_v<S, bool>)
    return rng.chance(1, 2);
  else if constexpr (std::is_floating_point_v<S>) {
    switch (rng.in(0, 5)) {
    case 0:
      return special<S>(rng);
    case 1:
      return S(any_int<int64_t>(rng));
    case 2:
      return S(any_int<int32_t>(rng)) + S(rng.pick({0.5, -0.5, 0.25, 0.0, 0.999}));
    case 3: { // hard cases of rounding to float and int
      const double base = std::ldexp(1.0, int(rng.in(-140, 62))) * (rng.chance(1, 2) ? 1 : -1);
      return S(base * (1 + std::ldexp(double(rng.in(-3, 3)), int(rng.pick({-23, -24, -25, -52})))));
    }
    default:
      return moderate<S>(rng);
    }
  } else
    return any_int<S>(rng);
}
template <class T, class S> T expected(const S x) { return static_cast<T>(x); }

// fills v (dense) with elements which type `to` can hold after conversion
void fill_for(Rng &rng, Variable &v, const DType to) {
  for_basic(v.dtype(), [&](auto s) {
    using S = typename decltype(s)::type;
    for_basic(to, [&](auto t) {
      using T = typename decltype(t)::type;
      const auto pick = [&](const bool variance) {
        S x = wild_value<S>(rng);
        if constexpr (std::is_floating_point_v<S>)
          if (variance)
            x = std::fabs(x);
        for (int k = 0; k < 20 && !in_range<T, S>(x); ++k)
          x = wild_value<S>(rng);
        return in_range<T, S>(x) ? x : S(1);
      };
      each_index(v.dims(), [&](const IndexMap &at) {
        raw_set<S>(v, at, pick(false));
        if constexpr (std::is_floating_point_v<S>)
          if (v.has_variances())
            *(v.variances<S>().data() + flat_offset(v, at)) = pick(true);
      });
    });
  });
}
Variable converted(const Variable &v, const DType to) { // the oracle
  return for_basic(v.dtype(), [&](auto s) {
    using S = typename decltype(s)::type;
    return for_basic(to, [&](auto t) {
      using T = typename decltype(t)::type;
      auto out = [&]() -> Variable {
        if constexpr (std::is_floating_point_v<T>)
          if (v.has_variances())
            return makeVariable<T>(v.dims(), v.unit(), Values{}, Variances{});
        return makeVariable<T>(v.dims(), v.unit(), Values{});
      }();
      each_index(v.dims(), [&](const IndexMap &at) {
        raw_set<T>(out, at, expected<T, S>(raw_value<S>(v, at)));
        if constexpr (std::is_floating_point_v<T> && std::is_floating_point_v<S>)
          if (v.has_variances())
            *(out.template variances<T>().data() + flat_offset(out, at)) = expected<T, S>(raw_variance<S>(v, at));
      });
      return out;
    });
  });
}
Variable source(Rng &rng, const DType from, const DType to, const Dimensions &dims) {
  Spec s;
  s.variances = floating(from) && floating(to) && rng.chance(1, 2);
  s.unit = from == dtype<bool> ? rng.pick({units::none, units::one}) : rng.pick({units::one, units::m, units::counts});
  auto v = copy(rand_var(rng, from, dims, s));
  v.setUnit(s.unit);
  fill_for(rng, v, to);
  return rng.chance(1, 2) ? relayout(rng, v) : v;
}
bool widening(const DType from, const DType to) { // all values of `from` are values of `to`
  if (from == to || from == dtype<bool>)
    return true;
  if (from == dtype<int32_t>)
    return to == dtype<int64_t> || to == dtype<double>;
  return from == dtype<float> && to == dtype<double>;
}
std::string flat(const Variable &v) { return full(v); }
std::string err(const std::function<void()> &f) { return error_of(f).value_or(""); }

// structured types
struct Structure {
  DType type;
  std::vector<std::string> keys; // in order of memory
  int count;
};
const std::vector<Structure> &structures() {
  static const std::vector<Structure> s{{dtype<Vec3>, {"x", "y", "z"}, 3},
                                        {dtype<Mat3>, {"xx", "yx", "zx", "xy", "yy", "zy", "xz", "yz", "zz"}, 9},
                                        {dtype<Aff3>, {}, 16},
                                        {dtype<Quaternion>, {}, 4},
                                        {dtype<Translation>, {}, 3}};
  return s;
}
template <class F> decltype(auto) for_structure(const DType t, F &&f) {
  if (t == dtype<Vec3>)
    return f(Tag<Vec3>{});
  if (t == dtype<Mat3>)
    return f(Tag<Mat3>{});
  if (t == dtype<Aff3>)
    return f(Tag<Aff3>{});
  if (t == dtype<Quaternion>)
    return f(Tag<Quaternion>{});
  return f(Tag<Translation>{});
}
double field_of(const Variable &v, const IndexMap &at, const int i) {
  return for_structure(v.dtype(), [&](auto tag) {
    using T = typename decltype(tag)::type;
    return reinterpret_cast<const double *>(&raw_value<T>(v, at))[i];
  });
}
double matrix_entry(const Mat3 &m, const std::string &key) { return m(key[0] - 'x', key[1] - 'x'); }
} // namespace

SUITE(convert) {
  const auto from = types()[size_t(rng.in(0, 4))], to = types()[size_t(rng.in(0, 4))];
  const auto dims = rand_dims(rng, 3, 4);
  auto v = source(rng, from, to, dims);
  if (dims.ndim() > 0 && rng.chance(1, 4)) {
    const auto ls = label_list(dims);
    const auto d = ls[size_t(rng.in(0, int64_t(ls.size()) - 1))];
    const auto b = rng.in(0, dims[d]);
    v = v.slice({d, b, rng.in(b, dims[d])});
  }
  const auto before = flat(v);
  const auto avoid = rng.chance(1, 3);
  const auto want = converted(v, to);
  const auto what = "astype of " + brief(before) + " to " + core::to_string(to);
  Variable got;
  const auto e = err([&] { got = astype(v, to, avoid ? CopyPolicy::TryAvoid : CopyPolicy::Always); });
  CHECK("refused", e.empty(), what << " gave " << e);
  CHECK("source changed", flat(v) == before, what << ": " << diff(flat(v), before));
  CHECK("type", got.dtype() == to, what << " has type " << core::to_string(got.dtype()));
  CHECK("converted", flat(got) == flat(want), what << ": " << diff(flat(got), flat(want)));
  if (from == to && avoid)
    CHECK("copied", got.is_same(v), what << " copied the data");
  if (!avoid && got.dims().volume() > 0) {
    for_basic(to, [&](auto t) {
      using T = typename decltype(t)::type;
      auto values = got.values<T>();
      for (auto &&x : values)
        x = T(x == T(0) ? 1 : 0);
    });
    CHECK("shares data", flat(v) == before, what << " shares data with its source");
  }
  if (widening(from, to)) {
    const auto back = astype(want, from);
    CHECK("restored", flat(back) == before, what << " and back: " << diff(flat(back), before));
    obs("restored by round trip");
  } else
    obs("rounded or cut");
  obs("conversions");
  nontrivial(core::to_string(from) + core::to_string(to) + before.substr(0, 120));
}

SUITE(events) { // of binned data, with the tables' other columns; data arrays
  const auto from = types()[size_t(rng.in(0, 4))], to = types()[size_t(rng.in(0, 4))];
  const auto dims = rand_dims(rng, 2, 3);
  Variable v;
  Variable indices;
  Dim dim = Dim("event");
  Variable want;
  if (rng.chance(1, 2)) {
    Spec s;
    s.variances = floating(from) && floating(to) && rng.chance(1, 2);
    v = rand_bins(rng, from, dims, s, 4);
    auto [i, d, buffer] = v.constituents<Variable>();
    auto b = copy(buffer);
    fill_for(rng, b, to);
    v = make_bins_no_validate(i, d, b);
    want = make_bins_no_validate(i, d, converted(b, to));
  } else {
    ArraySpec s;
    s.type = from;
    s.data.variances = floating(from) && floating(to) && rng.chance(1, 2);
    v = rand_table_bins(rng, dims, s, 4);
    auto [i, d, buffer] = v.constituents<DataArray>();
    auto data = makeVariable<double>(buffer.dims());
    data = for_basic(from, [&](auto t) -> Variable {
      using T = typename decltype(t)::type;
      if constexpr (std::is_floating_point_v<T>)
        if (s.data.variances)
          return makeVariable<T>(buffer.dims(), units::counts, Values{}, Variances{});
      return makeVariable<T>(buffer.dims(), units::counts, Values{});
    });
    fill_for(rng, data, to);
    auto b = DataArray(data, buffer.coords(), buffer.masks(), buffer.attrs());
    auto w = DataArray(converted(data, to), buffer.coords(), buffer.masks(), buffer.attrs());
    for (const auto &k : std::vector<Dim>(b.coords().keys_begin(), b.coords().keys_end()))
      if (rng.chance(1, 3)) {
        b.coords().set_aligned(k, false);
        w.coords().set_aligned(k, false);
      }
    v = make_bins_no_validate(i, d, b);
    want = make_bins_no_validate(i, d, w);
    obs("tables converted");
  }
  const auto before = flat(v);
  const auto what = "astype of " + brief(before) + " to " + core::to_string(to);
  const auto policy = rng.chance(1, 3) ? CopyPolicy::TryAvoid : CopyPolicy::Always;
  Variable got;
  const auto e = err([&] { got = astype(v, to, policy); });
  CHECK("refused", e.empty(), what << " gave " << e);
  CHECK("source changed", flat(v) == before, what << ": " << diff(flat(v), before));
  CHECK("converted", flat(got) == flat(want), what << ": " << diff(flat(got), flat(want)));
  if (v.dtype() == dtype<core::bucket<DataArray>> && dims.volume() > 0)
    for (const auto &[k, c] : v.bin_buffer<DataArray>().coords()) {
      CHECK("coord of events", got.bin_buffer<DataArray>().coords().contains(k), what << ": coord " << k.name());
      CHECK("alignment of events", got.bin_buffer<DataArray>().coords()[k].is_aligned() == c.is_aligned(), what << ": coord " << k.name());
    }
  obs("binned converted");
  // a data array around it or around dense data
  ArraySpec s;
  auto a = rand_array(rng, dims, s, rng.chance(1, 2) ? "name" : "");
  const bool dense = rng.chance(1, 2);
  a.setData(dense ? source(rng, from, to, dims) : v);
  const auto full_before = full(a);
  DataArray wanted(dense ? converted(a.data(), to) : want, a.coords(), a.masks(), a.attrs(), a.name());
  DataArray b;
  const auto e2 = err([&] { b = astype(a, to, policy); });
  CHECK("array refused", e2.empty(), "astype of " << brief(full_before) << " gave " << e2);
  CHECK("array converted", full(b) == full(wanted), "astype of " << brief(full_before) << ": " << diff(full(b), full(wanted)));
  for (const auto &[k, c] : a.coords())
    CHECK("alignment", b.coords()[k].is_aligned() == c.is_aligned(), "astype of " << brief(full_before) << ": alignment of " << k.name());
  CHECK("array changed", full(a) == full_before, diff(full(a), full_before));
  if (!b.data().is_same(a.data())) { // masks of the result are its own
    for (const auto &[k, m] : b.masks()) {
      (void)k;
      auto mm = m;
      if (!mm.is_readonly())
        for (auto &&x : mm.values<bool>())
          x = !x;
    }
    CHECK("masks shared", full(a) == full_before, "astype of " << brief(full_before) << ": masks of the result are those of its source");
  }
  obs("arrays converted");
  nontrivial(core::to_string(from) + core::to_string(to) + before.substr(0, 120));
}

SUITE(refusals) { // types that cannot be converted
  const auto dims = rand_dims(rng, 2, 3);
  const auto odd = rng.pick({dtype<std::string>, dtype<time_point>, dtype<Vec3>, dtype<Mat3>, dtype<scipp::index_pair>, dtype<Quaternion>});
  const auto to = types()[size_t(rng.in(0, 4))];
  Spec s;
  auto v = rand_var(rng, odd, dims, s);
  const auto before = flat(v);
  auto e = err([&] { (void)astype(v, to); });
  CHECK("accepted", e == "TypeError", "astype of " << before << " to " << core::to_string(to) << " gave '" << e << "'");
  const auto w = rand_var(rng, to, dims, s);
  e = err([&] { (void)astype(w, odd); });
  CHECK("accepted", e == "TypeError", "astype of " << flat(w) << " to " << core::to_string(odd) << " gave '" << e << "'");
  CHECK("same type", flat(astype(v, odd)) == before, before);
  s.variances = true;
  const auto x = rand_var(rng, rng.pick({dtype<double>, dtype<float>}), dims, s);
  const auto narrow = rng.pick({dtype<int64_t>, dtype<int32_t>, dtype<bool>});
  e = err([&] { (void)astype(x, narrow); });
  CHECK("variances dropped", e == "VariancesError", "astype of " << flat(x) << " to " << core::to_string(narrow) << " gave '" << e << "'");
  CHECK("source changed", flat(v) == before, diff(flat(v), before));
  obs("refused");
  nontrivial(core::to_string(odd) + core::to_string(to) + show(dims));
}

SUITE(construct) { // from data of another type, with the type given at run time
  const auto from = types()[size_t(rng.in(0, 4))], to = types()[size_t(rng.in(0, 4))];
  const auto dims = rand_dims(rng, 3, 4);
  const auto n = size_t(dims.volume());
  for_basic(from, [&](auto s) {
    using S = typename decltype(s)::type;
    for_basic(to, [&](auto t) {
      using T = typename decltype(t)::type;
      const auto gen = [&] {
        // not std::vector<bool>
        auto out = std::make_unique<S[]>(n + 1);
        for (size_t i = 0; i < n; ++i) {
          S x = wild_value<S>(rng);
          for (int k = 0; k < 20 && !in_range<T, S>(x); ++k)
            x = wild_value<S>(rng);
          out[i] = in_range<T, S>(x) ? x : S(1);
        }
        return out;
      };
      const auto values = gen(), variances = gen();
      const bool var = std::is_floating_point_v<T> && rng.chance(1, 2);
      const auto unit = rng.pick({units::one, units::m, units::none});
      Variable got;
      const int way = int(rng.in(0, 2));
      const auto e = err([&] {
        const auto *b = values.get(), *v = variances.get();
        if (way == 0)
          got = var ? Variable(to, dims, unit, Values(b, b + n), Variances(v, v + n)) : Variable(to, dims, unit, Values(b, b + n));
        else if (way == 1) {
          if constexpr (std::is_floating_point_v<T>)
            got = var ? makeVariable<T>(dims, unit, Values(b, b + n), Variances(v, v + n)) : makeVariable<T>(dims, unit, Values(b, b + n));
          else
            got = makeVariable<T>(dims, unit, Values(b, b + n));
        } else {
          element_array<T> ev(b, b + n), vv(v, v + n);
          if constexpr (std::is_floating_point_v<T>)
            got = var ? makeVariable<T>(unit, dims, Values(std::move(ev)), Variances(std::move(vv))) : makeVariable<T>(unit, dims, Values(std::move(ev)));
          else
            got = makeVariable<T>(unit, dims, Values(std::move(ev)));
        }
      });
      const auto what = core::to_string(to) + " from " + core::to_string(from) + ' ' + show(dims) + " way " + std::to_string(way);
      CHECK("refused", e.empty(), what << " gave " << e);
      CHECK("dims", got.dims() == dims && got.unit() == unit && got.dtype() == to && got.has_variances() == var, what << " is " << flat(got));
      size_t i = 0;
      each_index(dims, [&](const IndexMap &at) {
        const T want = expected<T, S>(values[i]);
        CHECK("value", cell_text(raw_value<T>(got, at)) == cell_text(want), what << ": element " << show(at) << " is " << cell_text(raw_value<T>(got, at)) << " instead of " << cell_text(want));
        if constexpr (std::is_floating_point_v<T>)
          if (var) {
            const T want2 = expected<T, S>(variances[i]);
            CHECK("variance", cell_text(raw_variance<T>(got, at)) == cell_text(want2), what << ": variance " << show(at) << " is " << cell_text(raw_variance<T>(got, at)) << " instead of " << cell_text(want2));
          }
        ++i;
      });
      // another number of elements than the shape needs
      if (n > 0 && rng.chance(1, 4)) {
        const auto *b = values.get();
        const auto few = size_t(rng.in(1, 3)) >= n ? size_t(0) : n - 1;
        const auto m = few == 0 ? n + 1 : few;
        const auto e2 = err([&] { (void)Variable(to, dims, unit, Values(b, b + m)); });
        CHECK("wrong number accepted", !e2.empty(), what << " with " << m << " elements for " << n);
        obs("wrong numbers refused");
      }
      // all the same
      auto zero = Variable(to, dims, unit);
      each_index(dims, [&](const IndexMap &at) { CHECK("default", raw_value<T>(zero, at) == T{}, what << ": default element"); });
      auto one = variable::ones(dims, unit, to, var);
      CHECK("ones", one.dims() == dims && one.unit() == unit && one.dtype() == to && one.has_variances() == var, what << ": ones give " << flat(one));
      each_index(dims, [&](const IndexMap &at) {
        CHECK("ones", raw_value<T>(one, at) == T(1), what << ": ones give " << flat(one));
        if constexpr (std::is_floating_point_v<T>)
          if (var)
            CHECK("ones", raw_variance<T>(one, at) == T(1), what << ": ones give " << flat(one));
      });
      auto hollow = variable::empty(dims, unit, to, var);
      CHECK("empty", hollow.dims() == dims && hollow.unit() == unit && hollow.dtype() == to && hollow.has_variances() == var, what << ": empty");
      auto fill = special_like(got, FillValue::Default);
      CHECK("zeros like", fill.dims() == dims && fill.unit() == unit && fill.dtype() == to, what << ": zeros like give " << flat(fill));
      each_index(dims, [&](const IndexMap &at) { CHECK("zeros like", raw_value<T>(fill, at) == T{}, what << ": zeros like give " << flat(fill)); });
      obs("constructed from " + core::to_string(from));
    });
  });
  obs("constructed");
  nontrivial(core::to_string(from) + core::to_string(to) + show(dims));
}

SUITE(fields) { // of structured elements: read, write, restore
  const auto &st = structures()[size_t(rng.in(0, 4))];
  const auto dims = rand_dims(rng, 4, 4);
  const auto unit = rng.pick({units::one, units::m});
  // construct from flat numbers
  std::vector<double> numbers;
  for (int64_t i = 0; i < dims.volume() * st.count; ++i)
    numbers.push_back(rng.chance(1, 8) ? special<double>(rng) : moderate<double>(rng));
  element_array<double> flat_values(numbers.begin(), numbers.end());
  auto v = st.type == dtype<Vec3> ? variable::make_vectors(dims, unit, std::move(flat_values)) : st.type == dtype<Mat3> ? variable::make_matrices(dims, unit, std::move(flat_values)) : st.type == dtype<Aff3> ? variable::make_affine_transforms(dims, unit, std::move(flat_values)) : st.type == dtype<Quaternion> ? variable::make_rotations(dims, unit, std::move(flat_values)) : variable::make_translations(dims, unit, std::move(flat_values));
  CHECK("constructed", v.dtype() == st.type && v.dims() == dims && v.unit() == unit, describe(v));
  int64_t n = 0;
  each_index(dims, [&](const IndexMap &at) {
    for (int i = 0; i < st.count; ++i) {
      const auto got = field_of(v, at, i), want = numbers[size_t(n++)];
      CHECK("numbers", cell_text(got) == cell_text(want), core::to_string(st.type) << " at " << show(at) << " number " << i << " is " << got << " instead of " << want);
    }
  });
  auto whole = rng.chance(1, 2) ? relayout(rng, v) : v;
  auto part = whole;
  if (dims.ndim() > 0 && rng.chance(1, 2)) {
    const auto ls = label_list(dims);
    const auto d = ls[size_t(rng.in(0, int64_t(ls.size()) - 1))];
    const auto len = dims[d];
    const auto b = len == 0 ? 0 : rng.in(0, len - 1);
    part = len > 0 && rng.chance(1, 2) ? whole.slice({d, b}) : whole.slice({d, b, rng.in(b, len)});
  }
  const auto what = core::to_string(st.type) + ' ' + show(part.dims());
  const auto before = flat(part);
  for_structure(st.type, [&](auto tag) {
    using T = typename decltype(tag)::type;
    const auto all = part.elements<T>();
    CHECK("all elements", all.dtype() == dtype<double> && all.unit() == unit && all.dims().volume() == part.dims().volume() * st.count && all.dims().ndim() == part.dims().ndim() + 1, what << ": elements are " << describe(all));
    each_index(part.dims(), [&](const IndexMap &at) {
      auto line = all;
      for (const auto &[l, i] : at)
        line = line.slice({l, i});
      for (int i = 0; i < st.count; ++i) {
        const auto got = line.template values<double>()[i];
        CHECK("all elements", cell_text(got) == cell_text(field_of(part, at, i)), what << ": element " << i << " of " << show(at));
      }
    });
    if (st.keys.empty()) {
      const auto e = err([&] { (void)part.elements<T>("x"); });
      CHECK("unknown field accepted", !e.empty(), what);
      return;
    }
    // element_keys names the fields
    auto keys = element_keys(part);
    auto known = st.keys;
    std::sort(keys.begin(), keys.end());
    std::sort(known.begin(), known.end());
    CHECK("names of fields", keys == known, what << ": " << vec(keys));
    std::map<std::string, Variable> fields;
    for (const auto &key : st.keys) {
      const auto f = part.elements<T>(key);
      CHECK("field", f.dims() == part.dims() && f.unit() == unit && f.dtype() == dtype<double>, what << ": field " << key << " is " << describe(f));
      each_index(part.dims(), [&](const IndexMap &at) {
        const auto got = raw_value<double>(f, at);
        double want;
        if constexpr (std::is_same_v<T, Mat3>)
          want = matrix_entry(raw_value<Mat3>(part, at), key);
        else
          want = field_of(part, at, key[0] - 'x');
        CHECK("field value", cell_text(got) == cell_text(want), what << ": field " << key << " at " << show(at) << " is " << got << " instead of " << want);
      });
      fields.emplace(key, copy(f));
      obs("fields read");
    }
    // write one field: the other fields, and elements outside the part, stay
    const auto key = st.keys[size_t(rng.in(0, int64_t(st.keys.size()) - 1))];
    const auto outside = flat(whole);
    if (!part.is_readonly()) {
      auto target = part.elements<T>(key);
      Spec s;
      s.unit = unit;
      const auto fresh = rand_var(rng, dtype<double>, part.dims(), s);
      copy(fresh, target);
      for (const auto &k : st.keys) {
        const auto now = part.elements<T>(k);
        const auto &want = k == key ? fresh : fields.at(k);
        CHECK("written", flat(now) == flat(want), what << ": after writing " << key << " field " << k << ": " << diff(flat(now), flat(want)));
      }
      copy(fields.at(key), target);
      CHECK("restored", flat(part) == before && flat(whole) == outside, what << ": restoring field " << key << ": " << diff(flat(whole), outside));
      // and into new elements, all of them
      auto made = makeVariable<T>(part.dims(), unit);
      for (const auto &k : st.keys) {
        auto f = made.template elements<T>(k);
        copy(fields.at(k), f);
      }
      CHECK("rebuilt", flat(made) == before, what << ": rebuilt from fields: " << diff(flat(made), before));
      obs("fields written and restored");
    }
    const auto e = err([&] { (void)part.elements<T>("no such field"); });
    CHECK("unknown field accepted", !e.empty(), what);
    // events
    if (rng.chance(1, 2)) {
      const Dimensions bins_dims(Dim("bin"), rng.in(1, 3));
      Spec s;
      const auto b = rand_bins(rng, st.type, bins_dims, s, 3);
      const auto f = b.template elements<T>(key);
      const auto [i, d, buffer] = b.template constituents<Variable>();
      const auto want = make_bins_no_validate(i, d, copy(buffer.template elements<T>(key)));
      CHECK("field of events", flat(f) == flat(want), "field " << key << " of " << flat(b) << ": " << diff(flat(f), flat(want)));
      obs("fields of events");
    }
  });
  // pairs of indices
  const auto pairs = rand_var(rng, dtype<scipp::index_pair>, dims, {});
  const auto text = flat(pairs);
  const auto [begin, end] = unzip(pairs);
  each_index(dims, [&](const IndexMap &at) {
    const auto &p = raw_value<scipp::index_pair>(pairs, at);
    CHECK("unzip", raw_value<int64_t>(begin, at) == p.first && raw_value<int64_t>(end, at) == p.second, text);
  });
  CHECK("zip", flat(zip(begin, end)) == text, diff(flat(zip(begin, end)), text));
  nontrivial(what + before.substr(0, 60));
}
