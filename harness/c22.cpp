// C22: slicing by coordinate value selects exactly the matching points.
// Oracle: a scan over the raw values of the coordinate; the selected part is
// compared with the part of the input at the indices found.
#include "events.h"
#include "scipp/dataset/slice.h"

using namespace vf;

namespace {
const Dim dx("verif-x");
struct Input {
  DType type = dtype<double>, value_type = dtype<double>;
  units::Unit unit = units::m;
  std::vector<Real> c; // raw values of the coordinate
  bool edges = false, up = true, down = false, other_name = false, nan = false;
  int64_t n = 0; // length of the data
  Dim name = dx; // of the coordinate
  Variable coord;
};
Input rand_input(Rng &rng) {
  Input in;
  const auto t = rand_types(rng);
  in.type = t.coord;
  in.value_type = rng.chance(2, 3) ? t.coord : t.edges;
  in.unit = t.unit;
  in.edges = rng.chance(1, 2);
  in.n = rng.chance(1, 10) ? 0 : rng.in(1, 8);
  const auto m = in.n + (in.edges ? 1 : 0);
  const auto both = common(in.type, in.value_type);
  for (;;) {
    in.c = rand_ascending(rng, m, in.type, false);
    if (std::all_of(in.c.begin(), in.c.end(), [&](const auto x) { return exact(x, both); }))
      break;
  }
  const auto order = rng.in(0, 6);
  if (order == 0)
    rng.shuffle(in.c);
  else if (order <= 2)
    std::reverse(in.c.begin(), in.c.end());
  if (floating(in.type) && !in.c.empty() && rng.chance(1, 15))
    in.c[size_t(rng.in(0, int64_t(in.c.size()) - 1))] = NAN;
  for (size_t i = 1; i < in.c.size(); ++i) {
    in.up = in.up && in.c[i - 1] <= in.c[i];
    in.down = in.down || i == 1;
  }
  in.down = true;
  for (size_t i = 1; i < in.c.size(); ++i)
    in.down = in.down && in.c[i - 1] >= in.c[i];
  for (const auto x : in.c)
    in.nan = in.nan || std::isnan(x);
  in.other_name = rng.chance(1, 4);
  in.name = in.other_name ? Dim("label") : dx;
  in.coord = number_line(rng, in.type, dx, in.c, in.unit);
  return in;
}
Real rand_value(Rng &rng, const Input &in) {
  const auto both = common(in.type, in.value_type);
  for (int i = 0; i < 20; ++i) {
    const auto x = rand_near(rng, in.c, in.value_type);
    if (exact(x, both))
      return x;
  }
  return 0;
}
Variable scalar(const Input &in, const Real x) {
  Variable v = for_number(in.value_type, [&](auto tag) -> Variable { return makeVariable<typename decltype(tag)::type>(Values{from_real<typename decltype(tag)::type>(x)}, in.unit); });
  return v;
}
DataArray rand_data(Rng &rng, const Input &in) {
  auto dims = rand_dims(rng, 2, 3);
  if (rng.chance(1, 2))
    dims.addInner(dx, in.n);
  else
    dims.add(dx, in.n);
  dims = shuffled(rng, dims);
  ArraySpec s;
  s.binned = rng.chance(1, 6);
  auto a = rand_array(rng, dims, s, "name");
  if (a.coords().contains(in.name))
    a.coords().erase(in.name);
  a.coords().set(in.name, in.coord);
  if (in.other_name && a.coords().contains(dx))
    a.coords().erase(dx);
  return a;
}
// what is selected: an index, or nothing when that is an error
std::optional<int64_t> point(const Input &in, const Real v) {
  std::optional<int64_t> found;
  if (!in.edges) {
    for (int64_t i = 0; i < in.n; ++i)
      if (in.c[size_t(i)] == v) {
        if (found)
          return {};
        found = i;
      }
    return found;
  }
  for (int64_t i = 0; i < in.n; ++i) {
    const auto a = in.c[size_t(i)], b = in.c[size_t(i) + 1];
    if (in.up ? a <= v && v < b : a >= v && v > b)
      found = i;
  }
  return found;
}
bool sorted_coord(const Input &in) { return (in.c.size() == 1 && !in.nan) || (in.up != in.down && !in.nan); }
// all parts of a at the given positions, or an error
template <class T> void compare(const std::optional<std::string> &e, const T &out, const std::optional<std::pair<int64_t, int64_t>> &range, const T &a, const std::string &what) {
  if (!range) {
    CHECK("refusal", e.has_value(), what << " was accepted and gave " << brief(full(out)));
    obs("refused");
    return;
  }
  CHECK("works", !e, what << " failed: " << *e);
  const auto expected = range->second < 0 ? a.slice({dx, range->first}) : a.slice({dx, range->first, range->second});
  CHECK("selection", full(out) == full(expected), what << " gave " << diff(full(out), full(expected)));
  obs(range->second < 0 ? "points" : range->first == range->second ? "empty-ranges" : "ranges");
}
template <class F> void both_kinds(Rng &rng, const DataArray &a, F &&f) {
  f(a);
  if (rng.chance(1, 3)) {
    Dataset ds({}, a.coords());
    DataArray b(a);
    ds.setData("b", b);
    f(ds);
    obs("datasets");
  }
}
} // namespace

SUITE(points) {
  auto in = rand_input(rng);
  const auto a = rand_data(rng, in);
  for (int k = 0; k < 4; ++k) {
    const auto v = rand_value(rng, in);
    const auto value = scalar(in, v);
    std::optional<std::pair<int64_t, int64_t>> expected;
    const bool usable = !in.edges || sorted_coord(in);
    if (const auto i = point(in, v); i && usable)
      expected = {*i, -1};
    if (in.edges && in.nan && in.c.size() > 1)
      expected = {};
    both_kinds(rng, a, [&](const auto &x) {
      const auto what = STR("value " << full(value) << " of " << brief(full(x)));
      const auto was = full(x);
      std::decay_t<decltype(x)> out;
      const auto e = error_of([&] { out = dataset::slice(x, in.name, value); });
      CHECK("input-changed", full(x) == was, what);
      compare(e, out, expected, x, what);
    });
    if (in.edges)
      obs(in.up ? "edges-up" : "edges-down");
  }
  nontrivial(full(a));
}
SUITE(ranges) {
  auto in = rand_input(rng);
  if (in.c.size() == 1 && in.nan)
    return;
  const auto a = rand_data(rng, in);
  for (int k = 0; k < 4; ++k) {
    auto b = rand_value(rng, in), e = rand_value(rng, in);
    if (in.up ? b > e : b < e)
      if (rng.chance(4, 5))
        std::swap(b, e);
    const bool has_b = rng.chance(4, 5), has_e = rng.chance(4, 5);
    const auto vb = has_b ? scalar(in, b) : Variable{}, ve = has_e ? scalar(in, e) : Variable{};
    if ((has_b && std::isnan(b)) || (has_e && std::isnan(e)))
      continue; // there is nothing to say about these
    // b <= x < e in the order of the coordinate
    const auto before = [&](const Real x, const Real y) { return in.up ? x < y : x > y; };
    int64_t first = 0, last = in.n;
    if (in.edges) {
      // bins that overlap the range: right edge after begin, left edge before end
      if (has_b)
        while (first < in.n && !before(b, in.c[size_t(first) + 1]))
          ++first;
      if (has_e)
        while (last > 0 && !before(in.c[size_t(last) - 1], e))
          --last;
    } else {
      if (has_b)
        while (first < in.n && before(in.c[size_t(first)], b))
          ++first;
      if (has_e)
        while (last > 0 && !before(in.c[size_t(last) - 1], e))
          --last;
    }
    const bool empty = has_b && has_e && !before(b, e);
    std::optional<std::pair<int64_t, int64_t>> expected;
    if (sorted_coord(in))
      expected = {first, std::max(first, last)};
    both_kinds(rng, a, [&](const auto &x) {
      const auto what = STR("range " << full(vb) << " to " << full(ve) << " of " << brief(full(x)));
      const auto was = full(x);
      std::decay_t<decltype(x)> out;
      const auto err = error_of([&] { out = dataset::slice(x, in.name, vb, ve); });
      CHECK("input-changed", full(x) == was, what);
      if (expected && empty) { // an error, nothing, or the bin around a point
        if (err) {
          const bool flat = in.edges && std::adjacent_find(in.c.begin(), in.c.end()) != in.c.end(); // bins of no width
          CHECK("works", before(e, b) || flat, what << " failed: " << *err);
          obs("reversed");
          return;
        }
        const auto sizes = [&] {
          if constexpr (std::is_same_v<std::decay_t<decltype(x)>, Dataset>)
            return out.sizes()[dx];
          else
            return out.dims()[dx];
        }();
        CHECK("empty", sizes <= (in.edges ? 1 : 0), what << " gave " << brief(full(out)));
        obs("empty");
        return;
      }
      if (expected && first > last) { // no bin or point is in the range
        if (err) {
          obs("outside-refused");
          return;
        }
        const auto sizes = [&] {
          if constexpr (std::is_same_v<std::decay_t<decltype(x)>, Dataset>)
            return out.sizes()[dx];
          else
            return out.dims()[dx];
        }();
        CHECK("empty", sizes == 0, what << " gave " << brief(full(out)));
        return;
      }
      if (expected && expected->first == expected->second && !err) { // nothing, wherever
        const auto sizes = [&] {
          if constexpr (std::is_same_v<std::decay_t<decltype(x)>, Dataset>)
            return out.sizes()[dx];
          else
            return out.dims()[dx];
        }();
        CHECK("empty", sizes == 0, what << " gave " << brief(full(out)));
        obs("empty");
        return;
      }
      compare(err, out, expected, x, what);
    });
    if (in.edges)
      obs(in.up ? "edges-up" : "edges-down");
    else
      obs(in.up ? "points-up" : "points-down");
  }
  nontrivial(full(a));
}
SUITE(texts) {
  Input in;
  in.n = rng.in(0, 6);
  in.type = in.value_type = dtype<std::string>;
  auto c = makeVariable<std::string>(Dimensions(dx, in.n), units::one);
  std::vector<std::string> words{"", "a", "b", "a long text that is not kept inline", "B"};
  std::vector<std::string> got;
  for (int64_t i = 0; i < in.n; ++i) {
    got.push_back(rng.pick(words));
    raw_set<std::string>(c, {{dx, i}}, got.back());
  }
  in.coord = relayout(rng, c);
  const auto a = rand_data(rng, in);
  const auto v = rng.pick(words);
  const auto value = makeVariable<std::string>(Values{v}, units::one);
  std::optional<std::pair<int64_t, int64_t>> expected;
  if (std::count(got.begin(), got.end(), v) == 1)
    expected = {std::find(got.begin(), got.end(), v) - got.begin(), -1};
  const auto what = STR("text " << v << " of " << brief(full(a)));
  DataArray out;
  auto e = error_of([&] { out = dataset::slice(a, dx, value); });
  compare(e, out, expected, a, what);
  e = error_of([&] { out = dataset::slice(a, dx, value, value); });
  CHECK("refusal", e.has_value(), "a range of texts was accepted");
  nontrivial(what);
}
SUITE(refusals) {
  auto in = rand_input(rng);
  auto a = rand_data(rng, in);
  auto v = scalar(in, rand_value(rng, in));
  auto name = in.name;
  std::string why;
  switch (rng.in(0, 3)) {
  case 0:
    v = copy(v);
    v.setUnit(in.type == dtype<time_point> ? units::s : units::kg);
    why = "unit";
    break;
  case 1:
    name = Dim("unknown");
    why = "no such coordinate";
    break;
  case 2:
    v = broadcast(v, Dimensions(dx, 2));
    why = "value with dimensions";
    break;
  default:
    if (a.dims().ndim() < 2 || a.dims().volume() == 0)
      return;
    a.coords().set(in.name, rand_var(rng, dtype<double>, a.dims(), {.unit = in.unit}));
    if (in.value_type != dtype<double>)
      return;
    why = "two-dimensional coordinate";
  }
  DataArray out;
  auto e = error_of([&] { out = dataset::slice(a, name, v); });
  CHECK("refusal", e.has_value(), why << ' ' << full(v) << " of " << full(a) << " was accepted");
  e = error_of([&] { out = dataset::slice(a, name, v, rng.chance(1, 2) ? v : Variable{}); });
  CHECK("refusal", e.has_value(), why << " range " << full(v) << " of " << full(a) << " was accepted");
  obs("refused");
  nontrivial(why + full(a));
}
