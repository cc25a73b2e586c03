// C20: group-by results equal selecting each group and reducing it alone.
// Oracle: group members found by comparing raw keys, selected by copying raw
// elements (or bin indices), folded like plain reductions (fold.h).
#include "fold.h"
#include "events.h"
#include "scipp/dataset/groupby.h"
#include "scipp/dataset/histogram.h"

using namespace vf;

namespace {
const Dim dk("verif-k"), dg("verif-g");
std::string key_text(const Variable &v, const IndexMap &at) {
  auto s = text_at(v, at);
  if (floating(v.dtype())) {
    const auto x = num(v, at);
    return std::isnan(x) ? "nan" : x == 0 ? "0" : s;
  }
  return s;
}
Variable rand_key(Rng &rng, const DType t, const int64_t n, const units::Unit &unit, const bool nan) {
  Spec s;
  s.small = int(rng.pick({1, 3, 3, 10}));
  s.unit = unit;
  auto k = relayout(rng, rand_var(rng, t, Dimensions(dk, n), s));
  if (floating(t))
    for (int64_t i = 0; i < n; ++i) {
      if (nan && rng.chance(1, 8))
        put(k, {{dk, i}}, rng.chance(1, 2) ? Real(NAN) : -Real(NAN));
      else if (rng.chance(1, 12))
        put(k, {{dk, i}}, rng.pick<Real>({-0.0L, 0.0L, INFINITY, -INFINITY}));
    }
  if (rng.chance(1, 3)) { // long runs of equal keys
    for (int64_t i = 1; i < n; ++i)
      if (rng.chance(2, 3))
        for_dtype(t, [&](auto tag) {
          using T = typename decltype(tag)::type;
          raw_set<T>(k, {{dk, i}}, raw_value<T>(k, {{dk, i - 1}}));
        });
  }
  return k;
}
Variable select_rows(const Variable &v, const std::vector<int64_t> &rows) {
  auto dims = v.dims();
  dims.resize(dk, int64_t(rows.size()));
  const auto from = [&](const IndexMap &at) {
    auto f = at;
    for (auto &p : f)
      if (p.first == dk)
        p.second = rows[size_t(p.second)];
    return f;
  };
  if (is_binned(v)) {
    auto ind = makeVariable<scipp::index_pair>(dims, units::none);
    each_index(dims, [&](const IndexMap &at) { raw_set<scipp::index_pair>(ind, at, raw_range(v, from(at))); });
    if (v.dtype() == dtype<core::bucket<Variable>>)
      return variable::make_bins_no_validate(ind, event_dim(v), v.bin_buffer<Variable>());
    return dataset::make_bins_no_validate(ind, event_dim(v), v.bin_buffer<DataArray>());
  }
  return for_dtype(v.dtype(), [&](auto tag) -> Variable {
    using T = typename decltype(tag)::type;
    auto out = [&] {
      if constexpr (core::canHaveVariances<T>())
        if (v.has_variances())
          return makeVariable<T>(dims, v.unit(), Values{}, Variances{});
      return makeVariable<T>(dims, v.unit());
    }();
    each_index(dims, [&](const IndexMap &at) {
      raw_set<T>(out, at, raw_value<T>(v, from(at)));
      if constexpr (core::canHaveVariances<T>())
        if (v.has_variances())
          *(out.template variances<T>().data() + flat_offset(out, at)) = raw_variance<T>(v, from(at));
    });
    return out;
  });
}
using Rows = std::vector<std::vector<int64_t>>;
// keys in order of the result, checked to be the distinct ones in order
Rows rows_by_key(const Variable &key, const Variable &listed, const std::string &what) {
  const auto n = key.dims()[dk], m = listed.dims()[listed.dims().inner()];
  const auto ld = listed.dims().inner();
  std::map<std::string, size_t> place;
  for (int64_t i = 0; i < m; ++i) {
    CHECK("distinct", place.emplace(key_text(listed, {{ld, i}}), size_t(i)).second, what << " lists the group " << key_text(listed, {{ld, i}}) << " twice");
    if (i > 0) {
      const bool less = listed.dtype() == dtype<std::string> ? raw_value<std::string>(listed, {{ld, i - 1}}) < raw_value<std::string>(listed, {{ld, i}}) : [&] {
        const auto a = num(listed, {{ld, i - 1}}), b = num(listed, {{ld, i}});
        return a < b || (std::isnan(b) && !std::isnan(a));
      }();
      CHECK("ascending", less, what << " lists groups in the order " << full(listed));
    }
  }
  Rows rows{size_t(m)};
  for (int64_t i = 0; i < n; ++i) {
    const auto f = place.find(key_text(key, {{dk, i}}));
    CHECK("listed", f != place.end(), what << " does not list the group " << key_text(key, {{dk, i}}));
    rows[f->second].push_back(i);
  }
  for (size_t i = 0; i < rows.size(); ++i)
    CHECK("members", !rows[i].empty(), what << " lists a group without members");
  return rows;
}
Rows rows_by_edges(const Variable &key, const std::vector<Real> &edges) {
  Rows rows(edges.size() - 1);
  for (int64_t i = 0; i < key.dims()[dk]; ++i)
    if (const auto b = bin_of(num(key, {{dk, i}}), edges); b >= 0)
      rows[size_t(b)].push_back(i);
  return rows;
}
template <class T> auto apply_to(const R r, const dataset::GroupBy<T> &g) {
  switch (r) {
  case R::sum:
    return g.sum(dk);
  case R::nansum:
    return g.nansum(dk);
  case R::mean:
    return g.mean(dk);
  case R::min:
    return g.min(dk);
  case R::max:
    return g.max(dk);
  case R::nanmin:
    return g.nanmin(dk);
  case R::nanmax:
    return g.nanmax(dk);
  case R::all:
    return g.all(dk);
  default:
    return g.any(dk);
  }
}
std::vector<Variable> masks_on(const DataArray &a, const Dim d) {
  std::vector<Variable> out;
  for (const auto &[k, m] : a.masks())
    if (m.dims().contains(d))
      out.push_back(m);
  return out;
}
struct Grouping {
  Variable key, bins;
  std::vector<Real> edges;
  bool by_bins = false, attr = false, variable = false;
};
Grouping rand_grouping(Rng &rng, const int64_t n) {
  Grouping g;
  g.by_bins = rng.chance(2, 5);
  const auto t = g.by_bins ? rng.pick({dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>})
                           : rng.pick({dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>, dtype<bool>, dtype<std::string>, dtype<time_point>});
  const auto unit = t == dtype<time_point> ? units::Unit(units::ns) : units::Unit(units::m);
  if (g.by_bins) {
    g.edges = rand_ascending(rng, rng.in(2, 7), t, false);
    g.bins = number_line(rng, t, dg, g.edges, unit);
    g.key = relayout(rng, rand_var(rng, t, Dimensions(dk, n), {}));
    g.key = copy(g.key);
    g.key.setUnit(unit);
    for (int64_t i = 0; i < n; ++i)
      put(g.key, {{dk, i}}, rand_near(rng, g.edges, t));
    g.key = relayout(rng, g.key);
    g.variable = rng.chance(1, 3);
  } else {
    g.key = rand_key(rng, t, n, unit, true);
  }
  g.attr = !g.variable && rng.chance(1, 5);
  return g;
}
template <class T> dataset::GroupBy<T> group(const T &a, const Grouping &g) {
  return g.by_bins ? g.variable ? dataset::groupby(a, g.key, g.bins) : dataset::groupby(a, dg, g.bins) : dataset::groupby(a, dg);
}
void check_meta(const DataArray &out, const DataArray &in, const Grouping &g, const std::string &what) {
  if (g.by_bins)
    CHECK("key", out.coords().contains(dg) && canon(out.coords()[dg]) == canon(g.bins), what);
  const auto x = parts_of(out);
  for (const auto &[k, v] : parts_of(in)) {
    if (k == "data" || k == "coord " + dg.name() || k == "attr " + dg.name())
      continue;
    CHECK("meta", x.count(k) == (v.dims().contains(dk) ? 0 : 1), what << (x.count(k) ? " kept " : " lost ") << k);
    if (x.count(k))
      CHECK("meta", canon(x.at(k)) == canon(v), what << ' ' << k);
  }
}
void random_tasks(Rng &rng) { random_partition(rng); }
void check_array(const R r, const DType type, const DataArray &in, const DataArray &out, const Rows &rows, const std::string &what) {
  auto rest = in.dims();
  rest.erase(dk);
  CHECK("groups", out.dims().contains(dg) && out.dims()[dg] == int64_t(rows.size()), what << " gave " << show(out.dims()));
  const auto masks = masks_on(in, dk);
  for (size_t i = 0; i < rows.size(); ++i) {
    const auto data = select_rows(in.data(), rows[i]);
    std::vector<Variable> m;
    for (const auto &x : masks)
      m.push_back(select_rows(x, rows[i]));
    auto part = out.data().slice({dg, int64_t(i)});
    if (part.dims() != rest) { // any order
      CHECK("dims", part.dims().ndim() == rest.ndim() && part.dims().includes(rest), what << " gave " << show(out.dims()));
      part = transpose(part, label_list(rest));
    }
    check_result(type, r, data, m, part, rest, what + " group " + std::to_string(i) + " with " + std::to_string(rows[i].size()) + " members", int(rows[i].size()) + int(in.dims().ndim()) + 2);
    obs("groups-compared");
    obs("members", int64_t(rows[i].size()));
  }
}
} // namespace

SUITE(arrays) {
  random_tasks(rng);
  R r;
  const char *name;
  DType type = dtype<double>;
  do {
    const auto &p = rng.pick(reductions);
    r = p.first;
    name = p.second;
    type = is_logical(r) ? dtype<bool> : rng.pick({dtype<double>, dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>, dtype<bool>, dtype<time_point>});
  } while (r == R::nanmean || !supported(r, type));
  auto dims = rand_dims(rng, 2, 3);
  const auto n = rng.chance(1, 10) ? rng.in(20, 60) : rng.in(0, 14);
  if (rng.chance(1, 2))
    dims.addInner(dk, n);
  else
    dims.add(dk, n);
  dims = shuffled(rng, dims);
  const bool binned = rng.chance(1, 5);
  ArraySpec s;
  s.type = type;
  s.binned = binned;
  s.data.variances = floating(type) && rng.chance(2, 5);
  s.data.specials = rng.chance(1, 4);
  s.data.small = rng.chance(1, 4) ? 3 : 0;
  s.data.unit = type == dtype<bool> ? units::Unit(units::none) : type == dtype<time_point> ? units::Unit(units::ns) : units::Unit(units::counts);
  if (is_mean(r) && type == dtype<bool>)
    return;
  auto a = rand_array(rng, dims, s);
  if (!binned && broadcast_variances(a.data()))
    a.setData(copy(a.data()));
  const auto g = rand_grouping(rng, n);
  if (g.attr)
    a.attrs().set(dg, g.key);
  else if (!g.variable)
    a.coords().set(dg, g.key);
  const auto what = STR(name << " of groups by " << full(g.key) << (g.by_bins ? full(g.bins) : "") << " of " << brief(full(a)));
  const auto was = full(a);
  DataArray out;
  const auto e = error_of([&] { out = apply_to(r, group(a, g)); });
  CHECK("input-changed", full(a) == was, what);
  if (e) {
    bool wide_mask = false, event_masks = false;
    for (const auto &m : masks_on(a, dk))
      wide_mask = wide_mask || m.dims().ndim() > 1;
    if (binned && a.data().dtype() == dtype<core::bucket<DataArray>>)
      event_masks = !a.data().bin_buffer<DataArray>().masks().empty();
    const bool expected = (binned && (is_mean(r) || !masks_on(a, dk).empty() || event_masks)) || (r == R::mean && wide_mask) || (a.data().dtype() == dtype<bool> && !masks_on(a, dk).empty());
    CHECK("works", expected, what << " failed: " << *e);
    obs("unsupported");
    return;
  }
  const auto rows = g.by_bins ? rows_by_edges(g.key, g.edges) : rows_by_key(g.key, out.coords()[dg], what);
  const auto elem = binned ? event_data(a.data()).dtype() : type;
  check_array(r, elem, a, out, rows, what);
  check_meta(out, a, g, what);
  obs(g.by_bins ? "by-bins" : "by-key");
  if (!masks_on(a, dk).empty())
    obs("masked");
  if (binned)
    obs("binned");
  nontrivial(what);
}

SUITE(datasets) {
  random_tasks(rng);
  const auto r = rng.pick({R::sum, R::mean, R::max, R::nanmin, R::nansum});
  const auto n = rng.in(0, 12);
  const auto g = rand_grouping(rng, n);
  Dimensions dims(dk, n);
  if (rng.chance(1, 2))
    dims.add(Dim("other"), rng.in(1, 3));
  Dataset ds({}, Coords(Sizes(dims), {}));
  if (g.attr)
    return;
  if (!g.variable)
    ds.setCoord(dg, g.key);
  for (const auto *item : {"a", "b"}) {
    Spec s;
    s.variances = rng.chance(1, 3);
    s.unit = units::counts;
    DataArray x(copy(rand_var(rng, s.variances ? dtype<double> : rand_numeric(rng), dims, s)));
    if (rng.chance(1, 3))
      x.masks().set("m", rand_var(rng, dtype<bool>, Dimensions(dk, n), {false, false, false, units::none}));
    ds.setData(item, x);
  }
  const auto what = STR("groups by " << full(g.key) << (g.by_bins ? full(g.bins) : "") << " of " << brief(full(ds)));
  const auto was = full(ds);
  const auto out = apply_to(r, group(ds, g));
  CHECK("input-changed", full(ds) == was, what);
  const auto rows = g.by_bins ? rows_by_edges(g.key, g.edges) : rows_by_key(g.key, out.coords()[dg], what);
  for (const auto *item : {"a", "b"}) {
    CHECK("items", out.contains(item), what);
    check_array(r, ds[item].data().dtype(), ds[item], out[item], rows, what + " item " + item);
    check_meta(out[item], ds[item], g, what);
  }
  obs("datasets");
  nontrivial(what);
}

// concatenating the events of each group
SUITE(concatenated) {
  random_tasks(rng);
  auto dims = rand_dims(rng, 2, 3);
  const auto n = rng.in(1, 10);
  if (rng.chance(1, 2))
    dims.addInner(dk, n);
  else
    dims.add(dk, n);
  dims = shuffled(rng, dims);
  ArraySpec s;
  s.attrs = s.masks = s.coords = false;
  DataArray a(copy(rand_table_bins(rng, dims, s, 4)));
  if (rng.chance(1, 2)) { // any layout of bins, but plain columns
    const auto like = rand_bins(rng, dtype<double>, dims, {}, 4);
    const auto &[indices, bd, buf] = like.constituents<Variable>();
    a = DataArray(dataset::make_bins_no_validate(indices, bd, copy(rand_table(rng, buf.dims()[bd], s, bd))));
  }
  for (const auto &l : dims.labels())
    if (rng.chance(4, 5))
      a.coords().set(l, rand_coord(rng, l, dims[l] + (l != dk && rng.chance(1, 2) ? 1 : 0), {}, units::m));
  if (rng.chance(1, 3))
    a.masks().set("m", rand_var(rng, dtype<bool>, sub_dims(rng, dims), {false, false, false, units::none}));
  auto g = rand_grouping(rng, n);
  g.attr = false;
  if (!g.variable)
    a.coords().set(dg, g.key);
  const bool other_key = g.variable && rng.chance(1, 2);
  if (other_key) { // a coord with the name of the bins but other values
    const auto h = rand_grouping(rng, n);
    a.coords().set(dg, number_line(rng, g.key.dtype(), dk, [&] {
                     std::vector<Real> x;
                     for (int64_t i = 0; i < n; ++i)
                       x.push_back(rand_near(rng, g.edges, g.key.dtype()));
                     return x;
                   }(), g.key.unit()));
  }
  const auto what = STR("concatenation of groups by " << (g.variable ? "variable " : "") << full(g.key) << (g.by_bins ? full(g.bins) : "") << " of " << brief(full(a)));
  const auto was = full(a);
  bool all_coords = true;
  for (const auto &l : dims.labels())
    if (l != dk)
      all_coords = all_coords && a.coords().contains(l);
  DataArray out;
  const auto gr = group(a, g);
  const auto e = error_of([&] { out = gr.concat(dk); });
  CHECK("input-changed", full(a) == was, what);
  if (e) {
    CHECK("works", (floating(g.key.dtype()) && false) || g.variable, what << " failed: " << *e);
    obs("unsupported");
    return;
  }
  const auto rows = g.by_bins ? rows_by_edges(g.key, g.edges) : rows_by_key(g.key, gr.key(), what);
  auto rest = dims;
  rest.erase(dk);
  CHECK("dims", out.dims().contains(dg) && out.dims()[dg] == int64_t(rows.size()) && out.dims().ndim() == rest.ndim() + 1 && out.dims().includes(rest), what << " gave " << show(out.dims()));
  const auto masks = a.masks();
  const auto &t = a.data().bin_buffer<DataArray>();
  for (size_t i = 0; i < rows.size(); ++i)
    each_index(rest, [&](const IndexMap &at) {
      std::string expected, visible;
      for (const auto row : rows[i]) {
        auto f = at;
        f.emplace_back(dk, row);
        const auto &r = raw_range(a.data(), f);
        bool hide = false, maybe = false;
        for (const auto &[k, m] : masks)
          if (raw_value<bool>(m, sub(f, m.dims()))) {
            hide = hide || m.dims().contains(dk);
            maybe = true;
          }
        for (auto j = r.first; j < r.second; ++j) {
          if (!hide)
            expected += row_of(t, t.dims().inner(), j) + '|';
          if (!maybe)
            visible += row_of(t, t.dims().inner(), j) + '|';
        }
      }
      auto f = at;
      f.emplace_back(dg, int64_t(i));
      const auto &r = raw_range(out.data(), f);
      const auto &ob = out.data().bin_buffer<DataArray>();
      std::string got;
      for (auto j = r.first; j < r.second; ++j)
        got += row_of(ob, ob.dims().inner(), j) + '|';
      CHECK("events", got == expected || got == visible, what << " at " << show(f) << " holds " << got << " but expected " << expected);
      obs("bins-compared");
      obs("events-compared", r.second - r.first);
    });
  check_meta(out, a, g, what);
  if (all_coords)
    obs("all-coords");
  obs("concatenated");
  nontrivial(what);
}

// many groups, many rows: keys are sorted and groups reduced in parallel
SUITE(large) {
  random_tasks(rng);
  const auto n = rng.in(2000, 20000);
  const auto t = rng.pick({dtype<int64_t>, dtype<double>, dtype<float>, dtype<std::string>});
  Variable key;
  const auto span = rng.pick<int64_t>({3, 100, 5000});
  std::vector<int64_t> k;
  for (int64_t i = 0; i < n; ++i)
    k.push_back(rng.in(-span, span));
  if (t == dtype<std::string>) {
    key = makeVariable<std::string>(Dimensions(dk, n));
    for (int64_t i = 0; i < n; ++i)
      raw_set<std::string>(key, {{dk, i}}, std::to_string(k[size_t(i)]));
  } else {
    key = number_line(rng, t, dk, std::vector<Real>(k.begin(), k.end()), units::one);
  }
  const auto r = rng.pick({R::sum, R::mean, R::max, R::min});
  DataArray a(relayout(rng, rand_var(rng, rng.pick({dtype<double>, dtype<int64_t>}), Dimensions(dk, n), {.unit = units::counts})));
  a.coords().set(dg, key);
  if (rng.chance(1, 2))
    a.masks().set("m", rand_var(rng, dtype<bool>, Dimensions(dk, n), {false, false, false, units::none}));
  const auto out = apply_to(r, dataset::groupby(a, dg));
  const auto what = STR(int(r) << " of " << n << " rows in groups of -" << span << ".." << span << ' ' << core::to_string(t));
  const auto rows = rows_by_key(key, out.coords()[dg], what);
  check_array(r, a.data().dtype(), a, out, rows, what);
  obs("large");
  nontrivial(what);
}

SUITE(refusals) {
  const auto n = rng.in(1, 8);
  DataArray a(rand_var(rng, dtype<double>, Dimensions({dk, Dim("other")}, {n, 2}), {}));
  auto g = rand_grouping(rng, n);
  std::string why;
  const auto call = [&](const int64_t k) {
    switch (k) {
    case 0: {
      why = "unsorted edges";
      if (!g.by_bins || g.edges.size() < 3 || g.edges[0] == g.edges[1])
        return std::optional<std::string>("not applicable");
      std::swap(g.edges[0], g.edges[1]);
      const auto bins = number_line(rng, g.key.dtype(), dg, g.edges, g.key.unit());
      return error_of([&] { dataset::groupby(a, g.key, bins); });
    }
    case 1:
      why = "unit of edges";
      if (!g.by_bins)
        return std::optional<std::string>("not applicable");
      g.bins = copy(g.bins);
      g.bins.setUnit(units::kg);
      return error_of([&] { dataset::groupby(a, g.key, g.bins); });
    case 2:
      why = "unknown coordinate";
      return error_of([&] { dataset::groupby(a, dg); });
    case 3:
      why = "two-dimensional key";
      a.coords().set(dg, rand_var(rng, dtype<double>, a.dims(), {}));
      return error_of([&] { dataset::groupby(a, dg); });
    case 4:
      why = "edges as key";
      a.coords().set(dg, number_line(rng, dtype<double>, dk, std::vector<Real>(size_t(n) + 1, 1), units::m));
      return error_of([&] { dataset::groupby(a, dg).sum(dk); });
    default:
      why = "all of numbers";
      a.coords().set(dg, g.key);
      if (g.by_bins)
        return std::optional<std::string>("not applicable"); // may have no member
      return error_of([&] { dataset::groupby(a, dg).any(dk); });
    }
  };
  const auto k = rng.in(0, 5);
  const auto e = call(k);
  CHECK("refusal", e.has_value(), why << " of " << full(a) << " was accepted");
  obs("refused");
  nontrivial(why + full(a) + full(g.key));
}
