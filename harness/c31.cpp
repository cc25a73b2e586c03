// C31: lookups of events in tables.
// Oracle: linear search of every coordinate among the raw edges or points of
// its own row of the table, in long double.
#include "events.h"
#include "scipp/dataset/bins.h"
#include "scipp/dataset/bins_view.h"
#include "vtbb.h"

using namespace vf;

namespace {
const Dim tx("verif-t"), ev("event");
void random_tasks(Rng &rng) {
  auto &c = vtbb::control();
  c.mode = rng.pick({vtbb::Mode::serial, vtbb::Mode::shuffle, vtbb::Mode::finest});
  c.state = uint64_t(rng.in(1, 1 << 30));
}
const std::vector<std::pair<DType, DType>> &pairs() {
  static const std::vector<std::pair<DType, DType>> p{{dtype<int64_t>, dtype<int64_t>}, {dtype<int32_t>, dtype<int32_t>}, {dtype<int64_t>, dtype<double>}, {dtype<int32_t>, dtype<double>}, {dtype<time_point>, dtype<time_point>}, {dtype<double>, dtype<double>}, {dtype<float>, dtype<double>}, {dtype<float>, dtype<float>}, {dtype<double>, dtype<float>}};
  return p;
}
struct Table {
  DType coord = dtype<double>, edges = dtype<double>, both = dtype<double>, weight = dtype<double>;
  units::Unit unit = units::m, weight_unit = units::one;
  bool are_edges = true, masked = false;
  Dimensions rest, edge_rest;
  DataArray function = DataArray(makeVariable<double>(Values{0.0}));
  std::vector<Real> some;
  std::vector<Variable> masks;
  std::string kind;
  int64_t n = 0;
};
std::vector<Real> rand_line(Rng &rng, const int64_t n, Table &t) {
  for (;;) {
    auto e = rand_ascending(rng, n, t.edges, false, &t.kind);
    if (std::all_of(e.begin(), e.end(), [&](const auto x) { return exact(x, t.both); }))
      return e;
  }
}
Real rand_x(Rng &rng, const Table &t) {
  for (int i = 0; i < 20; ++i) {
    const auto x = rand_near(rng, t.some, t.coord);
    if (exact(x, t.both))
      return x;
  }
  return 0;
}
Variable numbers_var(const DType t, const Dimensions &dims, const units::Unit &unit, const bool variances = false) {
  return for_number(t, [&](auto tag) -> Variable {
    using T = typename decltype(tag)::type;
    if constexpr (std::is_floating_point_v<T>)
      if (variances)
        return makeVariable<T>(dims, unit, Values{}, Variances{});
    return makeVariable<T>(dims, unit);
  });
}
Real rand_weight(Rng &rng, const DType t) { return t == dtype<bool> ? Real(rng.in(0, 1)) : floating(t) ? (rng.chance(1, 10) ? rng.pick<Real>({NAN, INFINITY, -INFINITY, 0, -0.0L}) : Real(rng.in(-400, 400)) / 8) : Real(rng.in(-50, 50)); }
// a table over dimension tx and any of the dimensions in `outer`
Table rand_table_function(Rng &rng, const Dimensions &outer, const bool are_edges, const bool scaling, const bool finite) {
  Table t;
  if (scaling) {
    t.coord = rng.pick({dtype<double>, dtype<float>, dtype<time_point>});
    t.edges = t.coord;
    t.weight = t.coord == dtype<float> ? dtype<double> : rng.pick({dtype<double>, dtype<float>});
  } else {
    const auto &p = pairs()[size_t(rng.in(0, int64_t(pairs().size()) - 1))];
    t.coord = p.first;
    t.edges = p.second;
    t.weight = rng.pick({dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>, dtype<bool>});
    if (t.coord == dtype<float> && t.edges == dtype<float> && t.weight == dtype<double>)
      t.weight = dtype<float>;
  }
  t.both = common(t.coord, t.edges);
  if (t.coord == dtype<time_point>)
    t.unit = units::ns;
  t.weight_unit = t.weight == dtype<bool> ? units::none : rng.pick({units::one, units::counts, units::kg});
  t.are_edges = are_edges;
  t.n = rng.in(are_edges ? 1 : 0, 9);
  const auto ne = t.n + (are_edges ? 1 : 0);
  t.some = rand_line(rng, ne, t);
  t.rest = rng.chance(1, 2) ? sub_dims(rng, outer) : Dimensions{};
  t.edge_rest = rng.chance(1, 3) ? sub_dims(rng, t.rest) : Dimensions{};
  auto dims = t.rest;
  dims.addInner(tx, t.n);
  auto w = numbers_var(t.weight, dims, t.weight_unit);
  each_index(dims, [&](const IndexMap &at) {
    auto x = rand_weight(rng, t.weight);
    if (finite && !std::isfinite(x))
      x = 3;
    put(w, at, x);
  });
  t.function = DataArray(relayout(rng, w));
  if (t.edge_rest.empty()) {
    t.function.coords().set(tx, number_line(rng, t.edges, tx, t.some, t.unit));
  } else {
    auto edge_dims = t.edge_rest;
    edge_dims.addInner(tx, ne);
    auto e = numbers_var(t.edges, edge_dims, t.unit);
    each_index(t.edge_rest, [&](const IndexMap &at) {
      const auto line = rng.chance(1, 2) ? t.some : rand_line(rng, ne, t);
      for (int64_t i = 0; i < ne; ++i) {
        auto f = at;
        f.emplace_back(tx, i);
        put(e, f, line[size_t(i)]);
      }
    });
    t.function.coords().set(tx, relayout(rng, e));
  }
  for (auto m = rng.in(0, 4) - 2; m > 0; --m) {
    auto md = sub_dims(rng, t.rest);
    if (rng.chance(2, 3))
      md.addInner(tx, t.n);
    t.masks.push_back(rand_var(rng, dtype<bool>, md, {false, false, false, units::none}));
    t.masked |= md.contains(tx);
    t.function.masks().set("m" + std::to_string(m), t.masks.back());
  }
  return t;
}
// index of the entry for x in the row `at`, -1: fill value
int64_t entry(const Table &t, const Real x, const IndexMap &at) {
  const auto line = numbers(t.function.coords()[tx], tx, sub(at, t.edge_rest));
  int64_t i = -1;
  if (t.are_edges)
    i = bin_of(x, line);
  else
    for (size_t k = 0; k < line.size(); ++k)
      if (line[k] <= x)
        i = int64_t(k);
  if (i < 0)
    return i;
  auto f = sub(at, t.rest);
  f.emplace_back(tx, i);
  for (const auto &m : t.masks)
    if (m.dims().contains(tx) && raw_value<bool>(m, sub(f, m.dims())))
      return -1;
  return i;
}
Real value_of(const Table &t, const Real x, const IndexMap &at, const Real fill) {
  const auto i = entry(t, x, at);
  obs(i < 0 ? "filled" : "found");
  if (i < 0)
    return fill;
  auto f = sub(at, t.rest);
  f.emplace_back(tx, i);
  return num(t.function.data(), f);
}
bool same(const Real a, const Real b) { return (std::isnan(a) && std::isnan(b)) || a == b; }

void map_case(Rng &rng, const bool are_edges) {
  random_tasks(rng);
  auto dims = rand_dims(rng, 2, 4);
  if (rng.chance(1, 8))
    dims.addInner(tx, rng.in(0, 3));
  auto outer = dims;
  if (outer.contains(tx))
    outer.erase(tx);
  auto t = rand_table_function(rng, outer, are_edges, false, false);
  std::optional<Variable> fill;
  Real fill_number = floating(t.weight) ? Real(NAN) : Real(0);
  if (rng.chance(1, 2)) {
    fill_number = rand_weight(rng, t.weight);
    fill = numbers_var(t.weight, Dimensions{}, t.weight_unit);
    put(*fill, {}, fill_number);
  }
  const bool events = rng.chance(1, 2);
  Variable x;
  if (events) {
    const auto like = rand_bins(rng, dtype<double>, dims, {}, 6);
    const auto &[indices, bd, buf] = like.constituents<Variable>();
    auto c = numbers_var(t.coord, Dimensions(bd, buf.dims()[bd]), t.unit);
    for (int64_t i = 0; i < buf.dims()[bd]; ++i)
      put(c, {{bd, i}}, rand_x(rng, t));
    x = make_bins_no_validate(indices, bd, c);
  } else {
    x = numbers_var(t.coord, dims, t.unit);
    each_index(dims, [&](const IndexMap &at) { put(x, at, rand_x(rng, t)); });
    x = relayout(rng, x);
  }
  const auto was = full(t.function) + full(x);
  const auto what = STR((are_edges ? "map " : "lookup_previous ") << t.kind << " function " << brief(full(t.function)) << " x " << brief(full(x)) << " fill " << fill_number);
  Variable out;
  const bool name_dim = !are_edges || rng.chance(1, 2);
  const auto e = error_of([&] { out = are_edges ? dataset::buckets::map(t.function, x, name_dim ? tx : Dim(Dim::Invalid), fill) : dataset::lookup_previous(t.function, x, tx, fill); });
  CHECK("input-changed", full(t.function) + full(x) == was, what);
  CHECK("works", !e, what << " failed: " << *e);
  CHECK("dims", out.dims().ndim() == dims.ndim() && std::all_of(dims.begin(), dims.end(), [&](const auto &l) { return out.dims().contains(l) && out.dims()[l] == dims[l]; }), what << " gave " << show(out.dims()));
  const auto unit = events ? std::get<2>(out.constituents<Variable>()).unit() : out.unit();
  const auto dt = events ? std::get<2>(out.constituents<Variable>()).dtype() : out.dtype();
  CHECK("unit", unit == t.weight_unit && dt == t.weight, what << " gave " << brief(full(out)));
  each_index(dims, [&](const IndexMap &at) {
    const auto row = sub(at, t.rest);
    if (!events) {
      const auto expected = value_of(t, num(x, at), row, fill_number);
      CHECK("value", same(num(out, at), expected), what << " at " << show(at) << " gave " << num(out, at) << " for " << num(x, at) << ", not " << expected);
      return;
    }
    const auto &[ii, id, ib] = x.constituents<Variable>();
    const auto &[oi, od, ob] = out.constituents<Variable>();
    const auto r = raw_range(x, at);
    const auto s = raw_range(out, at);
    CHECK("bins", r.second - r.first == s.second - s.first, what << " bin " << show(at));
    for (int64_t i = 0; i < r.second - r.first; ++i) {
      const auto c = num(ib, {{id, r.first + i}});
      const auto expected = value_of(t, c, row, fill_number);
      const auto got = num(ob, {{od, s.first + i}});
      CHECK("value", same(got, expected), what << " event " << i << " of bin " << show(at) << " gave " << got << " for " << c << ", not " << expected);
    }
  });
  obs(STR("kind-" << t.kind));
  if (t.masked)
    obs("masked");
  if (!t.edge_rest.empty())
    obs("2d-tables");
  obs(events ? "events" : "dense");
  nontrivial(what);
}
} // namespace
SUITE(histograms) { map_case(rng, true); }
SUITE(points) { map_case(rng, false); }

SUITE(scaling) {
  random_tasks(rng);
  auto dims = rand_dims(rng, 2, 4);
  auto outer = dims;
  auto t = rand_table_function(rng, outer, true, true, true);
  const auto dt = t.coord == dtype<float> ? dtype<double> : rng.pick({dtype<double>, dtype<float>});
  const bool variances = rng.chance(1, 2);
  const auto like = rand_bins(rng, dtype<double>, dims, {}, 6);
  const auto &[indices, bd, buf] = like.constituents<Variable>();
  const auto n = buf.dims()[bd];
  auto w = numbers_var(dt, Dimensions(bd, n), units::counts, variances);
  auto c = numbers_var(t.coord, Dimensions(bd, n), t.unit);
  for (int64_t i = 0; i < n; ++i) {
    put(w, {{bd, i}}, Real(rng.in(-80, 80)) / 4);
    if (variances)
      put_var(w, {{bd, i}}, Real(rng.in(0, 80)) / 4);
    put(c, {{bd, i}}, rand_x(rng, t));
  }
  DataArray table(w);
  table.coords().set(tx, c);
  if (rng.chance(1, 2))
    table.masks().set("em", rand_var(rng, dtype<bool>, Dimensions(bd, n), {false, false, false, units::none}));
  if (rng.chance(1, 2))
    table.coords().set(Dim("other"), rand_var(rng, dtype<double>, Dimensions(bd, n), {}));
  DataArray a(dataset::make_bins_no_validate(indices, bd, table));
  if (rng.chance(1, 3))
    a.masks().set(rng.chance(1, 2) ? "m1" : "m2", copy(rand_var(rng, dtype<bool>, dims, {false, false, false, units::none})));
  for (const auto &l : t.rest.labels()) // shared coordinates
    if (rng.chance(1, 2)) {
      const auto k = rand_coord(rng, l, dims[l], {}, units::m);
      a.coords().set(l, k);
      t.function.coords().set(l, k);
    }
  const auto before = copy(a);
  const auto held = copy(t.function);
  const auto what = STR("scale " << brief(full(a)) << " by " << t.kind << ' ' << brief(full(t.function)));
  const auto was = canon(before.data());
  const auto e = error_of([&] { dataset::buckets::scale(a, t.function, rng.chance(1, 2) ? tx : Dim(Dim::Invalid)); });
  if (e) {
    // the unit of a part of a table cannot be changed
    CHECK("works", *e == "UnitError" && t.weight_unit != units::one, what << " failed: " << *e);
    CHECK("failed-changed", full(a) == full(before), what << " failed: " << *e);
    return;
  }
  CHECK("function-changed", full(held) == full(t.function), what);
  const auto &[oi, od, ob] = a.data().constituents<DataArray>();
  const auto &[pi, pd, pb] = before.data().constituents<DataArray>();
  CHECK("unit", ob.unit() == units::counts * t.weight_unit && ob.dtype() == dt, what << " gave " << brief(full(a)));
  each_index(dims, [&](const IndexMap &at) {
    const auto r = raw_range(before.data(), at);
    const auto s = raw_range(a.data(), at);
    CHECK("bins", r.second - r.first == s.second - s.first, what << " bin " << show(at));
    for (int64_t i = 0; i < r.second - r.first; ++i) {
      const IndexMap p{{pd, r.first + i}}, o{{od, s.first + i}};
      const auto x = num(pb.coords()[tx], p);
      const auto factor = value_of(t, x, sub(at, t.rest), 0);
      const auto expected = num(pb.data(), p) * factor;
      const auto tol = dt == dtype<float> || t.weight == dtype<float> ? 1e-6L : 1e-14L;
      CHECK("weight", std::fabs(num(ob.data(), o) - expected) <= std::fabs(expected) * tol, what << " event " << i << " of bin " << show(at) << " gave " << num(ob.data(), o) << ", not " << expected);
      if (variances) {
        const auto ve = var_num(pb.data(), p) * factor * factor;
        CHECK("variance", std::fabs(var_num(ob.data(), o) - ve) <= std::fabs(ve) * tol * 2, what << " event " << i << " of bin " << show(at) << " gave " << var_num(ob.data(), o) << ", not " << ve);
        obs("variances-compared");
      }
      for (const auto &[k, v] : parts_of(pb))
        if (k != "data")
          CHECK("fields", text_at(v, sub(p, v.dims())) == text_at(parts_of(ob).at(k), sub(o, v.dims())), what << ' ' << k);
      obs("events-scaled");
    }
  });
  // masks that do not depend on the looked-up dimension are added
  const auto x = parts_of(a);
  for (const auto &[k, v] : parts_of(before))
    if (k.substr(0, 4) != "mask" && k != "data")
      CHECK("parts", canon(x.at(k)) == canon(v), what << ' ' << k);
  const auto held_parts = parts_of(held), before_parts = parts_of(before);
  for (const auto &[k, v] : x)
    if (k.substr(0, 4) == "mask")
      each_index(v.dims(), [&](const IndexMap &at) {
        bool m = false;
        if (before_parts.count(k))
          m |= raw_value<bool>(before_parts.at(k), sub(at, before_parts.at(k).dims()));
        if (held_parts.count(k) && !held_parts.at(k).dims().contains(tx))
          m |= raw_value<bool>(held_parts.at(k), sub(at, held_parts.at(k).dims()));
        CHECK("masks", raw_value<bool>(v, at) == m, what << ' ' << k << " at " << show(at));
      });
  for (const auto &[k, v] : held_parts)
    if (k.substr(0, 4) == "mask" && !v.dims().contains(tx))
      CHECK("masks", x.count(k) == 1, what << ' ' << k);
  nontrivial(what);
}

SUITE(refusals) {
  auto t = rand_table_function(rng, Dimensions(Dim("y"), 2), true, true, true);
  if (t.n < 1)
    return;
  const Dimensions dims(Dim("y"), 2);
  auto f = t.function;
  auto x = numbers_var(t.coord, dims, t.unit);
  each_index(dims, [&](const IndexMap &at) { put(x, at, rand_x(rng, t)); });
  std::optional<Variable> fill;
  bool must = true, previous = false;
  std::string why;
  switch (rng.in(0, 6)) {
  case 0:
    why = "unit of coordinate";
    x.setUnit(t.unit == units::ns ? units::Unit(units::us) : units::Unit(units::s));
    break;
  case 1:
    why = "dtype of fill";
    fill = makeVariable<int64_t>(Values{3}, t.weight_unit);
    break;
  case 2:
    why = "unit of fill";
    fill = numbers_var(t.weight, Dimensions{}, units::s);
    break;
  case 3: { // not sorted
    why = "order of edges";
    if (t.n < 2)
      return;
    auto e = t.some;
    std::swap(e.front(), e.back());
    if (std::is_sorted(e.begin(), e.end()))
      return;
    f.coords().set(tx, number_line(rng, t.edges, tx, e, t.unit));
    previous = rng.chance(1, 2);
    if (previous)
      f.coords().set(tx, f.coords()[tx].slice({tx, 0, t.n}));
    if (previous && std::is_sorted(e.begin(), e.end() - 1))
      return;
    break;
  }
  case 4:
    why = "points instead of edges";
    f.coords().set(tx, copy(f.coords()[tx].slice({tx, 0, t.n})));
    break;
  case 5: { // edges instead of points: never a value out of the table
    why = "edges instead of points";
    previous = true;
    break;
  }
  default: {
    why = "other dimensions";
    const Dimensions md({Dim("y"), tx}, {3, t.n});
    auto w = numbers_var(t.weight, md, t.weight_unit);
    f = DataArray(w);
    f.coords().set(tx, number_line(rng, t.edges, tx, t.some, t.unit));
  }
  }
  const auto was = full(f) + full(x);
  Variable out;
  const auto e = error_of([&] { out = previous ? dataset::lookup_previous(f, x, tx, fill) : dataset::buckets::map(f, x, tx, fill); });
  CHECK("accepted", e || !must, why << ": " << was << " gave " << full(out));
  CHECK("changed", full(f) + full(x) == was, why);
  obs("refused");
  nontrivial(why + was);
}
