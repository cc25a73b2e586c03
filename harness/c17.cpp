// C17: histogramming counts every event exactly once, in the right bin.
// Oracle: bin of every event by comparing with all edges in long double, sums
// per bin in long double, everything read from raw memory.
#include "events.h"
#include "scipp/dataset/histogram.h"
#include "vtbb.h"

using namespace vf;

namespace {
const Dim hx("verif-h"), ev("event");
struct Setup {
  Types types;
  DType weight = dtype<double>;
  bool variances = false, integral = true;
  std::string kind;
};
Setup rand_setup(Rng &rng) {
  Setup s;
  s.types = rand_types(rng);
  s.weight = rand_numeric(rng);
  s.variances = floating(s.weight) && rng.chance(1, 2);
  s.integral = rng.chance(2, 3);
  return s;
}
std::vector<Real> rand_edges(Rng &rng, Setup &s, const int64_t n) {
  for (;;) {
    auto e = rand_ascending(rng, n, s.types.edges, false, &s.kind);
    if (std::all_of(e.begin(), e.end(), [&](const auto x) { return exact(x, s.types.both); }))
      return e;
  }
}
Real rand_event(Rng &rng, const std::vector<Real> &edges, const Setup &s) {
  for (int i = 0; i < 20; ++i) {
    const auto x = rand_near(rng, edges, s.types.coord);
    if (exact(x, s.types.both))
      return x;
  }
  return 0;
}
Real rand_weight(Rng &rng, const Setup &s) { return s.integral || !floating(s.weight) ? Real(rng.in(-50, 50)) : snap(Real(moderate<float>(rng)), s.weight); }
void fill_weights(Rng &rng, Variable &w, const Setup &s) {
  each_index(w.dims(), [&](const IndexMap &at) {
    put(w, at, rand_weight(rng, s));
    if (s.variances)
      put_var(w, at, std::fabs(rand_weight(rng, s)));
  });
}
void random_tasks(Rng &rng) {
  auto &c = vtbb::control();
  c.mode = rng.pick({vtbb::Mode::serial, vtbb::Mode::shuffle, vtbb::Mode::finest});
  c.state = uint64_t(rng.in(1, 1 << 30));
}
void check_bin(const Variable &out, const IndexMap &at, const Sum &s, const std::string &what) {
  const auto v = num(out, at);
  CHECK("sum", close_sum(v, s.value, s.magnitude, s.n, out.dtype()), what << " at " << show(at) << " holds " << v << " but its " << s.n << " events sum to " << s.value);
  if (out.has_variances()) {
    const auto w = var_num(out, at);
    CHECK("variance", close_sum(w, s.variance, s.variance_magnitude, s.n, out.dtype()), what << " at " << show(at) << " has variance " << w << " but its " << s.n << " events sum to " << s.variance);
    obs("variances-compared");
  }
  obs("bins-compared");
  obs("events-counted", s.n);
}
void check_header(const DataArray &out, const Dimensions &expected, const DataArray &in, const Variable &edges, const Dim gone, const Setup &s, const std::string &what) {
  CHECK("dims", out.dims().ndim() == expected.ndim() && std::all_of(expected.begin(), expected.end(), [&](const auto &l) { return out.dims().contains(l) && out.dims()[l] == expected[l]; }), what << " gave " << show(out.dims()));
  CHECK("edges", out.coords().contains(hx) && canon(out.coords()[hx]) == canon(edges), what);
  CHECK("type", out.dtype() == s.weight && out.data().has_variances() == s.variances, what << " gave " << brief(full(out)));
  const auto x = parts_of(out);
  for (const auto &[k, v] : parts_of(in)) {
    if (k == "data" || k == "coord " + hx.name() || k.substr(0, 4) == "attr")
      continue;
    const bool kept = !v.dims().contains(gone);
    CHECK("parts", x.count(k) == (kept ? 1 : 0), what << (kept ? " lost " : " kept ") << k);
    if (kept)
      CHECK("parts", canon(x.at(k)) == canon(v), what << ' ' << k);
  }
}
std::vector<Variable> rand_masks(Rng &rng, const Dimensions &dims) {
  std::vector<Variable> m;
  for (auto n = rng.in(0, 5) - 3; n > 0; --n)
    m.push_back(rand_var(rng, dtype<bool>, sub_dims(rng, dims), {false, false, false, units::none}));
  return m;
}
bool masked(const std::vector<Variable> &masks, const IndexMap &at, const Dim d) {
  for (const auto &m : masks)
    if (m.dims().contains(d) && raw_value<bool>(m, sub(at, m.dims())))
      return true;
  return false;
}

void dense_case(Rng &rng, const int64_t nevent, const int64_t nedge, const bool flat) {
  random_tasks(rng);
  auto s = rand_setup(rng);
  auto dims = flat ? Dimensions{} : rand_dims(rng, 2, 3);
  const auto rest = dims;
  const bool same_name = rng.chance(1, 4);
  const auto d = same_name ? hx : ev;
  if (rng.chance(1, 2))
    dims.addInner(d, nevent);
  else
    dims.add(d, nevent);
  dims = shuffled(rng, dims);
  const auto some = rand_edges(rng, s, nedge);
  // edges per position of other dimensions in some cases
  const auto edge_rest = rng.chance(1, 4) ? sub_dims(rng, rest) : Dimensions{};
  auto edge_dims = edge_rest;
  edge_dims.addInner(hx, nedge);
  Variable edges = number_var(rng, s.types.edges, edge_dims, s.types.unit);
  if (edge_rest.empty())
    edges = number_line(rng, s.types.edges, hx, some, s.types.unit);
  else {
    edges = for_number(s.types.edges, [&](auto tag) -> Variable { return makeVariable<typename decltype(tag)::type>(edge_dims, s.types.unit); });
    each_index(edge_rest, [&](const IndexMap &at) {
      const auto e = rng.chance(1, 2) ? some : rand_edges(rng, s, nedge);
      for (int64_t i = 0; i < nedge; ++i) {
        auto f = at;
        f.emplace_back(hx, i);
        put(edges, f, e[size_t(i)]);
      }
    });
  }
  auto w = for_number(s.weight, [&](auto tag) -> Variable {
    using T = typename decltype(tag)::type;
    if constexpr (std::is_floating_point_v<T>)
      if (s.variances)
        return makeVariable<T>(dims, units::counts, Values{}, Variances{});
    return makeVariable<T>(dims, units::counts);
  });
  fill_weights(rng, w, s);
  DataArray a(nevent > 1000 ? w : relayout(rng, w));
  auto coord_dims = flat || rng.chance(1, 2) ? Dimensions(d, nevent) : dims;
  Variable c = for_number(s.types.coord, [&](auto tag) -> Variable { return makeVariable<typename decltype(tag)::type>(coord_dims, s.types.unit); });
  each_index(coord_dims, [&](const IndexMap &at) { put(c, at, rand_event(rng, some, s)); });
  if (nevent < 1000)
    c = relayout(rng, c);
  a.coords().set(hx, c);
  if (!same_name && rng.chance(1, 3))
    a.coords().set(ev, rand_var(rng, dtype<double>, Dimensions(ev, nevent), {}));
  if (!rest.empty() && rng.chance(1, 2)) {
    const auto l = label_list(rest)[0];
    a.coords().set(l, rand_coord(rng, l, rest[l] + (rng.chance(1, 2) ? 1 : 0), {}, units::m));
  }
  const auto masks = nevent > 1000 && rng.chance(1, 2) ? std::vector<Variable>{} : rand_masks(rng, dims);
  for (size_t i = 0; i < masks.size(); ++i)
    a.masks().set("m" + std::to_string(i), masks[i]);
  if (same_name && nedge == nevent)
    return; // that would be no edges
  if (c.dims().ndim() > 1 && c.dims().inner() != d && false)
    return;
  const auto was = nevent > 1000 ? std::string{} : full(a) + full(edges);
  const auto what = STR(s.kind << " edges " << (nedge < 30 ? full(edges) : "") << " histogram of " << (nevent < 1000 ? brief(full(a)) : STR(nevent << " events")));
  DataArray out;
  const auto e = error_of([&] { out = dataset::histogram(a, edges); });
  if (e) { // a coordinate with several dimensions names one of them as its own
    CHECK("works", coord_dims.ndim() > 1 && a.coords().dim_of(hx) != d, what << " failed: " << *e);
    obs("refused-2d-coord");
    return;
  }
  if (coord_dims.ndim() > 1 && a.coords().dim_of(hx) != d) {
    obs("other-dim");
    return;
  }
  auto expected = rest;
  expected.addInner(hx, std::max<int64_t>(nedge - 1, 0));
  check_header(out, expected, a, edges, d, s, what);
  each_index(rest, [&](const IndexMap &at) {
    const auto es = numbers(edges, hx, sub(at, edge_rest));
    std::vector<Sum> sums(size_t(std::max<int64_t>(nedge - 1, 0)));
    for (int64_t i = 0; i < nevent; ++i) {
      auto f = at;
      f.emplace_back(d, i);
      const auto b = bin_of(num(c, sub(f, coord_dims)), es);
      if (b >= 0 && !masked(masks, f, d))
        sums[size_t(b)].add(num(a.data(), f), s.variances ? var_num(a.data(), f) : 0);
    }
    for (size_t i = 0; i < sums.size(); ++i) {
      auto f = at;
      f.emplace_back(hx, int64_t(i));
      check_bin(out.data(), f, sums[i], what);
    }
  });
  if (!was.empty())
    CHECK("input-changed", full(a) + full(edges) == was, what);
  obs("dense-" + s.kind);
  if (!masks.empty())
    obs("masked");
  nontrivial(what);
}
} // namespace
SUITE(dense) { dense_case(rng, rng.in(0, 30), rng.chance(1, 8) ? rng.in(1, 1) : rng.in(2, 12), rng.chance(1, 2)); }
// the histogram is split for threading
SUITE(dense_large) { dense_case(rng, rng.pick({100001, 100002, 120000, 150001}), rng.in(2, 8), true); }

namespace {
void binned_case(Rng &rng, const Dimensions &dims, const int64_t nedge, const int64_t max_size) {
  random_tasks(rng);
  auto s = rand_setup(rng);
  const auto some = rand_edges(rng, s, nedge);
  const auto edges = number_line(rng, s.types.edges, hx, some, s.types.unit);
  const auto like = rand_bins(rng, dtype<double>, dims, {}, int(max_size));
  const auto &[indices, bd, buf] = like.constituents<Variable>();
  const auto n = buf.dims()[bd];
  auto w = for_number(s.weight, [&](auto tag) -> Variable {
    using T = typename decltype(tag)::type;
    if constexpr (std::is_floating_point_v<T>)
      if (s.variances)
        return makeVariable<T>(Dimensions(bd, n), units::counts, Values{}, Variances{});
    return makeVariable<T>(Dimensions(bd, n), units::counts);
  });
  fill_weights(rng, w, s);
  DataArray table(w);
  std::vector<Real> xs;
  for (int64_t i = 0; i < n; ++i)
    xs.push_back(rand_event(rng, some, s));
  table.coords().set(hx, [&] {
    Variable v = for_number(s.types.coord, [&](auto tag) -> Variable { return makeVariable<typename decltype(tag)::type>(Dimensions(bd, n), s.types.unit); });
    for (int64_t i = 0; i < n; ++i)
      put(v, {{bd, i}}, xs[size_t(i)]);
    return v;
  }());
  std::vector<Variable> event_masks;
  if (rng.chance(1, 3)) {
    event_masks.push_back(copy(rand_var(rng, dtype<bool>, Dimensions(bd, n), {false, false, false, units::none})));
    table.masks().set("em", event_masks.back());
  }
  DataArray a(dataset::make_bins_no_validate(indices, bd, table));
  const auto masks = dims.volume() > 1000 ? std::vector<Variable>{} : rand_masks(rng, dims);
  for (size_t i = 0; i < masks.size(); ++i)
    a.masks().set("m" + std::to_string(i), masks[i]);
  for (const auto &l : dims.labels())
    if (rng.chance(1, 3))
      a.coords().set(l, rand_coord(rng, l, dims[l] + (rng.chance(1, 2) ? 1 : 0), {}, units::m));
  const bool small = dims.volume() < 1000;
  const auto was = small ? full(a) : std::string{};
  const auto what = STR(s.kind << " edges " << (nedge < 30 ? full(edges) : "") << " histogram of " << (small ? brief(full(a)) : show(dims)));
  const auto out = dataset::histogram(a, edges);
  auto rest = dims;
  if (rest.contains(hx))
    rest.erase(hx);
  auto expected = rest;
  expected.addInner(hx, nedge - 1);
  check_header(out, expected, a, edges, hx, s, what);
  each_index(rest, [&](const IndexMap &at) {
    std::vector<Sum> sums(size_t(nedge - 1));
    for (int64_t k = 0; k < (dims.contains(hx) ? dims[hx] : 1); ++k) {
      auto f = at;
      if (dims.contains(hx))
        f.emplace_back(hx, k);
      if (dims.contains(hx) && masked(masks, f, hx))
        continue;
      const auto &r = raw_range(a.data(), f);
      for (auto i = r.first; i < r.second; ++i) {
        if (masked(event_masks, {{bd, i}}, bd))
          continue;
        const auto b = nedge < 30 ? bin_of(xs[size_t(i)], some) : [&]() -> int64_t {
          const auto it = std::upper_bound(some.begin(), some.end(), xs[size_t(i)]);
          return std::isnan(xs[size_t(i)]) || it == some.begin() || it == some.end() ? -1 : it - some.begin() - 1;
        }();
        if (b >= 0)
          sums[size_t(b)].add(num(w, {{bd, i}}), s.variances ? var_num(w, {{bd, i}}) : 0);
      }
    }
    for (size_t i = 0; i < sums.size(); ++i) {
      auto f = at;
      f.emplace_back(hx, int64_t(i));
      check_bin(out.data(), f, sums[i], what);
    }
  });
  if (small)
    CHECK("input-changed", full(a) == was, what);
  obs("binned-" + s.kind);
  if (dims.contains(hx))
    obs("rebinned");
  nontrivial(what);
}
} // namespace
SUITE(binned) {
  auto dims = rand_dims(rng, 3, 4);
  if (rng.chance(1, 2)) {
    if (rng.chance(1, 2))
      dims.addInner(hx, rng.in(0, 4));
    else
      dims.add(hx, rng.in(1, 4));
  }
  binned_case(rng, dims, rng.in(2, 10), rng.in(1, 12));
}
// beyond the limit above which bins are joined first
SUITE(binned_large) {
  if (rng.chance(1, 2))
    binned_case(rng, Dimensions(hx, 34000), 3003, 2);
  else
    binned_case(rng, Dimensions({Dim("y"), hx}, {2, 17000}), 3003, 2);
}

SUITE(datasets) {
  auto s = rand_setup(rng);
  const auto n = rng.in(0, 20), nedge = rng.in(2, 8);
  const auto some = rand_edges(rng, s, nedge);
  const auto edges = number_line(rng, s.types.edges, hx, some, s.types.unit);
  std::vector<Real> xs;
  for (int64_t i = 0; i < n; ++i)
    xs.push_back(rand_event(rng, some, s));
  Coords coords(Sizes(Dimensions(ev, n)), {});
  coords.set(hx, number_line(rng, s.types.coord, ev, xs, s.types.unit));
  Dataset ds({}, coords);
  for (const auto *name : {"a", "b"}) {
    Spec sp;
    sp.small = 30;
    ds.setData(name, rand_var(rng, rand_numeric(rng), Dimensions(ev, n), sp));
  }
  const auto out = dataset::histogram(ds, edges);
  const auto what = full(ds) + full(edges);
  for (const auto *name : {"a", "b"}) {
    CHECK("items", out.contains(name), what);
    std::vector<Sum> sums(size_t(nedge - 1));
    for (int64_t i = 0; i < n; ++i)
      if (const auto b = bin_of(xs[size_t(i)], some); b >= 0)
        sums[size_t(b)].add(num(ds[name].data(), {{ev, i}}), 0);
    for (size_t i = 0; i < sums.size(); ++i)
      check_bin(out[name].data(), {{hx, int64_t(i)}}, sums[i], what);
  }
  obs("datasets");
  nontrivial(what);
}

SUITE(refusals) {
  auto s = rand_setup(rng);
  const auto n = rng.in(1, 10), nedge = rng.in(3, 8);
  auto some = rand_edges(rng, s, nedge);
  std::vector<Real> xs;
  for (int64_t i = 0; i < n; ++i)
    xs.push_back(rand_event(rng, some, s));
  DataArray a(rand_var(rng, dtype<double>, Dimensions(ev, n), {}));
  a.coords().set(hx, number_line(rng, s.types.coord, ev, xs, s.types.unit));
  auto unit = s.types.unit;
  switch (rng.in(0, 2)) {
  case 0: {
    const auto i = size_t(rng.in(0, nedge - 2));
    std::swap(some[i], some[i + 1]);
    if (some[i] == some[i + 1])
      return;
    break;
  }
  case 1:
    unit = units::Unit("kg");
    if (s.types.edges == dtype<time_point>)
      unit = units::Unit("s");
    break;
  default: // already a histogram
    a = DataArray(rand_var(rng, dtype<double>, Dimensions(hx, n), {}));
    a.coords().set(hx, number_line(rng, dtype<double>, hx, [&] {
                     std::vector<Real> e;
                     for (int64_t i = 0; i <= n; ++i)
                       e.push_back(Real(i));
                     return e;
                   }(), s.types.unit));
  }
  const auto edges = number_line(rng, s.types.edges, hx, some, unit);
  const auto e = error_of([&] { return void(dataset::histogram(a, edges)); });
  CHECK("refusal", e.has_value(), "histogram of " << full(a) << " with edges " << full(edges) << " was accepted");
  obs("refused");
  nontrivial(full(a) + full(edges));
}
