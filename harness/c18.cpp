// C18: binning and grouping conserve every event with all its fields.
// Oracle: every event of the input is read from raw memory, its target bin
// found by comparing with all edges and groups, and the list of events of
// every output bin compared with the list of the model (relative order: input
// bins in row-major order of some order of the dimensions).
#include "events.h"
#include "scipp/dataset/bin.h"
#include "scipp/variable/util.h"
#include "vtbb.h"

using namespace vf;

namespace {
const Dim dx("x"), dy("y"), dg("group"), dother("other"), ev("event"), did("verif-id");
void random_tasks(Rng &rng) {
  auto &c = vtbb::control();
  c.mode = rng.pick({vtbb::Mode::serial, vtbb::Mode::shuffle, vtbb::Mode::finest});
  c.state = uint64_t(rng.in(1, 1 << 30));
}
struct Args {
  std::vector<Variable> edges, groups;
  std::vector<Dim> erase;
};
std::string show_args(const Args &a) {
  std::string s = "bin";
  for (const auto &e : a.edges)
    s += " edges " + brief(full(e));
  for (const auto &e : a.groups)
    s += " groups " + brief(full(e));
  for (const auto &e : a.erase)
    s += " erase " + e.name();
  return s;
}
struct Event {
  int64_t row;     // in the table
  IndexMap bin;    // of the input
  IndexMap target; // bin of the output
  bool hidden = false; // by a mask of dims that are kept
};
template <class V> bool has(const V &v, const Dim d) { return std::find(v.begin(), v.end(), d) != v.end(); }
Dim inner_of(const Variable &v) { return v.dims().inner(); }

// the value of the column (or coord of the bin) that decides about dim d
struct Key {
  Variable v;
  bool event = false;
};
int64_t group_of(const Variable &key, const IndexMap &at, const Variable &groups) {
  const auto d = inner_of(groups);
  for (int64_t i = 0; i < groups.dims()[d]; ++i) {
    const bool same = key.dtype() == dtype<std::string> ? raw_value<std::string>(key, at) == raw_value<std::string>(groups, {{d, i}}) : num(key, at) == num(groups, {{d, i}});
    if (same)
      return i;
  }
  return -1;
}

DataArray checked_bin(const DataArray &in, const Args &args, const std::string &history, const bool big = false, const bool kept_first = true) {
  static_cast<void>(kept_first);
  const bool dense = !is_bins(in);
  const auto table = dense ? in : in.data().bin_buffer<DataArray>();
  const auto edim = table.dims().inner();
  const Dimensions in_dims = dense ? Dimensions{} : in.dims();
  const auto what = history + show_args(args);
  const auto was = big ? std::string{} : full(in);
  DataArray out;
  const auto e = error_of([&] { out = dataset::bin(in, args.edges, args.groups, args.erase); });
  // Which dims change, which are kept, and which of those may lose masked bins
  std::vector<Dim> gone = args.erase, made;
  for (const auto *l : {&args.edges, &args.groups})
    for (const auto &v : *l)
      made.push_back(inner_of(v));
  std::vector<Dim> outer, kept; // before or after the first that is binned again
  bool again = false;
  for (const auto &d : in_dims.labels()) {
    again = again || has(made, d);
    if (!has(made, d) && !has(gone, d))
      (again ? kept : outer).push_back(d);
  }
  if (e) {
    bool conflict = false;
    for (const auto &d : kept)
      conflict = conflict || (in.meta().contains(d) && in.meta()[d].dims().ndim() != 1);
    CHECK("works", conflict, what << " failed: " << *e);
    obs("refused-2d-coord");
    return {};
  }
  if (!big)
    CHECK("input-changed", full(in) == was, what << " changed " << diff(full(in), was));
  // header
  Dimensions expected;
  for (const auto &d : in_dims.labels())
    if (!has(made, d) && !has(gone, d))
      expected.addInner(d, in_dims[d]);
  for (const auto &v : args.edges)
    expected.addInner(inner_of(v), v.dims()[inner_of(v)] - 1);
  for (const auto &v : args.groups)
    expected.addInner(inner_of(v), v.dims()[inner_of(v)]);
  CHECK("dims", out.dims().ndim() == expected.ndim() && std::all_of(expected.begin(), expected.end(), [&](const auto &l) { return out.dims().contains(l) && out.dims()[l] == expected[l]; }), what << " gave " << show(out.dims()));
  for (const auto *l : {&args.edges, &args.groups})
    for (const auto &v : *l) {
      CHECK("coord", out.coords().contains(inner_of(v)) && canon(out.coords()[inner_of(v)]) == canon(v), what << " has no or another coord " << inner_of(v).name());
      CHECK("aligned", out.coords()[inner_of(v)].is_aligned(), what);
    }
  const auto dropped = [&](const std::string &k) {
    for (const auto &v : args.groups)
      if (k == "coord " + inner_of(v).name())
        return true;
    return false;
  };
  const auto &ob = out.data().bin_buffer<DataArray>();
  const auto odim = ob.dims().inner();
  for (const auto &[k, v] : parts_of(table))
    if (v.dims().contains(edim)) {
      const auto x = parts_of(ob);
      CHECK("columns", x.count(k) == (dropped(k) ? 0 : 1), what << (x.count(k) ? " kept column " : " lost column ") << k);
      if (!dropped(k))
        CHECK("columns", header(x.at(k)) == header(v), what << " column " << k << " is " << header(x.at(k)));
    }
  if (!dense)
    for (const auto &[k, v] : parts_of(in)) {
      if (k == "data" || k.substr(0, 4) == "attr")
        continue;
      bool touched = false, replaced = false;
      for (const auto &d : v.dims().labels())
        touched = touched || has(made, d) || has(gone, d);
      for (const auto &d : made)
        replaced = replaced || k == "coord " + d.name();
      if (replaced)
        continue;
      const auto x = parts_of(out);
      CHECK("meta", x.count(k) == (touched ? 0 : 1), what << (touched ? " kept " : " lost ") << k);
      if (!touched)
        CHECK("meta", canon(x.at(k)) == canon(v), what << " has another " << k);
    }
  // events of the model
  std::vector<std::pair<Key, Variable>> edge_keys, group_keys;
  const auto key_of = [&](const Dim d) -> Key {
    if (table.meta().contains(d) && table.meta()[d].dims().contains(edim))
      return {table.meta()[d], true};
    if (table.meta().contains(d))
      return {table.meta()[d], false};
    return {in.meta()[d], false};
  };
  for (const auto &v : args.edges)
    edge_keys.emplace_back(key_of(inner_of(v)), v);
  for (const auto &v : args.groups)
    group_keys.emplace_back(key_of(inner_of(v)), v);
  std::vector<Event> events;
  const auto visit = [&](const IndexMap &bin, const int64_t b, const int64_t end) {
    bool hidden = false;
    if (!dense)
      for (const auto &[k, m] : in.masks()) {
        bool applied = false, maybe = false;
        for (const auto &d : m.dims().labels()) {
          applied = applied || has(made, d) || has(gone, d);
          maybe = maybe || has(kept, d);
        }
        if ((applied || maybe) && raw_value<bool>(m, sub(bin, m.dims()))) {
          if (applied) {
            obs("masked-events", end - b);
            return;
          }
          hidden = true;
        }
      }
    for (auto i = b; i < end; ++i) {
      Event x{i, bin, {}, hidden};
      bool inside = true;
      for (const auto &d : in_dims.labels())
        if (!has(made, d) && !has(gone, d))
          x.target.emplace_back(d, get(bin, d));
      for (const auto &[k, v] : edge_keys) {
        const auto d = inner_of(v);
        const auto c = num(k.v, k.event ? IndexMap{{edim, i}} : sub(bin, k.v.dims()));
        auto rest = v.dims();
        rest.erase(d);
        const auto at = bin_of(c, numbers(v, d, sub(bin, rest)));
        inside = inside && at >= 0;
        x.target.emplace_back(d, at);
      }
      for (const auto &[k, v] : group_keys) {
        const auto at = group_of(k.v, k.event ? IndexMap{{edim, i}} : sub(bin, k.v.dims()), v);
        inside = inside && at >= 0;
        x.target.emplace_back(inner_of(v), at);
      }
      if (inside)
        events.push_back(x);
      else
        obs("events-outside");
    }
  };
  if (dense)
    visit({}, 0, table.dims()[edim]);
  else
    each_index(in_dims, [&](const IndexMap &at) {
      const auto &r = raw_range(in.data(), at);
      visit(at, r.first, r.second);
    });
  const auto place = [&](const IndexMap &target) {
    int64_t p = 0;
    for (const auto &l : out.dims().labels())
      p = p * out.dims()[l] + get(target, l);
    return p;
  };
  std::vector<std::vector<const Event *>> model(size_t(out.dims().volume()));
  bool any_hidden = false;
  for (const auto &x : events) {
    model[size_t(place(x.target))].push_back(&x);
    any_hidden = any_hidden || x.hidden;
  }
  // all orders of the input dims
  std::vector<std::vector<Dim>> orders;
  auto order = label_list(in_dims);
  std::sort(order.begin(), order.end(), [](const auto &a, const auto &b) { return a.name() < b.name(); });
  do
    orders.push_back(order);
  while (std::next_permutation(order.begin(), order.end(), [](const auto &a, const auto &b) { return a.name() < b.name(); }));
  std::vector<std::pair<std::string, Variable>> columns;
  for (const auto &[k, v] : parts_of(table))
    if (v.dims().contains(edim) && !dropped(k))
      columns.emplace_back(k, v);
  const auto got_columns = parts_of(ob);
  const auto same_row = [&](const int64_t a, const int64_t b) {
    for (const auto &[k, v] : columns)
      if (text_of(v, {{edim, a}}) != text_of(got_columns.at(k), {{odim, b}}))
        return false;
    return true;
  };
  std::vector<bool> possible(orders.size(), true);
  const auto ids = [&](const DataArray &t, const int64_t i) { return raw_value<int64_t>(t.coords()[did], {{t.dims().inner(), i}}); };
  each_index(out.dims(), [&](const IndexMap &at) {
    const auto &r = raw_range(out.data(), at);
    auto list = model[size_t(place(at))];
    if (any_hidden && int64_t(list.size()) != r.second - r.first) {
      list.erase(std::remove_if(list.begin(), list.end(), [](const auto *x) { return x->hidden; }), list.end());
      obs("hidden-dropped");
    }
    const auto show_both = [&] {
      std::string s = " bin " + show(at) + " holds ids";
      for (auto i = r.first; i < r.second && i < r.first + 30; ++i)
        s += ' ' + std::to_string(ids(ob, i));
      s += " but expected";
      for (size_t i = 0; i < list.size() && i < 30; ++i)
        s += ' ' + std::to_string(ids(table, list[i]->row));
      return s;
    };
    CHECK("events", r.second - r.first == int64_t(list.size()), what << show_both());
    std::map<int64_t, const Event *> by_id;
    for (const auto *x : list)
      by_id.emplace(ids(table, x->row), x);
    for (auto i = r.first; i < r.second; ++i) {
      const auto f = by_id.find(ids(ob, i));
      CHECK("events", f != by_id.end(), what << show_both());
      CHECK("fields", same_row(f->second->row, i), what << " changed the fields of event " << f->first << ": " << row_of(ob, odim, i) << " from " << row_of(table, edim, f->second->row));
      obs("events-compared");
    }
    for (size_t k = 0; k < orders.size() && list.size() > 1; ++k)
      if (possible[k]) {
        auto sorted = list;
        std::stable_sort(sorted.begin(), sorted.end(), [&](const auto *a, const auto *b) {
          for (const auto &d : orders[k])
            if (get(a->bin, d) != get(b->bin, d))
              return get(a->bin, d) < get(b->bin, d);
          return a->row < b->row;
        });
        for (size_t i = 0; i < sorted.size(); ++i)
          if (ids(table, sorted[i]->row) != ids(ob, r.first + int64_t(i))) {
            possible[k] = false;
            break;
          }
      }
    CHECK("order", std::any_of(possible.begin(), possible.end(), [](const bool x) { return x; }), what << " mixed up the order," << show_both());
    obs("bins-compared");
  });
  // nothing else in the buffer of the result
  int64_t total = 0;
  each_index(out.dims(), [&](const IndexMap &at) { total += raw_range(out.data(), at).second - raw_range(out.data(), at).first; });
  CHECK("total", total <= ob.dims()[odim], what);
  return out;
}

// ---- input
struct World {
  DType tx = dtype<double>, ty = dtype<double>, tg = dtype<int64_t>;
  units::Unit ux = units::m, uy = units::s;
};
DType edge_type(Rng &rng, const DType coord) {
  if (coord == dtype<time_point>)
    return coord;
  if (rng.chance(2, 3))
    return coord;
  if (coord == dtype<int32_t>)
    return rng.pick({dtype<int64_t>, dtype<double>});
  if (coord == dtype<double>)
    return dtype<float>;
  return dtype<double>; // int64, float
}
World rand_world(Rng &rng) {
  World w;
  w.tx = rng.pick({dtype<double>, dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>, dtype<time_point>});
  w.ty = rng.pick({dtype<double>, dtype<int64_t>});
  w.tg = rng.pick({dtype<int64_t>, dtype<int64_t>, dtype<int32_t>, dtype<std::string>, dtype<bool>, dtype<double>, dtype<float>, dtype<time_point>});
  if (w.tx == dtype<time_point>)
    w.ux = units::ns;
  return w;
}
std::string group_name(const int64_t i) { return i == 0 ? "" : i == 1 ? "a" : i == 2 ? "a longer name than fits inline: " + std::to_string(i) : "g" + std::to_string(i); }
Variable group_values(Rng &rng, const DType t, const Dim d, const std::vector<int64_t> &g, const bool contiguous) {
  Variable v = for_dtype(t, [&](auto tag) -> Variable {
    using T = typename decltype(tag)::type;
    if constexpr (std::is_same_v<T, std::string> || std::is_arithmetic_v<T> || std::is_same_v<T, time_point>)
      return makeVariable<T>(Dimensions(d, int64_t(g.size())), t == dtype<time_point> ? units::ns : units::none);
    else
      fail("harness", "group type");
  });
  for (size_t i = 0; i < g.size(); ++i)
    if (t == dtype<std::string>)
      raw_set<std::string>(v, {{d, int64_t(i)}}, group_name(g[i]));
    else if (t == dtype<bool>)
      raw_set<bool>(v, {{d, int64_t(i)}}, g[i] % 2 != 0);
    else
      put(v, {{d, int64_t(i)}}, floating(t) ? Real(g[i]) / 4 : Real(g[i]));
  return contiguous ? v : vf::relayout(rng, v);
}
Variable rand_groups(Rng &rng, const World &w, const Dim d) {
  std::vector<int64_t> g;
  if (w.tg == dtype<bool>) {
    g = rng.pick<std::vector<int64_t>>({{0}, {1}, {0, 1}, {1, 0}});
  } else if (rng.chance(1, 2)) { // contiguous
    const auto from = rng.in(-1, 3);
    for (int64_t i = 0, n = rng.in(1, 5); i < n; ++i)
      g.push_back(from + i);
  } else {
    for (int64_t i = -2; i < 8; ++i)
      if (rng.chance(1, 2))
        g.push_back(i);
    rng.shuffle(g);
  }
  auto t = w.tg;
  if (t == dtype<int64_t> && rng.chance(1, 4))
    t = dtype<int32_t>;
  else if (t == dtype<int32_t> && rng.chance(1, 4))
    t = dtype<int64_t>;
  return group_values(rng, t, d, g, false);
}
std::vector<Real> fitting(Rng &rng, const int64_t n, const DType t, const DType with, const bool strict) {
  for (;;) {
    auto e = rand_ascending(rng, n, t, strict);
    if (std::all_of(e.begin(), e.end(), [&](const auto x) { return exact(x, common(t, with)) && exact(x, with); }))
      return e;
  }
}
Real near(Rng &rng, const std::vector<Real> &e, const DType t, const DType with) {
  for (int i = 0; i < 20; ++i) {
    const auto x = rand_near(rng, e, t);
    if (exact(x, common(t, with)) && (t == dtype<double> || with == dtype<double> || t == with || exact(x, with)))
      return x;
  }
  return 0;
}
// an event coordinate inside of bin k of the edges, or of points anything
Real inside(Rng &rng, const Variable &edges, const IndexMap &at, const Dim d, const DType t, const DType with) {
  const auto usable = [&](const Real x) { return exact(x, common(t, with)) && (t == dtype<double> || with == dtype<double> || t == with || exact(x, with)); };
  const auto k = get(at, d);
  auto f = at, g = at;
  for (auto &p : f)
    if (p.first == d)
      p.second = k;
  for (auto &p : g)
    if (p.first == d)
      p.second = k + 1;
  auto a = num(edges, sub(f, edges.dims())), b = num(edges, sub(g, edges.dims()));
  if (a > b)
    std::swap(a, b);
  switch (rng.in(0, 3)) {
  case 0:
    break;
  case 1:
    if (const auto x = next_up(snap(b, t), t, false); x >= a && x < b && usable(x))
      return x;
    break;
  default:
    if (const auto x = snap(a + (b - a) * Real(rng.in(0, 8)) / 8, t); x >= a && x < b && usable(x))
      return x;
  }
  return a;
}
// table with columns x, y, group, id, weights and others
DataArray rand_events(Rng &rng, const World &w, const int64_t n, const Dim d, const std::vector<Real> &ex, const std::vector<Real> &ey, const DType etx, const DType ety) {
  Spec s;
  const Dimensions dims(d, n);
  s.specials = rng.chance(1, 2);
  s.variances = rng.chance(1, 2);
  const auto rand_var = [](Rng &r, const DType t, const Dimensions &di, const Spec &sp) { return copy(vf::rand_var(r, t, di, sp)); };
  auto t = n > 1000 ? dtype<double> : rng.pick({dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>});
  DataArray a(rand_var(rng, t, dims, s));
  s = {};
  const auto line = [&](const DType ty, const units::Unit &u, const std::vector<Real> &e, const DType with) {
    Variable v = for_number(ty, [&](auto tag) -> Variable { return makeVariable<typename decltype(tag)::type>(dims, u); });
    for (int64_t i = 0; i < n; ++i)
      put(v, {{d, i}}, near(rng, e, ty, with));
    return v;
  };
  a.coords().set(dx, line(w.tx, w.ux, ex, etx));
  a.coords().set(dy, line(w.ty, w.uy, ey, ety));
  std::vector<int64_t> g, id;
  for (int64_t i = 0; i < n; ++i) {
    g.push_back(rng.in(-2, 7));
    id.push_back(1000000 + i * 7);
  }
  a.coords().set(dg, group_values(rng, w.tg, d, g, true));
  a.coords().set(did, makeVariable<int64_t>(dims, units::none, Values(id)));
  if (n < 1000) {
    if (rng.chance(1, 3))
      a.coords().set(Dim("text"), rand_var(rng, dtype<std::string>, dims, s));
    if (rng.chance(1, 3))
      a.coords().set(Dim("position"), rand_var(rng, dtype<Eigen::Vector3d>, dims, s));
    if (rng.chance(1, 3))
      a.masks().set("em", rand_var(rng, dtype<bool>, dims, {false, false, false, units::none}));
    if (rng.chance(1, 4))
      a.attrs().set(Dim("note"), rand_var(rng, dtype<int32_t>, dims, s));
    if (rng.chance(1, 4))
      a.coords().set(Dim("one"), 1.5 * units::K);
  }
  return a;
}
struct Plan {
  World w;
  DType etx, ety;
  std::vector<Real> ex, ey;
};
Plan rand_plan(Rng &rng, const int64_t nx, const int64_t ny) {
  Plan p;
  p.w = rand_world(rng);
  p.etx = edge_type(rng, p.w.tx);
  p.ety = edge_type(rng, p.w.ty);
  p.ex = fitting(rng, nx, p.etx, p.w.tx, false);
  p.ey = fitting(rng, ny, p.ety, p.w.ty, false);
  return p;
}
Variable edges_x(Rng &rng, const Plan &p) { return number_line(rng, p.etx, dx, p.ex, p.w.ux); }
Variable edges_y(Rng &rng, const Plan &p) { return number_line(rng, p.ety, dy, p.ey, p.w.uy); }
// a random choice of dimensions to make and to remove
Args rand_args(Rng &rng, const Plan &p, const Dimensions &dims) {
  Args a;
  for (;;) {
    a = {};
    if (rng.chance(3, 5))
      a.edges.push_back(edges_x(rng, p));
    if (rng.chance(2, 5))
      a.edges.push_back(edges_y(rng, p));
    if (a.edges.size() == 2 && rng.chance(1, 2))
      std::swap(a.edges[0], a.edges[1]);
    if (rng.chance(1, 3))
      a.groups.push_back(rand_groups(rng, p.w, dg));
    if (!a.edges.empty() || !a.groups.empty())
      break;
  }
  for (const auto &d : dims.labels()) {
    bool made = false;
    for (const auto *l : {&a.edges, &a.groups})
      for (const auto &v : *l)
        made = made || inner_of(v) == d;
    if (!made && rng.chance(1, 4))
      a.erase.push_back(d);
  }
  rng.shuffle(a.erase);
  return a;
}
} // namespace

SUITE(tables) {
  random_tasks(rng);
  const auto p = rand_plan(rng, rng.in(2, 7), rng.in(2, 5));
  const auto d = rng.chance(1, 5) ? dx : ev;
  const auto n = rng.in(0, 40);
  const auto t = rand_events(rng, p.w, n, d, p.ex, p.ey, p.etx, p.ety);
  auto args = rand_args(rng, p, {});
  if (d == dx && n + 1 == int64_t(p.ex.size()))
    return;
  if (d == dx && (args.edges.empty() || (inner_of(args.edges[0]) != dx && inner_of(args.edges.back()) != dx)))
    return;
  const auto what = brief(full(t));
  checked_bin(t, args, what + "\n");
  obs("tables");
  nontrivial(what + show_args(args));
}

namespace {
// Binned input whose bin edges agree with the events.
DataArray rand_binned(Rng &rng, const Plan &p, Dimensions dims, std::string &kinds, const int64_t max_size = 6) {
  const auto like = rand_bins(rng, dtype<double>, dims, {}, int(max_size));
  const auto &[indices, bd, buf] = like.constituents<Variable>();
  const auto n = buf.dims()[bd];
  auto t = rand_events(rng, p.w, n, bd, p.ex, p.ey, p.etx, p.ety);
  DataArray a;
  Parts coords;
  for (const auto &d : dims.labels()) {
    const bool number = d == dx || d == dy;
    const auto type = d == dx ? p.w.tx : d == dy ? p.w.ty : dtype<double>;
    const auto unit = d == dx ? p.w.ux : d == dy ? p.w.uy : units::m;
    const auto with = d == dx ? p.etx : d == dy ? p.ety : dtype<double>;
    const auto kind = rng.in(0, 6);
    if (d == dg) {
      if (rng.chance(1, 2)) { // the group of all events in the bin
        std::vector<int64_t> g;
        for (int64_t i = 0; i < dims[d]; ++i)
          g.push_back(rng.in(-2, 7));
        coords["group"] = group_values(rng, p.w.tg, dg, g, false);
        if (rng.chance(1, 2))
          t.coords().erase(dg);
        kinds += " group-coord";
      }
      continue;
    }
    if (!number) {
      if (rng.chance(1, 2))
        coords[d.name()] = rand_coord(rng, d, dims[d] + (rng.chance(1, 2) ? 1 : 0), {}, units::m);
      continue;
    }
    if (kind == 0) {
      kinds += ' ' + d.name() + "-none";
      continue;
    }
    auto cd = dims;
    if (kind != 1) { // one dimension
      cd = Dimensions(d, dims[d]);
    } else {
      cd = Dimensions{};
      for (const auto &l : dims.labels())
        if (l == d || rng.chance(1, 2))
          cd.addInner(l, dims[l]);
    }
    if (kind <= 4) { // edges
      auto rest = cd;
      rest.erase(d);
      cd.resize(d, cd[d] + 1);
      cd = rng.chance(1, 2) ? shuffled(rng, cd) : cd;
      Variable e = number_var(rng, type, cd, unit);
      const bool down = rng.chance(1, 4);
      each_index(rest, [&](const IndexMap &at) {
        auto x = fitting(rng, cd[d], type, with, true);
        // mostly in the range of the new edges
        const auto &mine = d == dx ? p.ex : p.ey;
        if (rng.chance(2, 3)) {
          std::set<Real> some;
          for (int i = 0; i < 200 && int64_t(some.size()) < cd[d]; ++i)
            if (const auto y = near(rng, mine, type, with); std::isfinite(double(y)))
              some.insert(y == 0 ? 0 : y);
          if (int64_t(some.size()) == cd[d])
            x.assign(some.begin(), some.end());
        }
        if (down)
          std::reverse(x.begin(), x.end());
        for (int64_t i = 0; i < cd[d]; ++i) {
          auto f = at;
          f.emplace_back(d, i);
          put(e, f, x[size_t(i)]);
        }
      });
      auto writable = copy(t.coords()[d]);
      const auto &ind = indices;
      each_index(dims, [&](const IndexMap &at) {
        const auto r = raw_value<scipp::index_pair>(ind, at);
        for (auto i = r.first; i < r.second; ++i)
          put(writable, {{bd, i}}, inside(rng, e, at, d, type, with));
      });
      t.coords().set(d, writable);
      coords[d.name()] = e;
      kinds += ' ' + d.name() + (down ? "-down" : "-edges") + std::to_string(cd.ndim());
    } else { // points
      Variable c = number_var(rng, type, cd, unit);
      each_index(cd, [&](const IndexMap &at) { put(c, at, near(rng, d == dx ? p.ex : p.ey, type, with)); });
      if (rng.chance(1, 2) && cd.ndim() == 1) {
        auto x = numbers(c, d);
        for (auto &v : x)
          if (std::isnan(v))
            v = 1;
        std::sort(x.begin(), x.end());
        for (int64_t i = 0; i < cd[d]; ++i)
          put(c, {{d, i}}, x[size_t(i)]);
      }
      coords[d.name()] = c;
      if (rng.chance(1, 2)) {
        t.coords().erase(d);
        kinds += ' ' + d.name() + "-points-only" + std::to_string(cd.ndim());
      } else {
        kinds += ' ' + d.name() + "-points" + std::to_string(cd.ndim());
      }
    }
  }
  a = DataArray(dataset::make_bins_no_validate(indices, bd, t));
  for (const auto &[k, v] : coords)
    if (rng.chance(1, 5))
      a.attrs().set(Dim(k), v);
    else
      a.coords().set(Dim(k), v);
  for (auto m = rng.in(0, 5) - 3; m > 0; --m)
    a.masks().set("m" + std::to_string(m), rand_var(rng, dtype<bool>, sub_dims(rng, dims), {false, false, false, units::none}));
  if (rng.chance(1, 4))
    a.coords().set(Dim("aux"), rand_var(rng, dtype<double>, sub_dims(rng, dims), {}));
  return a;
}
Dimensions rand_bin_dims(Rng &rng) {
  Dimensions dims;
  auto all = std::vector<Dim>{dx, dy, dg, dother, Dim("z")};
  rng.shuffle(all);
  for (auto n = rng.in(0, 3); n > 0; --n)
    dims.addInner(all[size_t(n)], rng.chance(1, 12) ? 0 : rng.in(1, 4));
  return dims;
}
} // namespace

SUITE(binned) {
  random_tasks(rng);
  const auto p = rand_plan(rng, rng.in(2, 7), rng.in(2, 5));
  const auto dims = rand_bin_dims(rng);
  std::string kinds;
  const auto a = rand_binned(rng, p, dims, kinds);
  auto args = rand_args(rng, p, dims);
  const auto &t = a.data().bin_buffer<DataArray>();
  // a coordinate that only the edges of bins hold cannot be used
  for (const auto *l : {&args.edges, &args.groups})
    for (const auto &v : *l) {
      const auto d = inner_of(v);
      if (!t.coords().contains(d) && !a.meta().contains(d))
        return;
    }
  // edges that differ from bin to bin of a dimension that stays outside
  if (rng.chance(1, 6) && !args.edges.empty()) {
    for (const auto &d : dims.labels()) {
      bool plain = true;
      for (const auto *l : {&args.edges, &args.groups})
        for (const auto &v : *l)
          plain = plain && inner_of(v) != d;
      if (!plain || has(args.erase, d))
        break;
      auto &e = args.edges[0];
      const auto ed = inner_of(e);
      std::vector<Variable> parts;
      for (int64_t i = 0; i < dims[d]; ++i) {
        const auto x = fitting(rng, e.dims()[ed], ed == dx ? p.etx : p.ety, ed == dx ? p.w.tx : p.w.ty, false);
        parts.push_back(i % 2 ? number_line(rng, e.dtype(), ed, x, e.unit()) : copy(args.edges[0].dims().ndim() == 1 ? e : e.slice({d, 0})));
      }
      if (parts.size() > 1) {
        e = concat(parts, d);
        if (e.dims().inner() != ed)
          e = copy(transpose(e));
        obs("edges-2d");
      }
      break;
    }
  }
  const auto what = STR("input" << kinds << ' ' << brief(full(a)) << '\n');
  if (const auto out = checked_bin(a, args, what); out.is_valid()) {
    obs("binned");
    if (!a.masks().empty())
      obs("masked");
    for (const auto &v : args.edges)
      if (dims.contains(inner_of(v)))
        obs("rebinned");
    if (!args.erase.empty())
      obs("erased");
    if (!args.groups.empty())
      obs("grouped");
  }
  nontrivial(what + show_args(args));
}

SUITE(histories) {
  random_tasks(rng);
  auto p = rand_plan(rng, rng.in(2, 7), rng.in(2, 5));
  DataArray a = rand_events(rng, p.w, rng.in(0, 60), ev, p.ex, p.ey, p.etx, p.ety);
  std::string history = brief(full(a)) + '\n';
  for (int64_t i = 0, n = rng.in(2, 5); i < n; ++i) {
    const bool dense = !is_bins(a);
    const auto dims = dense ? Dimensions{} : a.dims();
    if (!dense && !dims.empty() && rng.chance(1, 3)) {
      const auto d = label_list(dims)[size_t(rng.in(0, dims.ndim() - 1))];
      if (rng.chance(1, 3) && dims[d] > 0) {
        const auto k = rng.in(0, dims[d] - 1);
        a = a.slice({d, k});
        history += STR("slice " << d.name() << ' ' << k << '\n');
      } else {
        const auto b = rng.in(0, dims[d]), e = rng.in(b, dims[d]);
        a = a.slice({d, b, e});
        history += STR("slice " << d.name() << ' ' << b << ':' << e << '\n');
      }
      obs("sliced");
      continue;
    }
    p.ex = fitting(rng, rng.in(2, 7), p.etx, p.w.tx, false);
    if (rng.chance(1, 2)) { // share edges with what there is
      for (auto &x : p.ex)
        if (!p.ey.empty() && rng.chance(1, 2))
          x = near(rng, p.ex, p.etx, p.w.tx);
      for (auto &x : p.ex)
        if (std::isnan(x) || !exact(x, p.w.tx))
          x = 0;
      std::sort(p.ex.begin(), p.ex.end());
    }
    auto args = rand_args(rng, p, dims);
    const auto &t = dense ? a : a.data().bin_buffer<DataArray>();
    bool ok = true;
    for (const auto *l : {&args.edges, &args.groups})
      for (const auto &v : *l)
        ok = ok && (t.coords().contains(inner_of(v)) || (a.meta().contains(inner_of(v)) && (a.dims().contains(inner_of(v)) ? a.meta()[inner_of(v)].dims()[inner_of(v)] == a.dims()[inner_of(v)] : a.meta()[inner_of(v)].dims().empty())));
    if (!ok)
      continue;
    if (rng.chance(1, 4) && !dense) {
      a = copy(a);
      a.masks().set("m" + std::to_string(i), rand_var(rng, dtype<bool>, sub_dims(rng, dims), {false, false, false, units::none}));
    }
    if (const auto out = checked_bin(a, args, history); out.is_valid()) {
      history += show_args(args) + '\n';
      a = out;
      obs("steps");
    }
  }
  nontrivial(history);
}

// more events than are handled by one task, and many bins
SUITE(large) {
  random_tasks(rng);
  const auto many = rng.in(0, 3);
  const int64_t nx = many == 0 ? rng.in(2, 60) : rng.pick({300, 4000, 16386, 20001, 40000}), ny = many < 2 ? 2 : 4;
  Plan p;
  p.w.tg = dtype<int64_t>;
  p.etx = p.ety = dtype<double>;
  const bool even = rng.chance(1, 2);
  for (int64_t i = 0; i < nx; ++i)
    p.ex.push_back(even ? Real(i) : Real(i) + Real(rng.in(0, 3)) / 4);
  for (int64_t i = 0; i < ny; ++i)
    p.ey.push_back(Real(i) * 10);
  const auto n = rng.pick<int64_t>({3000, 100001, 100003});
  auto t = rand_events(rng, p.w, n, ev, p.ex, p.ey, p.etx, p.ety);
  Args args;
  args.edges.push_back(edges_x(rng, p));
  if (rng.chance(1, 2))
    args.edges.push_back(edges_y(rng, p));
  if (rng.chance(1, 3))
    args.groups.push_back(rand_groups(rng, p.w, dg));
  const auto quick = [&](const DataArray &in, const Args &what, const std::string &s) {
    const auto out = dataset::bin(in, what.edges, what.groups, what.erase);
    // place of every event, in order
    const bool dense = !is_bins(in);
    const auto table = dense ? in : in.data().bin_buffer<DataArray>();
    const auto edim = table.dims().inner();
    std::map<Dim, std::vector<Real>> lists;
    for (const auto *l : {&what.edges, &what.groups})
      for (const auto &v : *l)
        lists[inner_of(v)] = numbers(v, inner_of(v));
    const auto *x = table.coords()[dx].values<double>().data();
    const auto *y = table.coords()[dy].values<double>().data();
    const auto *g = table.coords().contains(dg) ? table.coords()[dg].values<int64_t>().data() : nullptr;
    const auto *w = table.data().values<double>().data();
    const auto *id = table.coords()[did].values<int64_t>().data();
    const auto place = [&](const IndexMap &at) {
      int64_t p = 0;
      for (const auto &l : out.dims().labels())
        p = p * out.dims()[l] + get(at, l);
      return p;
    };
    std::vector<std::vector<int64_t>> model(size_t(out.dims().volume()));
    const auto find = [&](const Dim d, const Real c) -> int64_t {
      const auto &l = lists.at(d);
      if (d == dg) {
        const auto it = std::find(l.begin(), l.end(), c);
        return it == l.end() ? -1 : it - l.begin();
      }
      const auto it = std::upper_bound(l.begin(), l.end(), c);
      return std::isnan(c) || it == l.begin() || it == l.end() ? -1 : it - l.begin() - 1;
    };
    const auto visit = [&](const IndexMap &at, const int64_t b, const int64_t e) {
      for (auto i = b; i < e; ++i) {
        IndexMap target;
        bool in_all = true;
        for (const auto &l : out.dims().labels()) {
          const auto k = !lists.count(l) ? get(at, l) : find(l, l == dx ? Real(x[i]) : l == dy ? Real(y[i]) : Real(g[i]));
          in_all = in_all && k >= 0;
          target.emplace_back(l, k);
        }
        if (in_all)
          model[size_t(place(target))].push_back(i);
      }
    };
    if (dense)
      visit({}, 0, table.dims()[edim]);
    else
      each_index(in.dims(), [&](const IndexMap &at) { visit(at, raw_range(in.data(), at).first, raw_range(in.data(), at).second); });
    const auto &ob = out.data().bin_buffer<DataArray>();
    const auto *ox = ob.coords()[dx].values<double>().data();
    const auto *oy = ob.coords()[dy].values<double>().data();
    const auto *ow = ob.data().values<double>().data();
    const auto *oid = ob.coords()[did].values<int64_t>().data();
    const bool ordered = dense || in.dims().ndim() < 2;
    each_index(out.dims(), [&](const IndexMap &at) {
      const auto &r = raw_range(out.data(), at);
      auto &list = model[size_t(place(at))];
      CHECK("events", r.second - r.first == int64_t(list.size()), s << " bin " << show(at) << " holds " << r.second - r.first << " but expected " << list.size());
      std::map<int64_t, int64_t> row;
      for (const auto i : list)
        row[id[i]] = i;
      for (auto i = r.first; i < r.second; ++i) {
        CHECK("events", row.count(oid[i]), s << " bin " << show(at) << " holds event " << oid[i]);
        const auto k = row[oid[i]];
        CHECK("fields", std::memcmp(x + k, ox + i, 8) == 0 && std::memcmp(y + k, oy + i, 8) == 0 && std::memcmp(w + k, ow + i, 8) == 0, s << " changed event " << oid[i]);
        if (ordered)
          CHECK("order", list[size_t(i - r.first)] == k, s << " order of bin " << show(at));
        obs("events-compared");
      }
      obs("bins-compared");
    });
    return out;
  };
  const auto s = STR(n << " events in " << nx << " x " << ny << (even ? " even" : "") << " edges, " << args.groups.size() << " groups");
  auto out = quick(t, args, s);
  if (rng.chance(2, 3)) { // again, along the inner or outer dimension
    Args more;
    Plan q = p;
    q.ex.clear();
    const auto m = rng.pick<int64_t>({3, 500, 17000, 33000});
    for (int64_t i = 0; i < m; ++i)
      q.ex.push_back(Real(i) * Real(nx) / Real(m) + (rng.chance(1, 2) ? 0.25L : 0));
    std::sort(q.ex.begin(), q.ex.end());
    if (rng.chance(1, 3) && out.dims().contains(dy))
      more.edges.push_back(edges_y(rng, q));
    else
      more.edges.push_back(edges_x(rng, q));
    if (out.dims().volume() < 50000 || !more.edges.empty()) {
      quick(out, more, s + STR(", again in " << m));
      obs("again");
    }
  }
  obs("large");
  nontrivial(s);
}

SUITE(refusals) {
  const auto p = rand_plan(rng, rng.in(3, 7), rng.in(2, 5));
  const auto n = rng.in(1, 10);
  const bool binned = rng.chance(1, 2);
  std::string kinds;
  auto a = binned ? rand_binned(rng, p, Dimensions(dother, 3), kinds) : rand_events(rng, p.w, n, ev, p.ex, p.ey, p.etx, p.ety);
  Args args;
  std::string why;
  switch (rng.in(0, 6)) {
  case 0: {
    auto e = p.ex;
    const auto i = size_t(rng.in(0, int64_t(e.size()) - 2));
    std::swap(e[i], e[i + 1]);
    if (e[i] == e[i + 1])
      return;
    args.edges.push_back(number_line(rng, p.etx, dx, e, p.w.ux));
    why = "unsorted edges";
    break;
  }
  case 1:
    args.edges.push_back(number_line(rng, p.etx, dx, {p.ex[0]}, p.w.ux));
    why = "one edge";
    break;
  case 2:
    args.edges.push_back(number_line(rng, p.ety, Dim("unknown"), p.ey, p.w.uy));
    why = "no such coordinate";
    break;
  case 3:
    args.edges.push_back(number_line(rng, p.ety, dy, p.ey, units::kg));
    why = "unit";
    break;
  case 4:
    if (p.w.tg == dtype<bool>)
      return;
    args.groups.push_back(group_values(rng, p.w.tg, dg, {3, 5, 3}, false));
    why = "duplicate groups";
    break;
  case 5:
    why = "no arguments";
    break;
  default:
    if (binned)
      return;
    a = DataArray(rand_var(rng, dtype<double>, Dimensions({dother, ev}, {2, n}), {}));
    a.coords().set(dx, number_line(rng, p.w.tx, ev, std::vector<Real>(size_t(n), 1), p.w.ux));
    args.edges.push_back(edges_x(rng, p));
    why = "two-dimensional table";
  }
  if (binned && !a.data().bin_buffer<DataArray>().coords().contains(why == "duplicate groups" ? dg : dy))
    return;
  const auto was = full(a);
  const auto e = error_of([&] { return void(dataset::bin(a, args.edges, args.groups)); });
  CHECK("refusal", e.has_value(), why << ": " << show_args(args) << " of " << was << " was accepted");
  CHECK("input-changed", full(a) == was, why);
  obs("refused");
  nontrivial(why + was);
}
