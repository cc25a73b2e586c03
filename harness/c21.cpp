// C21: binned data as an array of independent event lists.
// Oracle: nested lists of events (as text of every field, from raw memory),
// carried through histories of operations next to the library's objects.
#include "events.h"
#include "scipp/dataset/bins.h"
#include "scipp/dataset/shape.h"
#include "vtbb.h"

using namespace vf;

namespace {
using List = std::vector<std::string>;
void random_tasks(Rng &rng) {
  auto &c = vtbb::control();
  c.mode = rng.pick({vtbb::Mode::serial, vtbb::Mode::shuffle, vtbb::Mode::finest});
  c.state = uint64_t(rng.in(1, 1 << 30));
}
std::string event_text(const Variable &buffer, const Dim d, const int64_t i) { return text_at(buffer, buffer.dims().contains(d) ? IndexMap{{d, i}} : IndexMap{}); }
std::string event_text(const DataArray &buffer, const Dim d, const int64_t i) {
  std::string s;
  for (const auto &[k, v] : parts_of(buffer))
    s += k + '=' + event_text(v, d, i) + ' ';
  return s;
}
std::string event_text(const Dataset &buffer, const Dim d, const int64_t i) {
  std::map<std::string, std::string> parts;
  for (const auto &[k, v] : buffer.coords())
    parts["coord " + k.name()] = event_text(v, d, i);
  for (const auto &item : buffer)
    for (const auto &[k, v] : parts_of(item))
      parts[item.name() + ' ' + k] = event_text(v, d, i);
  std::string s;
  for (const auto &[k, v] : parts)
    s += k + '=' + v + ' ';
  return s;
}
template <class T> List events_in(const Variable &v, const IndexMap &at) {
  const auto &[indices, d, buffer] = v.constituents<T>();
  const auto r = raw_range(v, at);
  CHECK("range", 0 <= r.first && r.first <= r.second && (r.first == r.second || r.second <= [&] { if constexpr (std::is_same_v<T, Dataset>) return buffer.sizes()[d]; else return buffer.dims()[d]; }()), "bin [" << r.first << ',' << r.second << ") lies outside of its table");
  List l;
  for (auto i = r.first; i < r.second; ++i)
    l.push_back(event_text(buffer, d, i));
  return l;
}
List events_of(const Variable &v, const IndexMap &at) {
  if (v.dtype() == dtype<core::bucket<Variable>>)
    return events_in<Variable>(v, at);
  if (v.dtype() == dtype<core::bucket<DataArray>>)
    return events_in<DataArray>(v, at);
  return events_in<Dataset>(v, at);
}
std::string list_text(const List &l) {
  std::string s;
  for (const auto &x : l)
    s += x + "; ";
  return '{' + s + '}';
}
struct Model {
  Dimensions dims;
  std::map<std::vector<int64_t>, List> bins;
  std::vector<int64_t> key(const IndexMap &at) const {
    std::vector<int64_t> k;
    for (const auto &l : dims.labels())
      k.push_back(get(at, l));
    return k;
  }
  List &at(const IndexMap &i) { return bins[key(i)]; }
  const List &at(const IndexMap &i) const { return bins.at(key(i)); }
};
Model model_of(const Variable &v) {
  Model m;
  m.dims = v.dims();
  each_index(m.dims, [&](const IndexMap &at) { m.at(at) = events_of(v, at); });
  return m;
}
std::string model_text(const Model &m) {
  std::string s = show(m.dims);
  for (const auto &[k, l] : m.bins)
    s += ' ' + list_text(l);
  return s;
}
bool same_dims(const Dimensions &a, const Dimensions &b) {
  return a.ndim() == b.ndim() && std::all_of(a.begin(), a.end(), [&](const auto &l) { return b.contains(l) && b[l] == a[l]; });
}
void compare(const Variable &v, const Model &m, const std::string &what) {
  CHECK("dims", same_dims(v.dims(), m.dims), what << " gave " << show(v.dims()) << ", not " << show(m.dims));
  each_index(m.dims, [&](const IndexMap &at) {
    const auto got = events_of(v, at);
    CHECK("events", got == m.at(at), what << " bin " << show(at) << " holds " << list_text(got) << ", not " << list_text(m.at(at)));
    obs("bins-compared");
    obs("events-compared", int64_t(got.size()));
  });
  // bins of what the library made do not share events
  std::vector<std::pair<int64_t, int64_t>> ranges;
  each_index(m.dims, [&](const IndexMap &at) { const auto r = raw_range(v, at); if (r.second > r.first) ranges.emplace_back(r.first, r.second); });
  std::sort(ranges.begin(), ranges.end());
  for (size_t i = 1; i < ranges.size(); ++i)
    CHECK("overlap", ranges[i - 1].second <= ranges[i].first, what);
}
ArraySpec table_spec(Rng &rng) {
  ArraySpec s;
  s.type = rng.pick({dtype<double>, dtype<float>, dtype<int64_t>});
  s.data.unit = units::counts;
  s.data.variances = rng.chance(1, 3) && s.type != dtype<int64_t>;
  return s;
}
// a buffer with the fields of `kind` and n events
struct Kind {
  int container = 0; // Variable, DataArray, Dataset
  DType type = dtype<double>;
  bool variances = false, mask = false, coord = false, attr = false;
  Dim d = Dim("event");
};
Kind rand_kind(Rng &rng) {
  Kind k;
  k.container = int(rng.in(0, 2));
  k.type = k.container ? rng.pick({dtype<double>, dtype<float>, dtype<int64_t>}) : rng.pick({dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>, dtype<bool>, dtype<std::string>, dtype<time_point>, dtype<Eigen::Vector3d>});
  k.variances = rng.chance(1, 3) && floating(k.type);
  k.mask = rng.chance(1, 2);
  k.coord = rng.chance(2, 3);
  k.attr = rng.chance(1, 4);
  return k;
}
int64_t serial = 0;
// the coordinates hold a number that no other event has
Variable identities(const Dim d, const int64_t n) {
  auto v = makeVariable<int64_t>(Dimensions(d, n), units::m);
  for (int64_t i = 0; i < n; ++i)
    put(v, {{d, i}}, Real(++serial));
  return v;
}
Variable rand_column(Rng &rng, const Kind &k, const int64_t n) {
  Spec s;
  s.variances = k.variances;
  s.small = 1000;
  s.unit = units::counts;
  return copy(rand_var(rng, k.type, Dimensions(k.d, n), s));
}
Variable binned(Rng &rng, const Kind &k, const Variable &indices, const int64_t n, const bool validate = false) {
  const Dimensions bd(k.d, n);
  if (k.container == 0) {
    auto c = rand_column(rng, k, n);
    return validate ? variable::make_bins(indices, k.d, c) : variable::make_bins_no_validate(indices, k.d, c);
  }
  if (k.container == 1) {
    DataArray t(rand_column(rng, k, n));
    t.coords().set(Dim("id"), identities(k.d, n));
    if (k.coord)
      t.coords().set(Dim("x"), copy(rand_var(rng, dtype<double>, bd, {})));
    if (k.mask)
      t.masks().set("m", copy(rand_var(rng, dtype<bool>, bd, {false, false, false, units::none})));
    if (k.attr)
      t.attrs().set(Dim("a"), copy(rand_var(rng, dtype<std::string>, bd, {})));
    return validate ? dataset::make_bins(indices, k.d, t) : dataset::make_bins_no_validate(indices, k.d, t);
  }
  Coords coords(Sizes(bd), {});
  coords.set(Dim("id"), identities(k.d, n));
  if (k.coord)
    coords.set(Dim("x"), copy(rand_var(rng, dtype<double>, bd, {})));
  Dataset t({}, coords);
  t.setData("p", rand_column(rng, k, n));
  t.setData("q", copy(rand_var(rng, dtype<int32_t>, bd, {})));
  if (k.mask)
    t["p"].masks().set("m", copy(rand_var(rng, dtype<bool>, bd, {false, false, false, units::none})));
  return validate ? dataset::make_bins(indices, k.d, t) : dataset::make_bins_no_validate(indices, k.d, t);
}
Variable rand_binned(Rng &rng, const Kind &k, const Dimensions &dims) {
  const auto like = rand_bins(rng, dtype<double>, dims, {}, int(rng.pick({1, 3, 6})), k.d);
  const auto &[indices, d, buffer] = like.constituents<Variable>();
  return binned(rng, k, indices, buffer.dims()[d]);
}
} // namespace

// construction accepts exactly valid indices
SUITE(construct) {
  const auto k = rand_kind(rng);
  const auto dims = rand_dims(rng, 2, 4);
  const auto n = rng.in(0, 12);
  auto indices = blank<scipp::index_pair>(rng, dims, units::none, false);
  // mostly consecutive ranges, in any order, and some that are wrong
  auto at = indices_of(dims);
  rng.shuffle(at);
  int64_t pos = 0;
  const bool wrong = rng.chance(1, 2);
  for (const auto &i : at) {
    int64_t b = pos + rng.in(0, 2) / 2, e = b + rng.in(0, 3);
    pos = e;
    if (wrong && rng.chance(1, 4))
      switch (rng.in(0, 5)) {
      case 0:
        std::swap(b, e);
        break;
      case 1:
        b -= rng.in(1, 3);
        break;
      case 2:
        e += rng.in(1, 3);
        break;
      case 3:
        b = e = rng.in(-2, n + 2);
        break;
      case 4:
        e = rng.pick<int64_t>({INT64_MAX, n + 1, n, -1});
        break;
      default:
        b = rng.pick<int64_t>({INT64_MIN, -1, 0, n});
      }
    raw_set<scipp::index_pair>(indices, i, {b, e});
  }
  bool valid = true, dubious = false;
  std::vector<std::pair<int64_t, int64_t>> ranges;
  for (const auto &i : at) {
    const auto r = raw_value<scipp::index_pair>(indices, i);
    if (r.first > r.second || r.first < 0 || r.second > n)
      valid = false;
    ranges.emplace_back(r.first, r.second);
  }
  for (size_t i = 0; i < ranges.size(); ++i)
    for (size_t j = 0; j < ranges.size(); ++j)
      if (i != j && ranges[i].first < ranges[j].second && ranges[j].first < ranges[i].second) {
        if (ranges[i].first < ranges[i].second && ranges[j].first < ranges[j].second)
          valid = false;
        else
          dubious = true; // an empty bin inside of another
      }
  const bool bad_unit = rng.chance(1, 10);
  if (bad_unit) {
    indices = copy(indices);
    indices.setUnit(units::one);
  }
  const auto was = full(indices);
  const auto what = STR("bins " << was << " of " << n << " events");
  Variable v;
  const auto e = error_of([&] { v = binned(rng, k, indices, n, true); });
  CHECK("indices-changed", full(indices) == was, what);
  if (bad_unit || !valid) {
    CHECK("accepted", e, what << " was accepted");
    obs("rejected");
  } else if (!e || !dubious) {
    CHECK("works", !e, what << " was refused: " << *e);
    each_index(dims, [&](const IndexMap &i) {
      const auto r = raw_value<scipp::index_pair>(indices, i);
      CHECK("range", raw_range(v, i) == r, what);
    });
    CHECK("buffer", model_of(v).dims == dims, what);
    obs("accepted");
  }
  // a repeated bin overlaps itself
  if (valid && !bad_unit && dims.volume() > 0 && rng.chance(1, 3)) {
    auto bd = dims;
    bd.add(Dim("verif-b"), 2);
    bool any = false;
    for (const auto &r : ranges)
      any |= r.first < r.second;
    const auto e2 = error_of([&] { v = binned(rng, k, broadcast(indices, bd), n, true); });
    CHECK("accepted", e2 || !any, what << " was accepted after broadcasting");
    obs("repeated");
  }
  nontrivial(what);
}

namespace {
// joins bin by bin; the smaller one is repeated
Model joined(const Model &a, const Model &b) {
  Model m;
  m.dims = a.dims;
  for (const auto &l : b.dims.labels())
    if (!m.dims.contains(l))
      m.dims.addInner(l, b.dims[l]);
  each_index(m.dims, [&](const IndexMap &at) {
    auto l = a.at(sub(at, a.dims));
    const auto &r = b.at(sub(at, b.dims));
    l.insert(l.end(), r.begin(), r.end());
    m.at(at) = l;
  });
  return m;
}
} // namespace

SUITE(joined) {
  random_tasks(rng);
  const auto k = rand_kind(rng);
  auto k2 = k;
  std::string wrong;
  if (rng.chance(1, 4))
    switch (rng.in(0, 3)) {
    case 0:
      k2.type = k.type == dtype<double> ? dtype<int64_t> : dtype<double>;
      k2.variances = false;
      wrong = "type";
      break;
    case 1:
      if (k.container == 1) {
        k2.coord = !k.coord;
        wrong = "coords";
      }
      break;
    case 2:
      if (k.container == 1) {
        k2.mask = !k.mask;
        wrong = "masks";
      }
      break;
    default:
      k2.container = (k.container + 1) % 3;
      k2.type = k.type;
      wrong = "container";
    }
  if (wrong.empty() && rng.chance(1, 6))
    k2.d = Dim("event2");
  const auto dims = rand_dims(rng, 2, 4);
  const int shape = int(rng.in(0, 3));
  const auto da = shape == 1 ? sub_dims(rng, dims) : dims;
  const auto db = shape == 2 ? sub_dims(rng, dims) : shuffled(rng, dims);
  const auto a = rand_binned(rng, k, da), b = rng.chance(1, 8) && wrong.empty() && k2.d == k.d ? a : rand_binned(rng, k2, db);
  const auto ma = model_of(a), mb = model_of(b);
  const auto what = STR((wrong.empty() ? "" : "wrong " + wrong + ": ") << model_text(ma) << " joined with " << model_text(mb));
  const auto was = full(a) + full(b);
  const bool in_place = rng.chance(1, 3);
  // in place: the target may be any view of all its bins
  const bool whole = rng.chance(1, 2); // parts of others cannot be replaced
  auto target = in_place ? (whole ? copy(a) : a) : Variable();
  if (in_place && rng.chance(1, 2)) {
    auto ls = label_list(target.dims());
    rng.shuffle(ls);
    target = transpose(target, ls);
  }
  auto keep = target;
  Variable out;
  const auto e = error_of([&] {
    if (in_place)
      dataset::buckets::append(target, b);
    else
      out = dataset::buckets::concatenate(a, b);
  });
  CHECK("input-changed", full(a) + full(b) == was, what);
  const auto expected = joined(ma, mb);
  if (e) {
    const bool grows = in_place && !same_dims(expected.dims, ma.dims);
    const bool part = in_place && !whole && *e == "DimensionError";
    CHECK("works", !wrong.empty() || k2.d != k.d || grows || part, what << " failed: " << *e);
    if (in_place) {
      CHECK("failed-changed", full(target) == full(keep), what);
    }
    obs("refused");
    return;
  }
  CHECK("accepted", wrong.empty(), what << " was accepted");
  CHECK("accepted", !in_place || same_dims(expected.dims, ma.dims), what << " was accepted in place");
  if (in_place)
    out = target;
  compare(out, expected, what + (in_place ? " in place" : ""));
  CHECK("type", header(out) == header(a), what);
  obs(in_place ? "appended" : "joined");
  if (!same_dims(da, db))
    obs("broadcast");
  nontrivial(what);
}

// histories
namespace {
struct State {
  Variable v;
  Model m;
  std::string log;
};
void step(Rng &rng, const Kind &k, State &s, std::vector<std::pair<Variable, Model>> &others) {
  const auto ls = label_list(s.m.dims);
  const auto any_dim = [&] { return ls[size_t(rng.in(0, int64_t(ls.size()) - 1))]; };
  const auto remap = [&](const Dimensions &dims, const std::function<IndexMap(const IndexMap &)> &from) {
    Model m;
    m.dims = dims;
    each_index(dims, [&](const IndexMap &at) { m.at(at) = s.m.at(from(at)); });
    s.m = m;
  };
  switch (rng.in(0, 11)) {
  case 0: { // slice
    if (ls.empty())
      return;
    const auto d = any_dim();
    const auto n = s.m.dims[d];
    if (n > 0 && rng.chance(1, 4)) {
      const auto i = rng.in(0, n - 1);
      s.log += STR(" [" << d.name() << ' ' << i << ']');
      s.v = s.v.slice({d, i});
      auto dims = s.m.dims;
      dims.erase(d);
      remap(dims, [&](IndexMap at) {
        at.emplace_back(d, i);
        return at;
      });
    } else {
      const auto b = rng.in(0, n), e = rng.in(b, n), st = rng.in(1, 2);
      s.log += STR(" [" << d.name() << ' ' << b << ':' << e << ':' << st << ']');
      s.v = s.v.slice({d, b, e, st});
      auto dims = s.m.dims;
      dims.resize(d, (e - b + st - 1) / st);
      remap(dims, [&](IndexMap at) {
        for (auto &p : at)
          if (p.first == d)
            p.second = b + p.second * st;
        return at;
      });
    }
    return;
  }
  case 1: {
    auto l = ls;
    rng.shuffle(l);
    s.log += " transpose";
    s.v = transpose(s.v, l);
    auto dims = s.m.dims;
    remap(core::transpose(dims, l), [&](const IndexMap &at) { return at; });
    return;
  }
  case 2:
    s.log += " copy";
    s.v = copy(s.v);
    return;
  case 3: { // concat along a dimension
    auto o = s.v;
    auto om = s.m;
    const auto d = ls.empty() || rng.chance(1, 5) ? Dim("verif-c") : any_dim();
    if (s.m.dims.volume() > 60 || (s.m.dims.ndim() > 2 && !s.m.dims.contains(d)))
      return;
    if (rng.chance(1, 2)) {
      auto dims = s.m.dims;
      if (dims.contains(d))
        dims.resize(d, rng.in(0, 2));
      o = rand_binned(rng, k, dims);
      om = model_of(o);
    }
    s.log += " concat " + d.name();
    s.v = concat(std::vector<Variable>{s.v, o}, d);
    Model m;
    m.dims = s.m.dims;
    const auto n = s.m.dims.contains(d) ? s.m.dims[d] : 1, n2 = om.dims.contains(d) ? om.dims[d] : 1;
    if (m.dims.contains(d))
      m.dims.resize(d, n + n2);
    else
      m.dims.add(d, n + n2);
    each_index(m.dims, [&](const IndexMap &at) {
      auto f = at;
      const auto i = get(at, d);
      for (auto &p : f)
        if (p.first == d && i >= n)
          p.second = i - n;
      m.at(at) = i < n ? s.m.at(sub(f, s.m.dims)) : om.at(sub(f, om.dims));
    });
    s.m = m;
    return;
  }
  case 4: { // join bin by bin
    const auto o = rng.chance(1, 4) ? s.v : rand_binned(rng, k, sub_dims(rng, s.m.dims));
    const auto om = model_of(o);
    s.log += " join";
    const bool in_place = rng.chance(1, 3);
    if (in_place) {
      auto t = s.v;
      const auto e = error_of([&] { dataset::buckets::append(t, o); });
      if (e) { // a part of a larger variable cannot be replaced
        s.log += " (append refused)";
        compare(s.v, s.m, s.log);
        return;
      }
      s.v = t;
      s.log += " (append)";
    } else
      s.v = dataset::buckets::concatenate(s.v, o);
    s.m = joined(s.m, om);
    return;
  }
  case 5: { // join all bins along a dimension
    if (ls.empty() || k.container == 2)
      return;
    const auto d = any_dim();
    s.log += " concat-bins " + d.name();
    s.v = dataset::buckets::concatenate(s.v, d);
    Model m;
    m.dims = s.m.dims;
    m.dims.erase(d);
    each_index(m.dims, [&](const IndexMap &at) {
      List l;
      for (int64_t i = 0; i < s.m.dims[d]; ++i) {
        auto f = at;
        f.emplace_back(d, i);
        const auto &x = s.m.at(f);
        l.insert(l.end(), x.begin(), x.end());
      }
      m.at(at) = l;
    });
    s.m = m;
    return;
  }
  case 6: { // flatten all
    if (ls.size() < 2 || s.m.dims.contains(Dim("verif-f")))
      return;
    s.log += " flatten";
    s.v = flatten(s.v, ls, Dim("verif-f"));
    Model m;
    m.dims = Dimensions(Dim("verif-f"), s.m.dims.volume());
    int64_t i = 0;
    each_index(s.m.dims, [&](const IndexMap &at) { m.at({{Dim("verif-f"), i++}}) = s.m.at(at); });
    s.m = m;
    return;
  }
  case 7: { // fold
    if (ls.empty() || ls.size() > 2 || s.m.dims.contains(Dim("verif-g")) || s.m.dims.contains(Dim("verif-h")))
      return;
    const auto d = any_dim();
    const auto n = s.m.dims[d];
    if (n % 2 || n == 0)
      return;
    s.log += " fold " + d.name();
    s.v = fold(s.v, d, Dimensions({Dim("verif-g"), Dim("verif-h")}, {n / 2, 2}));
    Dimensions dims;
    for (const auto &l : ls)
      if (l == d) {
        dims.addInner(Dim("verif-g"), n / 2);
        dims.addInner(Dim("verif-h"), 2);
      } else
        dims.addInner(l, s.m.dims[l]);
    remap(dims, [&](const IndexMap &at) {
      IndexMap f;
      for (const auto &p : at)
        if (p.first == Dim("verif-g"))
          f.emplace_back(d, p.second * 2 + get(at, Dim("verif-h")));
        else if (p.first != Dim("verif-h"))
          f.push_back(p);
      return f;
    });
    return;
  }
  case 8: { // assign events of equally long lists
    const auto from = model_of(s.v);
    auto target = copy(s.v), source = copy(s.v);
    // other events for the same bins
    if (s.v.dtype() != dtype<core::bucket<Variable>> || s.m.dims.volume() == 0)
      return;
    const auto &[indices, d, buf] = s.v.constituents<Variable>();
    const auto other = binned(rng, k, indices, buf.dims()[d]);
    const auto om = model_of(other);
    s.log += " assign";
    copy(other, target);
    s.v = target;
    s.m = om;
    compare(source, from, s.log);
    return;
  }
  case 9: { // the same bins of the same table
    s.log += " rebuild";
    if (s.v.dtype() == dtype<core::bucket<Variable>>) {
      const auto &[i, d, b] = s.v.constituents<Variable>();
      s.v = variable::make_bins_no_validate(i, d, b);
    } else if (s.v.dtype() == dtype<core::bucket<DataArray>>) {
      const auto &[i, d, b] = s.v.constituents<DataArray>();
      s.v = dataset::make_bins_no_validate(i, d, b);
    } else {
      const auto &[i, d, b] = s.v.constituents<Dataset>();
      s.v = dataset::make_bins_no_validate(i, d, b);
    }
    return;
  }
  case 10: { // rename
    if (ls.empty())
      return;
    const auto d = any_dim();
    const Dim to("verif-r");
    if (s.m.dims.contains(to))
      return;
    s.log += " rename " + d.name();
    s.v = s.v.rename_dims({{d, to}});
    Dimensions dims;
    for (const auto &l : ls)
      dims.addInner(l == d ? to : l, s.m.dims[l]);
    remap(dims, [&](IndexMap at) {
      for (auto &p : at)
        if (p.first == to)
          p.first = d;
      return at;
    });
    return;
  }
  default: // into and out of a data array
    s.log += " array";
    DataArray a(s.v);
    s.v = copy(a).data();
    others.emplace_back(a.data(), s.m);
    return;
  }
}
} // namespace
SUITE(histories) {
  random_tasks(rng);
  const auto k = rand_kind(rng);
  State s;
  s.v = rand_binned(rng, k, rand_dims(rng, 3, 4));
  s.m = model_of(s.v);
  s.log = model_text(s.m);
  std::vector<std::pair<Variable, Model>> others;
  const auto n = rng.in(2, 8);
  const auto type = header(s.v);
  for (int i = 0; i < n; ++i) {
    others.emplace_back(s.v, s.m);
    step(rng, k, s, others);
    compare(s.v, s.m, s.log);
    CHECK("type", header(s.v) == type, s.log << " gave " << header(s.v) << " not " << type);
    obs("steps");
  }
  // nothing that existed before was touched
  for (const auto &[v, m] : others)
    compare(v, m, s.log + " (earlier object)");
  nontrivial(s.log);
}
