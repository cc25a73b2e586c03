// Random data arrays and datasets, and exact text of all they hold.
#pragma once
#include "gen_var.h"
#include "scipp/dataset/except.h"
#include "scipp/dataset/string.h"

namespace vf {
using dataset::Coords;
using dataset::Masks;

// ---- everything an object holds, for exact comparison
inline std::string full(const Variable &v) {
  if (!v.is_valid())
    return "invalid";
  const auto c = content(v);
  std::string s = c.type + c.dims + '[' + c.unit + ']' + (v.is_aligned() ? "" : "unaligned") + '{';
  for (const auto &x : c.cells)
    s += x + ';';
  return s + '}';
}
inline std::string full(const DataArray &a) {
  if (!a.is_valid())
    return "invalid";
  std::string s = '<' + a.name() + "> data=" + full(a.data());
  std::map<std::string, std::string> parts;
  for (const auto &[k, x] : a.coords())
    parts["coord " + k.name()] = full(x);
  for (const auto &[k, x] : a.masks())
    parts["mask " + k] = full(x);
  for (const auto &[k, x] : a.attrs())
    parts["attr " + k.name()] = full(x);
  for (const auto &[k, x] : parts)
    s += "\n  " + k + '=' + x;
  return s;
}
inline std::string full(const Dataset &d) {
  std::map<std::string, std::string> parts;
  for (const auto &[k, x] : d.coords())
    parts["coord " + k.name()] = full(x);
  for (const auto &item : d)
    parts["item " + item.name()] = full(item);
  std::string s = "sizes";
  for (const auto &l : d.sizes().labels())
    s += ' ' + l.name() + ':' + std::to_string(d.sizes()[l]);
  for (const auto &[k, x] : parts)
    s += "\n " + k + '=' + x;
  return s;
}
// the surroundings of the first difference
inline std::string diff(const std::string &a, const std::string &b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i])
    ++i;
  const auto from = i > 150 ? i - 150 : 0;
  return "...{{" + a.substr(from, 300) + "}} but expected ...{{" + b.substr(from, 300) + "}}";
}
inline size_t brief_limit() {
  static const size_t n = std::getenv("VF_BRIEF") ? std::strtoull(std::getenv("VF_BRIEF"), nullptr, 10) : 900;
  return n;
}
inline std::string brief(const std::string &s) { return s.size() > brief_limit() ? s.substr(0, brief_limit()) + "..." : s; }

struct ArraySpec {
  DType type = dtype<double>;
  Spec data;
  bool coords = true, masks = true, attrs = true, binned = false, edges = true, unaligned = true;
  int order = 0; // dim-coords: 1 ascending, -1 descending, 0 any
  bool strict = true;
};
inline std::vector<double> rand_sequence(Rng &rng, const int64_t n, const int order, const bool strict = true) {
  std::vector<double> v;
  double x = double(rng.in(-5, 5));
  const bool regular = rng.chance(1, 3);
  const double step = rng.pick({1.0, 0.5, 2.0, 0.25});
  for (int64_t i = 0; i < n; ++i) {
    v.push_back(x);
    x += regular ? step : !strict && rng.chance(1, 4) ? 0.0 : double(rng.in(1, 12)) / 4;
  }
  const auto o = order ? order : int(rng.pick({1, 1, -1, 2}));
  if (o < 0)
    std::reverse(v.begin(), v.end());
  else if (o == 2)
    rng.shuffle(v);
  return v;
}
template <class T> Variable from_values(Rng &rng, const Dim dim, const std::vector<T> &values, const units::Unit &unit, const bool random_layout = true) {
  const Dimensions dims(dim, int64_t(values.size()));
  auto v = random_layout ? blank<T>(rng, dims, unit, false) : makeVariable<T>(dims, unit);
  for (size_t i = 0; i < values.size(); ++i)
    raw_set<T>(v, {{dim, int64_t(i)}}, values[i]);
  return v;
}
inline Variable rand_coord(Rng &rng, const Dim dim, const int64_t n, const ArraySpec &s, const units::Unit &unit) {
  const auto v = rand_sequence(rng, n, s.order, s.strict);
  if (rng.chance(1, 4)) { // integers
    std::vector<int64_t> w;
    for (const auto x : v)
      w.push_back(int64_t(x * 4));
    return from_values(rng, dim, w, unit);
  }
  return from_values(rng, dim, v, unit);
}
inline DataArray rand_table(Rng &rng, const int64_t n, const ArraySpec &s, const Dim event = Dim("event")) {
  const Dimensions dims(event, n);
  DataArray t(rand_var(rng, s.type, dims, s.data));
  Spec c;
  c.small = 6;
  if (rng.chance(4, 5))
    t.coords().set(Dim("ex"), rand_var(rng, dtype<double>, dims, c));
  if (rng.chance(1, 2))
    t.coords().set(Dim("ey"), rand_var(rng, rng.pick({dtype<int64_t>, dtype<float>, dtype<time_point>}), dims, c));
  if (s.masks && rng.chance(1, 4))
    t.masks().set("em", rand_var(rng, dtype<bool>, dims, {false, false, false, units::none}));
  return t;
}
// bins of data arrays with the bin sizes and positions of rand_bins
inline Variable rand_table_bins(Rng &rng, const Dimensions &dims, const ArraySpec &s, const int max_size = 4) {
  const auto like = rand_bins(rng, dtype<double>, dims, {}, max_size);
  const auto &[indices, dim, buffer] = like.constituents<Variable>();
  return dataset::make_bins_no_validate(indices, dim, rand_table(rng, buffer.dims()[dim], s, dim));
}
inline DataArray rand_array(Rng &rng, const Dimensions &dims, const ArraySpec &s, const std::string &name = "") {
  Variable data = s.binned ? (rng.chance(1, 2) ? rand_table_bins(rng, dims, s) : rand_bins(rng, s.type, dims, s.data)) : rand_var(rng, s.type, dims, s.data);
  DataArray a(data);
  a.setName(name);
  if (s.coords) {
    for (const auto &d : dims.labels())
      if (rng.chance(3, 4)) {
        const auto edge = s.edges && rng.chance(1, 3) ? 1 : 0;
        a.coords().set(d, rand_coord(rng, d, dims[d] + edge, s, units::m));
      }
    if (rng.chance(1, 4))
      a.coords().set(Dim("aux0"), rand_var(rng, dtype<double>, Dimensions{}, {}));
    if (rng.chance(1, 3))
      a.coords().set(Dim("aux2"), rand_var(rng, rng.pick({dtype<double>, dtype<std::string>}), sub_dims(rng, dims), {}));
    if (s.edges && !dims.empty() && rng.chance(1, 6)) {
      auto e = dims;
      const auto d = dims.labels()[size_t(rng.in(0, dims.ndim() - 1))];
      e.resize(d, e[d] + 1);
      a.coords().set(Dim("edge2"), rand_var(rng, dtype<double>, e, {}));
    }
    if (s.unaligned)
      for (const auto &k : std::vector<Dim>(a.coords().keys_begin(), a.coords().keys_end()))
        if (rng.chance(1, 8))
          a.coords().set_aligned(k, false);
  }
  if (s.masks)
    for (int i = 0; i < 2; ++i)
      if (rng.chance(1, 3))
        a.masks().set(i ? "m1" : "m0", rand_var(rng, dtype<bool>, sub_dims(rng, dims), {false, false, false, units::none}));
  if (s.attrs && rng.chance(1, 5))
    a.attrs().set(Dim("attr"), rand_var(rng, dtype<double>, sub_dims(rng, dims), {}));
  return a;
}
inline std::vector<std::string> names(const Dataset &d) {
  return {d.keys_begin(), d.keys_end()};
}
// items share dims (possibly fewer dims) and coords
inline Dataset rand_dataset(Rng &rng, const Dimensions &dims, const ArraySpec &s, const int max_items = 3) {
  auto first = rand_array(rng, dims, s, "a");
  Dataset d({}, first.coords());
  d.setData("a", first);
  const auto n = rng.in(0, max_items - 1);
  for (int64_t i = 0; i < n; ++i) {
    auto t = s;
    t.coords = false;
    if (rng.chance(1, 3))
      t.type = rand_numeric(rng);
    const std::string name(1, char('b' + i));
    d.setData(name, rand_array(rng, rng.chance(1, 2) ? dims : shuffled(rng, dims), t, name));
  }
  return d;
}
} // namespace vf
