// C25: identity comparison is an equivalence that sees every difference.
// Oracle: full text of all an object holds (names, order of dimensions, units,
// types, alignment, each element and event), with NaN and signed zeros made alike.
#include "events.h"
#include "parts.h"
#include "scipp/variable/astype.h"
#include "scipp/variable/generated_util.h"
#include "scipp/variable/util.h"

using namespace vf;

namespace {
std::string plain(std::string s) { // NaN and zeros alike
  const auto replace = [&](const std::string &from, const std::string &to) {
    for (size_t i = 0; (i = s.find(from, i)) != std::string::npos; i += to.size())
      s.replace(i, from.size(), to);
  };
  replace("-nan", "nan");
  replace("nanf", "nan");
  for (size_t i = 0; (i = s.find("-0", i)) != std::string::npos; ++i)
    if (i + 2 < s.size() && std::string("; ,)}+f").find(s[i + 2]) != std::string::npos && (i == 0 || std::string("{;, (+-").find(s[i - 1]) != std::string::npos))
      s.replace(i, 2, "0.0");
  replace("-0.0f", "0.0f");
  for (size_t i = 0; (i = s.find("-0.0", i)) != std::string::npos; ++i)
    if (i + 4 >= s.size() || !std::isdigit(static_cast<unsigned char>(s[i + 4])))
      s.replace(i, 4, "0.0");
  return s;
}
bool has_nan(const std::string &s) {
  for (size_t i = 0; (i = s.find("nan", i)) != std::string::npos; ++i)
    if ((i == 0 || !std::isalpha(static_cast<unsigned char>(s[i - 1]))) && (i + 3 >= s.size() || !std::isalpha(static_cast<unsigned char>(s[i + 3])) || s[i + 3] == 'f'))
      return true;
  return false;
}
// text that leaves out the name of arrays, which comparison ignores on purpose
std::string text(const Variable &v) {
  auto s = v.is_valid() ? full(v) : std::string("invalid");
  const auto at = s.find("]unaligned{"); // a flag of coords in their dict only
  if (at != std::string::npos)
    s.erase(at + 1, 9);
  if (is_binned(v) && v.dims().volume() > 0) {
    const auto flags = [&](const Coords &coords) {
      std::set<std::string> out;
      for (const auto &[k, c] : coords)
        if (!c.is_aligned())
          out.insert(k.name());
      for (const auto &k : out)
        s += " unaligned " + k;
    };
    if (v.dtype() == dtype<core::bucket<DataArray>>)
      flags(v.bin_buffer<DataArray>().coords());
    if (v.dtype() == dtype<core::bucket<Dataset>>)
      flags(v.bin_buffer<Dataset>().coords());
  }
  return plain(s);
}
std::string text(const DataArray &a) {
  auto b = DataArray(a);
  b.setName("");
  std::string s = text(a.data());
  std::map<std::string, std::string> parts;
  const auto add = [&](const std::string &kind, const auto &dict) {
    for (const auto &[k, v] : dict)
      parts[kind + ' ' + [&] {
        if constexpr (std::is_same_v<std::decay_t<decltype(k)>, Dim>)
          return k.name();
        else
          return k;
      }()] = text(v) + (v.is_aligned() ? "" : " unaligned");
  };
  add("coord", a.coords());
  add("mask", a.masks());
  add("attr", a.attrs());
  for (const auto &[k, x] : parts)
    s += "\n  " + k + '=' + x;
  return s;
}
std::string text(const Dataset &d) {
  std::map<std::string, std::string> parts;
  for (const auto &[k, v] : d.coords())
    parts["coord " + k.name()] = text(v) + (v.is_aligned() ? "" : " unaligned");
  for (const auto &item : d)
    parts["item " + item.name()] = text(item);
  std::string s;
  for (const auto &[k, x] : parts)
    s += "\n " + k + '=' + x;
  return s;
}
template <class T> void compare(const std::string &what, const T &a, const T &b) {
  const auto ta = text(a), tb = text(b);
  const bool same = ta == tb, nan = same && has_nan(ta);
  const auto &where = what + ": " + brief(ta) + " and " + brief(tb) + (same ? "" : " which differ at " + diff(ta, tb));
  const bool eq = a == b, qe = b == a, en = equals_nan(a, b), ne = equals_nan(b, a);
  CHECK("negation", (a != b) == !eq && (b != a) == !qe, where << ": != is not the negation of ==");
  CHECK("symmetry", eq == qe, where << ": == is not symmetric");
  CHECK("symmetry", en == ne, where << ": equals_nan is not symmetric");
  if (same) {
    CHECK("not equal with NaN alike", en, where << ": equals_nan is false");
    if (!nan)
      CHECK("not equal", eq, where << ": == is false");
    else
      CHECK("NaN equal", !eq, where << ": == is true despite of NaN");
    obs(nan ? "equal up to NaN" : "equal pairs");
  } else {
    CHECK("difference not seen", !eq, where << ": == is true");
    CHECK("difference not seen with NaN alike", !en, where << ": equals_nan is true");
    obs("different pairs");
  }
}

// ---- single differences; return what was done or nothing if not possible
IndexMap somewhere(Rng &rng, const Dimensions &dims) {
  IndexMap at;
  for (const auto &l : dims.labels())
    at.emplace_back(l, rng.in(0, dims[l] - 1));
  return at;
}
Variable rename_one(Rng &rng, const Variable &v) {
  const auto ls = label_list(v.dims());
  return v.rename_dims({{ls[size_t(rng.in(0, int64_t(ls.size()) - 1))], Dim("verif-other")}});
}
Dim dim_of_events(const Variable &v) {
  if (v.dtype() == dtype<core::bucket<Variable>>)
    return std::get<1>(v.constituents<Variable>());
  if (v.dtype() == dtype<core::bucket<DataArray>>)
    return std::get<1>(v.constituents<DataArray>());
  return std::get<1>(v.constituents<Dataset>());
}
std::string change(Rng &rng, Variable &v, bool shape = true);
template <class Buffer> std::string change_event(Rng &rng, Variable &v) {
  std::vector<IndexMap> full_bins;
  each_index(v.dims(), [&](const IndexMap &at) {
    const auto [b, e] = raw_range(v, at);
    if (e > b)
      full_bins.push_back(at);
  });
  if (full_bins.empty())
    return "";
  const auto at = full_bins[size_t(rng.in(0, int64_t(full_bins.size()) - 1))];
  const auto [b, e] = raw_range(v, at);
  auto &buffer = v.bin_buffer<Buffer>();
  const auto dim = dim_of_events(v);
  const auto event = rng.in(b, e - 1);
  const auto in_column = [&](Variable c) -> std::string {
    auto slice = c.slice({dim, event});
    return change(rng, slice, false);
  };
  if (rng.chance(1, 4)) { // an event less
    const auto [indices, d, buf] = v.constituents<Buffer>();
    auto idx = copy(indices);
    raw_set<scipp::index_pair>(idx, at, rng.chance(1, 2) ? scipp::index_pair{b + 1, e} : scipp::index_pair{b, e - 1});
    if constexpr (std::is_same_v<Buffer, Variable>)
      v = variable::make_bins_no_validate(idx, d, buf);
    else
      v = dataset::make_bins_no_validate(idx, d, buf);
    return "an event less";
  }
  if constexpr (std::is_same_v<Buffer, Variable>) {
    return "event: " + in_column(buffer);
  } else if constexpr (std::is_same_v<Buffer, DataArray>) {
    const auto parts = parts_of(buffer);
    auto it = parts.begin();
    std::advance(it, rng.in(0, int64_t(parts.size()) - 1));
    if (rng.chance(1, 6)) {
      switch (rng.in(0, 2)) {
      case 0:
        buffer.coords().set(Dim("verif-new"), copy(buffer.data()));
        return "new column";
      case 1:
        buffer.masks().set("verif-new", makeVariable<bool>(buffer.dims(), units::none));
        return "new mask column";
      default:
        if (buffer.coords().empty())
          return "";
        const auto k = *buffer.coords().keys_begin();
        if (rng.chance(1, 2)) {
          buffer.coords().set_aligned(k, !buffer.coords()[k].is_aligned());
          return "alignment of column";
        }
        buffer.coords().erase(k);
        return "column missing";
      }
    }
    const auto done = in_column(it->second);
    return done.empty() ? "" : "event " + it->first + ": " + done;
  } else {
    if (rng.chance(1, 2) && !buffer.coords().empty()) {
      const auto done = in_column(buffer.coords()[*buffer.coords().keys_begin()]);
      return done.empty() ? "" : "event coord: " + done;
    }
    const auto done = in_column(buffer[*buffer.keys_begin()].data());
    return done.empty() ? "" : "event item: " + done;
  }
}
template <class T> T other_than(Rng &rng, const T &x) {
  if constexpr (std::is_same_v<T, bool>)
    return !x;
  else if constexpr (std::is_floating_point_v<T>) {
    if (std::isfinite(x) && rng.chance(1, 3))
      return std::nextafter(x, T(rng.chance(1, 2) ? 1e30 : -1e30)) == 0 && x == 0 ? T(1) : std::nextafter(x, rng.chance(1, 2) ? T(1e30) : T(-1e30));
    const T y = rng.pick<T>({T(NAN), T(INFINITY), T(-INFINITY), T(1), T(0), T(-1), std::numeric_limits<T>::max(), std::numeric_limits<T>::denorm_min()});
    return plain(cell_text(y)) != plain(cell_text(x)) ? y : T(2);
  } else {
    for (int i = 0; i < 30; ++i) {
      const auto y = rand_elem<T>(rng, {});
      if (cell_text(y) != cell_text(x))
        return y;
    }
    return x;
  }
}
std::string change(Rng &rng, Variable &v, const bool shape) {
  if (is_binned(v)) {
    if (shape && v.dims().ndim() > 0 && rng.chance(1, 6)) {
      v = rename_one(rng, v);
      return "dim";
    }
    if (v.dtype() == dtype<core::bucket<Variable>>)
      return change_event<Variable>(rng, v);
    if (v.dtype() == dtype<core::bucket<DataArray>>)
      return change_event<DataArray>(rng, v);
    return change_event<Dataset>(rng, v);
  }
  if (shape)
    switch (rng.in(0, 9)) {
    case 0:
      if (error_of([&] { v.setUnit(v.unit() == units::kg ? units::s : units::kg); }).has_value())
        return "";
      return "unit";
    case 1:
      if (v.dims().ndim() == 0)
        return "";
      v = rename_one(rng, v);
      return "dim";
    case 2: { // same values of another type
      const auto t = v.dtype() == dtype<double> ? dtype<float> : v.dtype() == dtype<float> ? dtype<double> : v.dtype() == dtype<int64_t> ? dtype<int32_t> : v.dtype() == dtype<int32_t> ? dtype<int64_t> : dtype<bool>;
      if (v.dtype() == dtype<bool> || t == dtype<bool>)
        return "";
      v = astype(v, t);
      return "type";
    }
    case 3:
      if (!floating(v.dtype()))
        return "";
      if (v.has_variances())
        v = values(v);
      else {
        v = copy(v);
        v.setVariances(copy(v));
      }
      return "variances present";
    case 4:
      if (v.dims().ndim() < 2)
        return "";
      v = copy(transpose(v));
      return "order of dims";
    default:;
    }
  if (v.dims().volume() == 0)
    return "";
  const auto at = somewhere(rng, v.dims());
  std::string done;
  for_dtype(v.dtype(), [&](auto tag) {
    using T = typename decltype(tag)::type;
    if constexpr (core::canHaveVariances<T>())
      if (v.has_variances() && rng.chance(1, 2)) {
        auto &x = *(v.template variances<T>().data() + flat_offset(v, at));
        x = other_than<T>(rng, x);
        done = "variance";
        return;
      }
    const auto old = raw_value<T>(v, at);
    raw_set<T>(v, at, other_than<T>(rng, old));
    done = "value";
  });
  return done + " at " + show(at);
}
template <class D> std::string change_dict(Rng &rng, D &dict, const std::string &kind, const Sizes &sizes) {
  using Key = typename D::key_type;
  std::vector<Key> keys(dict.keys_begin(), dict.keys_end());
  const auto fresh = Key("verif-new");
  const auto some = [&] { return keys[size_t(rng.in(0, int64_t(keys.size()) - 1))]; };
  (void)sizes;
  switch (keys.empty() ? 0 : rng.in(0, 6)) {
  case 0:
    if (std::is_same_v<Key, std::string>)
      dict.set(fresh, makeVariable<bool>(Dims{}, units::none, Values{false}));
    else
      dict.set(fresh, makeVariable<double>(Dims{}, units::m, Values{1.0}));
    return "new " + kind;
  case 1:
    dict.erase(some());
    return kind + " missing";
  case 2: {
    const auto k = some();
    auto v = copy(dict[k]);
    v.set_aligned(dict[k].is_aligned());
    dict.erase(k);
    dict.set(fresh, v);
    return kind + " renamed";
  }
  case 3:
    if (kind == "coord") {
      const auto k = some();
      dict.set_aligned(k, !dict[k].is_aligned());
      return "alignment";
    }
    [[fallthrough]];
  default: {
    const auto k = some();
    auto v = copy(dict[k]);
    v.set_aligned(dict[k].is_aligned());
    const auto done = change(rng, v);
    if (done.empty() || error_of([&] { dict.set(k, v); }).has_value())
      return "";
    dict.set_aligned(k, v.is_aligned());
    return kind + ' ' + done;
  }
  }
}
std::string change(Rng &rng, DataArray &a) {
  switch (rng.in(0, 4)) {
  case 0: {
    auto v = copy(a.data());
    const auto done = change(rng, v);
    if (done.empty() || error_of([&] { a.setData(v); }).has_value())
      return "";
    return "data " + done;
  }
  case 1:
  case 2: return change_dict(rng, a.coords(), "coord", a.dims());
  case 3: return change_dict(rng, a.masks(), "mask", a.dims());
  default: return change_dict(rng, a.attrs(), "attr", a.dims());
  }
}
std::string change(Rng &rng, Dataset &d) {
  std::vector<std::string> keys(d.keys_begin(), d.keys_end());
  if (keys.empty() || rng.chance(1, 4))
    return change_dict(rng, d.coords(), "coord", d.sizes());
  const auto k = keys[size_t(rng.in(0, int64_t(keys.size()) - 1))];
  const auto item = d[k];
  switch (rng.in(0, 5)) {
  case 0:
    d.erase(k);
    return "item missing";
  case 1: {
    DataArray x(item);
    d.erase(k);
    d.setData("verif-new", x);
    return "item renamed";
  }
  case 2:
    d.setData("verif-new", copy(item.data()));
    return "new item";
  case 3: {
    auto masks = item.masks();
    auto view = d[k];
    return "item " + change_dict(rng, view.masks(), "mask", item.dims());
  }
  default: {
    auto v = copy(item.data());
    const auto done = change(rng, v);
    DataArray x(v);
    const auto e = error_of([&] {
      for (const auto &[n, m] : item.masks())
        x.masks().set(n, m);
      for (const auto &[n, m] : item.attrs())
        x.attrs().set(n, m);
      d.setData(k, x);
    });
    return done.empty() || e.has_value() ? "" : "item " + k + ' ' + done;
  }
  }
}
Variable rand_dataset_bins(Rng &rng, const Dimensions &dims, const ArraySpec &s) {
  const auto like = rand_bins(rng, dtype<double>, dims, {}, 3);
  const auto &[indices, dim, buffer] = like.constituents<Variable>();
  const auto t = rand_table(rng, buffer.dims()[dim], s, dim);
  Dataset d({}, t.coords());
  d.setData("p", t.data());
  if (rng.chance(1, 2))
    d.setData("q", copy(t.data()));
  return dataset::make_bins_no_validate(indices, dim, d);
}
const std::vector<DType> &types() {
  static const std::vector<DType> t{dtype<double>, dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>, dtype<bool>, dtype<std::string>, dtype<time_point>, dtype<Vec3>, dtype<Mat3>, dtype<Aff3>, dtype<Translation>, dtype<Quaternion>, dtype<scipp::index_pair>};
  return t;
}
Variable rand_any(Rng &rng, const Dimensions &dims, const bool tiny = false) {
  ArraySpec s;
  s.type = types()[size_t(rng.in(0, int64_t(types().size()) - 1))];
  s.data.specials = rng.chance(1, 4);
  s.data.variances = floating(s.type) && rng.chance(1, 3);
  s.data.small = tiny ? 1 : 0;
  const int kind = int(rng.in(0, 9));
  if (kind < 3 && !core::is_structured(s.type) && s.type != dtype<scipp::index_pair>)
    return kind == 0 ? rand_bins(rng, s.type, dims, s.data, 3) : kind == 1 ? rand_table_bins(rng, dims, s, 3) : rand_dataset_bins(rng, dims, s);
  return rand_var(rng, s.type, dims, s.data);
}
// the same in another place: a slice of something larger, or in another order
Variable moved(Rng &rng, const Variable &v) {
  if (is_binned(v))
    return copy(v);
  return relayout(rng, v);
}
} // namespace

SUITE(variables) {
  const auto dims = rand_dims(rng, 3, 3);
  const auto a = rand_any(rng, dims);
  const auto before = full(a);
  compare("with itself", a, a);
  const auto b = copy(a);
  compare("with its copy", a, b);
  compare("with the same in another layout", a, moved(rng, a));
  Variable shared(a);
  compare("with a shallow copy", a, shared);
  CHECK("comparison changes object", full(a) == before, brief(full(a)));
  for (int i = 0; i < 4; ++i) {
    auto c = copy(a);
    if (rng.chance(1, 2))
      c = moved(rng, c);
    const auto done = change(rng, c);
    if (done.empty())
      continue;
    compare(done, a, c);
    obs("planted: " + done.substr(0, done.find(' ')));
    nontrivial(done + to_string(a.dtype()));
  }
}

SUITE(arrays) {
  ArraySpec s;
  s.type = types()[size_t(rng.in(0, 8))];
  s.data.specials = rng.chance(1, 6);
  s.data.variances = floating(s.type) && rng.chance(1, 3);
  s.binned = !core::is_structured(s.type) && rng.chance(1, 4);
  const auto a = rand_array(rng, rand_dims(rng, 3, 3), s, "a");
  const auto before = full(a);
  compare("with itself", a, a);
  auto b = copy(a);
  compare("with its copy", a, b);
  b.setName("other");
  compare("with another name", a, b);
  compare("slices", a.dims().ndim() && a.dims().volume() ? DataArray(a.slice({a.dims().inner(), 0})) : a, b.dims().ndim() && b.dims().volume() ? DataArray(b.slice({b.dims().inner(), 0})) : b);
  CHECK("comparison changes object", full(a) == before, brief(full(a)));
  for (int i = 0; i < 6; ++i) {
    auto c = copy(a);
    const auto done = change(rng, c);
    if (done.empty())
      continue;
    compare(done, a, c);
    obs("planted: " + done.substr(0, done.find(" at ")));
    nontrivial(done + to_string(a.dtype()));
  }
}

SUITE(datasets) {
  ArraySpec s;
  s.type = types()[size_t(rng.in(0, 8))];
  s.data.specials = rng.chance(1, 6);
  s.data.variances = floating(s.type) && rng.chance(1, 3);
  s.binned = !core::is_structured(s.type) && rng.chance(1, 5);
  const auto a = rand_dataset(rng, rand_dims(rng, 2, 3), s, 3);
  const auto before = full(a);
  compare("with itself", a, a);
  compare("with its copy", a, copy(a));
  CHECK("comparison changes object", full(a) == before, brief(full(a)));
  { // items in another order
    Dataset b({}, a.coords());
    std::vector<std::string> keys(a.keys_begin(), a.keys_end());
    rng.shuffle(keys);
    for (const auto &k : keys)
      b.setData(k, a[k]);
    if (b.sizes() == a.sizes())
      compare("in another order", a, b);
  }
  for (int i = 0; i < 6; ++i) {
    auto c = copy(a);
    const auto done = change(rng, c);
    if (done.empty())
      continue;
    compare(done, a, c);
    obs("planted: " + done.substr(0, done.find(" at ")));
    nontrivial(done + to_string(s.type));
  }
}

// many alike: equality on all pairs is equality of texts, so transitive
SUITE(pools) {
  std::vector<Variable> pool;
  const auto dims = rand_dims(rng, 2, 2);
  const auto type = types()[size_t(rng.in(0, 6))];
  Spec s;
  s.small = 1;
  s.specials = rng.chance(1, 4);
  for (int i = 0; i < 8; ++i) {
    s.variances = floating(type) && rng.chance(1, 8);
    s.unit = rng.chance(1, 10) ? units::m : units::one;
    const auto ds = rng.chance(1, 8) ? rand_dims(rng, 2, 2) : dims;
    pool.push_back(rng.chance(1, 3) && i > 0 ? moved(rng, pool[size_t(rng.in(0, i - 1))]) : ds.volume() > 0 && rng.chance(1, 5) ? rand_bins(rng, dtype<int32_t>, ds, s, 1) : rand_var(rng, rng.chance(1, 10) ? dtype<float> : type, ds, s));
  }
  for (const auto &a : pool)
    for (const auto &b : pool)
      if (!(is_bins(a) && is_bins(b) && a.dims().volume() == 0 && b.dims().volume() == 0)) // columns of no bins are not visible
        compare("pair", a, b);
  std::vector<DataArray> arrays;
  for (int i = 0; i < 6; ++i) {
    DataArray x(pool[size_t(rng.in(0, 2))]);
    if (rng.chance(1, 2))
      x.coords().set(Dim(rng.chance(1, 2) ? "p" : "q"), makeVariable<double>(Values{double(rng.in(0, 1))}));
    if (rng.chance(1, 3))
      x.masks().set(rng.chance(1, 2) ? "p" : "q", makeVariable<bool>(units::none, Values{rng.chance(1, 2)}));
    if (!x.coords().empty() && rng.chance(1, 3))
      x.coords().set_aligned(*x.coords().keys_begin(), false);
    arrays.push_back(x);
  }
  for (const auto &a : arrays)
    for (const auto &b : arrays)
      compare("pair of arrays", a, b);
  std::vector<Dataset> sets;
  for (int i = 0; i < 6; ++i) {
    const auto &x = arrays[size_t(rng.in(0, 2))];
    Dataset d({}, Coords(Sizes(x.dims()), {}));
    const auto n = rng.in(0, 2);
    for (int j = 0; j < n; ++j) {
      const auto &y = arrays[size_t(rng.in(0, 5))];
      (void)error_of([&] { d.setData(rng.chance(1, 2) ? "p" : "q", y); });
    }
    sets.push_back(d);
  }
  for (const auto &a : sets)
    for (const auto &b : sets)
      compare("pair of datasets", a, b);
  obs("pools");
  nontrivial(to_string(type) + text(pool[0]).substr(0, 40));
}
