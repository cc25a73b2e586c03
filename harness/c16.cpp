// C16: sorting only permutes rows, and order predicates tell the truth.
// Oracle: the rows of the input, as text read from raw memory, put in order by
// an own stable sort of the keys; rows with equal keys compare as multisets.
#include "parts.h"
#include "scipp/dataset/extract.h"
#include "scipp/dataset/sort.h"
#include "scipp/variable/sort.h"
#include "scipp/variable/util.h"
#include "vtbb.h"

using namespace vf;

namespace {
// NaN is greater than all numbers
template <class T> bool before(const T &a, const T &b) {
  if constexpr (std::is_floating_point_v<T>) {
    if (std::isnan(b))
      return !std::isnan(a);
    return a < b;
  } else
    return a < b;
}
template <class T> std::vector<T> line(const Variable &v, const Dim d, const IndexMap &at = {}) {
  std::vector<T> out;
  for (int64_t i = 0; i < v.dims()[d]; ++i) {
    auto f = at;
    f.emplace_back(d, i);
    out.push_back(raw_value<T>(v, f));
  }
  return out;
}
template <class T> std::vector<size_t> order_of(const std::vector<T> &keys, const bool descending) {
  std::vector<size_t> p(keys.size());
  for (size_t i = 0; i < p.size(); ++i)
    p[i] = i;
  std::stable_sort(p.begin(), p.end(), [&](const size_t a, const size_t b) { return descending ? before<T>(keys[b], keys[a]) : before<T>(keys[a], keys[b]); });
  return p;
}
// compares the rows of the result with those of the input in order of keys
template <class T, class In, class Out> void compare_rows(const std::vector<T> &keys, const bool descending, In &&in, Out &&out, const std::string &what) {
  const auto p = order_of(keys, descending);
  for (size_t i = 0; i < p.size();) {
    size_t j = i;
    std::multiset<std::string> x, y;
    for (; j < p.size() && !before<T>(keys[p[i]], keys[p[j]]) && !before<T>(keys[p[j]], keys[p[i]]); ++j) {
      x.insert(in(int64_t(p[j])));
      y.insert(out(int64_t(j)));
    }
    if (x != y) {
      auto a = x.begin(), b = y.begin();
      while (*a == *b)
        ++a, ++b;
      fail("rows", STR("rows " << i << ".." << j << " of " << what << " hold " << brief(*b) << " where the input has " << brief(*a)));
    }
    CHECK("rows", x == y, what);
    obs("rows-compared", int64_t(j - i));
    obs(j - i > 1 ? "duplicate-keys" : "single-keys");
    i = j;
  }
}
template <class T> Variable rand_key(Rng &rng, const Dim d, const int64_t n) {
  Spec s;
  s.small = rng.chance(1, 2) ? int(rng.in(1, 20)) : 0;
  s.specials = rng.chance(1, 3);
  if constexpr (std::is_same_v<T, time_point>)
    s.unit = units::ns;
  return rand_typed<T>(rng, Dimensions(d, n), s);
}
template <class F> void with_key(Rng &rng, F &&f) {
  switch (rng.in(0, 7)) {
  case 0:
  case 1:
    return f(Tag<double>{});
  case 2:
    return f(Tag<float>{});
  case 3:
    return f(Tag<int64_t>{});
  case 4:
    return f(Tag<int32_t>{});
  case 5:
    return f(Tag<bool>{});
  case 6:
    return f(Tag<std::string>{});
  default:
    return f(Tag<time_point>{});
  }
}
ArraySpec rand_spec(Rng &rng) {
  ArraySpec s;
  s.type = rand_basic(rng);
  s.binned = rng.chance(1, 4);
  s.data.specials = rng.chance(1, 4);
  s.data.variances = (s.type == dtype<double> || s.type == dtype<float>) && rng.chance(1, 3);
  s.data.unit = s.type == dtype<time_point> ? units::ns : units::m;
  return s;
}
Dimensions with_dim(Rng &rng, const Dim d, const int64_t n) {
  Dimensions out = rand_dims(rng, 2, 3);
  if (out.contains(d))
    out.resize(d, n);
  else if (rng.chance(1, 2))
    out.addInner(d, n);
  else
    out.add(d, n);
  return shuffled(rng, out);
}
void random_tasks(Rng &rng) {
  auto &c = vtbb::control();
  c.mode = rng.pick({vtbb::Mode::serial, vtbb::Mode::shuffle, vtbb::Mode::finest});
  c.state = uint64_t(rng.in(1, 1 << 30));
}
// parts that do not depend on d are kept, edges along d are dropped, all flags stay
void check_rest(const DataArray &out, const DataArray &in, const Dim d, const std::string &what) {
  const auto x = parts_of(out), y = parts_of(in);
  for (const auto &[k, v] : y) {
    if (has_edge(v, in.dims(), d)) {
      CHECK("edges", !x.count(k), what << " kept " << k);
      continue;
    }
    CHECK("parts", x.count(k), what << " lost " << k);
    if (!v.dims().contains(d))
      CHECK("parts", canon(x.at(k)) == canon(v), what << " changed " << k << ": " << diff(canon(x.at(k)), canon(v)));
    if (k != "data")
      CHECK("aligned", x.at(k).is_aligned() == v.is_aligned(), what << ' ' << k);
    CHECK("dims", x.at(k).dims().contains(d) == v.dims().contains(d), what << ' ' << k);
  }
  for (const auto &[k, v] : x)
    CHECK("parts", y.count(k), what << " gained " << k);
}
} // namespace

// ---- variables sorted by themselves, line by line
SUITE(lines) {
  with_key(rng, [&](auto tag) {
    using T = typename decltype(tag)::type;
    const auto d = vdim(int(rng.in(0, 3)));
    const auto n = rng.chance(1, 10) ? rng.in(50, 400) : rng.in(0, 40);
    auto dims = with_dim(rng, d, n);
    const bool inner = rng.chance(5, 6);
    if (inner && dims.inner() != d) {
      auto ls = label_list(dims);
      ls.erase(std::find(ls.begin(), ls.end(), d));
      ls.push_back(d);
      Dimensions t;
      for (const auto &l : ls)
        t.addInner(l, dims[l]);
      dims = t;
    }
    Spec s;
    s.small = rng.chance(1, 2) ? int(rng.in(1, 9)) : 0;
    s.specials = rng.chance(1, 2);
    s.variances = std::is_floating_point_v<T> && rng.chance(1, 3);
    if (std::is_same_v<T, time_point>)
      s.unit = units::ns;
    const auto v = rand_typed<T>(rng, dims, s);
    const auto was = full(v);
    const bool descending = rng.chance(1, 2);
    const auto what = STR((descending ? "descending" : "ascending") << " sort along " << d.name() << " of " << brief(was));
    Variable out;
    const auto e = error_of([&] { out = variable::sort(v, d, descending ? SortOrder::Descending : SortOrder::Ascending); });
    CHECK("input-changed", full(v) == was, what);
    if (e) {
      CHECK("works", (std::is_same_v<T, bool>) || dims.inner() != d, what << " failed: " << *e);
      obs("lines-refused");
      return;
    }
    CHECK("dims", out.dims() == dims && out.unit() == v.unit() && out.has_variances() == v.has_variances(), what);
    auto rest = dims;
    rest.erase(d);
    each_index(rest, [&](const IndexMap &at) {
      const auto x = line<T>(v, d, at), y = line<T>(out, d, at);
      for (size_t i = 0; i + 1 < y.size(); ++i)
        CHECK("order", !(descending ? before<T>(y[i], y[i + 1]) : before<T>(y[i + 1], y[i])), what << " at " << show(at) << ' ' << i << ": " << cell_text(y[i]) << " before " << cell_text(y[i + 1]));
      const auto text = [&](const Variable &w) {
        std::multiset<std::string> m;
        for (int64_t i = 0; i < n; ++i) {
          auto f = at;
          f.emplace_back(d, i);
          m.insert(text_at(w, f));
        }
        return m;
      };
      CHECK("permutation", text(v) == text(out), what << " at " << show(at) << " gave other elements: " << brief(full(out)));
      obs("lines-sorted");
      obs("elements-sorted", n);
    });
    nontrivial(was);
  });
}

SUITE(predicates) {
  with_key(rng, [&](auto tag) {
    using T = typename decltype(tag)::type;
    if constexpr (!std::is_same_v<T, bool>) {
      const auto d = vdim(int(rng.in(0, 3)));
      const auto n = rng.chance(1, 8) ? rng.in(100, 2000) : rng.in(0, 12);
      const auto dims = with_dim(rng, d, n);
      Spec s;
      s.small = int(rng.in(1, 3)) * (rng.chance(1, 2) ? 1 : 400);
      s.specials = rng.chance(1, 6);
      if (std::is_same_v<T, time_point>)
        s.unit = units::ns;
      auto v = rand_typed<T>(rng, dims, s, true);
      auto rest = dims;
      rest.erase(d);
      const bool falling = rng.chance(1, 2);
      each_index(rest, [&](const IndexMap &at) { // mostly sorted lines, with one element out of place
        if (rng.chance(1, 8) || n == 0)
          return;
        auto x = line<T>(v, d, at);
        std::stable_sort(x.begin(), x.end(), [&](const T &a, const T &b) { return falling ? before<T>(b, a) : before<T>(a, b); });
        if (rng.chance(1, 3)) {
          const auto i = size_t(rng.in(0, n - 1)), j = rng.chance(1, 2) ? std::min(i + 1, size_t(n - 1)) : size_t(rng.in(0, n - 1));
          std::swap(x[i], x[j]);
        }
        for (int64_t i = 0; i < n; ++i) {
          auto f = at;
          f.emplace_back(d, i);
          raw_set<T>(v, f, x[size_t(i)]);
        }
      });
      v = relayout(rng, v);
      random_tasks(rng);
      const auto was = full(v);
      bool all[2] = {true, true};
      for (const bool descending : {false, true}) {
        const auto order = descending ? SortOrder::Descending : SortOrder::Ascending;
        const auto out = variable::issorted(v, d, order);
        CHECK("dims", out.dims().ndim() == rest.ndim() && out.dtype() == dtype<bool>, brief(was));
        each_index(rest, [&](const IndexMap &at) {
          const auto x = line<T>(v, d, at);
          bool expected = true;
          for (size_t i = 0; i + 1 < x.size(); ++i)
            expected &= descending ? x[i] >= x[i + 1] : x[i] <= x[i + 1];
          const auto got = raw_value<bool>(out, at);
          CHECK("issorted", got == expected, (descending ? "descending" : "ascending") << " issorted along " << d.name() << " at " << show(at) << " is " << got << " for " << brief(was));
          all[descending] &= expected;
          obs(expected ? "sorted" : "unsorted");
        });
        CHECK("allsorted", variable::allsorted(v, d, order) == all[descending], (descending ? "descending" : "ascending") << " allsorted along " << d.name() << " of " << brief(was));
      }
      CHECK("input-changed", full(v) == was, was);
      nontrivial(was);
    }
  });
}

// ---- rows sorted by a key
namespace {
void sort_rows(Rng &rng, const int64_t n, const int kind) {
  random_tasks(rng);
  with_key(rng, [&](auto tag) {
    using T = typename decltype(tag)::type;
    const auto d = vdim(int(rng.in(0, 3)));
    const auto key = rand_key<T>(rng, d, n);
    const auto keys = line<T>(key, d);
    const bool descending = rng.chance(1, 2);
    const auto order = descending ? SortOrder::Descending : SortOrder::Ascending;
    const auto dims = n > 100 ? Dimensions(d, n) : with_dim(rng, d, n);
    const auto spec = rand_spec(rng);
    std::string what = STR((descending ? "descending" : "ascending") << " sort by " << brief(full(key)) << " of ");
    const auto key_was = full(key);
    if (kind == 0) {
      const auto v = spec.binned ? rand_bins(rng, spec.type, dims, spec.data) : rand_var(rng, spec.type, dims, spec.data);
      const auto was = full(v);
      what += brief(was);
      const auto out = dataset::sort(v, key, order);
      CHECK("dims", out.dims() == dims, what);
      compare_rows<T>(keys, descending, [&](const int64_t i) { return row_of(v, d, i); }, [&](const int64_t i) { return row_of(out, d, i); }, what);
      CHECK("input-changed", full(v) == was, what);
      obs("variables-sorted");
      nontrivial(what);
    } else if (kind == 1) {
      auto a = rand_array(rng, dims, spec, "name");
      const bool by_coord = rng.chance(1, 2);
      if (by_coord)
        a.coords().set(Dim("key"), key);
      const auto was = full(a);
      what += brief(was);
      const auto out = by_coord ? dataset::sort(a, Dim("key"), order) : dataset::sort(a, key, order);
      CHECK("dims", out.dims() == dims, what);
      check_rest(out, a, d, what);
      compare_rows<T>(keys, descending, [&](const int64_t i) { return row_of(a, d, i); }, [&](const int64_t i) { return row_of(out, d, i); }, what);
      CHECK("input-changed", full(a) == was, what);
      obs("arrays-sorted");
      nontrivial(what);
    } else {
      auto s = spec;
      s.binned = rng.chance(1, 6);
      auto ds = rand_dataset(rng, dims, s);
      const bool by_coord = rng.chance(1, 2);
      if (by_coord)
        ds.coords().set(Dim("key"), key);
      const auto was = full(ds);
      what += brief(was);
      const auto out = by_coord ? dataset::sort(ds, Dim("key"), order) : dataset::sort(ds, key, order);
      CHECK("items", names(out).size() == names(ds).size(), what);
      std::vector<DataArray> x, y;
      for (const auto &name : names(ds)) {
        CHECK("items", out.contains(name), what << " lost " << name);
        x.push_back(DataArray(ds[name]));
        y.push_back(DataArray(out[name]));
        check_rest(y.back(), x.back(), d, what);
      }
      const auto row = [&](const std::vector<DataArray> &all) {
        return [&](const int64_t i) {
          std::string t;
          for (const auto &a : all)
            if (a.dims().contains(d))
              t += row_of(a, d, i);
          return t;
        };
      };
      compare_rows<T>(keys, descending, row(x), row(y), what);
      CHECK("input-changed", full(ds) == was, what);
      obs("datasets-sorted");
      nontrivial(what);
    }
    CHECK("input-changed", full(key) == key_was, what);
    // a key of another length, or with two dimensions, does not fit
    if (rng.chance(1, 4)) {
      const auto m = rng.chance(1, 2) ? n + 1 : n - 1;
      if (m >= 0) {
        const auto bad = rand_key<T>(rng, d, m);
        const auto a = rand_array(rng, dims, {}, "");
        const auto ds = rand_dataset(rng, dims, {});
        const auto e = kind == 0   ? error_of([&] { return void(dataset::sort(a.data(), bad, order)); })
                       : kind == 1 ? error_of([&] { return void(dataset::sort(a, bad, order)); })
                                   : error_of([&] { return void(dataset::sort(ds, bad, order)); });
        CHECK("refusal", e.has_value(), "a key of length " << m << " was accepted for " << show(dims));
        obs("refused");
      }
    }
  });
}
} // namespace
SUITE(rows) { sort_rows(rng, rng.chance(1, 8) ? rng.in(17, 60) : rng.in(0, 12), int(rng.in(0, 2))); }
SUITE(long_rows) { sort_rows(rng, rng.in(500, 3000), int(rng.in(0, 2))); }

// ---- selecting rows by a condition
SUITE(extract_rows) {
  const auto d = vdim(int(rng.in(0, 3)));
  const auto n = rng.in(0, 14);
  const auto dims = with_dim(rng, d, n);
  const auto condition = rand_var(rng, dtype<bool>, Dimensions(d, n), {false, false, false, units::none});
  std::vector<int64_t> rows;
  for (int64_t i = 0; i < n; ++i)
    if (raw_value<bool>(condition, {{d, i}}))
      rows.push_back(i);
  auto spec = rand_spec(rng);
  const auto check = [&](const auto &in, const auto &out, const std::string &what) {
    CHECK("dims", out.dims().contains(d) && out.dims()[d] == int64_t(rows.size()), what << " gave " << show(out.dims()));
    for (size_t i = 0; i < rows.size(); ++i) {
      const auto x = row_of(out, d, int64_t(i)), y = row_of(in, d, rows[i]);
      CHECK("rows", x == y, what << " row " << i << ' ' << diff(x, y));
      obs("rows-selected");
    }
  };
  std::string what = "rows with " + full(condition) + " of ";
  switch (rng.in(0, 2)) {
  case 0: {
    const auto v = spec.binned ? rand_bins(rng, spec.type, dims, spec.data) : rand_var(rng, spec.type, dims, spec.data);
    what += brief(full(v));
    check(v, extract(v, condition), what);
    break;
  }
  case 1: {
    const auto a = rand_array(rng, dims, spec, "name");
    what += brief(full(a));
    const auto out = extract(a, condition);
    check_rest(out, a, d, what);
    check(a, out, what);
    break;
  }
  default: {
    spec.binned = rng.chance(1, 6);
    const auto ds = rand_dataset(rng, dims, spec);
    what += brief(full(ds));
    const auto out = extract(ds, condition);
    for (const auto &name : names(ds)) {
      CHECK("items", out.contains(name), what);
      check_rest(DataArray(out[name]), DataArray(ds[name]), d, what);
      if (ds[name].dims().contains(d))
        check(DataArray(ds[name]), DataArray(out[name]), what + " item " + name);
    }
  }
  }
  nontrivial(what);
}
