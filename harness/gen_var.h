// Random variables in random memory layouts, and reading them element by
// element from raw memory (pointer and strides), independently of the
// library's views, iterators and copies.
#pragma once
#include "gen_num.h"
#include "scipp/core/eigen.h"
#include "scipp/core/except.h"
#include "scipp/core/spatial_transforms.h"
#include "scipp/core/string.h"
#include "scipp/core/time_point.h"
#include "scipp/dataset/bins.h"
#include "scipp/dataset/dataset.h"
#include "scipp/units/string.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/except.h"
#include "scipp/variable/operations.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/string.h"
#include "scipp/variable/structures.h"
#include "scipp/variable/variable.h"
#include "scipp/variable/variable_factory.h"
#include "vf.h"
#include <algorithm>
#include <memory>
#include <optional>

namespace vf {
using namespace scipp;
using scipp::core::Quaternion;
using scipp::core::time_point;
using scipp::core::Translation;
using Vec3 = Eigen::Vector3d;
using Mat3 = Eigen::Matrix3d;
using Aff3 = Eigen::Affine3d;
using IndexMap = std::vector<std::pair<Dim, int64_t>>; // position by label

inline Dim vdim(const int i) {
  static const std::vector<Dim> d{Dim("x"), Dim("y"), Dim("z"), Dim("row"), Dim("verif-d"), Dim("verif-e"), Dim("verif-f")};
  return d.at(size_t(i));
}
inline std::string show(const Dimensions &d) {
  std::string s = "(";
  for (const auto &l : d.labels())
    s += l.name() + ':' + std::to_string(d[l]) + ' ';
  return s + ')';
}
inline std::string show(const IndexMap &m) {
  std::string s = "[";
  for (const auto &[d, i] : m)
    s += d.name() + '=' + std::to_string(i) + ' ';
  return s + ']';
}
template <class T> struct Tag {
  using type = T;
};
// calls f(Tag<T>) for the element type of a dense variable
template <class F> decltype(auto) for_dtype(const DType t, F &&f) {
  if (t == dtype<double>)
    return f(Tag<double>{});
  if (t == dtype<float>)
    return f(Tag<float>{});
  if (t == dtype<int64_t>)
    return f(Tag<int64_t>{});
  if (t == dtype<int32_t>)
    return f(Tag<int32_t>{});
  if (t == dtype<bool>)
    return f(Tag<bool>{});
  if (t == dtype<std::string>)
    return f(Tag<std::string>{});
  if (t == dtype<time_point>)
    return f(Tag<time_point>{});
  if (t == dtype<Vec3>)
    return f(Tag<Vec3>{});
  if (t == dtype<Mat3>)
    return f(Tag<Mat3>{});
  if (t == dtype<Aff3>)
    return f(Tag<Aff3>{});
  if (t == dtype<Quaternion>)
    return f(Tag<Quaternion>{});
  if (t == dtype<Translation>)
    return f(Tag<Translation>{});
  if (t == dtype<scipp::index_pair>)
    return f(Tag<scipp::index_pair>{});
  fail("harness", "unexpected element type " + core::to_string(t));
}
inline bool is_binned(const Variable &v) { return variable::is_bins(v); }

// ---- exact text of an element
inline std::string hex(const double x) {
  if (std::isnan(x))
    return "nan";
  char b[40];
  snprintf(b, sizeof b, std::fabs(x) < 1e15 && x == std::floor(x) && !(x == 0 && std::signbit(x)) ? "%.1f" : "%.17g", x);
  return b;
}
inline std::string cell_text(const double x) { return (std::isinf(x) ? (x > 0 ? "inf" : "-inf") : hex(x)); }
inline std::string cell_text(const float x) { return cell_text(double(x)) + 'f'; }
inline std::string cell_text(const int64_t x) { return std::to_string(x); }
inline std::string cell_text(const int32_t x) { return std::to_string(x) + 'i'; }
inline std::string cell_text(const bool x) { return x ? "true" : "false"; }
inline std::string cell_text(const std::string &x) { return '"' + x + '"'; }
inline std::string cell_text(const time_point &x) { return "t" + std::to_string(x.time_since_epoch()); }
inline std::string cell_text(const scipp::index_pair &x) { return '<' + std::to_string(x.first) + ',' + std::to_string(x.second) + '>'; }
template <class M> std::string eigen_text(const M &m) {
  std::string s = "(";
  for (int i = 0; i < m.rows(); ++i)
    for (int j = 0; j < m.cols(); ++j)
      s += cell_text(double(m(i, j))) + ' ';
  return s + ')';
}
inline std::string cell_text(const Vec3 &x) { return eigen_text(x); }
inline std::string cell_text(const Mat3 &x) { return eigen_text(x); }
inline std::string cell_text(const Aff3 &x) { return "aff" + eigen_text(x.matrix()); }
inline std::string cell_text(const Translation &x) { return "tr" + eigen_text(x.vector()); }
inline std::string cell_text(const Quaternion &x) { return "q" + eigen_text(x.quat().coeffs()); }

// ---- raw access
inline int64_t flat_offset(const Variable &v, const IndexMap &at) {
  int64_t o = 0;
  for (int64_t k = 0; k < v.dims().ndim(); ++k) {
    const Dim d = v.dims().labels()[size_t(k)];
    bool found = false;
    for (const auto &[l, i] : at)
      if (l == d) {
        o += i * v.strides()[size_t(k)];
        found = true;
      }
    if (!found)
      fail("harness", "position " + show(at) + " lacks " + d.name());
  }
  return o;
}
template <class T> const T &raw_value(const Variable &v, const IndexMap &at) { return *(v.values<T>().data() + flat_offset(v, at)); }
template <class T> const T &raw_variance(const Variable &v, const IndexMap &at) { return *(v.variances<T>().data() + flat_offset(v, at)); }
template <class T> void raw_set(Variable &v, const IndexMap &at, const T &x) { *(v.values<T>().data() + flat_offset(v, at)) = x; }

// visits all positions in row-major order of dims
template <class F> void each_index(const Dimensions &dims, F &&f) {
  if (dims.volume() == 0)
    return;
  IndexMap at;
  for (const auto &d : dims.labels())
    at.emplace_back(d, 0);
  for (;;) {
    f(static_cast<const IndexMap &>(at));
    int64_t k = int64_t(at.size()) - 1;
    for (; k >= 0; --k) {
      if (++at[size_t(k)].second < dims[at[size_t(k)].first])
        break;
      at[size_t(k)].second = 0;
    }
    if (k < 0)
      return;
  }
}
inline std::vector<IndexMap> indices_of(const Dimensions &dims) {
  std::vector<IndexMap> all;
  each_index(dims, [&](const IndexMap &at) { all.push_back(at); });
  return all;
}
// at most n positions, at random
inline std::vector<IndexMap> some_indices(Rng &rng, const Dimensions &dims, const size_t n) {
  auto all = indices_of(dims);
  if (all.size() > n) {
    rng.shuffle(all);
    all.resize(n);
  }
  return all;
}

inline const std::pair<int64_t, int64_t> &raw_range(const Variable &binned, const IndexMap &at) {
  static thread_local std::pair<int64_t, int64_t> r;
  const auto idx = binned.bin_indices();
  r = raw_value<scipp::index_pair>(idx, at);
  return r;
}

// a 0-D variable holding (a copy of) one element
inline Variable cell(const Variable &v, const IndexMap &at) {
  return for_dtype(v.dtype(), [&](auto tag) {
    using T = typename decltype(tag)::type;
    if constexpr (core::canHaveVariances<T>())
      if (v.has_variances())
        return makeVariable<T>(Dimensions{}, v.unit(), Values{raw_value<T>(v, at)}, Variances{raw_variance<T>(v, at)});
    auto out = makeVariable<T>(Dimensions{}, v.unit());
    *out.template values<T>().data() = raw_value<T>(v, at);
    return out;
  });
}
inline std::string text_at(const Variable &v, const IndexMap &at) {
  return for_dtype(v.dtype(), [&](auto tag) {
    using T = typename decltype(tag)::type;
    auto s = cell_text(raw_value<T>(v, at));
    if constexpr (core::canHaveVariances<T>())
      if (v.has_variances())
        s += "+-" + cell_text(raw_variance<T>(v, at));
    return s;
  });
}
// exact content of a dense variable, layout not included
struct Content {
  std::string dims, unit, type;
  std::vector<std::string> cells;
  bool operator==(const Content &o) const { return dims == o.dims && unit == o.unit && type == o.type && cells == o.cells; }
  bool operator!=(const Content &o) const { return !(*this == o); }
  std::string text() const {
    std::string s = type + dims + '[' + unit + ']';
    for (size_t i = 0; i < cells.size() && i < 12; ++i)
      s += ' ' + cells[i];
    return s;
  }
};
inline std::string bin_text(const Variable &v, const IndexMap &at);
// columns of event tables, in order of their names
using Columns = std::map<std::string, Variable>;
inline Columns columns(const DataArray &t, const std::string &prefix = "") {
  Columns c;
  c.emplace(prefix + "data", t.data());
  for (const auto &[k, x] : t.coords())
    c.emplace(prefix + "coord " + k.name(), x);
  for (const auto &[k, x] : t.masks())
    c.emplace(prefix + "mask " + k, x);
  for (const auto &[k, x] : t.attrs())
    c.emplace(prefix + "attr " + k.name(), x);
  return c;
}
inline Columns columns(const Dataset &t) {
  Columns c;
  for (const auto &item : t)
    c.merge(columns(item, item.name() + "."));
  for (const auto &[k, x] : t.coords())
    c.emplace("coord " + k.name(), x);
  return c;
}
inline Columns columns(const Variable &t) {
  return {{"data", t}};
}
template <class T> std::string table_header(const T &t) {
  std::string s;
  for (const auto &[k, x] : columns(t))
    s += k + ':' + core::to_string(x.dtype()) + (x.has_variances() ? "+-" : "") + '[' + x.unit().name() + "] ";
  return s;
}
inline std::string row_text(const Columns &t, const Dim d, const int64_t i) {
  std::string s;
  for (const auto &[k, x] : t)
    s += (s.empty() ? "" : ",") + (x.dims().contains(d) ? text_at(x, {{d, i}}) : text_at(x, {}));
  return s;
}
inline Content content(const Variable &v) {
  Content c;
  if (!v.is_valid())
    return {"invalid", "", "", {}};
  c.dims = show(v.dims());
  c.type = core::to_string(v.dtype());
  if (is_binned(v)) {
    each_index(v.dims(), [&](const IndexMap &at) { c.cells.push_back(bin_text(v, at)); });
    if (v.dtype() == dtype<core::bucket<Variable>>) {
      const auto &buffer = v.bin_buffer<Variable>();
      c.unit = buffer.unit().name();
      c.type += core::to_string(buffer.dtype()) + (buffer.has_variances() ? "+-" : "");
    } else {
      c.unit = v.dtype() == dtype<core::bucket<DataArray>> ? table_header(v.bin_buffer<DataArray>()) : table_header(v.bin_buffer<Dataset>());
    }
    return c;
  }
  c.unit = v.unit().name();
  c.type += v.has_variances() ? "+-" : "";
  each_index(v.dims(), [&](const IndexMap &at) { c.cells.push_back(text_at(v, at)); });
  return c;
}
// events of one bin
inline std::vector<std::string> events_text(const Variable &v, const IndexMap &at) {
  const auto [b, e] = raw_range(v, at);
  std::vector<std::string> out;
  const auto rows = [&, b = b, e = e](const auto &buffer, const Dim d) {
    const auto table = columns(buffer);
    for (auto i = b; i < e; ++i)
      out.push_back(row_text(table, d, i));
  };
  if (v.dtype() == dtype<core::bucket<Variable>>)
    rows(v.bin_buffer<Variable>(), std::get<1>(v.constituents<Variable>()));
  else if (v.dtype() == dtype<core::bucket<DataArray>>)
    rows(v.bin_buffer<DataArray>(), std::get<1>(v.constituents<DataArray>()));
  else
    rows(v.bin_buffer<Dataset>(), std::get<1>(v.constituents<Dataset>()));
  return out;
}
inline std::string bin_text(const Variable &v, const IndexMap &at) {
  std::string s = "{";
  for (const auto &e : events_text(v, at))
    s += e + ' ';
  return s + '}';
}
inline std::string describe(const Variable &v) {
  if (!v.is_valid())
    return "invalid";
  std::string s = content(v).text() + " strides";
  for (const auto x : v.strides())
    s += ' ' + std::to_string(x);
  return s;
}

// ---- random content
struct Spec { // what to generate
  bool variances = false;
  bool specials = false; // NaN, infinities
  bool positive = false;
  units::Unit unit = units::one;
  int small = 0; // if not 0: integers in [-small, small] (many duplicates)
};
template <class T> T rand_elem(Rng &rng, const Spec &s) {
  if constexpr (std::is_same_v<T, bool>)
    return rng.chance(1, 2);
  else if constexpr (std::is_same_v<T, std::string>)
    return rng.pick<std::string>({"", "a", "b", "ab", "long string that is kept on the heap 1", "long string that is kept on the heap 2", "B", "aa"});
  else if constexpr (std::is_same_v<T, time_point>)
    return time_point(s.small ? rng.in(-s.small, s.small) : rng.in(-1000000, 1000000));
  else if constexpr (std::is_same_v<T, scipp::index_pair>) {
    const auto b = rng.in(0, 5);
    return {b, b + rng.in(0, 5)};
  } else if constexpr (std::is_same_v<T, Vec3>)
    return Vec3(moderate<double>(rng), moderate<double>(rng), moderate<double>(rng));
  else if constexpr (std::is_same_v<T, Mat3>) {
    Mat3 m;
    for (int i = 0; i < 9; ++i)
      m(i / 3, i % 3) = moderate<double>(rng);
    return m;
  } else if constexpr (std::is_same_v<T, Aff3>) {
    Aff3 a;
    a.matrix().setIdentity();
    for (int i = 0; i < 12; ++i)
      a.matrix()(i / 4, i % 4) = moderate<double>(rng);
    return a;
  } else if constexpr (std::is_same_v<T, Translation>)
    return Translation(rand_elem<Vec3>(rng, s));
  else if constexpr (std::is_same_v<T, Quaternion>) {
    Eigen::Quaterniond q(moderate<double>(rng) + 0.01, moderate<double>(rng), moderate<double>(rng), moderate<double>(rng));
    q.normalize();
    return Quaternion(q);
  } else {
    T x = s.small ? T(rng.in(-s.small, s.small)) : moderate<T>(rng);
    if constexpr (std::is_floating_point_v<T>)
      if (s.specials && rng.chance(1, 4))
        x = special<T>(rng);
    if (s.positive)
      x = x < 0 ? T(-x) : x == 0 ? T(1) : x;
    return x;
  }
}
template <class T> T poison() {
  if constexpr (std::is_floating_point_v<T>)
    return T(-7.77e33);
  else if constexpr (std::is_same_v<T, bool>)
    return true;
  else if constexpr (std::is_integral_v<T>)
    return T(77777);
  else if constexpr (std::is_same_v<T, std::string>)
    return "POISON";
  else if constexpr (std::is_same_v<T, time_point>)
    return time_point(77777);
  else if constexpr (std::is_same_v<T, scipp::index_pair>)
    return {0, 0};
  else if constexpr (std::is_same_v<T, Vec3>)
    return Vec3(7e33, 7e33, 7e33);
  else if constexpr (std::is_same_v<T, Mat3>)
    return Mat3::Constant(7e33);
  else if constexpr (std::is_same_v<T, Translation>)
    return Translation(Vec3(7e33, 7e33, 7e33));
  else
    return T{};
}
inline Dimensions rand_dims(Rng &rng, const int max_ndim = 3, const int max_len = 4, const bool allow_empty = true) {
  std::vector<int> which{0, 1, 2, 3, 4, 5};
  rng.shuffle(which);
  Dimensions d;
  const auto n = rng.in(0, max_ndim);
  int64_t room = 1500; // bound on the volume
  for (int64_t i = 0; i < n; ++i) {
    const auto len = std::min<int64_t>(room, allow_empty && rng.chance(1, 15) ? 0 : rng.chance(1, 6) ? 1 : rng.in(1, max_len));
    room /= std::max<int64_t>(len, 1);
    d.addInner(vdim(which[size_t(i)]), len);
  }
  return d;
}
inline Dimensions shuffled(Rng &rng, const Dimensions &dims) {
  std::vector<Dim> l(dims.labels().begin(), dims.labels().end());
  rng.shuffle(l);
  Dimensions out;
  for (const auto &d : l)
    out.addInner(d, dims[d]);
  return out;
}
// a random subset of the dimensions in random order
inline Dimensions sub_dims(Rng &rng, const Dimensions &dims, const bool reorder = true) {
  Dimensions out;
  const auto from = reorder && rng.chance(1, 2) ? shuffled(rng, dims) : dims;
  for (const auto &d : from.labels())
    if (rng.chance(2, 3))
      out.addInner(d, dims[d]);
  return out;
}

// Memory for a variable of the given dims in a random layout; everything
// outside (and inside) is poison.  `whole` receives the enclosing variable.
template <class T> Variable blank(Rng &rng, const Dimensions &dims, const units::Unit &unit, const bool variances, Variable *whole = nullptr) {
  struct Axis {
    Dim dim;
    int64_t len, off, step, big;
    bool point;
  };
  std::vector<Axis> axes;
  for (const auto &d : dims.labels()) {
    Axis a{d, dims[d], 0, 1, dims[d], false};
    if (rng.chance(2, 5)) {
      a.off = rng.in(0, 2);
      a.step = rng.chance(1, 3) ? rng.in(1, 3) : 1;
      a.big = a.off + (a.len > 0 ? (a.len - 1) * a.step + 1 : 0) + rng.in(0, 2);
    }
    axes.push_back(a);
  }
  if (rng.chance(1, 5))
    axes.push_back({Dim("verif-outer"), 1, rng.in(0, 1), 1, 2, true});
  if (rng.chance(1, 2))
    rng.shuffle(axes);
  Dimensions big;
  for (const auto &a : axes)
    big.addInner(a.dim, a.big);
  Variable v;
  if constexpr (core::canHaveVariances<T>()) {
    v = variances ? makeVariable<T>(big, unit, Values{}, Variances{}) : makeVariable<T>(big, unit);
  } else
    v = makeVariable<T>(big, unit);
  const auto n = big.volume();
  for (int64_t i = 0; i < n; ++i) {
    v.values<T>().data()[i] = poison<T>();
    if constexpr (core::canHaveVariances<T>())
      if (variances)
        v.variances<T>().data()[i] = poison<T>();
  }
  if (whole)
    *whole = v;
  for (const auto &a : axes) {
    if (a.point)
      v = v.slice({a.dim, a.off});
    else if (a.big != a.len) {
      const auto end = a.off + (a.len > 0 ? (a.len - 1) * a.step + 1 : 0);
      v = a.step == 1 ? v.slice({a.dim, a.off, end}) : v.slice({a.dim, a.off, end, a.step});
    }
  }
  std::vector<Dim> order(dims.labels().begin(), dims.labels().end());
  if (order.size() > 1)
    v = v.transpose(order);
  return v;
}
template <class T> Variable rand_typed(Rng &rng, const Dimensions &dims, const Spec &s, const bool plain = false) {
  // explicit broadcast now and then
  if (!plain && !dims.empty() && rng.chance(1, 10)) {
    Dimensions sub;
    for (const auto &d : dims.labels())
      if (rng.chance(1, 2))
        sub.addInner(d, dims[d]);
    if (sub.ndim() < dims.ndim())
      return variable::broadcast(rand_typed<T>(rng, sub, s, true), dims);
  }
  auto v = plain ? makeVariable<T>(dims, s.unit) : blank<T>(rng, dims, s.unit, s.variances);
  if constexpr (core::canHaveVariances<T>())
    if (plain && s.variances)
      v = makeVariable<T>(dims, s.unit, Values{}, Variances{});
  each_index(dims, [&](const IndexMap &at) {
    *(v.template values<T>().data() + flat_offset(v, at)) = rand_elem<T>(rng, s);
    if constexpr (core::canHaveVariances<T>())
      if (s.variances)
        *(v.template variances<T>().data() + flat_offset(v, at)) = nonneg<T>(rng);
  });
  return v;
}
inline Variable rand_var(Rng &rng, const DType type, const Dimensions &dims, const Spec &s = {}) {
  return for_dtype(type, [&](auto tag) { return rand_typed<typename decltype(tag)::type>(rng, dims, s); });
}
// the same elements in another random layout
inline Variable relayout(Rng &rng, const Variable &v) {
  return for_dtype(v.dtype(), [&](auto tag) {
    using T = typename decltype(tag)::type;
    auto out = blank<T>(rng, v.dims(), v.unit(), v.has_variances());
    each_index(v.dims(), [&](const IndexMap &at) {
      *(out.template values<T>().data() + flat_offset(out, at)) = raw_value<T>(v, at);
      if constexpr (core::canHaveVariances<T>())
        if (v.has_variances())
          *(out.template variances<T>().data() + flat_offset(out, at)) = raw_variance<T>(v, at);
    });
    out.set_aligned(v.is_aligned());
    return out;
  });
}
inline DType rand_numeric(Rng &rng) { return rng.pick({dtype<double>, dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>}); }
inline DType rand_basic(Rng &rng) { return rng.chance(1, 5) ? rng.pick({dtype<bool>, dtype<std::string>, dtype<time_point>}) : rand_numeric(rng); }
inline DType rand_dtype(Rng &rng) {
  return rng.chance(1, 4) ? rng.pick({dtype<Vec3>, dtype<Mat3>, dtype<Aff3>, dtype<Quaternion>, dtype<Translation>}) : rand_basic(rng);
}

// Bins of a variable buffer: sizes (also 0) drawn at random, stored with gaps,
// in permuted order, inside a larger (possibly strided) index array.
inline Variable rand_bins(Rng &rng, const DType type, const Dimensions &dims, const Spec &s, const int max_size = 4, const Dim event = Dim("event")) {
  auto indices = blank<scipp::index_pair>(rng, dims, units::none, false);
  auto at = indices_of(dims);
  if (rng.chance(1, 2))
    rng.shuffle(at);
  int64_t pos = rng.chance(1, 3) ? rng.in(0, 3) : 0;
  const bool gaps = rng.chance(1, 3);
  for (const auto &i : at) {
    const auto n = rng.chance(1, 4) ? 0 : rng.in(0, max_size);
    raw_set<scipp::index_pair>(indices, i, {pos, pos + n});
    pos += n + (gaps ? rng.in(0, 2) : 0);
  }
  const Dimensions bd(event, pos + (rng.chance(1, 3) ? rng.in(0, 3) : 0));
  // poison around the events is events too, so fill all of the buffer
  auto buffer = for_dtype(type, [&](auto tag) {
    using T = typename decltype(tag)::type;
    return rand_typed<T>(rng, bd, s, rng.chance(1, 2));
  });
  return variable::make_bins_no_validate(indices, event, buffer);
}

// What a call did: its result or the kind of error.
template <class F> std::optional<std::string> error_of(F &&f) {
  try {
    f();
  } catch (const Failure &) {
    throw;
  } catch (const except::UnitError &) {
    return "UnitError";
  } catch (const except::DimensionError &) {
    return "DimensionError";
  } catch (const except::TypeError &) {
    return "TypeError";
  } catch (const except::VariancesError &) {
    return "VariancesError";
  } catch (const except::NotFoundError &) {
    return "NotFoundError";
  } catch (const except::SliceError &) {
    return "SliceError";
  } catch (const except::BinEdgeError &) {
    return "BinEdgeError";
  } catch (const except::SizeError &) {
    return "SizeError";
  } catch (const except::VariableError &) {
    return "VariableError";
  } catch (const std::exception &e) {
    return std::string("exception ") + e.what();
  }
  return std::nullopt;
}
} // namespace vf
