// C29: random histories of public operations with fitting and ill-fitting
// arguments on a pool of variables, arrays and datasets that share memory.
// Oracles: the sanitizers (memory, undefined behaviour, leaks), the watchdog,
// the kinds of exceptions raised, and that every object that results is well
// formed: all elements readable, printable, copyable, consistent shapes.
#include "events.h"
#include "ops.h"
#include "scipp/core/string.h"
#include "scipp/dataset/arithmetic.h"
#include "scipp/dataset/astype.h"
#include "scipp/dataset/bin.h"
#include "scipp/dataset/bins.h"
#include "scipp/dataset/bins_view.h"
#include "scipp/dataset/counts.h"
#include "scipp/dataset/extract.h"
#include "scipp/dataset/generated_bins.h"
#include "scipp/dataset/generated_comparison.h"
#include "scipp/dataset/generated_logical.h"
#include "scipp/dataset/generated_math.h"
#include "scipp/dataset/generated_reduction.h"
#include "scipp/dataset/generated_trigonometry.h"
#include "scipp/dataset/generated_util.h"
#include "scipp/dataset/groupby.h"
#include "scipp/dataset/histogram.h"
#include "scipp/dataset/mean.h"
#include "scipp/dataset/nanmean.h"
#include "scipp/dataset/rebin.h"
#include "scipp/dataset/shape.h"
#include "scipp/dataset/slice.h"
#include "scipp/dataset/sort.h"
#include "scipp/dataset/special_values.h"
#include "scipp/dataset/to_unit.h"
#include "scipp/dataset/util.h"
#include "scipp/units/string.h"
#include "scipp/variable/accumulate.h"
#include "scipp/variable/bin_util.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/creation.h"
#include "scipp/variable/cumulative.h"
#include "scipp/variable/inv.h"
#include "scipp/variable/rebin.h"
#include "scipp/variable/reduction.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/slice.h"
#include "scipp/variable/sort.h"
#include "scipp/variable/string.h"
#include "scipp/variable/structures.h"

#include <deque>
#include <typeinfo>

using namespace vf;

namespace {
struct Pool {
  Rng &rng;
  Dimensions base;
  std::deque<Variable> v; // references stay valid during a step
  std::deque<DataArray> a;
  std::deque<Dataset> d;
  std::string trace;

  explicit Pool(Rng &r) : rng(r), base(rand_dims(r, 3, 4)) {}

  // ---- arguments
  Dim dim() {
    if (!base.empty() && rng.chance(3, 4))
      return base.labels()[size_t(rng.in(0, base.ndim() - 1))];
    return rng.pick({vdim(0), vdim(1), vdim(2), Dim("event"), Dim("bin"), Dim("new"), Dim("ex"), Dim("aux2"), Dim("attr")});
  }
  template <class T> Dim dim_of(const T &x) {
    const auto dims = x.dims();
    if (dims.ndim() != 0 && rng.chance(7, 8))
      return *(dims.begin() + rng.in(0, int64_t(dims.ndim()) - 1));
    return dim();
  }
  std::vector<Dim> dims(const int max = 3) {
    std::vector<Dim> out;
    const auto n = rng.in(0, max);
    for (int64_t i = 0; i < n; ++i)
      out.push_back(dim());
    return out;
  }
  template <class T> std::vector<Dim> some_of(const T &x, const bool all) { // mostly sensible
    std::vector<Dim> out;
    for (const auto &l : x.dims())
      if (all || rng.chance(1, 2))
        out.push_back(l);
    rng.shuffle(out);
    if (rng.chance(1, 8))
      out.push_back(dim());
    if (!out.empty() && rng.chance(1, 8))
      out.pop_back();
    return out;
  }
  Dimensions shape() {
    switch (rng.in(0, 3)) {
    case 0:
      return base;
    case 1:
      return sub_dims(rng, base);
    case 2:
      return rand_dims(rng, 3, 4);
    default: {
      Dimensions out;
      const auto from = shuffled(rng, base);
      for (const auto &l : from.labels())
        if (rng.chance(3, 4))
          out.addInner(l, rng.chance(1, 2) ? base[l] : std::max<int64_t>(0, base[l] + rng.in(-1, 1)));
      return out;
    }
    }
  }
  int64_t number() { return rng.chance(1, 60) ? rng.pick({int64_t(1) << 40, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min(), -(int64_t(1) << 40)}) : rng.chance(1, 8) ? rng.in(-4, 12) : rng.in(0, 4); }
  int64_t size() { return rng.chance(1, 10) ? rng.in(-3, -1) : rng.in(0, 6); }
  units::Unit unit() { return rng.pick({units::one, units::m, units::s, units::none, units::counts, units::ns, units::us, units::deg, units::rad, units::Unit("km"), units::Unit("m/s"), units::K}); }
  std::string name() { return rng.pick<std::string>({"a", "b", "c", "m0", "m1", "", "new"}); }
  DType type() { return rng.chance(1, 12) ? rng.pick({dtype<scipp::index_pair>, core::dtype<Variable>, core::dtype<DataArray>, core::dtype<bucket<Variable>>}) : rand_dtype(rng); }
  Slice slice(const Dim d) {
    const auto b = number();
    switch (rng.in(0, 3)) {
    case 0:
      return Slice(d, b);
    case 1:
      return Slice(d, b, number());
    case 2:
      return Slice(d, b, rng.chance(1, 2) || b > 100 || b < -100 ? number() : b + rng.in(0, 3), number());
    default:
      return Slice(d, 0, number());
    }
  }
  Spec spec() {
    Spec s;
    s.variances = rng.chance(1, 4);
    s.specials = rng.chance(1, 3);
    s.unit = rng.chance(2, 3) ? units::m : unit();
    s.small = rng.chance(1, 2) ? 4 : 90;
    return s;
  }
  Variable fresh() {
    auto s = spec();
    if (rng.chance(1, 5))
      return rng.chance(1, 2) ? rand_bins(rng, rand_basic(rng), shape(), s) : rand_table_bins(rng, shape(), array_spec());
    const auto t = rng.chance(1, 25) ? dtype<scipp::index_pair> : rng.chance(1, 4) ? dtype<double> : rng.chance(1, 8) ? dtype<bool> : rand_dtype(rng);
    if (t == dtype<bool> || t == dtype<std::string> || t == dtype<scipp::index_pair>)
      s.unit = units::none;
    if (t == dtype<double> || t == dtype<float>)
      s.small = rng.chance(1, 2) ? s.small : 0;
    else
      s.variances = false;
    return rand_var(rng, t, shape(), s);
  }
  ArraySpec array_spec() {
    ArraySpec s;
    s.type = rand_numeric(rng);
    s.data = spec();
    s.data.small = s.type == dtype<double> ? s.data.small : 90;
    s.data.variances = s.data.variances && floating(s.type);
    s.data.unit = rng.chance(1, 2) ? units::counts : s.data.unit;
    s.order = rng.chance(2, 3) ? 1 : 0;
    s.strict = rng.chance(1, 2);
    return s;
  }
  DataArray fresh_array() {
    auto s = array_spec();
    if (rng.chance(1, 5))
      return rand_table(rng, rng.in(0, 8), s, rng.chance(2, 3) ? Dim("event") : vdim(0));
    s.binned = rng.chance(1, 3);
    return rand_array(rng, shape(), s, name());
  }
  Dataset fresh_dataset() {
    auto s = array_spec();
    s.binned = rng.chance(1, 4);
    return rand_dataset(rng, shape(), s);
  }
  Variable &var() {
    if (v.empty() || rng.chance(1, 4))
      keep(fresh());
    return v[size_t(rng.in(0, int64_t(v.size()) - 1))];
  }
  // of the dims of x, mostly
  Variable edges(const Dim d, const bool binary = false) {
    const auto s = array_spec();
    ArraySpec t = s;
    t.order = rng.chance(4, 5) ? 1 : rng.pick({-1, 0});
    t.strict = rng.chance(3, 4);
    return rng.chance(1, 10) ? var() : rand_coord(rng, d, binary ? 2 : rng.chance(1, 6) ? rng.in(0, 1) : rng.in(2, 5), t, rng.chance(9, 10) ? rng.pick({units::m, units::one}) : unit());
  }
  Variable bools(const Dimensions &dims_) {
    auto s = spec();
    s.unit = units::none;
    return rand_var(rng, dtype<bool>, dims_, s);
  }
  DataArray &arr() {
    if (a.empty() || rng.chance(1, 4))
      keep(fresh_array());
    return a[size_t(rng.in(0, int64_t(a.size()) - 1))];
  }
  DataArray binned() {
    for (int i = 0; i < 3; ++i)
      if (const auto &x = arr(); scipp::dataset::is_bins(x))
        return x;
    auto s = array_spec();
    s.binned = true;
    return rand_array(rng, shape(), s);
  }
  Dataset &set() {
    if (d.empty() || rng.chance(1, 4))
      keep(fresh_dataset());
    return d[size_t(rng.in(0, int64_t(d.size()) - 1))];
  }
  Variable any_data() { return rng.chance(1, 3) ? Variable(arr().data()) : var(); }

  // ---- results
  template <class T> static void put(Rng &rng, std::deque<T> &to, T x) {
    (void)rng;
    to.push_back(std::move(x));
  }
  static bool tame(const Variable &x) { // of moderate size and free of large integers
    if (!x.is_valid() || x.dims().volume() > 400 || x.dims().ndim() > 5) // 6 with that of vector elements
      return false;
    const auto t = x.dtype();
    const auto small = [&](auto tag, const auto limit) {
      for (const auto &i : x.values<typename decltype(tag)::type>())
        if (i > limit || i < -limit)
          return false;
      return true;
    };
    if (t == dtype<int64_t>)
      return small(Tag<int64_t>{}, int64_t(10000));
    if (t == dtype<int32_t>)
      return small(Tag<int32_t>{}, int32_t(10000));
    if (t == dtype<time_point>) {
      for (const auto &i : x.values<time_point>())
        if (i.time_since_epoch() > 1000000 || i.time_since_epoch() < -1000000)
          return false;
      return true;
    }
    if (t == dtype<scipp::index_pair>) {
      for (const auto &[b, e] : x.values<scipp::index_pair>())
        if (b > 10000 || b < -10000 || e > 10000 || e < -10000)
          return false;
      return true;
    }
    if (t == dtype<std::string>) {
      size_t n = 0;
      for (const auto &s : x.values<std::string>())
        n += s.size();
      return n < 20000;
    }
    if (t == dtype<bucket<Variable>>)
      return tame(std::get<2>(x.constituents<Variable>()));
    if (t == dtype<bucket<DataArray>>)
      return tame(std::get<2>(x.constituents<DataArray>()));
    if (t == dtype<bucket<Dataset>>)
      return tame(std::get<2>(x.constituents<Dataset>()));
    return true;
  }
  template <class D> static bool tame_dict(const D &dict) {
    for (const auto &kv : dict)
      if (!tame(kv.second))
        return false;
    return true;
  }
  static bool tame(const DataArray &x) { return x.is_valid() && tame(x.data()) && tame_dict(x.coords()) && tame_dict(x.masks()) && tame_dict(x.attrs()); }
  static bool tame(const Dataset &x) {
    if (!x.is_valid() || !tame_dict(x.coords()))
      return false;
    for (const auto &i : x)
      if (!tame(i))
        return false;
    return true;
  }
  void sweep() {
    const auto drop = [this](auto &from) {
      for (size_t i = 0; i < from.size();)
        if (tame(from[i]))
          ++i;
        else
          from.erase(from.begin() + int64_t(i));
      while (from.size() > 7)
        from.erase(from.begin() + rng.in(0, int64_t(from.size()) - 1));
    };
    drop(v), drop(a), drop(d);
  }
  void keep(Variable x) { put(rng, v, std::move(x)); }
  void keep(DataArray x) { put(rng, a, std::move(x)); }
  void keep(Dataset x) { put(rng, d, std::move(x)); }
  void keep(std::pair<Variable, Variable> x) {
    keep(x.first);
    keep(x.second);
  }
};

// ---- well-formed objects
void check_valid(const Variable &v, const std::string &where) {
  CHECK("invalid result", v.is_valid(), where);
  const auto &dims = v.dims();
  CHECK("malformed variable", int64_t(v.strides().size()) == dims.ndim(), where);
  int64_t volume = 1;
  std::set<std::string> labels;
  for (const auto &l : dims.labels()) {
    CHECK("malformed variable", dims[l] >= 0 && labels.insert(l.name()).second, where << to_string(dims));
    volume *= dims[l];
  }
  CHECK("malformed variable", volume == dims.volume(), where << to_string(dims));
  const auto bins = [&](const auto &parts, const auto &sizes) {
    const auto &[indices, dim, buffer] = parts;
    CHECK("malformed bins", indices.dims() == dims && sizes.contains(dim), where);
    for (const auto &[b, e] : indices.template values<scipp::index_pair>())
      CHECK("malformed bins", 0 <= b && b <= e && e <= sizes[dim], where << ": bin " << b << ':' << e << " of a buffer of " << sizes[dim]);
  };
  if (v.dtype() == dtype<bucket<Variable>>) {
    const auto parts = v.constituents<Variable>();
    bins(parts, std::get<2>(parts).dims());
    check_valid(std::get<2>(parts), where);
  } else if (v.dtype() == dtype<bucket<DataArray>>) {
    const auto parts = v.constituents<DataArray>();
    bins(parts, std::get<2>(parts).dims());
  } else if (v.dtype() == dtype<bucket<Dataset>>) {
    const auto parts = v.constituents<Dataset>();
    bins(parts, std::get<2>(parts).sizes());
  }
}
template <class D, class S> void check_dict(const D &dict, const S &sizes, const bool edges, const std::string &where) {
  for (const auto &kv : dict) {
    check_valid(kv.second, where);
    int grown = 0;
    for (const auto &l : kv.second.dims().labels()) {
      const auto n = kv.second.dims()[l];
      // bin edges: one more element, or 2 in a dim of a slice of one bin
      const bool fits = sizes.contains(l) ? n == sizes[l] : false;
      if (!fits)
        ++grown;
      CHECK("malformed metadata", fits || (edges && (sizes.contains(l) ? n == sizes[l] + 1 : n == 2)),
            where << ": " << to_string(kv.second.dims()) << " of an object of " << to_string(sizes));
    }
    CHECK("malformed metadata", grown <= 1, where << ": " << to_string(kv.second.dims()) << " of an object of " << to_string(sizes));
  }
}
void check_valid(const DataArray &a, const std::string &where) {
  CHECK("invalid result", a.is_valid(), where);
  check_valid(a.data(), where);
  check_dict(a.coords(), a.dims(), true, where);
  check_dict(a.attrs(), a.dims(), true, where);
  check_dict(a.masks(), a.dims(), true, where);
}
void check_valid(const Dataset &d, const std::string &where) {
  CHECK("invalid result", d.is_valid(), where);
  check_dict(d.coords(), d.sizes(), true, where);
  for (const auto &i : d) {
    check_valid(i, where);
    CHECK("malformed dataset", core::Sizes(i.dims()) == d.sizes(), where << ": item of " << to_string(i.dims()) << " in a dataset of " << to_string(d.sizes()));
  }
}
// the monitor reads events of one dim that are not binned themselves
bool flat_table(const DataArray &t) {
  auto ok = t.dims().ndim() == 1 && !is_binned(t.data());
  for (const auto &kv : t.coords())
    ok = ok && !is_binned(kv.second);
  for (const auto &kv : t.attrs()) // an attr must not shadow a coord
    ok = ok && !is_binned(kv.second) && !t.coords().contains(kv.first);
  for (const auto &kv : t.masks())
    ok = ok && !is_binned(kv.second);
  return ok;
}
bool readable(const Variable &x) {
  if (x.dims().ndim() > 5) // no iterators for more than 6 with that of vector elements
    return false;
  const auto one = [](const Variable &b) { return b.dims().ndim() == 1 && !is_binned(b); };
  if (x.dtype() == dtype<bucket<Variable>>)
    return one(std::get<2>(x.constituents<Variable>()));
  if (x.dtype() == dtype<bucket<DataArray>>)
    return flat_table(std::get<2>(x.constituents<DataArray>()));
  if (x.dtype() == dtype<bucket<Dataset>>) {
    const auto buffer = std::get<2>(x.constituents<Dataset>());
    auto ok = buffer.sizes().size() == 1;
    for (const auto &i : buffer)
      ok = ok && flat_table(i);
    for (const auto &kv : buffer.coords())
      ok = ok && !is_binned(kv.second);
    return ok;
  }
  return true;
}
bool readable(const DataArray &a) {
  auto ok = readable(a.data());
  for (const auto &kv : a.coords())
    ok = ok && readable(kv.second);
  for (const auto &kv : a.attrs())
    ok = ok && readable(kv.second);
  return ok;
}
bool readable(const Dataset &d) {
  auto ok = true;
  for (const auto &i : d)
    ok = ok && readable(i);
  for (const auto &kv : d.coords())
    ok = ok && readable(kv.second);
  return ok;
}
template <class T> void use(const T &x, const std::string &where) { // reads and prints all of it
  check_valid(x, where);
  if (!readable(x)) { // only sanitizers watch
    try {
      (void)to_string(x);
      (void)(copy(x) == x);
    } catch (const std::runtime_error &) {
    }
    obs("unusual objects");
    return;
  }
  const auto text = full(x);
  try {
    const auto shown = to_string(x);
    CHECK("no text", !shown.empty(), where);
  } catch (const except::UnitError &e) { // time points need a unit of time
    CHECK("no text", std::string(e.what()).find("time point") != std::string::npos, where << ": " << e.what());
  }
  const auto again = copy(x);
  check_valid(again, where + "; copy");
  const auto other = full(again);
  CHECK("copy differs", other == text, where << ": " << diff(other, text));
  (void)(again == x);
  obs("objects read in full");
}

// ---- steps
using Step = std::function<void(Pool &)>;
const std::vector<std::pair<std::string, Step>> &steps();

double largest(const Variable &x, bool *finite = nullptr) { // magnitude
  double m = 0;
  const auto see = [&](const double y) {
    if (!std::isfinite(y) && finite)
      *finite = false;
    else
      m = std::max(m, std::abs(y));
  };
  if (x.dtype() == dtype<double>)
    for (const auto &y : x.values<double>())
      see(y);
  if (x.dtype() == dtype<float>)
    for (const auto &y : x.values<float>())
      see(y);
  if (x.dtype() == dtype<int64_t>)
    for (const auto &y : x.values<int64_t>())
      see(double(y));
  if (x.dtype() == dtype<int32_t>)
    for (const auto &y : x.values<int32_t>())
      see(double(y));
  if (x.dtype() == dtype<time_point>)
    for (const auto &y : x.values<time_point>())
      see(double(y.time_since_epoch()));
  return m;
}
Variable elements_of(const Variable &x) {
  if (x.dtype() == dtype<bucket<Variable>>)
    return std::get<2>(x.constituents<Variable>());
  if (x.dtype() == dtype<bucket<DataArray>>)
    return std::get<2>(x.constituents<DataArray>()).data();
  return x;
}
bool integral(const DType t) { return t == dtype<int64_t> || t == dtype<int32_t>; }
// the caller's business: converting elements to integers that cannot hold them
bool can_convert(const Variable &x, const DType to) {
  if (!integral(to))
    return true;
  const auto e = elements_of(x);
  bool finite = true;
  return largest(e, &finite) < 2e9 && finite;
}
bool can_scale(const Variable &x, const units::Unit &to) {
  const auto e = elements_of(x);
  if (!integral(e.dtype()) && e.dtype() != dtype<time_point>)
    return true;
  try {
    const auto scale = largest(scipp::variable::to_unit(1.0 * e.unit(), to));
    return scale * std::max(1.0, largest(e)) < (e.dtype() == dtype<int32_t> ? 2e9 : 9e18);
  } catch (const std::exception &) {
    return true; // refused
  }
}
// integer powers that fit
bool can_pow(const Variable &base, const Variable &exponent) {
  const auto b = elements_of(base), e = elements_of(exponent);
  if (floating(b.dtype()) && !integral(e.dtype()))
    return true;
  return largest(b) <= 9 && largest(e) <= 4;
}

#define S(NAME) out.emplace_back(NAME, [](Pool &p) { [[maybe_unused]] auto &rng = p.rng;
#define E })

void shape_steps(std::vector<std::pair<std::string, Step>> &out) {
  S("slice") { auto &x = p.var(); p.keep(x.slice(p.slice(p.dim_of(x)))); } E;
  S("slice array") { auto &x = p.arr(); p.keep(x.slice(p.slice(p.dim_of(x)))); } E;
  S("slice dataset") { auto &x = p.set(); p.keep(x.slice(p.slice(p.dim()))); } E;
  S("transpose") { auto &x = p.var(); const auto o = p.some_of(x, true); p.keep(rng.chance(1, 3) ? x.transpose(o) : transpose(x, o)); } E;
  S("transpose array") { auto &x = p.arr(); p.keep(transpose(x, p.some_of(x, true))); } E;
  S("transpose dataset") { auto &x = p.set(); p.keep(transpose(x, p.dims())); } E;
  S("rename") { auto &x = p.var(); p.keep(x.rename_dims({{p.dim_of(x), p.dim()}, {p.dim(), p.dim()}}, rng.chance(1, 2))); } E;
  S("rename one") { auto &x = p.var(); p.keep(x.rename_dims({{p.dim_of(x), p.dim()}})); } E;
  S("rename array") { auto &x = p.arr(); p.keep(x.rename_dims({{p.dim_of(x), p.dim()}}, rng.chance(1, 2))); } E;
  S("rename dataset") { auto &x = p.set(); p.keep(x.rename_dims({{p.dim(), p.dim()}})); } E;
  const auto fold_to = [](Pool &p, const int64_t n) {
    Dimensions to;
    const auto parts = p.rng.in(0, 5);
    auto left = n;
    for (int64_t i = 0; i < parts; ++i) {
      auto k = i + 1 == parts ? left : left > 1 && p.rng.chance(1, 2) && left % 2 == 0 ? 2 : 1;
      if (p.rng.chance(1, 10))
        k = p.rng.in(-1, 4);
      left = k > 0 ? left / k : left;
      to.addInner(p.rng.chance(1, 3) ? p.dim() : Dim("fold" + std::to_string(i)), k);
    }
    return to;
  };
  out.emplace_back("fold", [fold_to](Pool &p) { auto &x = p.var(); const auto d = p.dim_of(x); p.keep(fold(x, d, fold_to(p, x.dims().contains(d) ? x.dims()[d] : 3))); });
  out.emplace_back("fold method", [fold_to](Pool &p) { auto &x = p.var(); const auto d = p.dim_of(x); p.keep(x.fold(d, fold_to(p, x.dims().contains(d) ? x.dims()[d] : 3))); });
  out.emplace_back("fold array", [fold_to](Pool &p) { auto &x = p.arr(); const auto d = p.dim_of(x); p.keep(fold(x, d, fold_to(p, x.dims().contains(d) ? x.dims()[d] : 3))); });
  S("flatten") {
    auto &x = p.var();
    auto l = std::vector<Dim>(x.dims().begin(), x.dims().end());
    if (rng.chance(1, 4))
      l = p.some_of(x, false);
    else if (!l.empty())
      l.resize(size_t(rng.in(1, int64_t(l.size()))));
    p.keep(flatten(x, l, p.dim()));
  } E;
  S("flatten array") {
    auto &x = p.arr();
    auto l = std::vector<Dim>(x.dims().begin(), x.dims().end());
    if (rng.chance(1, 4))
      l = p.some_of(x, false);
    else if (!l.empty())
      l.erase(l.begin(), l.begin() + rng.in(0, int64_t(l.size()) - 1));
    p.keep(flatten(x, rng.chance(1, 4) ? std::nullopt : std::optional<scipp::span<const Dim>>(l), p.dim()));
  } E;
  S("squeeze") { auto &x = p.var(); const auto l = p.some_of(x, false); p.keep(squeeze(x, rng.chance(1, 2) ? std::nullopt : std::optional<scipp::span<const Dim>>(l))); } E;
  S("squeeze array") { auto &x = p.arr(); const auto l = p.some_of(x, false); p.keep(squeeze(x, rng.chance(1, 2) ? std::nullopt : std::optional<scipp::span<const Dim>>(l))); } E;
  S("squeeze dataset") { auto &x = p.set(); const auto l = p.dims(); p.keep(squeeze(x, rng.chance(1, 2) ? std::nullopt : std::optional<scipp::span<const Dim>>(l))); } E;
  S("broadcast") {
    auto &x = p.var();
    auto to = p.shape();
    if (rng.chance(3, 4)) {
      to = x.dims();
      for (const auto &[l, n] : std::map<std::string, int64_t>{{"x", 2}, {"new", 3}, {"z", 1}})
        if (!to.contains(Dim(l)) && rng.chance(1, 2) && to.ndim() < 6)
          rng.chance(1, 2) ? to.addInner(Dim(l), n) : to.add(Dim(l), n);
    }
    p.keep(rng.chance(1, 2) ? scipp::variable::broadcast(x, to) : x.broadcast(to));
  } E;
  S("concat") {
    std::vector<Variable> all;
    const auto n = rng.in(0, 3);
    for (int64_t i = 0; i < n; ++i)
      all.push_back(i > 0 && rng.chance(1, 2) ? all[0] : p.var());
    p.keep(concat(all, all.empty() ? p.dim() : p.dim_of(all[0])));
  } E;
  S("concat arrays") {
    std::vector<DataArray> all;
    const auto n = rng.in(0, 3);
    for (int64_t i = 0; i < n; ++i)
      all.push_back(i > 0 && rng.chance(1, 2) ? all[0] : p.arr());
    p.keep(concat(all, all.empty() ? p.dim() : p.dim_of(all[0])));
  } E;
  S("concat pieces") {
    auto &x = p.arr();
    const auto d = p.dim_of(x);
    p.keep(concat(std::vector{x.slice(p.slice(d)), x.slice(p.slice(d))}, rng.chance(3, 4) ? d : p.dim()));
  } E;
  S("concat datasets") {
    std::vector<Dataset> all;
    const auto n = rng.in(0, 3);
    for (int64_t i = 0; i < n; ++i)
      all.push_back(i > 0 && rng.chance(1, 2) ? all[0] : p.set());
    p.keep(concat(all, p.dim()));
  } E;
  S("resize") { auto &x = p.var(); p.keep(resize(x, p.dim_of(x), p.size(), rng.pick({FillValue::Default, FillValue::ZeroNotBool, FillValue::True, FillValue::False, FillValue::Max, FillValue::Lowest}))); } E;
  S("resize like") {
    auto &x = p.var();
    auto &shape = p.var();
    if (is_binned(x) && is_binned(shape))
      return;
    if (is_binned(x) && shape.dtype() == dtype<int64_t>) // sizes of bins
      for (const auto &n : shape.values<int64_t>())
        if (n < 0)
          return;
    p.keep(resize(x, shape));
  }
  E;
  S("resize array") { auto &x = p.arr(); p.keep(resize(x, p.dim_of(x), p.size())); } E;
  S("resize dataset") { auto &x = p.set(); p.keep(resize(x, p.dim(), p.size())); } E;
  S("strip edges") { auto &x = p.arr(); p.keep(strip_edges_along(x, p.dim_of(x))); } E;
  S("strip edges of dataset") { auto &x = p.set(); p.keep(strip_edges_along(x, p.dim())); } E;
  S("fields") {
    auto &x = p.var();
    const auto key = rng.pick<std::string>({"x", "y", "z", "xx", "zy", "xw", "w", "no"});
    if (x.dtype() == dtype<Vec3> || rng.chance(1, 8))
      p.keep(x.elements<Vec3>(key));
    else if (x.dtype() == dtype<Mat3>)
      p.keep(x.elements<Mat3>(key));
    else if (x.dtype() == dtype<Aff3>)
      p.keep(x.elements<Aff3>(key));
    else if (x.dtype() == dtype<Quaternion>)
      p.keep(x.elements<Quaternion>(key));
    else if (x.dtype() == dtype<Translation>)
      p.keep(x.elements<Translation>(key));
    for (const auto &k : element_keys(x))
      (void)k.size();
  } E;
  S("as const") { auto &x = p.var(); p.keep(x.as_const()); } E;
  S("contiguous") { auto &x = p.var(); p.keep(scipp::variable::as_contiguous(x, p.dim_of(x))); } E;
  S("copy") { p.keep(copy(p.var())); } E;
}

void element_steps(std::vector<std::pair<std::string, Step>> &out) {
  const auto add = [&](const Operation &op) {
    out.emplace_back(op.name, [op](Pool &p) {
      auto &rng = p.rng;
      Args args;
      const auto specs = rand_operands(rng, op);
      for (size_t i = 0; i < size_t(op.arity); ++i) {
        if (rng.chance(1, 2)) {
          auto s = specs[i].spec;
          s.small = s.small ? s.small : floating(specs[i].type) ? 0 : 90;
          args.push_back(rand_var(rng, specs[i].type, i > 0 && rng.chance(1, 2) ? args[0].dims() : p.shape(), s));
        } else
          args.push_back(p.any_data());
      }
      if (op.pow && !can_pow(args[0], args[1]))
        return;
      if (op.in_place && integral(elements_of(args[0]).dtype()))
        for (const auto &x : args)
          if (!can_convert(x, dtype<int32_t>) || (op.name == "divide_equals" && !integral(elements_of(x).dtype())))
            return;
      const auto r = op.run(args);
      p.keep(r);
    });
  };
  for (const auto &op : unary_ops())
    add(op);
  for (const auto &op : binary_ops())
    add(op);
  for (const auto &op : ternary_ops())
    add(op);
  S("arithmetic of arrays") {
    auto &x = p.arr();
    auto y = rng.chance(1, 3) ? copy(x) : p.arr();
    if (rng.chance(1, 3) && x.dims().ndim() > 0)
      y = x.slice(p.slice(p.dim_of(x)));
    switch (rng.in(0, 9)) {
    case 0: p.keep(x + y); break;
    case 1: p.keep(x - y); break;
    case 2: p.keep(x * y); break;
    case 3: p.keep(x / y); break;
    case 4: p.keep(floor_divide(x, y)); break;
    case 5: p.keep(x % y); break;
    case 6: if (can_pow(x.data(), y.data())) p.keep(pow(x, y)); break;
    case 7: p.keep(less(x, y)); break;
    case 8: p.keep(equal(x, y)); break;
    default: p.keep(x | y); break;
    }
  } E;
  S("arithmetic of array and variable") {
    auto &x = p.arr();
    const auto &y = p.var();
    switch (rng.in(0, 7)) {
    case 0: p.keep(x + y); break;
    case 1: p.keep(y - x); break;
    case 2: p.keep(x * y); break;
    case 3: p.keep(y / x); break;
    case 4: p.keep(floor_divide(x, y)); break;
    case 5: p.keep(y % x); break;
    case 6: p.keep(less(x, y)); break;
    default: p.keep(equal(y, x)); break;
    }
  } E;
  S("in place on array") {
    auto &x = p.arr();
    const auto y = p.arr();
    if (integral(elements_of(x.data()).dtype()) && !integral(elements_of(y.data()).dtype()))
      return;
    switch (rng.in(0, 4)) {
    case 0: x += y; break;
    case 1: x -= y; break;
    case 2: x *= y; break;
    case 3: x /= y; break;
    default: x |= y; break;
    }
  } E;
  S("in place on slice of array") {
    auto &x = p.arr();
    auto s = x.slice(p.slice(p.dim_of(x)));
    const auto y = rng.chance(1, 2) ? Variable(s.data()) : p.var();
    if (integral(elements_of(x.data()).dtype()) && !integral(elements_of(y).dtype()))
      return;
    switch (rng.in(0, 3)) {
    case 0: s += y; break;
    case 1: s -= y; break;
    case 2: s *= y; break;
    default: s /= y; break;
    }
    p.keep(s);
  } E;
  S("arithmetic of datasets") {
    auto &x = p.set();
    const auto y = rng.chance(1, 3) ? copy(x) : p.set();
    switch (rng.in(0, 5)) {
    case 0: p.keep(x + y); break;
    case 1: p.keep(x - y); break;
    case 2: p.keep(x * p.arr()); break;
    case 3: p.keep(x / p.var()); break;
    case 4: p.keep(p.var() * x); break;
    default: p.keep(p.arr() - x); break;
    }
  } E;
  S("in place on dataset") {
    auto &x = p.set();
    for (const auto &i : x)
      if (integral(elements_of(i.data()).dtype()))
        return;
    switch (rng.in(0, 4)) {
    case 0: x += Dataset(p.set()); break;
    case 1: x -= DataArray(p.arr()); break;
    case 2: x *= Variable(p.var()); break;
    case 3: x /= x; break;
    default: x += x; break;
    }
  } E;
  S("unary of array") {
    auto &x = p.arr();
    switch (rng.in(0, 6)) {
    case 0: p.keep(abs(x)); break;
    case 1: p.keep(-x); break;
    case 2: p.keep(sqrt(x)); break;
    case 3: p.keep(isnan(x)); break;
    case 4: p.keep(values(x)); break;
    case 5: p.keep(~x); break;
    default: p.keep(sin(x)); break;
    }
  } E;
  S("astype") { const auto &x = p.var(); const auto t = p.type(); if (can_convert(x, t)) p.keep(astype(x, t, rng.pick({CopyPolicy::Always, CopyPolicy::TryAvoid}))); } E;
  S("astype array") { const auto &x = p.arr(); const auto t = p.type(); if (can_convert(x.data(), t)) p.keep(astype(x, t, rng.pick({CopyPolicy::Always, CopyPolicy::TryAvoid}))); } E;
  S("to_unit") { const auto &x = p.var(); const auto u = p.unit(); if (can_scale(x, u)) p.keep(to_unit(x, u, rng.pick({CopyPolicy::Always, CopyPolicy::TryAvoid}))); } E;
  S("to_unit array") { const auto &x = p.arr(); const auto u = p.unit(); if (can_scale(x.data(), u)) p.keep(to_unit(x, u, rng.pick({CopyPolicy::Always, CopyPolicy::TryAvoid}))); } E;
  S("position") { const auto x = p.var(), y = p.var(), z = p.var(); p.keep(scipp::variable::geometry::position(x, y, z)); } E;
  S("inverse") { p.keep(inv(p.var())); } E;
  S("midpoints") { auto &x = p.var(); p.keep(rng.chance(1, 3) ? scipp::variable::midpoints(x) : scipp::variable::midpoints(x, p.dim_of(x))); } E;
  S("out arguments") {
    auto &x = p.var();
    const auto y = p.var();
    auto &o = p.var();
    switch (rng.in(0, 3)) {
    case 0: scipp::variable::nan_to_num(x, y, o); break;
    case 1: scipp::variable::positive_inf_to_num(x, y, o); break;
    case 2: scipp::variable::negative_inf_to_num(x, y, o); break;
    default:
      if (can_pow(x, y) && !integral(o.dtype()))
        scipp::variable::pow(x, y, o);
    }
  } E;
}

void reduction_steps(std::vector<std::pair<std::string, Step>> &out) {
#define RED(NAME)                                                                                                                                       \
  S(#NAME) {                                                                                                                                            \
    const auto x = p.var();                                                                                                                             \
    p.keep(rng.chance(1, 3) ? scipp::variable::NAME(x) : scipp::variable::NAME(x, p.dim_of(x)));                                                        \
  } E;                                                                                                                                                  \
  S(#NAME " of array") {                                                                                                                                \
    const auto x = p.arr();                                                                                                                             \
    p.keep(rng.chance(1, 3) ? scipp::dataset::NAME(x) : scipp::dataset::NAME(x, p.dim_of(x)));                                                          \
  } E;                                                                                                                                                  \
  S(#NAME " of dataset") {                                                                                                                              \
    const auto x = p.set();                                                                                                                             \
    p.keep(rng.chance(1, 3) ? scipp::dataset::NAME(x) : scipp::dataset::NAME(x, p.dim()));                                                              \
  } E
  RED(sum); RED(nansum); RED(mean); RED(nanmean); RED(max); RED(min); RED(nanmax); RED(nanmin); RED(all); RED(any);
#undef RED
#define BINS(NAME)                                                                                                                                      \
  S(#NAME) {                                                                                                                                            \
    if (rng.chance(1, 2))                                                                                                                               \
      p.keep(scipp::variable::NAME(p.any_data()));                                                                                                      \
    else                                                                                                                                                \
      p.keep(scipp::dataset::NAME(rng.chance(1, 6) ? p.arr() : p.binned()));                                                                            \
  } E
  BINS(bins_sum); BINS(bins_nansum); BINS(bins_mean); BINS(bins_nanmean); BINS(bins_max); BINS(bins_min); BINS(bins_nanmax); BINS(bins_nanmin); BINS(bins_all); BINS(bins_any); BINS(bin_sizes);
#undef BINS
  S("reduce into") {
    auto &x = p.var();
    auto acc = p.var();
    if (rng.chance(1, 2))
      acc = copy(x);
    switch (rng.in(0, 7)) {
    case 0: sum_into(acc, x); break;
    case 1: nansum_into(acc, x); break;
    case 2: all_into(acc, x); break;
    case 3: any_into(acc, x); break;
    case 4: max_into(acc, x); break;
    case 5: nanmax_into(acc, x); break;
    case 6: min_into(acc, x); break;
    default: nanmin_into(acc, x); break;
    }
    p.keep(acc);
  } E;
  S("cumsum") { const auto x = p.var(); const auto m = rng.pick({CumSumMode::Inclusive, CumSumMode::Exclusive}); p.keep(rng.chance(1, 2) ? cumsum(x, m) : rng.chance(1, 3) ? cumsum_bins(x, m) : cumsum(x, p.dim_of(x), m)); } E;
  S("sorted") { const auto &x = p.var(); const auto o = rng.pick({SortOrder::Ascending, SortOrder::Descending}); (void)scipp::variable::allsorted(x, p.dim_of(x), o); p.keep(scipp::variable::issorted(x, p.dim_of(x), o)); } E;
  S("islinspace") { const auto &x = p.var(); p.keep(scipp::variable::islinspace(x, p.dim_of(x))); } E;
  S("isarange") { const auto &x = p.var(); p.keep(scipp::variable::isarange(x, p.dim_of(x))); } E;
  S("linspace") { const auto x = p.var(); const auto y = rng.chance(1, 2) ? x : p.var(); p.keep(scipp::variable::linspace(x, y, p.dim(), p.size())); } E;
  S("zip") { const auto x = p.var(); const auto y = rng.chance(1, 2) ? x : p.var(); if (can_convert(x, dtype<int64_t>) && can_convert(y, dtype<int64_t>)) p.keep(zip(x, y)); } E;
  S("unzip") { p.keep(unzip(p.var())); } E;
  S("sort") { const auto x = p.var(); const auto k = rng.chance(2, 3) ? rand_var(rng, rand_basic(rng), Dimensions(p.dim_of(x), p.size() < 0 ? 1 : p.size()), p.spec().variances ? Spec{} : Spec{}) : p.var(); p.keep(scipp::dataset::sort(x, k, rng.pick({SortOrder::Ascending, SortOrder::Descending}))); } E;
  S("sort along") { const auto x = p.var(); p.keep(scipp::variable::sort(x, p.dim_of(x), rng.pick({SortOrder::Ascending, SortOrder::Descending}))); } E;
  S("sort array") { const auto x = p.arr(); p.keep(rng.chance(1, 3) ? sort(x, p.var()) : sort(x, p.dim_of(x), rng.pick({SortOrder::Ascending, SortOrder::Descending}))); } E;
  S("sort dataset") { const auto x = p.set(); p.keep(rng.chance(1, 3) ? sort(x, p.var()) : sort(x, p.dim(), rng.pick({SortOrder::Ascending, SortOrder::Descending}))); } E;
}

void write_steps(std::vector<std::pair<std::string, Step>> &out) {
  S("copy into") { auto &x = p.var(); auto &y = p.var(); if (x.dtype() == y.dtype() || !integral(y.dtype())) copy(x, y); } E;
  S("copy into slice") { auto &x = p.var(); auto s = x.slice(p.slice(p.dim_of(x))); copy(rng.chance(1, 2) ? copy(s) : p.var(), s); p.keep(s); } E;
  S("overlapping copy") { auto &x = p.var(); const auto d = p.dim_of(x); auto s = x.slice(p.slice(d)); copy(x.slice(p.slice(d)), s); } E;
  S("setSlice") { auto &x = p.var(); const auto s = p.slice(p.dim_of(x)); x.setSlice(s, rng.chance(1, 2) ? copy(x.slice(s)) : p.var()); } E;
  S("setSlice of array") { auto &x = p.arr(); const auto s = p.slice(p.dim_of(x)); if (rng.chance(1, 2)) x.setSlice(s, rng.chance(1, 2) ? copy(x.slice(s)) : p.arr()); else x.setSlice(s, rng.chance(1, 2) ? copy(x.slice(s).data()) : p.var()); } E;
  S("setSlice of dataset") { auto &x = p.set(); const auto s = p.slice(p.dim()); if (rng.chance(1, 2)) x.setSlice(s, rng.chance(1, 2) ? copy(x.slice(s)) : p.set()); else x.setSlice(s, DataArray(p.arr())); } E;
  S("setUnit") { p.var().setUnit(p.unit()); } E;
  S("setUnit of array") { p.arr().setUnit(p.unit()); } E;
  S("setVariances") { auto &x = p.var(); x.setVariances(rng.chance(1, 6) ? Variable() : rng.chance(1, 2) ? copy(x) : p.var()); } E;
  S("setVariances from itself") { auto &x = p.var(); x.setVariances(values(x)); } E;
  S("set_aligned") { p.var().set_aligned(rng.chance(1, 2)); } E;
  S("assign") { auto &x = p.var(); x = rng.chance(1, 8) ? x : p.var(); } E;
  S("assign array") { auto &x = p.arr(); x = rng.chance(1, 8) ? x : p.arr(); } E;
  S("assign dataset") { auto &x = p.set(); x = rng.chance(1, 8) ? x : p.set(); } E;
  S("fill") { auto &x = p.var(); if (rng.chance(1, 2)) scipp::variable::fill_zeros(x); else { const auto y = p.var(); if (x.dtype() == y.dtype()) scipp::variable::fill(x, y); } } E;
  S("create") {
    const auto t = p.type();
    switch (rng.in(0, 4)) {
    case 0: p.keep(scipp::variable::ones(p.shape(), p.unit(), t, rng.chance(1, 4))); break;
    case 1: p.keep(scipp::variable::special_like(p.var(), rng.pick({FillValue::Default, FillValue::ZeroNotBool, FillValue::True, FillValue::False, FillValue::Max, FillValue::Lowest}))); break;
    case 2: p.keep(scipp::variable::dense_special_like(p.var(), p.shape(), rng.pick({FillValue::Default, FillValue::ZeroNotBool, FillValue::True, FillValue::False}))); break;
    case 3: { // uninitialised: filled before use
      auto x = scipp::variable::empty(p.shape(), p.unit(), t, rng.chance(1, 4));
      scipp::variable::fill_zeros(x);
      p.keep(x);
      break;
    }
    default: p.keep(scipp::variable::zero_like(p.var()));
    }
  } E;
  S("typed access") {
    auto &x = p.var();
    switch (rng.in(0, 7)) {
    case 0: (void)x.values<double>(); break;
    case 1: (void)x.variances<double>(); break;
    case 2: (void)x.value<int64_t>(); break;
    case 3: (void)x.values<bucket<Variable>>(); break;
    case 4: (void)x.bin_buffer<DataArray>(); break;
    case 5: (void)x.bin_indices(); break;
    case 6: (void)x.value<double>(); break;
    default: (void)x.dim(); (void)x.stride(p.dim()); (void)x.dims()[p.dim()];
    }
  } E;
  S("compare") {
    (void)(p.var() == p.var());
    (void)(p.arr() != p.arr());
    (void)(p.set() == p.set());
    (void)equals_nan(p.arr(), p.arr());
    (void)p.var().is_same(p.var());
  } E;
  S("size") { (void)size_of(p.var(), rng.pick({Underlying, ViewOnly})); (void)size_of(p.arr(), rng.pick({Underlying, ViewOnly})); (void)size_of(p.set(), rng.pick({Underlying, ViewOnly})); } E;
}

void container_steps(std::vector<std::pair<std::string, Step>> &out) {
  S("make array") {
    const auto x = p.var();
    DataArray a(x);
    if (rng.chance(1, 2))
      a.coords().set(p.dim(), rng.chance(1, 2) ? p.edges(p.dim_of(x)) : p.var());
    if (rng.chance(1, 3))
      a.masks().set(p.name(), rng.chance(3, 4) ? p.bools(sub_dims(rng, x.dims())) : p.var());
    p.keep(a);
  } E;
  S("make array at once") { const auto x = p.var(); p.keep(DataArray(x, {{p.dim(), p.edges(p.dim_of(x))}, {p.dim(), p.var()}}, {{"m", p.bools(sub_dims(rng, x.dims()))}})); } E;
  S("array data") { p.keep(p.arr().data()); } E;
  S("set coord") { auto &x = p.arr(); auto c = p.arr(); if (rng.chance(1, 3)) x.coords().set(p.dim(), p.var()); else x.coords().set(p.dim(), p.edges(p.dim_of(x))); } E;
  S("set mask") { auto &x = p.arr(); x.masks().set(p.name(), rng.chance(1, 4) ? p.var() : p.bools(sub_dims(rng, x.dims()))); } E;
  S("set attr") { p.arr().attrs().set(p.dim(), p.var()); } E;
  S("erase") {
    auto &x = p.arr();
    switch (rng.in(0, 4)) {
    case 0: x.coords().erase(p.dim()); break;
    case 1: x.masks().erase(p.name()); break;
    case 2: x.attrs().erase(p.dim()); break;
    case 3: p.keep(x.coords().extract(p.dim())); break;
    default: p.keep(x.masks().extract(p.name())); break;
    }
  } E;
  S("get") {
    auto &x = p.arr();
    switch (rng.in(0, 5)) {
    case 0: p.keep(x.coords()[p.dim()]); break;
    case 1: p.keep(x.masks()[p.name()]); break;
    case 2: p.keep(x.meta()[p.dim()]); break;
    case 3: (void)x.coords().dim_of(p.dim()); break;
    case 4: (void)x.coords().is_edges(p.dim(), rng.chance(1, 2) ? std::optional<Dim>(p.dim_of(x)) : std::nullopt); break;
    default: x.coords().set_aligned(p.dim(), rng.chance(1, 2)); break;
    }
  } E;
  S("drop") {
    auto &x = p.arr();
    const auto l = p.dims();
    switch (rng.in(0, 2)) {
    case 0: p.keep(x.drop_coords(l)); break;
    case 1: p.keep(x.drop_masks(std::vector<std::string>{p.name()})); break;
    default: p.keep(x.drop_attrs(l)); break;
    }
  } E;
  S("rename array name") { p.arr().setName(p.name()); } E;
  S("setData of array") { auto &x = p.arr(); x.setData(rng.chance(1, 2) ? copy(x.data()) : p.var()); } E;
  S("view") { p.keep(p.arr().view()); } E;
  S("make dataset") { p.keep(Dataset(p.arr())); } E;
  S("item") { auto &x = p.set(); p.keep(x[p.name()]); } E;
  S("setData") { auto &x = p.set(); if (rng.chance(1, 2)) x.setData(p.name(), DataArray(p.arr())); else x.setData(p.name(), rng.chance(1, 2) && x.contains("a") ? copy(x["a"].data()) : p.var(), rng.pick({scipp::dataset::AttrPolicy::Keep, scipp::dataset::AttrPolicy::Drop})); } E;
  S("setDataInit") { auto &x = p.set(); if (rng.chance(1, 2)) x.setDataInit(p.name(), DataArray(p.arr())); else x.setDataInit(p.name(), Variable(p.var())); } E;
  S("erase item") { p.set().erase(p.name()); } E;
  S("extract item") { p.keep(p.set().extract(p.name())); } E;
  S("clear") { if (rng.chance(1, 6)) p.set().clear(); } E;
  S("set dataset coord") { auto &x = p.set(); if (rng.chance(1, 3)) x.setCoord(p.dim(), p.var()); else x.coords().set(p.dim(), p.edges(p.dim())); } E;
  S("set all dataset coords") { auto &x = p.set(); x.setCoords(rng.chance(1, 2) ? Coords(p.set().coords()) : Coords(p.arr().coords())); } E;
  S("drop of dataset") {
    auto &x = p.set();
    const auto l = p.dims();
    switch (rng.in(0, 2)) {
    case 0: p.keep(x.drop_coords(l)); break;
    default: x.coords().erase(p.dim()); break;
    }
  } E;
  S("merge") { p.keep(merge(p.set(), p.set())); } E;
  S("iterate") {
    auto &x = p.set();
    for (auto &&i : x)
      (void)i.name().size();
    for (auto it = x.keys_begin(); it != x.keys_end(); ++it)
      (void)it->size();
    auto it = x.find(p.name());
    if (it != x.end())
      p.keep(DataArray(*it));
  } E;
  S("slice by value") {
    auto &x = p.arr();
    const auto d = p.dim_of(x);
    const auto value = [&] { return rng.chance(1, 6) ? p.var() : double(rng.in(-6, 12)) * rng.pick({units::m, units::m, units::m, units::one}); };
    p.keep(rng.chance(1, 2) ? slice(x, d, value()) : slice(x, d, rng.chance(1, 5) ? Variable{} : value(), rng.chance(1, 5) ? Variable{} : value()));
  } E;
  S("slice dataset by value") {
    auto &x = p.set();
    const auto d = p.dim();
    p.keep(rng.chance(1, 2) ? slice(x, d, double(rng.in(-6, 6)) * units::m) : slice(x, d, double(rng.in(-6, 3)) * units::m, double(rng.in(-3, 12)) * units::m));
  } E;
  S("extract") { auto &x = p.arr(); const auto d = p.dim_of(x); const auto n = x.dims().contains(d) && rng.chance(4, 5) ? x.dims()[d] : rng.in(0, 4); p.keep(extract(x, rng.chance(1, 6) ? p.var() : p.bools(Dimensions(d, n)))); } E;
  S("extract of dataset") { auto &x = p.set(); const auto d = p.dim(); const auto n = x.sizes().contains(d) && rng.chance(4, 5) ? x.sizes()[d] : rng.in(0, 4); p.keep(extract(x, rng.chance(1, 6) ? p.var() : p.bools(Dimensions(d, n)))); } E;
  S("extract of variable") { auto x = p.var(); const auto d = p.dim_of(x); const auto n = x.dims().contains(d) && rng.chance(4, 5) ? x.dims()[d] : rng.in(0, 4); p.keep(extract(x, p.bools(Dimensions(d, n)))); } E;
}

void event_steps(std::vector<std::pair<std::string, Step>> &out) {
  S("make_bins") {
    auto indices = rng.chance(1, 8) ? p.var() : rand_var(rng, dtype<scipp::index_pair>, p.shape(), {false, false, false, units::none});
    if (indices.dtype() == dtype<scipp::index_pair> && rng.chance(1, 2)) { // any numbers
      indices = copy(indices);
      for (auto &[b, e] : indices.values<scipp::index_pair>())
        if (rng.chance(1, 4))
          b = p.number(), e = p.number();
    }
    if (rng.chance(1, 3)) {
      const auto buffer = p.var();
      p.keep(make_bins(indices, p.dim_of(buffer), buffer));
    } else if (rng.chance(1, 2)) {
      const auto buffer = p.arr();
      p.keep(make_bins(indices, p.dim_of(buffer), buffer));
    } else
      p.keep(make_bins(indices, p.dim(), p.set()));
  } E;
  S("make valid bins") { // increasing
    const auto buffer = p.arr();
    const auto d = p.dim_of(buffer);
    const auto n = buffer.dims().contains(d) ? buffer.dims()[d] : 2;
    std::vector<scipp::index_pair> all;
    int64_t at = 0;
    const auto k = rng.in(0, 4);
    for (int64_t i = 0; i < k; ++i) {
      const auto end = rng.in(at, n);
      all.emplace_back(at, end);
      at = end;
    }
    rng.shuffle(all);
    p.keep(make_bins(makeVariable<scipp::index_pair>(Dimensions(rng.pick({Dim("bin"), vdim(0), vdim(1)}), k), Values(all)), d, buffer));
  } E;
  S("make_bins of begin") { // only begins
    auto x = p.var();
    if (x.dtype() == dtype<scipp::index_pair>)
      p.keep(unzip(x));
  } E;
  S("bins of bins") {
    const auto x = p.binned();
    const auto c = x.data();
    if (c.dtype() == dtype<bucket<DataArray>>) {
      const auto [i, d, b] = c.constituents<DataArray>();
      p.keep(b);
      p.keep(i);
    } else if (c.dtype() == dtype<bucket<Variable>>) {
      const auto [i, d, b] = c.constituents<Variable>();
      p.keep(b);
    }
  } E;
  S("bin") {
    const auto x = rng.chance(1, 2) ? p.binned() : p.arr();
    std::vector<Variable> e, g;
    const auto n = rng.in(0, 2);
    for (int64_t i = 0; i < n; ++i)
      e.push_back(p.edges(rng.pick({Dim("ex"), Dim("ey"), p.dim_of(x)})));
    if (rng.chance(1, 3))
      g.push_back(p.edges(rng.pick({Dim("ey"), Dim("ex"), Dim("aux2")})));
    p.keep(scipp::dataset::bin(x, e, g, rng.chance(1, 3) ? p.dims(2) : std::vector<Dim>{}));
  } E;
  S("histogram") { const auto x = rng.chance(1, 2) ? p.binned() : p.arr(); p.keep(histogram(x, p.edges(rng.pick({Dim("ex"), Dim("ey"), p.dim_of(x)})))); } E;
  S("histogram of dataset") { p.keep(histogram(p.set(), p.edges(rng.pick({Dim("ex"), Dim("ey"), p.dim()})))); } E;
  S("histogram of variable") { p.keep(scipp::dataset::buckets::histogram(p.binned().data(), p.edges(rng.pick({Dim("ex"), Dim("ey"), p.dim()})))); } E;
  S("is_histogram") { const auto &x = p.arr(); (void)is_histogram(x, p.dim_of(x)); (void)is_histogram(p.set(), p.dim()); (void)edge_dimensions(x); (void)edge_dimension(x); } E;
  S("rebin") {
    const auto x = p.arr();
    const auto d = p.dim_of(x);
    if (!integral(x.data().dtype()))
      p.keep(rebin(x, d, p.edges(d)));
  } E;
  S("rebin of histogram") {
    auto x = p.arr();
    const auto d = p.dim_of(x);
    if (!x.dims().contains(d) || integral(x.data().dtype()))
      return;
    x = DataArray(x.data());
    x.coords().set(d, rand_coord(rng, d, x.dims()[d] + 1, p.array_spec(), units::m));
    p.keep(x);
    p.keep(rebin(x, d, p.edges(d)));
  } E;
  S("rebin of dataset") { const auto d = p.dim(); p.keep(rebin(p.set(), d, p.edges(d))); } E;
  S("rebin of variable") { const auto &x = p.var(); const auto d = p.dim_of(x); if (!integral(x.dtype())) p.keep(scipp::variable::rebin(x, d, p.edges(d), p.edges(d))); } E;
  S("groupby") {
    const auto x = p.arr();
    const auto key = rng.chance(1, 2) ? Dim("aux2") : p.dim_of(x);
    const auto red = rng.chance(5, 6) && x.coords().contains(key) && x.coords()[key].dims().ndim() == 1 ? x.coords()[key].dims().inner() : p.dim_of(x);
    const auto g = rng.chance(1, 2) ? groupby(x, key) : rng.chance(2, 3) ? groupby(x, key, p.edges(rng.pick({key, Dim("group")}))) : groupby(x, p.var(), p.edges(Dim("group")));
    switch (rng.in(0, 9)) {
    case 0: p.keep(g.sum(red)); break;
    case 1: p.keep(g.nansum(red)); break;
    case 2: p.keep(g.mean(red)); break;
    case 3: p.keep(g.max(red)); break;
    case 4: p.keep(g.min(red)); break;
    case 5: p.keep(g.all(red)); break;
    case 6: p.keep(g.any(red)); break;
    case 7: p.keep(g.nanmax(red)); break;
    default: p.keep(g.concat(red)); break;
    }
  } E;
  S("groupby of dataset") {
    const auto x = p.set();
    const auto key = rng.chance(1, 2) ? Dim("aux2") : p.dim();
    const auto g = rng.chance(1, 2) ? groupby(x, key) : groupby(x, key, p.edges(rng.pick({key, Dim("group")})));
    switch (rng.in(0, 4)) {
    case 0: p.keep(g.sum(p.dim())); break;
    case 1: p.keep(g.mean(p.dim())); break;
    case 2: p.keep(g.nanmin(p.dim())); break;
    default: p.keep(g.concat(p.dim())); break;
    }
  } E;
  S("concatenate") {
    const auto x = p.binned();
    switch (rng.in(0, 3)) {
    case 0: p.keep(scipp::dataset::buckets::concatenate(x, rng.chance(1, 2) ? x : p.binned())); break;
    case 1: p.keep(scipp::dataset::buckets::concatenate(x.data(), rng.chance(1, 2) ? p.any_data() : p.binned().data())); break;
    case 2: p.keep(scipp::dataset::buckets::concatenate(x, p.dim_of(x))); break;
    default: p.keep(scipp::dataset::buckets::concatenate(x.data(), p.dim_of(x))); break;
    }
  } E;
  S("append") {
    auto &x = p.arr();
    if (rng.chance(1, 2))
      scipp::dataset::buckets::append(x, rng.chance(1, 2) ? copy(x) : DataArray(p.arr()));
    else {
      auto &v = p.var();
      scipp::dataset::buckets::append(v, rng.chance(1, 2) ? copy(v) : Variable(p.var()));
    }
  } E;
  const auto function = [](Pool &p, const Dim d) {
    const auto n = p.rng.in(0, 4);
    auto s = p.array_spec();
    s.binned = false;
    auto t = p.rng.chance(1, 8) ? p.arr() : DataArray(rand_var(p.rng, p.rng.pick({dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>, dtype<bool>}), Dimensions(d, n), {false, p.rng.chance(1, 3), false, p.rng.pick({units::one, units::none, units::m}), 9}));
    if (p.rng.chance(7, 8) && t.dims().contains(d))
      t.coords().set(d, rand_coord(p.rng, d, t.dims()[d] + (p.rng.chance(3, 4) ? 1 : 0), s, units::one));
    if (p.rng.chance(1, 4))
      t.masks().set("m", p.bools(t.dims()));
    return t;
  };
  out.emplace_back("map", [function](Pool &p) {
    const auto d = p.rng.pick({Dim("ex"), Dim("ey"), p.dim()});
    const auto f = function(p, d);
    const auto fill = p.rng.chance(1, 3) ? std::optional<Variable>(is_binned(f.data()) || p.rng.chance(1, 2) ? p.var() : rand_var(p.rng, f.dtype(), Dimensions{}, {false, false, false, f.unit(), 3})) : std::nullopt;
    const auto x = p.binned();
    p.keep(scipp::dataset::buckets::map(f, p.rng.chance(1, 6) ? p.any_data() : x.data(), d, fill));
  });
  out.emplace_back("lookup_previous", [function](Pool &p) {
    const auto d = p.dim();
    const auto f = function(p, d);
    p.keep(scipp::dataset::lookup_previous(f, p.any_data(), d, !is_binned(f.data()) && p.rng.chance(1, 2) ? std::optional<Variable>(rand_var(p.rng, f.dtype(), Dimensions{}, {false, false, false, f.unit(), 3})) : std::nullopt));
  });
  out.emplace_back("scale", [function](Pool &p) {
    const auto d = p.rng.pick({Dim("ex"), Dim("ey"), p.dim()});
    const auto f = function(p, d);
    auto x = p.binned();
    if (integral(elements_of(x.data()).dtype()))
      return;
    scipp::dataset::buckets::scale(x, f, p.rng.chance(1, 6) ? Dim::Invalid : d);
    p.keep(x);
  });
  S("density") { const auto &x = p.arr(); const auto d = p.dim_of(x); if (!integral(x.data().dtype())) p.keep(rng.chance(1, 2) ? scipp::dataset::counts::toDensity(x, d) : scipp::dataset::counts::fromDensity(x, d)); } E;
  S("bins view") {
    auto x = p.rng.chance(1, 2) ? p.binned().data() : Variable(p.var());
    auto b = scipp::dataset::bins_view<DataArray>(x);
    switch (rng.in(0, 6)) {
    case 0: p.keep(b.data()); break;
    case 1: p.keep(b.coords()[rng.pick({Dim("ex"), Dim("ey")})]); break;
    case 2: b.setData(rng.chance(1, 2) ? b.data() * b.data() : Variable(p.var())); break;
    case 3: b.coords().set(p.dim(), rng.chance(1, 2) ? b.data() : Variable(p.var())); break;
    case 4: b.masks().set(p.name(), rng.chance(1, 2) ? isnan(b.data()) : Variable(p.var())); break;
    case 5: b.coords().erase(p.dim()); break;
    default: p.keep(b.masks()[p.name()]); break;
    }
    p.keep(x);
  } E;
  S("pretend bins") { const auto &x = p.arr(); p.keep(scipp::dataset::pretend_bins_for_threading(x, p.dim())); } E;
  S("resize_default_init") {
    auto x = resize_default_init(p.var(), p.dim(), p.size());
    scipp::variable::fill_zeros(x);
    p.keep(x);
  } E;
}
#undef S
#undef E

const std::vector<std::pair<std::string, Step>> &steps() {
  static const auto all = [] {
    std::vector<std::pair<std::string, Step>> out;
    shape_steps(out), element_steps(out), reduction_steps(out), write_steps(out), container_steps(out), event_steps(out);
    return out;
  }();
  return all;
}

void run_step(Pool &p, const std::pair<std::string, Step> &s) {
  p.trace += (p.trace.empty() ? "" : ", ") + s.first;
  if (rec().verbose || brief_limit() > 10000)
    std::fprintf(stderr, "step %s\n", s.first.c_str());
  const auto foreign = [&](const std::exception &e) { fail("undocumented exception", p.trace + ": " + typeid(e).name() + " " + e.what()); };
  try {
    s.second(p);
    obs("completed");
    obs("step " + s.first);
  } catch (const Failure &) {
    throw;
  } catch (const std::out_of_range &e) {
    obs("refused");
  } catch (const std::invalid_argument &) {
    obs("refused");
  } catch (const std::runtime_error &) {
    obs("refused");
  } catch (const std::length_error &e) { // groups from no edges
    if (s.first.find("groupby") == std::string::npos)
      foreign(e);
    obs("refused");
  } catch (const std::exception &e) {
    foreign(e);
  }
}
void check_all(Pool &p) {
  for (const auto &x : p.v)
    check_valid(x, p.trace);
  for (const auto &x : p.a)
    check_valid(x, p.trace);
  for (const auto &x : p.d)
    check_valid(x, p.trace);
}
void use_all(Pool &p) {
  for (const auto &x : p.v)
    use(x, p.trace);
  for (const auto &x : p.a)
    use(x, p.trace);
  for (const auto &x : p.d)
    use(x, p.trace);
}
void history(Rng &rng, const int64_t length, const size_t from, const size_t to) {
  Pool p(rng);
  for (int i = 0; i < 2; ++i) {
    p.keep(p.fresh());
    p.keep(p.fresh_array());
  }
  p.keep(p.fresh_dataset());
  for (int64_t i = 0; i < length; ++i) {
    run_step(p, steps()[size_t(rng.in(int64_t(from), int64_t(to) - 1))]);
    p.sweep();
    check_all(p);
  }
  use_all(p);
  nontrivial(p.trace);
}
} // namespace

SUITE(mixed) { history(rng, rng.in(4, 20), 0, steps().size()); }
// many steps of the same few kinds
SUITE(focused) {
  Pool p(rng);
  p.keep(p.fresh_dataset());
  std::vector<size_t> kinds;
  const auto n = rng.in(2, 4);
  for (int64_t i = 0; i < n; ++i)
    kinds.push_back(size_t(rng.in(0, int64_t(steps().size()) - 1)));
  for (int i = 0; i < 12; ++i) {
    run_step(p, steps()[rng.pick(kinds)]);
    p.sweep();
    check_all(p);
  }
  use_all(p);
  nontrivial(p.trace);
}
