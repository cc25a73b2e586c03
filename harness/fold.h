// Reductions of the library, and the plain definition they are compared with:
// elements (or events) collected from raw memory, masks applied, and folded in
// long double, 128-bit integers or element by element.
#pragma once
#include "parts.h"
#include "scipp/dataset/generated_bins.h"
#include "scipp/dataset/generated_reduction.h"
#include "scipp/dataset/bins_all.h"
#include "scipp/dataset/bins_any.h"
#include "scipp/dataset/bins_max.h"
#include "scipp/dataset/bins_mean.h"
#include "scipp/dataset/bins_min.h"
#include "scipp/dataset/bins_nanmax.h"
#include "scipp/dataset/bins_nanmean.h"
#include "scipp/dataset/bins_nanmin.h"
#include "scipp/dataset/bins_nansum.h"
#include "scipp/dataset/bins_sum.h"
#include "scipp/dataset/mean.h"
#include "scipp/dataset/nanmean.h"
#include "scipp/variable/reduction.h"
#include "vtbb.h"

namespace vf {
enum class R { sum, nansum, mean, nanmean, min, max, nanmin, nanmax, all, any };
const std::vector<std::pair<R, const char *>> reductions{{R::sum, "sum"}, {R::nansum, "nansum"}, {R::mean, "mean"}, {R::nanmean, "nanmean"}, {R::min, "min"},
                                                         {R::max, "max"}, {R::nanmin, "nanmin"}, {R::nanmax, "nanmax"}, {R::all, "all"}, {R::any, "any"}};
bool is_sum(const R r) { return r <= R::nanmean; }
bool is_mean(const R r) { return r == R::mean || r == R::nanmean; }
bool is_logical(const R r) { return r == R::all || r == R::any; }
bool ignores_nan(const R r) { return r == R::nansum || r == R::nanmean || r == R::nanmin || r == R::nanmax; }

#define APPLY(R_, NS, PREFIX, ...)                                                                                                                       \
  [&] {                                                                                                                                              \
    switch (R_) {                                                                                                                                    \
    case R::sum:                                                                                                                                     \
      return NS::PREFIX##sum(__VA_ARGS__);                                                                                                               \
    case R::nansum:                                                                                                                                  \
      return NS::PREFIX##nansum(__VA_ARGS__);                                                                                                            \
    case R::mean:                                                                                                                                    \
      return NS::PREFIX##mean(__VA_ARGS__);                                                                                                              \
    case R::nanmean:                                                                                                                                 \
      return NS::PREFIX##nanmean(__VA_ARGS__);                                                                                                           \
    case R::min:                                                                                                                                     \
      return NS::PREFIX##min(__VA_ARGS__);                                                                                                               \
    case R::max:                                                                                                                                     \
      return NS::PREFIX##max(__VA_ARGS__);                                                                                                               \
    case R::nanmin:                                                                                                                                  \
      return NS::PREFIX##nanmin(__VA_ARGS__);                                                                                                            \
    case R::nanmax:                                                                                                                                  \
      return NS::PREFIX##nanmax(__VA_ARGS__);                                                                                                            \
    case R::all:                                                                                                                                     \
      return NS::PREFIX##all(__VA_ARGS__);                                                                                                               \
    default:                                                                                                                                         \
      return NS::PREFIX##any(__VA_ARGS__);                                                                                                               \
    }                                                                                                                                                \
  }()
Variable reduce(const R r, const Variable &v, const Dim d) { return APPLY(r, variable, , v, d); }
Variable reduce(const R r, const Variable &v) { return APPLY(r, variable, , v); }
Variable reduce_bins(const R r, const Variable &v) { return APPLY(r, variable, bins_, v); }
DataArray reduce(const R r, const DataArray &v, const Dim d) { return APPLY(r, dataset, , v, d); }
DataArray reduce(const R r, const DataArray &v) { return APPLY(r, dataset, , v); }
Dataset reduce(const R r, const Dataset &v, const Dim d) { return APPLY(r, dataset, , v, d); }
Dataset reduce(const R r, const Dataset &v) { return APPLY(r, dataset, , v); }
DataArray reduce_bins(const R r, const DataArray &v) { return APPLY(r, dataset, bins_, v); }
Dataset reduce_bins(const R r, const Dataset &v) { return APPLY(r, dataset, bins_, v); }

template <class T> struct Item {
  T value;
  double variance = 0;
};
// position in the output -> its unmasked elements in order
template <class T> using Groups = std::map<IndexMap, std::vector<Item<T>>>;

IndexMap without(const IndexMap &at, const Dimensions &keep) {
  IndexMap out;
  for (const auto &l : keep.labels())
    for (const auto &p : at)
      if (p.first == l)
        out.push_back(p);
  return out;
}
bool masked(const std::vector<Variable> &masks, const IndexMap &at) {
  for (const auto &m : masks) {
    IndexMap sub;
    for (const auto &p : at)
      if (m.dims().contains(p.first))
        sub.push_back(p);
    if (raw_value<bool>(m, sub))
      return true;
  }
  return false;
}
template <class T> Item<T> item(const Variable &v, const IndexMap &at) {
  if constexpr (core::canHaveVariances<T>())
    if (v.has_variances())
      return {raw_value<T>(v, at), double(raw_variance<T>(v, at))};
  return {raw_value<T>(v, at), 0};
}
Variable event_data(const Variable &v) {
  return v.dtype() == dtype<core::bucket<Variable>> ? v.bin_buffer<Variable>() : v.bin_buffer<DataArray>().data();
}
Dim event_dim(const Variable &v) {
  return v.dtype() == dtype<core::bucket<Variable>> ? std::get<1>(v.constituents<Variable>()) : std::get<1>(v.constituents<DataArray>());
}
template <class T> Groups<T> collect(const Variable &v, const Dimensions &out, const std::vector<Variable> &masks) {
  Groups<T> g;
  each_index(out, [&](const IndexMap &at) { g[at]; });
  if (!is_binned(v)) {
    each_index(v.dims(), [&](const IndexMap &at) {
      if (!masked(masks, at))
        g[without(at, out)].push_back(item<T>(v, at));
    });
    return g;
  }
  const auto data = event_data(v);
  const auto dim = event_dim(v);
  std::vector<Variable> event_masks;
  if (v.dtype() == dtype<core::bucket<DataArray>>)
    for (const auto &[k, m] : v.bin_buffer<DataArray>().masks())
      if (m.dims().contains(dim))
        event_masks.push_back(m);
  each_index(v.dims(), [&](const IndexMap &at) {
    if (masked(masks, at))
      return;
    const auto r = raw_range(v, at);
    auto &group = g[without(at, out)];
    for (auto i = r.first; i < r.second; ++i)
      if (!masked(event_masks, {{dim, i}}))
        group.push_back(item<T>(data, {{dim, i}}));
  });
  return g;
}

// ---- what the result has to be
long double as_ld(const time_point &x) { return static_cast<long double>(x.time_since_epoch()); }
template <class T> long double as_ld(const T &x) { return static_cast<long double>(x); }
template <class T> bool nan_of(const T &x) {
  if constexpr (std::is_floating_point_v<T>)
    return std::isnan(x);
  else
    return false;
}
template <class T> DType result_type(const R r) {
  if (is_logical(r))
    return dtype<bool>;
  if constexpr (std::is_same_v<T, bool>)
    return is_mean(r) ? dtype<double> : is_sum(r) ? dtype<int64_t> : dtype<bool>;
  if (is_mean(r) && std::is_integral_v<T>)
    return dtype<double>;
  return dtype<T>;
}
double slack(const DType t) { return t == dtype<float> ? 0x1p-22 : 0x1p-50; }

template <class T> void check_number(const R r, const std::vector<Item<T>> &items, const Variable &out, const IndexMap &at, const std::string &what, const int rounds) {
  long double sum = 0, magnitude = 0, finite = 0, variances = 0;
  bool special = false, special_variance = false, pos = false, neg = false;
  int64_t n = 0;
  for (const auto &x : items) {
    if (ignores_nan(r) && nan_of(x.value))
      continue;
    ++n;
    const auto v = as_ld(x.value);
    special |= !std::isfinite(v);
    pos |= std::isinf(v) && v > 0;
    neg |= std::isinf(v) && v < 0;
    special_variance |= !std::isfinite(x.variance);
    sum += v;
    magnitude += std::fabs(v);
    finite += std::isfinite(v) ? std::fabs(v) : 0;
    variances += x.variance;
  }
  if (ignores_nan(r) && pos && neg) // see suite infinite
    return;
  const auto type = out.dtype();
  const long double big = type == dtype<float> ? 1e37L : 1e307L;
  if (finite > big) {
    obs("overflowing-sums");
    return;
  }
  const auto value = for_dtype(type, [&](auto tag) -> long double {
    using O = typename decltype(tag)::type;
    if constexpr (std::is_arithmetic_v<O>)
      return static_cast<long double>(raw_value<O>(out, at));
    else
      return std::numeric_limits<double>::signaling_NaN();
  });
  const auto where = [&] { return STR(what << " at " << show(at) << " gave " << text_at(out, at) << " for " << n << " elements, sum " << double(sum)); };
  if (std::is_integral_v<T> && !is_mean(r)) {
    CHECK("integer-sum", value == sum, where());
    return;
  }
  const long double expected = is_mean(r) ? sum / static_cast<long double>(n) : sum;
  const long double scale = is_mean(r) && n > 0 ? magnitude / n : magnitude;
  // sequential or pairwise summation in double, rounding of every partial
  // result to float, one reciprocal and one product
  const long double tol = scale * (static_cast<long double>(items.size()) * 0x1p-52L + (rounds + 3) * slack(type)) + (type == dtype<float> ? 1e-37L : 1e-305L);
  CHECK("value", std::isnan(expected) ? std::isnan(value) : std::isinf(expected) ? value == expected : std::fabs(value - expected) <= tol, where() << ", expected " << double(expected));
  if (out.has_variances() && !special && !special_variance) {
    const long double ev = is_mean(r) ? variances / (static_cast<long double>(n) * n) : variances;
    const auto var = for_dtype(type, [&](auto tag) -> long double {
      using O = typename decltype(tag)::type;
      if constexpr (core::canHaveVariances<O>())
        return static_cast<long double>(raw_variance<O>(out, at));
      else
        return 0;
    });
    CHECK("variance", n == 0 && is_mean(r) ? std::isnan(var) : std::fabs(var - ev) <= ev * (items.size() * 0x1p-52L + (2 * rounds + 6) * slack(type)) + 1e-37L, where() << ", expected variance " << double(ev) << " from " << double(variances));
    obs("variances-compared");
  }
}

template <class T> void check_extreme(const R r, const std::vector<Item<T>> &items, const Variable &out, const IndexMap &at, const std::string &what, const bool scalar) {
  const bool maximum = r == R::max || r == R::nanmax;
  const T got = raw_value<T>(out, at);
  const auto where = [&] {
    std::string s = what + " at " + show(at) + " gave " + text_at(out, at) + " for";
    for (size_t i = 0; i < items.size() && i < 12; ++i)
      s += ' ' + cell_text(items[i].value);
    return s;
  };
  bool any_nan = false;
  std::optional<T> best;
  for (const auto &x : items) {
    if (nan_of(x.value))
      any_nan = true;
    else if (!best || (maximum ? *best < x.value : x.value < *best))
      best = x.value;
  }
  if (any_nan && !ignores_nan(r)) {
    CHECK("extreme", nan_of(got), where());
    return;
  }
  T neutral{};
  if constexpr (std::is_same_v<T, time_point>)
    neutral = maximum ? time_point(std::numeric_limits<int64_t>::lowest()) : time_point(std::numeric_limits<int64_t>::max());
  else if constexpr (std::is_arithmetic_v<T>)
    neutral = maximum ? std::numeric_limits<T>::lowest() : std::numeric_limits<T>::max();
  if (!best) {
    if (scalar && !items.empty() && nan_of(got)) // a scalar is its own extreme
      return;
    CHECK("neutral", got == neutral, where() << ", expected the neutral element " << cell_text(neutral));
    obs("neutral");
    return;
  }
  // all elements infinitely far beyond the neutral element: see suite infinite
  if (maximum ? *best < neutral : neutral < *best)
    return;
  CHECK("extreme", got == *best, where() << ", expected " << cell_text(*best));
  if constexpr (core::canHaveVariances<T>())
    if (out.has_variances()) {
      bool found = *best == neutral;
      for (const auto &x : items)
        found |= x.value == got && same(double(raw_variance<T>(out, at)), x.variance);
      CHECK("extreme-variance", found, where() << ": the variance belongs to no element with this value");
      obs("variances-compared");
    }
}

void check_vector(const R r, const std::vector<Item<Vec3>> &items, const Variable &out, const IndexMap &at, const std::string &what, const int rounds) {
  for (int k = 0; k < 3; ++k) {
    long double sum = 0, magnitude = 0;
    for (const auto &x : items) {
      sum += x.value[k];
      magnitude += std::fabs(x.value[k]);
    }
    if (is_mean(r)) {
      sum /= static_cast<long double>(items.size());
      magnitude /= std::max<long double>(1, items.size());
    }
    const auto got = raw_value<Vec3>(out, at)[k];
    CHECK("vector", std::isnan(sum) ? std::isnan(got) : std::fabs(got - sum) <= magnitude * (items.size() + rounds + 3) * 0x1p-50L, what << " at " << show(at) << " gave " << text_at(out, at) << ", expected component " << k << ' ' << double(sum));
  }
}

// compares all of a result; `rounds` is the number of reduction steps
template <class T> void check_result(const R r, const Variable &in, const std::vector<Variable> &masks, const Variable &out, const Dimensions &dims, const std::string &what, const int rounds) {
  CHECK("dims", out.dims() == dims, what << " has dims " << show(out.dims()) << ", expected " << show(dims));
  // (a scalar is its own sum)
  CHECK("dtype", out.dtype() == result_type<T>(r) || (in.dims().empty() && out.dtype() == in.dtype()), what << " has type " << core::to_string(out.dtype()));
  const auto groups = collect<T>(in, dims, masks);
  for (const auto &[at, items] : groups) {
    obs("results-compared");
    obs("elements-folded", items.size());
    if constexpr (std::is_same_v<T, Vec3>)
      check_vector(r, items, out, at, what, rounds);
    else if constexpr (std::is_same_v<T, bool>) {
      if (is_logical(r)) {
        bool all = true, any = false;
        for (const auto &x : items) {
          all = all && x.value;
          any = any || x.value;
        }
        CHECK("logical", raw_value<bool>(out, at) == (r == R::all ? all : any), what << " at " << show(at) << " gave " << text_at(out, at));
      } else if (is_sum(r))
        check_number<T>(r, items, out, at, what, rounds);
      else
        check_extreme<T>(r, items, out, at, what, in.dims().empty() && !is_binned(in));
    } else if constexpr (std::is_same_v<T, time_point>)
      check_extreme<T>(r, items, out, at, what, in.dims().empty() && !is_binned(in));
    else if constexpr (std::is_arithmetic_v<T>) {
      if (is_sum(r))
        check_number<T>(r, items, out, at, what, rounds);
      else
        check_extreme<T>(r, items, out, at, what, in.dims().empty() && !is_binned(in));
    }
  }
}
void check_result(const DType type, const R r, const Variable &in, const std::vector<Variable> &masks, const Variable &out, const Dimensions &dims, const std::string &what, const int rounds) {
  for_dtype(type, [&](auto tag) { check_result<typename decltype(tag)::type>(r, in, masks, out, dims, what, rounds); });
}

bool supported(const R r, const DType t) {
  if (is_logical(r))
    return t == dtype<bool>;
  if (r == R::nanmean && t == dtype<bool>)
    return false;
  const bool number = t == dtype<double> || t == dtype<float> || t == dtype<int64_t> || t == dtype<int32_t> || t == dtype<bool>;
  if (number)
    return true;
  if (is_sum(r))
    return t == dtype<Vec3> && (r == R::sum || r == R::mean);
  return t == dtype<time_point>;
}
void random_partition(Rng &rng) {
  auto &c = vtbb::control();
  c.mode = rng.pick({vtbb::Mode::serial, vtbb::Mode::shuffle, vtbb::Mode::finest});
  c.state = rng.next();
}
// Values with variances seen through a broadcast are refused where they are
// combined with something else (masks, counts).
bool broadcast_variances(const Variable &v) {
  if (is_binned(v) || !v.has_variances())
    return false;
  for (const auto x : v.strides())
    if (x == 0)
      return true;
  return false;
}
} // namespace vf
