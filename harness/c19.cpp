// C19: rebinning conserves counts and does not depend on memory layout.
// Oracle: every new bin as the overlap-weighted sum over all old bins in long
// double from raw memory; every layout of the same input against the oracle.
#include "events.h"
#include "scipp/dataset/rebin.h"
#include "scipp/variable/rebin.h"
#include "vtbb.h"

using namespace vf;

namespace {
const Dim dx("verif-x");
void random_tasks(Rng &rng) {
  auto &c = vtbb::control();
  c.mode = rng.pick({vtbb::Mode::serial, vtbb::Mode::shuffle, vtbb::Mode::finest});
  c.state = uint64_t(rng.in(1, 1 << 30));
}
struct Setup {
  DType type = dtype<double>, told = dtype<double>, tnew = dtype<double>;
  bool variances = false, down = false, specials = false;
  units::Unit unit = units::m;
};
Setup rand_setup(Rng &rng) {
  Setup s;
  s.type = rng.pick({dtype<double>, dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>, dtype<bool>});
  s.told = s.tnew = dtype<double>;
  if (rng.chance(1, 5)) {
    s.told = s.tnew = dtype<time_point>;
    s.unit = units::ns;
  } else if (s.type == dtype<float>) {
    if (rng.chance(2, 3))
      s.told = dtype<float>;
    if (s.told == dtype<float> || rng.chance(1, 2))
      s.tnew = dtype<float>;
  }
  s.variances = floating(s.type) && s.told != dtype<time_point> && rng.chance(1, 2);
  s.down = rng.chance(1, 3);
  s.specials = floating(s.type) && rng.chance(1, 4);
  return s;
}
bool finite(const std::vector<Real> &e) {
  for (const auto x : e)
    if (!std::isfinite(double(x)) || std::fabs(x) > 4e18L)
      return false;
  return true;
}
std::vector<Real> ascending(Rng &rng, const int64_t n, const DType t, const bool strict) {
  for (;;)
    if (auto e = rand_ascending(rng, n, t, strict); finite(e))
      return e;
}
// new edges near, on, inside and outside of the old ones
std::vector<Real> new_edges(Rng &rng, const std::vector<Real> &old, const int64_t n, const DType t) {
  if (rng.chance(1, 8))
    return ascending(rng, n, t, false);
  std::vector<Real> e;
  while (int64_t(e.size()) < n) {
    const auto x = rand_near(rng, old, t);
    if (std::isfinite(double(x)) && std::fabs(x) < 4e18L)
      e.push_back(x);
    else if (std::isinf(double(x)) && rng.chance(1, 3))
      e.push_back(x);
  }
  std::sort(e.begin(), e.end());
  return e;
}
struct Expected {
  Real value = 0, variance = 0, magnitude = 0, variance_magnitude = 0, whole = 0;
  int64_t n = 0;
  bool underflow = false; // of the fraction of an infinite value
};
Expected overlap_sum(const std::vector<Real> &old, const Real a, const Real b, const std::vector<Real> &v, const std::vector<Real> &w) {
  Expected s;
  const auto lo = std::min(a, b), hi = std::max(a, b);
  for (size_t i = 0; i < v.size(); ++i) {
    const auto ol = std::min(old[i], old[i + 1]), oh = std::max(old[i], old[i + 1]);
    const auto delta = std::min(hi, oh) - std::max(lo, ol);
    if (!(delta > 0))
      continue;
    const auto f = delta / (oh - ol);
    s.underflow = s.underflow || (f < 2e-38L && !std::isfinite(v[i]));
    s.value += f * v[i];
    s.magnitude += std::fabs(f * v[i]);
    if (!w.empty()) {
      s.variance += f * w[i];
      s.variance_magnitude += std::fabs(f * w[i]);
    }
    for (const auto x : {v[i], w.empty() ? Real(0) : w[i]})
      if (std::isfinite(x))
        s.whole += std::fabs(x);
    ++s.n;
  }
  return s;
}
bool close(const Real got, const Real expected, const Real magnitude, const int64_t n, const bool single, const Real whole) {
  if (std::isnan(expected) || std::isnan(got))
    return std::isnan(expected) == std::isnan(got);
  if (std::isfinite(magnitude) && magnitude > (single ? 3e38L : 1.7e308L) / 2)
    return true; // may overflow on the way
  if (std::isinf(expected) || std::isinf(got))
    return got == expected;
  const Real eps = single ? 1.2e-7L : 2.3e-16L, tiny = single ? 1.5e-45L : 5e-324L;
  return std::fabs(got - expected) <= magnitude * eps * Real(n + 8) + tiny * Real(n + 8) * (1 + whole); // the fraction may be too small for its type
}
struct Input {
  Setup s;
  Dimensions dims;
  Variable data, old, fresh;
  Dimensions old_rest, new_rest;
};
Input rand_input(Rng &rng, const int64_t max_len) {
  Input in;
  auto &s = in.s = rand_setup(rng);
  auto dims = rand_dims(rng, 2, 3);
  const auto rest = dims;
  const auto n = rng.in(1, max_len), m = rng.in(2, max_len + 1);
  if (rng.chance(1, 2))
    dims.addInner(dx, n);
  else
    dims.add(dx, n);
  in.dims = dims = shuffled(rng, dims);
  const auto edges = [&](const DType t, const Dimensions &r, const int64_t len, const auto &make) {
    auto ed = r;
    if (rng.chance(1, 2))
      ed.addInner(dx, len);
    else
      ed.add(dx, len);
    Variable e = number_var(rng, t, ed, s.unit);
    each_index(r, [&](const IndexMap &at) {
      auto x = make(at);
      if (s.down)
        std::reverse(x.begin(), x.end());
      for (int64_t i = 0; i < len; ++i) {
        auto f = at;
        f.emplace_back(dx, i);
        put(e, f, x[size_t(i)]);
      }
    });
    return e;
  };
  if (rng.chance(1, 5))
    in.old_rest = sub_dims(rng, rest);
  const bool zero_width = rng.chance(1, 6);
  in.old = edges(s.told, in.old_rest, n + 1, [&](const IndexMap &) { return ascending(rng, n + 1, s.told, !zero_width); });
  in.new_rest = in.old_rest;
  if (rng.chance(1, 6))
    in.new_rest = sub_dims(rng, rest);
  in.fresh = edges(s.tnew, in.new_rest, m, [&](const IndexMap &at) {
    auto o = in.old_rest.volume() == 0 ? std::vector<Real>{1, 2} : numbers(in.old, dx, [&] {
      IndexMap f;
      for (const auto &l : in.old_rest.labels()) {
        bool have = false;
        for (const auto &p : at)
          if (p.first == l) {
            f.push_back(p);
            have = true;
          }
        if (!have)
          f.emplace_back(l, 0);
      }
      return f;
    }());
    std::sort(o.begin(), o.end());
    return s.tnew == dtype<time_point> ? [&] {
      auto e = new_edges(rng, o, m, s.tnew);
      for (auto &x : e)
        x = std::clamp<Real>(x, -4e18L, 4e18L);
      return e;
    }() : new_edges(rng, o, m, s.tnew);
  });
  Spec sp;
  sp.variances = s.variances;
  sp.specials = s.specials;
  if (rng.chance(1, 2))
    sp.small = 100;
  sp.unit = units::counts;
  in.data = relayout(rng, rand_var(rng, s.type, dims, sp)); // own memory
  // bins of no width hold nothing
  each_index(dims, [&](const IndexMap &at) {
    auto f = sub(at, in.old.dims()), g = f;
    for (auto &p : g)
      if (p.first == dx)
        ++p.second;
    if (num(in.old, f) == num(in.old, g)) {
      put(in.data, at, 0);
      if (s.variances)
        put_var(in.data, at, 0);
    }
  });
  return in;
}
std::string show(const Input &in) { return STR("rebin " << describe(in.data) << " from " << describe(in.old) << " to " << describe(in.fresh)); }
bool refused_types(const Input &in) {
  const auto &s = in.s;
  return s.told != s.tnew && !(s.told == dtype<double> && s.tnew == dtype<float> && s.type == dtype<float>);
}
void compare(const Input &in, const Variable &out, const std::string &what, const std::function<bool(const IndexMap &)> &masked) {
  const auto &s = in.s;
  const auto m = in.fresh.dims()[dx] - 1, n = in.dims[dx];
  auto expected_dims = in.dims;
  expected_dims.resize(dx, m);
  for (const auto &l : expected_dims.labels())
    CHECK("dims", out.dims().contains(l) && out.dims()[l] == expected_dims[l] && out.dims().ndim() == expected_dims.ndim(), what << " gave " << vf::show(out.dims()));
  const auto type = floating(s.type) ? s.type : dtype<double>;
  CHECK("type", out.dtype() == type && out.has_variances() == s.variances && out.unit() == units::counts, what << " gave " << brief(full(out)));
  auto rest = in.dims;
  rest.erase(dx);
  const bool single = s.type == dtype<float> || s.told == dtype<float> || s.tnew == dtype<float>;
  each_index(rest, [&](const IndexMap &at) {
    const auto o = numbers(in.old, dx, sub(at, in.old_rest)), e = numbers(in.fresh, dx, sub(at, in.new_rest));
    auto v = numbers(in.data, dx, at);
    std::vector<Real> w;
    for (int64_t i = 0; i < n; ++i) {
      auto f = at;
      f.emplace_back(dx, i);
      const bool hide = masked && masked(f);
      if (hide)
        v[size_t(i)] = 0;
      if (s.variances)
        w.push_back(hide ? 0 : var_num(in.data, f));
    }
    Real total = 0, magnitude = 0;
    int64_t terms = 0;
    for (int64_t i = 0; i < m; ++i) {
      auto f = at;
      f.emplace_back(dx, i);
      const auto x = overlap_sum(o, e[size_t(i)], e[size_t(i) + 1], v, w);
      if (x.underflow)
        continue;
      const auto got = num(out, f);
      CHECK("value", close(got, x.value, x.magnitude, x.n, single, x.whole), what << " at " << vf::show(f) << " holds " << got << " but " << x.n << " overlaps sum to " << x.value);
      total += got;
      magnitude += x.magnitude;
      terms += x.n;
      if (s.variances) {
        const auto gv = var_num(out, f);
        CHECK("variance", close(gv, x.variance, x.variance_magnitude, x.n, single, x.whole), what << " at " << vf::show(f) << " has variance " << gv << " but " << x.n << " overlaps sum to " << x.variance);
        obs("variances-compared");
      }
      obs("bins-compared");
      obs("overlaps", x.n);
    }
    if (!s.specials && !e.empty()) { // conservation
      const auto x = overlap_sum(o, e.front(), e.back(), v, w);
      CHECK("conserved", close(total, x.value, magnitude + x.magnitude, terms + m, single, x.whole * Real(m + 1)), what << " at " << vf::show(at) << " totals " << total << " of " << x.value);
      obs("totals-compared");
    }
  });
}
} // namespace

namespace {
void variable_case(Rng &rng, const int64_t len) {
  random_tasks(rng);
  auto in = rand_input(rng, len);
  const auto what = show(in);
  const auto was = full(in.data) + full(in.old) + full(in.fresh);
  // the same elements in several layouts
  std::optional<bool> worked;
  for (int i = 0; i < 3; ++i) {
    auto x = in;
    if (i == 1)
      x.data = copy(in.data);
    else if (i == 2) { // the dim to rebin first, last or in between
      auto ls = label_list(in.dims);
      rng.shuffle(ls);
      x.data = transpose(copy(transpose(in.data, ls)), label_list(in.dims));
    }
    const auto here = i == 0 ? what : what + " in layout " + describe(x.data);
    Variable out;
    const auto e = error_of([&] { out = variable::rebin(x.data, dx, x.old, x.fresh); });
    if (e) {
      CHECK("works", refused_types(in) || !in.dims.includes(in.new_rest), here << " failed: " << *e);
      obs("refused-types");
      continue;
    }
    compare(x, out, here, nullptr);
    CHECK("order", out.dims().labels().size() == in.dims.labels().size() && std::equal(out.dims().labels().begin(), out.dims().labels().end(), in.dims.labels().begin()), here << " gave order " << vf::show(out.dims()));
    CHECK("input-changed", full(in.data) + full(in.old) + full(in.fresh) == was, here);
    obs(x.data.dims().inner() == dx ? "inner" : "non-inner");
  }
  if (in.s.down)
    obs("descending");
  if (in.s.told == dtype<time_point>)
    obs("time-points");
  nontrivial(what);
}
} // namespace
SUITE(variables) { variable_case(rng, 9); }
SUITE(long_variables) { variable_case(rng, 400); }

SUITE(arrays) {
  random_tasks(rng);
  auto in = rand_input(rng, 7);
  if (in.new_rest.ndim() && in.new_rest != in.old_rest)
    in.s.specials = in.s.specials && true;
  DataArray a(in.data);
  a.setName("name");
  a.coords().set(dx, in.old);
  std::vector<Variable> masks;
  for (auto k = rng.in(0, 4) - 2; k > 0; --k) {
    masks.push_back(rand_var(rng, dtype<bool>, sub_dims(rng, in.dims), {false, false, false, units::none}));
    a.masks().set("m" + std::to_string(k), masks.back());
  }
  for (const auto &l : in.dims.labels())
    if (l != dx && rng.chance(1, 2))
      a.coords().set(l, rand_coord(rng, l, in.dims[l] + (rng.chance(1, 2) ? 1 : 0), {}, units::m));
  if (rng.chance(1, 3))
    a.coords().set(Dim("aux"), rand_var(rng, dtype<double>, sub_dims(rng, in.dims), {}));
  const auto what = "array: " + show(in) + " of " + brief(full(a));
  const auto was = full(a) + full(in.fresh);
  const auto masked = [&](const IndexMap &at) {
    for (const auto &m : masks)
      if (m.dims().contains(dx) && raw_value<bool>(m, sub(at, m.dims())))
        return true;
    return false;
  };
  if (rng.chance(1, 3)) { // a dataset of two items
    Dataset ds({}, a.coords());
    ds.setData("a", a);
    auto other = in;
    other.data = relayout(rng, in.data);
    ds.setData("b", other.data);
    const auto before = full(ds);
    Dataset out;
    const auto e = error_of([&] { out = dataset::rebin(ds, dx, in.fresh); });
    if (e) {
      CHECK("works", refused_types(in) || !in.dims.includes(in.new_rest), what << " failed: " << *e);
      return;
    }
    compare(in, out["a"].data(), what + " item a", masked);
    compare(other, out["b"].data(), what + " item b", nullptr);
    CHECK("input-changed", full(ds) == before, what);
    obs("datasets");
    return;
  }
  DataArray out;
  const auto e = error_of([&] { out = dataset::rebin(a, dx, in.fresh); });
  CHECK("input-changed", full(a) + full(in.fresh) == was, what);
  if (e) {
    CHECK("works", refused_types(in) || !in.dims.includes(in.new_rest), what << " failed: " << *e);
    obs("refused-types");
    return;
  }
  compare(in, out.data(), what, masked);
  CHECK("name", out.name() == "name", what);
  const auto x = parts_of(out);
  for (const auto &[k, v] : parts_of(a)) {
    if (k == "data")
      continue;
    if (k == "coord verif-x") {
      CHECK("coord", x.count(k) && canon(x.at(k)) == canon(in.fresh), what);
      continue;
    }
    CHECK("meta", x.count(k) == (v.dims().contains(dx) ? 0 : 1), what << ' ' << k);
    if (x.count(k))
      CHECK("meta", canon(x.at(k)) == canon(v), what << ' ' << k);
  }
  if (!masks.empty())
    obs("masked");
  obs("arrays");
  nontrivial(what);
}

SUITE(refusals) {
  auto in = rand_input(rng, 7);
  if (in.dims.volume() == 0 || in.old_rest.volume() == 0)
    return;
  std::string why;
  switch (rng.in(0, 3)) {
  case 0:
    if (in.s.told == dtype<time_point>)
      return;
    in.fresh = copy(in.fresh);
    in.fresh.setUnit(units::kg);
    why = "unit";
    break;
  case 1: { // unsorted
    auto &e = rng.chance(1, 2) ? in.old : in.fresh;
    const auto n = e.dims()[dx];
    if (n < 3 || e.dims().ndim() > 1)
      return;
    auto x = numbers(e, dx);
    if (x[0] == x[1] || x[1] == x[2])
      return;
    std::swap(x[0], x[1]);
    e = number_line(rng, e.dtype(), dx, x, e.unit());
    why = "unsorted";
    break;
  }
  case 2:
    if (in.old.dims().ndim() > 1)
      return;
    in.old = in.old.slice({dx, 0, in.dims[dx]});
    why = "no edges";
    break;
  default: {
    if (in.fresh.dims().ndim() > 1 || in.old.dims().ndim() > 1)
      return;
    auto x = numbers(in.fresh, dx);
    if (x.front() == x.back() || num(in.old, {{dx, 0}}) == num(in.old, {{dx, in.dims[dx]}}))
      return;
    std::reverse(x.begin(), x.end());
    in.fresh = number_line(rng, in.fresh.dtype(), dx, x, in.fresh.unit());
    why = "opposite order";
  }
  }
  const auto e = error_of([&] { variable::rebin(in.data, dx, in.old, in.fresh); });
  CHECK("refusal", e.has_value(), why << ": " << show(in) << " was accepted");
  obs("refused");
  nontrivial(why + show(in));
}
