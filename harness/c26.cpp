// C26: parallel execution is race-free and does not change results.
// The same operation on the same operands is run with the whole range as one
// task, with random and finest partitions in random order, and on several real
// threads with injected delays (ThreadSanitizer watches); every result is
// compared with the one of the single task.  Operations that count how often
// they see each element check that each is computed exactly once.
#include "events.h"
#include "fold.h"
#include "gen_ds.h"
#include "ops.h"
#include "scipp/dataset/bin.h"
#include "scipp/dataset/bins.h"
#include "scipp/dataset/groupby.h"
#include "scipp/dataset/histogram.h"
#include "scipp/dataset/rebin.h"
#include "scipp/dataset/sort.h"
#include "scipp/variable/accumulate.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/cumulative.h"
#include "scipp/variable/rebin.h"
#include "scipp/variable/transform.h"
#include "vtbb.h"
#include <atomic>
#include <cstring>

using namespace vf;

namespace {
using Result = std::vector<std::pair<std::string, Variable>>;
struct Outcome {
  std::optional<std::string> error;
  Result parts;
};
void add(Result &p, const std::string &name, const Variable &v) { p.emplace_back(name, v); }
void add(Result &p, const std::string &name, const DataArray &a) {
  add(p, name + "data", a.data());
  const auto some = [&](const auto &dict, const char *what) {
    for (auto it = dict.begin(); it != dict.end(); ++it)
      add(p, name + what + STR((*it).first), Variable((*it).second));
  };
  some(a.coords(), "coord ");
  some(a.masks(), "mask ");
  some(a.attrs(), "attr ");
}
void add(Result &p, const std::string &name, const Dataset &d) {
  for (const auto &c : d.coords())
    add(p, name + "coord " + c.first.name(), Variable(c.second));
  for (const auto &k : names(d))
    add(p, name + k + "/", d[k]);
}

template <class T> bool same_value(const T &a, const T &b, const Real tol) {
  if constexpr (std::is_same_v<T, double> || std::is_same_v<T, float>) {
    if (std::isnan(a) || std::isnan(b))
      return std::isnan(a) && std::isnan(b);
    if (tol > 0)
      return a == b || std::abs(Real(a) - Real(b)) <= tol * (std::is_same_v<T, float> ? 1e9L : 1.0L) * std::max(std::abs(Real(a)), std::abs(Real(b)));
    return std::memcmp(&a, &b, sizeof(T)) == 0;
  } else if constexpr (std::is_arithmetic_v<T> || std::is_same_v<T, std::string> || std::is_same_v<T, time_point> || std::is_same_v<T, scipp::index_pair>) {
    (void)tol;
    return a == b;
  } else {
    return cell_text(a) == cell_text(b);
  }
}
std::vector<std::pair<int64_t, int64_t>> ranges_of(const Variable &indices);
// "" or what differs; walks both in logical order
std::string difference(const Variable &a, const Variable &b, const Real tol) {
  if (!a.is_valid() || !b.is_valid())
    return a.is_valid() == b.is_valid() ? "" : "valid only once";
  if (a.dims() != b.dims() || a.dtype() != b.dtype() || a.unit() != b.unit() || a.has_variances() != b.has_variances())
    return "header " + describe(a) + " vs " + describe(b);
  if (is_binned(a)) {
    const auto run = [&](auto tag) -> std::string {
      using T = typename decltype(tag)::type;
      const auto &[ia, da, ba] = a.constituents<T>();
      const auto &[ib, db, bb] = b.constituents<T>();
      if (da != db)
        return "bin dimension";
      const auto ra = ranges_of(Variable(ia)), rb = ranges_of(Variable(ib));
      int64_t total = 0;
      for (int64_t i = 0; i < int64_t(ra.size()); ++i) {
        const auto n = ra[size_t(i)].second - ra[size_t(i)].first;
        if (n != rb[size_t(i)].second - rb[size_t(i)].first)
          return STR("bin " << i << " has " << n << " vs " << rb[size_t(i)].second - rb[size_t(i)].first << " events");
        total += n;
      }
      (void)total;
      for (int64_t i = 0; i < int64_t(ra.size()); ++i) {
        Result pa, pb;
        add(pa, "", ba.slice({da, ra[size_t(i)].first, ra[size_t(i)].second}));
        add(pb, "", bb.slice({db, rb[size_t(i)].first, rb[size_t(i)].second}));
        if (pa.size() != pb.size())
          return "columns of events";
        for (size_t k = 0; k < pa.size(); ++k) {
          if (pa[k].first != pb[k].first)
            return "columns of events";
          const auto d = difference(pa[k].second, pb[k].second, tol);
          if (!d.empty())
            return STR("events of bin " << i << ' ' << pa[k].first << ": " << d);
        }
      }
      return "";
    };
    if (a.dtype() == dtype<core::bucket<Variable>>)
      return run(Tag<Variable>{});
    if (a.dtype() == dtype<core::bucket<DataArray>>)
      return run(Tag<DataArray>{});
    return run(Tag<Dataset>{});
  }
  const auto cells = [&](auto tag) -> std::string {
    using T = typename decltype(tag)::type;
    const auto va = a.values<T>(), vb = b.values<T>();
    auto ib = vb.begin();
    int64_t i = 0;
    for (auto ia = va.begin(); ia != va.end(); ++ia, ++ib, ++i)
      if (!same_value<T>(*ia, *ib, tol))
        return STR("element " << i << ": " << cell_text(*ia) << " vs " << cell_text(*ib));
    if constexpr (core::canHaveVariances<T>())
      if (a.has_variances()) {
        const auto wa = a.variances<T>(), wb = b.variances<T>();
        auto jb = wb.begin();
        i = 0;
        for (auto ja = wa.begin(); ja != wa.end(); ++ja, ++jb, ++i)
          if (!same_value<T>(*ja, *jb, tol))
            return STR("variance " << i << ": " << cell_text(*ja) << " vs " << cell_text(*jb));
      }
    return "";
  };
  if (a.dtype() == dtype<scipp::index_pair>)
    return cells(Tag<scipp::index_pair>{});
  return for_dtype(a.dtype(), cells);
}
void set_mode(const vtbb::Mode m, const int nthreads = 4) {
  vtbb::control().mode = m;
  vtbb::control().nthreads = nthreads;
}
using Job = std::function<void(Result &)>;
Outcome attempt(const Job &job) {
  Outcome o;
  o.error = error_of([&] { job(o.parts); });
  if (o.error && o.error->rfind("exception", 0) == 0)
    o.error = "exception"; // the element that is reported first may differ
  return o;
}
// run the job once per schedule and compare with the single task
void schedules(Rng &rng, const std::string &what, const Job &job, const Real tol = 0, const std::function<std::string()> &after = {}) {
  auto &ctl = vtbb::control();
  set_mode(vtbb::Mode::serial);
  const auto expected = attempt(job);
  const auto multi_before = ctl.multi.load();
  const int rounds = int(rng.in(2, 4));
  for (int k = 0; k < rounds; ++k) {
    ctl.state = rng.next();
    ctl.fingerprint = 0;
    const auto m = k == 0 ? vtbb::Mode::threads : rng.pick({vtbb::Mode::threads, vtbb::Mode::threads, vtbb::Mode::shuffle, vtbb::Mode::finest});
    set_mode(m, int(rng.in(2, 8)));
    const auto got = attempt(job);
    set_mode(vtbb::Mode::serial);
    const auto how = STR((m == vtbb::Mode::threads ? "threads" : m == vtbb::Mode::shuffle ? "shuffled" : "finest") << " (" << what << ')');
    CHECK("error", got.error == expected.error, how << ": " << got.error.value_or("completed") << " instead of " << expected.error.value_or("completed"));
    if (!expected.error) {
      CHECK("parts", got.parts.size() == expected.parts.size(), how);
      for (size_t i = 0; i < got.parts.size(); ++i) {
        CHECK("parts", got.parts[i].first == expected.parts[i].first, how << ": " << got.parts[i].first);
        const auto d = difference(expected.parts[i].second, got.parts[i].second, tol);
        CHECK("result", d.empty(), how << ": " << got.parts[i].first << ' ' << d);
        obs("parts compared");
      }
    }
    if (after) {
      const auto s = after();
      CHECK("exactly-once", s.empty(), how << ": " << s);
    }
    obs(m == vtbb::Mode::threads ? "runs on threads" : m == vtbb::Mode::shuffle ? "runs in shuffled order" : "runs in finest pieces");
    nontrivial(STR(what << ' ' << ctl.fingerprint));
  }
  obs(expected.error ? "refused" : "completed");
  if (ctl.multi.load() > multi_before)
    obs("split");
}

template <class T> T quick_elem(Rng &rng, const bool real) {
  if constexpr (std::is_same_v<T, bool>)
    return rng.chance(1, 2);
  else if constexpr (std::is_floating_point_v<T>)
    return real ? T(rng.unit() + 0.25) : T(rng.in(0, 9));
  else if constexpr (std::is_same_v<T, time_point>)
    return time_point(rng.in(-1000, 1000));
  else if constexpr (std::is_same_v<T, std::string>)
    return "s" + std::to_string(rng.in(0, 99));
  else if constexpr (std::is_integral_v<T>)
    return T(rng.in(0, 9));
  else
    return rand_elem<T>(rng, {});
}
// large variable, contiguous, sliced, strided or transposed
template <class T> Variable big_typed(Rng &rng, const Dimensions &dims, const units::Unit &unit, const bool variances, const bool real) {
  auto v = rng.chance(1, 2) || variances ? Variable{} : blank<T>(rng, dims, unit, false);
  if (!v.is_valid()) {
    if constexpr (core::canHaveVariances<T>())
      v = variances ? makeVariable<T>(dims, unit, Values{}, Variances{}) : makeVariable<T>(dims, unit);
    else
      v = makeVariable<T>(dims, unit);
  }
  auto vals = v.template values<T>();
  for (auto it = vals.begin(); it != vals.end(); ++it)
    *it = quick_elem<T>(rng, real);
  if constexpr (core::canHaveVariances<T>())
    if (variances) {
      auto vars = v.template variances<T>();
      for (auto it = vars.begin(); it != vars.end(); ++it)
        *it = quick_elem<T>(rng, real);
    }
  return v;
}
Variable big(Rng &rng, const DType t, const Dimensions &dims, const units::Unit &unit, const bool variances = false, const bool real = false) {
  return for_dtype(t, [&](auto tag) { return big_typed<typename decltype(tag)::type>(rng, dims, unit, variances, real); });
}
Dimensions big_dims(Rng &rng, const int64_t volume) {
  const int n = int(rng.in(1, 3));
  Dimensions d;
  int64_t left = volume;
  for (int i = 0; i < n; ++i) {
    const int64_t len = i == n - 1 ? left : rng.pick<int64_t>({1, 2, 3, 5, 7, 24, 25, 49, std::max<int64_t>(1, left / 3)});
    d.addInner(vdim(i), std::max<int64_t>(1, std::min(len, left)));
    left = std::max<int64_t>(1, left / std::max<int64_t>(1, len));
  }
  return shuffled(rng, d);
}
// bins over dims; sizes vary, order of events permuted, gaps
Variable big_bins(Rng &rng, const Dimensions &dims, const DType t, const bool arrays, const int max_size, const bool variances, const bool real, const std::vector<int64_t> *sizes = nullptr) {
  auto indices = makeVariable<scipp::index_pair>(dims, units::none);
  auto *idx = indices.values<scipp::index_pair>().data();
  const auto n = dims.volume();
  std::vector<int64_t> order;
  for (int64_t i = 0; i < n; ++i)
    order.push_back(i);
  if (rng.chance(1, 2))
    rng.shuffle(order);
  int64_t pos = rng.in(0, 3);
  const bool gaps = rng.chance(1, 2);
  for (const auto i : order) {
    const auto k = sizes ? (*sizes)[size_t(i)] : rng.chance(1, 5) ? 0 : rng.in(0, max_size);
    idx[i] = {pos, pos + k};
    pos += k + (gaps ? rng.in(0, 2) : 0);
  }
  const Dim ev("event");
  const Dimensions bd(ev, pos + rng.in(0, 2));
  const auto data = big(rng, t, bd, units::counts, variances, real);
  if (!arrays)
    return variable::make_bins_no_validate(indices, ev, data);
  DataArray table(data);
  table.coords().set(Dim("ex"), big(rng, dtype<double>, bd, units::m, false, true));
  table.coords().set(Dim("eg"), big(rng, dtype<int64_t>, bd, units::none));
  if (rng.chance(1, 4))
    table.masks().set("em", big(rng, dtype<bool>, bd, units::none));
  return dataset::make_bins_no_validate(indices, ev, table);
}
std::vector<std::pair<int64_t, int64_t>> ranges_of(const Variable &indices) {
  const auto v = indices.values<scipp::index_pair>();
  std::vector<std::pair<int64_t, int64_t>> out;
  for (auto it = v.begin(); it != v.end(); ++it)
    out.emplace_back((*it).first, (*it).second);
  return out;
}
} // namespace

SUITE(elements) {
  const auto &ops = rng.chance(1, 4) ? unary_ops() : rng.chance(1, 4) ? ternary_ops() : binary_ops();
  const auto &op = rng.pick(ops);
  const auto spec = rand_operands(rng, op);
  const auto dims = big_dims(rng, rng.in(30, 1500));
  std::vector<Variable> args;
  for (size_t i = 0; i < spec.size(); ++i) {
    auto d = i == 0 || rng.chance(2, 3) ? dims : sub_dims(rng, dims);
    if (i == 0 && !op.in_place && rng.chance(1, 5))
      d = sub_dims(rng, dims);
    args.push_back(rand_var(rng, spec[i].type, d, spec[i].spec));
  }
  std::string what = op.name;
  for (const auto &a : args)
    what += ' ' + describe(a);
  schedules(rng, what, [&](Result &p) {
    Args mine;
    for (const auto &a : args)
      mine.push_back(a);
    if (op.in_place)
      mine[0] = copy(mine[0]);
    const auto out = op.run(mine);
    add(p, "result", out);
  });
  if (op.in_place && rng.chance(1, 4)) { // both operands the same object
    schedules(rng, "self " + what, [&](Result &p) {
      Args mine{copy(args[0])};
      mine.push_back(mine[0]);
      op.run(mine);
      add(p, "result", mine[0]);
    });
  }
}

SUITE(copies) {
  const auto t = rand_dtype(rng);
  const auto dims = big_dims(rng, rng.in(30, 3000));
  const auto v = rng.chance(1, 2) ? big(rng, t, dims, units::m, (t == dtype<double> || t == dtype<float>) && rng.chance(1, 3)) : rand_var(rng, t, dims, {});
  schedules(rng, "copy " + describe(v), [&](Result &p) {
    add(p, "copy", copy(v));
    Variable w(v);
    add(p, "assigned", copy(w));
    if (v.dims().ndim() > 1) {
      std::vector<Dim> order(dims.labels().begin(), dims.labels().end());
      std::reverse(order.begin(), order.end());
      add(p, "transposed", copy(v.transpose(order)));
    }
    const auto d = dims.inner();
    if (dims[d] > 4) {
      add(p, "slice", copy(v.slice({d, 1, dims[d] - 1})));
      auto target = copy(v);
      copy(v.slice({d, 0, dims[d] / 2}), target.slice({d, dims[d] - dims[d] / 2, dims[d]}));
      add(p, "assigned slice", target);
    }
    add(p, "cumulated", t == dtype<double> || t == dtype<int64_t> ? cumsum(v, d) : v);
    add(p, "joined", concat(std::vector<Variable>{v, v}, d));
    add(p, "new", makeVariable<double>(dims, units::m));
  });
}

namespace {
template <class T> size_t place(const T &v) {
  if constexpr (std::is_arithmetic_v<T>)
    return size_t(v);
  else
    return size_t(v.value);
}
} // namespace

// operations written like those of the library, which count their calls
SUITE(once) {
  const auto n = rng.in(30, 4000);
  const auto dims = big_dims(rng, n);
  const auto volume = dims.volume();
  auto x = rng.chance(1, 2) ? makeVariable<double>(dims, units::one) : blank<double>(rng, dims, units::one, false);
  {
    auto v = x.values<double>();
    double k = 0;
    for (auto it = v.begin(); it != v.end(); ++it)
      *it = k++;
  }
  std::vector<std::atomic<int>> count(static_cast<size_t>(volume));
  const auto reset = [&] {
    for (auto &c : count)
      c.store(0, std::memory_order_relaxed);
  };
  const auto check = [&]() -> std::string {
    for (int64_t i = 0; i < volume; ++i)
      if (count[size_t(i)] != 1)
        return STR("element " << i << " of " << volume << " was computed " << count[size_t(i)].load() << " times");
    obs("elements counted", uint64_t(volume));
    return "";
  };
  const auto see = [&](const auto &v) { count[place(v)].fetch_add(1, std::memory_order_relaxed); };
  const auto unit = [](const units::Unit &u) { return u; };
  const auto unit2 = [](const units::Unit &u, const units::Unit &) { return u; };
  const auto unit0 = [](units::Unit &) {};
  const auto unit02 = [](units::Unit &, const units::Unit &) {};
  const auto kind = rng.in(0, 4);
  const auto y = rand_var(rng, dtype<double>, sub_dims(rng, dims), {.small = 9, .unit = units::one});
  const auto what = STR(kind << " counted " << describe(x) << ' ' << describe(y));
  switch (kind) {
  case 0:
    schedules(rng, what, [&](Result &p) {
      reset();
      add(p, "r", variable::transform<double>(x, scipp::overloaded{unit, [&](const auto &v) { see(v); return v + 1; }}, "verif"));
    }, 0, check);
    break;
  case 1:
    schedules(rng, what, [&](Result &p) {
      reset();
      add(p, "r", variable::transform<std::tuple<double>>(x, y, scipp::overloaded{unit2, [&](const auto &v, const auto &w) { see(v); return v + 2 * w; }}, "verif"));
    }, 0, check);
    break;
  case 2:
    schedules(rng, what, [&](Result &p) {
      reset();
      auto z = copy(x);
      variable::transform_in_place<double>(z, scipp::overloaded{unit0, [&](auto &v) { see(v); v = -v; }}, "verif");
      add(p, "r", z);
    }, 0, check);
    break;
  case 3:
    schedules(rng, what, [&](Result &p) {
      reset();
      auto z = copy(x);
      variable::transform_in_place<std::tuple<double>>(z, y, scipp::overloaded{unit02, [&](auto &v, const auto &w) { see(v); v = w - v; }}, "verif");
      add(p, "r", z);
    }, 0, check);
    break;
  default: {
    // every event of every bin
    const auto bins = dims.volume() > 600 ? Dimensions(vdim(0), 600) : dims;
    auto b = big_bins(rng, bins, dtype<double>, false, 5, false, false);
    auto [indices, dim, buffer] = b.constituents<Variable>();
    auto buf = copy(buffer);
    buf.setUnit(units::one);
    for (int64_t i = 0; i < buf.dims().volume(); ++i)
      buf.values<double>().data()[i] = double(i);
    const auto z = variable::make_bins_no_validate(indices, dim, buf);
    std::vector<std::atomic<int>> seen(static_cast<size_t>(buf.dims().volume()));
    schedules(rng, STR("counted events " << describe(z)), [&](Result &p) {
      for (auto &c : seen)
        c.store(0, std::memory_order_relaxed);
      add(p, "r", variable::transform<double>(z, scipp::overloaded{unit, [&](const auto &v) { seen[place(v)].fetch_add(1, std::memory_order_relaxed); return v * 3; }}, "verif"));
    }, 0, [&]() -> std::string {
      std::vector<int> want(seen.size(), 0);
      for (const auto &[from, to] : ranges_of(Variable(indices)))
        for (auto i = from; i < to; ++i)
          ++want[size_t(i)];
      for (size_t i = 0; i < want.size(); ++i)
        if (seen[i] != want[i])
          return STR("event " << i << " was computed " << seen[i].load() << " times");
      obs("elements counted", want.size());
      return "";
    });
  }
  }
}

SUITE(reductions) {
  const auto large = rng.chance(1, 3);
  const auto [r, name] = rng.pick(reductions);
  const bool real = rng.chance(1, 3) && is_sum(r);
  DType t = is_logical(r) ? dtype<bool> : real ? dtype<double> : rng.pick({dtype<double>, dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>});
  Dimensions dims;
  if (large && rng.chance(1, 4)) {
    dims = rng.chance(1, 2) ? Dimensions({vdim(0), vdim(1)}, {2, 65537}) : Dimensions({vdim(1), vdim(0)}, {65540, 2});
  } else {
    dims = big_dims(rng, large ? rng.in(16384, 40000) : rng.in(30, 3000));
  }
  const auto v = big(rng, t, dims, is_mean(r) || t != dtype<bool> ? units::m : units::none, (t == dtype<double> || t == dtype<float>) && rng.chance(1, 4), real);
  const auto d = rng.pick(std::vector<Dim>(dims.labels().begin(), dims.labels().end()));
  const bool all = rng.chance(1, 3);
  const auto tol = real ? 1e-10L : 0.0L;
  schedules(rng, STR(name << (all ? " all " : " over " + d.name() + ' ') << describe(v)), [&, r = r](Result &p) {
    add(p, "r", all ? reduce(r, v) : reduce(r, v, d));
  }, tol);
  if (rng.chance(1, 3)) { // with masks
    DataArray a(v);
    a.masks().set("m", big(rng, dtype<bool>, rng.chance(1, 2) ? dims : Dimensions(d, dims[d]), units::none));
    schedules(rng, STR("masked " << name << ' ' << describe(v)), [&, r = r](Result &p) { add(p, "r", reduce(r, a, d)); }, tol);
  }
  if (rng.chance(1, 4) && (r == R::sum || r == R::max || r == R::min)) {
    // into an output that already holds something
    auto od = dims;
    od.erase(d);
    const auto initial = big(rng, r == R::sum && (t == dtype<int32_t>) ? dtype<int64_t> : t, od, v.unit(), v.has_variances(), false);
    schedules(rng, STR("into " << name << ' ' << describe(v)), [&, r = r](Result &p) {
      auto out = copy(initial);
      if (r == R::sum)
        sum_into(out, v);
      else if (r == R::max)
        max_into(out, v);
      else
        min_into(out, v);
      add(p, "r", out);
    }, tol);
  }
  obs("reductions");
}

SUITE(bins) {
  const auto dims = big_dims(rng, rng.in(25, 250));
  const bool arrays = rng.chance(1, 2), real = rng.chance(1, 3);
  const auto t = real ? dtype<double> : rng.pick({dtype<double>, dtype<float>, dtype<int64_t>});
  const bool variances = t != dtype<int64_t> && rng.chance(1, 3);
  const auto tol = real ? 1e-12L : 0.0L;
  const auto v = big_bins(rng, dims, t, arrays, 6, variances, real);
  const auto what = describe(v);
  switch (rng.in(0, 6)) {
  case 0: {
    const auto r = rng.pick({R::sum, R::nansum, R::mean, R::max, R::min, R::nanmax});
    schedules(rng, STR("bins " << int(r) << ' ' << what), [&](Result &p) { add(p, "r", reduce_bins(r, v)); }, tol);
    break;
  }
  case 1:
    schedules(rng, "copy " + what, [&](Result &p) {
      add(p, "copy", copy(v));
      add(p, "sizes", bin_sizes(v));
      const auto d = dims.inner();
      add(p, "slice", copy(v.slice({d, dims[d] / 3, dims[d]})));
    });
    break;
  case 2: {
    const auto w = big(rng, rng.chance(1, 2) ? t : dtype<double>, rng.chance(1, 2) ? dims : sub_dims(rng, dims), units::counts);
    schedules(rng, "bins*dense " + what, [&](Result &p) {
      add(p, "product", v * w);
      add(p, "quotient", w / v);
      auto z = copy(v);
      z *= w;
      add(p, "in place", z);
    });
    break;
  }
  case 3: {
    // bins that fit, or one that does not
    std::vector<int64_t> sizes;
    for (const auto &[a, b] : ranges_of(Variable(arrays ? std::get<0>(v.constituents<DataArray>()) : std::get<0>(v.constituents<Variable>()))))
      sizes.push_back(b - a);
    if (rng.chance(1, 2))
      ++sizes[size_t(rng.in(0, int64_t(sizes.size()) - 1))];
    const auto w = big_bins(rng, v.dims(), t, arrays, 6, false, real, &sizes);
    schedules(rng, "bins+bins " + what, [&](Result &p) {
      add(p, "sum", v + w);
      auto z = copy(v);
      z += w;
      add(p, "in place", z);
    });
    break;
  }
  case 4:
    schedules(rng, "concat " + what, [&](Result &p) {
      add(p, "joined", concat(std::vector<Variable>{v, v}, dims.inner()));
      add(p, "concatenated", dataset::buckets::concatenate(v, v));
      add(p, "over", dataset::buckets::concatenate(v, dims.inner()));
    });
    break;
  case 5: {
    const Dim ex("ex");
    const auto n = rng.in(2, 40);
    std::vector<Real> e;
    for (int64_t i = 0; i <= n; ++i)
      e.push_back(Real(i) * 1.5L / Real(n) + (rng.chance(1, 2) ? 0.0L : 0.001L * Real(rng.in(0, 9))));
    const auto edges = number_line(rng, dtype<double>, ex, e, units::m);
    if (!arrays)
      return;
    DataArray a(v);
    schedules(rng, STR("histogram, bin " << what << " into " << n), [&](Result &p) {
      add(p, "histogram", dataset::histogram(a, edges));
      add(p, "bin", dataset::bin(a, {edges}));
    }, tol);
    break;
  }
  default: {
    if (!arrays)
      return;
    const Dim ex("ex");
    std::vector<Real> e;
    const auto n = rng.in(2, 30);
    for (int64_t i = 0; i <= n; ++i)
      e.push_back(Real(i) * 1.4L / Real(n));
    DataArray table(big(rng, dtype<double>, Dimensions(ex, n), units::one));
    table.coords().set(ex, number_line(rng, dtype<double>, ex, e, units::m));
    schedules(rng, STR("lookup " << what), [&](Result &p) {
      const auto x = v.bin_buffer<DataArray>().coords()[ex];
      const auto [i, d, b] = v.constituents<DataArray>();
      add(p, "map", dataset::buckets::map(table, variable::make_bins_no_validate(i, d, x), ex));
      DataArray s(copy(v));
      dataset::buckets::scale(s, table, ex);
      add(p, "scale", s);
    });
  }
  }
}

SUITE(tables) {
  const Dim row("verif-row"), g("verif-g");
  const auto n = rng.chance(1, 6) ? rng.in(4000, 20000) : rng.in(30, 2000);
  const bool real = rng.chance(1, 3);
  const auto t = real ? dtype<double> : rng.pick({dtype<double>, dtype<float>, dtype<int64_t>});
  const auto tol = real ? 1e-12L : 0.0L;
  const int64_t m = rng.chance(1, 3) ? rng.in(2, 4) : 0;
  auto dims = Dimensions(row, n);
  if (m)
    rng.chance(1, 2) ? dims.add(Dim("verif-c"), m) : dims.addInner(Dim("verif-c"), m);
  DataArray a(big(rng, t, dims, units::counts, t != dtype<int64_t> && rng.chance(1, 4), real));
  const auto kt = rng.pick({dtype<int64_t>, dtype<double>, dtype<std::string>, dtype<float>});
  auto key = big(rng, kt, Dimensions(row, n), units::one);
  if (rng.chance(1, 3) && kt == dtype<int64_t>)
    for (int64_t i = 0; i < n; ++i)
      raw_set<int64_t>(key, {{row, i}}, rng.in(0, n));
  a.coords().set(g, key);
  a.coords().set(Dim("x"), big(rng, dtype<double>, Dimensions(row, n), units::m, false, true));
  if (rng.chance(1, 3))
    a.masks().set("m", big(rng, dtype<bool>, Dimensions(row, n), units::none));
  const auto what = STR(describe(a.data()) << " key " << describe(key) << (a.masks().empty() ? "" : " masked"));
  switch (rng.in(0, 5)) {
  case 0:
    schedules(rng, "sort " + what, [&](Result &p) {
      add(p, "up", dataset::sort(a, g));
      add(p, "down", dataset::sort(a, g, SortOrder::Descending));
      add(p, "variable", dataset::sort(a.data(), key));
    });
    break;
  case 1: {
    const auto r = rng.in(0, 6);
    schedules(rng, STR("group " << r << ' ' << what), [&](Result &p) {
      const auto gr = dataset::groupby(a, g);
      add(p, "r", r == 0 ? gr.sum(row) : r == 1 ? gr.mean(row) : r == 2 ? gr.max(row) : r == 3 ? gr.min(row) : r == 4 ? gr.nansum(row) : r == 5 ? gr.nanmax(row) : gr.nanmin(row));
    }, tol);
    break;
  }
  case 2: {
    if (kt == dtype<std::string>)
      return;
    std::vector<Real> e;
    const auto k = rng.in(25, 60);
    for (int64_t i = 0; i <= k; ++i)
      e.push_back(kt == dtype<int64_t> ? Real(i) : Real(i) * 10 / Real(k));
    const auto edges = number_line(rng, kt, Dim("verif-e"), e, units::one);
    schedules(rng, STR("group by bins " << what), [&](Result &p) {
      add(p, "sum", dataset::groupby(a, g, edges).sum(row));
    }, tol);
    break;
  }
  case 3:
  case 4: {
    if (m)
      return;
    std::vector<Real> e;
    const auto k = rng.pick<int64_t>({2, 20, 100, 3000});
    for (int64_t i = 0; i <= k; ++i)
      e.push_back(0.25L + Real(i) / Real(k));
    const auto edges = number_line(rng, dtype<double>, Dim("x"), e, units::m);
    schedules(rng, STR("bin " << k << ' ' << what), [&](Result &p) {
      add(p, "bin", dataset::bin(a, {edges}));
      if (kt == dtype<int64_t>)
        add(p, "group", dataset::bin(a, {edges}, {makeVariable<int64_t>(Dims{g}, Shape{5}, units::one, Values{0, 3, 5, 7, 9})}));
      add(p, "histogram", dataset::histogram(a, edges));
    }, tol);
    break;
  }
  default: {
    DataArray h(big(rng, t == dtype<int64_t> ? dtype<double> : t, dims, units::counts, rng.chance(1, 4), real));
    std::vector<Real> o, e;
    for (int64_t i = 0; i <= n; ++i)
      o.push_back(Real(i));
    const auto k = rng.in(25, 300);
    for (int64_t i = 0; i <= k; ++i)
      e.push_back(-1 + Real(i) * Real(n + 2) / Real(k));
    const auto ct = h.data().dtype();
    h.coords().set(row, number_line(rng, ct, row, o, units::m));
    if (rng.chance(1, 3))
      h.masks().set("m", big(rng, dtype<bool>, Dimensions(row, n), units::none));
    const auto edges = number_line(rng, ct, row, e, units::m);
    schedules(rng, STR("rebin " << describe(h.data()) << " into " << k), [&](Result &p) { add(p, "rebin", dataset::rebin(h, row, edges)); },
              ct == dtype<float> ? 1e-13L : 1e-12L);
  }
  }
}
