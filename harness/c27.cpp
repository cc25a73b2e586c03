// C27: objects shared between threads can be read concurrently.
// Several threads perform random read-only operations on the same objects
// (through shared references, or handles of their own that they drop at any
// time); ThreadSanitizer watches.  What each thread saw is compared afterwards
// with what a single thread sees, and the objects with a second set made from
// the same random numbers that no thread ever touched.
#include "events.h"
#include "fold.h"
#include "gen_ds.h"
#include "ops.h"
#include "scipp/core/string.h"
#include "scipp/dataset/bin.h"
#include "scipp/dataset/bins.h"
#include "scipp/dataset/groupby.h"
#include "scipp/dataset/histogram.h"
#include "scipp/dataset/shape.h"
#include "scipp/dataset/slice.h"
#include "scipp/dataset/sort.h"
#include "scipp/dataset/string.h"
#include "scipp/units/string.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/cumulative.h"
#include "scipp/variable/string.h"
#include "vtbb.h"
#include <atomic>
#include <locale>
#include <memory>
#include <thread>

using namespace vf;

namespace {
struct Shared {
  Variable v, w, b;   // dense, another view of the same buffer, binned
  DataArray a, ab;    // dense, binned
  Dataset d;
  std::string fresh; // text nobody used before
};
Shared make(Rng rng, const uint64_t round) {
  Shared s;
  const auto dims = rand_dims(rng, 3, 4, false);
  const auto t = rand_dtype(rng);
  Spec spec;
  spec.unit = t == dtype<bool> || t == dtype<std::string> ? units::none : t == dtype<time_point> ? units::Unit(units::ns) : units::m;
  spec.variances = (t == dtype<double> || t == dtype<float>) && rng.chance(1, 3);
  s.v = rand_var(rng, t, dims, spec);
  s.w = s.v;
  for (const auto &d : dims.labels())
    if (dims[d] > 1 && rng.chance(1, 2))
      s.w = s.w.slice({d, 1, dims[d]});
  ArraySpec as;
  as.order = 1;
  s.a = rand_array(rng, dims, as, "a");
  if (rng.chance(1, 2)) // data shared by two arrays
    s.a.coords().set(Dim("shared"), rand_var(rng, dtype<double>, dims, {}));
  as.binned = true;
  s.ab = rand_array(rng, dims, as, "ab");
  s.b = s.ab.data();
  as.binned = false;
  s.d = rand_dataset(rng, dims, as);
  s.d.setCoord(Dim("sharedcoord"), s.v);
  s.fresh = "verif27-" + std::to_string(round) + '-' + std::to_string(rng.in(0, 1 << 20));
  return s;
}
using Action = std::pair<std::string, std::function<std::string(const Shared &, Rng)>>;
Dim some_dim(Rng &rng, const Dimensions &d) { return d.empty() ? Dim("none") : d.labels()[size_t(rng.in(0, d.ndim() - 1))]; }
Slice some_slice(Rng &rng, const Dimensions &dims) {
  const auto d = some_dim(rng, dims);
  if (!dims.contains(d))
    return {d, 0};
  const auto n = dims[d];
  if (rng.chance(1, 3))
    return {d, rng.in(0, n - 1)};
  const auto b = rng.in(0, n);
  return {d, b, rng.in(b, n)};
}
template <class F> std::string told(F &&f) {
  std::string out;
  const auto e = error_of([&] { out = f(); });
  return e ? "error " + *e : out;
}
const std::vector<Action> &actions() {
  static const std::vector<Action> all{
      {"read", [](const Shared &s, Rng) { return full(s.v) + full(s.w); }},
      {"read bins", [](const Shared &s, Rng) { return full(s.b); }},
      {"read array", [](const Shared &s, Rng) { return full(s.a) + full(s.ab); }},
      {"read dataset", [](const Shared &s, Rng) { return full(s.d); }},
      {"print", [](const Shared &s, Rng) { return told([&] { return to_string(s.v) + to_string(s.w) + to_string(s.b); }); }},
      {"print array", [](const Shared &s, Rng) { return told([&] { return dataset::to_string(s.a) + dataset::to_string(s.ab); }); }},
      {"print dataset", [](const Shared &s, Rng) { return told([&] { return dataset::to_string(s.d); }); }},
      {"slice", [](const Shared &s, Rng r) { return told([&] { return full(s.v.slice(some_slice(r, s.v.dims()))); }); }},
      {"slice bins", [](const Shared &s, Rng r) { return told([&] { return full(s.b.slice(some_slice(r, s.b.dims()))); }); }},
      {"slice array", [](const Shared &s, Rng r) { return told([&] { return full(s.a.slice(some_slice(r, s.a.dims()))); }); }},
      {"slice binned array", [](const Shared &s, Rng r) { return told([&] { return full(s.ab.slice(some_slice(r, s.ab.dims()))); }); }},
      {"slice dataset", [](const Shared &s, Rng r) { return told([&] { return full(s.d.slice(some_slice(r, s.v.dims()))); }); }},
      {"copy", [](const Shared &s, Rng) { return full(copy(s.v)) + full(copy(s.b)); }},
      {"copy array", [](const Shared &s, Rng) { return full(copy(s.a)) + full(copy(s.ab)); }},
      {"copy dataset", [](const Shared &s, Rng) { return full(copy(s.d)); }},
      {"handle", [](const Shared &s, Rng) {
         auto v = s.v;
         auto a = s.a;
         auto d = s.d;
         auto moved = std::move(a);
         return full(v) + full(moved) + full(d);
       }},
      {"own attributes", [](const Shared &s, Rng) { // changing one's own shallow copy
         auto a = s.a;
         a.setName("mine");
         a.masks().set("mine", makeVariable<bool>(Values{true}, units::none));
         a.coords().set(Dim("mine"), makeVariable<double>(Values{1.0}));
         auto d = s.d;
         for (const auto &n : names(s.d))
           d.erase(n);
         return full(a) + full(d);
       }},
      {"compare", [](const Shared &s, Rng) {
         return STR((s.v == s.v) << equals_nan(s.v, s.v) << (s.v == s.w) << (s.a == s.a) << equals_nan(s.a, s.a) << equals_nan(s.b, s.b) << equals_nan(s.ab, s.ab) << (s.d == s.d) << equals_nan(s.d, s.d));
       }},
      {"arithmetic", [](const Shared &s, Rng) { return told([&] { return full(s.v + s.v); }) + told([&] { return full(s.v * s.w); }); }},
      {"arithmetic arrays", [](const Shared &s, Rng) { return told([&] { return full(s.a + s.a); }) + told([&] { return full(s.a * s.v); }); }},
      {"arithmetic bins", [](const Shared &s, Rng) { return told([&] { return full(s.ab * s.ab); }) + told([&] { return full(s.b + s.b); }); }},
      {"arithmetic datasets", [](const Shared &s, Rng) { return told([&] { return full(s.d * s.d); }) + told([&] { return full(s.d + s.a); }); }},
      {"reduce", [](const Shared &s, Rng r) {
         const auto k = r.pick(reductions).first;
         const auto d = some_dim(r, s.v.dims());
         return told([&] { return full(reduce(k, s.v, d)); }) + told([&] { return full(reduce(k, s.v)); });
       }},
      {"reduce array", [](const Shared &s, Rng r) {
         const auto k = r.pick(reductions).first;
         const auto d = some_dim(r, s.a.dims());
         return told([&] { return full(reduce(k, s.a, d)); });
       }},
      {"reduce bins", [](const Shared &s, Rng r) {
         const auto k = r.pick(reductions).first;
         return told([&] { return full(reduce_bins(k, s.b)); }) + full(bin_sizes(s.b));
       }},
      {"concat", [](const Shared &s, Rng r) {
         const auto d = some_dim(r, s.v.dims());
         return told([&] { return full(concat(std::vector<Variable>{s.v, s.w}, d)); }) + told([&] { return full(dataset::concat(std::vector<DataArray>{s.a, s.a}, d)); });
       }},
      {"concat bins", [](const Shared &s, Rng r) {
         const auto d = some_dim(r, s.b.dims());
         return told([&] { return full(concat(std::vector<Variable>{s.b, s.b}, d)); }) + told([&] { return full(dataset::buckets::concatenate(s.b, s.b)); });
       }},
      {"sort", [](const Shared &s, Rng r) {
         const auto d = some_dim(r, s.a.dims());
         return told([&] { return full(dataset::sort(s.a, d)); });
       }},
      {"group", [](const Shared &s, Rng r) {
         const auto d = some_dim(r, s.a.dims());
         return told([&] { return full(dataset::groupby(s.a, d).sum(d)); });
       }},
      {"bin", [](const Shared &s, Rng) {
         const auto e = makeVariable<double>(Dims{Dim("ex")}, Shape{3}, units::m, Values{-5.0, 0.0, 5.0});
         return told([&] { return full(dataset::bin(s.ab, {e})); }) + told([&] { return full(dataset::histogram(s.ab, e)); });
       }},
      {"select", [](const Shared &s, Rng r) {
         const auto d = some_dim(r, s.a.dims());
         return told([&] {
           const auto [dim, b, e] = dataset::get_slice_params(s.a, d, makeVariable<double>(units::m, Values{0.0}), makeVariable<double>(units::m, Values{3.0}));
           return STR(dim << b << ' ' << e);
         });
       }},
      {"transpose", [](const Shared &s, Rng) { return told([&] { return full(s.v.transpose(s.v.dims().labels())) + full(s.b.transpose(std::vector<Dim>(s.b.dims().labels().rbegin(), s.b.dims().labels().rend()))); }); }},
      {"convert", [](const Shared &s, Rng) { return told([&] { return full(astype(s.a.data(), dtype<float>)); }) + told([&] { return full(to_unit(s.v, units::Unit("mm"))); }); }},
      {"cumulate", [](const Shared &s, Rng r) {
         const auto d = some_dim(r, s.v.dims());
         return told([&] { return full(cumsum(s.v, d)); });
       }},
      {"contents", [](const Shared &s, Rng) {
         std::ostringstream os;
         for (const auto &item : s.d)
           os << item.name() << item.dims() << item.coords().size() << item.masks().size();
         for (const auto &c : s.a.meta())
           os << c.first << c.second.dims();
         os << s.d.contains("a") << s.d.coords().contains(Dim("sharedcoord")) << s.a.dims().volume() << s.v.dtype() << s.v.unit().name();
         return os.str();
       }},
      {"item", [](const Shared &s, Rng) {
         const auto a = s.d["a"];
         return full(a) + full(a.coords()[Dim("sharedcoord")]);
       }},
      {"first names", [](const Shared &s, Rng) {
         const Dim d(s.fresh);
         const auto v = makeVariable<double>(Dims{d}, Shape{2}, units::Unit("m"), Values{1.0, 2.0});
         return full(v) + d.name() + told([&] { return to_string(v); });
       }},
      {"first units", [](const Shared &s, Rng r) {
         const auto t = r.pick({"m", "kg*m^2/s^2", "1/angstrom", "meV", "counts", "us", "deg", "m/s", "10*mm", "Hz"});
         const units::Unit u(t);
         return told([&] { return u.name() + to_string(u * u) + to_string(s.v.unit() / u); });
       }},
      {"strings", [](const Shared &, Rng r) {
         const auto d = r.pick({dtype<double>, dtype<bool>, dtype<Vec3>, dtype<std::string>, dtype<core::bucket<DataArray>>, dtype<Variable>});
         return core::to_string(d) + told([&] { return core::to_iso_date(time_point(r.in(0, 2000000000)), units::s); });
       }}};
  return all;
}
} // namespace

SUITE(readers) {
  static uint64_t round = 0;
  if (round++ == 0) {
    // The regular expressions of libstdc++ fill a table of the global locale
    // without synchronization (a known flaw of that library): fill it first.
    const auto &facet = std::use_facet<std::ctype<char>>(std::locale());
    for (int c = 0; c < 256; ++c) {
      (void)facet.narrow(char(c), '\0');
      (void)facet.widen(char(c));
    }
  }
  vtbb::control().mode = vtbb::Mode::serial;
  const auto seed = rng.next();
  auto shared = std::make_shared<Shared>(make(Rng(seed), round));
  const int nthread = int(rng.in(2, 6)), nact = int(rng.in(4, 12));
  // few kinds per case, so that they meet
  std::vector<size_t> kinds;
  for (int64_t i = rng.in(1, 4); i > 0; --i)
    kinds.push_back(size_t(rng.in(0, int64_t(actions().size()) - 1)));
  struct Event {
    size_t action;
    uint64_t seed;
    std::string saw;
  };
  std::vector<std::vector<Event>> log(static_cast<size_t>(nthread));
  for (auto &l : log)
    for (int k = 0; k < nact; ++k)
      l.push_back({rng.chance(3, 4) ? rng.pick(kinds) : size_t(rng.in(0, int64_t(actions().size()) - 1)), uint64_t(rng.in(0, 7)), ""});
  std::atomic<int> ready{0};
  const bool drop = rng.chance(1, 2);
  std::vector<std::shared_ptr<Shared>> owned;
  for (int t = 0; t < nthread; ++t) // each thread has handles of its own
    owned.push_back(drop ? std::make_shared<Shared>(*shared) : shared);
  if (drop)
    shared.reset();
  const auto work = [&](const int t) {
    ready.fetch_add(1, std::memory_order_relaxed);
    while (ready.load(std::memory_order_relaxed) < nthread)
      std::this_thread::yield();
    for (auto &e : log[size_t(t)]) {
      try {
        e.saw = actions()[e.action].second(*owned[size_t(t)], Rng(e.seed));
      } catch (const std::exception &x) {
        e.saw = std::string("exception ") + x.what();
      }
    }
    owned[size_t(t)].reset(); // the last user destroys
  };
  actions();
  std::vector<std::thread> threads;
  for (int t = 1; t < nthread; ++t)
    threads.emplace_back(work, t);
  work(0);
  for (auto &t : threads)
    t.join();
  // a single thread, with untouched objects
  const auto alone = make(Rng(seed), round);
  if (shared) {
    CHECK("objects-changed", full(shared->v) == full(alone.v) && full(shared->b) == full(alone.b), diff(full(shared->b), full(alone.b)));
    CHECK("objects-changed", full(shared->a) == full(alone.a), diff(full(shared->a), full(alone.a)));
    CHECK("objects-changed", full(shared->ab) == full(alone.ab), diff(full(shared->ab), full(alone.ab)));
    CHECK("objects-changed", full(shared->d) == full(alone.d), diff(full(shared->d), full(alone.d)));
  }
  std::map<std::pair<size_t, uint64_t>, std::string> expected;
  for (size_t t = 0; t < log.size(); ++t)
    for (const auto &e : log[t]) {
      auto &x = expected[{e.action, e.seed}];
      if (x.empty())
        x = actions()[e.action].second(alone, Rng(e.seed));
      CHECK("saw", e.saw == x, actions()[e.action].first << " in thread " << t << ": " << diff(e.saw, x));
      obs("actions");
      obs(e.saw.rfind("error", 0) == 0 ? "refused" : "did: " + actions()[e.action].first);
    }
  obs(drop ? "destroyed by the last thread" : "shared object");
  std::string k = STR(nthread << ':');
  for (const auto &l : log)
    for (const auto &e : l)
      k += STR(' ' << e.action << '/' << e.seed);
  nontrivial(actions()[log[0][0].action].first + ' ' + brief(full(alone.v)) + k);
}
