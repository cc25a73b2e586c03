// C13: slices share data with their source, copies never do, read-only is
// enforced.  Oracle: every view is a list of cell numbers of a root array,
// derived by arithmetic on shapes only; every write is made to the model too.
#include "gen_ds.h"
#include "scipp/variable/arithmetic.h"

using namespace vf;

namespace {
// a number as an element, and back; `k` is the component
template <class T> T encode(const double x) {
  if constexpr (std::is_same_v<T, std::string>)
    return std::to_string(int64_t(x)) + (int64_t(x) % 3 ? "" : " a long string kept on the heap");
  else if constexpr (std::is_same_v<T, time_point>)
    return time_point(int64_t(x));
  else
    return T(x);
}
template <class T> double decode(const T &x) {
  if constexpr (std::is_same_v<T, std::string>)
    return double(std::atoll(x.c_str()));
  else if constexpr (std::is_same_v<T, time_point>)
    return double(x.time_since_epoch());
  else
    return double(x);
}
struct Root {
  std::vector<double> values, variances; // components of one cell are adjacent
  bool has_variances = false;
  std::string unit;
};
struct View {
  Variable v;
  std::shared_ptr<Root> root;
  bool readonly = false;
  int component = -1; // of a vector
  std::vector<std::pair<Dim, int64_t>> dims;
  std::vector<size_t> cells; // row-major
  std::string how;
};
template <class T> constexpr size_t width = std::is_same_v<T, Vec3> ? 3 : 1;
int64_t volume(const View &w) {
  int64_t n = 1;
  for (const auto &[d, l] : w.dims)
    n *= l;
  return n;
}
// cell numbers of a view derived from another: f maps a position in the new to one in the old
template <class F> void derive(View &out, const View &from, F &&f) {
  out.cells.clear();
  const auto n = volume(out);
  for (int64_t i = 0; i < n; ++i) {
    std::vector<int64_t> at(out.dims.size());
    auto rest = i;
    for (size_t k = at.size(); k-- > 0;) {
      at[k] = rest % out.dims[k].second;
      rest /= out.dims[k].second;
    }
    const auto old = f(at);
    int64_t flat = 0;
    for (size_t k = 0; k < old.size(); ++k)
      flat = flat * from.dims[k].second + old[k];
    out.cells.push_back(from.cells.at(size_t(flat)));
  }
}

template <class T> struct World {
  Rng &rng;
  std::vector<View> views;
  double next = 1;
  std::string log;

  // what is stored for cell c of a view
  static double stored(const View &w, const size_t c, const size_t k) { return w.root->values[c * width<T> + k]; }

  void check_all(const std::string &after) {
    for (const auto &w : views) {
      const auto what = STR("after " << after << ", view made by " << w.how);
      CHECK("view-shape", size_t(w.v.dims().ndim()) == w.dims.size(), what << " has dims " << show(w.v.dims()));
      for (size_t k = 0; k < w.dims.size(); ++k)
        CHECK("view-shape", w.v.dims().labels()[k] == w.dims[k].first && w.v.dims().shape()[k] == w.dims[k].second, what << " has dims " << show(w.v.dims()));
      CHECK("view-unit", w.v.unit().name() == w.root->unit, what << " has unit " << w.v.unit().name() << " but its source has " << w.root->unit);
      CHECK("view-readonly", w.v.is_readonly() == w.readonly, what << " read-only flag is " << w.v.is_readonly());
      CHECK("view-variances", w.v.has_variances() == w.root->has_variances, what << " has variances: " << w.v.has_variances());
      size_t i = 0;
      if (w.component >= 0) {
        for (const auto &x : std::as_const(w.v).template values<double>()) {
          const auto want = stored(w, w.cells.at(i), size_t(w.component));
          CHECK("view-content", x == want, what << " at " << i << " holds " << x << " but the source has " << want << " log " << log);
          ++i;
        }
      } else {
        for (const auto &x : std::as_const(w.v).template values<T>()) {
          if constexpr (width<T> == 3) {
            for (size_t k = 0; k < 3; ++k)
              CHECK("view-content", x[int(k)] == stored(w, w.cells.at(i), k), what << " at " << i << " holds " << cell_text(x) << " but the source has " << stored(w, w.cells.at(i), k) << " log " << log);
          } else
            CHECK("view-content", x == encode<T>(stored(w, w.cells.at(i), 0)), what << " at " << i << " holds " << cell_text(x) << " but the source has " << stored(w, w.cells.at(i), 0) << " log " << log);
          ++i;
        }
        if constexpr (core::canHaveVariances<T>())
          if (w.root->has_variances) {
            i = 0;
            for (const auto &x : std::as_const(w.v).template variances<T>()) {
              CHECK("view-content", x == T(w.root->variances[w.cells.at(i)]), what << " variance at " << i << " is " << x);
              ++i;
            }
          }
      }
      CHECK("view-content", i == w.cells.size(), what << " visits " << i << " elements of " << w.cells.size());
      obs("cells-compared", i);
    }
  }
  View fresh(const Dimensions &dims) {
    View w;
    w.root = std::make_shared<Root>();
    w.v = makeVariable<T>(dims, units::m);
    w.root->unit = "m";
    for (const auto &l : dims.labels())
      w.dims.emplace_back(l, dims[l]);
    const auto n = size_t(dims.volume());
    w.root->values.assign(n * width<T>, 0.0);
    w.root->variances.assign(n, 0.0);
    for (size_t i = 0; i < n; ++i)
      w.cells.push_back(i);
    if constexpr (core::canHaveVariances<T>())
      if (rng.chance(1, 2)) {
        w.v = makeVariable<T>(dims, units::m, Values{}, Variances{});
        w.root->has_variances = true;
      }
    w.how = "creation";
    auto values = w.v.template values<T>();
    for (size_t i = 0; i < n; ++i)
      set_model_and(w, i, [&](const T &x) { values[int64_t(i)] = x; });
    return w;
  }
  // chooses a new value for position i of a whole-element view, tells the model
  template <class F> void set_model_and(View &w, const size_t i, F &&write) {
    const auto c = w.cells[i];
    if constexpr (width<T> == 3) {
      Vec3 x;
      for (int k = 0; k < 3; ++k)
        w.root->values[c * 3 + size_t(k)] = x[k] = next++;
      write(x);
    } else {
      w.root->values[c] = next++;
      write(encode<T>(w.root->values[c]));
    }
  }
  bool view_step() {
    const auto &w = views[size_t(rng.in(0, int64_t(views.size()) - 1))];
    View out = w;
    const auto nd = int64_t(w.dims.size());
    const auto pick = nd > 0 ? size_t(rng.in(0, nd - 1)) : 0;
    switch (rng.in(0, 10)) {
    case 0:
    case 1: { // point
      if (nd == 0 || w.dims[pick].second == 0)
        return false;
      const auto i = rng.in(0, w.dims[pick].second - 1);
      out.v = w.v.slice({w.dims[pick].first, i});
      out.dims.erase(out.dims.begin() + int64_t(pick));
      derive(out, w, [&](auto at) {
        at.insert(at.begin() + int64_t(pick), i);
        return at;
      });
      out.how += STR(", " << w.dims[pick].first.name() << '=' << i);
      break;
    }
    case 2:
    case 3: { // range, possibly with stride
      if (nd == 0)
        return false;
      const auto len = w.dims[pick].second;
      const auto b = rng.in(0, len), e = rng.in(b, len);
      const auto step = rng.chance(1, 2) ? 1 : rng.in(1, 3);
      out.v = step == 1 ? w.v.slice({w.dims[pick].first, b, e}) : w.v.slice({w.dims[pick].first, b, e, step});
      out.dims[pick].second = (e - b + step - 1) / step;
      derive(out, w, [&](auto at) {
        at[pick] = b + at[pick] * step;
        return at;
      });
      out.how += STR(", " << w.dims[pick].first.name() << '=' << b << ':' << e << ':' << step);
      break;
    }
    case 4: { // transpose
      std::vector<size_t> order(static_cast<size_t>(nd));
      for (size_t k = 0; k < order.size(); ++k)
        order[k] = k;
      rng.shuffle(order);
      std::vector<Dim> labels;
      out.dims.clear();
      for (const auto k : order) {
        labels.push_back(w.dims[k].first);
        out.dims.push_back(w.dims[k]);
      }
      if (nd == 0)
        return false;
      out.v = w.v.transpose(labels);
      derive(out, w, [&](const auto &at) {
        auto old = at;
        for (size_t k = 0; k < order.size(); ++k)
          old[order[k]] = at[k];
        return old;
      });
      out.how += ", transpose";
      break;
    }
    case 5: { // rename
      if (nd == 0)
        return false;
      static int serial = 0;
      serial = (serial + 1) % 40;
      const Dim to("verif-r" + std::to_string(serial));
      for (const auto &[d, l] : w.dims)
        if (d == to)
          return false;
      out.v = w.v.rename_dims({{w.dims[pick].first, to}});
      out.dims[pick].first = to;
      out.how += ", rename";
      break;
    }
    case 6: { // broadcast
      const Dim extra("verif-bc");
      for (const auto &[d, l] : w.dims)
        if (d == extra)
          return false;
      if (nd >= 5)
        return false;
      const auto n = rng.in(1, 3);
      const auto where = size_t(rng.in(0, nd));
      out.dims.insert(out.dims.begin() + int64_t(where), {extra, n});
      Dimensions target;
      for (const auto &[d, l] : out.dims)
        target.addInner(d, l);
      if (rng.chance(1, 2))
        out.v = w.v.broadcast(target);
      else
        out.v = variable::broadcast(w.v, target);
      derive(out, w, [&](auto at) {
        at.erase(at.begin() + int64_t(where));
        return at;
      });
      // one element may not be reachable under two indices for writing
      if (n > 1 && !out.cells.empty())
        out.readonly = true;
      else
        out.readonly = out.v.is_readonly() || w.readonly;
      out.how += ", broadcast";
      break;
    }
    case 7: { // fold
      if (nd == 0 || nd >= 5)
        return false;
      const auto len = w.dims[pick].second;
      std::vector<int64_t> divisors;
      for (int64_t k = 1; k <= len; ++k)
        if (len % k == 0)
          divisors.push_back(k);
      if (divisors.empty())
        return false;
      const auto a = rng.pick(divisors), b = len / a;
      const Dim da("verif-fa"), db("verif-fb");
      for (const auto &[d, l] : w.dims)
        if (d == da || d == db)
          return false;
      Dimensions target;
      target.addInner(da, a);
      target.addInner(db, b);
      out.v = rng.chance(1, 2) ? w.v.fold(w.dims[pick].first, target) : variable::fold(w.v, w.dims[pick].first, target);
      out.dims[pick] = {da, a};
      out.dims.insert(out.dims.begin() + int64_t(pick) + 1, {db, b});
      derive(out, w, [&](auto at) {
        at[pick] = at[pick] * b + at[pick + 1];
        at.erase(at.begin() + int64_t(pick) + 1);
        return at;
      });
      out.how += ", fold";
      break;
    }
    case 8: // as_const or plain copy of the handle
      if (rng.chance(1, 2)) {
        out.v = w.v.as_const();
        out.readonly = true;
        out.how += ", as_const";
      } else
        out.how += ", shallow copy";
      break;
    case 9: { // squeeze
      std::vector<Dim> ones;
      out.dims.clear();
      for (const auto &d : w.dims)
        if (d.second == 1 && rng.chance(2, 3))
          ones.push_back(d.first);
        else
          out.dims.push_back(d);
      if (ones.empty())
        return false;
      out.v = variable::squeeze(w.v, ones);
      out.how += ", squeeze";
      break;
    }
    default: // deep copy, or a component of a vector
      if (w.component < 0 && width<T> == 3 && rng.chance(1, 2)) {
        out.component = int(rng.in(0, 2));
        out.v = w.v.template elements<Vec3>(std::string(1, char('x' + out.component)));
        out.how += ", element";
      } else if (w.component < 0) {
        out.v = copy(w.v);
        out.readonly = false;
        out.root = std::make_shared<Root>();
        out.root->unit = w.root->unit;
        out.root->has_variances = w.root->has_variances;
        for (size_t i = 0; i < out.cells.size(); ++i) {
          for (size_t k = 0; k < width<T>; ++k)
            out.root->values.push_back(stored(w, w.cells[i], k));
          out.root->variances.push_back(w.root->variances[w.cells[i]]);
          out.cells[i] = i;
        }
        out.how = "copy of (" + w.how + ')';
        CHECK("copy-equal", out.v == w.v || w.v != w.v, "copy differs from its source " << w.how);
        obs("deep-copies");
      } else
        return false;
    }
    if (views.size() >= 8)
      views.erase(views.begin() + rng.in(0, int64_t(views.size()) - 1));
    views.push_back(out);
    obs("views");
    log += " | " + out.how.substr(out.how.size() > 20 ? out.how.size() - 20 : 0);
    return true;
  }
  void refused(View &w, const std::string &what, const std::function<void()> &f) {
    const auto e = error_of(f);
    CHECK("readonly-write", e.has_value(), what << " through a read-only view made by " << w.how << " succeeded");
    CHECK("readonly-error", *e == "VariableError", what << " through a read-only view fails with " << *e);
    obs("refused");
  }
  void write_step() {
    auto &w = views[size_t(rng.in(0, int64_t(views.size()) - 1))];
    const auto n = int64_t(w.cells.size());
    if (w.component >= 0) {
      if (n == 0)
        return;
      const auto i = rng.in(0, n - 1);
      const auto x = next++;
      const auto write = [&] { w.v.template values<double>()[i] = x; };
      if (w.readonly)
        return refused(w, "write to a component", write);
      write();
      w.root->values[w.cells[size_t(i)] * width<T> + size_t(w.component)] = x;
      obs("writes");
      return;
    }
    switch (rng.in(0, 6)) {
    case 0:
    case 1: { // one element
      if (n == 0)
        return;
      const auto i = rng.in(0, n - 1);
      if (w.readonly)
        return refused(w, "element write", [&] { w.v.template values<T>()[i] = T{}; });
      set_model_and(w, size_t(i), [&](const T &x) { w.v.template values<T>()[i] = x; });
      break;
    }
    case 2: { // copy into
      auto src = makeVariable<T>(w.v.dims(), w.v.unit());
      if constexpr (core::canHaveVariances<T>())
        if (w.root->has_variances)
          src = makeVariable<T>(w.v.dims(), w.v.unit(), Values{}, Variances{});
      if (w.readonly)
        return refused(w, "copy into", [&] { copy(src, w.v); });
      auto values = src.template values<T>();
      for (size_t i = 0; i < size_t(n); ++i)
        set_model_and(w, i, [&](const T &x) { values[int64_t(i)] = x; });
      for (size_t i = 0; i < size_t(n) && w.root->has_variances; ++i)
        w.root->variances[w.cells[i]] = 0;
      if (rng.chance(1, 2))
        copy(src, w.v);
      else
        w.v.setSlice({}, src);
      break;
    }
    case 3: // arithmetic in place
      if constexpr (std::is_arithmetic_v<T>) {
        const auto one = makeVariable<T>(Dimensions{}, w.v.unit(), Values{T(1)});
        if (w.readonly)
          return refused(w, "in-place addition", [&] { w.v += one; });
        w.v += one;
        for (const auto c : w.cells)
          w.root->values[c] += 1;
        break;
      }
      return;
    case 4: { // slice assignment from a scalar
      if (w.dims.empty())
        return;
      const auto k = size_t(rng.in(0, int64_t(w.dims.size()) - 1));
      if (w.dims[k].second == 0)
        return;
      const auto at = rng.in(0, w.dims[k].second - 1);
      Variable src = makeVariable<T>(Dimensions{}, w.v.unit());
      if constexpr (core::canHaveVariances<T>())
        if (w.root->has_variances)
          src = makeVariable<T>(Dimensions{}, w.v.unit(), Values{}, Variances{});
      const auto x = next;
      next += double(width<T>);
      if constexpr (width<T> == 3)
        src.template value<T>() = Vec3(x, x + 1, x + 2);
      else
        src.template value<T>() = encode<T>(x);
      const Slice s(w.dims[k].first, at);
      if (w.readonly)
        return refused(w, "slice assignment", [&] { w.v.setSlice(s, src); });
      w.v.setSlice(s, src);
      int64_t inner = 1;
      for (size_t j = k + 1; j < w.dims.size(); ++j)
        inner *= w.dims[j].second;
      for (int64_t i = 0; i < n; ++i)
        if (i / inner % w.dims[k].second == at) {
          for (size_t j = 0; j < width<T>; ++j)
            w.root->values[w.cells[size_t(i)] * width<T> + j] = x + double(j);
          if (w.root->has_variances)
            w.root->variances[w.cells[size_t(i)]] = 0;
        }
      break;
    }
    case 5: { // the unit belongs to the whole
      const bool whole = w.cells.size() * width<T> == w.root->values.size();
      const auto unit = rng.pick({units::m, units::s, units::one});
      if (w.readonly)
        return refused(w, "setting the unit", [&] { w.v.setUnit(unit); });
      const auto e = error_of([&] { w.v.setUnit(unit); });
      if (w.root->values.empty()) { // whether a part of nothing is everything
        if (!e)
          w.root->unit = unit.name();
      } else if (whole || unit.name() == w.root->unit) {
        CHECK("unit-of-whole", !e, "unit refused with " << *e << " by " << w.how);
        w.root->unit = unit.name();
      } else {
        CHECK("unit-of-slice", e == std::optional<std::string>("UnitError"), "unit of a part changed through " << w.how);
        obs("unit-of-part-refused");
      }
      break;
    }
    default: // variances of the whole
      if constexpr (core::canHaveVariances<T>()) {
        const bool whole = w.cells.size() == w.root->values.size();
        const auto src = [&]() -> Variable {
          if (rng.chance(1, 5)) { // one number for all
            Dimensions some;
            const auto &all = w.v.dims();
            for (const auto &d : all.labels())
              if (rng.chance(1, 2))
                some.addInner(d, all[d]);
            auto s = makeVariable<T>(some, w.v.unit());
            for (auto &x : s.template values<T>())
              x = T(++next);
            return s.broadcast(all);
          }
          auto s = rng.chance(1, 2) ? makeVariable<T>(w.v.dims(), w.v.unit()) : blank<T>(rng, w.v.dims(), w.v.unit(), false);
          auto values = s.template values<T>();
          for (int64_t i = 0; i < n; ++i)
            values[i] = T(++next);
          return s;
        }();
        const bool drop = rng.chance(1, 4);
        const auto f = [&] { w.v.setVariances(drop ? Variable{} : src); };
        if (w.readonly)
          return refused(w, "setting variances", f);
        const auto e = error_of(f);
        if (w.root->values.empty()) {
          if (!e)
            w.root->has_variances = !drop;
          break;
        }
        if (!whole) {
          CHECK("variances-of-slice", e == std::optional<std::string>("VariancesError"), "variances of a part changed through " << w.how);
          obs("variances-of-part-refused");
          break;
        }
        CHECK("variances-of-whole", !e, "variances refused with " << *e << " by " << w.how);
        w.root->has_variances = !drop;
        for (int64_t i = 0; i < n && !drop; ++i)
          w.root->variances[w.cells[size_t(i)]] = double(std::as_const(src).template values<T>()[i]);
        obs("variances-set");
      }
      return;
    }
    obs("writes");
  }
};
template <class T> void history(Rng &rng) {
  World<T> world{rng, {}, 1, ""};
  world.views.push_back(world.fresh(rand_dims(rng, 3, 4)));
  if (rng.chance(1, 3))
    world.views.push_back(world.fresh(rand_dims(rng, 3, 4)));
  const auto steps = rng.in(6, 18);
  for (int64_t i = 0; i < steps; ++i) {
    const bool view = rng.chance(1, 2);
    if (view)
      world.view_step();
    else
      world.write_step();
    world.check_all(view ? "making a view" : "a write");
  }
  nontrivial(show(world.views.front().v.dims()) + world.log);
}
} // namespace

SUITE(variables) {
  switch (rng.in(0, 5)) {
  case 0:
    return history<double>(rng);
  case 1:
    return history<float>(rng);
  case 2:
    return history<int64_t>(rng);
  case 3:
    return history<std::string>(rng);
  case 4:
    return history<time_point>(rng);
  default:
    return history<Vec3>(rng);
  }
}

namespace {
// every array part of an object: cells by name
using Parts = std::map<std::string, Content>;
Parts parts(const DataArray &a) {
  Parts p;
  p["data"] = content(a.data());
  for (const auto &[k, x] : a.coords())
    p["coord " + k.name()] = content(x);
  for (const auto &[k, x] : a.masks())
    p["mask " + k] = content(x);
  for (const auto &[k, x] : a.attrs())
    p["attr " + k.name()] = content(x);
  return p;
}
std::vector<std::pair<std::string, Variable>> handles(const DataArray &a) {
  std::vector<std::pair<std::string, Variable>> h{{"data", a.data()}};
  for (const auto &[k, x] : a.coords())
    h.emplace_back("coord " + k.name(), x);
  for (const auto &[k, x] : a.masks())
    h.emplace_back("mask " + k, x);
  for (const auto &[k, x] : a.attrs())
    h.emplace_back("attr " + k.name(), x);
  return h;
}
// changes the element (an event, in a bin) at a position; returns what went wrong
std::optional<std::string> poke(Rng &rng, Variable &v, const IndexMap &at, bool &changed) {
  changed = false;
  return error_of([&] {
    if (is_binned(v)) {
      const auto [b, e] = raw_range(v, at);
      if (e == b) {
        if (v.is_readonly())
          throw except::VariableError("read-only");
        return;
      }
      const auto i = rng.in(b, e - 1);
      const auto change = [&](Variable data, const Dim d) {
        for_dtype(data.dtype(), [&](auto tag) {
          using T = typename decltype(tag)::type;
          if constexpr (std::is_arithmetic_v<T> && !std::is_same_v<T, bool>) {
            auto &x = *(data.template values<T>().data() + flat_offset(data, {{d, i}}));
            const T y = std::isfinite(double(x)) && std::fabs(double(x)) < 1e5 ? T(x + T(1)) : T(17);
            changed = cell_text(x) != cell_text(y);
            x = y;
          }
        });
      };
      if (v.dtype() == dtype<core::bucket<Variable>>)
        change(v.bin_buffer<Variable>(), v.bin_buffer<Variable>().dims().inner());
      else
        change(v.bin_buffer<DataArray>().data(), v.bin_buffer<DataArray>().dims().inner());
      return;
    }
    for_dtype(v.dtype(), [&](auto tag) {
      using T = typename decltype(tag)::type;
      auto &x = *(v.template values<T>().data() + flat_offset(v, at));
      const auto before = cell_text(x);
      for (int k = 0; k < 5 && !changed; ++k) {
        x = rand_elem<T>(rng, {});
        changed = cell_text(x) != before;
      }
    });
  });
}
// the only difference of two states may be these cells (negative: any number of cells may differ)
void same_except(const Parts &now, const Parts &before, const std::string &part, const int64_t cell, const bool changed, const std::string &what) {
  CHECK("parts", now.size() == before.size(), what << " changed the number of parts");
  for (const auto &[k, c] : before) {
    const auto it = now.find(k);
    CHECK("parts", it != now.end(), what << " removed " << k);
    if (k != part) {
      CHECK("write-elsewhere", it->second == c, what << " to " << part << " changed " << k << ": " << it->second.text() << " was " << c.text());
      continue;
    }
    for (size_t i = 0; i < c.cells.size(); ++i)
      if (int64_t(i) != cell)
        CHECK("write-elsewhere", it->second.cells[i] == c.cells[i], what << " to cell " << cell << " of " << part << " changed cell " << i);
      else
        CHECK("write-seen", (it->second.cells[i] != c.cells[i]) == changed, what << " to cell " << cell << " of " << part << " is not seen: " << it->second.cells[i] << " was " << c.cells[i]);
    obs("parts-compared");
  }
}
int64_t flat(const Dimensions &dims, const IndexMap &at) {
  int64_t f = 0;
  for (const auto &d : dims.labels()) {
    int64_t i = -1;
    for (const auto &[l, k] : at)
      if (l == d)
        i = k;
    f = f * dims[d] + i;
  }
  return f;
}
DataArray plain_array(Rng &rng, const bool binned) {
  ArraySpec s;
  s.type = rand_dtype(rng);
  if (rng.chance(1, 2))
    s.type = dtype<double>;
  s.binned = binned;
  return rand_array(rng, rand_dims(rng, 3, 3), s, "name");
}
} // namespace

// arrays: slices, shallow and deep copies
SUITE(arrays) {
  auto a = plain_array(rng, rng.chance(1, 3));
  const auto dims = a.dims();
  const auto original = copy(a);
  const auto original_text = full(original);
  CHECK("copy-equal", full(a) == original_text, "copy of array " << diff(original_text, full(a)));
  // every part of the copy has its own memory, and can be written even if the source cannot
  nontrivial(original_text.substr(0, 300));
  for (int round = 0; round < 6; ++round) {
    const auto before = parts(a);
    std::string what;
    DataArray view = a;
    const auto kind = rng.in(0, 5);
    Slice s{};
    if (kind <= 2 && !dims.empty()) {
      const auto d = dims.labels()[size_t(rng.in(0, dims.ndim() - 1))];
      const auto n = dims[d];
      if (n > 0 && rng.chance(1, 2))
        s = Slice(d, rng.in(0, n - 1));
      else {
        const auto b = rng.in(0, n), e = rng.in(b, n);
        s = Slice(d, b, e);
      }
      view = a.slice(s);
      what = STR("slice " << d.name() << ' ' << s.begin() << ':' << s.end());
      // no part can be replaced, added or removed through a slice
      const auto e1 = error_of([&] { view.setData(copy(view.data())); });
      const auto e2 = error_of([&] { view.coords().set(Dim("verif-new"), 1.0 * units::m); });
      const auto e3 = error_of([&] { view.masks().set("verif-new", makeVariable<bool>(Dimensions{}, units::none, Values{true})); });
      const auto e4 = error_of([&] { view.attrs().set(Dim("verif-new"), 1.0 * units::m); });
      CHECK("slice-structure", e1 && e2 && e3 && e4, "a part can be replaced through a slice");
      if (!view.coords().empty()) {
        const auto key = *view.coords().keys_begin();
        CHECK("slice-structure", error_of([&] { view.coords().erase(key); }) && error_of([&] { view.coords().set_aligned(key, !view.coords()[key].is_aligned()); }),
            "a coordinate can be removed through a slice");
      }
      if (!view.masks().empty()) {
        const auto key = *view.masks().keys_begin();
        CHECK("slice-structure", error_of([&] { view.masks().erase(key); }), "a mask can be removed through a slice");
      }
      same_except(parts(a), before, "", -1, false, "a refused request");
      obs("slices");
    } else if (kind == 3) {
      view = a.as_const();
      what = "as_const";
    } else if (kind == 4) {
      view = a.view();
      what = "view";
    } else
      what = "shallow copy";
    // write one element through the view
    auto all = handles(view);
    auto &[name, var] = all[size_t(rng.in(0, int64_t(all.size()) - 1))];
    const auto places = indices_of(var.dims());
    const auto source = [&] {
      for (auto &[k, x] : handles(a))
        if (k == name)
          return x;
      fail("harness", "no part " + name);
    }();
    const bool broadcast_source = source.is_readonly();
    const bool depends = s == Slice{} || source.dims().contains(s.dim());
    const bool readonly = broadcast_source || !depends || kind == 3;
    CHECK("slice-readonly", var.is_readonly() == readonly || name == "data", what << ": read-only flag of " << name << " is " << var.is_readonly() << " but expected " << readonly);
    if (places.empty())
      continue;
    auto at = rng.pick(places);
    bool changed = false;
    const auto e = poke(rng, var, at, changed);
    // position in the source
    auto pos = at;
    if (!(s == Slice{}) && depends) {
      const bool edge = source.dims()[s.dim()] != dims[s.dim()];
      if (s.end() == -1 && !edge)
        pos.emplace_back(s.dim(), s.begin());
      else
        for (auto &[l, i] : pos)
          if (l == s.dim())
            i += s.begin();
    }
    if (readonly) {
      CHECK("readonly-write", e == std::optional<std::string>("VariableError"), what << ": write to read-only " << name << (e ? " fails with " + *e : std::string(" succeeds")));
      same_except(parts(a), before, "", -1, false, what + " refused");
      obs("refused");
    } else {
      CHECK("writable", !e || source.is_readonly() || (is_binned(var) && *e == "VariableError"), what << ": write to " << name << " fails with " << *e);
      same_except(parts(a), before, name, flat(source.dims(), pos), changed, what);
      if (changed)
        obs("writes-seen");
    }
    CHECK("copy-independent", full(original) == original_text, "write through " << what << " changed a copy made before: " << diff(full(original), original_text));
  }
  // and the copy can be changed without effect on the source
  const auto final_text = full(a);
  auto c = original;
  for (auto &[name, var] : handles(c)) {
    for (const auto &at : some_indices(rng, var.dims(), 2)) {
      bool changed = false;
      const auto e = poke(rng, var, at, changed);
      CHECK("copy-writable", !e, "part " << name << " of a copy cannot be written: " << *e);
      if (changed)
        obs("copy-writes");
    }
  }
  c.coords().set(Dim("verif-new"), 1.0 * units::m);
  c.masks().set("verif-new", makeVariable<bool>(Dimensions{}, units::none, Values{true}));
  CHECK("copy-independent", full(a) == final_text, "writes to a copy changed its source: " << diff(full(a), final_text));
  CHECK("shallow-structure", !original.coords().contains(Dim("verif-new")) && !original.masks().contains("verif-new"), "entries of a shallow copy appear in its source");
  obs("arrays");
}

SUITE(datasets) {
  ArraySpec s;
  s.type = rng.chance(1, 2) ? dtype<double> : rand_numeric(rng);
  s.binned = rng.chance(1, 5);
  const auto dims = rand_dims(rng, 2, 3);
  auto d = rand_dataset(rng, dims, s);
  const auto deep = copy(d);
  const auto deep_text = full(deep);
  CHECK("copy-equal", deep_text == full(d), "copy of dataset " << diff(deep_text, full(d)));
  nontrivial(deep_text.substr(0, 300));
  for (int round = 0; round < 4; ++round) {
    const auto name = rng.pick(names(d));
    std::map<std::string, Parts> before;
    for (const auto &item : d)
      before[item.name()] = parts(item);
    auto item = d[name];
    // the coordinates belong to all items
    CHECK("item-structure", error_of([&] { item.coords().set(Dim("verif-new"), 1.0 * units::m); }).has_value(), "a coordinate can be added to an item");
    for (const auto &[k, x] : item.coords())
      CHECK("item-structure", x.is_readonly(), "coordinate " << k.name() << " of an item is writable");
    auto all = handles(item);
    auto &[part, var] = all[size_t(rng.in(0, int64_t(all.size()) - 1))];
    const auto places = indices_of(var.dims());
    if (places.empty())
      continue;
    const auto at = rng.pick(places);
    bool changed = false;
    const bool readonly = var.is_readonly();
    const auto e = poke(rng, var, at, changed);
    CHECK("readonly-write", !readonly || e == std::optional<std::string>("VariableError"), "write to read-only " << part << " of an item");
    for (const auto &other : d)
      same_except(parts(other), before[other.name()], other.name() == name ? part : "", flat(var.dims(), at), changed, "write to item " + name);
    obs(readonly ? "refused" : "writes-seen");
    // mask dict of an item is the item's
    if (rng.chance(1, 3)) {
      const auto key = "verif-m" + std::to_string(round);
      d[name].masks().set(key, makeVariable<bool>(Dimensions{}, units::none, Values{true}));
      CHECK("item-masks", d[name].masks().contains(key), "mask added to an item is lost");
      for (const auto &other : d)
        CHECK("item-masks", other.name() == name || !other.masks().contains(key), "mask added to an item appears in another");
    }
    // slices of the whole
    if (!dims.empty()) {
      const auto dim = dims.labels()[size_t(rng.in(0, dims.ndim() - 1))];
      const auto n = dims[dim];
      const auto b = rng.in(0, n), end = rng.in(b, n);
      auto sl = d.slice({dim, b, end});
      const auto whole = full(d);
      CHECK("slice-structure", error_of([&] { sl.setData("verif-new", copy(sl[name].data())); }) && error_of([&] { sl.erase(name); }) && error_of([&] { sl.clear(); }) &&
                                   error_of([&] { sl.coords().set(Dim("verif-new"), 1.0 * units::m); }) && error_of([&] { sl[name].masks().set("verif-new", makeVariable<bool>(Dimensions{}, units::none, Values{true})); }),
          "a part can be replaced through a slice of a dataset");
      CHECK("slice-structure", full(d) == whole, "a refused request changed the dataset");
      for (auto &&x : sl)
        for (auto &[k, v] : handles(x)) {
          const auto cells = some_indices(rng, v.dims(), 1);
          if (cells.empty() || k.rfind("coord", 0) == 0)
            continue;
          const auto source = [&] {
            for (auto &[k2, y] : handles(d[x.name()]))
              if (k2 == k)
                return y;
            fail("harness", "no part");
          }();
          const auto was = parts(d[x.name()]);
          bool c2 = false;
          const auto e2 = poke(rng, v, cells[0], c2);
          auto pos = cells[0];
          for (auto &[l, i] : pos)
            if (l == dim)
              i += b;
          const bool ro = source.is_readonly() || !source.dims().contains(dim);
          CHECK("slice-readonly", !ro || e2, k << " of a slice is writable");
          same_except(parts(d[x.name()]), was, k, flat(source.dims(), pos), c2, "slice of dataset");
          obs("slice-writes");
        }
    }
    CHECK("copy-independent", full(deep) == deep_text, "a write changed a copy made before: " << diff(full(deep), deep_text));
  }
  // as_const-like access: shallow copy has its own entries
  auto shallow = d;
  const auto text = full(d);
  shallow.setData("verif-new", copy(d[names(d)[0]].data()));
  shallow.coords().set(Dim("verif-new"), 1.0 * units::m);
  CHECK("shallow-structure", full(d) == text, "entries added to a shallow copy appear in its source");
  obs("datasets");
}

// bins: views share the event table, copies own only their events
SUITE(bins) {
  const auto dims = rand_dims(rng, 2, 4);
  const auto type = rng.pick({dtype<double>, dtype<int64_t>, dtype<float>});
  auto v = rng.chance(1, 2) ? rand_bins(rng, type, dims, {}) : rand_table_bins(rng, dims, ArraySpec{});
  const auto deep = copy(v);
  const auto deep_text = full(deep);
  CHECK("copy-equal", deep_text == full(v), "copy of bins " << diff(deep_text, full(v)));
  for (int round = 0; round < 5; ++round) {
    auto view = v;
    std::vector<std::pair<Slice, Dim>> path;
    IndexMap offset;
    for (int k = 0; k < 2 && view.dims().ndim() > 0; ++k) {
      const auto d = view.dims().labels()[size_t(rng.in(0, view.dims().ndim() - 1))];
      const auto n = view.dims()[d];
      bool seen = false;
      for (const auto &[l, i] : offset)
        seen = seen || l == d;
      if (seen)
        continue;
      if (n > 0 && rng.chance(1, 3)) {
        const auto i = rng.in(0, n - 1);
        view = view.slice({d, i});
        offset.emplace_back(d, i);
      } else {
        const auto b = rng.in(0, n), e = rng.in(b, n);
        view = view.slice({d, b, e});
        offset.emplace_back(d, b);
      }
    }
    if (rng.chance(1, 3) && view.dims().ndim() > 1)
      view = view.transpose(std::vector<Dim>(view.dims().labels().rbegin(), view.dims().labels().rend()));
    const auto places = indices_of(view.dims());
    if (places.empty())
      continue;
    const auto at = rng.pick(places);
    IndexMap pos = offset;
    for (const auto &[l, i] : at) {
      bool found = false;
      for (auto &[m, j] : pos)
        if (m == l) {
          j += i;
          found = true;
        }
      if (!found)
        pos.emplace_back(l, i);
    }
    if (rng.chance(1, 4)) {
      auto c = view.as_const();
      bool changed = false;
      const auto before = full(v);
      const auto e = poke(rng, c, at, changed);
      CHECK("readonly-write", e.has_value() && full(v) == before, "write through read-only bins");
      obs("refused");
      continue;
    }
    const auto before = content(v).cells;
    bool changed = false;
    const auto e = poke(rng, view, at, changed);
    if (e) { // broadcast buffer
      obs("buffer-read-only");
      continue;
    }
    const auto now = content(v).cells;
    for (size_t i = 0; i < before.size(); ++i) {
      const bool target = int64_t(i) == flat(v.dims(), pos);
      CHECK("write-seen", (now[i] != before[i]) == (target && changed), "write to bin " << show(pos) << (target ? " is not seen" : " changed another bin") << ": " << now[i] << " was " << before[i]);
    }
    obs("writes-seen");
    CHECK("copy-independent", full(deep) == deep_text, "a write to bins changed a copy made before");
  }
  const auto now = full(v);
  auto c = deep;
  for (const auto &at : indices_of(c.dims())) {
    bool changed;
    const auto e = poke(rng, c, at, changed);
    CHECK("copy-writable", !e, "a copy of bins cannot be written: " << *e);
  }
  CHECK("copy-independent", full(v) == now, "a write to a copy of bins changed the source");
  nontrivial(deep_text.substr(0, 300));
}
