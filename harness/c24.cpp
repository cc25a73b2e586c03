// C24: collections keep one consistent shape through every history.
// Oracle: a model of names and full texts next to the real objects; requests
// accepted exactly if the part fits (each length equal, or one of them one more,
// or one extra dimension of length two as left by slicing bin edges); after every
// step all parts are compared and the fit of everything checked anew.
#include "parts.h"
#include "scipp/dataset/shape.h"

using namespace vf;

namespace {
template <class F> std::string err(F &&f) { return error_of(f).value_or(""); }
const std::vector<Dim> all_dims{Dim("verif-x"), Dim("verif-y"), Dim("verif-z")};
const std::vector<std::string> all_names{"verif-x", "verif-y", "p", "q", "r"};

bool fits(const Sizes &sizes, const Dimensions &dims) {
  int edges = 0;
  for (const auto &l : dims.labels()) {
    if (sizes.contains(l)) {
      if (dims[l] == sizes[l] + 1)
        ++edges;
      else if (dims[l] != sizes[l])
        return false;
    } else if (dims[l] == 2)
      ++edges;
    else
      return false;
  }
  return edges <= 1;
}
bool same_sizes(const Sizes &a, const Dimensions &b) { return a == Sizes(b); }
std::string flagged(const Variable &v) { return full(v); }
using State = std::map<std::string, std::string>;
template <class D> void add_dict(State &s, const std::string &prefix, const D &d) {
  for (const auto &[k, v] : d) {
    if constexpr (std::is_same_v<std::decay_t<decltype(k)>, Dim>)
      s[prefix + k.name()] = flagged(v);
    else
      s[prefix + k] = flagged(v);
  }
}
State state(const DataArray &a, const std::string &prefix = "", const bool coords = true) {
  State s;
  s[prefix + "data"] = flagged(a.data());
  if (coords)
    add_dict(s, prefix + "coord ", a.coords());
  add_dict(s, prefix + "mask ", a.masks());
  add_dict(s, prefix + "attr ", a.attrs());
  return s;
}
State state(const Dataset &d) {
  State s;
  add_dict(s, "coord ", d.coords());
  for (const auto &item : d)
    s.merge(state(item, "item " + item.name() + ' ', false));
  return s;
}
std::string text(const State &s) {
  std::string t;
  for (const auto &[k, v] : s)
    t += "\n " + k + '=' + v;
  return t;
}
// ---- invariants
template <class D> void check_dict(const std::string &what, const D &dict, const Sizes &sizes, const std::string &kind) {
  for (const auto &[k, v] : dict) {
    CHECK("does not fit", fits(sizes, v.dims()), what << ": " << kind << " of dims " << to_string(v.dims()) << " does not fit " << to_string(sizes));
    CHECK("contains", dict.contains(k) && dict[k].is_same(v) && dict.count(k) == 1 && dict.find(k) != dict.end(), what << ": " << kind << " is listed but not found");
    obs("parts-fitted");
  }
  size_t n = 0;
  for (auto it = dict.keys_begin(); it != dict.keys_end(); ++it)
    ++n;
  CHECK("size", n == size_t(dict.size()), what << ": " << kind << "s: " << dict.size() << " but " << n << " listed");
}
void check_shape(const std::string &what, const DataArray &a) {
  CHECK("sizes", a.coords().sizes() == Sizes(a.dims()) && a.masks().sizes() == Sizes(a.dims()) && a.attrs().sizes() == Sizes(a.dims()),
        what << ": dims " << to_string(a.dims()) << " but coords " << to_string(a.coords().sizes()) << " masks " << to_string(a.masks().sizes()));
  check_dict(what, a.coords(), a.dims(), "coord");
  check_dict(what, a.masks(), a.dims(), "mask");
  check_dict(what, a.attrs(), a.dims(), "attr");
}
void check_shape(const std::string &what, const Dataset &d) {
  check_dict(what, d.coords(), d.sizes(), "coord");
  size_t n = 0;
  for (const auto &item : d) {
    ++n;
    CHECK("item does not fit", same_sizes(d.sizes(), item.dims()), what << ": item of dims " << to_string(item.dims()) << " in dataset of " << to_string(d.sizes()));
    check_shape(what + " item " + item.name(), item);
    CHECK("item name", d.contains(item.name()) && d[item.name()].name() == item.name(), what << ": name " << item.name());
    for (const auto &[k, v] : d.coords()) {
      bool inside = true;
      for (const auto &l : v.dims())
        inside = inside && item.dims().contains(l);
      if (inside) {
        CHECK("item lacks coord", item.coords().contains(k), what << ": item " << item.name() << " does not see coord " << k.name());
        CHECK("item has other coord", flagged(item.coords()[k]) == flagged(v), what << ": item " << item.name() << " sees another coord " << k.name());
        obs("shared-coords-seen");
      }
    }
    for (const auto &[k, v] : item.coords())
      CHECK("item has own coord", d.coords().contains(k), what << ": item " << item.name() << " has coord " << k.name() << " that the dataset lacks");
  }
  CHECK("size", n == size_t(d.size()) && d.empty() == (n == 0), what << ": size " << d.size() << " but " << n << " items");
}

// ---- parts to insert: mostly fitting
Dimensions near_dims(Rng &rng, const Sizes &sizes) {
  Dimensions out;
  std::vector<Dim> labels(sizes.begin(), sizes.end());
  rng.shuffle(labels);
  for (const auto &l : labels)
    if (rng.chance(2, 3))
      out.addInner(l, sizes[l] + (rng.chance(1, 5) ? 1 : rng.chance(1, 16) ? rng.in(0, 3) - std::min<int64_t>(sizes[l], 1) : 0));
  for (const auto &l : all_dims)
    if (!out.contains(l) && rng.chance(1, 12))
      out.addInner(l, rng.pick({2, 2, 1, 3}));
  return out;
}
Dimensions item_dims(Rng &rng, const Sizes &sizes) {
  if (rng.chance(1, 5))
    return near_dims(rng, sizes);
  Dimensions out;
  std::vector<Dim> labels(sizes.begin(), sizes.end());
  rng.shuffle(labels);
  for (const auto &l : labels)
    out.addInner(l, sizes[l]);
  return out;
}
Variable rand_part(Rng &rng, const Dimensions &dims, const bool mask) {
  if (mask)
    return copy(rand_var(rng, dtype<bool>, dims, {false, false, false, units::none}));
  if (rng.chance(1, 20))
    return rand_bins(rng, dtype<double>, dims, {}, 2);
  auto v = rand_var(rng, rng.pick({dtype<double>, dtype<double>, dtype<int64_t>, dtype<std::string>, dtype<bool>}), dims, {});
  if (rng.chance(1, 5))
    v.set_aligned(false);
  return v;
}
Variable rand_data(Rng &rng, const Dimensions &dims) {
  return rng.chance(1, 6) ? rand_bins(rng, dtype<double>, dims, {}, 2) : rand_var(rng, rng.pick({dtype<double>, dtype<int64_t>, dtype<std::string>}), dims, {});
}
template <class K> K key_of(const std::string &n) { return K(n); }
DataArray rand_source(Rng &rng, const Dimensions &dims) {
  DataArray a(rand_data(rng, dims));
  for (int i = 0; i < 4; ++i) {
    const auto name = all_names[size_t(rng.in(0, 4))];
    const auto d = near_dims(rng, dims);
    if (!fits(dims, d))
      continue;
    switch (rng.in(0, 4)) {
    case 0: a.masks().set(name, rand_part(rng, d, true)); break;
    case 1: a.attrs().set(Dim(name), copy(rand_var(rng, dtype<double>, d, {}))); break;
    default: {
      auto v = rand_var(rng, dtype<double>, d, {});
      v.set_aligned(!rng.chance(1, 5));
      a.coords().set(Dim(name), v);
    }
    }
  }
  return a;
}

// one request to a dict; updates the model if it should be accepted
template <class D> void step_dict(Rng &rng, const std::string &history, D &dict, const Sizes &sizes, State &model, const std::string &prefix, const bool mask, const bool readonly, std::string &log) {
  using K = typename D::key_type;
  const auto name = all_names[size_t(rng.in(0, 4))];
  const auto key = key_of<K>(name);
  const auto at = prefix + name;
  const bool present = model.count(at) > 0;
  std::string e, expected;
  switch (rng.in(0, 7)) {
  case 0: {
    log = "erase " + at;
    e = err([&] { dict.erase(key); });
    expected = readonly ? "refuse" : present ? "" : "refuse";
    if (expected.empty())
      model.erase(at);
    break;
  }
  case 1: {
    log = "extract " + at;
    Variable got;
    e = err([&] { got = dict.extract(key); });
    expected = readonly ? "refuse" : present ? "" : "refuse";
    if (expected.empty() && e.empty()) {
      CHECK("extracted", flagged(got) == model[at], history << log << ": " << diff(flagged(got), model[at]));
      model.erase(at);
    }
    break;
  }
  case 2: {
    log = "extract with default " + at;
    const auto fallback = makeVariable<double>(Values{7.0});
    Variable got;
    e = err([&] { got = dict.extract(key, fallback); });
    expected = readonly && present ? "refuse" : "";
    if (expected.empty() && e.empty()) {
      CHECK("extracted", flagged(got) == (present ? model[at] : flagged(fallback)), history << log);
      model.erase(at);
    }
    break;
  }
  case 3:
    if (!mask) {
      const bool flag = rng.chance(1, 2);
      log = "align " + at;
      e = err([&] { dict.set_aligned(key, flag); });
      expected = readonly || !present ? "refuse" : "";
      if (expected.empty() && e.empty()) {
        auto v = dict[key];
        model[at] = flagged(v);
        CHECK("alignment", v.is_aligned() == flag, history << log);
      }
      break;
    }
    [[fallthrough]];
  case 4: {
    log = "get " + at;
    Variable got;
    e = err([&] { got = std::as_const(dict)[key]; });
    expected = present ? "" : "refuse";
    if (e.empty() && present)
      CHECK("got", flagged(got) == model[at], history << log);
    break;
  }
  default: {
    const auto v = rand_part(rng, near_dims(rng, sizes), mask);
    log = "set " + at + " dims " + to_string(v.dims());
    e = err([&] { dict.set(key, v); });
    expected = readonly || is_binned(v) || !fits(sizes, v.dims()) ? "refuse" : "";
    if (expected.empty())
      model[at] = flagged(v);
  }
  }
  CHECK(expected.empty() ? "refused" : "accepted", e.empty() == expected.empty(), history << log << (e.empty() ? " was accepted" : " was refused: " + e));
  obs(e.empty() ? "steps-accepted" : "steps-refused");
}
void check_state(const std::string &what, const State &got, const State &model) {
  CHECK("state", got == model, what << ": " << diff(text(got), text(model)));
  obs("states-compared");
}
} // namespace

SUITE(arrays) {
  const auto dims0 = [&] {
    Dimensions d;
    for (const auto &l : all_dims)
      if (rng.chance(2, 3))
        d.addInner(l, rng.in(0, 3));
    return d;
  }();
  auto a = rand_source(rng, dims0);
  if (rng.chance(1, 8))
    a.setName("name");
  auto model = state(a);
  std::string history = "array " + brief(full(a)) + "\nsteps: ";
  std::vector<std::pair<DataArray, State>> kept;
  const auto n = rng.in(3, 14);
  for (int i = 0; i < n; ++i) {
    std::string log;
    switch (rng.in(0, 11)) {
    case 0: {
      const auto v = rand_data(rng, item_dims(rng, a.dims()));
      log = "setData " + to_string(v.dims());
      const auto e = err([&] { a.setData(v); });
      CHECK("data", e.empty() == same_sizes(a.dims(), v.dims()), history << log << " error " << e);
      if (e.empty())
        model["data"] = flagged(v);
      obs(e.empty() ? "steps-accepted" : "steps-refused");
      break;
    }
    case 1: { // rename
      const auto from = all_dims[size_t(rng.in(0, 2))], to = all_dims[size_t(rng.in(0, 2))];
      log = "rename " + from.name() + " to " + to.name();
      DataArray b;
      const auto e = err([&] { b = a.rename_dims({{from, to}}); });
      if (!a.dims().contains(from) || (a.dims().contains(to) && to != from))
        CHECK("rename accepted", !e.empty(), history << log);
      if (e.empty()) {
        // the oracle of C07 covers values; here the fit of all parts
        check_shape(history + log, b);
        CHECK("rename drops parts", b.coords().size() == a.coords().size() && b.masks().size() == a.masks().size() && b.attrs().size() == a.attrs().size(), history << log);
        check_state(history + log + " (source)", state(a), model);
        a = b;
        model = state(a);
      }
      break;
    }
    case 2: { // read-only slices
      const auto ls = label_list(a.dims());
      if (ls.empty())
        break;
      const auto l = ls[size_t(rng.in(0, int64_t(ls.size()) - 1))];
      const auto size = a.dims()[l];
      const auto from = rng.in(0, size);
      const auto s = size > 0 && rng.chance(1, 2) ? Slice(l, rng.in(0, size - 1)) : Slice(l, from, rng.in(from, size));
      log = "slice " + to_string(s);
      auto b = a.slice(s);
      check_shape(history + log, b);
      auto bm = state(b);
      auto as_const = a.as_const();
      auto cm = state(as_const);
      std::string l2;
      for (int k = 0; k < 4; ++k) {
        const bool c = rng.chance(1, 3);
        auto &t = c ? as_const : b;
        auto &m = c ? cm : bm;
        const auto h = history + (c ? " as_const: " : log + ": ");
        switch (rng.in(0, 3)) {
        case 0: step_dict(rng, h, t.coords(), t.dims(), m, "coord ", false, true, l2); break;
        case 1: step_dict(rng, h, t.masks(), t.dims(), m, "mask ", true, true, l2); break;
        case 2: step_dict(rng, h, t.attrs(), t.dims(), m, "attr ", false, true, l2); break;
        default: {
          const auto v = copy(t.data());
          const auto e = err([&] { t.setData(v); });
          CHECK("read-only data", !e.empty(), h << "setData of read-only array accepted");
        }
        }
        check_state(h + l2, state(t), m);
        obs("read-only-requests");
      }
      if (rng.chance(1, 3)) { // a copy of the handle is not read-only
        a = DataArray(b);
        model = state(a);
        log += " taken";
      }
      break;
    }
    case 3: { // assignment shares nothing but buffers
      log = "keep";
      kept.emplace_back(DataArray(a), model);
      break;
    }
    case 4: { // constructor
      const auto dims = item_dims(rng, a.dims());
      typename Coords::holder_type coords;
      typename Masks::holder_type masks;
      bool ok = true;
      for (int k = 0; k < 2; ++k) {
        const auto v = rand_part(rng, near_dims(rng, dims), false);
        ok = ok && fits(dims, v.dims()) && !is_binned(v);
        coords.insert_or_assign(Dim(all_names[size_t(k)]), v);
        const auto m = rand_part(rng, near_dims(rng, dims), true);
        ok = ok && fits(dims, m.dims());
        masks.insert_or_assign(all_names[size_t(k)], m);
      }
      log = "construct";
      DataArray b;
      const auto data = rand_data(rng, dims);
      const auto e = err([&] { b = DataArray(data, coords, masks); });
      CHECK("constructed", e.empty() == ok, history << log << " gave '" << e << "' for parts that " << (ok ? "fit" : "do not fit"));
      if (e.empty())
        check_shape(history + log, b);
      obs(e.empty() ? "constructed" : "construction-refused");
      break;
    }
    case 5: { // constructor from dicts of another array
      const auto other = rng.chance(1, 2) && a.dims().ndim() > 0 && a.dims()[a.dims().inner()] > 0 ? DataArray(a.slice({a.dims().inner(), 0})) : a;
      const auto data = rand_data(rng, item_dims(rng, rng.chance(1, 2) ? Sizes(a.dims()) : Sizes(other.dims())));
      log = "construct from dicts";
      DataArray b;
      const auto e = err([&] { b = DataArray(data, Coords(other.coords()), Masks(other.masks()), dataset::Attrs(other.attrs())); });
      bool ok = true, wide = false;
      for (const auto &[k, v] : parts_of(other))
        if (k != "data") {
          ok = ok && fits(data.dims(), v.dims());
          wide = wide || !Sizes(data.dims()).includes(Sizes(other.dims()));
        }
      if (e.empty()) {
        check_shape(history + log, b);
        obs("constructed");
      } else
        CHECK("construction refused", !ok || wide || !Sizes(data.dims()).includes(Sizes(other.dims())), history << log << ": " << e);
      break;
    }
    case 6:
    case 7:
    case 8: step_dict(rng, history, a.coords(), a.dims(), model, "coord ", false, false, log); break;
    case 9: step_dict(rng, history, a.masks(), a.dims(), model, "mask ", true, false, log); break;
    case 10: step_dict(rng, history, a.attrs(), a.dims(), model, "attr ", false, false, log); break;
    default: {
      log = "drop";
      std::vector<Dim> some;
      for (const auto &x : all_names)
        if (a.coords().contains(Dim(x)) && rng.chance(1, 2))
          some.emplace_back(x);
      const auto b = a.drop_coords(some);
      check_shape(history + log, b);
      auto m = model;
      for (const auto &x : some)
        m.erase("coord " + x.name());
      check_state(history + log, state(b), m);
    }
    }
    history += log + "; ";
    check_shape(history, a);
    check_state(history, state(a), model);
  }
  for (const auto &[b, m] : kept)
    check_state(history + " (kept copy)", state(b), m);
  nontrivial(history.substr(history.find("steps")));
}

SUITE(datasets) {
  Dimensions dims0;
  for (const auto &l : all_dims)
    if (rng.chance(2, 3))
      dims0.addInner(l, rng.in(0, 3));
  Dataset d({}, Coords(Sizes(dims0), {}));
  State model;
  std::string history = "dataset of " + to_string(dims0) + "\nsteps: ";
  std::vector<std::pair<Dataset, State>> kept;
  const std::vector<std::string> items{"a", "b", "c"};
  const auto erase_item = [](State &m, const std::string &n) {
    const auto p = "item " + n + ' ';
    for (auto it = m.begin(); it != m.end();)
      it = it->first.compare(0, p.size(), p) == 0 ? m.erase(it) : std::next(it);
  };
  const auto n = rng.in(4, 16);
  for (int i = 0; i < n; ++i) {
    std::string log;
    const auto name = items[size_t(rng.in(0, 2))];
    const bool present = d.contains(name);
    switch (rng.in(0, 14)) {
    case 0:
    case 1: {
      const auto v = rand_data(rng, item_dims(rng, d.sizes()));
      const bool keep = rng.chance(1, 2);
      log = "setData " + name + ' ' + to_string(v.dims());
      const auto e = err([&] { d.setData(name, v, keep ? dataset::AttrPolicy::Keep : dataset::AttrPolicy::Drop); });
      CHECK("data", e.empty() == same_sizes(d.sizes(), v.dims()), history << log << " error '" << e << "'");
      if (e.empty()) {
        if (!keep)
          erase_item(model, name);
        model["item " + name + " data"] = flagged(v);
      }
      obs(e.empty() ? "steps-accepted" : "steps-refused");
      break;
    }
    case 2:
    case 3:
    case 4: {
      auto source = rand_source(rng, item_dims(rng, d.sizes()));
      for (const auto &[k, v] : d.coords()) // mostly the same coords
        if (rng.chance(2, 3) && fits(source.dims(), v.dims()))
          source.coords().set(k, rng.chance(1, 2) ? v : copy(v));
      if (rng.chance(1, 6) && source.dims().ndim() > 0 && source.dims()[source.dims().inner()] > 1)
        source = source.slice({source.dims().inner(), 0, source.dims()[source.dims().inner()]}); // read-only dicts
      log = "setData " + name + " from " + brief(full(source));
      bool mismatch = false, flags = false;
      for (const auto &[k, v] : source.coords())
        if (d.coords().contains(k)) {
          const auto old = d.coords()[k];
          if (old.is_aligned() != v.is_aligned())
            flags = true;
          else if (!equals_nan(old, v))
            mismatch = true;
        }
      const auto e = err([&] { d.setData(name, source); });
      CHECK("data", e.empty() == (same_sizes(d.sizes(), source.dims()) && !mismatch), history << log << " error '" << e << "'");
      if (e.empty()) {
        erase_item(model, name);
        model.merge(state(source, "item " + name + ' ', false));
        for (const auto &[k, v] : source.coords())
          if (!model.count("coord " + k.name()))
            model["coord " + k.name()] = flagged(v);
        if (flags)
          add_dict(model, "coord ", d.coords()); // which one is kept is not claimed
        for (const auto &[k, v] : source.coords())
          CHECK("coord lost", d.coords().contains(k), history << log);
        // the new item can be changed
        if (rng.chance(1, 2)) {
          auto item = d[name];
          const auto m = makeVariable<bool>(item.dims(), units::none);
          const auto e2 = err([&] { item.masks().set("new", m); });
          CHECK("masks of item read-only", e2.empty(), history << log << ": masks cannot be set: " << e2);
          model["item " + name + " mask new"] = flagged(m);
        }
      }
      obs(e.empty() ? "steps-accepted" : "steps-refused");
      break;
    }
    case 5: {
      log = "erase " + name;
      const auto e = err([&] { d.erase(name); });
      CHECK("erase", e.empty() == present, history << log << " error '" << e << "'");
      if (present)
        erase_item(model, name);
      obs(e.empty() ? "steps-accepted" : "steps-refused");
      break;
    }
    case 6: {
      log = "extract " + name;
      DataArray got;
      const auto e = err([&] { got = d.extract(name); });
      CHECK("extract", e.empty() == present, history << log << " error '" << e << "'");
      if (present) {
        State m;
        const auto p = "item " + name + ' ';
        for (const auto &[k, v] : model)
          if (k.compare(0, p.size(), p) == 0)
            m[k] = v;
        check_state(history + log, state(got, p, false), m);
        check_shape(history + log, got);
        erase_item(model, name);
      }
      break;
    }
    case 7: {
      log = "clear";
      if (rng.chance(1, 3)) {
        d.clear();
        for (const auto &x : items)
          erase_item(model, x);
      }
      break;
    }
    case 8: { // items: masks and attrs are theirs, coords shared and read-only
      if (!present)
        break;
      auto item = d[name];
      auto m = state(item, "", true);
      std::string l2;
      switch (rng.in(0, 3)) {
      case 0: step_dict(rng, history, item.coords(), item.dims(), m, "coord ", false, true, l2); break;
      case 1:
      case 2: step_dict(rng, history, item.masks(), item.dims(), m, "mask ", true, false, l2); break;
      default: step_dict(rng, history, item.attrs(), item.dims(), m, "attr ", false, false, l2);
      }
      log = "item " + name + ' ' + l2;
      check_state(history + log, state(item), m);
      erase_item(model, name);
      for (const auto &[k, v] : m)
        if (k.compare(0, 6, "coord ") != 0)
          model["item " + name + ' ' + k] = v;
      break;
    }
    case 9: { // rename
      const auto from = all_dims[size_t(rng.in(0, 2))], to = all_dims[size_t(rng.in(0, 2))];
      log = "rename " + from.name() + " to " + to.name();
      Dataset b({}, Coords(Sizes{}, {}));
      const auto e = err([&] { b = d.rename_dims({{from, to}}); });
      if (!d.sizes().contains(from) || (d.sizes().contains(to) && to != from))
        CHECK("rename accepted", !e.empty(), history << log);
      if (e.empty()) {
        check_shape(history + log, b);
        CHECK("rename drops parts", b.coords().size() == d.coords().size() && b.size() == d.size(), history << log);
        check_state(history + log + " (source)", state(d), model);
        d = b;
        model = state(d);
      }
      break;
    }
    case 10: { // slices are read-only
      std::vector<Dim> ls(d.sizes().begin(), d.sizes().end());
      if (ls.empty())
        break;
      const auto l = ls[size_t(rng.in(0, int64_t(ls.size()) - 1))];
      const auto size = d.sizes()[l];
      const auto from = rng.in(0, size);
      const auto s = size > 0 && rng.chance(1, 2) ? Slice(l, rng.in(0, size - 1)) : Slice(l, from, rng.in(from, size));
      log = "slice " + to_string(s);
      auto b = d.slice(s);
      check_shape(history + log, b);
      auto bm = state(b);
      std::string l2;
      for (int k = 0; k < 3; ++k) {
        const auto h = history + log + ": ";
        switch (rng.in(0, 4)) {
        case 0: step_dict(rng, h, b.coords(), b.sizes(), bm, "coord ", false, true, l2); break;
        case 1: {
          const auto e = err([&] { b.setData(name, rand_data(rng, item_dims(rng, b.sizes()))); });
          CHECK("read-only", !e.empty(), h << "setData accepted");
          break;
        }
        case 2: {
          const auto e = err([&] { b.erase(name); });
          CHECK("read-only", !e.empty(), h << "erase accepted");
          break;
        }
        case 3: {
          const auto e = err([&] { b.setCoord(Dim("p"), makeVariable<double>(Values{1.0})); });
          CHECK("read-only", !e.empty(), h << "setCoord accepted");
          break;
        }
        default:
          if (b.contains(name)) {
            auto item = b[name];
            const auto e = err([&] { item.masks().set("new", makeVariable<bool>(units::none, Values{true})); });
            CHECK("read-only", !e.empty(), h << "mask of item of slice accepted");
          }
        }
        check_state(h + l2, state(b), bm);
        obs("read-only-requests");
      }
      if (rng.chance(1, 4)) {
        d = Dataset(b);
        model = state(d);
        log += " taken";
      }
      break;
    }
    case 11:
      log = "keep";
      kept.emplace_back(Dataset(d), model);
      break;
    case 12: { // constructor
      std::map<std::string, DataArray> data;
      typename Coords::holder_type coords;
      const auto dims = item_dims(rng, d.sizes());
      bool ok = true;
      const auto k = rng.in(1, 2);
      for (int j = 0; j < k; ++j) {
        const auto v = rand_data(rng, j == 0 ? dims : item_dims(rng, Sizes(dims)));
        ok = ok && same_sizes(Sizes(dims), v.dims());
        data.emplace(items[size_t(j)], DataArray(v));
      }
      for (int j = 0; j < 2; ++j) {
        const auto v = rand_part(rng, near_dims(rng, dims), false);
        ok = ok && fits(dims, v.dims()) && !is_binned(v);
        coords.insert_or_assign(Dim(all_names[size_t(j)]), v);
      }
      log = "construct";
      Dataset b({}, Coords(Sizes{}, {}));
      const auto e = err([&] { b = Dataset(data, coords); });
      CHECK("constructed", e.empty() == ok, history << log << " gave '" << e << "' for parts that " << (ok ? "fit" : "do not fit"));
      if (e.empty())
        check_shape(history + log, b);
      obs(e.empty() ? "constructed" : "construction-refused");
      break;
    }
    case 13: { // coords alone
      typename Coords::holder_type coords;
      for (int j = 0; j < 3; ++j)
        if (rng.chance(2, 3))
          coords.insert_or_assign(Dim(all_names[size_t(j)]), rand_part(rng, near_dims(rng, d.sizes()), false));
      log = "construct from coords";
      Dataset b({}, Coords(Sizes{}, {}));
      const auto e = err([&] { b = Dataset(std::map<std::string, DataArray>{}, coords); });
      if (e.empty())
        check_shape(history + log, b);
      break;
    }
    default: {
      std::string l2;
      step_dict(rng, history, d.coords(), d.sizes(), model, "coord ", false, false, l2);
      log = l2;
    }
    }
    history += log.substr(0, 300) + "; ";
    check_shape(history, d);
    check_state(history, state(d), model);
  }
  for (const auto &[b, m] : kept)
    check_state(history + " (kept copy)", state(b), m);
  nontrivial(history.substr(history.find("steps")).substr(0, 120));
}

// slice assignment: all or nothing, and only the slice
SUITE(assignments) {
  Dimensions dims;
  for (const auto &l : all_dims)
    if (dims.ndim() == 0 || rng.chance(1, 2))
      dims.addInner(l, rng.in(1, 3));
  Dataset d({}, Coords(Sizes(dims), {}));
  const auto types = std::vector<DType>{dtype<double>, dtype<double>, dtype<int64_t>};
  for (const auto *name : {"a", "b", "c"})
    if (rng.chance(2, 3)) {
      DataArray x(copy(rand_var(rng, types[size_t(rng.in(0, 2))], dims, {false, false, false, rng.chance(1, 8) ? units::m : units::one})));
      if (rng.chance(1, 2))
        x.masks().set("p", copy(rand_var(rng, dtype<bool>, sub_dims(rng, dims), {false, false, false, units::none})));
      d.setData(name, x);
    }
  for (const auto &l : dims.labels())
    if (rng.chance(1, 2))
      d.coords().set(l, rand_coord(rng, l, dims[l] + rng.in(0, 1), {}, units::m));
  const auto l = label_list(dims)[size_t(rng.in(0, dims.ndim() - 1))];
  const auto from = rng.in(0, dims[l] - 1);
  const auto s = rng.chance(1, 2) ? Slice(l, from) : Slice(l, from, rng.in(from + 1, dims[l]));
  auto source = copy(d.slice(s));
  Dataset src({}, source.coords());
  if (rng.chance(1, 8) && !src.coords().empty()) {
    const auto k = *src.coords().keys_begin();
    auto v = copy(src.coords()[k]);
    v.setUnit(units::s);
    v.set_aligned(src.coords()[k].is_aligned());
    src.coords().set(k, v);
  }
  for (const auto &item : source) {
    if (rng.chance(1, 8))
      continue;
    DataArray x(copy(rand_var(rng, rng.chance(1, 10) ? dtype<float> : item.dtype(), item.dims(), {false, false, false, rng.chance(1, 12) ? units::s : item.unit()})));
    if (item.masks().contains("p") && rng.chance(2, 3))
      x.masks().set("p", copy(rand_var(rng, dtype<bool>, item.masks()["p"].dims(), {false, false, false, units::none})));
    else if (rng.chance(1, 12))
      x.masks().set("q", makeVariable<bool>(units::none, Values{true}));
    src.setData(item.name(), x);
  }
  if (rng.chance(1, 12) && source.contains("a"))
    src.setData("extra", copy(source["a"].data()));
  const auto before = state(d), before_src = state(src);
  const auto what = "assigning " + text(before_src) + "\nto slice " + to_string(s) + " of " + text(before);
  const auto e = err([&] { d.setSlice(s, src); });
  CHECK("source changed", state(src) == before_src, what << ": " << diff(text(state(src)), text(before_src)));
  check_shape(what, d);
  if (!e.empty()) {
    check_state(what + " refused with " + e, state(d), before);
    obs("assignments-refused");
    nontrivial("refused " + e);
    return;
  }
  const auto old = [&] {
    std::map<std::string, std::map<std::string, std::string>> m;
    return m;
  }();
  (void)old;
  for (const auto &item : d) {
    const auto part = DataArray(item.slice(s));
    if (src.contains(item.name())) {
      CHECK("assigned", canon(part.data()) == canon(src[item.name()].data()), what << ": item " << item.name() << ": " << diff(canon(part.data()), canon(src[item.name()].data())));
      for (const auto &[k, m] : src[item.name()].masks())
        CHECK("assigned mask", canon(part.masks()[k]) == canon(m), what << ": item " << item.name() << " mask " << k);
    }
  }
  obs("assignments");
  nontrivial("assigned " + to_string(s) + std::to_string(src.size()));
}
