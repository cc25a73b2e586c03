// C07: shapes (Sizes, Dimensions, Slice, Strides) against an ordered list of
// (label, length) pairs.
#include "gen_num.h"
#include "scipp/core/dimensions.h"
#include "scipp/core/except.h"
#include "scipp/core/sizes.h"
#include "scipp/core/slice.h"
#include "scipp/core/strides.h"
#include "scipp/core/string.h"
#include "vf.h"
#include <algorithm>

using namespace vf;
using namespace scipp;
using namespace scipp::core;

namespace {
using Entry = std::pair<Dim, int64_t>;
using Model = std::vector<Entry>;

const std::vector<Dim> &labels() {
  static const std::vector<Dim> l{Dim("x"),     Dim("y"),     Dim("z"),   Dim("tof"), Dim("verif-a"),
                                  Dim("verif-b"), Dim("verif-c"), Dim("row"), Dim("energy")};
  return l;
}
Dim any_label(Rng &rng) { return rng.pick(labels()); }
// mostly a label of the shape
Dim label_of(Rng &rng, const Model &m) {
  return m.empty() || rng.chance(1, 4) ? any_label(rng) : m[size_t(rng.in(0, int64_t(m.size()) - 1))].first;
}
int64_t length(Rng &rng) { return rng.chance(1, 12) ? -rng.in(1, 3) : rng.in(0, 6); }
int64_t find(const Model &m, const Dim d) {
  for (size_t i = 0; i < m.size(); ++i)
    if (m[i].first == d)
      return int64_t(i);
  return -1;
}
bool has(const Model &m, const Dim d) { return find(m, d) >= 0; }
std::string show(const Model &m) {
  std::string s = "{";
  for (const auto &[d, n] : m)
    s += d.name() + ':' + std::to_string(n) + ' ';
  return s + '}';
}
Model random_model(Rng &rng, const int max = 6) {
  Model m;
  const auto n = rng.in(0, max);
  for (int64_t i = 0; i < n; ++i) {
    const Dim d = any_label(rng);
    if (!has(m, d))
      m.emplace_back(d, rng.in(0, 5));
  }
  return m;
}
Dimensions dims_of(const Model &m) {
  std::vector<Dim> l;
  std::vector<scipp::index> s;
  for (const auto &[d, n] : m) {
    l.push_back(d);
    s.push_back(n);
  }
  return Dimensions(l, s);
}
Model shuffled(Rng &rng, Model m) {
  rng.shuffle(m);
  return m;
}
template <class F> bool refused(F &&f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}

// Everything observable of a shape is what the list says.
template <class S> void agree(const S &s, const Model &m, const std::string &what) {
  const auto ctx = what + " should be " + show(m);
  CHECK("size", static_cast<const Sizes &>(s).size() == int64_t(m.size()) && s.empty() == m.empty(), ctx << ", has size " << static_cast<const Sizes &>(s).size());
  int64_t i = 0;
  for (const auto &d : s) {
    CHECK("order", d == m[size_t(i)].first, ctx << " but label " << i << " is " << d.name());
    ++i;
  }
  CHECK("iteration", i == int64_t(m.size()), ctx);
  for (auto it = s.rbegin(); it != s.rend(); ++it) {
    --i;
    CHECK("reverse", *it == m[size_t(i)].first, ctx);
  }
  CHECK("spans", s.labels().size() == m.size() && s.sizes().size() == m.size(), ctx);
  for (size_t k = 0; k < m.size(); ++k) {
    CHECK("labels", s.labels()[k] == m[k].first && s.sizes()[k] == m[k].second, ctx << " entry " << k);
    CHECK("lookup", s[m[k].first] == m[k].second && s.at(m[k].first) == m[k].second, ctx << " at " << m[k].first.name());
    CHECK("index", s.index(m[k].first) == int64_t(k), ctx);
  }
  for (const auto &d : labels()) {
    CHECK("contains", s.contains(d) == has(m, d), ctx << " contains " << d.name());
    CHECK("find", (s.find(d) == s.end()) == !has(m, d), ctx << " find " << d.name());
    if (!has(m, d)) {
      CHECK("unknown-refused", refused([&] { (void)s[d]; }) && refused([&] { (void)s.index(d); }), ctx << " reading " << d.name());
    }
  }
  if constexpr (std::is_same_v<S, Dimensions>) {
    int64_t volume = 1;
    for (size_t k = m.size(); k-- > 0;) {
      CHECK("offset", s.offset(m[k].first) == volume, ctx << " offset of " << m[k].first.name() << " is " << s.offset(m[k].first));
      CHECK("at-index", s.label(int64_t(k)) == m[k].first && s.size(int64_t(k)) == m[k].second, ctx);
      volume *= m[k].second;
    }
    CHECK("volume", s.volume() == volume, ctx << " volume " << s.volume());
    CHECK("inner", s.inner() == (m.empty() ? Dim(Dim::Invalid) : m.back().first), ctx);
    CHECK("ndim", s.ndim() == int64_t(m.size()), ctx);
    // strides of a contiguous array
    const Strides strides(s);
    int64_t expect = 1;
    CHECK("strides-size", strides.size() == int64_t(m.size()), ctx);
    for (size_t k = m.size(); k-- > 0;) {
      CHECK("strides", strides[int64_t(k)] == expect, ctx << " stride " << k << " is " << strides[int64_t(k)]);
      expect *= m[k].second;
    }
  }
  obs("shapes-compared");
}
bool same_set(const Model &a, const Model &b) {
  if (a.size() != b.size())
    return false;
  for (const auto &e : a)
    if (const auto i = find(b, e.first); i < 0 || b[size_t(i)].second != e.second)
      return false;
  return true;
}

struct Sl {
  Dim dim;
  int64_t begin, end, stride;
  bool range, ok;
  std::string text() const {
    return "slice(" + dim.name() + ',' + std::to_string(begin) + (range ? ":" + std::to_string(end) + ":" + std::to_string(stride) : "") + ')';
  }
};
Sl random_slice(Rng &rng, const Model &m) {
  Sl s;
  s.dim = label_of(rng, m);
  const auto i = find(m, s.dim);
  const int64_t n = i < 0 ? 3 : m[size_t(i)].second;
  s.range = rng.chance(2, 3);
  s.stride = 1;
  if (s.range) {
    s.begin = rng.in(-1, n + 1);
    s.end = rng.chance(1, 10) ? rng.in(-3, n + 2) : rng.in(std::max<int64_t>(0, s.begin), n + 1);
    if (rng.chance(1, 2))
      s.stride = rng.in(-1, n + 2);
    if (rng.chance(1, 30))
      s.end = std::numeric_limits<int64_t>::max();
    if (rng.chance(1, 30))
      s.stride = std::numeric_limits<int64_t>::max();
    if (s.end == -1)
      s.end = -2; // -1 would denote a point
    s.ok = i >= 0 && s.begin >= 0 && s.begin <= s.end && s.end <= n && s.stride >= 1;
  } else {
    s.begin = rng.in(-1, n + 1);
    if (rng.chance(1, 30))
      s.begin = rng.pick({std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min()});
    s.end = -1;
    s.ok = i >= 0 && s.begin >= 0 && s.begin < n;
  }
  return s;
}
Slice make_slice(const Sl &s) { return s.range ? Slice(s.dim, s.begin, s.end, s.stride) : Slice(s.dim, s.begin); }
Model slice_model(const Model &m, const Sl &s) {
  Model out = m;
  const auto i = size_t(find(m, s.dim));
  if (!s.range) {
    out.erase(out.begin() + int64_t(i));
    return out;
  }
  int64_t n = 0;
  for (int64_t k = s.begin; k < s.end; k += s.stride) {
    ++n;
    if (k > s.end - s.stride) // no overflow with huge steps
      break;
  }
  out[i].second = n;
  return out;
}

// One history on a Dimensions object, which offers everything Sizes does.
void history(Rng &rng) {
  Model m;
  Dimensions d;
  std::string log;
  const auto steps = rng.in(3, 20);
  for (int64_t step = 0; step < steps; ++step) {
    Model want = m;
    bool ok = true;
    std::string what;
    std::function<void()> act;
    switch (rng.in(0, 9)) {
    case 0:
    case 1: { // add at either end
      const bool inner = rng.chance(1, 2);
      const Dim l = rng.chance(1, 25) ? Dim(Dim::Invalid) : any_label(rng);
      const auto n = length(rng);
      ok = l != Dim::Invalid && n >= 0 && !has(m, l);
      want.insert(inner ? want.end() : want.begin(), {l, n});
      what = (inner ? "addInner " : "add ") + (l == Dim::Invalid ? std::string("<invalid>") : l.name()) + ' ' + std::to_string(n);
      act = [&d, inner, l, n] { inner ? d.addInner(l, n) : d.add(l, n); };
      break;
    }
    case 2: {
      const Dim l = label_of(rng, m);
      ok = has(m, l);
      if (ok)
        want.erase(want.begin() + find(m, l));
      what = "erase " + l.name();
      act = [&d, l] { d.erase(l); };
      break;
    }
    case 3: {
      const Dim l = label_of(rng, m);
      const auto n = length(rng);
      ok = has(m, l) && n >= 0;
      if (ok)
        want[size_t(find(m, l))].second = n;
      what = "resize " + l.name() + ' ' + std::to_string(n);
      act = [&d, l, n] { d.resize(l, n); };
      break;
    }
    case 4: {
      const Dim l = rng.chance(1, 25) ? Dim(Dim::Invalid) : label_of(rng, m);
      auto n = length(rng);
      if (has(m, l) && rng.chance(1, 2))
        n = m[size_t(find(m, l))].second;
      ok = l != Dim::Invalid && n >= 0 && (!has(m, l) || m[size_t(find(m, l))].second == n);
      if (ok && !has(m, l))
        want.emplace_back(l, n);
      what = "set " + std::to_string(n);
      act = [&d, l, n] { d.set(l, n); };
      break;
    }
    case 5: {
      const Dim from = label_of(rng, m), to = label_of(rng, m);
      ok = has(m, from) && (from == to || !has(m, to));
      if (ok)
        want[size_t(find(m, from))].first = to;
      what = "replace " + from.name() + " by " + to.name();
      act = [&d, from, to] { d.replace_key(from, to); };
      break;
    }
    case 6: { // rename several, one after the other
      std::vector<std::pair<Dim, Dim>> names;
      const auto n = rng.in(0, 3);
      const bool strict = rng.chance(1, 2);
      what = strict ? "rename strictly" : "rename";
      for (int64_t i = 0; i < n; ++i) {
        const Dim from = label_of(rng, want), to = rng.chance(1, 8) ? label_of(rng, want) : any_label(rng);
        names.emplace_back(from, to);
        what += ' ' + from.name() + "->" + to.name();
        if (!ok)
          continue;
        if (const auto at = find(want, from); at >= 0) {
          ok = from == to || !has(want, to);
          if (ok)
            want[size_t(at)].first = to;
        } else if (strict)
          ok = false;
      }
      act = [&d, names, strict] { d = d.rename_dims(names, strict); };
      break;
    }
    case 7: {
      const auto s = random_slice(rng, m);
      ok = s.ok;
      if (ok)
        want = slice_model(m, s);
      what = s.text();
      act = [&d, s] {
        const auto sliced = static_cast<const Sizes &>(d).slice(make_slice(s));
        d = Dimensions(sliced.labels(), sliced.sizes());
      };
      break;
    }
    case 8: {
      want = m;
      std::vector<Dim> order;
      if (rng.chance(1, 3)) {
        std::reverse(want.begin(), want.end()); // default order
      } else {
        rng.shuffle(want);
        for (const auto &e : want)
          order.push_back(e.first);
        const auto bad = rng.in(0, 9);
        if (bad == 0) {
          order.push_back(any_label(rng));
          ok = false;
        } else if (bad == 1 && order.size() > 1) {
          order.pop_back();
          ok = false;
        } else if (bad == 2 && order.size() > 1) {
          order.back() = order.front();
          ok = false;
        } else if (bad == 3 && !order.empty()) {
          const Dim other = any_label(rng);
          if (!has(m, other)) {
            order.back() = other;
            ok = false;
          }
        }
      }
      what = "transpose";
      for (const auto &o : order)
        what += ' ' + o.name();
      act = [&d, order] { d = transpose(d, order); };
      break;
    }
    default: { // fold one into several
      const Dim from = label_of(rng, m);
      Model to;
      const auto at = find(m, from);
      int64_t rest = at < 0 ? 4 : m[size_t(at)].second;
      const auto n = rng.in(1, 3);
      for (int64_t i = 0; i < n; ++i) {
        const Dim l = rng.chance(1, 8) ? label_of(rng, m) : any_label(rng);
        if (has(to, l))
          continue;
        int64_t len = rest;
        if (i + 1 < n && rest > 0) {
          do
            len = rng.in(1, rest);
          while (rest % len != 0);
        }
        if (rng.chance(1, 12))
          len = rng.in(0, 4);
        to.emplace_back(l, len);
        if (len > 0 && rest % len == 0)
          rest /= len;
      }
      ok = at >= 0;
      if (ok) {
        want.clear();
        for (const auto &e : m) {
          if (e.first != from) {
            ok = ok && !has(want, e.first);
            want.push_back(e);
          } else
            for (const auto &t : to) {
              ok = ok && !has(want, t.first);
              want.push_back(t);
            }
        }
        int64_t after = 1;
        for (const auto &e : to)
          after *= e.second;
        ok = ok && m[size_t(at)].second == after;
      }
      what = "fold " + from.name() + " to " + show(to);
      act = [&d, from, to] { d = fold(d, from, dims_of(to)); };
      break;
    }
    }
    log += what + "; ";
    bool threw = false;
    try {
      act();
    } catch (const std::exception &) {
      threw = true;
    }
    CHECK("accepts-exactly", threw == !ok, log << " on " << show(m) << (threw ? " was refused" : " was accepted"));
    if (ok)
      m = want;
    else
      obs("refused");
    obs("operations");
    agree(d, m, log);
    agree(static_cast<const Sizes &>(d), m, log + " as sizes");
  }
  nontrivial(log);
}
} // namespace

SUITE(histories) {
  for (int i = 0; i < 3; ++i)
    history(rng);
}

SUITE(pairs) {
  const Model a = random_model(rng), other = random_model(rng);
  Model b = other;
  // mostly agreeing lengths
  if (rng.chance(3, 4))
    for (auto &e : b)
      if (const auto i = find(a, e.first); i >= 0)
        e.second = a[size_t(i)].second;
  if (rng.chance(1, 5))
    b = shuffled(rng, a);
  const auto what = show(a) + " and " + show(b);
  nontrivial(what);
  const auto da = dims_of(a), db = dims_of(b);
  agree(da, a, "constructed");
  // comparison
  CHECK("ordered-equal", (da == db) == (a == b) && (da != db) == (a != b), what);
  const Sizes &sa = da, &sb = db;
  CHECK("unordered-equal", (sa == sb) == same_set(a, b) && (sa != sb) == !same_set(a, b), what);
  bool compatible = true, includes = true;
  for (const auto &e : b) {
    const auto i = find(a, e.first);
    if (i >= 0 && a[size_t(i)].second != e.second)
      compatible = false;
    if (i < 0 || a[size_t(i)].second != e.second)
      includes = false;
  }
  CHECK("includes", sa.includes(sb) == includes, what << " includes: " << sa.includes(sb));
  // merge of unordered sizes: a then what is new
  Model seq = a;
  for (const auto &e : b)
    if (!has(seq, e.first))
      seq.push_back(e);
  try {
    const auto got = merge(sa, sb);
    CHECK("merge-sizes-accepts", compatible, what);
    agree(got, seq, "merged sizes of " + what);
  } catch (const except::DimensionError &) {
    CHECK("merge-sizes-refuses", !compatible, what);
    obs("mismatch-refused");
  }
  // merge of ordered dimensions
  try {
    const Dimensions got = merge(da, db);
    CHECK("merge-accepts", compatible, what);
    Model g;
    for (const auto &d : got)
      g.emplace_back(d, got[d]);
    CHECK("merge-union", same_set(g, seq), what << " merged to " << show(g));
    agree(got, g, "merged " + what);
    const auto sub = [&](const Model &of) {
      Model r;
      for (const auto &e : g)
        if (has(of, e.first))
          r.push_back(e);
      return r;
    };
    CHECK("merge-keeps-first-order", sub(a) == a, what << " merged to " << show(g));
    Model ca, cb, onlyb;
    for (const auto &e : a)
      if (has(b, e.first))
        ca.push_back(e);
    for (const auto &e : b)
      (has(a, e.first) ? cb : onlyb).push_back(e);
    CHECK("merge-keeps-order-of-new", sub(onlyb) == onlyb, what << " merged to " << show(g));
    if (ca == cb) // no conflict: neither operand needs transposing
      CHECK("merge-keeps-second-order", sub(b) == b, what << " merged to " << show(g));
    CHECK("merge-three", merge(da, db, da) == got, what);
    CHECK("merge-one", merge(da) == da && merge(da, da) == da && merge(da, Dimensions{}) == da && merge(Dimensions{}, da) == da, what);
    // intersection
    const auto x = intersection(da, db);
    agree(x, ca, "intersection of " + what);
    obs("merges");
  } catch (const except::DimensionError &) {
    CHECK("merge-refuses", !compatible, what);
    CHECK("intersection-refuses", refused([&] { (void)intersection(da, db); }), what);
    obs("mismatch-refused");
  }
}

SUITE(construction) {
  std::vector<Dim> l;
  std::vector<scipp::index> s;
  Model m;
  bool ok = true;
  const auto n = rng.in(0, 7);
  for (int64_t i = 0; i < n; ++i) {
    const Dim d = rng.chance(1, 40) ? Dim(Dim::Invalid) : any_label(rng);
    if (has(m, d) && rng.chance(2, 3))
      continue;
    const auto k = length(rng);
    ok = ok && !has(m, d) && k >= 0 && d != Dim::Invalid;
    l.push_back(d);
    s.push_back(k);
    m.emplace_back(d, k);
  }
  if (rng.chance(1, 15)) {
    (rng.chance(1, 2) || l.empty()) ? s.push_back(1) : l.pop_back();
    ok = ok && l.size() == s.size();
  }
  nontrivial(show(m));
  try {
    const Dimensions d(l, s);
    CHECK("construct-accepts", ok, show(m));
    agree(d, m, "constructed");
    const Dimensions copy = d;
    agree(copy, m, "copied");
    CHECK("copy-equal", copy == d && !(copy != d), show(m));
    Dimensions cleared = d;
    cleared.clear();
    agree(cleared, {}, "cleared");
    agree(d, m, "after clearing the copy");
    // strides of a view
    std::vector<scipp::index> v;
    for (size_t i = 0; i < m.size(); ++i)
      v.push_back(rng.in(0, 50));
    const Strides st{scipp::span<const scipp::index>(v)};
    Model order = m;
    rng.shuffle(order);
    std::vector<Dim> ol;
    for (const auto &e : order)
      ol.push_back(e.first);
    if (!m.empty()) {
      const auto t = transpose(st, d, ol);
      CHECK("strides-transposed-size", t.size() == int64_t(m.size()), show(m));
      for (size_t i = 0; i < order.size(); ++i)
        CHECK("strides-transposed", t[int64_t(i)] == v[size_t(find(m, order[i].first))], show(m) << " strides " << vec(v) << " to order " << show(order) << " entry " << i << " is " << t[int64_t(i)]);
      Strides e = st;
      const auto cut = rng.in(0, int64_t(v.size()) - 1);
      e.erase(cut);
      CHECK("strides-erase-equal", e != st, vec(v));
      for (int64_t i = 0; i < e.size(); ++i)
        CHECK("strides-erase", e[i] == v[size_t(i + (i >= cut))], vec(v) << " without " << cut);
      CHECK("strides-bounds", refused([&] { (void)st[int64_t(v.size())]; }) && refused([&] { (void)st[-1]; }), vec(v));
    }
  } catch (const except::DimensionError &) {
    CHECK("construct-refuses", !ok, show(m));
    obs("refused");
  }
}

SUITE(slices) {
  const Model m = random_model(rng);
  const Sizes d = dims_of(m);
  for (int i = 0; i < 4; ++i) {
    const auto s = random_slice(rng, m);
    const bool valid = s.begin >= 0 && (!s.range || (s.begin <= s.end && s.stride >= 1));
    nontrivial(show(m) + s.text());
    try {
      const auto slice = make_slice(s);
      CHECK("slice-accepts", valid, s.text());
      CHECK("slice-fields", slice.dim() == s.dim && slice.begin() == s.begin && slice.end() == s.end && slice.stride() == s.stride && slice.isRange() == s.range, s.text());
      CHECK("slice-equal", slice == make_slice(s) && !(slice != make_slice(s)), s.text());
      auto t = s;
      if (s.begin < std::numeric_limits<int64_t>::max()) {
        if (!s.range || s.end > s.begin) {
          ++t.begin;
          CHECK("slice-unequal", make_slice(t) != slice, s.text() << t.text());
        }
        t = s;
        t.dim = Dim("verif-other");
        CHECK("slice-unequal", make_slice(t) != slice, s.text());
        if (s.range && s.stride < 100) {
          t = s;
          ++t.stride;
          CHECK("slice-unequal", make_slice(t) != slice, s.text());
          t = s;
          if (s.end < 100)
            ++t.end;
          CHECK("slice-unequal", t.end == s.end || make_slice(t) != slice, s.text());
        }
      }
      try {
        const auto got = d.slice(slice);
        CHECK("slicing-accepts", s.ok, show(m) << ' ' << s.text());
        agree(got, slice_model(m, s), show(m) + s.text());
        obs("sliced");
      } catch (const except::SliceError &) {
        CHECK("slicing-refuses", !s.ok, show(m) << ' ' << s.text());
        obs("refused");
      }
    } catch (const except::SliceError &) {
      CHECK("slice-refuses", !valid, s.text());
      obs("refused");
    }
    CHECK("no-slice", d.slice(Slice{}) == d, show(m));
  }
}

SUITE(edges) {
  // the sizes of some data and of one of its coordinates
  const Model m = random_model(rng, 4);
  Model c;
  for (const auto &e : shuffled(rng, m))
    if (rng.chance(2, 3))
      c.push_back(e);
  if (!c.empty() && rng.chance(2, 3))
    c[size_t(rng.in(0, int64_t(c.size()) - 1))].second += rng.in(-1, 2);
  if (rng.chance(1, 3)) {
    const Dim d = any_label(rng);
    if (!has(m, d) && !has(c, d))
      c.emplace_back(d, rng.in(1, 3));
  }
  for (auto &e : c)
    e.second = std::max<int64_t>(0, e.second);
  if (m.empty() && c.size() > 1)
    return;
  const Sizes dm = dims_of(m), dc = dims_of(c);
  nontrivial(show(m) + show(c));
  for (const auto &dim : labels()) {
    bool edges = has(c, dim);
    for (const auto &e : c) {
      const auto i = find(m, e.first);
      if (e.first == dim)
        edges = edges && e.second == (i < 0 ? 1 : m[size_t(i)].second) + 1;
      else
        edges = edges && i >= 0 && m[size_t(i)].second == e.second;
    }
    CHECK("is-edges", is_edges(dm, dc, dim) == edges, "coordinate " << show(c) << " of data " << show(m) << " along " << dim.name() << ": " << !edges);
    obs(edges ? "edges" : "no-edges");
  }
  CHECK("is-edges-invalid", !is_edges(dm, dc, Dim::Invalid), show(m));
}
