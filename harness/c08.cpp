// C08: dictionaries against an insertion-ordered list, with iterators and
// transformed views kept alive across modifications.
#include "gen_num.h"
#include "scipp/core/dict.h"
#include "scipp/core/string.h"
#include "scipp/units/dim.h"
#include "scipp/units/string.h"
#include "vf.h"
#include <algorithm>
#include <memory>
#include <optional>

using namespace vf;
using namespace scipp;
using namespace scipp::core;

namespace {
std::string text(const Dim &d) { return d.name(); }
std::string text(const std::string &s) { return s; }
std::string long_value(Rng &rng) { return "value number " + std::to_string(rng.in(0, 1000000)) + " which does not fit inline"; }
template <class K> std::vector<K> keys_pool();
template <> std::vector<Dim> keys_pool() { return {Dim("x"), Dim("y"), Dim("z"), Dim("verif-k1"), Dim("verif-k2"), Dim("tof"), Dim("verif-k3")}; }
template <> std::vector<std::string> keys_pool() { return {"", "a", "b", "a rather long key that is on the heap", "another rather long key on the heap", "c", "d"}; }

template <class K> struct World {
  using D = Dict<K, std::string>;
  using Model = std::vector<std::pair<K, std::string>>;
  static std::string show(const Model &m) {
    std::string s = "{";
    for (const auto &[k, v] : m)
      s += text(k) + '=' + v.substr(13, 7) + ' ';
    return s + '}';
  }
  static int64_t find(const Model &m, const K &k) {
    for (size_t i = 0; i < m.size(); ++i)
      if (m[i].first == k)
        return int64_t(i);
    return -1;
  }
  static void agree(D &d, const Model &m, const std::string &log) {
    const D &c = d;
    const auto ctx = log + " should be " + show(m);
    CHECK("size", d.size() == int64_t(m.size()) && d.empty() == m.empty() && d.capacity() >= d.size(), ctx << " has size " << d.size());
    for (const auto &k : keys_pool<K>()) {
      const auto i = find(m, k);
      CHECK("contains", d.contains(k) == (i >= 0), ctx << " contains " << text(k));
      if (i >= 0) {
        const auto &v = m[size_t(i)].second;
        CHECK("lookup", d[k] == v && c[k] == v && d.at(k) == v && c.at(k) == v, ctx << " at " << text(k) << " is " << c[k]);
        CHECK("find", d.find(k) != d.end() && c.find(k) != c.end(), ctx << " find " << text(k));
        CHECK("find-item", (*d.find(k)).first == k && (*d.find(k)).second == v && (*c.find(k)).first == k && (*c.find(k)).second == v && d.find(k)->second == v && c.find(k)->first == k, ctx << " find " << text(k));
      } else {
        CHECK("find-absent", d.find(k) == d.end() && c.find(k) == c.end(), ctx << " find " << text(k));
        int refused = 0;
        const auto expect = [&](auto &&f) {
          try {
            f();
          } catch (const except::NotFoundError &) {
            ++refused;
          }
        };
        expect([&] { (void)d[k]; });
        expect([&] { (void)c[k]; });
        expect([&] { (void)d.at(k); });
        expect([&] { (void)c.at(k); });
        expect([&] { d.erase(k); });
        expect([&] { (void)d.extract(k); });
        CHECK("not-found", refused == 6, ctx << ": " << refused << " of 6 uses of the absent " << text(k) << " were refused");
        obs("not-found-errors", 6);
      }
    }
    size_t n = 0;
    for (auto it = d.keys_begin(); it != d.keys_end(); ++it, ++n)
      CHECK("keys", n < m.size() && *it == m[n].first, ctx << " key " << n);
    CHECK("keys", n == m.size(), ctx << " visited " << n << " keys");
    n = 0;
    for (auto it = d.values_begin(); it != d.values_end(); ++it, ++n)
      CHECK("values", n < m.size() && *it == m[n].second, ctx << " value " << n);
    CHECK("values", n == m.size(), ctx << " visited " << n << " values");
    n = 0;
    for (auto it = c.values_begin(); it != c.values_end(); ++it, ++n)
      CHECK("values", n < m.size() && *it == m[n].second && it->size() == m[n].second.size(), ctx << " value " << n);
    CHECK("values", n == m.size(), ctx << " visited " << n << " values");
    n = 0;
    for (auto it = d.begin(); it != d.end(); ++it, ++n)
      CHECK("items", n < m.size() && it->first == m[n].first && (*it).second == m[n].second, ctx << " item " << n);
    CHECK("items", n == m.size(), ctx << " visited " << n << " items");
    n = 0;
    for (const auto &[k, v] : c) {
      CHECK("items", n < m.size() && k == m[n].first && v == m[n].second, ctx << " item " << n);
      ++n;
    }
    CHECK("items", n == m.size(), ctx << " visited " << n << " items");
    n = 0;
    const auto up = [](const auto &item) { return text(item.first) + '/' + item.second; };
    const auto end = c.end().transform(up);
    for (auto it = c.begin().transform(up); it != end; ++it, ++n)
      CHECK("transformed", n < m.size() && *it == text(m[n].first) + '/' + m[n].second && it->size() == (*it).size(), ctx << " item " << n);
    CHECK("transformed", n == m.size(), ctx);
    std::string names;
    for (const auto &[k, v] : m)
      names += (names.empty() ? "" : ", ") + text(k);
    if (m.empty() || !text(m.front().first).empty())
      CHECK("text", dict_keys_to_string(c) == "<Dict {" + names + "}>" && dict_keys_to_string(c, "Coords") == "<Coords {" + names + "}>", ctx << " prints " << dict_keys_to_string(c));
    obs("dictionaries-compared");
  }

  // An iterator of some kind kept while the dictionary changes.
  struct Live {
    std::string kind;
    int64_t at;      // position
    uint64_t change; // number of changes of size/buffer when created
    int64_t size;
    const void *data;
    std::function<std::string()> read; // text of the current element
    std::function<void()> step;
    std::function<bool()> at_end;
    uint64_t seen = 0;
  };
  template <class It, class End, class Read> static Live live(const char *kind, It it, End end, Read read, const int64_t at, const D &d) {
    auto p = std::make_shared<It>(it);
    return {kind, at, 0, d.size(), nullptr, [p, read] { return read(*p); }, [p] { ++*p; }, [p, end] { return *p == end; }};
  }
  static Live make_live(Rng &rng, D &d, const int64_t at) {
    const D &c = d;
    const auto advance = [at](auto it) {
      for (int64_t i = 0; i < at; ++i)
        ++it;
      return it;
    };
    const auto key = [](auto &it) { return text(*it) + '|'; };
    const auto value = [](auto &it) { return '|' + std::string(*it); };
    const auto item = [](auto &it) { return text((*it).first) + '|' + it->second; };
    const auto whole = [](auto &it) { return std::string(*it) + (it->empty() ? "" : ""); };
    const auto f = [](const auto &x) { return text(x.first) + '|' + x.second; };
    const auto g = [](const std::string &x) { return '#' + x; };
    switch (rng.in(0, 6)) {
    case 0:
      return live("keys", advance(d.keys_begin()), d.keys_end(), key, at, d);
    case 1:
      return live("values", advance(d.values_begin()), d.values_end(), value, at, d);
    case 2:
      return live("const-values", advance(c.values_begin()), c.values_end(), value, at, d);
    case 3:
      return live("items", advance(d.begin()), d.end(), item, at, d);
    case 4:
      return live("const-items", advance(c.begin()), c.end(), item, at, d);
    case 5:
      return live("transformed", advance(c.begin().transform(f)), c.end().transform(f), whole, at, d);
    default:
      return live("chained", advance(d.begin().transform(f).transform(g)), d.end().transform(f).transform(g), whole, at, d);
    }
  }
  static std::string expect_text(const Live &l, const Model &m) {
    const auto &[k, v] = m[size_t(l.at)];
    if (l.kind == "keys")
      return text(k) + '|';
    if (l.kind.find("values") != std::string::npos)
      return '|' + v;
    return (l.kind == "chained" ? "#" : "") + text(k) + '|' + v;
  }

  static void history(Rng &rng) {
    const auto pool = keys_pool<K>();
    D d;
    Model m;
    std::string log;
    uint64_t shape = 0; // grows with every change of the number of entries

    std::vector<Live> lives;
    const auto steps = rng.in(5, 30);
    for (int64_t s = 0; s < steps; ++s) {
      const K k = rng.pick(pool);
      const auto i = find(m, k);
      switch (rng.in(0, 12)) {
      case 0:
      case 1:
      case 2:
      case 3: {
        const auto v = long_value(rng);
        log += "set " + text(k) + "; ";
        if (rng.chance(1, 2))
          d.insert_or_assign(k, v);
        else {
          auto copy = v;
          d.insert_or_assign(k, std::move(copy));
        }
        if (i >= 0)
          m[size_t(i)].second = v;
        else {
          m.emplace_back(k, v);
          ++shape;
        }
        break;
      }
      case 4: // from an entry of its own
        if (!m.empty()) {
          const auto from = rng.pick(m).first;
          log += "set " + text(k) + " from own " + text(from) + "; ";
          const auto v = m[size_t(find(m, from))].second;
          d.insert_or_assign(k, d[from]);
          if (i >= 0)
            m[size_t(i)].second = v;
          else {
            m.emplace_back(k, v);
            ++shape;
          }
        }
        break;
      case 5:
        if (i >= 0) {
          log += "erase " + text(k) + "; ";
          if (rng.chance(1, 2))
            d.erase(k);
          else { // through a reference to the stored key
            auto it = d.keys_begin();
            for (int64_t n = 0; n < i; ++n)
              ++it;
            d.erase(*it);
          }
          m.erase(m.begin() + i);
          ++shape;
        }
        break;
      case 6:
        if (i >= 0) {
          log += "extract " + text(k) + "; ";
          const auto got = d.extract(k);
          CHECK("extracted", got == m[size_t(i)].second, log << " gave " << got);
          m.erase(m.begin() + i);
          ++shape;
        }
        break;
      case 7:
        if (rng.chance(1, 4)) {
          log += "clear; ";
          d.clear();
          shape += !m.empty();
          m.clear();
        }
        break;
      case 8: {
        log += "reserve; ";
        const auto n = rng.in(0, 20);
        const auto before = d.capacity();
        d.reserve(n);
        CHECK("reserved", d.capacity() >= n, log);
        shape += d.capacity() != before;
        break;
      }
      case 9: {
        log += "copy; ";
        D copy = d;
        agree(copy, m, log + "of which a copy");
        if (!m.empty()) { // independent
          copy[m.front().first] = "value number 0000000";
          copy.erase(m.back().first);
          copy.insert_or_assign(pool[0], long_value(rng));
        }
        D assigned;
        assigned.insert_or_assign(k, "value number old");
        assigned = d;
        agree(assigned, m, log + "assigned");
        D moved = std::move(assigned);
        agree(moved, m, log + "moved");
        if (rng.chance(1, 3)) {
          d = std::move(moved);
          ++shape;
        }
        break;
      }
      case 10: // write through
        if (i >= 0) {
          const auto v = long_value(rng);
          log += "write " + text(k) + "; ";
          switch (rng.in(0, 3)) {
          case 0:
            d[k] = v;
            break;
          case 1:
            d.at(k) = v;
            break;
          case 2:
            d.find(k)->second = v;
            break;
          default: {
            auto it = d.values_begin();
            for (int64_t n = 0; n < i; ++n)
              ++it;
            *it = v;
          }
          }
          m[size_t(i)].second = v;
        }
        break;
      default:
        break;
      }
      agree(d, m, log);
      // kept iterators
      for (auto &l : lives) {
        const bool changed = l.change != shape;
        bool ok = true, end = false;
        std::string got;
        try {
          end = l.at_end();
          if (!end)
            got = l.read();
        } catch (const std::runtime_error &) {
          ok = false;
        }
        if (!changed) {
          CHECK("iterator-usable", ok, log << ' ' << l.kind << " iterator at " << l.at << " refused although nothing was added or removed");
          CHECK("iterator-end", end == (l.at == int64_t(m.size())), log << ' ' << l.kind << " iterator at " << l.at);
          if (!end) {
            CHECK("iterator-reads", got == expect_text(l, m), log << ' ' << l.kind << " iterator at " << l.at << " reads " << got);
            if (rng.chance(1, 2)) {
              l.step();
              ++l.at;
            }
          }
          obs("live-reads");
        } else if (l.size != int64_t(m.size())) {
          CHECK("iterator-stale", !ok, log << ' ' << l.kind << " iterator made at size " << l.size << " still answers at size " << m.size());
          bool stepped = true;
          try {
            l.step();
          } catch (const std::runtime_error &) {
            stepped = false;
          }
          CHECK("iterator-stale-step", !stepped, log << ' ' << l.kind);
          obs("stale-refused");
        }
        // same size again: memory may have been reused, either is acceptable
      }
      if (rng.chance(1, 3)) {
        lives.push_back(make_live(rng, d, rng.in(0, int64_t(m.size()))));
        lives.back().change = shape;
        if (lives.size() > 4)
          lives.erase(lives.begin());
      }
      obs("operations");
    }
    if (m.size() >= 2) {
      auto a = d.begin(), b = d.begin();
      ++b;
      CHECK("iterator-equal", a == d.begin() && a != b && !(a == b), log);
      swap(a, b);
      CHECK("iterator-swap", (*b).first == m[0].first && (*a).first == m[1].first, log);
    }
    nontrivial(log);
  }
};

template <class K> void initializer(Rng &rng) {
  const auto pool = keys_pool<K>();
  const K a = rng.pick(pool), b = rng.pick(pool), c = rng.pick(pool);
  const auto x = long_value(rng), y = long_value(rng), z = long_value(rng);
  const bool ok = a != b && b != c && a != c;
  nontrivial(text(a) + text(b) + text(c));
  try {
    Dict<K, std::string> d{{a, x}, {b, y}, {c, z}};
    CHECK("initializer-accepts", ok, text(a) << text(b) << text(c));
    World<K>::agree(d, {{a, x}, {b, y}, {c, z}}, "made from a list");
  } catch (const std::invalid_argument &) {
    CHECK("initializer-refuses", !ok, text(a) << text(b) << text(c));
    obs("duplicates-refused");
  }
}
} // namespace

SUITE(dims) { World<Dim>::history(rng); }
SUITE(strings) { World<std::string>::history(rng); }
SUITE(initializers) {
  initializer<Dim>(rng);
  initializer<std::string>(rng);
}
