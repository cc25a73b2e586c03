// C05: an element buffer is a plain value.
#include "gen_num.h"
#include "scipp/core/element_array.h"
#include "scipp/core/time_point.h"
#include "vf.h"
#include "vtbb.h"
#include <Eigen/Core>
#include <memory>
#include <optional>

using namespace vf;
using scipp::element_array;
using scipp::core::init_for_overwrite;

namespace {
// An element that keeps books on its own life.
struct Books {
  int64_t alive = 0, made = 0, copies = 0;
  int64_t throw_in = -1;
} books;
struct Refused {};
struct Tracked {
  Tracked(int64_t v = 0) : value(v), self(this), heap(new int64_t(v)) { born(); }
  Tracked(const Tracked &o) : value(o.value), self(this), heap(new int64_t(*o.heap)) {
    o.live();
    born();
  }
  Tracked &operator=(const Tracked &o) {
    live();
    o.live();
    ++books.copies;
    if (books.throw_in == 0) {
      books.throw_in = -1;
      throw Refused{};
    }
    if (books.throw_in > 0)
      --books.throw_in;
    value = o.value;
    *heap = *o.heap;
    return *this;
  }
  ~Tracked() {
    live();
    self = nullptr;
    --books.alive;
  }
  void live() const { CHECK("element-not-alive", self == this && *heap == value, "element used outside its life"); }
  void born() const {
    ++books.alive;
    ++books.made;
  }
  bool operator==(const Tracked &o) const { return value == o.value; }
  int64_t value;
  const Tracked *self;
  std::unique_ptr<int64_t> heap;
};

template <class T> T make(Rng &rng) {
  if constexpr (std::is_same_v<T, std::string>)
    return std::string(size_t(rng.in(0, 40)), char('a' + rng.in(0, 25)));
  else if constexpr (std::is_same_v<T, Tracked>)
    return Tracked(rng.in(-1000, 1000));
  else if constexpr (std::is_same_v<T, bool>)
    return rng.chance(1, 2);
  else if constexpr (std::is_same_v<T, Eigen::Vector3d>)
    return Eigen::Vector3d(moderate<double>(rng), moderate<double>(rng), moderate<double>(rng));
  else if constexpr (std::is_same_v<T, scipp::core::time_point>)
    return scipp::core::time_point(rng.in(-5, 5));
  else if constexpr (std::is_floating_point_v<T>)
    return moderate<T>(rng);
  else
    return any_int<T>(rng);
}
// unset, or a list of elements some of which are not specified
template <class T> struct Model {
  bool set = false;
  bool moved = false; // only its unset-ness is specified
  std::vector<T> items;
  bool defined = true;
};

template <class T> void compare(const element_array<T> &a, const Model<T> &m, const std::string &what) {
  CHECK("set", bool(a) == m.set, what << ": is " << (bool(a) ? "set" : "unset"));
  if (!m.set) {
    CHECK("unset-range", a.begin() == a.end() && !a.empty(), what);
    return;
  }
  CHECK("size", a.size() == int64_t(m.items.size()), what << ": size " << a.size() << ", expected " << m.items.size());
  CHECK("empty", a.empty() == m.items.empty(), what);
  CHECK("range", a.end() - a.begin() == a.size() && a.data() == a.begin(), what);
  if (!m.defined)
    return;
  size_t i = 0;
  for (const T &x : a) {
    CHECK("contents", x == T(m.items[i]), what << ": element " << i);
    ++i;
  }
}

template <class T> void history(Rng &rng, const char *name) {
  const auto alive0 = books.alive;
  std::string what = name;
  {
    constexpr int n = 3;
    std::vector<std::unique_ptr<element_array<T>>> arrays;
    std::vector<Model<T>> models(n);
    for (int i = 0; i < n; ++i)
      arrays.push_back(std::make_unique<element_array<T>>());
    const auto any_size = [&]() -> int64_t {
      switch (rng.in(0, 9)) {
      case 0:
      case 1:
        return 0;
      case 2:
        return 1;
      case 3:
        return std::is_same_v<T, std::string> || std::is_same_v<T, Tracked> ? rng.in(50, 200) : rng.in(8000, 40000);
      default:
        return rng.in(0, 12);
      }
    };
    const auto some = [&](const int64_t k) {
      std::vector<T> v;
      v.reserve(size_t(k));
      if (k > 1000) {
        std::vector<T> base;
        for (int i = 0; i < 7; ++i)
          base.push_back(make<T>(rng));
        for (int64_t i = 0; i < k; ++i)
          v.push_back(base[size_t(i * i % 7)]);
      } else
        for (int64_t i = 0; i < k; ++i)
          v.push_back(make<T>(rng));
      return v;
    };
    const auto steps = rng.in(3, 16);
    for (int64_t s = 0; s < steps; ++s) {
      const auto i = size_t(rng.in(0, n - 1)), j = size_t(rng.in(0, n - 1));
      auto &a = *arrays[i];
      auto &b = *arrays[j];
      auto &ma = models[i];
      auto &mb = models[j];
      const auto op = rng.in(0, 15);
      what += " " + std::to_string(op) + ":" + std::to_string(i) + std::to_string(j);
      obs("operations");
      switch (op) {
      case 0:
        a = b;
        ma = Model<T>(mb);
        CHECK("copy-shares", i == j || a.size() <= 0 || a.data() != b.data(), what);
        break;
      case 1:
        if (i == j)
          break;
        a = std::move(b);
        ma = mb;
        mb = Model<T>{};
        break;
      case 2: {
        const auto k = any_size();
        a.resize(k);
        // a default-constructed Eigen vector has no defined value
        ma = Model<T>{true, false, std::vector<T>(size_t(k), T()), !std::is_same_v<T, Eigen::Vector3d>};
        break;
      }
      case 3: {
        const auto k = any_size();
        a.resize(k, init_for_overwrite);
        ma = Model<T>{true, false, std::vector<T>(size_t(k), T()), false};
        if (std::is_same_v<T, bool> || rng.chance(2, 3)) {
          const auto v = some(k);
          std::copy(v.begin(), v.end(), a.begin());
          ma.items = v;
          ma.defined = true;
        }
        break;
      }
      case 4: {
        const auto v = some(any_size());
        a = element_array<T>(v.begin(), v.end());
        ma = {true, false, v, true};
        break;
      }
      case 5: {
        const auto v = some(any_size());
        a = element_array<T>(v);
        ma = {true, false, v, true};
        break;
      }
      case 6: {
        const auto k = any_size();
        const T value = make<T>(rng);
        a = element_array<T>(k, value);
        ma = {true, false, std::vector<T>(size_t(k), value), true};
        break;
      }
      case 7:
        a.reset();
        ma = Model<T>{};
        break;
      case 8: { // copy construction, then the source changes
        element_array<T> c(b);
        compare(c, mb, what + " copy");
        CHECK("copy-shares", c.size() <= 0 || c.data() != b.data(), what);
        if (c.size() > 0 && mb.defined) {
          const auto k = rng.in(0, c.size() - 1);
          const T value = make<T>(rng);
          c.data()[k] = value;
          auto mc = mb;
          mc.items[size_t(k)] = value;
          compare(c, mc, what + " changed copy");
          compare(b, mb, what + " source of changed copy");
        }
        a = std::move(c);
        break;
      }
      case 9: { // move construction
        element_array<T> c(std::move(b));
        compare(c, mb, what + " moved");
        compare(b, Model<T>{}, what + " moved from");
        *arrays[j] = std::move(c);
        if (c)
          CHECK("moved-from-unset", false, what);
        break;
      }
      case 10:
        if (a.size() > 0 && ma.defined) {
          const auto k = rng.in(0, a.size() - 1);
          const T value = make<T>(rng);
          a.begin()[k] = value;
          ma.items[size_t(k)] = value;
        }
        break;
      case 11: {
        const T x = make<T>(rng), y = make<T>(rng);
        a = element_array<T>{x, y, x};
        ma = {true, false, {x, y, x}, true};
        break;
      }
      case 12: { // nonsensical sizes are refused without effect
        bool refused = false;
        try {
          const int64_t bad = -rng.in(2, 5);
          if (rng.chance(1, 2))
            a.resize(bad);
          else
            a.resize(bad, init_for_overwrite);
        } catch (const std::runtime_error &) {
          refused = true;
        }
        CHECK("negative-size", refused, what);
        break;
      }
      case 13:
        std::swap(a, b);
        std::swap(ma, mb);
        break;
      case 14:
        a = element_array<T>(a.begin(), a.end());
        ma.set = true;
        break;
      case 15:
        if constexpr (std::is_same_v<T, Tracked>) { // copying fails half way
          if (b.size() > 0 && mb.defined) {
            books.throw_in = rng.in(0, b.size() - 1);
            bool failed = false;
            try {
              a = b;
            } catch (const Refused &) {
              failed = true;
            }
            books.throw_in = -1;
            if (!failed)
              ma = Model<T>(mb);
            else
              obs("failed-copies");
          }
        }
        break;
      }
      // case 8 moved the copy of b into a, possibly with a changed element
      if (op == 8) {
        if (ma.moved || true) {
          ma.set = bool(a);
          ma.items.assign(a.begin(), a.end());
          ma.defined = mb.defined;
        }
      }
      for (int k = 0; k < n; ++k)
        compare(*arrays[size_t(k)], models[size_t(k)], what + " array " + std::to_string(k));
    }
    if constexpr (std::is_same_v<T, Tracked>) {
      arrays.clear();
      int64_t in_models = 0;
      for (const auto &m : models)
        in_models += int64_t(m.items.size());
      CHECK("alive", books.alive - alive0 == in_models, what << ": " << books.alive - alive0 << " elements alive, expected " << in_models);
    }
  }
  CHECK("leaked-elements", books.alive == alive0, what);
  nontrivial(what);
}

// construction from a container of another type
template <class T, class U> void convert(Rng &rng) {
  std::vector<U> v(size_t(rng.in(0, 20)));
  for (auto &x : v)
    x = U(rng.in(-100, 100));
  const element_array<T> a(v.begin(), v.end());
  const element_array<T> b(v);
  CHECK("convert-size", a.size() == int64_t(v.size()) && b.size() == a.size(), v.size());
  for (size_t i = 0; i < v.size(); ++i)
    CHECK("convert", a.data()[i] == T(v[i]) && b.data()[i] == T(v[i]), i);
  nontrivial(vec(v));
}
} // namespace

SUITE(trivial) {
  switch (rng.in(0, 4)) {
  case 0:
    return history<int64_t>(rng, "int64");
  case 1:
    return history<double>(rng, "double");
  case 2:
    return history<bool>(rng, "bool");
  case 3:
    return history<Eigen::Vector3d>(rng, "vector3");
  default:
    return history<int32_t>(rng, "int32");
  }
}
SUITE(objects) {
  switch (rng.in(0, 2)) {
  case 0:
    return history<std::string>(rng, "string");
  case 1:
    return history<scipp::core::time_point>(rng, "time_point");
  default:
    return history<Tracked>(rng, "tracked");
  }
}
SUITE(tracked) {
  // the books are not for concurrent use
  history<Tracked>(rng, "tracked");
}
SUITE(conversion) {
  convert<double, int64_t>(rng);
  convert<double, float>(rng);
  convert<int64_t, int32_t>(rng);
  convert<float, int32_t>(rng);
}
