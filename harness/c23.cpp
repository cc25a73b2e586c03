// C23: coordinates guard operations, masks combine, alignment decides what is kept.
// Oracle: the documented table of alignment rules, evaluated on the raw
// coordinates; masks or-ed element by element; data from the operation on plain
// variables. After each operation all operands (or all but the target) are
// compared with a full text taken before, and changes to the result's masks must
// not show in the operands.
#include "events.h"
#include "parts.h"
#include "scipp/dataset/arithmetic.h"
#include "scipp/dataset/generated_comparison.h"
#include "scipp/dataset/generated_logical.h"
#include "scipp/dataset/generated_math.h"
#include "scipp/dataset/generated_trigonometry.h"
#include "scipp/dataset/generated_util.h"
#include "scipp/dataset/special_values.h"
#include "scipp/variable/generated_comparison.h"
#include "scipp/variable/generated_logical.h"
#include "scipp/variable/generated_math.h"
#include "scipp/variable/generated_trigonometry.h"
#include "scipp/variable/generated_util.h"
#include "scipp/variable/arithmetic.h"

using namespace vf;

namespace {
const Dim dx("verif-x"), dy("verif-y"), dz("verif-z");

template <class F> std::string err(F &&f) {
  return error_of([&] {
           try {
             f();
           } catch (const except::CoordMismatchError &) {
             throw std::runtime_error("CoordMismatchError");
           }
         }).value_or("");
}
constexpr auto mismatch = "exception CoordMismatchError";
// ---- equality of coordinates, NaN equal to NaN
bool same(const Variable &a, const Variable &b) {
  if (a.dtype() != b.dtype() || a.unit() != b.unit() || a.dims() != b.dims() || a.has_variances() != b.has_variances())
    return false;
  bool eq = true;
  for_dtype(a.dtype(), [&](auto tag) {
    using T = typename decltype(tag)::type;
    each_index(a.dims(), [&](const IndexMap &at) {
      const auto equal = [](const auto &p, const auto &q) {
        if constexpr (std::is_floating_point_v<std::decay_t<decltype(p)>>)
          return p == q || (std::isnan(p) && std::isnan(q));
        else if constexpr (std::is_same_v<std::decay_t<decltype(p)>, Eigen::Affine3d>)
          return p.matrix() == q.matrix();
        else
          return p == q;
      };
      eq = eq && equal(raw_value<T>(a, at), raw_value<T>(b, at));
      if constexpr (core::canHaveVariances<T>())
        if (a.has_variances())
          eq = eq && equal(raw_variance<T>(a, at), raw_variance<T>(b, at));
    });
  });
  return eq;
}
using CoordMap = std::map<Dim, Variable>;
using MaskMap = std::map<std::string, Variable>;
template <class D> auto to_map(const D &d) {
  std::map<typename D::key_type, Variable> m;
  for (const auto &[k, v] : d)
    m.emplace(k, v);
  return m;
}
struct Rules {
  bool mismatch = false; // binary operations
  bool refused = false;  // in-place operations: right must be a subset
  CoordMap coords, attrs;
};
Rules rules(const CoordMap &a, const CoordMap &b) {
  Rules r;
  for (const auto &[k, x] : a) {
    const auto it = b.find(k);
    if (it == b.end()) {
      obs(x.is_aligned() ? "coord aligned in left only" : "coord unaligned in left only");
      if (x.is_aligned())
        r.coords.emplace(k, x);
      continue;
    }
    const auto &y = it->second;
    const bool eq = same(x, y);
    obs(std::string("coord ") + (x.is_aligned() ? "aligned" : "unaligned") + '/' + (y.is_aligned() ? "aligned" : "unaligned") + (eq ? " equal" : " different"));
    if (x.is_aligned() && y.is_aligned()) {
      if (!eq)
        r.mismatch = r.refused = true;
      r.coords.emplace(k, x);
    } else if (x.is_aligned())
      r.coords.emplace(k, x);
    else if (y.is_aligned())
      r.coords.emplace(k, y);
    else if (eq)
      r.coords.emplace(k, x);
  }
  for (const auto &[k, y] : b)
    if (!a.count(k)) {
      obs(y.is_aligned() ? "coord aligned in right only" : "coord unaligned in right only");
      if (y.is_aligned()) {
        r.coords.emplace(k, y);
        r.refused = true;
      }
    }
  return r;
}
// a or b, or one of them, over all dims of both
void check_mask(const std::string &what, const Variable &got, const Variable *a, const Variable *b) {
  CHECK("mask type", got.dtype() == dtype<bool> && got.unit() == units::none, what << ": " << describe(got));
  for (const auto *v : {a, b})
    if (v)
      CHECK("mask dims", got.dims().includes(v->dims()), what << ": " << describe(got) << " lost dims of " << describe(*v));
  each_index(got.dims(), [&](const IndexMap &at) {
    bool want = false;
    for (const auto *v : {a, b})
      if (v)
        want = want || raw_value<bool>(*v, sub(at, v->dims()));
    CHECK("mask value", raw_value<bool>(got, at) == want, what << " at " << text_at(got, at) << ": " << describe(got) << " from " << (a ? describe(*a) : "none") << " and " << (b ? describe(*b) : "none"));
  });
}
void check_masks(const std::string &what, const Masks &got, const MaskMap &a, const MaskMap &b) {
  std::set<std::string> keys;
  for (const auto *m : {&a, &b})
    for (const auto &[k, v] : *m)
      keys.insert(k);
  CHECK("masks", size_t(got.size()) == keys.size(), what << ": " << got.size() << " masks instead of " << keys.size());
  for (const auto &k : keys) {
    CHECK("mask missing", got.contains(k), what << ": mask " << k << " missing");
    const auto ia = a.find(k), ib = b.find(k);
    check_mask(what + " mask " + k, got[k], ia == a.end() ? nullptr : &ia->second, ib == b.end() ? nullptr : &ib->second);
    if (ia != a.end() && ib != b.end())
      obs("masks or-ed");
  }
}
void check_coords(const std::string &what, const std::string &kind, const CoordMap &got, const CoordMap &want, const bool exact = true) {
  for (const auto &[k, x] : want) {
    const auto it = got.find(k);
    CHECK(kind + " dropped", it != got.end(), what << ": " << kind << ' ' << k.name() << " is missing, expected " << describe(x));
    CHECK(kind + " value", same(it->second, x), what << ": " << kind << ' ' << k.name() << " is " << brief(full(it->second)) << " instead of " << brief(full(x)));
    CHECK(kind + " alignment", it->second.is_aligned() == x.is_aligned(), what << ": " << kind << ' ' << k.name() << (x.is_aligned() ? " lost" : " gained") << " its alignment");
  }
  if (exact)
    for (const auto &[k, x] : got)
      CHECK(kind + " not dropped", want.count(k), what << ": " << kind << ' ' << k.name() << " should not be in the result: " << describe(x));
}

// ---- operations
struct Binary {
  std::string name;
  std::function<Variable(const Variable &, const Variable &)> vv;
  std::function<DataArray(const DataArray &, const DataArray &)> aa;
  std::function<DataArray(const DataArray &, const Variable &)> av;
  std::function<DataArray(const Variable &, const DataArray &)> va;
  bool boolean = false, arithmetic = false;
};
#define OP(NAME, EXPR, BOOLEAN, ARITH)                                                                                       \
  Binary { NAME, [](const auto &a, const auto &b) { return EXPR; }, [](const auto &a, const auto &b) { return EXPR; },         \
           [](const auto &a, const auto &b) { return EXPR; }, [](const auto &a, const auto &b) { return EXPR; }, BOOLEAN, ARITH }
const std::vector<Binary> &binaries() {
  static const std::vector<Binary> v{
      OP("+", a + b, false, true), OP("-", a - b, false, true), OP("*", a *b, false, true), OP("/", a / b, false, true),
      OP("floor_divide", floor_divide(a, b), false, false), OP("%", a % b, false, false),
      OP("==", equal(a, b), false, false), OP("!=", not_equal(a, b), false, false), OP("<", less(a, b), false, false), OP(">", greater(a, b), false, false),
      OP("<=", less_equal(a, b), false, false), OP(">=", greater_equal(a, b), false, false),
      OP("|", a | b, true, false), OP("&", a &b, true, false), OP("^", a ^ b, true, false), OP("atan2", atan2(a, b), false, false)};
  return v;
}
struct InPlace {
  std::string name;
  std::function<void(Variable &, const Variable &)> vv;
  std::function<void(DataArray &, const DataArray &)> aa;
  std::function<void(DataArray &, const Variable &)> av;
  bool boolean = false;
};
#define IOP(NAME, SYMBOL, BOOLEAN)                                                                                           \
  InPlace { NAME, [](auto &a, const auto &b) { a SYMBOL b; }, [](auto &a, const auto &b) { a SYMBOL b; }, [](auto &a, const auto &b) { a SYMBOL b; }, BOOLEAN }
const std::vector<InPlace> &inplaces() {
  static const std::vector<InPlace> v{IOP("+=", +=, false), IOP("-=", -=, false), IOP("*=", *=, false), IOP("/=", /=, false), IOP("|=", |=, true), IOP("&=", &=, true), IOP("^=", ^=, true)};
  return v;
}

// ---- operands
Variable perturb(Rng &rng, const Variable &v) {
  auto out = copy(v);
  switch (v.dims().volume() == 0 ? 4 : rng.in(0, 5)) {
  case 0: // one element
  case 1:
  case 2: {
    IndexMap at;
    for (const auto &l : v.dims().labels())
      at.emplace_back(l, rng.in(0, v.dims()[l] - 1));
    if (rng.chance(1, 3) && floating(v.dtype())) {
      for_dtype(v.dtype(), [&](auto tag) {
        using T = typename decltype(tag)::type;
        if constexpr (std::is_floating_point_v<T>)
          raw_set<T>(out, at, std::isnan(raw_value<T>(v, at)) ? T(1) : std::nextafter(raw_value<T>(v, at), T(1e30)));
      });
      break;
    }
    for_dtype(v.dtype(), [&](auto tag) {
      using T = typename decltype(tag)::type;
      for (int i = 0; i < 20; ++i) {
        raw_set<T>(out, at, rand_elem<T>(rng, {}));
        if (!same(out, v))
          break;
      }
    });
    break;
  }
  case 3: { // one variance
    bool done = false;
    if (v.has_variances())
      for_dtype(v.dtype(), [&](auto tag) {
        using T = typename decltype(tag)::type;
        if constexpr (core::canHaveVariances<T>()) {
          IndexMap at;
          for (const auto &l : v.dims().labels())
            at.emplace_back(l, rng.in(0, v.dims()[l] - 1));
          *(out.template variances<T>().data() + flat_offset(out, at)) += T(1);
          done = true;
        }
      });
    if (done)
      break;
    [[fallthrough]];
  }
  case 4:
    out.setUnit(v.unit() == units::s ? units::m : units::s);
    break;
  default:
    if (!v.has_variances() && floating(v.dtype())) {
      out.setVariances(copy(v));
      break;
    }
    out.setUnit(v.unit() == units::kg ? units::m : units::kg);
  }
  out.set_aligned(v.is_aligned());
  return out;
}
void add_nans(Rng &rng, Variable &v) {
  if (!floating(v.dtype()) || is_binned(v))
    return;
  each_index(v.dims(), [&](const IndexMap &at) {
    if (rng.chance(1, 6))
      for_dtype(v.dtype(), [&](auto tag) {
        using T = typename decltype(tag)::type;
        if constexpr (std::is_floating_point_v<T>)
          raw_set<T>(v, at, rng.chance(1, 2) ? T(NAN) : -T(NAN));
      });
  });
}
DataArray rand_operand(Rng &rng, const Dimensions &dims, const DType type) {
  ArraySpec s;
  s.type = type;
  s.data.small = 5;
  s.attrs = true;
  if (type == dtype<bool>)
    s.data.unit = units::none;
  auto a = rand_array(rng, dims, s, rng.pick<std::string>({"", "a", "b"}));
  for (const auto &k : std::vector<Dim>(a.coords().keys_begin(), a.coords().keys_end())) {
    auto c = copy(a.coords()[k]);
    if (rng.chance(1, 4))
      add_nans(rng, c);
    c.set_aligned(a.coords()[k].is_aligned() && rng.chance(3, 4));
    a.coords().set(k, c);
  }
  for (const auto &k : std::vector<std::string>(a.masks().keys_begin(), a.masks().keys_end()))
    a.masks().set(k, copy(a.masks()[k]));
  return a;
}
// another operand with mostly the same metadata
DataArray partner(Rng &rng, const DataArray &a, const DType type, const bool subset) {
  Dimensions dims;
  for (const auto &l : rng.chance(1, 3) && !subset ? label_list(a.dims()) : label_list(sub_dims(rng, a.dims())))
    dims.addInner(l, a.dims()[l]);
  if (!subset && rng.chance(1, 3))
    dims.addInner(dz, 2);
  Spec d;
  d.small = 5;
  d.unit = type == dtype<bool> ? units::none : rng.chance(1, 8) ? units::m : a.unit();
  DataArray b(rand_var(rng, type, dims, d));
  const bool wild = rng.chance(1, 3); // else mostly agreeing
  const auto fits = [&](const Variable &v, const DataArray &to) {
    for (const auto &l : v.dims().labels())
      if (!to.dims().contains(l) && v.dims()[l] != 2)
        return false;
    return true;
  };
  const auto transfer = [&](const auto &from, auto &to) {
    for (const auto &[k, v] : from) {
      if (rng.chance(1, 5) || !fits(v, b))
        continue;
      auto w = rng.chance(1, wild ? 2 : 12) ? perturb(rng, v) : rng.chance(1, 2) ? v : relayout(rng, v);
      w.set_aligned(rng.chance(1, wild ? 2 : 10) ? !v.is_aligned() : v.is_aligned());
      if (err([&] { to.set(k, w); }).empty() && w.has_variances() != v.has_variances())
        obs("coord with and without variances");
    }
  };
  transfer(a.coords(), b.coords());
  transfer(a.attrs(), b.attrs());
  if (rng.chance(1, subset ? 12 : 4)) {
    auto c = rand_var(rng, dtype<double>, sub_dims(rng, dims), {});
    c.set_aligned(rng.chance(1, 2));
    b.coords().set(Dim("verif-more"), c);
  }
  if (!subset && dims.contains(dz) && rng.chance(1, 2))
    b.coords().set(dz, rand_coord(rng, dz, 2 + rng.in(0, 1), {}, units::m));
  for (const auto *k : {"m0", "m1", "m2"})
    if (rng.chance(1, 3))
      b.masks().set(k, copy(rand_var(rng, dtype<bool>, sub_dims(rng, dims), {false, false, false, units::none})));
  return b;
}
DType rand_type(Rng &rng, const bool boolean) { return boolean ? dtype<bool> : rng.pick({dtype<double>, dtype<double>, dtype<float>, dtype<int64_t>}); }

void flip_masks(const DataArray &r) {
  for (const auto &[k, m] : r.masks())
    if (!m.is_readonly()) {
      auto v = m;
      each_index(v.dims(), [&](const IndexMap &at) { raw_set<bool>(v, at, !raw_value<bool>(v, at)); });
    }
}
void clear_parts(DataArray &r) {
  for (const auto &k : std::vector<Dim>(r.coords().keys_begin(), r.coords().keys_end()))
    r.coords().erase(k);
  for (const auto &k : std::vector<std::string>(r.masks().keys_begin(), r.masks().keys_end()))
    r.masks().erase(k);
  r.masks().set("verif-new", makeVariable<bool>(Dims{}, units::none, Values{true}));
}
void check_array(const std::string &what, const DataArray &r, const CoordMap &coords, const MaskMap &ma, const MaskMap &mb, const CoordMap *attrs) {
  check_coords(what, "coord", to_map(r.coords()), coords);
  check_masks(what, r.masks(), ma, mb);
  if (attrs)
    check_coords(what, "attr", to_map(r.attrs()), *attrs);
}
CoordMap common_attrs(const DataArray &a, const DataArray &b) {
  CoordMap m;
  for (const auto &[k, v] : a.attrs())
    if (b.attrs().contains(k) && same(v, b.attrs()[k]))
      m.emplace(k, v);
  return m;
}
DataArray maybe_slice(Rng &rng, const DataArray &a) {
  auto s = a;
  while (s.dims().ndim() > 0 && rng.chance(1, 4)) {
    const auto ls = label_list(s.dims());
    const auto d = ls[size_t(rng.in(0, int64_t(ls.size()) - 1))];
    if (s.dims()[d] == 0)
      break;
    s = DataArray(s.slice({d, rng.in(0, s.dims()[d] - 1)}));
    obs("operand is a point slice");
  }
  return s;
}
} // namespace

SUITE(arrays) {
  const auto dims = rand_dims(rng, 2, 3, rng.chance(9, 10) ? 1 : 0);
  const auto &op = binaries()[size_t(rng.in(0, int64_t(binaries().size()) - 1))];
  const auto type = rand_type(rng, op.boolean);
  const auto whole = rand_operand(rng, dims, type);
  auto a = maybe_slice(rng, whole), b = rng.chance(1, 8) ? maybe_slice(rng, whole) : rng.chance(1, 12) ? a : partner(rng, whole, op.name == "atan2" || rng.chance(2, 3) ? type : rand_type(rng, op.boolean), false);
  b = maybe_slice(rng, b);
  if (rng.chance(1, 2))
    std::swap(a, b);
  const auto before = full(a) + full(b) + full(whole);
  const auto what = op.name + " of " + brief(full(a)) + " and " + brief(full(b));
  const auto va = copy(a.data()), vb = copy(b.data());
  Variable want;
  const auto data_error = err([&] { want = op.vv(va, vb); });
  const auto r = rules(to_map(a.coords()), to_map(b.coords()));
  DataArray got;
  const auto e = err([&] { got = op.aa(a, b); });
  CHECK("operand changed", full(a) + full(b) + full(whole) == before, what << ": " << diff(full(a) + full(b) + full(whole), before));
  if (r.mismatch) {
    CHECK("mismatch accepted", e == mismatch || !data_error.empty(), what << " gave error '" << e << "' " << (got.is_valid() ? full(got) : ""));
    CHECK("mismatch accepted", !e.empty(), what);
    obs("refused: mismatching coords");
    nontrivial(op.name + e);
    return;
  }
  CHECK("refused", e.empty() == data_error.empty(), what << " gave error '" << e << "' but for the data '" << data_error << "'");
  if (!e.empty()) {
    obs("refused: data");
    return;
  }
  const auto attrs = common_attrs(a, b);
  check_array(what, got, r.coords, to_map(a.masks()), to_map(b.masks()), &attrs);
  if (&a != &b && !a.data().is_same(b.data()))
    CHECK("data", canon(got.data()) == canon(want), what << ": " << diff(canon(got.data()), canon(want)));
  flip_masks(got);
  clear_parts(got);
  CHECK("result shares masks", full(a) + full(b) + full(whole) == before, what << ": changing the result changed an operand: " << diff(full(a) + full(b) + full(whole), before));
  obs("binary operations");
  nontrivial(op.name + header(a.data()) + header(b.data()) + std::to_string(r.coords.size()));
}

SUITE(mixed) { // array and variable, unary
  const auto dims = rand_dims(rng, 2, 3, 1);
  const auto &op = binaries()[size_t(rng.in(0, int64_t(binaries().size()) - 1))];
  const auto type = rand_type(rng, op.boolean);
  const auto whole = rand_operand(rng, dims, type);
  const auto a = maybe_slice(rng, whole);
  const auto b = partner(rng, whole, type, false).data();
  const auto before = full(whole) + full(a) + full(b);
  const int kind = int(rng.in(0, 2));
  const auto what = op.name + " kind " + std::to_string(kind) + " of " + brief(full(a)) + " and " + brief(full(b));
  Variable want;
  DataArray got;
  std::string data_error, e;
  if (kind == 0) {
    data_error = err([&] { want = op.vv(a.data(), b); });
    e = err([&] { got = op.av(a, b); });
  } else if (kind == 1) {
    data_error = err([&] { want = op.vv(b, a.data()); });
    e = err([&] { got = op.va(b, a); });
  } else {
    struct Unary {
      std::function<Variable(const Variable &)> v;
      std::function<DataArray(const DataArray &)> a;
    };
    const std::vector<Unary> unaries{
        {[](const auto &x) { return -x; }, [](const auto &x) { return -x; }},
        {[](const auto &x) { return abs(x); }, [](const auto &x) { return abs(x); }},
        {[](const auto &x) { return floor(x); }, [](const auto &x) { return floor(x); }},
        {[](const auto &x) { return ~x; }, [](const auto &x) { return ~x; }},
        {[](const auto &x) { return isnan(x); }, [](const auto &x) { return isnan(x); }},
        {[](const auto &x) { return reciprocal(x); }, [](const auto &x) { return reciprocal(x); }},
        {[](const auto &x) { return sin(x); }, [](const auto &x) { return sin(x); }},
        {[](const auto &x) { return sqrt(x); }, [](const auto &x) { return sqrt(x); }},
        {[](const auto &x) { return values(x); }, [](const auto &x) { return values(x); }}};
    const auto &u = unaries[size_t(rng.in(0, int64_t(unaries.size()) - 1))];
    data_error = err([&] { want = u.v(a.data()); });
    e = err([&] { got = u.a(a); });
  }
  CHECK("operand changed", full(whole) + full(a) + full(b) == before, what << ": " << diff(full(whole) + full(a) + full(b), before));
  if (data_error.empty() && kind < 2) { // edges of a slice cannot be kept when the dim comes back with another length
    bool fit = true;
    const auto see = [&](const auto &dict) {
      for (const auto &[key, v] : dict) {
        (void)key;
        for (const auto &l : v.dims())
          if (!a.dims().contains(l) && want.dims().contains(l) && want.dims()[l] != v.dims()[l] && want.dims()[l] + 1 != v.dims()[l])
            fit = false;
      }
    };
    see(a.coords());
    see(a.masks());
    see(a.attrs());
    if (!fit) {
      CHECK("edges do not fit", e == "DimensionError", what << ": error '" << e << "'");
      obs("refused: edges");
      return;
    }
  }
  CHECK("refused", e == data_error, what << ": error '" << e << "' but for the data '" << data_error << "'");
  if (!e.empty()) {
    obs("refused: data");
    return;
  }
  const auto attrs = to_map(a.attrs());
  check_array(what, got, to_map(a.coords()), to_map(a.masks()), {}, &attrs);
  CHECK("data", canon(got.data()) == canon(want), what << ": " << diff(canon(got.data()), canon(want)));
  flip_masks(got);
  clear_parts(got);
  CHECK("result shares masks", full(whole) + full(a) + full(b) == before, what << ": changing the result changed an operand: " << diff(full(whole) + full(a) + full(b), before));
  obs(kind == 2 ? "unary operations" : "operations with variables");
  nontrivial(op.name + std::to_string(kind) + header(got.data()));
}

SUITE(in_place) {
  const auto dims = rand_dims(rng, 2, 3, 1);
  const auto &op = inplaces()[size_t(rng.in(0, int64_t(inplaces().size()) - 1))];
  const auto type = rand_type(rng, op.boolean);
  auto whole = rand_operand(rng, dims, type);
  whole.setData(copy(whole.data()));
  if (rng.chance(1, 12))
    for (const auto &k : std::vector<std::string>(whole.masks().keys_begin(), whole.masks().keys_end()))
      if (whole.masks()[k].dims() != dims && rng.chance(1, 2))
        whole.masks().set(k, broadcast(whole.masks()[k], dims)); // read-only
  const bool slice = rng.chance(1, 4) && dims.ndim() > 0;
  auto target = whole.view();
  Slice params;
  if (slice) {
    const auto ls = label_list(dims);
    const auto d = ls[size_t(rng.in(0, int64_t(ls.size()) - 1))];
    const auto n = dims[d];
    const auto from = rng.in(0, std::max<int64_t>(0, n - 1));
    params = n > 0 && rng.chance(1, 2) ? Slice(d, from) : Slice(d, from, rng.in(from, n));
    target = whole.slice(params);
    obs("target is a slice");
  }
  const bool itself = rng.chance(1, 10);
  const auto b = maybe_slice(rng, itself ? DataArray(target) : rng.chance(1, 12) ? copy(target) : partner(rng, copy(target), type, rng.chance(5, 6)));
  const auto before_b = full(b), before = full(whole), before_t = full(target);
  const auto what = op.name + " on " + brief(before_t) + " and " + brief(before_b);
  const auto old = copy(target), old_whole = copy(whole);
  const bool by_variable = rng.chance(1, 6);
  const bool overlap = itself;
  auto want = copy(target.data());
  const auto vb = overlap && b.data().is_same(target.data()) ? want : copy(b.data());
  const auto data_error = err([&] { op.vv(want, vb); });
  auto r = rules(to_map(target.coords()), to_map(b.coords()));
  std::string mask_error;
  bool masks_unclear = false;
  for (const auto &[k, m] : b.masks()) {
    if (!target.masks().contains(k)) {
      if (target.masks().is_readonly())
        mask_error = "new mask in slice";
      else if (!old.dims().includes(m.dims()))
        mask_error = "mask does not fit";
      continue;
    }
    const auto t = target.masks()[k];
    if (!t.dims().includes(m.dims()))
      mask_error = "mask exceeds";
    if (t.is_readonly())
      masks_unclear = true;
  }
  const auto e = err([&] { by_variable ? op.av(target, b.data()) : op.aa(target, b); });
  if (!overlap)
    CHECK("operand changed", full(b) == before_b, what << ": " << diff(full(b), before_b));
  const bool unit_of_part = slice && e == "UnitError" && data_error.empty() && want.unit() != old.data().unit();
  const auto self = overlap || unit_of_part; // the unit of a part cannot change
  if (!e.empty()) {
    CHECK("rejected but changed", full(whole) == before && full(target) == before_t && full(b) == before_b, what << " was refused with " << e << " but changed the target: " << diff(full(whole) + full(target), before + before_t));
    if (by_variable)
      CHECK("refused", !data_error.empty() || self, what << " gave error '" << e << "' but for the data '" << data_error << "'");
    else
      CHECK("refused", !data_error.empty() || r.refused || !mask_error.empty() || masks_unclear || self, what << " was refused with " << e);
    if (!by_variable && r.refused && data_error.empty() && mask_error.empty() && !self)
      CHECK("mismatch error", e == mismatch, what << " gave " << e);
    obs(r.refused ? "refused: mismatching coords" : !mask_error.empty() ? "refused: masks" : "refused: data");
    nontrivial(op.name + e + mask_error);
    return;
  }
  CHECK("data error ignored", data_error.empty(), what);
  if (!by_variable) {
    CHECK("mismatch accepted", !r.refused, what);
    CHECK("masks accepted", mask_error.empty(), what << " with " << mask_error);
  }
  // coords and attrs of the target stay
  check_coords(what, "target coord", to_map(target.coords()), to_map(old.coords()));
  check_coords(what, "target attr", to_map(target.attrs()), to_map(old.attrs()));
  if (by_variable)
    check_masks(what, target.masks(), to_map(old.masks()), {});
  else if (!self)
    check_masks(what, target.masks(), to_map(old.masks()), to_map(b.masks()));
  for (const auto &[k, m] : to_map(old.masks()))
    CHECK("target mask dims", target.masks()[k].dims() == m.dims(), what);
  if (!overlap || b.data().is_same(target.data()))
    CHECK("data", canon(target.data()) == canon(want), what << ": " << diff(canon(target.data()), canon(want)));
  if (slice) { // outside of the slice all is as before
    for (const auto &[name, was] : parts_of(old_whole)) {
      const auto now = parts_of(whole).at(name);
      each_index(now.dims(), [&](const IndexMap &at) {
        bool inside = !now.dims().contains(params.dim());
        for (const auto &p : at)
          if (p.first == params.dim())
            inside = p.second >= params.begin() && (params.end() == -1 ? p.second == params.begin() : p.second < params.end());
        if (!inside)
          CHECK("outside of slice changed", text_of(now, at) == text_of(was, at), what << ": " << name << " changed outside of the slice");
      });
    }
    obs("rest of sliced target compared");
  } else {
    // masks of the target must not be those of b
    if (!self) {
      flip_masks(target);
      CHECK("target shares masks", full(b) == before_b, what << ": " << diff(full(b), before_b));
    }
  }
  obs(by_variable ? "in-place operations with variables" : "in-place operations");
  if (self)
    obs("in-place operations with itself");
  nontrivial(op.name + header(target.data()) + std::to_string(b.coords().size()) + std::to_string(b.masks().size()));
}

namespace {
Dataset rand_items(Rng &rng, const Dimensions &dims, const DType type) {
  ArraySpec s;
  s.type = type;
  s.data.small = 5;
  auto d = rand_dataset(rng, dims, s, 4);
  Dataset out({}, d.coords());
  for (const auto &k : std::vector<Dim>(out.coords().keys_begin(), out.coords().keys_end())) {
    auto c = copy(out.coords()[k]);
    c.set_aligned(out.coords()[k].is_aligned());
    if (rng.chance(1, 6))
      add_nans(rng, c);
    out.coords().set(k, c);
  }
  for (const auto &item : d) {
    DataArray a(copy(item.data()));
    for (const auto &[k, m] : item.masks())
      if (a.dims().includes(m.dims()))
        a.masks().set(k, copy(m));
    out.setData(item.name(), a);
  }
  return out;
}
Dataset partner(Rng &rng, const Dataset &a, const DType type) {
  Dimensions dims;
  for (const auto &l : label_list(rng.chance(1, 2) ? Dimensions(a.sizes().labels(), a.sizes().sizes()) : sub_dims(rng, Dimensions(a.sizes().labels(), a.sizes().sizes()))))
    dims.addInner(l, a.sizes()[l]);
  Dataset b({}, Coords(Sizes(dims), {}));
  const bool wild = rng.chance(1, 3);
  for (const auto &[k, v] : a.coords())
    if (rng.chance(5, 6) && std::all_of(v.dims().begin(), v.dims().end(), [&](const auto &l) { return dims.contains(l); })) {
      auto w = rng.chance(1, wild ? 3 : 20) ? perturb(rng, v) : rng.chance(1, 2) ? v : relayout(rng, v);
      w.set_aligned(rng.chance(1, wild ? 3 : 20) ? !v.is_aligned() : v.is_aligned());
      b.coords().set(k, w);
    }
  for (const auto &item : a)
    if (rng.chance(5, 6)) {
      Spec s;
      s.small = 5;
      s.unit = item.unit();
      DataArray x(rand_var(rng, type, shuffled(rng, dims), s));
      for (const auto *k : {"m0", "m2"})
        if (rng.chance(1, 4))
          x.masks().set(k, copy(rand_var(rng, dtype<bool>, sub_dims(rng, dims), {false, false, false, units::none})));
      b.setData(item.name(), x);
    }
  if (rng.chance(1, 5))
    b.setData("other", rand_var(rng, type, dims, {}));
  return b;
}
void check_items(const std::string &what, const Dataset &got, const std::map<std::string, DataArray> &want) {
  CHECK("items", size_t(got.size()) == want.size(), what << ": " << got.size() << " items instead of " << want.size());
  CoordMap all;
  for (const auto &[name, w] : want)
    for (const auto &[k, v] : w.coords())
      all.emplace(k, v);
  check_coords(what, "coord", to_map(got.coords()), all);
  for (const auto &[name, w] : want) {
    CHECK("items", got.contains(name), what << ": item " << name << " missing");
    const auto g = got[name];
    CHECK("item data", canon(g.data()) == canon(w.data()), what << ": item " << name << ": " << diff(canon(g.data()), canon(w.data())));
    check_coords(what + " item " + name, "item coord", to_map(g.coords()), to_map(w.coords()), false);
    check_masks(what + " item " + name, g.masks(), to_map(w.masks()), {});
  }
}
} // namespace

SUITE(datasets) {
  const auto dims = rand_dims(rng, 2, 3, 1);
  const auto type = rand_type(rng, false);
  const auto a = rand_items(rng, dims, type);
  const int op = int(rng.in(0, 3)), kind = int(rng.in(0, 4));
  const auto calc = [&](const auto &x, const auto &y) { return op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y; };
  const auto db = partner(rng, a, type);
  const auto &pick = *a.begin();
  const auto ab = maybe_slice(rng, rng.chance(1, 4) ? DataArray(pick) : partner(rng, DataArray(pick), type, rng.chance(1, 2)));
  const auto vb = rng.chance(1, 4) ? ab.data() : copy(ab.data());
  const auto text = [&] { return full(a) + (kind == 0 ? full(db) : full(ab)) + full(vb); };
  const auto before = text();
  const auto what = "operation " + std::to_string(op) + " kind " + std::to_string(kind) + " of " + brief(full(a)) + " and " + brief(kind == 0 ? full(db) : full(ab));
  std::map<std::string, DataArray> want;
  bool failed = false;
  std::string item_error;
  for (const auto &item : a) {
    DataArray w;
    if (kind == 0 && !db.contains(item.name()))
      continue;
    const auto e = err([&] {
      switch (kind) {
      case 0: w = calc(item, db[item.name()]); break;
      case 1: w = calc(item, ab); break;
      case 2: w = calc(ab, item); break;
      case 3: w = calc(item, vb); break;
      default: w = calc(vb, item);
      }
    });
    failed = failed || !e.empty();
    if (!e.empty())
      item_error = e;
    want[item.name()] = w;
  }
  Dataset got;
  const auto e = err([&] {
    switch (kind) {
    case 0: got = calc(a, db); break;
    case 1: got = calc(a, ab); break;
    case 2: got = calc(ab, a); break;
    case 3: got = calc(a, vb); break;
    default: got = calc(vb, a);
    }
  });
  CHECK("operand changed", text() == before, what << ": " << diff(text(), before));
  if (failed)
    CHECK("item refused but not dataset", !e.empty(), what << ": item error " << item_error);
  if (!e.empty()) {
    // items whose results do not fit together
    bool together = true;
    if (!failed) {
      Sizes sizes;
      for (const auto &[name, w] : want)
        for (const auto &l : w.dims().labels())
          together = together && want.begin()->second.dims().contains(l);
    }
    CHECK("refused", failed || !together, what << " gave " << e);
    obs("dataset operations refused");
    nontrivial("refused " + e);
    return;
  }
  check_items(what, got, want);
  for (auto item : got)
    flip_masks(item);
  CHECK("result shares masks", text() == before, what << ": " << diff(text(), before));
  obs("dataset operations");
  nontrivial("dataset " + std::to_string(op) + std::to_string(kind) + std::to_string(want.size()) + std::to_string(got.coords().size()));
}

SUITE(datasets_in_place) {
  const auto dims = rand_dims(rng, 2, 3, 1);
  const auto type = rand_type(rng, false);
  auto a = rand_items(rng, dims, type);
  const int op = int(rng.in(0, 2)), kind = int(rng.in(0, 2));
  const auto calc = [&](auto &x, const auto &y) { op == 0 ? x += y : op == 1 ? x -= y : x *= y; };
  auto db = partner(rng, a, type);
  if (db.contains("other") && rng.chance(3, 4))
    db.erase("other");
  const auto &pick = *a.begin();
  const auto ab = maybe_slice(rng, partner(rng, copy(pick), type, true));
  const auto before_b = kind == 0 ? full(db) : full(ab);
  const auto before = full(a);
  const auto what = "in-place operation " + std::to_string(op) + " kind " + std::to_string(kind) + " of " + brief(before) + " and " + brief(before_b);
  std::map<std::string, DataArray> want;
  bool failed = false;
  std::string item_error;
  for (const auto &item : a) {
    auto w = copy(item);
    const auto e = err([&] {
      if (kind == 0) {
        if (db.contains(item.name()))
          calc(w, db[item.name()]);
      } else if (kind == 1)
        calc(w, ab);
      else
        calc(w, ab.data());
    });
    failed = failed || !e.empty();
    if (!e.empty())
      item_error = e;
    want[item.name()] = w;
  }
  if (kind == 0 && db.contains("other")) {
    failed = true;
    item_error = "unknown item";
  }
  const auto e = err([&] {
    if (kind == 0)
      calc(a, db);
    else if (kind == 1)
      calc(a, ab);
    else
      calc(a, ab.data());
  });
  CHECK("operand changed", (kind == 0 ? full(db) : full(ab)) == before_b, what);
  CHECK("refused", e.empty() == !failed, what << " gave '" << e << "' but items '" << item_error << "'");
  if (!e.empty()) {
    CHECK("rejected but changed", full(a) == before, what << " was refused with " << e << " but changed the target: " << diff(full(a), before));
    obs("dataset operations refused");
    nontrivial("refused " + e);
    return;
  }
  for (const auto &[name, w] : want)
    CHECK("item", canon(a[name]) == canon(w), what << ": item " << name << ": " << diff(canon(a[name]), canon(w)));
  obs("in-place dataset operations");
  nontrivial("dataset in place " + std::to_string(op) + std::to_string(kind) + std::to_string(want.size()));
}

// other operations: no operand changes
#include "scipp/dataset/astype.h"
#include "scipp/dataset/bins.h"
#include "scipp/dataset/bin.h"
#include "scipp/dataset/extract.h"
#include "scipp/dataset/groupby.h"
#include "scipp/dataset/histogram.h"
#include "scipp/dataset/mean.h"
#include "scipp/dataset/nanmean.h"
#include "scipp/dataset/rebin.h"
#include "scipp/dataset/generated_reduction.h"
#include "scipp/dataset/shape.h"
#include "scipp/dataset/slice.h"
#include "scipp/dataset/sort.h"
#include "scipp/dataset/to_unit.h"
SUITE(others) {
  const auto dims = rand_dims(rng, 2, 3, 1);
  ArraySpec s;
  s.type = rng.pick({dtype<double>, dtype<double>, dtype<float>, dtype<int64_t>, dtype<bool>});
  s.data.variances = floating(s.type) && rng.chance(1, 4);
  s.data.small = 5;
  s.binned = floating(s.type) && rng.chance(1, 4);
  s.order = int(rng.pick({0, 1, -1}));
  if (s.type == dtype<bool>)
    s.data.unit = units::none;
  const auto a = rand_array(rng, dims, s, "a");
  auto b = rng.chance(1, 2) ? copy(a) : rand_array(rng, dims, s, "b");
  const auto ls = label_list(dims);
  if (ls.empty())
    return;
  const auto d = ls[size_t(rng.in(0, int64_t(ls.size()) - 1))];
  ArraySpec edge;
  edge.order = s.order ? s.order : 1;
  const auto edges = rand_coord(rng, d, rng.in(2, 5), edge, units::m);
  const auto condition = rand_var(rng, dtype<bool>, Dimensions(d, dims[d]), {false, false, false, units::none});
  Dataset ds({}, a.coords());
  ds.setData("a", a);
  if (rng.chance(1, 2))
{
    DataArray x(b.data());
    for (const auto &[k, m] : b.masks())
      x.masks().set(k, m);
    ds.setData("b", x);
  }
  struct Other {
    std::string name;
    std::function<std::vector<DataArray>()> run;
    bool own_masks = false; // the result's masks are its own
  };
  const auto one = [](DataArray x) { return std::vector<DataArray>{std::move(x)}; };
  const auto all = [](const Dataset &x) { return std::vector<DataArray>(x.begin(), x.end()); };
  const std::vector<Other> others{
      {"sum", [&] { return one(sum(a, d)); }, true},
      {"nansum", [&] { return one(nansum(a, d)); }, true},
      {"mean", [&] { return one(mean(a, d)); }, true},
      {"nanmean", [&] { return one(nanmean(a, d)); }, true},
      {"min", [&] { return one(min(a, d)); }, true},
      {"max", [&] { return one(max(a, d)); }, true},
      {"any", [&] { return one(any(a, d)); }, true},
      {"all", [&] { return one(scipp::dataset::all(a, d)); }, true},
      {"sum of all", [&] { return one(sum(a)); }, true},
      {"concat", [&] { return one(concat(std::vector{a, b}, d)); }, true},
      {"concat along new", [&] { return one(concat(std::vector{a, b}, Dim("verif-new"))); }, true},
      {"sort", [&] { return one(sort(a, d)); }, false},
      {"groupby sum", [&] { return one(groupby(a, d).sum(d)); }, false},
      {"groupby mean", [&] { return one(groupby(a, d).mean(d)); }, false},
      {"groupby concat", [&] { return one(groupby(a, d).concat(d)); }, false},
      {"rebin", [&] { return one(rebin(a, d, edges)); }, true},
      {"histogram", [&] { return one(histogram(a, edges)); }, false},
      {"bin", [&] { return one(bin(a, {edges})); }, false},
      {"extract", [&] { return one(extract(a, condition)); }, false},
      {"transpose", [&] { return one(transpose(a)); }, false},
      {"flatten", [&] { return one(flatten(a, ls, Dim("verif-flat"))); }, false},
      {"fold", [&] { return one(fold(a, d, Dimensions({Dim("verif-f"), Dim("verif-g")}, {dims[d], 1}))); }, false},
      {"squeeze", [&] { return one(squeeze(a, std::nullopt)); }, false},
      {"to_unit", [&] { return one(to_unit(a, units::one)); }, false},
      {"astype", [&] { return one(astype(a, dtype<double>, CopyPolicy::TryAvoid)); }, false},
      {"copy", [&] { return one(copy(a)); }, true},
      {"rename", [&] { return one(a.rename_dims({{d, Dim("verif-r")}})); }, false},
      {"slice", [&] { return one(a.slice({d, 0, dims[d]})); }, false},
      {"point slice", [&] { return one(a.slice({d, 0})); }, false},
      {"dataset sum", [&] { return all(sum(ds, d)); }, true},
      {"dataset mean", [&] { return all(mean(ds, d)); }, true},
      {"dataset slice", [&] { return all(ds.slice({d, 0})); }, false},
      {"dataset sort", [&] { return all(sort(ds, d)); }, false},
      {"dataset rebin", [&] { return all(rebin(ds, d, edges)); }, true},
      {"dataset concat", [&] { return all(concat(std::vector{ds, ds}, d)); }, true},
      {"dataset copy", [&] { return all(copy(ds)); }, true},
      {"dataset rename", [&] { return all(ds.rename_dims({{d, Dim("verif-r")}})); }, false},
      {"dataset merge", [&] { return all(merge(ds, ds)); }, false},
      {"meta", [&] { (void)a.meta(); return one(a.view()); }, false},
      {"to_string", [&] { (void)to_string(a); (void)to_string(ds); return one(copy(a)); }, true},
      {"comparison", [&] { (void)(a == b); (void)equals_nan(a, b); return one(copy(a)); }, true}};
  const auto &o = others[size_t(rng.in(0, int64_t(others.size()) - 1))];
  const auto text = [&] { return full(a) + full(b) + full(ds) + full(edges) + full(condition); };
  const auto before = text();
  std::vector<DataArray> r;
  const auto e = err([&] { r = o.run(); });
  CHECK("operand changed", text() == before, o.name << " along " << d.name() << " changed an operand: " << diff(text(), before));
  if (!e.empty()) {
    obs("other operations refused");
    return;
  }
  if (o.own_masks) {
    for (const auto &x : r)
      flip_masks(x);
    CHECK("result shares masks", text() == before, o.name << " along " << d.name() << ": changing masks of the result changed an operand: " << diff(text(), before));
    obs("masks of results changed");
  }
  for (auto &x : r) {
    auto own = DataArray(x);
    clear_parts(own);
  }
  CHECK("operand changed", text() == before, o.name << ": " << diff(text(), before));
  obs("other operations");
  nontrivial(o.name + header(a.data()));
}

SUITE(merging) {
  const auto dims = rand_dims(rng, 2, 2, 1);
  const auto a = rand_items(rng, dims, dtype<double>);
  auto b = rng.chance(1, 3) ? copy(a) : partner(rng, a, dtype<double>);
  const std::vector<const Dataset *> both{&a, &b};
  std::vector<std::string> names(a.keys_begin(), a.keys_end());
  for (const auto &n : names)
    if (b.contains(n) && rng.chance(1, 2)) {
      if (rng.chance(1, 2))
        b.erase(n);
      else if (b.sizes() == a.sizes())
        {
        DataArray x(a[n].data());
        for (const auto &[k, m] : a[n].masks())
          x.masks().set(k, m);
        for (const auto &[k, m] : a[n].attrs())
          x.attrs().set(k, m);
        b.setData(n, x);
      }
    }
  const auto text = [&] { return full(a) + full(b); };
  const auto before = text();
  const auto r = rules(to_map(a.coords()), to_map(b.coords()));
  bool conflict = false;
  for (const auto &x : a)
    if (b.contains(x.name())) {
      const auto y = b[x.name()];
      bool eq = same(x.data(), y.data()) && x.masks().size() == y.masks().size() && x.attrs().size() == y.attrs().size() && x.coords().size() == y.coords().size();
      const auto px = parts_of(x), py = parts_of(y);
      for (const auto &[k, v] : px)
        eq = eq && py.count(k) && same(v, py.at(k)) && v.is_aligned() == py.at(k).is_aligned();
      // items with NaN in their data are not equal to anything (==)
      const auto has_nan = full(x).find("nan") != std::string::npos;
      if (eq && has_nan)
        return;
      conflict = conflict || !eq;
    }
  Dataset got;
  const auto e = err([&] { got = merge(a, b); });
  CHECK("operand changed", text() == before, "merge: " << diff(text(), before));
  const auto what = "merge of " + brief(full(a)) + " and " + brief(full(b));
  if (r.mismatch || conflict) {
    CHECK("mismatch accepted", !e.empty(), what);
    obs(conflict ? "merge refused: items differ" : "merge refused: coords differ");
    return;
  }
  if (!e.empty()) { // items that do not fit together
    CHECK("refused", a.sizes() != b.sizes(), what << " gave " << e);
    obs("merge refused: sizes");
    return;
  }
  CHECK("items", [&] {
    std::set<std::string> n(a.keys_begin(), a.keys_end());
    n.insert(b.keys_begin(), b.keys_end());
    return n.size() == size_t(got.size());
  }(), what);
  check_coords(what, "coord", to_map(got.coords()), r.coords);
  for (const auto *ds : both)
    for (const auto &x : *ds) {
      CHECK("items", got.contains(x.name()), what << ": item " << x.name() << " missing");
      const auto g = got[x.name()];
      CHECK("item data", same(g.data(), x.data()), what << ": item " << x.name());
      check_masks(what, g.masks(), to_map(x.masks()), {});
      check_coords(what, "attr", to_map(g.attrs()), to_map(x.attrs()));
    }
  obs("merges");
  nontrivial("merge" + std::to_string(got.size()) + std::to_string(got.coords().size()));
}
