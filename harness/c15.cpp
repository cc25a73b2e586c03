// C15: reshaping and joining only move elements.  Oracle: for every position
// of a result the element of the input that the definition names, read from
// raw memory; joining the pieces of a split restores the whole.
#include "parts.h"
#include "scipp/dataset/shape.h"
#include "scipp/variable/cumulative.h"
#include "scipp/variable/shape.h"

using namespace vf;

namespace {
// every position of out holds the element of in at map(position)
template <class F> void check_gather(const Variable &out, const Variable &in, F &&map, const std::string &what) {
  CHECK("header", header(out) == header(in), what << " changed type or unit to " << header(out) << " from " << header(in));
  each_index(out.dims(), [&](const IndexMap &at) {
    const auto from = map(at);
    CHECK("element", text_of(out, at) == text_of(in, from), what << " at " << show(at) << " has " << text_of(out, at) << " but input " << show(from) << " has " << text_of(in, from));
    obs("elements-compared");
  });
}
// split an index along `to` into several, and back
int64_t joined_index(const IndexMap &at, const Dimensions &to) {
  int64_t i = 0;
  for (const auto &l : to.labels())
    i = i * to[l] + get(at, l);
  return i;
}
void split_index(IndexMap &at, int64_t i, const Dimensions &to) {
  IndexMap rev;
  for (auto k = to.ndim() - 1; k >= 0; --k) {
    const auto l = to.labels()[size_t(k)];
    rev.emplace_back(l, i % to[l]);
    i /= to[l];
  }
  for (auto it = rev.rbegin(); it != rev.rend(); ++it)
    at.push_back(*it);
}
// a random factorisation of n into 1-3 new labels
Dimensions factors(Rng &rng, int64_t n) {
  Dimensions out;
  const auto parts = rng.in(1, 3);
  std::vector<int64_t> f;
  for (int64_t i = 0; i + 1 < parts; ++i) {
    std::vector<int64_t> d;
    for (int64_t k = 1; k <= std::max<int64_t>(n, 1); ++k)
      if (n % k == 0 && (n > 0 || k < 3))
        d.push_back(k);
    const auto k = rng.pick(d);
    f.push_back(k);
    n = n == 0 ? 0 : n / k;
  }
  f.push_back(n);
  rng.shuffle(f);
  for (size_t i = 0; i < f.size(); ++i)
    out.addInner(Dim("f" + std::to_string(i)), f[i]);
  return out;
}
Variable rand_any(Rng &rng, const Dimensions &dims) {
  Spec s;
  const auto type = rand_dtype(rng);
  s.variances = (type == dtype<double> || type == dtype<float>) && rng.chance(1, 3);
  s.specials = rng.chance(1, 4);
  s.unit = rng.pick({units::one, units::m, units::none});
  if (rng.chance(1, 3)) {
    if (rng.chance(1, 2)) {
      ArraySpec a;
      a.type = rand_basic(rng);
      if (a.type == dtype<time_point>)
        a.data.unit = units::ns;
      return rand_table_bins(rng, dims, a);
    }
    return rand_bins(rng, rand_basic(rng), dims, {});
  }
  return rand_var(rng, type, dims, s);
}
} // namespace

SUITE(variables) {
  const auto dims = rand_dims(rng, 4, 6);
  const auto v = rand_any(rng, dims);
  const auto before = full(v);
  const auto labels = label_list(dims);
  std::string what = brief(before) + " strides " + vec(std::vector<int64_t>(v.strides().begin(), v.strides().end()));
  switch (rng.in(0, 5)) {
  case 0: { // fold, and flatten back
    if (dims.empty())
      return;
    const auto d = rng.pick(labels);
    const auto to = factors(rng, dims[d]);
    what = "fold " + d.name() + " into " + show(to) + ' ' + what;
    const auto out = fold(v, d, to);
    Dimensions expected;
    for (const auto &l : labels)
      if (l == d)
        for (const auto &t : to.labels())
          expected.addInner(t, to[t]);
      else
        expected.addInner(l, dims[l]);
    CHECK("dims", out.dims() == expected, what << " gave " << show(out.dims()));
    check_gather(out, v, [&](const IndexMap &at) {
      auto from = sub(at, dims);
      from.emplace_back(d, joined_index(at, to));
      return from;
    }, what);
    const auto back = flatten(out, label_list(to), d);
    CHECK("roundtrip", full(back) == before, "flatten after " << what << ' ' << diff(full(back), before));
    // not fitting
    auto wrong = to;
    wrong.resize(wrong.inner(), wrong[wrong.inner()] + rng.in(1, 2));
    if (wrong.volume() != dims[d]) {
      CHECK("refusal", error_of([&] { return void(fold(v, d, wrong)); }).has_value(), what << " accepted " << show(wrong));
      obs("refused");
    }
    CHECK("refusal", error_of([&] { return void(fold(v, Dim("verif-missing"), to)); }).has_value(), what << " accepted a missing label");
    obs("fold");
    break;
  }
  case 1: { // flatten, and fold back
    if (dims.empty())
      return;
    const auto from = size_t(rng.in(0, dims.ndim() - 1)), n = size_t(rng.in(1, dims.ndim() - int64_t(from)));
    std::vector<Dim> group(labels.begin() + int64_t(from), labels.begin() + int64_t(from + n));
    Dimensions to;
    for (const auto &l : group)
      to.addInner(l, dims[l]);
    const auto name = rng.chance(1, 3) ? rng.pick(group) : Dim("flat");
    what = "flatten " + show(to) + " to " + name.name() + ' ' + what;
    const auto out = flatten(v, group, name);
    Dimensions expected;
    for (size_t i = 0; i < labels.size(); ++i)
      if (i == from)
        expected.addInner(name, to.volume());
      else if (i < from || i >= from + n)
        expected.addInner(labels[i], dims[labels[i]]);
    CHECK("dims", out.dims() == expected, what << " gave " << show(out.dims()));
    check_gather(out, v, [&](const IndexMap &at) {
      IndexMap f;
      for (const auto &p : at)
        if (p.first == name)
          split_index(f, p.second, to);
        else
          f.push_back(p);
      return f;
    }, what);
    if (to.volume() > 0) {
      const auto back = fold(out, name, to);
      CHECK("roundtrip", full(back) == before, "fold after " << what << ' ' << diff(full(back), before));
    }
    if (group.size() > 1) {
      auto wrong = group;
      std::swap(wrong.front(), wrong.back());
      CHECK("refusal", error_of([&] { return void(flatten(v, wrong, name)); }).has_value(), what << " accepted the wrong order");
      obs("refused");
    }
    obs("flatten");
    break;
  }
  case 2: { // transpose
    auto order = labels;
    const bool reverse = rng.chance(1, 4);
    if (reverse)
      std::reverse(order.begin(), order.end());
    else
      rng.shuffle(order);
    what = "transpose " + what;
    const auto out = reverse ? transpose(v) : transpose(v, order);
    if (!reverse || !order.empty()) {
      CHECK("dims", label_list(out.dims()) == order, what << " gave " << show(out.dims()));
      check_gather(out, v, [&](const IndexMap &at) { return at; }, what);
      const auto back = transpose(out, labels);
      CHECK("roundtrip", labels.empty() || full(back) == before, "transpose after " << what);
    }
    if (labels.size() > 1) {
      auto wrong = order;
      wrong.pop_back();
      CHECK("refusal", error_of([&] { return void(transpose(v, wrong)); }).has_value(), what << " accepted too few labels");
      wrong.push_back(rng.chance(1, 2) ? Dim("verif-missing") : wrong.front());
      CHECK("refusal", error_of([&] { return void(transpose(v, wrong)); }).has_value(), what << " accepted wrong labels");
      obs("refused");
    }
    obs("transpose");
    break;
  }
  case 3: { // squeeze
    std::vector<Dim> ones, others;
    for (const auto &l : labels)
      (dims[l] == 1 ? ones : others).push_back(l);
    what = "squeeze " + what;
    std::vector<Dim> chosen = ones;
    rng.shuffle(chosen);
    if (!chosen.empty() && rng.chance(1, 2))
      chosen.resize(size_t(rng.in(1, int64_t(chosen.size()))));
    const bool all = chosen.size() == ones.size() && rng.chance(1, 2);
    const auto out = all ? squeeze(v, std::nullopt) : squeeze(v, std::optional<scipp::span<const Dim>>(chosen));
    Dimensions expected;
    for (const auto &l : labels)
      if (std::find(chosen.begin(), chosen.end(), l) == chosen.end())
        expected.addInner(l, dims[l]);
    CHECK("dims", out.dims() == expected, what << " gave " << show(out.dims()));
    check_gather(out, v, [&](IndexMap at) {
      for (const auto &l : chosen)
        at.emplace_back(l, 0);
      return at;
    }, what);
    if (!others.empty()) {
      const std::vector<Dim> wrong{rng.pick(others)};
      CHECK("refusal", error_of([&] { return void(squeeze(v, std::optional<scipp::span<const Dim>>(wrong))); }).has_value(), what << " accepted length " << dims[wrong[0]]);
      obs("refused");
    }
    obs("squeeze");
    break;
  }
  case 4: { // broadcast
    Dimensions to;
    for (const auto &l : label_list(shuffled(rng, dims))) {
      to.addInner(l, dims[l]);
      if (rng.chance(1, 3) && !to.contains(Dim("extra")))
        to.addInner(Dim("extra"), rng.in(0, 3));
    }
    if (!to.contains(Dim("extra")) && rng.chance(1, 2))
      to.addInner(Dim("extra"), rng.in(1, 3));
    what = "broadcast to " + show(to) + ' ' + what;
    const auto out = broadcast(v, to);
    CHECK("dims", out.dims() == to, what << " gave " << show(out.dims()));
    check_gather(out, v, [&](const IndexMap &at) { return sub(at, dims); }, what);
    if (!dims.empty()) {
      auto wrong = to;
      const auto d = rng.pick(labels);
      if (rng.chance(1, 2))
        wrong.resize(d, wrong[d] + 1);
      else
        wrong.erase(d);
      CHECK("refusal", error_of([&] { return void(broadcast(v, wrong)); }).has_value(), what << " accepted " << show(wrong));
      obs("refused");
    }
    obs("broadcast");
    break;
  }
  default: { // a chain of slices of everything above
    auto out = v;
    std::vector<std::pair<Dim, int64_t>> points;
    std::map<Dim, std::pair<int64_t, int64_t>> ranges; // offset, step
    for (int i = 0; i < 4 && !out.dims().empty(); ++i) {
      const auto ls = label_list(out.dims());
      const auto d = rng.pick(ls);
      const auto n = out.dims()[d];
      auto &[off, step] = ranges.try_emplace(d, 0, 1).first->second;
      if (n > 0 && rng.chance(1, 3)) {
        const auto p = rng.in(0, n - 1);
        points.emplace_back(d, off + p * step);
        out = out.slice({d, p});
      } else {
        const auto b = rng.in(0, n), e = rng.in(b, n), st = rng.chance(1, 2) ? 1 : rng.in(1, 3);
        out = st == 1 ? out.slice({d, b, e}) : out.slice({d, b, e, st});
        CHECK("dims", out.dims()[d] == (e - b + st - 1) / st, what << " slice gave " << show(out.dims()));
        off += b * step;
        step *= st;
      }
    }
    check_gather(out, v, [&](const IndexMap &at) {
      IndexMap f;
      for (const auto &[d, i] : at) {
        const auto it = ranges.find(d);
        f.emplace_back(d, it == ranges.end() ? i : it->second.first + i * it->second.second);
      }
      for (const auto &p : points)
        f.push_back(p);
      return f;
    }, "slices of " + what);
    obs("slices");
  }
  }
  CHECK("input-changed", full(v) == before, what);
  nontrivial(what);
}

SUITE(concat) {
  auto dims = rand_dims(rng, 3, 3);
  const auto d = vdim(6);
  const bool all_new = rng.chance(1, 4); // stacking
  if (!all_new) {
    auto ls = label_list(dims);
    ls.insert(ls.begin() + rng.in(0, int64_t(ls.size())), d);
    Dimensions w;
    for (const auto &l : ls)
      w.addInner(l, l == d ? 1 : dims[l]);
    dims = w;
  }
  const auto proto = rand_any(rng, dims);
  std::vector<Variable> in;
  std::vector<std::pair<int64_t, int64_t>> origin; // input, index along d
  const auto n = rng.in(1, 4);
  const bool some_lack = !all_new && rng.chance(1, 4);
  bool any_has = false;
  for (int64_t i = 0; i < n; ++i) {
    auto w = dims;
    const bool lacks = some_lack && rng.chance(1, 2);
    if (w.contains(d)) {
      if (lacks)
        w.erase(d);
      else
        w.resize(d, rng.in(0, 3));
    }
    any_has |= w.contains(d);
    if (rng.chance(1, 4))
      w = shuffled(rng, w);
    // same kind of elements as the prototype
    if (is_binned(proto)) {
      ArraySpec a;
      const auto like = rand_bins(rng, dtype<double>, w, {});
      const auto &[indices, dim, buffer] = like.constituents<Variable>();
      const auto size = buffer.dims()[dim];
      if (proto.dtype() == dtype<core::bucket<Variable>>) {
        const auto &pb = proto.bin_buffer<Variable>();
        Spec s;
        s.unit = pb.unit();
        in.push_back(variable::make_bins_no_validate(indices, dim, rand_var(rng, pb.dtype(), Dimensions(dim, size), s)));
      } else {
        const auto &pb = proto.bin_buffer<DataArray>();
        Spec s;
        s.unit = pb.unit();
        DataArray t(rand_var(rng, pb.dtype(), Dimensions(dim, size), s));
        for (const auto &[k, c] : pb.coords()) {
          s.unit = c.unit();
          t.coords().set(k, rand_var(rng, c.dtype(), Dimensions(dim, size), s));
        }
        for (const auto &[k, c] : pb.masks()) {
          s.unit = c.unit();
          t.masks().set(k, rand_var(rng, c.dtype(), Dimensions(dim, size), s));
        }
        in.push_back(dataset::make_bins_no_validate(indices, dim, t));
      }
    } else {
      Spec s;
      s.unit = proto.unit();
      s.variances = proto.has_variances();
      in.push_back(rand_var(rng, proto.dtype(), w, s));
    }
    const auto len = w.contains(d) ? w[d] : 1;
    for (int64_t k = 0; k < len; ++k)
      origin.emplace_back(i, k);
  }
  std::string what = "concat along " + d.name();
  std::vector<std::string> before;
  for (const auto &v : in) {
    before.push_back(full(v));
    what += " | " + brief(before.back());
  }
  // an input that does not fit
  if (rng.chance(1, 4)) {
    auto bad = in;
    auto &b = bad[size_t(rng.in(0, n - 1))];
    const auto kind = rng.in(0, 2);
    if (n < 2)
      return;
    if (kind == 0) {
      auto ls = label_list(b.dims());
      ls.erase(std::remove(ls.begin(), ls.end(), d), ls.end());
      if (ls.empty())
        return;
      const auto l = rng.pick(ls);
      if (b.dims()[l] == 0 || b.dims().volume() == 0)
        return;
      b = b.slice({l, 0, b.dims()[l] - 1});
    } else if (kind == 1) {
      if (is_binned(b))
        return;
      b = copy(b);
      b.setUnit(units::Unit("kg"));
    } else {
      if (is_binned(b))
        return;
      const auto t = b.dtype() == dtype<double> ? dtype<std::string> : dtype<double>;
      Spec s;
      s.unit = b.unit();
      b = rand_var(rng, t, b.dims(), s);
    }
    const auto e = error_of([&] { return void(variable::concat(bad, d)); });
    if (kind != 1 || std::all_of(bad.begin(), bad.end(), [](const auto &x) { return x.dims().volume() > 0; })) // the unit of nothing does not matter
    CHECK("refusal", e.has_value(), what << " accepted a misfit of kind " << kind << ": " << brief(full(b)));
    obs("refused");
    return;
  }
  const auto out = variable::concat(in, d);
  auto expected = dims;
  if (expected.contains(d) && any_has)
    expected.resize(d, int64_t(origin.size()));
  else {
    if (expected.contains(d))
      expected.erase(d);
    expected.add(d, int64_t(origin.size()));
  }
  CHECK("dims", out.dims().ndim() == expected.ndim() && std::all_of(expected.labels().begin(), expected.labels().end(), [&](const auto &l) { return out.dims().contains(l) && out.dims()[l] == expected[l]; }), what << " gave " << show(out.dims()) << ", expected " << show(expected));
  CHECK("header", header(out) == header(in[0]), what << " gave " << header(out));
  each_index(out.dims(), [&](const IndexMap &at) {
    const auto [i, k] = origin[size_t(get(at, d))];
    const auto &v = in[size_t(i)];
    IndexMap from;
    for (const auto &p : at)
      if (p.first == d) {
        if (v.dims().contains(d))
          from.emplace_back(d, k);
      } else
        from.push_back(p);
    CHECK("element", text_of(out, at) == text_of(v, from), what << " at " << show(at) << " has " << text_of(out, at) << " but input " << i << ' ' << show(from) << " has " << text_of(v, from));
    obs("elements-compared");
  });
  for (size_t i = 0; i < in.size(); ++i)
    CHECK("input-changed", full(in[i]) == before[i], what);
  // splitting restores
  int64_t off = 0;
  for (const auto &v : in) {
    const bool has = v.dims().contains(d);
    const auto len = has ? v.dims()[d] : 1;
    auto piece = has ? out.slice({d, off, off + len}) : out.slice({d, off});
    piece = v.dims().empty() ? piece : transpose(piece, label_list(v.dims()));
    CHECK("roundtrip", full(piece) == full(v), what << " piece " << brief(full(piece)));
    off += len;
  }
  // the result is new memory
  if (out.dims().volume() > 0) {
    CHECK("fresh", !out.is_readonly(), what);
  }
  obs("concat");
  nontrivial(what);
}

namespace {
template <class T> void check_cumsum(Rng &rng) {
  const auto dims = rand_dims(rng, 3, 6);
  Spec s;
  s.unit = rng.pick({units::one, units::m});
  s.specials = rng.chance(1, 5);
  const auto v = rand_typed<T>(rng, dims, s);
  const auto before = full(v);
  const bool inclusive = rng.chance(1, 2);
  const auto mode = inclusive ? variable::CumSumMode::Inclusive : variable::CumSumMode::Exclusive;
  const auto compare = [&](const T got, const long double sum, const long double magnitude, const bool special, const std::string &what) {
    if constexpr (std::is_integral_v<T>) {
      CHECK("cumsum", got == sum, what << " gave " << got << ", expected " << double(sum));
    } else {
      if (!special && magnitude > (sizeof(T) == 4 ? 1e37L : 1e307L))
        return;
      const long double tol = magnitude * 200 * 0x1p-53L + std::fabs(sum) * std::numeric_limits<T>::epsilon() + (sizeof(T) == 4 ? 1e-44L : 1e-320L);
      CHECK("cumsum", std::isnan(sum) ? std::isnan(got) : std::isinf(sum) ? got == sum : std::fabs(got - sum) <= tol, what << " gave " << got << ", expected " << double(sum));
    }
    obs("sums-compared");
  };
  const auto run = [&](const std::vector<T> &values, const std::vector<T> &got, const std::string &what) {
    long double sum = 0, magnitude = 0;
    bool special = false, huge = false;
    for (size_t i = 0; i < values.size(); ++i) {
      const auto x = static_cast<long double>(values[i]);
      if (!inclusive && !huge)
        compare(got[i], sum, magnitude, special, what + " exclusive " + std::to_string(i));
      sum += x;
      special |= !std::isfinite(x);
      magnitude += std::isfinite(x) ? std::fabs(x) : 0;
      huge |= !std::is_integral_v<T> && magnitude > (sizeof(T) == 4 ? 1e37L : 1e307L);
      if (inclusive && !huge)
        compare(got[i], sum, magnitude, special, what + " inclusive " + std::to_string(i));
    }
  };
  if (rng.chance(1, 3)) { // events
    const auto b = rand_bins(rng, dtype<T>, dims, s, 8);
    const auto was = full(b);
    const auto out = variable::cumsum_bins(b, mode);
    CHECK("dims", out.dims() == dims, was);
    each_index(dims, [&](const IndexMap &at) {
      const auto in = raw_range(b, at);
      const auto ib = b.template bin_buffer<Variable>(), ob = out.template bin_buffer<Variable>();
      const auto o = raw_range(out, at);
      CHECK("bin-sizes", o.second - o.first == in.second - in.first, was);
      std::vector<T> x, y;
      for (auto i = in.first; i < in.second; ++i)
        x.push_back(raw_value<T>(ib, {{Dim("event"), i}}));
      for (auto i = o.first; i < o.second; ++i)
        y.push_back(raw_value<T>(ob, {{Dim("event"), i}}));
      run(x, y, "cumsum_bins at " + show(at) + ' ' + brief(was));
    });
    CHECK("input-changed", full(b) == was, was);
    nontrivial(was);
    return;
  }
  if (dims.empty() || rng.chance(1, 4)) {
    const auto out = variable::cumsum(v, mode);
    CHECK("dims", out.dims() == dims && out.unit() == s.unit, before);
    std::vector<T> x, y;
    each_index(dims, [&](const IndexMap &at) {
      x.push_back(raw_value<T>(v, at));
      y.push_back(raw_value<T>(out, at));
    });
    run(x, y, "cumsum of " + brief(before));
  } else {
    const auto d = rng.pick(label_list(dims));
    const auto out = variable::cumsum(v, d, mode);
    CHECK("dims", out.dims() == dims && out.unit() == s.unit, before);
    auto rest = dims;
    rest.erase(d);
    each_index(rest, [&](const IndexMap &at) {
      std::vector<T> x, y;
      for (int64_t i = 0; i < dims[d]; ++i) {
        auto p = at;
        p.emplace_back(d, i);
        x.push_back(raw_value<T>(v, p));
        y.push_back(raw_value<T>(out, p));
      }
      run(x, y, "cumsum over " + d.name() + " at " + show(at) + " of " + brief(before));
    });
  }
  CHECK("input-changed", full(v) == before, before);
  nontrivial(before);
}
} // namespace
SUITE(cumsum) {
  switch (rng.in(0, 3)) {
  case 0:
    return check_cumsum<double>(rng);
  case 1:
    return check_cumsum<float>(rng);
  case 2:
    return check_cumsum<int64_t>(rng);
  default:
    return check_cumsum<int32_t>(rng);
  }
}

namespace {
DataArray relayout(Rng &rng, const DataArray &a) {
  auto out = copy(a);
  if (!is_binned(a.data()))
    out.setData(vf::relayout(rng, a.data()));
  return out;
}
ArraySpec rand_spec(Rng &rng) {
  ArraySpec s;
  s.type = rand_numeric(rng);
  s.binned = rng.chance(1, 4);
  s.data.unit = rng.pick({units::one, units::m});
  return s;
}
} // namespace

SUITE(arrays) {
  const auto dims = rand_dims(rng, 3, 6);
  const auto a = rand_array(rng, dims, rand_spec(rng), "name");
  const auto before = full(a);
  const auto in = parts_of(a);
  const auto labels = label_list(dims);
  std::string what = brief(before);
  switch (rng.in(0, 3)) {
  case 0: { // fold
    if (dims.empty())
      return;
    const auto d = rng.pick(labels);
    const auto to = factors(rng, dims[d]);
    what = "fold " + d.name() + " into " + show(to) + ' ' + what;
    DataArray out;
    const auto e = error_of([&] { out = dataset::fold(a, d, to); });
    if (e) { // length 0 with edges: there is no first bin
      CHECK("works", dims[d] == 0, what << " failed: " << *e);
      return;
    }
    const auto parts = parts_of(out);
    CHECK("parts", parts.size() == in.size(), what << " gave " << brief(full(out)));
    for (const auto &[k, v] : in) {
      CHECK("parts", parts.count(k), what << " lost " << k);
      const auto &o = parts.at(k);
      const bool edge = has_edge(v, dims, d);
      Dimensions expected;
      for (const auto &l : v.dims().labels())
        if (l == d)
          for (const auto &t : to.labels())
            expected.addInner(t, to[t] + (edge && t == to.inner()));
        else
          expected.addInner(l, v.dims()[l]);
      CHECK("dims", o.dims() == expected, what << ' ' << k << " has dims " << show(o.dims()) << ", expected " << show(expected));
      if (edge && to.volume() == 0)
        continue;
      check_gather(o, v, [&, &v = v](const IndexMap &at) {
        if (!v.dims().contains(d))
          return at;
        auto f = sub(at, v.dims());
        f.emplace_back(d, joined_index(at, to));
        return f;
      }, what + ' ' + k);
      obs("edges-folded", edge ? 1 : 0);
    }
    CHECK("name", out.name() == a.name(), what);
    // flattening restores
    if (to.volume() > 0) {
      const auto t = label_list(to);
      const auto back = dataset::flatten(out, std::optional<scipp::span<const Dim>>(t), d);
      auto x = parts_of(back);
      for (const auto &[k, v] : in) {
        CHECK("roundtrip", x.count(k) && canon(x.at(k)) == canon(v), "flatten after " << what << ": " << k << (x.count(k) ? " is " + canon(x.at(k)) : " is gone"));
      }
    }
    obs("array-fold");
    break;
  }
  case 1: { // flatten
    if (dims.empty())
      return;
    const auto from = size_t(rng.in(0, dims.ndim() - 1)), n = size_t(rng.in(1, dims.ndim() - int64_t(from)));
    std::vector<Dim> group(labels.begin() + int64_t(from), labels.begin() + int64_t(from + n));
    Dimensions to;
    for (const auto &l : group)
      to.addInner(l, dims[l]);
    const auto name = rng.chance(1, 3) ? rng.pick(group) : Dim("flat");
    what = "flatten " + show(to) + " to " + name.name() + ' ' + what;
    const auto all = n == labels.size() && rng.chance(1, 2);
    DataArray out;
    const auto e = error_of([&] { out = dataset::flatten(a, all ? std::nullopt : std::optional<scipp::span<const Dim>>(group), name); });
    if (e) {
      // parts with the dims in another order, or edges without bins
      bool why = to.volume() == 0;
      for (const auto &[k, v] : in)
        why |= v.dims().ndim() > 1 && k != "data";
      CHECK("works", why, what << " failed: " << *e);
      obs("flatten-refused");
      obs("flatten-refused " + *e);
      return;
    }
    const auto parts = parts_of(out);
    for (const auto &[k, v] : in) {
      Dim edge = Dim::Invalid;
      for (const auto &l : group)
        if (has_edge(v, dims, l))
          edge = l;
      if (edge == Dim::Invalid) {
        CHECK("parts", parts.count(k), what << " lost " << k);
        const auto &o = parts.at(k);
        const bool depends = std::any_of(group.begin(), group.end(), [&, &v = v](const auto &l) { return v.dims().contains(l); });
        CHECK("dims", o.dims().contains(name) == (depends || (v.dims().contains(name))), what << ' ' << k << " has " << show(o.dims()));
        check_gather(o, v, [&, &v = v](const IndexMap &at) {
          IndexMap f;
          for (const auto &p : at)
            if (p.first == name && depends)
              split_index(f, p.second, to);
            else
              f.push_back(p);
          return sub(f, v.dims());
        }, what + ' ' + k);
      } else if (parts.count(k) && to.volume() > 0) {
        // joined edges: both edges of every bin are those it had
        const auto &o = parts.at(k);
        CHECK("dims", o.dims().contains(name) && o.dims()[name] == to.volume() + 1, what << ' ' << k << " has " << show(o.dims()));
        auto bins = o.dims();
        bins.resize(name, to.volume());
        each_index(bins, [&, &v = v](const IndexMap &at) {
          for (int side = 0; side < 2; ++side) {
            IndexMap f, g;
            for (const auto &p : at)
              if (p.first == name) {
                split_index(f, p.second, to);
                g.emplace_back(name, p.second + side);
              } else {
                f.push_back(p);
                g.push_back(p);
              }
            for (auto &p : f)
              if (p.first == edge)
                p.second += side;
            const auto x = text_of(o, g), y = text_of(v, sub(f, v.dims()));
            CHECK("edges", x == y, what << ' ' << k << (side ? " upper" : " lower") << " edge of " << show(at) << " is " << x << ", it was " << y);
          }
        });
        obs("edges-flattened");
      } else
        obs("edges-dropped");
    }
    obs("array-flatten");
    break;
  }
  case 2: { // transpose
    auto order = labels;
    rng.shuffle(order);
    const auto out = dataset::transpose(a, order);
    const auto parts = parts_of(out);
    CHECK("dims", order.empty() || label_list(out.dims()) == order, what);
    for (const auto &[k, v] : in)
      CHECK("parts", parts.count(k) && canon(parts.at(k)) == canon(v), "transpose " << what << ' ' << k);
    obs("array-transpose");
    break;
  }
  default: { // squeeze
    std::vector<Dim> ones;
    for (const auto &l : labels)
      if (dims[l] == 1 && rng.chance(3, 4))
        ones.push_back(l);
    const auto out = dataset::squeeze(a, std::optional<scipp::span<const Dim>>(ones));
    const auto parts = parts_of(out);
    CHECK("parts", parts.size() == in.size(), "squeeze " << what << " gave " << brief(full(out)));
    for (const auto &[k, v] : in) {
      CHECK("parts", parts.count(k), "squeeze " << what << " lost " << k);
      const auto &o = parts.at(k);
      // edges of a squeezed dimension stay, as a pair
      Dimensions expected;
      for (const auto &l : v.dims().labels())
        if (std::find(ones.begin(), ones.end(), l) == ones.end() || v.dims()[l] == 2)
          expected.addInner(l, v.dims()[l]);
      CHECK("dims", o.dims() == expected, "squeeze " << what << ' ' << k << " has " << show(o.dims()));
      check_gather(o, v, [&, &v = v](IndexMap at) {
        for (const auto &l : ones)
          if (v.dims().contains(l) && v.dims()[l] == 1)
            at.emplace_back(l, 0);
        return at;
      }, "squeeze " + what + ' ' + k);
    }
    obs("array-squeeze");
  }
  }
  CHECK("input-changed", full(a) == before, what);
  nontrivial(what);
}

namespace {
// pieces [0,c1) [c1,c2) ... of length n
std::vector<std::pair<int64_t, int64_t>> cuts(Rng &rng, const int64_t n) {
  std::vector<int64_t> c{0, n};
  for (int64_t i = rng.in(0, 3); i > 0; --i)
    c.push_back(rng.in(0, n));
  std::sort(c.begin(), c.end());
  std::vector<std::pair<int64_t, int64_t>> out;
  for (size_t i = 0; i + 1 < c.size(); ++i)
    if (c[i + 1] > c[i] || rng.chance(1, 6))
      out.emplace_back(c[i], c[i + 1]);
  if (out.empty())
    out.emplace_back(0, n);
  return out;
}
} // namespace

SUITE(concat_arrays) {
  auto dims = rand_dims(rng, 3, 5);
  if (dims.empty())
    return;
  auto s = rand_spec(rng);
  s.unaligned = false;
  const auto whole = rand_array(rng, dims, s, "");
  const auto d = rng.pick(label_list(dims));
  const bool points = rng.chance(1, 4);
  std::vector<DataArray> in;
  if (points) {
    for (int64_t i = 0; i < dims[d]; ++i)
      in.push_back(relayout(rng, whole.slice({d, i})));
  } else
    for (const auto &[b, e] : cuts(rng, dims[d]))
      in.push_back(relayout(rng, whole.slice({d, b, e})));
  if (in.empty())
    return;
  const auto what = STR("joining " << in.size() << (points ? " points" : " slices") << " along " << d.name() << " of " << brief(full(whole)));
  std::vector<std::string> before;
  for (const auto &x : in)
    before.push_back(full(x));
  bool edges = false, empty_piece = false;
  each_part(whole, [&](const std::string &, const Variable &v) { edges |= has_edge(v, dims, d); });
  for (const auto &x : in)
    empty_piece |= !points && x.dims()[d] == 0;
  DataArray out;
  const auto e = error_of([&] { out = dataset::concat(in, d); });
  for (size_t i = 0; i < in.size(); ++i)
    CHECK("input-changed", full(in[i]) == before[i], what);
  if (e && edges && (points || empty_piece)) { // edges of points, and of nothing, cannot be joined
    obs("concat-refused");
    return;
  }
  // a part with edges along d that is not "of" d is not joined either
  bool odd = false;
  for (const auto &[k, v] : whole.coords())
    odd |= has_edge(v, dims, d) && v.dims().ndim() > 1;
  if (e && odd) {
    obs("concat-refused");
    return;
  }
  CHECK("works", !e, what << " failed: " << *e);
  if (edges && (points || empty_piece)) { // pairs of edges of points become edges of nothing
    obs("concat-points-with-edges");
    return;
  }
  auto restored = out;
  if (points) // a part that is the same for all points is not repeated
    for (const auto &[k, v] : parts_of(out)) {
      const auto all = parts_of(whole);
      CHECK("parts", all.count(k), what << " gained " << k);
      if (!all.at(k).dims().contains(d) || v.dims().contains(d))
        continue;
      const auto r = variable::broadcast(v, all.at(k).dims());
      if (k.substr(0, 5) == "coord")
        restored.coords().set(Dim(k.substr(6)), r);
      else if (k.substr(0, 4) == "attr")
        restored.attrs().set(Dim(k.substr(5)), r);
      else
        restored.masks().set(k.substr(5), r);
      obs("repeated-part");
    }
  const auto got = canon(restored), expected = canon(whole);
  CHECK("roundtrip", got == expected, what << ' ' << diff(got, expected));
  obs("arrays-joined");
  if (edges)
    obs("edges-joined");
  nontrivial(what);
  if (in.size() < 2)
    return;
  // ---- one piece that differs in a part that does not depend on d
  std::vector<Dim> independent;
  for (const auto &[k, v] : in[0].coords())
    if (!v.dims().contains(d) && v.dtype() == dtype<double> && v.dims().volume() > 0 && !points)
      independent.push_back(k);
  if (!independent.empty()) {
    const auto k = rng.pick(independent);
    const auto which = size_t(rng.in(0, int64_t(in.size()) - 1));
    auto other = in;
    auto &piece = other[which];
    piece = copy(piece);
    piece.coords().set(k, piece.coords()[k] + makeVariable<double>(piece.coords()[k].unit(), Values{3.5}));
    DataArray r;
    const auto e2 = error_of([&] { r = dataset::concat(other, d); });
    if (e2) { // edges of another dim, depending on d now, are refused
      obs("concat-refused");
      return;
    }
    const auto &c = r.coords()[k];
    CHECK("broadcast-coord", c.dims().contains(d) && c.dims()[d] == dims[d], what << ": different coords " << k.name() << " gave " << show(c.dims()));
    int64_t i = 0;
    for (size_t p = 0; p < other.size(); ++p) {
      const auto x = other[p];
      const auto pc = x.coords()[k];
      for (int64_t j = 0; j < x.dims()[d]; ++j, ++i)
        each_index(pc.dims(), [&](const IndexMap &at) {
          auto f = at;
          f.emplace_back(d, i);
          CHECK("broadcast-coord", text_of(c, f) == text_of(pc, at), what << ": coord " << k.name() << " of piece " << p << " is " << text_of(c, f) << " instead of " << text_of(pc, at));
        });
    }
    obs("coords-broadcast");
  }
}

SUITE(edges) {
  // edges that do not continue cannot be joined, nor edges with points
  const auto n = rng.in(1, 5), m = rng.in(1, 5);
  const auto d = vdim(0);
  const auto seq = rand_sequence(rng, n + m + 1, 0);
  const auto make = [&](const int64_t b, const int64_t e, const bool edge, const double shift) {
    DataArray a(rand_var(rng, dtype<double>, Dimensions(d, e - b), {}));
    std::vector<double> v(seq.begin() + b, seq.begin() + e + (edge ? 1 : 0));
    for (auto &x : v)
      x += shift;
    a.coords().set(d, from_values(rng, d, v, units::m));
    return a;
  };
  const auto a = make(0, n, true, 0);
  const auto kind = rng.in(0, 2);
  const auto b = make(n, n + m, kind != 1, kind == 2 ? rng.pick({1.0, 0.001, -1.0}) : 0);
  std::vector<DataArray> in{a, b};
  const bool swapped = rng.chance(1, 3);
  if (swapped)
    std::swap(in[0], in[1]);
  const auto what = STR("joining " << brief(full(in[0])) << " and " << brief(full(in[1])));
  const auto e = error_of([&] { return void(dataset::concat(in, d)); });
  const bool fits = kind == 0 && (!swapped || seq[size_t(n + m)] == seq[0]);
  if (swapped && kind == 0 && !fits)
    CHECK("refusal", e.has_value(), what << " was accepted");
  else if (kind == 0)
    CHECK("works", !e, what << " failed: " << *e);
  else if (!swapped)
    CHECK("refusal", e.has_value(), what << " was accepted");
  obs(e ? "edges-refused" : "edges-joined");
  nontrivial(what);
}

SUITE(datasets) {
  auto dims = rand_dims(rng, 3, 4);
  if (dims.empty())
    return;
  auto s = rand_spec(rng);
  s.unaligned = false;
  s.binned = false;
  const auto d = rng.pick(label_list(dims));
  const auto whole = rand_dataset(rng, dims, s);
  const auto before = full(whole);
  const auto what = brief(before);
  if (rng.chance(1, 3)) {
    auto order = label_list(dims);
    rng.shuffle(order);
    // all items have all dims
    const auto out = dataset::transpose(whole, order);
    for (const auto &name : names(whole)) {
      const auto x = canon(DataArray(out[name])), y = canon(DataArray(whole[name]));
      CHECK("transpose", x == y, "transpose " << what << ' ' << diff(x, y));
      CHECK("dims", label_list(out[name].dims()) == order, what);
    }
    obs("dataset-transpose");
  } else {
    std::vector<Dataset> in;
    bool edges = false, odd = false, empty_piece = false;
    for (const auto &item : whole)
      each_part(item, [&](const std::string &, const Variable &v) {
        edges |= has_edge(v, dims, d);
        odd |= has_edge(v, dims, d) && v.dims().ndim() > 1;
      });
    const bool bare = rng.chance(1, 4); // coordinates only
    Dataset w = whole;
    if (bare)
      w = Dataset({}, whole.coords());
    for (const auto &[b, e] : cuts(rng, dims[d])) {
      in.push_back(copy(w.slice({d, b, e})));
      empty_piece |= b == e;
    }
    // an item that is not everywhere is dropped
    std::string gone;
    if (!bare && in.size() > 1 && rng.chance(1, 3)) {
      gone = rng.pick(names(whole));
      if (names(whole).size() > 1)
        in[size_t(rng.in(0, int64_t(in.size()) - 1))].erase(gone);
      else
        gone = "";
    }
    Dataset out({}, w.coords());
    const auto e = error_of([&] { out = dataset::concat(in, d); });
    if ((e && odd) || (edges && empty_piece)) {
      obs("concat-refused");
      return;
    }
    CHECK("works", !e, "concat of slices along " << d.name() << " of " << what << " failed: " << *e);
    for (const auto &name : names(w)) {
      if (name == gone) {
        CHECK("items", !out.contains(name), what);
        continue;
      }
      CHECK("items", out.contains(name), what << " lost " << name);
      const auto x = canon(DataArray(out[name])), y = canon(DataArray(w[name]));
      CHECK("roundtrip", x == y, "concat of slices along " << d.name() << " of " << what << ' ' << diff(x, y));
    }
    if (bare)
      for (const auto &[k, c] : w.coords()) {
        CHECK("roundtrip", out.coords().contains(k) && canon(out.coords()[k]) == canon(c), "concat of bare coords along " << d.name() << " of " << what << " coord " << k.name());
      }
    obs(bare ? "bare-datasets-joined" : "datasets-joined");
  }
  CHECK("input-changed", full(whole) == before, what);
  nontrivial(what);
}
