// C09: sparse bin-size rows against the dense vectors they stand for.
#include "gen_num.h"
#include "scipp/core/element/bin_detail.h"
#include "scipp/core/subbin_sizes.h"
#include "vf.h"
#include <memory>

using namespace vf;
using namespace scipp;
using namespace scipp::core;
using Vec = std::vector<scipp::index>;

namespace {
constexpr int64_t domain = 40; // dense rows cover [0, domain)
struct Row {
  int64_t offset = 0;
  Vec sizes;
  int64_t at(const int64_t i) const {
    return i < offset || i >= offset + int64_t(sizes.size()) ? 0 : sizes[size_t(i - offset)];
  }
  int64_t end() const { return offset + int64_t(sizes.size()); }
};
Row random_row(Rng &rng) {
  Row r;
  r.offset = rng.in(0, 12);
  const auto n = rng.chance(1, 6) ? 0 : rng.in(0, rng.chance(1, 3) ? 20 : 5);
  for (int64_t i = 0; i < n; ++i)
    r.sizes.push_back(rng.chance(1, 40) ? rng.in(0, int64_t(1) << 40) : rng.in(-5, 9));
  return r;
}
SubbinSizes make(const Row &r) {
  Vec v(r.sizes);
  v.shrink_to_fit(); // no spare memory to hide an access past the end
  return {r.offset, std::move(v)};
}
std::string show(const Row &r) { return "offset " + std::to_string(r.offset) + ' ' + vec(r.sizes); }
Row row_of(const SubbinSizes &s) { return {s.offset(), s.sizes()}; }
// same meaning, and covering [begin, end)
void agree(const SubbinSizes &got, const std::function<int64_t(int64_t)> &want, const int64_t begin, const int64_t end, const char *key, const std::string &what) {
  const auto g = row_of(got);
  CHECK(key, g.offset >= 0, what << " gives " << show(g));
  if (begin < end)
    CHECK(key, g.offset == begin && g.end() == end, what << " should cover [" << begin << ',' << end << ") but is " << show(g));
  for (int64_t i = 0; i < domain; ++i)
    CHECK(key, g.at(i) == want(i), what << " gives " << show(g) << " where the entry for " << i << " should be " << want(i));
  obs("rows-compared");
}
} // namespace

SUITE(binary) {
  const Row a = random_row(rng);
  Row b = random_row(rng);
  if (rng.chance(1, 8))
    b = a;
  if (rng.chance(1, 6)) // touching
    b.offset = std::max<int64_t>(0, a.end());
  const auto what = show(a) + " and " + show(b);
  nontrivial(what);
  const auto x = make(a), y = make(b);
  const auto begin = std::min(a.offset, b.offset), end = std::max(a.end(), b.end());
  agree(x + y, [&](int64_t i) { return a.at(i) + b.at(i); }, begin, end, "sum", what);
  agree(x - y, [&](int64_t i) { return a.at(i) - b.at(i); }, begin, end, "difference", what);
  {
    auto z = x;
    auto &ref = (z += y);
    CHECK("returns-self", &ref == &z, what);
    agree(z, [&](int64_t i) { return a.at(i) + b.at(i); }, begin, end, "sum-in-place", what);
    auto w = x;
    w += w;
    agree(w, [&](int64_t i) { return 2 * a.at(i); }, a.offset, a.end(), "sum-with-itself", show(a));
  }
  {
    auto z = x;
    auto &ref = (z -= y);
    CHECK("returns-self", &ref == &z, what);
    agree(z, [&](int64_t i) { return a.at(i) - b.at(i); }, begin, end, "difference-in-place", what);
    auto w = x;
    w -= w;
    agree(w, [&](int64_t) { return 0; }, a.offset, a.end(), "difference-with-itself", show(a));
  }
  {
    // adds only where the target is stored
    auto z = x;
    z.add_intersection(y);
    agree(z, [&](int64_t i) { return i >= a.offset && i < a.end() ? a.at(i) + b.at(i) : 0; }, a.offset, a.end(), "intersection", what);
    auto k = x;
    k.add_intersection(k);
    agree(k, [&](int64_t i) { return 2 * a.at(i); }, a.offset, a.end(), "intersection-with-itself", show(a));
    auto v = x;
    auto yy = y;
    element::subbin_sizes_add_intersection(v, yy);
    CHECK("intersection-kernel", v == z, what);
  }
  // equality is by stored range and contents
  CHECK("equal", (x == y) == (a.offset == b.offset && a.sizes == b.sizes), what);
  // nothing happened to the operands
  CHECK("operand-kept", row_of(x).sizes == a.sizes && row_of(y).sizes == b.sizes && x.offset() == a.offset && y.offset() == b.offset, what);
}

SUITE(unary) {
  const Row a = random_row(rng);
  nontrivial(show(a));
  const auto x = make(a);
  int64_t total = 0;
  Vec before;
  for (const auto n : a.sizes) {
    before.push_back(total);
    total += n;
  }
  CHECK("total", x.sum() == total, show(a) << " sums to " << x.sum());
  const auto c = x.cumsum_exclusive();
  CHECK("cumulative", c.offset() == a.offset && c.sizes() == before, show(a) << " accumulates to " << show(row_of(c)));
  const auto value = rng.in(-3, 9);
  auto z = x;
  z = value;
  CHECK("assign", z.offset() == a.offset && z.sizes() == Vec(a.sizes.size(), value), show(a) << " assigned " << value);
  bool refused = false;
  try {
    SubbinSizes bad(-rng.in(1, 5), Vec{1});
  } catch (const std::logic_error &) {
    refused = true;
  }
  CHECK("negative-offset-refused", refused, "");
  CHECK("default", SubbinSizes().offset() == 0 && SubbinSizes().sizes().empty() && SubbinSizes().sum() == 0, "");
}

// Scanning rows: every row receives, over its own range, the sum of all rows
// before it that reached every range in between (the accumulator is trimmed to
// each row).
SUITE(scan) {
  const auto n = rng.in(1, 8);
  SubbinSizes accumulator;
  Row acc; // dense accumulator with its stored range
  bool monotonic = rng.chance(2, 3);
  int64_t at = 0;
  std::string what;
  for (int64_t k = 0; k < n; ++k) {
    Row r = random_row(rng);
    if (monotonic) { // as produced by sorted coordinates
      r.offset = at;
      at += rng.in(0, 3);
    }
    what += show(r) + "; ";
    auto x = make(r);
    if (rng.chance(1, 2))
      element::subbin_sizes_exclusive_scan(accumulator, x);
    else
      accumulator.exclusive_scan(x);
    Row next;
    next.offset = r.offset;
    for (int64_t i = r.offset; i < r.end(); ++i)
      next.sizes.push_back(acc.at(i) + r.at(i));
    agree(x, [&](int64_t i) { return i >= r.offset && i < r.end() ? acc.at(i) : 0; }, r.offset, r.end(), "scan-row", what);
    CHECK("scan-row-range", x.offset() == r.offset && int64_t(x.sizes().size()) == int64_t(r.sizes.size()), what);
    agree(accumulator, [&](int64_t i) { return next.at(i); }, next.offset, next.end(), "scan-accumulator", what);
    acc = next;
    obs("scan-steps");
  }
  nontrivial(what);
}

namespace {
template <class C, class E> void edges_case(Rng &rng) {
  const auto n = rng.in(2, 9);
  std::vector<E> raw;
  double v = double(rng.in(-6, 6));
  for (int64_t i = 0; i < n; ++i) {
    raw.push_back(E(v));
    v += double(rng.in(rng.chance(1, 4) ? 0 : 1, 3)) / (std::is_integral_v<E> ? 1 : 2);
  }
  // exactly sized so that reading beyond is seen
  std::unique_ptr<E[]> edges(new E[size_t(n)]);
  std::copy(raw.begin(), raw.end(), edges.get());
  const scipp::span<const E> span(edges.get(), size_t(n));
  std::vector<C> coords;
  const auto m = rng.in(1, 12);
  C c = C(rng.in(-9, 0));
  for (int64_t i = 0; i < m; ++i) {
    coords.push_back(c);
    c = C(c + C(rng.in(0, 3)));
  }
  nontrivial("edges " + vec(raw) + " coords " + vec(coords));
  scipp::index bin_begin = 0, bin_end = 0;
  for (const auto x : coords) {
    scipp::index begin = -1, end = -1;
    element::begin_edge(bin_begin, begin, x, span);
    element::end_edge(bin_end, end, x, span);
    int64_t le = 0, lt = 0; // edges beyond the first that are <= x, < x
    for (int64_t k = 1; k < n; ++k) {
      le += double(raw[size_t(k)]) <= double(x);
      lt += double(raw[size_t(k)]) < double(x);
    }
    CHECK("begin-edge", begin == std::min(le, n - 2), "edges " << vec(raw) << " coordinate " << x << " begins at " << begin);
    CHECK("end-edge", end == std::min(lt, n - 2) + 2, "edges " << vec(raw) << " coordinate " << x << " ends at " << end);
    obs("edges-located");
  }
}
} // namespace
// Output-bin ranges of sorted input-bin boundaries.
SUITE(edge_ranges) {
  edges_case<double, double>(rng);
  edges_case<float, double>(rng);
  edges_case<int32_t, int64_t>(rng);
  edges_case<int64_t, float>(rng);
  edges_case<double, int32_t>(rng);
}
