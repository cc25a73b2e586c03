// C04: strided traversal visits exactly the addressed elements, in order.
#include "scipp/common/index_composition.h"
#include "scipp/core/element_array_view.h"
#include "scipp/core/except.h"
#include "scipp/core/multi_index.h"
#include "scipp/core/strides.h"
#include "vf.h"
#include <array>
#include <memory>

using namespace vf;
using namespace scipp;
using namespace scipp::core;
using I = scipp::index;

namespace {
const std::vector<Dim> labels{Dim("x"), Dim("y"), Dim("z"), Dim("a"), Dim("b"),
                              Dim("c"), Dim("d"), Dim("e")};

std::vector<I> random_shape(Rng &rng, const I ndim, const bool empty) {
  std::vector<I> shape;
  const I large = ndim > 0 && rng.chance(1, 12) ? rng.in(0, ndim - 1) : -1;
  for (I i = 0; i < ndim; ++i)
    shape.push_back(i == large ? rng.in(5, 40) : rng.chance(1, 4) ? 1 : rng.in(empty && rng.chance(1, 10) ? 0 : 1, ndim > 4 ? 3 : 5));
  return shape;
}
I volume(const std::vector<I> &s) {
  I v = 1;
  for (const auto x : s)
    v *= x;
  return v;
}
// strides as views of a larger row-major or transposed array get them
std::vector<I> random_strides(Rng &rng, const std::vector<I> &shape) {
  const auto n = I(shape.size());
  std::vector<I> strides(shape.size());
  std::vector<I> order;
  for (I i = 0; i < n; ++i)
    order.push_back(i);
  const auto kind = rng.in(0, 5);
  if (kind == 0 || kind == 5) // memory order differs from iteration order
    rng.shuffle(order);
  I step = kind == 1 ? rng.in(1, 3) : 1;
  for (I k = n; k > 0; --k) {
    const auto d = size_t(order[size_t(k - 1)]);
    strides[d] = step;
    I extent = std::max(shape[d], I(1));
    if (kind >= 2 && rng.chance(1, 3))
      extent += rng.in(0, 3); // slice of a longer dimension
    step *= extent;
  }
  if (kind >= 3)
    for (auto &s : strides)
      if (rng.chance(1, 4))
        s = 0; // broadcast
  if (kind == 4 && rng.chance(1, 2))
    for (auto &s : strides)
      s = rng.in(0, 9);
  return strides;
}
Dimensions make_dims(const std::vector<I> &shape, const I first = 0) {
  return Dimensions(scipp::span<const Dim>(labels.data() + first, shape.size()),
                    scipp::span<const I>(shape.data(), shape.size()));
}
Strides make_strides(const std::vector<I> &s) {
  return Strides(scipp::span<const I>(s.data(), s.size()));
}
// all multi-indices of a shape, row-major
std::vector<std::vector<I>> walk(const std::vector<I> &shape) {
  std::vector<std::vector<I>> out;
  if (volume(shape) == 0)
    return out;
  std::vector<I> i(shape.size(), 0);
  for (;;) {
    out.push_back(i);
    size_t d = shape.size();
    while (d > 0) {
      --d;
      if (++i[d] < shape[d])
        break;
      i[d] = 0;
      if (d == 0)
        return out;
    }
    if (shape.empty())
      return out;
  }
}
I dot(const std::vector<I> &a, const std::vector<I> &b) {
  I s = 0;
  for (size_t i = 0; i < a.size(); ++i)
    s += a[i] * b[i];
  return s;
}
std::string lay(const std::vector<I> &shape, const std::vector<std::vector<I>> &strides) {
  std::string s = "shape " + vec(shape);
  for (const auto &x : strides)
    s += " strides " + vec(x);
  return s;
}
// number of dimensions left after merging those contiguous for all operands
I merged_rank(const std::vector<I> &shape, const std::vector<std::vector<I>> &strides) {
  I rank = 0;
  for (I d = I(shape.size()) - 1; d >= 0; --d) {
    bool merge = d > 0 && d < I(shape.size()) - 1;
    for (const auto &s : strides)
      merge = merge && s[size_t(d)] == shape[size_t(d + 1)] * s[size_t(d + 1)];
    rank += !merge;
  }
  return rank;
}

template <size_t N, size_t... Is>
MultiIndex<I(N)> index_of(const Dimensions &dims, const std::array<Strides, N> &s, std::index_sequence<Is...>) {
  return MultiIndex<I(N)>(dims, s[Is]...);
}
template <size_t N, size_t... Is>
auto index_of(const std::vector<ElementArrayViewParams> &p, std::index_sequence<Is...>) {
  return MultiIndex<I(N)>(p[Is]...);
}
template <class It> using Tuple = std::decay_t<decltype(std::declval<It>().get())>;
template <class It> std::string show(const Tuple<It> &t) {
  std::string s = "(";
  for (const auto x : t)
    s += std::to_string(x) + " ";
  return s + ")";
}

// Walk from `it` to `end` as the element-wise kernels do, in inner chunks.
template <class It>
std::vector<Tuple<It>> chunked(It it, const It &end, Rng &rng, const bool partial, const size_t limit, const std::string &what) {
  std::vector<Tuple<It>> seen;
  const auto strides = it.inner_strides();
  while (it != end) {
    auto n = it.in_same_chunk(end, 1) ? it.inner_distance_to(end) : it.inner_distance_to_end();
    if (partial && n > 1 && rng.chance(1, 2))
      n = rng.in(1, n);
    auto at = it.get();
    for (I i = 0; i < n; ++i) {
      seen.push_back(at);
      for (size_t k = 0; k < at.size(); ++k)
        at[k] += strides[k];
    }
    CHECK("runs-away", seen.size() <= limit, what);
    it.increment_by(n != 0 ? n : 1);
    obs("chunks");
  }
  return seen;
}
template <class It>
void compare(const std::vector<Tuple<It>> &got, const std::vector<Tuple<It>> &want, const char *how, const std::string &what) {
  CHECK(std::string("traversal-length:") + how, got.size() == want.size(),
        what << ": " << got.size() << " steps, expected " << want.size());
  for (size_t i = 0; i < got.size(); ++i)
    CHECK(std::string("traversal:") + how, got[i] == want[i],
          what << ": step " << i << " addresses " << show<It>(got[i]) << ", expected " << show<It>(want[i]));
}

template <size_t N> void dense(Rng &rng) {
  const I ndim = rng.chance(1, 15) ? rng.in(7, 8) : rng.in(0, 6);
  const auto shape = random_shape(rng, ndim, true);
  std::vector<std::vector<I>> st;
  std::array<Strides, N> strides;
  for (size_t i = 0; i < N; ++i) {
    st.push_back(i > 0 && rng.chance(1, 3) ? st[0] : random_strides(rng, shape));
    strides[i] = make_strides(st.back());
  }
  const auto dims = make_dims(shape);
  const auto what = lay(shape, st);
  using It = MultiIndex<I(N)>;
  const bool fits = merged_rank(shape, st) <= NDIM_OP_MAX;
  std::unique_ptr<It> made;
  try {
    made = std::make_unique<It>(index_of<N>(dims, strides, std::make_index_sequence<N>{}));
  } catch (const std::runtime_error &) {
    CHECK("rank-refused", !fits, what);
    obs("too-many-dimensions");
    return;
  }
  CHECK("rank-accepted", fits, what);
  It base = *made;
  std::vector<Tuple<It>> want;
  for (const auto &i : walk(shape)) {
    Tuple<It> t;
    for (size_t k = 0; k < N; ++k)
      t[k] = dot(i, st[k]);
    want.push_back(t);
  }
  nontrivial(what);
  obs("dense-elements", want.size());
  const auto vol = I(want.size());
  if (vol == 0) {
    // kernels ask for the range [0, 0)
    auto a = base, b = base;
    a.set_index(0);
    b.set_index(0);
    CHECK("empty-range", a == b, what);
    return;
  }
  const auto limit = want.size() + 1;
  const auto end = base.end();
  compare<It>({base.begin().get()}, {want[0]}, "begin", what);
  {
    std::vector<Tuple<It>> seen;
    auto it = base.begin();
    while (it != end) {
      seen.push_back(it.get());
      CHECK("runs-away", seen.size() <= limit, what);
      it.increment();
    }
    compare<It>(seen, want, "increment", what);
  }
  compare<It>(chunked(base.begin(), end, rng, false, limit, what), want, "chunks", what);
  compare<It>(chunked(base.begin(), end, rng, true, limit, what), want, "partial-chunks", what);
  // absolute positions and splits
  for (int k = 0; k < 4; ++k) {
    const auto i = rng.in(0, vol);
    auto it = base;
    it.set_index(i);
    if (i < vol)
      CHECK("set_index", it.get() == want[size_t(i)], what << " index " << i << " addresses " << show<It>(it.get()) << ", expected " << show<It>(want[size_t(i)]));
    const auto j = rng.in(i, vol);
    auto to = base;
    to.set_index(j);
    compare<It>(chunked(it, to, rng, rng.chance(1, 2), limit, what),
                {want.begin() + i, want.begin() + j}, "split", what + " range " + std::to_string(i) + ".." + std::to_string(j));
    auto it2 = it;
    for (I n = i; n < j; ++n) {
      CHECK("increment-from", it2.get() == want[size_t(n)], what << " from " << i << " at " << n);
      CHECK("differs-before-end", it2 != to, what << " from " << i << " at " << n << " to " << j);
      it2.increment();
    }
    CHECK("reaches-end", it2 == to, what << " from " << i << " to " << j);
  }
  auto at_end = base;
  at_end.set_index(vol);
  CHECK("end-is-volume", at_end == end, what);
  if (!shape.empty()) {
    bool zero = false;
    // dims merged with stride 0 stay zero; length-one dims count as well
    for (size_t d = 0; d < shape.size(); ++d)
      zero = zero || (st[0][d] == 0 && shape[d] > 1);
    if (zero)
      CHECK("has_stride_zero", base.has_stride_zero(), what);
  }
}

// One binned operand: bins in a one- or two-dimensional buffer.
struct Binned {
  std::unique_ptr<std::pair<I, I>[]> indices;
  std::vector<I> outer_strides; // into indices
  std::vector<I> inner_strides; // into the buffer
};

template <size_t N> void binned(Rng &rng) {
  const I inner_ndim = rng.chance(1, 4) ? 2 : 1;
  const I ndim = rng.chance(1, 20) ? rng.in(5, 7) : rng.in(0, 4);
  auto shape = random_shape(rng, ndim, true);
  // buffer (shape shared by all binned operands except along the slice dim)
  const I slice_axis = rng.in(0, inner_ndim - 1);
  const auto vol = volume(shape);
  const auto points = walk(shape);
  std::vector<I> bin_size(points.size());
  for (auto &s : bin_size)
    s = rng.chance(1, 3) ? 0 : rng.in(0, 4);
  std::vector<I> inner_shape(size_t(inner_ndim), 0);
  const I other = rng.chance(1, 12) ? 0 : rng.in(1, 3);
  for (I d = 0; d < inner_ndim; ++d)
    inner_shape[size_t(d)] = d == slice_axis ? 0 : other;
  std::vector<ElementArrayViewParams> params;
  std::vector<Binned> ops(N);
  std::vector<bool> is_binned(N, false);
  std::vector<std::vector<I>> dense_strides(N);
  const size_t must = size_t(rng.in(0, N - 1));
  const auto dims = make_dims(shape);
  // a mismatch of bin sizes between binned operands must be refused
  bool mismatch = false;
  std::string what = "bins " + vec(shape) + " sizes " + vec(bin_size) + " inner " + std::to_string(inner_ndim) + "d axis " + std::to_string(slice_axis);
  I nbinned = 0;
  std::vector<I> ref_inner;
  for (size_t k = 0; k < N; ++k) {
    is_binned[k] = k == must || rng.chance(1, 2);
    if (!is_binned[k]) {
      dense_strides[k] = random_strides(rng, shape);
      params.emplace_back(0, dims, make_strides(dense_strides[k]), BucketParams{});
      what += " dense " + vec(dense_strides[k]);
      continue;
    }
    auto &op = ops[k];
    op.outer_strides = random_strides(rng, shape);
    for (auto &s : op.outer_strides)
      if (s == 0)
        s = 1; // indices shared by bins of different size would contradict
    // make strides injective: row-major or transposed with gaps
    {
      std::vector<I> order;
      for (I i = 0; i < ndim; ++i)
        order.push_back(i);
      if (rng.chance(1, 2))
        rng.shuffle(order);
      I step = rng.in(1, 2);
      for (I i = ndim; i > 0; --i) {
        const auto d = size_t(order[size_t(i - 1)]);
        op.outer_strides[d] = step;
        step *= std::max(shape[d], I(1)) + (rng.chance(1, 4) ? rng.in(0, 2) : 0);
      }
    }
    I top = 0;
    for (const auto &p : points)
      top = std::max(top, dot(p, op.outer_strides) + 1);
    op.indices.reset(new std::pair<I, I>[size_t(top)]);
    for (I i = 0; i < top; ++i)
      op.indices[size_t(i)] = {i * 1000, i * 1000 + rng.in(0, 5)}; // never to be read
    // place bins in the buffer, in order or permuted, with gaps
    std::vector<size_t> order;
    for (size_t i = 0; i < points.size(); ++i)
      order.push_back(i);
    if (rng.chance(1, 2))
      rng.shuffle(order);
    I at = rng.chance(1, 2) ? 0 : rng.in(0, 3);
    const bool gaps = rng.chance(1, 2);
    for (const auto i : order) {
      if (gaps)
        at += rng.in(0, 2);
      I n = bin_size[i];
      if (nbinned > 0 && rng.chance(1, 200)) {
        n += 1;
        mismatch = true;
      }
      op.indices[size_t(dot(points[i], op.outer_strides))] = {at, at + n};
      at += n;
    }
    ++nbinned;
    auto bshape = inner_shape;
    bshape[size_t(slice_axis)] = at + (gaps ? 1 : 0);
    op.inner_strides.assign(size_t(inner_ndim), 1);
    if (inner_ndim == 2)
      op.inner_strides[0] = bshape[1];
    if (rng.chance(1, 8))
      for (auto &s : op.inner_strides)
        s *= 2;
    const I first = 6; // labels d, e for the event dimensions
    BucketParams bp{labels[size_t(first + slice_axis)], make_dims(bshape, first), make_strides(op.inner_strides),
                    points.empty() && rng.chance(1, 2) ? nullptr : op.indices.get()};
    params.emplace_back(0, dims, make_strides(op.outer_strides), bp);
    what += " binned " + vec(op.outer_strides) + " buffer " + vec(bshape) + '/' + vec(op.inner_strides);
  }
  using It = MultiIndex<I(N)>;
  std::unique_ptr<It> made;
  try {
    made = std::make_unique<It>(index_of<N>(params, std::make_index_sequence<N>{}));
  } catch (const except::BinnedDataError &) {
    CHECK("bin-sizes-refused", mismatch, what);
    obs("bin-size-mismatch-refused");
    return;
  } catch (const std::runtime_error &) {
    // the event dimensions and the bin dimensions share the limit
    CHECK("rank-refused", ndim + inner_ndim > NDIM_OP_MAX, what);
    obs("too-many-dimensions");
    return;
  }
  CHECK("bin-sizes-accepted", !mismatch, what);
  It base = *made;
  CHECK("has_bins", base.has_bins(), what);
  // model
  std::vector<Tuple<It>> want;
  std::vector<size_t> starts; // first element of each bin, and the end
  for (size_t b = 0; b < points.size(); ++b) {
    starts.push_back(want.size());
    auto is = inner_shape;
    is[size_t(slice_axis)] = bin_size[b];
    for (const auto &j : walk(is)) {
      Tuple<It> t;
      for (size_t k = 0; k < N; ++k) {
        if (is_binned[k]) {
          const auto begin = ops[k].indices[size_t(dot(points[b], ops[k].outer_strides))].first;
          t[k] = dot(j, ops[k].inner_strides) + begin * ops[k].inner_strides[size_t(slice_axis)];
        } else
          t[k] = dot(points[b], dense_strides[k]);
      }
      want.push_back(t);
    }
  }
  starts.push_back(want.size());
  nontrivial(what);
  obs("bins", points.size());
  obs("binned-elements", want.size());
  if (inner_ndim == 2 && other == 0)
    obs("empty-event-rows");
  const auto limit = want.size() + 1;
  compare<It>(chunked(base.begin(), base.end(), rng, false, limit, what), want, "bins-chunks", what);
  compare<It>(chunked(base, base.end(), rng, false, limit, what), want, "bins-as-constructed", what);
  if (other > 0) {
    std::vector<Tuple<It>> seen;
    auto it = base.begin();
    const auto end = base.end();
    while (it != end) {
      seen.push_back(it.get());
      CHECK("runs-away", seen.size() <= limit, what);
      it.increment();
    }
    compare<It>(seen, want, "bins-increment", what);
    compare<It>(chunked(base.begin(), base.end(), rng, true, limit, what), want, "bins-partial-chunks", what);
  }
  for (int k = 0; k < 4; ++k) {
    const auto i = rng.in(0, vol), j = rng.in(i, vol);
    auto a = base, b = base;
    a.set_index(i);
    b.set_index(j);
    compare<It>(chunked(a, b, rng, other > 0 && rng.chance(1, 2), limit, what),
                {want.begin() + I(starts[size_t(i)]), want.begin() + I(starts[size_t(j)])}, "bins-split",
                what + " bins " + std::to_string(i) + ".." + std::to_string(j));
  }
}
} // namespace

SUITE(composition) {
  const auto ndim = rng.in(0, 6);
  const auto shape = random_shape(rng, ndim, false);
  const auto strides = random_strides(rng, shape);
  const auto what = lay(shape, {strides});
  nontrivial(what);
  // the helpers take the fastest-running dimension first
  const std::vector<I> rshape(shape.rbegin(), shape.rend());
  I flat = 0;
  I lo = 0, hi = 0;
  for (const auto &i : walk(shape)) {
    std::vector<I> got(std::max<size_t>(shape.size(), 1), -1);
    extract_indices(flat, rshape.begin(), rshape.end(), got.begin());
    if (shape.empty())
      CHECK("extract-scalar", got[0] == flat, what);
    else
      CHECK("extract_indices", std::equal(got.begin(), got.end(), i.rbegin()), what << " flat " << flat << " gives " << vec(got));
    const auto at = flat_index_from_strides(strides.begin(), strides.end(), i.begin());
    CHECK("flat_index", at == dot(i, strides), what << ' ' << vec(i) << " gives " << at);
    lo = std::min(lo, at);
    hi = std::max(hi, at);
    ++flat;
    obs("compositions");
  }
  const auto [b, e] = memory_bounds(shape.begin(), shape.end(), strides.begin());
  CHECK("memory_bounds", b <= lo && hi < e, what << " bounds " << b << ',' << e << " but elements reach " << lo << ".." << hi);
  // one past the end keeps the excess in the slowest dimension
  if (!shape.empty()) {
    std::vector<I> got(shape.size(), -1);
    extract_indices(flat, rshape.begin(), rshape.end(), got.begin());
    bool ok = got.back() == rshape.back();
    for (size_t d = 0; d + 1 < got.size(); ++d)
      ok = ok && got[d] == 0;
    CHECK("extract-end", ok, what << " gives " << vec(got));
  }
  const Strides row(make_dims(shape));
  I step = 1;
  for (I d = ndim - 1; d >= 0; --d) {
    CHECK("row-major-strides", row[d] == step, what);
    step *= shape[size_t(d)];
  }
  // transposing the strides along with the shape
  std::vector<Dim> order(labels.begin(), labels.begin() + ndim);
  rng.shuffle(order);
  const auto t = transpose(make_strides(strides), make_dims(shape), order);
  for (I d = 0; d < ndim; ++d) {
    I from = 0;
    while (labels[size_t(from)] != order[size_t(d)])
      ++from;
    CHECK("transposed-strides", t[d] == strides[size_t(from)], what << " dimension " << d);
  }
}

// iterators of a view, with real memory of exactly the addressed size
SUITE(views) {
  const I ndim = rng.chance(1, 12) ? rng.in(7, 8) : rng.in(0, 6);
  const auto shape = random_shape(rng, ndim, true);
  const auto strides = random_strides(rng, shape);
  const auto what = lay(shape, {strides});
  const I offset = rng.in(0, 3);
  std::vector<I> want;
  I top = 0;
  for (const auto &i : walk(shape)) {
    want.push_back(offset + dot(i, strides));
    top = std::max(top, want.back() + 1);
  }
  const std::unique_ptr<int64_t[]> mem(new int64_t[size_t(top)]);
  for (I i = 0; i < top; ++i)
    mem[size_t(i)] = i;
  const auto dims = make_dims(shape);
  const ElementArrayView<int64_t> view(mem.get(), offset, dims, make_strides(strides));
  const auto vol = I(want.size());
  CHECK("size", view.size() == vol, what);
  I rank = 0; // dimensions that cannot be merged with their inner neighbour
  I rewind = 0;
  for (I d = ndim - 1; d >= 0; --d) {
    rank += strides[size_t(d)] != rewind || strides[size_t(d)] == 0;
    rewind = strides[size_t(d)] * shape[size_t(d)];
  }
  if (rank > NDIM_OP_MAX) {
    bool refused = false;
    try {
      (void)(view.begin() == view.end());
    } catch (const std::runtime_error &) {
      refused = true;
    }
    CHECK("rank-accepted", refused, what);
    obs("too-many-dimensions");
    return;
  }
  nontrivial(what);
  obs("view-elements", want.size());
  CHECK("distance", view.end() - view.begin() == vol, what);
  size_t n = 0;
  for (const auto &x : view) {
    CHECK("forward-length", n < want.size(), what);
    CHECK("forward", x == want[n], what << " element " << n << " is at " << x << ", expected " << want[n]);
    ++n;
  }
  CHECK("forward-length", n == want.size(), what << " saw " << n);
  if (vol == 0)
    return;
  CHECK("front-back", view.front() == want.front() && view.back() == want.back(), what);
  auto it = view.end();
  for (I i = vol; i > 0; --i)
    CHECK("backward", *--it == want[size_t(i - 1)], what << " element " << i - 1);
  CHECK("backward-begin", it == view.begin(), what);
  // random walk
  I at = 0;
  it = view.begin();
  for (int k = 0; k < 30; ++k) {
    const auto to = rng.in(0, vol);
    switch (rng.in(0, 4)) {
    case 0:
      it += to - at;
      at = to;
      break;
    case 1:
      it = view.begin() + to;
      at = to;
      break;
    case 2:
      if (at < vol) {
        ++it;
        ++at;
      }
      break;
    case 3:
      if (at > 0) {
        it--;
        --at;
      }
      break;
    default:
      it -= at - to;
      at = to;
    }
    CHECK("position", it - view.begin() == at && view.end() - it == vol - at, what);
    CHECK("walk-end", (it == view.end()) == (at == vol), what);
    if (at < vol)
      CHECK("walk", *it == want[size_t(at)], what << " element " << at << " is at " << *it << ", expected " << want[size_t(at)]);
    if (to < vol)
      CHECK("subscript", view[to] == want[size_t(to)], what << " element " << to);
  }
  // the same memory seen with other dimensions (broadcast, reordered)
  std::vector<Dim> order(labels.begin(), labels.begin() + ndim);
  std::vector<I> oshape;
  if (ndim < 6 && rng.chance(1, 2))
    order.push_back(labels[7]);
  rng.shuffle(order);
  std::vector<I> ostrides;
  for (const auto &d : order) {
    I from = 0;
    while (from < ndim && labels[size_t(from)] != d)
      ++from;
    oshape.push_back(from == ndim ? rng.in(1, 3) : rng.chance(1, 4) ? rng.in(1, shape[size_t(from)]) : shape[size_t(from)]);
    ostrides.push_back(from == ndim ? 0 : strides[size_t(from)]);
  }
  const Dimensions odims{scipp::span<const Dim>(order.data(), order.size()),
                         scipp::span<const I>(oshape.data(), oshape.size())};
  const ElementArrayView<int64_t> again(view, odims);
  try {
    auto jt = again.begin();
    for (const auto &i : walk(oshape)) {
      CHECK("other-dims", *jt == offset + dot(i, ostrides), what << " as " << lay(oshape, {ostrides}) << " at " << vec(i));
      ++jt;
    }
    CHECK("other-dims-end", jt == again.end(), what);
    obs("re-dimensioned-views");
  } catch (const std::runtime_error &) {
    CHECK("rank-refused", oshape.size() > 6, what);
  }
  // equal contents compare equal whatever their layout
  const std::unique_ptr<int64_t[]> flat(new int64_t[size_t(vol)]);
  for (I i = 0; i < vol; ++i)
    flat[size_t(i)] = want[size_t(i)];
  const ElementArrayView<int64_t> plain(flat.get(), 0, dims, Strides(dims));
  CHECK("equal", plain == view && view == plain, what);
  const auto where = rng.in(0, vol - 1);
  flat[size_t(where)] += 1;
  CHECK("unequal", !(plain == view), what << " difference at " << where);
  // contiguous data is offered as a span, anything else is refused
  const bool contiguous = make_strides(strides) == Strides(dims);
  bool ok = true;
  try {
    const auto s = view.as_span();
    ok = I(s.size()) == vol && s[size_t(vol - 1)] == want.back();
  } catch (const std::runtime_error &) {
    ok = !contiguous;
  }
  CHECK("span", ok, what);
}

// partial overlap of two views of one buffer is never overlooked
SUITE(overlap) {
  const auto pick = [&](std::vector<I> &shape, std::vector<I> &strides, I &offset) {
    shape = random_shape(rng, rng.in(0, 3), false);
    strides = random_strides(rng, shape);
    offset = rng.in(0, 6);
  };
  std::vector<I> s1, s2, t1, t2;
  I o1, o2;
  pick(s1, t1, o1);
  if (rng.chance(1, 3)) {
    s2 = s1;
    t2 = t1;
    o2 = rng.in(0, 6);
  } else
    pick(s2, t2, o2);
  std::vector<int64_t> mem(4096);
  const ElementArrayView<int64_t> a(mem.data(), o1, make_dims(s1), make_strides(t1));
  const ElementArrayView<int64_t> b(mem.data(), o2, make_dims(s2), make_strides(t2));
  std::set<I> x, y;
  for (const auto &i : walk(s1))
    x.insert(o1 + dot(i, t1));
  bool common = false;
  for (const auto &i : walk(s2))
    common = common || x.count(o2 + dot(i, t2));
  const bool same_view = o1 == o2 && s1 == s2 && t1 == t2;
  const auto what = lay(s1, {t1}) + " at " + std::to_string(o1) + " and " + lay(s2, {t2}) + " at " + std::to_string(o2);
  if (common && !same_view) {
    obs("overlapping-views");
    nontrivial(what);
    CHECK("overlap-missed", a.overlaps(b) && b.overlaps(a), what);
  }
  if (same_view)
    CHECK("same-view", !a.overlaps(b), what);
  std::vector<int64_t> mem2(4096);
  const ElementArrayView<int64_t> c(mem2.data(), o2, make_dims(s2), make_strides(t2));
  CHECK("different-buffers", !a.overlaps(c), what);
}

SUITE(dense) {
  switch (rng.in(1, 5)) {
  case 1:
    return dense<1>(rng);
  case 2:
    return dense<2>(rng);
  case 3:
    return dense<3>(rng);
  case 4:
    return dense<4>(rng);
  default:
    return dense<5>(rng);
  }
}
SUITE(binned) {
  switch (rng.in(1, 5)) {
  case 1:
    return binned<1>(rng);
  case 2:
    return binned<2>(rng);
  case 3:
    return binned<3>(rng);
  case 4:
    return binned<4>(rng);
  default:
    return binned<5>(rng);
  }
}
