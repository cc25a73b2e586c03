// Stand-in for <tbb/parallel_for.h>: same interface (the part used here), but
// the partition, order, threads and delays are chosen by vtbb::control(), and
// everything is compiled with the sanitizer of the build.
#pragma once
#include "../vtbb.h"
#include <cstddef>

namespace tbb {
template <class Value> class blocked_range {
public:
  using const_iterator = Value;
  using size_type = std::size_t;
  blocked_range() = default;
  blocked_range(Value begin, Value end, size_type grainsize = 1)
      : m_begin(begin), m_end(end), m_grain(grainsize) {}
  const_iterator begin() const { return m_begin; }
  const_iterator end() const { return m_end; }
  size_type size() const { return size_type(m_end - m_begin); }
  size_type grainsize() const { return m_grain; }
  bool empty() const { return !(m_begin < m_end); }
  bool is_divisible() const { return m_grain < size(); }

private:
  Value m_begin{}, m_end{};
  size_type m_grain{1};
};

template <class Value, class Body>
void parallel_for(const blocked_range<Value> &range, const Body &body) {
  vtbb::run<Value>(range.begin(), range.end(),
                   static_cast<Value>(range.grainsize()),
                   [&](const Value a, const Value b) {
                     body(blocked_range<Value>(a, b, range.grainsize()));
                   });
}
template <class Value, class Body, class Partitioner>
void parallel_for(const blocked_range<Value> &range, const Body &body,
                  Partitioner &&) {
  parallel_for(range, body);
}
template <class Index, class Func>
void parallel_for(Index first, Index last, const Func &f) {
  vtbb::run<Index>(first, last, Index(1), [&](const Index a, const Index b) {
    for (Index i = a; i < b; ++i)
      f(i);
  });
}
} // namespace tbb
