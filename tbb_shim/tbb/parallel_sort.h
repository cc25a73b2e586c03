// Stand-in for <tbb/parallel_sort.h>: an unstable sort (like the real one),
// so nothing may rely on the order of equal elements beyond what the caller's
// comparison says. In the non-serial modes the input is shuffled first.
#pragma once
#include "../vtbb.h"
#include <algorithm>
#include <functional>
#include <iterator>

namespace tbb {
template <class It, class Comp>
void parallel_sort(It begin, It end, const Comp &comp) {
  auto &c = vtbb::control();
  c.sorts.fetch_add(1, std::memory_order_relaxed);
  const auto mode = c.mode == vtbb::Mode::threads && vtbb::in_task()
                        ? vtbb::Mode::serial
                        : c.mode;
  const auto n = end - begin;
  if (mode != vtbb::Mode::serial) {
    std::lock_guard<std::mutex> lock(vtbb::control_mutex());
    for (auto i = n; i > 1; --i)
      std::iter_swap(begin + (i - 1),
                     begin + static_cast<std::ptrdiff_t>(c.next() % uint64_t(i)));
  }
  if (mode == vtbb::Mode::threads && n > 8) {
    // the comparison is called from several threads at once, as by tbb
    const It mid = begin + n / 2;
    std::exception_ptr err;
    std::thread other([&] {
      vtbb::in_task() = true;
      try {
        std::sort(begin, mid, comp);
      } catch (...) {
        err = std::current_exception();
      }
    });
    std::exception_ptr mine;
    try {
      std::sort(mid, end, comp);
    } catch (...) {
      mine = std::current_exception();
    }
    other.join();
    if (mine || err)
      std::rethrow_exception(mine ? mine : err);
    std::inplace_merge(begin, mid, end, comp);
    return;
  }
  std::sort(begin, end, comp);
}
template <class It> void parallel_sort(It begin, It end) {
  parallel_sort(begin, end, std::less<>{});
}
} // namespace tbb
