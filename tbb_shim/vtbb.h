// Controls for the stand-in of the tbb headers (see tbb/parallel_for.h here).
#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <exception>
#include <mutex>
#include <thread>
#include <vector>

namespace vtbb {
enum class Mode {
  serial,   // one chunk, calling thread
  shuffle,  // random chunks in random order, calling thread
  finest,   // smallest permitted chunks, in reverse order, calling thread
  threads   // random chunks on real threads with injected delays
};

struct Control {
  Mode mode = Mode::serial;
  uint64_t state = 0x9e3779b97f4a7c15ull;
  int nthreads = 4;
  std::atomic<uint64_t> calls{0}, chunks{0}, multi{0}, sorts{0};
  // hash over the sequence of partitions taken, i.e. distinct schedules seen
  uint64_t fingerprint = 0;
  uint64_t next() {
    uint64_t z = (state += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
};
#define VTBB_EXPORT __attribute__((visibility("default")))
VTBB_EXPORT inline Control &control() {
  static Control c;
  return c;
}
VTBB_EXPORT inline bool &in_task() {
  static thread_local bool b = false;
  return b;
}
VTBB_EXPORT inline std::mutex &control_mutex() {
  static std::mutex m;
  return m;
}

// Cut [0, size) into chunks as tbb may do: pieces of a range are only ever
// split while longer than the grain size.
template <class I>
void cut(const I begin, const I end, const I grain, const bool finest,
         std::vector<std::pair<I, I>> &out, Control &c) {
  if (end - begin <= grain || (!finest && c.next() % 4 == 0)) {
    out.emplace_back(begin, end);
    return;
  }
  const I mid = begin + (end - begin) / 2;
  cut(begin, mid, grain, finest, out, c);
  cut(mid, end, grain, finest, out, c);
}

template <class I, class F>
void run(const I begin, const I end, const I grain, const F &body) {
  if (!(begin < end))
    return;
  auto &c = control();
  c.calls.fetch_add(1, std::memory_order_relaxed);
  std::vector<std::pair<I, I>> chunks;
  int nthreads = 1;
  std::vector<uint64_t> delays;
  // the mode is never changed while threads are running
  const Mode mode =
      c.mode == Mode::threads && in_task() ? Mode::serial : c.mode;
  if (mode == Mode::serial) {
    // no lock: it would order sections started by different threads
    chunks.emplace_back(begin, end);
  } else {
    // the lock is released before any body runs and guards only this state
    std::lock_guard<std::mutex> lock(control_mutex());
    {
      cut(begin, end, grain, mode == Mode::finest, chunks, c);
      if (mode == Mode::finest) {
        for (size_t i = 0; i < chunks.size() / 2; ++i)
          std::swap(chunks[i], chunks[chunks.size() - 1 - i]);
      } else {
        for (size_t i = chunks.size(); i > 1; --i)
          std::swap(chunks[i - 1], chunks[c.next() % i]);
      }
      for (const auto &ch : chunks)
        c.fingerprint =
            c.fingerprint * 1099511628211ull ^ uint64_t(ch.first * 31 + ch.second);
      nthreads = c.nthreads;
      for (size_t i = 0; i < chunks.size(); ++i)
        delays.push_back(c.next());
    }
  }
  c.chunks.fetch_add(chunks.size(), std::memory_order_relaxed);
  if (chunks.size() > 1)
    c.multi.fetch_add(1, std::memory_order_relaxed);
  if (mode != Mode::threads || chunks.size() == 1) {
    for (const auto &ch : chunks)
      body(ch.first, ch.second);
    return;
  }
  std::atomic<size_t> next{0};
  std::mutex err_mutex;
  std::exception_ptr err;
  const auto work = [&]() {
    const bool was = in_task();
    in_task() = true;
    for (;;) {
      // relaxed: handing out chunks must not order the bodies of two tasks
      const size_t i = next.fetch_add(1, std::memory_order_relaxed);
      if (i >= chunks.size())
        break;
      if (delays[i] % 8 == 0)
        std::this_thread::sleep_for(std::chrono::microseconds(delays[i] % 200));
      else if (delays[i] % 3 == 0)
        std::this_thread::yield();
      try {
        body(chunks[i].first, chunks[i].second);
      } catch (...) {
        std::lock_guard<std::mutex> lock(err_mutex);
        if (!err)
          err = std::current_exception();
      }
    }
    in_task() = was;
  };
  std::vector<std::thread> threads;
  for (int t = 0; t < nthreads - 1; ++t)
    threads.emplace_back(work);
  work();
  for (auto &t : threads)
    t.join();
  if (err)
    std::rethrow_exception(err);
}
} // namespace vtbb
