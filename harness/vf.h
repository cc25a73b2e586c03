// Framework shared by all harnesses: deterministic case generation, failure
// and observation recording, one JSON report per process.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vf {

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t hash(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ull;
  return h;
}

class Rng {
public:
  explicit Rng(uint64_t seed) : m_s(mix(seed)) {}
  uint64_t next() { return mix(m_s++ * 0x9e3779b97f4a7c15ull); }
  // uniform in [lo, hi], both included
  int64_t in(int64_t lo, int64_t hi) {
    const uint64_t span = uint64_t(hi) - uint64_t(lo) + 1;
    return int64_t(uint64_t(lo) + (span == 0 ? next() : next() % span));
  }
  bool chance(int num, int den) { return in(1, den) <= num; }
  double unit() { return double(next() >> 11) * 0x1p-53; }
  template <class T> const T &pick(const std::vector<T> &v) {
    return v[size_t(in(0, int64_t(v.size()) - 1))];
  }
  template <class T> T pick(std::initializer_list<T> v) {
    return *(v.begin() + in(0, int64_t(v.size()) - 1));
  }
  template <class T> void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; --i)
      std::swap(v[i - 1], v[size_t(in(0, int64_t(i) - 1))]);
  }

private:
  uint64_t m_s;
};

struct Failure {
  std::string key, msg;
};

// A case refuted the property.  `key` names the kind of failure (used for
// known findings), `msg` describes the witness.
[[noreturn]] inline void fail(const std::string &key, const std::string &msg) {
  throw Failure{key, msg};
}

struct Recorder {
  std::map<std::string, uint64_t> obs; // events observed, by kind
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  uint64_t case_hash = 0;
  std::string case_desc;
  uint64_t evaluations = 0, checks = 0;
  bool verbose = false;
};
inline Recorder &rec() {
  static Recorder r;
  return r;
}
inline void obs(const std::string &kind, uint64_t n = 1) {
  rec().obs[kind] += n;
}
// The current case was non-trivial; `desc` identifies what it exercised.
inline void nontrivial(const std::string &desc) {
  auto &r = rec();
  r.case_hash = mix(r.case_hash ^ hash(desc)) | 1;
  if (r.case_desc.size() < 400)
    r.case_desc += (r.case_desc.empty() ? "" : " | ") + desc.substr(0, 400);
}
inline void end_case() {
  auto &r = rec();
  if (r.case_hash != 0 && r.distinct.insert(r.case_hash).second &&
      r.samples.size() < 4 && r.distinct.size() % 7 == 1)
    r.samples.push_back(r.case_desc.substr(0, 600));
  r.case_hash = 0;
  r.case_desc.clear();
}

#define VF_STR2(x) #x
#define VF_STR(x) VF_STR2(x)
// CHECK(key, condition, stream expression describing the witness)
#define CHECK(KEY, COND, MSG)                                                  \
  do {                                                                         \
    ++vf::rec().checks;                                                        \
    if (!(COND)) {                                                             \
      std::ostringstream vf_os_;                                               \
      vf_os_.precision(20);                                                    \
      vf_os_ << MSG << " [violated: " #COND "]";                               \
      vf::fail(KEY, vf_os_.str());                                             \
    }                                                                          \
  } while (0)

template <class F> std::string str(F &&f) {
  std::ostringstream os;
  os.precision(20);
  f(os);
  return os.str();
}
#define STR(MSG) vf::str([&](std::ostream &vf_o_) { vf_o_ << MSG; })

template <class T> std::string vec(const std::vector<T> &v) {
  std::ostringstream os;
  os.precision(20);
  os << '[';
  for (size_t i = 0; i < v.size(); ++i) {
    if (i)
      os << ',';
    if (i == 24) {
      os << "...(" << v.size() << ')';
      break;
    }
    os << +v[i];
  }
  os << ']';
  return os.str();
}
inline std::string vec(const std::vector<std::string> &v) {
  std::string s = "[";
  for (const auto &x : v)
    s += (s.size() > 1 ? "," : "") + x;
  return s + "]";
}

struct Suite {
  std::string name;
  std::function<void(Rng &)> run;
};
inline std::vector<Suite> &suites() {
  static std::vector<Suite> s;
  return s;
}
struct Register {
  Register(const char *name, std::function<void(Rng &)> f) {
    suites().push_back({name, std::move(f)});
  }
};
#define SUITE(NAME)                                                            \
  static void vf_suite_##NAME(vf::Rng &rng);                                   \
  static vf::Register vf_reg_##NAME(#NAME, vf_suite_##NAME);                   \
  static void vf_suite_##NAME(vf::Rng &rng)

int run_main(int argc, char **argv);

// thorough runs may scale sizes up
inline bool &thorough() {
  static bool t = false;
  return t;
}
} // namespace vf
