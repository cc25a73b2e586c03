// main() of every harness.
//   harness --seed S [--suite NAME --from A --to B [--step K]]... --report FILE
//           --status FILE [--thorough] [--verbose] [--max-fail N]
// Runs cases A, A+K, ... < B of each suite; each case has its own random
// stream derived from (seed, suite, case), so a case replays alone.
#include "vf.h"
#include "vtbb.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <typeinfo>
#include <unistd.h>

namespace {
struct Status {
  char suite[64];
  int64_t index;
  int64_t done;
};
Status fallback_status;
Status *status = &fallback_status;

std::string json(const std::string &s) {
  std::string out = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      out += '\\';
      out += char(c);
    } else if (c < 0x20 || c >= 0x7f) {
      char buf[8];
      std::snprintf(buf, sizeof buf, "\\u%04x", c);
      out += buf;
    } else
      out += char(c);
  }
  return out + "\"";
}
void on_alarm(int) {
  // CPU-time watchdog of one case
  const char msg[] = "\nVF-HANG: case exceeded its CPU budget\n";
  (void)!write(2, msg, sizeof msg - 1);
  _exit(97);
}
void arm(long seconds) {
  itimerval t{};
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}
} // namespace

namespace vf {
int run_main(int argc, char **argv) {
  struct Job {
    std::string suite;
    int64_t from, to, step;
  };
  std::vector<Job> jobs;
  uint64_t seed = 1;
  std::string report, status_file;
  int max_fail = 5;
  long budget = 120;
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    const auto val = [&]() -> std::string {
      if (i + 1 >= argc) {
        std::fprintf(stderr, "missing value for %s\n", a.c_str());
        std::exit(3);
      }
      return argv[++i];
    };
    if (a == "--seed")
      seed = std::stoull(val());
    else if (a == "--suite")
      jobs.push_back({val(), 0, 1, 1});
    else if (a == "--from")
      jobs.back().from = std::stoll(val());
    else if (a == "--to")
      jobs.back().to = std::stoll(val());
    else if (a == "--step")
      jobs.back().step = std::stoll(val());
    else if (a == "--report")
      report = val();
    else if (a == "--status")
      status_file = val();
    else if (a == "--thorough")
      thorough() = true;
    else if (a == "--verbose")
      rec().verbose = true;
    else if (a == "--max-fail")
      max_fail = std::stoi(val());
    else if (a == "--budget")
      budget = std::stol(val());
    else if (a == "--list") {
      for (const auto &s : suites())
        std::printf("%s\n", s.name.c_str());
      return 0;
    } else {
      std::fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 3;
    }
  }
  if (!status_file.empty()) {
    const int fd = open(status_file.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Status)) != 0) {
      std::fprintf(stderr, "cannot open status file\n");
      return 3;
    }
    void *p = mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED,
                   fd, 0);
    if (p != MAP_FAILED)
      status = static_cast<Status *>(p);
    close(fd);
  }
  signal(SIGPROF, on_alarm);
  struct Found {
    std::string suite;
    int64_t index;
    std::string key, msg;
  };
  std::vector<Found> failures;
  std::set<std::string> keys;
  for (const auto &job : jobs) {
    const Suite *suite = nullptr;
    for (const auto &s : suites())
      if (s.name == job.suite)
        suite = &s;
    if (!suite) {
      std::fprintf(stderr, "no suite %s\n", job.suite.c_str());
      return 3;
    }
    std::strncpy(status->suite, job.suite.c_str(), sizeof status->suite - 1);
    for (int64_t i = job.from; i < job.to; i += job.step) {
      status->index = i;
      Rng rng(mix(seed) ^ mix(hash(job.suite)) ^ uint64_t(i));
      auto &ctl = vtbb::control();
      ctl.state = rng.next();
      const auto m = rng.in(0, 3);
      ctl.mode = m <= 1 ? vtbb::Mode::serial
                        : m == 2 ? vtbb::Mode::shuffle : vtbb::Mode::finest;
      arm(budget);
      try {
        suite->run(rng);
      } catch (const Failure &f) {
        std::fprintf(stderr, "VF-FAIL %s %lld %s: %s\n", job.suite.c_str(),
                     static_cast<long long>(i), f.key.c_str(), f.msg.c_str());
        if (keys.count(f.key) < 3 && failures.size() < 200)
          failures.push_back({job.suite, i, f.key, f.msg});
        keys.insert(f.key);
      } catch (const std::exception &e) {
        failures.push_back({job.suite, i, "unexpected-exception",
                            std::string(typeid(e).name()) + ": " + e.what()});
        std::fprintf(stderr, "VF-FAIL %s %lld unexpected exception %s: %s\n",
                     job.suite.c_str(), static_cast<long long>(i),
                     typeid(e).name(), e.what());
      }
      arm(0);
      end_case();
      ++rec().evaluations;
      if (static_cast<int>(failures.size()) >= max_fail)
        goto done;
    }
  }
done:
  status->done = 1;
  if (!report.empty()) {
    std::FILE *f = std::fopen(report.c_str(), "w");
    if (!f)
      return 3;
    const auto &r = rec();
    std::fprintf(f, "{\"evaluations\": %llu, \"checks\": %llu,\n",
                 static_cast<unsigned long long>(r.evaluations),
                 static_cast<unsigned long long>(r.checks));
    std::fprintf(f, "\"parallel\": {\"calls\": %llu, \"chunks\": %llu, "
                    "\"multi\": %llu, \"sorts\": %llu},\n",
                 (unsigned long long)vtbb::control().calls,
                 (unsigned long long)vtbb::control().chunks,
                 (unsigned long long)vtbb::control().multi,
                 (unsigned long long)vtbb::control().sorts);
    std::fprintf(f, "\"obs\": {");
    bool first = true;
    for (const auto &[k, v] : r.obs) {
      std::fprintf(f, "%s%s: %llu", first ? "" : ", ", json(k).c_str(),
                   static_cast<unsigned long long>(v));
      first = false;
    }
    std::fprintf(f, "},\n\"distinct\": [");
    first = true;
    for (const auto h : r.distinct) {
      std::fprintf(f, "%s%llu", first ? "" : ",",
                   static_cast<unsigned long long>(h));
      first = false;
    }
    std::fprintf(f, "],\n\"samples\": [");
    first = true;
    for (const auto &s : r.samples) {
      std::fprintf(f, "%s%s", first ? "" : ",\n", json(s).c_str());
      first = false;
    }
    std::fprintf(f, "],\n\"failures\": [");
    first = true;
    for (const auto &x : failures) {
      std::fprintf(f,
                   "%s{\"suite\": %s, \"index\": %lld, \"key\": %s, \"msg\": "
                   "%s}",
                   first ? "" : ",\n", json(x.suite).c_str(),
                   static_cast<long long>(x.index), json(x.key).c_str(),
                   json(x.msg.substr(0, 4000)).c_str());
      first = false;
    }
    std::fprintf(f, "]}\n");
    std::fclose(f);
  }
  return failures.empty() ? 0 : 1;
}
} // namespace vf

int main(int argc, char **argv) { return vf::run_main(argc, argv); }
