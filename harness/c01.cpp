// C01: dimension labels stand one to one for their texts.
#include "scipp/units/dim.h"
#include "vf.h"
#include <atomic>
#include <thread>
#include <unistd.h>

using namespace vf;
using scipp::units::Dim;

namespace {
const std::vector<std::string> builtin{
    "energy", "event", "group", "position", "row", "temperature", "time",
    "wavelength", "x", "y", "z"};

// Everything this process has learnt about labels: text <-> id.
struct Model {
  std::map<std::string, Dim::Id> id_of;
  std::map<Dim::Id, std::string> text_of;
};
Model &model() {
  static Model m;
  return m;
}
void learn(const std::string &text, const Dim dim) {
  auto &m = model();
  const auto [it, fresh] = m.id_of.emplace(text, dim.id());
  CHECK("two-ids-for-text", it->second == dim.id(),
        "text '" << text << "' is label " << int(dim.id()) << " and label " << int(it->second));
  const auto [jt, fresh2] = m.text_of.emplace(dim.id(), text);
  CHECK("two-texts-for-id", jt->second == text,
        "label " << int(dim.id()) << " is '" << text << "' and '" << jt->second << "'");
}

std::string make_text(Rng &rng) {
  static uint64_t counter = 0;
  switch (rng.in(0, 9)) {
  case 0:
    return rng.pick(builtin);
  case 1: { // near misses of built-in names
    std::string s = rng.pick(builtin);
    switch (rng.in(0, 5)) {
    case 0:
      s += ' ';
      break;
    case 1:
      s = ' ' + s;
      break;
    case 2:
      s[0] = char(std::toupper(s[0]));
      break;
    case 3:
      s += '\0';
      break;
    case 4:
      s.pop_back();
      break;
    default:
      s = "<" + s + ">";
    }
    return s;
  }
  case 2: {
    std::string s;
    for (int64_t i = rng.in(0, 6); i > 0; --i)
      s += char(rng.in(-128, 127));
    return s;
  }
  case 3:
    return rng.pick(std::vector<std::string>{"", "_", "0", "dim_0", "dim_1", "unreachable", "<invalid>", "<none>", "none",
                                             "invalid", "<internal_sort>", "λ", "Δx", "a b"});
  case 4:
    return std::string(size_t(rng.in(1, 300)), char('a' + rng.in(0, 2)));
  case 5: // shared prefixes and permuted letters
    return std::string("ab") + (rng.chance(1, 2) ? "ba" : "ab") + std::to_string(rng.in(0, 30));
  default:
    return "custom" + std::to_string(rng.chance(2, 3) ? rng.in(0, 40) : int64_t(++counter % 1500));
  }
}

void relate(const Dim a, const std::string &ta, const Dim b, const std::string &tb) {
  const bool eq = ta == tb;
  CHECK("equality", (a == b) == eq && (a != b) == !eq, "'" << ta << "' vs '" << tb << "'");
  CHECK("order", eq ? !(a < b) && !(b < a) : (a < b) != (b < a), "'" << ta << "' vs '" << tb << "'");
  if (eq)
    CHECK("hash", std::hash<Dim>{}(a) == std::hash<Dim>{}(b), "'" << ta << "'");
}
} // namespace

// histories on one thread
SUITE(history) {
  std::vector<std::pair<std::string, Dim>> seen;
  const auto steps = rng.in(2, 40);
  std::string what;
  for (int64_t i = 0; i < steps; ++i) {
    const std::string text = make_text(rng);
    const Dim dim(text);
    learn(text, dim);
    CHECK("name", dim.name() == text, "made from '" << text << "', reads '" << dim.name() << "'");
    CHECK("to_string", to_string(dim) == text, text);
    for (const auto &[t, d] : seen)
      relate(dim, text, d, t);
    Dim copy = dim;
    Dim other;
    other = copy;
    relate(copy, text, other, text);
    seen.emplace_back(text, dim);
    obs("labels-made");
    what += text.substr(0, 12) + ';';
  }
  for (const auto &[t, d] : seen)
    CHECK("name-later", d.name() == t, "'" << t << "' reads '" << d.name() << "' later");
  nontrivial(what);
}

// the built-in labels
SUITE(builtin) {
  std::map<std::string, Dim::Id> names;
  for (int i = int(Dim::Invalid); i <= int(Dim::Z); ++i) {
    const Dim dim{static_cast<Dim::Id>(i)};
    const auto name = dim.name();
    CHECK("builtin-names-distinct", names.emplace(name, dim.id()).second,
          "label " << i << " has the same text '" << name << "' as label " << int(names[name]));
    CHECK("builtin-round-trip", Dim(name) == dim, "label " << i << " has text '" << name << "', which is label " << int(Dim(name).id()));
    nontrivial(name);
  }
  for (const auto &b : builtin)
    CHECK("builtin-names", names.count(b) == 1, b);
  CHECK("default", Dim() == Dim(Dim::Invalid), "");
  (void)rng;
}

// many threads use the same fresh and old texts at once
SUITE(concurrent) {
  static uint64_t round = 0;
  ++round;
  const int nthread = int(rng.in(2, 8));
  const int nlabel = int(rng.in(1, 6));
  std::vector<std::string> texts;
  for (int i = 0; i < nlabel; ++i)
    texts.push_back(rng.chance(3, 4) ? "fresh" + std::to_string(round) + "_" + std::to_string(i)
                                     : make_text(rng));
  struct Event {
    int text;
    Dim dim;
    std::string name;
  };
  std::vector<std::vector<Event>> log(static_cast<size_t>(nthread));
  std::vector<uint64_t> seeds;
  for (int t = 0; t < nthread; ++t)
    seeds.push_back(rng.next());
  std::atomic<int> ready{0};
  const auto work = [&](const int t) {
    Rng r(seeds[size_t(t)]);
    auto &mine = log[size_t(t)];
    const bool same_order = r.chance(1, 2);
    // relaxed: the start line must not order the label operations
    ready.fetch_add(1, std::memory_order_relaxed);
    while (ready.load(std::memory_order_relaxed) < nthread)
      ;
    for (int k = 0; k < 2 * nlabel; ++k) {
      const int i = same_order ? k % nlabel : int(r.in(0, nlabel - 1));
      const Dim dim(texts[size_t(i)]);
      std::string name;
      if (r.chance(2, 3))
        name = dim.name();
      mine.push_back({i, dim, name});
      if (r.chance(1, 6))
        std::this_thread::yield();
    }
  };
  std::vector<std::thread> threads;
  for (int t = 1; t < nthread; ++t)
    threads.emplace_back(work, t);
  work(0);
  for (auto &t : threads)
    t.join();
  // offline check of the merged log
  std::string sched;
  for (const auto &mine : log)
    for (const auto &e : mine) {
      const auto &text = texts[size_t(e.text)];
      learn(text, e.dim);
      if (!e.name.empty())
        CHECK("concurrent-name", e.name == text, "made from '" << text << "', read '" << e.name << "'");
      obs("concurrent-labels");
      sched += char('a' + e.text);
    }
  for (const auto &t : texts) {
    learn(t, Dim(t));
    CHECK("name-after-threads", Dim(t).name() == t, t);
  }
  // ids within this process tell in which order the threads got to register
  for (const auto &t : texts)
    sched += ',' + std::to_string(int(Dim(t).id()) - 1000);
  nontrivial(sched);
}

// there are finitely many labels: the excess is refused, nothing wraps around
SUITE(exhaustion) {
  std::set<int> ids;
  int64_t made = 0;
  bool refused = false;
  for (int64_t i = 0; i < 70000 && !refused; ++i) {
    try {
      const Dim d("many" + std::to_string(i));
      CHECK("wraps", ids.insert(int(d.id())).second, "label " << i << " repeats id " << int(d.id()));
      CHECK("wraps-builtin", int(d.id()) > int(Dim::Z), "id " << int(d.id()));
      ++made;
    } catch (const std::runtime_error &) {
      refused = true;
    }
  }
  obs("labels-until-refused", uint64_t(made));
  nontrivial("exhaustion");
  CHECK("refused", refused || ids.size() == 70000, made);
  if (refused)
    for (int k = 0; k < 5; ++k) {
      bool again = false;
      try {
        Dim d("excess" + std::to_string(k));
      } catch (const std::runtime_error &) {
        again = true;
      }
      CHECK("refused-again", again, "");
    }
  for (const int64_t i : {int64_t(0), made / 2, made - 1}) {
    const auto text = "many" + std::to_string(i);
    CHECK("old-labels-intact", Dim(text).name() == text, text);
  }
  (void)rng;
}
