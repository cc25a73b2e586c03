// String parsing and formatting of the LLNL-Units stand-in (see
// unit_definitions.hpp).
#include "units/units.hpp"
#include "units/units_util.hpp"

#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <mutex>
#include <optional>
#include <shared_mutex>
#include <vector>

namespace llnl {
namespace units {
namespace precise {
namespace custom {
// Custom units are never produced by this stand-in's parser.
bool is_custom_unit(const detail::unit_data &) { return false; }
bool is_custom_count_unit(const detail::unit_data &) { return false; }
int custom_count_unit_number(const detail::unit_data &) { return 0; }
} // namespace custom
} // namespace precise

namespace {
using detail::unit_data;
using P = precise_unit;

constexpr P base(int m, int kg, int s, int A = 0, int K = 0, int mol = 0,
                 int cd = 0, int cur = 0, int cnt = 0, int rad = 0) {
  return P{unit_data(m, kg, s, A, K, mol, cd, cur, cnt, rad, 0, 0, 0, 0)};
}
P equation(int n) {
  // equation units carry their number in the exponents, like LLNL-Units
  return P{unit_data(n & 7, 0, (n >> 3) & 7, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1)};
}

struct Named {
  const char *name;
  P unit;
  bool prefixable;
  bool print; // preferred for printing
};

const std::vector<Named> &table() {
  static const std::vector<Named> t{
      {"m", base(1, 0, 0), true, true},
      {"meter", base(1, 0, 0), true, false},
      {"metre", base(1, 0, 0), true, false},
      {"kg", base(0, 1, 0), false, true},
      {"g", P{base(0, 1, 0), 1e-3}, true, true},
      {"gram", P{base(0, 1, 0), 1e-3}, true, false},
      {"s", base(0, 0, 1), true, true},
      {"sec", base(0, 0, 1), true, false},
      {"second", base(0, 0, 1), true, false},
      {"seconds", base(0, 0, 1), true, false},
      {"A", base(0, 0, 0, 1), true, true},
      {"K", base(0, 0, 0, 0, 1), true, true},
      {"mol", base(0, 0, 0, 0, 0, 1), true, true},
      {"cd", base(0, 0, 0, 0, 0, 0, 1), true, true},
      {"$", base(0, 0, 0, 0, 0, 0, 0, 1), false, true},
      {"item", base(0, 0, 0, 0, 0, 0, 0, 0, 1), false, true},
      {"count", base(0, 0, 0, 0, 0, 0, 0, 0, 1), false, false},
      {"counts", base(0, 0, 0, 0, 0, 0, 0, 0, 1), false, false},
      {"rad", base(0, 0, 0, 0, 0, 0, 0, 0, 0, 1), true, true},
      {"radian", base(0, 0, 0, 0, 0, 0, 0, 0, 0, 1), true, false},
      {"deg", precise::deg, false, true},
      {"degree", precise::deg, false, false},
      {"N", base(1, 1, -2), true, true},
      {"J", base(2, 1, -2), true, true},
      {"joule", base(2, 1, -2), true, false},
      {"eV", precise::energy::eV, true, true},
      {"W", base(2, 1, -3), true, true},
      {"Pa", base(-1, 1, -2), true, true},
      {"Hz", base(0, 0, -1), true, true},
      {"C", base(0, 0, 1, 1), true, true},
      {"Ah", P{base(0, 0, 1, 1), 3600.0}, true, true},
      {"V", base(2, 1, -3, -1), true, true},
      {"T", base(0, 1, -2, -1), true, true},
      {"ohm", base(2, 1, -3, -2), true, true},
      {"Wb", base(2, 1, -2, -1), true, true},
      {"lm", base(0, 0, 0, 0, 0, 0, 1, 0, 0, 2), true, true},
      {"Sv", P{unit_data(2, 0, -2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0)}, true,
       true},
      {"Gy", base(2, 0, -2), true, false},
      {"Å", precise::distance::angstrom, false, true},
      {"angstrom", precise::distance::angstrom, false, false},
      {"Angstrom", precise::distance::angstrom, false, false},
      {"min", P{base(0, 0, 1), 60.0}, false, true},
      {"minute", P{base(0, 0, 1), 60.0}, false, false},
      {"hr", P{base(0, 0, 1), 3600.0}, false, true},
      {"h", P{base(0, 0, 1), 3600.0}, false, false},
      {"hour", P{base(0, 0, 1), 3600.0}, false, false},
      {"day", P{base(0, 0, 1), 86400.0}, false, true},
      {"D", P{base(0, 0, 1), 86400.0}, false, false},
      {"week", P{base(0, 0, 1), 7 * 86400.0}, false, true},
      {"mog", P{base(0, 0, 1), 365.2425 / 12 * 86400.0}, false, true},
      {"a_g", P{base(0, 0, 1), 365.2425 * 86400.0}, false, true},
      {"au", P{base(1, 0, 0), 149597870700.0}, false, true},
      {"barn", P{base(2, 0, 0), 1e-28}, true, true},
      {"L", P{base(3, 0, 0), 1e-3}, true, true},
      {"u", P{base(0, 1, 0), 1.66053906660e-27}, false, true},
      {"%", P{unit_data{}, 0.01}, false, true},
      {"percent", P{unit_data{}, 0.01}, false, false},
      {"°C", P{unit_data(0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0)}, false,
       true},
      {"degC", P{unit_data(0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0)}, false,
       false},
      {"arb. unit", P{unit_data(0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 1, 0, 0)},
       false, true},
      {"a.u.", P{unit_data(0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 1, 0, 0)}, false,
       false},
      {"arbitraryunit", P{unit_data(0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 1, 0, 0)},
       false, false},
      {"decibels", equation(2), false, false},
      {"one", P{}, false, false},
      {"rpm", P{base(0, 0, -1, 0, 0, 0, 0, 0, 0, 1), 2 * constants::pi / 60},
       false, true},
  };
  return t;
}

struct Prefix {
  const char *name;
  double value;
};
constexpr Prefix prefixes[] = {
    {"da", 1e1},  {"Y", 1e24},  {"Z", 1e21},  {"E", 1e18}, {"P", 1e15},
    {"T", 1e12},  {"G", 1e9},   {"M", 1e6},   {"k", 1e3},  {"h", 1e2},
    {"d", 1e-1},  {"c", 1e-2},  {"m", 1e-3},  {"u", 1e-6}, {"µ", 1e-6},
    {"μ", 1e-6},  {"n", 1e-9},  {"p", 1e-12}, {"f", 1e-15}, {"a", 1e-18},
    {"micro", 1e-6}, {"milli", 1e-3}, {"kilo", 1e3}, {"nano", 1e-9}};

std::shared_mutex user_mutex;
std::map<std::string, P> &user_units() {
  static std::map<std::string, P> m;
  return m;
}

std::optional<P> lookup(const std::string &name) {
  {
    const std::shared_lock lock(user_mutex);
    if (const auto it = user_units().find(name); it != user_units().end())
      return it->second;
  }
  for (const auto &e : table())
    if (name == e.name)
      return e.unit;
  for (const auto &p : prefixes) {
    const std::string pre(p.name);
    if (name.size() > pre.size() && name.compare(0, pre.size(), pre) == 0) {
      const auto rest = name.substr(pre.size());
      for (const auto &e : table())
        if (e.prefixable && rest == e.name)
          return P{p.value, e.unit};
    }
  }
  if (name.size() > 7 && name.compare(0, 6, "EQXUN[") == 0 &&
      name.back() == ']') {
    const auto n = std::atoi(name.c_str() + 6);
    if (n >= 0 && n < 64)
      return equation(n);
  }
  return std::nullopt;
}

struct ParseError {};

class Parser {
public:
  explicit Parser(const std::string &s) : m_s(s) {}
  P parse() {
    skip();
    if (m_i == m_s.size())
      return P{};
    const auto r = product();
    skip();
    if (m_i != m_s.size())
      throw ParseError{};
    return r;
  }

private:
  void skip() {
    while (m_i < m_s.size() && m_s[m_i] == ' ')
      ++m_i;
  }
  bool eat(const std::string &t) {
    if (m_s.compare(m_i, t.size(), t) == 0) {
      m_i += t.size();
      return true;
    }
    return false;
  }
  P product() {
    auto r = power();
    while (true) {
      const auto before = m_i;
      skip();
      if (m_i == m_s.size() || m_s[m_i] == ')')
        return r;
      if (m_s[m_i] == '/') {
        ++m_i;
        const auto u = power();
        if (divides_overflows(r, u))
          throw ParseError{};
        r = r / u;
      } else {
        if (m_s[m_i] == '*')
          ++m_i;
        else if (!eat("·") && before == m_i)
          throw ParseError{};
        const auto u = power();
        if (times_overflows(r, u))
          throw ParseError{};
        r = r * u;
      }
    }
  }
  int integer() {
    skip();
    const bool paren = eat("(");
    char *end = nullptr;
    const auto v = std::strtol(m_s.c_str() + m_i, &end, 10);
    if (end == m_s.c_str() + m_i || v > 1000 || v < -1000)
      throw ParseError{};
    m_i = static_cast<std::size_t>(end - m_s.c_str());
    if (paren && !eat(")"))
      throw ParseError{};
    return static_cast<int>(v);
  }
  P power() {
    skip();
    auto r = atom();
    if (m_i < m_s.size() && (m_s[m_i] == '^' || m_s.compare(m_i, 2, "**") == 0)) {
      m_i += m_s[m_i] == '^' ? 1 : 2;
      const auto p = integer();
      if (pow_overflows(r, p))
        throw ParseError{};
      r = r.pow(p);
    }
    return r;
  }
  P atom() {
    if (m_i == m_s.size())
      throw ParseError{};
    if (eat("(")) {
      const auto r = product();
      skip();
      if (!eat(")"))
        throw ParseError{};
      return r;
    }
    const char c = m_s[m_i];
    if (std::isdigit(static_cast<unsigned char>(c)) || c == '.') {
      char *end = nullptr;
      const auto v = std::strtod(m_s.c_str() + m_i, &end);
      if (end == m_s.c_str() + m_i)
        throw ParseError{};
      m_i = static_cast<std::size_t>(end - m_s.c_str());
      const P num{unit_data{}, v};
      // "10m" is 10 times m
      if (m_i < m_s.size() &&
          (std::isalpha(static_cast<unsigned char>(m_s[m_i])) ||
           static_cast<unsigned char>(m_s[m_i]) >= 0x80 || m_s[m_i] == '$' ||
           m_s[m_i] == '%'))
        return num * power();
      return num;
    }
    if (eat("arb. unit"))
      return *lookup("arb. unit");
    auto j = m_i;
    while (j < m_s.size() && m_s[j] != ' ' && m_s[j] != '*' && m_s[j] != '/' &&
           m_s[j] != '^' && m_s[j] != '(' && m_s[j] != ')' &&
           m_s.compare(j, 2, "·") != 0)
      ++j;
    const auto name = m_s.substr(m_i, j - m_i);
    if (const auto u = lookup(name)) {
      m_i = j;
      return *u;
    }
    throw ParseError{};
  }
  const std::string m_s;
  std::size_t m_i{0};
};

std::string format_double(const double v) {
  char buf[64];
  for (int p = 6; p <= 17; ++p) {
    std::snprintf(buf, sizeof(buf), "%.*g", p, v);
    if (std::strtod(buf, nullptr) == v)
      break;
  }
  return buf;
}

std::optional<std::string> name_of(const P &u) {
  {
    const std::shared_lock lock(user_mutex);
    for (const auto &[k, v] : user_units())
      if (v == u)
        return k;
  }
  if (u.base_units().is_equation()) {
    for (int i = 0; i < 64; ++i)
      if (equation(i) == u)
        return "EQXUN[" + std::to_string(i) + "]";
  }
  if (u == P{})
    return "";
  for (const auto &e : table())
    if (e.print && e.unit == u)
      return e.name;
  for (const auto &e : table())
    if (e.print && e.prefixable)
      for (const auto &p : prefixes)
        if (std::string(p.name).size() == 1 && P{p.value, e.unit} == u)
          return std::string(p.name) + e.name;
  return std::nullopt;
}

std::string base_string(const P &u) {
  const auto &b = u.base_units();
  std::string num, den;
  const auto add = [&](const char *n, const int e) {
    if (e == 0)
      return;
    auto &t = e > 0 ? num : den;
    if (!t.empty())
      t += "*";
    t += n;
    if (std::abs(e) != 1)
      t += "^" + std::to_string(std::abs(e));
  };
  add("m", b.meter());
  add("kg", b.kg());
  add("s", b.second());
  add("A", b.ampere());
  add("K", b.kelvin());
  add("mol", b.mole());
  add("cd", b.candela());
  add("$", b.currency());
  add("item", b.count());
  add("rad", b.radian());
  if (den.empty())
    return num;
  if (num.empty())
    num = "1";
  if (den.find('*') != std::string::npos)
    den = "(" + den + ")";
  return num + "/" + den;
}
} // namespace

precise_unit unit_from_string(std::string s, std::uint64_t) {
  {
    const std::shared_lock lock(user_mutex);
    if (const auto it = user_units().find(s); it != user_units().end())
      return it->second;
  }
  try {
    return Parser(s).parse();
  } catch (const ParseError &) {
    return precise::invalid;
  }
}

std::string to_string(const precise_unit &u) {
  if (is_error(u))
    return "ERROR";
  if (const auto n = name_of(u))
    return *n;
  // A^2, A/B, A*B, 1/A for printable units
  std::vector<std::pair<std::string, P>> cand;
  for (const auto &e : table())
    if (e.print && !e.unit.base_units().is_equation() && e.unit != P{}) {
      cand.emplace_back(e.name, e.unit);
    }
  for (int p = 2; p <= 6; ++p)
    for (const auto &[n, c] : cand)
      if (!pow_overflows(c, p) && c.pow(p) == u)
        return n + "^" + std::to_string(p);
  const auto prefixed = [](const P &x) { return name_of(x); };
  for (const auto &[n, c] : cand)
    if (!times_overflows(u, c)) {
      if (const auto r = prefixed(u * c)) {
        // u = r / c
        return (r->empty() ? "1" : *r) + "/" + n;
      }
    }
  for (const auto &[n, c] : cand)
    if (!divides_overflows(c, u)) {
      if (const auto r = prefixed(c / u); r && !r->empty())
        return n + "/" + *r;
      if (!divides_overflows(u, c))
        if (const auto q = prefixed(u / c); q && !q->empty())
          return n + "*" + *q;
    }
  if (!divides_overflows(P{}, u))
    if (const auto r = prefixed(u.inv()); r && !r->empty())
      return "1/" + *r;
  const auto bs = base_string(u);
  std::string flags;
  if (u.base_units().has_e_flag())
    flags += "*eflag";
  if (u.base_units().has_i_flag())
    flags += "*flag";
  if (u.base_units().is_per_unit())
    flags += "*pu";
  if (u.multiplier() == 1.0)
    return bs + flags;
  if (!bs.empty() && bs[0] == '1')
    return format_double(u.multiplier()) + bs.substr(1) + flags;
  return format_double(u.multiplier()) + bs + flags;
}

void addUserDefinedUnit(const std::string &name, const precise_unit &u) {
  const std::unique_lock lock(user_mutex);
  user_units().insert_or_assign(name, u);
}
void clearUserDefinedUnits() {
  const std::unique_lock lock(user_mutex);
  user_units().clear();
}

} // namespace units
} // namespace llnl
