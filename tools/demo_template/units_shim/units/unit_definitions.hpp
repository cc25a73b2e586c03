// Stand-in for LLNL-Units 0.9.1 (not available offline), written for /verif.
// It implements only the interface scipp uses.  The algebra (unit_data with
// 64 bit wide base type, multiplier comparison with rounding, conversions,
// overflow predicates) follows the documented behaviour of LLNL-Units; string
// parsing/formatting covers the unit names used by scipp and its tests.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <string>

namespace llnl {
namespace units {

namespace bitwidth {
constexpr int meter = 8, second = 8, kilogram = 6, ampere = 6, candela = 4,
              kelvin = 6, mole = 4, radian = 6, currency = 4, count = 4;
} // namespace bitwidth

namespace constants {
constexpr double pi = 3.14159265358979323846;
constexpr double invalid_conversion = std::numeric_limits<double>::quiet_NaN();
} // namespace constants

namespace detail {

constexpr int wrap(const int v, const int bits) {
  const int span = 1 << bits;
  int r = v % span;
  if (r < -(span / 2))
    r += span;
  if (r >= span / 2)
    r -= span;
  return r;
}

class unit_data {
public:
  constexpr unit_data() = default;
  constexpr unit_data(int meter, int kilogram, int second, int ampere,
                      int kelvin, int mole, int candela, int currency,
                      int count, int radian, unsigned per_unit, unsigned flag,
                      unsigned eflag, unsigned equation)
      : m_m(wrap(meter, bitwidth::meter)), m_s(wrap(second, bitwidth::second)),
        m_kg(wrap(kilogram, bitwidth::kilogram)),
        m_A(wrap(ampere, bitwidth::ampere)),
        m_cd(wrap(candela, bitwidth::candela)),
        m_K(wrap(kelvin, bitwidth::kelvin)), m_mol(wrap(mole, bitwidth::mole)),
        m_rad(wrap(radian, bitwidth::radian)),
        m_cur(wrap(currency, bitwidth::currency)),
        m_cnt(wrap(count, bitwidth::count)), m_per(per_unit & 1u),
        m_i(flag & 1u), m_e(eflag & 1u), m_eq(equation & 1u) {}
  constexpr explicit unit_data(std::nullptr_t)
      : unit_data(-128, -32, -128, -32, -32, -8, -8, -8, -8, -32, 1, 1, 1, 1) {}

  constexpr int meter() const { return m_m; }
  constexpr int second() const { return m_s; }
  constexpr int kg() const { return m_kg; }
  constexpr int ampere() const { return m_A; }
  constexpr int candela() const { return m_cd; }
  constexpr int kelvin() const { return m_K; }
  constexpr int mole() const { return m_mol; }
  constexpr int radian() const { return m_rad; }
  constexpr int currency() const { return m_cur; }
  constexpr int count() const { return m_cnt; }
  constexpr bool is_per_unit() const { return m_per != 0; }
  constexpr bool has_i_flag() const { return m_i != 0; }
  constexpr bool has_e_flag() const { return m_e != 0; }
  constexpr bool is_equation() const { return m_eq != 0; }

  constexpr unit_data operator*(const unit_data &o) const {
    return {m_m + o.m_m,     m_kg + o.m_kg,   m_s + o.m_s,     m_A + o.m_A,
            m_K + o.m_K,     m_mol + o.m_mol, m_cd + o.m_cd,   m_cur + o.m_cur,
            m_cnt + o.m_cnt, m_rad + o.m_rad, m_per | o.m_per, m_i ^ o.m_i,
            m_e ^ o.m_e,     m_eq | o.m_eq};
  }
  constexpr unit_data operator/(const unit_data &o) const {
    return {m_m - o.m_m,     m_kg - o.m_kg,   m_s - o.m_s,     m_A - o.m_A,
            m_K - o.m_K,     m_mol - o.m_mol, m_cd - o.m_cd,   m_cur - o.m_cur,
            m_cnt - o.m_cnt, m_rad - o.m_rad, m_per | o.m_per, m_i ^ o.m_i,
            m_e ^ o.m_e,     m_eq | o.m_eq};
  }
  constexpr unit_data inv() const { return unit_data{} / *this; }
  constexpr unit_data pow(const int p) const {
    return {m_m * p,
            m_kg * p,
            m_s * p + root_hertz(p),
            m_A * p,
            m_K * p,
            m_mol * p,
            m_cd * p,
            m_cur * p,
            m_cnt * p,
            m_rad * p,
            m_per,
            (p % 2 == 0) ? 0u : m_i,
            (p % 2 == 0) ? 0u : m_e,
            m_eq};
  }
  constexpr bool has_valid_root(const int p) const {
    return m_m % p == 0 && m_s % p == 0 && m_kg % p == 0 && m_A % p == 0 &&
           m_cd % p == 0 && m_K % p == 0 && m_mol % p == 0 && m_rad % p == 0 &&
           m_cur % p == 0 && m_cnt % p == 0 && m_eq == 0 && m_e == 0;
  }
  constexpr unit_data root(const int p) const {
    if (!has_valid_root(p))
      return unit_data(nullptr);
    return {m_m / p,   m_kg / p,  m_s / p,   m_A / p, m_K / p,
            m_mol / p, m_cd / p,  m_cur / p, m_cnt / p, m_rad / p,
            m_per,     p % 2 == 0 ? 0u : m_i, p % 2 == 0 ? 0u : m_e, 0u};
  }
  constexpr bool operator==(const unit_data &o) const {
    return has_same_base(o) && m_per == o.m_per && m_i == o.m_i &&
           m_e == o.m_e && m_eq == o.m_eq;
  }
  constexpr bool operator!=(const unit_data &o) const { return !(*this == o); }
  constexpr bool has_same_base(const unit_data &o) const {
    return m_m == o.m_m && m_s == o.m_s && m_kg == o.m_kg && m_A == o.m_A &&
           m_cd == o.m_cd && m_K == o.m_K && m_mol == o.m_mol &&
           m_rad == o.m_rad && m_cur == o.m_cur && m_cnt == o.m_cnt;
  }
  constexpr bool empty() const { return has_same_base(unit_data{}); }

private:
  constexpr int root_hertz(const int p) const {
    return (m_s * p == 0 || m_e == 0u || m_i == 0u || p % 2 != 0)
               ? 0
               : (p / 2) * ((m_s < 0 || p < 0) ? 9 : -9);
  }
  int m_m{0}, m_s{0}, m_kg{0}, m_A{0}, m_cd{0}, m_K{0}, m_mol{0}, m_rad{0},
      m_cur{0}, m_cnt{0};
  unsigned m_per{0}, m_i{0}, m_e{0}, m_eq{0};
};

inline double cround_precise(double val) {
  std::uint64_t bits;
  std::memcpy(&bits, &val, sizeof(bits));
  bits += 0x800ULL;
  bits &= 0xFFFFFFFFFFFFF000ULL;
  std::memcpy(&val, &bits, sizeof(bits));
  return val;
}

inline bool compare_round_equals_precise(const double a, const double b) {
  const double d = a - b;
  if (d == 0.0 || std::fpclassify(d) == FP_SUBNORMAL)
    return true;
  constexpr double half = 5e-13;
  const double c1 = cround_precise(a);
  const double c2 = cround_precise(b);
  return c1 == c2 || cround_precise(b * (1.0 + half)) == c1 ||
         cround_precise(b * (1.0 - half)) == c1 ||
         cround_precise(a * (1.0 + half)) == c2 ||
         cround_precise(a * (1.0 - half)) == c2;
}

constexpr double power_const(const double val, const int p) {
  double base = p < 0 ? 1.0 / val : val;
  double out = 1.0;
  for (long n = p < 0 ? -static_cast<long>(p) : p; n > 0; n /= 2) {
    if (n % 2 == 1)
      out *= base;
    base *= base;
  }
  return out;
}

} // namespace detail

class precise_unit {
public:
  constexpr precise_unit() = default;
  constexpr explicit precise_unit(const detail::unit_data &base)
      : m_base(base) {}
  constexpr precise_unit(const detail::unit_data &base, double multiplier)
      : m_base(base), m_multiplier(multiplier) {}
  constexpr precise_unit(const detail::unit_data &base, double multiplier,
                         std::uint32_t commodity)
      : m_base(base), m_commodity(commodity), m_multiplier(multiplier) {}
  constexpr precise_unit(const detail::unit_data &base, std::uint32_t commodity,
                         double multiplier)
      : m_base(base), m_commodity(commodity), m_multiplier(multiplier) {}
  constexpr precise_unit(const precise_unit &u, double multiplier)
      : m_base(u.m_base), m_commodity(u.m_commodity),
        m_multiplier(multiplier * u.m_multiplier) {}
  constexpr precise_unit(double multiplier, const precise_unit &u)
      : precise_unit(u, multiplier) {}

  constexpr precise_unit operator*(const precise_unit &o) const {
    return {m_base * o.m_base, m_multiplier * o.m_multiplier,
            m_commodity == 0 ? o.m_commodity : m_commodity};
  }
  constexpr precise_unit operator/(const precise_unit &o) const {
    return {m_base / o.m_base, m_multiplier / o.m_multiplier,
            m_commodity == o.m_commodity ? 0 : m_commodity};
  }
  constexpr precise_unit inv() const {
    return {m_base.inv(), 1.0 / m_multiplier, m_commodity};
  }
  constexpr precise_unit pow(const int p) const {
    return {m_base.pow(p), detail::power_const(m_multiplier, p), m_commodity};
  }
  bool operator==(const precise_unit &o) const {
    if (m_base != o.m_base || m_commodity != o.m_commodity)
      return false;
    return m_multiplier == o.m_multiplier ||
           detail::compare_round_equals_precise(m_multiplier, o.m_multiplier);
  }
  bool operator!=(const precise_unit &o) const { return !(*this == o); }
  constexpr bool is_exactly_the_same(const precise_unit &o) const {
    return m_base == o.m_base && m_commodity == o.m_commodity &&
           m_multiplier == o.m_multiplier;
  }
  constexpr bool has_same_base(const precise_unit &o) const {
    return m_base.has_same_base(o.m_base);
  }
  constexpr double multiplier() const { return m_multiplier; }
  constexpr const detail::unit_data &base_units() const { return m_base; }
  constexpr std::uint32_t commodity() const { return m_commodity; }
  constexpr bool is_equation() const { return m_base.is_equation(); }
  constexpr bool has_e_flag() const { return m_base.has_e_flag(); }
  constexpr bool has_i_flag() const { return m_base.has_i_flag(); }

private:
  detail::unit_data m_base{};
  std::uint32_t m_commodity{0};
  double m_multiplier{1.0};
};

using unit = precise_unit;

class precise_measurement {
public:
  constexpr precise_measurement(double value, const precise_unit &u)
      : m_value(value), m_unit(u) {}
  constexpr double value() const { return m_value; }
  constexpr precise_unit units() const { return m_unit; }

private:
  double m_value{0.0};
  precise_unit m_unit;
};
constexpr precise_measurement operator*(double v, const precise_unit &u) {
  return {v, u};
}

namespace precise {
using detail::unit_data;
constexpr precise_unit one{};
constexpr precise_unit error{unit_data(nullptr)};
constexpr precise_unit invalid{unit_data(nullptr),
                               constants::invalid_conversion};
constexpr precise_unit meter{
    unit_data(1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)};
constexpr precise_unit m = meter;
constexpr precise_unit kilogram{
    unit_data(0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)};
constexpr precise_unit kg = kilogram;
constexpr precise_unit second{
    unit_data(0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)};
constexpr precise_unit s = second;
constexpr precise_unit Ampere{
    unit_data(0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)};
constexpr precise_unit A = Ampere;
constexpr precise_unit Kelvin{
    unit_data(0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0)};
constexpr precise_unit K = Kelvin;
constexpr precise_unit mol{
    unit_data(0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0)};
constexpr precise_unit candela{
    unit_data(0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0)};
constexpr precise_unit cd = candela;
constexpr precise_unit currency{
    unit_data(0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0)};
constexpr precise_unit count{
    unit_data(0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0)};
constexpr precise_unit rad{
    unit_data(0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0)};
constexpr precise_unit deg{rad, constants::pi / 180.0};
constexpr precise_unit pu{
    unit_data(0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0)};
constexpr precise_unit iflag{
    unit_data(0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0)};
constexpr precise_unit eflag{
    unit_data(0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0)};
constexpr precise_unit milli{unit_data{}, 1e-3};
constexpr precise_unit micro{unit_data{}, 1e-6};
constexpr precise_unit nano{unit_data{}, 1e-9};
constexpr precise_unit kilo{unit_data{}, 1e3};
constexpr precise_unit ms{s, 1e-3};
constexpr precise_unit ns{s, 1e-9};
constexpr precise_unit min{s, 60.0};
constexpr precise_unit hr{s, 3600.0};
constexpr precise_unit day{s, 86400.0};
constexpr precise_unit mm{m, 1e-3};
constexpr precise_unit cm{m, 1e-2};
constexpr precise_unit km{m, 1e3};
constexpr precise_unit newton{
    unit_data(1, 1, -2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)};
constexpr precise_unit joule{
    unit_data(2, 1, -2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)};
constexpr precise_unit hertz{
    unit_data(0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)};
namespace distance {
constexpr precise_unit angstrom{m, 1e-10};
}
namespace energy {
constexpr precise_unit eV{joule, 1.602176634e-19};
}
namespace custom {
bool is_custom_unit(const detail::unit_data &);
bool is_custom_count_unit(const detail::unit_data &);
int custom_count_unit_number(const detail::unit_data &);
} // namespace custom
} // namespace precise

} // namespace units
} // namespace llnl

namespace std {
template <> struct hash<llnl::units::precise_unit> {
  size_t operator()(const llnl::units::precise_unit &u) const {
    const auto &b = u.base_units();
    size_t h = 1469598103934665603ull;
    for (const int v :
         {b.meter(), b.kg(), b.second(), b.ampere(), b.kelvin(), b.mole(),
          b.candela(), b.currency(), b.count(), b.radian()})
      h = (h ^ static_cast<size_t>(v + 1000)) * 1099511628211ull;
    return h ^ hash<float>()(static_cast<float>(u.multiplier()));
  }
};
} // namespace std
