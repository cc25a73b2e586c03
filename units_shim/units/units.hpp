#pragma once
#include "unit_definitions.hpp"

namespace llnl {
namespace units {
constexpr std::uint64_t strict_si = 1;

inline bool is_error(const precise_unit &u) {
  return std::isnan(u.multiplier()) ||
         u.has_same_base(precise::error);
}
inline bool is_valid(const precise_unit &u) {
  return !(std::isnan(u.multiplier()) && u.has_same_base(precise::invalid));
}
inline precise_unit root(const precise_unit &u, const int p) {
  if (p == 0)
    return precise::one;
  if (u.multiplier() < 0.0 && p % 2 == 0)
    return precise::error;
  return precise_unit{u.base_units().root(p),
                      p == 2 ? std::sqrt(u.multiplier())
                             : std::pow(u.multiplier(), 1.0 / p)};
}
inline precise_unit sqrt(const precise_unit &u) { return root(u, 2); }

constexpr double quick_convert(double val, const precise_unit &from,
                               const precise_unit &to) {
  return (from.base_units() == to.base_units() && !from.is_equation() &&
          !from.has_e_flag())
             ? val * from.multiplier() / to.multiplier()
             : constants::invalid_conversion;
}
constexpr double quick_convert(const precise_unit &from,
                               const precise_unit &to) {
  return quick_convert(1.0, from, to);
}

precise_unit unit_from_string(std::string s, std::uint64_t flags = 0);
std::string to_string(const precise_unit &u);
void addUserDefinedUnit(const std::string &name, const precise_unit &u);
void clearUserDefinedUnits();
} // namespace units
} // namespace llnl
