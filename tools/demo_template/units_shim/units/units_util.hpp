#pragma once
#include "units.hpp"

namespace llnl {
namespace units {
namespace detail {
template <class Op>
bool any_overflow(const unit_data &a, const unit_data &b, Op op) {
  const auto bad = [&](int x, int y, int bits) {
    const long r = op(static_cast<long>(x), static_cast<long>(y));
    return r < -(1L << (bits - 1)) || r >= (1L << (bits - 1));
  };
  return bad(a.meter(), b.meter(), bitwidth::meter) ||
         bad(a.second(), b.second(), bitwidth::second) ||
         bad(a.kg(), b.kg(), bitwidth::kilogram) ||
         bad(a.ampere(), b.ampere(), bitwidth::ampere) ||
         bad(a.candela(), b.candela(), bitwidth::candela) ||
         bad(a.kelvin(), b.kelvin(), bitwidth::kelvin) ||
         bad(a.mole(), b.mole(), bitwidth::mole) ||
         bad(a.radian(), b.radian(), bitwidth::radian) ||
         bad(a.currency(), b.currency(), bitwidth::currency) ||
         bad(a.count(), b.count(), bitwidth::count);
}
} // namespace detail
inline bool times_overflows(const precise_unit &a, const precise_unit &b) {
  return detail::any_overflow(a.base_units(), b.base_units(),
                              [](long x, long y) { return x + y; });
}
inline bool divides_overflows(const precise_unit &a, const precise_unit &b) {
  return detail::any_overflow(a.base_units(), b.base_units(),
                              [](long x, long y) { return x - y; });
}
inline bool pow_overflows(const precise_unit &a, const int p) {
  return detail::any_overflow(a.base_units(), a.base_units(),
                              [p](long x, long) { return x * p; });
}
} // namespace units
} // namespace llnl
