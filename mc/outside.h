// counts the model runs that left the model's own bounds: such runs decide nothing
#pragma once
#include <cstdint>
namespace mc {
inline uint64_t &outside() {
  static uint64_t n;
  return n;
}
}  // namespace mc
