#pragma once
#include <cstddef>
#include <cstdint>
struct WkbHpp {  // the C++ parser, in a unit of its own because only library code is to be measured
  void* p;
  WkbHpp();
  ~WkbHpp();
  bool Parse(const uint8_t* data, size_t n);
};
