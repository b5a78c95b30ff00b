#pragma once
#include "../BasicSL/String.h"
namespace casacore {
class Regex { public: Regex(); Regex(const String&); Regex(const char*);
  static String fromPattern(const String&); static String makeCaseInsensitive(const String&); };
}
