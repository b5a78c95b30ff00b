#pragma once
#include "../BasicSL/String.h"
namespace casacore {
class Path {
 public:
  Path(); Path(const String&);
  String absoluteName() const; String dirName() const; String baseName() const;
  String expandedName() const; String originalName() const;
  void append(const String&);
};
}
