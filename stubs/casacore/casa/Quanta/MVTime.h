#pragma once
#include "Quantum.h"
#include <ostream>
namespace casacore {
class MVTime {
 public:
  enum formatTypes { ANGLE, TIME, YMD, DMY, MJD, NO_TIME = 16, YMD_ONLY = YMD + NO_TIME };
  struct Format { Format(formatTypes = TIME, unsigned = 0); };
  MVTime(); MVTime(double); MVTime(const Quantity&);
  MVTime(int, int, double, double = 0);
  static bool read(Quantity&, const String&); static bool read(Quantity&, const String&, bool);
  double day() const; double second() const;
  String string(unsigned, unsigned = 0) const;
};
std::ostream& operator<<(std::ostream&, const MVTime&);
std::ostream& operator<<(std::ostream&, const MVTime::Format&);
}
