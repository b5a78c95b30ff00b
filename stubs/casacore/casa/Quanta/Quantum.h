#pragma once
#include "../BasicSL/String.h"
namespace casacore {
class Unit { public: Unit(); Unit(const String&); Unit(const char*); };
template <class T> class Quantum {
 public:
  Quantum(); Quantum(const T&, const Unit&); Quantum(const T&, const String&); Quantum(const T&, const char*);
  T getValue() const; T getValue(const Unit&) const; T getValue(const char*) const;
  static bool read(Quantum<T>&, const String&);
};
typedef Quantum<double> Quantity;
}
