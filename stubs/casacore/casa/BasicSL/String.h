#pragma once
#include "../aips.h"
namespace casacore {
class Regex;
class String : public std::string {
 public:
  String() {} String(const std::string& s) : std::string(s) {}
  String(const char* s) : std::string(s) {}
  String(const String&) = default; String& operator=(const String&) = default;
  bool matches(const Regex&) const; bool contains(const std::string&) const;
  String before(char) const; String after(char) const; void upcase(); void downcase();
  static String toString(int);
  template <class... A> int gsub(const A&...);
};
}
