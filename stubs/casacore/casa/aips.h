#pragma once
#include <cstddef>
#include <string>
#include <complex>
namespace casacore {
typedef bool Bool; typedef char Char; typedef unsigned char uChar;
typedef short Short; typedef unsigned short uShort;
typedef int Int; typedef unsigned int uInt;
typedef long long Int64; typedef unsigned long long uInt64;
typedef float Float; typedef double Double;
typedef std::complex<float> Complex; typedef std::complex<double> DComplex;
typedef std::size_t rownr_t;
const bool True = true; const bool False = false;
}
