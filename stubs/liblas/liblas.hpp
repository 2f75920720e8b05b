// Stand-in for liblas: points are written as text lines, unrounded.
#pragma once
#include <cstdint>
#include <iomanip>
#include <iostream>
#include <limits>
#include <ostream>
#include <string>

namespace liblas {
enum PointFormatName { ePointFormat0 = 0, ePointFormat1 = 1, ePointFormat2 = 2, ePointFormat3 = 3, ePointFormatUnknown = -99 };

struct SpatialReference {
  void SetFromUserInput(const std::string&) {}
  void SetWKT(const std::string&) {}
};
struct Header {
  void SetScale(double, double, double) {}
  void SetOffset(double, double, double) {}
  void SetMin(double, double, double) {}
  void SetMax(double, double, double) {}
  void SetDataFormatId(PointFormatName) {}
  void SetPointRecordsCount(uint32_t) {}
  void SetVersionMajor(uint8_t) {}
  void SetVersionMinor(uint8_t) {}
  void SetCompressed(bool) {}
  void SetSRS(const SpatialReference&) {}
};
struct Point {
  Point() {}
  explicit Point(const Header*) {}
  void SetX(double v) { x = v; }
  void SetY(double v) { y = v; }
  void SetZ(double v) { z = v; }
  void SetCoordinates(double a, double b, double c) { x = a; y = b; z = c; }
  void SetIntensity(uint16_t) {}
  void SetTime(double) {}
  void SetHeader(const Header*) {}
  double GetX() const { return x; }
  double GetY() const { return y; }
  double GetZ() const { return z; }
  double x = 0, y = 0, z = 0;
};
class Writer {
 public:
  Writer(std::ostream& o, const Header&) : o_(o) { o_ << "stand-in las\n"; }
  bool WritePoint(const Point& p) {
    o_ << std::setprecision(std::numeric_limits<double>::max_digits10) << p.x << " " << p.y << " " << p.z << "\n";
    return bool(o_);
  }

 private:
  std::ostream& o_;
};
}  // namespace liblas
