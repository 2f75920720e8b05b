#ifndef VP_STUB_GEOMETRY_MSGS_H_
#define VP_STUB_GEOMETRY_MSGS_H_
#include <boost/array.hpp>
namespace geometry_msgs {
struct Vector3 { double x = 0, y = 0, z = 0; };
struct Point { double x = 0, y = 0, z = 0; };
struct Quaternion { double x = 0, y = 0, z = 0, w = 0; };
struct Pose { Point position; Quaternion orientation; };
struct Twist { Vector3 linear, angular; };
struct PoseWithCovariance { Pose pose; boost::array<double, 36> covariance; };
struct TwistWithCovariance { Twist twist; boost::array<double, 36> covariance; };
}  // namespace geometry_msgs
#endif
