#ifndef VP_STUB_SENSOR_MSGS_IMU_H_
#define VP_STUB_SENSOR_MSGS_IMU_H_
#include <boost/shared_ptr.hpp>
#include "geometry_msgs/Twist.h"
#include "std_msgs/Header.h"
namespace sensor_msgs {
struct Imu {
  typedef boost::shared_ptr<Imu const> ConstPtr;
  std_msgs::Header header;
  geometry_msgs::Quaternion orientation;
  boost::array<double, 9> orientation_covariance;
  geometry_msgs::Vector3 angular_velocity;
  boost::array<double, 9> angular_velocity_covariance;
  geometry_msgs::Vector3 linear_acceleration;
  boost::array<double, 9> linear_acceleration_covariance;
};
}  // namespace sensor_msgs
#endif
