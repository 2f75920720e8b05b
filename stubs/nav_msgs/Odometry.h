#ifndef VP_STUB_NAV_MSGS_ODOMETRY_H_
#define VP_STUB_NAV_MSGS_ODOMETRY_H_
#include <boost/shared_ptr.hpp>
#include "geometry_msgs/Twist.h"
#include "std_msgs/Header.h"
namespace nav_msgs {
struct Odometry {
  typedef boost::shared_ptr<Odometry const> ConstPtr;
  std_msgs::Header header;
  std::string child_frame_id;
  geometry_msgs::PoseWithCovariance pose;
  geometry_msgs::TwistWithCovariance twist;
};
}  // namespace nav_msgs
#endif
