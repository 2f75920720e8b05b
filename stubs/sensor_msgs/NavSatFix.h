#ifndef VP_STUB_SENSOR_MSGS_NAVSATFIX_H_
#define VP_STUB_SENSOR_MSGS_NAVSATFIX_H_
#include <boost/array.hpp>
#include <boost/shared_ptr.hpp>
#include "std_msgs/Header.h"
namespace sensor_msgs {
struct NavSatStatus {
  int8_t status = 0;
  uint16_t service = 0;
};
struct NavSatFix {
  typedef boost::shared_ptr<NavSatFix const> ConstPtr;
  std_msgs::Header header;
  NavSatStatus status;
  double latitude = 0, longitude = 0, altitude = 0;
  boost::array<double, 9> position_covariance;
  uint8_t position_covariance_type = 0;
};
}  // namespace sensor_msgs
#endif
