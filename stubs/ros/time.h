// Layout of the message library's time stamp, as far as it is used here.
#ifndef VP_STUB_ROS_TIME_H_
#define VP_STUB_ROS_TIME_H_
#include <stdint.h>
namespace ros {
class Time {
 public:
  uint32_t sec = 0, nsec = 0;
  Time() {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
};
}  // namespace ros
#endif
