#ifndef VP_STUB_STD_MSGS_HEADER_H_
#define VP_STUB_STD_MSGS_HEADER_H_
#include <string>
#include "ros/time.h"
namespace std_msgs {
struct Header {
  uint32_t seq = 0;
  ros::Time stamp;
  std::string frame_id;
};
}  // namespace std_msgs
#endif
