#include "geometry_msgs/Twist.h"
