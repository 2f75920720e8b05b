#ifndef VP_STANDIN_ICP_H
#define VP_STANDIN_ICP_H
#include <functional>
#include "builder/data/cloud_types.h"

namespace vp {
struct IcpQuestion {
  static_map::data::InnerPointCloudData::Ptr source, target;
  Eigen::Matrix4d guess;
};
struct IcpAnswer {
  Eigen::Matrix4d result = Eigen::Matrix4d::Identity();
  double score = 0;
};
// Empty: the stand-in matches for real.  Must not be changed while in use.
std::function<bool(const IcpQuestion&, IcpAnswer*)>& icp_script();
}  // namespace vp
#endif
