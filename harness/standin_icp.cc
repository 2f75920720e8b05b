// Stands in for the matcher that needs a library which is not installed here.
// What it answers can be scripted; otherwise it uses the fast matcher on its
// own copies of the clouds.
#include "standin_icp.h"

#include "registrators/icp_fast.h"
#include "registrators/icp_pointmatcher.h"

namespace vp {
std::function<bool(const IcpQuestion&, IcpAnswer*)>& icp_script() {
  static std::function<bool(const IcpQuestion&, IcpAnswer*)> f;
  return f;
}
}  // namespace vp

namespace static_map {
namespace registrator {

struct IcpUsingPointMatcherMem {
  data::InnerPointCloudData::Ptr source, target;
};

IcpUsingPointMatcher::IcpUsingPointMatcher(const std::string&) : Interface(), inner_(new IcpUsingPointMatcherMem) { type_ = kIcpPM; }
IcpUsingPointMatcher::~IcpUsingPointMatcher() {}
void IcpUsingPointMatcher::SetInputSource(InnerCloudPtr cloud) { if (cloud && cloud->GetInnerCloud() && !cloud->GetInnerCloud()->points.empty()) inner_->source = cloud; }
void IcpUsingPointMatcher::SetInputTarget(InnerCloudPtr cloud) { if (cloud && cloud->GetInnerCloud() && !cloud->GetInnerCloud()->points.empty()) inner_->target = cloud; }
void IcpUsingPointMatcher::loadConfig(const std::string&) {}
void IcpUsingPointMatcher::loadDefaultConfig() {}

bool IcpUsingPointMatcher::Align(const Eigen::Matrix4d& guess, Eigen::Matrix4d& result) {
  if (vp::icp_script()) {
    vp::IcpQuestion q{inner_->source, inner_->target, guess};
    vp::IcpAnswer a;
    const bool ok = vp::icp_script()(q, &a);
    result = a.result;
    final_score_ = a.score;
    return ok;
  }
  auto copy = [](const data::InnerPointCloudData::Ptr& c) {
    data::InnerCloudType::Ptr p(new data::InnerCloudType(*c->GetInnerCloud()));
    return data::InnerPointCloudData::Ptr(new data::InnerPointCloudData(p));
  };
  auto s = copy(inner_->source), t = copy(inner_->target);
  t->CalculateNormals();
  IcpFast fast;
  fast.SetInputSource(s);
  fast.SetInputTarget(t);
  const bool ok = fast.Align(guess, result);
  final_score_ = fast.GetFitnessScore();
  return ok && final_score_ >= 0.6;
}

}  // namespace registrator
}  // namespace static_map
