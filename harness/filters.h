// Shared by the filter harnesses.
#ifndef VP_FILTERS_H_
#define VP_FILTERS_H_

#include <pthread.h>

#include "gen.h"
#include "pre_processors/filter_axis_range.h"
#include "pre_processors/filter_bounding_box.h"
#include "pre_processors/filter_factory.h"
#include "pre_processors/filter_ground_removal.h"
#include "pre_processors/filter_ground_removal2.h"
#include "pre_processors/filter_random_sample.h"
#include "pre_processors/filter_range.h"
#include "pre_processors/filter_range_image.h"
#include "pre_processors/filter_statistic_removal.h"
#include "pre_processors/filter_voxel_grid.h"

extern "C" void vp_omp_force_threads(int) __attribute__((weak));
extern "C" void vp_omp_seed(unsigned long) __attribute__((weak));

namespace vp {
using namespace static_map::pre_processers::filter;

inline void shuffle_threads(Rng& r) {
  if (vp_omp_force_threads) vp_omp_force_threads(r.p(0.3) ? 0 : r.i(1, 12));
  if (vp_omp_seed) vp_omp_seed(r.u64());
}

inline InnerCloudType::Ptr copy_cloud(const InnerCloudType& c) {
  InnerCloudType::Ptr n(new InnerCloudType);
  n->points = c.points;
  n->stamp = c.stamp;
  return n;
}

// kept/removed lists: ascending, disjoint, complete; output = kept points in order
inline void check_lists(const std::string& name, const InnerCloudType& in, const InnerCloudType& out, const std::vector<int>& kept,
                        const std::vector<int>& removed, const std::string& d, bool complete = true, bool ordered = true) {
  auto asc = [&](const std::vector<int>& v) {
    for (size_t i = 0; i < v.size(); ++i)
      if (v[i] < 0 || v[i] >= int(in.points.size()) || (i && v[i] <= v[i - 1])) return false;
    return true;
  };
  VP_REQUIRE(asc(kept) && asc(removed), name + ":list-not-ascending", d + fmt(" kept %zu removed %zu", kept.size(), removed.size()));
  std::vector<int> all;
  if (asc(kept) && asc(removed)) {
    std::set_intersection(kept.begin(), kept.end(), removed.begin(), removed.end(), std::back_inserter(all));
    VP_REQUIRE(all.empty(), name + ":index-in-both-lists", d);
    if (complete)
      VP_REQUIRE(kept.size() + removed.size() == in.points.size(), name + ":lists-incomplete", d + fmt(" kept %zu removed %zu of %zu", kept.size(), removed.size(), in.points.size()));
    bool same = kept.size() == out.points.size();
    if (same && ordered) {
      for (size_t i = 0; same && i < kept.size(); ++i) same = same_point(out.points[i], in.points[kept[i]]);
    } else if (same) {
      auto key = [](const InnerPointType& p) { std::string s(20, 0); memcpy(&s[0], &p.x, 4); memcpy(&s[4], &p.y, 4); memcpy(&s[8], &p.z, 4); memcpy(&s[12], &p.intensity, 4); memcpy(&s[16], &p.factor, 4); return s; };
      std::multiset<std::string> a, b;
      for (size_t i = 0; i < kept.size(); ++i) { a.insert(key(out.points[i])); b.insert(key(in.points[kept[i]])); }
      same = a == b;
    }
    VP_REQUIRE(same, name + ":output-is-not-the-kept-points", d + fmt(" kept %zu output %zu", kept.size(), out.points.size()));
  }
  VP_REQUIRE(same_stamp(in.stamp, out.stamp), name + ":stamp-changed", d);
}

inline void in_small_stack(const std::function<void()>& fn, size_t bytes) {
  struct A { const std::function<void()>* f; } a{&fn};
  pthread_attr_t at;
  pthread_attr_init(&at);
  if (pthread_attr_setstacksize(&at, bytes)) harness_error("stack size");
  pthread_t t;
  if (pthread_create(&t, &at, [](void* p) -> void* { (*static_cast<A*>(p)->f)(); return nullptr; }, &a)) harness_error("thread");
  pthread_join(t, nullptr);
  pthread_attr_destroy(&at);
}

}  // namespace vp
#endif  // VP_FILTERS_H_
