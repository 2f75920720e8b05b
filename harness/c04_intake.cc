// C04: scan intake, pre-processing and delivery.
#include <chrono>
#include <thread>

#include "builder/data/data_collector.h"
#include "filters.h"

using namespace vp;
using static_map::data::DataCollector;
using static_map::data::DataCollectorOptions;

extern "C" void vp_jitter(unsigned long) __attribute__((weak));

typedef pcl::PointCloud<pcl::PointXYZI> Pcl;

struct Chain { std::string xml; std::function<InnerCloudType::Ptr(const InnerCloudType&)> f; bool ordered; std::string name; };

static InnerCloudType::Ptr select(const InnerCloudType& in, const std::function<bool(const InnerPointType&)>& keep) {
  InnerCloudType::Ptr o(new InnerCloudType);
  o->stamp = in.stamp;
  for (auto& p : in.points) if (keep(p)) o->points.push_back(p);
  return o;
}
static double dist(const InnerPointType& p) { return std::sqrt(double(p.x) * p.x + double(p.y) * p.y + double(p.z) * p.z); }

static Chain chain(Rng& r) {
  const std::string head = "<filters>", tail = "</filters>";
  auto par = [](const char* n, double v) { return fmt("<param type=\"1\" name=\"%s\"> %g </param>", n, v); };
  switch (r.i(0, 6)) {
    case 0: return {head + tail, [](const InnerCloudType& c) { return copy_cloud(c); }, true, "none"};
    case 1: {
      const double a = r.i(0, 8) + .5, b = r.i(10, 40) + .5;
      return {head + "<filter name=\"Range\">" + par("min_range", a) + par("max_range", b) + "</filter>" + tail,
              [=](const InnerCloudType& c) { return select(c, [=](const InnerPointType& p) { return dist(p) >= a && dist(p) <= b; }); }, true, "range"};
    }
    case 2: {
      const double a = r.i(-15, 0) + .5, b = r.i(1, 18) + .5;
      return {head + "<filter name=\"AxisRange\">" + par("min", a) + par("max", b) + "</filter>" + tail,
              [=](const InnerCloudType& c) { return select(c, [=](const InnerPointType& p) { return p.z >= a && p.z <= b; }); }, true, "axis"};
    }
    case 3: {
      const double a = r.i(1, 6) + .5, b = r.i(8, 40) + .5;
      return {head + "<filter name=\"BoundingBoxRemoval\">" + par("min_x", -a) + par("max_x", a) + par("min_y", -a) + par("max_y", a) + par("min_z", -a) + par("max_z", a) + "</filter>" +
                  "<filter name=\"Range\">" + par("max_range", b) + "</filter>" + tail,
              [=](const InnerCloudType& c) { return select(c, [=](const InnerPointType& p) {
                return !(std::fabs(p.x) <= a && std::fabs(p.y) <= a && std::fabs(p.z) <= a) && dist(p) <= b; }); }, true, "box+range"};
    }
    case 4: return {head + "<filter name=\"Range\">" + par("min_range", 900) + par("max_range", 1000) + "</filter>" + tail,
                    [](const InnerCloudType& c) { return select(c, [](const InnerPointType&) { return false; }); }, true, "nothing left"};
    case 5: {
      const double a = r.i(10, 40) + .5;
      return {head + "<filter name=\"Range\">" + par("max_range", a) + "</filter><filter name=\"AxisRange\">" + par("min", -4.5) + "</filter>" + tail,
              [=](const InnerCloudType& c) { return select(c, [=](const InnerPointType& p) { return dist(p) <= a && p.z >= -4.5; }); }, true, "range+axis"};
    }
    default: {
      const double v = r.pick(std::vector<double>{0.5, 1, 3});
      return {head + "<filter name=\"VoxelGrid\">" + par("voxel_size", v) + "</filter>" + tail,
              [=](const InnerCloudType& c) {
                InnerCloudType::Ptr o(new InnerCloudType);
                o->stamp = c.stamp;
                if (c.points.empty()) return o;
                VoxelGrid g;
                g.SetValue("voxel_size", float(v));
                g.SetInputCloud(copy_cloud(c));
                g.Filter(o);
                return o; }, false, "voxel"};
    }
  }
}

static Pcl::Ptr scan(Rng& r, uint64_t us, bool empty) {
  Pcl::Ptr c(new Pcl);
  c->header.stamp = us;
  const int n = empty ? 0 : r.p(0.1) ? r.i(1, 3) : r.i(5, 120);
  const double span = r.p(0.1) ? 2 : 25;
  while (int(c->size()) < n) {
    pcl::PointXYZI p;
    p.x = r.d(-span, span); p.y = r.d(-span, span); p.z = r.d(-span, span); p.intensity = r.i(0, 255);
    const double d = dist(pt(p.x, p.y, p.z)) + .5;
    if (std::fabs(d - std::round(d)) < 1e-3) continue;
    c->push_back(p);
  }
  return c;
}

static bool close_set(const InnerCloudType& a, const InnerCloudType& b) {
  if (a.points.size() != b.points.size()) return false;
  typedef std::array<float, 5> K;
  auto key = [](const InnerPointType& p) { return K{{p.x, p.y, p.z, p.intensity, p.factor}}; };
  std::vector<K> x, y;
  for (auto& p : a.points) x.push_back(key(p));
  for (auto& p : b.points) y.push_back(key(p));
  std::sort(x.begin(), x.end());
  std::sort(y.begin(), y.end());
  for (size_t i = 0; i < x.size(); ++i) for (int k = 0; k < 5; ++k) if (std::fabs(x[i][k] - y[i][k]) > 1e-4f * (1 + std::fabs(x[i][k]))) return false;
  return true;
}

static void session(Rng& r) {
  if (vp_jitter) vp_jitter(r.u64());
  const int acc = r.p(0.4) ? 1 : r.i(2, 5);
  const Chain ch = chain(r);
  Factory factory;
  pugi::xml_document doc;
  if (!doc.load_string(ch.xml.c_str())) harness_error("own xml");
  factory.InitFromXmlNode(doc.first_child());
  DataCollectorOptions opt;
  opt.accumulate_cloud_num = acc;

  const int n = r.p(0.2) ? r.i(0, 4) : r.p(0.04) ? r.i(300, 900) : r.i(1, vp::ctx().thorough ? 150 : 60);
  const bool empties = r.p(0.35);
  std::vector<Pcl::Ptr> in;
  uint64_t us = r.p(0.2) ? r.i(0, 10) : 1500000000000000ull + r.i(0, 1000000000);
  for (int i = 0; i < n; ++i) {
    in.push_back(scan(r, us, empties && r.p(0.3)));
    us += r.i(1, 200000);
  }
  int groups = n / acc;
  const std::string d = fmt("scans %d accumulated %d chain %s empties %d", n, acc, ch.name.c_str(), empties);
  // expectation
  std::vector<InnerCloudType::Ptr> want;
  std::vector<size_t> before;
  for (int g = 0; g < groups; ++g) {
    InnerCloudType c;
    const uint64_t t = in[g * acc]->header.stamp;
    c.stamp = make_time(t / 1000000, t % 1000000 * 1000);
    for (int k = 0; k < acc; ++k) for (auto& p : *in[g * acc + k]) c.points.push_back(pt(p.x, p.y, p.z, p.intensity, 0));
    before.push_back(c.points.size());
    for (size_t i = 0; i < c.points.size(); ++i) c.points[i].factor = float(double(i) / c.points.size());
    auto w = ch.f(c);
    if (w->points.empty()) { cover(fmt("skipped %s empty %d", ch.name.c_str(), c.points.empty())); count("groups without points"); before.pop_back(); continue; }
    want.push_back(w);
  }
  groups = want.size();

  const int style = r.i(0, 3);  // 0 burst, 1 paced, 2 consumer first, 3 nothing taken until everything is ready
  const bool quit_early = r.p(0.15);
  const int quit_at = r.i(0, groups);
  std::unique_ptr<DataCollector> dc(new DataCollector(opt, &factory));
  std::atomic<bool> produced{false};
  std::vector<uint64_t> pace;
  for (int i = 0; i < n; ++i) pace.push_back(r.u64());
  std::thread producer([&] {
    for (int i = 0; i < n; ++i) {
      dc->AddSensorData<pcl::PointXYZI>(in[i]);
      // the caller's buffer is its own again
      for (auto& p : *in[i]) p.x = p.y = p.z = p.intensity = -12345.f;
      if (style == 1 && pace[i] % 4 == 0) std::this_thread::sleep_for(std::chrono::microseconds(pace[i] / 4 % 3000));
    }
    produced = true;
  });
  std::vector<InnerCloudType::Ptr> got;
  if (style == 0 || style == 3) producer.join();
  if (style == 3) {
    // until the number of waiting scans has settled
    size_t was = 0;
    for (int same = 0, k = 0; same < 20 && k < 4000; ++k) {
      const size_t is = dc->GetRemainingCloudSize();
      same = is == was ? same + 1 : 0;
      was = is;
      std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    cover(fmt("waiting %d", was < 10 ? 1 : was < 100 ? 10 : 100));
  }
  auto last = std::chrono::steady_clock::now();
  bool stuck = false, none_left = false, early = false;
  uint64_t spin = r.u64();
  while (int(got.size()) < (quit_early ? quit_at : groups)) {
    const bool counted = spin >> 63 && produced;
    const size_t left = counted ? dc->GetRemainingCloudSize() : 1;
    auto c = dc->GetNewCloud();
    if (c) {
      if (none_left || left == 0) early = true;
      got.push_back(c);
      last = std::chrono::steady_clock::now();
      continue;
    }
    if (left == 0) none_left = true;
    if (std::chrono::steady_clock::now() - last > std::chrono::seconds(40)) { stuck = true; break; }
    spin = spin * 6364136223846793005ull + 1;
    if (spin >> 62) std::this_thread::sleep_for(std::chrono::microseconds(200)); else std::this_thread::yield();
  }
  if (producer.joinable()) producer.join();
  VP_REQUIRE(!stuck, "scan-not-delivered", d + fmt(" %zu of %d after 40 s", got.size(), groups));
  VP_REQUIRE(!early, "delivered-after-none-was-left", d);
  if (!quit_early && !stuck) {
    std::this_thread::sleep_for(std::chrono::milliseconds(r.p(0.1) ? 20 : 1));
    // groups of which nothing remains may still be on their way through the filters
    last = std::chrono::steady_clock::now();
    bool drained = dc->GetRemainingCloudSize() == 0, more = bool(dc->GetNewCloud());
    while (!drained && !more && std::chrono::steady_clock::now() - last < std::chrono::seconds(40)) {
      std::this_thread::sleep_for(std::chrono::microseconds(200));
      drained = dc->GetRemainingCloudSize() == 0;
      more = bool(dc->GetNewCloud());
    }
    VP_REQUIRE(!more, "more-delivered-than-accepted", d);
    VP_REQUIRE(drained || more, "clouds-left-without-any-to-deliver", d);
    // the intake can be used again after everything was cleared
    dc->ClearAllCloud();
    VP_REQUIRE(dc->GetRemainingCloudSize() == 0, "not-cleared", d);
  }
  dc.reset();
  for (size_t g = 0; g < got.size(); ++g) {
    const InnerCloudType& w = *want[g];
    const InnerCloudType& c = *got[g];
    VP_REQUIRE(same_stamp(c.stamp, w.stamp), "wrong-stamp", d + fmt(" group %zu: %lu instead of %lu", g, c.stamp.ToNanoSec(), w.stamp.ToNanoSec()));
    if (ch.ordered) {
      bool ok = c.points.size() == w.points.size();
      size_t i = 0;
      for (; ok && i < w.points.size(); ++i) ok = same_xyzi(c.points[i], w.points[i]);
      VP_REQUIRE(ok, "wrong-points", d + fmt(" group %zu point %zu: %zu instead of %zu", g, i, c.points.size(), w.points.size()));
      if (ok) {
        double worst = 0;
        bool up = true;
        for (i = 0; i < w.points.size(); ++i) {
          worst = std::max(worst, std::fabs(double(c.points[i].factor) - w.points[i].factor));
          if (i && c.points[i].factor <= c.points[i - 1].factor) up = false;
          if (!(c.points[i].factor >= 0 && c.points[i].factor <= 1)) up = false;
        }
        VP_REQUIRE(up && worst <= 1.5 / std::max<size_t>(1, before[g]), "wrong-time-factor", d + fmt(" group %zu of %zu points off by %g", g, before[g], worst));
      }
    } else {
      VP_REQUIRE(close_set(c, w), "wrong-points", d + fmt(" group %zu: %zu instead of %zu", g, c.points.size(), w.points.size()));
    }
    cover(fmt("%s acc %d style %d empty %d%d", ch.name.c_str(), acc > 1, style, before[g] == 0, w.points.empty()));
  }
  count("scans", n);
  count("groups delivered", got.size());
  if (quit_early) count("destroyed with work left");
  if (vp_jitter) vp_jitter(0);
}

// other intake calls while scans are flowing
static void mixed(Rng& r) {
  Factory factory;
  DataCollectorOptions opt;
  DataCollector dc(opt, &factory);
  std::vector<Pcl::Ptr> in;
  const int n = r.i(10, 60);
  for (int i = 0; i < n; ++i) in.push_back(scan(r, 1000000 + i * 1000, false));
  std::atomic<bool> stop{false};
  std::thread producer([&] { for (auto& c : in) { dc.AddSensorData<pcl::PointXYZI>(c); std::this_thread::yield(); } });
  std::thread watcher([&] { while (!stop) { size_t s = dc.GetRemainingCloudSize(); if (s > in.size()) violation("remaining-size", fmt("%zu", s)); std::this_thread::yield(); } });
  std::thread imu([&] {
    for (int i = 0; i < 200; ++i) {
      static_map::data::ImuMsg m;
      m.header.stamp = make_time(1, i * 1000);
      m.angular_velocity.setZero(); m.linear_acceleration.setZero();
      dc.AddSensorData(m);
      if (i % 20 == 19) dc.TrimSensorData(static_map::data::kImuData, make_time(1, i * 900));
    }
  });
  std::vector<InnerCloudType::Ptr> got;
  const bool clears = r.p(0.5);
  size_t cleared = 0;
  auto last = std::chrono::steady_clock::now();
  uint64_t seen = 0;
  while (true) {
    if (clears && r.p(0.02)) { dc.ClearAllCloud(); ++cleared; }
    auto c = dc.GetNewCloud();
    if (c) {
      VP_REQUIRE(c->stamp.ToNanoSec() > seen, "order", "delivered out of order");
      seen = c->stamp.ToNanoSec();
      got.push_back(c);
      last = std::chrono::steady_clock::now();
    } else {
      std::this_thread::yield();
    }
    if (int(got.size()) == n) break;
    if (cleared && std::chrono::steady_clock::now() - last > std::chrono::milliseconds(60)) break;
    if (std::chrono::steady_clock::now() - last > std::chrono::seconds(40)) { VP_REQUIRE(false, "scan-not-delivered", "mixed"); break; }
  }
  producer.join(); imu.join();
  stop = true;
  watcher.join();
  cover(fmt("mixed clears %d", clears));
}

int main(int argc, char** argv) {
  freopen("/dev/null", "w", stdout);
  return vp::run(argc, argv, [](long id, Rng& r) {
    shuffle_threads(r);
    if (id % 8 == 7) mixed(r); else session(r);
  });
}
