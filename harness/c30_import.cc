// C30: recorded scans and sensor messages arrive complete and unchanged.
#include <sys/stat.h>

#include "gen.h"
#include "ros_node/kitti_reader.h"
#include "ros_node/msg_conversion.h"

extern "C" unsigned long __sanitizer_get_current_allocated_bytes();

using namespace vp;
using Cloud = static_map::MapBuilder::PointCloudType;

static std::vector<float> raw_scan(Rng& r, int n) {
  std::vector<float> d(4 * n);
  const bool wild = r.p(0.3);
  for (auto& v : d) v = wild ? any_float(r) : float(r.d(-80, 80));
  if (!wild) for (int i = 0; i < n; ++i) d[4 * i + 3] = r.d(0, 1);
  return d;
}

static void write_bytes(const std::string& f, const std::vector<float>& d, size_t bytes) {
  std::ofstream o(f, std::ios::binary | std::ios::trunc);
  o.write(reinterpret_cast<const char*>(d.data()), bytes);
  o.close();
  if (!o) harness_error("cannot write " + f);
}

static bool same_value(float a, float b) { return (std::isnan(a) && std::isnan(b)) || same_bits(a, b); }

// whether `c` holds exactly the first `n` points of `d`
static bool holds(const Cloud& c, const std::vector<float>& d, size_t n, std::string* why) {
  if (c.points.size() != n) {
    *why = fmt("%zu points instead of %zu", c.points.size(), n);
    return false;
  }
  for (size_t i = 0; i < n; ++i) {
    const auto& p = c.points[i];
    const float scaled = d[4 * i + 3] * 255;
    const bool in = same_value(p.intensity, scaled) || std::fabs(p.intensity - scaled) <= 1e-6 * std::fabs(scaled);
    if (!same_value(p.x, d[4 * i]) || !same_value(p.y, d[4 * i + 1]) || !same_value(p.z, d[4 * i + 2]) || !in) {
      *why = fmt("point %zu of %zu is (%g %g %g %g), recorded as (%g %g %g %g)", i, n, p.x, p.y, p.z, p.intensity,
                 d[4 * i], d[4 * i + 1], d[4 * i + 2], d[4 * i + 3]);
      return false;
    }
  }
  return true;
}

static int scan_size(Rng& r, bool may_be_large) {
  if (may_be_large && r.p(0.06)) return r.i(249000, 420000);
  if (r.p(0.1)) return 0;
  if (r.p(0.2)) return r.i(1, 3);
  if (r.p(0.1)) return r.i(15000, 130000);
  return r.i(4, 3000);
}

struct File {
  std::string name;
  std::vector<float> data;
  size_t bytes;
  bool gone = false;
};

static void scans(Rng& r) {
  std::string dir = "scans";
  if (r.p(0.2)) {
    dir += "/";
    dir += std::string(r.i(60, 120), 'd') + "/" + std::string(r.i(60, 120), 'e');
  }
  if (system(("rm -rf ./scans && mkdir -p " + dir).c_str())) harness_error("no scratch directory");
  const int nf = r.p(0.1) ? r.i(0, 1) : r.i(2, 12);
  std::map<std::string, File> files;
  const bool numbered = r.p(0.6);
  int number = r.i(0, 120);
  std::vector<std::string> order;
  for (int i = 0; i < nf; ++i) {
    File f;
    if (numbered) {
      f.name = fmt("%010d.bin", number);
      number += r.p(0.8) ? 1 : r.i(2, 2000);
    } else {
      const int len = r.i(1, 9);
      for (int k = 0; k < len; ++k) f.name += "0123456789abcABC_-"[r.i(0, 17)];
      f.name += r.p(0.8) ? ".bin" : "";
      if (f.name[0] == '-') f.name[0] = '0';
    }
    f.data = raw_scan(r, scan_size(r, true));
    f.bytes = f.data.size() * 4;
    if (r.p(0.25) && f.bytes) f.bytes -= r.i(1, std::min<int>(f.bytes, 40));
    if (files.count(f.name)) continue;
    order.push_back(f.name);
    files[f.name] = f;
  }
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.i(0, i - 1)]);
  for (auto& n : order) write_bytes(dir + "/" + n, files[n].data, files[n].bytes);
  if (r.p(0.3)) mkdir((dir + "/0subdirectory").c_str(), 0755);

  static_map::KittiReader reader;
  VP_REQUIRE(reader.ReadNext() == nullptr, "scan-out-of-nothing", "a reader without a directory returned a scan");
  reader.SetPointCloudDataPath(r.p(0.3) ? dir + "/" : dir);
  bool any_gone = false;
  if (r.p(0.25)) {
    for (auto& f : files)
      if (r.p(0.3)) {
        f.second.gone = any_gone = true;
        if (unlink((dir + "/" + f.first).c_str())) harness_error("unlink");
      }
  }
  const int rounds = r.p(0.2) && !any_gone ? 2 : 1;
  for (int round = 0; round < rounds; ++round) {
    if (round) reader.SetPointCloudDataPath(dir);
    std::vector<static_map::MapBuilder::PointCloudPtr> got;
    int calls = 0;
    for (; calls < int(files.size()) + 3; ++calls) {
      auto c = reader.ReadNext();
      if (c) got.push_back(c);
      else if (!any_gone && calls < int(files.size())) {
        violation("scan-missing", fmt("no scan at call %d of %zu files", calls, files.size()));
        return;
      }
    }
    size_t k = 0;
    size_t biggest = 0;
    for (auto& f : files) {
      const size_t n = f.second.gone ? 0 : f.second.bytes / 16;
      biggest = std::max(biggest, n);
      if (f.second.gone) {
        if (k < got.size() && got[k]->empty()) ++k;  // an empty scan is as good as none
        continue;
      }
      // a vanished file next to an empty one cannot be told apart
      if (n == 0 && any_gone) {
        if (k < got.size() && got[k]->empty()) ++k;
        continue;
      }
      VP_REQUIRE(k < got.size(), "scan-missing", fmt("%zu scans out of %zu files, %s missing", got.size(), files.size(), f.first.c_str()));
      if (k >= got.size()) return;
      std::string why;
      const bool ok = holds(*got[k], f.second.data, n, &why);
      VP_REQUIRE(ok, "scan-changed", fmt("%s (%zu bytes, %d files): %s", f.first.c_str(), f.second.bytes, int(files.size()), why.c_str()));
      ++k;
    }
    VP_REQUIRE(k == got.size(), "scan-twice", fmt("%zu scans out of %zu files", got.size(), files.size()));
    cover(fmt("scans %zu %d %d %d %d", files.size(), numbered, any_gone, round, biggest > 250000 ? 2 : biggest > 1000));
    sample(fmt("%zu files, largest %zu points, %zu scans", files.size(), biggest, got.size()));
  }

  // single scans by number
  for (int i = 0; i < 6; ++i) {
    int index = numbered ? number - r.i(0, 8) : r.i(0, 100);
    if (index < 0) index = 0;
    if (!files.empty() && numbered && r.p(0.6)) {
      auto it = files.begin();
      std::advance(it, r.i(0, files.size() - 1));
      index = atoi(it->first.c_str());
    }
    const std::string name = fmt("%010d.bin", index);
    auto it = files.find(name);
    auto c = reader.ReadFromBin(index);
    if (it == files.end() || it->second.gone) {
      VP_REQUIRE(!c || c->empty(), "scan-out-of-nothing", fmt("%s does not exist but has %zu points", name.c_str(), c ? c->size() : 0));
    } else {
      VP_REQUIRE(c != nullptr, "numbered-scan-missing", fmt("%s exists but is not read (directory name of %zu characters)", name.c_str(), dir.size()));
      std::string why;
      const bool ok = c == nullptr || holds(*c, it->second.data, it->second.bytes / 16, &why);
      VP_REQUIRE(ok, "numbered-scan-changed", name + ": " + why);
    }
  }
}

// every prefix of a small file
static void truncations(Rng& r) {
  if (system("rm -rf ./cut && mkdir cut")) harness_error("no scratch directory");
  const auto d = raw_scan(r, r.i(1, 5));
  static_map::KittiReader reader;
  for (size_t n = 0; n <= d.size() * 4; ++n) {
    write_bytes("cut/0000000007.bin", d, n);
    reader.SetPointCloudDataPath("cut");
    auto c = r.p(0.5) ? reader.ReadNext() : reader.ReadFromBin(7);
    std::string why = "no scan at all";
    const bool ok = c ? holds(*c, d, n / 16, &why) : n / 16 == 0;
    VP_REQUIRE(ok, "cut-scan-wrong", fmt("cut after %zu bytes: %s", n, why.c_str()));
  }
  cover(fmt("truncations %zu", d.size()));

  // a recording has thousands of scans
  const size_t before = __sanitizer_get_current_allocated_bytes();
  for (int i = 0; i < 20; ++i) {
    auto c = reader.ReadFromBin(7);
    VP_REQUIRE(c != nullptr, "numbered-scan-missing", "the same scan once more");
  }
  const size_t after = __sanitizer_get_current_allocated_bytes();
  VP_REQUIRE(after < before + 1000000, "memory-grows", fmt("%zu bytes after dropping 20 small scans", after - before));
}

static double any(Rng& r) { return r.p(0.1) ? double(any_float(r)) : r.d(-1e3, 1e3); }
static bool eq(double a, double b) { return memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)); }

static std_msgs::Header header(Rng& r) {
  std_msgs::Header h;
  h.seq = r.u64();
  h.stamp.sec = r.p(0.2) ? (r.p(0.5) ? 0 : 4294967295u) : r.u64();
  h.stamp.nsec = r.p(0.2) ? (r.p(0.5) ? 0 : 999999999) : r.i(0, 999999999);
  const int n = r.i(0, 30);
  for (int i = 0; i < n; ++i) h.frame_id += char(r.i(32, 126));
  return h;
}
static bool same_header(const static_map::data::Header& l, const std_msgs::Header& h) {
  return l.seq == h.seq && l.frame_id == h.frame_id && l.stamp == make_time(h.stamp.sec, h.stamp.nsec);
}
template <class A>
static void fill(Rng& r, A& a) {
  for (auto& v : a) v = any(r);
}
template <class A>
static bool same_array(const double* l, const A& a) {
  for (size_t i = 0; i < a.size(); ++i)
    if (!eq(l[i], a[i])) return false;
  return true;
}

static void messages(Rng& r) {
  {
    sensor_msgs::Imu m;
    m.header = header(r);
    m.orientation = {any(r), any(r), any(r), any(r)};
    m.angular_velocity = {any(r), any(r), any(r)};
    m.linear_acceleration = {any(r), any(r), any(r)};
    fill(r, m.orientation_covariance);
    fill(r, m.angular_velocity_covariance);
    fill(r, m.linear_acceleration_covariance);
    const auto l = static_map_ros::ToLocalImu(m);
    VP_REQUIRE(same_header(l.header, m.header), "imu-header", "");
    VP_REQUIRE(eq(l.orientation.x(), m.orientation.x) && eq(l.orientation.y(), m.orientation.y) && eq(l.orientation.z(), m.orientation.z) &&
               eq(l.orientation.w(), m.orientation.w), "imu-orientation", "");
    VP_REQUIRE(eq(l.angular_velocity[0], m.angular_velocity.x) && eq(l.angular_velocity[1], m.angular_velocity.y) &&
               eq(l.angular_velocity[2], m.angular_velocity.z), "imu-angular-velocity", "");
    VP_REQUIRE(eq(l.linear_acceleration[0], m.linear_acceleration.x) && eq(l.linear_acceleration[1], m.linear_acceleration.y) &&
               eq(l.linear_acceleration[2], m.linear_acceleration.z), "imu-acceleration", "");
    VP_REQUIRE(same_array(l.orientation_covariance, m.orientation_covariance), "imu-orientation-covariance", "");
    VP_REQUIRE(same_array(l.angular_velocity_covariance, m.angular_velocity_covariance), "imu-angular-velocity-covariance", "");
    VP_REQUIRE(same_array(l.linear_acceleration_covariance, m.linear_acceleration_covariance), "imu-acceleration-covariance", "");
  }
  {
    nav_msgs::Odometry m;
    m.header = header(r);
    m.child_frame_id = header(r).frame_id;
    m.pose.pose.position = {any(r), any(r), any(r)};
    m.pose.pose.orientation = {any(r), any(r), any(r), any(r)};
    m.twist.twist.linear = {any(r), any(r), any(r)};
    m.twist.twist.angular = {any(r), any(r), any(r)};
    fill(r, m.pose.covariance);
    fill(r, m.twist.covariance);
    const auto l = static_map_ros::ToLocalOdom(m);
    const auto &p = m.pose.pose.position;
    const auto &q = m.pose.pose.orientation;
    VP_REQUIRE(same_header(l.header, m.header), "odom-header", "");
    VP_REQUIRE(l.child_frame_id == m.child_frame_id, "odom-child-frame", fmt("'%s' instead of '%s'", l.child_frame_id.c_str(), m.child_frame_id.c_str()));
    VP_REQUIRE(eq(l.pose.pose.position[0], p.x) && eq(l.pose.pose.position[1], p.y) && eq(l.pose.pose.position[2], p.z), "odom-position", "");
    VP_REQUIRE(eq(l.pose.pose.orientation.x(), q.x) && eq(l.pose.pose.orientation.y(), q.y) && eq(l.pose.pose.orientation.z(), q.z) &&
               eq(l.pose.pose.orientation.w(), q.w), "odom-orientation", "");
    VP_REQUIRE(eq(l.twist.twist.linear[0], m.twist.twist.linear.x) && eq(l.twist.twist.linear[1], m.twist.twist.linear.y) &&
               eq(l.twist.twist.linear[2], m.twist.twist.linear.z), "odom-linear", "");
    VP_REQUIRE(eq(l.twist.twist.angular[0], m.twist.twist.angular.x) && eq(l.twist.twist.angular[1], m.twist.twist.angular.y) &&
               eq(l.twist.twist.angular[2], m.twist.twist.angular.z), "odom-angular", "");
    VP_REQUIRE(same_array(l.pose.covariance, m.pose.covariance), "odom-pose-covariance", "");
    VP_REQUIRE(same_array(l.twist.covariance, m.twist.covariance), "odom-twist-covariance", "");
  }
  {
    sensor_msgs::NavSatFix m;
    m.header = header(r);
    m.status.status = r.i(-1, 2);
    m.status.service = r.i(0, 65535);
    m.latitude = any(r);
    m.longitude = any(r);
    m.altitude = any(r);
    fill(r, m.position_covariance);
    m.position_covariance_type = r.i(0, 3);
    const auto l = static_map_ros::ToLocalNavSatMsg(m);
    VP_REQUIRE(same_header(l.header, m.header), "position-header", "");
    VP_REQUIRE(l.status.status == m.status.status && l.status.service == m.status.service, "position-status", "");
    VP_REQUIRE(eq(l.latitude, m.latitude) && eq(l.longtitude, m.longitude) && eq(l.altitude, m.altitude), "position-coordinates", "");
    VP_REQUIRE(same_array(l.position_covariance, m.position_covariance) && l.position_covariance_type == m.position_covariance_type,
               "position-covariance", "");
  }
  cover("messages");
}

static void one(long id, Rng& r) {
  if (id % 4 == 0) truncations(r);
  else if (id % 4 == 1) for (int i = 0; i < 50; ++i) messages(r);
  else scans(r);
}

int main(int argc, char** argv) { return vp::run(argc, argv, one); }
