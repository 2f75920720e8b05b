// C05: GPS and odometry look-ups.
#include <thread>

#include "builder/data/data_collector.h"
#include "gen.h"
#include "pcl/io/pcd_io.h"

using namespace vp;
using static_map::data::DataCollector;
using static_map::data::NavSatFixMsg;
using static_map::data::OdomMsg;

extern "C" void vp_jitter(unsigned long) __attribute__((weak));

// ---- geodetic -> local east-north-up, written from the WGS84 definition
typedef long double LD;
struct V { LD x, y, z; };
static V ecef(LD lat, LD lon, LD h) {
  const LD a = 6378137.0L, f = 1.0L / 298.257223563L, e2 = f * (2 - f), k = acosl(-1.0L) / 180;
  const LD s = sinl(lat * k), c = cosl(lat * k), n = a / sqrtl(1 - e2 * s * s);
  return {(n + h) * c * cosl(lon * k), (n + h) * c * sinl(lon * k), (n * (1 - e2) + h) * s};
}
static Eigen::Vector3d enu(const Eigen::Vector3d& ref, const Eigen::Vector3d& p) {
  const LD k = acosl(-1.0L) / 180, la = ref[0] * k, lo = ref[1] * k;
  const V o = ecef(ref[0], ref[1], ref[2]), q = ecef(p[0], p[1], p[2]);
  const LD dx = q.x - o.x, dy = q.y - o.y, dz = q.z - o.z;
  return Eigen::Vector3d(-sinl(lo) * dx + cosl(lo) * dy, -sinl(la) * cosl(lo) * dx - sinl(la) * sinl(lo) * dy + cosl(la) * dz,
                         cosl(la) * cosl(lo) * dx + cosl(la) * sinl(lo) * dy + sinl(la) * dz);
}

struct Gps { uint64_t ns; bool fix; Eigen::Vector3d lla, pos; };
struct Odo { uint64_t ns; Eigen::Matrix4d raw, rel; };

static SimpleTime tm(uint64_t ns) { return make_time(ns / 1000000000ull, ns % 1000000000ull); }

static NavSatFixMsg gps_msg(const Gps& g) {
  NavSatFixMsg m;
  m.header.stamp = tm(g.ns);
  m.status.status = g.fix ? 0 : -1;
  m.status.service = 1;
  m.latitude = g.lla[0]; m.longtitude = g.lla[1]; m.altitude = g.lla[2];
  return m;
}
static OdomMsg odo_msg(const Odo& o) {
  OdomMsg m;
  m.header.stamp = tm(o.ns);
  m.SetPose(o.raw);
  return m;
}

// steps stay clear of the limit so that the answer does not depend on rounding
static uint64_t gap(Rng& r, double limit) {
  switch (r.i(0, 9)) {
    case 0: return r.i(5000, 50000);
    case 1: return uint64_t((limit + r.d(0.001, 3 * limit)) * 1e9);
    case 2: return uint64_t((limit - r.d(0.001, 0.1 * limit)) * 1e9);
    case 3: return uint64_t((limit + 2e-5) * 1e9);
    case 4: return uint64_t((limit - 2e-5) * 1e9);
    default: return uint64_t(r.d(0.01, 0.6) * limit * 1e9);
  }
}
static uint64_t start(Rng& r) {
  switch (r.i(0, 3)) {
    case 0: return r.i(0, 2000000000);
    case 1: return 999999999ull * r.i(1, 4);
    default: return 1500000000ull * 1000000000ull + r.i(0, 4000000000ll);
  }
}

static std::vector<Gps> gps_stream(Rng& r, int n) {
  std::vector<Gps> v;
  uint64_t t = start(r);
  Eigen::Vector3d p(r.p(0.2) ? r.pick(std::vector<double>{0, 89.9, -89.9, 45}) : r.d(-80, 80), r.p(0.2) ? 179.9999 : r.d(-180, 180), r.d(-50, 3000));
  const double pf = r.p(0.3) ? 1.0 : r.d(0.3, 0.97);
  const double speed = r.p(0.2) ? 1e-2 : 3e-5;
  bool fix = r.p(0.5);
  for (int i = 0; i < n; ++i) {
    if (i == 0 || r.p(0.3)) fix = r.p(pf);
    v.push_back({t, fix, p, Eigen::Vector3d::Zero()});
    t += gap(r, 0.2);
    p += Eigen::Vector3d(r.d(-speed, speed), r.d(-speed, speed), r.d(-3, 3));
    if (p[1] > 180) p[1] -= 360;
    if (p[1] < -180) p[1] += 360;
    p[0] = std::max(-89.99, std::min(89.99, p[0]));
  }
  // before the first fix there is no frame to store positions in
  size_t first = 0;
  while (first < v.size() && !v[first].fix) ++first;
  for (auto& g : v) g.pos = first < v.size() ? enu(v[first].lla, g.lla) : Eigen::Vector3d::Zero();
  return v;
}
static std::vector<Odo> odo_stream(Rng& r, int n) {
  std::vector<Odo> v;
  uint64_t t = start(r);
  Eigen::Matrix4d p = rand_pose(r, r.p(0.3) ? 5000 : 10);
  for (int i = 0; i < n; ++i) {
    v.push_back({t, p, Eigen::Matrix4d::Identity()});
    t += gap(r, 1.0);
    if (!r.p(0.1)) p = p * rand_pose(r, r.p(0.1) ? 50 : 2, r.p(0.1) ? 2.5 : 0.4);
  }
  for (auto& o : v) {
    Eigen::Matrix4d inv = Eigen::Matrix4d::Identity();
    inv.block<3, 3>(0, 0) = v[0].raw.block<3, 3>(0, 0).transpose();
    inv.block<3, 1>(0, 3) = -inv.block<3, 3>(0, 0) * v[0].raw.block<3, 1>(0, 3);
    o.rel = inv * o.raw;
  }
  return v;
}

// what a look-up has to answer; 0 nothing, 1 *ans, 2 not judged
template <typename S>
static int expect(const std::vector<S>& v, size_t from, size_t to, uint64_t q, double tol, double limit, size_t* a, double* f) {
  if (from >= to) return 0;
  if (to - from == 1) {
    const double d = std::fabs((double(q) - double(v[from].ns)) * 1e-9);
    if (std::fabs(d - tol) < 2e-6) return 2;
    *a = from; *f = 0;
    return d <= tol;
  }
  if (q + 1 < v[from].ns || q > v[to - 1].ns + 1) return 0;
  if (q < v[from].ns || q > v[to - 1].ns) return 2;
  size_t k = from;
  while (k + 2 < to && v[k + 1].ns <= q) ++k;
  *a = k;
  *f = double(q - v[k].ns) / double(v[k + 1].ns - v[k].ns);
  const double g = double(v[k + 1].ns - v[k].ns) * 1e-9;
  if (std::fabs(g - limit) < 1e-6) return 2;
  return g <= limit;
}

static uint64_t query(Rng& r, const std::vector<uint64_t>& ts, uint64_t lo) {
  uint64_t q;
  if (ts.empty()) return lo;
  const int k = r.i(0, ts.size() - 1);
  switch (r.i(0, 7)) {
    case 0: q = ts[k]; break;
    case 1: q = ts[k] + r.i(2, 2000); break;
    case 2: q = ts[k] > 3000 ? ts[k] - r.i(2, 2000) : ts[k]; break;
    case 3: q = ts.back() + r.i(10, 3000000000ll); break;
    case 4: q = ts[0] > 2000000000ull ? ts[0] - r.i(10, 1000000000) : ts[0]; break;
    default: q = k + 1 < int(ts.size()) ? ts[k] + r.i(0, ts[k + 1] - ts[k]) : ts[k];
  }
  return std::max(q, lo);
}

static void check_gps(DataCollector& dc, const std::vector<Gps>& v, size_t from, size_t to, uint64_t q, double tol, bool trim, const std::string& d, size_t* bracket) {
  size_t a = 0; double f = 0;
  // fix states decide as well
  int e = expect(v, from, to, q, tol, 0.2, &a, &f);
  bool nofix = false;
  if (e == 1) {
    const bool single = to - from == 1;
    const bool at_a = !single && q == v[a].ns, at_b = !single && q == v[a + 1].ns;
    const bool fa = v[a].fix, fb = single || v[a + 1].fix;
    if (!fa && !fb) e = 0;
    else if (single && !fa) e = 0;
    else if (fa != fb) e = (at_a || at_b) ? 2 : 0;  // exactly on one sample: its neighbour is a matter of choice
    nofix = !(fa && fb);
    if (at_a && a > from && !single && e == 1 && f == 0) e = 1;
  }
  if (e == 0 && to - from > 1 && q >= v[from].ns && q <= v[to - 1].ns)
    for (size_t k = from; k < to; ++k) if (v[k].ns == q) e = 2;  // on a sample at the edge of a gap
  auto got = dc.InterpolateGps(tm(q), tol, trim);
  if (e == 2) { count("gps look-ups on a border, not judged"); }
  if (e == 0) {
    VP_REQUIRE(!got, "gps:answer-where-none-is-due", d + fmt(" at %lu stored %zu nofix %d", q, to - from, nofix));
  } else if (e == 1) {
    VP_REQUIRE(got, "gps:no-answer", d + fmt(" at %lu stored %zu factor %.3f", q, to - from, f));
    if (got) {
      const Eigen::Vector3d w = to - from == 1 ? v[a].pos : Eigen::Vector3d(v[a].pos + f * (v[a + 1].pos - v[a].pos));
      VP_REQUIRE((*got - w).norm() < 2e-6 * std::max(1.0, w.norm() * 1e-3), "gps:wrong-position",
                 d + fmt(" at %lu off by %g m at %.1f m", q, (*got - w).norm(), w.norm()));
    }
  }
  cover(fmt("gps %d single %d nofix %d far %d f%d", e, to - from == 1, nofix, int(to - from > 20), int(f * 4)));
  if (to - from > 1 && q >= v[from].ns && q <= v[to - 1].ns) {
    size_t k = from;
    while (k + 2 < to && v[k + 1].ns < q) ++k;
    *bracket = k;
  } else {
    *bracket = SIZE_MAX;
  }
}

static void check_odo(DataCollector& dc, const std::vector<Odo>& v, size_t from, size_t to, uint64_t q, double tol, bool trim, const std::string& d) {
  size_t a = 0; double f = 0;
  int e = expect(v, from, to, q, tol, 1.0, &a, &f);
  if (e == 0 && to - from > 1)
    for (size_t k = from; k < to; ++k) if (v[k].ns == q) e = 2;
  auto got = dc.InterpolateOdom(tm(q), tol, trim);
  if (e == 0) {
    VP_REQUIRE(!got, "odom:answer-where-none-is-due", d + fmt(" at %lu stored %zu", q, to - from));
  } else if (e == 1) {
    VP_REQUIRE(got, "odom:no-answer", d + fmt(" at %lu stored %zu factor %.3f", q, to - from, f));
    if (got) {
      Eigen::Matrix4d w = v[a].rel;
      if (to - from > 1) {
        const Eigen::Matrix3d ra = v[a].rel.block<3, 3>(0, 0), rb = v[a + 1].rel.block<3, 3>(0, 0);
        const Eigen::AngleAxisd aa(Eigen::Matrix3d(ra.transpose() * rb));
        w.block<3, 3>(0, 0) = ra * Eigen::AngleAxisd(aa.angle() * f, aa.axis()).toRotationMatrix();
        w.block<3, 1>(0, 3) = v[a].rel.block<3, 1>(0, 3) * (1 - f) + v[a + 1].rel.block<3, 1>(0, 3) * f;
      }
      const double dt = (got->block<3, 1>(0, 3) - w.block<3, 1>(0, 3)).norm();
      const double dr = rot_angle(got->block<3, 3>(0, 0), w.block<3, 3>(0, 0));
      // the library keeps the factor in single precision
      const double leg = to - from > 1 ? (v[a + 1].rel.block<3, 1>(0, 3) - v[a].rel.block<3, 1>(0, 3)).norm() : 0;
      const double tt = 1e-6 * std::max(1.0, v[0].raw.block<3, 1>(0, 3).norm()) + 2e-7 * leg;
      VP_REQUIRE(is_rigid(*got, 1e-6), "odom:not-rigid", d);
      VP_REQUIRE(dt < tt && dr < 1e-5, "odom:wrong-pose", d + fmt(" at %lu off by %g m %g rad", q, dt, dr));
    }
  }
  cover(fmt("odo %d single %d far %d f%d", e, to - from == 1, int(to - from > 20), int(f * 4)));
}

static void paths(DataCollector& dc, const std::vector<Gps>& g, size_t gfrom, size_t gto, const std::vector<Odo>& o, size_t oto, const std::string& d) {
  ::remove("gps.pcd"); ::remove("odom.pcd");
  dc.RawGpsDataToFile("gps.pcd");
  dc.RawOdomDataToFile("odom.pcd");
  pcl::PointCloud<pcl::PointXYZI> c;
  const bool have = access("gps.pcd", F_OK) == 0, haveo = access("odom.pcd", F_OK) == 0;
  VP_REQUIRE(have == (gto > gfrom), "gps:path-file-presence", d);
  VP_REQUIRE(haveo == (oto > 0), "odom:path-file-presence", d);
  if (have) {
    bool ok = pcl::io::loadPCDFile("gps.pcd", c) == 0 && c.size() == gto - gfrom;
    for (size_t i = 0; ok && i < c.size(); ++i) {
      const Eigen::Vector3d p(c[i].x, c[i].y, c[i].z), w = g[gfrom + i].pos;
      ok = (p - w).norm() < 1e-6 * w.norm() + 1e-5;
    }
    VP_REQUIRE(ok, "gps:wrong-path-file", d + fmt(" %zu points of %zu", c.size(), gto - gfrom));
  }
  if (haveo) {
    bool ok = pcl::io::loadPCDFile("odom.pcd", c) == 0 && c.size() == oto;
    for (size_t i = 0; ok && i < c.size(); ++i) {
      const Eigen::Vector3d p(c[i].x, c[i].y, c[i].z), w = o[i].rel.block<3, 1>(0, 3);
      ok = (p - w).norm() < 1e-6 * (w.norm() + o[0].raw.block<3, 1>(0, 3).norm()) + 1e-5;
    }
    VP_REQUIRE(ok, "odom:wrong-path-file", d + fmt(" %zu points of %zu", c.size(), oto));
  }
}

static void history(Rng& r) {
  DataCollector dc(static_map::data::DataCollectorOptions(), nullptr);
  auto gs = gps_stream(r, r.i(0, 3) ? r.i(0, 60) : r.i(1, 3));
  auto os = odo_stream(r, r.i(0, 3) ? r.i(0, 60) : r.i(1, 3));
  size_t gfirst = 0;
  while (gfirst < gs.size() && !gs[gfirst].fix) ++gfirst;
  size_t gadd = 0, oadd = 0;
  size_t gfrom = gfirst;           // certainly usable from here
  uint64_t glo = 0, olo = 0;       // only ask from here on after something was discarded
  const bool trims = r.p(0.5);
  const std::string d = fmt("gps %zu odom %zu trims %d", gs.size(), os.size(), trims);
  const int steps = r.i(20, 200);
  for (int s = 0; s < steps; ++s) {
    const int what = r.i(0, 9);
    if (what < 2 && gadd < gs.size()) {
      int k = r.i(1, 6);
      for (; k && gadd < gs.size(); --k, ++gadd) dc.AddSensorData(gps_msg(gs[gadd]));
    } else if (what < 4 && oadd < os.size()) {
      int k = r.i(1, 6);
      for (; k && oadd < os.size(); --k, ++oadd) dc.AddSensorData(odo_msg(os[oadd]));
    } else if (what < 7) {
      std::vector<uint64_t> ts;
      for (size_t k = 0; k < gadd; ++k) ts.push_back(gs[k].ns);
      const uint64_t q = query(r, ts, glo);
      const bool trim = trims && r.p(0.4);
      size_t br = 0;
      check_gps(dc, gs, gfrom, std::max(gadd, gfrom), q, r.pick(std::vector<double>{0, 0.001, 0.005, 0.1, 0.5}), trim, d, &br);
      if (trim && br != SIZE_MAX) glo = std::max(glo, q);
    } else if (what < 9) {
      std::vector<uint64_t> ts;
      for (size_t k = 0; k < oadd; ++k) ts.push_back(os[k].ns);
      const uint64_t q = query(r, ts, olo);
      const bool trim = trims && r.p(0.4);
      check_odo(dc, os, 0, oadd, q, r.pick(std::vector<double>{0, 0.001, 0.005, 0.1, 0.5}), trim, d);
      if (trim && oadd > 1 && q >= os[0].ns && q <= os[oadd - 1].ns) olo = std::max(olo, q);
    } else if (trims && gadd > gfrom && r.p(0.4)) {
      // explicit deletion: what is not older than the given time stays
      const size_t k = r.i(gfrom, gadd - 1);
      dc.TrimSensorData(static_map::data::kGpsData, tm(gs[k].ns));
      if (gadd - gfrom > 2) glo = std::max(glo, gs[k].ns);
      dc.TrimSensorData(static_map::data::kImuData, tm(gs[k].ns));
      dc.TrimSensorData(static_map::data::kPointCloudData, tm(gs[k].ns));
    }
  }
  auto ref = dc.GetGpsReference();
  const bool want = gadd > gfirst;
  VP_REQUIRE(bool(ref) == want, "gps:reference-presence", d);
  if (ref && want) {
    double de = std::fabs(ref->LatitudeOrigin() - gs[gfirst].lla[0]) + std::fabs(std::remainder(ref->LongitudeOrigin() - gs[gfirst].lla[1], 360.0)) +
                std::fabs(ref->HeightOrigin() - gs[gfirst].lla[2]);
    VP_REQUIRE(de < 1e-9, "gps:wrong-reference", d + fmt(" off by %g", de));
  }
  paths(dc, gs, std::min(gfirst, gadd), gadd, os, oadd, d);
  count("histories");
}

// look-ups while samples arrive
static void concurrent(Rng& r) {
  if (vp_jitter) vp_jitter(r.u64());
  DataCollector dc(static_map::data::DataCollectorOptions(), nullptr);
  auto gs = gps_stream(r, r.i(20, 200));
  auto os = odo_stream(r, r.i(20, 200));
  size_t gfirst = 0;
  while (gfirst < gs.size() && !gs[gfirst].fix) ++gfirst;
  std::atomic<size_t> ga{0}, oa{0};
  std::thread wg([&] { for (auto& g : gs) { dc.AddSensorData(gps_msg(g)); ++ga; if (g.ns % 3 == 0) std::this_thread::yield(); } });
  std::thread wo([&] { for (auto& o : os) { dc.AddSensorData(odo_msg(o)); ++oa; if (o.ns % 3 == 0) std::this_thread::yield(); } });
  Rng q1(r.u64()), q2(r.u64());
  const bool trim = r.p(0.5);
  std::thread rg([&] {
    uint64_t lo = 0;
    for (int k = 0; k < 200; ++k) {
      const size_t n = ga;
      if (q1.p(0.1)) { auto ref = dc.GetGpsReference(); VP_REQUIRE(ref || n <= gfirst, "gps:reference-presence", "while samples arrive"); }
      if (n < gfirst + 2) { std::this_thread::yield(); continue; }
      const size_t a = q1.i(gfirst, n - 2);
      const uint64_t q = gs[a].ns + (gs[a + 1].ns - gs[a].ns) / 4 * q1.i(1, 3);
      if (q < lo) continue;
      auto got = dc.InterpolateGps(tm(q), 0.005, trim);
      const double g = double(gs[a + 1].ns - gs[a].ns) * 1e-9, f = double(q - gs[a].ns) / double(gs[a + 1].ns - gs[a].ns);
      const bool e = g < 0.2 && gs[a].fix && gs[a + 1].fix;
      VP_REQUIRE(bool(got) == e, "gps:concurrent-look-up", fmt("answer %d expected %d", bool(got), e));
      if (got && e) {
        const Eigen::Vector3d w = gs[a].pos + f * (gs[a + 1].pos - gs[a].pos);
        VP_REQUIRE((*got - w).norm() < 2e-6 * std::max(1.0, w.norm() * 1e-3), "gps:wrong-position", fmt("while samples arrive, off by %g", (*got - w).norm()));
      }
      if (trim) lo = std::max(lo, q);
    }
  });
  std::thread ro([&] {
    uint64_t lo = 0;
    for (int k = 0; k < 200; ++k) {
      const size_t n = oa;
      if (n < 2) { std::this_thread::yield(); continue; }
      const size_t a = q2.i(0, n - 2);
      const uint64_t q = os[a].ns + (os[a + 1].ns - os[a].ns) / 4 * q2.i(1, 3);
      if (q < lo) continue;
      check_odo(dc, os, 0, n, q, 0.005, trim, "while samples arrive");
      if (trim) lo = std::max(lo, q);
    }
  });
  if (r.p(0.5)) { dc.RawGpsDataToFile("live_gps.pcd"); dc.RawOdomDataToFile("live_odom.pcd"); }
  wg.join(); wo.join(); rg.join(); ro.join();
  paths(dc, gs, gfirst, gs.size(), os, os.size(), "after concurrent intake");
  cover(fmt("concurrent trim %d fix %d", trim, int(gfirst > 0)));
  count("concurrent histories");
  if (vp_jitter) vp_jitter(0);
}

int main(int argc, char** argv) {
  freopen("/dev/null", "w", stdout);
  return vp::run(argc, argv, [](long id, Rng& r) {
    if (vp::arg("part") == "concurrent" || id % 8 == 7) concurrent(r);
    else for (int k = 0; k < 4; ++k) history(r);
  });
}
