// C01: binary cloud files round-trip bit-identically; truncated files are refused.
#include <pcl/io/pcd_io.h>

#include "gen.h"

using namespace vp;
using static_map::data::ToInnerPointCloud;
using static_map::data::ToPclPointCloud;

static std::vector<char> slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  return std::vector<char>((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
}
static void dump(const std::string& f, const char* d, size_t n) {
  std::ofstream o(f, std::ios::binary | std::ios::trunc);
  o.write(d, n);
}

static int load(const std::string& f, InnerCloudType* c) {
  std::fstream in(f, std::ios::in | std::ios::binary);
  return c->Deserialize(&in);
}

static void one(long id, Rng& r) {
  InnerCloudType c;
  c.stamp = rand_time(r);
  int n = 0;
  switch (id % 6) {
    case 0: n = r.i(0, 3); break;
    case 1: n = r.i(0, 12); break;
    case 2: n = r.i(0, 60); break;
    case 3: n = r.i(50, 400); break;
    case 4: n = r.i(1000, 6000); break;
    default: n = r.i(1, 30);
  }
  for (int i = 0; i < n; ++i)
    c.points.push_back(pt(any_float(r), any_float(r), any_float(r), any_float(r), any_float(r)));
  const InnerCloudType orig = c;

  {
    std::fstream o("cloud.bin", std::ios::out | std::ios::binary | std::ios::trunc);
    int rc = c.Serialize(&o);
    VP_REQUIRE(rc >= 0, "save-refused", fmt("Serialize returned %d for %d points", rc, n));
  }
  VP_REQUIRE(same_points(c.points, orig.points) && same_stamp(c.stamp, orig.stamp), "save-modifies-cloud", "");

  // full file into a fresh and into a used object
  for (int used = 0; used < 2; ++used) {
    InnerCloudType b;
    if (used) {
      b = *rand_cloud(r, r.i(1, 40));
      b.stamp = rand_time(r);
    }
    int rc = load("cloud.bin", &b);
    VP_REQUIRE(rc >= 0, "load-refused", fmt("complete file of %d points refused (rc=%d)", n, rc));
    VP_REQUIRE(same_stamp(b.stamp, orig.stamp), "stamp-changed",
               fmt("%ld -> %ld", orig.stamp.ToNanoSec(), b.stamp.ToNanoSec()));
    bool same = same_points(b.points, orig.points);
    std::string d = fmt("%d points in, %zu out, reused=%d", n, b.points.size(), used);
    for (size_t i = 0; !same && i < std::min(b.points.size(), orig.points.size()); ++i)
      if (!same_point(b.points[i], orig.points[i])) {
        d += fmt(" first difference at %zu: %s -> %s", i, show(orig.points[i]).c_str(), show(b.points[i]).c_str());
        break;
      }
    VP_REQUIRE(same, "points-changed", d);
    // second generation: what was loaded can be saved again
    {
      std::fstream o("again.bin", std::ios::out | std::ios::binary | std::ios::trunc);
      b.Serialize(&o);
    }
    InnerCloudType b2;
    rc = load("again.bin", &b2);
    VP_REQUIRE(rc >= 0 && same_points(b2.points, orig.points) && same_stamp(b2.stamp, orig.stamp),
               "second-generation-differs", d);
  }

  // two clouds one after the other in the same stream
  if (r.p(0.3)) {
    InnerCloudType second = *rand_cloud(r, r.i(0, 20));
    {
      std::fstream o("two.bin", std::ios::out | std::ios::binary | std::ios::trunc);
      c.Serialize(&o);
      second.Serialize(&o);
    }
    std::fstream in("two.bin", std::ios::in | std::ios::binary);
    InnerCloudType a, b;
    int r1 = a.Deserialize(&in), r2 = b.Deserialize(&in);
    VP_REQUIRE(r1 >= 0 && r2 >= 0 && same_points(a.points, orig.points) && same_points(b.points, second.points) &&
                   same_stamp(b.stamp, second.stamp),
               "consecutive-clouds", fmt("rc %d %d sizes %zu/%d %zu/%zu", r1, r2, a.points.size(), n, b.points.size(), second.points.size()));
    cover("two");
  }

  // crash points: the file cut off at every byte (or a sample of them)
  std::vector<char> bytes = slurp("cloud.bin");
  const size_t L = bytes.size();
  std::vector<size_t> cuts;
  if (L <= 700) {
    for (size_t k = 0; k < L; ++k) cuts.push_back(k);
  } else {
    for (int k = 0; k < 40; ++k) cuts.push_back(r.i(0, L - 1));
    for (size_t k = 1; k <= 24 && k <= L; ++k) cuts.push_back(L - k);
    for (size_t k = 0; k < 24; ++k) cuts.push_back(k);
  }
  long refused = 0;
  for (size_t k : cuts) {
    dump("cut.bin", bytes.data(), k);
    InnerCloudType b;
    if (r.p(0.3)) b = *rand_cloud(r, 5);
    int rc = load("cut.bin", &b);
    if (rc < 0) ++refused;
    VP_REQUIRE(rc < 0, "truncated-file-accepted",
               fmt("file of %d points (%zu bytes) cut at byte %zu was loaded as %zu points without error", n, L, k, b.points.size()));
  }
  count("truncations", cuts.size());
  count("truncations_refused", refused);

  // missing file, closed stream, no stream
  {
    InnerCloudType b;
    VP_REQUIRE(load("does-not-exist.bin", &b) < 0, "missing-file-accepted", "");
    std::fstream closed;
    VP_REQUIRE(b.Deserialize(&closed) < 0, "closed-stream-accepted", "");
    VP_REQUIRE(b.Deserialize(nullptr) < 0, "null-stream-accepted", "");
    VP_REQUIRE(orig.Serialize(&closed) < 0, "closed-stream-written", "");
    VP_REQUIRE(orig.Serialize(nullptr) < 0, "null-stream-written", "");
  }

  // library clouds
  pcl::PointCloud<pcl::PointXYZI> pi;
  pcl::PointCloud<pcl::PointXYZ> px;
  if (r.p(0.4)) { pi.resize(r.i(1, 9)); px.resize(r.i(1, 9)); }
  ToPclPointCloud(orig, &pi);
  ToPclPointCloud(orig, &px);
  const uint64_t us = static_cast<uint64_t>(orig.stamp.ToNanoSec()) / 1000ull;
  bool ok = pi.points.size() == orig.points.size() && px.points.size() == orig.points.size();
  VP_REQUIRE(ok, "export-size", fmt("%zu/%zu of %d", pi.points.size(), px.points.size(), n));
  for (int i = 0; ok && i < n; ++i) {
    auto& o = orig.points[i];
    ok = same_bits(o.x, pi[i].x) && same_bits(o.y, pi[i].y) && same_bits(o.z, pi[i].z) &&
         same_bits(o.intensity, pi[i].intensity) && same_bits(o.x, px[i].x) && same_bits(o.y, px[i].y) &&
         same_bits(o.z, px[i].z);
    VP_REQUIRE(ok, "export-value", fmt("point %d %s", i, show(o).c_str()));
  }
  auto near_us = [](uint64_t a, uint64_t b) { return (a > b ? a - b : b - a) <= 1; };
  VP_REQUIRE(near_us(pi.header.stamp, us) && near_us(px.header.stamp, us), "export-stamp",
             fmt("%lu us expected, got %lu and %lu", us, (unsigned long)pi.header.stamp, (unsigned long)px.header.stamp));
  pi.header.stamp = px.header.stamp = us;
  auto back = ToInnerPointCloud(pi);
  auto backx = ToInnerPointCloud(px);
  ok = back->points.size() == orig.points.size() && backx->points.size() == orig.points.size();
  VP_REQUIRE(ok, "import-size", "");
  for (int i = 0; ok && i < n; ++i) {
    auto& o = orig.points[i];
    ok = same_xyzi(o, back->points[i]) && same_bits(o.x, backx->points[i].x) && same_bits(o.y, backx->points[i].y) &&
         same_bits(o.z, backx->points[i].z);
    VP_REQUIRE(ok, "import-value", fmt("point %d %s", i, show(o).c_str()));
  }
  auto us_of = [](const SimpleTime& t) { return static_cast<uint64_t>(t.ToNanoSec()) / 1000ull; };
  VP_REQUIRE(near_us(us_of(back->stamp), us) && near_us(us_of(backx->stamp), us),
             "import-stamp", fmt("%lu us -> %ld ns", us, back->stamp.ToNanoSec()));

  if (n > 0 && r.p(0.5)) {
    std::string f = r.p(0.5) ? "export.pcd" : "sub/dir/export.pcd";
    int rc = orig.SerializeToPcd(f);
    pcl::PointCloud<pcl::PointXYZI> in;
    int rl = pcl::io::loadPCDFile(f, in);
    ok = rc >= 0 && rl >= 0 && static_cast<int>(in.size()) == n;
    VP_REQUIRE(ok, "pcd-file", fmt("rc=%d load=%d %zu of %d points", rc, rl, in.size(), n));
    for (int i = 0; ok && i < n; ++i) {
      auto& o = orig.points[i];
      ok = same_bits(o.x, in[i].x) && same_bits(o.y, in[i].y) && same_bits(o.z, in[i].z) && same_bits(o.intensity, in[i].intensity);
      VP_REQUIRE(ok, "pcd-value", fmt("point %d %s", i, show(o).c_str()));
    }
    VP_REQUIRE(orig.SerializeToPcd("") < 0, "pcd-empty-name", "");
    cover("pcd");
  }
  cover(fmt("n%d/cuts%zu", n, cuts.size()));
  sample(fmt("%d points, %zu bytes, stamp %ld ns, %zu truncations all refused: %d", n, L,
             orig.stamp.ToNanoSec(), cuts.size(), refused == (long)cuts.size()));
}

int main(int argc, char** argv) { return run(argc, argv, one); }
