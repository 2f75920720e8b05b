// C16: configured filter chains.
#include "filters.h"

using namespace vp;

struct Step {
  std::string name;
  std::vector<std::pair<std::string, std::pair<bool, double>>> params;  // name, (is int, value)
};

static Step step(Rng& r) {
  Step s;
  auto F = [&](const char* n, double v) { if (r.p(0.75)) s.params.push_back({n, {false, double(float(v))}}); };
  auto I = [&](const char* n, int v) { if (r.p(0.75)) s.params.push_back({n, {true, double(v)}}); };
  switch (r.i(0, 10)) {
    case 0: case 1: s.name = "Range"; F("min_range", r.i(0, 12)); F("max_range", r.i(15, 60)); break;
    case 2: case 3: s.name = "AxisRange"; F("min", r.i(-20, -1)); F("max", r.i(1, 25)); I("axis_index", r.i(0, 2)); break;
    case 4: s.name = "BoundingBoxRemoval";
      F("min_x", r.i(-9, -1)); F("min_y", r.i(-9, -1)); F("min_z", r.i(-9, -1));
      F("max_x", r.i(1, 9)); F("max_y", r.i(1, 9)); F("max_z", r.i(1, 9)); break;
    case 5: s.name = "VoxelGrid"; F("voxel_size", r.p(0.5) ? 1.0 : r.d(0.3, 4)); break;
    case 6: s.name = "GroundRemoval"; F("leaf_size", r.d(0.5, 3)); F("height_threshold", r.d(0.1, 0.6)); I("min_point_num_in_voxel", r.i(1, 5)); break;
    case 7: s.name = "GroundRemoval2"; F("start_ground_height", r.d(-2, 0)); F("max_error", r.d(0.02, 0.4)); F("max_dist_to_line", r.d(0.02, 0.4)); I("bin_num", r.i(20, 200)); I("segment_num", r.i(20, 180)); I("thread_num", r.i(1, 4)); break;
    case 8: s.name = "RangeImage"; F("top_angle", r.d(10, 60)); F("btm_angle", r.d(-60, 0)); I("vertical_line_num", r.i(4, 64)); I("horizontal_line_num", r.i(30, 900)); F("offset_z", r.d(-1, 1)); break;
    case 9: s.name = "RandomSampler"; s.params.push_back({"sampling_rate", {false, r.p(0.7) ? 1.0 : 0.0}}); break;
    default: s.name = "StatisticRemoval"; F("std_mul", r.d(0.5, 2)); I("point_num_meank", r.i(5, 40));
  }
  return s;
}

static std::string xml(const std::vector<Step>& v, Rng& r) {
  std::string t = "<filters>\n";
  const bool decl = r.p(0.3);
  for (auto& s : v) {
    if (r.p(0.15)) t += "<!-- nothing here -->";
    if (r.p(0.15)) t += "<filter name=\"NoSuchFilter\"><param type=\"1\" name=\"x\">1</param></filter>\n";
    t += "<filter name=\"" + s.name + "\">";
    auto ps = s.params;
    for (size_t i = ps.size(); i > 1; --i) std::swap(ps[i - 1], ps[r.i(0, i - 1)]);
    for (auto& p : ps) {
      const char* pad = r.p(0.5) ? " " : "";
      t += fmt("<param type=\"%d\" name=\"%s\">%s%.9g%s</param>", p.second.first ? 0 : 1, p.first.c_str(), pad, p.second.second, pad);
      if (r.p(0.3)) t += "\n  ";
    }
    t += "</filter>\n";
  }
  if (decl) t += "<filter name=\"\"/>";
  return t + "</filters>";
}

static std::shared_ptr<Interface> fresh(const Step& s) {
  std::shared_ptr<Interface> f;
  if (s.name == "Range") f = std::make_shared<Range>();
  else if (s.name == "AxisRange") f = std::make_shared<AxisRange>();
  else if (s.name == "BoundingBoxRemoval") f = std::make_shared<BoundingBoxRemoval>();
  else if (s.name == "VoxelGrid") f = std::make_shared<VoxelGrid>();
  else if (s.name == "GroundRemoval") f = std::make_shared<GroundRemoval>();
  else if (s.name == "GroundRemoval2") f = std::make_shared<GroundRemoval2>();
  else if (s.name == "RangeImage") f = std::make_shared<RangeImage>();
  else if (s.name == "RandomSampler") f = std::make_shared<RandomSampler>();
  else return nullptr;
  for (auto& p : s.params) {
    bool ok = p.second.first ? f->SetValue(p.first, int(p.second.second)) : f->SetValue(p.first, float(p.second.second));
    if (!ok) harness_error("parameter " + p.first);
  }
  return f;
}

static double val(const Step& s, const char* n, double def) {
  for (auto& p : s.params) if (p.first == n) return p.second.second;
  return def;
}

static InnerCloudType::Ptr expect(const std::vector<Step>& v, const InnerCloudType& in) {
  InnerCloudType::Ptr cur = copy_cloud(in);
  for (auto& s : v) {
    if (cur->points.empty()) break;
    InnerCloudType::Ptr out(new InnerCloudType);
    out->stamp = in.stamp;
    const double big = std::numeric_limits<float>::max();
    if (s.name == "StatisticRemoval") continue;  // announced, not implemented: passes through
    if (s.name == "RandomSampler") { if (val(s, "sampling_rate", 1) > 0.5) continue; cur = out; continue; }
    if (s.name == "Range" || s.name == "AxisRange" || s.name == "BoundingBoxRemoval") {
      for (auto& p : cur->points) {
        bool keep;
        if (s.name == "Range") {
          const double d = std::sqrt(double(p.x) * p.x + double(p.y) * p.y + double(p.z) * p.z);
          keep = d >= val(s, "min_range", 0) && d <= val(s, "max_range", big);
        } else if (s.name == "AxisRange") {
          const int a = int(val(s, "axis_index", 2));
          const double x = a == 0 ? p.x : a == 1 ? p.y : p.z;
          keep = x >= val(s, "min", -big) && x <= val(s, "max", big);
        } else {
          keep = !(p.x >= val(s, "min_x", -big) && p.x <= val(s, "max_x", big) && p.y >= val(s, "min_y", -big) && p.y <= val(s, "max_y", big) &&
                   p.z >= val(s, "min_z", -big) && p.z <= val(s, "max_z", big));
        }
        if (keep) out->points.push_back(p);
      }
      cur = out;
      continue;
    }
    auto f = fresh(s);
    f->SetInputCloud(cur);
    f->Filter(out);
    cur = out;
  }
  return cur;
}

// limits are whole numbers: keep clear of them
static InnerCloudType::Ptr scene(Rng& r) {
  InnerCloudType::Ptr c(new InnerCloudType);
  c->stamp = rand_time(r);
  const int n = r.p(0.15) ? r.i(1, 6) : r.i(50, 1200);
  const double span = r.p(0.8) ? 30 : 5;
  while (int(c->points.size()) < n) {
    InnerPointType p = pt(r.d(-span, span), r.d(-span, span), r.p(0.5) ? -1.3 + r.d(-.02, .02) : r.d(-10, 10), r.i(0, 255), r.d(0, 1));
    const double d = std::sqrt(double(p.x) * p.x + double(p.y) * p.y + double(p.z) * p.z);
    if (std::fabs(d - std::round(d)) < 1e-3) continue;
    c->points.push_back(p);
  }
  return c;
}

static bool same_set(const InnerCloudType& a, const InnerCloudType& b) {
  if (a.points.size() != b.points.size()) return false;
  auto key = [](const InnerPointType& p) { return std::array<float, 5>{{p.x, p.y, p.z, p.intensity, p.factor}}; };
  std::vector<std::array<float, 5>> x, y;
  for (auto& p : a.points) x.push_back(key(p));
  for (auto& p : b.points) y.push_back(key(p));
  std::sort(x.begin(), x.end());
  std::sort(y.begin(), y.end());
  for (size_t i = 0; i < x.size(); ++i) for (int k = 0; k < 5; ++k) if (std::fabs(x[i][k] - y[i][k]) > 1e-4f) return false;
  return true;
}

static void one(long id, Rng& r) {
  std::vector<Step> v;
  const int n = r.i(0, 5);
  for (int i = 0; i < n; ++i) v.push_back(step(r));
  // a range image or line filter decides on rounding when it follows thinning; keep those combinations at the end only
  const std::string t = xml(v, r);
  Factory f;
  pugi::xml_document doc;
  if (!doc.load_string(t.c_str())) harness_error("own xml");
  f.InitFromXmlNode(doc.first_child());
  std::string names;
  for (auto& s : v) names += s.name + " ";
  for (int round = 0; round < 3; ++round) {
    auto in = scene(r);
    const InnerCloudType before = *in;
    auto want = expect(v, before);
    InnerCloudType::Ptr out(new InnerCloudType);
    if (r.p(0.5)) { *out = *rand_cloud(r, 3); }
    f.SetInputCloud(in);
    f.Filter(out);
    std::string d = fmt("chain [%s] on %zu points, cloud number %d: %zu points instead of %zu", names.c_str(), before.points.size(), round + 1, out->points.size(), want->points.size());
    VP_REQUIRE(same_set(*out, *want), "wrong-result", d + " " + t);
    VP_REQUIRE(same_stamp(out->stamp, before.stamp), "stamp-changed", d);
    VP_REQUIRE(same_points(in->points, before.points), "input-modified", d);
    if (v.empty()) VP_REQUIRE(same_points(out->points, before.points), "copy-differs", d);
    cover(names + (want->points.empty() ? "0" : "+"));
    count(want->points.empty() ? "empty results" : "non-empty results");
  }
  // real sampling at the end of a chain
  if (r.p(0.3)) {
    Factory g;
    pugi::xml_document d2;
    const float rate = r.d(0.1, 0.9);
    d2.load_string(fmt("<filters><filter name=\"AxisRange\"><param type=\"1\" name=\"min\">0</param><param type=\"0\" name=\"axis_index\">0</param></filter><filter name=\"RandomSampler\"><param type=\"1\" name=\"sampling_rate\">%.6f</param></filter></filters>", rate).c_str());
    g.InitFromXmlNode(d2.first_child());
    auto in = rand_cloud(r, 4000);
    InnerCloudType::Ptr out(new InnerCloudType);
    g.SetInputCloud(in);
    g.Filter(out);
    int m = 0;
    for (auto& p : in->points) m += p.x >= 0;
    size_t j = 0;
    bool sub = true;
    for (auto& p : out->points) {
      while (j < in->points.size() && !same_point(in->points[j], p)) ++j;
      if (j == in->points.size() || p.x < 0) { sub = false; break; }
      ++j;
    }
    VP_REQUIRE(sub, "sampled-chain-not-a-subset", "");
    VP_REQUIRE(std::fabs(double(out->points.size()) - m * rate) <= 8 * std::sqrt(m * rate * (1 - rate)) + 20, "sampled-chain-fraction", fmt("%zu of %d at %g", out->points.size(), m, rate));
  }
  if (id == 0) sample("chains of up to five filters, three clouds through the same chain, compared with the rules applied one after the other");
}

int main(int argc, char** argv) { return run(argc, argv, one); }
