// C13: range, axis range, box removal and random sampling.
#include "filters.h"

using namespace vp;
enum Verdict { OUT = 0, IN = 1, EITHER = 2 };
typedef std::function<Verdict(const InnerPointType&)> Rule;

static bool finite(const InnerPointType& p) { return std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z); }

static void judge(const std::string& name, Interface& f, const Rule& rule, const InnerCloudType::Ptr& in, Rng& r, const std::string& d, bool set = true) {
  const InnerCloudType before = *in;
  shuffle_threads(r);
  if (set) f.SetInputCloud(in);
  const int rounds = r.i(1, 3);
  for (int k = 0; k < rounds; ++k) {
    InnerCloudType::Ptr out(new InnerCloudType);
    if (r.p(0.5)) *out = *rand_cloud(r, r.i(0, 5));  // stale content must go
    f.Filter(out);
    check_lists(name, before, *out, f.Inliers(), f.Outliers(), d + fmt(" run %d", k));
    std::vector<char> is(before.points.size(), 0);
    for (int i : f.Inliers()) if (i >= 0 && i < int(is.size())) is[i] = 1;
    bool ok = true;
    std::string w;
    for (size_t i = 0; i < is.size(); ++i) {
      Verdict v = rule(before.points[i]);
      if (v != EITHER && v != is[i]) { ok = false; if (w.empty()) w = " " + show(before.points[i]) + (is[i] ? " kept" : " removed"); }
    }
    VP_REQUIRE(ok, name + ":wrong-selection", d + w);
    VP_REQUIRE(same_points(before.points, in->points) && same_stamp(before.stamp, in->stamp), name + ":input-modified", d);
    cover(fmt("%s %d %d %d %d", name.c_str(), k, f.Inliers().empty(), f.Outliers().empty(), int(std::log2(before.points.size()))));
  }
}

static InnerCloudType::Ptr make(Rng& r, const std::vector<float>& special) {
  InnerCloudType::Ptr c(new InnerCloudType);
  c->stamp = rand_time(r);
  int n = r.p(0.2) ? r.i(1, 4) : r.p(0.7) ? r.i(5, 300) : r.i(300, 4000);
  const bool wild = r.p(0.3);
  for (int i = 0; i < n; ++i) {
    float v[3];
    for (float& x : v) x = r.p(0.2) ? r.pick(special) : wild && r.p(0.1) ? any_float(r) : float(r.d(-60, 60));
    if (r.p(0.1)) v[0] = v[1] = 0;
    c->points.push_back(pt(v[0], v[1], v[2], r.i(0, 255), r.d(0, 1)));
  }
  return c;
}

static void one(long id, Rng& r) {
  // --- range
  {
    Range f;
    float lo = 0.f, hi = std::numeric_limits<float>::max();
    if (r.p(0.8)) { lo = r.p(0.5) ? float(r.i(0, 10)) : float(r.d(0, 30)); f.SetValue("min_range", lo); }
    if (r.p(0.8)) { hi = r.p(0.5) ? lo + float(r.i(0, 40)) : lo + float(r.d(0, 60)); f.SetValue("max_range", hi); }
    VP_REQUIRE(f.ConfigsValid(), "range:config", "");
    for (int k = 0; k < 3; ++k) {
      auto in = make(r, {lo, hi > 1e6f ? 0.f : hi, -lo, 0.f, std::nextafter(lo, 0.f), std::nextafter(lo, 1e9f), 3.f, 4.f});
      judge("range", f, [&](const InnerPointType& p) {
        if (std::isnan(p.x) || std::isnan(p.y) || std::isnan(p.z)) return EITHER;
        const double x = p.x, y = p.y, z = p.z;
        const double rr = std::sqrt(x * x + y * y + z * z);
        const int zeros = (x == 0) + (y == 0) + (z == 0);
        // one non-zero coordinate and small whole numbers are computed without rounding
        const bool exact = (zeros >= 2 && (std::fabs(rr) > 1e-15 || rr == 0) && rr < 1e15) || (rr == std::floor(rr) && rr < 1e3 && x == std::floor(x) && y == std::floor(y) && z == std::floor(z));
        // float squares of huge or tiny values leave the number range
        if (!exact && (rr > 1e18 || (rr < 1e-15 && rr > 0))) return rr > 1e18 && hi < 1e6f ? OUT : EITHER;
        // the square root of a square may round
        if (!exact || rr != std::floor(rr))
          if (std::fabs(rr - lo) <= 2e-6 * rr || std::fabs(rr - hi) <= 2e-6 * rr) return EITHER;
        return rr >= lo && rr <= hi ? IN : OUT;
      }, in, r, fmt("range [%.9g, %.9g]", lo, hi));
    }
  }
  // --- one axis
  {
    AxisRange f;
    float lo = -std::numeric_limits<float>::max(), hi = std::numeric_limits<float>::max();
    int axis = 2;
    InnerCloudType::Ptr in;
    for (int use = r.i(1, 2); use > 0; --use) {
    if (in) {  // back to everything in between
      lo = -std::numeric_limits<float>::max(), hi = std::numeric_limits<float>::max();
      f.SetValue("min", lo);
      f.SetValue("max", hi);
      judge("axis", f, [&](const InnerPointType& p) { const float v = axis == 0 ? p.x : axis == 1 ? p.y : p.z; return std::isfinite(v) ? IN : EITHER; }, in, r, "no limits", r.p(0.5));
    }
    if (r.p(0.8)) { lo = r.p(0.5) ? float(r.i(-20, 10)) : float(r.d(-30, 30)); f.SetValue("min", lo); }
    if (r.p(0.8)) { hi = (lo < -1e6f ? 0.f : lo) + (r.p(0.5) ? float(r.i(1, 40)) : float(r.d(0.001, 60))); f.SetValue("max", hi); }
    if (r.p(0.8)) { axis = r.i(0, 2); f.SetValue("axis_index", axis); }
    VP_REQUIRE(f.ConfigsValid(), "axis:config", "");
    for (int k = 0; k < 3; ++k) {
      in = make(r, {lo < -1e6f ? 1.f : lo, hi > 1e6f ? 1.f : hi, 0.f, std::nextafter(lo, -1e30f), std::nextafter(hi, 1e30f), -0.f});
      judge("axis", f, [&](const InnerPointType& p) {
        const float v = axis == 0 ? p.x : axis == 1 ? p.y : p.z;
        if (std::isnan(v)) return EITHER;
        if (lo < -1e6f && hi > 1e6f) return std::isinf(v) ? EITHER : IN;
        return v >= lo && v <= hi ? IN : OUT;
      }, in, r, fmt("axis %d in [%.9g, %.9g]", axis, lo, hi));
    }
    }
  }
  // --- box removal
  {
    BoundingBoxRemoval f;
    float b[6];
    const char* names[6] = {"min_x", "min_y", "min_z", "max_x", "max_y", "max_z"};
    for (int i = 0; i < 3; ++i) {
      b[i] = -std::numeric_limits<float>::max();
      b[i + 3] = std::numeric_limits<float>::max();
      if (r.p(0.85)) { b[i] = r.p(0.5) ? float(r.i(-30, 10)) : float(r.d(-30, 10)); f.SetValue(names[i], b[i]); }
      if (r.p(0.85)) { b[i + 3] = (b[i] < -1e6f ? 0.f : b[i]) + float(r.i(1, 40)); f.SetValue(names[i + 3], b[i + 3]); }
    }
    VP_REQUIRE(f.ConfigsValid(), "box:config", "");
    for (int k = 0; k < 3; ++k) {
      std::vector<float> sp;
      for (float x : b) { if (std::fabs(x) < 1e6f) { sp.push_back(x); sp.push_back(std::nextafter(x, 1e9f)); sp.push_back(std::nextafter(x, -1e9f)); } }
      sp.push_back(0.f);
      auto in = make(r, sp);
      judge("box", f, [&](const InnerPointType& p) {
        if (std::isnan(p.x) || std::isnan(p.y) || std::isnan(p.z)) return EITHER;
        const float v[3] = {p.x, p.y, p.z};
        for (int i = 0; i < 3; ++i) if (v[i] < b[i] || v[i] > b[i + 3]) return IN;
        return OUT;
      }, in, r, fmt("box [%g %g %g, %g %g %g]", b[0], b[1], b[2], b[3], b[4], b[5]));
    }
  }
  // --- random sampling
  {
    RandomSampler f;
    float rate = 1.f;
    InnerCloudType::Ptr in;
    for (int use = r.i(1, 3); use > 0; --use) {  // set differently in between
    if (r.p(0.9)) { rate = r.p(0.2) ? 0.f : r.p(0.2) ? 1.f : float(r.d(0, 0.995)); f.SetValue("sampling_rate", rate); }
    VP_REQUIRE(f.ConfigsValid(), "sample:config", "");
    const bool set = !in || r.p(0.5);
    if (set) in = r.p(0.5) ? rand_cloud(r, r.i(3000, 20000)) : make(r, {0.f, 1.f});
    judge("sample", f, [&](const InnerPointType&) { return rate == 1.f ? IN : rate == 0.f ? OUT : EITHER; }, in, r, fmt("rate %.9g", rate), set);
    if (r.p(0.5)) f.SetInputCloud(in);
    InnerCloudType::Ptr out(new InnerCloudType);
    f.Filter(out);
    const int n = in->points.size();
    if (rate > 0 && rate < 1)
      // whole cloud, halves and interleaved halves: the choice does not depend on the position
      for (int part = 0; part < 5; ++part) {
        auto sel = [&](int i) { return part == 0 ? true : part == 1 ? i < n / 2 : part == 2 ? i >= n / 2 : part == 3 ? i % 2 == 0 : i % 2 == 1; };
        int m = 0, k = 0;
        for (int i = 0; i < n; ++i) m += sel(i);
        for (int i : f.Inliers()) k += sel(i);
        const double mean = m * double(rate), sd = std::sqrt(m * double(rate) * (1 - rate));
        VP_REQUIRE(std::fabs(k - mean) <= 8 * sd + 20, "sample:wrong-fraction", fmt("%d of %d points kept at rate %g (part %d)", k, m, rate, part));
      }
    cover(fmt("rate %d", int(rate * 10)));
    }
  }
  // --- refused configurations
  {
    RandomSampler s;
    s.SetValue("sampling_rate", r.p(0.5) ? -0.1f - float(r.d(0, 3)) : 1.1f + float(r.d(0, 3)));
    VP_REQUIRE(!s.ConfigsValid(), "sample:invalid-config-accepted", "");
    AxisRange a;
    if (r.p(0.5)) { a.SetValue("axis_index", int(r.p(0.5) ? r.i(3, 100) : -r.i(1, 100))); }
    else { a.SetValue("min", 3.f); a.SetValue("max", 3.f - float(r.i(0, 4))); }
    VP_REQUIRE(!a.ConfigsValid(), "axis:invalid-config-accepted", "");
    BoundingBoxRemoval b;
    const char* ax[3] = {"x", "y", "z"};
    int k = r.i(0, 2);
    b.SetValue(std::string("min_") + ax[k], 2.f);
    b.SetValue(std::string("max_") + ax[k], 2.f - float(r.i(0, 3)));
    VP_REQUIRE(!b.ConfigsValid(), "box:invalid-config-accepted", "");
    VP_REQUIRE(!b.SetValue("no_such_parameter", 1.f), "unknown-parameter-accepted", "");
  }
  // --- nothing to do
  {
    std::vector<std::shared_ptr<Interface>> fs{std::make_shared<Range>(), std::make_shared<AxisRange>(), std::make_shared<BoundingBoxRemoval>(), std::make_shared<RandomSampler>()};
    for (auto& f : fs) {
      if (r.p(0.5)) { auto c = rand_cloud(r, 9); f->SetInputCloud(c); InnerCloudType::Ptr o(new InnerCloudType); f->Filter(o); }
      InnerCloudType::Ptr e(new InnerCloudType), out(new InnerCloudType);
      e->stamp = rand_time(r);
      f->SetInputCloud(r.p(0.5) ? e : nullptr);
      f->Filter(out);
      VP_REQUIRE(out->points.empty() && f->Inliers().empty() && f->Outliers().empty(), "empty-input-gives-points", "");
      f->SetInputCloud(rand_cloud(r, 3));
      f->Filter(nullptr);
    }
  }
  // --- a very large cloud, filtered by a thread with an ordinary small stack
  if (id % 40 == 0) {
    auto big = rand_cloud(r, 1500000, 40);
    in_small_stack([&] {
      Range f;
      f.SetValue("min_range", 5.f);
      f.SetValue("max_range", 30.f);
      InnerCloudType::Ptr out(new InnerCloudType);
      f.SetInputCloud(big);
      f.Filter(out);
      check_lists("range", *big, *out, f.Inliers(), f.Outliers(), "1.5 million points");
    }, 1 << 20);
    sample("1.5 million points on a 1 MiB stack");
  }
  if (id == 0) sample("each filter: up to 3 runs per input, lists and outputs compared with the rule");
}

int main(int argc, char** argv) { return run(argc, argv, one); }
