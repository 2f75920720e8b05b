// C15: ground filters and the range image.
#include "filters.h"

using namespace vp;

static InnerCloudType::Ptr wild(Rng& r) {
  InnerCloudType::Ptr c(new InnerCloudType);
  c->stamp = rand_time(r);
  const int n = r.p(0.3) ? r.i(1, 20) : r.i(20, 2000);
  const int kind = r.i(0, 4);
  for (int i = 0; i < n; ++i) {
    switch (kind) {
      case 0: c->points.push_back(pt(any_float(r), any_float(r), any_float(r), 1)); break;
      case 1: c->points.push_back(pt(1.5f, 2.f, -0.2f, 7)); break;
      case 2: c->points.push_back(pt(r.d(-1e6, 1e6), r.d(-1e6, 1e6), r.d(-1e3, 1e3), 3)); break;
      case 3: c->points.push_back(r.p(0.2) ? pt(NAN, NAN, NAN, 0) : pt(r.d(-30, 30), r.d(-30, 30), r.d(-0.4, 2), i)); break;
      default: c->points.push_back(pt(r.p(0.1) ? 0 : r.d(-5, 5), r.p(0.1) ? 0 : r.d(-5, 5), r.p(0.3) ? 0 : r.d(-3, 3), i));
    }
  }
  return c;
}

// ---------------------------------------------------------------- per cell
static void cells(Rng& r) {
  GroundRemoval f;
  float leaf = 0.8f, thr = 0.15f;
  int min_n = 10;
  if (r.p(0.5)) { leaf = float(r.d(0.4, 1.5)); f.SetValue("leaf_size", leaf); }
  if (r.p(0.5)) { thr = float(r.d(0.05, 0.3)); f.SetValue("height_threshold", thr); }
  if (r.p(0.5)) { min_n = r.i(1, 20); f.SetValue("min_point_num_in_voxel", min_n); }
  for (int round = 0; round < 2; ++round) {
    InnerCloudType::Ptr in(new InnerCloudType);
    in->stamp = rand_time(r);
    std::vector<char> ground, object;
    auto add = [&](double x, double y, double z, bool g) {
      const double v[3] = {x, y, z};
      for (double u : v) { const double q = std::fabs(double(float(u))) / leaf; if (std::fabs(q - std::round(q)) < 1e-3) return; }
      in->points.push_back(pt(x, y, z, r.i(0, 255)));
      ground.push_back(g);
    };
    const double step = leaf / r.i(4, 8), half = r.i(4, 9) * leaf, noise = r.p(0.3) ? 0 : thr * 0.4, h = -r.d(0.05, 0.5) * leaf;
    for (double x = -half; x < half; x += step)
      for (double y = -half; y < half; y += step) add(x + r.d(-.2, .2) * step, y + r.d(-.2, .2) * step, h + r.d(-noise, noise), true);
    const int objs = r.i(1, 4);
    for (int o = 0; o < objs; ++o) {
      const double cx = r.d(-half, half), cy = r.d(-half, half), w = r.d(0.3, 2) * leaf, a = r.d(0, 3.1);
      for (double t = 0; t < w; t += step / 3)
        for (double z = h; z < h + 3; z += 0.05) add(cx + t * cos(a), cy + t * sin(a), z, false);
    }
    std::map<std::array<int, 3>, std::vector<int>> vox;
    for (size_t i = 0; i < in->points.size(); ++i) {
      auto& p = in->points[i];
      vox[{{int(double(p.x) / leaf), int(double(p.y) / leaf), int(double(p.z) / leaf)}}].push_back(i);
    }
    std::vector<char> want(in->points.size(), 2);  // 0 removed, 1 kept, 2 dropped, 3 either
    for (auto& v : vox) {
      if (int(v.second.size()) < min_n) continue;
      double lo = 1e9, hi = -1e9;
      for (int i : v.second) { lo = std::min<double>(lo, in->points[i].z); hi = std::max<double>(hi, in->points[i].z); }
      char k = 1;
      if (v.first[2] <= 0) k = std::fabs(hi - lo - thr) < 1e-5 ? 3 : hi - lo <= thr ? 0 : 1;
      for (int i : v.second) want[i] = k;
    }
    f.SetInputCloud(in);
    const int runs = r.i(1, 2);
    for (int k = 0; k < runs; ++k) {
      InnerCloudType::Ptr out(new InnerCloudType);
      if (r.p(0.5)) *out = *rand_cloud(r, 3);
      f.Filter(out);
      std::string d = fmt("%zu points, cell %g, threshold %g, at least %d", in->points.size(), leaf, thr, min_n);
      check_lists("cells", *in, *out, f.Inliers(), f.Outliers(), d, false, false);
      std::vector<char> got(in->points.size(), 2);
      for (int i : f.Inliers()) got[i] = 1;
      for (int i : f.Outliers()) got[i] = 0;
      long bad = 0, removed = 0, kept = 0;
      for (size_t i = 0; i < got.size(); ++i) {
        if (want[i] != 3 && got[i] != want[i]) ++bad;
        removed += got[i] == 0;
        kept += got[i] == 1;
        if (got[i] == 0 && in->points[i].z > h + thr + 0.8) violation("cells:object-removed", d + " " + show(in->points[i]));
      }
      VP_REQUIRE(bad == 0, "cells:wrong-decision", d + fmt(" %ld points", bad));
      VP_REQUIRE(removed > 0 || min_n > 9, "cells:no-ground-removed", d);
      cover(fmt("cells %d %d %d", min_n, int(leaf * 4), int(4 * removed / (removed + kept + 1))));
    }
  }
}

// ------------------------------------------------------------- line fitting
static void lines(Rng& r) {
  GroundRemoval2 f;
  float h = -0.25f;
  if (r.p(0.6)) { h = float(r.d(-2.2, -0.3)); f.SetValue("start_ground_height", h); }
  if (r.p(0.3)) f.SetValue("thread_num", int(r.i(1, 8)));
  float rmin = 1.f, rmax = 100.f;
  if (r.p(0.3)) { rmin = float(r.d(0.5, 3)); f.SetValue("r_min", rmin); }
  if (r.p(0.3)) { rmax = float(r.d(40, 120)); f.SetValue("r_max", rmax); }
  for (int round = 0; round < 2; ++round) {
    InnerCloudType::Ptr in(new InnerCloudType);
    in->stamp = rand_time(r);
    std::vector<char> kind;  // 0 ground, 1 object, 2 not judged, 3 ground seen sparsely, 4 ground below a roof
    const double noise = r.p(0.3) ? 0 : 0.008, slope = r.p(0.5) ? 0 : r.d(-0.01, 0.01);
    const double reach = std::min<double>(rmax - 2, 35);
    // directions with only a few returns, whose neighbours have plenty
    std::vector<char> few(180, 0);
    for (int k = r.i(0, 5); k > 0; --k) {
      const int at = k == 1 ? r.i(174, 181) : r.i(0, 179);
      bool clear = true;
      for (int s = -8; s < 12; ++s) clear = clear && !few[(at + s + 180) % 180];
      if (clear) for (int s = r.i(1, 3); s > 0; --s) few[(at + s) % 180] = 1;
    }
    struct Roof { int s, w; double from, to, dense; };
    std::vector<Roof> roofs;
    for (int k = r.i(0, 4); k > 0; --k) {
      const double from = r.d(rmin + 4, reach - 9);
      roofs.push_back({int(r.i(0, 160)), int(r.i(1, 20)), from, from + r.d(2, 6), r.p(0.5) ? 1 : 0.6});
    }
    for (int s = 0; s < 180; ++s) {
      const int left = r.i(1, 2);
      for (double d = rmin + 0.3; d < reach; d += few[s] ? (reach - 4 - rmin) / left * 0.98 : 0.16) {
        if (few[s] && d < rmin + 1) d = r.d(rmin + 2, rmin + 4);
        const double a = (s + r.d(0.2, 0.8)) * M_PI / 90;
        char k = few[s] ? 3 : 0;
        double dense = 0;
        for (auto& q : roofs)
          if (!few[s] && s >= q.s && s < q.s + q.w && d > q.from && d < q.to) { k = 4; dense = q.dense; }
        const double e = d + r.d(-0.02, 0.02);
        const InnerPointType roof = pt(e * cos(a), e * sin(a), h + slope * d + 0.6, 2);
        const bool over = r.p(dense), before = dense == 1 || r.p(0.5);
        if (over && before) { in->points.push_back(roof); kind.push_back(1); }
        in->points.push_back(pt(d * cos(a), d * sin(a), h + slope * d + r.d(-noise, noise), 1));
        kind.push_back(k);
        if (over && !before) { in->points.push_back(roof); kind.push_back(1); }
      }
    }
    const int objs = r.i(2, 6);
    for (int o = 0; o < objs; ++o) {
      const double a0 = r.d(0, 6.28), d0 = r.d(rmin + 4, reach - 3), w = r.d(0.02, 0.3);
      for (double a = a0; a < a0 + w; a += 0.01)
        for (double z = 0.45; z < 2.5; z += 0.15) {
          in->points.push_back(pt(d0 * cos(a), d0 * sin(a), h + slope * d0 + z, 2));
          kind.push_back(1);
        }
    }
    if (r.p(0.4)) {
      for (int i = 0; i < 30; ++i) { in->points.push_back(r.p(0.5) ? pt(NAN, NAN, NAN, 0) : pt(r.d(-3, 3), INFINITY, r.d(-3, 3), 0)); kind.push_back(2); }
      for (int i = 0; i < 10; ++i) { in->points.push_back(pt(r.d(-3, 3), r.d(-3, 3), NAN, 0)); kind.push_back(2); }
    }
    if (r.p(0.4)) for (int i = 0; i < 60; ++i) { double a = r.d(0, 6.3), d = r.p(0.5) ? r.d(0, rmin * 0.9) : rmax + r.d(1, 100); in->points.push_back(pt(d * cos(a), d * sin(a), h + r.d(-1, 1), 0)); kind.push_back(2); }
    if (r.p(0.5)) for (size_t i = in->points.size(); i > 1; --i) { size_t j = r.i(0, i - 1); std::swap(in->points[i - 1], in->points[j]); std::swap(kind[i - 1], kind[j]); }
    shuffle_threads(r);
    f.SetInputCloud(in);
    std::vector<int> first;
    const int runs = r.i(1, 2);
    for (int k = 0; k < runs; ++k) {
      InnerCloudType::Ptr out(new InnerCloudType);
      if (r.p(0.5)) *out = *rand_cloud(r, 3);
      shuffle_threads(r);
      f.Filter(out);
      std::string d = fmt("%zu points, height %g, slope %g, noise %g, ranges [%g,%g]", in->points.size(), h, slope, noise, rmin, rmax);
      check_lists("lines", *in, *out, f.Inliers(), f.Outliers(), d);
      long all[5] = {}, out_of[5] = {};
      for (char x : kind) ++all[int(x)];
      for (int i : f.Outliers()) ++out_of[int(kind[i])];
      const long ground = all[0], gone = out_of[0], lost = out_of[1];
      VP_REQUIRE(lost == 0, "lines:object-removed", d + fmt(" %ld object points removed", lost));
      VP_REQUIRE(gone >= 0.95 * ground, "lines:ground-kept", d + fmt(" %ld of %ld ground points removed", gone, ground));
      VP_REQUIRE(out_of[3] >= 0.9 * all[3], "lines:sparse-ground-kept", d + fmt(" %ld of %ld ground points in sparse directions removed", out_of[3], all[3]));
      VP_REQUIRE(out_of[4] >= 0.9 * all[4], "lines:ground-under-object-kept", d + fmt(" %ld of %ld ground points under a roof removed", out_of[4], all[4]));
      count("ground points in sparse directions", all[3]);
      count("ground points under a roof", all[4]);
      // the same object gives the same answer again
      if (k == 0) first = f.Outliers();
      else VP_REQUIRE(first == f.Outliers(), "lines:second-run-differs", d);
      count("ground points", ground);
      cover(fmt("lines %d %d %d %d", int(h * 4), slope == 0, noise == 0, int(100.0 * gone / ground)));
    }
  }
}

// -------------------------------------------------------------- range image
static void image(Rng& r) {
  RangeImage f;
  float top = 30, btm = -15, off[3] = {0, 0, 0};
  int rows = 40, cols = 1800;
  if (r.p(0.5)) { top = float(r.d(5, 40)); f.SetValue("top_angle", top); }
  if (r.p(0.5)) { btm = float(r.d(-40, 3)); f.SetValue("btm_angle", btm); }
  if (r.p(0.5)) { rows = r.i(1, 64); f.SetValue("vertical_line_num", rows); }
  if (r.p(0.6)) { cols = r.i(8, 400); f.SetValue("horizontal_line_num", cols); }
  const char* on[3] = {"offset_x", "offset_y", "offset_z"};
  if (r.p(0.4)) for (int i = 0; i < 3; ++i) { off[i] = float(r.i(-8, 8)) / 4; f.SetValue(on[i], off[i]); }
  const double vr = (double(top) - btm) / rows / 180 * M_PI, hr = 2 * M_PI / cols;
  for (int round = 0; round < 2; ++round) {
    InnerCloudType::Ptr in(new InnerCloudType);
    in->stamp = rand_time(r);
    std::vector<std::pair<int, int>> pix;
    const int n = r.i(1, 900), span = r.i(1, cols);
    for (int i = 0; i < n; ++i) {
      double row = r.p(0.15) ? (r.p(0.5) ? -r.d(0.1, 5) : rows + r.d(0.1, 5)) : r.i(0, rows - 1) + r.d(0.15, 0.85);
      const int col = r.i(0, span - 1);
      const double el = btm / 180.0 * M_PI + row * vr, az = (col + r.d(-0.3, 0.3)) * hr;
      if (std::fabs(el) > 1.4) { --i; if (r.p(0.01)) break; continue; }
      const double dist = r.d(1, 60), xy = dist * cos(el);
      const InnerPointType p = pt(xy * cos(az) - off[0], xy * sin(az) - off[1], dist * sin(el) - off[2], i);
      in->points.push_back(p);
      pix.push_back(row < 0 || row >= rows ? std::make_pair(-1, -1) : std::make_pair(int(row), col % cols));
    }
    if (in->points.empty()) continue;
    if (r.p(0.3)) { in->points.push_back(pt(-off[0], -off[1], 1, 0)); pix.push_back({-1, -1}); }
    if (r.p(0.3)) { in->points.push_back(pt(NAN, 1, NAN, 0)); pix.push_back({-1, -1}); }
    std::string d = fmt("%zu points, %d x %d pixels, [%g,%g] degrees", in->points.size(), rows, cols, btm, top);
    std::vector<int> want;
    std::map<std::pair<int, int>, int> owner;
    for (size_t i = 0; i < pix.size(); ++i)
      if (pix[i].first >= 0 && owner.insert({pix[i], int(i)}).second) want.push_back(i);
    f.SetInputCloud(in);
    const int runs = r.i(1, 2);
    for (int k = 0; k < runs; ++k) {
      InnerCloudType::Ptr out(new InnerCloudType);
      if (r.p(0.5)) *out = *rand_cloud(r, 3);
      f.Filter(out);
      check_lists("image", *in, *out, f.Inliers(), f.Outliers(), d);
      long wrong = 0;
      std::string w;
      std::vector<char> g(in->points.size(), 0);
      for (int i : f.Inliers()) g[i] = 1;
      for (int i : want) g[i] ^= 1;
      for (size_t i = 0; i < g.size(); ++i) if (g[i]) { ++wrong; if (w.empty()) w = fmt(" first: pixel (%d,%d) ", pix[i].first, pix[i].second) + show(in->points[i]); }
      VP_REQUIRE(wrong == 0, "image:wrong-selection", d + fmt(" run %d: %ld points", k, wrong) + w);
      cover(fmt("image %d %d %d", int(std::log2(rows + 1)), int(std::log2(cols)), int(8.0 * want.size() / in->points.size())));
    }
  }
}

static void one(long id, Rng& r) {
  cells(r);
  lines(r);
  image(r);
  // anything else must not crash and must still be described by the lists
  for (int k = 0; k < 6; ++k) {
    auto in = wild(r);
    GroundRemoval a;
    GroundRemoval2 b;
    RangeImage c;
    Interface* fs[3] = {&a, &b, &c};
    const char* names[3] = {"cells", "lines", "image"};
    for (int i = 0; i < 3; ++i) {
      InnerCloudType::Ptr out(new InnerCloudType), e(new InnerCloudType);
      shuffle_threads(r);
      fs[i]->SetInputCloud(in);
      fs[i]->Filter(out);
      check_lists(names[i], *in, *out, fs[i]->Inliers(), fs[i]->Outliers(), "arbitrary cloud", i != 0, i != 0);
      InnerCloudType::Ptr o2(new InnerCloudType);
      fs[i]->SetInputCloud(e);
      fs[i]->Filter(o2);
      VP_REQUIRE(o2->points.empty(), "empty-input-gives-points", "");
    }
    cover(fmt("wild %zu", in->points.size() / 100));
  }
  if (id == 0) sample("flat ground with walls, pixel-exact range images, arbitrary clouds");
}

int main(int argc, char** argv) { return run(argc, argv, one); }
