// C36: surfaces found in a range image and the picture drawn of it.
#include <png.h>

#include "filters.h"

using namespace vp;

struct Picture {
  int w = 0, h = 0;
  std::vector<std::array<int, 3>> px;
};

static Picture read_png(const char* file) {
  Picture out;
  png_image img;
  memset(&img, 0, sizeof img);
  img.version = PNG_IMAGE_VERSION;
  if (!png_image_begin_read_from_file(&img, file)) return out;
  img.format = PNG_FORMAT_RGB;
  std::vector<unsigned char> buf(PNG_IMAGE_SIZE(img));
  if (!png_image_finish_read(&img, nullptr, buf.data(), 0, nullptr)) return out;
  out.w = img.width;
  out.h = img.height;
  for (size_t i = 0; i + 2 < buf.size(); i += 3) out.px.push_back({{buf[i], buf[i + 1], buf[i + 2]}});
  return out;
}

struct Sets {
  std::vector<int> up;
  explicit Sets(int n) : up(n) { for (int i = 0; i < n; ++i) up[i] = i; }
  int find(int i) { while (up[i] != i) i = up[i] = up[up[i]]; return i; }
  void join(int a, int b) { up[find(a)] = find(b); }
};

struct Scene {
  int rows, cols;
  double top, btm;
  std::vector<double> range;  // 0: nothing
};

static Scene make(Rng& r, int rows, int cols, double top, double btm) {
  Scene s{rows, cols, top, btm, std::vector<double>(rows * cols, 0)};
  const int kind = r.i(0, 3);
  if (kind == 0) {  // scattered returns
    const double fill = r.d(0.05, 0.9), lo = r.d(1, 10), hi = lo * r.d(1.02, 3);
    for (auto& v : s.range) if (r.p(fill)) v = r.d(lo, hi);
  } else {
    // surfaces in front of each other, over the seam as well
    const int n = r.i(1, 12);
    for (int k = 0; k < n; ++k) {
      const int c0 = r.i(0, cols - 1), w = r.i(1, std::max(1, cols / 2)), r0 = r.i(0, rows - 1), h = r.i(1, rows);
      const double d = r.d(1.5, 60), slope = r.p(0.5) ? 0 : r.d(-0.03, 0.03), noise = r.p(0.5) ? 0 : 0.002 * d;
      for (int y = r0; y < std::min(rows, r0 + h); ++y)
        for (int x = 0; x < w; ++x) s.range[y * cols + (c0 + x) % cols] = std::max(1., d * (1 + slope * x) + r.d(-noise, noise));
    }
    if (kind == 2) for (auto& v : s.range) if (r.p(0.2)) v = 0;  // holes
    if (kind == 3) for (int x = r.i(0, 3); x < cols; x += r.i(2, 6)) for (int y = 0; y < rows; ++y) s.range[y * cols + x] = 0;  // missing columns
  }
  return s;
}

static void one(long id, Rng& r) {
  RangeImage f;
  float top = 30, btm = -15, off[3] = {0, 0, 0};
  int rows = 40, cols = 1800;
  if (r.p(0.5)) { top = float(r.d(5, 40)); f.SetValue("top_angle", top); }
  if (r.p(0.5)) { btm = float(r.d(-40, 3)); f.SetValue("btm_angle", btm); }
  if (r.p(0.6)) { rows = r.i(1, 64); f.SetValue("vertical_line_num", rows); }
  if (r.p(0.85)) { cols = r.p(0.1) ? r.i(2, 7) : r.i(8, 400); f.SetValue("horizontal_line_num", cols); }
  const char* on[3] = {"offset_x", "offset_y", "offset_z"};
  if (r.p(0.4)) for (int i = 0; i < 3; ++i) { off[i] = float(r.i(-8, 8)) / 4; f.SetValue(on[i], off[i]); }
  const double vr = (double(top) - btm) / rows / 180 * M_PI, hr = 2 * M_PI / cols;
  const int rounds = r.i(1, 3);
  for (int round = 0; round < rounds; ++round) {
    Scene s = make(r, rows, cols, top, btm);
    InnerCloudType::Ptr in(new InnerCloudType);
    in->stamp = rand_time(r);
    std::vector<int> pixel, order;
    for (int i = 0; i < rows * cols; ++i) if (s.range[i] > 0) order.push_back(i);
    const bool mixed = r.p(0.5);
    if (mixed) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.i(0, i - 1)]);
    for (int i : order) {
      const double el = btm / 180.0 * M_PI + (i / cols + 0.5 + r.d(-.3, .3)) * vr, az = (i % cols + r.d(-.3, .3)) * hr, d = s.range[i];
      in->points.push_back(pt(d * cos(el) * cos(az) - off[0], d * cos(el) * sin(az) - off[1], d * sin(el) - off[2], i % 200));
      pixel.push_back(i);
    }
    // second returns of a pixel are not part of the image
    if (r.p(0.3))
      for (size_t k = 0, n = std::min<size_t>(20, order.size()); k < n; ++k) {
        const int i = order[r.i(0, order.size() - 1)];
        const double el = btm / 180.0 * M_PI + (i / cols + 0.5) * vr, az = (i % cols) * hr, d = s.range[i] * r.d(0.3, 3);
        in->points.push_back(pt(d * cos(el) * cos(az) - off[0], d * cos(el) * sin(az) - off[1], d * sin(el) - off[2], 3));
        pixel.push_back(-1);
      }
    if (in->points.empty()) continue;
    const std::string d = fmt("%zu returns, %d x %d pixels, [%g,%g] degrees, cloud %d of this object", order.size(), rows, cols, btm, top, round + 1);
    f.SetInputCloud(in);
    InnerCloudType::Ptr out(new InnerCloudType);
    const int runs = r.i(1, 2);
    for (int k = 0; k < runs; ++k) f.Filter(out);
    if (out->points.size() != order.size()) { count("pixels not as placed"); continue; }  // decided by C15

    // neighbours whose returns are joined by a line clearly (not) steeper than
    // ten degrees to the beam; two columns apart may be measured either way
    Sets sure(rows * cols), maybe(rows * cols);
    auto steep = [](double a, double b, double alpha) {
      const double d1 = std::max(a, b), d2 = std::min(a, b);
      return std::atan2(d2 * std::sin(alpha), d1 - d2 * std::cos(alpha)) - 10 / 180. * M_PI;
    };
    auto link = [&](int a, int b, double al1, double al2) {
      if (a == b || s.range[a] <= 0 || s.range[b] <= 0) return;
      const double u = steep(s.range[a], s.range[b], al1), v = steep(s.range[a], s.range[b], al2);
      if (u > 2e-3 && v > 2e-3) sure.join(a, b);
      if (u > -2e-3 || v > -2e-3) maybe.join(a, b);
    };
    for (int y = 0; y < rows; ++y)
      for (int x = 0; x < cols; ++x) {
        const int a = y * cols + x;
        link(a, y * cols + (x + 1) % cols, hr, hr);
        link(a, y * cols + (x + 2) % cols, hr, 2 * hr);
        if (y + 1 < rows) link(a, a + cols, vr, vr);
      }
    std::map<int, std::vector<int>> sure_of, maybe_of;
    for (int i : order) { sure_of[sure.find(i)].push_back(i); maybe_of[maybe.find(i)].push_back(i); }
    const int again = r.i(1, 2);
    for (int k = 0; k < again; ++k) {
      RangeImage::LabeledPointCloudPtr lab(new pcl::PointCloud<RangeImage::LabeledPointType>);
      f.DepthCluster(lab);
      std::map<std::array<float, 3>, int> pixel_at;
      for (size_t i = 0; i < pixel.size(); ++i) pixel_at.insert({{{in->points[i].x, in->points[i].y, in->points[i].z}}, pixel[i]});
      std::map<int, int> label_of;
      bool known = true, once = true;
      for (auto& p : lab->points) {
        auto it = pixel_at.find({{p.x, p.y, p.z}});
        if (it == pixel_at.end() || it->second < 0) { known = false; continue; }
        if (!label_of.insert({it->second, int(p.label)}).second) once = false;
      }
      VP_REQUIRE(known, "surface:point-not-in-image", d);
      VP_REQUIRE(once, "surface:point-twice", d);
      // one surface, one label
      bool split = false, part = false, lost = false, small = false, zero = false;
      for (auto& g : sure_of) {
        std::set<int> ls;
        size_t n = 0;
        for (int i : g.second) { auto it = label_of.find(i); if (it != label_of.end()) { ls.insert(it->second); ++n; } }
        if (ls.size() > 1) split = true;
        if (n && n != g.second.size()) part = true;
        if (g.second.size() >= 20 && n == 0) lost = true;
      }
      std::map<int, std::set<int>> groups;
      for (auto& l : label_of) { groups[l.second].insert(maybe.find(l.first)); if (l.second <= 0) zero = true; }
      bool mixed_up = false;
      for (auto& g : groups) if (g.second.size() > 1) mixed_up = true;
      for (auto& g : maybe_of) if (g.second.size() < 20) for (int i : g.second) if (label_of.count(i)) small = true;
      VP_REQUIRE(!split && !part, "surface:split", d);
      VP_REQUIRE(!lost, "surface:lost", d);
      VP_REQUIRE(!mixed_up, "surface:two-in-one", d);
      VP_REQUIRE(!small, "surface:too-small-reported", d);
      VP_REQUIRE(!zero, "surface:without-label", d);
      count("surfaces", groups.size());
      cover(fmt("surface %d %d %d %d", int(std::log2(groups.size() + 1) * 2), int(std::log2(cols)), int(std::log2(rows + 1)), sure_of.size() == maybe_of.size()));
    }

    const float max_range = r.p(0.5) ? 80.f : float(r.d(2, 60));
    const bool colour = r.p(0.5);
    f.ToPng(max_range, "range.png", colour);
    Picture p = read_png("range.png");
    VP_REQUIRE(p.w == cols && p.h == rows, "picture:size", d + fmt(" picture %dx%d", p.w, p.h));
    if (p.w == cols && p.h == rows) {
      long bad = 0, beyond = 0;
      std::string first;
      for (int i = 0; i < rows * cols; ++i) {
        const double v = s.range[i];
        if (v > 0 && std::fabs(v - max_range) < 1e-4 * max_range) continue;
        std::array<double, 3> w{{0, 0, 0}};
        if (v <= 0 && colour) w[1] = 255;
        if (v > 0 && v < max_range) w = {{v / max_range * 255, v / max_range * 255, v / max_range * 255}};
        beyond += v > max_range;
        for (int c = 0; c < 3; ++c)
          if (std::fabs(p.px[i][c] - w[c]) > 1.5) {
            if (!bad++) first = fmt(" first: pixel (%d,%d) at %g m of %g m is (%d,%d,%d)", i / cols, i % cols, v, max_range, p.px[i][0], p.px[i][1], p.px[i][2]);
            break;
          }
      }
      VP_REQUIRE(bad == 0, "picture:content", d + fmt(" %ld pixels,", bad) + first);
      cover(fmt("picture %d %d %d", colour, beyond > 0, mixed));
      count("pictures");
      count("pixels beyond the range", beyond);
    }
    remove("range.png");
    if (r.p(0.1)) f.ToPng(max_range, "nowhere/range.png", colour);
  }
  if (id == 0) sample("range images with surfaces, holes and returns over the seam");
}

int main(int argc, char** argv) { return run(argc, argv, one); }
