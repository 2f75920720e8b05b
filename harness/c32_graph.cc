// C32: the connection graph and its pictures.
#include "back_end/view_graph.h"
#include "gen.h"

using namespace vp;
using static_map::back_end::ViewGraph;

struct Picture { long w = 0, h = 0; std::vector<unsigned char> px; };

static bool read_ppm(const std::string& file, Picture* p) {
  std::ifstream in(file, std::ios::binary);
  std::string magic;
  long max = 0;
  auto next = [&](long* v) {
    std::string tok;
    while (in >> tok) {
      if (tok[0] == '#') { std::getline(in, tok); continue; }
      *v = atol(tok.c_str());
      return;
    }
  };
  if (!(in >> magic) || magic != "P6") return false;
  next(&p->w);
  next(&p->h);
  next(&max);
  in.get();
  if (max != 255 || p->w <= 0 || p->h <= 0 || p->w > 40000 || p->h > 40000) return false;
  p->px.resize(p->w * p->h * 3);
  in.read(reinterpret_cast<char*>(p->px.data()), p->px.size());
  return in.gcount() == long(p->px.size());
}

static std::string slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}

typedef std::multiset<int64_t> Edges;

static void one(long, Rng& r) {
  ViewGraph g;
  std::map<int64_t, Eigen::Matrix4d> v;
  std::map<int64_t, std::vector<std::pair<int64_t, Eigen::Matrix4d>>> e;
  const int n = r.p(0.1) ? 1 : r.i(2, 25);
  const double size = r.pick(std::vector<double>{2, 10, 30});
  const double far = r.p(0.4) ? 0 : r.pick(std::vector<double>{100, 1000, 5000});
  const double cx = r.d(-far, far), cy = r.d(-far, far);
  std::vector<int64_t> ids;
  for (int i = 0; i < n; ++i) ids.push_back(r.p(0.8) ? i : r.i(-5, 1000000));
  auto pose = [&]() {
    Eigen::Matrix4d m = rand_pose(r, 5);
    m(0, 3) = cx + r.d(-size, size);
    m(1, 3) = cy + r.d(-size, size);
    return m;
  };
  std::string out = "g.ppm";
  const int steps = r.i(1, 90);
  int refused = 0, moved = 0, edges = 0;
  for (int i = 0; i < steps; ++i) {
    if (v.empty() || r.p(0.5)) {
      const int64_t id = r.pick(ids);
      moved += v.count(id);
      v[id] = pose();
      if (r.p(0.02)) v[id](0, 3) += 40;
      g.AddVertex(id, v[id]);
    } else {
      const int64_t a = r.pick(ids), b = r.p(0.5) ? a + 1 : r.pick(ids);
      const Eigen::Matrix4d t = pose();
      g.AddEdge(a, b, t);
      if (v.count(a) && v.count(b)) { e[a].push_back({b, t}); ++edges; }
      else ++refused;
    }
    if (r.p(0.03)) { g.SaveTextFile("mid.txt"); g.SaveImage(out, 0.5); }
  }
  const std::string d = fmt("%zu vertices, %d edges, %d moved, %d refused, around %g %g size %g", v.size(), edges, moved, refused, cx, cy, size);
  auto check_graph = [&](const char* when) {
    auto w = g.GetWholeGraph();
    VP_REQUIRE(w.size() == v.size(), "vertex-set", d + fmt(" %zu vertices ", w.size()) + when);
    for (auto& kv : v) {
      eval();
      auto it = w.find(kv.first);
      if (it == w.end()) { violation("vertex-missing", d + when); continue; }
      VP_REQUIRE(it->second.self_pose == kv.second, "vertex-pose", d + fmt(" vertex %ld ", kv.first) + when);
      const auto& want = e[kv.first];
      VP_REQUIRE(it->second.connections.size() == want.size(), "edge-set", d + fmt(" vertex %ld has %zu edges instead of %zu ", kv.first, it->second.connections.size(), want.size()) + when);
      std::vector<char> used(want.size(), 0);
      for (auto& c : it->second.connections) {
        bool found = false;
        for (size_t k = 0; k < want.size() && !found; ++k)
          if (!used[k] && want[k].first == c.first && want[k].second == c.second) used[k] = 1, found = true;
        VP_REQUIRE(found, "edge-set", d + fmt(" edge %ld to %ld ", kv.first, c.first) + when);
      }
    }
  };
  check_graph("before export");
  // text
  const int reps = r.i(1, 3);
  std::string first_text, first_image;
  const double res = r.pick(std::vector<double>{0.05, 0.1, 0.25, 0.5});
  Picture pic;
  for (int k = 0; k < reps; ++k) {
    unlink("g.txt");
    g.SaveTextFile("g.txt");
    const std::string text = slurp("g.txt");
    if (k == 0) first_text = text;
    VP_REQUIRE(text == first_text, "text-changes", d + fmt(" export %d", k));
    unlink(out.c_str());
    g.SaveImage(out, res);
    const std::string im = slurp(out);
    if (k == 0) first_image = im;
    VP_REQUIRE(im == first_image, "picture-changes", d + fmt(" export %d: %zu bytes instead of %zu", k, im.size(), first_image.size()));
  }
  {
    std::istringstream in(first_text);
    std::string line;
    std::set<int64_t> seen;
    while (std::getline(in, line)) {
      if (line.empty()) continue;
      const size_t gt = line.find('>');
      eval();
      if (gt == std::string::npos) { violation("text-format", d + " '" + line + "'"); continue; }
      const int64_t id = atoll(line.c_str());
      VP_REQUIRE(v.count(id) && seen.insert(id).second, "text-vertex", d + " '" + line + "'");
      Edges got, want;
      std::istringstream ls(line.substr(gt + 1));
      std::string tok;
      while (std::getline(ls, tok, ','))
        if (tok.find_first_of("0123456789") != std::string::npos) got.insert(atoll(tok.c_str()));
      for (auto& c : e[id]) want.insert(c.first);
      VP_REQUIRE(got == want, "text-edges", d + " '" + line + "'");
    }
    VP_REQUIRE(seen.size() == v.size(), "text-vertex", d + fmt(" %zu lines", seen.size()));
  }
  // picture
  double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
  for (auto& kv : v) {
    x0 = std::min(x0, kv.second(0, 3)); x1 = std::max(x1, kv.second(0, 3));
    y0 = std::min(y0, kv.second(1, 3)); y1 = std::max(y1, kv.second(1, 3));
  }
  eval();
  if (!read_ppm(out, &pic)) { violation("picture-unreadable", d + fmt(" %zu bytes", first_image.size())); return; }
  const double ww = (x1 - x0 + 2) / res, wh = (y1 - y0 + 2) / res;
  VP_REQUIRE(std::fabs(pic.w - ww) <= 2 && std::fabs(pic.h - wh) <= 2, "picture-size", d + fmt(" %ld x %ld pixels instead of %g x %g", pic.w, pic.h, ww, wh));
  auto at = [&](const Eigen::Matrix4d& p) { return Eigen::Vector2d((p(0, 3) - x0 + 1) / res, (y1 + 1 - p(1, 3)) / res); };
  auto pixel = [&](long x, long y) -> const unsigned char* { return x < 0 || y < 0 || x >= pic.w || y >= pic.h ? nullptr : &pic.px[(y * pic.w + x) * 3]; };
  auto coloured = [&](const Eigen::Vector2d& q) {
    for (long dx = -1; dx <= 1; ++dx)
      for (long dy = -1; dy <= 1; ++dy) {
        auto c = pixel(std::lround(std::floor(q[0])) + dx, std::lround(std::floor(q[1])) + dy);
        if (c && !(c[0] == 255 && c[1] == 255 && c[2] == 255)) return true;
      }
    return false;
  };
  struct Seg { Eigen::Vector2d a, b; };
  std::vector<Seg> segs;
  for (auto& kv : e)
    for (auto& c : kv.second) {
      Seg s = {at(v[kv.first]), at(v[c.first])};
      segs.push_back(s);
      for (double f : {0.0, 0.33, 0.5, 1.0}) VP_REQUIRE(coloured(s.a + (s.b - s.a) * f), "edge-not-drawn", d + fmt(" edge %ld to %ld", kv.first, c.first));
    }
  long stray = 0, inked = 0;
  for (long y = 0; y < pic.h; ++y)
    for (long x = 0; x < pic.w; ++x) {
      auto c = pixel(x, y);
      if (c[0] == 255 && c[1] == 255 && c[2] == 255) continue;
      ++inked;
      if (inked > 4000) continue;
      bool ok = false;
      const Eigen::Vector2d q(x + 0.5, y + 0.5);
      for (auto& s : segs) {
        const Eigen::Vector2d ab = s.b - s.a;
        double f = ab.squaredNorm() > 0 ? (q - s.a).dot(ab) / ab.squaredNorm() : 0;
        f = std::min(1.0, std::max(0.0, f));
        if ((q - s.a - f * ab).norm() < 2.5) { ok = true; break; }
      }
      if (!ok) ++stray;
    }
  VP_REQUIRE(stray == 0, "stray-lines", d + fmt(" %ld pixels", stray));
  check_graph("after export");
  unlink(out.c_str());
  count("pixels-checked", inked);
  cover(fmt("%d %d %d %d %d", int(v.size()), moved > 0, edges > 0, refused > 0, int(far)));
}

int main(int argc, char** argv) { return run(argc, argv, one); }
