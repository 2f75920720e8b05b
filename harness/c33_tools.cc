// C33: the sampling tool, the path tool and the converter, run as their own processes.
#include <fcntl.h>
#include <fstream>
#include <pcl/io/pcd_io.h>
#define main sampler_main
#include "tools/pcd_sampler.cc"
#undef main
#define main path_main
#include "tools/path_statistic.cc"
#undef main

#define main las_main
#include "tools/pcd_to_las.cc"
#undef main

#include "gen.h"

using namespace vp;
typedef pcl::PointCloud<pcl::PointXYZI> Cloud;

static bool there(const char* f) { struct stat s; return !stat(f, &s); }

// 0: ended well, 1: reported an error, otherwise something worse
static int tool(const std::string& name, const std::vector<std::string>& a, const std::string& d) {
  const int st = run_tool(name, a);
  eval();
  if (WIFEXITED(st) && WEXITSTATUS(st) <= 1) return WEXITSTATUS(st);
  violation("tool-crash", d + fmt(" status %d", st));
  return 2;
}

static Cloud input(Rng& r, int n) {
  Cloud c;
  const double w = r.pick(std::vector<double>{1, 100, 10000});
  for (int i = 0; i < n; ++i) {
    pcl::PointXYZI p;
    p.x = r.d(-w, w); p.y = r.d(-w, w); p.z = r.d(-w, w);
    p.intensity = i;
    if (r.p(0.02)) p.x = p.y = p.z = 0;
    c.push_back(p);
  }
  return c;
}

static void save(Rng& r, const std::string& f, const Cloud& c) {
  const int k = c.empty() ? 0 : r.i(0, 2);
  if (k == 0) pcl::io::savePCDFileASCII(f, c);
  else if (k == 1) pcl::io::savePCDFileBinary(f, c);
  else pcl::io::savePCDFileBinaryCompressed(f, c);
}

static void one(long, Rng& r) {
  const int n = r.p(0.1) ? r.i(1, 3) : r.p(0.3) ? r.i(1000, 5000) : r.i(4, 300);
  save(r, "in file.pcd", input(r, n));
  Cloud c;   // as the file has it: the text form has fewer digits
  if (pcl::io::loadPCDFile<pcl::PointXYZI>("in file.pcd", c) || int(c.size()) != n) harness_error("input file");
  unlink("sampled.pcd");
  unlink("path.csv");
  const bool dflt = r.p(0.2);
  const double ratio = dflt ? 0.05 : r.pick(std::vector<double>{0.001, 0.01, 0.1, 0.25, 0.333, 0.5, 0.77, 0.999, 1.0});
  std::string d = fmt("%d points, ratio %g", n, ratio);
  std::vector<std::string> a = {"-pc", "in file.pcd"};
  if (!dflt) {
    const std::vector<std::string> o = {"-r", fmt("%g", ratio)};
    a.insert(r.p(0.5) ? a.end() : a.begin(), o.begin(), o.end());
  }
  if (tool("sampler", a, d) == 0) {
    const double want = n * ratio;
    Cloud s;
    if (!there("sampled.pcd")) VP_REQUIRE(want < 1.001, "no-sample", d);
    else if (want >= 1.001) {
      VP_REQUIRE(!pcl::io::loadPCDFile<pcl::PointXYZI>("sampled.pcd", s), "sample-unreadable", d);
      VP_REQUIRE(std::fabs(double(s.size()) - want) < 1.001, "sample-size", d + fmt(" gave %zu", s.size()));
      std::set<int> seen;
      for (auto& p : s) {
        const int i = int(p.intensity);
        if (i < 0 || i >= n) { violation("foreign-point", d); continue; }
        VP_REQUIRE(seen.insert(i).second, "point-twice", d);
        VP_REQUIRE(p.x == c[i].x && p.y == c[i].y && p.z == c[i].z && p.intensity == c[i].intensity, "foreign-point", d);
      }
      cover(fmt("sample %g %d", ratio, int(std::log2(n))));
    }
  } else {
    violation("sampler-failed", d);
  }
  if (tool("path", {"-pc", "in file.pcd"}, d) == 0) {
    std::ifstream in("path.csv");
    VP_REQUIRE(in.is_open(), "no-path", d);
    std::string line;
    int i = 0;
    while (std::getline(in, line)) {
      if (line.empty()) continue;
      double v[4];
      const int got = sscanf(line.c_str(), "%lf,%lf,%lf,%lf", v, v + 1, v + 2, v + 3);
      eval();
      if (got != 4) { violation("path-format", d + " '" + line + "'"); break; }
      if (i < n) VP_REQUIRE(std::fabs(v[0] - c[i].x) < 2e-6 && std::fabs(v[1] - c[i].y) < 2e-6 && std::fabs(v[2] - c[i].z) < 2e-6 && std::fabs(v[3] - c[i].intensity) < 2e-6, "path-point", d + fmt(" line %d ", i) + line);
      ++i;
    }
    VP_REQUIRE(i == n, "path-lines", d + fmt(" %d lines", i));
    cover(fmt("path %d", int(std::log2(n))));
  } else {
    violation("path-failed", d);
  }
  // the converter, also for coordinates in double precision and more fields
  {
    const bool dbl = r.p(0.4), named = r.p(0.5), reorder = r.p(0.5);
    std::string in = "in file.pcd";
    std::vector<Eigen::Vector3d> want;
    for (auto& p : c) want.push_back(Eigen::Vector3d(p.x, p.y, p.z));
    if (dbl) {
      in = "wide.pcd";
      std::ofstream f(in);
      f << "VERSION .7\nFIELDS " << (reorder ? "label z y x" : "x y z label") << "\nSIZE " << (reorder ? "4 8 8 8" : "8 8 8 4") << "\nTYPE "
        << (reorder ? "U F F F" : "F F F U") << "\nCOUNT 1 1 1 1\nWIDTH " << n << "\nHEIGHT 1\nVIEWPOINT 0 0 0 1 0 0 0\nPOINTS " << n << "\nDATA ascii\n";
      f.precision(17);
      for (auto& w : want) {
        w += Eigen::Vector3d(500000, 4000000, 0);
        if (reorder) f << "7 " << w[2] << " " << w[1] << " " << w[0] << "\n";
        else f << w[0] << " " << w[1] << " " << w[2] << " 7\n";
      }
    }
    const std::string out = named ? "converted" : in + ".las";
    unlink(out.c_str());
    std::vector<std::string> la = {"-i", in};
    if (named) { la.push_back("-o"); la.push_back(out); }
    const std::string ld = d + fmt(", converter, %s coordinates", dbl ? "double" : "single");
    if (tool("las", la, ld) == 0) {
      std::ifstream f(out);
      VP_REQUIRE(f.is_open(), "no-converted-file", ld);
      std::string line;
      std::getline(f, line);
      size_t i = 0;
      Eigen::Vector3d v;
      while (f >> v[0] >> v[1] >> v[2]) {
        if (i < want.size()) VP_REQUIRE((v - want[i]).cwiseAbs().maxCoeff() < 0.006, "converted-point", ld + fmt(" point %zu", i));
        ++i;
      }
      VP_REQUIRE(i == want.size(), "converted-count", ld + fmt(" %zu points", i));
      cover(fmt("las %d %d %d", dbl, named, int(std::log2(n))));
    } else {
      violation("converter-failed", ld);
    }
    unlink(out.c_str());
  }
  // inputs that cannot be used
  unlink("bad.pcd");
  const int kind = r.i(0, 4);
  std::vector<std::string> args = {"-pc", "bad.pcd"};
  if (kind == 0) args.clear();
  if (kind == 2) { std::ofstream f("bad.pcd"); f << "this is no cloud\n"; }
  if (kind == 3) { std::ofstream f("bad.pcd"); }
  if (kind == 4) {
    pcl::io::savePCDFileBinary("bad.pcd", c);
    struct stat s;
    stat("bad.pcd", &s);
    if (truncate("bad.pcd", s.st_size - r.i(1, std::min<long>(s.st_size - 1, 16L * n)))) harness_error("truncate");
  }
  for (std::string m : {"sampler", "path", "las"}) {
    if (m == "las" && kind) args[0] = "-i";
    unlink("bad.pcd.las");
    unlink("sampled.pcd");
    unlink("path.csv");
    const std::string bd = d + fmt(", unusable input kind %d, %s", kind, m.c_str());
    const int rc = tool(m, args, bd);
    VP_REQUIRE(rc != 0, "error-not-reported", bd);
    VP_REQUIRE(!there("sampled.pcd") && !there("path.csv") && !there("bad.pcd.las"), "output-of-nothing", bd);
    cover(fmt("bad %d", kind));
  }
}

int main(int argc, char** argv) {
  tool_main(argc, argv, {{"sampler", sampler_main}, {"path", path_main}, {"las", las_main}});
  return run(argc, argv, one);
}
