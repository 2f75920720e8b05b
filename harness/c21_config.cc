// C21: every configuration option reaches exactly its setting.
#include <sys/stat.h>

#include "builder/map_builder.h"
#include "gen.h"

using namespace vp;
using static_map::MapBuilder;
using static_map::MapBuilderOptions;

extern "C" std::atomic<long> vp_sleep_ns_per_s;

namespace {

std::string text(bool v) { return v ? "true" : "false"; }
std::string text(int v) { return fmt("%d", v); }
std::string text(float v) { return fmt("%.9g", v); }
std::string text(double v) { return fmt("%.17g", v); }
std::string text(const std::string& v) { return v; }

enum Kind { kBool, kInt, kFloat, kDouble, kText, kDir };

struct Option {
  const char* parent;  // below the document's main node
  const char* node;
  const char* attr;
  Kind kind;
  std::string def;
  double lo, hi;
  std::function<std::string(const MapBuilderOptions&)> get;
};

#define OPT(PARENT, NODE, ATTR, KIND, DEF, LO, HI, FIELD) \
  {PARENT, NODE, ATTR, KIND, DEF, LO, HI, [](const MapBuilderOptions& o) { return text(o.FIELD); }}
#define OPT_ENUM(PARENT, NODE, ATTR, DEF, LO, HI, FIELD) \
  {PARENT, NODE, ATTR, kInt, DEF, LO, HI, [](const MapBuilderOptions& o) { return text(int(o.FIELD)); }}

#define F front_end_options
#define B back_end_options
const std::vector<Option>& options() {
  static const std::vector<Option> all = {
      OPT("", "whole_options", "export_file_path", kDir, "./", 0, 0, whole_options.export_file_path),
      OPT("", "whole_options", "map_package_path", kDir, "./", 0, 0, whole_options.map_package_path),
      OPT_ENUM("", "whole_options", "odom_calib_mode", "1", 0, 2, whole_options.odom_calib_mode),
      OPT("", "whole_options", "separate_output", kBool, "false", 0, 1, whole_options.separate_output),
      OPT("", "whole_options", "output_direct_combined_map", kBool, "true", 0, 1, whole_options.output_direct_combined_map),
      OPT("", "whole_options", "output_mrvm", kBool, "true", 0, 1, whole_options.output_mrvm),
      OPT("", "whole_options", "output_kitti_pose", kBool, "false", 0, 1, whole_options.output_kitti_pose),
      OPT("", "whole_options", "separate_step", kInt, "200", 1, 1000000, whole_options.separate_step),
      OPT("", "output_mrvm_settings", "output_average", kBool, "false", 0, 1, output_mrvm_settings.output_average),
      OPT("", "output_mrvm_settings", "output_rgb", kBool, "false", 0, 1, output_mrvm_settings.output_rgb),
      OPT("", "output_mrvm_settings", "use_max_intensity", kBool, "true", 0, 1, output_mrvm_settings.use_max_intensity),
      OPT("", "output_mrvm_settings", "prob_threshold", kFloat, text(0.6f), 0, 1, output_mrvm_settings.prob_threshold),
      OPT("", "output_mrvm_settings", "low_resolution", kFloat, text(1.f), 0.01, 10, output_mrvm_settings.low_resolution),
      OPT("", "output_mrvm_settings", "high_resolution", kFloat, text(0.1f), 0.01, 10, output_mrvm_settings.high_resolution),
      OPT("", "output_mrvm_settings", "hit_prob", kFloat, text(0.55f), 0.501, 0.99, output_mrvm_settings.hit_prob),
      OPT("", "output_mrvm_settings", "miss_prob", kFloat, text(0.48f), 0.01, 0.499, output_mrvm_settings.miss_prob),
      OPT("", "output_mrvm_settings", "z_offset", kFloat, text(0.f), -20, 20, output_mrvm_settings.z_offset),
      OPT("", "output_mrvm_settings", "max_point_num_in_cell", kInt, "10", 1, 1000000, output_mrvm_settings.max_point_num_in_cell),
      OPT("", "map_package_options", "enable", kBool, "true", 0, 1, map_package_options.enable),
      OPT("", "map_package_options", "border_offset", kDouble, text(100.), 0, 300, map_package_options.border_offset),
      OPT("", "map_package_options", "piece_width", kDouble, text(500.), 5, 2000, map_package_options.piece_width),
      OPT("", "map_package_options", "cloud_file_prefix", kText, "part_", 0, 0, map_package_options.cloud_file_prefix),
      OPT("", "map_package_options", "descript_filename", kText, "map_package.xml", 0, 0, map_package_options.descript_filename),
      OPT("", "front_end_options", "accumulate_cloud_num", kInt, "1", 1, 400, F.accumulate_cloud_num),
      OPT_ENUM("front_end_options", "scan_matcher_options", "type", "1", 0, 0, F.scan_matcher_options.type),
      OPT("front_end_options", "scan_matcher_options", "accepted_min_score", kFloat, text(0.7f), -1, 2, F.scan_matcher_options.accepted_min_score),
      OPT("front_end_options", "motion_filter", "translation_range", kFloat, text(0.35f), 0, 5, F.motion_filter.translation_range),
      OPT("front_end_options", "motion_filter", "angle_range", kFloat, text(1.5f), 0, 90, F.motion_filter.angle_range),
      OPT("front_end_options", "motion_filter", "time_range", kFloat, text(0.f), 0, 50, F.motion_filter.time_range),
      OPT("front_end_options", "motion_compensation_options", "enable", kBool, "true", 0, 1, F.motion_compensation_options.enable),
      OPT("front_end_options", "motion_compensation_options", "use_average", kBool, "true", 0, 1, F.motion_compensation_options.use_average),
      OPT("front_end_options", "imu_options", "use_imu", kBool, "true", 0, 1, F.imu_options.enabled),
      OPT_ENUM("front_end_options", "imu_options", "type", "0", 0, 1, F.imu_options.type),
      // the value that stands in when no frequency is given is not judged, see below
      OPT("front_end_options", "imu_options", "imu_frequency", kFloat, "", 1, 400, F.imu_options.frequency),
      OPT("front_end_options", "imu_options", "gravity_constant", kFloat, text(9.8f), 9, 10, F.imu_options.gravity_constant),
      OPT_ENUM("back_end_options", "submap_matcher_options", "type", "1", 0, 0, B.submap_matcher_options.type),
      OPT("back_end_options", "submap_matcher_options", "accepted_min_score", kFloat, text(0.7f), -1, 2, B.submap_matcher_options.accepted_min_score),
      OPT("back_end_options", "submap_options", "frame_count", kInt, "5", 1, 1000000, B.submap_options.frame_count),
      OPT("back_end_options", "submap_options", "enable_inner_mrvm", kBool, "false", 0, 1, B.submap_options.enable_inner_mrvm),
      OPT("back_end_options", "submap_options", "enable_voxel_filter", kBool, "false", 0, 1, B.submap_options.enable_voxel_filter),
      OPT("back_end_options", "submap_options", "enable_random_sampleing", kBool, "false", 0, 1, B.submap_options.enable_random_sampleing),
      OPT("back_end_options", "submap_options", "random_sampling_rate", kFloat, text(0.5f), 0, 1, B.submap_options.random_sampling_rate),
      OPT("back_end_options", "submap_options", "voxel_size", kFloat, text(0.1f), 0.01, 3, B.submap_options.voxel_size),
      OPT("back_end_options", "submap_options", "enable_disk_saving", kBool, "false", 0, 1, B.submap_options.enable_disk_saving),
      OPT("back_end_options", "submap_options", "enable_check", kBool, "true", 0, 1, B.submap_options.enable_check),
      OPT("back_end_options", "submap_options", "disk_saving_delay", kInt, "10", 0, 1000000, B.submap_options.disk_saving_delay),
      OPT("back_end_options", "submap_options", "saving_name_prefix", kText, "submap_", 0, 0, B.submap_options.saving_name_prefix),
      OPT("back_end_options", "isam_optimizer_options", "use_odom", kBool, "false", 0, 1, B.isam_optimizer_options.use_odom),
      OPT("back_end_options", "isam_optimizer_options", "use_gps", kBool, "false", 0, 1, B.isam_optimizer_options.use_gps),
      OPT("back_end_options", "isam_optimizer_options", "output_graph_pic", kBool, "false", 0, 1, B.isam_optimizer_options.output_graph_pic),
      OPT("back_end_options", "isam_optimizer_options", "enable_extrinsic_calib", kBool, "true", 0, 1, B.isam_optimizer_options.enable_extrinsic_calib),
      OPT("back_end_options", "isam_optimizer_options", "gps_factor_init_num", kInt, "25", 1, 1000000, B.isam_optimizer_options.gps_factor_init_num),
      OPT("back_end_options", "isam_optimizer_options", "gps_factor_sample_step", kInt, "1", 1, 1000000, B.isam_optimizer_options.gps_factor_sample_step),
      OPT("back_end_options", "isam_optimizer_options", "gps_factor_init_angle_rad", kDouble, text(1.6), 0, 3, B.isam_optimizer_options.gps_factor_init_angle_rad),
      OPT("back_end_options", "loop_detector_setting", "use_gps", kBool, "false", 0, 1, B.loop_detector_setting.use_gps),
      OPT("back_end_options", "loop_detector_setting", "use_descriptor", kBool, "false", 0, 1, B.loop_detector_setting.use_descriptor),
      OPT("back_end_options", "loop_detector_setting", "output_matched_cloud", kBool, "false", 0, 1, B.loop_detector_setting.output_matched_cloud),
      OPT("back_end_options", "loop_detector_setting", "trying_detect_loop_count", kInt, "1", 1, 1000000, B.loop_detector_setting.trying_detect_loop_count),
      OPT("back_end_options", "loop_detector_setting", "loop_ignore_threshold", kInt, "15", 1, 1000000, B.loop_detector_setting.loop_ignore_threshold),
      OPT("back_end_options", "loop_detector_setting", "nearest_history_pos_num", kInt, "4", 1, 1000000, B.loop_detector_setting.nearest_history_pos_num),
      OPT("back_end_options", "loop_detector_setting", "max_close_loop_distance", kFloat, text(25.f), 1, 100, B.loop_detector_setting.max_close_loop_distance),
      OPT("back_end_options", "loop_detector_setting", "max_close_loop_z_distance", kFloat, text(1.f), 0.1, 10, B.loop_detector_setting.max_close_loop_z_distance),
      OPT("back_end_options", "loop_detector_setting", "m2dp_match_score", kFloat, text(0.99f), 0, 1, B.loop_detector_setting.m2dp_match_score),
      OPT("back_end_options", "loop_detector_setting", "accept_scan_match_score", kFloat, text(0.75f), 0, 1, B.loop_detector_setting.accept_scan_match_score),
  };
  return all;
}
#undef F
#undef B

std::string name_of(const Option& o) { return std::string(o.parent) + (*o.parent ? "/" : "") + o.node + "/" + o.attr; }

std::string escape(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '&') o += "&amp;";
    else if (c == '<') o += "&lt;";
    else if (c == '>') o += "&gt;";
    else if (c == '"') o += "&quot;";
    else o += c;
  }
  return o;
}

struct Given {
  std::string written, value;  // as in the document, as expected
};

Given some_value(Rng& r, const Option& o, int id) {
  Given g;
  switch (o.kind) {
    case kBool: {
      const bool v = r.p(0.5);
      g.value = text(v);
      g.written = r.p(0.8) ? text(v) : v ? "1" : "0";
      break;
    }
    case kInt: {
      int v = r.i(int(o.lo), int(o.hi));
      if (std::string(o.attr) == "type" && std::string(o.node) == "scan_matcher_options") v = (const int[]){1, 3, 5, 6}[r.i(0, 3)];
      if (std::string(o.attr) == "type" && std::string(o.node) == "submap_matcher_options") v = r.i(0, 6);
      g.value = g.written = text(v);
      break;
    }
    case kFloat: {
      const float v = r.d(o.lo, o.hi);
      g.value = text(v);
      g.written = fmt(r.p(0.7) ? "%.9g" : "%.12e", v);
      if (r.p(0.3)) {
        const int whole = r.i(int(std::ceil(o.lo)), int(std::floor(o.hi)));
        if (whole >= o.lo && whole <= o.hi) {
          g.value = text(float(whole));
          g.written = fmt(r.p(0.5) ? "%d" : "%d.", whole);
        }
      }
      break;
    }
    case kDouble: {
      const double v = r.d(o.lo, o.hi);
      g.value = text(v);
      g.written = fmt("%.17g", v);
      break;
    }
    case kText: {
      const int n = r.i(1, 20);
      for (int i = 0; i < n; ++i) g.value += "abcdefgXYZ0123456789_-. &<>'\""[r.i(0, 28)];
      g.written = escape(g.value);
      break;
    }
    default: {
      std::string p = fmt("%sdir%d_%d", r.p(0.3) ? "./" : "", id, r.i(0, 2));
      const int depth = r.i(0, 3);
      for (int i = 0; i < depth; ++i) p += fmt("/%c%d", 'a' + r.i(0, 25), r.i(0, 9));
      g.written = p + std::string(r.p(0.5) ? r.i(1, 2) : 0, '/');
      g.value = g.written.back() == '/' ? g.written : g.written + "/";
    }
  }
  return g;
}

std::string block(Rng& r, int type, const std::string& param) {
  std::string s = fmt("<registrator_options type%s\"%d\">", r.p(0.5) ? "=" : " = ", type);
  if (!param.empty()) s += "<param name=\"" + param + "\"> 7 </param>";
  return s + "</registrator_options>";
}

struct Document {
  std::map<std::string, Given> given;
  std::map<std::string, std::vector<std::string>> blocks;  // of the two matchers
};

void shuffle(Rng& r, std::vector<std::string>* v) {
  for (size_t i = v->size(); i > 1; --i) std::swap((*v)[i - 1], (*v)[r.i(0, i - 1)]);
}

std::string write(Rng& r, const Document& d) {
  // parent -> node -> attributes
  std::map<std::string, std::map<std::string, std::vector<std::string>>> tree;
  for (auto& o : options()) {
    auto it = d.given.find(name_of(o));
    if (it != d.given.end()) tree[o.parent][o.node].push_back(std::string(o.attr) + "=\"" + it->second.written + "\"");
  }
  for (auto& b : d.blocks) {
    const std::string parent = b.first == "scan_matcher_options" ? "front_end_options" : "back_end_options";
    tree[parent][b.first];
  }
  auto node_text = [&](const std::string& name, std::vector<std::string> attrs, std::vector<std::string> children) {
    if (r.p(0.2)) attrs.push_back(fmt("unknown%d=\"%d\"", r.i(0, 9), r.i(0, 99)));
    if (r.p(0.1)) children.push_back("<!-- " + name + "=\"1\" -->");
    if (r.p(0.1)) children.push_back("<somewhere_else enable=\"true\" type=\"5\" use_gps=\"true\"/>");
    shuffle(r, &attrs);
    shuffle(r, &children);
    std::string s = "<" + name;
    for (auto& a : attrs) s += (r.p(0.5) ? " " : "\n   ") + a;
    s += ">\n";
    for (auto& c : children) s += c + "\n";
    return s + "</" + name + ">";
  };
  std::vector<std::string> top;
  for (const char* parent : {"front_end_options", "back_end_options"}) {
    std::vector<std::string> children, attrs;
    if (tree.count(parent))
      for (auto& n : tree[parent]) {
        std::vector<std::string> inner;
        auto b = d.blocks.find(n.first);
        if (b != d.blocks.end())
          for (auto& x : b->second) inner.push_back(x);
        children.push_back(node_text(n.first, n.second, inner));
      }
    if (tree[""].count(parent)) attrs = tree[""][parent];
    if (!children.empty() || !attrs.empty()) top.push_back(node_text(parent, attrs, children));
  }
  for (auto& n : tree[""])
    if (n.first != "front_end_options") top.push_back(node_text(n.first, n.second, {}));
  shuffle(r, &top);
  std::string s = r.p(0.7) ? "<?xml version=\"1.0\"?>\n" : "";
  s += "<edward_liu>\n<static_mapping>\n";
  for (auto& t : top) s += t + "\n";
  return s + "</static_mapping>\n</edward_liu>\n";
}

Document make_document(Rng& r, int id) {
  Document d;
  const double share = (const double[]){0.05, 0.3, 0.6, 1.0}[r.i(0, 3)];
  for (auto& o : options())
    if (r.p(share)) d.given[name_of(o)] = some_value(r, o, id);
  // what the program declares invalid is left to refused()
  const std::string l = "back_end_options/loop_detector_setting/";
  auto on = [&](const std::string& n) { return d.given.count(n) && d.given[n].value == "true"; };
  if (!on(l + "use_gps") && !on(l + "use_descriptor")) d.given[l + (r.p(0.5) ? "use_gps" : "use_descriptor")] = Given{"true", "true"};
  for (const std::string m : {"scan_matcher_options", "submap_matcher_options"}) {
    if (r.p(0.5)) continue;
    const std::string key = (m == "scan_matcher_options" ? "front_end_options/" : "back_end_options/") + m + "/type";
    const int type = d.given.count(key) ? atoi(d.given[key].value.c_str()) : 1;
    // parameters unknown to the selected matcher stand in the blocks of the others
    for (int t : {3, 5, 6}) {
      if (r.p(0.3)) continue;
      std::string param;
      if (t != type) param = r.p(0.7) ? "no_such_parameter" : "";
      else if (t == 6) param = r.p(0.7) ? "max_iteration" : "";
      d.blocks[m].push_back(block(r, t, param));
    }
  }
  return d;
}

void save(const std::string& f, const std::string& s) {
  std::ofstream o(f, std::ios::binary | std::ios::trunc);
  o << s;
  o.close();
  if (!o) harness_error("cannot write " + f);
}

// "name value" lines of everything that was set
std::string dump(const MapBuilderOptions& o) {
  std::string s;
  for (auto& x : options()) s += name_of(x) + "\t" + x.get(o) + "\n";
  for (auto* m : {&o.front_end_options.scan_matcher_options, &o.back_end_options.submap_matcher_options})
    s += std::string("block\t") + (m->registrator_options_node.empty() ? "none" : m->registrator_options_node.attribute("type").as_string()) + "\n";
  return s;
}

bool is_dir(const std::string& p) {
  struct stat st;
  return stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
}

void judge(const std::string& got, const Document& d, const std::string& what) {
  std::istringstream in(got);
  std::string line;
  std::vector<std::string> lines;
  while (std::getline(in, line)) lines.push_back(line);
  const auto& all = options();
  if (lines.size() != all.size() + 2) {
    violation("configuration-not-loaded", what + ": the settings could not be read");
    return;
  }
  for (size_t i = 0; i < all.size(); ++i) {
    const std::string name = name_of(all[i]);
    const std::string value = lines[i].substr(name.size() + 1);
    auto it = d.given.find(name);
    if (it == d.given.end()) {
      if (name == "front_end_options/imu_options/imu_frequency") continue;
      VP_REQUIRE(value == all[i].def, "default-changed:" + name, what + ": " + name + " is not given but " + value + ", default " + all[i].def);
    } else {
      VP_REQUIRE(value == it->second.value, "value-changed:" + name, what + ": " + name + " is given as " + it->second.written + " but became " + value);
    }
  }
  int k = 0;
  for (const std::string m : {"scan_matcher_options", "submap_matcher_options"}) {
    const std::string key = (k == 0 ? "front_end_options/" : "back_end_options/") + m + "/type";
    const std::string type = d.given.count(key) ? d.given.at(key).value : "1";
    bool has = false;
    if (d.blocks.count(m))
      for (auto& b : d.blocks.at(m)) has = has || b.find("\"" + type + "\"") != std::string::npos;
    const std::string value = lines[all.size() + k].substr(6);
    VP_REQUIRE(value == (has ? type : "none"), "matcher-block", what + ": " + m + " of type " + type + (has ? " has" : " has no") + " block, got that of " + value);
    ++k;
  }
}

void accepted(long id, Rng& r) {
  const Document d = make_document(r, id);
  const std::string file = fmt("cfg_%ld.xml", id);
  save(file, write(r, d));
  std::string got;
  std::string maps = "./";
  {
    MapBuilder b;
    b.SetTrackingToLidar(Eigen::Matrix4d::Identity());
    b.SetTransformOdomToLidar(Eigen::Matrix4d::Identity());
    b.SetTrackingToGps(Eigen::Matrix4d::Identity());
    MapBuilderOptions& o = b.Initialise(file.c_str());
    got = dump(o);
    maps = o.whole_options.map_package_path;
    b.EnableUsingOdom(false);
    b.EnableUsingGps(false);
    for (const char* n : {"whole_options/export_file_path", "whole_options/map_package_path"})
      if (d.given.count(n)) VP_REQUIRE(is_dir(d.given.at(n).value), "directory-missing", std::string(n) + " = " + d.given.at(n).written);
    b.FinishAllComputations();
  }
  VP_REQUIRE(access((maps + "map.xml").c_str(), R_OK) == 0, "index-not-in-directory", maps);
  judge(got, d, "document");
  unlink(file.c_str());
  unlink((maps + "map.xml").c_str());
  cover(fmt("accepted %zu %zu", d.given.size(), d.blocks.size()));
  sample(fmt("%zu of %zu options given, %zu matchers with blocks", d.given.size(), options().size(), d.blocks.size()));
}

// the child: loads, writes down what it got, and leaves without finishing
int load(int argc, char** argv) {
  vp_sleep_ns_per_s = 1000000;
  MapBuilder* b = new MapBuilder;
  b->SetTrackingToLidar(Eigen::Matrix4d::Identity());
  b->SetTransformOdomToLidar(Eigen::Matrix4d::Identity());
  b->SetTrackingToGps(Eigen::Matrix4d::Identity());
  const std::string file = argc > 1 ? argv[1] : "";
  const std::string got = dump(b->Initialise(file == "NULL" ? nullptr : file.c_str()));
  std::ofstream(argv[2]) << got;
  fflush(nullptr);
  _exit(0);
}

bool loaded(const std::string& file, std::string* got) {
  unlink("got.txt");
  const int st = run_tool("load", {file, "got.txt"});
  std::ifstream in("got.txt");
  got->assign((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
    violation("loading-hangs", file);
    return false;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99) {
    violation("loading-invalid-operation", "a sanitizer stopped the program while it loaded " + file);
    return false;
  }
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

void foreign(long, Rng& r) {
  const Document full = make_document(r, 0);
  const std::string good = write(r, full);
  std::string file = "foreign.xml", what;
  unlink("foreign.xml");
  switch (r.i(0, 8)) {
    case 0: file = "NULL"; what = "no file name"; break;
    case 1: file = ""; what = "empty file name"; break;
    case 2: file = "no/such/file.xml"; what = "missing file"; break;
    case 3: save(file, ""); what = "empty file"; break;
    case 4: {
      std::string s;
      const int n = r.i(1, 2000);
      for (int i = 0; i < n; ++i) s += char(r.i(1, 255));
      save(file, s);
      what = "noise";
      break;
    }
    case 5: {
      std::string s = good;
      size_t p;
      while ((p = s.find("edward_liu")) != std::string::npos) s.replace(p, 10, "someone_else");
      save(file, s);
      what = "foreign document";
      break;
    }
    case 6: {
      std::string s = good;
      size_t p;
      while ((p = s.find("static_mapping")) != std::string::npos) s.replace(p, 14, "other_mapping");
      save(file, s);
      what = "foreign section";
      break;
    }
    case 7: {
      const size_t end = good.find("</edward_liu>");
      save(file, good.substr(0, r.i(25, end)));
      what = "cut document";
      break;
    }
    default: file = "."; what = "directory";
  }
  std::string got;
  const bool ok = loaded(file, &got);
  VP_REQUIRE(ok, "no-default-configuration", what + ": the program does not start with its defaults");
  if (ok) judge(got, Document(), what);
  cover("foreign " + what);
  count("foreign: " + what);
}

void refused(long id, Rng& r) {
  Document d = make_document(r, id);
  const std::string l = "back_end_options/loop_detector_setting/", m = "output_mrvm_settings/", i = "front_end_options/imu_options/";
  const int kind = r.i(0, 8);
  std::string what;
  bool fine = false;
  auto set = [&](const std::string& n, const std::string& v) {
    d.given[n] = Given{v, v};
    what += n + "=" + v + " ";
  };
  switch (kind) {
    case 0:
      set(l + "use_gps", "false");
      set(l + "use_descriptor", "false");
      if (r.p(0.3)) for (const char* n : {"use_gps", "use_descriptor"}) d.given.erase(l + n);
      break;
    case 1: set("front_end_options/accumulate_cloud_num", text(int(r.i(-5, 0)))); break;
    case 2: set(m + "hit_prob", text(float(r.p(0.5) ? 0.5 : r.d(0, 0.5)))); break;
    case 3: set(m + "miss_prob", text(float(r.p(0.5) ? 0.5 : r.d(0.5, 1)))); break;
    case 4: set(m + "max_point_num_in_cell", text(int(r.i(-5, 0)))); break;
    case 5:
      set(i + "use_imu", "true");
      set(i + "imu_frequency", r.p(0.5) ? "0" : text(float(r.d(-100, 0))));
      break;
    case 6: set("front_end_options/scan_matcher_options/type", text((const int[]){0, 2, 4, 7}[r.i(0, 3)])); break;
    case 7:
      set("front_end_options/scan_matcher_options/type", "6");
      d.blocks["scan_matcher_options"] = {block(r, 6, "no_such_parameter")};
      what += "with an unknown matcher parameter";
      break;
    default:
      fine = true;
      set(r.p(0.5) ? "whole_options/export_file_path" : "whole_options/map_package_path", "");
  }
  save("refused.xml", write(r, d));
  std::string got;
  const bool ok = loaded("refused.xml", &got);
  if (fine) {
    // an empty path must not become the root directory
    const std::string n = what.substr(0, what.find('='));
    VP_REQUIRE(ok, "empty-path-fails", what);
    const size_t at = got.find(n + "\t");
    if (ok && at != std::string::npos) {
      const std::string v = got.substr(at + n.size() + 1, got.find('\n', at) - at - n.size() - 1);
      VP_REQUIRE(!v.empty() && v[0] != '/', "empty-path-is-root", n + " = \"\" became \"" + v + "\"");
      VP_REQUIRE(!v.empty() && v.back() == '/', "path-without-separator", v);
    }
  } else {
    VP_REQUIRE(!ok, "contradiction-accepted", what);
  }
  cover(fmt("refused %d", kind));
  count(fmt("contradictions: kind %d", kind));
}

void one(long id, Rng& r) {
  if (id % 8 == 0) foreign(id, r);
  else if (id % 8 == 1) refused(id, r);
  else accepted(id, r);
}

}  // namespace

int main(int argc, char** argv) {
  tool_main(argc, argv, {{"load", load}});
  vp_sleep_ns_per_s = 1000000;
  return vp::run(argc, argv, one);
}
