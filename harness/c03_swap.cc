// C03: swapping clouds to disk never changes what readers see.
#include <sys/resource.h>

#include <chrono>
#include <thread>

#include "builder/memory_manager.h"
#include "builder/trajectory.h"
#include "gen.h"

using namespace vp;
using static_map::Frame;
using static_map::MemoryManager;
using static_map::Submap;
using static_map::SubmapId;
using static_map::SubmapOptions;
using static_map::Trajectory;
using static_map::data::InnerPointCloudData;

extern "C" void vp_jitter(unsigned long) __attribute__((weak));
extern "C" std::atomic<long> vp_sleep_ns_per_s;

static InnerCloudType::Ptr copy(const InnerCloudType& c) {
  InnerCloudType::Ptr p(new InnerCloudType);
  *p = c;
  return p;
}

static std::string diff(const InnerCloudType& want, const InnerCloudType& got) {
  if (got.points.size() != want.points.size()) return fmt(" %zu points instead of %zu", got.points.size(), want.points.size());
  if (!same_points(got.points, want.points)) return " other points";
  if (!same_stamp(got.stamp, want.stamp)) return " other stamp";
  return "";
}

static std::string read_all(InnerPointCloudData& data, const InnerCloudType& want, bool eigen) {
  auto c = data.GetInnerCloud();
  if (!c) return " no cloud";
  std::string w = diff(want, *c);
  if (!w.empty()) return w;
  if (!same_stamp(data.GetTime(), want.stamp)) return " other time";
  if (eigen) {
    auto e = data.GetEigenCloud();
    if (!e) return " no matrix cloud";
    if (e->points.cols() != long(want.points.size())) return fmt(" matrix cloud with %ld points instead of %zu", long(e->points.cols()), want.points.size());
    for (size_t i = 0; i < want.points.size(); ++i)
      if (e->points(0, i) != want.points[i].x || e->points(1, i) != want.points[i].y || e->points(2, i) != want.points[i].z) return " other matrix points";
  }
  return "";
}

// one holder, any sequence of operations
static void history(Rng& r) {
  InnerCloudType want = *rand_cloud(r, r.p(0.2) ? 1 : r.i(2, 60));
  InnerPointCloudData data(copy(want));
  bool saved = false, lost = false, pristine = true;
  std::string file, steps;
  const int n = r.i(3, 25);
  std::vector<std::string> files = {"a.bin", "b.bin", "c.bin"};
  std::map<std::string, InnerCloudType> disk;
  for (int i = 0; i < n; ++i) {
    const int op = r.i(0, 8);
    if (lost && op != 5) continue;
    switch (op) {
      case 0: {
        file = r.pick(files);
        steps += " save-" + file;
        VP_REQUIRE(data.SaveToFile(file), "save-failed", steps);
        saved = true;
        disk[file] = want;
        break;
      }
      case 1:
        steps += " release";
        data.Clear();
        if (!saved) lost = true;  // an explicit release of something never saved
        else disk[file] = want;
        VP_REQUIRE(data.Empty(), "release-kept-memory", steps);
        break;
      case 2:
      case 3: {
        steps += " access";
        VP_REQUIRE(data.CloudInMemory(), "access-refused", steps);
        const std::string w = read_all(data, want, true);
        VP_REQUIRE(w.empty(), "swapped-cloud-differs", steps + w);
        VP_REQUIRE(!data.Empty(), "empty-after-access", steps);
        break;
      }
      case 4: {
        steps += " get";
        const std::string w = read_all(data, want, true);
        VP_REQUIRE(w.empty(), "held-cloud-differs", steps + w);
        break;
      }
      case 5: {
        steps += " replace";
        want = *rand_cloud(r, r.i(1, 40));
        data.SetInnerCloud(copy(want));
        lost = false;
        // what is on disk is outdated now; the name stays known
        break;
      }
      case 6: {
        if (!r.p(0.3)) break;
        steps += " transform";
        // a half turn about an axis and an integer shift are exact
        Eigen::Matrix4d t = Eigen::Matrix4d::Identity();
        t(0, 0) = t(1, 1) = -1;
        data.TransformCloud(t);
        for (auto& p : want.points) { p.x = -p.x; p.y = -p.y; }
        auto c = data.GetInnerCloud();
        eval();
        if (!c || c->points.size() != want.points.size()) { violation("transform-lost-points", steps); return; }
        // zeros may change their sign
        for (size_t k = 0; k < want.points.size(); ++k)
          VP_REQUIRE(c->points[k].x == want.points[k].x && c->points[k].y == want.points[k].y && c->points[k].z == want.points[k].z, "transform-wrong", steps);
        want = *c;
        break;
      }
      case 7: {
        steps += " count";
        VP_REQUIRE(same_stamp(data.GetTime(), want.stamp), "time-changed", steps);
        break;
      }
      default: {
        // what is on disk is a complete cloud file
        if (!saved || data.Empty() == false) break;
        steps += " file";
        InnerCloudType back;
        std::fstream fs(file, std::ios::in | std::ios::binary);
        VP_REQUIRE(back.Deserialize(&fs) >= 0, "file-unreadable", steps);
        VP_REQUIRE(diff(want, back).empty(), "file-differs", steps + diff(want, back));
      }
    }
  }
  for (auto& f : files) unlink(f.c_str());
  std::string sig;
  for (auto& c : steps) if (c == ' ') sig += "|"; else if (sig.size() && sig.back() == '|') sig += c;
  cover(sig.substr(0, 14));
}

// nothing but the complete cloud is ever handed out
static void damaged_file(Rng& r) {
  InnerCloudType want = *rand_cloud(r, r.i(1, 50));
  const bool full_disk = r.p(0.4);
  std::string out, d;
  if (full_disk) {
    const long bytes = 24 + 20 * long(want.points.size());
    const long limit = r.i(0, bytes - 17);
    d = fmt("%zu points, room for %ld bytes", want.points.size(), limit);
    in_child([&](int fd) {
      InnerPointCloudData data(copy(want));
      signal(SIGXFSZ, SIG_IGN);
      struct rlimit rl = {rlim_t(limit), rlim_t(limit)};
      setrlimit(RLIMIT_FSIZE, &rl);
      if (!data.SaveToFile("full.bin")) _exit(0);  // said so
      data.Clear();
      if (!data.CloudInMemory()) _exit(0);
      const std::string w = diff(want, *data.GetInnerCloud());
      const std::string msg = w.empty() ? "same" : w;
      if (write(fd, msg.data(), msg.size())) {}
    }, &out);
  } else {
    const bool gone = r.p(0.2);
    InnerPointCloudData data(copy(want));
    data.SaveToFile("cut.bin");
    data.Clear();
    struct stat st;
    if (stat("cut.bin", &st)) harness_error("no file");
    const long keep = r.i(0, st.st_size - 1);
    d = fmt("%zu points, %ld of %ld bytes left, removed %d", want.points.size(), keep, long(st.st_size), gone);
    if (gone) unlink("cut.bin");
    else if (truncate("cut.bin", keep)) harness_error("truncate");
    in_child([&](int fd) {
      if (!data.CloudInMemory()) _exit(0);
      const std::string w = diff(want, *data.GetInnerCloud());
      const std::string msg = w.empty() ? "same" : w;
      if (write(fd, msg.data(), msg.size())) {}
    }, &out);
    unlink("cut.bin");
  }
  unlink("full.bin");
  eval();
  if (!out.empty() && out != "same") violation(full_disk ? "failed-save-believed" : "damaged-file-believed", d + out);
  cover(fmt("damage %d %s", full_disk, out.empty() ? "refused" : out.c_str()));
}

struct Item {
  std::shared_ptr<Submap> map;
  InnerCloudType want;
  std::vector<InnerCloudType> frames;
  Eigen::MatrixXd points, normals;
};

static Item make_item(Rng& r, const SubmapOptions& o, int traj, int idx) {
  Item it;
  it.map.reset(new Submap(o));
  SubmapId id;
  id.trajectory_index = traj;
  id.submap_index = idx;
  it.map->SetId(id);
  mkdir("swap", 0755);
  it.map->SetSavePath("swap/");
  for (int i = 0; i < o.frame_count; ++i) {
    std::shared_ptr<Frame> f(new Frame);
    it.frames.push_back(*rand_cloud(r, r.i(1, 80)));
    f->SetCloud(InnerPointCloudData::Ptr(new InnerPointCloudData(copy(it.frames.back()))));
    f->SetGlobalPose(rand_pose(r, 10));
    it.map->InsertFrame(f);
  }
  it.want = *it.map->Cloud()->GetInnerCloud();
  auto e = it.map->Cloud()->GetEigenCloud();
  it.points = e->points;
  it.normals = e->normals;
  return it;
}

static std::string read_map(Item& it, const InnerPointCloudData::Ptr& c) {
  if (!c) return " no cloud";
  std::string w = read_all(*c, it.want, false);
  if (!w.empty()) return w;
  auto e = c->GetEigenCloud();
  if (!e) return " no matrix cloud";
  if (e->points.cols() != it.points.cols() || e->normals.cols() != it.normals.cols())
    return fmt(" matrix cloud has %ld points and %ld normals instead of %ld and %ld", long(e->points.cols()), long(e->normals.cols()), long(it.points.cols()), long(it.normals.cols()));
  if (e->points != it.points || e->normals != it.normals) return " other points or normals in the matrix cloud";
  return "";
}
static std::string read_frame(Item& it, int k) { return read_all(*it.map->GetFrames()[k]->Cloud(), it.frames[k], true); }

static SubmapOptions options(Rng& r) {
  SubmapOptions o;
  o.frame_count = r.i(1, 3);
  o.enable_disk_saving = r.p(0.9);
  o.disk_saving_delay = r.p(0.3) ? 1 : r.i(1, 6);
  o.enable_voxel_filter = r.p(0.2);
  o.voxel_size = 2.f;
  return o;
}

// the idle clock of one submap
static void idle_clock(Rng& r) {
  SubmapOptions o = options(r);
  if (r.p(0.1)) o.disk_saving_delay = 0;
  Item it = make_item(r, o, 0, r.i(0, 3));
  bool matched = false, out = false;
  long idle = 0;
  std::string steps = fmt("delay %d saving %d:", o.disk_saving_delay, o.enable_disk_saving);
  auto held = it.map->Cloud();
  const int n = r.i(5, 30);
  for (int i = 0; i < n; ++i) {
    switch (r.i(0, 6)) {
      case 0:
      case 1:
      case 2: {
        const int k = r.p(0.7) ? 1 : r.i(0, 5);
        steps += fmt(" +%d", k);
        it.map->UpdateInactiveTime(k);
        if (matched && o.enable_disk_saving) {
          idle += k;
          if (idle > o.disk_saving_delay) out = true;
        }
        break;
      }
      case 3: {
        steps += " read";
        const std::string w = read_map(it, it.map->Cloud());
        VP_REQUIRE(w.empty(), "swapped-cloud-differs", steps + w);
        idle = 0;
        out = false;
        break;
      }
      case 4:
        if (matched) break;
        steps += " match";
        it.map->SetMatchedTransformedToNext(rand_pose(r));
        matched = true;
        idle = 0;
        // saving counts as use or not: start from a read
        it.map->Cloud();
        VP_REQUIRE(it.map->GotMatchedToNext(), "match-lost", steps);
        break;
      case 5: {
        const int k = r.i(0, o.frame_count - 1);
        steps += " frame";
        const std::string w = read_frame(it, k);
        VP_REQUIRE(w.empty(), "frame-cloud-differs", steps + w);
        break;
      }
      default:
        if (r.p(0.7)) break;
        steps += " held";
        {
          const std::string w = read_map(it, held);
          VP_REQUIRE(w.empty(), "held-cloud-differs", steps + w);
        }
        idle = 0;
        it.map->Cloud();
        out = false;
    }
    VP_REQUIRE(held->Empty() == out, out ? "idle-submap-kept" : "submap-released-too-early", steps + fmt(" idle %ld", idle));
  }
  if (r.p(0.3) && matched) {
    const std::string again = "again.bin";
    it.map->ToPcdFile(again);
    InnerCloudType back;
    std::fstream fs(again, std::ios::in | std::ios::binary);
    VP_REQUIRE(back.Deserialize(&fs) >= 0 && diff(it.want, back).empty(), "saved-again-differs", steps);
    fs.close();
    const std::string w = read_map(it, it.map->Cloud());
    VP_REQUIRE(w.empty(), "swapped-cloud-differs", steps + " saved again" + w);
    unlink(again.c_str());
  }
  if (r.p(0.3) && o.enable_disk_saving && matched) {
    it.map->ClearCloudInFrames();
    for (int k = 0; k < o.frame_count; ++k) VP_REQUIRE(read_frame(it, k).empty(), "frame-cloud-differs", steps + " frames released" + read_frame(it, k));
  }
  cover(fmt("idle %d %d %d %d", o.enable_disk_saving, o.disk_saving_delay, matched, out));
}

// readers against the memory manager
static void threads(Rng& r, uint64_t jitter) {
  const long step_us = r.p(0.5) ? r.i(50, 400) : r.i(400, 3000);
  std::vector<std::shared_ptr<Trajectory>> trajs;
  const int nt = r.i(1, 2);
  SubmapOptions o = options(r);
  o.enable_disk_saving = true;
  if (r.p(0.2)) o.disk_saving_delay = 0;
  std::vector<std::vector<Item>> items(nt);
  std::vector<std::atomic<int>> published(nt);
  for (int t = 0; t < nt; ++t) {
    trajs.emplace_back(new Trajectory);
    trajs.back()->SetId(t);
    const int n = r.i(2, 8);
    for (int i = 0; i < n; ++i) items[t].push_back(make_item(r, o, t, i));
    published[t] = 0;
    const int first = r.i(0, n);
    for (int i = 0; i < first; ++i) { trajs[t]->push_back(items[t][i].map); published[t] = i + 1; }
  }
  vp_sleep_ns_per_s = step_us * 1000;
  if (vp_jitter) vp_jitter(jitter);
  std::atomic<bool> stop{false};
  std::atomic<long> reads{0}, swapped{0};
  std::vector<std::thread> th;
  const std::string d = fmt("%d trajectories, delay %d, step %ld us", nt, o.disk_saving_delay, step_us);
  const bool manager_first = r.p(0.5);
  std::unique_ptr<MemoryManager> mm;
  if (manager_first) mm.reset(new MemoryManager(&trajs));
  const int readers = r.i(1, 4);
  for (int k = 0; k < readers; ++k) {
    th.emplace_back([&, k](uint64_t seed) {
      Rng q(seed);
      while (!stop.load()) {
        const int t = q.i(0, nt - 1);
        const int p = published[t].load();
        if (!p) { std::this_thread::yield(); continue; }
        const int i = q.i(0, p - 1);
        Item& it = items[t][i];
        if (q.p(0.6)) {
          auto c = trajs[t]->at(i)->Cloud();
          if (q.p(0.3)) std::this_thread::yield();
          if (q.p(0.1)) { struct timespec z = {q.i(0, 30), 0}; nanosleep(&z, nullptr); }
          const std::string w = read_map(it, c);
          VP_REQUIRE(w.empty(), "reader-saw-other-cloud", d + w);
        } else {
          const int f = q.i(0, o.frame_count - 1);
          auto c = it.map->GetFrames()[f]->Cloud();
          if (q.p(0.3)) std::this_thread::yield();
          const std::string w = read_all(*c, it.frames[f], true);
          VP_REQUIRE(w.empty(), "reader-saw-other-frame", d + w);
        }
        ++reads;
        if (q.p(0.4)) { struct timespec z = {q.i(0, 12), 0}; nanosleep(&z, nullptr); }
      }
    }, r.u64());
  }
  // the mapping side: new submaps appear, old ones get matched
  th.emplace_back([&](uint64_t seed) {
    Rng q(seed);
    std::vector<int> done(nt, 0);
    for (bool more = true; more;) {
      more = false;
      for (int t = 0; t < nt; ++t) {
        if (published[t] < int(items[t].size()) && q.p(0.5)) {
          trajs[t]->push_back(items[t][published[t]].map);
          ++published[t];
        }
        if (done[t] < published[t]) items[t][done[t]++].map->SetMatchedTransformedToNext(rand_pose(q));
        more |= done[t] < int(items[t].size());
      }
      struct timespec z = {q.i(0, 4), 0};
      nanosleep(&z, nullptr);
    }
  }, r.u64());
  if (!manager_first) mm.reset(new MemoryManager(&trajs));
  th.back().join();
  th.pop_back();
  // long enough for swaps after everything was matched
  const long until = reads + (ctx().thorough ? 300 : 120);
  for (int k = 0; k < 20 || (reads.load() < until && k < 20000); ++k) {
    struct timespec z = {1, 0};
    nanosleep(&z, nullptr);
    for (auto& v : items) for (auto& it : v) { (void)it; }
  }
  stop = true;
  for (auto& t : th) t.join();
  // now nobody reads: everything has to be released after the delay (the probe must not count as use)
  std::vector<InnerPointCloudData::Ptr> probes;
  for (auto& v : items) for (auto& it : v) probes.push_back(it.map->Cloud());
  for (int k = 0; k < 4000; ++k) {
    struct timespec z = {1, 0};
    nanosleep(&z, nullptr);
    bool all = true;
    for (auto& p : probes) all &= p->Empty();
    if (all && k > 2) break;
  }
  int kept = 0;
  for (auto& p : probes) { if (!p->Empty()) ++kept; else ++swapped; }
  VP_REQUIRE(kept == 0, "idle-submap-kept", d + fmt(" %d of %zu", kept, probes.size()));
  mm.reset();
  vp_sleep_ns_per_s = 0;
  if (vp_jitter) vp_jitter(0);
  for (auto& v : items)
    for (auto& it : v) {
      const std::string w = read_map(it, it.map->Cloud());
      VP_REQUIRE(w.empty(), "swapped-cloud-differs", d + " at the end" + w);
      for (int f = 0; f < o.frame_count; ++f) {
        const std::string x = read_frame(it, f);
        VP_REQUIRE(x.empty(), "frame-cloud-differs", d + " at the end" + x);
      }
    }
  count("concurrent-reads", reads);
  count("submaps-swapped-out", swapped);
  cover(fmt("threads %d %d %d %d %d", nt, readers, o.disk_saving_delay, manager_first, int(std::log2(step_us))));
}

int main(int argc, char** argv) {
  return run(argc, argv, [](long k, Rng& r) {
    if (arg("part") == "threads") { threads(r, mix(ctx().seed, k) | 1); return; }
    switch (k % 8) {
      case 0: damaged_file(r); break;
      case 1: case 2: case 3: idle_clock(r); break;
      default: history(r);
    }
  });
}
