// The scheduler of the library is not instrumented, so the race monitor would
// not see that a task starts after it was handed over and ends before wait()
// returns.  For that monitor every task gets a thread.
#ifndef VP_TASK_GROUP_H_
#define VP_TASK_GROUP_H_
#include <oneapi/tbb/task_group.h>
#include <thread>
#include <vector>
namespace tbb {
class vp_task_group {
  std::vector<std::thread> threads_;

 public:
  ~vp_task_group() { wait(); }
  template <typename F>
  void run(F&& f) { threads_.emplace_back(std::forward<F>(f)); }
  template <typename F>
  task_group_status run_and_wait(const F& f) { f(); return wait(); }
  task_group_status wait() {
    for (auto& t : threads_) t.join();
    threads_.clear();
    return complete;
  }
  void cancel() {}
};
}  // namespace tbb
#define task_group vp_task_group
#endif  // VP_TASK_GROUP_H_
