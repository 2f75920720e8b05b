// Lets the sanitizers see the memory of oneTBB containers: their allocation
// entry points, forwarded to the instrumented allocator.
#include <cstddef>
#include <cstdlib>
#include <new>

namespace tbb {
namespace detail {
namespace r1 {
__attribute__((visibility("default"))) void* allocate_memory(std::size_t size) {
  void* p = malloc(size);
  if (!p) throw std::bad_alloc();
  return p;
}
__attribute__((visibility("default"))) void deallocate_memory(void* p) { free(p); }
__attribute__((visibility("default"))) void* cache_aligned_allocate(std::size_t size) {
  void* p = nullptr;
  if (posix_memalign(&p, 128, size)) throw std::bad_alloc();
  return p;
}
__attribute__((visibility("default"))) void cache_aligned_deallocate(void* p) { free(p); }
}  // namespace r1
}  // namespace detail
}  // namespace tbb
