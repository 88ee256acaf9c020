// HugePagePool replaced by its contract (proved of the real class by C16/C17): a block handed out is fresh memory of the
// requested size and alignment; a release obliges the caller to return it to the pool it came from, with its size.
#pragma once
#define HugePagePool HugePagePoolImplementation
#include <fast_containers/hugepage_pool.hpp>
#undef HugePagePool
#include <memory>
#include <new>
#include "vf.h"
namespace spec {
inline uint64_t taOut[8];                     // outstanding nodes per pool pair
inline uint64_t routed[3];                    // blocks served by the leaf pools [1] and the internal pools [2]
inline bool (*fits)(int kind, std::size_t bytes);
}
namespace kressler::fast_containers {
class HugePagePool {
 public:
  using size_type = std::size_t;
  int kind = 0;                               // ghost: 1 leaf pool, 2 internal pool
  uint64_t id = 0, out = 0;
  size_type s0, gr;
  bool huge;
  explicit HugePagePool(size_type initial = 256UL * 1024 * 1024, bool h = true, size_type growth = 64UL * 1024 * 1024) : s0(initial), gr(growth), huge(h) {}
  HugePagePool(const HugePagePool&) = delete;
  HugePagePool& operator=(const HugePagePool&) = delete;
  ~HugePagePool() { vf_check(out == 0 || kind == 0, "pool contract: every block returned before the pool dies"); }
  void* allocate(size_type bytes, size_type alignment) {
    if (bytes == 0) return nullptr;
    vf_check(bytes >= sizeof(void*) && (alignment & (alignment - 1)) == 0 && alignment >= alignof(void*), "pool contract: admissible request");
    if (kind && spec::fits) vf_check(spec::fits(kind, bytes), "policy/routing: objects come from their own pool");
    char* p = (char*)::operator new(bytes + 64, std::align_val_t(alignment));
    *(HugePagePool**)(p + bytes) = this;
    *(uint64_t*)(p + bytes + 8) = bytes;
    out++;
    spec::routed[kind]++;
    if (kind) spec::taOut[id]++;
    al = alignment;
    return p;
  }
  void deallocate(void* p, size_type bytes) {
    if (p == nullptr || bytes == 0) return;
    vf_check(*(HugePagePool**)((char*)p + bytes) == this, "policy/routing: blocks return to the pool they came from");
    vf_check(*(uint64_t*)((char*)p + bytes + 8) == bytes, "policy/routing: blocks return with their size");
    out--;
    if (kind) spec::taOut[id]--;
    ::operator delete(p, std::align_val_t(al));
  }
  size_type al = 64;
  [[nodiscard]] bool using_hugepages() const { return huge; }
  [[nodiscard]] size_type bytes_remaining() const { return 0; }
  [[nodiscard]] size_type initial_size() const { return s0; }
  [[nodiscard]] bool is_hugepages_enabled() const { return huge; }
  [[nodiscard]] size_type growth_size() const { return gr; }
  [[nodiscard]] size_type get_allocations() const { return 0; }
  [[nodiscard]] size_type get_deallocations() const { return 0; }
  [[nodiscard]] size_type get_growth_events() const { return 0; }
  [[nodiscard]] size_type get_bytes_allocated() const { return 0; }
  [[nodiscard]] size_type get_current_usage() const { return 0; }
  [[nodiscard]] size_type get_peak_usage() const { return 0; }
};
}
#include <fast_containers/policy_based_hugepage_allocator.hpp>
namespace spec {
namespace fcx = kressler::fast_containers;
// The two pools of identity id, created once and shared.
inline const fcx::TwoPoolPolicy& policy(uint64_t id) {
  static fcx::TwoPoolPolicy* p[8];
  if (!p[id]) {
    vf_ghost(1);
    auto l = std::make_shared<fcx::HugePagePool>(), i = std::make_shared<fcx::HugePagePool>();
    l->kind = 1; i->kind = 2;
    l->id = i->id = id;
    p[id] = new fcx::TwoPoolPolicy(l, i);
    vf_ghost(0);
  }
  return *p[id];
}
}
