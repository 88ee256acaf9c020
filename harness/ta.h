// A stateful allocator: storage may only be released through an allocator with the same identity.
#pragma once
#include "vf.h"
#ifndef TA_POCMA
#define TA_POCMA true
#endif
namespace spec {
inline uint64_t taOut[8];      // outstanding nodes per allocator identity
inline uint64_t taFresh = 3;   // identities of default-constructed allocators
template <class T> struct TA {
  using value_type = T;
  using propagate_on_container_move_assignment = std::bool_constant<TA_POCMA>;
  using is_always_equal = std::false_type;
  uint64_t id;
  TA() : id(taFresh++) {}
  explicit TA(uint64_t i) : id(i) {}
  TA(const TA&) = default;
  TA& operator=(const TA&) = default;
  template <class U> TA(const TA<U>& o) : id(o.id) {}
  T* allocate(std::size_t n) {
    vf_check(n == 1, "btree/nodes: one node at a time");
    char* p = (char*)::operator new(sizeof(T) + 64, std::align_val_t(64));
    *(uint64_t*)(p + sizeof(T)) = id;
    taOut[id]++;
    return (T*)p;
  }
  void deallocate(T* p, std::size_t n) {
    vf_check(n == 1, "btree/nodes: one node at a time");
    vf_check(*(uint64_t*)((char*)p + sizeof(T)) == id, "btree/nodes: released through the allocator that provided it");
    taOut[id]--;
    ::operator delete((void*)p, std::align_val_t(64));
  }
  template <class U> friend bool operator==(const TA& a, const TA<U>& b) { return a.id == b.id; }
};
}  // namespace spec
