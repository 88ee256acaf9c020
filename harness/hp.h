// The system-memory contract used by the pools: mmap either fails or returns a fresh page-aligned zeroed region;
// munmap must be given a live region with its full length.  The harness records every call.
#pragma once
#include <sys/mman.h>
#include <cstdlib>
#include "vf.h"
struct vf_rec { char* base; uint64_t len; bool huge, live; };
inline vf_rec vf_maps[16];
inline uint64_t vf_nmaps, vf_hugeCalls, vf_regCalls, vf_hugeFails, vf_regFails;
inline uint64_t vf_mapMode;      // 0: choose; 1: always succeed
#ifndef HP_HUGEMAX
#define HP_HUGEMAX 4             // pre-faulting is explored for regions of up to this many huge pages
#endif
inline void* vf_mmap(void* addr, std::size_t len, int prot, int flags, int fd, long off) {
  vf_check(addr == nullptr && prot == (PROT_READ | PROT_WRITE) && (flags & (MAP_PRIVATE | MAP_ANONYMOUS)) == (MAP_PRIVATE | MAP_ANONYMOUS) && off == 0, "pool/system: memory requested as private anonymous read-write");
  bool huge = flags & MAP_HUGETLB;
  (huge ? vf_hugeCalls : vf_regCalls)++;
  bool fail = len == 0 || len > (1ull << 38);
  if (!fail && huge) fail = vf_mapMode == 0 && vf_choose(2, "hugepages unavailable");
  else if (!fail) fail = vf_mapMode == 0 && vf_choose(2, "no memory");
  if (fail) { (huge ? vf_hugeFails : vf_regFails)++; return MAP_FAILED; }
  if (huge) { vf_assume(len <= HP_HUGEMAX * (2ull << 20)); vf_check(len % (2ull << 20) == 0, "pool/system: hugepage region is a whole number of huge pages"); }
  char* p = (char*)vf_region(len, huge ? 2ull << 20 : 4096);
  vf_maps[vf_nmaps++] = {p, len, huge, true};
  return p;
}
inline int vf_munmap(void* p, std::size_t len) {
  for (uint64_t i = 0; i < vf_nmaps; i++) if (vf_maps[i].live && vf_maps[i].base == p) {
    vf_check(len == vf_maps[i].len, "pool/system: region returned with its full length");
    vf_maps[i].live = false;
    vf_region_free(p);
    return 0;
  }
  vf_fail("pool/system: only live regions are returned, once");
}
inline int vf_madvise(void* p, std::size_t len, int) {
  for (uint64_t i = 0; i < vf_nmaps; i++) if (vf_maps[i].live && vf_maps[i].base == p) { vf_check(len <= vf_maps[i].len, "pool/system: advice only for own regions"); return 0; }
  vf_fail("pool/system: advice only for own regions");
}
inline uint64_t vf_liveMaps() { uint64_t n = 0; for (uint64_t i = 0; i < vf_nmaps; i++) n += vf_maps[i].live; return n; }
#define mmap vf_mmap
#define munmap vf_munmap
#define madvise vf_madvise
#include <fast_containers/hugepage_pool.hpp>
namespace fc = kressler::fast_containers;
namespace hp {
// A block: region index, offset and size; blocks in different regions never overlap.
struct Blk { uint64_t r = 0, off = 0, n = 0; };
inline bool disjoint(const Blk& a, const Blk& b) { return (a.r != b.r) | (a.off + a.n <= b.off) | (b.off + b.n <= a.off); }
inline char* at(const Blk& b) { return vf_maps[b.r].base + b.off; }
// Where a returned pointer lies; checks that the whole block is inside a live region.
inline Blk where(void* p, uint64_t n, const char* l) {
  char* b = (char*)vf_base_of(p);
  for (uint64_t i = 0; i < vf_nmaps; i++) {
    if (!vf_maps[i].live || vf_maps[i].base != b) continue;
    uint64_t off = (uint64_t)((uintptr_t)p - (uintptr_t)b);
    vf_check(off <= vf_maps[i].len && n <= vf_maps[i].len - off, l);
    return {i, off, n};
  }
  vf_fail(l);
}
}  // namespace hp
