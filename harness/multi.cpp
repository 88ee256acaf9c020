// Contracts of MultiSizeHugePagePool.
// MS_GROUP 0: the size-class function, over every 64-bit size.
// MS_GROUP 1: the pool itself: two blocks in use in arbitrary classes, one operation, recovery; any sizes within the
//             classes, any alignment the allocators use, system calls may fail (MS_FAULT).
#include "hp.h"
#include <fast_containers/multi_size_hugepage_pool.hpp>
#include "prime.h"
using namespace hp;
#ifndef MS_GROUP
#define MS_GROUP 0
#endif
#ifndef MS_HUGE
#define MS_HUGE false
#endif
#ifndef MS_CLASSES
#define MS_CLASSES 64, 128, 512, 768, 2048, 4096, 1ull << 21
#endif
#ifndef MS_ALIGN
#define MS_ALIGN 8, 64, 8192
#endif
using Multi = fc::MultiSizeHugePagePool;
using u64 = uint64_t;
#if MS_GROUP == 0
static void run() {
  u64 a = vf_nondet_u64("size"), b = vf_nondet_u64("another size"), top = 1ull << 63;
  u64 ca = Multi::get_size_class(a), cb = Multi::get_size_class(b);
  vf_check(ca >= a, "size class/at least the request");
  vf_check((a == 0) == (ca == 0), "size class/zero only for zero");
  vf_check(Multi::get_size_class(ca) == ca, "size class/idempotent");
  vf_check(!(a <= b) || ca <= cb, "size class/monotone");
  vf_check(a > 512 || (ca % 64 == 0 && ca - a < 64), "size class/documented rounding");
  vf_check(a <= 512 || a > 2048 || (ca % 256 == 0 && ca - a < 256), "size class/documented rounding");
  vf_check(a <= 2048 || a > top || ((ca & (ca - 1)) == 0 && ca - a < a), "size class/documented rounding");
  vf_cover("size class");
}
#else
static const u64 MAXB = 1ull << 38;
struct Raw { alignas(Multi) unsigned char b[sizeof(Multi)]; Multi& operator*() { return *(Multi*)b; } };
struct Live { Blk b; u64 req = 0, cls = 0; bool on = false; };
static Live L[8];
static u64 nl, regionClass[16];
// the documented size class, computed independently
static u64 docClass(u64 n) {
  if (n == 0) return 0;
  if (n <= 512) return (n + 63) / 64 * 64;
  if (n <= 2048) return (n + 255) / 256 * 256;
  u64 c = 4096;
  while (c < n) c *= 2;
  return c;
}
// a request of any size in an arbitrary class of the list
static u64 request(u64& cls, const char* n) {
  static const u64 C[] = {MS_CLASSES};
  u64 i = vf_choose(sizeof C / sizeof *C, n);
  cls = C[i];
  u64 lo = cls <= 512 ? cls - 63 : cls == 768 ? 513 : cls <= 2048 ? cls - 255 : cls == 4096 ? 2049 : cls / 2 + 1;
  u64 r = vf_nondet_u64("size in the class");
  vf_assume(r >= lo); vf_assume(r <= cls);
  vf_check(Multi::get_size_class(r) == cls && docClass(cls) == cls, "size class/documented rounding");
  return r;
}
static u64 al(const char* n) { static const u64 A[] = {MS_ALIGN}; return A[vf_choose(sizeof A / sizeof *A, n)]; }
static u64 classes() { u64 n = 0, seen[16]; for (u64 i = 0; i < vf_nmaps; i++) if (vf_maps[i].live) { bool d = false; for (u64 j = 0; j < n; j++) d |= seen[j] == regionClass[i]; if (!d) seen[n++] = regionClass[i]; } return n; }
static int take(Multi& p, u64 n, u64 cls, u64 a) {
  void* r = nullptr;
  u64 maps = vf_nmaps, live = vf_liveMaps();
  try { r = p.allocate(n, a); } catch (const std::bad_alloc&) {
    for (u64 i = maps; i < vf_nmaps; i++) regionClass[i] = cls;
    vf_cover("multi pool: refused");
    return -1;
  }
  vf_check(vf_liveMaps() == live + vf_nmaps - maps, "multi pool/system: regions stay while the pool lives");
  for (u64 i = maps; i < vf_nmaps; i++) regionClass[i] = cls;
  Blk w = where(r, n, "multi pool/allocate: in bounds");
  w = where(r, cls, "multi pool/allocate: the whole class fits");
  vf_check(((uintptr_t)r & (a - 1)) == 0, "multi pool/allocate: aligned");
  vf_check(regionClass[w.r] == cls, "multi pool/allocate: classes never share storage");
  for (u64 i = 0; i < nl; i++) if (L[i].on) vf_check(disjoint(L[i].b, w), "multi pool/allocate: disjoint from every block in use");
  L[nl] = {w, n, cls, true};
  return (int)nl++;
}
static void run() {
  vf_mapMode = 1;
  u64 S0 = vf_nondet_u64("initial size"), G = vf_nondet_u64("growth size");
  vf_assume(S0 > 0); vf_assume(S0 <= (MS_HUGE ? (u64)HP_HUGEMAX << 21 : MAXB)); vf_assume(G <= (MS_HUGE ? (u64)HP_HUGEMAX << 21 : MAXB));
  Raw raw;
  new (raw.b) Multi(S0, MS_HUGE, G);
  Multi& p = *raw;
  vf_check(vf_nmaps == 0 && p.active_size_classes() == 0, "multi pool/construction: no memory before the first request");
  u64 c1, c2, c3;
  u64 n1 = request(c1, "class 1");
  int i1 = take(p, n1, c1, al("alignment 1"));
  vf_assume(i1 >= 0);
  u64 n2 = request(c2, "class 2");
  int i2 = take(p, n2, c2, al("alignment 2"));
  vf_assume(i2 >= 0);
  vf_check(p.active_size_classes() == (c1 == c2 ? 1u : 2u), "multi pool/allocate: one pool per class");
  vf_check(p.get_pool(c1) != nullptr && p.get_pool(c2) != nullptr && (p.get_pool(c1) == p.get_pool(c2)) == (c1 == c2), "multi pool/allocate: one pool per class");
  u64 m1 = vf_nondet_u64("content");
  std::memcpy(at(L[i1].b), &m1, 8);
  bool rel = vf_choose(2, "release the second");
  if (rel) { p.deallocate(at(L[i2].b), n2); L[i2].on = false; vf_cover("multi pool: release"); }
  u64 n3 = request(c3, "class 3"), a3 = al("alignment 3");
#ifdef MS_FAULT
  vf_mapMode = 0;
#endif
#ifdef MS_FAULT
  vf_fail_alloc(vf_choose(5, "failing bookkeeping"));
  u64 k0 = vf_allocs();
#endif
  u64 maps = vf_nmaps, act = p.active_size_classes(), fails = vf_regFails, lv = vf_liveMaps();
  int i3 = take(p, n3, c3, a3);
  vf_mapMode = 1;
#ifdef MS_FAULT
  vf_fail_alloc(~0ull);
#endif
  if (i3 < 0) {
#ifdef MS_FAULT
    vf_check(vf_regFails > fails || vf_allocs() > k0, "multi pool/allocate: refused only when the system refuses");
#else
    vf_check(vf_regFails > fails, "multi pool/allocate: refused only when the system refuses");
#endif
    vf_check(vf_liveMaps() == lv || p.active_size_classes() == act + 1, "multi pool/system: a refusal keeps no region");
    vf_check(vf_nmaps == maps || (c3 != c1 && c3 != c2), "multi pool/allocate: a refusal takes no memory in an existing class");
    vf_check(p.active_size_classes() == act || (c3 != c1 && c3 != c2), "multi pool/allocate: a refusal creates no further class");
  } else {
    bool back = rel && L[i3].b.r == L[i2].b.r && L[i3].b.off == L[i2].b.off;
    if (rel && c3 == c2 && ((uintptr_t)at(L[i2].b) & (a3 - 1)) == 0) { vf_check(back && vf_nmaps == maps, "multi pool/release: the block returns to its own class"); vf_cover("multi pool: reuse"); }
    if (c3 != c2) vf_check(!back, "multi pool/release: the block returns to its own class");
  }
  // everything in use can be released and is handed out again by its own class only
  u64 now;
  std::memcpy(&now, at(L[i1].b), 8);
  vf_check(now == m1, "multi pool: the content of blocks in use is never touched");
  p.deallocate(nullptr, n1);
  p.deallocate(at(L[i1].b), 0);
  vf_check(p.allocate(0, 8) == nullptr, "multi pool/allocate: nothing for nothing");
  p.deallocate(at(L[i1].b), n1);
  L[i1].on = false;
  maps = vf_nmaps;
  int i4 = take(p, c1, c1, 8);
  vf_check(i4 >= 0 && vf_nmaps == maps, "multi pool/release: the block returns to its own class");
  vf_check((L[i4].b.r == L[i1].b.r && L[i4].b.off == L[i1].b.off) || (rel && i3 < 0 && c1 == c2) || (rel && c1 == c2), "multi pool/release: the block returns to its own class");
  vf_check(classes() <= p.active_size_classes(), "multi pool/allocate: one pool per class");
  p.~Multi();
  vf_check(vf_liveMaps() == 0, "multi pool/system: every region is returned when the pool dies");
  vf_check(vf_heap_live() == 0, "multi pool: no bookkeeping leaked");
  vf_cover("multi pool: destroyed");
}
#endif
extern "C" void vf_main() { run(); }
