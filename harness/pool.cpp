// Contracts of HugePagePool over an arbitrary reachable state: any frontier, any partition of the handed-out memory into
// blocks, any set of up to HP_FREE released blocks, one or two regions, any sizes.
#include "hp.h"
using namespace hp;
#ifndef HP_GROUP
#define HP_GROUP 0
#endif
#ifndef HP_FREE
#define HP_FREE 2
#endif
#ifndef HP_HUGE
#define HP_HUGE 0
#endif
using Pool = fc::HugePagePool;
static const uint64_t MAXB = 1ull << 38;
struct Raw { alignas(Pool) unsigned char b[sizeof(Pool)]; Pool& operator*() { return *(Pool*)b; } Pool* operator->() { return (Pool*)b; } };
// true statistics
static uint64_t tAlloc, tFree, tGrow, tBytes, tUse, tPeak;
static void took(uint64_t n) { tAlloc++; tBytes += n; tUse += n; tPeak = vf_ite(tUse > tPeak, tUse, tPeak); }
static void gave(uint64_t n) { tFree++; tUse -= n; }
static void stats(Pool& p) {
#ifdef ALLOCATOR_STATS
  vf_check(p.get_allocations() == tAlloc, "pool/statistics: allocations");
  vf_check(p.get_deallocations() == tFree, "pool/statistics: deallocations");
  vf_check(p.get_growth_events() == tGrow, "pool/statistics: growths");
  vf_check(p.get_bytes_allocated() == tBytes, "pool/statistics: bytes handed out");
  vf_check(p.get_current_usage() == tUse, "pool/statistics: current use");
  vf_check(p.get_peak_usage() == tPeak, "pool/statistics: peak use");
#endif
}
static uint64_t sizes[8], nsizes;      // sizes asked for so far
static void* ask(Pool& p, uint64_t n, uint64_t al) { sizes[nsizes++] = n; return p.allocate(n, al); }
static Blk area[2];
static uint64_t nareas;
static Blk anyBlock(const char* n) {
  Blk b;
  b.r = nareas > 1 ? vf_choose(2, "block region") : 0;
  b.off = vf_nondet_u64("block offset");
  b.n = vf_nondet_u64("block size");
  vf_assume((b.off & 7) == 0);
  vf_assume(b.n >= 8);
  vf_assume(b.off <= area[b.r].n);
  vf_assume(b.n <= area[b.r].n - b.off);
  return b;
}
#ifndef HP_ALIGN
#define HP_ALIGN 8, 64, 8192
#endif
static uint64_t pow2(const char* n) { static const uint64_t A[] = {HP_ALIGN}; return A[vf_choose(sizeof A / sizeof *A, n)]; }
#if HP_GROUP == 0
static void run() {
  vf_mapMode = 1;
  uint64_t S0 = vf_nondet_u64("initial size"), G = vf_nondet_u64("growth size");
  vf_assume(S0 > 0); vf_assume(S0 <= MAXB); vf_assume(G <= MAXB);
#if HP_HUGE
  vf_assume(S0 <= (HP_HUGEMAX << 21)); vf_assume(G <= (HP_HUGEMAX << 21));
#endif
  Raw raw;
  new (raw.b) Pool(S0, HP_HUGE, G);
  Pool& p = *raw;
  vf_check(vf_nmaps == 1 && vf_maps[0].len >= S0, "pool/regions: the initial region is at least as large as requested");
  vf_check(p.bytes_remaining() == vf_maps[0].len && p.initial_size() == S0 && p.growth_size() == G, "pool/construction");
  // the memory handed out so far
  uint64_t x0 = vf_nondet_u64("used of region 0");
  vf_assume(x0 > 0); vf_assume(x0 <= vf_maps[0].len);
  void* q = ask(p, x0, 8);
  took(x0);
  vf_check(q == vf_maps[0].base, "pool/allocate: in bounds");
  area[0] = {0, 0, x0}; nareas = 1;
  if (vf_choose(2, "second region")) {
    uint64_t x1 = vf_nondet_u64("used of region 1");
    vf_assume(x1 > vf_maps[0].len - x0); vf_assume(x1 <= (HP_HUGE ? (uint64_t)HP_HUGEMAX << 21 : MAXB));
    vf_assume(x1 != x0);
    q = ask(p, x1, 8);
    took(x1); tGrow++;
    Blk w = where(q, x1, "pool/allocate: in bounds");
    vf_check(vf_nmaps == 2 && w.r == 1 && w.off == 0, "pool/growth: a new region serves the request");
    vf_check(vf_maps[1].len >= G, "pool/growth: at least the growth size");
    area[1] = {1, 0, x1}; nareas = 2;
  }
  stats(p);
  uint64_t nf = vf_choose(HP_FREE + 1, "released blocks"), op = vf_choose(2, "op");
  Blk F[HP_FREE + 2], B = anyBlock("in use");
  for (uint64_t i = 0; i < nf; i++) {
    F[i] = anyBlock("released");
    vf_assume(disjoint(F[i], B));
    for (uint64_t j = 0; j < i; j++) vf_assume(disjoint(F[i], F[j]));
  }
  uint64_t mark = vf_nondet_u64("content");
  std::memcpy(at(B), &mark, 8);
  for (uint64_t i = 0; i < nf; i++) { sizes[nsizes++] = F[i].n; p.deallocate(at(F[i]), F[i].n); gave(F[i].n); }
  stats(p);
  Blk P{};
  bool haveP = false;
  if (op == 0) {
    uint64_t bytes = vf_nondet_u64("bytes"), al = pow2("alignment");
    if (nf == 0 && nareas == 1 && al == 8 && vf_choose(2, "no-ops first")) { p.deallocate(nullptr, bytes); p.deallocate(at(B), 0); vf_check(p.allocate(0, al) == nullptr, "pool/allocate: nothing for nothing"); stats(p); }
    vf_assume(bytes >= 8);
#if HP_HUGE
    vf_assume(bytes <= (uint64_t)HP_HUGEMAX << 20);
    vf_assume(al <= 8192);
#endif
    uint64_t rem = p.bytes_remaining(), fails = vf_regFails, maps = vf_nmaps;
    vf_mapMode = 0;
    bool threw = false;
    void* r = nullptr;
    try { r = ask(p, bytes, al); } catch (const std::bad_alloc&) { threw = true; }
    vf_mapMode = 1;
    if (threw) {
      vf_check((vf_regFails > fails) | (bytes > MAXB), "pool/allocate: refused only when the system refuses");
      vf_check(vf_nmaps == maps && p.bytes_remaining() == rem, "pool/allocate: a refusal changes nothing");
      vf_cover("pool: allocation refused");
    } else {
      took(bytes);
      if (vf_nmaps > maps) { tGrow++; vf_cover("pool: growth"); }
      P = where(r, bytes, "pool/allocate: in bounds");
      vf_check(((uintptr_t)r & (al - 1)) == 0, "pool/allocate: aligned");
      vf_check(disjoint(P, B), "pool/allocate: disjoint from every block in use");
      uint64_t hit = ~0ull;
      bool suitable = false;
      for (uint64_t i = 0; i < nf; i++) {
        bool fit = (F[i].n == bytes) & (((uintptr_t)at(F[i]) & (al - 1)) == 0);
        if (fit) suitable = true;
        if ((P.r == F[i].r) & (P.off == F[i].off) & (P.n == F[i].n)) hit = i;
      }
      if (suitable) vf_check(hit != ~0ull && vf_nmaps == maps, "pool/allocate: a released block is reused before new memory is taken");
      if (hit != ~0ull) {
        vf_check(p.bytes_remaining() == rem, "pool/allocate: reuse takes no new memory");
        for (uint64_t i = hit; i + 1 < nf; i++) F[i] = F[i + 1];
        nf--;
        vf_cover("pool: reuse");
      } else {
        for (uint64_t i = 0; i < nareas; i++) vf_check(disjoint(P, area[i]), "pool/allocate: disjoint from every block in use");
        if (vf_nmaps == maps) vf_check(p.bytes_remaining() <= rem - bytes, "pool/allocate: the remaining bytes are exact");
        vf_check(p.bytes_remaining() == vf_maps[P.r].len - P.off - bytes, "pool/allocate: the remaining bytes are exact");
        haveP = true;
        vf_cover("pool: new memory");
      }
    }
  } else {
    Blk A = anyBlock("released now");
    vf_assume(disjoint(A, B));
    for (uint64_t j = 0; j < nf; j++) vf_assume(disjoint(A, F[j]));
    sizes[nsizes++] = A.n;
    p.deallocate(at(A), A.n);
    gave(A.n);
    F[nf++] = A;
    vf_cover("pool: release");
  }
  stats(p);
  uint64_t now;
  std::memcpy(&now, at(B), 8);
  vf_check(now == mark, "pool: the content of blocks in use is never touched");
  // Exactly the released blocks are available again, each once.
  uint64_t rem = p.bytes_remaining(), maps = vf_nmaps;
  bool taken[HP_FREE + 2] = {};
  for (uint64_t i = 0; i < nf; i++) {
    void* r = p.allocate(F[i].n, 8);
    took(F[i].n);
    Blk w = where(r, F[i].n, "pool/allocate: in bounds");
    uint64_t hit = ~0ull;
    for (uint64_t j = 0; j < nf; j++) if (!taken[j] && ((w.r == F[j].r) & (w.off == F[j].off) & (w.n == F[j].n))) { hit = j; break; }
    vf_check(hit != ~0ull, "pool/allocate: a released block is reused before new memory is taken");
    taken[hit] = true;
  }
  vf_check(p.bytes_remaining() == rem && vf_nmaps == maps, "pool/allocate: reuse takes no new memory");
  stats(p);
  // and new memory is disjoint from everything handed out before
  uint64_t y = vf_nondet_u64("fresh bytes");
  vf_assume(y >= 8); vf_assume(y <= rem); vf_assume(rem - y >= 8);
  for (uint64_t i = 0; i < nsizes; i++) vf_assume(y != sizes[i]);
  void* r = p.allocate(y, 8);
  took(y);
  if (vf_nmaps > maps) tGrow++;
  Blk w = where(r, y, "pool/allocate: in bounds");
  for (uint64_t i = 0; i < nareas; i++) vf_check(disjoint(w, area[i]), "pool/allocate: disjoint from every block in use");
  if (haveP) vf_check(disjoint(w, P), "pool/allocate: disjoint from every block in use");
  std::memcpy(&now, at(B), 8);
  vf_check(now == mark, "pool: the content of blocks in use is never touched");
  stats(p);
  p.~Pool();
  vf_check(vf_liveMaps() == 0, "pool/system: every region is returned when the pool dies");
  vf_check(vf_heap_live() == 0, "pool: no bookkeeping leaked");
}
#else
// Construction, growth and destruction under every combination of failing system calls and failing bookkeeping.
static void run() {
  uint64_t S0 = vf_nondet_u64("initial size"), G = vf_nondet_u64("growth size");
  bool huge = vf_choose(2, "huge pages wanted");
  if (huge) { vf_assume(S0 <= (uint64_t)HP_HUGEMAX << 21); vf_assume(G <= (uint64_t)HP_HUGEMAX << 21); }
  Raw raw;
  bool threw = false;
  vf_fail_alloc(vf_choose(6, "failing bookkeeping"));
  uint64_t k = vf_allocs();
  try { new (raw.b) Pool(S0, huge, G); } catch (const std::bad_alloc&) { threw = true; }
  if (threw) {
    vf_fail_alloc(~0ull);
    vf_check(vf_liveMaps() == 0 && vf_heap_live() == 0, "pool/system: a failed construction leaves nothing behind");
    vf_cover("pool: construction refused");
    return;
  }
  Pool& p = *raw;
  vf_check(huge ? vf_hugeCalls == 1 : vf_hugeCalls == 0, "pool/system: huge pages are tried exactly when wanted");
  vf_check(p.using_hugepages() == vf_maps[0].huge && p.is_hugepages_enabled() == vf_maps[0].huge, "pool/system: huge page use is reported truthfully");
  vf_check(vf_nmaps == 1 && vf_maps[0].len >= S0 && p.bytes_remaining() == vf_maps[0].len, "pool/regions: the initial region is at least as large as requested");
  if (huge && !vf_maps[0].huge) vf_cover("pool: fallback to regular pages");
  uint64_t n = vf_choose(4, "allocations");
  for (uint64_t i = 0; i < n; i++) {
    uint64_t b = vf_nondet_u64("bytes"), hf = vf_hugeFails, hc = vf_hugeCalls, rf = vf_regFails, m = vf_nmaps, rem = p.bytes_remaining(), live = vf_liveMaps();
    vf_assume(b >= 8);
    if (huge) vf_assume(b <= (uint64_t)HP_HUGEMAX << 20);
    void* r = nullptr;
    bool t = false;
    try { r = p.allocate(b, 8); } catch (const std::bad_alloc&) { t = true; }
    vf_check(vf_liveMaps() == live + (vf_nmaps - m), "pool/system: regions stay while the pool lives");
    if (t) {
      vf_check(vf_nmaps == m && p.bytes_remaining() == rem, "pool/system: a failed growth changes nothing");
      vf_cover("pool: growth refused");
    } else {
      where(r, b, "pool/allocate: in bounds");
      if (vf_nmaps > m) {
        vf_check(vf_nmaps == m + 1, "pool/growth: one region per growth");
        vf_check((vf_hugeCalls > hc) == p.using_hugepages(), "pool/system: huge pages are tried exactly when in use");
        vf_check(vf_maps[m].len >= G && vf_maps[m].len >= b, "pool/growth: at least the growth size");
        if (p.using_hugepages() && !vf_maps[m].huge) { vf_check(vf_hugeFails > hf, "pool/system: regular pages only as fallback"); vf_cover("pool: growth falls back to regular pages"); }
      }
    }
  }
  vf_fail_alloc(~0ull);
  p.~Pool();
  vf_check(vf_liveMaps() == 0, "pool/system: every region is returned when the pool dies");
  vf_check(vf_heap_live() == 0, "pool: no bookkeeping leaked");
  vf_cover("pool: destroyed");
}
#endif
extern "C" void vf_main() { run(); }
