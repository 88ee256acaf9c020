// Contracts about the resources owned by keys and values of a dense_map: every operation, on every fill and with any
// history of vacated slots, neither leaks nor double-releases, gives up what it removes, and leaves the map unchanged
// when copying an argument fails.
#include "res.h"
#include <fast_containers/dense_map.hpp>
using namespace kressler::fast_containers;
#ifndef DM_N
#define DM_N 4
#endif
constexpr std::size_t N = DM_N;
typedef spec::Res K;
typedef spec::Res V;
typedef dense_map<K, V, N> M;
typedef spec::View<uint64_t, uint64_t, std::less<uint64_t>, N> S;

static void build(M& m, const S& s) { for (std::size_t i = 0; i < s.n; i++) m.insert(K(s.k[i]), V(s.v[i])); }
static void is(const M& m, const S& s, const char* l) {
  vf_check(m.size() == s.n, l);
  auto it = m.begin();
  for (std::size_t i = 0; i < s.n; i++, ++it) {
    vf_check(it->first.id() == s.k[i], l);
    vf_check(it->second.id() == s.v[i], l);
  }
}
// Exactly one key cell and one value cell per element.
static void owned(std::size_t n, const char* l) { vf_check(vf_heap_live() == 2 * n, l); }

static void run(std::size_t op, std::size_t hist, bool fault) {
  std::size_t n = vf_choose(N + 1, "n");
  S s = S::any(n);
  M m;
  build(m, s);
  std::size_t drop = 0;
  if (hist == 1 && n) { drop = 1 + vf_choose(n, "drop"); for (std::size_t i = 0; i < drop; i++) { m.erase(m.begin() + (std::ptrdiff_t)(m.size() - 1)); s.n--; } }
  else if (hist == 2) { m.clear(); s.n = 0; }
  else if (hist == 3 && n) { m.erase(m.begin()); s.eraseAt(0); }
  else if (hist == 4) { std::size_t p = vf_choose(n + 1, "p"); { M o; m.split_at(m.begin() + (std::ptrdiff_t)p, o); } s.n = p; }
  n = s.n;
  is(m, s, "dense_map/ensures/view after removals");
  owned(n, "dense_map/ensures/removed elements give up their resources");
  uint64_t q = vf_nondet_u64("q"), w = vf_nondet_u64("w");
  std::size_t i = s.lower(q);
  bool had = s.hasAt(i, q);
  bool threw = false, full = n == N;
  if (full && (op < 3 || !had) && op <= 5) return;  // capacity errors: dm_ops.cpp
  {
    K kq(q);
    V vw(w);
    std::size_t extra = 0;
    if (fault) vf_fail_alloc(vf_choose(4, "failing allocation"));
    try {
      switch (op) {
        case 0: m.insert(kq, vw); break;
        case 1: m.insert_hint(m.lower_bound(kq), kq, vw); break;
        case 2: m.try_emplace(kq, vw); break;
        case 3: m.insert_or_assign(kq, vw); break;
        case 4: m.insert_or_assign(kq, V(w)); break;
        case 5: m[kq] = vw; break;
        case 6: m.erase(kq); break;
        case 7: if (n) m.erase(m.begin()); break;
        case 8: m.clear(); break;
        case 9: { M c(m); is(c, s, "dense_map(copy)/ensures/equal view"); break; }
        case 10: { M c(std::move(m)); is(c, s, "dense_map(move)/ensures/takes the view"); break; }
        case 11: { M c; c.insert(kq, vw); m = std::move(c); break; }
        case 12: { M c; c.insert(kq, vw); m = c; break; }
        case 13: { M c; c.insert(kq, vw); c = m; is(c, s, "dense_map::operator=(copy)/ensures/equal view"); break; }
      }
    } catch (const std::bad_alloc&) { threw = true; }
    vf_fail_alloc(~0ull);
    if (threw) {
      if (op == 5 || op == 12) {  // two steps: the assignment after operator[], and a multi-element copy, may be half done
        if (m.size() == n) {} 
        for (std::size_t j = 0; j < m.size(); j++) (void)m.begin()[(std::ptrdiff_t)j].first.id();
        for (std::size_t j = 1; j < m.size(); j++) vf_check(m.begin()[(std::ptrdiff_t)(j - 1)].first < m.begin()[(std::ptrdiff_t)j].first, "dense_map/ensures/still sorted when an allocation fails");
      } else is(m, s, "dense_map/ensures/unchanged when an element copy fails");
    } else {
      std::size_t live = n;
      if (op <= 2) { if (!had) s.insertAt(i, q, w); }
      else if (op <= 5) { if (had) s.v[i] = w; else s.insertAt(i, q, w); }
      else if (op == 6) { if (had) s.eraseAt(i); }
      else if (op == 7) { if (n) s.eraseAt(0); }
      else if (op == 8 || op == 10) s.n = 0;
      else if (op == 11 || op == 12) { s.n = 1; s.k[0] = q; s.v[0] = w; }
      (void)live;
      is(m, s, "dense_map/ensures/view with resource-owning elements");
      vf_check(vf_heap_live() == 2 * s.n + 2, "dense_map/ensures/exactly one resource per element");
    }
    (void)extra;
  }
}
extern "C" void vf_main() {
  std::size_t op = vf_choose(14, "op"), hist = vf_choose(5, "hist");
#ifdef DM_FAULT
  run(op, hist, true);
#else
  run(op, hist, false);
#endif
  vf_check(vf_heap_live() == 0, "dense_map/ensures/every resource released with the map");
  vf_cover("dense_map lifetime/requires satisfiable");
}
