// Contracts of the dense_map searches: on every fill 0..N and every content and probe, each search mode
// returns exactly the position the sorted view defines, hence all modes agree.
#include "spec.h"
#include <fast_containers/dense_map.hpp>
using namespace kressler::fast_containers;
#ifndef DM_KEY
#define DM_KEY uint64_t
#endif
#ifndef DM_CMP
#define DM_CMP std::less<DM_KEY>
#endif
#ifndef DM_N
#define DM_N 16
#endif
typedef DM_KEY K;
typedef DM_CMP Cmp;
constexpr std::size_t N = DM_N;
typedef spec::View<K, uint8_t, Cmp, N> S;

template <SearchMode Mode> static void searches(std::size_t op, const S& s, const K& q, std::size_t want, bool had) {
  typedef dense_map<K, uint8_t, N, Cmp, Mode> M;
  M m;
  for (std::size_t i = 0; i < s.n; i++) m.insert(s.k[i], s.v[i]);
  const M& c = m;
  vf_freeze(&m, 1);
  switch (op) {
    case 0:
      vf_check((std::size_t)m.lower_bound(q).index() == want, "dense_map::lower_bound/ensures/exact position in every search mode");
      vf_check((std::size_t)c.lower_bound(q).index() == want, "dense_map::lower_bound const/ensures/exact position in every search mode");
      break;
    case 1: {
      std::size_t up = want + (had ? 1 : 0);
      vf_check((std::size_t)m.upper_bound(q).index() == up, "dense_map::upper_bound/ensures/exact position in every search mode");
      vf_check((std::size_t)c.upper_bound(q).index() == up, "dense_map::upper_bound const/ensures/exact position in every search mode");
      break;
    }
    case 2: {
      std::size_t f = had ? want : s.n;
      vf_check((std::size_t)m.find(q).index() == f, "dense_map::find/ensures/exact position in every search mode");
      vf_check((std::size_t)c.find(q).index() == f, "dense_map::find const/ensures/exact position in every search mode");
      break;
    }
    case 3: {  // the position insert and erase act on
      vf_freeze(&m, 0);
      std::size_t r = m.erase(q);
      vf_check(r == (had ? 1u : 0u), "dense_map::erase(key)/ensures/finds the key in every search mode");
      if (s.n < N || had) {
        auto [it, ok] = m.insert(q, 1);
        vf_check(ok, "dense_map::insert/ensures/absent key inserted in every search mode");
        vf_check((std::size_t)it.index() == want, "dense_map::insert/ensures/exact position in every search mode");
      }
      break;
    }
  }
}

extern "C" void vf_main() {
  std::size_t op = vf_choose(4, "op");
  std::size_t mode = vf_choose(3, "mode");
  std::size_t n = vf_choose(N + 1, "n");
  S s;
  s.n = n;
  for (std::size_t i = 0; i < n; i++) {
    s.k[i] = spec::any<K>("key");
    if (i) vf_assume(S::lt(s.k[i - 1], s.k[i]));
  }
  K q = spec::any<K>("q");
  if (mode == 0) searches<SearchMode::Binary>(op, s, q, s.lower(q), s.has(q));
  else if (mode == 1) searches<SearchMode::Linear>(op, s, q, s.lower(q), s.has(q));
  else searches<SearchMode::SIMD>(op, s, q, s.lower(q), s.has(q));
  vf_cover("dense_map search/requires satisfiable");
}
