// Contracts of the default node size heuristics.
// SZ_EXTRACTED: over the mechanically extracted bodies, for all key and value sizes; otherwise: the templates themselves,
// instantiated for every size in a range and for the default btree of assorted types.
#include <fast_containers/btree.hpp>
#include <array>
#include <utility>
#include "vf.h"
namespace fc = kressler::fast_containers;
using u64 = uint64_t;
// documented: close to `target` bytes, rounded to the nearest multiple of 8, within [lo, hi]
static void specified(u64 n, u64 e, u64 target, u64 lo, u64 hi) {
  vf_check((n >= lo) & (n <= hi), "node size/within the supported limits");
  vf_check(n % 8 == 0, "node size/multiple of eight");
  vf_check(n == lo || (n - 4) * e <= target, "node size/documented target footprint");
  vf_check(n == hi || (n + 4) * e > target, "node size/documented target footprint");
}
#ifdef SZ_EXTRACTED
#include "extracted.h"
extern "C" void vf_main() {
  u64 k = vf_nondet_u64("key size"), v = vf_nondet_u64("value size");
  vf_assume((k >= 1) & (k <= 1ull << 40) & (v >= 1) & (v <= 1ull << 40));
  if (vf_choose(2, "which") == 0) { specified(fc::default_leaf_node_size_extracted(k, v), k + v, 2048, 8, 64); vf_cover("leaf size"); }
  else { specified(fc::default_internal_node_size_extracted(k), k + 8, 1024, 16, 64); vf_cover("internal size"); }
}
#else
template <u64 N> struct Z { char c[N]; };
template <u64 K, u64 V> static void leaf() {
  constexpr u64 n = fc::default_leaf_node_size<Z<K>, Z<V>>();
  specified(n, K + V, 2048, 8, 64);
}
template <u64 K> static void internal() {
  constexpr u64 n = fc::default_internal_node_size<Z<K>>();
  specified(n, K + 8, 1024, 16, 64);
}
template <u64... I> static void all(std::integer_sequence<u64, I...>) {
  static const u64 a[] = {fc::default_internal_node_size<Z<I + 1>>()...}, b[] = {fc::default_leaf_node_size<Z<8>, Z<I + 1>>()...},
    c[] = {fc::default_leaf_node_size<Z<I + 1>, Z<8>>()...}, d[] = {fc::default_leaf_node_size<Z<I + 1>, Z<I + 1>>()...}, e[] = {fc::default_leaf_node_size<Z<4>, Z<I * 7 + 3>>()...};
  for (u64 i = 0; i < sizeof...(I); i++) {
    specified(a[i], i + 9, 1024, 16, 64);
    specified(b[i], i + 9, 2048, 8, 64);
    specified(c[i], i + 9, 2048, 8, 64);
    specified(d[i], 2 * (i + 1), 2048, 8, 64);
    specified(e[i], i * 7 + 7, 2048, 8, 64);
  }
}
// the default tree of a key and value type uses exactly these capacities
template <class K, class V> static void tree() {
  constexpr bool same = std::is_same_v<fc::btree<K, V>, fc::btree<K, V, fc::default_leaf_node_size<K, V>(), fc::default_internal_node_size<K>()>>;
  vf_check(same && sizeof(fc::btree<K, V>) > 0, "node size/default tree is valid");
}
#ifndef SZ_MAX
#define SZ_MAX 2200
#endif
extern "C" void vf_main() {
  all(std::make_integer_sequence<u64, SZ_MAX>());
  internal<4095>(); internal<4096>(); internal<65536>(); internal<1000000>();
  leaf<4096, 1>(); leaf<1, 4096>(); leaf<65536, 65536>(); leaf<1, 10000000>(); leaf<10000000, 1>();
  tree<char, char>(); tree<u64, u64>(); tree<u64, Z<4096>>(); tree<u64, Z<100000>>(); tree<long double, int>(); tree<int, Z<256>>();
  { fc::btree<char, char> a; fc::btree<u64, Z<5000>> b; fc::btree<long double, int> c; vf_check(a.empty() && b.empty() && c.empty(), "node size/default tree is valid"); }
  vf_cover("sizes enumerated");
}
#endif
