// Bounded stand-in used only when the contracts over arbitrary trees no longer compile against the current source (their
// preconditions name private members): trees are reached through the public interface from a fixed set of histories, then
// one operation with arbitrary arguments is checked against the sorted-map specification.
#include "res.h"
#ifdef BT_POLICY
#include "pol.h"
#define BT_ALLOC kressler::fast_containers::PolicyBasedHugePageAllocator<std::pair<BT_KEY, BT_VAL>, kressler::fast_containers::TwoPoolPolicy>
#define BT_NEWALLOC(id) (BT_ALLOC(spec::policy(id)))
#else
#include "ta.h"
#define BT_ALLOC spec::TA<std::pair<BT_KEY, BT_VAL>>
#define BT_NEWALLOC(id) (BT_ALLOC(id))
#endif
#include <fast_containers/btree.hpp>
#include <new>
#include <stdexcept>
#include <optional>
#ifndef BT_KEY
#define BT_KEY int64_t
#endif
#ifndef BT_VAL
#define BT_VAL uint64_t
#endif
#ifndef BT_CMP
#define BT_CMP std::less<BT_KEY>
#endif
#ifndef BT_NL
#define BT_NL 8
#endif
#ifndef BT_NI
#define BT_NI 8
#endif
#ifndef PUB_OPS
#define PUB_OPS 0xffff
#endif
namespace fc = kressler::fast_containers;
using K = BT_KEY; using V = BT_VAL; using Cmp = BT_CMP;
using Tree = fc::btree<K, V, BT_NL, BT_NI, Cmp, fc::SearchMode::Binary, BT_ALLOC>;
constexpr std::size_t CAP = 128;
static bool lt(const K& a, const K& b) { return Cmp{}(a, b); }
template <class T> T keyAt(uint64_t i) { if constexpr (std::is_integral_v<T>) return (T)(1000 + 10 * i); else { T k = T::any("k"); k.ord = (int64_t)(1000 + 10 * i); return k; } }
static K keyOf(uint64_t i) { return keyAt<K>(i); }
static K anyKey() { return spec::any<K>("q"); }
static V anyVal(const char* n) { return spec::any<V>(n); }
using S = spec::View<K, V, Cmp, CAP>;
static constexpr const char *LK = "btree/public: lookup", *IN = "btree/public: insertion", *ER = "btree/public: erasure", *CT = "btree/public: content", *IT = "btree/public: iteration", *LF = "btree/public: copy, move, swap, clear", *FA = "btree/public: failed insertion", *NO = "btree/public: nodes";
static S* model() { return new S; }
static void put(Tree& t, S& s, uint64_t i) { K k = keyOf(i); V v = anyVal("v"); vf_check(t.insert(k, v).second, IN); s.insertAt(s.lower(k), k, v); }
static void del(Tree& t, S& s, uint64_t i) { K k = keyOf(i); std::size_t p = s.lower(k); vf_check(t.erase(k) == 1, ER); s.eraseAt(p); }
static void build(Tree& t, S& s) {
  static const uint64_t M[] = {0, 1, 8, 9, 24, 45, 90};
  uint64_t n = M[vf_choose(7, "elements")], order = n > 1 ? vf_choose(3, "order") : 0, cut = n > 20 ? vf_choose(3, "then erase") : 0;
  for (uint64_t i = 0; i < n; i++) put(t, s, order == 0 ? i : order == 1 ? n - 1 - i : (i * 37 + 11) % n);
  uint64_t w = n * 2 / 3;
  if (cut == 1) for (uint64_t i = 0; i < w; i++) del(t, s, i);
  if (cut == 2) for (uint64_t i = 0; i < w; i++) del(t, s, n - 1 - i);
}
static void viewIs(Tree& t, const S& s, const char* l) {
  vf_check(t.size() == s.n && t.empty() == (s.n == 0), l);
  const Tree& c = t;
  auto it = t.begin();
  auto ci = c.begin();
  for (std::size_t i = 0; i < s.n; i++, ++it, ++ci) {
    if (it == t.end() || ci == c.end()) vf_fail(l);
    vf_check(!lt(it->first, s.k[i]) & !lt(s.k[i], it->first), l);
    vf_check(spec::same(it->second, s.v[i]), l);
    vf_check(spec::same((*ci).second, s.v[i]), l);
  }
  vf_check(it == t.end() && ci == c.end(), l);
  auto r = t.rbegin();
  for (std::size_t i = s.n; i-- > 0; ++r) { if (r == t.rend()) vf_fail(IT); vf_check(spec::same(r->second, s.v[i]), IT); }
  vf_check(r == t.rend(), IT);
  for (std::size_t i = s.n; i-- > 0;) { --it; vf_check(spec::same(it->second, s.v[i]), IT); }
}
template <class It> static void at(Tree& t, It it, const S& s, std::size_t i, const char* l) {
  if (i >= s.n) { vf_check(it == t.end(), l); return; }
  if (it == t.end()) vf_fail(l);
  vf_check(!lt(it->first, s.k[i]) & !lt(s.k[i], it->first), l);
  vf_check(spec::same(it->second, s.v[i]), l);
}
// Lookups before and after the operation: they see (and fill) whatever the tree remembers between calls.
static void lookups(Tree& t, const S& s) {
  for (std::size_t i = 0; i < s.n; i++) at(t, t.find(s.k[i]), s, i, LK);
  if (s.n) { at(t, t.lower_bound(s.k[s.n / 2]), s, s.n / 2, LK); at(t, t.upper_bound(s.k[0]), s, 1, LK); }
}
static void run() {
  S& s = *model();
  uint64_t op;
  do op = vf_choose(16, "op"); while (0);
  if (!((PUB_OPS >> op) & 1)) return;
  Tree t{BT_NEWALLOC(0)};
  build(t, s);
  if (s.n >= 24) {
    uint64_t warm = vf_choose(3, "looked up before");
    if (warm) { std::size_t i = warm == 1 ? 0 : s.n - 1; at(t, t.find(s.k[i]), s, i, LK); }
  }
  K q = anyKey();
  V w = anyVal("w");
  std::size_t lo = s.lower(q), up = s.upper(q);
  bool had = s.hasAt(lo, q);
  switch (op) {
    case 0: {
      const Tree& c = t;
      at(t, t.find(q), s, had ? lo : s.n, LK); at(t, t.lower_bound(q), s, lo, LK); at(t, t.upper_bound(q), s, up, LK);
      auto r = t.equal_range(q); at(t, r.first, s, lo, LK); at(t, r.second, s, up, LK);
      vf_check(t.contains(q) == had && t.count(q) == (had ? 1u : 0u) && (c.find(q) != c.end()) == had, LK);
      bool threw = false;
      try { vf_check(spec::same(t.at(q), s.v[lo]) && spec::same(c.at(q), s.v[lo]), LK); } catch (const std::out_of_range&) { threw = true; }
      vf_check(threw == !had, LK);
      break;
    }
    case 1: { auto [it, ok] = t.insert(q, w); vf_check(ok == !had, IN); if (!had) s.insertAt(lo, q, w); at(t, it, s, lo, IN); break; }
    case 2: { auto [it, ok] = t.insert_or_assign(q, w); vf_check(ok == !had, IN); if (!had) s.insertAt(lo, q, w); else s.v[lo] = w; at(t, it, s, lo, IN); break; }
    case 3: { auto [it, ok] = t.try_emplace(q, w); vf_check(ok == !had, IN); if (!had) s.insertAt(lo, q, w); at(t, it, s, lo, IN); break; }
    case 4: { t[q] = w; if (!had) s.insertAt(lo, q, w); else s.v[lo] = w; break; }
    case 5: { auto it = t.emplace_hint(t.cbegin(), q, w); if (!had) s.insertAt(lo, q, w); at(t, it, s, lo, IN); break; }
    case 6: { vf_check(t.erase(q) == (had ? 1u : 0u), ER); if (had) s.eraseAt(lo); break; }
    case 7: {
      if (!s.n) return;
      std::size_t i = vf_choose(3, "where") * (s.n - 1) / 2;
      auto it = t.find(s.k[i]);
      auto r = t.erase(it);
      s.eraseAt(i);
      at(t, r, s, i, ER);
      break;
    }
    case 8: {
      std::size_t i = vf_choose(3, "from") * s.n / 2, j = i + vf_choose(3, "length") * (s.n - i) / 2;
      auto f = i < s.n ? t.find(s.k[i]) : t.end(), l = j < s.n ? t.find(s.k[j]) : t.end();
      auto r = t.erase(f, l);
      s.eraseAt(i, j - i);
      at(t, r, s, i, ER);
      break;
    }
    case 9: { Tree u(t); viewIs(u, s, LF); u.insert(q, w); break; }
    case 10: { Tree u(std::move(t)); viewIs(u, s, LF); vf_check(t.empty() && t.begin() == t.end(), LF); t.insert(q, w); vf_check(t.size() == 1 && t.contains(q), LF); S& e = *model(); t.clear(); t.swap(u); viewIs(u, e, LF); break; }
    case 11: { Tree u{BT_NEWALLOC(1)}; u.insert(q, w); u = std::move(t); viewIs(u, s, LF); S& e = *model(); e.n = 0; viewIs(t, e, LF); s.n = 0; break; }
    case 12: { Tree u{BT_NEWALLOC(1)}; u.insert(q, w); u = t; viewIs(u, s, LF); Tree& a = t; t = a; break; }
    case 13: { t.clear(); s.n = 0; vf_check(t.begin() == t.end(), LF); viewIs(t, s, LF); t.insert(q, w); s.insertAt(0, q, w); break; }
    case 14: {
      if (had) return;
      vf_fail_alloc(vf_choose(4, "failing allocation"));
      bool threw = false;
      try { t.insert(q, w); } catch (const std::bad_alloc&) { threw = true; }
      vf_fail_alloc(~0ull);
      if (!threw) s.insertAt(lo, q, w);
      viewIs(t, s, FA);
      break;
    }
    case 15: { Tree u{BT_NEWALLOC(1)}; u.insert(q, w); t.swap(u); viewIs(u, s, LF); s.n = 0; s.insertAt(0, q, w); break; }
  }
  viewIs(t, s, CT);
  lookups(t, s);
  vf_cover("btree public");
}
extern "C" void vf_main() {
  run();
  for (uint64_t i = 0; i < 3; i++) vf_check(spec::taOut[i] == 0, NO);
}
