// Contracts of the public dense_map operations: for every fill 0..N and every content,
// each operation's result and the whole resulting view equal the sorted-map specification.
#include "spec.h"
#include <fast_containers/dense_map.hpp>
using namespace kressler::fast_containers;
#ifndef DM_KEY
#define DM_KEY uint64_t
#endif
#ifndef DM_VAL
#define DM_VAL uint64_t
#endif
#ifndef DM_CMP
#define DM_CMP std::less<DM_KEY>
#endif
#ifndef DM_N
#define DM_N 8
#endif
#ifndef DM_MODE
#define DM_MODE Binary
#endif
typedef DM_KEY K;
typedef DM_VAL V;
typedef DM_CMP Cmp;
constexpr std::size_t N = DM_N;
typedef dense_map<K, V, N, Cmp, SearchMode::DM_MODE> M;
typedef spec::View<K, V, Cmp, N> S;
using spec::same;

static void build(M& m, const S& s) {
  for (std::size_t i = 0; i < s.n; i++) {
    auto r = m.insert(s.k[i], s.v[i]);
    vf_check(r.second, "dense_map::insert/ensures/appending a larger key inserts");
  }
}
static void viewIs(M& m, const S& s, const char* l) {
  vf_check(m.size() == s.n, l);
  vf_check(m.empty() == (s.n == 0), l);
  vf_check(m.full() == (s.n == N), l);
  vf_check((std::size_t)(m.end() - m.begin()) == s.n, l);
  auto it = m.begin();
  const M& c = m;
  auto ci = c.begin();
  for (std::size_t i = 0; i < s.n; i++, ++it, ++ci) {
    vf_check(same(it->first, s.k[i]), l);
    vf_check(same((*it).second, s.v[i]), l);
    vf_check(same((*ci).first, s.k[i]), l);
    vf_check(same(ci->second, s.v[i]), l);
  }
  vf_check(it == m.end(), l);
  vf_check(ci == c.end(), l);
}
template <class It> static void at(M& m, It it, std::size_t i, const char* l) { vf_check((std::size_t)it.index() == i, l); vf_check(it == m.begin() + (std::ptrdiff_t)i, l); }

extern "C" void vf_main() {
  std::size_t op = vf_choose(19, "op");
  std::size_t n = vf_choose(N + 1, "n");
  S s = S::any(n);
  M m;
  build(m, s);
  K q = spec::any<K>("q");
  V w = spec::any<V>("w");
  const M& c = m;
  switch (op) {
    case 0: {
      bool threw = false;
      try {
        auto [it, ok] = m.insert(q, w);
        std::size_t i = s.lower(q);
        bool had = s.hasAt(i, q);
        vf_check(ok == !had, "dense_map::insert/ensures/inserted iff absent");
        if (!had) s.insertAt(i, q, w);
        at(m, it, i, "dense_map::insert/ensures/returned position");
      } catch (const std::runtime_error&) { threw = true; }
      vf_check(threw == (n == N), "dense_map::insert/ensures/throws iff full");
      viewIs(m, s, "dense_map::insert/ensures/view");
      break;
    }
    case 1: {
      std::size_t i = s.lower(q);
      bool had = s.hasAt(i, q), threw = false;
      try {
        auto [it, ok] = m.insert_hint(m.begin() + (std::ptrdiff_t)i, q, w);
        vf_check(ok == !had, "dense_map::insert_hint/ensures/inserted iff absent");
        if (!had) s.insertAt(i, q, w);
        at(m, it, i, "dense_map::insert_hint/ensures/returned position");
      } catch (const std::runtime_error&) { threw = true; }
      vf_check(threw == (n == N), "dense_map::insert_hint/ensures/throws iff full");
      viewIs(m, s, "dense_map::insert_hint/ensures/view");
      break;
    }
    case 2: {
      bool threw = false;
      try {
        auto [it, ok] = m.try_emplace(q, w);
        std::size_t i = s.lower(q);
        bool had = s.hasAt(i, q);
        vf_check(ok == !had, "dense_map::try_emplace/ensures/inserted iff absent");
        if (!had) s.insertAt(i, q, w);
        at(m, it, i, "dense_map::try_emplace/ensures/returned position");
      } catch (const std::runtime_error&) { threw = true; }
      vf_check(threw == (n == N), "dense_map::try_emplace/ensures/throws iff full");
      viewIs(m, s, "dense_map::try_emplace/ensures/view");
      break;
    }
    case 3: case 4: {
      bool threw = false, had = false;
      try {
        V w2 = w;
        auto [it, ok] = op == 3 ? m.insert_or_assign(q, w) : m.insert_or_assign(q, std::move(w2));
        std::size_t i = s.lower(q);
        had = s.hasAt(i, q);
        vf_check(ok == !had, "dense_map::insert_or_assign/ensures/inserted iff absent");
        if (had) s.v[i] = w; else s.insertAt(i, q, w);
        at(m, it, i, "dense_map::insert_or_assign/ensures/returned position");
      } catch (const std::runtime_error&) { threw = true; had = s.has(q); }
      vf_check(threw == (n == N && !had), "dense_map::insert_or_assign/ensures/throws iff full and absent");
      viewIs(m, s, "dense_map::insert_or_assign/ensures/view");
      break;
    }
    case 5: {
      std::size_t r = m.erase(q);
      std::size_t i = s.lower(q);
      bool had = s.hasAt(i, q);
      vf_check(r == (had ? 1u : 0u), "dense_map::erase(key)/ensures/count");
      if (had) s.eraseAt(i);
      viewIs(m, s, "dense_map::erase(key)/ensures/view");
      break;
    }
    case 6: {
      if (n == 0) return;
      std::size_t i = vf_choose(n, "i");
      auto it = m.erase(m.begin() + (std::ptrdiff_t)i);
      s.eraseAt(i);
      at(m, it, i, "dense_map::erase(iterator)/ensures/returns the next position");
      viewIs(m, s, "dense_map::erase(iterator)/ensures/view");
      break;
    }
    case 7: case 8: {
      bool threw = false, had = false;
      try {
        V& r = m[q];
        std::size_t i = s.lower(q);
        had = s.hasAt(i, q);
        if (!had) s.insertAt(i, q, V{});
        vf_check(same(r, s.v[i]), "dense_map::operator[]/ensures/value of the key");
        if (op == 8) { r = w; s.v[i] = w; }
      } catch (const std::runtime_error&) { threw = true; had = s.has(q); }
      vf_check(threw == (n == N && !had), "dense_map::operator[]/ensures/throws iff full and absent");
      viewIs(m, s, "dense_map::operator[]/ensures/view");
      break;
    }
    case 9: {
      vf_freeze(&m, 1);
      auto it = m.find(q);
      std::size_t i = s.lower(q);
      at(m, it, s.hasAt(i, q) ? i : n, "dense_map::find/ensures/position of the key or end");
      vf_freeze(&m, 0);
      viewIs(m, s, "dense_map::find/ensures/view unchanged");
      break;
    }
    case 10: {
      vf_freeze(&m, 1);
      auto it = c.find(q);
      std::size_t i = s.lower(q);
      vf_check((std::size_t)it.index() == (s.hasAt(i, q) ? i : n), "dense_map::find const/ensures/position of the key or end");
      vf_check((it == c.end()) == !s.hasAt(i, q), "dense_map::find const/ensures/end iff absent");
      break;
    }
    case 11: vf_freeze(&m, 1); at(m, m.lower_bound(q), s.lower(q), "dense_map::lower_bound/ensures/first element not less"); break;
    case 12: vf_freeze(&m, 1); vf_check((std::size_t)c.lower_bound(q).index() == s.lower(q), "dense_map::lower_bound const/ensures/first element not less"); break;
    case 13: vf_freeze(&m, 1); at(m, m.upper_bound(q), s.upper(q), "dense_map::upper_bound/ensures/first element greater"); break;
    case 14: vf_freeze(&m, 1); vf_check((std::size_t)c.upper_bound(q).index() == s.upper(q), "dense_map::upper_bound const/ensures/first element greater"); break;
    case 15: {
      m.clear();
      s.n = 0;
      viewIs(m, s, "dense_map::clear/ensures/empty");
      auto r = m.insert(q, w);
      s.insertAt(0, q, w);
      vf_check(r.second, "dense_map::clear/ensures/usable afterwards");
      viewIs(m, s, "dense_map::clear/ensures/usable afterwards");
      break;
    }
    case 16: {  // reverse iteration and random access agree with the view
      auto r = m.rbegin();
      auto cr = c.crbegin();
      for (std::size_t i = n; i-- > 0; ++r, ++cr) {
        vf_check(same((*r).first, s.k[i]), "dense_map::rbegin/ensures/reverse order");
        vf_check(same((*r).second, s.v[i]), "dense_map::rbegin/ensures/reverse order");
        vf_check(same((*cr).first, s.k[i]), "dense_map::crbegin/ensures/reverse order");
      }
      vf_check(r == m.rend(), "dense_map::rend/ensures/reverse order");
      vf_check(cr == c.crend(), "dense_map::crend/ensures/reverse order");
      for (std::size_t i = 0; i < n; i++) {
        auto b = m.begin();
        vf_check(same(b[(std::ptrdiff_t)i].first, s.k[i]), "dense_map::iterator[]/ensures/element");
        auto e = m.end();
        e -= (std::ptrdiff_t)(n - i);
        vf_check(same(e->second, s.v[i]), "dense_map::iterator-=/ensures/element");
        vf_check(same(e.value_ref(), s.v[i]), "dense_map::iterator::value_ref/ensures/element");
        b += (std::ptrdiff_t)i;
        vf_check(b == e, "dense_map::iterator+=/ensures/element");
        auto b2 = b++;
        vf_check(b2 == e, "dense_map::iterator++/ensures/post-increment returns the old position");
        vf_check((b > b2) & (b2 < b) & (b >= b2) & (b2 <= b) & (b != b2), "dense_map::iterator/ensures/ordering");
        auto b3 = b--;
        vf_check((b3 - b) == 1, "dense_map::iterator--/ensures/post-decrement returns the old position");
        vf_check(b == b2, "dense_map::iterator--/ensures/moves back");
      }
      break;
    }
    case 17: {  // unsafe_update_key under its documented precondition
      if (n == 0) return;
      std::size_t i = vf_choose(n, "i");
      if (i > 0) vf_assume(S::lt(s.k[i - 1], q));
      if (i + 1 < n) vf_assume(S::lt(q, s.k[i + 1]));
      m.unsafe_update_key(m.begin() + (std::ptrdiff_t)i, q);
      s.k[i] = q;
      viewIs(m, s, "dense_map::unsafe_update_key/ensures/view");
      break;
    }
    case 18: {  // writing through an iterator changes exactly that value
      if (n == 0) return;
      std::size_t i = vf_choose(n, "i");
      auto it = m.begin() + (std::ptrdiff_t)i;
      it->second = w;
      s.v[i] = w;
      viewIs(m, s, "dense_map::iterator->/ensures/writes exactly one value");
      break;
    }
  }
  vf_cover("dense_map/requires satisfiable");
}
