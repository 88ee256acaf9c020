// Contracts of the dense_map operations that move elements between maps: split_at, transfer_prefix_from,
// transfer_suffix_from (DM_PART 0) and copy/move construction and assignment (DM_PART 1).
#include "spec.h"
#include <fast_containers/dense_map.hpp>
using namespace kressler::fast_containers;
#ifndef DM_KEY
#define DM_KEY uint64_t
#endif
#ifndef DM_VAL
#define DM_VAL uint64_t
#endif
#ifndef DM_CMP
#define DM_CMP std::less<DM_KEY>
#endif
#ifndef DM_N
#define DM_N 8
#endif
#ifndef DM_N2
#define DM_N2 5
#endif
#ifndef DM_MODE
#define DM_MODE Binary
#endif
typedef DM_KEY K;
typedef DM_VAL V;
typedef DM_CMP Cmp;
constexpr std::size_t N = DM_N, N2 = DM_N2, CAP = N + N2 + N;
typedef dense_map<K, V, N, Cmp, SearchMode::DM_MODE> M;
typedef dense_map<K, V, N2, Cmp, SearchMode::DM_MODE> M2;
typedef spec::View<K, V, Cmp, CAP> S;
using spec::same;

template <class T> static void build(T& m, const S& s) {
  for (std::size_t i = 0; i < s.n; i++) {
    auto r = m.insert(s.k[i], s.v[i]);
    vf_check(r.second, "dense_map::insert/ensures/appending a larger key inserts");
  }
}
template <class T> static void is(const T& m, const S& s, const char* l) {
  vf_check(m.size() == s.n, l);
  auto it = m.begin();
  for (std::size_t i = 0; i < s.n; i++, ++it) {
    vf_check(same(it->first, s.k[i]), l);
    vf_check(same(it->second, s.v[i]), l);
  }
  vf_check(it == m.end(), l);
}
static S sub(const S& s, std::size_t a, std::size_t b) {
  S r;
  r.n = b - a;
  for (std::size_t i = a; i < b; i++) { r.k[i - a] = s.k[i]; r.v[i - a] = s.v[i]; }
  return r;
}
static S cat(const S& a, const S& b) {
  S r = a;
  r.n = a.n + b.n;
  for (std::size_t i = 0; i < b.n; i++) { r.k[a.n + i] = b.k[i]; r.v[a.n + i] = b.v[i]; }
  return r;
}
// Still a working map: one insertion of an arbitrary key behaves like the specification.
template <class T> static void usable(T& m, S s, const char* l) {
  if (m.size() == m.capacity()) return;
  K q = spec::any<K>("uq");
  V w = spec::any<V>("uw");
  std::size_t i = s.lower(q);
  bool had = s.hasAt(i, q);
  auto [it, ok] = m.insert(q, w);
  vf_check(ok == !had, l);
  if (!had) s.insertAt(i, q, w);
  is(m, s, l);
}

#if DM_PART == 0
template <class A, class B> static void split(std::size_t ca, std::size_t cb) {
  std::size_t n = vf_choose(ca + 1, "n"), m = vf_choose(cb + 1, "m"), p = vf_choose(n + 1, "p");
  S s = S::any(n), t = S::any(m);
  A a; B b;
  build(a, s); build(b, t);
  bool threw = false;
  try { a.split_at(a.begin() + (std::ptrdiff_t)p, b); } catch (const std::runtime_error&) { threw = true; }
  vf_check(threw == (m != 0 || n - p > cb), "dense_map::split_at/ensures/throws iff the output is non-empty or too small");
  if (threw) {
    is(a, s, "dense_map::split_at/ensures/unchanged when it throws");
    is(b, t, "dense_map::split_at/ensures/unchanged when it throws");
  } else {
    is(a, sub(s, 0, p), "dense_map::split_at/ensures/prefix stays");
    is(b, sub(s, p, n), "dense_map::split_at/ensures/suffix moves to the output");
    usable(a, sub(s, 0, p), "dense_map::split_at/ensures/source still a map");
  }
}
template <class A, class B> static void prefix(std::size_t ca, std::size_t cb) {  // a takes from b
  std::size_t n = vf_choose(ca + 1, "n"), m = vf_choose(cb + 1, "m"), cnt = vf_choose(cb + 2, "cnt");
  S all = S::any(n + m), s = sub(all, 0, n), t = sub(all, n, n + m);
  A a; B b;
  build(a, s); build(b, t);
  bool threw = false;
  try { a.transfer_prefix_from(b, cnt); } catch (const std::runtime_error&) { threw = true; }
  vf_check(threw == (cnt > m || n + cnt > ca), "dense_map::transfer_prefix_from/ensures/throws iff too many or no room");
  if (threw) {
    is(a, s, "dense_map::transfer_prefix_from/ensures/unchanged when it throws");
    is(b, t, "dense_map::transfer_prefix_from/ensures/unchanged when it throws");
  } else {
    is(a, sub(all, 0, n + cnt), "dense_map::transfer_prefix_from/ensures/appends exactly the prefix");
    is(b, sub(all, n + cnt, n + m), "dense_map::transfer_prefix_from/ensures/source keeps exactly the rest");
    usable(b, sub(all, n + cnt, n + m), "dense_map::transfer_prefix_from/ensures/source still a map");
  }
}
template <class A, class B> static void suffix(std::size_t ca, std::size_t cb) {
  std::size_t n = vf_choose(ca + 1, "n"), m = vf_choose(cb + 1, "m"), cnt = vf_choose(cb + 2, "cnt");
  S all = S::any(n + m), t = sub(all, 0, m), s = sub(all, m, n + m);
  A a; B b;
  build(a, s); build(b, t);
  bool threw = false;
  try { a.transfer_suffix_from(b, cnt); } catch (const std::runtime_error&) { threw = true; }
  vf_check(threw == (cnt > m || n + cnt > ca), "dense_map::transfer_suffix_from/ensures/throws iff too many or no room");
  if (threw) {
    is(a, s, "dense_map::transfer_suffix_from/ensures/unchanged when it throws");
    is(b, t, "dense_map::transfer_suffix_from/ensures/unchanged when it throws");
  } else {
    is(a, sub(all, m - cnt, n + m), "dense_map::transfer_suffix_from/ensures/prepends exactly the suffix");
    is(b, sub(all, 0, m - cnt), "dense_map::transfer_suffix_from/ensures/source keeps exactly the rest");
    usable(a, sub(all, m - cnt, n + m), "dense_map::transfer_suffix_from/ensures/destination still a map");
  }
}
extern "C" void vf_main() {
  switch (vf_choose(6, "op")) {
    case 0: split<M, M2>(N, N2); break;
    case 1: split<M2, M>(N2, N); break;
    case 2: prefix<M, M2>(N, N2); break;
    case 3: prefix<M2, M>(N2, N); break;
    case 4: suffix<M, M2>(N, N2); break;
    case 5: suffix<M2, M>(N2, N); break;
  }
  vf_cover("dense_map move/requires satisfiable");
}
#else
extern "C" void vf_main() {
  std::size_t op = vf_choose(7, "op");
  std::size_t n = vf_choose(N + 1, "n");
  S s = S::any(n);
  M a;
  build(a, s);
  switch (op) {
    case 0: {
      vf_freeze(&a, 1);
      M b(a);
      vf_freeze(&a, 0);
      is(b, s, "dense_map(copy)/ensures/equal view");
      usable(b, s, "dense_map(copy)/ensures/still a map");
      is(a, s, "dense_map(copy)/ensures/independent of the source");
      M c(b);
      (void)c;
      break;
    }
    case 1: {
      M b(a);
      usable(a, s, "dense_map(copy)/ensures/source still a map");
      is(b, s, "dense_map(copy)/ensures/independent of the copy's source");
      break;
    }
    case 2: {
      M b(std::move(a));
      is(b, s, "dense_map(move)/ensures/takes the view");
      is(a, S{}, "dense_map(move)/ensures/source empty");
      usable(a, S{}, "dense_map(move)/ensures/source usable");
      usable(b, s, "dense_map(move)/ensures/target usable");
      break;
    }
    case 3: case 4: {
      std::size_t m = vf_choose(N + 1, "m");
      S t = S::any(m);
      M b;
      build(b, t);
      if (op == 3) {
        vf_freeze(&a, 1);
        M& r = (b = a);
        vf_freeze(&a, 0);
        vf_check(&r == &b, "dense_map::operator=(copy)/ensures/returns *this");
        is(b, s, "dense_map::operator=(copy)/ensures/equal view");
        usable(b, s, "dense_map::operator=(copy)/ensures/still a map");
        is(a, s, "dense_map::operator=(copy)/ensures/independent of the source");
      } else {
        M& r = (b = std::move(a));
        vf_check(&r == &b, "dense_map::operator=(move)/ensures/returns *this");
        is(b, s, "dense_map::operator=(move)/ensures/takes the view");
        is(a, S{}, "dense_map::operator=(move)/ensures/source empty");
        usable(a, S{}, "dense_map::operator=(move)/ensures/source usable");
        usable(b, s, "dense_map::operator=(move)/ensures/target usable");
      }
      break;
    }
    case 5: {
      M& b = a;
      a = b;
      is(a, s, "dense_map::operator=(copy)/ensures/self-assignment keeps the view");
      a = std::move(b);
      is(a, s, "dense_map::operator=(move)/ensures/self-assignment keeps the view");
      break;
    }
    case 6: {  // arguments that refer to elements of the same map
      if (n == 0) return;
      std::size_t e = vf_choose(n, "e"), how = vf_choose(6, "how");
      K q = spec::any<K>("q");
      std::size_t i = s.lower(q);
      bool had = s.hasAt(i, q);
      const V& arg = (a.begin() + (std::ptrdiff_t)e).value_ref();
      V w = s.v[e];
      if (how == 5) {  // the key argument is an element's key
        const K& kr = a.begin()[(std::ptrdiff_t)e].first;
        std::size_t r = a.erase(kr);
        vf_check(r == 1, "dense_map::erase(key)/ensures/accepts a key of the same map");
        s.eraseAt(e);
        is(a, s, "dense_map::erase(key)/ensures/accepts a key of the same map");
        break;
      }
      if (n == N && !(how == 3 && had)) return;
      if (how == 0) a.insert(q, arg);
      else if (how == 1) a.insert_hint(a.lower_bound(q), q, arg);
      else if (how == 2) a.try_emplace(q, arg);
      else if (how == 3) a.insert_or_assign(q, arg);
      else { V x = arg; a.insert_or_assign(q, std::move(x)); }
      if (had) { if (how >= 3) s.v[i] = w; } else s.insertAt(i, q, w);
      is(a, s, "dense_map insertion/ensures/a value argument inside the same map is read before it moves");
      break;
    }
  }
  vf_cover("dense_map copy/requires satisfiable");
}
#endif
