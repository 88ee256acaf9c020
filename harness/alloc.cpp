// Contracts of the pool allocators: AL_KIND 0 HugePageAllocator, 1 MultiSizeHugePageAllocator, 2 PolicyBasedHugePageAllocator.
// AL_GROUP 0: allocate/deallocate for every count.  AL_GROUP 1: copies, moves, conversions, equality, shared storage, lifetime.
#include "hp.h"
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>
#include "prime.h"
using namespace hp;
using u64 = uint64_t;
#ifndef AL_KIND
#define AL_KIND 0
#endif
#ifndef AL_GROUP
#define AL_GROUP 0
#endif
#ifndef AL_OBJ
#define AL_OBJ 40
#endif
#ifndef AL_OALIGN
#define AL_OALIGN 8
#endif
struct alignas(AL_OALIGN) Obj { unsigned char c[(AL_OBJ + AL_OALIGN - 1) / AL_OALIGN * AL_OALIGN]; };
struct alignas(8) Other { unsigned char c[104]; };
struct LeafLike { u64 x[5]; LeafLike* next_leaf; };
struct InnerLike { u64 x[7]; bool children_are_leaves; };
static u64 S0, G;
#if AL_KIND == 0
template <class T> using A = fc::HugePageAllocator<T>;
static A<Obj> fresh() { return A<Obj>(S0, false, G); }
static const bool counts = false, rebindShares = false;
#elif AL_KIND == 1
template <class T> using A = fc::MultiSizeHugePageAllocator<T>;
static A<Obj> fresh() { return fc::make_multi_size_hugepage_allocator<Obj>(S0, false, G); }
static const bool counts = true, rebindShares = true;
#else
template <class T> using A = fc::PolicyBasedHugePageAllocator<T, fc::TwoPoolPolicy>;
static A<Obj> fresh() { return A<Obj>(fc::TwoPoolPolicy(std::make_shared<fc::HugePagePool>(S0, false, G), std::make_shared<fc::HugePagePool>(S0, false, G))); }
static const bool counts = false, rebindShares = true;
#endif
static u64 minAlign(u64 own) { return AL_KIND == 1 || own > 64 ? own : 64; }
template <class T, class X> static Blk block(X& a, u64 n, const char* l) {
  T* r = a.allocate(n);
  Blk w = where(r, n * sizeof(T), l);
  vf_check(((uintptr_t)r & (minAlign(alignof(T)) - 1)) == 0, "allocator/allocate: aligned");
  return w;
}
static bool same(const Blk& a, const Blk& b) { return (a.r == b.r) & (a.off == b.off); }
static void end() {
  vf_check(vf_liveMaps() == 0, "allocator: every region is returned when the last allocator dies");
  vf_check(vf_heap_live() == 0, "allocator: no bookkeeping leaked");
}
#if AL_GROUP == 0
static void run() {
  vf_mapMode = 1;
  S0 = 4096; G = 1 << 20;
  {
    A<Obj> a = fresh();
    Blk b0 = block<Obj>(a, 1, "allocator/allocate: in bounds");
    u64 mark = vf_nondet_u64("content"), n = vf_nondet_u64("count"), maps = vf_nmaps, fails = vf_regFails, now;
    std::memcpy(at(b0), &mark, 8);
    Obj* r = nullptr;
    bool threw = false;
    try { r = a.allocate(n); } catch (const std::exception&) { threw = true; }
    if (threw) {
      vf_check(counts ? (n > (1ull << 38) / sizeof(Obj) / 2) : n > 1, "allocator/allocate: refused only when unsupported or out of memory");
      vf_check(counts || vf_nmaps == maps, "allocator/allocate: a refusal takes no memory");
      vf_cover("allocator: refused");
    } else if (!r) {
      vf_check(n == 0 && vf_nmaps == maps, "allocator/allocate: nothing only for nothing");
      a.deallocate(r, n);
    } else {
      vf_check(counts || n == 1, "allocator/allocate: unsupported counts are refused");
      vf_check(n <= ~0ull / sizeof(Obj), "allocator/allocate: overflowing counts are refused");
      Blk w = where(r, n * sizeof(Obj), "allocator/allocate: in bounds");
      vf_check(disjoint(w, b0), "allocator/allocate: disjoint from blocks in use");
      vf_check(((uintptr_t)r & (minAlign(alignof(Obj)) - 1)) == 0, "allocator/allocate: aligned");
      maps = vf_nmaps;
      a.deallocate(r, n);
      Blk w2 = where(a.allocate(n), n * sizeof(Obj), "allocator/allocate: in bounds");
      vf_check(same(w, w2) && vf_nmaps == maps, "allocator/deallocate: the block is recycled");
      vf_cover("allocator: recycled");
    }
    // releasing nothing is a no-op; an unsupported count is refused or ignored, never recycled
    a.deallocate(nullptr, n);
    a.deallocate((Obj*)at(b0), 0);
    Blk w3 = block<Obj>(a, 1, "allocator/allocate: in bounds");
    vf_check(disjoint(w3, b0), "allocator/allocate: disjoint from blocks in use");
    std::memcpy(&now, at(b0), 8);
    vf_check(now == mark, "allocator: the content of blocks in use is never touched");
  }
  end();
}
#else
// memory taken through x and released through y is served again to both
template <class T, class X, class Y> static void shares(X& x, Y& y) {
  Blk p = block<T>(x, 1, "allocator/allocate: in bounds");
  u64 maps = vf_nmaps;
  y.deallocate((T*)at(p), 1);
  Blk q = block<T>(y, 1, "allocator/allocate: in bounds");
  vf_check(same(p, q) && vf_nmaps == maps, "allocator/equality: equal allocators share storage");
  x.deallocate((T*)at(q), 1);
  Blk r = block<T>(x, 1, "allocator/allocate: in bounds");
  vf_check(same(p, r) && vf_nmaps == maps, "allocator/equality: equal allocators share storage");
  y.deallocate((T*)at(r), 1);
}
template <class X, class Y> static void equal(const X& x, const Y& y, bool want, const char* l) {
  vf_check((x == y) == want && (y == x) == want, l);
  vf_check((x != y) != want && (y != x) != want, l);
}
#if AL_KIND == 2
// whatever compares equal serves both element types from the same storage
template <class T, class U> static void implied(A<Obj>& a, A<Obj>& b) {
  A<T> x(a);
  A<U> y(b);
  bool e = x == y;
  vf_check(e == (y == x) && e != (x != y), "allocator/equality: symmetric");
  if (!e) return;
  A<T> t(y);
  A<U> u(x);
  shares<T>(x, t);
  shares<U>(y, u);
}
#endif
static void run() {
  vf_mapMode = 1;
  S0 = vf_nondet_u64("initial size"); G = vf_nondet_u64("growth size");
  vf_assume(S0 > 0); vf_assume(S0 <= 1ull << 38); vf_assume(G <= 1ull << 38);
  u64 op = vf_choose(AL_KIND == 2 ? 14 : 10, "op");
  {
    A<Obj> z = fresh();
    Blk keep;
    u64 mark = vf_nondet_u64("content"), now;
    {
      A<Obj> a = fresh();
      equal(a, a, true, "allocator/equality: reflexive");
      equal(a, z, false, "allocator/equality: separate pools are not equal");
      keep = block<Obj>(a, 1, "allocator/allocate: in bounds");
      std::memcpy(at(keep), &mark, 8);
      switch (op) {
        case 0: { A<Obj> c(a); equal(a, c, true, "allocator/copy: equal"); equal(c, z, false, "allocator/copy: equal"); shares<Obj>(a, c); shares<Obj>(c, a); vf_cover("allocator: copy"); break; }
        case 1: { A<Obj> c = fresh(); spec::assign(c, a); equal(a, c, true, "allocator/copy assignment: equal"); shares<Obj>(a, c); shares<Obj>(c, a); break; }
        case 2: { A<Obj> c(std::move(a)); equal(a, c, true, "allocator/move: moved-from allocators remain usable"); shares<Obj>(c, a); shares<Obj>(a, c); vf_cover("allocator: move"); break; }
        case 3: { A<Obj> c = fresh(); spec::assign(c, std::move(a)); equal(a, c, true, "allocator/move assignment: moved-from allocators remain usable"); shares<Obj>(c, a); shares<Obj>(a, c); break; }
        case 4: { A<Obj> c = std::allocator_traits<A<Obj>>::select_on_container_copy_construction(a); equal(a, c, true, "allocator/copy: equal"); shares<Obj>(a, c); break; }
        case 5: {  // conversion to another element type
          A<Other> o(a);
          bool eq = a == o;
          vf_check(eq == (o == a) && eq != (a != o) && eq != (o != a), "allocator/equality: symmetric");
          vf_check(eq == rebindShares, "allocator/conversion: shares storage as documented");
          Blk w = block<Other>(o, 1, "allocator/allocate: in bounds");
          vf_check(disjoint(w, keep), "allocator/allocate: disjoint from blocks in use");
          A<Obj> back(o);
          if (rebindShares) { equal(back, a, true, "allocator/conversion: there and back is equal"); shares<Obj>(a, back); shares<Obj>(back, a); }
          else if (back == a) shares<Obj>(a, back);
          A<Other> o2(o);
          equal(o, o2, true, "allocator/copy: equal");
          shares<Other>(o, o2);
          if (eq) {
            A<Other> o3(a);   // equal, hence interchangeable
            equal(o3, o, true, "allocator/conversion: equal");
            shares<Other>(o3, o);
          }
          vf_cover("allocator: conversion");
          break;
        }
        case 6: {  // conversions to node-like types
          A<LeafLike> l(a);
          A<InnerLike> i(a);
          bool li = l == i;
          vf_check(li == (i == l) && li != (l != i), "allocator/equality: symmetric");
          if (li) { A<LeafLike> l2(i); equal(l2, l, true, "allocator/conversion: equal"); shares<LeafLike>(l, l2); A<InnerLike> i2(l); equal(i2, i, true, "allocator/conversion: equal"); shares<InnerLike>(i, i2); }
          Blk wl = block<LeafLike>(l, 1, "allocator/allocate: in bounds"), wi = block<InnerLike>(i, 1, "allocator/allocate: in bounds");
          vf_check(disjoint(wl, wi) && disjoint(wl, keep) && disjoint(wi, keep), "allocator/allocate: disjoint from blocks in use");
          break;
        }
        case 7: { A<Obj>& r = a; spec::assign(a, r); shares<Obj>(a, r); A<Obj> c(a); spec::assign(a, std::move(r)); equal(a, c, true, "allocator/assignment: self-assignment changes nothing"); shares<Obj>(a, c); break; }
        case 8: { A<Obj> c(a), d(z), t(c); spec::assign(c, d); spec::assign(d, std::move(t)); equal(c, z, true, "allocator/swap"); equal(d, a, true, "allocator/swap"); shares<Obj>(c, z); shares<Obj>(d, a); break; }
        case 9: {  // storage outlives the allocator it was taken from as long as an equal one lives
          A<Obj>* h = new A<Obj>(a);
          A<Obj> c(*h);
          Blk w = block<Obj>(*h, 1, "allocator/allocate: in bounds");
          delete h;
          c.deallocate((Obj*)at(w), 1);
          Blk v = block<Obj>(c, 1, "allocator/allocate: in bounds");
          vf_check(same(w, v), "allocator/equality: equal allocators share storage");
          break;
        }
#if AL_KIND == 2
        default: {  // policies that share none, one or both of their pools
          const auto &pa = a.get_policy(), &pz = z.get_policy();
          A<Obj> m(fc::TwoPoolPolicy(op & 1 ? pa.leaf_pool_ : pz.leaf_pool_, op & 2 ? pa.internal_pool_ : pz.internal_pool_));
          implied<Obj, Obj>(a, m); implied<Obj, LeafLike>(a, m); implied<LeafLike, InnerLike>(a, m); implied<InnerLike, Obj>(a, m); implied<InnerLike, InnerLike>(a, m);
          implied<Obj, Obj>(m, z); implied<LeafLike, Obj>(m, z); implied<InnerLike, LeafLike>(m, z); implied<LeafLike, LeafLike>(m, z); implied<InnerLike, InnerLike>(m, z);
          vf_cover("allocator: mixed policies");
          break;
        }
#endif
      }
      std::memcpy(&now, at(keep), 8);
      vf_check(now == mark, "allocator: the content of blocks in use is never touched");
    }
    block<Obj>(z, 1, "allocator/allocate: in bounds");
  }
  end();
}
#endif
extern "C" void vf_main() { run(); }
