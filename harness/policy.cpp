// Routing contract of PolicyBasedHugePageAllocator over TwoPoolPolicy, for every kind of object type and every way of
// obtaining an allocator; pools by their contract.
#include "pol.h"
#include <fast_containers/btree.hpp>
namespace fc = kressler::fast_containers;
using u64 = uint64_t;
struct Plain { u64 x[3]; };
struct LeafLike { u64 x[5]; LeafLike* next_leaf; };
struct InnerLike { u64 x[7]; bool children_are_leaves; };
struct LeafBase { u64 x[9]; LeafBase* next_leaf; };
struct LeafDerived : LeafBase { u64 y[2]; };
struct alignas(256) InnerAligned { u64 x[13]; bool children_are_leaves; };
struct ConstLeaf { u64 x[17]; ConstLeaf* const next_leaf = nullptr; };
template <class T> using A = fc::PolicyBasedHugePageAllocator<T, fc::TwoPoolPolicy>;
template <class T> constexpr int kindOf() { return requires(T t) { t.next_leaf; } ? 1 : requires(T t) { t.children_are_leaves; } ? 2 : 1; }
static u64 used(int k) { return spec::routed[k]; }
template <class T, class X> static T* take(X& a) {
  u64 n = used(kindOf<T>()), o = used(3 - kindOf<T>());
  T* p = a.allocate(1);
  vf_check(used(kindOf<T>()) == n + 1 && used(3 - kindOf<T>()) == o, "policy/routing: objects come from their own pool");
  vf_check(((uintptr_t)p & (alignof(T) - 1)) == 0 && ((uintptr_t)p & 63) == 0, "policy/allocate: aligned");
  p->x[0] = 1; p->x[2] = 2;
  return p;
}
// every way of obtaining an allocator for T from an allocator for S; released through any equal one
template <class T, class S> static void via() {
  A<S> base(spec::policy(1));
  A<T> a(base);
  T *p = take<T>(a), *q = take<T>(a), *r = take<T>(a), *s = take<T>(a);
  A<T> c(a);
  vf_check(c == a, "policy/equality: copies share their pools");
  c.deallocate(p, 1);
  A<T> m(std::move(c));
  m.deallocate(q, 1);
  T* z = take<T>(c);
  A<T> o(spec::policy(2));
  vf_check(!(o == a) && o != a, "policy/equality: different pools are not equal");
  spec::assign(o, a);
  o.deallocate(r, 1);
  A<S> back(a);
  vf_check(back == base, "policy/equality: there and back is equal");
  A<T> again(back);
  again.deallocate(s, 1);
  typename A<S>::template rebind<T>::other reb(base);
  reb.deallocate(z, 1);
  a.deallocate(nullptr, 1);
  vf_check(a.allocate(0) == nullptr, "policy/allocate: nothing for nothing");
  vf_check(spec::taOut[1] == 0, "policy/routing: every block returned");
}
template <class T> static void from(u64 s) {
  switch (s) {
    case 0: via<T, Plain>(); break;
    case 1: via<T, LeafLike>(); break;
    case 2: via<T, InnerLike>(); break;
    default: via<T, std::pair<int, u64>>(); break;
  }
}
extern "C" void vf_main() {
  u64 t = vf_choose(8, "type"), s = vf_choose(4, "source type");
  spec::policy(1); spec::policy(2);
  switch (t) {
    case 0: from<Plain>(s); break;
    case 1: from<LeafLike>(s); break;
    case 2: from<InnerLike>(s); break;
    case 3: from<LeafBase>(s); break;
    case 4: from<LeafDerived>(s); break;
    case 5: from<InnerAligned>(s); break;
    case 6: from<ConstLeaf>(s); break;
    default: {  // the factory
      u64 ls = vf_nondet_u64("leaf size"), is = vf_nondet_u64("internal size"), lg = vf_nondet_u64("leaf growth"), ig = vf_nondet_u64("internal growth");
      bool h = vf_choose(2, "huge");
      auto a = fc::make_two_pool_allocator<int, u64>(ls, is, h, lg, ig);
      const auto& p = a.get_policy();
      vf_check(p.leaf_pool_ != p.internal_pool_ && p.leaf_pool_ && p.internal_pool_, "policy/factory: two pools");
      vf_check(p.leaf_pool_->initial_size() == ls && p.internal_pool_->initial_size() == is && p.leaf_pool_->growth_size() == lg && p.internal_pool_->growth_size() == ig && p.leaf_pool_->using_hugepages() == h && p.internal_pool_->using_hugepages() == h, "policy/factory: pools as configured");
      p.leaf_pool_->kind = 1; p.internal_pool_->kind = 2;
      A<InnerLike> i(a); A<LeafLike> l(a);
      InnerLike* x = take<InnerLike>(i); LeafLike* y = take<LeafLike>(l);
      i.deallocate(x, 1); l.deallocate(y, 1);
      vf_cover("policy: factory");
    }
  }
  vf_cover("policy: routed");
}
