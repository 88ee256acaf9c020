// Whole-object contracts of the B+ tree: copy, move, assignment, swap, clear, destruction, range construction, over
// arbitrary trees and allocators with identity.
#ifdef BT_POLICY
#define TA_POCMA true
#else
#include "ta.h"
#define BT_ALLOC spec::TA<std::pair<BT_KEY, BT_VAL>>
#define BT_NEWALLOC(id) (BT_ALLOC(id))
#endif
#ifndef BT_FULLH
#define BT_FULLH 0
#endif
#ifndef BT_MIDH
#define BT_MIDH 0
#endif
#include "bt.h"
using namespace bt;
using spec::taOut;
#ifndef BT_GROUP
#define BT_GROUP 0
#endif
#ifndef BT_HMAX
#define BT_HMAX 2
#endif
using Alloc = BT_ALLOC;
static Alloc theAlloc(uint64_t id) { return BT_NEWALLOC(id); }
struct Slot {   // storage for a tree whose lifetime the harness controls
  alignas(Tree) unsigned char buf[sizeof(Tree)];
  Tree& operator*() { return *(Tree*)buf; }
  Tree* operator->() { return (Tree*)buf; }
  void* raw() { return buf; }
};
static uint64_t reach, live;
static void is(Tree& t, Spec* s, const char* l) {
  if (s) sizeVar = s->size;
  Seq* q; { Scope sc; q = new Seq; }
  if (s) initial(*q, s->top);
  Walk* w = postWalk(t, false);
  reach += w->reach;
  compare(w, *q, KEEP, ~0ull, nullptr, nullptr);
  vf_check(t.size() == (s ? s->size : 0), l);
  if (!s || s->size == 0) {   // an empty tree is a single empty leaf
    vf_check(t.begin() == t.end() && t.empty(), l);
  }
}
// A tree left empty must be a working tree.
static void usable(Tree& t, const char* l) {
  K q = spec::any<K>("uq");
  V v = spec::any<V>("uv");
  auto r = t.insert(q, v);
  vf_check(r.second && t.size() == 1, l);
  auto f = t.find(q);
  if (f == t.end()) vf_fail(l);
  vf_check(spec::same(f->second, v), l);
  vf_check(t.begin() == f, l);
}
// Two trees of every shape; the second one shares the first one's allocator or has its own.
static Slot A, B, C;
static Spec *sa, *sb;
static uint64_t shape(const char* n, uint64_t lim) { return vf_choose(lim + 2, n); }   // 0: empty; 1+h: height h
static Spec* build(Slot& s, uint64_t alloc, uint64_t sh, uint64_t id) {
  new (s.raw()) Tree(theAlloc(alloc));
  return make(*s, sh ? (int)sh - 1 : 0, id, sh == 0);
}
static void account() { vf_check(reach + live == ghosts + vf_heap_live(), "btree/nodes: every node outside the trees released, none leaked or shared"); }
static void finish(bool c) {
  A->~Tree();
  B->~Tree();
  if (c) C->~Tree();
  vf_check(live == ghosts + vf_heap_live(), "btree/nodes: destruction releases every node");
  for (uint64_t i = 0; i < 8; i++) vf_check(taOut[i] == 0, "btree/nodes: destruction releases every node");
}
extern "C" void vf_main() {
#if BT_GROUP == 0      // constant-time transfers: the trees' contents stay opaque
  uint64_t op = vf_choose(5, "op");
  uint64_t shA = shape("shape", BT_HMAX), shB = op == 0 || op == 4 ? 0 : shape("shape", BT_HMAX), al = 1 + vf_choose(2, "second allocator");
  sa = build(A, 1, shA, 0);
  sb = build(B, al, shB, 1);
  live = vf_heap_live();
  bool c = false;
  if (!TA_POCMA && op == 1 && al == 2) return;   // element-wise: group 1
  switch (op) {
    case 0:
      new (C.raw()) Tree(std::move(*A));
      c = true;
      is(*C, sa, "btree(move)/the new tree has the content");
      is(*A, nullptr, "btree(move)/the source is empty");
      is(*B, sb, "btree(move)/other trees untouched");
      account();
      usable(*A, "btree(move)/the source is usable");
      vf_check(C->get_allocator() == theAlloc(1), "btree(move)/allocator moves along");
      vf_cover("btree(move)");
      break;
    case 1:
      *B = std::move(*A);
      is(*B, sa, "btree::operator=(move)/the target has the content");
      is(*A, nullptr, "btree::operator=(move)/the source is empty");
      account();
      usable(*A, "btree::operator=(move)/the source is usable");
      vf_cover("btree::operator=(move)");
      break;
    case 2:
      A->swap(*B);
      is(*B, sa, "btree::swap/contents exchanged");
      is(*A, sb, "btree::swap/contents exchanged");
      account();
      vf_cover("btree::swap");
      break;
    case 3: {
      uint64_t how = vf_choose(3, "self");
      Tree& a = *A;
      if (how == 0) a = a; else if (how == 1) a = std::move(a); else a.swap(a);
      is(a, sa, "btree/self-assignment changes nothing");
      is(*B, sb, "btree/self-assignment changes nothing");
      account();
      break;
    }
    default:
      A->clear();
      is(*A, nullptr, "btree::clear/empty");
      is(*B, sb, "btree::clear/other trees untouched");
      account();
      usable(*A, "btree::clear/the tree is usable");
      vf_cover("btree::clear");
  }
  finish(c);
#elif BT_GROUP == 1    // element-wise copies
  uint64_t op = vf_choose(TA_POCMA ? 2 : 3, "op");
  uint64_t shA = shape("shape", BT_HMAX), shB = op == 0 ? 0 : shape("shape", BT_HMAX), al = op == 2 ? 2 : 1 + vf_choose(2, "second allocator");
  sa = build(A, 1, shA, 0);
  sb = build(B, al, shB, 1);
  live = vf_heap_live();
  Walk* w;
  Seq* q;
  { Scope sc; q = new Seq; }
  Tree& dst = op == 0 ? *C : *B;
  switch (op) {
    case 0: new (C.raw()) Tree(*A); break;
    case 1: *B = *A; break;
    default: *B = std::move(*A);
  }
  if (!vf_symbolic() || sa->size) {}
  { Scope sc; initial(*q, sa->top); }
  // the copy: same entries, in nodes of its own
  w = postWalk(dst, false);
  reach += w->reach;
  bool same = w->s.n == q->n;
  vf_check(same, "btree copy/the copy has every element");
  bool all = true;
  if (same) for (uint64_t i = 0; i < q->n; i++) {
    if (w->s.it[i].tok || q->it[i].tok) { all = false; break; }
    all &= spec::same(*w->s.it[i].k, *q->it[i].k) & spec::same(*w->s.it[i].v, *q->it[i].v);
  }
  vf_check(all, "btree copy/the copy has every element");
  vf_check(dst.size() == q->n, "btree copy/size");
  if (op != 2) is(*A, sa, "btree copy/the source is unchanged");
  else { is(*A, nullptr, "btree::operator=(move)/the source is empty"); }
  if (op == 0) is(*B, sb, "btree copy/other trees untouched");
  account();
  usable(op == 2 ? *A : (A->clear(), *A), "btree copy/the source stays usable");
  vf_check(dst.size() == q->n, "btree copy/independent of the source");
  vf_cover("btree copy");
  if (op == 1) vf_check(B->get_allocator() == theAlloc(al), "btree copy/assignment keeps the allocator");
  finish(op == 0);
#elif BT_GROUP == 3    // copies that fail half-way: nothing leaked, the source unchanged
  uint64_t op = vf_choose(2, "op"), sh = shape("shape", BT_HMAX);
  sa = build(A, 1, sh, 0);
  sb = build(B, 2, op ? shape("shape", 0) : 0, 1);
  live = vf_heap_live();
  bool threw = false;
  vf_fail_alloc(vf_choose(7, "failing allocation"));
  try {
    if (op == 0) new (C.raw()) Tree(*A); else *B = *A;
  } catch (const std::bad_alloc&) { threw = true; }
  vf_fail_alloc(~0ull);
  is(*A, sa, "btree failed copy: the source is unchanged");
  if (op == 0) is(*B, sb, "btree failed copy: other trees untouched");
  else { Walk* w = postWalk(*B, false); reach += w->reach; }
  if (op == 0 && !threw) { Walk* w = postWalk(*C, false); reach += w->reach; }
  account();
  if (threw) vf_cover("btree failed copy");
  finish(op == 0 && !threw);
#else                  // construction from lists and ranges
  uint64_t m = vf_choose(BT_M + 1, "m");
  std::pair<K, V> el[BT_M + 1];
  for (uint64_t i = 0; i < m; i++) {
    el[i].first = spec::any<K>("k");
    el[i].second = spec::any<V>("v");
#ifdef BT_SORTED
    if (i) vf_assume(lt(BT_SORTED ? el[i - 1].first : el[i].first, BT_SORTED ? el[i].first : el[i - 1].first));
#endif
  }
  uint64_t how = vf_choose(2, "how");
  if (how == 0) new (A.raw()) Tree(el, el + m, theAlloc(1));
  else {
    std::initializer_list<std::pair<K, V>> il;
    struct Rep { const void* p; std::size_t n; } rep{el, m};
    static_assert(sizeof rep == sizeof il);
    std::memcpy((void*)&il, &rep, sizeof il);
    new (A.raw()) Tree(il, theAlloc(1));
  }
  // expected: the first occurrence of each key, in order
  Walk* w = postWalk(*A, false);
  uint64_t n = 0;
  bool order = true, all = true;
  for (uint64_t i = 0; i < w->s.n; i++) {
    if (i) order &= lt(*w->s.it[i - 1].k, *w->s.it[i].k);
    bool hit = false;
    for (uint64_t j = 0; j < m; j++) {
      bool first = true;
      for (uint64_t l = 0; l < j; l++) first &= !eqv(el[l].first, el[j].first);
      hit |= first & spec::same(el[j].first, *w->s.it[i].k) & spec::same(el[j].second, *w->s.it[i].v);
    }
    all &= hit;
  }
  for (uint64_t j = 0; j < m; j++) {
    bool first = true;
    for (uint64_t l = 0; l < j; l++) first &= !eqv(el[l].first, el[j].first);
    n += vf_ite(first, 1, 0);
  }
  vf_check(order, "btree(range)/sorted");
  vf_check(all, "btree(range)/each element is the first occurrence of its key");
  vf_check(w->s.n == n, "btree(range)/every key present");
  vf_check(A->size() == n, "btree(range)/size");
  vf_check(A->get_allocator() == theAlloc(1), "btree(range)/allocator");
  A->~Tree();
  vf_check(vf_heap_live() == 0 && taOut[1] == 0, "btree/nodes: destruction releases every node");
  vf_cover("btree(range)");
#endif
}
