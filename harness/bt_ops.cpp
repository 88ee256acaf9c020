// Contracts of the public B+ tree operations.  BT_HMIN..BT_HMAX: tree heights; BT_GROUP: which operations.
#include "bt.h"
using namespace bt;
#ifndef BT_HMIN
#define BT_HMIN 0
#endif
#ifndef BT_HMAX
#define BT_HMAX 1
#endif
#ifndef BT_OPS
#define BT_OPS 0xffff
#endif
static uint64_t pickOp(uint64_t n) {
  uint64_t l[16], c = 0;
  for (uint64_t i = 0; i < n; i++) if (BT_OPS >> i & 1) l[c++] = i;
  return l[vf_choose(c, "op")];
}
// Where entry p of the (unchanged) tree is stored; past the end of a leaf means the first entry of the next one.
static const void* whereIs(Pos p) {
  Scope s;
  Leaf* l = p.g->leaf;
  uint64_t i = p.i;
  if (i >= p.g->fill) { l = l->next_leaf; i = 0; }
  if (!l) return nullptr;
  auto it = l->data.begin();
  while (i--) ++it;
  return &it->second;
}
static void compareAll(Tree& t) {
  Seq* s; { Scope sc; s = new Seq; }
  initial(*s, top);
  compare(postWalk(t), *s, KEEP, ~0ull, nullptr, nullptr);
}
static const void* addr(Tree::iterator it) { return &it->second; }
static void lookups(Tree& t, const K& q) {
  const Tree& ct = t;
  uint64_t op = pickOp(9);
  vf_freeze_heap(1);   // any write to a node fails the frame obligation
  vf_freeze(&t, 1);
  bool res = false, thrown = false;
  Tree::iterator it, it2;
  uint64_t cnt = 0;
  const V* pv = nullptr;
  switch (op) {
    case 0: it = t.find(q); break;
    case 1: it = ct.find(q); break;
    case 2: it = t.lower_bound(q); break;
    case 3: it = t.upper_bound(q); break;
    case 4: { auto r = t.equal_range(q); it = r.first; it2 = r.second; break; }
    case 5: cnt = t.count(q); break;
    case 6: res = t.contains(q); break;
    case 7: try { pv = &t.at(q); } catch (const std::out_of_range&) { thrown = true; } break;
    default: try { pv = &ct.at(q); } catch (const std::out_of_range&) { thrown = true; } break;
  }
  vf_freeze_heap(0);
  vf_freeze(&t, 0);
  Pos p = locate(q);
  vf_check(t.size() == sizeVar, "btree lookup: the tree is not changed");
  if (!vf_symbolic()) compareAll(t);
  Pos u = p;
  if (p.found) u.i++;
  auto isAt = [&](Tree::iterator i, Pos x, const char* l) {
    const void* w = whereIs(x);
    if (!w) vf_check(i == t.end(), l);
    else { if (i == t.end()) vf_fail(l); vf_check(addr(i) == w, l); }
  };
  auto isFound = [&](const char* l) { if (p.found) isAt(it, p, l); else vf_check(it == t.end(), l); };
  switch (op) {
    case 0: isFound("btree::find/result"); break;
    case 1: isFound("btree::find const/result"); break;
    case 2: isAt(it, p, "btree::lower_bound/result"); break;
    case 3: isAt(it, u, "btree::upper_bound/result"); break;
    case 4: isAt(it, p, "btree::equal_range/first"); isAt(it2, u, "btree::equal_range/second"); break;
    case 5: vf_check(cnt == (p.found ? 1u : 0u), "btree::count/result"); break;
    case 6: vf_check(res == p.found, "btree::contains/result"); break;
    default:
      vf_check(thrown == !p.found, "btree::at/throws exactly when the key is absent");
      if (!thrown && p.found) vf_check(pv == whereIs(p), "btree::at/result");
  }
  vf_cover(p.found ? "btree lookup: key present" : "btree lookup: key absent");
}
static void inserts(Tree& t, const K& q) {
  V v = spec::any<V>("v");
  uint64_t op = pickOp(9);
  bool ins = false;
  Tree::iterator it;
  V* pv = nullptr;
  bool assign = op == 5;
  switch (op) {
    case 0: { auto r = t.insert(q, v); it = r.first; ins = r.second; break; }
    case 1: { auto r = t.insert(typename Tree::value_type(q, v)); it = r.first; ins = r.second; break; }
    case 2: { auto r = t.emplace(q, v); it = r.first; ins = r.second; break; }
    case 3: it = t.emplace_hint(t.end(), q, v); break;
    case 4: { auto r = t.try_emplace(q, v); it = r.first; ins = r.second; break; }
    case 5: { auto r = t.insert_or_assign(q, v); it = r.first; ins = r.second; break; }
    case 6: pv = &t[q]; v = V{}; break;
    default: {   // any hint: the first element, the right place, any element
      K q2 = spec::any<K>("q2");
      uint64_t w = op == 8 ? 2 : vf_choose(2, "hint");
      typename Tree::iterator h = w == 0 ? t.begin() : w == 1 ? t.lower_bound(q) : t.find(q2);
      it = t.emplace_hint(h, q, v);
      op = 3;
    }
  }
  const void* got = pv ? (const void*)pv : addr(it);
  Pos p = locate(q);
  Seq* s; { Scope sc; s = new Seq; }
  initial(*s, top);
  uint64_t j = seqIndex(*s, p);
  Walk* w = postWalk(t);
  const void* where = compare(w, *s, p.found ? (assign ? ASSIGN : KEEP) : INSERT, j, &q, &v);
  vf_check(t.size() == sizeVar + (p.found ? 0 : 1), "btree insertion: size");
  if (op != 3 && op != 6) vf_check(ins == !p.found, "btree insertion: reports whether it inserted");
  vf_check(got == where, "btree insertion: returned position designates the key");
  if (!pv) vf_check(!(it == t.end()), "btree insertion: returned position designates the key");
  vf_cover(p.found ? "btree insertion: key present" : "btree insertion: key absent");
}
// The arguments of an insertion may refer to elements of the tree itself.
template <class V> static void aliased(Tree& t, const K& q) {
  K q2 = spec::any<K>("q2");
  Tree::iterator e = t.find(q2);
  if (e == t.end()) return;
  V& ref = e->second;
  V v = ref;
  K k = q;
  uint64_t op = pickOp(std::is_same_v<V, K> ? 5 : 3);
  bool ins = false;
  Tree::iterator it;
  switch (op) {
    case 0: { auto r = t.insert(q, ref); it = r.first; ins = r.second; break; }
    case 1: { auto r = t.insert_or_assign(q, ref); it = r.first; ins = r.second; break; }
    case 2: { auto r = t.try_emplace(q, ref); it = r.first; ins = r.second; break; }
    default:
      if constexpr (std::is_same_v<V, K>) {
        k = v;
        if (op == 3) { auto r = t.insert(ref, v); it = r.first; ins = r.second; }
        else { auto r = t.try_emplace(ref, v); it = r.first; ins = r.second; }
      }
  }
  const void* got = addr(it);
  Pos p = locate(k);
  Seq* s; { Scope sc; s = new Seq; }
  initial(*s, top);
  uint64_t j = seqIndex(*s, p);
  Walk* w = postWalk(t);
  const void* where = compare(w, *s, p.found ? (op == 1 ? ASSIGN : KEEP) : INSERT, j, &k, &v);
  vf_check(t.size() == sizeVar + (p.found ? 0 : 1), "btree aliased insertion: size");
  vf_check(ins == !p.found, "btree aliased insertion: reports whether it inserted");
  vf_check(got == where, "btree aliased insertion: returned position designates the key");
  vf_cover("btree aliased insertion");
}
// Arguments given up by the caller: an insertion that inserts nothing must leave them alone (try_emplace).
template <class V> static void rvalues(Tree& t, const K& q) {
  V v = spec::any<V>("v"), w = v;
  vf_assume(v.x != ~0ull);
  uint64_t op = pickOp(4);
  bool ins = false;
  Tree::iterator it;
  switch (op) {
    case 0: { auto r = t.try_emplace(q, std::move(w)); it = r.first; ins = r.second; break; }
    case 1: { auto r = t.insert_or_assign(q, std::move(w)); it = r.first; ins = r.second; break; }
    case 2: { auto r = t.emplace(q, std::move(w)); it = r.first; ins = r.second; break; }
    default: it = t.emplace_hint(t.end(), q, std::move(w)); break;
  }
  const void* got = addr(it);
  Pos p = locate(q);
  Seq* s; { Scope sc; s = new Seq; }
  initial(*s, top);
  uint64_t j = seqIndex(*s, p);
  Walk* wk = postWalk(t);
  const void* where = compare(wk, *s, p.found ? (op == 1 ? ASSIGN : KEEP) : INSERT, j, &q, &v);
  vf_check(t.size() == sizeVar + (p.found ? 0 : 1), "btree insertion: size");
  if (op != 3) vf_check(ins == !p.found, "btree insertion: reports whether it inserted");
  vf_check(got == where, "btree insertion: returned position designates the key");
  if (op == 0 && p.found) vf_check(spec::same(w, v), "btree insertion: try_emplace leaves its arguments alone when the key is present");
  vf_cover("btree rvalue insertion");
}
static void erases(Tree& t, const K& q) {
  uint64_t op = pickOp(2);
  uint64_t cnt = 0;
  Tree::iterator it;
  bool end = false;
  if (op == 0) cnt = t.erase(q);
  else {
    it = t.find(q);
    if (it == t.end()) return;
    it = t.erase(it);
    end = it == t.end();
  }
  const void* got = op == 1 && !end ? addr(it) : nullptr;
  Pos p = locate(q);
  Seq* s; { Scope sc; s = new Seq; }
  initial(*s, top);
  uint64_t j = seqIndex(*s, p);
  if (op == 1) stepOpen(*s, j + 1);
  Walk* w = postWalk(t);
  const void* where = compare(w, *s, p.found ? ERASE : KEEP, j, nullptr, nullptr);
  vf_check(t.size() == sizeVar - (p.found ? 1 : 0), "btree::erase/size");
  if (op == 0) vf_check(cnt == (p.found ? 1u : 0u), "btree::erase(key)/count");
  else if (p.found) {
    if (j >= w->s.n) vf_check(end, "btree::erase(iterator)/returned position");
    else { if (end) vf_fail("btree::erase(iterator)/returned position"); vf_check(got == where, "btree::erase(iterator)/returned position"); }
  }
  vf_cover(p.found ? "btree::erase: key present" : "btree::erase: key absent");
}
extern "C" void vf_main() {
  int h = BT_HMIN + (int)vf_choose(BT_HMAX - BT_HMIN + 1, "height");
  Raw r;
  make(*r, h);
  live0 = vf_heap_live();
  K q = spec::any<K>("q");
#if BT_GROUP == 0
  lookups(*r, q);
#elif BT_GROUP == 1
  inserts(*r, q);
#elif BT_GROUP == 3
  aliased<V>(*r, q);
#elif BT_GROUP == 4
  rvalues<V>(*r, q);
#else
  erases(*r, q);
#endif
}
