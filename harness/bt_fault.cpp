// Failure contracts of the insertion family: when a node cannot be obtained, or building the value fails, the call
// reports it and the tree keeps its elements, its structure and its nodes.
#include "bt.h"
using namespace bt;
#ifndef BT_HMIN
#define BT_HMIN 0
#endif
#ifndef BT_HMAX
#define BT_HMAX 1
#endif
#ifndef BT_OPS
#define BT_OPS 0xffff
#endif
extern "C" void vf_main() {
  int h = BT_HMIN + (int)vf_choose(BT_HMAX - BT_HMIN + 1, "height");
  Raw r;
  Tree& t = *r;
  make(t, h);
  live0 = vf_heap_live();
  K q = spec::any<K>("q");
  uint64_t l[16], c = 0;
  for (uint64_t i = 0; i < 7; i++) if (BT_OPS >> i & 1) l[c++] = i;
  uint64_t op = l[vf_choose(c, "op")];
  // BT_THROW: the value type's c-th copy or construction throws; otherwise the c-th node allocation does.
  bool threw = false, ok = false;
#ifdef BT_THROW
  {
    V v = V::any("v");
    V::arm(1 + vf_choose(3, "failing copy"));
#else
  {
    V v = spec::any<V>("v");
    vf_fail_alloc(vf_choose(h + 3, "failing allocation"));
#endif
    try {
      switch (op) {
        case 0: t.insert(q, v); break;
        case 1: t.insert(typename Tree::value_type(q, v)); break;
        case 2: t.emplace(q, v); break;
        case 3: t.emplace_hint(t.end(), q, v); break;
        case 4: t.try_emplace(q, v); break;
        case 5: t.insert_or_assign(q, v); break;
        default: t[q]; v = V{}; break;
      }
      ok = true;
    } catch (const std::bad_alloc&) { threw = true; }
#ifdef BT_THROW
    catch (const spec::Boom&) { threw = true; }
    V::arm(0);
#else
    vf_fail_alloc(~0ull);
#endif
    Pos p = locate(q);
    Seq* s; { Scope sc; s = new Seq; }
    initial(*s, top);
    uint64_t j = seqIndex(*s, p);
    Walk* w = postWalk(t);
    if (threw) {
      compare(w, *s, KEEP, ~0ull, nullptr, nullptr);
      vf_check(t.size() == sizeVar, "btree failed insertion: size unchanged");
      vf_cover("btree failed insertion");
    } else {
      vf_check(ok, "btree failed insertion: reported");
      compare(w, *s, p.found ? (op == 5 ? ASSIGN : KEEP) : INSERT, j, &q, &v);
      vf_check(t.size() == sizeVar + (p.found ? 0 : 1), "btree failed insertion: size");
    }
  }
}
