// Contracts of the iterators: every single step from every position of an arbitrary valid tree, the end positions,
// dereferencing, writing through, comparison; and range erasure.  BT_GROUP 0: steps, 1: whole traversals, 2: range erasure.
#include "bt.h"
using namespace bt;
#ifndef BT_HMIN
#define BT_HMIN 0
#endif
#ifndef BT_HMAX
#define BT_HMAX 1
#endif
#ifndef BT_OPS
#define BT_OPS 0xffff
#endif
#ifndef BT_LEN
#define BT_LEN 3
#endif
static uint64_t pickOp(uint64_t n) {
  uint64_t l[32], c = 0;
  for (uint64_t i = 0; i < n; i++) if (BT_OPS >> i & 1) l[c++] = i;
  return l[vf_choose(c, "op")];
}
using It = Tree::iterator;
using Rit = Tree::reverse_iterator;
// The entry after / before p in key order; g == nullptr: none.
static G* leafAfter(G* g) { Scope s; while (!g->attached) openNode(g->up); while (g->up) { G* u = g->up; for (uint64_t i = 0; i + 1 < u->fill; i++) if (u->kid[i] == g) { G* n = u->kid[i + 1]; while (n->h) { openNode(n); n = n->kid[0]; } openNode(n); return n; } g = u; } return nullptr; }
static G* leafBefore(G* g) { Scope s; while (!g->attached) openNode(g->up); while (g->up) { G* u = g->up; for (uint64_t i = 1; i < u->fill; i++) if (u->kid[i] == g) { G* n = u->kid[i - 1]; while (n->h) { openNode(n); n = n->kid[n->fill - 1]; } openNode(n); return n; } g = u; } return nullptr; }
static Pos after(Pos p) { if (p.i + 1 < p.g->fill) return {p.g, p.i + 1, true}; return {leafAfter(p.g), 0, true}; }
static Pos before(Pos p) { if (p.i) return {p.g, p.i - 1, true}; G* g = leafBefore(p.g); return {g, g ? g->fill - 1 : 0, true}; }
static Pos firstPos() { Scope s; G* g = top; while (g->h) { openNode(g); g = g->kid[0]; } openNode(g); return {g->fill ? g : nullptr, 0, true}; }
static Pos lastPos() { Scope s; G* g = top; while (g->h) { openNode(g); g = g->kid[g->fill - 1]; } openNode(g); return {g->fill ? g : nullptr, g->fill ? g->fill - 1 : 0, true}; }
static const V* whereIs(Pos p) {
  Scope s;
  auto it = p.g->leaf->data.begin();
  for (uint64_t i = 0; i < p.i; i++) ++it;
  return &it->second;
}
template <class I> static void isAt(const I& i, Pos p, const I& end, const char* l) {
  if (!p.g) { vf_check(i == end && !(i != end), l); return; }
  if (i == end) vf_fail(l);
  vf_check(&i->second == whereIs(p), l);
  vf_check(&(*i).second == whereIs(p), l);
  vf_check(spec::same(i->first, p.g->k[p.i]) & spec::same((*i).second, p.g->v[p.i]), l);
}
static void unchanged(Tree& t) {
  Seq* s; { Scope sc; s = new Seq; }
  initial(*s, top);
  compare(postWalk(t), *s, KEEP, ~0ull, nullptr, nullptr);
  vf_check(t.size() == sizeVar, "btree iterator/the tree is not changed");
}
static Rit reverseAt(Tree& t, It i) { return Rit(&t, i.leaf_node_, *i.leaf_it_); }
static void steps(Tree& t) {
  uint64_t op = pickOp(19);
  const Tree& c = t;
  if (op < 6) {            // the ends
    if (op >= 4 && t.empty()) return;
    vf_freeze_heap(1);
    switch (op) {
      case 0: {
        It b = t.begin(), cb = c.begin(), cc = t.cbegin();
        vf_freeze_heap(0);
        Pos p = firstPos();
        isAt(b, p, t.end(), "btree iterator/begin");
        isAt(cb, p, c.end(), "btree iterator/begin");
        isAt(cc, p, t.cend(), "btree iterator/begin");
        vf_check(c.end() == t.end() && t.cend() == t.end(), "btree iterator/end");
        break;
      }
      case 1: {
        Rit b = t.rbegin(), cb = c.rbegin(), cc = t.crbegin();
        vf_freeze_heap(0);
        Pos p = lastPos();
        isAt(b, p, t.rend(), "btree iterator/rbegin");
        isAt(cb, p, c.rend(), "btree iterator/rbegin");
        isAt(cc, p, t.crend(), "btree iterator/rbegin");
        vf_check(c.rend() == t.rend() && t.crend() == t.rend(), "btree iterator/rend");
        break;
      }
      case 2: vf_check((t.begin() == t.end()) == (sizeVar == 0), "btree iterator/begin equals end exactly when empty"); break;
      case 3: vf_check((t.rbegin() == t.rend()) == (sizeVar == 0), "btree iterator/begin equals end exactly when empty"); break;
      case 4: {
        It e = t.end(), f = c.end();
        --e;
        It old = f--;
        vf_freeze_heap(0);
        vf_check(old == t.end(), "btree iterator/step back from end");
        isAt(e, lastPos(), t.end(), "btree iterator/step back from end");
        isAt(f, lastPos(), t.end(), "btree iterator/step back from end");
        break;
      }
      default: {
        Rit e = t.rend(), f = c.rend();
        --e;
        Rit old = f--;
        vf_freeze_heap(0);
        vf_check(old == t.rend(), "btree iterator/step back from rend");
        isAt(e, firstPos(), t.rend(), "btree iterator/step back from rend");
        isAt(f, firstPos(), t.rend(), "btree iterator/step back from rend");
      }
    }
    vf_freeze_heap(0);
    unchanged(t);
    vf_cover("btree iterator: ends");
    return;
  }
  // any position: found by key
  K q = spec::any<K>("q");
  It at = t.find(q);
  if (at == t.end()) return;
  Pos p = locate(q);
  V v = spec::any<V>("v");
  vf_freeze_heap(op < 15);
  It i = at, j = at;
  switch (op) {
    case 6: { It& r = ++i; vf_freeze_heap(0); vf_check(&r == &i, "btree iterator/increment"); isAt(i, after(p), t.end(), "btree iterator/increment"); break; }
    case 7: { It o = i++; vf_freeze_heap(0); isAt(o, p, t.end(), "btree iterator/increment"); isAt(i, after(p), t.end(), "btree iterator/increment"); break; }
    case 8: case 9: {
      bool first = at == t.begin();
      vf_freeze_heap(0);
      vf_check(first == !before(p).g, "btree iterator/begin");
      if (first) return;
      vf_freeze_heap(1);
      if (op == 8) { --i; } else { It o = i--; vf_freeze_heap(0); isAt(o, p, t.end(), "btree iterator/decrement"); }
      vf_freeze_heap(0);
      isAt(i, before(p), t.end(), "btree iterator/decrement");
      break;
    }
    case 10: { Rit r = reverseAt(t, at); ++r; vf_freeze_heap(0); isAt(r, before(p), t.rend(), "btree reverse iterator/increment"); break; }
    case 11: { Rit r = reverseAt(t, at); Rit o = r++; vf_freeze_heap(0); isAt(o, p, t.rend(), "btree reverse iterator/increment"); isAt(r, before(p), t.rend(), "btree reverse iterator/increment"); break; }
    case 12: case 13: {
      Rit r = reverseAt(t, at);
      bool last = r == t.rbegin();
      vf_freeze_heap(0);
      vf_check(last == !after(p).g, "btree reverse iterator/rbegin");
      if (last) return;
      vf_freeze_heap(1);
      if (op == 12) { --r; } else { Rit o = r--; vf_freeze_heap(0); isAt(o, p, t.rend(), "btree reverse iterator/decrement"); }
      vf_freeze_heap(0);
      isAt(r, after(p), t.rend(), "btree reverse iterator/decrement");
      break;
    }
    case 14: {
      K q2 = spec::any<K>("q2");
      It b = t.find(q2);
      bool e = at == b, n = at != b;
      vf_freeze_heap(0);
      Pos p2 = locate(q2);
      bool same = p2.found && p2.g == p.g && p2.i == p.i;
      vf_check(e == same && n == !same, "btree iterator/equality");
      if (p2.found) {
        Rit ra = reverseAt(t, at), rb = reverseAt(t, b);
        vf_check((ra == rb) == same && (ra != rb) == !same, "btree reverse iterator/equality");
      }
      break;
    }
    default: {               // writing through an iterator changes that value and nothing else
      if (op == 15) at->second = v;
      else if (op == 16) (*at).second = v;
      else if (op == 17) reverseAt(t, at)->second = v;
      else (*reverseAt(t, at)).second = v;
      Seq* s; { Scope sc; s = new Seq; }
      initial(*s, top);
      compare(postWalk(t), *s, ASSIGN, seqIndex(*s, p), nullptr, &v);
      vf_check(t.size() == sizeVar, "btree iterator/write changes only the value");
      vf_cover("btree iterator: write");
      return;
    }
  }
  unchanged(t);
  vf_cover("btree iterator: step");
}
// Whole traversals (the induction over single steps, unrolled on small trees)
static void traversals(Tree& t) {
  uint64_t op = pickOp(4);
  Seq* s; { Scope sc; s = new Seq; }
  auto visit = [&](const K& k, const V& v) { Scope sc; s->entry(k, v); };
  uint64_t n = 0;
  vf_freeze_heap(1);
  switch (op) {
    case 0: for (auto it = t.begin(); it != t.end(); ++it) visit(it->first, it->second); break;
    case 1: for (auto it = t.end(); it != t.begin();) { --it; visit(it->first, it->second); } break;
    case 2: for (auto it = t.rbegin(); it != t.rend(); ++it) visit(it->first, it->second); break;
    default: for (auto it = t.rend(); it != t.rbegin();) { --it; visit(it->first, it->second); }
  }
  vf_freeze_heap(0);
  Seq* e; { Scope sc; e = new Seq; }
  initial(*e, top);
  vf_check(e->n == s->n, "btree iterator/traversal visits every element once");
  bool all = true;
  for (; n < e->n; n++) {
    const Item &a = s->it[op == 0 || op == 3 ? n : e->n - 1 - n], &b = e->it[n];
    if (b.tok) vf_fail("btree iterator/traversal visits every element once");
    all &= spec::same(*a.k, *b.k) & spec::same(*a.v, *b.v);
  }
  vf_check(all, "btree iterator/traversal visits every element once");
  vf_check(t.size() == e->n, "btree iterator/traversal visits every element once");
  vf_cover("btree iterator: traversal");
}
// erase(first, last): [first, last) goes, everything else stays, the returned position is last
static void rangeErase(Tree& t) {
  K q = spec::any<K>("q");
  uint64_t len = vf_choose(BT_LEN + 2, "length");   // BT_LEN + 1: up to the end of the tree (small trees only)
  if (len == BT_LEN + 1 && BT_HMAX > BT_FULLH) return;
  It first = t.find(q);
  bool none = first == t.end();
  if (none && len) return;
  Pos p = locate(q);
  It last = first;
  if (len == BT_LEN + 1) last = t.end();
  else for (uint64_t i = 0; i < len; i++) { if (last == t.end()) return; ++last; }
  bool toEnd = last == t.end();
  const K* stop = nullptr;
  It ret = t.erase(first, last);
  bool end = ret == t.end();
  const void* got = end ? nullptr : &ret->second;
  Seq* s; { Scope sc; s = new Seq; }
  initial(*s, top);
  uint64_t n = 0, j = 0;
  if (!none) {
    j = seqIndex(*s, p);
    if (toEnd) n = s->n - j; else { n = len; stepOpen(*s, j + n); j = seqIndex(*s, p); }
    for (uint64_t i = 0; i < n; i++) if (s->it[j + i].tok) vf_fail("internal: erased element not opened");
  }
  // the expected sequence
  for (uint64_t i = j + n; i < s->n; i++) s->it[i - n] = s->it[i];
  s->n -= n;
  Walk* w = postWalk(t);
  const void* where = compare(w, *s, KEEP, j < s->n && !none ? j : ~0ull, nullptr, nullptr);
  vf_check(t.size() == sizeVar - n, "btree::erase(range)/size");
  if (none || j >= s->n) vf_check(end, "btree::erase(range)/returned position");
  else { if (end) vf_fail("btree::erase(range)/returned position"); vf_check(got == where, "btree::erase(range)/returned position"); }
  vf_cover("btree::erase(range)");
  if (n > 1) vf_cover("btree::erase(range): several elements");
}
extern "C" void vf_main() {
  int h = BT_HMIN + (int)vf_choose(BT_HMAX - BT_HMIN + 1, "height");
  Raw r;
  make(*r, h);
  live0 = vf_heap_live();
#if BT_GROUP == 0
  steps(*r);
#elif BT_GROUP == 1
  traversals(*r);
#else
  rangeErase(*r);
#endif
}
