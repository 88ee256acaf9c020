// Contract machinery for the B+ tree.
//
// Precondition of every operation: "this is any valid tree of height h" — every shape, fill, key and value.  The tree is
// supplied lazily: a node's contents come into existence (all fills, all contents, constrained only by the tree invariant)
// when the code under verification first touches it; subtrees never touched stay opaque and stand for every possible content.
// Postcondition: a walk over the resulting tree must meet exactly the expected sequence of entries and untouched subtrees,
// and every structural invariant must hold again.
#pragma once
#include <fast_containers/btree.hpp>
#include <memory>
#include <optional>
#include "res.h"

#ifndef BT_KEY
#define BT_KEY int64_t
#endif
#ifndef BT_VAL
#define BT_VAL uint64_t
#endif
#ifndef BT_CMP
#define BT_CMP std::less<BT_KEY>
#endif
#ifndef BT_NL
#define BT_NL 8
#endif
#ifndef BT_NI
#define BT_NI 8
#endif
#ifndef BT_MODE
#define BT_MODE Linear
#endif
#ifdef BT_POLICY
#include "pol.h"
#define BT_ALLOC kressler::fast_containers::PolicyBasedHugePageAllocator<std::pair<BT_KEY, BT_VAL>, kressler::fast_containers::TwoPoolPolicy>
#define BT_NEWALLOC(id) (BT_ALLOC(spec::policy(id)))
#elif defined(BT_TA)
#include "ta.h"
#define BT_ALLOC spec::TA<std::pair<BT_KEY, BT_VAL>>
#endif
#ifndef BT_ALLOC
#define BT_ALLOC std::allocator<std::pair<BT_KEY, BT_VAL>>
#endif
namespace fc = kressler::fast_containers;

namespace bt {
using K = BT_KEY;
using V = BT_VAL;
using Cmp = BT_CMP;
constexpr std::size_t NL = BT_NL, NI = BT_NI;
constexpr std::size_t NMAX = NL > NI ? NL : NI;
using Tree = fc::btree<K, V, NL, NI, Cmp, fc::SearchMode::BT_MODE, BT_ALLOC>;
using Leaf = typename Tree::leaf_node;
using Int = typename Tree::internal_node;
#ifdef BT_POLICY
static_assert(sizeof(Leaf) != sizeof(Int));
inline const bool fitsSet = (spec::fits = [](int kind, std::size_t n) { return n == (kind == 1 ? sizeof(Leaf) : sizeof(Int)); }, true);
#endif
constexpr std::size_t minL = (NL + 1) / 2 - (NL + 1) / 2 / 4, minI = (NI + 1) / 2 - (NI + 1) / 2 / 4;
template <class T> constexpr bool isDescending() { if constexpr (std::is_integral_v<T>) return Cmp{}(T(1), T(0)); else return false; }
constexpr bool descending = isDescending<K>();
// Some key equivalent to k (an element's key need not be the very object its separator was copied from).
template <class T> T equivalentOf(const T& k, uint64_t path) { if constexpr (requires { k.equivalent(path); }) return k.equivalent(path); else return k; }

inline bool lt(const K& a, const K& b) { return Cmp{}(a, b); }
inline bool eqv(const K& a, const K& b) { return !Cmp{}(a, b) & !Cmp{}(b, a); }
// indexed inputs
template <class T> T inAt(const char* n, uint64_t a, uint64_t b, uint64_t d) {
  if constexpr (std::is_integral_v<T>) { static_assert(sizeof(T) == 8); return (T)vf_nondet_u64_at(n, a, b, d); }
  else return T::at(n, a, b, d);
}
template <class T> uint64_t ordOf(const T& k) { if constexpr (std::is_integral_v<T>) return (uint64_t)k; else return (uint64_t)k.ord; }

struct G {             // specification record of one node of the initial tree
  int h = 0;           // 0: leaf
  bool root = false, open = false, attached = true, hasHi = false;
  G* up = nullptr;
  struct Spec* sp = nullptr;
  uint64_t path = 1;
  K min{}, hi{};
  Leaf* leaf = nullptr;
  Int* node = nullptr;
  G *first = nullptr, *last = nullptr;   // edge leaves of an internal node (itself for a leaf)
  uint64_t fill = 0;
  K k[NMAX]{};
  V v[NL]{};
  G* kid[NI]{};
};
struct Scope { Scope() { vf_ghost(1); } ~Scope() { vf_ghost(0); } };

// One arbitrary initial tree: its nodes come from copies of the tree's own allocators.
using LeafAlloc = typename std::allocator_traits<BT_ALLOC>::template rebind_alloc<Leaf>;
using IntAlloc = typename std::allocator_traits<BT_ALLOC>::template rebind_alloc<Int>;
struct Spec {
  G* top = nullptr;
  uint64_t size = 0;
  int height = 0;
  LeafAlloc la;
  IntAlloc ia;
  Spec(const LeafAlloc& l, const IntAlloc& i) : la(l), ia(i) {}
};
inline Spec* cur;
inline uint64_t ghosts, sizeVar;
inline G* top;

#ifndef BT_FULLH
#define BT_FULLH 1
#endif
#ifndef BT_MIDH
#define BT_MIDH 2
#endif
// Fill of a node of the initial tree: every admissible value in trees of height <= BT_FULLH, otherwise the values at which
// the code's decisions change (minimum, minimum + hysteresis, one more, capacity - 1, capacity; 2 and capacity for a root); above
// BT_MIDH only minimum and capacity (2 for a root).
inline uint64_t pickFill(int treeHeight, uint64_t lo, uint64_t mid, uint64_t N, bool leaf, bool root, uint64_t path) {
  if (treeHeight <= BT_FULLH) return lo + vf_choose_at(N + 1 - lo, "fill", path, 0);
#ifdef BT_LEAFLO   // leaves: minimum and capacity only
  if (leaf && !root) return vf_choose_at(2, "fill", path, 0) ? N : lo;
#endif
  if (treeHeight > BT_MIDH) return root || !vf_choose_at(2, "fill", path, 0) ? lo : N;
  uint64_t s[5] = {lo, mid, N > 10 ? mid + 1 : mid, N, N - 1}, n = 0, r[5];
  for (int i = 0; i < (root || !leaf ? 4 : 5); i++) {
    if (root && (i == 1 || i == 2)) continue;
    bool dup = false;
    for (uint64_t j = 0; j < n; j++) dup |= r[j] == s[i];
    if (!dup) r[n++] = s[i];
  }
  return r[vf_choose_at(n, "fill", path, 0)];
}
inline void openCb(void* g);
inline void settleSize(struct Spec* sp);
inline void attachCb(void* g);
inline uint64_t step(int h) { uint64_t r = 1024; while (h-- > 0) r *= 512; return r; }
inline uint64_t dfltKey(G* g, uint64_t i) {
  uint64_t lo = ordOf(g->min), d;
  if (g->hasHi) d = (descending ? lo - ordOf(g->hi) : ordOf(g->hi) - lo) / g->fill; else d = step(g->h);
  return descending ? lo - d * i : lo + d * i;
}
inline G* newG(int h, G* up) { G* g = new G; g->h = h; g->up = up; g->sp = up ? up->sp : cur; ghosts++; return g; }
inline G* newLeaf(G* up) {
  G* g = newG(0, up);
  g->leaf = new (std::to_address(g->sp->la.allocate(1))) Leaf();
  g->first = g->last = g;
  vf_tag(g->leaf, g);
  return g;
}
inline void lazyLeaf(G* g) { vf_lazy(&g->leaf->data, sizeof g->leaf->data, openCb, g); }
inline void lazyLinks(G* g, bool next, bool prev) {   // an edge leaf whose inner neighbour is still unknown
  if (!vf_symbolic()) return;
  g->attached = false;
  vf_lazy(&g->leaf->parent, sizeof(void*), attachCb, g);
  if (next) vf_lazy(&g->leaf->next_leaf, sizeof(void*), attachCb, g);
  if (prev) vf_lazy(&g->leaf->prev_leaf, sizeof(void*), attachCb, g);
}
inline void lazyInt(G* g) {
  if (g->h == 1) vf_lazy(&g->node->leaf_children, sizeof g->node->leaf_children, openCb, g);
  else vf_lazy(&g->node->internal_children, sizeof g->node->internal_children, openCb, g);
}
inline G* newInt(int h, G* up, G* first, G* last) {
  G* g = newG(h, up);
  g->node = new (std::to_address(g->sp->ia.allocate(1))) Int(h == 1);
  vf_tag(g->node, g);
  g->first = first; g->last = last;
  for (G** e : {&g->first, &g->last}) {
    if (*e) { (*e)->up = g; continue; }
    *e = newLeaf(g);
    lazyLinks(*e, e == &g->first, e == &g->last);
    if (vf_symbolic()) lazyLeaf(*e);
  }
  return g;
}
inline void link(G* a, G* b) { a->last->leaf->next_leaf = b->first->leaf; b->first->leaf->prev_leaf = a->last->leaf; }

inline void openNode(G* g) {
  if (g->open) return;
  spec::Pause pause;
  if (g->h == 0) {
    while (!g->attached) openNode(g->up);
    if (g->open) return;
    g->open = true;
    uint64_t lo = g->root ? 0 : minL;
    g->fill = pickFill(g->sp->height, lo, (NL + 1) / 2, NL, true, g->root, g->path);
    auto& d = g->leaf->data;
    for (uint64_t i = 0; i < g->fill; i++) {
      g->k[i] = i == 0 && !g->root ? equivalentOf(g->min, g->path) : inAt<K>("key", g->path, i, i == 0 ? 1000 : dfltKey(g, i));
      if (i == 0 && g->root) g->min = g->k[0];
      if (i) vf_assume(lt(g->k[i - 1], g->k[i]));
      g->v[i] = inAt<V>("val", g->path, i, g->path * 100 + i);
      d.insert_hint(d.end(), g->k[i], g->v[i]);
    }
    if (g->fill && g->hasHi) vf_assume(lt(g->k[g->fill - 1], g->hi));
    if (!g->root) settleSize(g->sp);
    return;
  }
  g->open = true;
  uint64_t lo = g->root ? 2 : minI;
  uint64_t f = g->fill = pickFill(g->sp->height, lo, (NI + 1) / 2, NI, false, g->root, g->path);
  for (uint64_t i = 0; i < f; i++) {
    if (i == 0) g->k[0] = g->min;
    else { g->k[i] = inAt<K>("sep", g->path, i, dfltKey(g, i)); vf_assume(lt(g->k[i - 1], g->k[i])); }
  }
  if (g->hasHi) vf_assume(lt(g->k[f - 1], g->hi));
  for (uint64_t i = 0; i < f; i++) {
    G* c;
    bool mid = i > 0 && i + 1 < f;
    if (g->h == 1) c = mid ? newLeaf(g) : i == 0 ? g->first : g->last;
    else c = newInt(g->h - 1, g, i == 0 ? g->first : nullptr, i + 1 == f ? g->last : nullptr);
    g->kid[i] = c;
    c->up = g;
    c->path = g->path * 16 + i;
    c->min = g->k[i];
    c->hasHi = i + 1 < f || g->hasHi;
    if (i + 1 < f) c->hi = g->k[i + 1]; else if (g->hasHi) c->hi = g->hi;
    c->attached = true;
  }
  for (uint64_t i = 0; i < f; i++) {
    G* c = g->kid[i];
    if (i + 1 < f) link(c, g->kid[i + 1]);
    if (g->h == 1) {
      c->leaf->parent = g->node;
      auto& m = g->node->leaf_children;
      m.insert_hint(m.end(), g->k[i], c->leaf);
      if (i > 0 && i + 1 < f) lazyLeaf(c);
      else if (!vf_symbolic()) lazyLeaf(c);
    } else {
      c->node->parent = g->node;
      auto& m = g->node->internal_children;
      m.insert_hint(m.end(), g->k[i], c->node);
      lazyInt(c);
    }
  }
  settleSize(g->sp);
}
// What is known about the number of elements: exact fills where opened, the admissible range elsewhere.
inline void sizeBounds(G* g, bool root, uint64_t& lo, uint64_t& hi) {
  if (g->open) {
    if (!g->h) { lo += g->fill; hi += g->fill; return; }
    for (uint64_t i = 0; i < g->fill; i++) sizeBounds(g->kid[i], false, lo, hi);
    return;
  }
  uint64_t a = g->h ? root ? 2 : minI : minL, b = g->h ? NI : NL;
  for (int i = g->h - 1; i >= 0; i--) { a *= i ? minI : minL; b *= i ? NI : NL; }
  lo += a; hi += b;
}
inline void settleSize(Spec* sp) {
  if (!vf_symbolic() || sp->height == 0) return;
  uint64_t lo = 0, hi = 0;
  sizeBounds(sp->top, true, lo, hi);
  vf_assume(sp->size >= lo);
  vf_assume(sp->size <= hi);
}
inline void openCb(void* p) { openNode((G*)p); }
inline void attachCb(void* p) { G* g = (G*)p; while (!g->attached) openNode(g->up); }
inline uint64_t countEntries(G* g) { if (!g->h) return g->fill; uint64_t n = 0; for (uint64_t i = 0; i < g->fill; i++) n += countEntries(g->kid[i]); return n; }

// Any valid tree of height h (0: a single leaf).
inline Spec* make(Tree& t, int h, uint64_t id = 0, bool empty = false) {
  Scope s;
  Spec* sp = cur = new Spec(t.leaf_alloc_, t.internal_alloc_);
  sp->height = h;
  Leaf* old = t.leaf_root_;
  old->~Leaf();
  sp->la.deallocate(old, 1);
  t.root_is_leaf_ = h == 0;
  G* g;
  uint64_t path = 1 + id;
  if (h == 0) {
    g = newLeaf(nullptr);
    t.leaf_root_ = g->leaf;
  } else {
    g = newInt(h, nullptr, nullptr, nullptr);
    t.internal_root_ = g->node;
    g->min = inAt<K>("sep", path, 0, 1000);
  }
  g->root = true;
  g->path = path;
  sp->top = top = g;
  t.leftmost_leaf_ = g->first->leaf;
  t.rightmost_leaf_ = g->last->leaf;
  if (h == 0) {
    if (empty) { g->open = true; } else openNode(g);
    sizeVar = g->fill;
  } else {
    lazyInt(g);
    if (vf_symbolic()) {
      sizeVar = vf_nondet_u64_at("size", id, 0, 1000);
    } else sizeVar = countEntries(g);
  }
  sp->size = sizeVar;
  settleSize(sp);
  t.size_ = sizeVar;
  return sp;
}

// ---- the abstract sequence: entries and untouched subtrees, in key order
struct Item { const K* k; const V* v; G* tok; const void* where; };
struct Seq {
  Item* it = nullptr;
  uint64_t n = 0, cap = 0;
  void add(const Item& x) {
    if (n == cap) {
      Scope s;
      uint64_t c = cap ? cap * 2 : 40;
      Item* m = (Item*)::operator new(c * sizeof(Item));
      for (uint64_t i = 0; i < n; i++) m[i] = it[i];
      it = m; cap = c;
    }
    it[n++] = x;
  }
  void entry(const K& k, const V& v, const void* w = nullptr) { add({&k, &v, nullptr, w}); }
  void token(G* g) { add({nullptr, nullptr, g, nullptr}); }
};
inline void initial(Seq& s, G* g) {
  if (!g->open) { s.token(g); return; }
  for (uint64_t i = 0; i < g->fill; i++) if (g->h) initial(s, g->kid[i]); else s.entry(g->k[i], g->v[i]);
}
// The leaf of the initial tree whose key range contains q, and q's position in it.
struct Pos { G* g; uint64_t i; bool found; };
inline Pos locate(const K& q) {
  Scope s;
  G* g = top;
  openNode(g);
  while (g->h) {
    uint64_t i = 0;
    while (i + 1 < g->fill && !lt(q, g->k[i + 1])) i++;
    g = g->kid[i];
    openNode(g);
  }
  uint64_t i = 0;
  while (i < g->fill && lt(g->k[i], q)) i++;
  return {g, i, i < g->fill && !lt(q, g->k[i])};
}
// Index in the (re-built) initial sequence of entry i of leaf g (i may be the leaf's fill).
inline uint64_t seqIndex(const Seq& s, const Pos& p) {
  if (p.i < p.g->fill) { for (uint64_t j = 0; j < s.n; j++) if (s.it[j].k == &p.g->k[p.i]) return j; }
  else if (p.g->fill) { for (uint64_t j = 0; j < s.n; j++) if (s.it[j].k == &p.g->k[p.g->fill - 1]) return j + 1; }
  else return 0;
  vf_fail("internal: sequence index");
}
// Makes the item following position j an entry (opens the untouched subtree there, if any).
inline void openAt(G* g) { Scope s; while (g->h) { openNode(g); g = g->kid[0]; } openNode(g); }
inline void openLastAt(G* g) { Scope s; while (g->h) { openNode(g); g = g->kid[g->fill - 1]; } openNode(g); }
inline void stepOpen(Seq& s, uint64_t j) {
  while (j < s.n && s.it[j].tok) { openAt(s.it[j].tok); s.n = 0; initial(s, top); }
}

// ---- walking the resulting tree: invariants and final sequence
struct Walk {
  Seq s;
  uint64_t reach = 0;                 // nodes of the tree
  Leaf* prevLeaf = nullptr;
  Leaf* firstLeaf = nullptr;
  bool fill = true, links = true, seps = true, depth = true, chain = true;
  static uint64_t sub(G* g) {         // nodes of an untouched subtree that already have identity
    if (!g->h) return 1;
    uint64_t n = 1;
    if (g->open) { for (uint64_t i = 0; i < g->fill; i++) n += sub(g->kid[i]); return n; }
    return 3;
  }
  void leafEdge(Leaf* a, Leaf* b) {
    chain &= a->prev_leaf == prevLeaf;
    if (prevLeaf) chain &= prevLeaf->next_leaf == a; else firstLeaf = a;
    prevLeaf = b;
  }
  const K* leaf(Leaf* l, Int* parent, bool root) {
    links &= l->parent == parent;
    G* g = (G*)vf_get_tag(l);
    if (g && !g->open) { s.token(g); reach += 1; leafEdge(l, l); return &g->min; }
    reach++;
    uint64_t n = l->data.size();
    fill &= n <= NL && (root || n >= minL);
    leafEdge(l, l);
    const K* mn = nullptr;
    if (n) mn = &l->data.begin()->first;
    auto it = l->data.begin();
    for (uint64_t i = 0; i < n; i++, ++it) s.entry(it->first, it->second, &it->second);
    return mn;
  }
  const K* node(Int* x, int h, Int* parent, bool root) {
    links &= x->parent == parent;
    G* g = (G*)vf_get_tag(x);
    depth &= x->children_are_leaves == (h == 1);
    if (x->children_are_leaves != (h == 1)) return nullptr;
    if (g && !g->open) { depth &= g->h == h; s.token(g); reach += sub(g); leafEdge(g->first->leaf, g->last->leaf); return &g->min; }
    reach++;
    const K* mn = nullptr;
    auto go = [&](auto& m) {
      uint64_t n = m.size();
      fill &= n <= NI && n >= (root ? 2 : minI);
      auto it = m.begin();
      for (uint64_t i = 0; i < n; i++, ++it) {
        const K* c;
        if constexpr (std::is_same_v<std::remove_cvref_t<decltype(it->second)>, Leaf*>) c = leaf(it->second, x, false);
        else c = node(it->second, h - 1, x, false);
        seps &= c != nullptr && eqv(*c, it->first);
        if (i == 0) mn = &it->first;
      }
    };
    if (h == 1) go(x->leaf_children); else go(x->internal_children);
    return mn;
  }
  static int height(Int* x) {
    int h = 1;
    while (!x->children_are_leaves) {
      if (G* g = (G*)vf_get_tag(x); g && !g->open) return g->h + h - 1;
      x = x->internal_children.begin()->second;
      h++;
    }
    return h;
  }
  void run(Tree& t) {
    Scope sc;
    if (t.root_is_leaf_) leaf(t.leaf_root_, nullptr, true);
    else node(t.internal_root_, height(t.internal_root_), nullptr, true);
    chain &= prevLeaf && prevLeaf->next_leaf == nullptr && t.leftmost_leaf_ == firstLeaf && t.rightmost_leaf_ == prevLeaf;
  }
};
inline uint64_t live0;
inline Walk* postWalk(Tree& t, bool account = true) {
  Walk* w;
  { Scope s; w = new Walk; }
  w->run(t);
  vf_check(w->depth, "btree/structure: all leaves at the same depth");
  vf_check(w->fill, "btree/structure: node fill between minimum and capacity");
  vf_check(w->seps, "btree/structure: separator equals the smallest key beneath it");
  vf_check(w->links, "btree/structure: parent links");
  vf_check(w->chain, "btree/structure: leaf chain and end links");
  if (account) vf_check(w->reach + live0 == ghosts + vf_heap_live(), "btree/nodes: every node outside the tree released, none leaked");
  return w;
}
// Expected content: the initial sequence with one entry inserted / removed / assigned.
enum Edit { KEEP, INSERT, ERASE, ASSIGN };
inline const void* compare(Walk* w, const Seq& s, Edit e, uint64_t at, const K* k, const V* v) {
  const void* where = nullptr;
  uint64_t n = s.n + (e == INSERT) - (e == ERASE);
  vf_check(w->s.n == n, "btree/content: number of elements");
  bool keys = true, vals = true, rest = true;
  uint64_t j = 0;
  for (uint64_t i = 0; i < w->s.n; i++) {
    const Item& a = w->s.it[i];
    if (e == INSERT && i == at) {
      if (a.tok) vf_fail("btree/content: inserted element");
      vf_check(spec::same(*a.k, *k) & spec::same(*a.v, *v), "btree/content: inserted element");
      where = a.where;
      continue;
    }
    if (e == ERASE && j == at) j++;
    const Item& b = s.it[j];
    if (a.tok != b.tok) { rest = false; break; }
    if (!a.tok) {
      keys &= spec::same(*a.k, *b.k);
      if (e == ASSIGN && j == at) { vf_check(spec::same(*a.v, *v), "btree/content: assigned element"); where = a.where; }
      else vals &= spec::same(*a.v, *b.v);
      if (e == KEEP && j == at) where = a.where;
      if (e == ERASE && i == at) where = a.where;
    }
    j++;
  }
  vf_check(rest & keys, "btree/content: every other element keeps its place");
  vf_check(vals, "btree/content: every other element keeps its value");
  return where;
}
struct Raw {   // a tree whose destructor is not run (its opaque part has no finite extent)
  alignas(Tree) unsigned char buf[sizeof(Tree)];
  Tree* t;
#ifdef BT_NEWALLOC
  Raw() : Raw(BT_NEWALLOC(1)) {}
#else
  template <class X = Tree> Raw() { t = new (buf) X(); }
#endif
  explicit Raw(const BT_ALLOC& a) { t = new (buf) Tree(a); }
  Tree* operator->() { return t; }
  Tree& operator*() { return *t; }
};
}  // namespace bt
