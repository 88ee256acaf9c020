#include "solver.h"
#include <algorithm>
#include <chrono>
#include <functional>
#include <map>
#include <tuple>
#include <z3++.h>

// ---------------------------------------------------------------- order graph
int PCData::nodeOf(E* e, int kind, bool create) {
  u64 key = (u64)e->id * 4 + kind;
  auto it = node.find(key);
  if (it != node.end()) return it->second;
  if (!create) return -1;
  int n = head.size();
  head.push_back(-1);
  node.emplace(key, n);
  if (isC(e)) {
    for (auto& [m, o] : constNodes[kind]) {
      if (o->w != e->w) continue;
      bool lt;
      if (kind == 0) lt = e->c < o->c; else if (kind == 1) lt = sx(e->c, e->w) < sx(o->c, o->w); else lt = evalOp(FLT, 1, e->c, o->c, e->w);
      bool gt;
      if (kind == 0) gt = e->c > o->c; else if (kind == 1) gt = sx(e->c, e->w) > sx(o->c, o->w); else gt = evalOp(FLT, 1, o->c, e->c, e->w);
      if (lt) addEdge(n, m, true);
      if (gt) addEdge(m, n, true);
    }
    constNodes[kind].push_back({n, e});
  }
  return n;
}

static std::vector<int> visEpoch;   // per node: epoch*2+strictSeen
static std::vector<int> stackv;
static int epoch = 0;
bool PCData::reach(int a, int b, bool needStrict) const {
  if (a < 0 || b < 0) return false;
  if (a == b && !needStrict) return true;
  if (visEpoch.size() < head.size()) visEpoch.resize(head.size() * 2 + 16, 0);
  epoch += 2;
  // visEpoch[n] == epoch : reached non-strictly ; epoch+1 : reached strictly
  stackv.clear();
  visEpoch[a] = epoch;
  stackv.push_back(a * 2);
  while (!stackv.empty()) {
    int x = stackv.back(); stackv.pop_back();
    int n = x >> 1; bool st = x & 1;
    if (!st && visEpoch[n] == epoch + 1) continue;  // superseded
    for (int i = head[n]; i >= 0; i = edges[i].next) {
      bool ns = st || edges[i].strict;
      int t = edges[i].to;
      if (t == b && (ns || !needStrict)) return true;
      int cur = visEpoch[t];
      if (cur == epoch + 1 || (cur == epoch && !ns)) continue;
      visEpoch[t] = ns ? epoch + 1 : epoch;
      stackv.push_back(t * 2 + ns);
    }
  }
  return false;
}

int PCData::lessThan(E* a, E* b, int kind) const {  // 1: a<b implied; 0: not(a<b) implied
  auto* self = const_cast<PCData*>(this);
  int na = self->nodeOf(a, kind, isC(a)), nb = self->nodeOf(b, kind, isC(b));
  if (na < 0 || nb < 0) return -1;
  if (reach(na, nb, true)) return 1;
  if (reach(nb, na, false)) return 0;
  return -1;
}

void PCData::addOrder(E* a, E* b, int kind, bool strict) {  // a < b or a <= b
  int na = nodeOf(a, kind, true), nb = nodeOf(b, kind, true);
  if (!strict) { E* eq = mkEq(a, b); if (ids.count(mkNot(eq)->id)) strict = true; }
  addEdge(na, nb, strict);
}

void PCData::add(E* e) {
  if (isTrue(e)) return;
  if (isFalse(e)) { contradictory = true; list.push_back(e); return; }
  if (!ids.insert(e->id).second) return;
  if (e->op == AND && e->w == 1) { add(e->a); add(e->b); return; }
  list.push_back(e);
  switch (e->op) {
    case ULT: addOrder(e->a, e->b, 0, true); break;
    case SLT: addOrder(e->a, e->b, 1, true); break;
    case FLT: addOrder(e->a, e->b, 2, true); nonnan.insert(e->a->id); nonnan.insert(e->b->id); break;
    case FEQ: nonnan.insert(e->a->id); nonnan.insert(e->b->id);
      addOrder(e->a, e->b, 2, false); addOrder(e->b, e->a, 2, false); break;
    case EQ:
      if (isC(e->b)) eqc[e->a->id] = e->b;
      if (e->a->w > 1) for (int k = 0; k < 2; k++) { addOrder(e->a, e->b, k, false); addOrder(e->b, e->a, k, false); }
      break;
    case VAR: break;
    case NOT: {
      E* n = e->a;
      if (n->op == ULT) addOrder(n->b, n->a, 0, false);
      else if (n->op == SLT) addOrder(n->b, n->a, 1, false);
      else if (n->op == FNAN) nonnan.insert(n->a->id);
      else if (n->op == FLT) { if ((nonnan.count(n->a->id) || isC(n->a)) && (nonnan.count(n->b->id) || isC(n->b))) addOrder(n->b, n->a, 2, false); }
      else if (n->op == EQ) {
        diseq.push_back(e);
        for (int k = 0; k < 2; k++) {
          int na = nodeOf(n->a, k, isC(n->a)), nb = nodeOf(n->b, k, isC(n->b));
          if (na < 0 || nb < 0) continue;
          if (reach(na, nb, false)) addEdge(na, nb, true);
          else if (reach(nb, na, false)) addEdge(nb, na, true);
        }
      }
      break;
    }
    default: break;
  }
  if (e->w == 1 && e->op != NOT) eqc[e->id] = T();
  if (e->op == NOT) eqc[e->a->id] = F();
}

int PCData::implied(E* e, int depth) const {
  if (isC(e)) return e->c ? 1 : 0;
  if (ids.count(e->id)) return 1;
  if (e->op == NOT) { int r = implied(e->a, depth); return r < 0 ? -1 : !r; }
  {
    auto it = eqc.find(e->id);
    if (it != eqc.end()) return it->second->c ? 1 : 0;
  }
  if (depth == 0) return -1;
  switch (e->op) {
    case ULT: { int r = lessThan(e->a, e->b, 0); if (r >= 0) return r; break; }
    case SLT: { int r = lessThan(e->a, e->b, 1); if (r >= 0) return r; break; }
    case FLT: { int r = lessThan(e->a, e->b, 2); if (r >= 0) return r; break; }
    case FNAN: if (nonnan.count(e->a->id)) return 0; break;
    case FEQ: {
      auto* self = const_cast<PCData*>(this);
      int na = self->nodeOf(e->a, 2, isC(e->a)), nb = self->nodeOf(e->b, 2, isC(e->b));
      if (reach(na, nb, true) || reach(nb, na, true)) return 0;
      if (reach(na, nb, false) && reach(nb, na, false)) return 1;
      if (e->a == e->b && nonnan.count(e->a->id)) return 1;
      break;
    }
    case EQ:
      if (e->a->w > 1) {
        auto* self = const_cast<PCData*>(this);
        for (int k = 0; k < 2; k++) {
          int na = self->nodeOf(e->a, k, isC(e->a)), nb = self->nodeOf(e->b, k, isC(e->b));
          if (na < 0 || nb < 0) continue;
          if (reach(na, nb, true) || reach(nb, na, true)) return 0;
          if (reach(na, nb, false) && reach(nb, na, false)) return 1;
        }
      }
      break;
    case AND: {
      int x = implied(e->a, depth - 1);
      if (x == 0) return 0;
      int y = implied(e->b, depth - 1);
      if (y == 0) return 0;
      if (x == 1 && y == 1) return 1;
      return -1;
    }
    case ITE: {
      int c = implied(e->a, depth - 1);
      if (c == 1) return implied(e->b, depth - 1);
      if (c == 0) return implied(e->d, depth - 1);
      int x = implied(e->b, depth - 1), y = implied(e->d, depth - 1);
      return x == y ? x : -1;
    }
    case XOR: {
      int x = implied(e->a, depth - 1), y = implied(e->b, depth - 1);
      if (x >= 0 && y >= 0) return x ^ y;
      return -1;
    }
    default: break;
  }
  return -1;
}

E* PCData::simp(E* e, std::unordered_map<u32, E*>& memo) const {
  if (isC(e)) return e;
  auto q = eqc.find(e->id);
  if (q != eqc.end()) return q->second;
  if (e->op == VAR) return e;
  auto it = memo.find(e->id);
  if (it != memo.end()) return it->second;
  E* r = e;
  if (e->w == 1) {
    int im = implied(e);
    if (im >= 0) { memo[e->id] = im ? T() : F(); return im ? T() : F(); }
  }
  switch (e->op) {
    case NOT: r = mkNot(simp(e->a, memo)); break;
    case ITE: {
      E* c = simp(e->a, memo);
      if (isC(c)) r = simp(c->c ? e->b : e->d, memo);
      else r = mkIte(c, simp(e->b, memo), simp(e->d, memo));
      break;
    }
    case ZEXT: r = mkZext(simp(e->a, memo), e->w); break;
    case SEXT: r = mkSext(simp(e->a, memo), e->w); break;
    case EXTRACT: r = mkExtract(simp(e->a, memo), e->lo + e->w - 1, e->lo); break;
    case CONCAT: r = mkConcat(simp(e->a, memo), simp(e->b, memo)); break;
    case FNAN: r = mkFnan(simp(e->a, memo)); break;
    default: r = mk(e->op, simp(e->a, memo), simp(e->b, memo)); break;
  }
  if (r != e) { auto q2 = eqc.find(r->id); if (q2 != eqc.end()) r = q2->second; }
  memo[e->id] = r;
  return r;
}

// ---------------------------------------------------------------- z3
#include "lia.cpp"
struct Solver::Impl {
  Lia lia;
  u64 liaSince = 0;
  z3::context ctx;
  std::unique_ptr<z3::solver> s;
  std::unordered_map<u32, std::unique_ptr<z3::expr>> tr;
  std::unordered_map<u32, std::unique_ptr<z3::expr>> lit;
  u64 since = 0;

  void reset() {
    lit.clear();
    s.reset();
    s = std::make_unique<z3::solver>(ctx, z3::solver::simple());
    z3::params p(ctx);
    p.set("timeout", 60000u);
    s->set(p);
    since = 0;
    lia.reset();
  }
  z3::expr b2v(const z3::expr& b) { return z3::ite(b, ctx.bv_val(1, 1), ctx.bv_val(0, 1)); }
  // Width-1 terms are translated to z3 Booleans.
  z3::expr go(E* e) {
    auto it = tr.find(e->id);
    if (it != tr.end()) return *it->second;
    z3::expr r = go1(e);
    tr.emplace(e->id, std::make_unique<z3::expr>(r));
    return r;
  }
  z3::expr bv(E* e) { z3::expr r = go(e); return r.is_bool() ? b2v(r) : r; }
  z3::expr fkey(const z3::expr& x, unsigned w) {  // monotone map of non-NaN floats to unsigned, with -0 == +0
    z3::expr zero = ctx.bv_val(0, w), mn = ctx.bv_val((uint64_t)1 << (w - 1), w);
    z3::expr y = z3::ite(x == mn, zero, x);
    return z3::ite((y & mn) == zero, y | mn, ~y);
  }
  z3::expr nan(const z3::expr& x, unsigned w) {
    u64 am = maskw(w - 1), inf = w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull;
    return z3::ugt(x & ctx.bv_val((uint64_t)am, w), ctx.bv_val((uint64_t)inf, w));
  }
  z3::expr go1(E* e) {
    unsigned w = e->w;
    switch (e->op) {
      case CONST: if (w == 1) return ctx.bool_val(e->c != 0); return ctx.bv_val((uint64_t)e->c, w);
      case VAR: { std::string n = "v" + std::to_string(e->c) + "_" + std::to_string(w); if (w == 1) return ctx.bool_const(n.c_str()); return ctx.bv_const(n.c_str(), w); }
      case NOT: return !go(e->a);
      case ITE: { z3::expr c = go(e->a); return z3::ite(c, go(e->b), go(e->d)); }
      case ZEXT: return z3::zext(bv(e->a), w - e->a->w);
      case SEXT: return z3::sext(bv(e->a), w - e->a->w);
      case EXTRACT: { z3::expr r = bv(e->a).extract(e->lo + w - 1, e->lo); return w == 1 ? (r == ctx.bv_val(1, 1)) : r; }
      case CONCAT: return z3::concat(bv(e->a), bv(e->b));
      case FNAN: return nan(bv(e->a), e->a->w);
      case FLT: { auto x = bv(e->a), y = bv(e->b); unsigned aw = e->a->w; return !nan(x, aw) && !nan(y, aw) && z3::ult(fkey(x, aw), fkey(y, aw)); }
      case FEQ: { auto x = bv(e->a), y = bv(e->b); unsigned aw = e->a->w; return !nan(x, aw) && !nan(y, aw) && fkey(x, aw) == fkey(y, aw); }
      default: break;
    }
    if (w == 1 && e->a->w == 1) {
      z3::expr x = go(e->a), y = go(e->b);
      switch (e->op) {
        case AND: return x && y;
        case OR: return x || y;
        case XOR: return x != y;
        case EQ: return x == y;
        default: { E t = *e; (void)t; z3::expr xx = b2v(x), yy = b2v(y); z3::expr r = bin(e->op, xx, yy, 1); return r.is_bool() ? r : r == ctx.bv_val(1, 1); }
      }
    }
    return bin(e->op, bv(e->a), bv(e->b), e->a->w);
  }
  z3::expr bin(Op op, const z3::expr& x, const z3::expr& y, unsigned aw) {
    switch (op) {
      case ADD: return x + y; case SUB: return x - y; case MUL: return x * y;
      case UDIV: return z3::udiv(x, y); case SDIV: return x / y; case UREM: return z3::urem(x, y); case SREM: return z3::srem(x, y);
      case AND: return x & y; case OR: return x | y; case XOR: return x ^ y;
      case SHL: return z3::shl(x, y); case LSHR: return z3::lshr(x, y); case ASHR: return z3::ashr(x, y);
      case EQ: return x == y; case ULT: return z3::ult(x, y); case SLT: return x < y;
      case UMULO: { z3::expr p = z3::zext(x, aw) * z3::zext(y, aw); return p.extract(2 * aw - 1, aw) != ctx.bv_val(0, aw); }
      default: fprintf(stderr, "engine: z3 op %d\n", op); abort();
    }
  }
  z3::expr literal(E* e) {
    auto it = lit.find(e->id);
    if (it != lit.end()) return *it->second;
    z3::expr b = go(e);
    z3::expr p = ctx.bool_const(("p" + std::to_string(e->id)).c_str());
    s->add(z3::implies(p, b));
    lit.emplace(e->id, std::make_unique<z3::expr>(p));
    return p;
  }
};

Solver::Solver() : p(new Impl) { p->reset(); }

// Candidate model for order constraints over variables and constants: a linear extension with spread-out values.
// The candidate is only used after every conjunct has been evaluated under it.
static bool orderModel(const std::vector<E*>& pc, E* extra, const std::vector<u64>* base, const std::vector<u8>& widths, std::vector<u64>& out) {
  struct L { E *a, *b; u8 kind; bool strict; };
  static std::vector<L> ls;
  static std::vector<std::pair<E*, E*>> eqs;
  ls.clear(); eqs.clear();
  auto leaf = [](E* e) { return e->op == VAR || e->op == CONST; };
  std::function<void(E*)> take = [&](E* e) {
    bool neg = false;
    if (e->op == AND && e->w == 1) { take(e->a); take(e->b); return; }
    E* x = e;
    if (x->op == NOT) { neg = true; x = x->a; }
    if (x->op != ULT && x->op != SLT && x->op != EQ && x->op != FLT) return;
    if (!leaf(x->a) || !leaf(x->b) || x->a->w == 1) return;
    if (x->op == EQ) { if (!neg) eqs.push_back({x->a, x->b}); return; }
    u8 k = x->op == ULT ? 0 : x->op == SLT ? 1 : 2;
    if (neg) ls.push_back({x->b, x->a, k, false}); else ls.push_back({x->a, x->b, k, true});
  };
  for (E* e : pc) take(e);
  if (extra) take(extra);
  std::unordered_map<u32, int> id;
  std::vector<int> uf; std::vector<E*> ex;
  auto node = [&](E* e) { auto [it, n] = id.emplace(e->id, (int)uf.size()); if (n) { uf.push_back(uf.size()); ex.push_back(e); } return it->second; };
  std::function<int(int)> fd = [&](int x) { while (uf[x] != x) x = uf[x] = uf[uf[x]]; return x; };
  for (auto& l : ls) { node(l.a); node(l.b); }
  for (auto& [a, b] : eqs) { int x = fd(node(a)), y = fd(node(b)); uf[x] = y; }
  int n = uf.size();
  if (n == 0) return false;
  {  // a cycle of <= constraints means equality: merge each strongly connected component
    std::vector<std::vector<int>> g(n);
    for (auto& l : ls) { int a = fd(id[l.a->id]), b = fd(id[l.b->id]); if (a != b) g[a].push_back(b); }
    std::vector<int> idx(n, -1), low(n, 0), st; std::vector<char> on(n, 0);
    int cnt = 0;
    std::function<void(int)> dfs = [&](int v) {
      idx[v] = low[v] = cnt++; st.push_back(v); on[v] = 1;
      for (int w : g[v]) {
        if (idx[w] < 0) { dfs(w); low[v] = std::min(low[v], low[w]); }
        else if (on[w]) low[v] = std::min(low[v], idx[w]);
      }
      if (low[v] == idx[v]) { int w; do { w = st.back(); st.pop_back(); on[w] = 0; if (w != v) uf[w] = v; } while (w != v); }
    };
    for (int i = 0; i < n; i++) if (fd(i) == i && idx[i] < 0) dfs(i);
  }
  std::vector<std::vector<int>> adj(n);
  std::vector<int> indeg(n, 0), kind(n, -1);
  std::vector<E*> pin(n, nullptr);
  for (int i = 0; i < n; i++) if (isC(ex[i])) { int r = fd(i); if (pin[r] && pin[r]->c != ex[i]->c) return false; pin[r] = ex[i]; }
  for (auto& l : ls) {
    int a = fd(id[l.a->id]), b = fd(id[l.b->id]);
    if (a == b) { if (l.strict) return false; continue; }
    if (kind[a] >= 0 && kind[a] != l.kind) return false;
    if (kind[b] >= 0 && kind[b] != l.kind) return false;
    kind[a] = kind[b] = l.kind;
    adj[a].push_back(b); indeg[b]++;
  }
  auto keyOf = [&](E* c, int k) -> u64 { if (k == 1) return c->c ^ (1ull << (c->w - 1)); return c->c; };
  // constants in one kind are mutually ordered
  {
    std::vector<int> pc2;
    for (int i = 0; i < n; i++) if (fd(i) == i && pin[i] && kind[i] >= 0) pc2.push_back(i);
    std::sort(pc2.begin(), pc2.end(), [&](int x, int y) { return std::make_tuple(kind[x], pin[x]->w, keyOf(pin[x], kind[x])) < std::make_tuple(kind[y], pin[y]->w, keyOf(pin[y], kind[y])); });
    for (size_t i = 1; i < pc2.size(); i++) if (kind[pc2[i]] == kind[pc2[i - 1]] && pin[pc2[i]]->w == pin[pc2[i - 1]]->w) { adj[pc2[i - 1]].push_back(pc2[i]); indeg[pc2[i]]++; }
  }
  // group by (kind,width)
  std::vector<int> q, order;
  for (int i = 0; i < n; i++) if (fd(i) == i && indeg[i] == 0) q.push_back(i);
  while (!q.empty()) {
    // prefer the node with the smallest base-model value to stay close to the current model
    int x = q.back(); q.pop_back();
    order.push_back(x);
    for (int y : adj[x]) if (--indeg[y] == 0) q.push_back(y);
  }
  int roots = 0;
  for (int i = 0; i < n; i++) roots += fd(i) == i;
  if ((int)order.size() != roots) return false;
  if (base) out = *base;
  out.resize(widths.size(), 0);
  std::vector<u64> val(n, 0);
  for (int k = -1; k < 3; k++) for (int w : {8, 16, 32, 64}) {
    std::vector<int> g;
    for (int x : order) if (kind[x] == k && ex[x]->w == w) g.push_back(x);
    if (g.empty()) continue;
    if (k < 0) {
      for (int x : g) {
        if (pin[x]) { val[x] = pin[x]->c; continue; }
        val[x] = ex[x]->op == VAR && ex[x]->c < out.size() ? out[ex[x]->c] : 0;
      }
      continue;
    }
    u64 lo = 0, hi = maskw(w);
    if (k == 2) { lo = w == 32 ? 0x00800000ull : 0x0010000000000000ull; hi = w == 32 ? 0x7f000000ull : 0x7fe0000000000000ull; for (int x : g) if (pin[x]) return false; }
    size_t i = 0;
    u64 cur = lo; bool curIncl = true;  // next value must be >= cur (incl) or > cur
    while (i < g.size()) {
      size_t j = i;
      while (j < g.size() && !pin[g[j]]) j++;
      u64 top = j < g.size() ? keyOf(pin[g[j]], k) : hi;
      bool topIncl = j >= g.size();
      u64 cnt = j - i;
      u64 a = curIncl ? cur : cur + 1;
      if (cnt) {
        if (!topIncl && top == 0) return false;
        u64 b = topIncl ? top : top - 1;
        if ((!curIncl && cur == hi) || a > b || (b - a) < cnt - 1) return false;
        u64 stepv = (b - a) / (cnt + 1); if (stepv == 0) stepv = 1;
        u64 v = (b - a) / stepv >= cnt ? a + stepv : a;
        if (v + stepv * (cnt - 1) > b || v + stepv * (cnt - 1) < v) v = a;
        for (size_t t = i; t < j; t++, v += stepv) val[g[t]] = v;
      }
      if (j < g.size()) { cur = top; curIncl = false; }
      i = j + 1;
    }
    if (k == 1) for (int x : g) if (!pin[x]) val[x] ^= 1ull << (w - 1);
    for (int x : g) if (pin[x]) val[x] = pin[x]->c;
  }
  for (int i = 0; i < n; i++) if (ex[i]->op == VAR && ex[i]->c < out.size()) out[ex[i]->c] = pin[fd(i)] ? pin[fd(i)]->c : val[fd(i)];
  for (E* e : pc) if (!evalE(e, out)) return false;
  if (extra && !evalE(extra, out)) return false;
  return true;
}

int Solver::check(const std::vector<E*>& pc, E* extra, std::vector<u64>* model, const std::vector<u8>& widths) {
  u32 nvars = widths.size();
  auto t0 = std::chrono::steady_clock::now();
  {
    static std::vector<u64> cand;
    if (orderModel(pc, extra, base, widths, cand)) {
      quick++;
      if (model) *model = cand;
      return 1;
    }
  }
  queries++;
  if (++p->since > 4000 || p->lia.lit.size() > 20000 || p->lit.size() > 20000) p->reset();
  auto done = [&](int r) {
    if (r == 1) sat++; else if (r == 0) unsat++; else unknown++;
    secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    return r;
  };
  // Only the conjuncts connected with the question matter when a model of the rest is at hand.
  static std::vector<E*> slice;
  const std::vector<E*>* use = &pc;
  bool sliced = false;
  if (extra && !isC(extra) && base && base->size() <= nvars) {
    std::unordered_set<u32> vs;
    for (u32 v : p->lia.support(extra)) vs.insert(v);
    std::vector<char> in(pc.size(), 0);
    for (bool again = true; again;) {
      again = false;
      for (size_t i = pc.size(); i-- > 0;) if (!in[i]) {
        const auto& sp = p->lia.support(pc[i]);
        bool hit = false;
        for (u32 v : sp) if (vs.count(v)) { hit = true; break; }
        if (hit) { in[i] = 1; for (u32 v : sp) again |= vs.insert(v).second; }
      }
    }
    slice.clear();
    for (size_t i = 0; i < pc.size(); i++) if (in[i]) slice.push_back(pc[i]);
    if (slice.size() < pc.size()) { use = &slice; sliced = true; }
  }
  auto finish = [&](std::vector<u64>& m) {   // complete a model of the slice; every conjunct is re-evaluated
    std::vector<u64> full = sliced ? *base : std::vector<u64>();
    full.resize(nvars, 0);
    if (sliced) { for (E* e : *use) for (u32 v : p->lia.support(e)) full[v] = m[v]; for (u32 v : p->lia.support(extra)) full[v] = m[v]; }
    else full = m;
    for (E* e : pc) if (!evalE(e, full)) return false;
    if (extra && !evalE(extra, full)) return false;
    m = full;
    return true;
  };
  bool wantLia = extra && p->lia.arith(extra);
  if (!wantLia) for (E* e : *use) if (p->lia.arith(e)) { wantLia = true; break; }
  if (wantLia && extra && base) {   // a nearby model often does: change one or two inputs of the model at hand
    static std::vector<u64> cand;
    cand = *base;
    cand.resize(nvars, 0);
    const auto vs = p->lia.support(extra);
    auto good = [&]() { if (!evalE(extra, cand)) return false; for (size_t i = use->size(); i-- > 0;) if (!evalE((*use)[i], cand)) return false; return true; };
    std::vector<u64> vals{0, 1, 8, 16, 64, 4096};
    auto consts = [&](E* e, auto& self, int d) -> void { if (!e || d > 6 || vals.size() > 60) return; if (isC(e)) { for (u64 x : {e->c, e->c - 1, e->c + 1, e->c - 8, e->c + 8}) vals.push_back(x); return; } self(e->a, self, d + 1); self(e->b, self, d + 1); self(e->d, self, d + 1); };
    consts(extra, consts, 0);
    for (E* e : *use) consts(e, consts, 3);
    for (E* e : *use) for (u32 v : p->lia.support(e)) if (vals.size() < 120) for (u64 x : {cand[v], cand[v] + 1, cand[v] - 1, cand[v] + 8, cand[v] - 8, cand[v] + 4096}) vals.push_back(x);
    std::sort(vals.begin(), vals.end());
    vals.erase(std::unique(vals.begin(), vals.end()), vals.end());
    bool ok = false;
    for (u32 v : vs) {
      u64 old = cand[v];
      for (u64 x : vals) { cand[v] = x & maskw(widths[v]); if (good()) { ok = true; break; } }
      if (ok) break;
      cand[v] = old;
    }
    if (!ok && vs.size() > 1) {
      u64 rs = 88172645463325252ull;
      auto rnd = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
      for (int t = 0; t < 1500 && !ok; t++) {
        u32 v = vs[rnd() % vs.size()], w = vs[rnd() % vs.size()];
        u64 ov = cand[v], ow = cand[w];
        cand[v] = vals[rnd() % vals.size()] & maskw(widths[v]);
        cand[w] = vals[rnd() % vals.size()] & maskw(widths[w]);
        if (good()) { ok = true; break; }
        cand[w] = ow; cand[v] = ov;
      }
    }
    if (ok && finish(cand)) { quick++; if (model) *model = cand; return done(1); }
  }
  if (wantLia) {
    try {
      if (!p->lia.begin(*use, extra)) { lia++; return done(0); }
      std::vector<int> as;
      for (E* e : *use) if (!isC(e)) p->lia.literal(e); else if (isFalse(e)) return done(0);
      if (extra) { if (isFalse(extra)) return done(0); if (!isC(extra)) p->lia.literal(extra); }
      static bool dbg = getenv("VF_LIADBG");
      auto tt = std::chrono::steady_clock::now();
      z3::check_result cr = p->lia.s->check();
      if (dbg) { double d = std::chrono::duration<double>(std::chrono::steady_clock::now() - tt).count(); if (d > 0.3) { fprintf(stderr, "LIA %.2fs r=%d n=%u\n", d, (int)cr, (unsigned)use->size()); for (E* e : *use) fprintf(stderr, "   %s\n", str(e, 9).c_str()); if (extra) fprintf(stderr, " ? %s\n", str(extra, 9).c_str()); } }
      if (cr == z3::unsat) { lia++; return done(0); }
      if (cr == z3::sat) {
        std::vector<u64> m(nvars, 0);
        z3::model zm = p->lia.s->get_model();
        for (unsigned i = 0; i < zm.num_consts(); i++) {
          z3::func_decl d = zm.get_const_decl(i);
          std::string n = d.name().str();
          if (n[0] != 'v') continue;
          u64 idx = strtoull(n.c_str() + 1, nullptr, 10);
          if (idx >= nvars || strtoull(n.c_str() + n.find('_') + 1, nullptr, 10) != widths[idx]) continue;
          z3::expr v = zm.get_const_interp(d);
          if (v.is_bool()) m[idx] = v.is_true();
          else m[idx] = strtoull(v.get_decimal_string(0).c_str(), nullptr, 10);
        }
        if (finish(m)) { lia++; if (model) *model = m; return done(1); }
      }
    } catch (Lia::No&) { static bool dbg = getenv("VF_LIADBG"); if (dbg) { fprintf(stderr, "LIA NO ");  for (E* e : *use) { try { p->lia.literal(e); } catch (Lia::No&) { fprintf(stderr, "   %s\n", str(e, 9).c_str()); } } if (extra) fprintf(stderr, " ? %s\n", str(extra, 9).c_str()); } }
  }
  z3::expr_vector as(p->ctx);
  bool triv = false;
  for (E* e : *use) { if (isFalse(e)) triv = true; if (!isC(e)) as.push_back(p->literal(e)); }
  if (extra) { if (isFalse(extra)) triv = true; if (!isC(extra)) as.push_back(p->literal(extra)); }
  int r;
  if (triv) r = 0;
  else {
    z3::check_result cr = p->s->check(as);
    r = cr == z3::sat ? 1 : cr == z3::unsat ? 0 : -1;
  }
  if (r == 1 && (model || sliced)) {
    std::vector<u64> own;
    if (!model) model = &own;
    model->assign(nvars, 0);
    z3::model m = p->s->get_model();
    for (unsigned i = 0; i < m.num_consts(); i++) {
      z3::func_decl d = m.get_const_decl(i);
      std::string n = d.name().str();
      if (n[0] != 'v') continue;
      u64 idx = strtoull(n.c_str() + 1, nullptr, 10);
      if (idx >= nvars || strtoull(n.c_str() + n.find('_') + 1, nullptr, 10) != widths[idx]) continue;
      z3::expr v = m.get_const_interp(d);
      if (v.is_bool()) (*model)[idx] = v.is_true();
      else { uint64_t x = 0; if (v.is_numeral_u64(x)) (*model)[idx] = x; }
    }
    if (sliced && !finish(*model)) {        // the model at hand did not satisfy the rest after all
      const std::vector<u64>* b = base;
      base = nullptr;
      r = check(pc, extra, model == &own ? nullptr : model, widths);
      base = b;
      return r;
    }
  }
  return done(r);
}

std::string Solver::smt2(const std::vector<E*>& pc, E* extra) {
  z3::solver t(p->ctx);
  for (E* e : pc) t.add(p->go(e));
  if (extra) t.add(p->go(extra));
  return t.to_smt2();
}
