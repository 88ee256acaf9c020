// Symbolic execution / verification-condition generation over decoded LLVM IR.
#include "exec.h"
#include <chrono>
#include <cstdio>
#include <functional>
#include <cstring>
#include <cmath>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string hex(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }

// ------------------------------------------------------------------ terms
E* Exec::freshVar(State& s, unsigned w, const char* name, bool input) {
  if (s.widths.use_count() > 1) s.widths = std::make_shared<std::vector<u8>>(*s.widths);
  if (s.model.use_count() > 1) s.model = std::make_shared<std::vector<u64>>(*s.model);
  u32 i = s.widths->size();
  s.widths->push_back(w);
  s.model->push_back(0);
  E* v = Var(i, w);
  if (input) {
    if (s.inputs.use_count() > 1) s.inputs = std::make_shared<std::vector<Input>>(*s.inputs);
    s.inputs->push_back({name, v, 0, (u8)w});
  }
  return v;
}
u64 Exec::modelEval(State& s, E* e) {
  if (!s.modelOk) {
    std::vector<u64> m;
    int r = sol.check(s.pc->list, nullptr, &m, *s.widths);
    if (r == 0) throw PathEnd();
    if (r < 0) unsupported(s, "solver gave no model");
    s.model = std::make_shared<std::vector<u64>>(m);
    s.modelOk = true;
  }
  return evalE(e, *s.model);
}
void Exec::addPC(State& s, E* c) {
  if (isTrue(c)) return;
  if (s.pc.use_count() > 1) s.pc = std::make_shared<PCData>(*s.pc);
  s.pc->add(c);
}
bool Exec::feasible(State& s, E* c) {
  int im = s.pc->implied(c);
  if (im == 0) return false;
  if (im == 1) return true;
  if (s.modelOk && evalE(c, *s.model)) return true;
  return sol.check(s.pc->list, c, nullptr, *s.widths) != 0;
}
int Exec::decide(State& s, E* c) {
  if (isC(c)) return c->c;
  int im = s.pc->implied(c);
  if (im >= 0) return im;
  E* r = s.pc->simp(c);
  if (isC(r)) return r->c;
  throw ForkReq{r};
}
static E* findIte(const PCData& pc, E* e, std::set<u32>& seen) {
  if (!(e->flags & 1) || !seen.insert(e->id).second) return nullptr;
  if (e->op == ITE) return e->a;
  for (E* x : {e->a, e->b, e->d}) if (x) if (E* r = findIte(pc, x, seen)) return r;
  return nullptr;
}
E* Exec::concretize(State& s, E* e) {
  if (isC(e)) return e;
  e = s.pc->simp(e);
  if (isC(e)) return e;
  std::set<u32> seen;
  if (E* c = findIte(*s.pc, e, seen)) throw ForkReq{c};
  throw ForkReq{mkEq(e, C(modelEval(s, e), e->w))};
}
std::string Exec::where(State& s) {
  std::string r;
  int n = 0;
  for (int i = (int)s.st.size() - 1; i >= 0 && n < 40; i--, n++) {
    Frame& f = s.st[i];
    const Inst& in = f.f->bb[f.bb].ins[std::min<size_t>(f.ip, f.f->bb[f.bb].ins.size() - 1)];
    std::string file = M->files[in.file];
    auto p = file.rfind('/');
    if (p != std::string::npos) file = file.substr(p + 1);
    r += "    at " + f.f->nice + " (" + file + ":" + std::to_string(in.line) + ")\n";
  }
  return r;
}
void Exec::record(State& s, const char* kind, const std::string& what, E* extra) {
  std::string key = std::string(kind) + "|" + what;
  u64 h = std::hash<std::string>()(key) | 1;
  obFail++;
  // at most violPerLabel records per key
  int cnt = 0;
  u64 slot = h % 4096;
  for (int i = 0; i < 4096; i++) {
    u64 cur = sh->seen[slot].load();
    if (cur == 0) { if (sh->seen[slot].compare_exchange_strong(cur, h)) break; i--; continue; }
    if (cur == h && ++cnt >= violPerLabel) return;
    slot = (slot + 1) % 4096;
  }
  std::vector<u64> m;
  if (s.modelOk && (!extra || evalE(extra, *s.model))) m = *s.model;
  else {
    int r = sol.check(s.pc->list, extra, &m, *s.widths);
    if (r == 0) return;
    if (r < 0) { errors["undecided obligation: " + key]++; sh->nerr++; return; }
  }
  u64 n = sh->nviol++;
  if (double z = 0; sh->violAt.compare_exchange_strong(z, now())) {}
  std::string fn = out + "/viol." + std::to_string(n) + ".txt";
  FILE* f = fopen(fn.c_str(), "w");
  fprintf(f, "KIND %s\nWHAT %s\n", kind, what.c_str());
  fprintf(f, "WHERE\n%s", where(s).c_str());
  if (extra) fprintf(f, "NEGATED-OBLIGATION %s\n", str(extra, 8).c_str());
  fprintf(f, "INPUTS %zu\n", s.inputs->size());
  for (auto& i : *s.inputs) fprintf(f, "%s %d %llu\n", i.name, i.w, (unsigned long long)(i.v ? evalE(i.v, m) : i.val));
  fprintf(f, "END\n");
  fclose(f);
}
bool Exec::overtime() {
  double v = sh->violAt.load();
  if (v > 0 && now() > v + grace) { sh->stop = 1; return true; }
  return false;
}
void Exec::violate(State& s, const char* kind, const std::string& what) { record(s, kind, what, nullptr); throw PathEnd(); }
void Exec::unsupported(State& s, const std::string& what) {
  std::string loc = where(s);
  auto p = loc.find('\n');
  errors["unsupported: " + what + " " + loc.substr(0, p)]++;
  sh->nerr++;
  throw PathEnd();
}
void Exec::obligation(State& s, E* c, const char* kind, const std::string& label) {
  if (c->op == AND && c->w == 1 && !s.pc->ids.count(c->id)) { obligation(s, c->a, kind, label); obligation(s, c->b, kind, label); return; }
  if (isTrue(c)) { obFold++; return; }
  int im = s.pc->implied(c);
  if (im == 1) { obGraph++; return; }
  E* r = im == 0 ? F() : s.pc->simp(c);
  if (isTrue(r)) { obGraph++; return; }
  E* neg = mkNot(r);
  bool bad;
  if (isFalse(r)) bad = true;
  else if (s.modelOk && evalE(neg, *s.model)) bad = true;
  else {
    int q = sol.check(s.pc->list, neg, nullptr, *s.widths);
    if (q == 0) { obZ3++; addPC(s, r); return; }
    if (q < 0) { errors["undecided obligation: " + std::string(kind) + " " + label]++; sh->nerr++; throw PathEnd(); }
    bad = true;
  }
  if (bad) {
    record(s, kind, label, isFalse(r) ? nullptr : neg);
    if (isFalse(r)) throw PathEnd();
    std::vector<u64> m;
    int q = sol.check(s.pc->list, r, &m, *s.widths);
    if (q != 1) throw PathEnd();
    addPC(s, r);
    s.model = std::make_shared<std::vector<u64>>(m);
    s.modelOk = true;
  }
}
void Exec::implicitOb(State& s, E* c, const char* kind, const std::string& what) {
  if (isTrue(c)) return;
  obImplicit++;
  std::string loc = where(s);
  auto p = loc.find('\n');
  obligation(s, c, kind, what + loc.substr(0, p));
}

// ------------------------------------------------------------------ memory
ObjP* Exec::find(State& s, u64 a) {
  if (a >= GL_BASE && a < ST_BASE) { u64 i = (a - GL_BASE) / SLOT; if (i < s.gl.size()) return &s.gl[i]; }
  else if (a >= ST_BASE && a < HP_BASE) { u64 i = (a - ST_BASE) / SLOT; if (i < s.stk.size()) return &s.stk[i]; }
  else if (a >= HP_BASE && a < BIG_BASE) { u64 i = (a - HP_BASE) / SLOT; if (i < s.heap.size()) return &s.heap[i]; }
  else if (a >= BIG_BASE) { u64 i = (a - BIG_BASE) / BIG_SLOT; if (i < s.bigs.size()) return &s.bigs[i]; }
  return nullptr;
}
static ObjP gGlobalTemplate;
static ObjP makeGlobal(Exec& ex, State&, Global* g) {
  decodeGlobal(ex.M, g);
  auto o = std::make_shared<Obj>();
  o->base = g->addr; o->size = g->size; o->align = g->align; o->kind = O_GLOBAL; o->ro = g->constant;
  o->cells.resize(g->size);
  for (u64 i = 0; i < g->size; i++) o->cells[i] = Cell{C(0, 8)->id, 0, 1};
  for (auto& [off, v] : g->init) {
    unsigned n = (v.e->w + 7) / 8;
    E* e = v.e->w % 8 ? mkZext(v.e, n * 8) : v.e;
    for (unsigned i = 0; i < n; i++) o->cells[off + i] = Cell{e->id, (u8)i, (u8)n};
  }
  return o;
}
u64 Exec::newObj(State& s, u64 size, u64 align, ObjKind k, u8 how) {
  auto o = std::make_shared<Obj>();
  o->size = size; o->align = align; o->kind = k; o->how = how;
  u64 al = align < 16 ? 16 : align;
  if (k == O_STACK) {
    o->base = ST_BASE + s.stk.size() * SLOT + 0x1000 + (al < 4096 ? al : 0);
    s.stk.push_back(o);
  } else {
    o->base = HP_BASE + s.heap.size() * SLOT + 0x1000 + (al < 4096 ? al : 0);  // aligned to exactly `al`
    s.heap.push_back(o);
    if (!s.ghostDepth) s.liveHeap++; else o->ghostBorn = true;
  }
  if (size + 0x4000 > SLOT) throw PathEnd();
  o->cells.resize(size);
  return o->base;
}
u64 Exec::newBig(State& s, E* size, u64 align) {
  auto o = std::make_shared<Obj>();
  o->kind = O_BIG; o->symSize = size; o->align = align; o->how = 4;
  o->base = BIG_BASE + s.bigs.size() * BIG_SLOT + (align >= (1ull << 30) ? align : (1ull << 36) + align);
  s.bigs.push_back(o);
  return o->base;
}
Exec::Loc Exec::resolve(State& s, E* addr, u64 size, bool write, u64 align) {
  if (!isC(addr)) addr = s.pc->simp(addr);
  ObjP* o = nullptr;
  Loc L{nullptr, 0, nullptr};
  if (isC(addr)) {
    u64 a = addr->c;
    o = find(s, a);
    if (!o || !*o) violate(s, "memory", a < 4096 ? std::string("null pointer dereference") : "access outside any object");
    Obj& ob = **o;
    if (!ob.alive) violate(s, "memory", "use of freed memory");
    if (ob.kind == O_BIG) {
      L.soff = C(a - ob.base, 64);
      if (ob.symSize && isC(ob.symSize)) { if (a < ob.base || a - ob.base > ob.symSize->c || ob.symSize->c - (a - ob.base) < size) violate(s, "memory", "access out of bounds of a mapped region"); }
      else { E* off = L.soff; implicitOb(s, mkAnd(mkUle(off, ob.symSize), mkUle(C(size, 64), mkSub(ob.symSize, off))), "memory", "access out of bounds of a mapped region"); }
    } else {
      if (a < ob.base || a - ob.base > ob.size || ob.size - (a - ob.base) < size) violate(s, "memory", std::string("access out of bounds of ") + (ob.kind == O_HEAP ? "a heap block" : ob.kind == O_STACK ? "a local object" : "a global"));
      L.off = a - ob.base;
    }
    if (align > 1 && (a & (align - 1))) violate(s, "memory", "misaligned access");
  } else {
    std::set<u32> seen;
    if (E* c = findIte(*s.pc, addr, seen)) throw ForkReq{c};
    if (addr->op == ADD && isC(addr->b)) o = find(s, addr->b->c);
    u64 mv = modelEval(s, addr);
    if (!o || !*o) o = find(s, mv);
    if (!o || !*o) violate(s, "memory", "access through a wild pointer");
    if (!(*o)->alive) violate(s, "memory", "use of freed memory");
    E* off = mkSub(addr, C((*o)->base, 64));
    if ((*o)->kind == O_BIG) {
      E* sz = (*o)->symSize;
      implicitOb(s, mkAnd(mkUle(off, sz), mkUle(C(size, 64), mkSub(sz, off))), "memory", "access out of bounds of a mapped region");
      if (align > 1) implicitOb(s, mkEq(mk(AND, addr, C(align - 1, 64)), C(0, 64)), "memory", "misaligned access");
      L.soff = s.pc->simp(off);
    } else {
      if ((*o)->size < size) violate(s, "memory", "access out of bounds of an object");
      implicitOb(s, mkUle(off, C((*o)->size - size, 64)), "memory", "access out of bounds of an object");
      throw ForkReq{mkEq(addr, C(modelEval(s, addr), 64))};
    }
  }
  L.o = o;
  Obj& ob = **o;
  for (size_t i = 0; i < ob.lz.size(); i++) if (L.off < ob.lz[i].off + ob.lz[i].len && ob.lz[i].off < L.off + size) throw LazyReq{ob.base, i};
  if (ob.poisoned && !s.ghostDepth) violate(s, "frame", "access to an object outside the footprint");
  if (write && !s.ghostDepth) {
    if (ob.ro) violate(s, "memory", "write to constant");
    if (ob.frozen || (ob.kind == O_HEAP && s.ghost[0] && (ob.ghostBorn || (ob.base - HP_BASE) / SLOT < s.ghost[0]))) violate(s, "frame", "write to an object outside the write footprint");
  }
  return L;
}
E* Exec::loadAt(State& s, Loc l, u64 n, unsigned bits) {
  E* r = nullptr;
  if (l.soff) {
    // newest write wins
    auto& big = (*l.o)->big;
    for (size_t k = big.size(); k-- > 0 && !r;) {
      BigWrite& w = big[k];
      E* same = mkEq(l.soff, w.off);
      if (isC(l.soff) && isC(w.off)) {
        u64 a = l.soff->c, b = w.off->c;
        if (a + n <= b || b + w.n <= a) continue;
        if (a >= b && a + n <= b + w.n && w.n <= 8) { r = mkExtract(w.val, (a - b + n) * 8 - 1, (a - b) * 8); break; }
        // partial overlap: byte by byte
        std::vector<E*> by;
        for (u64 i = 0; i < n; i++) by.push_back(loadAt(s, Loc{l.o, 0, C(a + i, 64)}, 1, 8));
        r = by[0];
        for (u64 i = 1; i < n; i++) r = mkConcat(by[i], r);
        break;
      }
      E* disj = mkOr(mkUle(mkAdd(l.soff, C(n, 64)), w.off), mkUle(mkAdd(w.off, C(w.n, 64)), l.soff));
      if (s.pc->implied(disj) == 1) continue;
      int im = s.pc->implied(same);
      if (im == 1 && w.n == n) { r = w.val; break; }
      if (im < 0) { same = s.pc->simp(same); if (!isC(same)) throw ForkReq{same}; if (same->c && w.n == n) { r = w.val; break; } }
      int d = decide(s, disj);
      if (d) continue;
      r = freshVar(s, n * 8, "overlap", false);
    }
    if (!r) r = C(0, n * 8);
  } else {
    Obj& o = **l.o;
    Cell c0 = o.cells[l.off];
    bool ok = c0.id && c0.idx == 0 && c0.n == n;
    bool allUn = c0.id == 0;
    for (u64 i = 1; i < n; i++) {
      Cell& c = o.cells[l.off + i];
      if (c.id != c0.id || c.idx != i) ok = false;
      if (c.id) allUn = false;
    }
    if (ok) r = exprById(c0.id);
    else if (allUn) {
      r = freshVar(s, n * 8, "uninit", false);
      Obj& w = wr(*l.o);
      for (u64 i = 0; i < n; i++) w.cells[l.off + i] = Cell{r->id, (u8)i, (u8)n};
    } else {
      for (u64 i = 0; i < n; i++) {
        Cell c = (*l.o)->cells[l.off + i];
        E* b;
        if (!c.id) { b = freshVar(s, 8, "uninit", false); wr(*l.o).cells[l.off + i] = Cell{b->id, 0, 1}; }
        else b = mkExtract(exprById(c.id), c.idx * 8 + 7, c.idx * 8);
        r = r ? mkConcat(b, r) : b;
      }
    }
  }
  if (bits < r->w) r = mkExtract(r, bits - 1, 0);
  return r;
}
void Exec::storeAt(State& s, Loc l, E* v) {
  unsigned n = (v->w + 7) / 8;
  if (v->w % 8) v = mkZext(v, n * 8);
  Obj& o = wr(*l.o);
  if (l.soff) { o.big.push_back({l.soff, v, n}); return; }
  for (unsigned i = 0; i < n; i++) o.cells[l.off + i] = Cell{v->id, (u8)i, (u8)n};
}
E* Exec::loadBits(State& s, E* addr, unsigned bits, u64 align) {
  u64 n = (bits + 7) / 8;
  Loc l = resolve(s, addr, n, false, align);
  return loadAt(s, l, n, bits);
}
void Exec::storeBits(State& s, E* addr, E* v, u64 align) {
  Loc l = resolve(s, addr, (v->w + 7) / 8, true, align);
  storeAt(s, l, v);
}
Val Exec::load(State& s, E* addr, Ty* t, u64 align) {
  switch (t->k) {
    case Ty::INT: case Ty::PTR: case Ty::FP:
      if (t->bits > 64) unsupported(s, "wide scalar load");
      return Val(loadBits(s, addr, t->bits, align));
    case Ty::VEC: case Ty::ARR: {
      resolve(s, addr, t->store, false, align);
      Agg a;
      for (u64 i = 0; i < t->n; i++) a.push_back(load(s, mkAdd(addr, C(i * t->el->size, 64)), t->el, 1));
      return Val(std::move(a));
    }
    case Ty::STRUCT: {
      Agg a;
      for (size_t i = 0; i < t->f.size(); i++) a.push_back(load(s, mkAdd(addr, C(t->off[i], 64)), t->f[i], 1));
      return Val(std::move(a));
    }
    default: return Val();
  }
}
void Exec::store(State& s, E* addr, const Val& v, Ty* t, u64 align) {
  if (v.e) { storeBits(s, addr, v.e, align); return; }
  if (!v.g) return;
  // resolve everything first so that a fork happens before any mutation
  resolve(s, addr, t->store, true, align);
  for (size_t i = 0; i < v.g->size(); i++) {
    if (t->k == Ty::STRUCT) store(s, mkAdd(addr, C(t->off[i], 64)), (*v.g)[i], t->f[i], 1);
    else store(s, mkAdd(addr, C(i * t->el->size, 64)), (*v.g)[i], t->el, 1);
  }
}
void Exec::freeObj(State& s, u64 a, const char* what, int how, E* size, E* align) {
  if (a == 0) return;
  ObjP* o = find(s, a);
  if (!o || !*o || (*o)->kind != O_HEAP || (*o)->base != a) violate(s, "memory", std::string(what) + " of a pointer that is not the start of a heap block");
  if (!(*o)->alive) violate(s, "memory", std::string("double ") + what);
  if ((*o)->how != how) violate(s, "memory", "mismatched allocation and deallocation functions");
  if (size) implicitOb(s, mkEq(size, C((*o)->size, 64)), "memory", "sized deallocation with the wrong size");
  if (align) implicitOb(s, mkEq(align, C((*o)->align, 64)), "memory", "aligned deallocation with the wrong alignment");
  if ((*o)->frozen || (s.ghost[0] && !s.ghostDepth && ((*o)->ghostBorn || (a - HP_BASE) / SLOT < s.ghost[0]))) violate(s, "frame", "deallocation of an object outside the write footprint");
  Obj& w = wr(*find(s, a));
  w.alive = false;
  w.cells.clear();
  w.lz.clear();
  if (!s.ghostDepth) s.liveHeap--;
}
void Exec::copyMem(State& s, E* d, E* sr, E* n, bool) {
  n = concretize(s, n);
  if (n->c == 0) return;
  Loc ls = resolve(s, sr, n->c, false, 1);
  Loc ld = resolve(s, d, n->c, true, 1);
  if (!ls.soff && !ld.soff) {
    std::vector<Cell> tmp((*ls.o)->cells.begin() + ls.off, (*ls.o)->cells.begin() + ls.off + n->c);
    Obj& w = wr(*ld.o);
    std::copy(tmp.begin(), tmp.end(), w.cells.begin() + ld.off);
    return;
  }
  u64 step = n->c % 8 == 0 ? 8 : 1;
  std::vector<E*> vals;
  for (u64 i = 0; i < n->c; i += step) vals.push_back(loadAt(s, ls.soff ? Loc{ls.o, 0, mkAdd(ls.soff, C(i, 64))} : Loc{ls.o, ls.off + i, nullptr}, step, step * 8));
  for (u64 i = 0; i < n->c; i += step) storeAt(s, ld.soff ? Loc{ld.o, 0, mkAdd(ld.soff, C(i, 64))} : Loc{ld.o, ld.off + i, nullptr}, vals[i / step]);
}
void Exec::setMem(State& s, E* d, E* v, E* n) {
  n = concretize(s, n);
  if (n->c == 0) return;
  Loc l = resolve(s, d, n->c, true, 1);
  E* b = mkExtract(v, 7, 0);
  if (l.soff) {
    E* w = b; u64 step = 1;
    if (n->c % 8 == 0) { w = mkConcat(mkConcat(mkConcat(b, b), mkConcat(b, b)), mkConcat(mkConcat(b, b), mkConcat(b, b))); step = 8; }
    for (u64 i = 0; i < n->c; i += step) storeAt(s, Loc{l.o, 0, mkAdd(l.soff, C(i, 64))}, w);
    return;
  }
  Obj& o = wr(*l.o);
  for (u64 i = 0; i < n->c; i++) o.cells[l.off + i] = Cell{b->id, 0, 1};
}
std::string Exec::cstr(State& s, E* p) {
  std::string r;
  if (!isC(p)) return "?";
  static std::unordered_map<u64, std::string> memo;
  auto it = memo.find(p->c);
  if (it != memo.end()) return it->second;
  for (u64 i = 0; i < 400; i++) {
    ObjP* o = find(s, p->c + i);
    if (!o || !*o) break;
    E* b = loadBits(s, C(p->c + i, 64), 8, 1);
    if (!isC(b) || !b->c) break;
    r += (char)b->c;
  }
  ObjP* o = find(s, p->c);
  if (o && *o && (*o)->ro) memo[p->c] = r;
  return r;
}

// ------------------------------------------------------------------ control
void Exec::jump(State& s, int to) {
  Frame& f = s.st.back();
  Block& B = f.f->bb[to];
  if (!B.phiDst.empty()) {
    size_t p = 0;
    while (B.preds[p] != f.bb) p++;
    std::vector<Val> tmp;
    tmp.reserve(B.phiDst.size());
    for (auto& o : B.phiIn[p]) tmp.push_back(o.reg >= 0 ? f.regs[o.reg] : o.c);
    for (size_t i = 0; i < tmp.size(); i++) f.regs[B.phiDst[i]] = std::move(tmp[i]);
  }
  f.bb = to; f.ip = 0;
  f.f->hit[to] = 1;
}
void Exec::pushFrame(State& s, Func* fn, std::vector<Val>& args) {
  decodeFunc(M, fn);
  if (s.st.size() > 400) violate(s, "diverge", "call depth exceeds 400");
  fn->calls++;
  Frame f;
  f.f = fn;
  f.regs.resize(fn->nregs);
  f.stkBase = s.stk.size();
  for (int i = 0; i < fn->nargs; i++) {
    f.regs[i] = args[i];
    if (fn->byval[i]) {
      u64 a = newObj(s, fn->byval[i], 16, O_STACK, 0);
      copyMem(s, C(a, 64), args[i].e, C(fn->byval[i], 64), false);
      f.regs[i] = Val(C(a, 64));
    }
  }
  fn->hit[0] = 1;
  s.st.push_back(std::move(f));
}
static void complete(Exec& ex, State& s, Val v) {
  Frame& f = s.st.back();
  const Inst& in = f.f->bb[f.bb].ins[f.ip];
  if (in.dst >= 0) f.regs[in.dst] = std::move(v);
  if (in.opc == I_INVOKE) ex.jump(s, in.t1); else f.ip++;
}
void Exec::doReturn(State& s, Val v) {
  bool ctor = s.st.back().ctor;
  if (s.st.back().ghost) s.ghostDepth--;
  s.stk.resize(s.st.back().stkBase);
  s.st.pop_back();
  if (s.st.empty()) throw PathEnd();
  if (ctor) return;
  complete(*this, s, std::move(v));
}
static const std::map<std::string, std::string> stdBase = {
  {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
  {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
  {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
  {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
  {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
  {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
  {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}};
static std::map<std::string, u64> pseudoTI;
static std::map<u64, std::string> tiNames;
static u64 tiAddr(Exec& ex, const std::string& n) {
  auto it = ex.M->gl.find(n);
  if (it != ex.M->gl.end()) return it->second->addr;
  auto& a = pseudoTI[n];
  if (!a) { a = 0xE0000000 + pseudoTI.size() * 16; tiNames[a] = n; }
  return a;
}
static std::string tiName(Exec& ex, u64 a) {
  if (tiNames.count(a)) return tiNames[a];
  if (a >= GL_BASE) { u64 i = (a - GL_BASE) / SLOT; if (i < ex.M->globals.size()) return ex.M->globals[i]->name; }
  return "?";
}
bool Exec::tiMatch(State& s, u64 t, u64 c) {
  if (c == 0 || t == c) return true;
  std::string n = tiName(*this, t);
  auto b = stdBase.find(n);
  if (b != stdBase.end()) return tiMatch(s, tiAddr(*this, b->second), c);
  if (t < GL_BASE) return false;
  Global* g = M->globals[(t - GL_BASE) / SLOT];
  decodeGlobal(M, g);
  u64 vt = 0;
  std::map<u64, u64> w;
  for (auto& [o, v] : g->init) w[o] = v.e->c;
  vt = w.count(0) ? w[0] : 0;
  if (vt < GL_BASE) return false;
  std::string vn = M->globals[(vt - GL_BASE) / SLOT]->name;
  if (vn == "_ZTVN10__cxxabiv120__si_class_type_infoE") return tiMatch(s, w[16], c);
  if (vn == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") { for (u64 i = 0; i < w[20]; i++) if (tiMatch(s, w[24 + 16 * i], c)) return true; }
  return false;
}
void Exec::doThrow(State& s) {
  // phase 1: is there a handler?
  bool handled = false;
  for (int i = (int)s.st.size() - 1; i >= 0 && !handled; i--) {
    Frame& f = s.st[i];
    if (f.ctor) break;
    const Inst& in = f.f->bb[f.bb].ins[f.ip];
    if (in.opc != I_INVOKE) continue;
    const Inst& lp = f.f->bb[in.t2].ins[0];
    for (auto& [k, o] : lp.clauses) if (k == 0 && tiMatch(s, s.excTI, o.c.e->c)) handled = true;
  }
  if (!handled) violate(s, "uncaught", "exception " + demangle(tiName(*this, s.excTI)) + " escapes");
  while (true) {
    Frame& f = s.st.back();
    const Inst& in = f.f->bb[f.bb].ins[f.ip];
    if (in.opc == I_INVOKE) {
      const Inst& lp = f.f->bb[in.t2].ins[0];
      u64 sel = 0; bool m = false;
      for (auto& [k, o] : lp.clauses) if (!m && k == 0 && tiMatch(s, s.excTI, o.c.e->c)) { m = true; sel = o.c.e->c ? (o.c.e->c - GL_BASE) / SLOT + 1 : 0x7ffffff; }
      if (m || lp.flag) {
        Agg a; a.push_back(Val(C(s.excObj, 64))); a.push_back(Val(C(sel, 32)));
        s.excVal = Val(std::move(a));
        jump(s, in.t2);
        return;
      }
    }
    s.stk.resize(f.stkBase);
    s.st.pop_back();
  }
}
void Exec::throwNamed(State& s, const std::string& n) {
  s.excObj = newObj(s, 64, 16, O_HEAP, 9);
  s.liveHeap--;
  s.excTI = tiAddr(*this, n);
  s.excs.push_back({s.excObj, s.excTI});
}

// ------------------------------------------------------------------ interpreter
static E* fcmp(unsigned p, E* a, E* b) {
  auto uno = [&] { return mkOr(mkFnan(a), mkFnan(b)); };
  switch (p) {
    case 0: return F();
    case 1: return mk(FEQ, a, b);
    case 2: return mk(FLT, b, a);
    case 3: return mkOr(mk(FLT, b, a), mk(FEQ, a, b));
    case 4: return mk(FLT, a, b);
    case 5: return mkOr(mk(FLT, a, b), mk(FEQ, a, b));
    case 6: return mkOr(mk(FLT, a, b), mk(FLT, b, a));
    case 7: return mkNot(uno());
    case 8: return uno();
    case 9: return mkOr(uno(), mk(FEQ, a, b));
    case 10: return mkNot(mkOr(mk(FLT, a, b), mk(FEQ, a, b)));
    case 11: return mkNot(mk(FLT, a, b));
    case 12: return mkNot(mkOr(mk(FLT, b, a), mk(FEQ, a, b)));
    case 13: return mkNot(mk(FLT, b, a));
    case 14: return mkNot(mk(FEQ, a, b));
    default: return T();
  }
}
static E* icmp(unsigned p, E* a, E* b) {
  switch (p) {
    case P_EQ: return mkEq(a, b);
    case P_NE: return mkNot(mkEq(a, b));
    case P_UGT: return mk(ULT, b, a);
    case P_UGE: return mkNot(mk(ULT, a, b));
    case P_ULT: return mk(ULT, a, b);
    case P_ULE: return mkNot(mk(ULT, b, a));
    case P_SGT: return mk(SLT, b, a);
    case P_SGE: return mkNot(mk(SLT, a, b));
    case P_SLT: return mk(SLT, a, b);
    default: return mkNot(mk(SLT, b, a));
  }
}
static void toLanes(const Val& v, std::vector<E*>& out) {
  if (v.e) { out.push_back(v.e); return; }
  if (v.g) for (auto& x : *v.g) toLanes(x, out);
}
static Val relane(const Val& v, Ty* t) {
  std::vector<E*> in;
  toLanes(v, in);
  unsigned tw = t->k == Ty::VEC ? t->el->bits : t->bits;
  u64 tn = t->k == Ty::VEC ? t->n : 1;
  if (tw > 64) return Val();
  std::vector<E*> o;
  unsigned sw = in[0]->w;
  for (u64 i = 0; i < tn; i++) {
    if (sw == tw) o.push_back(in[i]);
    else if (sw > tw) { unsigned per = sw / tw; o.push_back(mkExtract(in[i / per], (i % per + 1) * tw - 1, (i % per) * tw)); }
    else { unsigned per = tw / sw; E* e = in[i * per]; for (unsigned k = 1; k < per; k++) e = mkConcat(in[i * per + k], e); o.push_back(e); }
  }
  if (t->k != Ty::VEC) return Val(o[0]);
  Agg a;
  for (E* e : o) a.push_back(Val(e));
  return Val(std::move(a));
}

bool Exec::step(State& s) {
  Frame& f = s.st.back();
  const Inst& in = f.f->bb[f.bb].ins[f.ip];
  instrs++;
  if (++s.steps > maxSteps) violate(s, "diverge", "path exceeds the step limit in " + f.f->nice);
  auto V = [&](int i) -> const Val& { const Operand& o = in.op[i]; return o.reg >= 0 ? f.regs[o.reg] : o.c; };
  auto set = [&](Val v) { f.regs[in.dst] = std::move(v); f.ip++; };
  auto lanes2 = [&](auto fn) -> Val {
    const Val &a = V(0), &b = V(1);
    if (a.e) return Val(fn(a.e, b.e));
    Agg r;
    r.reserve(a.g->size());
    for (size_t i = 0; i < a.g->size(); i++) r.push_back(Val(fn((*a.g)[i].e, (*b.g)[i].e)));
    return Val(std::move(r));
  };
  auto lanes1 = [&](auto fn) -> Val {
    const Val& a = V(0);
    if (a.e) return Val(fn(a.e));
    Agg r;
    for (auto& x : *a.g) r.push_back(Val(fn(x.e)));
    return Val(std::move(r));
  };
  switch (in.opc) {
    case I_ALLOCA: {
      E* n = concretize(s, V(0).e);
      u64 a = newObj(s, in.imm * n->c, in.scale[0], O_STACK, 0);
      set(Val(C(a, 64)));
      break;
    }
    case I_LOAD: { Val v = load(s, V(0).e, in.ty, in.imm); set(std::move(v)); break; }
    case I_STORE: store(s, V(1).e, V(0), in.ty, in.imm); f.ip++; break;
    case I_GEP: {
      E* a = V(0).e;
      if (!a) unsupported(s, "vector gep");
      for (size_t i = 1; i < in.op.size(); i++) {
        E* x = V(i).e;
        if (x->w < 64) x = mkSext(x, 64);
        if (in.bound[i - 1]) implicitOb(s, mkUle(x, C(in.bound[i - 1], 64)), "memory", "array index out of range");
        a = mkAdd(a, mk(MUL, x, C(in.scale[i - 1], 64)));
      }
      if (in.imm) a = mkAdd(a, C(in.imm, 64));
      set(Val(a));
      break;
    }
    case I_ICMP: set(lanes2([&](E* a, E* b) { return icmp(in.sub, a, b); })); break;
    case I_FCMP: set(lanes2([&](E* a, E* b) { return fcmp(in.sub, a, b); })); break;
    case I_BIN: {
      if (in.sub >= UDIV && in.sub <= SREM && V(1).e) implicitOb(s, mkNot(mkEq(V(1).e, C(0, V(1).e->w))), "arith", "division by zero");
      set(lanes2([&](E* a, E* b) { return mk((Op)in.sub, a, b); }));
      break;
    }
    case I_SELECT: {
      const Val &c = V(0), &a = V(1), &b = V(2);
      if (c.e) {
        E* cc = c.e;
        if (!isC(cc)) { int im = s.pc->implied(cc); if (im >= 0) cc = im ? T() : F(); }
        if (isC(cc)) { set(cc->c ? a : b); break; }
        if (a.e) { set(Val(mkIte(cc, a.e, b.e))); break; }
        int d = decide(s, cc);
        set(d ? a : b);
        break;
      }
      Agg r;
      for (size_t i = 0; i < c.g->size(); i++) r.push_back(Val(mkIte((*c.g)[i].e, (*a.g)[i].e, (*b.g)[i].e)));
      set(Val(std::move(r)));
      break;
    }
    case I_BR: jump(s, in.t1); break;
    case I_CONDBR: { int d = decide(s, V(0).e); jump(s, d ? in.t1 : in.t2); break; }
    case I_SWITCH: {
      E* v = s.pc->simp(V(0).e);
      int t = in.t1;
      for (auto& [c, b] : in.cases) if (decide(s, mkEq(v, C(c, v->w)))) { t = b; break; }
      jump(s, t);
      break;
    }
    case I_RET: { Val v; if (!in.op.empty()) v = V(0); doReturn(s, std::move(v)); break; }
    case I_CALL: case I_INVOKE: {
      Func* fn = in.callee;
      std::vector<Val> args;
      size_t na = in.op.size();
      if (!fn) {
        na--;
        E* p = concretize(s, V(na).e);
        u64 i = (p->c - FN_BASE) / 16;
        if (p->c < FN_BASE || i >= M->funcs.size()) violate(s, "memory", "call through an invalid function pointer");
        fn = M->funcs[i];
      }
      args.reserve(na);
      for (size_t i = 0; i < na; i++) args.push_back(V(i));
      if (s.redir) {
        auto it = s.redir->find(fn);
        if (it != s.redir->end()) { if (s.realNext == fn) s.realNext = nullptr; else fn = it->second; }
      }
      if (!fn->hResolved) { fn->h = lookup(fn); fn->hResolved = true; }
      if (fn->h) {
        rv = Val();
        HRes r = (HRes)fn->h(*this, s, in, args);
        if (r == H_RET) complete(*this, s, std::move(rv));
        else if (r == H_THROW) doThrow(s);
        break;
      }
      if (fn->decl) { missing[fn->name]++; unsupported(s, "external function " + demangle(fn->name)); }
      if ((int)na < fn->nargs) unsupported(s, "argument count");
      pushFrame(s, fn, args);
      break;
    }
    case I_LANDINGPAD: set(s.excVal); break;
    case I_RESUME: {
      const Val& v = V(0);
      s.excObj = (*v.g)[0].e->c;
      for (auto& [o, t] : s.excs) if (o == s.excObj) s.excTI = t;
      s.stk.resize(s.st.back().stkBase);
      s.st.pop_back();
      if (s.st.empty()) violate(s, "uncaught", "exception escapes");
      doThrow(s);
      break;
    }
    case I_UNREACHABLE: violate(s, "memory", "unreachable code reached in " + f.f->nice);
    case I_EXTRACTVALUE: { Val v = V(0); for (u64 i : in.scale) { Val t = (*v.g)[i]; v = t; } set(std::move(v)); break; }
    case I_INSERTVALUE: {
      std::function<Val(const Val&, size_t)> ins = [&](const Val& v, size_t d) -> Val {
        if (d == in.scale.size()) return V(1);
        Agg a = *v.g;
        a[in.scale[d]] = ins((*v.g)[in.scale[d]], d + 1);
        return Val(std::move(a));
      };
      set(ins(V(0), 0));
      break;
    }
    case I_ZEXT: { unsigned w = in.ty->k == Ty::VEC ? in.ty->el->bits : in.ty->bits; if (w > 64) unsupported(s, "wide integer"); set(lanes1([&](E* a) { return mkZext(a, w); })); break; }
    case I_SEXT: { unsigned w = in.ty->k == Ty::VEC ? in.ty->el->bits : in.ty->bits; if (w > 64) unsupported(s, "wide integer"); set(lanes1([&](E* a) { return mkSext(a, w); })); break; }
    case I_TRUNC: { unsigned w = in.ty->k == Ty::VEC ? in.ty->el->bits : in.ty->bits; set(lanes1([&](E* a) { return mkExtract(a, w - 1, 0); })); break; }
    case I_PTRINT: { unsigned w = in.ty->bits; E* a = V(0).e; set(Val(w == a->w ? a : w < a->w ? mkExtract(a, w - 1, 0) : mkZext(a, w))); break; }
    case I_BITCAST: { Val v = relane(V(0), in.ty); if (!v.e && !v.g) unsupported(s, "wide bitcast"); set(std::move(v)); break; }
    case I_FREEZE: set(V(0)); break;
    case I_EXTRACTELT: { E* i = concretize(s, V(1).e); if (i->c >= V(0).g->size()) violate(s, "memory", "vector lane out of range"); set((*V(0).g)[i->c]); break; }
    case I_INSERTELT: { E* i = concretize(s, V(2).e); Agg a = *V(0).g; if (i->c >= a.size()) violate(s, "memory", "vector lane out of range"); a[i->c] = V(1); set(Val(std::move(a))); break; }
    case I_SHUFFLE: {
      Agg r;
      const Agg &a = *V(0).g, &b = *V(1).g;
      for (u64 m : in.scale) { int64_t k = (int64_t)m; if (k < 0) k = 0; r.push_back((size_t)k < a.size() ? a[k] : b[k - a.size()]); }
      set(Val(std::move(r)));
      break;
    }
    case I_NOP: case I_FENCE: if (in.dst >= 0) set(Val(C(0, 64))); else f.ip++; break;
    case I_ATOMICRMW: {
      E* v = V(1).e;
      E* old = loadBits(s, V(0).e, v->w, 1);
      E* nv = nullptr;
      switch (in.sub) {
        case 0: nv = v; break; case 1: nv = mkAdd(old, v); break; case 2: nv = mkSub(old, v); break;
        case 3: nv = mk(AND, old, v); break; case 5: nv = mk(OR, old, v); break; case 6: nv = mk(XOR, old, v); break;
        default: unsupported(s, "atomicrmw");
      }
      storeBits(s, V(0).e, nv, 1);
      set(Val(old));
      break;
    }
    case I_CMPXCHG: {
      E* old = loadBits(s, V(0).e, V(1).e->w, 1);
      int d = decide(s, mkEq(old, V(1).e));
      if (d) storeBits(s, V(0).e, V(2).e, 1);
      Agg a; a.push_back(Val(old)); a.push_back(Val(d ? T() : F()));
      set(Val(std::move(a)));
      break;
    }
    case I_FNEG: set(lanes1([&](E* a) { return mk(XOR, a, C(1ull << (a->w - 1), a->w)); })); break;
    case I_FARITH: {
      Val r = lanes2([&](E* a, E* b) -> E* {
        a = concretize(s, a); b = concretize(s, b);
        if (a->w == 32) { float x, y, z; u32 p = a->c, q = b->c; memcpy(&x, &p, 4); memcpy(&y, &q, 4); z = in.sub == 0 ? x + y : in.sub == 1 ? x - y : in.sub == 2 ? x * y : x / y; memcpy(&p, &z, 4); return C(p, 32); }
        double x, y, z; u64 p = a->c, q = b->c; memcpy(&x, &p, 8); memcpy(&y, &q, 8); z = in.sub == 0 ? x + y : in.sub == 1 ? x - y : in.sub == 2 ? x * y : x / y; memcpy(&p, &z, 8); return C(p, 64);
      });
      set(std::move(r));
      break;
    }
    case I_FPCONV: {
      if (in.ty->k == Ty::VEC || in.ty->bits > 64 || in.imm > 64) unsupported(s, "fp conversion");
      E* a = concretize(s, V(0).e);
      auto getf = [&]() -> double { if (in.imm == 32) { float x; u32 p = a->c; memcpy(&x, &p, 4); return x; } double x; memcpy(&x, &a->c, 8); return x; };
      auto putf = [&](double d) { if (in.ty->bits == 32) { float x = d; u32 p; memcpy(&p, &x, 4); return C(p, 32); } u64 p; memcpy(&p, &d, 8); return C(p, 64); };
      E* r = nullptr;
      switch (in.sub) {
        case 0: case 1: r = putf(getf()); break;
        case 2: r = in.ty->bits == 32 ? ({ float x = (float)sx(a->c, a->w); u32 p; memcpy(&p, &x, 4); C(p, 32); }) : putf((double)sx(a->c, a->w)); break;
        case 3: r = in.ty->bits == 32 ? ({ float x = (float)a->c; u32 p; memcpy(&p, &x, 4); C(p, 32); }) : putf((double)a->c); break;
        case 4: r = C((u64)(int64_t)getf(), in.ty->bits); break;
        default: r = C((u64)getf(), in.ty->bits); break;
      }
      set(Val(r));
      break;
    }
    default: unsupported(s, in.text);
  }
  return true;
}

// ------------------------------------------------------------------ exploration
void Exec::initState(State& s) {
  for (auto* g : M->globals) s.gl.push_back(makeGlobal(*this, s, g));
  if (auto it = M->gl.find("__libc_single_threaded"); it != M->gl.end()) s.gl[(it->second->addr - GL_BASE) / SLOT]->cells[0] = Cell{C(1, 8)->id, 0, 1};
}
void Exec::maybeSplit() {
  if (maxJobs <= 1 || work.size() < 1) return;
  int a = sh->active.load();
  if (a >= maxJobs) return;
  if (!sh->active.compare_exchange_strong(a, a + 1)) return;
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) { sh->active--; return; }
  size_t k = (work.size() + 1) / 2;
  if (p == 0) {
    work.erase(work.begin() + k, work.end());
    kids.clear();
    paths = killed = instrs = forks = obFold = obGraph = obZ3 = obFail = obImplicit = 0;
    labels.clear(); covers.clear(); errors.clear(); missing.clear();
    sol.lia = sol.quick = sol.queries = sol.sat = sol.unsat = sol.unknown = 0; sol.secs = 0;
    throw 42;  // child: abandon current state, continue with its share
  }
  kids.push_back(p);
  work.erase(work.begin(), work.begin() + k);
}
void Exec::exploreOne(std::unique_ptr<State> sp) {
  State* s = sp.get();
  try {
    while (true) {
      try {
        while (true) step(*s);
      } catch (LazyReq& r) {
        Obj& o = wr(*find(*s, r.addr));
        Lazy z = o.lz[r.idx];
        o.lz.erase(o.lz.begin() + r.idx);
        std::vector<Val> args{Val(C(z.arg, 64))};
        pushFrame(*s, M->funcs[(z.fn - FN_BASE) / 16], args);
        s->st.back().ctor = s->st.back().ghost = true;
        s->ghostDepth++;
      } catch (ForkReq& r) {
        if (sh->stop.load() || overtime()) throw PathEnd();
        if (deadline && now() > deadline) { errors["deadline reached"]++; sh->nerr++; sh->stop = 1; throw PathEnd(); }
        E* c = r.cond;
        bool mv = modelEval(*s, c);
        E* mine = mv ? c : mkNot(c);
        E* other = mkNot(mine);
        std::vector<u64> m;
        sol.base = s->modelOk ? s->model.get() : nullptr;
        int q = sol.check(s->pc->list, other, &m, *s->widths);
        sol.base = nullptr;
        if (q == 0) { addPC(*s, mine); continue; }
        forks++;
        static bool fdbg = getenv("VF_FORKDBG");
        if (fdbg) { std::string l = where(*s); std::string r; size_t n = 0; for (size_t i = 0; i < l.size() && n < 3; i++) { if (l[i] == '\n') { n++; r += " <"; } else r += l[i]; } fprintf(stderr, "FORK %s %s\n", r.c_str(), str(c, 4).c_str()); }
        auto s2 = std::make_unique<State>(*s);
        addPC(*s2, other);
        if (q == 1) { s2->model = std::make_shared<std::vector<u64>>(std::move(m)); s2->modelOk = true; }
        else s2->modelOk = false;
        addPC(*s, mine);
        work.push_back(std::move(s2));
        maybeSplit();
      }
    }
  } catch (PathEnd&) {
    paths++;
  }
}
void Exec::finish() {
  std::string fn = out + "/stats." + std::to_string(getpid()) + ".txt";
  FILE* f = fopen(fn.c_str(), "w");
  auto w = [&](const char* k, u64 v) { fprintf(f, "N %s %llu\n", k, (unsigned long long)v); };
  w("paths", paths); w("killed", killed); w("instrs", instrs); w("forks", forks); w("ob_fold", obFold); w("ob_order", obGraph); w("ob_z3", obZ3); w("ob_fail", obFail); w("ob_implicit", obImplicit);
  w("z3_queries", sol.queries); w("order_models", sol.quick); w("z3_sat", sol.sat); w("z3_unsat", sol.unsat); w("z3_unknown", sol.unknown); w("z3_linear_integer", sol.lia); w("z3_us", (u64)(sol.secs * 1e6));
  w("terms", exprCount());
  for (auto& [k, v] : labels) fprintf(f, "L %llu %s\n", (unsigned long long)v, k.c_str());
  for (auto& [k, v] : covers) fprintf(f, "C %llu %s\n", (unsigned long long)v, k.c_str());
  for (auto& [k, v] : errors) fprintf(f, "E %llu %s\n", (unsigned long long)v, k.c_str());
  for (auto& [k, v] : missing) fprintf(f, "M %llu %s\n", (unsigned long long)v, k.c_str());
  for (auto* fn2 : M->funcs) if (fn2->decoded && fn2->cov && fn2->calls) {
    fprintf(f, "F %u %llu ", fn2->id, (unsigned long long)fn2->calls);
    for (u8 h : fn2->hit) fputc(h ? '1' : '0', f);
    std::string ln;
    fprintf(f, " ");
    for (auto& b : fn2->bb) { u32 l = 0; for (auto& i : b.ins) if (i.line) { l = i.line; break; } fprintf(f, "%u,", l); }
    fprintf(f, " %s\n", fn2->nice.c_str());
  }
  fclose(f);
}
void Exec::run(const std::string& entry) {
  auto it = M->fn.find(entry);
  if (it == M->fn.end() || it->second->decl) { fprintf(stderr, "engine: no entry %s\n", entry.c_str()); exit(3); }
  auto s = std::make_unique<State>();
  initState(*s);
  std::vector<Val> none;
  pushFrame(*s, it->second, none);
  for (size_t i = M->ctors.size(); i-- > 0;) { pushFrame(*s, M->ctors[i], none); s->st.back().ctor = true; }
  work.push_back(std::move(s));
  pid_t top = getpid();
  while (true) {
    try {
      while (!work.empty()) {
        auto w = std::move(work.back());
        work.pop_back();
        exploreOne(std::move(w));
        if (overtime() || sh->stop.load()) work.clear();
        if (work.size() >= 2) maybeSplit();
      }
      break;
    } catch (int) { /* child of a split */ }
  }
  finish();
  sh->active--;
  for (int k : kids) {
    int st;
    waitpid(k, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { sh->nerr++; FILE* f = fopen((out + "/stats.crash" + std::to_string(k) + ".txt").c_str(), "w"); fprintf(f, "E 1 worker process died\n"); fclose(f); }
  }
  if (getpid() != top) _exit(0);
}
