// Models of external functions: verification intrinsics, C/C++ runtime, LLVM intrinsics.
#include "exec.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#define H(name) static int name(Exec& ex, State& s, const Inst& in, std::vector<Val>& a)
typedef std::vector<Val> Args;
static E* bool1(E* e) { return e->w == 1 ? e : mkNot(mkEq(e, C(0, e->w))); }
static const char* keep(const std::string& x) { static std::set<std::string> pool; return pool.insert(x).first->c_str(); }

// ---- verification intrinsics
template <unsigned W> H(vfNondet) { ex.rv = Val(ex.freshVar(s, W, keep(ex.cstr(s, a[0].e)), true)); return H_RET; }
static int chooseNamed(Exec& ex, State& s, const Inst& in, u64 n, const char* nm);
H(vfChoose) { return chooseNamed(ex, s, in, ex.concretize(s, a[0].e)->c, keep(ex.cstr(s, a[1].e))); }
static int chooseNamed(Exec& ex, State& s, const Inst& in, u64 n, const char* nm) {
  if (n == 0) throw PathEnd();
  auto fin = [&](State& t, u64 v) {
    if (t.inputs.use_count() > 1) t.inputs = std::make_shared<std::vector<Input>>(*t.inputs);
    t.inputs->push_back({nm, nullptr, v, 0});
    Frame& f = t.st.back();
    if (in.dst >= 0) f.regs[in.dst] = Val(C(v, 64));
    if (in.opc == I_INVOKE) ex.jump(t, in.t1); else f.ip++;
  };
  for (u64 v = n; v-- > 1;) {
    auto t = std::make_unique<State>(s);
    fin(*t, v);
    ex.work.push_back(std::move(t));
    ex.forks++;
  }
  fin(s, 0);
  if (n > 1) ex.maybeSplit();
  return H_DONE;
}
H(vfAssume) {
  E* c = bool1(a[0].e);
  c = s.pc->simp(c);
  if (isTrue(c)) return H_RET;
  if (isFalse(c)) { ex.killed++; throw PathEnd(); }
  if (!(s.modelOk && evalE(c, *s.model))) {
    std::vector<u64> m;
    ex.sol.base = s.modelOk ? s.model.get() : nullptr;
    int q = ex.sol.check(s.pc->list, c, &m, *s.widths);
    ex.sol.base = nullptr;
    if (q == 0) { ex.killed++; throw PathEnd(); }
    if (q == 1) { s.model = std::make_shared<std::vector<u64>>(std::move(m)); s.modelOk = true; } else s.modelOk = false;
  }
  ex.addPC(s, c);
  return H_RET;
}
H(vfCheck) {
  std::string l = ex.cstr(s, a[1].e);
  ex.labels[l]++;
  ex.obligation(s, bool1(a[0].e), "property", l);
  return H_RET;
}
H(vfCover) { ex.covers[ex.cstr(s, a[0].e)]++; return H_RET; }
H(vfFail) { std::string l = ex.cstr(s, a[0].e); ex.labels[l]++; ex.violate(s, "property", l); }
H(vfEnd) { throw PathEnd(); }
H(vfStub) {
  auto fn = [&](E* e) -> Func* { if (!isC(e)) return nullptr; u64 i = (e->c - FN_BASE) / 16; return i < ex.M->funcs.size() ? ex.M->funcs[i] : nullptr; };
  auto m = s.redir ? std::make_shared<std::unordered_map<Func*, Func*>>(*s.redir) : std::make_shared<std::unordered_map<Func*, Func*>>();
  Func *x = fn(a[0].e), *y = fn(a[1].e);
  if (!x) ex.unsupported(s, "vf_stub");
  if (y) (*m)[x] = y; else m->erase(x);
  s.redir = m;
  return H_RET;
}
H(vfRealNext) { u64 i = (a[0].e->c - FN_BASE) / 16; s.realNext = ex.M->funcs[i]; return H_RET; }
H(vfHeapLive) { ex.rv = Val(C(s.liveHeap, 64)); return H_RET; }
H(vfAllocs) { ex.rv = Val(C(s.allocs, 64)); return H_RET; }
H(vfFailAlloc) { E* n = ex.concretize(s, a[0].e); s.allocCountdown = (int64_t)n->c; return H_RET; }
H(vfFreezeHeap) { E* n = ex.concretize(s, a[0].e); s.ghost[0] = n->c ? s.heap.size() : 0; return H_RET; }
H(vfFreeze) { E* p = ex.concretize(s, a[0].e); ObjP* o = ex.find(s, p->c); if (!o || !*o) ex.unsupported(s, "vf_freeze"); ex.wr(*o).frozen = ex.concretize(s, a[1].e)->c; return H_RET; }
H(vfPoison) { E* p = ex.concretize(s, a[0].e); ObjP* o = ex.find(s, p->c); if (!o || !*o) ex.unsupported(s, "vf_poison"); ex.wr(*o).poisoned = ex.concretize(s, a[1].e)->c; return H_RET; }
H(vfIte) { ex.rv = Val(mkIte(bool1(a[0].e), a[1].e, a[2].e)); return H_RET; }
H(vfConcrete) { ex.rv = Val(ex.concretize(s, a[0].e)); return H_RET; }
H(vfRegion) { ex.rv = Val(C(ex.newBig(s, a[0].e, ex.concretize(s, a[1].e)->c), 64)); return H_RET; }
H(vfBaseOf) {   // start address of the object a pointer's value lies in (its claim is checked by the contract)
  E* p = a[0].e;
  if (!isC(p)) p = s.pc->simp(p);
  ObjP* o = nullptr;
  if (isC(p)) o = ex.find(s, p->c);
  else {
    if (p->op == ADD && isC(p->b)) o = ex.find(s, p->b->c);
    if (!o || !*o) o = ex.find(s, ex.modelEval(s, p));
  }
  ex.rv = Val(C(o && *o ? (*o)->base : 0, 64));
  return H_RET;
}
H(vfRegionFree) {
  E* p = ex.concretize(s, a[0].e);
  ObjP* o = ex.find(s, p->c);
  bool ok = o && *o && (*o)->kind == O_BIG && (*o)->base == p->c && (*o)->alive;
  if (!ok) { ex.rv = Val(C(0, 32)); return H_RET; }
  Obj& w = ex.wr(*o);
  w.alive = false;
  ex.rv = Val(C(1, 32));
  return H_RET;
}
H(vfLazy) {
  u64 p = ex.concretize(s, a[0].e)->c, n = ex.concretize(s, a[1].e)->c, f = ex.concretize(s, a[2].e)->c, g = ex.concretize(s, a[3].e)->c;
  ObjP* o = ex.find(s, p);
  if (!o || !*o || !(*o)->alive || (*o)->kind == O_BIG || p < (*o)->base || p + n > (*o)->base + (*o)->size || f < FN_BASE || (f - FN_BASE) / 16 >= ex.M->funcs.size()) ex.unsupported(s, "vf_lazy");
  ex.wr(*o).lz.push_back({p - (*o)->base, n, f, g});
  return H_RET;
}
H(vfGhost) { if (ex.concretize(s, a[0].e)->c) s.ghostDepth++; else s.ghostDepth--; return H_RET; }
H(vfTag) {
  u64 p = ex.concretize(s, a[0].e)->c, v = ex.concretize(s, a[1].e)->c;
  ObjP* o = ex.find(s, p);
  if (!o || !*o) ex.unsupported(s, "vf_tag");
  ex.wr(*o).tag = v;
  return H_RET;
}
H(vfGetTag) { u64 p = ex.concretize(s, a[0].e)->c; ObjP* o = ex.find(s, p); ex.rv = Val(C(o && *o && (*o)->alive && (*o)->base == p ? (*o)->tag : 0, 64)); return H_RET; }
static const char* nameAt(Exec& ex, State& s, E* n, E* x, E* y) {
  return keep(ex.cstr(s, n) + "@" + std::to_string(ex.concretize(s, x)->c) + (y ? "." + std::to_string(ex.concretize(s, y)->c) : ""));
}
H(vfNondetAt) {
  E* v = ex.freshVar(s, 64, nameAt(ex, s, a[0].e, a[1].e, a[2].e), true);
  if (s.modelOk) (*s.model)[v->c] = evalE(a[3].e, *s.model);   // the suggested value is only a starting point for the model
  ex.rv = Val(v);
  return H_RET;
}
static int chooseNamed(Exec& ex, State& s, const Inst& in, u64 n, const char* nm);
H(vfChooseAt) { return chooseNamed(ex, s, in, ex.concretize(s, a[0].e)->c, nameAt(ex, s, a[1].e, a[2].e, nullptr)); }
H(vfIsSymbolic) { ex.rv = Val(C(1, 32)); return H_RET; }
H(vfKnown) { int im = s.pc->implied(bool1(a[0].e)); ex.rv = Val(C(im < 0 ? 2 : im, 32)); return H_RET; }
H(vfAlive) { E* p = ex.concretize(s, a[0].e); ObjP* o = ex.find(s, p->c); ex.rv = Val(C(o && *o && (*o)->alive, 32)); return H_RET; }
H(vfLog) { std::string l = ex.cstr(s, a[0].e); fprintf(stderr, "[log] %s %s\n", l.c_str(), str(s.pc->simp(a[1].e)).c_str()); return H_RET; }

// ---- allocation
static bool allocFails(State& s) {
  if (s.ghostDepth) return false;
  s.allocs++;
  if (s.allocCountdown < 0) return false;
  if (s.allocCountdown == 0) { s.allocCountdown = -1; return true; }
  s.allocCountdown--;
  return false;
}
static int doNew(Exec& ex, State& s, E* size, E* align, int how, bool nothrow) {
  // request beyond the address space: operator new throws
  E* big = mkUlt(C(SLOT / 2, 64), size);
  if (ex.decide(s, big)) {
    if (nothrow) { ex.rv = Val(C(0, 64)); return H_RET; }
    ex.throwNamed(s, "_ZTISt9bad_alloc");
    return H_THROW;
  }
  size = ex.concretize(s, size);
  u64 al = align ? ex.concretize(s, align)->c : 16;
  if (allocFails(s)) {
    if (nothrow) { ex.rv = Val(C(0, 64)); return H_RET; }
    ex.throwNamed(s, "_ZTISt9bad_alloc");
    return H_THROW;
  }
  u64 p = ex.newObj(s, size->c, al, O_HEAP, how);
  ex.rv = Val(C(p, 64));
  return H_RET;
}
H(opNew) { return doNew(ex, s, a[0].e, nullptr, 0, false); }
H(opNewArr) { return doNew(ex, s, a[0].e, nullptr, 2, false); }
H(opNewAl) { return doNew(ex, s, a[0].e, a[1].e, 1, false); }
H(opNewNT) { return doNew(ex, s, a[0].e, nullptr, 0, true); }
H(opNewAlNT) { return doNew(ex, s, a[0].e, a[1].e, 1, true); }
H(opDel) { ex.freeObj(s, ex.concretize(s, a[0].e)->c, "delete", 0, nullptr, nullptr); return H_RET; }
H(opDelSz) { ex.freeObj(s, ex.concretize(s, a[0].e)->c, "delete", 0, a[1].e, nullptr); return H_RET; }
H(opDelAl) { ex.freeObj(s, ex.concretize(s, a[0].e)->c, "delete", 1, nullptr, a[1].e); return H_RET; }
H(opDelSzAl) { ex.freeObj(s, ex.concretize(s, a[0].e)->c, "delete", 1, a[1].e, a[2].e); return H_RET; }
H(opDelArr) { ex.freeObj(s, ex.concretize(s, a[0].e)->c, "delete[]", 2, nullptr, nullptr); return H_RET; }
H(cMalloc) { return doNew(ex, s, a[0].e, nullptr, 3, true); }
H(cFree) { ex.freeObj(s, ex.concretize(s, a[0].e)->c, "free", 3, nullptr, nullptr); return H_RET; }

// ---- memory intrinsics
H(memCpy) { ex.copyMem(s, a[0].e, a[1].e, a[2].e, true); ex.rv = a[0]; return H_RET; }
H(memSet) { ex.setMem(s, a[0].e, a[1].e, a[2].e); ex.rv = a[0]; return H_RET; }
H(memCmp) {
  E* n = ex.concretize(s, a[2].e);
  E* r = C(0, 32);
  std::vector<std::pair<E*, E*>> b;
  for (u64 i = 0; i < n->c; i++) b.push_back({ex.loadBits(s, mkAdd(a[0].e, C(i, 64)), 8, 1), ex.loadBits(s, mkAdd(a[1].e, C(i, 64)), 8, 1)});
  for (u64 i = n->c; i-- > 0;) r = mkIte(mkEq(b[i].first, b[i].second), r, mkIte(mkUlt(b[i].first, b[i].second), C(-1, 32), C(1, 32)));
  ex.rv = Val(r);
  return H_RET;
}
H(strLen) { ex.rv = Val(C(ex.cstr(s, ex.concretize(s, a[0].e)).size(), 64)); return H_RET; }

// ---- failures
H(assertFail) { std::string m = ex.cstr(s, a[0].e); ex.obImplicit++; ex.violate(s, "assert", "assertion failed: " + m); }
H(doAbort) { ex.violate(s, "abort", "abort() reached"); }
H(doTerminate) { ex.violate(s, "abort", "std::terminate() reached"); }
H(doTrap) { ex.violate(s, "abort", "trap reached"); }

// ---- exceptions
H(cxaAllocExc) {
  E* n = ex.concretize(s, a[0].e);
  u64 p = ex.newObj(s, std::max<u64>(n->c, 64), 16, O_HEAP, 9);
  s.liveHeap--;
  ex.rv = Val(C(p, 64));
  return H_RET;
}
H(cxaFreeExc) { return H_RET; }
H(cxaThrow) {
  s.excObj = ex.concretize(s, a[0].e)->c; s.excTI = ex.concretize(s, a[1].e)->c;
  s.excs.push_back({s.excObj, s.excTI});
  return H_THROW;
}
H(cxaBegin) { s.caught.push_back(ex.concretize(s, a[0].e)->c); ex.rv = a[0]; return H_RET; }
H(cxaEnd) { if (!s.caught.empty()) s.caught.pop_back(); return H_RET; }
H(cxaRethrow) {
  if (s.caught.empty()) ex.violate(s, "abort", "rethrow with no exception");
  s.excObj = s.caught.back();
  for (auto& [o, t] : s.excs) if (o == s.excObj) s.excTI = t;
  return H_THROW;
}
H(ehTypeid) { u64 t = a[0].e->c; ex.rv = Val(C(t ? (t - GL_BASE) / SLOT + 1 : 0x7ffffff, 32)); return H_RET; }
H(nop) { if (in.dst >= 0) ex.rv = a.empty() ? Val(C(0, 64)) : a[0]; return H_RET; }
H(ret0) { if (in.dst >= 0) ex.rv = Val(C(0, in.ty->bits ? in.ty->bits : 64)); return H_RET; }
H(ret1) { if (in.dst >= 0) ex.rv = Val(C(1, in.ty->bits ? in.ty->bits : 64)); return H_RET; }
template <int K> H(throwStd) {
  static const char* n[] = {"_ZTISt12length_error", "_ZTISt12out_of_range", "_ZTISt9bad_alloc", "_ZTISt20bad_array_new_length", "_ZTISt11logic_error", "_ZTISt17bad_function_call", "_ZTISt19bad_optional_access", "_ZTISt16invalid_argument"};
  ex.throwNamed(s, n[K]);
  return H_THROW;
}
H(guardAcq) { E* b = ex.loadBits(s, a[0].e, 8, 1); E* c = ex.concretize(s, b); ex.rv = Val(C(c->c == 0, 32)); return H_RET; }
H(guardRel) { ex.storeBits(s, a[0].e, C(1, 8), 1); return H_RET; }

// ---- libstdc++ hash policy (the library's own algorithm, on concrete arguments; table abbreviated)
static const u64 primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30727, 62233};
H(nextBkt) {
  u64 n = ex.concretize(s, a[1].e)->c;
  u64 p = 13;
  if (n < 14) { static const u64 fast[] = {1, 2, 3, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13}; p = fast[n]; if (n == 0) { ex.rv = Val(C(1, 64)); return H_RET; } }
  else { static const u64 big[] = {17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 67, 71, 79, 97, 109, 127, 137, 157, 199, 257, 541, 1109, 2357, 5087, 10273, 20753}; for (u64 x : big) { p = x; if (x >= n) break; } }
  float mlf; E* m = ex.concretize(s, ex.loadBits(s, a[0].e, 32, 1)); u32 mb = m->c; memcpy(&mlf, &mb, 4);
  ex.storeBits(s, mkAdd(a[0].e, C(8, 64)), C((u64)(p * (double)mlf), 64), 1);
  ex.rv = Val(C(p, 64));
  return H_RET;
}
H(needRehash) {
  u64 nbkt = ex.concretize(s, a[1].e)->c, nel = ex.concretize(s, a[2].e)->c, nins = ex.concretize(s, a[3].e)->c;
  E* nr = ex.concretize(s, ex.loadBits(s, mkAdd(a[0].e, C(8, 64)), 64, 1));
  E* m = ex.concretize(s, ex.loadBits(s, a[0].e, 32, 1)); float mlf; u32 mb = m->c; memcpy(&mlf, &mb, 4);
  Agg r;
  u64 nb = nbkt; bool need = false;
  if (nel + nins > nr->c) {
    double mb2 = std::max<u64>(nel + nins, nr->c ? 0 : 11) / (double)mlf;
    if (mb2 >= nbkt) {
      need = true;
      std::vector<Val> b{a[0], Val(C(std::max<u64>((u64)mb2 + 1, nbkt * 2), 64))};
      nextBkt(ex, s, in, b);
      nb = ex.rv.e->c;
    } else ex.storeBits(s, mkAdd(a[0].e, C(8, 64)), C((u64)(nbkt * (double)mlf), 64), 1);
  }
  r.push_back(Val(C(need, in.ty->f[0]->bits))); r.push_back(Val(C(need ? nb : 0, 64)));
  ex.rv = Val(std::move(r));
  return H_RET;
}

// ---- arithmetic intrinsics
static Val lanewise(Exec&, const Val& a, const Val& b, const std::function<E*(E*, E*)>& f) {
  if (a.e) return Val(f(a.e, b.e));
  Agg r;
  for (size_t i = 0; i < a.g->size(); i++) r.push_back(Val(f((*a.g)[i].e, b.g ? (*b.g)[i].e : b.e)));
  return Val(std::move(r));
}
template <int K> H(minmax) {
  ex.rv = lanewise(ex, a[0], a[1], [](E* x, E* y) {
    E* lt = K < 2 ? mk(ULT, x, y) : mk(SLT, x, y);
    return K % 2 == 0 ? mkIte(lt, x, y) : mkIte(lt, y, x);
  });
  return H_RET;
}
template <int K> H(ovf) {
  E *x = a[0].e, *y = a[1].e, *r, *o;
  unsigned w = x->w;
  E* z = C(0, w);
  switch (K) {
    case 0: r = mkAdd(x, y); o = mkUlt(r, x); break;                       // uadd
    case 1: r = mkSub(x, y); o = mkUlt(x, y); break;                       // usub
    case 2: r = mk(MUL, x, y); o = mk(UMULO, x, y); if (isC(y)) o = y->c == 0 ? F() : mkUlt(C(maskw(w) / y->c, w), x); else if (isC(x)) o = x->c == 0 ? F() : mkUlt(C(maskw(w) / x->c, w), y); break;  // umul
    case 3: r = mkAdd(x, y); o = mk(XOR, mk(SLT, r, x), mk(SLT, y, z)); break;  // sadd
    case 4: r = mkSub(x, y); o = mk(XOR, mk(SLT, x, r), mk(SLT, y, z)); break;  // ssub
    default: ex.unsupported(s, "smul overflow");
  }
  Agg g; g.push_back(Val(r)); g.push_back(Val(o));
  ex.rv = Val(std::move(g));
  return H_RET;
}
static E* cttzE(E* x) {
  unsigned w = x->w;
  E* r = C(w, w);
  for (unsigned i = w; i-- > 0;) r = mkIte(mkEq(mkExtract(x, i, i), T()), C(i, w), r);
  return r;
}
static E* ctlzE(E* x) {
  unsigned w = x->w;
  E* r = C(w, w);
  for (unsigned i = 0; i < w; i++) r = mkIte(mkEq(mkExtract(x, i, i), T()), C(w - 1 - i, w), r);
  return r;
}
static E* ctpopE(E* x) {
  E* r = C(0, x->w);
  for (unsigned i = 0; i < x->w; i++) r = mkAdd(r, x->w == 1 ? x : mkZext(mkExtract(x, i, i), x->w));
  return r;
}
H(cttz) { if (isTrue(a[1].e)) ex.implicitOb(s, mkNot(mkEq(a[0].e, C(0, a[0].e->w))), "arith", "count-trailing-zeros of zero"); ex.rv = Val(cttzE(a[0].e)); return H_RET; }
H(ctlz) { if (isTrue(a[1].e)) ex.implicitOb(s, mkNot(mkEq(a[0].e, C(0, a[0].e->w))), "arith", "count-leading-zeros of zero"); ex.rv = Val(ctlzE(a[0].e)); return H_RET; }
H(ctpop) { ex.rv = Val(ctpopE(a[0].e)); return H_RET; }
H(bswap) { E* x = a[0].e; E* r = nullptr; for (unsigned i = 0; i < x->w; i += 8) { E* b = mkExtract(x, i + 7, i); r = r ? mkConcat(r, b) : b; } ex.rv = Val(r); return H_RET; }
H(absI) { E* x = a[0].e; ex.rv = Val(mkIte(mk(SLT, x, C(0, x->w)), mkSub(C(0, x->w), x), x)); return H_RET; }
template <int L> H(fsh) {  // funnel shift with constant amount
  E* c = ex.concretize(s, a[2].e); unsigned w = a[0].e->w, k = c->c % w;
  if (L) ex.rv = Val(k ? mk(OR, mk(SHL, a[0].e, C(k, w)), mk(LSHR, a[1].e, C(w - k, w))) : a[0].e);
  else ex.rv = Val(k ? mk(OR, mk(SHL, a[0].e, C(w - k, w)), mk(LSHR, a[1].e, C(k, w))) : a[1].e);
  return H_RET;
}
H(expect) { ex.rv = a[0]; return H_RET; }
H(movmsk) {
  E* r = nullptr;
  for (auto& l : *a[0].g) { E* b = mkExtract(l.e, l.e->w - 1, l.e->w - 1); r = r ? mkConcat(b, r) : b; }
  ex.rv = Val(mkZext(r, 32));
  return H_RET;
}
static E* fcmpImm(unsigned p, E* a, E* b) {
  auto uno = [&] { return mkOr(mkFnan(a), mkFnan(b)); };
  switch (p & 15) {
    case 0: return mk(FEQ, a, b);
    case 1: return mk(FLT, a, b);
    case 2: return mkOr(mk(FLT, a, b), mk(FEQ, a, b));
    case 3: return uno();
    case 4: return mkNot(mk(FEQ, a, b));
    case 5: return mkNot(mk(FLT, a, b));
    case 6: return mkNot(mkOr(mk(FLT, a, b), mk(FEQ, a, b)));
    case 7: return mkNot(uno());
    case 8: return mkOr(uno(), mk(FEQ, a, b));
    case 9: return mkNot(mkOr(mk(FLT, b, a), mk(FEQ, a, b)));
    case 10: return mkNot(mk(FLT, b, a));
    case 11: return F();
    case 12: return mkOr(mk(FLT, a, b), mk(FLT, b, a));
    case 13: return mkOr(mk(FLT, b, a), mk(FEQ, a, b));
    case 14: return mk(FLT, b, a);
    default: return T();
  }
}
H(fcmpPacked) {
  unsigned p = a[2].e->c;
  ex.rv = lanewise(ex, a[0], a[1], [&](E* x, E* y) { return mkSext(fcmpImm(p, x, y), x->w); });
  return H_RET;
}
template <int K> H(reduce) {
  E* r = nullptr;
  for (auto& l : *a[0].g) r = !r ? l.e : mk(K == 0 ? OR : K == 1 ? AND : K == 2 ? ADD : XOR, r, l.e);
  ex.rv = Val(r);
  return H_RET;
}
template <int K> H(ptestv) {  // ptestz / ptestc / ptestnzc
  E *z = T(), *c = T();
  for (size_t i = 0; i < a[0].g->size(); i++) {
    E *x = (*a[0].g)[i].e, *y = (*a[1].g)[i].e;
    z = mkAnd(z, mkEq(mk(AND, x, y), C(0, x->w)));
    c = mkAnd(c, mkEq(mk(AND, mk(XOR, x, C(~0ull, x->w)), y), C(0, x->w)));
  }
  E* r = K == 0 ? z : K == 1 ? c : mkAnd(mkNot(z), mkNot(c));
  ex.rv = Val(mkZext(r, 32));
  return H_RET;
}
H(pshufb) {
  auto &x = *a[0].g, &m = *a[1].g;
  Agg r;
  for (size_t i = 0; i < x.size(); i++) {
    E* k = ex.concretize(s, m[i].e);
    r.push_back((k->c & 0x80) ? Val(C(0, 8)) : x[(i & ~15ull) + (k->c & 15)]);
  }
  ex.rv = Val(std::move(r));
  return H_RET;
}
H(blendv) {
  Agg r;
  for (size_t i = 0; i < a[0].g->size(); i++) { E* m = (*a[2].g)[i].e; r.push_back(Val(mkIte(mkExtract(m, m->w - 1, m->w - 1), (*a[1].g)[i].e, (*a[0].g)[i].e))); }
  ex.rv = Val(std::move(r));
  return H_RET;
}

Handler Exec::lookup(Func* f) {
  static const std::unordered_map<std::string, Handler> t = {
    {"vf_nondet_u8", (Handler)vfNondet<8>}, {"vf_nondet_u16", (Handler)vfNondet<16>}, {"vf_nondet_u32", (Handler)vfNondet<32>}, {"vf_nondet_u64", (Handler)vfNondet<64>},
    {"vf_choose", vfChoose}, {"vf_assume", vfAssume}, {"vf_check", vfCheck}, {"vf_cover", vfCover}, {"vf_fail", vfFail}, {"vf_end", vfEnd},
    {"vf_stub", vfStub}, {"vf_real_next", vfRealNext}, {"vf_heap_live", vfHeapLive}, {"vf_allocs", vfAllocs}, {"vf_fail_alloc", vfFailAlloc},
    {"vf_freeze_heap", vfFreezeHeap}, {"vf_freeze", vfFreeze}, {"vf_poison", vfPoison}, {"vf_ite", vfIte}, {"vf_concrete", vfConcrete},
    {"vf_region", vfRegion}, {"vf_region_free", vfRegionFree}, {"vf_base_of", vfBaseOf}, {"vf_symbolic", vfIsSymbolic}, {"vf_known", vfKnown}, {"vf_lazy", vfLazy}, {"vf_ghost", vfGhost}, {"vf_tag", vfTag}, {"vf_get_tag", vfGetTag}, {"vf_nondet_u64_at", vfNondetAt}, {"vf_choose_at", vfChooseAt}, {"vf_alive", vfAlive}, {"vf_log", vfLog},
    {"_Znwm", opNew}, {"_Znam", opNewArr}, {"_ZnwmSt11align_val_t", opNewAl}, {"_ZnwmRKSt9nothrow_t", opNewNT}, {"_ZnwmSt11align_val_tRKSt9nothrow_t", opNewAlNT},
    {"_ZdlPv", opDel}, {"_ZdlPvm", opDelSz}, {"_ZdlPvSt11align_val_t", opDelAl}, {"_ZdlPvmSt11align_val_t", opDelSzAl}, {"_ZdaPv", opDelArr}, {"_ZdaPvm", opDelArr},
    {"malloc", cMalloc}, {"free", cFree},
    {"memcpy", memCpy}, {"memmove", memCpy}, {"memset", memSet}, {"memcmp", memCmp}, {"bcmp", memCmp}, {"strlen", strLen},
    {"__assert_fail", assertFail}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", assertFail}, {"abort", doAbort}, {"_ZSt9terminatev", doTerminate}, {"exit", doAbort},
    {"__cxa_allocate_exception", cxaAllocExc}, {"__cxa_free_exception", cxaFreeExc}, {"__cxa_throw", cxaThrow}, {"__cxa_begin_catch", cxaBegin}, {"__cxa_end_catch", cxaEnd}, {"__cxa_rethrow", cxaRethrow},
    {"__cxa_get_exception_ptr", nop},
    {"__cxa_guard_acquire", guardAcq}, {"__cxa_guard_release", guardRel}, {"__cxa_guard_abort", nop}, {"__cxa_atexit", ret0}, {"__cxa_pure_virtual", doAbort},
    {"_ZSt20__throw_length_errorPKc", (Handler)throwStd<0>}, {"_ZSt20__throw_out_of_rangePKc", (Handler)throwStd<1>}, {"_ZSt24__throw_out_of_range_fmtPKcz", (Handler)throwStd<1>},
    {"_ZSt17__throw_bad_allocv", (Handler)throwStd<2>}, {"_ZSt28__throw_bad_array_new_lengthv", (Handler)throwStd<3>}, {"_ZSt19__throw_logic_errorPKc", (Handler)throwStd<4>},
    {"_ZSt25__throw_bad_function_callv", (Handler)throwStd<5>}, {"_ZSt24__throw_invalid_argumentPKc", (Handler)throwStd<7>},
    {"_ZNSt13runtime_errorC1EPKc", nop}, {"_ZNSt13runtime_errorD1Ev", nop}, {"_ZNSt13runtime_errorC1ERKS_", nop}, {"_ZNSt11logic_errorC1EPKc", nop}, {"_ZNSt11logic_errorD1Ev", nop},
    {"_ZNSt12out_of_rangeC1EPKc", nop}, {"_ZNSt12out_of_rangeD1Ev", nop}, {"_ZNSt12length_errorC1EPKc", nop}, {"_ZNSt12length_errorD1Ev", nop},
    {"_ZNSt16invalid_argumentC1EPKc", nop}, {"_ZNSt16invalid_argumentD1Ev", nop}, {"_ZNSt9exceptionD2Ev", nop}, {"_ZNSt9bad_allocD1Ev", nop}, {"_ZNSt9bad_allocD2Ev", nop},
    {"_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm", nextBkt}, {"_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm", needRehash},
    {"llvm.x86.avx2.pmovmskb", movmsk}, {"llvm.x86.sse2.pmovmskb.128", movmsk}, {"llvm.x86.sse.movmsk.ps", movmsk}, {"llvm.x86.sse2.movmsk.pd", movmsk}, {"llvm.x86.avx.movmsk.ps.256", movmsk}, {"llvm.x86.avx.movmsk.pd.256", movmsk},
    {"llvm.x86.sse.cmp.ps", fcmpPacked}, {"llvm.x86.sse2.cmp.pd", fcmpPacked}, {"llvm.x86.avx.cmp.ps.256", fcmpPacked}, {"llvm.x86.avx.cmp.pd.256", fcmpPacked},
    {"llvm.x86.sse41.ptestz", (Handler)ptestv<0>}, {"llvm.x86.avx.ptestz.256", (Handler)ptestv<0>}, {"llvm.x86.sse41.ptestc", (Handler)ptestv<1>}, {"llvm.x86.avx.ptestc.256", (Handler)ptestv<1>},
    {"llvm.x86.sse41.ptestnzc", (Handler)ptestv<2>}, {"llvm.x86.avx.ptestnzc.256", (Handler)ptestv<2>},
    {"llvm.x86.ssse3.pshuf.b.128", pshufb}, {"llvm.x86.avx2.pshuf.b", pshufb}, {"llvm.x86.sse41.pblendvb", blendv}, {"llvm.x86.avx2.pblendvb", blendv},
  };
  const std::string& n = f->name;
  // constructors, copies and destructors of the standard exception classes: the message is not modelled
  if (f->decl) {
    static const char* exc[] = {"13runtime_error", "11logic_error", "12out_of_range", "12length_error", "16invalid_argument", "12domain_error", "11range_error", "14overflow_error", "15underflow_error", "9exception", "9bad_alloc"};
    for (auto* e : exc) { std::string p = std::string("_ZNSt") + e; if (n.rfind(p, 0) == 0 && (n[p.size()] == 'C' || n[p.size()] == 'D')) return nop; }
  }
  auto it = t.find(n);
  if (it != t.end()) return it->second;
  if (!f->decl) return nullptr;
  auto sw = [&](const char* p) { return n.rfind(p, 0) == 0; };
  if (sw("llvm.")) {
    if (sw("llvm.memcpy.") || sw("llvm.memmove.")) return memCpy;
    if (sw("llvm.memset.")) return memSet;
    if (sw("llvm.threadlocal.address")) return nop;
    if (sw("llvm.umin.")) return (Handler)minmax<0>;
    if (sw("llvm.umax.")) return (Handler)minmax<1>;
    if (sw("llvm.smin.")) return (Handler)minmax<2>;
    if (sw("llvm.smax.")) return (Handler)minmax<3>;
    if (sw("llvm.uadd.with")) return (Handler)ovf<0>;
    if (sw("llvm.usub.with")) return (Handler)ovf<1>;
    if (sw("llvm.umul.with")) return (Handler)ovf<2>;
    if (sw("llvm.sadd.with")) return (Handler)ovf<3>;
    if (sw("llvm.ssub.with")) return (Handler)ovf<4>;
    if (sw("llvm.cttz.")) return cttz;
    if (sw("llvm.ctlz.")) return ctlz;
    if (sw("llvm.ctpop.")) return ctpop;
    if (sw("llvm.bswap.")) return bswap;
    if (sw("llvm.abs.")) return absI;
    if (sw("llvm.fshl.")) return (Handler)fsh<1>;
    if (sw("llvm.fshr.")) return (Handler)fsh<0>;
    if (sw("llvm.expect.") || sw("llvm.launder") || sw("llvm.strip.inv") || sw("llvm.ptr.annotation")) return expect;
    if (sw("llvm.eh.typeid.for")) return ehTypeid;
    if (sw("llvm.is.constant")) return ret0;
    if (sw("llvm.trap") || sw("llvm.debugtrap") || sw("llvm.ubsantrap")) return doTrap;
    if (sw("llvm.vector.reduce.or.")) return (Handler)reduce<0>;
    if (sw("llvm.vector.reduce.and.")) return (Handler)reduce<1>;
    if (sw("llvm.vector.reduce.add.")) return (Handler)reduce<2>;
    if (sw("llvm.vector.reduce.xor.")) return (Handler)reduce<3>;
    if (sw("llvm.lifetime") || sw("llvm.dbg") || sw("llvm.assume") || sw("llvm.experimental.noalias") || sw("llvm.prefetch") || sw("llvm.x86.sse.sfence") || sw("llvm.x86.avx.vzero") || sw("llvm.donothing")) return ret0;
  }
  return nullptr;
}

// ------------------------------------------------------------------ main
static std::string jesc(const std::string& x) {
  std::string r;
  for (char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; }
  return r;
}
int main(int argc, char** argv) {
  std::string file, entry = "vf_main", out = ".";
  Exec ex;
  double limit = 0;
  for (int i = 1; i < argc; i++) {
    std::string x = argv[i];
    if (x == "--entry") entry = argv[++i];
    else if (x == "--out") out = argv[++i];
    else if (x == "--jobs") ex.maxJobs = atoi(argv[++i]);
    else if (x == "--time") limit = atof(argv[++i]);
    else if (x == "--steps") ex.maxSteps = strtoull(argv[++i], nullptr, 10);
    else if (x == "--grace") ex.grace = atof(argv[++i]);
    else if (x == "--viol") ex.violPerLabel = atoi(argv[++i]);
    else file = x;
  }
  mkdir(out.c_str(), 0755);
  auto t0 = std::chrono::steady_clock::now();
  if (limit > 0) ex.deadline = std::chrono::duration<double>(t0.time_since_epoch()).count() + limit;
  ex.M = loadModule(file);
  if (!ex.M) return 3;
  ex.out = out;
  ex.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)ex.sh, 0, sizeof(Shared));
  ex.sh->active = 1;
  ex.run(entry);
  // merge
  std::map<std::string, u64> N, L, Cv, Er, Mi;
  struct FC { u64 calls = 0; std::string hit, lines, name; };
  std::map<u32, FC> Fn;
  DIR* d = opendir(out.c_str());
  int nproc = 0;
  while (auto* e = readdir(d)) {
    std::string n = e->d_name;
    if (n.rfind("stats.", 0) != 0) continue;
    nproc++;
    std::ifstream f(out + "/" + n);
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      char k; is >> k;
      if (k == 'N') { std::string nm; u64 v; is >> nm >> v; if (nm == "terms") N[nm] = std::max(N[nm], v); else N[nm] += v; }
      else if (k == 'F') {
        u32 id; u64 c; std::string hit, ln, nm; is >> id >> c >> hit >> ln; std::getline(is, nm);
        FC& x = Fn[id]; x.calls += c; x.name = nm.substr(nm.find_first_not_of(' ')); x.lines = ln;
        if (x.hit.empty()) x.hit = hit; else for (size_t i = 0; i < hit.size(); i++) if (hit[i] == '1') x.hit[i] = '1';
      } else { u64 v; std::string nm; is >> v; std::getline(is, nm); if (!nm.empty()) nm = nm.substr(1); (k == 'L' ? L : k == 'C' ? Cv : k == 'E' ? Er : Mi)[nm] += v; }
    }
    f.close();
    unlink((out + "/" + n).c_str());
  }
  closedir(d);
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  std::ofstream o(out + "/result.json");
  auto dump = [&](const char* nm, std::map<std::string, u64>& m) { o << "\"" << nm << "\": {"; bool c = false; for (auto& [k, v] : m) { o << (c ? ",\n  " : "\n  ") << "\"" << jesc(k) << "\": " << v; c = true; } o << "},\n"; };
  o << "{";
  dump("counts", N); dump("labels", L); dump("covers", Cv); dump("errors", Er); dump("missing", Mi);
  o << "\"functions\": [";
  bool c = false;
  for (auto& [id, x] : Fn) {
    std::string un; std::istringstream ls(x.lines); std::string t; size_t i = 0;
    while (std::getline(ls, t, ',')) { if (i < x.hit.size() && x.hit[i] == '0') un += (un.empty() ? "" : " ") + t; i++; }
    size_t hits = 0; for (char h : x.hit) hits += h == '1';
    o << (c ? ",\n  " : "\n  ") << "{\"name\": \"" << jesc(x.name) << "\", \"calls\": " << x.calls << ", \"blocks\": " << x.hit.size() << ", \"hit\": " << hits << ", \"unhit_lines\": \"" << un << "\"}";
    c = true;
  }
  o << "],\n\"processes\": " << nproc << ", \"wall_s\": " << wall << ", \"violations\": " << ex.sh->nviol.load() << ", \"nerr\": " << ex.sh->nerr.load() << "}\n";
  o.close();
  fprintf(stderr, "engine: paths=%llu instrs=%llu viol=%llu err=%llu z3=%llu wall=%.2f\n", (unsigned long long)N["paths"], (unsigned long long)N["instrs"], (unsigned long long)ex.sh->nviol.load(), (unsigned long long)ex.sh->nerr.load(), (unsigned long long)N["z3_queries"], wall);
  for (auto& [k, v] : Er) fprintf(stderr, "  error[%llu]: %s\n", (unsigned long long)v, k.c_str());
  return ex.sh->nviol.load() ? 1 : (ex.sh->nerr.load() || !Er.empty()) ? 2 : 0;
}
