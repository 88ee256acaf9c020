#include "expr.h"
#include <algorithm>
#include <cstring>
#include <cstdio>
#include <cmath>
#include <unordered_map>

static std::vector<E*> gAll;
static std::vector<u32> gTab;  // open addressing of ids (+1)
static u64 gMask = 0;
static char* gArena = nullptr;
static size_t gArenaLeft = 0;

static inline u64 hmix(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
static inline u64 hashKey(Op op, unsigned w, unsigned lo, u64 c, E* a, E* b, E* d) {
  u64 h = op | (u64(w) << 8) | (u64(lo) << 16);
  h = hmix(h ^ c);
  h = hmix(h + (a ? a->id + 1 : 0) * 0x9E3779B97F4A7C15ULL);
  h = hmix(h + (b ? b->id + 1 : 0) * 0xC2B2AE3D27D4EB4FULL);
  h = hmix(h + (d ? d->id + 1 : 0) * 0x165667B19E3779F9ULL);
  return h;
}
size_t exprCount() { return gAll.size(); }
E* exprById(u32 id) { return gAll[id]; }

static E* intern(Op op, unsigned w, unsigned lo, u64 c, E* a, E* b, E* d) {
  if (gTab.empty()) {
    gTab.assign(1 << 16, 0);
    gMask = gTab.size() - 1;
    gAll.push_back(nullptr);  // id 0 reserved
  }
  u64 h = hashKey(op, w, lo, c, a, b, d);
  u64 i = h & gMask;
  while (gTab[i]) {
    E* e = gAll[gTab[i]];
    if (e->op == op && e->w == w && e->lo == lo && e->c == c && e->a == a && e->b == b && e->d == d) return e;
    i = (i + 1) & gMask;
  }
  if (gArenaLeft < sizeof(E)) { gArenaLeft = 1 << 20; gArena = (char*)malloc(gArenaLeft); }
  E* e = (E*)gArena; gArena += sizeof(E); gArenaLeft -= sizeof(E);
  e->op = op; e->w = w; e->lo = lo; e->c = c; e->a = a; e->b = b; e->d = d;
  e->id = gAll.size();
  e->flags = 0;
  e->nvars = op == VAR ? 1 : 0;
  for (E* x : {a, b, d}) if (x) { e->flags |= x->flags & 1; if (x->nvars) e->nvars = 1; }
  if (op == ITE) {
    e->flags |= 1;
    auto leaf = [](E* x) { return x->op == CONST || (x->op == ITE && (x->flags & 2)); };
    if (leaf(b) && leaf(d)) e->flags |= 2;
  }
  gAll.push_back(e);
  gTab[i] = e->id;
  if (gAll.size() * 2 > gTab.size()) {
    std::vector<u32> nt(gTab.size() * 2, 0);
    u64 nm = nt.size() - 1;
    for (size_t k = 1; k < gAll.size(); k++) {
      E* x = gAll[k];
      u64 j = hashKey(x->op, x->w, x->lo, x->c, x->a, x->b, x->d) & nm;
      while (nt[j]) j = (j + 1) & nm;
      nt[j] = k;
    }
    gTab.swap(nt); gMask = nm;
  }
  return e;
}

static E* gConst[8192];
E* C(u64 v, unsigned w) {
  v &= maskw(w);
  E*& s = gConst[((v ^ (v >> 17)) * 67 + w * 31) & 8191];
  if (s && s->c == v && s->w == w) return s;
  return s = intern(CONST, w, 0, v, 0, 0, 0);
}
E* Var(u32 idx, unsigned w) { return intern(VAR, w, 0, idx, 0, 0, 0); }

static bool fpNan(u64 v, unsigned w) { return w == 32 ? (v & 0x7fffffffu) > 0x7f800000u : (v & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }

u64 evalOp(Op op, unsigned w, u64 a, u64 b, unsigned aw) {
  u64 m = maskw(w);
  switch (op) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b ? (a / b) & m : m;
    case SDIV: { if (!b) return sx(a, w) < 0 ? 1 : m; int64_t x = sx(a, w), y = sx(b, w); if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
    case UREM: return b ? (a % b) & m : a;
    case SREM: { if (!b) return a; int64_t x = sx(a, w), y = sx(b, w); if (y == -1) return 0; return (u64)(x % y) & m; }
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << b) & m;
    case LSHR: return b >= w ? 0 : a >> b;
    case ASHR: return b >= w ? (sx(a, w) < 0 ? m : 0) : (u64)(sx(a, w) >> b) & m;
    case EQ: return a == b;
    case ULT: return a < b;
    case SLT: return sx(a, aw) < sx(b, aw);
    case UMULO: { unsigned __int128 p = (unsigned __int128)a * b; return (p >> aw) != 0; }
    case FLT: case FEQ: {
      if (fpNan(a, aw) || fpNan(b, aw)) return 0;
      if (aw == 32) { float x, y; u32 p = a, q = b; memcpy(&x, &p, 4); memcpy(&y, &q, 4); return op == FLT ? x < y : x == y; }
      double x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return op == FLT ? x < y : x == y;
    }
    default: return 0;
  }
}

static bool commut(Op op) { return op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ || op == FEQ || op == UMULO; }
static bool isCmp(Op op) { return op == EQ || op == ULT || op == SLT || op == FLT || op == FEQ || op == UMULO; }

static E* mapIte2(Op op, E* a, E* b);  // push a binary op with one constant into a constant-leaved ITE

static E* mapIteL(Op op, E* a, E* k) {  // a is ITE
  if (a->op != ITE) return mk(op, a, k);
  return mkIte(a->a, mapIteL(op, a->b, k), mapIteL(op, a->d, k));
}
static E* mapIteR(Op op, E* k, E* b) {
  if (b->op != ITE) return mk(op, k, b);
  return mkIte(b->a, mapIteR(op, k, b->b), mapIteR(op, k, b->d));
}

E* mkNot(E* a) {
  if (a->op == CONST) return a->c ? F() : T();
  if (a->op == NOT) return a->a;
  if (a->op == ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkNot(a->b), mkNot(a->d));
  return intern(NOT, 1, 0, 0, a, 0, 0);
}

// Sums and differences of more than two summands are kept in one canonical order so that equal parts cancel.
static bool flatten(E* e, u64 k, std::vector<std::pair<E*, u64>>& t, u64& c, int& budget) {
  if (--budget < 0) return false;
  if (e->op == CONST) { c += k * e->c; return true; }
  if (e->op == ADD) return flatten(e->a, k, t, c, budget) && flatten(e->b, k, t, c, budget);
  if (e->op == SUB) return flatten(e->a, k, t, c, budget) && flatten(e->b, 0 - k, t, c, budget);
  for (auto& x : t) if (x.first == e) { x.second += k; return true; }
  t.push_back({e, k});
  return true;
}
static E* linear(Op op, E* a, E* b) {
  std::vector<std::pair<E*, u64>> t;
  u64 c = 0;
  int budget = 24;
  if (!flatten(a, 1, t, c, budget) || !flatten(b, op == ADD ? 1 : ~0ull, t, c, budget)) return nullptr;
  unsigned w = a->w;
  std::sort(t.begin(), t.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; });
  E *pos = nullptr, *neg = nullptr;
  for (auto& [e, k] : t) {
    u64 q = k & maskw(w);
    if (!q) continue;
    bool n = q >> (w - 1);
    u64 m = n ? (0 - q) & maskw(w) : q;
    E* x = m == 1 ? e : mk(MUL, e, C(m, w));
    E*& d = n ? neg : pos;
    d = !d ? x : intern(ADD, w, 0, 0, d, x, 0);
  }
  c &= maskw(w);
  E* r;
  if (!pos && !neg) return C(c, w);
  if (!neg) r = pos;
  else if (!pos) { r = intern(SUB, w, 0, 0, C(c, w), neg, 0); return r; }
  else r = intern(SUB, w, 0, 0, pos, neg, 0);
  return c ? intern(ADD, w, 0, 0, r, C(c, w), 0) : r;
}

E* mk(Op op, E* a, E* b) {
  unsigned aw = a->w, w = isCmp(op) ? 1 : aw;
  if (op == ADD && a->op == CONST && b->op == CONST && aw == b->w) return C(a->c + b->c, aw);
  if (a->w != b->w) { fprintf(stderr, "engine: width mismatch op %d: %d vs %d\n", op, a->w, b->w); abort(); }
  if (a->op == CONST && b->op == CONST) return C(evalOp(op, w, a->c, b->c, aw), w);
  if (commut(op)) {
    if (a->op == CONST || (b->op != CONST && a->id > b->id)) { E* t = a; a = b; b = t; }
  }
  bool bc = b->op == CONST;
  u64 m = maskw(aw);
  // push into constant-leaved ITE trees
  if (bc && (a->flags & 2) && a->op == ITE) return mapIteL(op, a, b);
  if (a->op == CONST && (b->flags & 2) && b->op == ITE) return mapIteR(op, a, b);
  if ((op == AND || op == OR || op == XOR) && aw > 1 && a->op == ZEXT) {
    unsigned iw = a->a->w;
    if (b->op == ZEXT && b->a->w == iw) return mkZext(mk(op, a->a, b->a), aw);
    if (op != AND && bc && !(b->c & ~maskw(iw))) return mkZext(mk(op, a->a, C(b->c, iw)), aw);
  }
  if ((op == ADD || op == SUB) && aw >= 32 && !bc && a->op != CONST && (a->op == ADD || a->op == SUB || b->op == ADD || b->op == SUB))
    if (E* r = linear(op, a, b)) return r;
  if (op == AND && bc && aw >= 32 && a->op == ADD && a->b->op == CONST && b->c && !((~b->c + 1) & ~b->c & m)) {  // (x+c) & -2^k
    u64 low = ~b->c & m;
    if (!(low & (low + 1)) && (a->b->c & ~low & m)) return mk(ADD, mk(AND, mk(ADD, a->a, C(a->b->c & low, aw)), b), C(a->b->c & ~low, aw));
  }
  if (op == UREM && bc && b->c && !(b->c & (b->c - 1))) return mk(AND, a, C(b->c - 1, aw));
  if (op == UDIV && bc && b->c && !(b->c & (b->c - 1)) && b->c > 1) return mk(LSHR, a, C(__builtin_ctzll(b->c), aw));
  if (op == AND && bc && aw >= 32 && !(b->c & (b->c + 1)) && a->op == ADD && a->b->op == CONST) {  // (x+c) mod 2^k
    u64 c2 = a->b->c & b->c;
    if (c2 != a->b->c) return mk(AND, mk(ADD, a->a, C(c2, aw)), b);
  }
  if (op == AND && bc && aw >= 32 && !(b->c & (b->c + 1)) && a->op == AND && a->b->op == CONST && !(a->b->c & b->c)) return C(0, aw);
  switch (op) {
    case ADD:
      if (bc && b->c == 0) return a;
      if (bc && a->op == ADD && a->b->op == CONST) return mk(ADD, a->a, C(a->b->c + b->c, aw));
      if (!bc && a->op == ADD && a->b->op == CONST) return mk(ADD, mk(ADD, a->a, b), a->b);
      if (!bc && b->op == ADD && b->b->op == CONST) return mk(ADD, mk(ADD, a, b->a), b->b);
      if (a->op == SUB && a->b == b) return a->a;
      if (b->op == SUB && b->b == a) return b->a;
      break;
    case SUB:
      if (bc) return mk(ADD, a, C(0 - b->c, aw));
      if (a == b) return C(0, aw);
      if (a->op == ADD && a->b->op == CONST) return mk(ADD, mk(SUB, a->a, b), a->b);
      if (b->op == ADD && b->b->op == CONST) return mk(ADD, mk(SUB, a, b->a), C(0 - b->b->c, aw));
      if (a->op == ADD && a->a == b) return a->b;
      if (a->op == ADD && a->b == b) return a->a;
      if (b->op == ADD && b->a == a) return mk(SUB, C(0, aw), b->b);
      if (b->op == ADD && b->b == a) return mk(SUB, C(0, aw), b->a);
      if (a->op == SUB && a->a == b) return mk(SUB, C(0, aw), a->b);
      if (b->op == SUB && b->a == a) return b->b;
      break;
    case MUL:
      if (bc && b->c == 0) return b;
      if (bc && b->c == 1) return a;
      if (bc && a->op == MUL && a->b->op == CONST) return mk(MUL, a->a, C(a->b->c * b->c, aw));
      if (bc && a->op == ADD && a->b->op == CONST) return mk(ADD, mk(MUL, a->a, b), C(a->b->c * b->c, aw));
      break;
    case UDIV:
      if (bc && b->c == 1) return a;
      break;
    case AND:
      if (bc && b->c == 0) return b;
      if (bc && b->c == m) return a;
      if (a == b) return a;
      if (aw == 1) {
        if ((a->op == NOT && a->a == b) || (b->op == NOT && b->a == a)) return F();
        // absorb when b already a conjunct of a (one level)
        if (a->op == AND && (a->a == b || a->b == b)) return a;
        if (b->op == AND && (b->a == a || b->b == a)) return b;
        // ult/eq contradictions
        if (a->op == ULT && b->op == ULT && a->a == b->b && a->b == b->a) return F();
        if (a->op == SLT && b->op == SLT && a->a == b->b && a->b == b->a) return F();
      }
      if (bc && a->op == ZEXT) {
        u64 im = maskw(a->a->w);
        if ((b->c & im) == im) return a;
        return mkZext(mk(AND, a->a, C(b->c, a->a->w)), aw);
      }
      if (bc && a->op == AND && a->b->op == CONST) return mk(AND, a->a, C(a->b->c & b->c, aw));
      if (bc && a->op == CONCAT) { unsigned lw = a->b->w; return mkConcat(mk(AND, a->a, C(b->c >> lw, a->a->w)), mk(AND, a->b, C(b->c, lw))); }
      break;
    case OR:
      if (bc && b->c == 0) return a;
      if (bc && b->c == m) return b;
      if (a == b) return a;
      if (aw == 1) return mkNot(mk(AND, mkNot(a), mkNot(b)));
      break;
    case XOR:
      if (bc && b->c == 0) return a;
      if (a == b) return C(0, aw);
      if (aw == 1 && bc) return mkNot(a);
      if (aw == 1) {
        if (a->op == NOT && b->op == NOT) return mk(XOR, a->a, b->a);
        if (a->op == NOT) return mkNot(mk(XOR, a->a, b));
        if (b->op == NOT) return mkNot(mk(XOR, a, b->a));
      }
      if (bc && a->op == XOR && a->b->op == CONST) return mk(XOR, a->a, C(a->b->c ^ b->c, aw));
      if (bc && a->op == CONCAT) { unsigned lw = a->b->w; return mkConcat(mk(XOR, a->a, C(b->c >> lw, a->a->w)), mk(XOR, a->b, C(b->c, lw))); }
      if (bc && a->op == SEXT && b->c == m) return mkSext(mk(XOR, a->a, C(~0ull, a->a->w)), aw);
      break;
    case SHL:
      if (bc && b->c == 0) return a;
      if (bc && b->c >= aw) return C(0, aw);
      if (bc) return mkConcat(mkExtract(a, aw - 1 - b->c, 0), C(0, b->c));
      break;
    case LSHR:
      if (bc && b->c == 0) return a;
      if (bc && b->c >= aw) return C(0, aw);
      if (bc) return mkZext(mkExtract(a, aw - 1, b->c), aw);
      break;
    case ASHR:
      if (bc && b->c == 0) return a;
      if (bc && b->c < aw) return mkSext(mkExtract(a, aw - 1, b->c), aw);
      break;
    case EQ:
      if (a == b) return T();
      if (aw == 1) {
        if (bc) return b->c ? a : mkNot(a);
        return mkNot(mk(XOR, a, b));
      }
      if (bc) {
        if (a->op == ADD && a->b->op == CONST) return mk(EQ, a->a, C(b->c - a->b->c, aw));
        if (a->op == XOR && a->b->op == CONST) return mk(EQ, a->a, C(b->c ^ a->b->c, aw));
        if (a->op == ZEXT) { if (b->c & ~maskw(a->a->w)) return F(); return mk(EQ, a->a, C(b->c, a->a->w)); }
        if (a->op == SEXT) { if ((u64)(sx(b->c & maskw(a->a->w), a->a->w)) != (u64)sx(b->c, aw)) return F(); return mk(EQ, a->a, C(b->c, a->a->w)); }
        if (a->op == CONCAT) { unsigned lw = a->b->w; return mk(AND, mk(EQ, a->a, C(b->c >> lw, a->a->w)), mk(EQ, a->b, C(b->c, lw))); }
        if (a->op == SUB && b->c == 0) return mk(EQ, a->a, a->b);
        if (a->op == ITE && (a->b->op == CONST || a->d->op == CONST)) return mkIte(a->a, mk(EQ, a->b, b), mk(EQ, a->d, b));
      }
      if (a->op == ADD && b->op == ADD && a->b == b->b) return mk(EQ, a->a, b->a);
      if (a->op == ADD && a->b->op == CONST && a->a == b) return a->b->c == 0 ? T() : F();
      if (b->op == ADD && b->b->op == CONST && b->a == a) return b->b->c == 0 ? T() : F();
      if (a->op == ADD && b->op == ADD && a->b->op == CONST && b->b->op == CONST && a->a == b->a) return F();
      if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mk(EQ, a->a, b->a);
      if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mk(EQ, a->a, b->a);
      if (a->op == XOR && b->op == XOR && a->b == b->b) return mk(EQ, a->a, b->a);
      if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w) return mk(AND, mk(EQ, a->a, b->a), mk(EQ, a->b, b->b));
      break;
    case ULT:
      if (a == b) return F();
      if (bc && b->c == 0) return F();
      if (bc && b->c == 1) return mk(EQ, a, C(0, aw));
      if (a->op == CONST && a->c == m) return F();
      if (aw == 1) return mk(AND, mkNot(a), b);
      if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mk(ULT, a->a, b->a);
      if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mk(ULT, a->a, b->a);
      if (bc && a->op == ZEXT) { if (b->c > maskw(a->a->w)) return T(); return mk(ULT, a->a, C(b->c, a->a->w)); }
      if (a->op == CONST && b->op == ZEXT) { if (a->c >= maskw(b->a->w)) return F(); return mk(ULT, C(a->c, b->a->w), b->a); }
      { // x ^ MIN <u y ^ MIN  ==  x <s y
        u64 mn = 1ull << (aw - 1);
        auto flip = [&](E* x) -> E* { if (x->op == XOR && x->b->op == CONST && x->b->c == mn) return x->a; if (x->op == CONST) return C(x->c ^ mn, aw); return nullptr; };
        if (!(a->op == CONST && bc) && (a->op == XOR || b->op == XOR)) { E *fa = flip(a), *fb = flip(b); if (fa && fb) return mk(SLT, fa, fb); }
      }
      break;
    case SLT:
      if (a == b) return F();
      if (aw == 1) return mk(AND, a, mkNot(b));
      if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mk(SLT, a->a, b->a);
      if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mk(ULT, a->a, b->a);
      if (bc && a->op == ZEXT) { if (sx(b->c, aw) <= 0) return F(); if (b->c > maskw(a->a->w)) return T(); return mk(ULT, a->a, C(b->c, a->a->w)); }
      if (a->op == CONST && b->op == ZEXT) { if (sx(a->c, aw) < 0) return T(); if (a->c >= maskw(b->a->w)) return F(); return mk(ULT, C(a->c, b->a->w), b->a); }
      if (bc && b->c == 0 && a->op == SEXT) return mk(SLT, a->a, C(0, a->a->w));
      { u64 mn = 1ull << (aw - 1);
        auto flip = [&](E* x) -> E* { if (x->op == XOR && x->b->op == CONST && x->b->c == mn) return x->a; if (x->op == CONST) return C(x->c ^ mn, aw); return nullptr; };
        if (a->op == XOR || b->op == XOR) { E *fa = flip(a), *fb = flip(b); if (fa && fb) return mk(ULT, fa, fb); }
      }
      break;
    case FLT: if (a == b) return F(); break;
    default: break;
  }
  return intern(op, w, 0, 0, a, b, 0);
}

E* mkFnan(E* a) {
  if (isC(a)) return fpNan(a->c, a->w) ? T() : F();
  return intern(FNAN, 1, 0, 0, a, 0, 0);
}

E* mkIte(E* c, E* t, E* f) {
  if (isC(c)) return c->c ? t : f;
  if (t == f) return t;
  if (c->op == NOT) return mkIte(c->a, f, t);
  if (t->w == 1) {
    if (isTrue(t)) return isFalse(f) ? c : mkOr(c, f);
    if (isFalse(t)) return mkAnd(mkNot(c), f);
    if (isTrue(f)) return mkOr(mkNot(c), t);
    if (isFalse(f)) return mkAnd(c, t);
  }
  if (t->op == ITE && t->a == c) return mkIte(c, t->b, f);
  if (f->op == ITE && f->a == c) return mkIte(c, t, f->d);
  return intern(ITE, t->w, 0, 0, c, t, f);
}
E* mkZext(E* a, unsigned w) {
  if (w == a->w) return a;
  if (w < a->w) { fprintf(stderr, "engine: zext\n"); abort(); }
  if (isC(a)) return C(a->c, w);
  if (a->op == ZEXT) return mkZext(a->a, w);
  if (a->op == ITE && (a->flags & 2)) return mkIte(a->a, mkZext(a->b, w), mkZext(a->d, w));
  return intern(ZEXT, w, 0, 0, a, 0, 0);
}
E* mkSext(E* a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return C(sx(a->c, a->w), w);
  if (a->op == SEXT) return mkSext(a->a, w);
  if (a->op == ZEXT) return mkZext(a->a, w);
  if (a->op == ITE && (a->flags & 2)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->d, w));
  return intern(SEXT, w, 0, 0, a, 0, 0);
}
E* mkExtract(E* a, unsigned hi, unsigned lo) {
  unsigned w = hi - lo + 1;
  if (w == a->w) return a;
  if (isC(a)) return C(a->c >> lo, w);
  switch (a->op) {
    case EXTRACT: return mkExtract(a->a, hi + a->lo, lo + a->lo);
    case CONCAT: {
      unsigned lw = a->b->w;
      if (lo >= lw) return mkExtract(a->a, hi - lw, lo - lw);
      if (hi < lw) return mkExtract(a->b, hi, lo);
      return mkConcat(mkExtract(a->a, hi - lw, 0), mkExtract(a->b, lw - 1, lo));
    }
    case ZEXT: {
      unsigned iw = a->a->w;
      if (lo >= iw) return C(0, w);
      if (hi < iw) return mkExtract(a->a, hi, lo);
      return mkZext(mkExtract(a->a, iw - 1, lo), w);
    }
    case SEXT: {
      unsigned iw = a->a->w;
      if (hi < iw) return mkExtract(a->a, hi, lo);
      if (lo >= iw) return mkSext(mkExtract(a->a, iw - 1, iw - 1), w);
      return mkSext(mkExtract(a->a, iw - 1, lo), w);
    }
    case ITE: if (isC(a->b) || isC(a->d) || (a->flags & 2)) return mkIte(a->a, mkExtract(a->b, hi, lo), mkExtract(a->d, hi, lo)); break;
    case AND: case OR: case XOR:
      return mk(a->op, mkExtract(a->a, hi, lo), mkExtract(a->b, hi, lo));
    case ADD: case MUL: if (lo == 0) return mk(a->op, mkExtract(a->a, hi, 0), mkExtract(a->b, hi, 0)); break;
    case SUB: if (lo == 0) return mk(SUB, mkExtract(a->a, hi, 0), mkExtract(a->b, hi, 0)); break;
    default: break;
  }
  return intern(EXTRACT, w, lo, 0, a, 0, 0);
}
E* mkConcat(E* hi, E* lo) {
  unsigned w = hi->w + lo->w;
  if (w > 64) { fprintf(stderr, "engine: concat too wide\n"); abort(); }
  if (isC(hi) && isC(lo)) return C((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZext(lo, w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->w) return mkExtract(hi->a, hi->lo + hi->w - 1, lo->lo);
  if (hi->op == EXTRACT && hi->lo == lo->w && hi->a->op != CONCAT && hi->a == lo) return mkExtract(hi->a, hi->lo + hi->w - 1, 0);
  if (hi->op == EXTRACT && lo->op == CONCAT && lo->a->op == EXTRACT && lo->a->a == hi->a && hi->lo == lo->a->lo + lo->a->w)
    return mkConcat(mkExtract(hi->a, hi->lo + hi->w - 1, lo->a->lo), lo->b);
  // all-copies-of-one-bit: sext(x) pieces
  if (hi->op == SEXT && lo->op == SEXT && hi->a == lo->a && hi->a->w == 1) return mkSext(hi->a, w);
  if (hi->w == 1 && lo->op == SEXT && lo->a == hi) return mkSext(hi, w);
  if (lo->w == 1 && hi->op == SEXT && hi->a == lo) return mkSext(lo, w);
  if (hi == lo && hi->w == 1) return mkSext(hi, 2);
  return intern(CONCAT, w, 0, 0, hi, lo, 0);
}

static std::vector<u64> evVal;
static std::vector<u32> evEp;
static u32 evEpoch = 0;
static u64 ev(E* e, const std::vector<u64>& m) {
  if (e->op == CONST) return e->c;
  if (e->op == VAR) return e->c < m.size() ? m[e->c] & maskw(e->w) : 0;
  if (evEp[e->id] == evEpoch) return evVal[e->id];
  u64 r;
  switch (e->op) {
    case NOT: r = !ev(e->a, m); break;
    case ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->d, m); break;
    case ZEXT: r = ev(e->a, m); break;
    case SEXT: r = (u64)sx(ev(e->a, m), e->a->w) & maskw(e->w); break;
    case EXTRACT: r = (ev(e->a, m) >> e->lo) & maskw(e->w); break;
    case CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
    case FNAN: r = fpNan(ev(e->a, m), e->a->w); break;
    case AND: if (e->w == 1) { r = ev(e->a, m) && ev(e->b, m); break; }  // fallthrough
    default: r = evalOp(e->op, e->w, ev(e->a, m), ev(e->b, m), e->a->w);
  }
  evEp[e->id] = evEpoch; evVal[e->id] = r;
  return r;
}
u64 evalE(E* e, const std::vector<u64>& m) {
  if (e->op == CONST) return e->c;
  if (evEp.size() < gAll.size()) { evEp.resize(gAll.size() * 2, 0); evVal.resize(gAll.size() * 2); }
  if (++evEpoch == 0) { evEpoch = 1; std::fill(evEp.begin(), evEp.end(), 0); }
  return ev(e, m);
}

std::string str(E* e, int d) {
  static const char* n[] = {"const","v","+","-","*","udiv","sdiv","urem","srem","&","|","^","<<",">>u",">>s","!","==","<u","<s","ite","zext","sext","extract","concat","<f","==f","nan","umulo"};
  char buf[64];
  if (e->op == CONST) { snprintf(buf, 64, e->c > 4096 ? "0x%llx" : "%llu", (unsigned long long)e->c); return buf; }
  if (e->op == VAR) { snprintf(buf, 64, "v%llu", (unsigned long long)e->c); return buf; }
  if (d == 0) return "..";
  std::string s = "("; s += n[e->op];
  if (e->op == EXTRACT) { snprintf(buf, 64, "[%d:%d]", e->lo + e->w - 1, e->lo); s += buf; }
  for (E* x : {e->a, e->b, e->d}) if (x) { s += " "; s += str(x, d - 1); }
  return s + ")";
}
