// Hash-consed bit-vector terms (width <= 64) with eager simplification.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : u8 {
  CONST, VAR,
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM,
  AND, OR, XOR, SHL, LSHR, ASHR,
  NOT,             // i1 only
  EQ, ULT, SLT,    // i1 results
  ITE, ZEXT, SEXT, EXTRACT, CONCAT,
  FLT, FEQ, FNAN,  // IEEE ordered less / ordered equal / is-NaN (on 32/64-bit patterns)
  UMULO            // unsigned multiplication overflow, i1
};

struct E {
  Op op;
  u8 w;        // width
  u8 lo;       // EXTRACT low bit
  u8 flags;    // 1: contains ITE   2: ITE tree whose leaves are all constants
  u32 id;
  u32 nvars;   // 0 iff constant
  u64 c;       // CONST value / VAR index
  E *a, *b, *d;
};

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(u64 v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

E* C(u64 v, unsigned w);
E* Var(u32 idx, unsigned w);
E* mk(Op op, E* a, E* b);               // binary, same width operands
E* mkNot(E* a);                         // i1
E* mkIte(E* c, E* t, E* f);
E* mkZext(E* a, unsigned w);
E* mkSext(E* a, unsigned w);
E* mkExtract(E* a, unsigned hi, unsigned lo);
E* mkConcat(E* hi, E* lo);
E* mkFnan(E* a);
E* exprById(u32 id);
size_t exprCount();

inline E* T() { static E* t = C(1, 1); return t; }
inline E* F() { static E* f = C(0, 1); return f; }
inline bool isC(E* e) { return e->op == CONST; }
inline bool isTrue(E* e) { return e->op == CONST && e->c; }
inline bool isFalse(E* e) { return e->op == CONST && !e->c; }
inline E* mkAnd(E* a, E* b) { return mk(AND, a, b); }
inline E* mkOr(E* a, E* b) { return mk(OR, a, b); }
inline E* mkEq(E* a, E* b) { return mk(EQ, a, b); }
inline E* mkUlt(E* a, E* b) { return mk(ULT, a, b); }
inline E* mkUle(E* a, E* b) { return mkNot(mk(ULT, b, a)); }
inline E* mkAdd(E* a, E* b) { return mk(ADD, a, b); }
inline E* mkSub(E* a, E* b) { return mk(SUB, a, b); }
u64 evalOp(Op op, unsigned w, u64 a, u64 b, unsigned aw);
u64 evalE(E* e, const std::vector<u64>& model);
std::string str(E* e, int depth = 6);
