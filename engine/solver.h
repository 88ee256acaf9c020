#pragma once
#include "expr.h"
#include <memory>
#include <unordered_map>
#include <unordered_set>

// Path condition with an order graph used as a complete-enough fast decision layer.
struct PCData {
  std::vector<E*> list;
  std::unordered_set<u32> ids;
  struct Edge { int to; bool strict; int next; };
  std::unordered_map<u64, int> node;  // exprid*4+kind -> node
  std::vector<int> head;
  std::vector<Edge> edges;
  std::vector<std::pair<int, E*>> constNodes[3];
  std::unordered_map<u32, E*> eqc;
  std::unordered_set<u32> nonnan;
  std::vector<E*> diseq;
  bool contradictory = false;

  int nodeOf(E* e, int kind, bool create);
  void addEdge(int a, int b, bool strict) { edges.push_back({b, strict, head[a]}); head[a] = (int)edges.size() - 1; }
  bool reach(int a, int b, bool needStrict) const;
  void add(E* e);
  int implied(E* e, int depth = 12) const;  // 1 true, 0 false, -1 unknown
  E* simp(E* e, std::unordered_map<u32, E*>& memo) const;
  E* simp(E* e) const { if (isC(e)) return e; std::unordered_map<u32, E*> m; return simp(e, m); }
  int lessThan(E* a, E* b, int kind) const;
 private:
  void addOrder(E* a, E* b, int kind, bool strict);
};

struct Solver {
  struct Impl;
  Impl* p;
  u64 queries = 0, sat = 0, unsat = 0, unknown = 0, quick = 0, lia = 0;
  const std::vector<u64>* base = nullptr;   // model to start from when repairing
  double secs = 0;
  Solver();
  // returns 1 sat (fills model), 0 unsat, -1 unknown
  int check(const std::vector<E*>& pc, E* extra, std::vector<u64>* model, const std::vector<u8>& widths);
  std::string smt2(const std::vector<E*>& pc, E* extra);
};
