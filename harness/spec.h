// Shared specification vocabulary: symbolic keys/values and the abstract view (a sorted finite map).
#pragma once
#include <array>
#include <bit>
#include <compare>
#include <functional>
#include "vf.h"

namespace spec {
template <class T> T any(const char* n) {
  if constexpr (std::is_same_v<T, float>) { float f = std::bit_cast<float>(vf_nondet_u32(n)); vf_assume(f == f); return f; }
  else if constexpr (std::is_same_v<T, double>) { double f = std::bit_cast<double>(vf_nondet_u64(n)); vf_assume(f == f); return f; }
  else if constexpr (std::is_integral_v<T>) {
    if constexpr (sizeof(T) == 1) return (T)vf_nondet_u8(n);
    else if constexpr (sizeof(T) == 2) return (T)vf_nondet_u16(n);
    else if constexpr (sizeof(T) == 4) return (T)vf_nondet_u32(n);
    else return (T)vf_nondet_u64(n);
  } else return T::any(n);
}

// A key ordered by `ord` only; `tag` is a second component the comparator ignores.
struct PKey {
  int64_t ord = 0;
  uint32_t tag = 0;
  static PKey any(const char* n) { PKey k; k.ord = (int64_t)vf_nondet_u64(n); k.tag = vf_nondet_u32(n); return k; }
  static PKey at(const char* n, uint64_t a, uint64_t b, uint64_t d) { PKey k; k.ord = (int64_t)vf_nondet_u64_at(n, a, b, d); k.tag = (uint32_t)vf_nondet_u64_at("tag", a, b, a + b); return k; }
  PKey equivalent(uint64_t a) const { PKey k; k.ord = ord; k.tag = (uint32_t)vf_nondet_u64_at("tag0", a, 0, a); return k; }
  friend bool operator==(const PKey& a, const PKey& b) { return (a.ord == b.ord) & (a.tag == b.tag); }
};
struct PLess { bool operator()(const PKey& a, const PKey& b) const { return a.ord < b.ord; } };
// Same key, total order, used where the comparator and == must agree.
struct QKey {
  int64_t ord = 0;
  static QKey at(const char* n, uint64_t a, uint64_t b, uint64_t d) { QKey k; k.ord = (int64_t)vf_nondet_u64_at(n, a, b, d); return k; }
  static QKey any(const char* n) { QKey k; k.ord = (int64_t)vf_nondet_u64(n); return k; }
  friend bool operator==(const QKey& a, const QKey& b) { return a.ord == b.ord; }
  friend bool operator<(const QKey& a, const QKey& b) { return a.ord < b.ord; }
  friend bool operator>(const QKey& a, const QKey& b) { return a.ord > b.ord; }
};

template <class T> bool same(const T& a, const T& b) {
  if constexpr (std::is_same_v<T, float>) return std::bit_cast<uint32_t>(a) == std::bit_cast<uint32_t>(b);
  else if constexpr (std::is_same_v<T, double>) return std::bit_cast<uint64_t>(a) == std::bit_cast<uint64_t>(b);
  else return a == b;
}

// The abstract view: strictly increasing keys (under Cmp) with their values.
template <class K, class V, class Cmp, std::size_t CAP> struct View {
  K k[CAP + 1]{};
  V v[CAP + 1]{};
  std::size_t n = 0;
  static bool lt(const K& a, const K& b) { return Cmp{}(a, b); }
  static View any(std::size_t n) {
    View s;
    s.n = n;
    for (std::size_t i = 0; i < n; i++) {
      s.k[i] = spec::any<K>("key");
      s.v[i] = spec::any<V>("val");
      if (i) vf_assume(lt(s.k[i - 1], s.k[i]));
    }
    return s;
  }
  std::size_t lower(const K& q) const { std::size_t i = 0; while (i < n && lt(k[i], q)) i++; return i; }
  std::size_t upper(const K& q) const { std::size_t i = 0; while (i < n && !lt(q, k[i])) i++; return i; }
  bool hasAt(std::size_t i, const K& q) const { return i < n && !lt(q, k[i]); }
  bool has(const K& q) const { return hasAt(lower(q), q); }
  void insertAt(std::size_t i, const K& q, const V& w) {
    for (std::size_t j = n; j > i; j--) { k[j] = k[j - 1]; v[j] = v[j - 1]; }
    k[i] = q; v[i] = w; n++;
  }
  void eraseAt(std::size_t i, std::size_t cnt = 1) {
    for (std::size_t j = i; j + cnt < n; j++) { k[j] = k[j + cnt]; v[j] = v[j + cnt]; }
    n -= cnt;
  }
};
}  // namespace spec
