// Resource-owning element types: every live object owns at most one heap cell; leaks, double frees and
// use-after-free become failed obligations of the memory model.
#pragma once
#include "spec.h"
namespace spec {
struct Res {
  uint64_t* p = nullptr;
  Res() = default;
  explicit Res(uint64_t x) : p(new uint64_t(x)) {}
  Res(const Res& o) : p(o.p ? new uint64_t(*o.p) : nullptr) {}
  Res(Res&& o) noexcept : p(o.p) { o.p = nullptr; }
  Res& operator=(const Res& o) {
    if (this != &o) {
      uint64_t* q = o.p ? new uint64_t(*o.p) : nullptr;
      delete p;
      p = q;
    }
    return *this;
  }
  Res& operator=(Res&& o) noexcept {
    uint64_t* q = o.p;
    o.p = nullptr;
    delete p;
    p = q;
    return *this;
  }
  ~Res() { delete p; }
  bool null() const { return p == nullptr; }
  uint64_t id() const { if (!p) vf_fail("Res/ensures/a moved-from element is never observable"); return *p; }
  static Res any(const char* n) { return Res(vf_nondet_u64(n)); }
  friend bool operator==(const Res& a, const Res& b) { return a.id() == b.id(); }
  friend bool operator<(const Res& a, const Res& b) { return a.id() < b.id(); }
};
// Move-only flavour.
struct Uniq : Res {
  Uniq() = default;
  explicit Uniq(uint64_t x) : Res(x) {}
  Uniq(Uniq&&) noexcept = default;
  Uniq& operator=(Uniq&&) noexcept = default;
};
struct Boom {};
// A value whose copying or construction can be made to fail.
struct TV {
  uint64_t x = 0;
  static inline uint64_t count = 0;
  static void arm(uint64_t n) { count = n; }
  static void tick() { if (count && --count == 0) throw Boom{}; }
  static TV raw(uint64_t v) { TV t; t.x = v; return t; }
  static TV any(const char* n) { return raw(vf_nondet_u64(n)); }
  static TV at(const char* n, uint64_t a, uint64_t b, uint64_t d) { return raw(vf_nondet_u64_at(n, a, b, d)); }
  TV() = default;
  TV(const TV& o) : x(o.x) { tick(); }
  TV(TV&& o) noexcept : x(o.x) {}
  TV& operator=(const TV& o) { tick(); x = o.x; return *this; }
  TV& operator=(TV&& o) noexcept { x = o.x; return *this; }
  friend bool operator==(const TV& a, const TV& b) { return a.x == b.x; }
};
// A value whose moved-from state is distinguishable.
struct MV {
  uint64_t x = 0;
  static MV raw(uint64_t v) { MV t; t.x = v; return t; }
  static MV any(const char* n) { return raw(vf_nondet_u64(n)); }
  static MV at(const char* n, uint64_t a, uint64_t b, uint64_t d) { return raw(vf_nondet_u64_at(n, a, b, d)); }
  MV() = default;
  MV(const MV&) = default;
  MV& operator=(const MV&) = default;
  MV(MV&& o) noexcept : x(o.x) { o.x = ~0ull; }
  MV& operator=(MV&& o) noexcept { uint64_t y = o.x; o.x = ~0ull; x = y; return *this; }
  friend bool operator==(const MV& a, const MV& b) { return a.x == b.x; }
};
struct Pause { uint64_t c = TV::count; Pause() { TV::count = 0; } ~Pause() { TV::count = c; } };
}  // namespace spec
