// libstdc++ keeps two member functions of its hash table's growth policy out of line; for verification they are supplied
// here by their contract (strictly growing bucket counts, load factor at most 1).  Native builds use the library's own.
#pragma once
#include <unordered_map>
#ifdef __clang__
namespace std { namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t P[] = {13, 29, 59, 127, 257};
  for (size_t p : P) if (p >= n) { _M_next_resize = p; return p; }
  __builtin_trap();
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins <= _M_next_resize) return {false, 0};
  size_t need = elt + ins;
  if (!_M_next_resize && need < 11) need = 11;
  if (need < bkt) { _M_next_resize = bkt; return {false, 0}; }
  return {true, _M_next_bkt(need + 1 > 2 * bkt ? need + 1 : 2 * bkt)};
}
} }
#endif
