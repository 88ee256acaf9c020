// Verification intrinsics.  Symbolic meaning in engine/, concrete replay meaning in harness/native.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <new>
#include <type_traits>
extern "C" {
uint8_t vf_nondet_u8(const char*);
uint16_t vf_nondet_u16(const char*);
uint32_t vf_nondet_u32(const char*);
uint64_t vf_nondet_u64(const char*);
uint64_t vf_choose(uint64_t n, const char*);   // every value in [0,n)
void vf_assume(bool);                          // precondition
void vf_check(bool, const char* label);        // obligation
void vf_cover(const char* label);              // reachability witness
[[noreturn]] void vf_fail(const char* label);
[[noreturn]] void vf_end();                    // path ends here
void vf_stub(const void* real, const void* contract);
void vf_real_next(const void* real);
uint64_t vf_heap_live();
uint64_t vf_allocs();
void vf_fail_alloc(uint64_t n);                // allocation number n from now (0: the next) throws; ~0: none
void vf_freeze_heap(int on);                   // existing heap objects become read-only
void vf_freeze(const void*, int on);
void vf_poison(const void*, int on);
uint64_t vf_ite(bool c, uint64_t a, uint64_t b);
uint64_t vf_concrete(uint64_t);
void* vf_region(uint64_t size, uint64_t align);
int vf_region_free(void*);
void* vf_base_of(const void*);                 // start of the object p lies in
int vf_symbolic();
int vf_known(bool);
int vf_alive(const void*);
// Lazily supplied state: the bytes [p,p+n) are written by fn(arg) on first access (natively: at once).
void vf_lazy(void* p, uint64_t n, void (*fn)(void*), void* arg);
void vf_ghost(int on);                         // specification code: allocations not counted, frames not enforced
void vf_tag(void* p, void* t);                 // attach a specification record to an object
void* vf_get_tag(const void* p);
uint64_t vf_nondet_u64_at(const char* name, uint64_t a, uint64_t b, uint64_t dflt);   // input indexed by (a,b)
uint64_t vf_choose_at(uint64_t n, const char* name, uint64_t a, uint64_t dflt);
void vf_log(const char*, uint64_t);
}
template <class F> inline const void* vf_fn(F f) { const void* p; static_assert(sizeof(F) >= sizeof(p)); std::memcpy(&p, &f, sizeof(p)); return p; }
namespace spec {
template <class X, class Y> void assign(X& x, Y&& y) { if constexpr (std::is_assignable_v<X&, Y&&>) x = (Y&&)y; else vf_fail("allocator/assignment: available"); }
}
#define VF_CHECK(c, l) vf_check((c), l)
