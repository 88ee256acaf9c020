// Single-threaded pooled operator new for the engine (other threads, e.g. z3 timers, fall back to malloc).
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
namespace {
constexpr size_t ARENA = 1ull << 36, CHUNK = 1 << 16, MAXSZ = 1024, NC = MAXSZ / 16 + 1;
char* base = nullptr;
size_t used = 0;
uint8_t cls[ARENA / CHUNK];
struct Node { Node* next; };
Node* fl[NC];
pthread_t mainT;
bool ok = false, tried = false;
void init() {
  tried = true;
  void* p = mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) return;
  base = (char*)p; mainT = pthread_self(); ok = true;
}
void* slow(size_t c) {
  if (used + CHUNK > ARENA) return nullptr;
  char* p = base + used;
  cls[used / CHUNK] = (uint8_t)c;
  used += CHUNK;
  size_t sz = c * 16, n = CHUNK / sz;
  for (size_t i = 1; i < n; i++) ((Node*)(p + i * sz))->next = i + 1 < n ? (Node*)(p + (i + 1) * sz) : nullptr;
  fl[c] = n > 1 ? (Node*)(p + sz) : nullptr;
  return p;
}
}
void* operator new(size_t n) {
  if (!tried) init();
  if (n <= MAXSZ && ok && pthread_equal(pthread_self(), mainT)) {
    size_t c = n ? (n + 15) / 16 : 1;
    if (Node* x = fl[c]) { fl[c] = x->next; return x; }
    if (void* p = slow(c)) return p;
  }
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept {
  size_t d = (char*)p - base;
  if (p && ok && d < ARENA) {
    if (!pthread_equal(pthread_self(), mainT)) return;
    size_t c = cls[d / CHUNK];
    ((Node*)p)->next = fl[c];
    fl[c] = (Node*)p;
    return;
  }
  free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
