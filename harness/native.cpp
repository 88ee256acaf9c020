// Concrete replay runtime: the same harness, compiled natively, fed with the verifier's counterexample.
// exit 0: all obligations held; 10: an obligation failed (printed); 11: assumption not met / inputs exhausted.
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include "vf.h"
namespace {
struct In { std::string n; int w; uint64_t v; };
std::vector<In> ins;
struct At { std::string n; uint64_t v; };
std::vector<At> ats;
int ghost = 0;
struct Tag { const void* p; void* t; };
Tag tags[1 << 16];
Tag& tagSlot(const void* p) { size_t h = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 48; while (tags[h].p && tags[h].p != p) h = (h + 1) & 0xffff; return tags[h]; }
uint64_t at(const std::string& n, uint64_t d) { for (auto& a : ats) if (a.n == n) return a.v; return d; }
size_t pos = 0;
bool active = false;
uint64_t live = 0, allocs = 0;
long long failAt = -1;
void fin(int code, const char* what, const char* l) { fprintf(stdout, "REPLAY %s %s\n", what, l); fflush(stdout); _exit(code); }
uint64_t next(const char* n, int w) {
  if (pos >= ins.size()) fin(11, "inputs-exhausted", n);
  In& i = ins[pos++];
  if (i.n != n || i.w != w) { fprintf(stdout, "expected %s/%d got %s/%d\n", i.n.c_str(), i.w, n, w); fin(11, "input-mismatch", n); }
  return i.v;
}
void onsig(int s) { const char* m = s == SIGABRT ? "abort (assertion, sanitizer or std::terminate)" : s == SIGSEGV ? "segmentation fault" : s == SIGALRM ? "time limit (does not terminate)" : "fatal signal"; fprintf(stdout, "REPLAY failed %s\n", m); fflush(stdout); _exit(10); }
}
extern "C" {
uint8_t vf_nondet_u8(const char* n) { return (uint8_t)next(n, 8); }
uint16_t vf_nondet_u16(const char* n) { return (uint16_t)next(n, 16); }
uint32_t vf_nondet_u32(const char* n) { return (uint32_t)next(n, 32); }
uint64_t vf_nondet_u64(const char* n) { return next(n, 64); }
uint64_t vf_choose(uint64_t m, const char* n) { uint64_t v = next(n, 0); if (v >= m) fin(11, "choice-out-of-range", n); return v; }
void vf_assume(bool b) { if (!b) fin(11, "assumption-not-met", ""); }
void vf_check(bool b, const char* l) { if (!b) fin(10, "failed", l); }
void vf_cover(const char*) {}
void vf_fail(const char* l) { fin(10, "failed", l); abort(); }
void vf_end() { fin(0, "end", ""); abort(); }
void vf_stub(const void*, const void*) {}
void vf_real_next(const void*) {}
uint64_t vf_heap_live() { return live; }
uint64_t vf_allocs() { return allocs; }
void vf_fail_alloc(uint64_t n) { failAt = (long long)n; }
void vf_freeze_heap(int) {}
void vf_freeze(const void*, int) {}
void vf_poison(const void*, int) {}
uint64_t vf_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
uint64_t vf_concrete(uint64_t x) { return x; }
struct Reg { char* p; size_t n; };
static std::vector<Reg>* regs;
void* vf_region(uint64_t size, uint64_t align) {
  // Reserve with guard space; a request too large for the machine is reported as an inconclusive replay.
  size_t g = 1 << 22;
  if (size > (1ull << 40)) fin(11, "region-too-large", "");
  size_t tot = size + 3 * align + 2 * g;
  char* m = (char*)mmap(nullptr, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == (char*)MAP_FAILED) fin(11, "region-too-large", "");
  char* p = (char*)(((uintptr_t)m + g + 2 * align - 1) & ~(uintptr_t)(2 * align - 1)) + align;   // aligned to exactly `align`
  size_t pg = (size + 4095) & ~4095ull;
  if (pg) mprotect(p, pg, PROT_READ | PROT_WRITE);
  if (!regs) regs = new std::vector<Reg>;
  regs->push_back({p, pg});
  return p;
}
int vf_region_free(void* p) {
  if (regs) for (auto& r : *regs) if (r.p == p) { if (r.n) mprotect(r.p, r.n, PROT_NONE); r.p = nullptr; return 1; }
  return 0;
}
void* vf_base_of(const void* p) {
  if (regs) for (auto& r : *regs) if ((char*)p >= r.p - (1 << 21) && (char*)p <= r.p + r.n + (1 << 21)) return r.p;
  return nullptr;
}
int vf_symbolic() { return 0; }
int vf_known(bool b) { return b; }
int vf_alive(const void*) { return 1; }
void vf_lazy(void*, uint64_t, void (*fn)(void*), void* arg) { fn(arg); }
void vf_ghost(int on) { ghost += on ? 1 : -1; }
void vf_tag(void* p, void* t) { Tag& s = tagSlot(p); s.p = p; s.t = t; }
void* vf_get_tag(const void* p) { return tagSlot(p).t; }
uint64_t vf_nondet_u64_at(const char* n, uint64_t a, uint64_t b, uint64_t d) { ghost++; uint64_t r = at(std::string(n) + "@" + std::to_string(a) + "." + std::to_string(b), d); ghost--; return r; }
uint64_t vf_choose_at(uint64_t m, const char* n, uint64_t a, uint64_t d) { ghost++; uint64_t v = at(std::string(n) + "@" + std::to_string(a), d); ghost--; if (v >= m) fin(11, "choice-out-of-range", n); return v; }
void vf_log(const char* m, uint64_t v) { fprintf(stdout, "log %s %llu\n", m, (unsigned long long)v); }
void vf_main();
}
// --- operator new/delete with accounting and fault injection
static void* get(size_t n, size_t al) {
  if (active && !ghost) {
    allocs++;
    if (failAt == 0) { failAt = -1; throw std::bad_alloc(); }
    if (failAt > 0) failAt--;
    if (n > (1ull << 31)) throw std::bad_alloc();
  }
  void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (active && !ghost) live++;
  return p;
}
static void put(void* p) { if (p) { if (active && !ghost) live--; tagSlot(p).t = nullptr; free(p); } }
void* operator new(size_t n) { return get(n, 16); }
void* operator new[](size_t n) { return get(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return get(n, (size_t)a); }
void operator delete(void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p); }
int main(int argc, char** argv) {
  FILE* f = fopen(argv[1], "r");
  if (!f) { perror("replay file"); return 12; }
  char line[4096];
  bool in = false;
  while (fgets(line, sizeof line, f)) {
    if (!in) { if (std::string(line).rfind("INPUTS ", 0) == 0) in = true; continue; }
    if (std::string(line).rfind("END", 0) == 0) break;
    int w; unsigned long long v;      // name (may contain blanks), width, value
    char* e = line + strlen(line);
    int gaps = 0;
    while (e > line && gaps < 2) if (*--e == ' ') gaps++;
    if (gaps == 2 && sscanf(e, " %d %llu", &w, &v) == 2) { *e = 0; char* nm = line; if (strchr(nm, '@')) ats.push_back({nm, v}); else ins.push_back({nm, w, v}); }
  }
  fclose(f);
  for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM}) signal(s, onsig);
  alarm(20);
  active = true;
  try { vf_main(); } catch (...) { active = false; fin(10, "failed", "uncaught exception"); }
  active = false;
  fprintf(stdout, "REPLAY passed\n");
  return 0;
}
