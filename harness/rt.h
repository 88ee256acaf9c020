// C and C++ runtime functions that the standard library keeps out of line, for the verifier only (native replays use the
// system's own).  None of them is part of the code under verification.
#pragma once
typedef unsigned long rt_size;
extern "C" void* malloc(rt_size) noexcept;
extern "C" void free(void*) noexcept;
#define RT(sym) asm(sym) __attribute__((weak))
struct rt_rb { int color; rt_rb *parent, *left, *right; };
extern "C" {
void rt_rb_insert(bool left, rt_rb* x, rt_rb* p, rt_rb& h) RT("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
rt_rb* rt_rb_erase(rt_rb* z, rt_rb& h) RT("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
rt_rb* rt_rb_inc(rt_rb* x) RT("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
rt_rb* rt_rb_incc(rt_rb* x) RT("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
rt_rb* rt_rb_dec(rt_rb* x) RT("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base");
rt_rb* rt_rb_decc(rt_rb* x) RT("_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base");
}
// An ordered-tree link structure (balance does not matter for its meaning).
void rt_rb_insert(bool left, rt_rb* x, rt_rb* p, rt_rb& h) {
  x->parent = p; x->left = x->right = nullptr; x->color = 1;
  if (p == &h) { h.parent = h.left = h.right = x; return; }
  if (left) { p->left = x; if (p == h.left) h.left = x; }
  else { p->right = x; if (p == h.right) h.right = x; }
}
rt_rb* rt_rb_inc(rt_rb* x) {
  if (x->right) { x = x->right; while (x->left) x = x->left; return x; }
  rt_rb* y = x->parent;
  while (x == y->right) { x = y; y = y->parent; }
  return x->right != y ? y : x;
}
rt_rb* rt_rb_incc(rt_rb* x) { return rt_rb_inc(x); }
rt_rb* rt_rb_dec(rt_rb* x) {
  if (x->color == 0 && x->parent->parent == x) return x->right;   // the header
  if (x->left) { x = x->left; while (x->right) x = x->right; return x; }
  rt_rb* y = x->parent;
  while (x == y->left) { x = y; y = y->parent; }
  return y;
}
rt_rb* rt_rb_decc(rt_rb* x) { return rt_rb_dec(x); }
rt_rb* rt_rb_erase(rt_rb* z, rt_rb& h) {
  auto replace = [&](rt_rb* a, rt_rb* b) {
    if (h.parent == a) h.parent = b; else if (a->parent->left == a) a->parent->left = b; else a->parent->right = b;
    if (b) b->parent = a->parent;
  };
  if (h.left == z) { rt_rb* n = z->right; if (n) while (n->left) n = n->left; h.left = n ? n : z->parent; }
  if (h.right == z) { rt_rb* n = z->left; if (n) while (n->right) n = n->right; h.right = n ? n : z->parent; }
  if (!z->left) replace(z, z->right);
  else if (!z->right) replace(z, z->left);
  else {
    rt_rb* y = z->right;
    while (y->left) y = y->left;
    if (y->parent != z) { replace(y, y->right); y->right = z->right; y->right->parent = y; }
    replace(z, y);
    y->left = z->left; y->left->parent = y;
  }
  return z;
}
struct rt_ln { rt_ln *next, *prev; };
extern "C" {
void rt_hook(rt_ln* a, rt_ln* p) RT("_ZNSt8__detail15_List_node_base7_M_hookEPS0_");
void rt_unhook(rt_ln* a) RT("_ZNSt8__detail15_List_node_base9_M_unhookEv");
void rt_transfer(rt_ln* p, rt_ln* f, rt_ln* l) RT("_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_");
void rt_lswap(rt_ln& x, rt_ln& y) RT("_ZNSt8__detail15_List_node_base4swapERS0_S1_");
void rt_lrev(rt_ln* x) RT("_ZNSt8__detail15_List_node_base10_M_reverseEv");
}
void rt_hook(rt_ln* a, rt_ln* p) { a->next = p; a->prev = p->prev; p->prev->next = a; p->prev = a; }
void rt_unhook(rt_ln* a) { a->prev->next = a->next; a->next->prev = a->prev; }
void rt_transfer(rt_ln* p, rt_ln* f, rt_ln* l) {
  if (p == l) return;
  l->prev->next = p; f->prev->next = l; p->prev->next = f;
  rt_ln* t = p->prev; p->prev = l->prev; l->prev = f->prev; f->prev = t;
}
void rt_lswap(rt_ln& x, rt_ln& y) {
  rt_ln t;
  auto fix = [](rt_ln& a, rt_ln* old) { if (a.next == old) a.next = a.prev = &a; else a.next->prev = a.prev->next = &a; };
  t = x; x = y; y = t;
  fix(x, &y); fix(y, &x);
}
void rt_lrev(rt_ln* x) { rt_ln* t = x; do { rt_ln* n = t->next; t->next = t->prev; t->prev = n; t = n; } while (t != x); }
extern "C" {
int rt_mutex_lock(void*) RT("pthread_mutex_lock");
int rt_mutex_lock(void*) { return 0; }
int rt_mutex_unlock(void*) RT("pthread_mutex_unlock");
int rt_mutex_unlock(void*) { return 0; }
int rt_mutex_trylock(void*) RT("pthread_mutex_trylock");
int rt_mutex_trylock(void*) { return 0; }
int rt_mutex_init(void*, const void*) RT("pthread_mutex_init");
int rt_mutex_init(void*, const void*) { return 0; }
int rt_mutex_destroy(void*) RT("pthread_mutex_destroy");
int rt_mutex_destroy(void*) { return 0; }
int rt_rwlock_rdlock(void*) RT("pthread_rwlock_rdlock");
int rt_rwlock_rdlock(void*) { return 0; }
int rt_rwlock_wrlock(void*) RT("pthread_rwlock_wrlock");
int rt_rwlock_wrlock(void*) { return 0; }
int rt_rwlock_unlock(void*) RT("pthread_rwlock_unlock");
int rt_rwlock_unlock(void*) { return 0; }
int rt_rwlock_init(void*, const void*) RT("pthread_rwlock_init");
int rt_rwlock_init(void*, const void*) { return 0; }
int rt_rwlock_destroy(void*) RT("pthread_rwlock_destroy");
int rt_rwlock_destroy(void*) { return 0; }
int rt_fprintf(void*, const char*, ...) RT("fprintf");
int rt_fprintf(void*, const char*, ...) { return 0; }
int rt_printf(const char*, ...) RT("printf");
int rt_printf(const char*, ...) { return 0; }
int rt_puts(const char*) RT("puts");
int rt_puts(const char*) { return 0; }
int rt_fputs(const char*, void*) RT("fputs");
int rt_fputs(const char*, void*) { return 0; }
int rt_fflush(void*) RT("fflush");
int rt_fflush(void*) { return 0; }
int rt_putchar(int) RT("putchar");
int rt_putchar(int) { return 0; }
rt_size rt_fwrite(const void*, rt_size, rt_size n, void*) RT("fwrite");
rt_size rt_fwrite(const void*, rt_size, rt_size n, void*) { return n; }
void rt_perror(const char*) RT("perror");
void rt_perror(const char*) {}
int* rt_errno() RT("__errno_location");
int* rt_errno() { static int e; return &e; }
long rt_sysconf(int) RT("sysconf");
long rt_sysconf(int) { return 4096; }
int rt_pagesize() RT("getpagesize");
int rt_pagesize() { return 4096; }
void* rt_calloc(rt_size n, rt_size m) RT("calloc");
void* rt_calloc(rt_size n, rt_size m) { char* p = (char*)malloc(n * m); if (p) for (rt_size i = 0; i < n * m; i++) p[i] = 0; return p; }
void* rt_memchr(const void* p, int c, rt_size n) RT("memchr");
void* rt_memchr(const void* p, int c, rt_size n) { const unsigned char* q = (const unsigned char*)p; for (rt_size i = 0; i < n; i++) if (q[i] == (unsigned char)c) return (void*)(q + i); return nullptr; }
int rt_strcmp(const char* a, const char* b) RT("strcmp");
int rt_strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int rt_strncmp(const char* a, const char* b, rt_size n) RT("strncmp");
int rt_strncmp(const char* a, const char* b, rt_size n) { for (; n; n--, a++, b++) if (!*a || *a != *b) return (unsigned char)*a - (unsigned char)*b; return 0; }
rt_size rt_hashb(const void*, rt_size, rt_size) RT("_ZSt11_Hash_bytesPKvmm");
rt_size rt_hashb(const void* p, rt_size n, rt_size h) { const unsigned char* q = (const unsigned char*)p; for (rt_size i = 0; i < n; i++) h = h * 31 + q[i]; return h; }
}
#undef RT
