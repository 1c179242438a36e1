// Node heaps (never reused, shadow-checked) and the run-time of the memory access instrumentation.
#include "sim.h"
#include <sys/mman.h>
#include <dlfcn.h>

static char *const HB_ = (char *)0x210000000000ULL;
static const u64 PER_NODE = 192ULL << 20; static const int MAXN = 16;
static const u64 HEAP_TOTAL = PER_NODE * MAXN;
static unsigned char *const SH = (unsigned char *)0x220000000000ULL;
static const u64 MAGIC = 0x51a110c8edULL;
static u64 serial = 1;
u64 live_blocks[MAXN];
bool heap_checks = true;

void heap_init() {
  void *p = mmap(HB_, HEAP_TOTAL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void *q = mmap(SH, HEAP_TOTAL / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)HB_ || q != (void *)SH) { perror("mmap heap"); exit(2); }
}
static std::string sym(void *pc) {
  Dl_info di; char b[160];
  if (pc && dladdr(pc, &di) && di.dli_sname) { snprintf(b, sizeof b, "%s", di.dli_sname); return b; }
  return "?";
}
static void shadow_set(char *p, size_t n, bool ok) {
  unsigned char *s = SH + (u64)(p - HB_) / 8; size_t full = n / 8;
  if (!ok) { memset(s, 0, (n + 7) / 8); return; }
  memset(s, 8, full); if (n & 7) s[full] = n & 7;
}
void *heap_alloc(Node *n, size_t sz, bool zero) {
  if (!n->heap) { n->heap = HB_ + PER_NODE * n->id; n->heap_end = n->heap + PER_NODE; n->hp = n->heap + 64; }
  size_t tot = 32 + ((sz + 15) & ~(size_t)15) + 32;
  if (n->hp + tot > n->heap_end) fail("exhausted", "the node allocates memory without bound");
  HeapBlk *b = (HeapBlk *)n->hp; char *u = n->hp + 32; n->hp += tot;
  b->magic = MAGIC; b->size = (u32)sz; b->state = 1; b->serial = serial++; b->pc = __builtin_return_address(0);
  shadow_set(u, sz, true);
  if (zero) { /* fresh pages are zero */ }
  else { u64 x = mix2(S.seed, b->serial); for (size_t i = 0; i < sz && i < 4096; i++) u[i] = (char)(x >> ((i & 7) * 8)) | 0x40; }
  n->allocs++; live_blocks[n->id]++;
  return u;
}
static HeapBlk *blk(const void *p) {
  u64 off = (u64)p - (u64)HB_;
  if (off >= HEAP_TOTAL) return nullptr;
  HeapBlk *b = (HeapBlk *)((char *)p - 32);
  return b->magic == MAGIC ? b : nullptr;
}
static void *blame() { return __builtin_return_address(0); }
void heap_free_from(void *p, void *pc) {
  if (!p) return;
  HeapBlk *b = blk(p);
  if (!b) fail("memory", "free of a pointer that was never allocated (from %s)", sym(pc).c_str());
  if (b->state != 1) fail("memory", "double free of a %u-byte block (from %s, first freed by %s)", b->size, sym(pc).c_str(), sym(b->pc).c_str());
  b->state = 2; b->pc = pc; shadow_set((char *)p, b->size, false);
  live_blocks[((char *)p - HB_) / PER_NODE]--;
  (void)blame;
}
void heap_free(void *p) { heap_free_from(p, __builtin_return_address(0)); }
size_t heap_size(void *p) { HeapBlk *b = blk(p); return b ? b->size : 0; }
bool heap_live(const void *p) { HeapBlk *b = blk(p); return b && b->state == 1; }
u64 heap_id(const void *p) { HeapBlk *b = blk(p); return b ? b->serial : 0; }

static void bad_access(const void *p, size_t n, int write, const char *what, void *pc) {
  // find the block
  char *q = (char *)((u64)p & ~15ULL); HeapBlk *b = nullptr; char *lo = q - (1 << 20); if (lo < HB_) lo = HB_;
  for (char *s = q; s >= lo; s -= 16) { HeapBlk *c = (HeapBlk *)s; if (c->magic == MAGIC && s + 32 <= (char *)p + 32) { b = c; break; } }
  if (b && b->state == 2) fail("memory", "%s of %zu bytes in a freed %u-byte block (%s; access in %s, freed by %s)", write ? "write" : "read", n, b->size, what, sym(pc).c_str(), sym(b->pc).c_str());
  fail("memory", "%s of %zu bytes outside of any live block, offset %ld from a %u-byte block (%s; access in %s)", write ? "write" : "read", n, b ? (long)((char *)p - (char *)b - 32) : -1L, b ? b->size : 0, what, sym(pc).c_str());
}
void heap_check_from(const void *p, size_t n, int write, const char *what, void *pc) {
  if (!heap_checks || !n || !in_sim) return;
  u64 off = (u64)p - (u64)HB_;
  if (off >= HEAP_TOTAL) { if ((u64)p < 4096) fail("crash", "null pointer passed to %s (from %s)", what, sym(pc).c_str()); return; }
  u64 a = off, e = off + n;
  while (a < e) {
    u64 g = a / 8; unsigned v = SH[g]; u64 end = (g + 1) * 8; u64 lim = e < end ? e : end;
    if (lim - g * 8 > v) bad_access((const char *)p, n, write, what, pc);
    a = end;
  }
}
void heap_check(const void *p, size_t n, int write, const char *what) { heap_check_from(p, n, write, what, __builtin_return_address(0)); }

extern "C" void preempt_slow();
static inline __attribute__((always_inline)) void acc(void *a, unsigned n, int w, void *pc) {
  if (__builtin_expect(--preempt_countdown <= 0, 0)) preempt_slow();
  u64 off = (u64)a - (u64)HB_;
  if (off < HEAP_TOTAL && in_sim && heap_checks) {
    unsigned v = SH[off / 8];
    if (__builtin_expect((off & 7) + n > v, 0)) { if (v == 8) heap_check_from(a, n, w, "access", pc); else bad_access(a, n, w, "access", pc); }
  }
}
#define PC __builtin_return_address(0)
#define X __attribute__((visibility("default"), used))
extern "C" {
X void __tsan_init() {}
X void __tsan_func_entry(void *) {}
X void __tsan_func_exit() {}
#define RW(n) X void __tsan_read##n(void *a) { acc(a, n, 0, PC); } X void __tsan_write##n(void *a) { acc(a, n, 1, PC); } \
  X void __tsan_unaligned_read##n(void *a) { acc(a, n, 0, PC); } X void __tsan_unaligned_write##n(void *a) { acc(a, n, 1, PC); } \
  X void __tsan_read_write##n(void *a) { acc(a, n, 1, PC); } X void __tsan_unaligned_read_write##n(void *a) { acc(a, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
X void __tsan_read_range(void *a, size_t n) { heap_check_from(a, n, 0, "range", PC); }
X void __tsan_write_range(void *a, size_t n) { heap_check_from(a, n, 1, "range", PC); }
X void __tsan_vptr_read(void **) {}
X void __tsan_vptr_update(void **, void *) {}
X void *__tsan_memcpy(void *d, const void *s, size_t n) { acc(d, 1, 1, PC); heap_check_from(d, n, 1, "memcpy", PC); heap_check_from(s, n, 0, "memcpy", PC); return memcpy(d, s, n); }
X void *__tsan_memmove(void *d, const void *s, size_t n) { acc(d, 1, 1, PC); heap_check_from(d, n, 1, "memmove", PC); heap_check_from(s, n, 0, "memmove", PC); return memmove(d, s, n); }
X void *__tsan_memset(void *d, int c, size_t n) { acc(d, 1, 1, PC); heap_check_from(d, n, 1, "memset", PC); return memset(d, c, n); }
X void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) acc(d, 1, 1, PC); heap_check_from(d, n, 1, "memcpy", PC); heap_check_from(s, n, 0, "memcpy", PC); return memcpy(d, s, n); }
X void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) acc(d, 1, 1, PC); heap_check_from(d, n, 1, "memmove", PC); heap_check_from(s, n, 0, "memmove", PC); return memmove(d, s, n); }
X void *__wrap_memset(void *d, int c, size_t n) { if (n) acc(d, 1, 1, PC); heap_check_from(d, n, 1, "memset", PC); return memset(d, c, n); }
X int __wrap_memcmp(const void *d, const void *s, size_t n) { heap_check_from(d, n, 0, "memcmp", PC); heap_check_from(s, n, 0, "memcmp", PC); return memcmp(d, s, n); }
X size_t __wrap_strlen(const char *s) { size_t n = strlen(s); heap_check_from(s, n + 1, 0, "strlen", PC); return n; }
X char *__wrap_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; heap_check_from(s, n, 0, "strcpy", PC); heap_check_from(d, n, 1, "strcpy", PC); return strcpy(d, s); }
X char *__wrap_strncpy(char *d, const char *s, size_t n) { heap_check_from(s, strnlen(s, n), 0, "strncpy", PC); heap_check_from(d, n, 1, "strncpy", PC); return strncpy(d, s, n); }
X int __wrap_strcmp(const char *a, const char *b) { heap_check_from(a, strlen(a) + 1, 0, "strcmp", PC); heap_check_from(b, strlen(b) + 1, 0, "strcmp", PC); return strcmp(a, b); }
X int __wrap_strncmp(const char *a, const char *b, size_t n) {
  // only as far as the comparison reads
  for (size_t i = 0; i < n; i++) { heap_check_from(a + i, 1, 0, "strncmp", PC); heap_check_from(b + i, 1, 0, "strncmp", PC); if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) break; }
  return 0;
}
#define AT(sz, T) \
X T __tsan_atomic##sz##_load(const volatile T *a, int) { acc((void *)a, sizeof(T), 0, PC); return *a; } \
X void __tsan_atomic##sz##_store(volatile T *a, T v, int) { acc((void *)a, sizeof(T), 1, PC); *a = v; } \
X T __tsan_atomic##sz##_exchange(volatile T *a, T v, int) { acc((void *)a, sizeof(T), 1, PC); T o = *a; *a = v; return o; } \
X T __tsan_atomic##sz##_fetch_add(volatile T *a, T v, int) { acc((void *)a, sizeof(T), 1, PC); T o = *a; *a = (T)(o + v); return o; } \
X T __tsan_atomic##sz##_fetch_sub(volatile T *a, T v, int) { acc((void *)a, sizeof(T), 1, PC); T o = *a; *a = (T)(o - v); return o; } \
X T __tsan_atomic##sz##_fetch_and(volatile T *a, T v, int) { acc((void *)a, sizeof(T), 1, PC); T o = *a; *a = o & v; return o; } \
X T __tsan_atomic##sz##_fetch_or(volatile T *a, T v, int) { acc((void *)a, sizeof(T), 1, PC); T o = *a; *a = o | v; return o; } \
X T __tsan_atomic##sz##_fetch_xor(volatile T *a, T v, int) { acc((void *)a, sizeof(T), 1, PC); T o = *a; *a = o ^ v; return o; } \
X T __tsan_atomic##sz##_fetch_nand(volatile T *a, T v, int) { acc((void *)a, sizeof(T), 1, PC); T o = *a; *a = ~(o & v); return o; } \
X int __tsan_atomic##sz##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { acc((void *)a, sizeof(T), 1, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
X int __tsan_atomic##sz##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { acc((void *)a, sizeof(T), 1, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
X T __tsan_atomic##sz##_compare_exchange_val(volatile T *a, T e, T v, int, int) { acc((void *)a, sizeof(T), 1, PC); T o = *a; if (o == e) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
X void __tsan_atomic_thread_fence(int) {}
X void __tsan_atomic_signal_fence(int) {}

struct emutls_obj { size_t size, align; void *ptr; void *templ; };
X void *__emutls_get_address(emutls_obj *o) {
  void *&p = cur->tls[o];
  if (!p) { p = calloc(1, o->size); if (o->templ) memcpy(p, o->templ, o->size); }
  return p;
}
X void *__wrap_malloc(size_t n) { return heap_alloc(cur->node, n, false); }
X void *__wrap_calloc(size_t a, size_t b) { return heap_alloc(cur->node, a * b, true); }
X void __wrap_free(void *p) { heap_free_from(p, PC); }
X void *__wrap_realloc(void *p, size_t n) {
  void *q = heap_alloc(cur->node, n, false);
  if (p) { if (!heap_live(p)) fail("memory", "realloc of a freed or foreign block (from %s)", sym(PC).c_str()); size_t o = heap_size(p); memcpy(q, p, o < n ? o : n); heap_free_from(p, PC); }
  return q;
}
X char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; heap_check_from(s, n, 0, "strdup", PC); char *q = (char *)heap_alloc(cur->node, n, false); memcpy(q, s, n); return q; }
X char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *q = (char *)heap_alloc(cur->node, n + 1, false); memcpy(q, s, n); q[n] = 0; return q; }
}

// A live block of the node's heap that holds a payload produced by the program.
bool heap_find_payload(Node *n, const std::function<bool(u64)> &is_payload, u64 *first, u32 *size) {
  if (!n->heap) return false;
  for (char *q = n->heap + 64; q < n->hp;) {
    HeapBlk *b = (HeapBlk *)q; u64 tot = 32 + (((u64)b->size + 15) & ~15ULL) + 32;
    if (b->magic != MAGIC) fail("memory", "the header of a heap block was overwritten");
    if (b->state == 1 && b->size >= 8 && b->size % 8 == 0 && is_payload(*(u64 *)(q + 32))) { *first = *(u64 *)(q + 32); *size = b->size; return true; }
    q += tot;
  }
  return false;
}
