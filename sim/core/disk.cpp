// Simulated files.
#include "sim.h"
#include "disk.h"
#include <cstdarg>
#include <cerrno>
#define X __attribute__((visibility("default"), used))
std::map<std::string, SFile *> sfiles; static std::set<SFile *> handles; i64 disk_used = 0;
bool sim_is_file(FILE *f) { return handles.count((SFile *)f) > 0; }
static double p_err, p_short, p_open; static i64 capacity;
void disk_start() { p_err = C.get("p_disk_err_ppm") * 1e-6; p_short = C.get("p_disk_short_ppm") * 1e-6; p_open = C.get("p_disk_open_ppm") * 1e-6; capacity = C.get("disk_capacity", -1); }
static size_t put(SFile *s, const char *d, size_t n) {
  if (s->closed) fail("memory", "write to a closed file");
  if (capacity >= 0 && disk_used + (i64)n > capacity) { size_t k = (size_t)std::max<i64>(0, capacity - disk_used); s->data.append(d, k); disk_used += k; s->failed++; errno = ENOSPC; R->fired[K_DISK_ERR]++; probe(PR_DISK_FAIL); return k; }
  s->data.append(d, n); disk_used += n; return n;
}
int sim_vfprintf(FILE *f, const char *fmt, va_list ap) { char b[4096]; int r = vsnprintf(b, sizeof b, fmt, ap); put((SFile *)f, b, (size_t)r); return r; }
extern "C" {
X FILE *__wrap_fopen(const char *path, const char *mode) {
  cost(5000); yield_point();
  if (flip(K_DISK_OPEN, p_open)) { probe(PR_DISK_FAIL); errno = EACCES; return nullptr; }
  SFile *s = new SFile; s->path = path; s->node = cur->node->id; sfiles[std::string(cur->node->name) + ":" + path] = s; handles.insert(s); (void)mode;
  return (FILE *)s;
}
X size_t __wrap_fwrite(const void *p, size_t sz, size_t n, FILE *f) {
  if (!sim_is_file(f)) return n;
  cost(2000); yield_point();
  SFile *s = (SFile *)f; size_t tot = sz * n;
  heap_check(p, tot, 0, "fwrite");
  if (!tot) return 0;
  s->writes++;
  if (flip(K_DISK_ERR, p_err)) { probe(PR_DISK_FAIL); s->failed++; errno = EIO; return 0; }
  u32 sh = choose(K_DISK_SHORT, 100, p_short);
  if (sh && tot > 1) { probe(PR_DISK_FAIL); s->failed++; size_t k = put(s, (const char *)p, std::max<size_t>(1, tot * sh / 100)); errno = ENOSPC; return k / sz; }
  size_t k = put(s, (const char *)p, tot); yield_point();
  return k / sz;
}
X int __wrap_fclose(FILE *f) { if (!sim_is_file(f)) return 0; SFile *s = (SFile *)f; cost(2000); if (s->closed) fail("memory", "file closed twice"); s->closed = true; yield_point(); return 0; }
X int __wrap_fflush(FILE *) { return 0; }
}
