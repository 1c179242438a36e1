// The trace file against an independent record of what was traced and against the observed history.
#include "prog.h"
#include "disk.h"
#include <cstring>
#define X __attribute__((visibility("default"), used))
namespace {
struct Rec { int event, pad; u64 pointer; int src, dst; i64 time; u32 ms, pad2; i64 phys; u64 trigger; i64 extra; };   // trace_record_t
static_assert(sizeof(Rec) == 64, "trace record");
enum { reaction_starts, reaction_ends, reaction_deadline_missed, schedule_called, user_event, user_value, worker_wait_starts, worker_wait_ends };
struct Call { Node *n; int fiber; Rec r; u64 s0, s1; };
struct Obj { Node *n; int kind, id; u64 p, trigger; std::string name; };
struct Val { Node *n; int inv; i64 v; };
std::vector<Call> calls; std::vector<Obj> objs; std::vector<Val> vals;
std::map<Node *, u64> down; // begin of the shutdown of tracing
struct Reader {
  const std::string &d; size_t p = 0;
  bool get(void *o, size_t n) { if (d.size() - p < n) return false; memcpy(o, d.data() + p, n); p += n; return true; }
};
struct File { i64 start = 0; std::vector<Obj> table; std::vector<Rec> recs; bool header = false, torn = false; };
}
void trace_value(i64 v) { vals.push_back({cur->node, Hs.open[cur->id].empty() ? -1 : Hs.open[cur->id].back(), v}); }
extern "C" {
X void sim_trace(int what, const void *rec, size_t n) {
  if (what == 2) { if (!down.count(cur->node)) down[cur->node] = ++gseq; return; }
  if (what == 3) return;
  if (what == 0) { Call c; c.n = cur->node; c.fiber = cur->id; memset(&c.r, 0, sizeof c.r); memcpy(&c.r, rec, std::min(n, sizeof c.r)); c.s0 = ++gseq; c.s1 = 0; calls.push_back(c); probe(PR_TRACE_REC); yield_point(); return; }
  for (size_t i = calls.size(); i-- > 0;) if (calls[i].fiber == cur->id && calls[i].n == cur->node && !calls[i].s1) { calls[i].s1 = ++gseq; break; }
}
X void sim_trace_obj(int kind, int id, const void *p, const void *t, const char *name) { objs.push_back({cur->node, kind, id, (u64)p, (u64)t, name}); }
}
static std::string rs(const Rec &r, i64 st) {
  static const char *en[] = {"reaction_starts", "reaction_ends", "deadline_missed", "schedule_called", "user_event", "user_value", "wait_starts", "wait_ends"};
  char b[200]; snprintf(b, sizeof b, "%s tag (%ld,%u) src %d dst %d extra %ld physical %ld", r.event >= 0 && r.event < 8 ? en[r.event] : std::to_string(r.event).c_str(), r.time - st, r.ms, r.src, r.dst, r.extra, r.phys - st); return b;
}
static File decode(const SFile &s) {
  File f; Reader r{s.data}; int n = 0;
  bool faulty = s.failed > 0;
  auto bad = [&](const char *what) { if (!faulty) fail("trace", "the trace file cannot be decoded: %s at byte %zu of %zu", what, r.p, s.data.size()); f.torn = true; };
  if (s.data.empty()) return f;
  if (!r.get(&f.start, 8) || !r.get(&n, 4)) { bad("truncated header"); return f; }
  if (n < 0 || n > 100000) { fail("trace", "the object table of the trace file claims %d entries", n); }
  for (int i = 0; i < n; i++) {
    Obj o; o.n = nullptr; o.id = 0; if (!r.get(&o.p, 8) || !r.get(&o.trigger, 8) || !r.get(&o.kind, 4)) { bad("truncated object table"); return f; }
    char c = 1; while (r.get(&c, 1) && c) o.name += c;
    if (c) { bad("truncated description"); return f; }
    f.table.push_back(o);
  }
  f.header = true;
  while (r.p < s.data.size()) {
    int k = 0; if (!r.get(&k, 4)) { bad("truncated block length"); return f; }
    if (k < 0 || k > 2048) fail("trace", "a block of the trace file claims %d records (byte %zu of %zu)", k, r.p, s.data.size());
    while (k--) { Rec x; if (!r.get(&x, sizeof x)) { bad("truncated block"); return f; } f.recs.push_back(x); }
  }
  return f;
}
static bool same(const Rec &a, const Rec &b) { return a.event == b.event && a.pointer == b.pointer && a.src == b.src && a.dst == b.dst && a.time == b.time && a.ms == b.ms && a.phys == b.phys && a.trigger == b.trigger && a.extra == b.extra; }
// The records of file f are exactly the traced ones (a prefix of those of each thread after a write error), in order for each thread.
static void match(Node *n, const File &f, bool faulty) {
  std::map<i64, std::vector<size_t>> by; std::vector<bool> used(calls.size()), ambiguous(calls.size());
  for (size_t i = 0; i < calls.size(); i++) if (calls[i].n == n) by[calls[i].r.phys].push_back(i);
  if (S.verbose) for (auto &c : calls) if (c.n == n) printf("traced %s fiber %d %s\n", n->name.c_str(), c.fiber, rs(c.r, f.start).c_str());
  std::map<int, size_t> at; // fiber -> position in calls
  u64 end = down.count(n) ? down[n] : ~0ull;
  for (auto &x : f.recs) {
    auto q = by.find(x.phys); size_t hit = calls.size();
    if (q != by.end()) for (auto i : q->second) if (!used[i] && same(calls[i].r, x)) { hit = i; break; }
    if (hit == calls.size()) {
      if (q != by.end()) for (auto i : q->second) if (same(calls[i].r, x)) fail("trace", "the trace file contains a record twice: %s", rs(x, f.start).c_str());
      fail("trace", "the trace file contains a record that was not traced: %s", rs(x, f.start).c_str());
    }
    used[hit] = true; int fb = calls[hit].fiber;
    bool twin = false; for (auto i : q->second) twin |= calls[i].fiber != fb && same(calls[i].r, x);
    if (twin) { ambiguous[hit] = true; for (auto i : q->second) if (same(calls[i].r, x)) ambiguous[i] = true; continue; } // two threads traced the same record
    if (at.count(fb) && hit < at[fb]) fail("trace", "the records of one thread are out of order in the trace file of %s: %s comes after %s", n->name.c_str(), rs(x, f.start).c_str(), rs(calls[at[fb]].r, f.start).c_str());
    at[fb] = hit;
  }
  std::map<int, bool> gap;
  for (size_t i = 0; i < calls.size(); i++) if (calls[i].n == n) {
    if (!used[i] && !faulty && calls[i].s1 && calls[i].s1 < end) fail("trace", "a record is missing from the trace file: %s", rs(calls[i].r, f.start).c_str());
    if (ambiguous[i]) continue;
    if (!used[i]) gap[calls[i].fiber] = true;
    else if (gap[calls[i].fiber] && !faulty) fail("trace", "a record was lost before this one of the same thread: %s", rs(calls[i].r, f.start).c_str());
  }
}
static const Obj *find(Node *n, int kind, int id) { for (auto &o : objs) if (o.n == n && o.kind == kind && o.id == id) return &o; return nullptr; }
void check_trace(Node *n, int node) {
  SFile *s = nullptr; bool opened_badly = R->fired[K_DISK_OPEN] > 0;
  for (auto &x : sfiles) if (x.second->node == n->id) { if (s) fail("trace", "the program wrote two files"); s = x.second; }
  if (!s) { if (!opened_badly) fail("trace", "the program left no trace file"); return; }
  bool faulty = s->failed > 0;
  if (!s->closed) fail("trace", "the trace file was not closed");
  File f = decode(*s);
  if (S.verbose) for (auto &t : f.table) printf("trace object %lx %lx %d %s\n", t.p, t.trigger, t.kind, t.name.c_str());
  if (S.verbose) for (auto &r : f.recs) printf("trace %s\n", rs(r, f.start).c_str());
  if (!faulty && !f.header && !calls.empty()) fail("trace", "the trace file is empty");
  if (f.header) {
    if (Hs.start.count(node) && f.start != Hs.start[node]) fail("trace", "the trace file gives start time %ld instead of %ld", f.start, Hs.start[node]);
    for (auto &o : objs) if (o.n == n) {
      int k = 0; for (auto &t : f.table) if (t.p == o.p && t.trigger == o.trigger && t.kind == (o.kind ? 1 : 0) && t.name == o.name) k++;
      if (k != 1) fail("trace", "object %s is in the object table of the trace file %d times", o.name.c_str(), k);
    }
  }
  match(n, f, faulty);
  if (faulty || node < 0) return;
  bool fed = C.get("nf") > 0;
  // against the history
  i64 st = f.start;
  auto count = [&](int ev, u64 ptr, int dst, Tag t) { int k = 0; for (auto &r : f.recs) if (r.event == ev && r.pointer == ptr && r.dst == dst && r.time == t.t + st && r.ms == t.m) k++; return k; };
  int bodies = 0, late = 0, ns = 0, ne = 0, nm = 0;
  for (auto &v : Hs.inv) if (v.node == node && v.kind != WATCHDOG_HANDLER) {
    const sp_reaction &q = G->reactions[v.rid]; const Obj *o = find(n, 0, q.reactor); if (!o) continue;
    if (v.kind == DEADLINE_HANDLER) {
      late++;
      if (int k = count(reaction_deadline_missed, o->p, q.number, v.tag); k != 1) fail("trace", "the missed deadline of reaction %d at %s is in the trace %d times", v.rid, ts(v.tag).c_str(), k);
    }
    {
      bodies++;
      for (int ev : {reaction_starts, reaction_ends}) if (int k = count(ev, o->p, q.number, v.tag); k != 1) fail("trace", "the %s of reaction %d at %s is in the trace %d times", ev == reaction_starts ? "start" : "end", v.rid, ts(v.tag).c_str(), k);
      for (auto &r : f.recs) if (r.pointer == o->p && r.dst == q.number && r.time == v.tag.t + st && r.ms == v.tag.m) {
        if (r.event == reaction_starts && r.phys > v.b_clk + 64) fail("trace", "the start of reaction %d at %s is recorded %ld ns late", v.rid, ts(v.tag).c_str(), r.phys - v.b_clk);
        if (r.event == reaction_ends && r.phys < v.e_clk) fail("trace", "the end of reaction %d at %s is recorded %ld ns early", v.rid, ts(v.tag).c_str(), v.e_clk - r.phys);
      }
    }
  }
  std::map<int, int> waiting;
  for (auto &r : f.recs) {
    ns += r.event == reaction_starts; ne += r.event == reaction_ends; nm += r.event == reaction_deadline_missed;
    if (r.event == reaction_starts || r.event == reaction_ends || r.event == reaction_deadline_missed || r.event == worker_wait_starts || r.event == worker_wait_ends) { int w = (int)C.get("threads"); if (w && !C.get("argw")) w = std::max(w, 2); if (r.src < 0 || r.src >= std::max(1, w)) fail("trace", "a record names worker %d of %d", r.src, w); }
    if (r.event == worker_wait_starts && waiting[r.src]++ != 0) fail("trace", "worker %d starts to wait while it is waiting", r.src);
    if (r.event == worker_wait_ends && --waiting[r.src] != 0) fail("trace", "worker %d ends a wait that never started", r.src);
  }
  for (auto &w : waiting) if (w.second) fail("trace", "the end of a wait of worker %d is missing", w.first);
  if (!fed && (ns != bodies || ne != bodies || nm != late)) fail("trace", "%d handlers ran, %d of them for missed deadlines, but the trace has %d starts, %d ends and %d missed deadlines", bodies, late, ns, ne, nm);
  for (auto &v : vals) if (v.n == n) {
    const Inv *i = v.inv >= 0 ? &Hs.inv[v.inv] : nullptr; if (!i || i->kind == WATCHDOG_HANDLER) continue;
    int k = 0, m = 0; for (auto &r : f.recs) k += r.event == user_value && r.extra == v.v && r.time == i->tag.t + st && r.ms == i->tag.m;
    for (auto &u : vals) m += u.n == n && u.v == v.v && u.inv >= 0 && Hs.inv[u.inv].tag == i->tag;
    if (k != m) fail("trace", "a traced user value is in the trace %d times instead of %d", k, m);
  }
  // every event that was handled was scheduled by a recorded call
  std::map<std::pair<int, Tag>, bool> seen;
  for (auto &v : Hs.inv) if (v.node == node && v.kind != WATCHDOG_HANDLER) {
    for (auto &x : v.in) if (x.kind == TK_ACTION && x.present) seen[{x.id, v.tag}] = true;
  }
  if (!C.get("f_modal") && !fed) for (auto &e : seen) {
    const Obj *o = find(n, 1, e.first.first); if (!o) continue; int k = 0, due = 0;
    for (auto &r : f.recs) k += r.event == schedule_called && r.trigger == o->trigger && r.time + r.extra == e.first.second.t + st;
    for (auto &x : seen) due += x.first.first == e.first.first && x.first.second.t == e.first.second.t;
    if (k < due) fail("trace", "action %d occurred at time %ld at %d microsteps, but only %d calls to schedule for that time are in the trace", e.first.first, e.first.second.t, due, k);
  }
}
