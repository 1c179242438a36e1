// Campaigns, replay, minimisation.
#include "sim.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <ctime>
#include <csignal>

static std::string img_dir = ".";
static std::map<std::pair<std::string, int>, void *> handles;
void *image_handle(const std::string &name, int copy) {
  auto k = std::make_pair(name, copy); auto it = handles.find(k); if (it != handles.end()) return it->second;
  std::string f = img_dir + "/" + name + "." + std::to_string(copy) + ".so";
  void *h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "cannot load %s: %s\n", f.c_str(), dlerror()); exit(2); }
  return handles[k] = h;
}
int image_copies(const std::string &name) { int k = 0; while (k < 8 && !access((img_dir + "/" + name + "." + std::to_string(k) + ".so").c_str(), F_OK)) k++; return k ? k : 1; }
static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static const u32 MAX_OVER = 300000;
static size_t RSZ = sizeof(Result) + sizeof(Override) * (size_t)MAX_OVER;
static Result *new_result() { return (Result *)mmap(nullptr, RSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
static Result *run_child(const RunSpec &spec) {
  u32 n = R->n_over; (void)n;
  memset(R, 0, sizeof(Result));
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    struct rlimit rl = {120, 120}; setrlimit(RLIMIT_CPU, &rl); struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
    S = spec; set_max_over(MAX_OVER);
    run_profile();
    _exit(5);
  }
  int st = 0; while (waitpid(p, &st, 0) < 0) {}
  if (!R->done) { R->fail = 1; snprintf(R->cls, sizeof R->cls, "crash"); snprintf(R->msg, sizeof R->msg, "the simulated process died (status %x)", st); R->hash = 0xdead; }
  return R;
}
struct Fail { RunSpec spec; std::string cls, msg; u64 hash; };
static void write_replay(const std::string &path, const RunSpec &s, const std::string &cls, const std::string &msg, u64 hash) {
  FILE *f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); exit(2); }
  fprintf(f, "sim-replay 1\nprofile %s\nseed %lu\nlisted %d\n", s.profile.c_str(), s.seed, s.listed ? 1 : 0);
  for (auto &x : s.set) fprintf(f, "set %s %ld\n", x.first.c_str(), x.second);
  for (auto &x : s.drop) fprintf(f, "drop %s\n", x.c_str());
  for (auto &o : s.over) fprintf(f, "over %s %u %u\n", kind_name[o.kind], o.idx, o.val);
  fprintf(f, "class %s\nhash %016lx\nmessage %s\n", cls.c_str(), hash, msg.c_str());
  fclose(f);
}
static bool read_replay(const std::string &path, RunSpec &s, std::string &cls, std::string &msg, u64 &hash) {
  FILE *f = fopen(path.c_str(), "r"); if (!f) return false;
  char line[4096]; s = RunSpec(); 
  while (fgets(line, sizeof line, f)) {
    line[strcspn(line, "\n")] = 0; char a[256], b[256]; long v; unsigned i, w;
    if (sscanf(line, "profile %255s", a) == 1) s.profile = a;
    else if (sscanf(line, "seed %lu", &s.seed) == 1) {}
    else if (sscanf(line, "listed %ld", &v) == 1) s.listed = v;
    else if (sscanf(line, "set %255s %ld", a, &v) == 2) s.set[a] = v;
    else if (sscanf(line, "drop %255s", a) == 1) s.drop.insert(a);
    else if (sscanf(line, "over %255s %u %u", a, &i, &w) == 3) { for (int k = 0; k < K_COUNT; k++) if (!strcmp(kind_name[k], a)) s.over.push_back({k, i, w}); }
    else if (sscanf(line, "class %255s", b) == 1) cls = b;
    else if (sscanf(line, "hash %lx", &hash) == 1) {}
    else if (!strncmp(line, "message ", 8)) msg = line + 8;
  }
  fclose(f); return true;
}
static bool same_class(const std::string &cls) { return R->fail && cls == R->cls; }
// Reduce the decisions, the faults and the program while the same class of violation persists.
static RunSpec minimise(const RunSpec &orig, const std::string &cls, double budget, int *tries) {
  double t0 = wall(); RunSpec best = orig; *tries = 0;
  auto ok = [&](const RunSpec &s) { ++*tries; run_child(s); return same_class(cls); };
  auto time_left = [&] { return wall() - t0 < budget; };
  // quieter configuration
  static const char *zero[] = {"p_mem_ppm", "p_stall_ppm", "p_spur_ppm", "p_over_ppm", "p_eintr_ppm", "p_jump_ppm", "p_net_frag_ppm", "p_net_eintr_ppm", "p_udp_loss_ppm", "p_udp_dup_ppm", "p_net_shortw_ppm", "p_net_delay_ppm", "p_part_ppm", "start_spread_ns", "clock_spread_ns"};
  for (auto z : zero) if (time_left()) { RunSpec s = best; s.set[z] = 0; if (ok(s)) best = s; }
  if (time_left()) { RunSpec s = best; s.set["strat"] = 2; s.set["p_switch_ppm"] = 0; if (ok(s)) best = s; }
  // listed decisions
  { RunSpec s = best; s.record = true; run_child(s); if (same_class(cls) && R->n_over < MAX_OVER) {
      RunSpec l = best; l.listed = true; l.record = false; l.over.assign(R->over, R->over + R->n_over);
      if (ok(l)) {
        best = l;
        size_t n = 2;
        while (!best.over.empty() && time_left()) {
          size_t sz = best.over.size(), ch = (sz + n - 1) / n; bool red = false;
          for (size_t i = 0; i < sz && time_left(); i += ch) {
            RunSpec s2 = best; s2.over.erase(s2.over.begin() + i, s2.over.begin() + std::min(sz, i + ch));
            if (ok(s2)) { best = s2; red = true; n = std::max<size_t>(n - 1, 2); break; }
          }
          if (!red) { if (ch <= 1) break; n = std::min(n * 2, sz); }
        }
      }
    } }
  // program elements
  std::vector<std::string> names; for (int i = 0; i < 120; i++) names.push_back("rule" + std::to_string(i));
  for (int t = 0; t < 4; t++) for (int k = 0; k < 8; k++) names.push_back("async" + std::to_string(t) + "." + std::to_string(k));
  for (int t = 0; t < 3; t++) for (int k = 0; k < 4; k++) names.push_back("adv" + std::to_string(t) + "." + std::to_string(k));
  for (size_t ch = 32; ch >= 1; ch /= 2) for (size_t i = 0; i < names.size() && time_left(); i += ch) {
    RunSpec s = best; bool add = false; for (size_t k = i; k < std::min(names.size(), i + ch); k++) add |= s.drop.insert(names[k]).second;
    if (add && ok(s)) best = s;
  }
  return best;
}
static void usage() { fprintf(stderr, "usage: sim run|replay|campaign|det ...\n"); exit(2); }

struct Agg { // per worker, shared
  u64 runs, fails, internal, reactions, tags, steps, switches, accesses; i64 sim_ns; u64 fired[K_COUNT], asked[K_COUNT], probes[64], probe_runs[64]; u64 nhash, nonvac; u64 max_steps;
  int n_known; char known[16][64]; u64 known_n[16];
  int n_fail; struct { u64 seed; char profile[32]; char cls[48]; char msg[1400]; u64 hash; u64 idx; } f[8];
  u64 hashes[1 << 18], phashes[1 << 18];
};
int main(int argc, char **argv) {
  if (argc < 2) usage();
  std::string cmd = argv[1], profile = "C01", file, out = ".", report; u64 seed = 1; double seconds = 10; int jobs = 8; bool verbose = false; std::map<std::string, i64> set; u64 maxruns = 0; bool listed = false; std::string want_cls; double minsec = 25; bool keep_going = false; u64 index = 0;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { if (i + 1 >= argc) usage(); return std::string(argv[++i]); };
    if (a == "--images") img_dir = nx(); else if (a == "--profile") profile = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 0); else if (a == "--seconds") seconds = atof(nx().c_str());
    else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--report") report = nx(); else if (a == "-v") verbose = true; else if (a == "--runs") maxruns = strtoull(nx().c_str(), 0, 0);
    else if (a == "--set") { std::string s = nx(); size_t e = s.find('='); set[s.substr(0, e)] = atoll(s.c_str() + e + 1); } else if (a == "--listed") listed = true; else if (a == "--min-seconds") minsec = atof(nx().c_str()); else if (a == "--keep-going") keep_going = true; else if (a == "--known") known_ids.insert(nx()); else if (a == "--index") index = strtoull(nx().c_str(), 0, 0);
    else file = a;
  }
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  kernel_init(); heap_init();
  R = new_result();
  std::vector<std::string> profs; { std::string p = profile; size_t i; while ((i = p.find(',')) != std::string::npos) { profs.push_back(p.substr(0, i)); p = p.substr(i + 1); } profs.push_back(p); }
  if (cmd == "images") { for (auto &s : profile_images(profile)) printf("%s\n", s.c_str()); return 0; }
  if (cmd == "run") {
    RunSpec s; s.profile = profile; s.seed = seed; s.verbose = verbose; s.set = set; s.listed = listed;
    for (auto &im : profile_images(profile)) for (int k = 0; k < image_copies(im); k++) image_handle(im, k);
    run_child(s);
    printf("%s %s: %s\nhash %016lx steps %lu switches %lu accesses %lu sim %.3f ms reactions %lu tags %lu\n", R->fail ? "FAIL" : "ok", R->cls, R->msg, R->hash, R->steps, R->switches, R->accesses, R->sim_ns / 1e6, R->reactions, R->tags);
    return R->fail ? 1 : 0;
  }
  if (cmd == "sample") { // the run with the given index of a campaign, written out
    RunSpec s; s.profile = profs[index % profs.size()]; s.seed = mix2(mix2(seed, 0xca41), index); s.verbose = true; s.set = set;
    for (auto &im : profile_images(s.profile)) for (int k = 0; k < image_copies(im); k++) image_handle(im, k);
    printf("profile %s seed %lu\n", s.profile.c_str(), s.seed); run_child(s); printf("%s hash %016lx\n", R->fail ? "FAIL" : "ok", R->hash); return 0;
  }
  if (cmd == "replay") {
    RunSpec s; std::string cls, msg; u64 h = 0; if (!read_replay(file, s, cls, msg, h)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 2; }
    for (auto &im : profile_images(s.profile)) for (int k = 0; k < image_copies(im); k++) image_handle(im, k);
    s.verbose = verbose; run_child(s);
    bool same = R->fail && cls == R->cls && h == R->hash;
    printf("replay %s: %s class=%s %s (hash %016lx, recorded %016lx)\n", file.c_str(), same ? "reproduced exactly" : R->fail ? "fails differently" : "no failure", R->cls, R->msg, R->hash, h);
    return same ? 1 : R->fail ? 3 : 0;
  }
  if (cmd == "minimise") { // replay file in, replay file out (--out is the file)
    RunSpec s; std::string cls, msg; u64 h = 0; if (!read_replay(file, s, cls, msg, h)) return 2;
    for (auto &im : profile_images(s.profile)) for (int k = 0; k < image_copies(im); k++) image_handle(im, k);
    int tries; RunSpec b = minimise(s, cls, minsec, &tries); run_child(b);
    if (!same_class(cls)) return 2;
    write_replay(out, b, R->cls, R->msg, R->hash); printf("minimised with %d runs: %zu decisions, %zu dropped\n", tries, b.over.size(), b.drop.size()); return 0;
  }
  if (cmd == "campaign" || cmd == "det") {
    for (auto &p : profs) for (auto &im : profile_images(p)) for (int k = 0; k < image_copies(im); k++) image_handle(im, k);
    bool det = cmd == "det";
    Agg *A = (Agg *)mmap(nullptr, sizeof(Agg) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    volatile int *stop = (int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = wall();
    std::vector<pid_t> pids;
    fflush(stdout);
    for (int w = 0; w < jobs; w++) {
      pid_t pid = fork();
      if (pid) { pids.push_back(pid); continue; }
      R = new_result(); Agg &a = A[w]; std::unordered_map<u64, int> seen, pseen;
      for (u64 i = w; !*stop && wall() - t0 < seconds && (!maxruns || i < maxruns); i += jobs) {
        RunSpec s; s.profile = profs[i % profs.size()]; s.seed = mix2(mix2(seed, 0xca41), i); s.set = set;
        run_child(s);
        u64 h = R->hash;
        if (det) { run_child(s); if (R->hash != h) { printf("DIVERGED profile %s seed %lu\n", s.profile.c_str(), s.seed); fflush(stdout); a.fails++; } a.runs++; continue; }
        a.runs++;
        if (R->fail && (!strcmp(R->cls, "sim-error"))) { a.internal++; if (a.n_fail < 8) { auto &f = a.f[a.n_fail++]; f.seed = s.seed; snprintf(f.profile, 32, "%s", s.profile.c_str()); memcpy(f.cls, R->cls, 48); memcpy(f.msg, R->msg, 1400); f.hash = R->hash; f.idx = i; } continue; }
        a.reactions += R->reactions; a.tags += R->tags; a.steps += R->steps; a.switches += R->switches; a.accesses += R->accesses; a.sim_ns += R->sim_ns; if (R->steps > a.max_steps) a.max_steps = R->steps;
        for (int k = 0; k < K_COUNT; k++) { a.fired[k] += R->fired[k]; a.asked[k] += R->asked[k]; }
        for (int k = 0; k < 64; k++) { a.probes[k] += R->probes[k]; a.probe_runs[k] += R->probes[k] > 0; }
        if (R->reactions > 1) a.nonvac++;
        if (a.nhash < (1 << 18) && !seen[R->beh_hash]++) { a.hashes[a.nhash] = R->beh_hash; a.phashes[a.nhash] = R->hash; a.nhash++; }
        for (int k = 0; k < R->known; k++) { int j; for (j = 0; j < a.n_known; j++) if (!strcmp(a.known[j], R->known_id[k])) break; if (j == a.n_known && j < 16) { snprintf(a.known[j], 64, "%s", R->known_id[k]); a.n_known++; } if (j < 16) a.known_n[j]++; }
        if (R->fail) {
          a.fails++;
          std::string cls = R->cls;
          run_child(s); // the same seed again
          if (R->hash != h || cls != R->cls) { snprintf(R->cls, 48, "diverged"); a.internal++; }
          if (a.n_fail < 8) { auto &f = a.f[a.n_fail++]; f.seed = s.seed; snprintf(f.profile, 32, "%s", s.profile.c_str()); memcpy(f.cls, R->cls, 48); memcpy(f.msg, R->msg, 1400); f.hash = h; f.idx = i; }
          if (!keep_going) { *stop = 1; }
        }
      }
      _exit(0);
    }
    for (auto p : pids) { int st; waitpid(p, &st, 0); if (st) printf("worker ended with %x\n", st); }
    double t1 = wall();
    static Agg T; std::unordered_map<u64, int> all;
    std::vector<int> order; 
    for (int w = 0; w < jobs; w++) {
      Agg &a = A[w]; T.runs += a.runs; T.fails += a.fails; T.internal += a.internal; T.reactions += a.reactions; T.tags += a.tags; T.steps += a.steps; T.switches += a.switches; T.accesses += a.accesses; T.sim_ns += a.sim_ns; T.nonvac += a.nonvac; T.max_steps = std::max(T.max_steps, a.max_steps);
      for (int k = 0; k < K_COUNT; k++) { T.fired[k] += a.fired[k]; T.asked[k] += a.asked[k]; }
      for (int k = 0; k < 64; k++) { T.probes[k] += a.probes[k]; T.probe_runs[k] += a.probe_runs[k]; }
      for (u64 i = 0; i < a.nhash; i++) all[a.hashes[i]] = 1;
      for (int j = 0; j < a.n_known; j++) { int k; for (k = 0; k < T.n_known; k++) if (!strcmp(T.known[k], a.known[j])) break; if (k == T.n_known && k < 16) { memcpy(T.known[k], a.known[j], 64); T.n_known++; } if (k < 16) T.known_n[k] += a.known_n[j]; }
    }
    if (det) { printf("determinism: %lu seeds run twice, %lu diverged\n", T.runs, T.fails); return T.fails ? 1 : 0; }
    FILE *rf = report.empty() ? stdout : fopen(report.c_str(), "w");
    fprintf(rf, "{\"runs\":%lu,\"fails\":%lu,\"internal\":%lu,\"reactions\":%lu,\"tags\":%lu,\"steps\":%lu,\"switches\":%lu,\"accesses\":%lu,\"sim_s\":%.6f,\"wall_s\":%.2f,\"nonvacuous\":%lu,\"distinct\":%zu,\"max_steps\":%lu,\"fired\":{", T.runs, T.fails, T.internal, T.reactions, T.tags, T.steps, T.switches, T.accesses, T.sim_ns / 1e9, t1 - t0, T.nonvac, all.size(), T.max_steps);
    bool first = true; for (int k = 0; k < K_COUNT; k++) if (T.asked[k] || T.fired[k]) { fprintf(rf, "%s\"%s\":%lu", first ? "" : ",", kind_name[k], T.fired[k]); first = false; }
    fprintf(rf, "},\"probes\":{"); first = true; for (int k = 0; probe_name[k]; k++) if (T.probes[k]) { fprintf(rf, "%s\"%s\":%lu", first ? "" : ",", probe_name[k], T.probes[k]); first = false; }
    fprintf(rf, "},\"probe_runs\":{"); first = true; for (int k = 0; probe_name[k]; k++) if (T.probes[k]) { fprintf(rf, "%s\"%s\":%lu", first ? "" : ",", probe_name[k], T.probe_runs[k]); first = false; }
    fprintf(rf, "},\"known\":{"); first = true; for (int k = 0; k < T.n_known; k++) { fprintf(rf, "%s\"%s\":%lu", first ? "" : ",", T.known[k], T.known_n[k]); first = false; }
    fprintf(rf, "},\"failures\":["); first = true;
    std::vector<std::pair<u64, std::pair<int, int>>> fo; for (int w = 0; w < jobs; w++) for (int j = 0; j < A[w].n_fail; j++) fo.push_back({A[w].f[j].idx, {w, j}});
    std::sort(fo.begin(), fo.end());
    for (auto &x : fo) {
      auto &f = A[x.second.first].f[x.second.second]; std::string m; for (const char *c = f.msg; *c; c++) { if (*c == '"' || *c == '\\') m += '\\'; if ((unsigned char)*c >= 32 && (unsigned char)*c < 127) m += *c; else m += ' '; }
      std::string path = out + "/" + f.profile + "-" + std::to_string(f.seed) + ".replay";
      RunSpec s; s.profile = f.profile; s.seed = f.seed; s.set = set; write_replay(path, s, f.cls, f.msg, f.hash);
      fprintf(rf, "%s{\"seed\":%lu,\"profile\":\"%s\",\"class\":\"%s\",\"message\":\"%s\",\"hash\":\"%016lx\",\"replay\":\"%s\"}", first ? "" : ",", f.seed, f.profile, f.cls, m.c_str(), f.hash, path.c_str()); first = false;
    }
    fprintf(rf, "]}\n"); if (rf != stdout) fclose(rf);
    return fo.empty() ? 0 : 1;
  }
  usage();
}
