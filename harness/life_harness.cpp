// Carries out histories of runs with the real runners on real shared memory, semaphores and threads,
// and records after every call what exists.  One line of JSON per history; histories follow each other
// in one process.  -DHARNESS_LEGACY: the recursive runners.
#include <cstring>
#include <vector>
#include <atomic>
#include <csignal>
#include <cstdlib>
#include <dirent.h>
#include <iostream>
#include <memory>
#include <mutex>
#include <new>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include "Exception.hpp"
#include "Stage1Runner.hpp"
#if HARNESS_LEGACY
#define LEGACY 1
#include "Stage2Runner.hpp"
#include "Stage3Runner.hpp"
#else
#define LEGACY 0
#include "Stage2RunnerNonRecursive.hpp"
#include "Stage3RunnerNonRecursive.hpp"
#endif

// memory handed out and not given back; the harness's own is not counted
static std::atomic<long> g_bytes{0}; static thread_local int g_mine = 0;
struct Head { size_t n; size_t counted; };
static void *take(size_t n) { Head *h = (Head *)malloc(n + sizeof(Head)); if (!h) throw std::bad_alloc(); h->n = n; h->counted = g_mine == 0; if (h->counted) g_bytes += n; return h + 1; }
static void give(void *p) { if (!p) return; Head *h = (Head *)p - 1; if (h->counted) g_bytes -= h->n; free(h); }
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }
struct Mine { Mine() { g_mine++; } ~Mine() { g_mine--; } };

using namespace Centaurus;
struct Mark { char k; int id; long off; };
struct Red { int id; long s, x; std::vector<uint64_t> v; long r; };
struct RunSpec { int W = 1, B = 2; size_t bytes = 64; int dry = 0, capture = 0; long size = 0; int seed = 0; std::vector<std::vector<Mark>> pages; };

static unsigned char pattern(long i, int seed) { return 1 + (unsigned)(i * 2654435761u + seed * 40503u) % 255; }
struct StubParser : IParser {
  const RunSpec *r = nullptr; std::string wrong;
  const void *operator()(BaseListener *context, const void *input) override {
    Mine m; const unsigned char *p = (const unsigned char *)input;
    for (long i = 0; i < r->size; i++) if (p[i] != pattern(i, r->seed)) { wrong = "input"; break; }
    for (int i = 0; i < 64; i++) if (p[r->size + i] != 0) { wrong = "tail"; break; }
    for (auto &page : r->pages) {
      uint64_t *q; { int k = g_mine; g_mine = 0; q = (uint64_t *)context->feed_callback(); g_mine = k; }
      size_t n = 0;
      for (auto &m : page) q[n++] = ((uint64_t)(m.k == 'S') << 63) | ((uint64_t)m.id << 48) | (uint64_t)m.off;
      while (n < r->bytes / 8) q[n++] = 0;
    }
    return p + r->size;
  }
};
struct Live { std::unique_ptr<StubParser> parser; std::vector<std::unique_ptr<BaseRunner>> run; std::vector<Red> log; std::mutex mx; std::atomic<int> counter{0}; std::atomic<long> next{1}; RunSpec spec; std::string file; const void *result = nullptr; const void *input = nullptr; std::string wrong; };

static long CENTAURUS_CALLBACK reduced(const SymbolEntry *s, uint64_t *v, int n, void *ctx) {
  Mine m; Live *l = (Live *)ctx; std::lock_guard<std::mutex> g(l->mx);
  Red d; d.id = s->id; d.s = s->start; d.x = s->end; d.v.assign(v, v + n); d.r = s->id % 3 == 0 ? 0 : l->next++;
  l->log.push_back(d); return d.r;
}

// ------------------------------------------------------------- what exists
static char g_tag[64], g_dir[4096];
struct Snap { int shm = 0, sem = 0, win = 0, smap = 0, inp = 0, ro = 0, fds = 0, thr = 0; long mem = 0; };
static Snap snapshot(int threads) {
  Mine m; Snap s;
  char me[32]; snprintf(me, sizeof me, "[%d]", (int)getpid());
  if (DIR *d = opendir("/dev/shm")) { while (dirent *e = readdir(d)) if (strstr(e->d_name, me)) (strncmp(e->d_name, "sem.", 4) ? s.shm : s.sem)++; closedir(d); }
  if (FILE *f = fopen("/proc/self/maps", "r")) {
    char line[8192];
    while (fgets(line, sizeof line, f)) {
      unsigned long a, b, off, ino; char perm[8] = "", dev[16] = "", path[8192] = ""; sscanf(line, "%lx-%lx %7s %lx %15s %lu %8191[^\n]", &a, &b, perm, &off, dev, &ino, path);
      if (strstr(path, "/dev/shm/")) (strstr(path, "/dev/shm/sem.") ? s.smap : s.win)++;
      else if (strstr(path, g_dir)) s.inp++;
      else if (!path[0] && !strcmp(perm, "r--p")) s.ro++;
    }
    fclose(f);
  }
  if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) s.fds++; closedir(d); }
  for (int k = 0; k < 2000; k++) {          // a thread that was joined may be on its way out
    s.thr = 0; if (DIR *d = opendir("/proc/self/task")) { while (readdir(d)) s.thr++; closedir(d); }
    if (threads < 0 || s.thr <= threads) break; usleep(500);
  }
  s.mem = g_bytes; return s;
}
static void removal() { char b[300]; snprintf(b, sizeof b, "/%s%s[%d]Window", PROGRAM_UUID, PROGRAM_NAME, (int)getpid()); shm_unlink(b); snprintf(b, sizeof b, "/%s%s[%d]SlaveLock", PROGRAM_UUID, PROGRAM_NAME, (int)getpid()); sem_unlink(b); }
static void fatal(int s) { removal(); signal(s, SIG_DFL); raise(s); }

struct Op { char o; int g, k, pause; };
static void put(std::ostream &o, const Op &op, const Snap &s) {
  Mine m; o << "{\"o\":\"" << op.o << "\",\"g\":" << op.g << ",\"k\":" << op.k << ",\"shm\":" << s.shm << ",\"sem\":" << s.sem << ",\"win\":" << s.win << ",\"smap\":" << s.smap << ",\"inp\":" << s.inp
    << ",\"ro\":" << s.ro << ",\"fds\":" << s.fds << ",\"thr\":" << s.thr << ",\"mem\":" << s.mem << "}";
}
static void history(const std::vector<Op> &ops, std::vector<RunSpec> &specs, std::ostream &out) {
  std::vector<std::unique_ptr<Live>> L;
  { Mine m; for (auto &s : specs) { L.emplace_back(new Live); L.back()->spec = s; L.back()->file = std::string(g_dir) + "/in" + std::to_string(L.size());
      FILE *f = fopen(L.back()->file.c_str(), "w"); for (long i = 0; i < s.size; i++) fputc(pattern(i, s.seed), f); fclose(f);
      L.back()->parser.reset(new StubParser); L.back()->parser->r = &L.back()->spec; L.back()->run.resize(s.W + 2); L.back()->log.reserve(256); } }
  int pid = getpid(); Snap first = snapshot(-1); { Mine m; out << "{\"k\":\"life\",\"ops\":["; } put(out, Op{'b', 0, 0, 0}, first);
  for (auto &op : ops) {
    Live &l = *L[op.g - 1]; RunSpec &s = l.spec; auto &slot = l.run[op.k];
    if (op.pause) usleep(op.pause * 100);
    alarm(20);
    if (op.o == 'c') {
      if (op.k == 0) slot.reset(new Stage1Runner(l.file.c_str(), l.parser.get(), s.bytes, s.B, s.dry, s.capture));
      else if (op.k <= s.W) { auto p = new Stage2Runner(l.file.c_str(), s.bytes, s.B, pid, &l, &l.counter); slot.reset(p); p->register_listener(reduced); }
      else { auto p = new Stage3Runner(l.file.c_str(), s.bytes, s.B, pid, &l, &l.counter); slot.reset(p); p->register_listener(reduced); }
      Mine m; const unsigned char *q = (const unsigned char *)slot->get_input();
      if ((long)slot->get_input_size() != s.size) l.wrong = "size"; for (long i = 0; i < s.size && l.wrong.empty(); i++) if (q[i] != pattern(i, s.seed)) l.wrong = "window";
      if (op.k == 0) l.input = q;
    } else if (op.o == 's') slot->start();
    else if (op.o == 'w') { slot->wait(); Mine m; if (op.k == 0) { auto p = static_cast<Stage1Runner *>(slot.get()); l.result = p->get_result(); if (s.capture) { size_t n = 0; for (auto &c : p->result_chunks()) { if (n < s.pages.size() && c.size() == s.bytes / 8) for (size_t i = 0; i < s.pages[n].size(); i++) { auto &mk = s.pages[n][i]; CSTMarker w = c[i]; if (w.get_machine_id() != mk.id || (long)w.get_offset() != mk.off || w.is_start_marker() != (mk.k == 'S')) l.wrong = "captured"; } n++; } if (n != s.pages.size()) l.wrong = "captured"; } } }
    else slot.reset();
    alarm(0);
    bool quiet = true; for (auto &x : L) for (auto &r : x->run) if (r) quiet = false;
    { Mine m; out << ","; } put(out, op, snapshot(quiet ? first.thr : -1));
  }
  Mine m; out << "],\"runs\":[";
  for (size_t g = 0; g < L.size(); g++) {
    Live &l = *L[g]; RunSpec &s = l.spec; out << (g ? "," : "") << "{\"dry\":" << (s.dry ? "true" : "false") << ",\"zeros\":" << (LEGACY ? "true" : "false") << ",\"wrong\":\"" << l.wrong << l.parser->wrong << "\",\"end\":" << (l.result ? (const char *)l.result - (const char *)l.input : -1) << ",\"size\":" << s.size << ",\"counter\":" << l.counter << ",\"marks\":[";
    bool first_ = true; for (auto &p : s.pages) for (auto &k : p) { out << (first_ ? "" : ",") << "[\"" << k.k << "\"," << k.id << "," << k.off << "]"; first_ = false; }
    out << "],\"log\":["; first_ = true;
    for (auto &d : l.log) { out << (first_ ? "" : ",") << "{\"id\":" << d.id << ",\"s\":" << d.s << ",\"x\":" << d.x << ",\"r\":" << d.r << ",\"v\":["; for (size_t i = 0; i < d.v.size(); i++) out << (i ? "," : "") << (long)d.v[i]; out << "]}"; first_ = false; }
    out << "]}"; unlink(l.file.c_str());
  }
  out << "]}"; L.clear();
}
int main() {
  Mine m; signal(SIGALRM, fatal); signal(SIGSEGV, fatal); signal(SIGBUS, fatal); signal(SIGABRT, fatal);
  snprintf(g_dir, sizeof g_dir, "%s/life_XXXXXX", getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp"); if (!mkdtemp(g_dir)) return 3;
  removal(); std::string line; bool warm = false;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line); int n, R; in >> n; std::vector<Op> ops(n); for (auto &o : ops) in >> o.o >> o.g >> o.k >> o.pause;
    in >> R; std::vector<RunSpec> specs(R);
    for (auto &s : specs) { size_t np; in >> s.W >> s.B >> s.bytes >> s.dry >> s.capture >> s.size >> s.seed >> np; s.pages.resize(np); for (auto &p : s.pages) { size_t k; in >> k; p.resize(k); for (auto &mk : p) in >> mk.k >> mk.id >> mk.off; } }
    std::ostringstream out;
    { int k = g_mine; g_mine = 0;
      if (!warm) { warm = true; std::ostringstream skip; history({{'c', 1, 0, 0}, {'c', 1, 1, 0}, {'c', 1, 2, 0}, {'s', 1, 0, 0}, {'s', 1, 1, 0}, {'s', 1, 2, 0}, {'w', 1, 0, 0}, {'w', 1, 1, 0}, {'w', 1, 2, 0}, {'d', 1, 0, 0}, {'d', 1, 1, 0}, {'d', 1, 2, 0}}, *new std::vector<RunSpec>{[] { RunSpec r; r.size = 5; r.pages = {{{'S', 1, 0}, {'E', 1, 5}}}; return r; }()}, skip); }
      history(ops, specs, out); g_mine = k; }
    std::cout << out.str() << std::endl;
  }
  removal(); rmdir(g_dir);
}
