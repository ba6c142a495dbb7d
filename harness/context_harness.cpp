// Parses inputs with the C++ context (Context.hpp) on small or real pages, with callbacks on some of the
// rules, and records every call.  One line of JSON per case.
#define GEN_MAIN gen_main
#include "gen_harness.cpp"
#undef main
#include <mutex>
#include "StageRunners.hpp"
static size_t g_page = 0; static std::vector<std::pair<const char *, size_t>> g_windows;
namespace Centaurus {
static void seen(BaseRunner *r) { g_windows.push_back({(const char *)r->get_input(), r->get_input_size()}); }
// the runners, on pages of the size asked for (0: the size the context asks for)
struct Small1 : Stage1Runner { template <class... A> Small1(const char *f, IParser *p, size_t s, int n, A... a) : Stage1Runner(f, p, g_page ? g_page : s, n, a...) { seen(this); } };
struct Small2 : Stage2Runner { template <class... A> Small2(const char *f, size_t s, int n, A... a) : Stage2Runner(f, g_page ? g_page : s, n, a...) { seen(this); } };
struct Small3 : Stage3Runner { template <class... A> Small3(const char *f, size_t s, int n, A... a) : Stage3Runner(f, g_page ? g_page : s, n, a...) { seen(this); } };
}
#define Stage1Runner Small1
#define Stage2Runner Small2
#define Stage3Runner Small3
#include "Context.hpp"
#undef Stage1Runner
#undef Stage2Runner
#undef Stage3Runner

enum { MAXR = 31 };
struct Call { int rule; long s, e, len; std::string text; std::vector<long> v; long r; };
static std::vector<Call> g_calls; static std::mutex g_mx; static int g_seed; static bool g_big;
static std::vector<std::atomic<int>> *g_times; static std::vector<std::array<long, 2>> g_values; static std::atomic<long> g_stray{0};
static long offset(const char *p) { for (auto &w : g_windows) if (p >= w.first && p <= w.first + w.second) return p - w.first; return -1; }
static long answer(int rule, long s, long e) { return (rule + s + e + g_seed) % 5 == 0 ? 0 : 1 + (rule * 4096 + s) * 4096 + e; }
// values that fill the upper or the lower half of a word
static long spread(long v) { return v % 3 ? v : v << 32; }
static long gather(long v) { return v && !(v & 0xFFFFFFFFL) ? v >> 32 : v; }
template <class T> static void *called(int rule, const SymbolContext<T> &c) {
  aligned_use();
  if (g_big) {
    long s = offset((const char *)c.start());
    if (rule == 2) { if (s >= 0 && s < (long)g_times->size() && c.count() == 0 && c.len() == 1) (*g_times)[s]++; else g_stray++; return (void *)(s + 1); }
    std::lock_guard<std::mutex> g(g_mx);
    for (int i = 1; i <= c.count(); i++) { long v = (long)c.template value<char>(i); if (!g_values.empty() && g_values.back()[0] + g_values.back()[1] == v) g_values.back()[1]++; else if (g_values.size() < 50) g_values.push_back({v, 1}); }
    Call k; k.rule = rule; k.s = s; k.e = offset((const char *)c.end()); k.len = c.len(); k.r = c.count(); g_calls.push_back(k); return (void *)1;
  }
  Call k; k.rule = rule; k.s = offset((const char *)c.start()); k.e = offset((const char *)c.end()); k.len = c.len();
  auto t = c.read(); for (auto ch : t) k.text.push_back((char)ch);
  for (int i = 1; i <= c.count(); i++) k.v.push_back(gather((long)c.template value<char>(i)));
  k.r = answer(rule, k.s, k.e);
  std::lock_guard<std::mutex> g(g_mx); g_calls.push_back(k); return (void *)spread(k.r);
}
template <class T, int N> static void *fn(const SymbolContext<T> &c) { return called<T>(N, c); }
template <class T, int N> struct Fill { static void at(CppReductionCallback<T> *a) { a[N] = fn<T, N>; Fill<T, N - 1>::at(a); } };
template <class T> struct Fill<T, 0> { static void at(CppReductionCallback<T> *a) { a[0] = nullptr; } };

static void write(const std::string &f, const std::string &s) { std::ofstream(f, std::ios::binary) << s; }
template <class T> static void contexts(std::ostringstream &o, const std::string &base, size_t page, unsigned mask, const std::vector<std::string> &in, const std::vector<int> &workers, long times) {
  CppReductionCallback<T> fns[MAXR + 1]; Fill<T, MAXR>::at(fns);
  if (page) { asmjit::CodeHolder::page_from() = 8 << 20; asmjit::CodeHolder::page_to() = (int64_t)page; }
  g_page = page; Grammar<T> g; g.parse((base + "/g.cgr").c_str()); ParserEM64T<T> parser; if (!times) parser.init(g);
  Context<T> ctx((base + "/g.cgr").c_str()); asmjit::CodeHolder::page_from() = 0;
  std::ostringstream at; bool first = true;
  for (auto &e : g_enum) if (e.second <= MAXR && (mask >> e.second & 1)) { ctx.attach(Identifier(e.first), fns[e.second]); at << (first ? "" : ",") << e.second; first = false; }
  bool missing = false; g_calls.clear(); alarm(30);
  try { ctx.parse((base + "/none").c_str(), 1 + (int)(in.size() % 3)); } catch (std::exception &) { missing = g_calls.empty(); }
  o << "\"missing\":" << (missing ? "true" : "false") << ",";
  o << "\"attached\":[" << at.str() << "],\"runs\":[";
  for (size_t i = 0; i < in.size(); i++) {
    std::string text = in[i]; if (times) { text.clear(); for (long k = 0; k < times; k++) text += in[i]; text += "."; }
    write(base + "/in", text); g_calls.clear(); g_windows.clear(); g_values.clear(); g_big = times != 0; g_stray = 0; std::vector<std::atomic<int>> cnt(times ? text.size() : 0); for (auto &c : cnt) c = 0; g_times = &cnt;
    alarm(30); ctx.parse((base + "/in").c_str(), workers[i]); alarm(30);
    o << (i ? "," : "") << "{\"workers\":" << workers[i] << ",\"seed\":" << g_seed << ",";
    if (times) {
      o << "\"size\":" << text.size() << ",\"stray\":" << g_stray << ",\"times\":["; long k = 0; bool f = true;
      while (k < (long)cnt.size()) { long b = k; while (k < (long)cnt.size() && cnt[k] == cnt[b]) k++; if (b == 0 || k - b > 0) { o << (f ? "" : ",") << "[" << b << "," << k - b << "," << cnt[b] << "]"; f = false; } if (o.str().size() > 20000) break; }
      o << "],\"values\":["; for (size_t q = 0; q < g_values.size(); q++) o << (q ? "," : "") << "[" << g_values[q][0] << "," << g_values[q][1] << "]";
      o << "],\"calls\":["; for (size_t q = 0; q < g_calls.size(); q++) { auto &c = g_calls[q]; o << (q ? "," : "") << "[" << c.rule << "," << c.s << "," << c.e << "," << c.len << "," << c.r << "]"; } o << "]}"; continue;
    }
    Text t(text, 64); Pages p(page ? page : 8 << 20); p.base = t.at; const char *end = (const char *)parser(&p, t.at); bool zero; size_t n = stream(p, zero);
    o << "\"in\":" << str(text) << ",\"end\":" << (end ? end - t.at : -1) << ",\"marks\":[";
    for (size_t k = 0; k < n; k++) { Mark m = mark(p.word(k)); o << (k ? "," : "") << "[" << m.start << "," << m.id << "," << m.pos << "]"; }
    o << "],\"calls\":[";
    for (size_t k = 0; k < g_calls.size(); k++) { auto &c = g_calls[k]; o << (k ? "," : "") << "{\"rule\":" << c.rule << ",\"s\":" << c.s << ",\"e\":" << c.e << ",\"len\":" << c.len << ",\"text\":" << str(c.text) << ",\"r\":" << c.r << ",\"v\":["; for (size_t q = 0; q < c.v.size(); q++) o << (q ? "," : "") << c.v[q]; o << "]}"; }
    o << "]}";
  }
  o << "]"; unlink((base + "/in").c_str());
}
static void removal() { char b[300]; snprintf(b, sizeof b, "/%s%s[%d]Window", PROGRAM_UUID, PROGRAM_NAME, (int)getpid()); shm_unlink(b); snprintf(b, sizeof b, "/%s%s[%d]SlaveLock", PROGRAM_UUID, PROGRAM_NAME, (int)getpid()); sem_unlink(b); }
static void fatal(int s) { removal(); signal(s, SIG_DFL); raise(s); }
int main() {
  for (int s : {SIGALRM, SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE}) signal(s, fatal);
  char tmpl[] = "/tmp/centaurus_ctx_XXXXXX"; std::string base = mkdtemp(tmpl); std::string cmd;
  std::wcerr.setstate(std::ios::failbit); std::wcout.setstate(std::ios::failbit); removal();
  while (std::cin >> cmd) {
    alarm(20); std::string text = rd(); write(base + "/g.cgr", text);
    long page, made, seed, most, times; unsigned mask; std::cin >> page >> mask >> g_seed >> made >> seed >> most >> times; int n; std::cin >> n;
    std::vector<std::string> in; std::vector<int> w; for (int i = 0; i < n; i++) { int k; std::cin >> k; w.push_back(k); in.push_back(rd()); }
    std::ostringstream o;
    try {
      { Grammar<C> g; g.parse((base + "/g.cgr").c_str()); if (!g.verify()) throw std::runtime_error("not accepted"); g_enum.clear(); g.enum_machines(enumerate);
        for (long k = 0; k < made; k++) { Maker mk(g, (unsigned)(seed * 1000 + k), most); in.push_back(mk.make()); if (in.back().size() > 3000) in.back().resize(3000); w.push_back(1 + (seed + k) % 4); } }
      o << "{\"k\":\"ctx\",\"ok\":true,\"big\":" << (times ? "true" : "false") << ",\"page\":" << page << ",\"rules\":["; for (size_t k = 0; k < g_enum.size(); k++) o << (k ? "," : "") << g_enum[k].second; o << "],";
      if (cmd.find('c') != std::string::npos) contexts<char>(o, base, page, mask, in, w, times); else contexts<unsigned char>(o, base, page, mask, in, w, times);
      o << "}";
    } catch (std::exception &e) { o.str(""); o << "{\"k\":\"ctx\",\"ok\":false,\"big\":false,\"page\":0,\"rules\":[],\"attached\":[],\"runs\":[]}"; }
    alarm(0); puts(o.str().c_str()); fflush(stdout);
  }
  removal(); unlink((base + "/g.cgr").c_str()); rmdir(base.c_str());
}
