// Builds the parser, the dry parser and the chaser of grammars with the real code generator (on the
// stand-in for asmjit) and runs them on inputs.  One line of JSON per case: the networks and the
// lookahead automata the code was made from, and what each run did.
#define main grammar_main
#include "grammar_harness.cpp"
#undef main
#include "CodeGenEM64T.hpp"
#include <sys/mman.h>
#include <emmintrin.h>
#include <array>
#include <memory>
#include <random>
#include <stdexcept>

// Input text the way the runners hold it: followed by nothing but zeros up to the end of the mapping.
struct Text {
  char *map; size_t len; const char *at; size_t room;
  Text(const std::string &s, size_t gap) {
    room = gap; len = (s.size() + room + 4095) / 4096 * 4096;
    map = (char *)mmap(nullptr, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(map + len, 4096, PROT_NONE);
    char *p = map + len - room - s.size(); memset(map, 'Z', p - map); memcpy(p, s.data(), s.size()); at = p;
    mprotect(map, len, PROT_READ);
  }
  ~Text() { munmap(map, len + 4096); }
};
// uses the stack the way compiled code may: 16-byte stores at aligned addresses
// and leaves nothing in the registers that a function may leave anything in
static int __attribute__((noinline)) aligned_use() {
  asm volatile("mov $-1, %%rax\n mov %%rax, %%rcx\n mov %%rax, %%rdx\n mov %%rax, %%rsi\n mov %%rax, %%rdi\n mov %%rax, %%r8\n mov %%rax, %%r9\n mov %%rax, %%r10\n mov %%rax, %%r11\n pcmpeqd %%xmm1, %%xmm1\n pcmpeqd %%xmm2, %%xmm2" ::: "rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "xmm1", "xmm2", "memory");
  __m128i v = _mm_set1_epi32(7); volatile __m128i w = v; return ((volatile int *)&w)[1]; }
struct Mark { int start, id; long pos; };
struct Pages : BaseListener {
  size_t size; std::vector<uint64_t *> pages; const char *base = nullptr; size_t most;
  std::vector<std::array<long, 4>> events; std::vector<std::pair<int, long>> kids; size_t next = 0; bool lost = false;
  Pages(size_t s, size_t most = 100000) : size(s), most(most) {}
  ~Pages() { for (auto p : pages) munmap(p, (size + 4095) / 4096 * 4096 + 4096); }
  void *feed_callback() override {
    aligned_use();
    size_t n = (size + 4095) / 4096 * 4096;
    if (pages.size() >= most) { fprintf(stderr, "too many pages\n"); abort(); }
    char *p = (char *)mmap(nullptr, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p + n, 4096, PROT_NONE); pages.push_back((uint64_t *)p);
    p += n - size; memset(p, 0xA5, size); ends.push_back((uint64_t *)p);           // ends at the end of its mapping
    return p;
  }
  std::vector<uint64_t *> ends;
  uint64_t word(size_t i) const { return ends[i / (size / 8)][i % (size / 8)]; }
  size_t words() const { return ends.size() * (size / 8); }
  void terminal_callback(int id, const void *a, const void *b) override { aligned_use(); if (events.size() > 100000) abort(); events.push_back({0, id, (const char *)a - base, (const char *)b - base}); }
  const void *nonterminal_callback(int id, const void *in) override {
    aligned_use(); if (events.size() > 100000) abort();
    long end = next < kids.size() ? kids[next].second : -1; if (next < kids.size() && kids[next].first != id) lost = true;
    next++; if (end < 0) { lost = true; end = (const char *)in - base; }
    events.push_back({1, id, (const char *)in - base, end});
    return base + end;
  }
};
// inputs made up along the networks, some of them damaged afterwards; where they come from decides nothing
struct Maker {
  Grammar<char> &g; std::mt19937 rng; std::string out; size_t most; int steps = 0;
  Maker(Grammar<char> &g, unsigned seed, size_t most) : g(g), rng(seed), most(most) {}
  int pick(int n) { return (int)(rng() % (unsigned)n); }
  char one(const CharClass<char> &cc) {
    std::vector<int> nice, all;
    for (const auto &r : cc) { int a = (unsigned char)r.start(), b = (unsigned char)r.end(); for (int x : {a, b - 1, a + pick(b - a)}) if (x > 0) { all.push_back(x); if (x >= 32 && x < 127) nice.push_back(x); } }
    if (!nice.empty() && pick(8)) return (char)nice[pick((int)nice.size())];
    return all.empty() ? 'a' : (char)all[pick((int)all.size())];
  }
  void regex(const NFA<char> &n) {
    int s = 0, last = n.get_state_num() - 1; int stay = pick(4) ? 4 + pick(20) : 60 + pick(60);
    for (int k = 0; s != last || (pick(3) && n.get_state(s).get_transitions().size()); k++) {
      const auto &tr = n.get_state(s).get_transitions(); if (tr.empty()) break;
      int j = pick((int)tr.size()); if (k > stay) for (int q = 0; q < (int)tr.size(); q++) if (tr[q].dest() > tr[j].dest()) j = q;
      if (!tr[j].is_epsilon()) out.push_back(one(tr[j].label()));
      s = tr[j].dest(); if (out.size() > most || k > 400) throw std::runtime_error("long");
    }
  }
  void rule(const Identifier &id, int depth) {
    const ATNMachine<char> &m = g[id]; int at = 0;
    for (int k = 0;; k++) {
      const ATNNode<char> &n = m.get_node(at);
      if (out.size() > most || ++steps > 20000 || depth > 60) throw std::runtime_error("long");
      switch (n.type()) {
        case ATNNodeType::LiteralTerminal: for (char c : n.get_literal()) out.push_back(c); break;
        case ATNNodeType::RegularTerminal: regex(n.get_nfa()); break;
        case ATNNodeType::Nonterminal: rule(n.get_invoke(), depth + 1); break;
        case ATNNodeType::WhiteSpace: for (int q = pick(3) ? 0 : pick(9) ? 1 + pick(2) : 17 + pick(20); q > 0; q--) out.push_back(" \t\r\n"[pick(4)]); break;
        default: break;
      }
      const auto &tr = n.get_transitions(); if (tr.empty()) return;
      int j = pick((int)tr.size()); if (k > 30 + (int)most / 4 || depth > 8) { j = 0; if (pick(4)) for (int q = 0; q < (int)tr.size(); q++) if (tr[q].dest() > tr[j].dest()) j = q; if (!pick(4)) j = pick((int)tr.size()); }
      at = tr[j].dest();
    }
  }
  std::string make() {
    for (int tries = 0; tries < 12; tries++) { out.clear(); steps = 0; try { rule(g.get_root_id(), 0); break; } catch (std::runtime_error &) {} }
    if (out.size() > most) out.resize(most);
    int d = pick(10); size_t n = out.size();
    if (d == 0 && n) out.erase(rng() % n, 1); else if (d == 1 && n) out[rng() % n] = n > 2 ? out[rng() % n] : 'b'; else if (d == 2) out.insert(out.begin() + (n ? rng() % (n + 1) : 0), pick(2) || !n ? "ab1;(/ \xff\x80"[pick(9)] : out[rng() % n]);
    else if (d == 3 && n) out.resize(rng() % n); else if (d == 4) out += pick(2) ? out.substr(0, most) : " x";
    for (char &c : out) if (!c) c = 'a';
    return out;
  }
};
static size_t stream(const Pages &p, bool &zero) {
  size_t n = 0; while (n < p.words() && p.word(n)) n++;
  zero = n < p.words(); for (size_t i = n; i < p.words(); i++) if (p.word(i)) zero = false;
  return n;
}
static Mark mark(uint64_t w) { return Mark{(int)(w >> 63), (int)(w >> 48 & 0x7FFF), (long)(w & 0xFFFFFFFFFFFFull)}; }

template <class T> static void run_all(std::ostringstream &o, const std::string &file, bool optimise, size_t page, const std::vector<std::string> &inputs, const std::vector<size_t> &gaps, bool chase) {
  Grammar<T> g; g.parse(file.c_str()); if (optimise) g.optimize();
  asmjit::CodeHolder::page_from() = 8 << 20; asmjit::CodeHolder::page_to() = (int64_t)page;
  ParserEM64T<T> parser(g); asmjit::CodeHolder::page_from() = 0;
  DryParserEM64T<T> dry(g); std::unique_ptr<ChaserEM64T<T>> chaser; if (chase) chaser.reset(new ChaserEM64T<T>(g));
  o << ",\"runs\":[";
  for (size_t i = 0; i < inputs.size(); i++) {
    Text t(inputs[i], gaps[i]); Pages p(page); p.base = t.at; bool zero = false;
    const char *end = (const char *)parser(&p, t.at); Pages none(page);
    const char *dend = (const char *)dry(&none, t.at);
    size_t n = stream(p, zero);
    o << (i ? "," : "") << "{\"in\":" << str(inputs[i]) << ",\"end\":" << (end ? end - t.at : -1) << ",\"dry\":" << (dend ? dend - t.at : -1) << ",\"drypages\":" << none.ends.size() << ",\"zero\":" << (zero ? "true" : "false") << ",\"marks\":[";
    std::vector<Mark> ms; for (size_t k = 0; k < n; k++) { Mark m = mark(p.word(k)); ms.push_back(m); o << (k ? "," : "") << "[" << m.start << "," << m.id << "," << m.pos << "]"; }
    o << "],\"chase\":[";
    // every occurrence on its own, in the order of the start markers; the ends of its children are told to the chaser
    std::vector<size_t> open; std::vector<long> close(n, -1); std::vector<std::vector<size_t>> kids(n); bool nested = true;
    for (size_t k = 0; k < n; k++) { if (ms[k].start) { if (!open.empty()) kids[open.back()].push_back(k); open.push_back(k); } else if (!open.empty() && ms[open.back()].id == ms[k].id) { close[open.back()] = ms[k].pos; open.pop_back(); } else nested = false; }
    bool first = true;
    if (chase && nested && open.empty() && end) for (size_t k = 0; k < n; k++) if (ms[k].start) {
      Pages c(page); c.base = t.at; for (size_t q : kids[k]) c.kids.push_back({ms[q].id, close[q]});
      const char *to = (const char *)(*chaser)[ms[k].id](&c, t.at + ms[k].pos);
      o << (first ? "" : ",") << "{\"id\":" << ms[k].id << ",\"from\":" << ms[k].pos << ",\"to\":" << (to ? to - t.at : -1) << ",\"ev\":["; first = false;
      for (size_t e = 0; e < c.events.size(); e++) { auto &x = c.events[e]; o << (e ? "," : "") << "[" << x[0] << "," << x[1] << "," << x[2] << "," << x[3] << "]"; }
      o << "]}";
    }
    o << "]}";
  }
  o << "]";
}
// one run with pages of 8 MB and one with small ones
template <class T> static void big(std::ostringstream &o, const std::string &file, size_t page, const std::string &unit, long times, const std::string &head, const std::string &tail) {
  Grammar<T> g; g.parse(file.c_str());
  std::string in = head; for (long k = 0; k < times; k++) in += unit; in += tail;
  ParserEM64T<T> real(g);
  asmjit::CodeHolder::page_from() = 8 << 20; asmjit::CodeHolder::page_to() = (int64_t)page;
  ParserEM64T<T> small(g); asmjit::CodeHolder::page_from() = 0;
  Text t(in, 4096); Pages a(8 << 20), b(page, 10000000); bool za, zb;
  const char *ea = (const char *)real(&a, t.at), *eb = (const char *)small(&b, t.at);
  size_t na = stream(a, za), nb = stream(b, zb); bool same = na == nb; for (size_t i = 0; same && i < na; i++) same = a.word(i) == b.word(i);
  o << ",\"big\":{\"size\":" << in.size() << ",\"end\":" << (ea ? ea - t.at : -1) << ",\"end2\":" << (eb ? eb - t.at : -1) << ",\"same\":" << (same ? "true" : "false") << ",\"zero\":" << (za && zb ? "true" : "false") << ",\"words\":" << na << ",\"pages\":" << a.ends.size() << "}";
}
#ifdef GEN_MAIN
#define main GEN_MAIN
#endif
int main(int argc, char **argv) {
  char tmpl[] = "/tmp/centaurus_gen_XXXXXX"; g_dir = mkdtemp(tmpl);
  std::string cmd; std::wcerr.setstate(std::ios::failbit); std::wcout.setstate(std::ios::failbit);
  std::string base = g_dir;
  while (std::cin >> cmd) {
    alarm(5);
    std::string text = rd(); std::string file = base + "/g.cgr"; std::ofstream(file, std::ios::binary) << text;
    long page; std::cin >> page; long made, seed, most; std::cin >> made >> seed >> most; int n; std::cin >> n; std::vector<std::string> in; std::vector<size_t> gap;
    for (int i = 0; i < n; i++) { long q; std::cin >> q; gap.push_back(q); in.push_back(rd()); }
    long times = 0; if (cmd.find('B') != std::string::npos) std::cin >> times;
    bool opt = cmd.find('o') != std::string::npos;
    std::ostringstream o;
    try {
      { Grammar<char> g; g.parse(file.c_str()); if (opt) g.optimize(); 
        if (!g.verify()) throw std::runtime_error("not accepted");
        o << "{\"k\":\"gen\",\"ok\":true,\"opt_on\":" << (opt ? "true" : "false") << ",\"page\":" << page << ","; names(o, g);
        for (long k = 0; k < made; k++) { Maker mk(g, (unsigned)(seed * 1000 + k), k % 5 == 4 ? most * 3 : most); in.push_back(mk.make()); gap.push_back(32 + (k * 7) % 41 + (k % 11 == 10 ? 4096 : 0)); }
        if (!times) { machines(o, "opt", g); lookahead(o, g); } }
      if (times) { if (cmd.find('c') != std::string::npos) big<char>(o, file, page, in[0], times, in[1], in[2]); else big<unsigned char>(o, file, page, in[0], times, in[1], in[2]); o << ",\"runs\":[]"; }
      else if (cmd.find('c') != std::string::npos) run_all<char>(o, file, opt, page, in, gap, cmd.find('x') != std::string::npos);
      else run_all<unsigned char>(o, file, opt, page, in, gap, cmd.find('x') != std::string::npos);
      o << "}";
    } catch (std::exception &e) { o.str(""); o << "{\"k\":\"gen\",\"ok\":false,\"rules\":[],\"runs\":[]}"; }
    puts(o.str().c_str()); fflush(stdout);
    unlink(file.c_str());
  }
  rmdir(base.c_str());
  return 0;
}
