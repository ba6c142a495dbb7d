// Reads grammar texts with the real reader and dumps what became of them:
// machines before and after optimising, the character network, the lookahead
// automata, the verdict of verify().  One line of JSON per case.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <unistd.h>
#include <sys/stat.h>
#include <csignal>
#include "CompositeATN.hpp"
#include "LookaheadDFA.hpp"
#include "Grammar.hpp"
using namespace Centaurus;
typedef char C;

static std::string g_dir; static bool g_long;
static int g_alarm = getenv("CENTAURUS_ALARM") ? atoi(getenv("CENTAURUS_ALARM")) : 30;
static std::string ranges(const CharClass<C> &cc) {
  std::ostringstream o; o << "["; bool f = true;
  for (const auto &r : cc) { if (!f) o << ","; f = false; o << "[" << (long)r.start() << "," << (long)r.end() << "]"; }
  o << "]"; return o.str();
}
template <class S> static std::string str(const S &s) { std::ostringstream o; o << "["; bool f = true; for (auto ch : s) { if (!f) o << ","; f = false; o << (long)ch; } o << "]"; return o.str(); }
template <class A> static std::string states(const A &a, int n) {
  std::ostringstream o; o << "[";
  for (int i = 0; i < n; i++) {
    if (i) o << ","; o << "["; bool f = true;
    for (const auto &t : a.get_transitions(i)) { if (!f) o << ","; f = false; o << "{\"d\":" << t.dest() << ",\"r\":" << ranges(t.label()); if (g_long) o << ",\"g\":" << (t.is_long() ? "true" : "false"); o << "}"; }
    o << "]";
  }
  o << "]"; return o.str();
}
static std::string node(const ATNNode<C> &n) {
  std::ostringstream o; o << "{\"t\":";
  switch (n.type()) {
    case ATNNodeType::Blank: o << "\"blank\""; break;
    case ATNNodeType::Nonterminal: o << "\"ref\",\"name\":" << str(n.get_invoke().str()) << ",\"id\":" << n.get_id(); break;
    case ATNNodeType::LiteralTerminal: o << "\"lit\",\"txt\":" << str(n.get_literal()) << ",\"id\":" << n.get_id(); break;
    case ATNNodeType::RegularTerminal: o << "\"re\",\"id\":" << n.get_id() << ",\"nfa\":" << states(n.get_nfa(), n.get_nfa().get_state_num()); break;
    case ATNNodeType::WhiteSpace: o << "\"ws\""; break;
    default: o << "\"?\"";
  }
  o << ",\"tr\":["; bool f = true;
  for (const auto &t : n.get_transitions()) { if (!f) o << ","; f = false; o << "[" << t.dest() << "," << t.tag() << "]"; }
  o << "]}"; return o.str();
}
static std::string machine(const ATNMachine<C> &m) { std::ostringstream o; o << "["; for (int i = 0; i < m.get_node_num(); i++) o << (i ? "," : "") << node(m.get_node(i)); o << "]"; return o.str(); }

static std::vector<std::pair<std::wstring, int>> g_enum;
static void enumerate(const wchar_t *name, int id) { g_enum.push_back({name, id}); }
static std::string rd() { int n; std::cin >> n; std::string s; for (int i = 0; i < n; i++) { long c; std::cin >> c; s.push_back((char)c); } return s; }

static void names(std::ostringstream &o, Grammar<C> &g) {
  g_enum.clear(); g.enum_machines(enumerate);
  o << "\"rules\":[";
  for (size_t i = 0; i < g_enum.size(); i++) {
    Identifier id(g_enum[i].first);
    o << (i ? "," : "") << "{\"name\":" << str(g_enum[i].first) << ",\"num\":" << g_enum[i].second << ",\"mid\":" << g.get_machine_id(id) << ",\"uid\":" << g[id].get_unique_id() << ",\"back\":" << str(g.lookup_id((int)i).str()) << "}";
  }
  o << "],\"root\":" << str(g.get_root_id().str()) << ",\"count\":" << g.get_machine_num();
}
static std::vector<Identifier> ids(Grammar<C> &g) { std::vector<Identifier> v; for (size_t i = 0; i < g_enum.size(); i++) v.push_back(Identifier(g_enum[i].first)); return v; }
static void machines(std::ostringstream &o, const char *key, Grammar<C> &g) {
  o << ",\"" << key << "\":["; bool f = true; for (auto &id : ids(g)) { if (!f) o << ","; f = false; o << machine(g[id]); } o << "]";
}
static void networks(std::ostringstream &o, Grammar<C> &g) {
  CompositeATN<C> catn(g);
  o << ",\"catn\":["; bool f = true;
  for (auto &id : ids(g)) {
    if (!f) o << ","; f = false; const CATNMachine<C> &m = catn[id]; o << "{\"nodes\":[";
    for (int i = 0; i < m.get_num_nodes(); i++) {
      o << (i ? "," : "") << "{\"sub\":" << str(m[i].get_submachine().str()) << ",\"tr\":["; bool h = true;
      for (const auto &t : m[i].get_transitions()) { if (!h) o << ","; h = false; o << "{\"d\":" << t.dest() << ",\"r\":" << ranges(t.label()) << ",\"tag\":" << t.tag() << "}"; }
      o << "]}";
    }
    o << "],\"map\":["; for (int i = 0; i < g[id].get_node_num(); i++) o << (i ? "," : "") << m.convert_atn_index(i); o << "]}";
  }
  o << "]";
}
static void lookahead(std::ostringstream &o, Grammar<C> &g) {
  CompositeATN<C> catn(g);
  o << ",\"ldfa\":["; bool f = true; int r = 0;
  for (auto &id : ids(g)) {
    for (int i = 0; i < g[id].get_node_num(); i++) {
      if (g[id].get_node(i).get_transitions().size() < 2) continue;
      if (!f) o << ","; f = false; o << "{\"r\":" << r + 1 << ",\"n\":" << i;
      try {
        ATNPath p = catn.convert_atn_path(ATNPath(id, i));
        LookaheadDFA<C> raw(catn, p, false), min(catn, p, true); LookaheadDFA<C> cp(min);
        o << ",\"ok\":true,\"s\":" << states(raw, raw.get_state_num()) << ",\"m\":" << states(cp, cp.get_state_num());
      } catch (std::exception &e) { o << ",\"ok\":false,\"s\":[],\"m\":[]"; }
      o << "}";
    }
    r++;
  }
  o << "]";
}
static void determined(std::ostringstream &o, Grammar<C> &g) {
  o << ",\"dfa\":["; bool f = true; int r = 0;
  for (auto &id : ids(g)) {
    r++;
    for (int i = 0; i < g[id].get_node_num(); i++) {
      if (g[id].get_node(i).type() != ATNNodeType::RegularTerminal) continue;
      if (!f) o << ","; f = false; o << "{\"r\":" << r << ",\"n\":" << i;
      for (int m = 0; m < 2; m++) {
        DFA<C> a(g[id].get_node(i).get_nfa(), m == 1);
        o << (m ? ",\"min\":" : ",\"raw\":") << states(a, a.get_state_num()) << (m ? ",\"minm\":[" : ",\"rawm\":[");
        for (int s = 0; s < a.get_state_num(); s++) o << (s ? "," : "") << "[" << (a.is_accept_state(s) ? "true" : "false") << "," << (a.get_state(s).is_long() ? "true" : "false") << "]";
        o << "]";
      }
      o << "}";
    }
  }
  o << "]";
}
static int line_of(const std::string &w) {
  size_t p = w.find("ine "); if (p == std::string::npos) p = 0;
  while (p < w.size() && !isdigit((unsigned char)w[p])) p++;
  return p < w.size() ? atoi(w.c_str() + p) : -1;
}
int main(int argc, char **argv) {
  char tmpl[] = "/tmp/centaurus_grm_XXXXXX"; g_dir = mkdtemp(tmpl);
  std::string cmd; int seq = 0;
  std::wcerr.setstate(std::ios::failbit); std::wcout.setstate(std::ios::failbit);
  auto cleanup = [](int) { std::string c = "rm -rf " + g_dir; if (g_dir.compare(0, 19, "/tmp/centaurus_grm_") == 0) system(c.c_str()); };
  while (std::cin >> cmd) {
    alarm(g_alarm);
    int n; std::cin >> n; std::vector<std::string> files;
    std::string base = g_dir + "/c" + std::to_string(seq++ % 4);
    mkdir(base.c_str(), 0700); mkdir((base + "/d").c_str(), 0700); mkdir((base + "/d/e").c_str(), 0700);
    for (int i = 0; i < n; i++) { std::string name = rd(), text = rd(); std::ofstream(base + "/" + name, std::ios::binary) << text; files.push_back(base + "/" + name); }
    std::ostringstream o; g_long = cmd.find('d') != std::string::npos;
    try {
      Grammar<C> first; 
      if (cmd.find('x') != std::string::npos) { Grammar<C> whole(files[0].c_str()); Grammar<C> g(std::move(whole)); o << "{\"k\":\"grammar\",\"ok\":true,\"line\":0,"; names(o, g); }
      else {
        first.parse(files[0].c_str()); Grammar<C> g(std::move(first));
        o << "{\"k\":\"grammar\",\"ok\":true,\"line\":0,"; names(o, g);
        if (cmd.find('a') != std::string::npos) machines(o, "atn", g);
        if (cmd.find('o') != std::string::npos) { g.optimize(); machines(o, "opt", g); }
        if (cmd.find('v') != std::string::npos) o << ",\"verify\":" << (g.verify() ? "true" : "false");
        if (cmd.find('c') != std::string::npos) networks(o, g);
        if (cmd.find('l') != std::string::npos) lookahead(o, g);
        if (cmd.find('d') != std::string::npos) determined(o, g);
        if (cmd.find('O') != std::string::npos) { g.optimize(); machines(o, "opt2", g); }
      }
      o << "}";
    } catch (std::exception &e) { o.str(""); o << "{\"k\":\"grammar\",\"ok\":false,\"line\":" << line_of(e.what()) << ",\"rules\":[]}"; }
    puts(o.str().c_str()); fflush(stdout);
    for (auto &f : files) unlink(f.c_str());
  }
  cleanup(0);
  return 0;
}
