// Drives CharClass, NFA and DFA of /repo on cases read from stdin, one line of
// JSON per case.  A crash or a hang loses only the case at hand: the driver
// restarts after it.
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <csignal>
#include "NFA.hpp"
#include "DFA.hpp"
using namespace Centaurus;

template <class C> static std::string ranges(const CharClass<C> &cc) {
  std::ostringstream o; o << "["; bool f = true;
  for (const auto &r : cc) { if (!f) o << ","; f = false; o << "[" << (long)r.start() << "," << (long)r.end() << "]"; }
  o << "]"; return o.str();
}
template <class S> static std::string states(const S &a) {
  std::ostringstream o; o << "[";
  for (int i = 0; i < a.get_state_num(); i++) {
    if (i) o << ","; o << "["; bool f = true;
    for (const auto &t : a.get_transitions(i)) { if (!f) o << ","; f = false; o << "{\"d\":" << t.dest() << ",\"r\":" << ranges(t.label()) << "}"; }
    o << "]";
  }
  o << "]"; return o.str();
}
template <class D> static std::string accepts(const D &d) {
  std::ostringstream o; o << "["; for (int i = 0; i < d.get_state_num(); i++) { if (i) o << ","; o << (d.is_accept_state(i) ? "true" : "false"); } o << "]"; return o.str();
}
static std::wstring rdw() { int n; std::cin >> n; std::wstring s; for (int i = 0; i < n; i++) { long c; std::cin >> c; s.push_back((wchar_t)c); } return s; }
static std::string rds() { int n; std::cin >> n; std::string s; for (int i = 0; i < n; i++) { long c; std::cin >> c; s.push_back((char)c); } return s; }

static void do_regex(bool det) {
  std::wstring text = rdw(); int m; std::cin >> m; std::vector<std::string> strs; for (int i = 0; i < m; i++) strs.push_back(rds());
  std::ostringstream o; std::vector<std::string> runs(m);
  auto b = [](bool x) { return std::string(x ? "true" : "false"); };
  try {
    Stream st(text); NFA<char> nfa(st); int rest = 0; while (st.get() != 0 && rest < 1000) rest++;
    NFA<char> cp(nfa);
    o << "{\"k\":\"regex\",\"ok\":true,\"rest\":" << rest << ",\"n\":" << states(cp);
    for (int i = 0; i < m; i++) runs[i] = b(nfa.run(strs[i]));
    if (det) {
      DFA<char> dfa(nfa, false), mdfa(nfa, true); DFA<char> dcp(mdfa);
      o << ",\"d\":" << states(dfa) << ",\"da\":" << accepts(dfa) << ",\"m\":" << states(dcp) << ",\"ma\":" << accepts(dcp);
      for (int i = 0; i < m; i++) runs[i] += "," + b(dfa.run(strs[i])) + "," + b(mdfa.run(strs[i]));
    }
    o << ",\"runs\":["; for (int i = 0; i < m; i++) o << (i ? "," : "") << "[" << runs[i] << "]"; o << "]}";
  } catch (std::exception &e) { o.str(""); o << "{\"k\":\"regex\",\"ok\":false,\"rest\":0,\"n\":[],\"d\":[],\"m\":[],\"runs\":[]}"; }
  puts(o.str().c_str());
}
template <class C> static CharClass<C> rdclass(std::string &built) {
  // how: A add ranges one by one; L initializer-like list of characters through ranges; U union of single-range classes
  std::string how; int n; std::cin >> how >> n; std::vector<std::pair<long, long>> rs;
  for (int i = 0; i < n; i++) { long a, b; std::cin >> a >> b; rs.push_back({a, b}); }
  CharClass<C> cc;
  if (how == "A") for (auto &r : rs) cc |= Range<C>((C)r.first, (C)r.second);
  else if (how == "U") for (auto &r : rs) cc = cc | CharClass<C>((wchar_t)r.first, (wchar_t)r.second);
  else if (how == "V") for (auto &r : rs) cc = CharClass<C>((wchar_t)r.first, (wchar_t)r.second) | cc;
  else if (how == "L") { std::vector<wchar_t> l; for (auto &r : rs) l.push_back((wchar_t)r.first);
    switch (l.size()) { case 0: break; case 1: cc = CharClass<C>{l[0]}; break; case 2: cc = CharClass<C>{l[0], l[1]}; break; case 3: cc = CharClass<C>{l[0], l[1], l[2]}; break; default: cc = CharClass<C>{l[0], l[1], l[2], l[3]}; } }
  built = ranges(cc); return cc;
}
template <class C> static void do_class() {
  std::string ba, bb; CharClass<C> a = rdclass<C>(ba), b = rdclass<C>(bb); int np; std::cin >> np; std::vector<long> pts; for (int i = 0; i < np; i++) { long p; std::cin >> p; pts.push_back(p); }
  std::ostringstream o; auto di = a.diff_and_int(b); CharClass<C> u2 = a; u2 |= b; CharClass<C> cp(a); CharClass<C> as; as = b;
  o << "{\"a\":" << ba << ",\"b\":" << bb << ",\"or\":" << ranges(a | b) << ",\"or2\":" << ranges(u2) << ",\"and\":" << ranges(a & b) << ",\"not\":" << ranges(~a) << ",\"d0\":" << ranges(di[0]) << ",\"d1\":" << ranges(di[1]) << ",\"d2\":" << ranges(di[2])
    << ",\"star\":" << ranges(CharClass<C>::make_star()) << ",\"cp\":" << ranges(cp) << ",\"as\":" << ranges(as)
    << ",\"ov\":" << (a.overlaps(b) ? "true" : "false") << ",\"eq\":" << (a == b ? "true" : "false") << ",\"eps\":" << (a.is_epsilon() ? "true" : "false") << ",\"in\":[";
  for (size_t i = 0; i < pts.size(); i++) { if (i) o << ","; o << (a.includes((C)pts[i]) ? "true" : "false"); }
  o << "],\"inr\":["; bool f = true;
  for (size_t i = 0; i < pts.size(); i++) for (size_t j = i + 1; j < pts.size(); j++) { if (!f) o << ","; f = false; o << "[" << pts[i] << "," << pts[j] << "," << (a.includes(Range<C>((C)pts[i], (C)pts[j])) ? 1 : 0) << "]"; }
  o << "]}"; puts(o.str().c_str());
}
template <class C> static void do_bracket() {
  std::wstring text = rdw(); std::ostringstream o;
  try { Stream st(text); CharClass<C> cc(st); int rest = 0; while (st.get() != 0 && rest < 1000) rest++; o << "{\"ok\":true,\"rest\":" << rest << ",\"c\":" << ranges(cc) << "}"; }
  catch (std::exception &e) { o.str(""); o << "{\"ok\":false,\"rest\":0,\"c\":[]}"; }
  puts(o.str().c_str());
}
int main() {
  std::string cmd;
  while (std::cin >> cmd) {
    alarm(20);
    if (cmd == "RN") do_regex(false); else if (cmd == "RD") do_regex(true);
    else if (cmd == "Cc") do_class<char>(); else if (cmd == "Cu") do_class<unsigned char>(); else if (cmd == "Cw") do_class<wchar_t>();
    else if (cmd == "Bc") do_bracket<char>(); else if (cmd == "Bw") do_bracket<wchar_t>();
    else { fprintf(stderr, "bad command\n"); return 2; }
    fflush(stdout);
  }
  return 0;
}
