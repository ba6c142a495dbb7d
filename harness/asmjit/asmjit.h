// A stand-in for the part of asmjit (2017 interface) that Centaurus uses: an assembler for
// x86-64 that produces native code.  The library itself is not available where the checks run.
// Every instruction is encoded in its plainest form (64-bit operands, 32-bit displacements).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <type_traits>
#include <vector>
#include <sys/mman.h>

namespace asmjit {
typedef uint32_t Error;
enum { kErrorOk = 0 };
struct CodeInfo {};
class CodeEmitter;
class Logger { public: virtual ~Logger() {} virtual Error _log(const char *, size_t = 0) noexcept { return 0; } };
class StringLogger : public Logger { std::string s; public: const char *getString() const { return s.c_str(); } };
class FileLogger : public Logger { public: FileLogger(FILE * = nullptr) {} };
class ErrorHandler { public: virtual ~ErrorHandler() {} virtual bool handleError(Error, const char *, CodeEmitter *) { return false; } };
class Operand {};
struct Label : Operand { uint32_t id; explicit Label(uint32_t i = ~0u) : id(i) {} uint32_t getId() const { return id; } bool isValid() const { return id != ~0u; } };
struct Imm : Operand { int64_t v; Imm() : v(0) {} template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type> explicit Imm(T x) : v((int64_t)x) {} int64_t getInt64() const { return v; } };
template <class T> Imm imm(T x) { return Imm(x); }
template <class T> Imm imm_ptr(T *x) { return Imm((uint64_t)(uintptr_t)x); }
struct X86Reg : Operand { int n; explicit X86Reg(int n = 0) : n(n) {} };
struct X86Gp : X86Reg { int w; explicit X86Gp(int n = 0, int w = 64) : X86Reg(n), w(w) {} X86Gp r64() const { return X86Gp(n, 64); } X86Gp r32() const { return X86Gp(n, 32); } };
struct X86Xmm : X86Reg { explicit X86Xmm(int n = 0) : X86Reg(n) {} };
struct X86Mem : Operand {
  int base, index, shift; uint32_t label; int64_t off; uint32_t size;
  X86Mem(const Label &l, int64_t o, uint32_t s = 0) : base(-1), index(-1), shift(0), label(l.id), off(o), size(s) {}
  X86Mem(const X86Gp &b, int64_t o, uint32_t s = 0) : base(b.n), index(-1), shift(0), label(~0u), off(o), size(s) {}
  X86Mem(const X86Gp &b, const X86Gp &x, int sh, int64_t o, uint32_t s = 0) : base(b.n), index(x.n), shift(sh), label(~0u), off(o), size(s) {}
};
union Data128 { int8_t sb[16]; uint8_t ub[16]; int16_t sw[8]; uint16_t uw[8]; int32_t sd[4]; uint32_t ud[4]; int64_t sq[2]; uint64_t uq[2]; };
namespace x86 {
static const X86Gp rax(0), rcx(1), rdx(2), rbx(3), rsp(4), rbp(5), rsi(6), rdi(7), r8(8), r9(9), r10(10), r11(11), r12(12), r13(13), r14(14), r15(15);
static const X86Gp eax(0, 32), ecx(1, 32), edx(2, 32), ebx(3, 32), esp(4, 32), ebp(5, 32), esi(6, 32), edi(7, 32), r8d(8, 32), r9d(9, 32), r10d(10, 32), r11d(11, 32);
static const X86Xmm xmm0(0), xmm1(1), xmm2(2), xmm3(3), xmm4(4), xmm5(5), xmm6(6), xmm7(7), xmm8(8), xmm9(9), xmm10(10), xmm11(11), xmm12(12), xmm13(13), xmm14(14), xmm15(15);
template <class B> static X86Mem ptr(const B &b, int64_t o = 0, uint32_t s = 0) { return X86Mem(b, o, s); }
static inline X86Mem ptr(const X86Gp &b, const X86Gp &x, int sh = 0, int64_t o = 0, uint32_t s = 0) { return X86Mem(b, x, sh, o, s); }
#define SHIM_PTR(name, s) static inline X86Mem name(const X86Gp &b, int64_t o = 0) { return X86Mem(b, o, s); } static inline X86Mem name(const X86Gp &b, const X86Gp &x, int sh = 0, int64_t o = 0) { return X86Mem(b, x, sh, o, s); } static inline X86Mem name(const Label &b, int64_t o = 0) { return X86Mem(b, o, s); }
SHIM_PTR(byte_ptr, 1) SHIM_PTR(word_ptr, 2) SHIM_PTR(dword_ptr, 4) SHIM_PTR(qword_ptr, 8) SHIM_PTR(oword_ptr, 16)
#undef SHIM_PTR
}
class Zone { public: explicit Zone(size_t = 0, size_t = 0) {} };
class ConstPool {
  std::vector<uint8_t> d;
public:
  explicit ConstPool(Zone *) {}
  Error add(const void *data, size_t size, size_t &off) {
    for (off = 0; off + size <= d.size(); off += size) if (!memcmp(&d[off], data, size)) return 0;
    while (d.size() % size) d.push_back(0);
    off = d.size(); d.insert(d.end(), (const uint8_t *)data, (const uint8_t *)data + size); return 0;
  }
  size_t getSize() const { return d.size(); }
  bool isEmpty() const { return d.empty(); }
  const std::vector<uint8_t> &bytes() const { return d; }
};
class CodeHolder {
  friend class X86Assembler; friend class JitRuntime;
  struct Fix { size_t at, end; uint32_t label; int64_t add; };
  std::vector<uint8_t> b; std::vector<int64_t> labels; std::vector<Fix> fixes; Logger *lg = nullptr; ErrorHandler *eh = nullptr;
public:
  // where code compares a pointer with the end of a page of 8 MB, a smaller page can be put in its place
  static int64_t &page_from() { static int64_t v = 0; return v; }
  static int64_t &page_to() { static int64_t v = 0; return v; }
  Error init(const CodeInfo &) { b.clear(); labels.clear(); fixes.clear(); return 0; }
  void reset(bool = false) { init(CodeInfo()); }
  void setLogger(Logger *l) { lg = l; }
  Error setErrorHandler(ErrorHandler *e) { eh = e; return 0; }
  int64_t getLabelOffset(const Label &l) const { return labels.at(l.id); }
  size_t getCodeSize() const { return b.size(); }
};
class JitRuntime {
  std::vector<std::pair<void *, size_t>> m;
public:
  JitRuntime() {}
  JitRuntime(const JitRuntime &) = delete;
  ~JitRuntime() { for (auto &p : m) munmap(p.first, p.second); }
  CodeInfo getCodeInfo() const { return CodeInfo(); }
  template <class F> Error add(F *dst, CodeHolder *c) {
    size_t n = (c->b.size() + 4096) / 4096 * 4096;
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) return 1;
    for (auto &f : c->fixes) { if (c->labels.at(f.label) < 0) { fprintf(stderr, "asmjit stand-in: unbound label\n"); abort(); } int32_t r = (int32_t)(c->labels[f.label] + f.add - (int64_t)f.end); memcpy(&c->b[f.at], &r, 4); }
    memcpy(p, c->b.data(), c->b.size());
    mprotect(p, n, PROT_READ | PROT_EXEC);
    m.push_back({p, n});
    memcpy((void *)dst, &p, sizeof p); return 0;
  }
  template <class F> Error release(F) { return 0; }
};
class CodeEmitter {};
class X86Assembler : public CodeEmitter {
  CodeHolder *c;
  void u8(int x) { c->b.push_back((uint8_t)x); }
  void u32(int64_t x) { for (int i = 0; i < 4; i++) u8((x >> 8 * i) & 255); }
  void u64(uint64_t x) { for (int i = 0; i < 8; i++) u8((x >> 8 * i) & 255); }
  static bool small(int64_t x) { return x >= INT32_MIN && x <= INT32_MAX; }
  static void need(bool ok, const char *what) { if (!ok) { fprintf(stderr, "asmjit stand-in: %s\n", what); abort(); } }
  // prefix, REX, opcode, modrm: register r with register or memory operand
  void rr(int pre, bool w, std::initializer_list<int> op, int r, int m) {
    if (pre) u8(pre);
    int rex = (w ? 8 : 0) | (r > 7 ? 4 : 0) | (m > 7 ? 1 : 0); if (rex) u8(0x40 | rex);
    for (int o : op) u8(o);
    u8(0xC0 | (r & 7) << 3 | (m & 7));
  }
  void rm(int pre, bool w, std::initializer_list<int> op, int r, const X86Mem &m, int tail = 0) {
    if (pre) u8(pre);
    int rex = (w ? 8 : 0) | (r > 7 ? 4 : 0) | (m.index > 7 ? 2 : 0) | (m.base > 7 ? 1 : 0); if (rex) u8(0x40 | rex);
    for (int o : op) u8(o);
    if (m.base < 0) { u8((r & 7) << 3 | 5); size_t at = c->b.size(); u32(0); c->fixes.push_back({at, at + 4 + (size_t)tail, m.label, m.off}); return; }
    need(small(m.off), "displacement");
    if (m.index >= 0 || (m.base & 7) == 4) { u8(0x80 | (r & 7) << 3 | 4); u8(m.shift << 6 | ((m.index < 0 ? 4 : m.index) & 7) << 3 | (m.base & 7)); }
    else u8(0x80 | (r & 7) << 3 | (m.base & 7));
    u32(m.off);
  }
  int64_t page(int64_t v) const {
    int64_t a = CodeHolder::page_from(), b = CodeHolder::page_to(), d = v - a;
    return !a ? v : d >= -64 && d <= 64 ? b + d : v == a / 8 ? b / 8 : v;
  }
  Error alu(int k, const X86Gp &d, const X86Gp &s) { rr(0, d.w == 64, {k * 8 + 1}, s.n, d.n); return 0; }
  Error alu(int k, const X86Gp &d, const X86Mem &s) { rm(0, d.w == 64, {k * 8 + 3}, d.n, s); return 0; }
  Error alu(int k, const X86Mem &d, const X86Gp &s) { rm(0, s.w == 64, {k * 8 + 1}, s.n, d); return 0; }
  Error alu(int k, const X86Gp &d, int64_t v) { need(small(v), "immediate"); rr(0, d.w == 64, {0x81}, k, d.n); u32(v); return 0; }
  Error alu(int k, const X86Mem &d, int64_t v) { need(small(v), "immediate"); if (d.size == 1) { rm(0, false, {0x80}, k, d, 1); u8((int)v); } else { rm(0, d.size != 4, {0x81}, k, d, 4); u32(v); } return 0; }
  Error sh(int k, const X86Gp &d, int64_t v) { rr(0, d.w == 64, {0xC1}, k, d.n); u8((int)v); return 0; }
  Error jcc(int cc, const Label &l) { u8(0x0F); u8(0x80 | cc); size_t at = c->b.size(); u32(0); c->fixes.push_back({at, at + 4, l.id, 0}); return 0; }
public:
  explicit X86Assembler(CodeHolder *h = nullptr) : c(h) {}
  Label newLabel() { c->labels.push_back(-1); return Label((uint32_t)c->labels.size() - 1); }
  Error bind(const Label &l) { need(c->labels.at(l.id) < 0, "label bound twice"); c->labels[l.id] = (int64_t)c->b.size(); return 0; }
  Error align(uint32_t, uint32_t n) { while (c->b.size() % n) u8(0x90); return 0; }
  Error finalize() { return 0; }
  Error embedConstPool(const Label &l, const ConstPool &p) { while (c->b.size() % 16) u8(0); bind(l); c->b.insert(c->b.end(), p.bytes().begin(), p.bytes().end()); return 0; }
  Error embed(const void *d, uint32_t n) { c->b.insert(c->b.end(), (const uint8_t *)d, (const uint8_t *)d + n); return 0; }
#define SHIM_ALU(name, k, fix) \
  Error name(const X86Gp &d, const X86Gp &s) { return alu(k, d, s); } \
  Error name(const X86Gp &d, const X86Mem &s) { return alu(k, d, s); } \
  Error name(const X86Mem &d, const X86Gp &s) { return alu(k, d, s); } \
  Error name(const X86Gp &d, const Imm &v) { return alu(k, d, fix(v.v)); } \
  Error name(const X86Mem &d, const Imm &v) { return alu(k, d, fix(v.v)); } \
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> Error name(const X86Gp &d, T v) { return alu(k, d, fix((int64_t)v)); } \
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> Error name(const X86Mem &d, T v) { return alu(k, d, fix((int64_t)v)); }
  SHIM_ALU(add, 0, page) SHIM_ALU(or_, 1, ) SHIM_ALU(adc, 2, ) SHIM_ALU(sbb, 3, ) SHIM_ALU(and_, 4, ) SHIM_ALU(sub, 5, ) SHIM_ALU(xor_, 6, ) SHIM_ALU(cmp, 7, )
#undef SHIM_ALU
  Error test(const X86Gp &a, const X86Gp &b) { rr(0, a.w == 64, {0x85}, b.n, a.n); return 0; }
#define SHIM_SH(name, k) template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> Error name(const X86Gp &d, T v) { return sh(k, d, (int64_t)v); } Error name(const X86Gp &d, const Imm &v) { return sh(k, d, v.v); }
  SHIM_SH(shl, 4) SHIM_SH(sal, 4) SHIM_SH(shr, 5) SHIM_SH(sar, 7) SHIM_SH(rol, 0) SHIM_SH(ror, 1)
#undef SHIM_SH
  Error mov(const X86Gp &d, const X86Gp &s) { rr(0, d.w == 64, {0x8B}, d.n, s.n); return 0; }
  Error mov(const X86Gp &d, const X86Mem &s) { rm(0, d.w == 64, {0x8B}, d.n, s); return 0; }
  Error mov(const X86Mem &d, const X86Gp &s) { if (d.size == 1) rm(0, s.n > 3, {0x88}, s.n, d); else if (d.size == 2) rm(0x66, false, {0x89}, s.n, d); else rm(0, s.w == 64 && d.size != 4, {0x89}, s.n, d); return 0; }
  Error mov(const X86Gp &d, const Imm &v) { if (d.w == 32) { if (d.n > 7) u8(0x41); u8(0xB8 | (d.n & 7)); u32(v.v); } else { u8(0x48 | (d.n > 7)); u8(0xB8 | (d.n & 7)); u64((uint64_t)page(v.v)); } return 0; }
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> Error mov(const X86Gp &d, T v) { return mov(d, Imm(v)); }
  Error lea(const X86Gp &d, const X86Mem &s) { X86Mem t(s); t.off = s.base >= 0 ? page(s.off) : s.off; rm(0, true, {0x8D}, d.n, t); return 0; }
  Error movzx(const X86Gp &d, const X86Mem &s) { need(s.size == 1 || s.size == 2, "movzx"); rm(0, true, {0x0F, s.size == 1 ? 0xB6 : 0xB7}, d.n, s); return 0; }
  Error movsx(const X86Gp &d, const X86Mem &s) { need(s.size == 1 || s.size == 2, "movsx"); rm(0, true, {0x0F, s.size == 1 ? 0xBE : 0xBF}, d.n, s); return 0; }
  Error xchg(const X86Gp &a, const X86Gp &b) { rr(0, a.w == 64, {0x87}, b.n, a.n); return 0; }
  Error inc(const X86Gp &d) { rr(0, d.w == 64, {0xFF}, 0, d.n); return 0; }
  Error dec(const X86Gp &d) { rr(0, d.w == 64, {0xFF}, 1, d.n); return 0; }
  Error neg(const X86Gp &d) { rr(0, d.w == 64, {0xF7}, 3, d.n); return 0; }
  Error not_(const X86Gp &d) { rr(0, d.w == 64, {0xF7}, 2, d.n); return 0; }
  Error push(const X86Gp &r) { if (r.n > 7) u8(0x41); u8(0x50 | (r.n & 7)); return 0; }
  Error pop(const X86Gp &r) { if (r.n > 7) u8(0x41); u8(0x58 | (r.n & 7)); return 0; }
  Error push(const Imm &v) { need(small(v.v), "push"); u8(0x68); u32(v.v); return 0; }
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> Error push(T v) { return push(Imm(v)); }
  Error ret() { u8(0xC3); return 0; }
  Error nop() { u8(0x90); return 0; }
  Error jmp(const Label &l) { u8(0xE9); size_t at = c->b.size(); u32(0); c->fixes.push_back({at, at + 4, l.id, 0}); return 0; }
  Error jmp(const X86Gp &r) { rr(0, false, {0xFF}, 4, r.n); return 0; }
  Error call(const Label &l) { u8(0xE8); size_t at = c->b.size(); u32(0); c->fixes.push_back({at, at + 4, l.id, 0}); return 0; }
  Error call(const X86Gp &r) { rr(0, false, {0xFF}, 2, r.n); return 0; }
  Error call(const Imm &v) { return call((uint64_t)v.v); }
  Error call(uint64_t a) { u8(0xFF); u8(0x15); u32(2); u8(0xEB); u8(8); u64(a); return 0; }     // call [rip+2]; jmp over the address
#define SHIM_J(name, cc) Error name(const Label &l) { return jcc(cc, l); }
  SHIM_J(jo, 0) SHIM_J(jno, 1) SHIM_J(jb, 2) SHIM_J(jc, 2) SHIM_J(jnae, 2) SHIM_J(jnb, 3) SHIM_J(jae, 3) SHIM_J(jnc, 3) SHIM_J(je, 4) SHIM_J(jz, 4) SHIM_J(jne, 5) SHIM_J(jnz, 5) SHIM_J(jbe, 6) SHIM_J(jna, 6) SHIM_J(ja, 7) SHIM_J(jnbe, 7)
  SHIM_J(js, 8) SHIM_J(jns, 9) SHIM_J(jp, 10) SHIM_J(jnp, 11) SHIM_J(jl, 12) SHIM_J(jnge, 12) SHIM_J(jge, 13) SHIM_J(jnl, 13) SHIM_J(jle, 14) SHIM_J(jng, 14) SHIM_J(jg, 15) SHIM_J(jnle, 15)
#undef SHIM_J
  Error movdqa(const X86Xmm &d, const X86Mem &s) { rm(0x66, false, {0x0F, 0x6F}, d.n, s); return 0; }
  Error movdqa(const X86Mem &d, const X86Xmm &s) { rm(0x66, false, {0x0F, 0x7F}, s.n, d); return 0; }
  Error movdqa(const X86Xmm &d, const X86Xmm &s) { rr(0x66, false, {0x0F, 0x6F}, d.n, s.n); return 0; }
  Error movdqu(const X86Xmm &d, const X86Mem &s) { rm(0xF3, false, {0x0F, 0x6F}, d.n, s); return 0; }
  Error movdqu(const X86Mem &d, const X86Xmm &s) { rm(0xF3, false, {0x0F, 0x7F}, s.n, d); return 0; }
  Error movdqu(const X86Xmm &d, const X86Xmm &s) { rr(0xF3, false, {0x0F, 0x6F}, d.n, s.n); return 0; }
  Error pxor(const X86Xmm &d, const X86Xmm &s) { rr(0x66, false, {0x0F, 0xEF}, d.n, s.n); return 0; }
  Error movq(const X86Xmm &d, const X86Gp &s) { rr(0x66, true, {0x0F, 0x6E}, d.n, s.n); return 0; }
  Error movq(const X86Gp &d, const X86Xmm &s) { rr(0x66, true, {0x0F, 0x7E}, s.n, d.n); return 0; }
#define SHIM_STR(name, o) \
  Error name(const X86Xmm &a, const X86Xmm &b, const Imm &v) { rr(0x66, false, {0x0F, 0x3A, o}, a.n, b.n); u8((int)v.v); return 0; } \
  Error name(const X86Xmm &a, const X86Mem &b, const Imm &v) { rm(0x66, false, {0x0F, 0x3A, o}, a.n, b, 1); u8((int)v.v); return 0; } \
  template <class B> Error name(const X86Xmm &a, const B &b, int v) { return name(a, b, Imm(v)); }
  SHIM_STR(pcmpistri, 0x63) SHIM_STR(pcmpistrm, 0x62) SHIM_STR(pcmpestri, 0x61) SHIM_STR(pcmpestrm, 0x60)
#undef SHIM_STR
  Error movnti(const X86Mem &d, const X86Gp &s) { rm(0, s.w == 64, {0x0F, 0xC3}, s.n, d); return 0; }
  Error sfence() { u8(0x0F); u8(0xAE); u8(0xF8); return 0; }
  Error mfence() { u8(0x0F); u8(0xAE); u8(0xF0); return 0; }
  Error lfence() { u8(0x0F); u8(0xAE); u8(0xE8); return 0; }
};
}
