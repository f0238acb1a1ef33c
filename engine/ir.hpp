// Compact form of LLVM IR for interpretation.
#pragma once
#include "term.hpp"
enum VK : u8 { K_INT, K_TERM, K_PTR, K_FN, K_UNDEF, K_POISON, K_CHO };   // K_CHO: one of two pointers, by a condition
struct Val {
  u8 k = K_UNDEF; u8 w = 0; u32 a = 0; int64_t v = 0; u32 gen = 0; u32 lo = 0, hi = 0;
  static Val I(u64 v, u32 w) { Val r; r.k = K_INT; r.w = w; r.v = (int64_t)(v & maskw(w)); return r; }
  bool same(const Val &o) const {
    if (k != o.k) return false;
    switch (k) {
    case K_INT: return w == o.w && v == o.v;
    case K_TERM: return a == o.a;
    case K_PTR: return a == o.a && gen == o.gen && v == o.v && lo == o.lo && hi == o.hi;
    case K_FN: case K_CHO: return a == o.a;
    default: return true;
    }
  }
};
enum IOp : u8 {
  I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_SHL, I_LSHR, I_ASHR, I_AND, I_OR, I_XOR,
  I_ICMP, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_PTRTOINT, I_INTTOPTR, I_COPY,
  I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_CALL, I_RET, I_BR, I_CONDBR, I_SWITCH, I_UNREACHABLE,
  I_MEMCPY, I_MEMSET, I_NOP, I_BSWAP, I_FSHL, I_FSHR, I_UMIN, I_UMAX, I_SMIN, I_SMAX, I_ABS, I_FREEZE, I_CTPOP, I_UNSUP,
  I_EXTRACT, I_OVF
};
struct GepIdx { int op; int64_t scale; };
struct Ins {
  u8 op = 0, w = 0, w2 = 0, pred = 0;
  int dst = -1;
  int a = 0, b = 0, c = 0;     // operand: >=0 register, <0 constant ~idx
  int64_t imm = 0;             // gep constant offset / load size / alloca size / callee index
  int x = -1;                  // side-table index
  int line = 0;
};
struct PhiCopy { int dst; int src; };
struct Block {
  std::vector<Ins> ins;
  std::vector<int> succ;
  std::map<int, std::vector<PhiCopy>> phis;   // by predecessor
  std::vector<int> phiDst;
  int ipdom = -1;              // -1: function return
  std::vector<u64> live;       // live-in register bitset (after phis)
  std::string name;
};
struct Func {
  std::string name, file;
  bool defined = false;
  int nargs = 0, nregs = 0;
  u8 retw = 0; bool retptr = false, isvoid = false;
  std::vector<Block> blocks;
  std::vector<Val> consts;
  std::vector<std::vector<int>> callArgs;
  std::vector<std::vector<GepIdx>> geps;
  std::vector<std::pair<int64_t, int64_t>> gepNarrow;   // array narrowing: (offset of array start relative to base+imm?, size)
  std::vector<std::vector<std::pair<u64, int>>> switches;
  int intrinsic = 0;
  u64 executed = 0;
  bool fromRepo = false;
};
struct GlobalInit { std::string name; u32 size; bool constant; std::vector<u8> data; std::vector<std::pair<u32, std::pair<int, std::pair<u32, int64_t>>>> ptrs; };
// ptrs: (offset, (kind 0=global 1=function, (index, addend)))
struct Program {
  std::vector<Func> funcs;
  std::map<std::string, int> byName;
  std::vector<GlobalInit> globals;
  std::map<std::string, int> gByName;
};
void loadProgram(const std::string &path, Program &P);
