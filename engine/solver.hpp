#pragma once
#include "term.hpp"
#include <z3.h>
#include <chrono>
typedef std::vector<u64> Bits;  // little-endian limbs

inline void bitsResize(Bits &b, u32 w) {
  b.resize((w + 63) / 64, 0);
  if (w & 63) b[w / 64] &= maskw(w & 63);
}
inline Bits bitsSlice(const Bits &b, u32 lo, u32 len) {
  Bits r((len + 63) / 64, 0);
  for (u32 i = 0; i < r.size(); i++) {
    u32 p = lo + 64 * i, w = p >> 6, s = p & 63;
    u64 v = w < b.size() ? b[w] >> s : 0;
    if (s && w + 1 < b.size()) v |= b[w + 1] << (64 - s);
    r[i] = v;
  }
  bitsResize(r, len);
  return r;
}
inline void bitsPut(Bits &b, u32 pos, const Bits &v, u32 len) {
  for (u32 i = 0; i < len; i += 64) {
    u32 l = std::min(64u, len - i);
    u64 x = v[i / 64] & maskw(l);
    u32 p = pos + i, w = p >> 6, s = p & 63;
    b[w] |= x << s;
    if (s && s + l > 64) b[w + 1] |= x >> (64 - s);
  }
}
typedef std::map<T, Bits> Model;

struct Solver {
  TermStore &ts;
  Z3_context ctx;
  Z3_solver swsol, sol;
  std::unordered_map<T, Z3_ast> memo, memoAbs;
  bool absSums = false; std::unordered_set<T> boundsOf;
  bool longSum(const std::vector<T> &lits);
  void absBounds(T root, std::vector<Z3_ast> &out);
  u64 queries = 0, sat = 0, unsat = 0, unknown = 0;
  double secs = 0;
  unsigned curTimeout = 0;
  enum R { SAT, UNSAT, UNK };
  Solver(TermStore &t);
  Z3_ast tr(T t);
  Z3_ast trPieces(T t, const std::unordered_map<T, Z3_ast> *abs);
  R check(const std::vector<T> &lits, unsigned timeout_ms, Model *m = nullptr);
  // as check, but answers are remembered up to renaming of the unknowns
  R checkShape(const std::vector<T> &lits, unsigned timeout_ms);
  std::unordered_map<std::string, R> queryCache;
  u64 queryHits = 0;
  void support(T t, std::set<T> &out);   // VAR and APP leaves (APP arguments not entered)
  void setTimeout(unsigned ms);
  // equality of a and b with every node in `cut` replaced by a fresh constant
  R checkEqAbstract(T a, T b, const std::unordered_set<T> &expanded, unsigned timeout_ms);
  std::unordered_map<std::string, bool> shapeCache;
  bool proveSweep(T a, T b);
  u64 sweepTried = 0, sweepProved = 0, shapeHits = 0;
};
