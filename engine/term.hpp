// Hash-consed bit-vector terms with a canonicalising constructor layer.
//
// Every term is either a CONST (<=64 bits), an atom (VAR, APP, LIN, AND, XOR,
// ITE, EQ, ULT, MUL, ...) or a CAT: a list of pieces, least significant first,
// each piece a (possibly negated) slice of an atom or a constant chunk.
#pragma once
#include <cstdint>
#include <array>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <stdexcept>

typedef uint32_t T;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uint16_t u16;
typedef __int128 i128;
typedef unsigned __int128 u128;

enum Op : u8 {
  O_NONE, O_CONST, O_VAR, O_APP, O_CAT, O_LIN, O_AND, O_XOR, O_ITE, O_EQ, O_ULT,
  O_MUL, O_UDIV, O_UREM, O_SDIV, O_SREM, O_SHL, O_LSHR, O_ASHR,
  O_HND,   // hash accumulator handle: data = [fn, phase, pos, parts...]
  O_HST,   // saved hash state:        data = [fn, parts...]
  O_SEG,   // opaque message segment:  data = [blob, offterm, lenterm]
};
extern const char *opName[];

struct Piece {
  u32 leaf;   // 0 => constant chunk
  u32 len;
  bool neg;
  u64 v;      // lo for a leaf, value for a constant
};

struct Node {
  u8 op;
  u8 fl;
  u32 width;
  u32 n;      // number of u64 words of data
  u64 off;    // offset in the pool
  u64 hash;
  u64 umin, umax;
};

struct Unsupported : std::runtime_error {
  Unsupported(const std::string &s) : std::runtime_error(s) {}
};

inline u64 maskw(u32 w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline u64 mix64(u64 x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31;
  return x;
}

struct TermStore {
  std::vector<Node> nodes;
  std::vector<u64> pool;
  std::vector<u32> table;  // hash-cons table of ids
  u64 tmask = 0, tcount = 0;
  std::vector<std::string> varNames;
  std::unordered_map<std::string, T> varByName;
  std::vector<T> rep;       // rep[t] for rewritten terms (sweeping), else t

  bool words = false;       // word mode (hash primitives): sweeping, no bit fragmentation
  u32 linLimit = 300, naryLimit = 64;
  // sweeping
  static const int NS = 32;
  std::vector<u64> sig;     // NS words per node when words==true
  std::unordered_map<u64, std::vector<T>> sigTab;
  std::function<bool(T, T)> sweepProve;
  u64 sweepHits = 0;
  u64 simSeed = 1;

  TermStore();
  const Node &N(T t) const { return nodes[t]; }
  const u64 *D(T t) const { return &pool[nodes[t].off]; }
  Op op(T t) const { return (Op)nodes[t].op; }
  u32 W(T t) const { return nodes[t].width; }
  bool isConst(T t) const { return nodes[t].op == O_CONST; }
  u64 cval(T t) const { return pool[nodes[t].off]; }
  bool isConst(T t, u64 &v) const { if (nodes[t].op != O_CONST) return false; v = pool[nodes[t].off]; return true; }
  bool isAtom(T t) const { u8 o = nodes[t].op; return o != O_CONST && o != O_CAT; }

  T intern(Op op, u32 width, const u64 *d, u32 n, u8 fl = 0);
  void computeRange(T t);
  void grow();

  T konst(u64 v, u32 w);
  T zero(u32 w);
  T bytesConst(const u8 *p, u32 n);
  T var(const std::string &name, u32 w);
  T tru() { return konst(1, 1); }
  T fls() { return konst(0, 1); }

  void pieces(T t, std::vector<Piece> &out) const;
  static Piece pc(u64 v, u32 len) { Piece p; p.leaf = 0; p.len = len; p.neg = false; p.v = v & maskw(len); return p; }
  T cat(const std::vector<Piece> &ps);
  T concat(T lo, T hi);
  T slice(T t, u32 lo, u32 len);
  void slicePieces(T t, u32 lo, u32 len, std::vector<Piece> &out) const;
  T pieceTerm(const Piece &p);
  T zext(T t, u32 w);
  T sext(T t, u32 w);
  T trunc(T t, u32 w) { return slice(t, 0, w); }
  T bnot(T t);
  T band(T a, T b);
  T bor(T a, T b) { return bnot(band(bnot(a), bnot(b))); }
  T bxor(T a, T b);
  T add(T a, T b);
  T sub(T a, T b);
  T neg(T a) { return linScale(a, ~0ull); }
  T mul(T a, T b);
  T linScale(T a, u64 c);
  T udiv(T a, T b);
  T urem(T a, T b);
  T opaque2(Op o, T a, T b);
  T shl(T a, T b);
  T lshr(T a, T b);
  T ashr(T a, T b);
  T eq(T a, T b);
  T ult(T a, T b);
  T slt(T a, T b);
  T ite(T c, T a, T b);
  T app(const std::string &fn, u32 outw, const std::vector<T> &parts);
  int fnId(const std::string &s);
  std::vector<std::string> fnNames;

  bool topZero(T t) const;  // most significant bit known zero
  T andAtom(T a, T b);
  T xorAtom(T a, T b);

  struct Lin { u64 k = 0; std::vector<std::pair<T, u64>> e; };
  void linAcc(Lin &L, T t, u64 c, u32 w, bool expand);
  T linMake(Lin &L, u32 w);
  bool linLook(T t, T &base, int &sgn, i128 &k);  // exact single-entry LIN with coefficient +-1
  bool disjointCat(T a, T b, T &out);

  // simulation
  u64 simVarWord(T v, int s, u32 word) const { return mix64(simSeed * 0x9e3779b97f4a7c15ull + mix64(v * 1315423911ull + s * 2654435761ull + 17) + word * 0xd6e8feb86659fd93ull); }
  u64 simSlice(T leaf, u32 lo, u32 len, int s) const;
  void computeSig(T t);
  T sweep(T t);

  // term inspection helpers
  void kids(T t, std::vector<T> &out) const;   // all sub-terms referenced
  std::string str(T t, int depth = 3) const;
};
