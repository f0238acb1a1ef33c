#pragma once
#include "ir.hpp"
#include "solver.hpp"
#include "../harness/mockhash.h"
#include <functional>
#include <memory>

enum CK : u8 { C_CONST, C_TERM, C_PTR, C_UNINIT, C_HND };
struct Cell {
  u32 t = 0; u16 idx = 0; u8 k = C_UNINIT; u8 v = 0;
  bool operator==(const Cell &o) const { return k == o.k && (k == C_CONST ? v == o.v : k == C_UNINIT ? true : (t == o.t && idx == o.idx)); }
};
enum OF : u8 { OF_RO = 1, OF_GLOBAL = 2, OF_STACK = 4, OF_BLOB = 8, OF_HEAP = 16, OF_CONSTG = 32, OF_STOP = 64 };
struct Obj {
  int rc = 0; u32 size = 0; u8 flags = 0; u32 meta = 0; T blobLen = 0;
  std::vector<Cell> c;
};
struct ObjP {
  Obj *p = nullptr;
  ObjP() {}
  ObjP(Obj *q) : p(q) { if (p) p->rc++; }
  ObjP(const ObjP &o) : p(o.p) { if (p) p->rc++; }
  ObjP(ObjP &&o) : p(o.p) { o.p = nullptr; }
  ObjP &operator=(const ObjP &o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
  ObjP &operator=(ObjP &&o) { if (this != &o) { drop(); p = o.p; o.p = nullptr; } return *this; }
  ~ObjP() { drop(); }
  void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
};
struct Frame {
  Func *f = nullptr; int blk = 0, prev = -1, ip = 0, ret = -1;
  std::vector<Val> r;
  std::vector<u32> allocas; u64 autos = 0;   // bytes of automatic objects
};
struct State {
  std::vector<Frame> st;
  std::vector<ObjP> objs;
  std::vector<u32> gen;
  std::vector<u32> freeSlots;
  u32 pc = 0;
  u64 budget = ~0ull, autoNow = 0, autoPeak = 0, autoLimit = 0 /* bytes of automatic storage the library may use; 0: any */, hashes = 0, hashed = 0;
};
struct PcNode { T lit; u32 parent; u32 depth; };
struct Tree { State *s = nullptr; T c = 0; Tree *l = nullptr, *r = nullptr; };

struct Violation {
  std::string kind, label, where, detail;
  Model model;
  bool haveModel = false;
};
struct OutRec { std::string name; T t; std::vector<T> lits; };

struct Exec {
  Program &P; TermStore ts; Solver sv;
  std::map<std::string, u64> params;
  bool summary = true, merging = true;
  u64 maxInstr = ~0ull, maxForks = ~0ull;
  u32 solverTimeout = 20000;
  u64 maxAuto = 0;
  double deadline = 0; u64 memLimit = 0, repeats = 0, maxRepeats = 0;
  void limits();   // memory, repeated failures

  std::vector<PcNode> pcs;
  std::vector<Val> ptrTab;
  std::map<std::tuple<u8, u32, int64_t, u32, u32, u32>, u32> ptrIdx;
  struct Choice { T c; Val x, y; int leaves; };
  std::vector<Choice> choTab;
  std::map<std::tuple<T, u32, u32>, u32> choIdx;
  bool mkChoice(T c, const Val &x, const Val &y, Val &out);
  Val pick(u32 pc, Val v);                       // follow the choices the path condition has made
  template <class F> bool choGep(const Val &p, F f, Val &out) {
    if (p.k != K_CHO) { out = p; return f(out); }
    Choice ch = choTab[p.a]; Val x, y;
    return choGep(ch.x, f, x) && choGep(ch.y, f, y) && mkChoice(ch.c, x, y, out);
  }
  bool readable(State &s, const Val &p, u64 n);
  bool writable(State &s, const Val &p, u64 n);
  T readAny(State &s, const Val &p, u64 n);
  void writeAny(State &s, const Val &p, u64 n, T t, T guard);
  std::vector<std::string> metas;
  u64 undefCounter = 0;
  // statistics
  u64 instrs = 0, forks = 0, merges = 0, mergeFails = 0, paths = 0, killed = 0, truncated = 0, infeasible = 0;
  u64 asserts = 0, assertsSyntactic = 0, assertsSolver = 0, hashCalls = 0, caseSplits = 0, congruence = 0;
  std::map<std::string, u64> cover, assertLabels;
  std::set<std::string> fnsRun;
  std::vector<Violation> viols;
  std::set<std::string> violKeys;
  std::vector<std::string> inconclusive;
  std::vector<OutRec> outs;
  std::map<std::string, u32> symNames;   // name -> bytes
  std::map<std::string, T> blobs;        // name -> length term
  std::vector<std::vector<T>> finalPcs;
  std::set<std::string> notes;

  Exec(Program &p);
  void initGlobals(State &s);
  void runHarness(const std::string &fn);
  enum Ev { E_STOP, E_FORK, E_DEAD };
  T forkCond = 0;
  int stopFn = -1; bool atStop = false;
  Ev run(State *s, int D, int B);
  Tree *exec(State *s, int D, int B, int rec);
  Tree *mergeTree(Tree *t);
  State *tryMerge(State *a, State *b, T c);
  bool mergeVal(Val &a, const Val &b, T c);
  bool mergeObj(State &s, u32 slot, const Obj &b, T c);
  State *clone(State *s);
  void advance(Tree *&t, int D, int B, int rec);
  u32 pcAdd(u32 pc, T lit);
  void pcLits(u32 pc, std::vector<T> &out);
  int decide(u32 pc, T c);     // 1 true, 0 false, -1 both possible
  bool feasible(u32 pc);
  std::vector<T> relevant(u32 pc, const std::vector<T> &sc);
  std::map<std::pair<u32, T>, int> decCache;
  std::unordered_map<u32, int> feasCache;
  void condInfo(T c, bool &pol, T &base, int &kind, u64 &k);
  const std::vector<T> &supp(T t);
  std::unordered_map<T, std::vector<T>> suppMemo;
  bool concretize(State &s, T x, u64 &v);

  // values and memory
  T term(const Val &v);
  Val fromTerm(T t);
  u32 newObj(State &s, u32 size, u8 flags, const std::string &meta);
  Obj *wr(State &s, u32 slot);
  bool access(State &s, const Val &p, u64 n, bool write, const char *what);
  Val load(State &s, const Val &p, u32 n, u8 w, bool isPtr, bool &dead);
  bool store(State &s, const Val &p, const Val &v, u32 n);
  T gather(State &s, Obj &o, u32 off, u32 n, u32 slot);
  void scatter(Obj &o, u32 off, u32 n, T t);
  u32 ptrId(const Val &v);
  bool copyMem(State &s, const Val &d, const Val &p, u64 n);
  void ret(State &s, const Val *v);
  void enter(State &s, int blk);
  std::string where(State &s);

  // calls
  int call(State &s, Ins &I, Func &callee, const std::vector<Val> &args);  // 0 continue, 1 fork, 2 dead
  int intrinsic(State &s, const std::string &name, const std::vector<Val> &args, Val &rv);
  int hashPrim(State &s, int id, const std::vector<Val> &a, Val &rv);
  std::string cstr(State &s, const Val &p);

  // hashing
  struct H { int fn, phase; u64 pos; std::vector<T> parts; };
  bool getH(State &s, const Val &p, u32 sz, H &h);
  bool putH(State &s, const Val &p, u32 sz, const H &h);
  bool killH(State &s, const Val &p, u32 sz);
  T mkApp(State &s, const std::string &fn, u32 w, const std::vector<T> &parts);
  std::vector<T> normParts(const std::vector<T> &parts);

  // proving
  struct Fail { u32 pc = 0; Model m; bool have = false; bool unknown = false; std::string why; T a = 0, b = 0; };
  u64 proveSteps = 0, proveLimit = 20000000;
  std::set<std::tuple<T, T, u32>> proved;
  bool proveEq(T a, T b, u32 pc, Fail &f);
  bool proveTrue(T c, u32 pc, Fail &f);
  T resolve(T t, u32 pc, int depth = 0);
  bool proveAtom(const Piece &p, const Piece &q, u32 pc, Fail &f);
  bool proveParts(T a, T b, u32 pc, Fail &f);
  void report(State &s, const std::string &kind, const std::string &label, u32 pc, Model *m, const std::string &detail);
  int contradiction(u32 pc, Model &m);           // 1 the path is infeasible, 0 a model, -1 unknown
  T functional(T a, T b);
  bool plain(const std::vector<T> &lits, Model &m);
  int contraDepth = 0;
  bool solveRounds(std::vector<T> lits, u32 pc, Fail &f);
  bool modelOf(u32 pc, const std::vector<T> &extra, Model &m, bool &unk);

  // concrete evaluation
  struct Env {
    const Model *m = nullptr; u64 seed = 1;
    std::unordered_map<T, Bits> memo;
    std::map<std::pair<u64, u64>, std::pair<Bits, u32>> over;  // override by key
    std::map<std::string, u64> blobLen;
  };
  u64 replaySeed = 101;
  std::unique_ptr<Env> refEnv; Model refModel; u32 refPc = 0; bool refOk = false;
  bool refute(T c, u32 pc, Fail &f);
  bool valueFork = false;
  T valueCond(u32 pc, T c);
  // secrecy: which leaves are secret, which derived values are public
  bool ctOn = false;
  std::unordered_map<T, std::vector<std::pair<u32, u32>>> secR, pubR;
  std::unordered_map<T, bool> taintMemo;
  u64 ctChecks = 0;
  bool taint(T t);
  bool taintRange(T leaf, u32 lo, u32 len);
  void leakCheck(State &s, T t, const char *what);
  bool sweepApps = true; u64 sweepTried = 0, sweepOk = 0;
  enum { NSIM = 8 }; Env simEnv[NSIM];
  std::map<std::array<u64, 2 * NSIM>, std::vector<T>> appSig;
  std::map<std::pair<T, u32>, T> appRep;
  Bits evalVar(T v, Env &e);
  const Bits &eval(T t, Env &e);
  bool hashKey(T app, Env &e, u64 key[2], unsigned &fn);
  void buildOverrides(Env &e);
  void writeReplay(const std::string &path, Env &e, const std::string &label, const std::string &kind);
};
