// Proving equalities (piecewise, case splits on ITE conditions, congruence on
// hash applications, z3 for the rest), counterexamples, concrete evaluation.
#include "exec.hpp"
#include <fstream>
extern void setupIntrinsics(Exec &E);

bool Exec::modelOf(u32 pc, const std::vector<T> &extra, Model &m, bool &unk) {
  std::vector<T> l; pcLits(pc, l);
  l.insert(l.end(), extra.begin(), extra.end());
  unk = false;
  if (!blobs.empty()) {
    std::vector<T> l2 = l;
    for (auto &b : blobs) l2.push_back(ts.ult(b.second, ts.konst(3000, 64)));
    Model mm;
    if (sv.check(l2, solverTimeout, &mm) == Solver::SAT) { for (auto &e : mm) m[e.first] = e.second; return true; }
  }
  Model mm;
  Solver::R r = sv.check(l, solverTimeout, &mm);
  if (r == Solver::SAT) { for (auto &e : mm) m[e.first] = e.second; return true; }
  if (r == Solver::UNK) unk = true;
  return false;
}
void Exec::limits() {
  if (maxRepeats && repeats > maxRepeats) throw Unsupported("stopped after many failures of the same kind");
  if (!memLimit) return;
  FILE *f = fopen("/proc/self/statm", "r"); unsigned long long a = 0, b = 0;
  if (f) { if (fscanf(f, "%llu %llu", &a, &b) != 2) b = 0; fclose(f); }
  if (b * 4096 > memLimit) throw Unsupported("memory limit");
}
void Exec::report(State &s, const std::string &kind, const std::string &label, u32 pc, Model *m, const std::string &detail) {
  std::string w = s.st.empty() ? std::string() : where(s);
  std::string key = kind + "|" + label + "|" + (s.st.empty() ? std::string() : s.st.back().f->name + ":" + std::to_string(s.st.back().blk));
  if (violKeys.count(key) || viols.size() >= 40) { if (kind == "assert") repeats++; return; }
  Violation v; v.kind = kind; v.label = label; v.where = w; v.detail = detail;
  if (m) { v.model = *m; v.haveModel = true; }
  else {
    bool unk;
    if (!modelOf(pc, {}, v.model, unk)) {
      if (unk) { inconclusive.push_back(kind + " '" + label + "': path feasibility unknown"); return; }
      infeasible++; return;
    }
    v.haveModel = true;
  }
  violKeys.insert(key);
  viols.push_back(v);
}
// rewrite a term by deciding ITE conditions under the path condition (top level only)
T Exec::resolve(T t, u32 pc, int depth) {
  (void)depth;
  while (ts.op(t) == O_ITE) {
    int d = decide(pc, (T)ts.D(t)[0]);
    if (d < 0) return t;
    t = (T)ts.D(t)[d ? 1 : 2];
  }
  return t;
}
template <class F> static void zip(const std::vector<Piece> &A, const std::vector<Piece> &B, F fn) {
  size_t i = 0, j = 0; u32 oi = 0, oj = 0;
  while (i < A.size() && j < B.size()) {
    u32 l = std::min(A[i].len - oi, B[j].len - oj);
    Piece p = A[i], q = B[j];
    p.len = q.len = l;
    if (p.leaf) p.v += oi; else p.v = (A[i].v >> oi) & maskw(l);
    if (q.leaf) q.v += oj; else q.v = (B[j].v >> oj) & maskw(l);
    if (!fn(p, q)) return;
    oi += l; oj += l;
    if (oi == A[i].len) { i++; oi = 0; }
    if (oj == B[j].len) { j++; oj = 0; }
  }
}
// A model of the path, or that there is none, with the hash applications in it taken as the
// functions they are: equal inputs have equal outputs.
int Exec::contradiction(u32 pc, Model &m) {
  bool u;
  if (contraDepth > 1 || !pc) { if (modelOf(pc, {}, m, u)) return 0; return u ? -1 : 1; }
  if (!modelOf(pc, {}, m, u)) return u ? -1 : 1;
  std::vector<T> lits; pcLits(pc, lits);
  Env en; en.m = &m; en.seed = replaySeed;
  buildOverrides(en);
  bool spurious = false;
  try { for (T l : lits) if (!(eval(l, en)[0] & 1)) { spurious = true; break; } } catch (Unsupported &) {}
  if (!spurious) return 0;
  contraDepth++;
  Fail g; bool inf = solveRounds(lits, pc, g);
  contraDepth--;
  if (inf) return 1;
  if (g.unknown) return -1;
  m = g.m; return 0;
}
bool Exec::proveEq(T a, T b, u32 pc, Fail &f) {
  if (a == b) return true;
  if (++proveSteps > proveLimit) { f.unknown = true; f.why = "proof step limit"; return false; }
  if (ts.W(a) != ts.W(b)) { f.pc = pc; f.a = a; f.b = b; f.why = "lengths differ"; bool u; f.have = modelOf(pc, {}, f.m, u); f.unknown = !f.have; return false; }
  auto key = std::make_tuple(a, b, pc);
  if (proved.count(key)) return true;
  if (pc && proved.count(std::make_tuple(a, b, 0u))) return true;
  std::vector<Piece> A, B;
  ts.pieces(a, A); ts.pieces(b, B);
  bool ok = true;
  zip(A, B, [&](const Piece &p, const Piece &q) -> bool {
    if (p.leaf == q.leaf && p.v == q.v && p.neg == q.neg) return true;
    if (!p.leaf && !q.leaf) {
      f.pc = pc; f.a = a; f.b = b; f.why = "constant bytes differ";
      int r = contradiction(pc, f.m); f.have = r == 0; f.unknown = r < 0;
      if (r == 1) { f.why = "infeasible"; return true; }   // vacuous path
      return ok = false;
    }
    if (!proveAtom(p, q, pc, f)) return ok = false;
    return true;
  });
  if (ok) proved.insert(key);
  return ok;
}
bool Exec::proveAtom(const Piece &p, const Piece &q, u32 pc, Fail &f) {
  for (int side = 0; side < 2; side++) {
    const Piece &x = side ? q : p;
    const Piece &y = side ? p : q;
    if (!x.leaf || ts.op(x.leaf) != O_ITE) continue;
    const u64 *d0 = ts.D(x.leaf);
    T c = (T)d0[0], t1 = (T)d0[1], t2 = (T)d0[2];
    auto sub = [&](T br) { T r = ts.slice(br, (u32)x.v, x.len); return x.neg ? ts.bnot(r) : r; };
    T other = ts.pieceTerm(y);
    auto eqv = [&](T br, u32 pc2) { T r = sub(br); return side ? proveEq(other, r, pc2, f) : proveEq(r, other, pc2, f); };
    int d = decide(pc, c);
    if (d == 1) return eqv(t1, pc);
    if (d == 0) return eqv(t2, pc);
    // both sides the same condition?
    caseSplits++;
    if (y.leaf && ts.op(y.leaf) == O_ITE && (T)ts.D(y.leaf)[0] == c) {
      const u64 *e0 = ts.D(y.leaf);
      T u1 = (T)e0[1], u2 = (T)e0[2];
      auto suby = [&](T br) { T r = ts.slice(br, (u32)y.v, y.len); return y.neg ? ts.bnot(r) : r; };
      u32 p1 = pcAdd(pc, c), p2 = pcAdd(pc, ts.bnot(c));
      T l1 = sub(t1), r1 = suby(u1), l2 = sub(t2), r2 = suby(u2);
      if (side) { std::swap(l1, r1); std::swap(l2, r2); }
      if (l1 != r1 && feasible(p1) && !proveEq(l1, r1, p1, f)) return false;
      if (l2 != r2 && feasible(p2) && !proveEq(l2, r2, p2, f)) return false;
      return true;
    }
    u32 p1 = pcAdd(pc, c), p2 = pcAdd(pc, ts.bnot(c));
    if (feasible(p1) && !eqv(t1, p1)) return false;
    if (feasible(p2) && !eqv(t2, p2)) return false;
    return true;
  }
  if (p.leaf && q.leaf && ts.op(p.leaf) == O_APP && ts.op(q.leaf) == O_APP && p.v == q.v && p.neg == q.neg && ts.D(p.leaf)[0] == ts.D(q.leaf)[0])
    return proveParts(p.leaf, q.leaf, pc, f);
  if ((p.leaf && q.leaf && ts.op(p.leaf) == O_APP && ts.op(q.leaf) == O_APP) && p.len >= 32) {
    f.pc = pc; f.a = p.leaf; f.b = q.leaf; f.why = "different hash values";
    int r = contradiction(pc, f.m); f.have = r == 0; f.unknown = r < 0;
    return r == 1;
  }
  T a = ts.pieceTerm(p), b = ts.pieceTerm(q);
  T ne = ts.bnot(ts.eq(a, b));
  u64 v;
  if (ts.isConst(ne, v) && !v) return true;
  return proveTrue(ts.bnot(ne), pc, f);
}
bool Exec::proveParts(T a, T b, u32 pc, Fail &f) {
  if (a == b) return true;
  auto key = std::make_tuple(a, b, pc);
  if (proved.count(key)) return true;
  congruence++;
  auto shape = [&](const char *why) {
    f.pc = pc; f.a = a; f.b = b; f.why = why;
    int r = contradiction(pc, f.m); f.have = r == 0; f.unknown = r < 0;
    return r == 1;
  };
  u32 n = ts.N(a).n;
  if (n != ts.N(b).n || ts.D(a)[0] != ts.D(b)[0]) return shape("hash inputs have different shapes");
  for (u32 i = 1; i < n; i++) {
    T x = (T)ts.D(a)[i], y = (T)ts.D(b)[i];
    if (x == y) continue;
    Op ox = ts.op(x), oy = ts.op(y);
    if (ox == O_SEG || oy == O_SEG) {
      if (ox != oy || ts.D(x)[0] != ts.D(y)[0]) return shape("hash inputs have different shapes");
      if (!proveEq((T)ts.D(x)[1], (T)ts.D(y)[1], pc, f) || !proveEq((T)ts.D(x)[2], (T)ts.D(y)[2], pc, f)) return false;
      continue;
    }
    if (ox == O_HST || oy == O_HST) {
      if (ox != oy || ts.D(x)[0] != ts.D(y)[0]) return shape("hash inputs have different shapes");
      if (ts.D(x)[0] & 0x100) { if (!proveEq((T)ts.D(x)[1], (T)ts.D(y)[1], pc, f)) return false; }
      else if (!proveParts(x, y, pc, f)) return false;
      continue;
    }
    if (ts.W(x) != ts.W(y)) return shape("hash input lengths differ");
    if (!proveEq(x, y, pc, f)) { if (f.why.size() < 60) f.why += " (inside a hash input)"; return false; }
  }
  proved.insert(key);
  return true;
}
// A large condition that some assignment already at hand falsifies (one that satisfies
// the path condition, completed arbitrarily) needs no search for a counterexample.
bool Exec::refute(T c, u32 pc, Fail &f) {
  {
    std::unordered_set<T> seen; std::vector<T> st{c}, ks;
    while (!st.empty() && seen.size() < 400) {
      T t = st.back(); st.pop_back();
      if (!seen.insert(t).second) continue;
      Op o = ts.op(t); if (o == O_VAR || o == O_APP || o == O_CONST) continue;
      ks.clear(); ts.kids(t, ks); for (T k : ks) st.push_back(k);
    }
    if (seen.size() < 400) return false;
  }
  if (!refEnv || refPc != pc || refEnv->memo.size() > 3000000) {
    refEnv.reset(new Env); refModel.clear(); refPc = pc; refOk = true;
    if (pc) { bool u; refOk = modelOf(pc, {}, refModel, u); }
    refEnv->m = &refModel; refEnv->seed = replaySeed;
    try { buildOverrides(*refEnv); std::vector<T> l; pcLits(pc, l); for (T x : l) if (!(eval(x, *refEnv)[0] & 1)) refOk = false; } catch (Unsupported &) { refOk = false; }
  }
  if (!refOk) return false;
  try { if (eval(c, *refEnv)[0] & 1) return false; } catch (Unsupported &) { return false; }
  f.pc = pc; f.m = refModel; f.have = true; f.a = f.b = c; if (f.why.empty()) f.why = "counterexample";
  return true;
}
bool Exec::proveTrue(T c, u32 pc, Fail &f) {
  u64 v;
  if (ts.isConst(c, v)) {
    if (v) return true;
    bool u; f.pc = pc; f.why = "always false"; f.a = f.b = c; f.have = modelOf(pc, {}, f.m, u); f.unknown = !f.have;
    if (f.unknown && !u) { f.unknown = false; return true; }
    return false;
  }
  if (++proveSteps > proveLimit) { f.unknown = true; f.why = "proof step limit"; return false; }
  if (ts.op(c) == O_AND) {
    std::vector<T> ks; ts.kids(c, ks);
    for (T k : ks) if (!proveTrue(k, pc, f)) return false;
    return true;
  }
  if (ts.op(c) == O_ITE) {
    int d = decide(pc, (T)ts.D(c)[0]);
    if (d >= 0) return proveTrue((T)ts.D(c)[d ? 1 : 2], pc, f);
  }
  if (ts.op(c) == O_EQ) {
    T x = (T)ts.D(c)[0], y = (T)ts.D(c)[1];
    if (ts.op(x) == O_ITE || ts.op(y) == O_ITE) {
      T x2 = resolve(x, pc), y2 = resolve(y, pc);
      if (x2 != x || y2 != y) return proveTrue(ts.eq(x2, y2), pc, f);
    }
  }
  if (refute(c, pc, f)) return false;
  {
    std::vector<T> rel = relevant(pc, std::vector<T>(supp(c)));
    rel.push_back(ts.bnot(c));
    if (sv.checkShape(rel, solverTimeout) == Solver::UNSAT) return true;
  }
  std::vector<T> lits; pcLits(pc, lits);
  lits.push_back(ts.bnot(c));
  bool r = solveRounds(lits, pc, f);
  if (f.have) f.a = f.b = c;
  return r;
}
// equal inputs give equal outputs, for two applications of the same shape (0: cannot be said)
T Exec::functional(T a, T b) {
  u32 n = ts.N(a).n;
  if (n != ts.N(b).n || ts.D(a)[0] != ts.D(b)[0] || ts.W(a) != ts.W(b)) return 0;
  T in = ts.tru(), out = ts.tru();
  for (u32 i = 1; i < n; i++) {
    T x = (T)ts.D(a)[i], y = (T)ts.D(b)[i];
    if (x == y) continue;
    Op ox = ts.op(x), oy = ts.op(y);
    if (ox == O_HST || oy == O_HST) return 0;
    if (ox == O_SEG || oy == O_SEG) {
      if (ox != oy || ts.D(x)[0] != ts.D(y)[0]) return 0;
      in = ts.band(in, ts.band(ts.eq((T)ts.D(x)[1], (T)ts.D(y)[1]), ts.eq((T)ts.D(x)[2], (T)ts.D(y)[2])));
      continue;
    }
    if (ts.W(x) != ts.W(y)) return 0;
    in = ts.band(in, ts.eq(x, y));
  }
  for (u32 lo = 0; lo < ts.W(a); lo += 64) { u32 l = std::min(64u, ts.W(a) - lo); out = ts.band(out, ts.eq(ts.slice(a, lo, l), ts.slice(b, lo, l))); }
  return ts.bor(ts.bnot(in), out);
}
// An assignment that needs no chosen hash value at all is preferred: message lengths on both
// sides of the usual integer widths, everything else arbitrary.
bool Exec::plain(const std::vector<T> &lits, Model &m) {
  for (u64 base : {0ull, 65536ull, 0x10000ull * 3}) {
    Model c;
    if (base) for (auto &b : blobs) { T v = b.second; if (ts.op(v) == O_VAR) c[v] = Bits{base + 5 + c.size() * 64}; }
    if (base && c.empty()) return false;
    Env en; en.m = &c; en.seed = replaySeed;
    bool ok = true;
    try { for (T l : lits) if (!(eval(l, en)[0] & 1)) { ok = false; break; } } catch (Unsupported &) { ok = false; }
    if (ok) { m = c; return true; }
  }
  return false;
}
// true when the conditions cannot hold together
bool Exec::solveRounds(std::vector<T> lits, u32 pc, Fail &f) {
  Model m;
  bool spurious = false;
  for (int round = 0; round < 10; round++) {
    m.clear();
    Solver::R r = sv.check(lits, solverTimeout, &m);
    if (r == Solver::UNSAT) return true;
    if (round == 0 && plain(lits, m)) { spurious = false; break; }
    if (r == Solver::UNK) { f.unknown = true; f.why = "solver gave no answer"; return false; }
    // hash applications are opaque to the solver: unify those with provably equal inputs
    std::vector<T> apps;
    for (auto &e : m) if (ts.op(e.first) == O_APP) apps.push_back(e.first);
    bool added = false;
    if (round < 2 && apps.size() < 60)
      for (size_t i = 0; i < apps.size(); i++)
        for (size_t j = i + 1; j < apps.size(); j++) {
          if (ts.D(apps[i])[0] != ts.D(apps[j])[0] || ts.N(apps[i]).n != ts.N(apps[j]).n || m[apps[i]] == m[apps[j]]) continue;
          Fail g;
          if (proveParts(apps[i], apps[j], pc, g)) {
            for (u32 lo = 0; lo < ts.W(apps[i]); lo += 64) { u32 l = std::min(64u, ts.W(apps[i]) - lo); lits.insert(lits.end() - 1, ts.eq(ts.slice(apps[i], lo, l), ts.slice(apps[j], lo, l))); }
            added = true;
          }
        }
    if (added) continue;
    Env en; en.m = &m; en.seed = replaySeed;
    buildOverrides(en);
    spurious = false;
    try { for (T l : lits) if (!(eval(l, en)[0] & 1)) { spurious = true; break; } } catch (Unsupported &) {}
    if (!spurious) break;
    // applications whose inputs the model makes equal must have equal outputs: add that instance
    std::map<std::pair<u64, u64>, std::vector<T>> byKey;
    for (T a : apps) { u64 key[2]; unsigned fn; try { hashKey(a, en, key, fn); } catch (Unsupported &) { continue; } byKey[{key[0] ^ fn, key[1]}].push_back(a); }
    for (auto &g : byKey)
      for (size_t i = 1; i < g.second.size(); i++) {
        T a = g.second[0], b = g.second[i];
        T l = m[a] == m[b] ? 0 : functional(a, b);
        if (l && std::find(lits.begin(), lits.end(), l) == lits.end()) { lits.insert(lits.end() - 1, l); added = true; }
      }
    if (!added) break;
  }
  if (spurious) { f.unknown = true; f.why = "counterexample only of the abstraction"; return false; }
  f.pc = pc; f.m = m; f.have = true; f.why = f.why.empty() ? "counterexample" : f.why;
  return false;
}
// ---------------------------------------------------------------- concrete evaluation
Bits Exec::evalVar(T v, Env &e) {
  u32 w = ts.W(v);
  if (e.m) { auto it = e.m->find(v); if (it != e.m->end()) { Bits b = it->second; bitsResize(b, w); return b; } }
  const std::string &nm = ts.varNames[ts.D(v)[0]];
  u64 h = mh_name(nm.c_str(), e.seed);
  Bits b((w + 63) / 64, 0);
  if (nm.size() > 4 && nm.compare(nm.size() - 4, 4, ".len") == 0 && w == 64) { b[0] = mh_mix(h) % 300; return b; }
  for (u32 i = 0; 8 * i < w; i++) b[i / 8] |= (u64)mh_defbyte(h, i) << (8 * (i % 8));
  bitsResize(b, w);
  return b;
}
static void feedBits(mh_t &m, const Bits &b, u32 w) {
  u8 tmp[4096]; u32 n = w / 8;
  for (u32 i = 0; i < n;) {
    u32 l = std::min(4096u, n - i);
    for (u32 j = 0; j < l; j++) tmp[j] = (u8)(b[(i + j) / 8] >> (8 * ((i + j) % 8)));
    mh_update(&m, tmp, l); i += l;
  }
}
static void feed(Exec &E, mh_t &m, T p, Exec::Env &e, unsigned fn, bool first);
static void feedParts(Exec &E, mh_t &m, const u64 *d, u32 from, u32 n, Exec::Env &e, unsigned fn) {
  std::vector<u64> c(d + from, d + n);
  for (size_t i = 0; i < c.size(); i++) feed(E, m, (T)c[i], e, fn, i == 0);
}
static void feed(Exec &E, mh_t &m, T p, Exec::Env &e, unsigned fn, bool first) {
  TermStore &ts = E.ts;
  if (ts.op(p) == O_SEG) {
    std::string nm = E.metas[ts.D(p)[0]].substr(5);
    T ot = (T)ts.D(p)[1], lt = (T)ts.D(p)[2];
    u64 off = E.eval(ot, e)[0], len = E.eval(lt, e)[0];
    u64 h = mh_name(nm.c_str(), e.seed);
    if (len > (1ull << 34)) throw Unsupported("message too long to evaluate");
    u8 tmp[4096];
    for (u64 i = 0; i < len;) { u64 l = std::min<u64>(4096, len - i); for (u64 j = 0; j < l; j++) tmp[j] = mh_blobbyte(h, off + i + j); mh_update(&m, tmp, l); i += l; }
    return;
  }
  if (ts.op(p) == O_HST) {
    Bits b = E.eval(p, e);
    if (!first) throw Unsupported("state in the middle of a hash input");
    m.a = b[0]; m.b = b[1]; m.len = fn == MH_SHA256 ? 64 : 128;
    return;
  }
  feedBits(m, E.eval(p, e), ts.W(p));
}
static unsigned fnOf(const std::string &s) { return s == "SHA256" ? MH_SHA256 : s == "SHA512" ? MH_SHA512 : MH_SHAKE256; }
bool Exec::hashKey(T app, Env &e, u64 key[2], unsigned &fn) {
  fn = fnOf(ts.fnNames[ts.D(app)[0]]);
  mh_t m; mh_init(&m, fn);
  feedParts(*this, m, ts.D(app), 1, ts.N(app).n, e, fn);
  mh_key(&m, key);
  return true;
}
const Bits &Exec::eval(T t, Env &e) {
  auto it = e.memo.find(t);
  if (it != e.memo.end()) return it->second;
  u32 w = ts.W(t), nn = ts.N(t).n;
  Op o = ts.op(t);
  std::vector<u64> d(ts.D(t), ts.D(t) + nn);
  Bits r((w + 63) / 64, 0);
  auto K = [&](int i) -> const Bits & { return eval((T)d[i], e); };
  switch (o) {
  case O_CONST: r[0] = d[0]; break;
  case O_VAR: r = evalVar(t, e); break;
  case O_APP: {
    u64 key[2]; unsigned fn;
    hashKey(t, e, key, fn);
    auto ov = e.over.find({key[0], key[1]});
    if (ov != e.over.end()) { r = ov->second.first; bitsResize(r, w); break; }
    for (u32 i = 0; 8 * i < w; i++) r[i / 8] |= (u64)mh_out(key, i) << (8 * (i % 8));
    break;
  }
  case O_CAT: {
    u32 pos = 0;
    for (u32 i = 0; i < nn; i += 2) {
      u32 lf = (u32)d[i], ln = (d[i] >> 32) & 0x7fffffff;
      Bits b;
      if (!lf) { b = Bits{d[i + 1]}; b.resize((ln + 63) / 64, 0); }
      else {
        b = bitsSlice(eval(lf, e), (u32)d[i + 1], ln);
        if (d[i] >> 63) { for (auto &x : b) x = ~x; bitsResize(b, ln); }
      }
      r.resize((w + 63) / 64 + 1, 0);
      bitsPut(r, pos, b, ln);
      pos += ln;
    }
    bitsResize(r, w);
    break;
  }
  case O_LIN: {
    u64 s = d[0];
    for (u32 i = 1; i < nn; i += 2) s += d[i + 1] * K(i)[0];
    r[0] = s; bitsResize(r, w); break;
  }
  case O_AND: r = K(0); for (u32 i = 1; i < nn; i++) { const Bits &b = K(i); for (size_t j = 0; j < r.size(); j++) r[j] &= b[j]; } break;
  case O_XOR: r = K(0); for (u32 i = 1; i < nn; i++) { const Bits &b = K(i); for (size_t j = 0; j < r.size(); j++) r[j] ^= b[j]; } break;
  case O_ITE: { bool c = K(0)[0] & 1; r = K(c ? 1 : 2); break; }
  case O_EQ: { Bits a = K(0); r[0] = a == K(1); break; }
  case O_ULT: { Bits a = K(0); const Bits &b = K(1); bool lt = false; for (int i = (int)a.size() - 1; i >= 0; i--) if (a[i] != b[i]) { lt = a[i] < b[i]; break; } r[0] = lt; break; }
  case O_HST: {
    if (d[0] & 0x100) { r = K(1); break; }
    unsigned fn = (unsigned)d[0];
    mh_t m; mh_init(&m, fn);
    feedParts(*this, m, d.data(), 1, nn, e, fn);
    r[0] = m.a; r[1] = m.b; break;
  }
  default: {
    if (w > 64) throw Unsupported("wide arithmetic in evaluation");
    u64 x = K(0)[0], y = K(1)[0];
    auto sg = [&](u64 v) { return (int64_t)(v << (64 - w)) >> (64 - w); };
    switch (o) {
    case O_MUL: r[0] = x * y; break;
    case O_UDIV: r[0] = y ? x / y : ~0ull; break;
    case O_UREM: r[0] = y ? x % y : x; break;
    case O_SDIV: r[0] = y ? (u64)((i128)sg(x) / sg(y)) : ~0ull; break;
    case O_SREM: r[0] = y ? (u64)((i128)sg(x) % sg(y)) : x; break;
    case O_SHL: r[0] = y < w ? x << y : 0; break;
    case O_LSHR: r[0] = y < w ? x >> y : 0; break;
    case O_ASHR: r[0] = y < w ? (u64)(sg(x) >> y) : (u64)(sg(x) >> (w - 1)); break;
    default: throw Unsupported(std::string("evaluation of ") + opName[o]);
    }
    bitsResize(r, w);
  }
  }
  return e.memo[t] = r;
}
void Exec::buildOverrides(Env &e) {
  if (!e.m) return;
  for (auto &x : *e.m) {
    if (ts.op(x.first) != O_APP) continue;
    u64 key[2]; unsigned fn;
    try { hashKey(x.first, e, key, fn); } catch (Unsupported &) { continue; }
    auto k = std::make_pair(key[0], key[1]);
    if (!e.over.count(k)) e.over[k] = {x.second, ts.W(x.first)};
  }
}
static std::string hexBits(const Bits &b, u32 bytes) {
  std::string s; char t[3];
  for (u32 i = 0; i < bytes; i++) { snprintf(t, 3, "%02x", (unsigned)(u8)(b[i / 8] >> (8 * (i % 8)))); s += t; }
  return s;
}
void Exec::writeReplay(const std::string &path, Env &e, const std::string &label, const std::string &kind) {
  std::ofstream o(path);
  o << "label " << label << "\nkind " << kind << "\nseed " << e.seed << "\n";
  for (auto &p : params) o << "param " << p.first << " " << p.second << "\n";
  for (auto &p : symNames) if (p.second) { T v = ts.var(p.first, 8 * p.second); o << "sym " << p.first << " " << p.second << " " << hexBits(evalVar(v, e), p.second) << "\n"; }
  for (auto &b : blobs) o << "blob " << b.first << " " << evalVar(b.second, e)[0] << "\n";
  for (auto &x : e.over) o << "over " << std::hex << x.first.first << " " << x.first.second << std::dec << " " << x.second.second << " " << hexBits(x.second.first, x.second.second / 8) << "\n";
}
void Exec::runHarness(const std::string &fn) {
  auto it = P.byName.find(fn);
  if (it == P.byName.end() || !P.funcs[it->second].defined) throw Unsupported("no harness " + fn);
  setupIntrinsics(*this);
  State *s = new State;
  initGlobals(*s);
  Func &F = P.funcs[it->second];
  Frame f; f.f = &F; f.r.resize(F.nregs);
  s->st.push_back(std::move(f));
  Tree *t = exec(s, 0, -1, 0);
  std::vector<Tree *> st; if (t) st.push_back(t);
  while (!st.empty()) {
    Tree *x = st.back(); st.pop_back();
    if (!x) continue;
    if (x->s) { paths++; std::vector<T> l; pcLits(x->s->pc, l); finalPcs.push_back(l); }
    else { st.push_back(x->l); st.push_back(x->r); }
  }
}
