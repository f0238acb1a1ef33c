#include "exec.hpp"
#include <time.h>
static double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

Exec::Exec(Program &p) : P(p), sv(ts) {
  pcs.push_back({0, 0, 0});
  metas.push_back("");
  ptrTab.push_back(Val());
}
// ---------------------------------------------------------------- path conditions
u32 Exec::pcAdd(u32 pc, T lit) {
  u64 v;
  if (ts.isConst(lit, v)) { if (v) return pc; }
  // split conjunctions
  if (ts.op(lit) == O_AND) {
    std::vector<T> ks; ts.kids(lit, ks);
    for (T k : ks) pc = pcAdd(pc, k);
    return pc;
  }
  pcs.push_back({lit, pc, pcs[pc].depth + 1});
  return pcs.size() - 1;
}
void Exec::pcLits(u32 pc, std::vector<T> &out) { while (pc) { out.push_back(pcs[pc].lit); pc = pcs[pc].parent; } }

void Exec::condInfo(T c, bool &pol, T &base, int &kind, u64 &k) {
  pol = true; kind = 0; base = c; k = 0;
  if (ts.op(c) == O_CAT) {
    const u64 *d = ts.D(c);
    if (d[0] >> 63) { pol = false; c = ts.bnot(c); }
    if (ts.op(c) == O_CAT) { kind = 3; base = c; return; }
  }
  if (ts.op(c) == O_EQ || ts.op(c) == O_ULT) {
    const u64 *d = ts.D(c);
    if (ts.W((T)d[0]) <= 64 && ts.isConst((T)d[1], k)) { kind = ts.op(c) == O_EQ ? 1 : 2; base = (T)d[0]; return; }
  }
  kind = 0; base = c;
}
static void addIv(std::vector<std::array<u32, 3>> &v, u32 leaf, u32 lo, u32 hi) { v.push_back({leaf, lo, hi}); }
// support intervals, flattened as (leaf,lo,hi) triples
const std::vector<T> &Exec::supp(T t) {
  auto it = suppMemo.find(t);
  if (it != suppMemo.end()) return it->second;
  std::vector<T> out;
  Op o = ts.op(t);
  if (o == O_VAR || o == O_APP) out = {t, 0, ts.W(t)};
  else if (o == O_CAT) {
    std::vector<Piece> ps; ts.pieces(t, ps);
    for (auto &p : ps) if (p.leaf) {
      Op q = ts.op(p.leaf);
      if (q == O_VAR || q == O_APP) { out.push_back(p.leaf); out.push_back((T)p.v); out.push_back((T)p.v + p.len); }
      else { std::vector<T> s = supp(p.leaf); out.insert(out.end(), s.begin(), s.end()); }
    }
  } else if (o != O_CONST) {
    std::vector<T> ks; ts.kids(t, ks);
    for (T k : ks) { std::vector<T> s = supp(k); out.insert(out.end(), s.begin(), s.end()); if (out.size() > 3000) break; }
  }
  if (out.size() > 3000) { out.clear(); out.push_back(0); out.push_back(0); out.push_back(0); }  // "large"
  // dedupe
  if (out.size() > 3) {
    std::vector<std::array<T, 3>> v;
    for (size_t i = 0; i < out.size(); i += 3) v.push_back({out[i], out[i + 1], out[i + 2]});
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    out.clear(); for (auto &x : v) { out.push_back(x[0]); out.push_back(x[1]); out.push_back(x[2]); }
  }
  return suppMemo[t] = out;
}
static bool overlap(const std::vector<T> &a, const std::vector<T> &b) {
  if (!a.empty() && a[0] == 0) return true;
  if (!b.empty() && b[0] == 0) return true;
  for (size_t i = 0; i < a.size(); i += 3)
    for (size_t j = 0; j < b.size(); j += 3)
      if (a[i] == b[j] && a[i + 1] < b[j + 2] && b[j + 1] < a[i + 2]) return true;
  return false;
}
int Exec::decide(u32 pc, T c) {
  u64 v;
  if (ts.isConst(c, v)) return v ? 1 : 0;
  T nc = ts.bnot(c);
  for (u32 q = pc; q; q = pcs[q].parent) { if (pcs[q].lit == c) return 1; if (pcs[q].lit == nc) return 0; }
  bool pol; T base; int kind; u64 k;
  condInfo(c, pol, base, kind, k);
  if (ts.op(c) == O_AND) {
    std::vector<T> ks; ts.kids(c, ks);
    bool all = true;
    for (T x : ks) { int r = decide(pc, x); if (r == 0) return 0; if (r != 1) all = false; }
    if (all) return 1;
  } else if (!pol && ts.W(base) == 1 && ts.op(base) == O_AND) {
    int r = decide(pc, base);
    return r < 0 ? r : 1 - r;
  }
  bool onlySame = true;   // pc literals overlapping c all talk about the same base
  u64 lo = 0, hi = 0; std::set<u64> excl;
  if (kind == 1 || kind == 2) { lo = ts.N(base).umin; hi = ts.N(base).umax; }
  const std::vector<T> sc = supp(c);
  for (u32 q = pc; q; q = pcs[q].parent) {
    T l = pcs[q].lit;
    bool p2; T b2; int k2; u64 kk;
    condInfo(l, p2, b2, k2, kk);
    if ((kind == 1 || kind == 2) && (k2 == 1 || k2 == 2) && b2 == base) {
      if (k2 == 1) { if (p2) { lo = std::max(lo, kk); hi = std::min(hi, kk); } else excl.insert(kk); }
      else { if (p2) { if (kk) hi = std::min(hi, kk - 1); } else lo = std::max(lo, kk); }
      continue;
    }
    if (overlap(sc, supp(l))) onlySame = false;
  }
  if (kind == 1 || kind == 2) {
    while (excl.count(lo) && lo < hi) lo++;
    while (excl.count(hi) && hi > lo) hi--;
    int r = -1;
    if (kind == 1) { if (k < lo || k > hi || excl.count(k)) r = 0; else if (lo == hi) r = 1; }
    else { if (hi < k) r = 1; else if (lo >= k) r = 0; }
    if (r >= 0) return pol ? r : 1 - r;
  }
  if (onlySame) {
    bool freeBase = false;
    if (kind) {
      T b = base;
      Op o = ts.op(b);
      if (o == O_VAR || o == O_APP) freeBase = true;
      else if (o == O_CAT && ts.N(b).n == 2) { Op q = ts.op((u32)ts.D(b)[0]); freeBase = q == O_VAR || q == O_APP; }
    }
    if (freeBase) return -1;
  }
  auto key = std::make_pair(pc, c);
  auto it = decCache.find(key);
  if (it != decCache.end()) return it->second;
  // relevant literals only (pc is satisfiable, independent parts may be dropped)
  std::vector<T> rel = relevant(pc, sc);
  int r = -1;
  rel.push_back(c);
  Solver::R a = sv.checkShape(rel, solverTimeout);
  if (a == Solver::UNSAT) r = 0;
  else {
    rel.back() = nc;
    Solver::R b = sv.checkShape(rel, solverTimeout);
    if (b == Solver::UNSAT) r = 1;
  }
  decCache[key] = r;
  return r;
}
std::vector<T> Exec::relevant(u32 pc, const std::vector<T> &sc) {
  std::vector<T> lits, rel; pcLits(pc, lits);
  std::vector<bool> in(lits.size(), false);
  std::vector<std::vector<T>> front{sc};
  for (size_t j = 0; j < front.size(); j++)
    for (size_t i = 0; i < lits.size(); i++)
      if (!in[i] && overlap(front[j], supp(lits[i]))) { in[i] = true; rel.push_back(lits[i]); front.push_back(supp(lits[i])); }
  return rel;
}
bool Exec::feasible(u32 pc) {
  std::vector<u32> todo;
  bool r = true;
  while (pc) {
    auto it = feasCache.find(pc);
    if (it != feasCache.end()) { r = it->second; break; }
    todo.push_back(pc); pc = pcs[pc].parent;
  }
  while (!todo.empty()) {
    u32 q = todo.back(); todo.pop_back();
    if (r) {
      T l = pcs[q].lit;
      std::vector<T> rel = relevant(pcs[q].parent, std::vector<T>(supp(l)));
      rel.push_back(l);
      r = sv.checkShape(rel, solverTimeout) != Solver::UNSAT;
    }
    feasCache[q] = r;
  }
  return r;
}
bool Exec::taintRange(T leaf, u32 lo, u32 len) {
  auto p = pubR.find(leaf);
  if (p != pubR.end()) for (auto &r : p->second) if (lo >= r.first && lo + len <= r.second) return false;
  if (ts.op(leaf) == O_VAR) {
    auto q = secR.find(leaf);
    if (q == secR.end()) return false;
    for (auto &r : q->second) if (lo < r.second && r.first < lo + len) return true;
    return false;
  }
  auto it = taintMemo.find(leaf);
  if (it != taintMemo.end()) return it->second;
  std::vector<T> ks; ts.kids(leaf, ks);
  bool r = false;
  for (T k : ks) if (taint(k)) { r = true; break; }
  return taintMemo[leaf] = r;
}
bool Exec::taint(T t) {
  if (ts.isConst(t)) return false;
  if (ts.op(t) != O_CAT) return taintRange(t, 0, ts.W(t));
  std::vector<Piece> ps; ts.pieces(t, ps);
  for (auto &p : ps) if (p.leaf && taintRange(p.leaf, (u32)p.v, p.len)) return true;
  return false;
}
// a decision the program takes on t is visible in its control flow or addresses
void Exec::leakCheck(State &s, T t, const char *what) {
  if (!ctOn || s.st.empty() || !s.st.back().f->fromRepo) return;
  ctChecks++;
  if (taint(t)) report(s, "secret", what, s.pc, nullptr, "");
}
bool Exec::concretize(State &s, T x, u64 &v) {
  if (ts.isConst(x, v)) return true;
  if (ts.W(x) > 64) throw Unsupported("wide value to concretise");
  // bounds from the path condition
  T b = x; int sg = 1; i128 k = 0;
  T nb; int nsg; i128 nk;
  // strip zero extension
  if (ts.linLook(x, nb, nsg, nk)) { b = nb; sg = nsg; k = nk; }
  else if (ts.op(x) == O_CAT) {
    const u64 *d = ts.D(x); u32 n = ts.N(x).n;
    if (n >= 4 && !(u32)d[n - 2] && d[n - 1] == 0) b = ts.slice(x, 0, ts.W(x) - (u32)((d[n - 2] >> 32) & 0x7fffffff));
  }
  u64 lo = ts.N(b).umin, hi = ts.N(b).umax; std::set<u64> excl;
  for (u32 q = s.pc; q; q = pcs[q].parent) {
    bool p2; T b2; int k2; u64 kk;
    condInfo(pcs[q].lit, p2, b2, k2, kk);
    if ((k2 == 1 || k2 == 2) && b2 == b) {
      if (k2 == 1) { if (p2) { lo = std::max(lo, kk); hi = std::min(hi, kk); } else excl.insert(kk); }
      else { if (p2) { if (kk) hi = std::min(hi, kk - 1); } else lo = std::max(lo, kk); }
    }
  }
  while (excl.count(lo) && lo < hi) lo++;
  auto val = [&](u64 bv) { i128 q = sg > 0 ? (i128)bv + k : k - (i128)bv; return (u64)q & maskw(ts.W(x)); };
  if (lo == hi) { v = val(lo); return true; }
  T e = ts.eq(x, ts.konst(val(lo), ts.W(x)));
  int r = decide(s.pc, e);
  if (r == 1) { v = val(lo); return true; }
  if (r == 0) {
    u64 nx = lo + 1;
    while (nx < hi && excl.count(nx)) nx++;
    if (nx == hi) { v = val(hi); return true; }   // only one value left
    Model m; bool unk = false;
    if (!modelOf(s.pc, {}, m, unk)) throw Unsupported("cannot concretise");
    Env en; en.m = &m; en.seed = replaySeed;
    u64 c = eval(x, en)[0];
    e = ts.eq(x, ts.konst(c, ts.W(x)));
    r = decide(s.pc, e);
    if (r == 1) { v = c; return true; }
    if (r == 0) {  // value came from outside the model's variables: ask the solver directly
      T fresh = ts.var("conc#" + std::to_string(undefCounter++), ts.W(x));
      Model m2;
      if (!modelOf(s.pc, {ts.eq(fresh, x)}, m2, unk)) throw Unsupported("cannot concretise");
      c = m2[fresh][0];
      e = ts.eq(x, ts.konst(c, ts.W(x)));
      r = decide(s.pc, e);
      if (r == 1) { v = c; return true; }
      if (r == 0) throw Unsupported("cannot concretise");
    }
  }
  leakCheck(s, x, "address or length depends on a secret");
  forkCond = e;
  return false;
}
// ---------------------------------------------------------------- values
Val Exec::fromTerm(T t) {
  u64 v;
  if (ts.isConst(t, v)) return Val::I(v, ts.W(t));
  Val r; r.k = K_TERM; r.w = ts.W(t); r.a = t;
  return r;
}
static u64 fakeAddr(const Val &p) {
  if (p.k == K_FN) return 0x700000000000ull + (u64)p.a * 16;
  return p.a == 0 ? (u64)p.v : (((u64)p.a + 1) << 36) + (u64)p.v;
}
T Exec::term(const Val &v) {
  switch (v.k) {
  case K_INT: return ts.konst((u64)v.v, v.w);
  case K_TERM: return v.a;
  case K_UNDEF: { return ts.var("undef#" + std::to_string(undefCounter++), v.w ? v.w : 64); }
  case K_PTR: case K_FN: return ts.konst(fakeAddr(v), 64);
  case K_CHO: { Choice ch = choTab[v.a]; T x = term(ch.x), y = term(ch.y); return ts.ite(ch.c, x, y); }
  default: throw Unsupported("use of an unmerged value");
  }
}
// ---------------------------------------------------------------- pointer choices
bool Exec::mkChoice(T c, const Val &x, const Val &y, Val &out) {
  if (x.same(y)) { out = x; return true; }
  auto lv = [&](const Val &v) { return v.k == K_CHO ? choTab[v.a].leaves : 1; };
  auto ok = [&](const Val &v) { return v.k == K_PTR || v.k == K_FN || v.k == K_CHO; };
  if (!ok(x) || !ok(y) || lv(x) + lv(y) > 4) return false;
  auto key = std::make_tuple(c, ptrId(x), ptrId(y));
  auto it = choIdx.find(key);
  u32 id;
  if (it != choIdx.end()) id = it->second;
  else { id = choTab.size(); choTab.push_back({c, x, y, lv(x) + lv(y)}); choIdx[key] = id; }
  out = Val(); out.k = K_CHO; out.w = 64; out.a = id;
  return true;
}
Val Exec::pick(u32 pc, Val v) {
  while (v.k == K_CHO) {
    int d = decide(pc, choTab[v.a].c);
    if (d < 0) break;
    Val n = d ? choTab[v.a].x : choTab[v.a].y; v = n;
  }
  return v;
}
bool Exec::readable(State &s, const Val &p, u64 n) {   // plain bytes, so that a selection between regions can be formed
  if (p.k == K_CHO) return readable(s, choTab[p.a].x, n) && readable(s, choTab[p.a].y, n);
  if (p.k != K_PTR || !p.a || p.a >= s.objs.size() || !s.objs[p.a].p || (s.gen[p.a] != p.gen && !(s.objs[p.a].p->flags & OF_GLOBAL))) return false;
  Obj *o = s.objs[p.a].p;
  if (o->flags & (OF_BLOB | OF_STOP) || p.v < 0 || (u64)p.v + n > o->size || ((p.v < (int64_t)p.lo || (u64)p.v + n > p.hi) && !(o->flags & OF_CONSTG))) return false;
  for (u64 i = 0; i < n; i++) { u8 k = o->c[p.v + i].k; if (k != C_CONST && k != C_TERM) return false; }
  return true;
}
T Exec::readAny(State &s, const Val &p, u64 n) {
  if (p.k == K_CHO) { Choice ch = choTab[p.a]; T x = readAny(s, ch.x, n), y = readAny(s, ch.y, n); return ts.ite(ch.c, x, y); }
  return gather(s, *s.objs[p.a].p, (u32)p.v, (u32)n, p.a);
}
bool Exec::writable(State &s, const Val &p, u64 n) {
  if (p.k == K_CHO) return writable(s, choTab[p.a].x, n) && writable(s, choTab[p.a].y, n);
  return readable(s, p, n) && !(s.objs[p.a].p->flags & (OF_RO | OF_CONSTG | OF_GLOBAL));
}
void Exec::writeAny(State &s, const Val &p, u64 n, T t, T guard) {
  if (p.k == K_CHO) { Choice ch = choTab[p.a]; writeAny(s, ch.x, n, t, ts.band(guard, ch.c)); writeAny(s, ch.y, n, t, ts.band(guard, ts.bnot(ch.c))); return; }
  Obj *o = wr(s, p.a);
  T old = gather(s, *o, (u32)p.v, (u32)n, p.a);
  scatter(*wr(s, p.a), (u32)p.v, (u32)n, ts.ite(guard, t, old));
}
u32 Exec::ptrId(const Val &v) {
  auto key = std::make_tuple((u8)v.k, v.a, v.v, v.gen, v.lo, v.hi);
  auto it = ptrIdx.find(key);
  if (it != ptrIdx.end()) return it->second;
  ptrTab.push_back(v);
  return ptrIdx[key] = ptrTab.size() - 1;
}
// ---------------------------------------------------------------- memory
u32 Exec::newObj(State &s, u32 size, u8 flags, const std::string &meta) {
  static std::unordered_map<std::string, u32> mi;
  u32 m;
  auto it = mi.find(meta);
  if (it == mi.end()) { metas.push_back(meta); m = mi[meta] = metas.size() - 1; } else m = it->second;
  Obj *o = new Obj; o->size = size; o->flags = flags; o->meta = m; o->c.resize(size);
  u32 slot;
  if (!s.freeSlots.empty()) { slot = s.freeSlots.back(); s.freeSlots.pop_back(); s.objs[slot] = ObjP(o); }
  else { slot = s.objs.size(); s.objs.push_back(ObjP(o)); s.gen.push_back(1); }
  return slot;
}
Obj *Exec::wr(State &s, u32 slot) {
  ObjP &p = s.objs[slot];
  if (p.p->rc > 1) { Obj *n = new Obj(*p.p); n->rc = 0; p = ObjP(n); }
  return p.p;
}
std::string Exec::where(State &s) {
  std::string r;
  for (int i = (int)s.st.size() - 1; i >= 0 && i > (int)s.st.size() - 5; i--) {
    Frame &f = s.st[i];
    auto &ins = f.f->blocks[f.blk].ins;
    int ip = std::min((int)ins.size() - 1, std::max(0, i == (int)s.st.size() - 1 ? f.ip : f.ip - 1));
    std::string file = f.f->file; size_t p = file.rfind('/'); if (p != std::string::npos) file = file.substr(p + 1);
    r += (r.empty() ? "" : " < ") + f.f->name + "(" + file + ":" + std::to_string(ins.empty() ? 0 : ins[ip].line) + ")";
  }
  return r;
}
bool Exec::access(State &s, const Val &p, u64 n, bool write, const char *what) {
  if (n == 0) return true;
  if (p.k == K_UNDEF) { report(s, "memory", std::string(what) + " through an uninitialised pointer", s.pc, nullptr, ""); return false; }
  if (p.k == K_INT || p.k == K_TERM || p.k == K_FN) { report(s, "memory", std::string(what) + " through an invalid pointer", s.pc, nullptr, ""); return false; }
  if (p.k != K_PTR) throw Unsupported("dereference of an unresolved pointer");
  if (p.a == 0) { report(s, "memory", std::string(what) + " through a null pointer", s.pc, nullptr, ""); return false; }
  if (p.a >= s.objs.size() || !s.objs[p.a].p || s.gen[p.a] != p.gen) {
    if (!(p.gen == 0 && p.a < s.objs.size() && s.objs[p.a].p && (s.objs[p.a].p->flags & OF_GLOBAL))) {
      report(s, "memory", std::string(what) + " of dead storage", s.pc, nullptr, "");
      return false;
    }
  }
  Obj *o = s.objs[p.a].p;
  if (o->flags & OF_BLOB) throw Unsupported("direct access to the opaque message");
  if (p.v < 0 || (u64)p.v + n > o->size) {
    if ((o->flags & OF_STOP) && !write && p.v >= 0) { if (stopFn >= 0) atStop = true; else killed++; return false; }
    report(s, "memory", std::string(what) + " out of bounds of " + metas[o->meta], s.pc, nullptr, "offset " + std::to_string(p.v) + " size " + std::to_string(n) + " object " + std::to_string(o->size));
    return false;
  }
  if ((p.v < (int64_t)p.lo || (u64)p.v + n > p.hi) && !(o->flags & OF_CONSTG))
    report(s, "subobject", std::string(what) + " past the end of an array member of " + metas[o->meta], s.pc, nullptr, "offset " + std::to_string(p.v) + " size " + std::to_string(n) + " member [" + std::to_string(p.lo) + "," + std::to_string(p.hi) + ")");
  if (write && (o->flags & (OF_RO | OF_CONSTG))) {
    report(s, "readonly", "write to read-only " + metas[o->meta], s.pc, nullptr, "");
    if (o->flags & OF_CONSTG) return false;
  }
  if (write && (o->flags & OF_GLOBAL) && !(o->flags & OF_CONSTG) && s.st.back().f->fromRepo)
    report(s, "global", "write to static storage " + metas[o->meta], s.pc, nullptr, "");
  return true;
}
T Exec::gather(State &s, Obj &o0, u32 off, u32 n, u32 slot) {
  Obj *o = &o0;
  // fast: constants
  if (n <= 8) {
    bool all = true; u64 v = 0;
    for (u32 i = 0; i < n; i++) { const Cell &c = o->c[off + i]; if (c.k != C_CONST) { all = false; break; } v |= (u64)c.v << (8 * i); }
    if (all) return ts.konst(v, 8 * n);
  }
  const Cell &c0 = o->c[off];
  if (c0.k == C_TERM) {
    bool run = true;
    for (u32 i = 1; i < n; i++) { const Cell &c = o->c[off + i]; if (c.k != C_TERM || c.t != c0.t || c.idx != c0.idx + i) { run = false; break; } }
    if (run) return ts.slice(c0.t, 8 * c0.idx, 8 * n);
  }
  std::vector<Piece> ps;
  u32 i = 0;
  while (i < n) {
    const Cell c = o->c[off + i];
    switch (c.k) {
    case C_CONST: ps.push_back(TermStore::pc(c.v, 8)); i++; break;
    case C_TERM: {
      u32 j = i + 1;
      while (j < n && o->c[off + j].k == C_TERM && o->c[off + j].t == c.t && o->c[off + j].idx == c.idx + (j - i)) j++;
      ts.slicePieces(c.t, 8 * c.idx, 8 * (j - i), ps);
      i = j; break;
    }
    case C_UNINIT: {
      if (slot != ~0u) { o = wr(s, slot); }
      T u = ts.var("undef#" + std::to_string(undefCounter++), 8);
      o->c[off + i].k = C_TERM; o->c[off + i].t = u; o->c[off + i].idx = 0;
      Piece p; p.leaf = u; p.len = 8; p.neg = false; p.v = 0; ps.push_back(p);
      i++; break;
    }
    case C_PTR: {
      Val pv = ptrTab[c.t];
      if (pv.k == K_CHO) { ts.slicePieces(term(pv), 8 * c.idx, 8, ps); i++; break; }
      ps.push_back(TermStore::pc(fakeAddr(pv) >> (8 * c.idx), 8)); i++; break;
    }
    case C_HND: throw Unsupported("raw access to a summarised hash context");
    }
  }
  return ts.cat(ps);
}
void Exec::scatter(Obj &o, u32 off, u32 n, T t) {
  u64 v;
  if (ts.isConst(t, v)) {
    for (u32 i = 0; i < n; i++) { Cell &c = o.c[off + i]; c.k = C_CONST; c.v = v >> (8 * i); c.t = 0; c.idx = 0; }
    return;
  }
  for (u32 i = 0; i < n; i++) { Cell &c = o.c[off + i]; c.k = C_TERM; c.t = t; c.idx = i; c.v = 0; }
}
Val Exec::load(State &s, const Val &p, u32 n, u8 w, bool isPtr, bool &dead) {
  dead = false;
  if (!access(s, p, n, false, "read")) { dead = true; return Val(); }
  Obj *o = s.objs[p.a].p;
  const Cell &c0 = o->c[p.v];
  if (c0.k == C_PTR && n == 8) {
    bool ok = c0.idx == 0;
    for (u32 i = 1; ok && i < 8; i++) { const Cell &c = o->c[p.v + i]; ok = c.k == C_PTR && c.t == c0.t && c.idx == i; }
    if (ok) return ptrTab[c0.t];
  }
  T t = gather(s, *o, (u32)p.v, n, p.a);
  if (w < 8 * n) t = ts.slice(t, 0, w);
  if (isPtr) {
    u64 v;
    Val r;
    if (ts.isConst(t, v)) {
      r.k = K_PTR; r.w = 64;
      if (v >> 36) {
        u32 slot = (u32)(v >> 36) - 1;
        if (slot && slot < s.objs.size() && s.objs[slot].p) { r.a = slot; r.v = v & ((1ull << 36) - 1); r.gen = s.gen[slot]; r.lo = 0; r.hi = s.objs[slot].p->size; return r; }
      }
      r.a = 0; r.v = v;
      return r;
    }
    r.k = K_TERM; r.w = 64; r.a = t;   // an unknown pointer value; dereferencing it is reported
    return r;
  }
  return fromTerm(t);
}
bool Exec::store(State &s, const Val &p, const Val &v, u32 n) {
  if (!access(s, p, n, true, "write")) return false;
  Obj *o = wr(s, p.a);
  if (v.k == K_INT) {
    for (u32 i = 0; i < n; i++) { Cell &c = o->c[p.v + i]; c.k = C_CONST; c.v = (u64)v.v >> (8 * i); c.t = 0; c.idx = 0; }
    return true;
  }
  if (v.k == K_PTR || v.k == K_FN || v.k == K_CHO) {
    if (v.k == K_PTR && v.a == 0) { for (u32 i = 0; i < n; i++) { Cell &c = o->c[p.v + i]; c.k = C_CONST; c.v = (u64)v.v >> (8 * i); c.t = 0; c.idx = 0; } return true; }
    u32 id = ptrId(v);
    for (u32 i = 0; i < n; i++) { Cell &c = o->c[p.v + i]; c.k = C_PTR; c.t = id; c.idx = i; c.v = 0; }
    return true;
  }
  if (v.k == K_UNDEF) { for (u32 i = 0; i < n; i++) o->c[p.v + i] = Cell(); return true; }
  T t = term(v);
  if (ts.W(t) < 8 * n) t = ts.zext(t, 8 * n);
  scatter(*o, (u32)p.v, n, t);
  return true;
}
bool Exec::copyMem(State &s, const Val &d, const Val &p, u64 n) {
  if (!n) return true;
  if (!access(s, p, n, false, "read")) return false;
  if (!access(s, d, n, true, "write")) return false;
  if (d.a == p.a) {
    std::vector<Cell> tmp(s.objs[p.a].p->c.begin() + p.v, s.objs[p.a].p->c.begin() + p.v + n);
    Obj *o = wr(s, d.a);
    std::copy(tmp.begin(), tmp.end(), o->c.begin() + d.v);
  } else {
    ObjP src = s.objs[p.a];
    Obj *o = wr(s, d.a);
    std::copy(src.p->c.begin() + p.v, src.p->c.begin() + p.v + n, o->c.begin() + d.v);
  }
  return true;
}
void Exec::initGlobals(State &s) {
  s.objs.clear(); s.gen.clear();
  s.objs.push_back(ObjP()); s.gen.push_back(0);
  for (size_t i = 0; i < P.globals.size(); i++) {
    GlobalInit &g = P.globals[i];
    newObj(s, g.size, OF_GLOBAL | (g.constant ? OF_CONSTG : 0), g.name);
    Obj *o = s.objs.back().p;
    s.gen.back() = 0;
    for (u32 j = 0; j < g.size; j++) { o->c[j].k = C_CONST; o->c[j].v = g.data[j]; }
  }
  for (size_t i = 0; i < P.globals.size(); i++)
    for (auto &q : P.globals[i].ptrs) {
      Val v; v.w = 64;
      if (q.second.first == 1) { v.k = K_FN; v.a = q.second.second.first; }
      else { v.k = K_PTR; v.a = q.second.second.first + 1; v.v = q.second.second.second; v.gen = 0; v.lo = 0; v.hi = P.globals[v.a - 1].size; }
      u32 id = ptrId(v);
      Obj *o = s.objs[i + 1].p;
      for (u32 j = 0; j < 8; j++) { Cell &c = o->c[q.first + j]; c.k = C_PTR; c.t = id; c.idx = j; c.v = 0; }
    }
}
// ---------------------------------------------------------------- merging
State *Exec::clone(State *s) { return new State(*s); }
bool Exec::mergeVal(Val &a, const Val &b, T c) {
  if (a.same(b)) return true;
  if (a.k == K_UNDEF) { a = b; return true; }
  if (b.k == K_UNDEF) return true;
  if ((a.k == K_INT || a.k == K_TERM) && (b.k == K_INT || b.k == K_TERM)) {
    if (a.w != b.w) return false;
    a = fromTerm(ts.ite(c, term(a), term(b)));
    return true;
  }
  auto ptr = [](const Val &v) { return v.k == K_PTR || v.k == K_FN || v.k == K_CHO; };
  if (ptr(a) && ptr(b)) {
    // positions in the same array stay apart: that is a loop counter in disguise
    if (a.k == K_PTR && b.k == K_PTR && a.a == b.a && a.lo == b.lo && a.hi == b.hi && a.v != b.v) return false;
    Val r;
    if (mkChoice(c, a, b, r)) { a = r; return true; }
  }
  return false;
}
bool Exec::mergeObj(State &s, u32 slot, const Obj &b, T c) {
  Obj *o = wr(s, slot);
  if (o->size != b.size) return false;
  o->flags |= b.flags;
  for (u32 i = 0; i < o->size;) {
    Cell &x = o->c[i]; const Cell &y = b.c[i];
    if (x == y) { i++; continue; }
    if (x.k == C_HND && y.k == C_HND) {
      if (x.idx != 0 || y.idx != 0) return false;
      T h1 = x.t, h2 = y.t;
      if (ts.W(h1) != ts.W(h2) || ts.op(h1) != O_HND || ts.op(h2) != O_HND) return false;
      u32 n = ts.W(h1) / 8;
      if (i + n > o->size) return false;
      for (u32 j = 0; j < n; j++) {
        const Cell &p = o->c[i + j], &q = b.c[i + j];
        if (p.k != C_HND || p.t != h1 || p.idx != j || q.k != C_HND || q.t != h2 || q.idx != j) return false;
      }
      const u64 *d1 = ts.D(h1), *d2 = ts.D(h2);
      std::vector<T> p1, p2;
      for (u32 j = 3; j < ts.N(h1).n; j++) p1.push_back((T)d1[j]);
      for (u32 j = 3; j < ts.N(h2).n; j++) p2.push_back((T)d2[j]);
      u32 w = ts.W(h1);
      auto compatible = [&]() {
        if (p1.size() != p2.size()) return false;
        for (size_t j = 0; j < p1.size(); j++)
          if (p1[j] != p2[j] && (ts.op(p1[j]) == O_SEG || ts.op(p1[j]) == O_HST || ts.op(p2[j]) == O_SEG || ts.op(p2[j]) == O_HST || ts.W(p1[j]) != ts.W(p2[j]))) return false;
        return true;
      };
      bool comp = d1[0] == d2[0] && d1[1] == d2[1] && d1[2] == d2[2] && d1[1] != 9;
      if (comp && !compatible()) { p1 = normParts(p1); p2 = normParts(p2); comp = compatible(); }
      if (!comp) {
        bool mid = d1[1] == 0 && d2[1] == 0;   // both still absorbing: keep the paths apart
        if (mid) return false;
        u64 dd[3] = {d1[0], 9, 0};              // unusable afterwards
        T h = ts.intern(O_HND, w, dd, 3);
        for (u32 j = 0; j < n; j++) o->c[i + j].t = h;
        i += n;
        continue;
      }
      std::vector<u64> d{ts.D(h1)[0], ts.D(h1)[1], ts.D(h1)[2]};
      for (size_t j = 0; j < p1.size(); j++) d.push_back(ts.ite(c, p1[j], p2[j]));
      T h = ts.intern(O_HND, w, d.data(), d.size());
      for (u32 j = 0; j < n; j++) { o->c[i + j].t = h; }
      i += n;
      continue;
    }
    if (x.k == C_UNINIT || y.k == C_UNINIT) { o->c[i] = Cell(); i++; continue; }
    auto intk = [](const Cell &q) { return q.k == C_CONST || q.k == C_TERM; };
    if (x.k == C_PTR && y.k == C_PTR && x.idx == 0 && y.idx == 0 && i + 8 <= o->size) {
      T px = x.t, py = y.t;
      for (u32 j = 0; j < 8; j++) { const Cell &p = o->c[i + j], &q = b.c[i + j]; if (p.k != C_PTR || p.t != px || p.idx != j || q.k != C_PTR || q.t != py || q.idx != j) return false; }
      Val v = ptrTab[px];
      if (!mergeVal(v, Val(ptrTab[py]), c)) return false;
      u32 id = ptrId(v);
      for (u32 j = 0; j < 8; j++) o->c[i + j].t = id;
      i += 8; continue;
    }
    if (!intk(x) || !intk(y)) return false;
    u32 j = i;
    while (j < o->size && intk(o->c[j]) && intk(b.c[j]) && !(o->c[j] == b.c[j]) && j - i < 4096) j++;
    T p = gather(s, *o, i, j - i, ~0u), q = gather(s, const_cast<Obj &>(b), i, j - i, ~0u);
    scatter(*o, i, j - i, ts.ite(c, p, q));
    i = j;
  }
  return true;
}
State *Exec::tryMerge(State *a, State *b, T c) {
  if (!merging) return nullptr;
  if (a->st.size() != b->st.size()) return nullptr;
  for (size_t i = 0; i < a->st.size(); i++) {
    Frame &x = a->st[i], &y = b->st[i];
    if (x.f != y.f || x.blk != y.blk || x.ip != y.ip || x.allocas != y.allocas) return nullptr;
  }
  size_t no = std::max(a->objs.size(), b->objs.size());
  for (size_t i = 0; i < no; i++) {
    Obj *x = i < a->objs.size() ? a->objs[i].p : nullptr, *y = i < b->objs.size() ? b->objs[i].p : nullptr;
    if ((x == nullptr) != (y == nullptr)) return nullptr;
    if (x && y && x->size != y->size) return nullptr;
    if (x && y && x != y && a->gen[i] != b->gen[i]) return nullptr;
  }
  State *m = new State(*a);
  m->budget = std::min(a->budget, b->budget);
  m->autoPeak = std::max(a->autoPeak, b->autoPeak); m->hashes = std::max(a->hashes, b->hashes); m->hashed = std::max(a->hashed, b->hashed);
  for (size_t i = 0; i < m->st.size(); i++) {
    Frame &x = m->st[i], &y = b->st[i];
    const Block &B = x.f->blocks[x.blk];
    bool atStart = x.ip == 0;
    for (size_t r = 0; r < x.r.size(); r++) {
      if (x.r[r].same(y.r[r])) continue;
      if (atStart && !(B.live[r / 64] >> (r % 64) & 1)) { x.r[r] = Val(); x.r[r].k = K_POISON; continue; }
      if (!mergeVal(x.r[r], y.r[r], c)) {
        if (!atStart && (x.r[r].k == K_PTR || y.r[r].k == K_PTR || x.r[r].k == K_POISON || y.r[r].k == K_POISON)) {
          // a mid-block frame: a value defined in an earlier iteration may differ but be dead; keep it poisoned
          // only when it is not used by the remainder of this block or live in a successor
          bool used = false;
          for (size_t q = x.ip; q < B.ins.size() && !used; q++) {
            const Ins &I = B.ins[q];
            if (I.a == (int)r || I.b == (int)r || I.c == (int)r) used = true;
            if (I.op == I_CALL) for (int z : x.f->callArgs[I.x]) if (z == (int)r) used = true;
            if (I.op == I_GEP && I.x >= 0) for (auto &z : x.f->geps[I.x]) if (z.op == (int)r) used = true;
          }
          for (int sc : B.succ) {
            if (x.f->blocks[sc].live[r / 64] >> (r % 64) & 1) used = true;
            auto ph = x.f->blocks[sc].phis.find(x.blk);
            if (ph != x.f->blocks[sc].phis.end()) for (auto &pc : ph->second) if (pc.src == (int)r) used = true;
          }
          if (!used) { x.r[r] = Val(); x.r[r].k = K_POISON; continue; }
        }
        delete m; return nullptr;
      }
    }
  }
  for (size_t i = 0; i < no; i++) {
    if (!m->objs[i].p || m->objs[i].p == b->objs[i].p) continue;
    if (!mergeObj(*m, i, *b->objs[i].p, c)) { delete m; return nullptr; }
  }
  for (size_t i = 0; i < no; i++) if (i < b->gen.size()) m->gen[i] = std::max(m->gen[i], b->gen[i]);
  // free lists must agree with the object table
  m->freeSlots.clear();
  for (size_t i = m->objs.size(); i-- > 1;) if (!m->objs[i].p) m->freeSlots.push_back(i);
  // path condition: common prefix plus guarded remainders
  u32 p = a->pc, q = b->pc;
  std::vector<T> ra, rb;
  while (p != q) {
    if (pcs[p].depth >= pcs[q].depth) { ra.push_back(pcs[p].lit); p = pcs[p].parent; }
    else { rb.push_back(pcs[q].lit); q = pcs[q].parent; }
  }
  T nc = ts.bnot(c);
  T A = ts.tru(), Bc = ts.tru();
  for (T l : ra) if (l != c) A = ts.band(A, l);
  for (T l : rb) if (l != nc) Bc = ts.band(Bc, l);
  T cc = ts.band(ts.bor(nc, A), ts.bor(c, Bc));
  m->pc = pcAdd(p, cc);
  merges++;
  delete a; delete b;
  return m;
}
Tree *Exec::mergeTree(Tree *t) {
  if (!t || t->s) return t;
  t->l = mergeTree(t->l); t->r = mergeTree(t->r);
  if (!t->l) { Tree *r = t->r; delete t; return r; }
  if (!t->r) { Tree *r = t->l; delete t; return r; }
  if (t->l->s && t->r->s) {
    State *m = tryMerge(t->l->s, t->r->s, t->c);
    if (m) { delete t->l; delete t->r; t->l = t->r = nullptr; t->s = m; return t; }
    mergeFails++;
  }
  return t;
}
void Exec::advance(Tree *&t, int D, int B, int rec) {
  if (!t) return;
  if (t->s) { State *s = t->s; delete t; t = exec(s, D, B, rec); return; }
  advance(t->l, D, B, rec); advance(t->r, D, B, rec);
}
Tree *Exec::exec(State *s, int D, int B, int rec) {
  if (rec > 4000) throw Unsupported("fork depth");
  for (;;) {
    Ev e = run(s, D, B);
    if (e == E_DEAD && atStop) {
      // the end of a vp_stop object was reached: its handler takes over and does not return
      atStop = false;
      Frame h; h.f = &P.funcs[stopFn]; h.ret = -1; h.r.resize(h.f->nregs);
      s->st.push_back(std::move(h));
      continue;
    }
    if (e == E_DEAD) { delete s; return nullptr; }
    if (e == E_STOP) { Tree *t = new Tree; t->s = s; return t; }
    T c = forkCond;
    if (++forks > maxForks) throw Unsupported("fork limit");
    State *s2 = clone(s);
    int d = (int)s->st.size() - 1;
    Frame &fr = s->st[d];
    int b = fr.f->blocks[fr.blk].ipdom;
    s->pc = pcAdd(s->pc, c);
    s2->pc = pcAdd(s2->pc, ts.bnot(c));
    Tree *t = new Tree; t->c = c;
    // remember the call positions so that escalation can continue in the callers
    std::vector<std::pair<Func *, int>> chain;
    for (auto &f : s->st) chain.push_back({f.f, f.blk});
    Func *curF = fr.f;
    t->l = exec(s, d, b, rec + 1);
    t->r = exec(s2, d, b, rec + 1);
    for (;;) {
      t = mergeTree(t);
      if (!t) return nullptr;
      if (d == D && b == B) return t;
      if (d < D || (d == 0 && b == -1)) return t;
      if (t->s) break;
      // escalate to the next merge point
      if (b >= 0) b = curF->blocks[b].ipdom;
      else { d--; if (d < 0) return t; curF = chain[d].first; b = curF->blocks[chain[d].second].ipdom; }
      advance(t, d, b, rec + 1);
    }
    s = t->s; delete t;
  }
}
