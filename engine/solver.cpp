#include "solver.hpp"
#include <queue>
static const u32 LONGSUM = 12;
static void onErr(Z3_context c, Z3_error_code e) { throw Unsupported(std::string("z3: ") + Z3_get_error_msg(c, e)); }
Solver::Solver(TermStore &t) : ts(t) {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, onErr);
  sol = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, sol);
  {
    Z3_tactic t = Z3_mk_tactic(ctx, "simplify"); Z3_tactic_inc_ref(ctx, t);
    for (const char *n : {"bit-blast", "sat"}) { Z3_tactic u = Z3_mk_tactic(ctx, n); Z3_tactic_inc_ref(ctx, u); t = Z3_tactic_and_then(ctx, t, u); Z3_tactic_inc_ref(ctx, t); }
    swsol = Z3_mk_solver_from_tactic(ctx, t); Z3_solver_inc_ref(ctx, swsol);
  }
  setTimeout(20000);
}
void Solver::setTimeout(unsigned ms) {
  if (ms == curTimeout) return;
  curTimeout = ms;
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
  Z3_solver_set_params(ctx, sol, p);
  Z3_params_dec_ref(ctx, p);
}
static Z3_ast bvval(Z3_context c, u64 v, u32 w) { return Z3_mk_unsigned_int64(c, v, Z3_mk_bv_sort(c, w)); }
static Z3_ast fit(Z3_context c, Z3_ast a, u32 from, u32 to) {
  if (from == to) return a;
  if (from < to) return Z3_mk_zero_ext(c, to - from, a);
  return Z3_mk_extract(c, to - 1, 0, a);
}
Z3_ast Solver::tr(T root) {
  auto it0 = memo.find(root);
  if (it0 != memo.end()) return it0->second;
  std::vector<std::pair<T, bool>> st{{root, false}};
  std::vector<T> ks;
  while (!st.empty()) {
    auto [t, vis] = st.back();
    if (memo.count(t)) { st.pop_back(); continue; }
    Op o = ts.op(t);
    if (!vis && o != O_APP) {
      st.back().second = true;
      ks.clear(); ts.kids(t, ks);
      for (T k : ks) if (!memo.count(k)) st.push_back({k, false});
      continue;
    }
    st.pop_back();
    const Node &n = ts.N(t);
    const u64 *d = ts.D(t);
    Z3_ast r = nullptr;
    auto K = [&](int i) { return memo[(T)d[i]]; };
    auto b1 = [&](Z3_ast b) { return Z3_mk_ite(ctx, b, bvval(ctx, 1, 1), bvval(ctx, 0, 1)); };
    switch (o) {
    case O_CONST: r = bvval(ctx, d[0], n.width); break;
    case O_VAR: case O_APP: {
      char nm[32]; snprintf(nm, sizeof nm, "t%u", t);
      r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, n.width));
      break;
    }
    case O_CAT:
      for (u32 i = 0; i < n.n; i += 2) {
        u32 lf = (u32)d[i], ln = (d[i] >> 32) & 0x7fffffff;
        Z3_ast p;
        if (!lf) p = bvval(ctx, d[i + 1], ln);
        else {
          p = memo[lf];
          if (ts.W(lf) != ln) p = Z3_mk_extract(ctx, d[i + 1] + ln - 1, d[i + 1], p);
          if (d[i] >> 63) p = Z3_mk_bvnot(ctx, p);
        }
        r = r ? Z3_mk_concat(ctx, p, r) : p;
      }
      break;
    case O_LIN:
      if (absSums && n.n > LONGSUM) { char nm[32]; snprintf(nm, sizeof nm, "s%u", t); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, n.width)); break; }
      r = bvval(ctx, d[0], n.width);
      for (u32 i = 1; i < n.n; i += 2) {
        Z3_ast x = fit(ctx, K(i), ts.W((T)d[i]), n.width);
        u64 c = d[i + 1];
        if (c == 1) r = Z3_mk_bvadd(ctx, r, x);
        else if (c == maskw(n.width)) r = Z3_mk_bvsub(ctx, r, x);
        else r = Z3_mk_bvadd(ctx, r, Z3_mk_bvmul(ctx, bvval(ctx, c, n.width), x));
      }
      break;
    case O_AND: r = K(0); for (u32 i = 1; i < n.n; i++) r = Z3_mk_bvand(ctx, r, K(i)); break;
    case O_XOR: r = K(0); for (u32 i = 1; i < n.n; i++) r = Z3_mk_bvxor(ctx, r, K(i)); break;
    case O_ITE: r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, K(0), bvval(ctx, 1, 1)), K(1), K(2)); break;
    case O_EQ: r = b1(Z3_mk_eq(ctx, K(0), K(1))); break;
    case O_ULT: r = b1(Z3_mk_bvult(ctx, K(0), K(1))); break;
    case O_MUL: r = Z3_mk_bvmul(ctx, K(0), K(1)); break;
    case O_UDIV: r = Z3_mk_bvudiv(ctx, K(0), K(1)); break;
    case O_UREM: r = Z3_mk_bvurem(ctx, K(0), K(1)); break;
    case O_SDIV: r = Z3_mk_bvsdiv(ctx, K(0), K(1)); break;
    case O_SREM: r = Z3_mk_bvsrem(ctx, K(0), K(1)); break;
    case O_SHL: r = Z3_mk_bvshl(ctx, K(0), K(1)); break;
    case O_LSHR: r = Z3_mk_bvlshr(ctx, K(0), K(1)); break;
    case O_ASHR: r = Z3_mk_bvashr(ctx, K(0), K(1)); break;
    default: throw Unsupported(std::string("term in solver query: ") + opName[o]);
    }
    Z3_inc_ref(ctx, r);
    memo[t] = r;
  }
  return memo[root];
}
void Solver::support(T root, std::set<T> &out) {
  std::vector<T> st{root}, ks;
  std::unordered_set<T> seen;
  while (!st.empty()) {
    T t = st.back(); st.pop_back();
    if (!seen.insert(t).second) continue;
    Op o = ts.op(t);
    if (o == O_VAR || o == O_APP) { out.insert(t); continue; }
    ks.clear(); ts.kids(t, ks);
    for (T k : ks) st.push_back(k);
  }
}
bool Solver::longSum(const std::vector<T> &lits) {
  std::vector<T> st(lits), ks; std::unordered_set<T> seen;
  while (!st.empty()) {
    T t = st.back(); st.pop_back();
    if (!seen.insert(t).second) continue;
    if (seen.size() > 3000) return false;
    Op o = ts.op(t);
    if (o == O_VAR || o == O_APP || o == O_CONST) continue;
    if (o == O_LIN && ts.N(t).n > LONGSUM) return true;
    ks.clear(); ts.kids(t, ks); st.insert(st.end(), ks.begin(), ks.end());
  }
  return false;
}
void Solver::absBounds(T root, std::vector<Z3_ast> &out) {
  std::vector<T> st{root}, ks; std::unordered_set<T> seen;
  while (!st.empty()) {
    T t = st.back(); st.pop_back();
    if (!seen.insert(t).second) continue;
    Op o = ts.op(t);
    if (o == O_VAR || o == O_APP || o == O_CONST) continue;
    if (o == O_LIN && ts.N(t).n > LONGSUM) {
      const Node &n = ts.N(t);
      if (n.width <= 64 && boundsOf.insert(t).second) { Z3_ast v = memo[t]; out.push_back(Z3_mk_bvule(ctx, bvval(ctx, n.umin, n.width), v)); out.push_back(Z3_mk_bvule(ctx, v, bvval(ctx, n.umax, n.width))); }
      continue;
    }
    ks.clear(); ts.kids(t, ks); st.insert(st.end(), ks.begin(), ks.end());
  }
}
Solver::R Solver::check(const std::vector<T> &lits, unsigned timeout_ms, Model *m) {
  std::vector<T> real;
  for (T l : lits) { u64 v; if (ts.isConst(l, v)) { if (!v) return UNSAT; } else real.push_back(l); }
  auto t0 = std::chrono::steady_clock::now();
  setTimeout(timeout_ms);
  std::vector<Z3_ast> as;
  // long sums as unknowns within their bounds first: enough when literals about the same sum
  // contradict each other, where rewriting the sums can make the query hard
  if (longSum(real)) {
    std::swap(memo, memoAbs); absSums = true; boundsOf.clear();
    for (T l : real) as.push_back(tr(l));
    std::vector<Z3_ast> bs;
    for (T l : real) absBounds(l, bs);
    absSums = false; std::swap(memo, memoAbs);
    Z3_solver_push(ctx, sol);
    for (Z3_ast a : as) Z3_solver_assert(ctx, sol, Z3_mk_eq(ctx, a, bvval(ctx, 1, 1)));
    for (Z3_ast a : bs) Z3_solver_assert(ctx, sol, a);
    Z3_lbool r = Z3_solver_check(ctx, sol);
    queries++;
    Z3_solver_pop(ctx, sol, 1);
    if (r == Z3_L_FALSE) { secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); unsat++; return UNSAT; }
    as.clear();
  }
  for (T l : real) as.push_back(tr(l));
  Z3_solver_push(ctx, sol);
  for (Z3_ast a : as) Z3_solver_assert(ctx, sol, Z3_mk_eq(ctx, a, bvval(ctx, 1, 1)));
  Z3_lbool r = Z3_solver_check(ctx, sol);
  queries++;
  if (r == Z3_L_TRUE && m) {
    Z3_model zm = Z3_solver_get_model(ctx, sol);
    Z3_model_inc_ref(ctx, zm);
    std::set<T> sup;
    for (T l : real) support(l, sup);
    for (T v : sup) {
      u32 w = ts.W(v);
      Bits b((w + 63) / 64, 0);
      for (u32 lo = 0; lo < w; lo += 64) {
        u32 l = std::min(64u, w - lo);
        Z3_ast e = l == w ? memo[v] : Z3_mk_extract(ctx, lo + l - 1, lo, memo[v]);
        Z3_ast out = nullptr;
        if (Z3_model_eval(ctx, zm, e, false, &out) && Z3_is_numeral_ast(ctx, out)) {
          uint64_t val = 0; Z3_get_numeral_uint64(ctx, out, &val); b[lo / 64] = val;
        } else b[lo / 64] = mix64(v * 31 + lo);   // unconstrained
      }
      bitsResize(b, w);
      (*m)[v] = b;
    }
    Z3_model_dec_ref(ctx, zm);
  }
  Z3_solver_pop(ctx, sol, 1);
  secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (r == Z3_L_TRUE) { sat++; return SAT; }
  if (r == Z3_L_FALSE) { unsat++; return UNSAT; }
  unknown++;
  return UNK;
}
// Most queries differ only in which bits of which unknown they talk about:
// serialise up to renaming of leaves and shifting of bit offsets.
Solver::R Solver::checkShape(const std::vector<T> &lits, unsigned timeout_ms) {
  for (T l : lits) { u64 v; if (ts.isConst(l, v) && !v) return UNSAT; }
  std::unordered_map<T, u64> minOff;
  std::unordered_set<T> seen;
  std::vector<T> st(lits.begin(), lits.end()), ks;
  auto leafy = [&](T t) { Op o = ts.op(t); return o == O_VAR || o == O_APP; };
  bool big = false;
  while (!st.empty()) {
    T t = st.back(); st.pop_back();
    if (!seen.insert(t).second) continue;
    if (seen.size() > 2000) { big = true; break; }
    Op o = ts.op(t);
    if (o == O_CONST) continue;
    if (leafy(t)) { auto r = minOff.emplace(t, 0); r.first->second = 0; continue; }
    if (o == O_CAT) {
      const u64 *d = ts.D(t);
      for (u32 i = 0; i < ts.N(t).n; i += 2) {
        u32 lf = (u32)d[i];
        if (!lf) continue;
        if (leafy(lf)) { auto r = minOff.emplace(lf, d[i + 1]); if (d[i + 1] < r.first->second) r.first->second = d[i + 1]; }
        else st.push_back(lf);
      }
      continue;
    }
    ks.clear(); ts.kids(t, ks);
    for (T k : ks) st.push_back(k);
  }
  if (big) return check(lits, timeout_ms);
  std::string shape;
  std::unordered_map<T, u32> num, lnum;
  auto put = [&](u64 x) { shape.append((const char *)&x, 8); };
  auto leaf = [&](T t, u64 lo, u64 len) {
    auto r = lnum.emplace(t, lnum.size());
    put(0xE000000000000000ull | (u64)r.first->second << 32 | len); put(lo - minOff[t]);
  };
  std::function<void(T)> dfs = [&](T t) {
    const Node &n = ts.N(t);
    if (n.op == O_CONST) { put(0xC000000000000000ull | n.width); put(ts.D(t)[0]); return; }
    if (leafy(t)) { leaf(t, 0, n.width); return; }
    auto r = num.emplace(t, num.size());
    if (!r.second) { put(0xF000000000000000ull | r.first->second); return; }
    put(0xD000000000000000ull | (u64)n.op << 52 | (u64)n.n << 32 | n.width);
    const u64 *d = ts.D(t);
    if (n.op == O_CAT) {
      for (u32 i = 0; i < n.n; i += 2) {
        u32 lf = (u32)d[i]; u64 ln = (d[i] >> 32) & 0x7fffffff;
        put((d[i] >> 63) | ln << 1 | (u64)(lf != 0) << 62);
        if (!lf) put(d[i + 1]); else if (leafy(lf)) leaf(lf, d[i + 1], ln); else { put(d[i + 1]); dfs(lf); }
      }
    } else if (n.op == O_LIN) { put(d[0]); for (u32 i = 1; i < n.n; i += 2) { put(d[i + 1]); dfs((T)d[i]); } }
    else for (u32 i = 0; i < n.n; i++) dfs((T)d[i]);
  };
  for (T l : lits) { dfs(l); put(0xAAAA); }
  auto it = queryCache.find(shape);
  if (it != queryCache.end()) { queryHits++; return it->second; }
  R r = check(lits, timeout_ms);
  if (r != UNK) queryCache[shape] = r;
  return r;
}
// ---- sweeping ------------------------------------------------------------
// do a and b agree as sums modulo 2^width?  Sums are opened newest first.
static bool sameSum(TermStore &ts, T a, T b) {
  u32 w = ts.W(a); if (w > 64) return false;
  u64 m = w == 64 ? ~0ull : (1ull << w) - 1, k = 0;
  std::map<T, u64, std::greater<T>> d;
  d[a] += 1; d[b] -= 1;
  for (int steps = 0; steps < 400; steps++) {
    T x = 0; u64 c = 0; bool found = false;
    for (auto it = d.begin(); it != d.end();) {
      if (!(it->second & m)) { it = d.erase(it); continue; }
      const Node &n = ts.N(it->first); const u64 *q = ts.D(it->first);
      if (n.op == O_CONST || (n.op == O_LIN && n.width >= w) || (n.op == O_CAT && n.n == 2 && (u32)q[0] && q[1] == 0 && n.width >= w)) { x = it->first; c = it->second; found = true; break; }
      ++it;
    }
    if (!found) break;
    d.erase(x);
    const Node n = ts.N(x); const u64 *q = ts.D(x);
    if (n.op == O_CONST) { k += c * q[0]; continue; }
    if (n.op == O_LIN) { k += c * q[0]; for (u32 i = 1; i < n.n; i += 2) d[(T)q[i]] += c * q[i + 1]; }
    else if (q[0] >> 63) { k -= c; d[(u32)q[0]] -= c; }   // ~x = -x - 1
    else d[(u32)q[0]] += c;
  }
  for (auto &e : d) if (e.second & m) return false;
  return !(k & m);
}
bool Solver::proveSweep(T a, T b) {
  sweepTried++;
  if (sameSum(ts, a, b)) { sweepProved++; return true; }
  // by distance from the two roots first (negative), then the most recent nodes
  static const int limits[] = {-2, -100, -3, -4, 16, -5, -101, 48, -7, 160, 500};
  bool last = false;
  size_t before = 0;
  int unkHere = 0;
  for (int lim : limits) {
    std::unordered_set<T> expanded;
    std::vector<T> ks;
    auto leaf = [&](T t) { Op o = ts.op(t); return o == O_VAR || o == O_APP || o == O_CONST; };
    last = true;
    if (lim <= -100) {
      // bitwise operations down to the next arithmetic ones (-101: the ones after those)
      std::vector<std::pair<T, int>> st = {{a, -100 - lim}, {b, -100 - lim}};
      while (!st.empty() && expanded.size() < 150) {
        auto [t, q] = st.back(); st.pop_back();
        if (leaf(t)) continue;
        Op o = ts.op(t);
        bool ar = o != O_CAT && o != O_AND && o != O_XOR && o != O_ITE;
        if (ar && q <= 0) { last = false; continue; }
        if (!expanded.insert(t).second) continue;
        ks.clear(); ts.kids(t, ks);
        for (T k : ks) st.push_back({k, ar ? q - 1 : q});
      }
      if (!st.empty()) continue;
    } else if (lim < 0) {
      std::vector<T> cur = {a, b}, nx;
      std::unordered_set<T> seen = {a, b};
      for (int d = 0; d < -lim && !cur.empty() && expanded.size() < 120; d++) {
        nx.clear();
        for (T t : cur) {
          if (leaf(t)) continue;
          expanded.insert(t);
          ks.clear(); ts.kids(t, ks);
          for (T k : ks) if (seen.insert(k).second) nx.push_back(k);
        }
        cur.swap(nx);
      }
      for (T t : cur) if (!leaf(t)) last = false;
    } else {
      std::priority_queue<T> pq;
      std::unordered_set<T> inq;
      pq.push(a); pq.push(b); inq.insert(a); inq.insert(b);
      while (!pq.empty() && expanded.size() < (size_t)lim) {
        T t = pq.top(); pq.pop();
        if (leaf(t)) continue;
        expanded.insert(t);
        ks.clear(); ts.kids(t, ks);
        for (T k : ks) if (inq.insert(k).second) pq.push(k);
      }
      last = pq.empty();
    }
    if (lim > 0 && expanded.size() < before) continue;
    if (lim > -100) before = expanded.size();
    // alpha-renamed serialisation
    std::string shape;
    {
      std::unordered_map<T, int> num;
      auto put = [&](u64 x) { shape.append((const char *)&x, 8); };
      // deterministic renaming by depth-first traversal from a then b
      std::function<void(T)> dfs = [&](T t) {
        auto it = num.find(t);
        if (it != num.end()) { put(0xF000000000000000ull | it->second); return; }
        int me = num.size(); num[t] = me;
        const Node &n = ts.N(t);
        if (n.op == O_CONST) { put(0xC000000000000000ull | n.width); put(ts.D(t)[0]); return; }
        if (!expanded.count(t)) { put(0xE000000000000000ull | n.width); return; }
        put(0xD000000000000000ull | (u64)n.op << 40 | (u64)n.n << 20 | n.width);
        const u64 *d = ts.D(t);
        if (n.op == O_CAT) { for (u32 i = 0; i < n.n; i += 2) { put(d[i] >> 32); put(d[i + 1]); if ((u32)d[i]) dfs((u32)d[i]); } }
        else if (n.op == O_LIN) { put(d[0]); for (u32 i = 1; i < n.n; i += 2) { put(d[i + 1]); dfs((T)d[i]); } }
        else for (u32 i = 0; i < n.n; i++) dfs((T)d[i]);
      };
      dfs(a); put(0xAAAA); dfs(b);
    }
    auto it = shapeCache.find(shape);
    bool ok;
    if (it != shapeCache.end()) { shapeHits++; ok = it->second; }
    else {
      R r = checkEqAbstract(a, b, expanded, lim < 0 || lim <= 48 ? 1000 : 5000);
      ok = r == UNSAT;
      shapeCache[shape] = ok;
      if (r == UNK && ++unkHere >= 2) last = true;   // a wider cut is harder still
    }
    if (ok) { sweepProved++; return true; }
    if (last) break;
  }
  return false;
}
Solver::R Solver::checkEqAbstract(T a, T b, const std::unordered_set<T> &expanded, unsigned timeout_ms) {
  auto t0 = std::chrono::steady_clock::now();
  std::unordered_map<T, Z3_ast> M;
  std::vector<T> order(expanded.begin(), expanded.end());
  std::sort(order.begin(), order.end());
  std::function<Z3_ast(T)> G = [&](T t) -> Z3_ast {
    auto it = M.find(t);
    if (it != M.end()) return it->second;
    Z3_ast r;
    if (ts.op(t) == O_CONST) r = bvval(ctx, ts.cval(t), ts.W(t));
    else {
      char nm[32]; snprintf(nm, sizeof nm, "x%u", t);
      r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, ts.W(t)));
    }
    Z3_inc_ref(ctx, r);
    return M[t] = r;
  };
  for (T t : order) {
    const Node &n = ts.N(t);
    const u64 *d = ts.D(t);
    Z3_ast r = nullptr;
    auto b1 = [&](Z3_ast x) { return Z3_mk_ite(ctx, x, bvval(ctx, 1, 1), bvval(ctx, 0, 1)); };
    auto K = [&](int i) { return G((T)d[i]); };
    switch (n.op) {
    case O_CAT:
      for (u32 i = 0; i < n.n; i += 2) {
        u32 lf = (u32)d[i], ln = (d[i] >> 32) & 0x7fffffff;
        Z3_ast p;
        if (!lf) p = bvval(ctx, d[i + 1], ln);
        else {
          p = G(lf);
          if (ts.W(lf) != ln) p = Z3_mk_extract(ctx, d[i + 1] + ln - 1, d[i + 1], p);
          if (d[i] >> 63) p = Z3_mk_bvnot(ctx, p);
        }
        r = r ? Z3_mk_concat(ctx, p, r) : p;
      }
      break;
    case O_LIN:
      r = bvval(ctx, d[0], n.width);
      for (u32 i = 1; i < n.n; i += 2) {
        Z3_ast x = fit(ctx, K(i), ts.W((T)d[i]), n.width);
        if (d[i + 1] != 1) x = Z3_mk_bvmul(ctx, bvval(ctx, d[i + 1], n.width), x);
        r = Z3_mk_bvadd(ctx, r, x);
      }
      break;
    case O_AND: r = K(0); for (u32 i = 1; i < n.n; i++) r = Z3_mk_bvand(ctx, r, K(i)); break;
    case O_XOR: r = K(0); for (u32 i = 1; i < n.n; i++) r = Z3_mk_bvxor(ctx, r, K(i)); break;
    case O_ITE: r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, K(0), bvval(ctx, 1, 1)), K(1), K(2)); break;
    case O_EQ: r = b1(Z3_mk_eq(ctx, K(0), K(1))); break;
    case O_ULT: r = b1(Z3_mk_bvult(ctx, K(0), K(1))); break;
    case O_MUL: r = Z3_mk_bvmul(ctx, K(0), K(1)); break;
    case O_UDIV: r = Z3_mk_bvudiv(ctx, K(0), K(1)); break;
    case O_UREM: r = Z3_mk_bvurem(ctx, K(0), K(1)); break;
    case O_SHL: r = Z3_mk_bvshl(ctx, K(0), K(1)); break;
    case O_LSHR: r = Z3_mk_bvlshr(ctx, K(0), K(1)); break;
    case O_ASHR: r = Z3_mk_bvashr(ctx, K(0), K(1)); break;
    default: return UNK;
    }
    Z3_inc_ref(ctx, r);
    M[t] = r;
  }
  { Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeout_ms); Z3_solver_set_params(ctx, swsol, p); Z3_params_dec_ref(ctx, p); }
  Z3_solver_push(ctx, swsol);
  Z3_solver_assert(ctx, swsol, Z3_mk_not(ctx, Z3_mk_eq(ctx, G(a), G(b))));
  Z3_lbool r = Z3_solver_check(ctx, swsol);
  Z3_solver_pop(ctx, swsol, 1);
  for (auto &e : M) Z3_dec_ref(ctx, e.second);
  queries++;
  secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (r == Z3_L_FALSE) { unsat++; return UNSAT; }
  if (r == Z3_L_TRUE) { sat++; return SAT; }
  unknown++;
  return UNK;
}
