#include "term.hpp"
const char *opName[] = {"none","const","var","app","cat","lin","and","xor","ite","eq","ult","mul","udiv","urem","sdiv","srem","shl","lshr","ashr","hnd","hst","seg"};

TermStore::TermStore() {
  nodes.reserve(1 << 16);
  pool.reserve(1 << 18);
  nodes.push_back(Node{O_NONE, 0, 0, 0, 0, 0, 0, 0});
  rep.push_back(0);
  table.assign(1 << 16, 0);
  tmask = (1 << 16) - 1;
  for (int i = 0; i < NS; i++) sig.push_back(0);
}
void TermStore::grow() {
  u64 ns = table.size() * 2;
  std::vector<u32> nt(ns, 0);
  for (u32 id : table) if (id) {
    u64 h = nodes[id].hash & (ns - 1);
    while (nt[h]) h = (h + 1) & (ns - 1);
    nt[h] = id;
  }
  table.swap(nt);
  tmask = ns - 1;
}
// one value shifted or rotated: follows the value, and high bits of a sum agree
// by chance too often to be worth a query
static bool shifted(Op op, const u64 *d, u32 n) {
  if (op != O_CAT || (n == 2 && d[1] == 0)) return false;   // truncations count as values
  u32 leaf = 0;
  for (u32 i = 0; i < n; i += 2) { u32 l = (u32)d[i]; if (!l) continue; if (leaf && leaf != l) return false; leaf = l; }
  return true;
}
T TermStore::intern(Op op, u32 width, const u64 *d, u32 n, u8 fl) {
  u64 h = mix64(((u64)op << 56) ^ ((u64)width << 24) ^ n);
  for (u32 i = 0; i < n; i++) h = (h ^ mix64(d[i] + 0x9e3779b97f4a7c15ull * (i + 1))) * 0x100000001b3ull, h ^= h >> 29;
  u64 p = h & tmask;
  while (u32 id = table[p]) {
    const Node &k = nodes[id];
    if (k.hash == h && k.op == op && k.width == width && k.n == n && !memcmp(&pool[k.off], d, n * 8)) return rep[id];
    p = (p + 1) & tmask;
  }
  T id = nodes.size();
  if (id > 0xFFFFFFF0u) throw Unsupported("too many terms");
  Node k;
  k.op = op; k.fl = fl; k.width = width; k.n = n; k.off = pool.size(); k.hash = h;
  k.umin = 0; k.umax = maskw(width);
  pool.insert(pool.end(), d, d + n);
  nodes.push_back(k);
  rep.push_back(id);
  table[p] = id;
  if (++tcount * 2 > table.size()) grow();
  if (width <= 64) computeRange(id);
  if (words) {
    sig.resize((size_t)nodes.size() * NS);
    if (width <= 64 && op != O_HND && op != O_HST && op != O_SEG && op != O_APP) {
      computeSig(id);
      if (op != O_CONST && op != O_VAR && width >= 8 && !shifted(op, d, n)) return sweep(id);
    }
  }
  return id;
}
void TermStore::computeRange(T t) {
  Node &k = nodes[t];
  u64 lo = 0, hi = maskw(k.width);
  const u64 *d = &pool[k.off];
  switch (k.op) {
  case O_CONST: lo = hi = d[0]; break;
  case O_CAT: {
    lo = hi = 0; u32 pos = 0;
    for (u32 i = 0; i < k.n; i += 2) {
      u32 leaf = (u32)d[i], len = (d[i] >> 32) & 0x7fffffff; bool ng = d[i] >> 63;
      u64 l, h;
      if (!leaf) l = h = d[i + 1];
      else {
        l = 0; h = maskw(len);
        const Node &q = nodes[leaf];
        if (d[i + 1] == 0 && q.width <= 64) {  // low slice
          if (q.umax <= h) { l = q.umin; h = q.umax; }
          if (ng) { u64 m = maskw(len), a = m - h, b = m - l; l = a; h = b; }
        }
      }
      lo += l << pos; hi += h << pos; pos += len;
    }
    break;
  }
  case O_LIN: {
    // data: k, (t,c)*; exact forms were range checked by linMake (fl==1)
    if (k.fl == 1) {
      i128 a = 0, b = 0;
      i128 M = (i128)1 << k.width;
      auto sg = [&](u64 c) -> i128 { i128 x = c & maskw(k.width); if (x >= M / 2) x -= M; return x; };
      // try signed constant then unsigned
      for (int tr = 0; tr < 2; tr++) {
        i128 kk = tr ? (i128)d[0] : sg(d[0]);
        a = b = kk;
        for (u32 i = 1; i < k.n; i += 2) {
          i128 c = sg(d[i + 1]);
          const Node &q = nodes[(T)d[i]];
          if (c >= 0) { a += c * q.umin; b += c * q.umax; } else { a += c * q.umax; b += c * q.umin; }
        }
        if (a >= 0 && b < M) break;
      }
      if (a >= 0 && b < M) { lo = (u64)a; hi = (u64)b; }
    }
    break;
  }
  case O_ITE: {
    const Node &a = nodes[(T)d[1]], &b = nodes[(T)d[2]];
    if (k.width <= 64) { lo = std::min(a.umin, b.umin); hi = std::max(a.umax, b.umax); }
    break;
  }
  case O_AND: {
    for (u32 i = 0; i < k.n; i++) hi = std::min(hi, nodes[(T)d[i]].umax);
    break;
  }
  case O_UREM: {
    u64 v; if (isConst((T)d[1], v) && v) hi = std::min(nodes[(T)d[0]].umax, v - 1);
    break;
  }
  case O_UDIV: {
    u64 v; if (isConst((T)d[1], v) && v) { lo = nodes[(T)d[0]].umin / v; hi = nodes[(T)d[0]].umax / v; }
    break;
  }
  case O_LSHR: hi = nodes[(T)d[0]].umax; break;
  default: break;
  }
  k.umin = lo; k.umax = hi;
}

T TermStore::konst(u64 v, u32 w) {
  if (w > 64) {
    std::vector<Piece> ps{pc(v, 64)};
    u32 r = w - 64;
    while (r) { u32 l = std::min(r, 64u); ps.push_back(pc(0, l)); r -= l; }
    return cat(ps);
  }
  v &= maskw(w);
  return intern(O_CONST, w, &v, 1);
}
T TermStore::zero(u32 w) { return konst(0, w); }
T TermStore::bytesConst(const u8 *p, u32 n) {
  std::vector<Piece> ps;
  for (u32 i = 0; i < n; i++) ps.push_back(pc(p[i], 8));
  return cat(ps);
}
T TermStore::var(const std::string &name, u32 w) {
  auto it = varByName.find(name);
  if (it != varByName.end()) { if (W(it->second) != w) throw Unsupported("variable redeclared: " + name); return it->second; }
  u64 d = varNames.size();
  varNames.push_back(name);
  T t = intern(O_VAR, w, &d, 1);
  varByName[name] = t;
  return t;
}
int TermStore::fnId(const std::string &s) {
  for (size_t i = 0; i < fnNames.size(); i++) if (fnNames[i] == s) return i;
  fnNames.push_back(s);
  return fnNames.size() - 1;
}
T TermStore::app(const std::string &fn, u32 outw, const std::vector<T> &parts) {
  std::vector<u64> d{(u64)fnId(fn)};
  for (T p : parts) d.push_back(p);
  return intern(O_APP, outw, d.data(), d.size());
}
void TermStore::pieces(T t, std::vector<Piece> &out) const {
  const Node &k = nodes[t];
  if (k.op == O_CONST) { out.push_back(pc(pool[k.off], k.width)); return; }
  if (k.op == O_CAT) {
    const u64 *d = &pool[k.off];
    for (u32 i = 0; i < k.n; i += 2) {
      Piece p; p.leaf = (u32)d[i]; p.len = (d[i] >> 32) & 0x7fffffff; p.neg = d[i] >> 63; p.v = d[i + 1];
      out.push_back(p);
    }
    return;
  }
  Piece p; p.leaf = t; p.len = k.width; p.neg = false; p.v = 0;
  out.push_back(p);
}
T TermStore::pieceTerm(const Piece &p) {
  if (!p.leaf) return konst(p.v, p.len);
  if (!p.neg && p.v == 0 && p.len == W(p.leaf)) return p.leaf;
  std::vector<Piece> v{p};
  return cat(v);
}
T TermStore::cat(const std::vector<Piece> &ps) {
  static thread_local std::vector<u64> d;
  d.clear();
  u32 width = 0;
  u64 cb = 0; u32 cl = 0;  // pending constant bits
  auto flush = [&]() {
    if (cl) { d.push_back((u64)cl << 32); d.push_back(cb); cl = 0; cb = 0; }
  };
  for (const Piece &p : ps) {
    if (!p.len) continue;
    width += p.len;
    if (!p.leaf) {
      u64 v = p.v; u32 l = p.len;
      while (l) {
        u32 take = std::min(l, 64 - cl);
        cb |= (v & maskw(take)) << cl;
        cl += take; l -= take;
        v = take >= 64 ? 0 : v >> take;
        if (cl == 64) flush();
      }
    } else {
      flush();
      if (!d.empty()) {
        u64 w0 = d[d.size() - 2]; u32 lf = (u32)w0; u32 ln = (w0 >> 32) & 0x7fffffff;
        if (lf == p.leaf && (bool)(w0 >> 63) == p.neg && d.back() + ln == p.v) {
          d[d.size() - 2] = (u64)lf | (u64)(ln + p.len) << 32 | (u64)p.neg << 63;
          continue;
        }
      }
      d.push_back((u64)p.leaf | (u64)p.len << 32 | (u64)p.neg << 63);
      d.push_back(p.v);
    }
  }
  flush();
  if (d.size() == 2) {
    u32 lf = (u32)d[0]; u32 ln = (d[0] >> 32) & 0x7fffffff;
    if (!lf) return konst(d[1], ln);
    if (!(d[0] >> 63) && d[1] == 0 && ln == W(lf)) return lf;
  }
  if (d.empty()) throw Unsupported("empty concatenation");
  std::vector<u64> dd(d);
  return intern(O_CAT, width, dd.data(), dd.size());
}
T TermStore::concat(T lo, T hi) {
  std::vector<Piece> ps; pieces(lo, ps); pieces(hi, ps); return cat(ps);
}
void TermStore::slicePieces(T t, u32 lo, u32 len, std::vector<Piece> &out) const {
  const Node &k = nodes[t];
  if (k.op == O_CONST) { out.push_back(pc(lo >= 64 ? 0 : pool[k.off] >> lo, len)); return; }
  if (k.op != O_CAT) { Piece p; p.leaf = t; p.len = len; p.neg = false; p.v = lo; out.push_back(p); return; }
  const u64 *d = &pool[k.off];
  u32 pos = 0, end = lo + len;
  for (u32 i = 0; i < k.n && pos < end; i += 2) {
    u32 ln = (d[i] >> 32) & 0x7fffffff;
    u32 a = std::max(pos, lo), b = std::min(pos + ln, end);
    if (a < b) {
      Piece p; p.leaf = (u32)d[i]; p.neg = d[i] >> 63; p.len = b - a;
      if (p.leaf) p.v = d[i + 1] + (a - pos); else p.v = (d[i + 1] >> (a - pos)) & maskw(b - a);
      out.push_back(p);
    }
    pos += ln;
  }
}
T TermStore::slice(T t, u32 lo, u32 len) {
  u32 w = W(t);
  if (lo + len > w) throw Unsupported("slice out of range");
  if (lo == 0 && len == w) return t;
  static thread_local std::vector<Piece> ps;
  ps.clear();
  slicePieces(t, lo, len, ps);
  std::vector<Piece> q(ps);
  return cat(q);
}
T TermStore::zext(T t, u32 w) {
  u32 k = W(t);
  if (w == k) return t;
  if (w < k) return slice(t, 0, w);
  u64 v;
  if (w <= 64 && isConst(t, v)) return konst(v, w);
  std::vector<Piece> ps; pieces(t, ps);
  u32 r = w - k;
  while (r) { u32 l = std::min(r, 64u); ps.push_back(pc(0, l)); r -= l; }
  return cat(ps);
}
bool TermStore::topZero(T t) const {
  const Node &k = nodes[t];
  if (k.width <= 64) return k.umax < (1ull << (k.width - 1));
  return false;
}
T TermStore::sext(T t, u32 w) {
  u32 k = W(t);
  if (w <= k) return slice(t, 0, w);
  if (topZero(t)) return zext(t, w);
  u64 v;
  if (isConst(t, v)) { i128 x = v; if (v >> (k - 1) & 1) x -= (i128)1 << k; return konst((u64)x, w); }
  std::vector<Piece> ps; pieces(t, ps);
  std::vector<Piece> top; slicePieces(t, k - 1, 1, top);
  for (u32 i = k; i < w; i++) ps.push_back(top[0]);
  return cat(ps);
}
T TermStore::bnot(T t) {
  u64 v;
  if (isConst(t, v)) return konst(~v, W(t));
  std::vector<Piece> ps; pieces(t, ps);
  for (auto &p : ps) if (p.leaf) p.neg = !p.neg; else p.v = ~p.v & maskw(p.len);
  return cat(ps);
}
// split two piece lists of equal width into regions; f(pa,pb) called with pieces of equal length
template <class F> static void zipPieces(const std::vector<Piece> &A, const std::vector<Piece> &B, F f) {
  size_t i = 0, j = 0; u32 oi = 0, oj = 0;
  while (i < A.size() && j < B.size()) {
    u32 l = std::min(A[i].len - oi, B[j].len - oj);
    Piece a = A[i], b = B[j];
    if (a.leaf) a.v += oi; else a.v = (a.v >> oi) & maskw(l);
    if (b.leaf) b.v += oj; else b.v = (b.v >> oj) & maskw(l);
    a.len = b.len = l;
    f(a, b);
    oi += l; oj += l;
    if (oi == A[i].len) { i++; oi = 0; }
    if (oj == B[j].len) { j++; oj = 0; }
  }
}
static bool samePiece(const Piece &a, const Piece &b) { return a.leaf == b.leaf && a.neg == b.neg && a.v == b.v && a.len == b.len; }

T TermStore::andAtom(T a, T b) {
  if (a == b) return a;
  if (a == bnot(b)) return zero(W(a));
  std::vector<u64> d;
  auto addk = [&](T x) {
    if (op(x) == O_AND && N(x).n < naryLimit) { const u64 *p = D(x); d.insert(d.end(), p, p + N(x).n); }
    else d.push_back(x);
  };
  addk(a); addk(b);
  std::sort(d.begin(), d.end());
  d.erase(std::unique(d.begin(), d.end()), d.end());
  if (d.size() == 1) return (T)d[0];
  if (d.size() <= 40)
    for (u64 x : d) { T nx = bnot((T)x); if (std::binary_search(d.begin(), d.end(), (u64)nx)) return zero(W(a)); }
  return intern(O_AND, W(a), d.data(), d.size());
}
T TermStore::band(T a, T b) {
  if (a == b) return a;
  u32 w = W(a);
  u64 x, y;
  bool ca = isConst(a, x), cb = isConst(b, y);
  if (ca && cb) return konst(x & y, w);
  if (w == 1) {
    if (ca) return x ? b : a;
    if (cb) return y ? a : b;
  }
  if (isAtom(a) && isAtom(b)) return andAtom(a, b);
  std::vector<Piece> A, B, R;
  pieces(a, A); pieces(b, B);
  std::vector<Piece> ra, rb;  // pending non-constant region
  auto flush = [&]() {
    if (ra.empty()) return;
    T p = cat(ra), q = cat(rb);
    ra.clear(); rb.clear();
    pieces(andAtom(p, q), R);
  };
  bool anyConst = false;
  for (auto &p : A) if (!p.leaf) anyConst = true;
  for (auto &p : B) if (!p.leaf) anyConst = true;
  if (!anyConst) return andAtom(a, b);
  zipPieces(A, B, [&](const Piece &p, const Piece &q) {
    if (p.leaf && q.leaf) { ra.push_back(p); rb.push_back(q); return; }
    flush();
    if (!p.leaf && !q.leaf) { R.push_back(pc(p.v & q.v, p.len)); return; }
    const Piece &c = p.leaf ? q : p, &s = p.leaf ? p : q;
    u32 i = 0;
    while (i < c.len) {
      bool bit = c.v >> i & 1; u32 j = i;
      while (j < c.len && (bool)(c.v >> j & 1) == bit) j++;
      if (bit) { Piece k = s; k.v += i; k.len = j - i; R.push_back(k); }
      else R.push_back(pc(0, j - i));
      i = j;
    }
  });
  flush();
  return cat(R);
}
T TermStore::xorAtom(T a, T b) {
  u32 w = W(a);
  if (a == b) return zero(w);
  // parity-normalised element set
  bool par = false;
  std::map<T, int> m;
  u64 kc = 0;
  std::function<void(T, bool)> addk = [&](T x, bool flat) {
    u64 v;
    if (isConst(x, v)) { kc ^= v; return; }
    if (op(x) == O_CAT) {
      const u64 *d = D(x);
      bool firstNeg = false;
      for (u32 i = 0; i < N(x).n; i += 2) if ((u32)d[i]) { firstNeg = d[i] >> 63; break; }
      if (firstNeg) { par = !par; x = bnot(x); }
    }
    if (flat && op(x) == O_XOR && N(x).n <= naryLimit) {
      std::vector<u64> c(D(x), D(x) + N(x).n);
      for (u64 y : c) addk((T)y, false);
    } else m[x] ^= 1;
  };
  addk(a, true); addk(b, true);
  if (w <= 64) { if (par) kc ^= maskw(w); }
  std::vector<u64> d;
  for (auto &e : m) if (e.second) d.push_back(e.first);
  bool inv = false;
  if (w <= 64) {
    if (d.empty()) return konst(kc, w);
    if (kc == maskw(w)) { inv = true; kc = 0; }
    if (kc) d.push_back(konst(kc, w));
  } else {
    inv = par;
    if (d.empty()) return inv ? bnot(zero(w)) : zero(w);
  }
  T r;
  if (d.size() == 1) r = (T)d[0];
  else { std::sort(d.begin(), d.end()); r = intern(O_XOR, w, d.data(), d.size()); }
  return inv ? bnot(r) : r;
}
T TermStore::bxor(T a, T b) {
  u32 w = W(a);
  if (a == b) return zero(w);
  u64 x, y;
  bool ca = isConst(a, x), cb = isConst(b, y);
  if (ca && cb) return konst(x ^ y, w);
  if (ca) { std::swap(a, b); std::swap(x, y); std::swap(ca, cb); }
  if (cb) {
    if (y == 0) return a;
    if (w <= 64 && y == maskw(w)) return bnot(a);
  }
  std::vector<Piece> A, B, R;
  pieces(a, A); pieces(b, B);
  std::vector<Piece> ra, rb;
  auto flush = [&]() {
    if (ra.empty()) return;
    T p = cat(ra), q = cat(rb);
    ra.clear(); rb.clear();
    pieces(xorAtom(p, q), R);
  };
  zipPieces(A, B, [&](const Piece &p, const Piece &q) {
    if (!p.leaf && !q.leaf) { flush(); R.push_back(pc(p.v ^ q.v, p.len)); return; }
    if (p.leaf && q.leaf) { ra.push_back(p); rb.push_back(q); return; }
    const Piece &c = p.leaf ? q : p, &s = p.leaf ? p : q;
    if (c.v == 0) { flush(); R.push_back(s); return; }
    if (c.v == maskw(c.len)) { flush(); Piece k = s; k.neg = !k.neg; R.push_back(k); return; }
    if (words) { ra.push_back(p); rb.push_back(q); return; }
    flush();
    u32 i = 0;
    while (i < c.len) {
      bool bit = c.v >> i & 1; u32 j = i;
      while (j < c.len && (bool)(c.v >> j & 1) == bit) j++;
      Piece k = s; k.v += i; k.len = j - i; if (bit) k.neg = !k.neg; R.push_back(k);
      i = j;
    }
  });
  flush();
  return cat(R);
}

// ---- linear arithmetic -------------------------------------------------
void TermStore::linAcc(Lin &L, T t, u64 c, u32 w, bool expand) {
  u64 v;
  u64 m = maskw(w);
  c &= m;
  if (!c) return;
  if (isConst(t, v)) { L.k = (L.k + c * v) & m; return; }
  Op o = op(t);
  if (o == O_CAT) {
    const Node &k = N(t);
    const u64 *d = D(t);
    // strip trailing zero constant chunk
    if (k.n >= 4 && (u32)d[0] == 0) {
      u32 l = (d[0] >> 32) & 0x7fffffff; u64 cv = d[1];
      T hi = slice(t, l, k.width - l);
      L.k = (L.k + c * cv) & m;
      if (l < 64) linAcc(L, hi, c << l, w, expand);
      return;
    }
    // strip leading constant
    u32 e = k.n - 2;
    if (k.n >= 4 && (u32)d[e] == 0) {
      u32 l = (d[e] >> 32) & 0x7fffffff; u64 cv = d[e + 1];
      u32 sh = k.width - l;
      if (sh < 64) L.k = (L.k + c * (cv << sh)) & m;
      T lo = slice(t, 0, sh);
      linAcc(L, lo, c, w, expand);
      return;
    }
    // single negated piece: ~x = (2^len-1) - x
    if (k.n == 2 && d[0] >> 63) {
      T x = bnot(t);
      L.k = (L.k + c * maskw(k.width)) & m;
      linAcc(L, x, (0 - c) & m, w, expand);
      return;
    }
  } else if (o == O_LIN && expand) {
    const Node &k = N(t);
    if (k.width >= w || k.fl == 1) {
      // exact forms may be expanded at any width; modular ones only at the same width
      if (k.fl == 1 || k.width == w) {
        std::vector<u64> d(D(t), D(t) + k.n);
        u64 M2 = k.width >= 64 ? 0 : (1ull << k.width);
        auto sx = [&](u64 q) -> u64 { if (k.width < 64 && k.fl == 1 && (q >> (k.width - 1) & 1)) return q - M2; return q; };
        if (k.fl == 1 && k.width < 64) {
          // recover the integer constant giving a value in range (see computeRange)
          i128 M = (i128)1 << k.width;
          i128 kk = d[0]; if (kk >= M / 2) kk -= M;
          for (int tr = 0; tr < 2; tr++) {
            i128 a = tr ? (i128)d[0] : kk, b = a;
            for (u32 i = 1; i < k.n; i += 2) {
              i128 cc = d[i + 1]; if (cc >= M / 2) cc -= M;
              const Node &q = nodes[(T)d[i]];
              if (cc >= 0) { a += cc * q.umin; b += cc * q.umax; } else { a += cc * q.umax; b += cc * q.umin; }
            }
            if (a >= 0 && b < M) { L.k = (L.k + c * (u64)(tr ? (i128)d[0] : kk)) & m; break; }
          }
        } else L.k = (L.k + c * d[0]) & m;
        for (u32 i = 1; i < k.n; i += 2) linAcc(L, (T)d[i], c * sx(d[i + 1]), w, false);
        return;
      }
    }
  }
  for (auto &e : L.e) if (e.first == t) { e.second = (e.second + c) & m; return; }
  L.e.push_back({t, c});
}
T TermStore::linMake(Lin &L, u32 w) {
  u64 m = maskw(w);
  std::vector<std::pair<T, u64>> e;
  for (auto &x : L.e) if (x.second & m) e.push_back({x.first, x.second & m});
  L.k &= m;
  if (e.empty()) return konst(L.k, w);
  std::sort(e.begin(), e.end());
  if (e.size() == 1 && L.k == 0) {
    u64 c = e[0].second;
    if ((c & (c - 1)) == 0) {
      u32 sh = __builtin_ctzll(c);
      T x = e[0].first;
      u32 xw = W(x);
      std::vector<Piece> ps;
      if (sh) ps.push_back(pc(0, sh));
      if (xw > w - sh) slicePieces(x, 0, w - sh, ps); else { pieces(x, ps); }
      u32 tot = 0; for (auto &p : ps) tot += p.len;
      if (tot < w) ps.push_back(pc(0, w - tot));
      return cat(ps);
    }
  }
  // exact integer form?
  if (w <= 64) {
    i128 M = (i128)1 << w;
    auto sg = [&](u64 c) -> i128 { i128 x = c; if (x >= M / 2) x -= M; return x; };
    for (int tr = 0; tr < 2; tr++) {
      i128 kk = tr ? (i128)L.k : sg(L.k);
      i128 a = kk, b = kk; bool ok = true;
      for (auto &x : e) {
        const Node &q = nodes[x.first];
        if (q.width > 64) { ok = false; break; }
        i128 c = sg(x.second);
        i128 lo = q.umin, hi = q.umax;
        if (c > ((i128)1 << 62) || c < -((i128)1 << 62)) { ok = false; break; }
        if (c >= 0) { a += c * lo; b += c * hi; } else { a += c * hi; b += c * lo; }
      }
      if (ok && a >= 0 && b < M) {
        u32 nw = 1; while (nw < w && ((i128)1 << nw) <= b) nw++;
        u64 nm = maskw(nw);
        // coefficients must stay recoverable as signed values at the reduced width
        for (;;) {
          bool fits = true;
          i128 MM = (i128)1 << nw;
          for (auto &x : e) { i128 c = sg(x.second); if (c >= MM / 2 || c < -(MM / 2)) fits = false; }
          if (kk >= MM || kk < -(MM / 2)) fits = false;
          if (fits || nw >= w) break;
          nw++;
        }
        nm = maskw(nw);
        std::vector<u64> d{(u64)kk & nm};
        for (auto &x : e) { d.push_back(x.first); d.push_back(x.second & nm); }
        T r = intern(O_LIN, nw, d.data(), d.size(), 1);
        return zext(r, w);
      }
    }
  }
  std::vector<u64> d{L.k};
  for (auto &x : e) { d.push_back(x.first); d.push_back(x.second); }
  return intern(O_LIN, w, d.data(), d.size(), 0);
}
bool TermStore::disjointCat(T a, T b, T &out) {
  // at every bit position at most one operand is not the constant 0
  std::vector<Piece> A, B, R;
  pieces(a, A); pieces(b, B);
  if (A.size() == 1 && A[0].leaf) { if (!(B.size() == 1 && !B[0].leaf && B[0].v == 0)) return false; }
  if (B.size() == 1 && B[0].leaf) { if (!(A.size() == 1 && !A[0].leaf && A[0].v == 0)) return false; }
  bool ok = true;
  zipPieces(A, B, [&](const Piece &p, const Piece &q) {
    if (!ok) return;
    if (!p.leaf && !q.leaf) { if (p.v & q.v) ok = false; else R.push_back(pc(p.v | q.v, p.len)); }
    else if (!p.leaf) { if (p.v) ok = false; else R.push_back(q); }
    else if (!q.leaf) { if (q.v) ok = false; else R.push_back(p); }
    else ok = false;
  });
  if (!ok) return false;
  out = cat(R);
  return true;
}
T TermStore::add(T a, T b) {
  u32 w = W(a);
  u64 x, y;
  bool ca = isConst(a, x), cb = isConst(b, y);
  if (ca && cb) return konst(x + y, w);
  if (ca && x == 0) return b;
  if (cb && y == 0) return a;
  T o;
  if (disjointCat(a, b, o)) return o;
  if (w > 64) throw Unsupported("wide add");
  Lin L;
  linAcc(L, a, 1, w, true); linAcc(L, b, 1, w, true);
  if (L.e.size() > linLimit) { L = Lin(); linAcc(L, a, 1, w, false); linAcc(L, b, 1, w, false); }
  return linMake(L, w);
}
T TermStore::sub(T a, T b) {
  u32 w = W(a);
  if (a == b) return zero(w);
  u64 x, y;
  bool ca = isConst(a, x), cb = isConst(b, y);
  if (ca && cb) return konst(x - y, w);
  if (cb && y == 0) return a;
  Lin L;
  linAcc(L, a, 1, w, true); linAcc(L, b, ~0ull, w, true);
  if (L.e.size() > linLimit) { L = Lin(); linAcc(L, a, 1, w, false); linAcc(L, b, ~0ull, w, false); }
  return linMake(L, w);
}
T TermStore::linScale(T a, u64 c) {
  u32 w = W(a);
  u64 v;
  if (isConst(a, v)) return konst(v * c, w);
  Lin L;
  linAcc(L, a, c & maskw(w), w, true);
  return linMake(L, w);
}
T TermStore::mul(T a, T b) {
  u64 x;
  if (isConst(b, x)) return linScale(a, x);
  if (isConst(a, x)) return linScale(b, x);
  if (a > b) std::swap(a, b);
  return opaque2(O_MUL, a, b);
}
T TermStore::opaque2(Op o, T a, T b) {
  u64 d[2] = {a, b};
  return intern(o, W(a), d, 2);
}
T TermStore::udiv(T a, T b) {
  u64 x, y;
  u32 w = W(a);
  if (isConst(b, y) && y) {
    if (isConst(a, x)) return konst(x / y, w);
    if ((y & (y - 1)) == 0) { u32 s = __builtin_ctzll(y); return lshr(a, konst(s, w)); }
    if (w <= 64 && N(a).umax < y) return zero(w);
  }
  return opaque2(O_UDIV, a, b);
}
T TermStore::urem(T a, T b) {
  u64 x, y;
  u32 w = W(a);
  if (isConst(b, y) && y) {
    if (isConst(a, x)) return konst(x % y, w);
    if ((y & (y - 1)) == 0) return band(a, konst(y - 1, w));
    if (w <= 64 && N(a).umax < y) return a;
  }
  return opaque2(O_UREM, a, b);
}
T TermStore::shl(T a, T b) {
  u64 s; u32 w = W(a);
  if (!isConst(b, s)) return opaque2(O_SHL, a, b);
  if (s >= w) return zero(w);
  if (!s) return a;
  u64 x; if (isConst(a, x)) return konst(x << s, w);
  std::vector<Piece> ps{pc(0, (u32)s)};
  slicePieces(a, 0, w - s, ps);
  return cat(ps);
}
T TermStore::lshr(T a, T b) {
  u64 s; u32 w = W(a);
  if (!isConst(b, s)) return opaque2(O_LSHR, a, b);
  if (s >= w) return zero(w);
  if (!s) return a;
  return zext(slice(a, s, w - s), w);
}
T TermStore::ashr(T a, T b) {
  u64 s; u32 w = W(a);
  if (topZero(a)) return lshr(a, b);
  if (!isConst(b, s)) return opaque2(O_ASHR, a, b);
  if (s >= w) s = w - 1;
  if (!s) return a;
  return sext(slice(a, s, w - s), w);
}
bool TermStore::linLook(T t, T &base, int &sgn, i128 &k) {
  // t (possibly zero-extended) == sgn*base + k exactly
  T x = t;
  if (op(x) == O_CAT) {
    const u64 *d = D(x);
    if (N(x).n == 4 && (u32)d[2] == 0 && d[3] == 0 && (u32)d[0] && d[1] == 0 && !(d[0] >> 63) &&
        ((d[0] >> 32) & 0x7fffffff) == W((u32)d[0])) x = (u32)d[0];
    else return false;
  }
  if (op(x) != O_LIN || N(x).fl != 1 || N(x).n != 3) return false;
  const u64 *d = D(x);
  u32 w = W(x);
  i128 M = (i128)1 << w;
  i128 c = d[2]; if (c >= M / 2) c -= M;
  if (w == 1 && d[2] == 1) c = 1;
  if (c != 1 && c != -1) return false;
  const Node &q = nodes[(T)d[1]];
  i128 ks = d[0]; if (ks >= M / 2) ks -= M;
  for (int tr = 0; tr < 2; tr++) {
    i128 kk = tr ? (i128)d[0] : ks;
    i128 a = kk + (c > 0 ? (i128)q.umin : -(i128)q.umax), b = kk + (c > 0 ? (i128)q.umax : -(i128)q.umin);
    if (a >= 0 && b < M) { base = (T)d[1]; sgn = (int)c; k = kk; return true; }
  }
  return false;
}
T TermStore::eq(T a, T b) {
  if (a == b) return tru();
  u32 w = W(a);
  u64 x, y;
  bool ca = isConst(a, x), cb = isConst(b, y);
  if (ca && cb) return konst(x == y, 1);
  if (ca) { std::swap(a, b); std::swap(x, y); std::swap(ca, cb); }
  if (w <= 64) {
    if (N(a).umax < N(b).umin || N(b).umax < N(a).umin) return fls();
  }
  if (w == 1) {
    if (cb) return y ? a : bnot(a);
    return bnot(bxor(a, b));
  }
  if (cb) {
    T base; int sg; i128 k;
    if (linLook(a, base, sg, k)) {
      i128 v = sg > 0 ? (i128)y - k : k - (i128)y;
      if (v < 0 || v > (i128)maskw(W(base))) return fls();
      return eq(base, konst((u64)v, W(base)));
    }
  }
  std::vector<Piece> A, B;
  pieces(a, A); pieces(b, B);
  if (A.size() == 1 && B.size() == 1) {
    if (cb && A[0].leaf && A[0].neg) return eq(bnot(a), bnot(b));
    if (cb && w <= 64 && y == maskw(w) && op(a) == O_AND) {   // all ones: each operand is
      std::vector<u64> ks(D(a), D(a) + N(a).n);
      T r = tru();
      for (u64 k : ks) r = band(r, eq((T)k, b));
      return r;
    }
    if (cb && y == 0 && op(a) == O_XOR && N(a).n == 2) { T p = (T)D(a)[0], q = (T)D(a)[1]; return eq(p, q); }
    if (op(a) == O_ITE && cb) {
      const u64 *d = D(a);
      T c = (T)d[0], p = (T)d[1], q = (T)d[2];
      if (isConst(p) || isConst(q)) return ite(c, eq(p, b), eq(q, b));
    }
    if (a > b && !cb) std::swap(a, b);
    u64 d[2] = {a, b};
    return intern(O_EQ, 1, d, 2);
  }
  // conjunction of region equalities
  T r = tru();
  bool bad = false;
  std::vector<std::pair<T, T>> regs;
  zipPieces(A, B, [&](const Piece &p, const Piece &q) {
    if (bad) return;
    if (samePiece(p, q)) return;
    if (!p.leaf && !q.leaf) { if (p.v != q.v) bad = true; return; }
    regs.push_back({pieceTerm(p), pieceTerm(q)});
  });
  if (bad) return fls();
  for (auto &g : regs) {
    T p = g.first, q = g.second;
    T e;
    if (isConst(p)) std::swap(p, q);
    if (W(p) == 1) e = eq(p, q);
    else if (isAtom(p) || (isAtom(q))) {
      std::vector<Piece> P, Q; pieces(p, P); pieces(q, Q);
      if (P.size() == 1 && Q.size() == 1 && !P[0].neg) {
        if (isConst(q) && isAtom(p)) e = eq(p, q);
        else { if (p > q && !isConst(q)) std::swap(p, q); u64 d[2] = {p, q}; e = intern(O_EQ, 1, d, 2); }
      } else e = eq(p, q);
    } else {
      // slices: normalise a negated slice against a constant
      std::vector<Piece> P; pieces(p, P);
      if (P.size() == 1 && P[0].neg) { p = bnot(p); q = bnot(q); }
      if (p > q && !isConst(q)) std::swap(p, q);
      u64 d[2] = {p, q};
      e = intern(O_EQ, 1, d, 2);
    }
    r = band(r, e);
    if (isConst(r, x) && !x) return r;
  }
  return r;
}
T TermStore::ult(T a, T b) {
  if (a == b) return fls();
  u32 w = W(a);
  u64 x, y;
  bool ca = isConst(a, x), cb = isConst(b, y);
  if (ca && cb) return konst(x < y, 1);
  if (w > 64) throw Unsupported("wide comparison");
  if (N(a).umax < N(b).umin) return tru();
  if (N(a).umin >= N(b).umax) return fls();
  if (cb) {
    if (y == 0) return fls();
    T base; int sg; i128 k;
    if (linLook(a, base, sg, k)) {
      i128 v = sg > 0 ? (i128)y - k : k - (i128)y;  // sg>0: base < v ; sg<0: base > v
      i128 mx = maskw(W(base));
      if (sg > 0) { if (v <= 0) return fls(); if (v > mx) return tru(); return ult(base, konst((u64)v, W(base))); }
      if (v < 0) return tru(); if (v >= mx) return fls();
      return bnot(ult(base, konst((u64)v + 1, W(base))));
    }
  }
  if (ca) {
    T base; int sg; i128 k;
    if (linLook(b, base, sg, k)) {  // x < b  <=>  !(b < x+1)
      if (x == maskw(w)) return fls();
      return bnot(ult(b, konst(x + 1, w)));
    }
    if (x != maskw(w)) return bnot(ult(b, konst(x + 1, w)));
  }
  // narrow away common zero high bits
  u64 mx = std::max(N(a).umax, N(b).umax);
  u32 nw = 1; while (nw < 64 && (mx >> nw)) nw++;
  if (nw < w) return ult(slice(a, 0, nw), slice(b, 0, nw));
  if (cb) {
    if (y == 1) return eq(a, zero(w));
    if (y == N(a).umax) return bnot(eq(a, konst(y, w)));
    if (y == N(a).umin + 1) return eq(a, konst(N(a).umin, w));
    if (op(a) == O_ITE) {
      const u64 *d = D(a);
      T c = (T)d[0], p = (T)d[1], q = (T)d[2];
      T r1 = ult(p, b), r2 = ult(q, b);
      if (isConst(r1) || isConst(r2)) return ite(c, r1, r2);
    }
    // a multiple-of-2^k constant only depends on the high bits
    u32 tz = __builtin_ctzll(y);
    if (tz && tz < w) return ult(slice(a, tz, w - tz), konst(y >> tz, w - tz));
    // single negated slice
    if (op(a) == O_CAT && N(a).n == 2 && D(a)[0] >> 63) {
      // ~x < y  <=>  x > max-y
      return ult(konst(maskw(w) - y, w), bnot(a));
    }
  }
  u64 d[2] = {a, b};
  return intern(O_ULT, 1, d, 2);
}
T TermStore::slt(T a, T b) {
  if (topZero(a) && topZero(b)) return ult(a, b);
  u32 w = W(a);
  if (w > 64) throw Unsupported("wide comparison");
  T m = konst(1ull << (w - 1), w);
  bool sw = words; words = false;
  T r = ult(bxor(a, m), bxor(b, m));
  words = sw;
  return r;
}
T TermStore::ite(T c, T a, T b) {
  u64 x, y;
  if (isConst(c, x)) return x ? a : b;
  if (a == b) return a;
  if (W(a) != W(b)) throw Unsupported("ite width");
  // canonical positive condition
  if (op(c) == O_CAT) {
    const u64 *d = D(c);
    if (d[0] >> 63) return ite(bnot(c), b, a);
  }
  u32 w = W(a);
  if (w == 1) {
    bool ka = isConst(a, x), kb = isConst(b, y);
    if (ka && kb) return x ? c : bnot(c);
    if (ka) return x ? bor(c, b) : band(bnot(c), b);
    if (kb) return y ? bor(bnot(c), a) : band(c, a);
    if (a == c) return bor(c, b);
    if (b == c) return band(c, a);
    if (a == bnot(b)) return bnot(bxor(c, a));
  }
  // nested same condition
  if (op(a) == O_ITE && (T)D(a)[0] == c) return ite(c, (T)D(a)[1], b);
  if (op(b) == O_ITE && (T)D(b)[0] == c) return ite(c, a, (T)D(b)[2]);
  std::vector<Piece> A, B, R, C;
  pieces(a, A); pieces(b, B);
  if (A.size() == 1 && B.size() == 1 && A[0].leaf && B[0].leaf) {
    u64 d[3] = {c, a, b};
    return intern(O_ITE, w, d, 3);
  }
  pieces(c, C);
  std::vector<Piece> ra, rb;
  auto flush = [&]() {
    if (ra.empty()) return;
    T p = cat(ra), q = cat(rb);
    ra.clear(); rb.clear();
    u64 d[3] = {c, p, q};
    pieces(intern(O_ITE, W(p), d, 3), R);
  };
  zipPieces(A, B, [&](const Piece &p, const Piece &q) {
    if (samePiece(p, q)) { flush(); R.push_back(p); return; }
    if (!p.leaf && !q.leaf) {
      flush();
      for (u32 i = 0; i < p.len; i++) {
        bool u = p.v >> i & 1, v = q.v >> i & 1;
        if (u == v) R.push_back(pc(u, 1));
        else { Piece k = C[0]; if (!u) k.neg = !k.neg; R.push_back(k); }
      }
      return;
    }
    flush();
    ra.push_back(p); rb.push_back(q);
    flush();
  });
  return cat(R);
}
// ---- simulation and sweeping -------------------------------------------
u64 TermStore::simSlice(T leaf, u32 lo, u32 len, int s) const {
  const Node &k = nodes[leaf];
  if (k.op == O_VAR) {
    u32 wi = lo >> 6, sh = lo & 63;
    u64 v = simVarWord(leaf, s, wi) >> sh;
    if (sh && sh + len > 64) v |= simVarWord(leaf, s, wi + 1) << (64 - sh);
    return v & maskw(len);
  }
  return (sig[(size_t)leaf * NS + s] >> lo) & maskw(len);
}
void TermStore::computeSig(T t) {
  const Node k = nodes[t];
  const u64 *d = &pool[k.off];
  u64 m = maskw(k.width);
  for (int s = 0; s < NS; s++) {
    u64 r = 0;
    auto S = [&](u64 q) { return simSlice((T)q, 0, nodes[(T)q].width > 64 ? 64 : nodes[(T)q].width, s); };
    switch (k.op) {
    case O_CONST: r = d[0]; break;
    case O_VAR: r = simSlice(t, 0, k.width, s); break;
    case O_CAT: {
      u32 pos = 0;
      for (u32 i = 0; i < k.n; i += 2) {
        u32 lf = (u32)d[i], ln = (d[i] >> 32) & 0x7fffffff;
        u64 v = lf ? simSlice(lf, d[i + 1], ln, s) : d[i + 1];
        if (d[i] >> 63) v = ~v & maskw(ln);
        r |= v << pos; pos += ln;
      }
      break;
    }
    case O_LIN: r = d[0]; for (u32 i = 1; i < k.n; i += 2) r += S(d[i]) * d[i + 1]; break;
    case O_AND: r = ~0ull; for (u32 i = 0; i < k.n; i++) r &= S(d[i]); break;
    case O_XOR: for (u32 i = 0; i < k.n; i++) r ^= S(d[i]); break;
    case O_ITE: r = S(d[0]) & 1 ? S(d[1]) : S(d[2]); break;
    case O_EQ: r = S(d[0]) == S(d[1]); break;
    case O_ULT: r = S(d[0]) < S(d[1]); break;
    case O_MUL: r = S(d[0]) * S(d[1]); break;
    case O_UDIV: { u64 q = S(d[1]); r = q ? S(d[0]) / q : ~0ull; break; }
    case O_UREM: { u64 q = S(d[1]); r = q ? S(d[0]) % q : S(d[0]); break; }
    case O_SHL: { u64 q = S(d[1]); r = q >= k.width ? 0 : S(d[0]) << q; break; }
    case O_LSHR: { u64 q = S(d[1]); r = q >= k.width ? 0 : S(d[0]) >> q; break; }
    default: r = mix64(t * 77 + s); break;
    }
    sig[(size_t)t * NS + s] = r & m;
  }
}
T TermStore::sweep(T t) {
  if (!sweepProve) return t;
  u64 h = W(t);
  for (int s = 0; s < NS; s++) h = mix64(h ^ sig[(size_t)t * NS + s]) + s;
  auto &v = sigTab[h];
  int tries = 0;
  for (T c : v) {
    if (W(c) != W(t) || memcmp(&sig[(size_t)c * NS], &sig[(size_t)t * NS], NS * 8)) continue;
    if (++tries > 3) break;
    if (sweepProve(c, t)) { rep[t] = c; sweepHits++; return c; }
  }
  sigTab[h].push_back(t);
  return t;
}
void TermStore::kids(T t, std::vector<T> &out) const {
  const Node &k = nodes[t];
  const u64 *d = &pool[k.off];
  switch (k.op) {
  case O_CONST: case O_VAR: case O_NONE: break;
  case O_CAT: for (u32 i = 0; i < k.n; i += 2) if ((u32)d[i]) out.push_back((u32)d[i]); break;
  case O_LIN: for (u32 i = 1; i < k.n; i += 2) out.push_back((T)d[i]); break;
  case O_APP: for (u32 i = 1; i < k.n; i++) out.push_back((T)d[i]); break;
  case O_HND: for (u32 i = 3; i < k.n; i++) out.push_back((T)d[i]); break;
  case O_HST: for (u32 i = 1; i < k.n; i++) out.push_back((T)d[i]); break;
  case O_SEG: out.push_back((T)d[1]); out.push_back((T)d[2]); break;
  default: for (u32 i = 0; i < k.n; i++) out.push_back((T)d[i]); break;
  }
}
std::string TermStore::str(T t, int depth) const {
  const Node &k = nodes[t];
  const u64 *d = &pool[k.off];
  char buf[96];
  switch (k.op) {
  case O_CONST: snprintf(buf, sizeof buf, "0x%llx:%u", (unsigned long long)d[0], k.width); return buf;
  case O_VAR: return varNames[d[0]];
  default: break;
  }
  if (depth <= 0) { snprintf(buf, sizeof buf, "#%u", t); return buf; }
  std::string r = std::string("(") + opName[k.op];
  if (k.op == O_APP) r += " " + fnNames[d[0]];
  if (k.op == O_CAT) {
    for (u32 i = 0; i < k.n; i += 2) {
      u32 lf = (u32)d[i], ln = (d[i] >> 32) & 0x7fffffff;
      if (lf) { snprintf(buf, sizeof buf, "[%llu+%u]", (unsigned long long)d[i + 1], ln); r += std::string(" ") + (d[i] >> 63 ? "~" : "") + str(lf, depth - 1) + buf; }
      else { snprintf(buf, sizeof buf, " 0x%llx:%u", (unsigned long long)d[i + 1], ln); r += buf; }
      if (r.size() > 1500) { r += " ..."; break; }
    }
  } else {
    std::vector<T> ks; kids(t, ks);
    if (k.op == O_LIN) { snprintf(buf, sizeof buf, " k=0x%llx", (unsigned long long)d[0]); r += buf; }
    u32 i = 0;
    for (T q : ks) {
      if (k.op == O_LIN) { snprintf(buf, sizeof buf, " 0x%llx*", (unsigned long long)d[2 + 2 * i]); r += buf; }
      else r += " ";
      r += str(q, depth - 1); i++;
      if (r.size() > 1500) { r += " ..."; break; }
    }
  }
  return r + ")";
}
