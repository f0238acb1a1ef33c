// The interpreter loop, calls, intrinsics and the summarised hash primitives.
#include "exec.hpp"
#include <time.h>
static inline u64 sx(u64 v, u32 w) { return w >= 64 ? v : (u64)((int64_t)(v << (64 - w)) >> (64 - w)); }

void Exec::enter(State &s, int blk) {
  Frame &f = s.st.back();
  const Block &B = f.f->blocks[blk];
  if (!B.phiDst.empty()) {
    auto it = B.phis.find(f.blk);
    if (it == B.phis.end()) throw Unsupported("phi without a predecessor");
    const auto &pc = it->second;
    if (pc.size() == 1) { Val v = pc[0].src >= 0 ? f.r[pc[0].src] : f.f->consts[~pc[0].src]; f.r[pc[0].dst] = v; }
    else {
      Val tmp[64]; std::vector<Val> big; Val *t = tmp;
      if (pc.size() > 64) { big.resize(pc.size()); t = big.data(); }
      for (size_t i = 0; i < pc.size(); i++) t[i] = pc[i].src >= 0 ? f.r[pc[i].src] : f.f->consts[~pc[i].src];
      for (size_t i = 0; i < pc.size(); i++) f.r[pc[i].dst] = t[i];
    }
  }
  f.prev = f.blk; f.blk = blk; f.ip = 0;
}
void Exec::ret(State &s, const Val *v) {
  Frame &f = s.st.back();
  for (u32 a : f.allocas) { s.objs[a] = ObjP(); s.gen[a]++; s.freeSlots.push_back(a); }
  int dst = f.ret;
  s.autoNow -= f.autos;
  Val r; if (v) r = *v;
  s.st.pop_back();
  if (!s.st.empty() && dst >= 0) s.st.back().r[dst] = r;
}
Exec::Ev Exec::run(State *sp, int D, int B) {
  State &s = *sp;
  auto stopped = [&]() -> bool {
    if (B < 0) return (int)s.st.size() <= D;
    if ((int)s.st.size() - 1 != D) return false;
    Frame &f = s.st.back();
    return f.blk == B && f.ip == 0;
  };
  if (s.st.empty()) return E_STOP;
  if (stopped()) return E_STOP;
  Val tmpA, tmpB;
  for (;;) {
  refetch:
    Frame *f = &s.st.back();
    Func *F = f->f;
    Val *R = f->r.data();
    const Ins *code = F->blocks[f->blk].ins.data();
    auto V = [&](int o) -> const Val & {
      if (o < 0) {
        const Val &c = F->consts[~o];
        if (c.k == K_UNDEF) { static thread_local Val t; t = fromTerm(ts.var("undef#" + std::to_string(undefCounter++), c.w ? c.w : 64)); return t; }
        return c;
      }
      Val &v = R[o];
      if (v.k == K_UNDEF) { return v; }
      return v;
    };
    auto fix = [&](int o, u32 w) {   // give an undefined register one arbitrary but fixed value
      if (o >= 0 && R[o].k == K_UNDEF) R[o] = fromTerm(ts.var("undef#" + std::to_string(undefCounter++), w));
      if (o >= 0 && R[o].k == K_POISON) throw Unsupported("use of an unmerged value");
    };
    for (;;) {
      const Ins &I = code[f->ip];
      instrs++;
      if (s.budget != ~0ull && s.budget-- == 0) { truncated++; return E_DEAD; }
      if ((instrs & 0xfffff) == 0) {
        if (instrs > maxInstr) throw Unsupported("instruction limit");
        limits();
        if (deadline) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); if (t.tv_sec + t.tv_nsec * 1e-9 > deadline) throw Unsupported("time limit"); }
      }
      // a pointer that depends on a condition: settle it, or fork unless the operation can select
      auto settle = [&](int o) -> bool {
        if (o < 0 || R[o].k != K_CHO) return true;
        R[o] = pick(s.pc, R[o]);
        return R[o].k != K_CHO;
      };
      auto split = [&](int o) { T c = choTab[R[o].a].c; leakCheck(s, c, "address or length depends on a secret"); forkCond = c; return E_FORK; };
      switch (I.op) {
      case I_NOP: f->ip++; break;
      case I_ADD: case I_SUB: case I_MUL: case I_UDIV: case I_SDIV: case I_UREM: case I_SREM:
      case I_SHL: case I_LSHR: case I_ASHR: case I_AND: case I_OR: case I_XOR: {
        if (!settle(I.a)) return split(I.a);
        if (!settle(I.b)) return split(I.b);
        fix(I.a, I.w); fix(I.b, I.w);
        const Val &a = V(I.a), &b = V(I.b);
        if (a.k == K_INT && b.k == K_INT) {
          u64 x = (u64)a.v, y = (u64)b.v, r = 0; u32 w = I.w;
          switch (I.op) {
          case I_ADD: r = x + y; break;
          case I_SUB: r = x - y; break;
          case I_MUL: r = x * y; break;
          case I_UDIV: case I_UREM: case I_SDIV: case I_SREM:
            if (!y) { report(s, "ub", "division by zero", s.pc, nullptr, ""); return E_DEAD; }
            if (I.op == I_UDIV) r = x / y;
            else if (I.op == I_UREM) r = x % y;
            else { i128 p = (int64_t)sx(x, w), q = (int64_t)sx(y, w); r = (u64)(int64_t)(I.op == I_SDIV ? p / q : p % q); }
            break;
          case I_SHL: case I_LSHR: case I_ASHR:
            if (y >= w) { report(s, "ub", "shift amount too large", s.pc, nullptr, ""); r = 0; break; }
            if (I.op == I_SHL) r = x << y;
            else if (I.op == I_LSHR) r = x >> y;
            else r = (u64)((int64_t)sx(x, w) >> y);
            break;
          case I_AND: r = x & y; break;
          case I_OR: r = x | y; break;
          case I_XOR: r = x ^ y; break;
          }
          R[I.dst] = Val::I(r, w);
          f->ip++; break;
        }
        if (a.k == K_PTR || b.k == K_PTR) {
          if (I.op == I_SUB && a.k == K_PTR && b.k == K_PTR && a.a == b.a) { R[I.dst] = Val::I((u64)(a.v - b.v), 64); f->ip++; break; }
          if (I.op == I_ADD && a.k == K_PTR && b.k == K_INT) { Val r = a; r.v += b.v; R[I.dst] = r; f->ip++; break; }
          if (I.op == I_ADD && b.k == K_PTR && a.k == K_INT) { Val r = b; r.v += a.v; R[I.dst] = r; f->ip++; break; }
          if (I.op == I_SUB && a.k == K_PTR && b.k == K_INT) { Val r = a; r.v -= b.v; R[I.dst] = r; f->ip++; break; }
        }
        T x = term(a), y = term(b), r;
        switch (I.op) {
        case I_ADD: r = ts.add(x, y); break;
        case I_SUB: r = ts.sub(x, y); break;
        case I_MUL: r = ts.mul(x, y); break;
        case I_UDIV: case I_UREM: case I_SDIV: case I_SREM: {
          int z = decide(s.pc, ts.eq(y, ts.zero(I.w)));
          if (z != 0) {
            report(s, "ub", "division by zero", pcAdd(s.pc, ts.eq(y, ts.zero(I.w))), nullptr, "");
            if (z == 1) return E_DEAD;
            s.pc = pcAdd(s.pc, ts.bnot(ts.eq(y, ts.zero(I.w))));
          }
          if (I.op == I_UDIV) r = ts.udiv(x, y);
          else if (I.op == I_UREM) r = ts.urem(x, y);
          else if (ts.topZero(x) && ts.topZero(y)) r = I.op == I_SDIV ? ts.udiv(x, y) : ts.urem(x, y);
          else r = ts.opaque2(I.op == I_SDIV ? O_SDIV : O_SREM, x, y);
          break;
        }
        case I_SHL: case I_LSHR: case I_ASHR: {
          u64 k;
          if (!ts.isConst(y, k)) {
            T big = ts.bnot(ts.ult(y, ts.konst(I.w, I.w)));
            if (decide(s.pc, big) != 0) {
              u32 q = pcAdd(s.pc, big);
              if (feasible(q)) { report(s, "ub", "shift amount too large", q, nullptr, ""); if (decide(s.pc, big) == 1) return E_DEAD; s.pc = pcAdd(s.pc, ts.bnot(big)); }
            }
          } else if (k >= I.w) { report(s, "ub", "shift amount too large", s.pc, nullptr, ""); }
          r = I.op == I_SHL ? ts.shl(x, y) : I.op == I_LSHR ? ts.lshr(x, y) : ts.ashr(x, y); break;
        }
        case I_AND: r = ts.band(x, y); break;
        case I_OR: r = ts.bor(x, y); break;
        default: r = ts.bxor(x, y); break;
        }
        R[I.dst] = fromTerm(r);
        f->ip++; break;
      }
      case I_ICMP: {
        settle(I.a); settle(I.b);
        fix(I.a, I.w2); fix(I.b, I.w2);
        const Val &a = V(I.a), &b = V(I.b);
        if (a.k == K_INT && b.k == K_INT) {
          u64 x = a.v, y = b.v; int64_t p = (int64_t)sx(x, I.w2), q = (int64_t)sx(y, I.w2); bool r = false;
          switch (I.pred) {
          case 32: r = x == y; break; case 33: r = x != y; break;
          case 34: r = x > y; break; case 35: r = x >= y; break; case 36: r = x < y; break; case 37: r = x <= y; break;
          case 38: r = p > q; break; case 39: r = p >= q; break; case 40: r = p < q; break; case 41: r = p <= q; break;
          }
          R[I.dst] = Val::I(r, 1); f->ip++; break;
        }
        if (a.k == K_CHO && I.pred > 33) return split(I.a);
        if (b.k == K_CHO && I.pred > 33) return split(I.b);
        bool pa = a.k == K_PTR || a.k == K_FN, pb = b.k == K_PTR || b.k == K_FN;
        if (pa && pb) {
          bool sameObj = a.k == b.k && (a.k == K_FN ? a.a == b.a : a.a == b.a);
          u64 x, y;
          if (sameObj) { x = (u64)(a.k == K_FN ? 0 : a.v + (1ll << 40)); y = (u64)(b.k == K_FN ? 0 : b.v + (1ll << 40)); }
          else { x = ts.cval(term(a)); y = ts.cval(term(b)); }
          bool r = false;
          switch (I.pred) {
          case 32: r = x == y; break; case 33: r = x != y; break;
          case 34: r = x > y; break; case 35: r = x >= y; break; case 36: r = x < y; break; case 37: r = x <= y; break;
          default: throw Unsupported("signed pointer comparison");
          }
          R[I.dst] = Val::I(r, 1); f->ip++; break;
        }
        T x = term(a), y = term(b), r;
        switch (I.pred) {
        case 32: r = ts.eq(x, y); break; case 33: r = ts.bnot(ts.eq(x, y)); break;
        case 34: r = ts.ult(y, x); break; case 35: r = ts.bnot(ts.ult(x, y)); break;
        case 36: r = ts.ult(x, y); break; case 37: r = ts.bnot(ts.ult(y, x)); break;
        case 38: r = ts.slt(y, x); break; case 39: r = ts.bnot(ts.slt(x, y)); break;
        case 40: r = ts.slt(x, y); break; default: r = ts.bnot(ts.slt(y, x)); break;
        }
        R[I.dst] = fromTerm(r); f->ip++; break;
      }
      case I_SELECT: {
        fix(I.a, 1);
        const Val &c = V(I.a);
        int d;
        if (c.k == K_INT) d = c.v ? 1 : 0; else d = decide(s.pc, term(c));
        if (d < 0) {
          Val x = V(I.b), y = V(I.c);
          if (mergeVal(x, y, term(c))) { R[I.dst] = x; f->ip++; break; }
          forkCond = term(c); return E_FORK;
        }
        Val x = V(d ? I.b : I.c); R[I.dst] = x; f->ip++; break;
      }
      case I_ZEXT: case I_SEXT: case I_TRUNC: {
        fix(I.a, I.w2);
        const Val &a = V(I.a);
        if (a.k == K_INT) { R[I.dst] = Val::I(I.op == I_SEXT ? sx((u64)a.v, I.w2) : (u64)a.v, I.w); f->ip++; break; }
        T x = term(a);
        R[I.dst] = fromTerm(I.op == I_ZEXT ? ts.zext(x, I.w) : I.op == I_SEXT ? ts.sext(x, I.w) : ts.trunc(x, I.w));
        f->ip++; break;
      }
      case I_PTRTOINT: {
        if (!settle(I.a)) return split(I.a);
        Val a = V(I.a);
        if (I.w == 64) { if (a.k == K_PTR && a.a == 0) a = Val::I((u64)a.v, 64); R[I.dst] = a; } else R[I.dst] = fromTerm(ts.trunc(term(a), I.w));
        f->ip++; break;
      }
      case I_INTTOPTR: {
        Val a = V(I.a);
        if (a.k == K_INT) { Val r; r.k = K_PTR; r.w = 64; r.a = 0; r.v = a.v; a = r; }
        R[I.dst] = a; f->ip++; break;
      }
      case I_COPY: { Val a = V(I.a); R[I.dst] = a; f->ip++; break; }
      case I_BSWAP: {
        fix(I.a, I.w);
        T x = term(V(I.a)); std::vector<Piece> ps;
        for (int i = I.w / 8 - 1; i >= 0; i--) ts.slicePieces(x, 8 * i, 8, ps);
        R[I.dst] = fromTerm(ts.cat(ps)); f->ip++; break;
      }
      case I_FSHL: case I_FSHR: {
        fix(I.a, I.w); fix(I.b, I.w); fix(I.c, I.w);
        u64 k;
        if (!ts.isConst(term(V(I.c)), k)) throw Unsupported("symbolic funnel shift");
        k %= I.w;
        T hi = term(V(I.a)), lo = term(V(I.b)); T r;
        if (I.op == I_FSHL) r = k ? ts.concat(ts.slice(lo, I.w - k, k), ts.slice(hi, 0, I.w - k)) : hi;
        else r = k ? ts.concat(ts.slice(lo, k, I.w - k), ts.slice(hi, 0, k)) : lo;
        R[I.dst] = fromTerm(r); f->ip++; break;
      }
      case I_UMIN: case I_UMAX: case I_SMIN: case I_SMAX: {
        fix(I.a, I.w); fix(I.b, I.w);
        T x = term(V(I.a)), y = term(V(I.b));
        T c = (I.op == I_UMIN || I.op == I_UMAX) ? ts.ult(x, y) : ts.slt(x, y);
        R[I.dst] = fromTerm((I.op == I_UMIN || I.op == I_SMIN) ? ts.ite(c, x, y) : ts.ite(c, y, x)); f->ip++; break;
      }
      case I_ABS: { fix(I.a, I.w); T x = term(V(I.a)); R[I.dst] = fromTerm(ts.ite(ts.slt(x, ts.zero(I.w)), ts.neg(x), x)); f->ip++; break; }
      case I_CTPOP: { fix(I.a, I.w); T x = term(V(I.a)), r = ts.zero(I.w); for (u32 i = 0; i < I.w; i++) r = ts.add(r, ts.zext(ts.slice(x, i, 1), I.w)); R[I.dst] = fromTerm(r); f->ip++; break; }
      case I_LOAD: {
        if (I.a >= 0 && R[I.a].k == K_POISON) throw Unsupported("use of an unmerged value");
        if (!settle(I.a)) {
          bool plain = !I.w2 && readable(s, R[I.a], (u64)I.imm);
          if (!plain) return split(I.a);
          leakCheck(s, choTab[R[I.a].a].c, "address or length depends on a secret");
          T t = readAny(s, R[I.a], (u64)I.imm);
          if (I.w < 8 * I.imm) t = ts.slice(t, 0, I.w);
          R[I.dst] = fromTerm(t); f->ip++; break;
        }
        bool dead; Val v = load(s, V(I.a), (u32)I.imm, I.w, I.w2, dead);
        if (dead) return E_DEAD;
        R[I.dst] = v; f->ip++; break;
      }
      case I_STORE: {
        if (I.a >= 0 && R[I.a].k == K_POISON) throw Unsupported("use of an unmerged value");
        if (I.b >= 0 && R[I.b].k == K_POISON) throw Unsupported("store of an unmerged value");
        if (!settle(I.a)) {
          Val v = V(I.b);
          if ((v.k != K_INT && v.k != K_TERM) || !writable(s, R[I.a], (u64)I.imm)) return split(I.a);
          leakCheck(s, choTab[R[I.a].a].c, "address or length depends on a secret");
          T t = term(v); if (ts.W(t) < 8 * I.imm) t = ts.zext(t, 8 * I.imm);
          writeAny(s, R[I.a], (u64)I.imm, t, ts.tru());
          f->ip++; break;
        }
        settle(I.b);
        if (!store(s, V(I.a), V(I.b), (u32)I.imm)) return E_DEAD;
        f->ip++; break;
      }
      case I_GEP: {
        Val p = V(I.a);
        if (p.k == K_POISON) throw Unsupported("use of an unmerged value");
        if (p.k == K_INT) { Val r; r.k = K_PTR; r.w = 64; r.a = 0; r.v = p.v; p = r; }
        int64_t off = I.imm;
        bool forked = false;
        if (I.x >= 0)
          for (auto &g : F->geps[I.x]) {
            fix(g.op, 64);
            const Val &x = V(g.op);
            u64 v; u32 w;
            if (x.k == K_INT) { v = (u64)x.v; w = x.w; }
            else { T t = term(x); w = ts.W(t); if (!concretize(s, t, v)) { forked = true; break; } }
            off += (int64_t)sx(v, w) * g.scale;
          }
        if (forked) return E_FORK;
        if (p.k == K_CHO) {
          p = pick(s.pc, p);
          if (p.k == K_CHO) {
            Val q; bool ok = choGep(p, [&](Val &z) {
              if (z.k != K_PTR) return false;
              if (I.x >= 0 && F->gepNarrow[I.x].second > 0 && z.a) { int64_t lo = z.v + F->gepNarrow[I.x].first, hi = lo + F->gepNarrow[I.x].second; if (lo >= 0) { z.lo = (u32)lo; z.hi = (u32)hi; } }
              z.v += off; return true; }, q);
            if (!ok) return split(I.a);
            R[I.dst] = q; f->ip++; break;
          }
        }
        if (p.k == K_PTR) {
          if (I.x >= 0 && F->gepNarrow[I.x].second > 0 && p.a) {
            int64_t lo = p.v + F->gepNarrow[I.x].first, hi = lo + F->gepNarrow[I.x].second;
            if (lo >= 0) { p.lo = (u32)lo; p.hi = (u32)hi; }
          }
          p.v += off;
        } else if (p.k == K_TERM) { p.a = ts.add(p.a, ts.konst((u64)off, 64)); }
        else if (p.k == K_FN) throw Unsupported("function pointer arithmetic");
        R[I.dst] = p; f->ip++; break;
      }
      case I_ALLOCA: {
        u64 sz = (u64)I.imm;
        if (I.imm == -1) {
          u64 n; T t = term(V(I.a));
          if (s.autoLimit && F->fromRepo && !ts.isConst(t, n)) {
            T big = ts.bnot(ts.ult(t, ts.konst(s.autoLimit / I.b + 1, ts.W(t))));
            int d = decide(s.pc, big);
            if (d) { report(s, "stack", "array of unlimited size on the stack", d < 0 ? pcAdd(s.pc, big) : s.pc, nullptr, ""); if (d == 1) return E_DEAD; s.pc = pcAdd(s.pc, ts.bnot(big)); }
          }
          if (!concretize(s, t, n)) return E_FORK;
          sz = n * (u64)I.b;
          if (sz > (1 << 20)) throw Unsupported("huge stack allocation");
        }
        u32 slot = newObj(s, (u32)sz, OF_STACK, "local of " + F->name);
        f->allocas.push_back(slot);
        if (F->fromRepo) {
          f->autos += sz; s.autoNow += sz;
          if (s.autoNow > s.autoPeak) { s.autoPeak = s.autoNow; if (s.autoLimit && s.autoPeak > s.autoLimit) { report(s, "stack", "more automatic storage than stated", s.pc, nullptr, std::to_string(s.autoPeak) + " bytes"); return E_DEAD; } }
        }
        Val p; p.k = K_PTR; p.w = 64; p.a = slot; p.gen = s.gen[slot]; p.v = 0; p.lo = 0; p.hi = (u32)sz;
        R[I.dst] = p; f->ip++; break;
      }
      case I_MEMCPY: {
        u64 n; fix(I.c, 64);
        const Val &l = V(I.c);
        if (l.k == K_INT) n = (u64)l.v; else if (!concretize(s, term(l), n)) return E_FORK;
        if (n && (!settle(I.a) | !settle(I.b))) {
          int o = R[I.a >= 0 && R[I.a].k == K_CHO ? I.a : I.b].k == K_CHO ? (I.a >= 0 && R[I.a].k == K_CHO ? I.a : I.b) : I.b;
          // overlap is judged per alternative; regions of one array are left to the fork
          const Val &d = V(I.a), &q = V(I.b);
          std::function<bool(const Val &, const Val &)> apart = [&](const Val &x, const Val &y) -> bool {
            if (x.k == K_CHO) return apart(choTab[x.a].x, y) && apart(choTab[x.a].y, y);
            if (y.k == K_CHO) return apart(x, choTab[y.a].x) && apart(x, choTab[y.a].y);
            return x.k == K_PTR && y.k == K_PTR && (x.a != y.a || x.v + (int64_t)n <= y.v || y.v + (int64_t)n <= x.v);
          };
          bool ok = n <= 65536 && apart(d, q) && readable(s, q, n);
          if (ok && d.k == K_CHO && !writable(s, d, n)) ok = false;
          if (!ok) return split(o);
          leakCheck(s, choTab[R[o].a].c, "address or length depends on a secret");
          T t = readAny(s, q, n);
          if (d.k == K_CHO) writeAny(s, d, n, t, ts.tru());
          else { if (!access(s, d, n, true, "write")) return E_DEAD; scatter(*wr(s, d.a), (u32)d.v, (u32)n, t); }
          f->ip++; break;
        }
        const Val &d = V(I.a), &q = V(I.b);
        if (I.pred && n && d.k == K_PTR && q.k == K_PTR && d.a && d.a == q.a && d.v != q.v && d.v < q.v + (int64_t)n && q.v < d.v + (int64_t)n)
          report(s, "memory", "memcpy between overlapping regions", s.pc, nullptr, "");
        if (!copyMem(s, d, q, n)) return E_DEAD;
        f->ip++; break;
      }
      case I_MEMSET: {
        u64 n; fix(I.c, 64); fix(I.b, 8);
        const Val &l = V(I.c);
        if (l.k == K_INT) n = (u64)l.v; else if (!concretize(s, term(l), n)) return E_FORK;
        if (n && !settle(I.a)) return split(I.a);
        const Val &d = V(I.a), &v = V(I.b);
        if (!access(s, d, n, true, "write")) return E_DEAD;
        if (n) {
          Obj *o = wr(s, d.a);
          Cell c;
          if (v.k == K_INT) { c.k = C_CONST; c.v = (u8)v.v; } else { c.k = C_TERM; c.t = term(v); c.idx = 0; }
          for (u64 i = 0; i < n; i++) o->c[d.v + i] = c;
        }
        f->ip++; break;
      }
      case I_BR: {
        enter(s, I.b);
        if (stopped()) return E_STOP;
        goto refetch;
      }
      case I_CONDBR: {
        fix(I.a, 1);
        const Val &c = V(I.a);
        int d;
        if (c.k == K_INT) d = c.v ? 1 : 0;
        else {
          T t = term(c);
          d = decide(s.pc, t);
          if (d < 0) {
            if (F->fromRepo) {
              std::set<T> sup; const auto &sp2 = supp(t);
              for (size_t i = 0; i < sp2.size(); i += 3) if (sp2[i] && ts.op(sp2[i]) == O_VAR && ts.varNames[ts.D(sp2[i])[0]].compare(0, 6, "undef#") == 0) { report(s, "uninit", "branch on uninitialised data", s.pc, nullptr, ""); break; }
            }
            leakCheck(s, t, "branch depends on a secret");
            forkCond = valueFork ? valueCond(s.pc, t) : t; return E_FORK;
          }
        }
        enter(s, d ? I.b : I.c);
        if (stopped()) return E_STOP;
        goto refetch;
      }
      case I_SWITCH: {
        fix(I.a, I.w2);
        const Val &c = V(I.a);
        int tgt = I.b;
        if (c.k == K_INT) { for (auto &k : F->switches[I.x]) if (k.first == (u64)c.v) { tgt = k.second; break; } }
        else {
          T t = term(c);
          for (auto &k : F->switches[I.x]) {
            T e = ts.eq(t, ts.konst(k.first, I.w2));
            int d = decide(s.pc, e);
            if (d == 1) { tgt = k.second; break; }
            if (d < 0) { leakCheck(s, t, "branch depends on a secret"); forkCond = e; return E_FORK; }
          }
        }
        enter(s, tgt);
        if (stopped()) return E_STOP;
        goto refetch;
      }
      case I_RET: {
        Val v; if (I.b) { v = V(I.a); if (v.k == K_UNDEF) v.w = I.w; }
        if (v.k == K_POISON) throw Unsupported("return of an unmerged value");
        ret(s, I.b ? &v : nullptr);
        if (s.st.empty()) return E_STOP;
        if (stopped()) return E_STOP;
        goto refetch;
      }
      case I_CALL: {
        int ci = (int)I.imm;
        if (ci < 0) {
          if (!settle(I.a)) return split(I.a);
          const Val &p = V(I.a);
          if (p.k != K_FN) {
            if (p.k == K_POISON) throw Unsupported("use of an unmerged value");
            report(s, "memory", "call through an invalid function pointer", s.pc, nullptr, ""); return E_DEAD;
          }
          ci = (int)p.a;
        }
        Func &C = P.funcs[ci];
        const auto &ar = F->callArgs[I.x];
        if (C.intrinsic || !C.defined) {
          for (size_t i = 0; i < ar.size(); i++) {
            if (settle(ar[i])) continue;
            int id = C.intrinsic - 100;
            bool upd = i == 1 && (id == 1 || id == 7 || id == 13);   // the data of an update
            if (!upd) return split(ar[i]);
          }
          std::vector<Val> args; for (int o : ar) { fix(o, 64); args.push_back(V(o)); if (args.back().k == K_POISON) throw Unsupported("use of an unmerged value"); }
          Val rv; rv.k = K_UNDEF; rv.w = I.w;
          int r = C.intrinsic >= 100 ? hashPrim(s, C.intrinsic - 100, args, rv) : intrinsic(s, C.name, args, rv);
          if (r == 1) return E_FORK;
          if (r == 2) return E_DEAD;
          f = &s.st.back(); R = f->r.data();
          if (I.dst >= 0) R[I.dst] = rv;
          f->ip++;
          break;
        }
        if (s.st.size() > 200) { report(s, "memory", "recursion too deep", s.pc, nullptr, ""); return E_DEAD; }
        if ((int)ar.size() != C.nargs) throw Unsupported("call arity");
        if (C.executed++ == 0) if (C.fromRepo) fnsRun.insert(C.name);
        Frame nf; nf.f = &C; nf.ret = I.dst; nf.r.resize(C.nregs);
        if (C.fromRepo) { nf.autos = 16; s.autoNow += 16; }   // return address and frame
        for (size_t i = 0; i < ar.size(); i++) { nf.r[i] = V(ar[i]); if (nf.r[i].k == K_POISON) throw Unsupported("use of an unmerged value"); }
        f->ip++;
        s.st.push_back(std::move(nf));
        goto refetch;
      }
      case I_UNREACHABLE: report(s, "ub", "unreachable code reached", s.pc, nullptr, ""); return E_DEAD;
      default: throw Unsupported("unsupported instruction in " + F->name + " line " + std::to_string(I.line));
      }
    }
  }
}
// a condition on a few bits: split on their value instead
T Exec::valueCond(u32 pc, T c) {
  bool pol; T base; int kind; u64 k;
  condInfo(c, pol, base, kind, k);
  if ((kind != 1 && kind != 2) || ts.W(base) > 6 || ts.W(base) < 2) return c;
  for (u64 v = 0; v <= maskw(ts.W(base)); v++) {
    T e = ts.eq(base, ts.konst(v, ts.W(base)));
    if (decide(pc, e) < 0) return e;
  }
  return c;
}
// ---------------------------------------------------------------- hash contexts
std::vector<T> Exec::normParts(const std::vector<T> &parts) {
  std::vector<T> out;
  std::vector<Piece> run;
  auto flush = [&]() { if (!run.empty()) { out.push_back(ts.cat(run)); run.clear(); } };
  for (T p : parts) {
    Op o = ts.op(p);
    if (o == O_SEG) {
      flush();
      if (!out.empty() && ts.op(out.back()) == O_SEG && ts.D(out.back())[0] == ts.D(p)[0]) {
        const u64 *a = ts.D(out.back()), *b = ts.D(p);
        if (ts.add((T)a[1], (T)a[2]) == (T)b[1]) {
          u64 d[3] = {a[0], a[1], ts.add((T)a[2], (T)b[2])};
          out.back() = ts.intern(O_SEG, 64, d, 3);
          continue;
        }
      }
      out.push_back(p);
    } else if (o == O_HST) { flush(); out.push_back(p); }
    else ts.pieces(p, run);
  }
  flush();
  return out;
}
// A new hash application that agrees with an earlier one on random inputs is a
// candidate for equality; when its inputs are proved equal the earlier term is used.
T Exec::mkApp(State &s, const std::string &fn, u32 w, const std::vector<T> &parts) {
  hashCalls++;
  size_t before = ts.nodes.size();
  std::vector<T> np = normParts(parts);
  if (valueFork && s.pc)
    for (T &p : np) {   // use what the path condition says about selected values
      if (ts.op(p) == O_SEG || ts.op(p) == O_HST) continue;
      bool any = false;
      std::vector<Piece> ps, out; ts.pieces(p, ps);
      for (auto &q : ps) {
        if (q.leaf && ts.op(q.leaf) == O_ITE) {
          T r = resolve(q.leaf, s.pc);
          if (r != q.leaf) { any = true; T x = ts.slice(r, (u32)q.v, q.len); if (q.neg) x = ts.bnot(x); ts.pieces(x, out); continue; }
        }
        out.push_back(q);
      }
      if (any) p = ts.cat(out);
    }
  T t = ts.app(fn, w, np);
  if (!sweepApps) return t;
  if (ts.nodes.size() == before) {
    auto it = appRep.find({t, s.pc});
    return it == appRep.end() ? t : it->second;
  }
  std::array<u64, 2 * NSIM> key;
  try {
    for (int i = 0; i < NSIM; i++) { simEnv[i].seed = 1000 + i; u64 k[2]; unsigned f; hashKey(t, simEnv[i], k, f); key[2 * i] = k[0]; key[2 * i + 1] = k[1]; }
  } catch (Unsupported &) { return t; }
  auto &v = appSig[key];
  for (T c : v) {
    Fail f;
    sweepTried++;
    if (ts.D(c)[0] == ts.D(t)[0] && proveParts(t, c, s.pc, f)) { sweepOk++; return appRep[{t, s.pc}] = c; }
    if (sweepTried > 200 + 4 * sweepOk) break;
  }
  if (v.size() < 4) v.push_back(t);
  return t;
}
bool Exec::getH(State &s, const Val &p, u32 sz, H &h) {
  if (!access(s, p, sz, false, "hash context read")) return false;
  Obj *o = s.objs[p.a].p;
  const Cell &c = o->c[p.v];
  bool ok = c.k == C_HND && c.idx == 0 && ts.W(c.t) == 8 * sz;
  for (u32 i = 1; ok && i < sz; i++) { const Cell &x = o->c[p.v + i]; ok = x.k == C_HND && x.t == c.t && x.idx == i; }
  if (!ok) { report(s, "hashctx", "hash operation on a context that was not initialised", s.pc, nullptr, ""); return false; }
  const Node &n = ts.N(c.t); const u64 *d = ts.D(c.t);
  if (d[1] == 9) throw Unsupported("hash context merged from different histories");
  h.fn = (int)d[0]; h.phase = (int)d[1]; h.pos = d[2]; h.parts.clear();
  for (u32 i = 3; i < n.n; i++) h.parts.push_back((T)d[i]);
  return true;
}
bool Exec::putH(State &s, const Val &p, u32 sz, const H &h) {
  if (!access(s, p, sz, true, "hash context write")) return false;
  std::vector<u64> d{(u64)h.fn, (u64)h.phase, h.pos};
  for (T t : h.parts) d.push_back(t);
  T t = ts.intern(O_HND, 8 * sz, d.data(), d.size());
  Obj *o = wr(s, p.a);
  for (u32 i = 0; i < sz; i++) { Cell &c = o->c[p.v + i]; c.k = C_HND; c.t = t; c.idx = i; c.v = 0; }
  return true;
}
bool Exec::killH(State &s, const Val &p, u32 sz) {
  if (!access(s, p, sz, true, "hash context write")) return false;
  Obj *o = wr(s, p.a);
  for (u32 i = 0; i < sz; i++) o->c[p.v + i] = Cell();
  return true;
}
// data of an update: bytes at p, or a segment of the opaque message.  1 fork, 2 dead, 0 ok
static int updData(Exec &E, State &s, const Val &p, const Val &len, std::vector<T> &parts) {
  TermStore &ts = E.ts;
  T lt = E.term(len);
  lt = ts.zext(lt, 64);
  u64 n;
  if (p.k == K_PTR && p.a && p.a < s.objs.size() && s.objs[p.a].p && (s.objs[p.a].p->flags & OF_BLOB)) {
    Obj *o = s.objs[p.a].p;
    if (s.gen[p.a] != p.gen) { E.report(s, "memory", "read of dead storage", s.pc, nullptr, ""); return 2; }
    T off = ts.konst((u64)p.v, 64), end = ts.add(off, lt);
    // the segment must lie inside the message
    T bad = ts.bor(ts.ult(o->blobLen, off), ts.ult(ts.sub(o->blobLen, off), lt));
    int d = E.decide(s.pc, bad);
    if (d != 0) { u32 q = E.pcAdd(s.pc, bad); if (E.feasible(q)) { E.report(s, "memory", "read out of bounds of the message", q, nullptr, ""); if (d == 1) return 2; s.pc = E.pcAdd(s.pc, ts.bnot(bad)); } }
    (void)end;
    if (ts.isConst(lt, n) && n == 0) return 0;
    u64 d3[3] = {(u64)o->meta, off, lt};
    parts.push_back(ts.intern(O_SEG, 64, d3, 3));
    return 0;
  }
  if (!ts.isConst(lt, n) && !E.concretize(s, lt, n)) return 1;
  if (!n) return 0;
  if (p.k == K_CHO) {
    T c = E.choTab[p.a].c;
    E.leakCheck(s, c, "address or length depends on a secret");
    if (n > 65536 || !E.readable(s, p, n)) { E.forkCond = c; return 1; }
    parts.push_back(E.readAny(s, p, n));
    return 0;
  }
  if (n > 65536) { E.report(s, "memory", "hash input out of bounds", s.pc, nullptr, ""); return 2; }
  if (!E.access(s, p, n, false, "hash input read")) return 2;
  parts.push_back(E.gather(s, *s.objs[p.a].p, (u32)p.v, (u32)n, p.a));
  return 0;
}
enum { HP_256_INIT, HP_256_UPD, HP_256_FIN, HP_256_TRUNC, HP_256_SAVE, HP_256_REST,
       HP_512_INIT, HP_512_UPD, HP_512_FIN, HP_512_TRUNC, HP_512_SAVE, HP_512_REST,
       HP_K_INIT, HP_K_ABS, HP_K_FIN, HP_K_SQ };
static const char *hpNames[] = {
  "ts_SHA256_init", "ts_SHA256_update", "ts_SHA256_final", "ts_SHA256_final_trunc", "ts_SHA256_save_state", "ts_SHA256_restore_state_after_64",
  "ts_SHA512_init", "ts_SHA512_update", "ts_SHA512_final", "ts_SHA512_final_trunc", "ts_SHA512_save_state", "ts_SHA512_restore_state_after_128",
  "ts_shake256_inc_init", "ts_shake256_inc_absorb", "ts_shake256_inc_finalize", "ts_shake256_inc_squeeze", nullptr};
static u32 ctxSize(Exec &E, int which) {
  static u32 cache[3];
  if (!cache[which]) {
    auto it = E.P.gByName.find("vp_ctxsize");
    if (it == E.P.gByName.end()) throw Unsupported("vp_ctxsize missing");
    memcpy(&cache[which], &E.P.globals[it->second].data[4 * which], 4);
  }
  return cache[which];
}
// total bytes of byte parts, or -1
static int64_t partBytes(TermStore &ts, const std::vector<T> &ps) {
  int64_t n = 0;
  for (T p : ps) { if (ts.op(p) == O_SEG || ts.op(p) == O_HST) return -1; n += ts.W(p) / 8; }
  return n;
}
static T stateTerm(Exec &E, int fn, const std::vector<T> &parts, u32 w) {
  std::vector<u64> d{(u64)fn};
  for (T p : E.normParts(parts)) d.push_back(p);
  return E.ts.intern(O_HST, w, d.data(), d.size());
}
int Exec::hashPrim(State &s, int id, const std::vector<Val> &a, Val &rv) {
  int base = id < 6 ? 0 : id < 12 ? 6 : 12, op = id - base;
  int which = base / 6;
  u32 sz = ctxSize(*this, which);
  int fn = which == 0 ? MH_SHA256 : which == 1 ? MH_SHA512 : MH_SHAKE256;
  H h;
  auto count = [&](const Val &l) { u64 n; if (ts.isConst(term(l), n)) s.hashed += n; };
  if (which == 2) {
    switch (op) {
    case 0: h.fn = fn; h.phase = 0; h.pos = 0; return putH(s, a[0], sz, h) ? 0 : 2;
    case 1: case 2: case 3: {
      const Val &c = op == 3 ? a[2] : a[0];
      if (!getH(s, c, sz, h)) return 2;
      if (h.fn != fn || (op == 1 && h.phase) || (op == 2 && h.phase) || (op == 3 && !h.phase)) {
        report(s, "hashctx", "SHAKE operations out of order", s.pc, nullptr, ""); return 2;
      }
      if (op == 1 && a[1].k == K_PTR) count(a[2]);
      if (op == 2) s.hashes++;
      if (op == 1) { int r = updData(*this, s, a[1], a[2], h.parts); if (r) return r; return putH(s, c, sz, h) ? 0 : 2; }
      if (op == 2) { h.phase = 1; h.pos = 0; return putH(s, c, sz, h) ? 0 : 2; }
      u64 n; T lt = term(a[1]);
      if (!concretize(s, lt, n)) return 1;
      if (h.pos + n > 512) throw Unsupported("long SHAKE output");
      T o = mkApp(s, "SHAKE256", 4096, h.parts);
      if (n) {
        if (!access(s, a[0], n, true, "hash output write")) return 2;
        scatter(*wr(s, a[0].a), (u32)a[0].v, (u32)n, ts.slice(o, 8 * h.pos, 8 * n));
      }
      h.pos += n;
      return putH(s, c, sz, h) ? 0 : 2;
    }
    }
  }
  u32 dl = which ? 64 : 32, sl = which ? 64 : 32, bl = which ? 128 : 64;
  switch (op) {
  case 0: h.fn = fn; h.phase = 0; h.pos = 0; return putH(s, a[0], sz, h) ? 0 : 2;
  case 1: {
    if (!getH(s, a[0], sz, h)) return 2;
    if (h.fn != fn) { report(s, "hashctx", "hash operation on another function's context", s.pc, nullptr, ""); return 2; }
    count(a[2]);
    int r = updData(*this, s, a[1], a[2], h.parts); if (r) return r;
    return putH(s, a[0], sz, h) ? 0 : 2;
  }
  case 2: case 3: {
    if (!getH(s, a[1], sz, h)) return 2;
    if (h.fn != fn) { report(s, "hashctx", "hash operation on another function's context", s.pc, nullptr, ""); return 2; }
    u64 n = dl;
    s.hashes++;
    if (op == 3) { if (!concretize(s, term(a[2]), n)) return 1; }
    if (n > dl || n % (which ? 8 : 4)) { report(s, "hashctx", "truncated output length not supported by the hash interface", s.pc, nullptr, ""); return 2; }
    T o = mkApp(s, which ? "SHA512" : "SHA256", 8 * dl, h.parts);
    if (!killH(s, a[1], sz)) return 2;
    if (n) {
      if (!access(s, a[0], n, true, "hash output write")) return 2;
      scatter(*wr(s, a[0].a), (u32)a[0].v, (u32)n, ts.slice(o, 0, 8 * n));
    }
    return 0;
  }
  case 4: {
    if (!getH(s, a[1], sz, h)) return 2;
    if (h.fn != fn) { report(s, "hashctx", "hash operation on another function's context", s.pc, nullptr, ""); return 2; }
    T t = stateTerm(*this, fn, h.parts, 8 * sl);
    if (!access(s, a[0], sl, true, "saved state write")) return 2;
    scatter(*wr(s, a[0].a), (u32)a[0].v, sl, t);
    return 0;
  }
  case 5: {
    if (!access(s, a[1], sl, false, "saved state read")) return 2;
    T t = gather(s, *s.objs[a[1].a].p, (u32)a[1].v, sl, a[1].a);
    h.fn = fn; h.phase = 0; h.pos = 0;
    // whole atom?
    if (ts.op(t) == O_CAT && ts.N(t).n == 2) { const u64 *d = ts.D(t); u32 lf = (u32)d[0]; if (lf && !(d[0] >> 63) && ts.W(lf) == 8 * sl) t = lf; }
    if (ts.op(t) == O_HST && (int)ts.D(t)[0] == fn) {
      for (u32 i = 1; i < ts.N(t).n; i++) h.parts.push_back((T)ts.D(t)[i]);
      if (partBytes(ts, h.parts) != bl) { h.parts.clear(); h.parts.push_back(t); }
    } else {
      u64 d[2] = {(u64)fn | 0x100, t};
      h.parts.push_back(ts.intern(O_HST, 8 * sl, d, 2));
    }
    return putH(s, a[0], sz, h) ? 0 : 2;
  }
  }
  throw Unsupported("hash primitive");
}
// ---------------------------------------------------------------- intrinsics
std::string Exec::cstr(State &s, const Val &p) {
  if (p.k != K_PTR || !p.a) throw Unsupported("string argument");
  Obj *o = s.objs[p.a].p; std::string r;
  for (u32 i = (u32)p.v; i < o->size; i++) { if (o->c[i].k != C_CONST) throw Unsupported("string argument"); if (!o->c[i].v) return r; r += (char)o->c[i].v; }
  throw Unsupported("string argument");
}
int Exec::intrinsic(State &s, const std::string &nm, const std::vector<Val> &a, Val &rv) {
  auto num = [&](int i) -> u64 { u64 v; if (!ts.isConst(term(a[i]), v)) throw Unsupported("symbolic argument of " + nm); return v; };
  if (nm == "vp_param") {
    std::string k = cstr(s, a[0]);
    auto it = params.find(k);
    if (it == params.end()) throw Unsupported("missing parameter " + k);
    rv = Val::I(it->second, 64); return 0;
  }
  if (nm == "vp_sym") {
    u64 n = num(1); std::string name = cstr(s, a[2]);
    if (!access(s, a[0], n, true, "write")) return 2;
    symNames[name] = (u32)n;
    if (n) scatter(*wr(s, a[0].a), (u32)a[0].v, (u32)n, ts.var(name, 8 * n));
    return 0;
  }
  if (nm == "vp_assume") {
    T t = term(a[0]); t = ts.bnot(ts.eq(t, ts.zero(ts.W(t))));
    int d = decide(s.pc, t);
    if (d == 0) { killed++; return 2; }
    if (d < 0) s.pc = pcAdd(s.pc, t);
    return 0;
  }
  if (nm == "vp_stack") { s.autoLimit = num(0); s.autoPeak = s.autoNow; return 0; }
  if (nm == "vp_stack_done") { maxAuto = std::max(maxAuto, s.autoPeak); s.autoLimit = 0; return 0; }
  if (nm == "vp_hashes") { rv = Val::I((int64_t)s.hashes, 64); return 0; }
  if (nm == "vp_hashed") { rv = Val::I((int64_t)s.hashed, 64); return 0; }
  if (nm == "vp_kill") { killed++; return 2; }
  if (nm == "vp_conc") {
    T t = term(a[0]); u64 v;
    if (!concretize(s, t, v)) return 1;
    rv = Val::I(v, 64); return 0;
  }
  if (nm == "vp_cov") {
    std::string l = cstr(s, a[0]);
    auto it = cover.find(l);
    if (it == cover.end() || it->second == 0) { if (feasible(s.pc)) cover[l]++; else cover[l]; }
    else it->second++;
    return 0;
  }
  if (nm == "vp_assert") {
    std::string l = cstr(s, a[1]);
    limits(); asserts++; assertLabels[l]++;
    T t = term(a[0]); t = ts.bnot(ts.eq(t, ts.zero(ts.W(t))));
    u64 v;
    if (ts.isConst(t, v)) { assertsSyntactic++; if (!v) { report(s, "assert", l, s.pc, nullptr, "always false here"); return 2; } return 0; }
    int d = decide(s.pc, t);
    assertsSolver++;
    if (d == 1) return 0;
    // possibly false: make sure the counterexample is not an artefact of the abstraction
    Fail f;
    if (proveTrue(t, s.pc, f)) return 0;
    if (f.unknown) { inconclusive.push_back("assertion '" + l + "': " + f.why); return 0; }
    u32 q = f.pc ? f.pc : pcAdd(s.pc, ts.bnot(t));
    report(s, "assert", l, q, f.have ? &f.m : nullptr, f.why);
    if (d == 0) return 2;
    s.pc = pcAdd(s.pc, t);
    return 0;
  }
  if (nm == "vp_assert_eq" || nm == "vp_same") {
    bool same = nm == "vp_same";
    u64 n = num(2);
    std::string l = same ? "" : cstr(s, a[3]);
    limits();
    if (!same) { asserts++; assertLabels[l]++; }
    if (!access(s, a[0], n, false, "read") || !access(s, a[1], n, false, "read")) return 2;
    if (!n) { rv = Val::I(1, 32); return 0; }
    Obj *x = s.objs[a[0].a].p, *y = s.objs[a[1].a].p;
    bool eqc = true;
    for (u64 i = 0; i < n && eqc; i++) {
      const Cell &p = x->c[a[0].v + i], &q = y->c[a[1].v + i];
      if (!(p == q) && !(same && p.k == C_UNINIT)) eqc = false;
      if (p.k == C_UNINIT && !same) eqc = false;
    }
    if (eqc) { if (!same) assertsSyntactic++; rv = Val::I(1, 32); return 0; }
    if (same) {
      // compare run by run; pointers and hash contexts must be identical
      bool ok = true;
      for (u64 i = 0; ok && i < n;) {
        const Cell &p = x->c[a[0].v + i], &q = y->c[a[1].v + i];
        if (p == q) { i++; continue; }
        if (p.k == C_UNINIT || q.k == C_UNINIT) { if (p.k == C_UNINIT && q.k == C_UNINIT) { i++; continue; } ok = false; break; }
        if (p.k == C_HND && q.k == C_HND && p.idx == 0 && q.idx == 0) {
          // equal streams?
          T h1 = p.t, h2 = q.t; u32 w = ts.W(h1) / 8;
          if (ts.W(h2) / 8 != w || i + w > n) { ok = false; break; }
          for (u32 j = 0; ok && j < w; j++) { const Cell &p2 = x->c[a[0].v + i + j], &q2 = y->c[a[1].v + i + j]; if (p2.k != C_HND || q2.k != C_HND || p2.t != h1 || q2.t != h2 || p2.idx != j || q2.idx != j) ok = false; }
          const u64 *d1 = ts.D(h1), *d2 = ts.D(h2);
          if (d1[0] != d2[0] || d1[1] != d2[1] || d1[2] != d2[2]) ok = false;
          if (ok) {
            std::vector<T> p1, p2;
            for (u32 j = 3; j < ts.N(h1).n; j++) p1.push_back((T)ts.D(h1)[j]);
            for (u32 j = 3; j < ts.N(h2).n; j++) p2.push_back((T)ts.D(h2)[j]);
            ok = normParts(p1) == normParts(p2);
          }
          i += w; continue;
        }
        if ((p.k != C_CONST && p.k != C_TERM) || (q.k != C_CONST && q.k != C_TERM)) { ok = false; break; }
        u64 j = i;
        auto intk = [](const Cell &z) { return z.k == C_CONST || z.k == C_TERM; };
        while (j < n && intk(x->c[a[0].v + j]) && intk(y->c[a[1].v + j]) && j - i < 2048) j++;
        T t1 = gather(s, *x, (u32)a[0].v + i, j - i, ~0u), t2 = gather(s, *y, (u32)a[1].v + i, j - i, ~0u);
        if (t1 != t2) { ok = false; break; }
        i = j;
      }
      rv = Val::I(ok, 32); return 0;
    }
    T p = gather(s, *x, (u32)a[0].v, n, a[0].a);
    T q = gather(s, *s.objs[a[1].a].p, (u32)a[1].v, n, a[1].a);
    if (p == q) { assertsSyntactic++; rv = Val::I(1, 32); return 0; }
    Fail f;
    assertsSolver++;
    if (proveEq(p, q, s.pc, f)) { rv = Val::I(1, 32); return 0; }
    if (f.unknown) { inconclusive.push_back("assertion '" + l + "': " + f.why); rv = Val::I(1, 32); return 0; }
    report(s, "assert", l, f.pc, f.have ? &f.m : nullptr, f.why + " left " + ts.str(f.a, 4).substr(0, 600) + " right " + ts.str(f.b, 4).substr(0, 600));
    rv = Val::I(0, 32);
    return 0;
  }
  if (nm == "vp_memdiff") {
    u64 n; if (!concretize(s, term(a[2]), n)) return 1;
    if (!n) { rv = Val::I(0, 32); return 0; }
    if (!access(s, a[0], n, false, "read") || !access(s, a[1], n, false, "read")) return 2;
    T p = gather(s, *s.objs[a[0].a].p, (u32)a[0].v, n, a[0].a);
    T q = gather(s, *s.objs[a[1].a].p, (u32)a[1].v, n, a[1].a);
    rv = fromTerm(ts.zext(ts.bnot(ts.eq(p, q)), 32));
    return 0;
  }
  if (nm == "vp_alloc") {
    u64 n = num(0); std::string name = cstr(s, a[1]);
    u32 slot = newObj(s, (u32)n, OF_HEAP, name);
    rv = Val(); rv.k = K_PTR; rv.w = 64; rv.a = slot; rv.gen = s.gen[slot]; rv.v = 0; rv.lo = 0; rv.hi = (u32)n;
    return 0;
  }
  if (nm == "vp_onstop") {
    if (a[0].k != K_FN) throw Unsupported("vp_onstop");
    stopFn = (int)a[0].a;
    return 0;
  }
  if (nm == "vp_stop") {
    u64 n = num(0); std::string name = cstr(s, a[1]);
    u32 slot = newObj(s, (u32)n, OF_HEAP | OF_RO | OF_STOP, name);
    symNames[name] = (u32)n;
    if (n) scatter(*s.objs[slot].p, 0, (u32)n, ts.var(name, 8 * n));
    rv = Val(); rv.k = K_PTR; rv.w = 64; rv.a = slot; rv.gen = s.gen[slot]; rv.v = 0; rv.lo = 0; rv.hi = (u32)n;
    return 0;
  }
  if (nm == "vp_free") {
    if (a[0].k != K_PTR || !a[0].a || a[0].v || s.gen[a[0].a] != a[0].gen || !s.objs[a[0].a].p) throw Unsupported("vp_free");
    s.objs[a[0].a] = ObjP(); s.gen[a[0].a]++; s.freeSlots.push_back(a[0].a);
    return 0;
  }
  if (nm == "vp_secret" || nm == "vp_public") {
    u64 n = num(1);
    if (!n || !access(s, a[0], n, false, "read")) return 2;
    T t = gather(s, *s.objs[a[0].a].p, (u32)a[0].v, n, a[0].a);
    std::vector<Piece> ps; ts.pieces(t, ps);
    bool sec = nm == "vp_secret";
    for (auto &p : ps) if (p.leaf && (!sec || ts.op(p.leaf) == O_VAR)) (sec ? secR : pubR)[p.leaf].push_back({(u32)p.v, (u32)p.v + p.len});
    taintMemo.clear();
    if (sec) ctOn = true;
    return 0;
  }
  if (nm == "vp_ro" || nm == "vp_rw") {
    if (a[0].k != K_PTR || !a[0].a) throw Unsupported(nm);
    Obj *o = wr(s, a[0].a);
    if (nm == "vp_ro") o->flags |= OF_RO; else o->flags &= ~OF_RO;
    return 0;
  }
  if (nm == "vp_out") {
    std::string name = cstr(s, a[0]); u64 n = num(2);
    if (!access(s, a[1], n, false, "read")) return 2;
    OutRec o; o.name = name; o.t = n ? gather(s, *s.objs[a[1].a].p, (u32)a[1].v, n, a[1].a) : ts.fls(); pcLits(s.pc, o.lits);
    if (n) outs.push_back(o);
    return 0;
  }
  if (nm == "vp_blob") {
    std::string name = cstr(s, a[0]);
    u32 slot = newObj(s, 1, OF_BLOB | OF_RO, "blob " + name);
    Obj *o = s.objs[slot].p;
    T len = ts.var(name + ".len", 64);
    o->blobLen = len; blobs[name] = len;
    if (!store(s, a[1], fromTerm(len), 8)) return 2;
    rv = Val(); rv.k = K_PTR; rv.w = 64; rv.a = slot; rv.gen = s.gen[slot]; rv.v = 0; rv.lo = 0; rv.hi = 0x7fffffff;
    return 0;
  }
  if (nm == "vp_budget") { s.budget = num(0); return 0; }
  if (nm == "vp_native") { rv = Val::I(0, 32); return 0; }
  if (nm == "vp_note") { notes.insert(cstr(s, a[0])); return 0; }
  if (nm == "vp_h_init") {
    H h; h.fn = (int)num(1); h.phase = 0; h.pos = 0;
    return putH(s, a[0], 8, h) ? 0 : 2;
  }
  if (nm == "vp_h_add") {
    H h; if (!getH(s, a[0], 8, h)) return 2;
    int r = updData(*this, s, a[1], a[2], h.parts); if (r) return r;
    return putH(s, a[0], 8, h) ? 0 : 2;
  }
  if (nm == "vp_h_out") {
    H h; if (!getH(s, a[0], 8, h)) return 2;
    u64 n = num(2);
    static const char *nmz[] = {"", "SHA256", "SHA512", "SHAKE256"}; static const u32 wz[] = {0, 256, 512, 4096};
    if (8 * n > wz[h.fn]) throw Unsupported("spec hash output length");
    T o = mkApp(s, nmz[h.fn], wz[h.fn], h.parts);
    if (!access(s, a[1], n, true, "write")) return 2;
    scatter(*wr(s, a[1].a), (u32)a[1].v, (u32)n, ts.slice(o, 0, 8 * n));
    return 0;
  }
  throw Unsupported("call of undefined function " + nm);
}
void setupIntrinsics(Exec &E) {
  for (auto &f : E.P.funcs) {
    f.intrinsic = 0;
    if (f.name.compare(0, 3, "vp_") == 0 && !f.defined) f.intrinsic = 1;
    if (E.summary) for (int i = 0; hpNames[i]; i++) if (f.name == hpNames[i]) f.intrinsic = 100 + i;
  }
}
