#include "exec.hpp"
#include <pthread.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <time.h>
#include <sys/resource.h>
static double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string js(const std::string &s) {
  std::string r = "\"";
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((u8)c < 32) r += ' '; else r += c; }
  return r + "\"";
}
struct Opt {
  std::string bc, fn, out, rdir; std::map<std::string, u64> params; bool words = false, summary = true, merge = true, sweep = true, vfork = false; double timeout = 600, mem = 0; u64 repeats = 0; int validate = 0; u32 lin = 0; u64 seed = 1; u32 sto = 20000; int nary = 0;
} opt;
static int rc = 0;
static void work() {
  double t0 = nowS();
  std::string err;
  Program P;
  Exec *E = nullptr;
  std::ostringstream o;
  int nval = 0;
  try {
    loadProgram(opt.bc, P);
    E = new Exec(P);
    E->params = opt.params; E->summary = opt.summary; E->merging = opt.merge; E->solverTimeout = opt.sto;
    E->ts.words = opt.words; E->ts.simSeed = opt.seed; E->replaySeed = opt.seed + 100;
    if (opt.lin) E->ts.linLimit = opt.lin;
    if (opt.nary) E->ts.naryLimit = opt.nary;
    if (opt.words) E->ts.sweepProve = [&](T a, T b) { return E->sv.proveSweep(a, b); };
    E->sweepApps = opt.sweep; E->valueFork = opt.vfork; E->deadline = nowS() + opt.timeout; E->maxRepeats = opt.repeats; E->memLimit = (u64)(opt.mem * 1e6);
    E->runHarness(opt.fn);
  } catch (Unsupported &e) { err = e.what(); }
  catch (std::exception &e) { err = std::string("internal: ") + e.what(); }
  if (!E) { std::ofstream f(opt.out); f << "{\"status\":\"error\",\"error\":" << js(err) << "}\n"; rc = 3; return; }
  o << "{\"status\":" << js(err.empty() ? "ok" : "error") << ",\"error\":" << js(err) << ",\"harness\":" << js(opt.fn);
  o << ",\"instrs\":" << E->instrs << ",\"forks\":" << E->forks << ",\"merges\":" << E->merges << ",\"merge_fails\":" << E->mergeFails << ",\"paths\":" << E->paths << ",\"killed\":" << E->killed << ",\"truncated\":" << E->truncated << ",\"infeasible\":" << E->infeasible;
  o << ",\"asserts\":" << E->asserts << ",\"asserts_syntactic\":" << E->assertsSyntactic << ",\"asserts_solver\":" << E->assertsSolver << ",\"hash_calls\":" << E->hashCalls << ",\"case_splits\":" << E->caseSplits << ",\"congruence\":" << E->congruence;
  o << ",\"auto_bytes\":" << E->maxAuto << ",\"terms\":" << E->ts.nodes.size() << ",\"queries\":" << E->sv.queries << ",\"sat\":" << E->sv.sat << ",\"unsat\":" << E->sv.unsat << ",\"unknown\":" << E->sv.unknown << ",\"query_hits\":" << E->sv.queryHits << ",\"solver_s\":" << E->sv.secs;
  o << ",\"secrecy_checks\":" << E->ctChecks << ",\"app_tried\":" << E->sweepTried << ",\"app_unified\":" << E->sweepOk << ",\"sweep_tried\":" << E->sv.sweepTried << ",\"sweep_proved\":" << E->sv.sweepProved << ",\"shape_hits\":" << E->sv.shapeHits;
  auto mp = [&](const char *k, const std::map<std::string, u64> &m) { o << ",\"" << k << "\":{"; bool first = true; for (auto &e : m) { o << (first ? "" : ",") << js(e.first) << ":" << e.second; first = false; } o << "}"; };
  mp("cover", E->cover); mp("labels", E->assertLabels); mp("params", E->params);
  o << ",\"functions\":["; { bool f = true; for (auto &x : E->fnsRun) { o << (f ? "" : ",") << js(x); f = false; } } o << "]";
  o << ",\"notes\":["; { bool f = true; for (auto &x : E->notes) { o << (f ? "" : ",") << js(x); f = false; } } o << "]";
  o << ",\"inconclusive\":["; { bool f = true; for (auto &x : E->inconclusive) { o << (f ? "" : ",") << js(x); f = false; } } o << "]";
  o << ",\"violations\":[";
  int vi = 0;
  for (auto &v : E->viols) {
    std::string rp;
    if (!opt.rdir.empty()) {
      rp = opt.rdir + "/cex" + std::to_string(vi) + ".txt";
      try { Exec::Env en; en.m = &v.model; en.seed = E->replaySeed; E->buildOverrides(en); E->writeReplay(rp, en, v.label, v.kind); }
      catch (std::exception &e) { rp = ""; }
    }
    o << (vi ? "," : "") << "{\"kind\":" << js(v.kind) << ",\"label\":" << js(v.label) << ",\"where\":" << js(v.where) << ",\"detail\":" << js(v.detail) << ",\"replay\":" << js(rp) << "}";
    vi++;
  }
  o << "]";
  // validation traces: concrete assignments satisfying some final path, with the predicted outputs
  o << ",\"traces\":[";
  if (err.empty() && !opt.rdir.empty() && opt.validate) {
    bool first = true;
    for (int k = 0; k < opt.validate && !E->finalPcs.empty(); k++) {
      auto &lits = E->finalPcs[(k * 7919) % E->finalPcs.size()];
      try {
        Model m; Exec::Env en; en.seed = opt.seed * 1000 + k; 
        bool need = false;
        for (T l : lits) if (!(E->eval(l, en)[0] & 1)) { need = true; break; }
        if (need) {
          u32 pc = 0; for (T l : lits) pc = E->pcAdd(pc, l);
          bool unk; if (!E->modelOf(pc, {}, m, unk)) continue;
          en.m = &m; en.memo.clear(); E->buildOverrides(en);
          bool bad = false; for (T l : lits) if (!(E->eval(l, en)[0] & 1)) { bad = true; break; }
          if (bad) continue;
        }
        std::string p = opt.rdir + "/trace" + std::to_string(k) + ".txt";
        E->writeReplay(p, en, "trace", "trace");
        std::ofstream f(p, std::ios::app);
        for (auto &r : E->outs) {
          bool ok = true; for (T l : r.lits) if (!(E->eval(l, en)[0] & 1)) { ok = false; break; }
          if (!ok) continue;
          const Bits &b = E->eval(r.t, en);
          f << "expect " << r.name << " "; char t[3];
          for (u32 i = 0; i < E->ts.W(r.t) / 8; i++) { snprintf(t, 3, "%02x", (unsigned)(u8)(b[i / 8] >> (8 * (i % 8)))); f << t; }
          f << "\n";
        }
        o << (first ? "" : ",") << js(p); first = false; nval++;
      } catch (Unsupported &e) { }
    }
  }
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  o << "],\"rss_mb\":" << ru.ru_maxrss / 1024 << ",\"wall_s\":" << (nowS() - t0) << "}\n";
  if (opt.out.empty()) fputs(o.str().c_str(), stdout); else { std::ofstream f(opt.out); f << o.str(); }
  rc = err.empty() ? 0 : 3;
}
static void *thr(void *) { work(); return nullptr; }
int main(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: sx file.bc harness [options]\n"); return 2; }
  opt.bc = argv[1]; opt.fn = argv[2];
  for (int i = 3; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--param") { std::string s = nx(); size_t e = s.find('='); opt.params[s.substr(0, e)] = strtoull(s.c_str() + e + 1, 0, 0); }
    else if (a == "--out") opt.out = nx();
    else if (a == "--rdir") opt.rdir = nx();
    else if (a == "--words") opt.words = true;
    else if (a == "--prims") opt.summary = false;
    else if (a == "--nosweep") opt.sweep = false;
    else if (a == "--vfork") opt.vfork = true;
    else if (a == "--nomerge") opt.merge = false;
    else if (a == "--repeats") opt.repeats = atoll(nx().c_str());
    else if (a == "--mem") opt.mem = atof(nx().c_str());
    else if (a == "--timeout") opt.timeout = atof(nx().c_str());
    else if (a == "--validate") opt.validate = atoi(nx().c_str());
    else if (a == "--lin") opt.lin = atoi(nx().c_str());
    else if (a == "--nary") opt.nary = atoi(nx().c_str());
    else if (a == "--seed") opt.seed = strtoull(nx().c_str(), 0, 0);
    else if (a == "--sto") opt.sto = atoi(nx().c_str());
    else { fprintf(stderr, "bad option %s\n", a.c_str()); return 2; }
  }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 6ull << 30);
  pthread_t t;
  if (pthread_create(&t, &at, thr, nullptr)) { pthread_attr_setstacksize(&at, 1ull << 30); if (pthread_create(&t, &at, thr, nullptr)) return 4; }
  pthread_join(t, nullptr);
  fflush(stdout);
  _exit(rc);
}
