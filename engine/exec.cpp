// sx: symbolic executor over LLVM 18 IR.
#include "terms.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <deque>
#include <fstream>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <csignal>
#include <sys/resource.h>
using namespace llvm;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct FnInfo { Function* F; std::unordered_map<const Value*, int> slot; int n = 0; };
struct Frame {
  FnInfo* fi; BasicBlock* bb = nullptr; BasicBlock* prev = nullptr; BasicBlock::iterator it;
  std::vector<Val> r; std::vector<uint64_t> allocas; CallBase* site = nullptr;  // call instruction in caller
};
struct ModelRef { Z3_model m = nullptr; ModelRef(Z3_model x) : m(x) { if (m) Z3_model_inc_ref(Z, m); } ~ModelRef() { if (m) Z3_model_dec_ref(Z, m); } };
struct Exn { uint64_t ptr = 0, ti = 0, adj = 0; };
struct State {
  std::vector<Frame> st;
  std::map<uint64_t, std::shared_ptr<Obj>> mem;
  uint64_t next = 0x10000000ull;
  std::vector<E> pc; std::shared_ptr<ModelRef> model; bool real = false, rounding = false;
  uint64_t steps = 0; unsigned forks = 0;
  std::vector<std::pair<std::string, Val>> in;
  std::vector<Exn> caught; std::map<uint64_t, Exn> live;
  std::map<std::string, unsigned> names;
  std::shared_ptr<std::unordered_map<unsigned, E>> alias;
};
using SP = std::unique_ptr<State>;

static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::unordered_map<const Function*, std::unique_ptr<FnInfo>> fnInfos;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr; static std::unordered_map<uint64_t, Function*> fnAt;
static std::map<uint64_t, std::shared_ptr<Obj>> gmem;  // initial globals
static std::unordered_map<const Constant*, Val> constCache;
static std::vector<SP> work;

// ---- configuration / statistics
static double tStart, tLimit = 300, solverTime = 0; static uint64_t maxSteps = 40000000; static unsigned queries = 0, realQ = 0;
static unsigned assertTimeoutMs = 20000, branchTimeoutMs = 3000; static bool stepViolation = false;
struct Ob { unsigned checked = 0, proved = 0, sat = 0, unk = 0, trivially = 0; double time = 0; };
static std::map<std::string, Ob> obs; static std::map<std::string, unsigned> reach, cuts;
static std::set<const Function*> executed; static uint64_t totalSteps = 0; static unsigned pathsDone = 0, pathsCut = 0, pathsAssumedAway = 0, forksTotal = 0, unkBranches = 0, domainConds = 0;
static std::map<std::string, std::pair<double, double>> realRange; static std::vector<std::string> cexs; static std::map<std::string, unsigned> cexCount; static unsigned maxCexPerId = 3;
static std::vector<std::string> samples; static bool timedOut = false; static std::string dumpDir; static unsigned dumped = 0;
static bool trace = false;

static std::string jstr(std::string const& s) {
  std::string o = "\""; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o + "\"";
}

// ---- solver -------------------------------------------------------------------
enum R { UNSAT, SAT, UNK };
static Z3_solver inc = nullptr; static std::vector<E> incStack;
static void setTimeout(Z3_solver s, unsigned ms) {
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), ms);
  Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p);
}
static bool hasQuantOrInt(std::vector<E> const& cs) {  // does any Int-sorted subterm occur
  std::set<unsigned> seen; std::vector<E> w(cs);
  while (!w.empty()) {
    E x = w.back(); w.pop_back();
    if (!seen.insert(Z3_get_ast_id(Z, x)).second) continue;
    if (Z3_get_ast_kind(Z, x) == Z3_NUMERAL_AST) continue;
    if (Z3_get_sort_kind(Z, Z3_get_sort(Z, x)) == Z3_INT_SORT) return true;
    if (Z3_get_ast_kind(Z, x) == Z3_APP_AST) { Z3_app a = Z3_to_app(Z, x); for (unsigned i = 0; i < Z3_get_app_num_args(Z, a); i++) w.push_back(E(Z3_get_app_arg(Z, a, i))); }
  }
  return false;
}
static R runFresh(std::vector<E> const& cs, std::shared_ptr<ModelRef>* mo, unsigned ms, const char* logic) {
  Z3_solver s = logic ? Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, logic)) : Z3_mk_solver(Z);
  Z3_solver_inc_ref(Z, s); setTimeout(s, ms);
  R r = UNK; static bool tq = getenv("SX_TRACEQ") != nullptr; double q0 = tq ? now() : 0;
  try {
    for (auto& c : cs) Z3_solver_assert(Z, s, c);
    Z3_lbool b = Z3_solver_check(Z, s);
    r = b == Z3_L_TRUE ? SAT : b == Z3_L_FALSE ? UNSAT : UNK;
    if (r == SAT && mo) *mo = std::make_shared<ModelRef>(Z3_solver_get_model(Z, s));
  } catch (PathCut&) { r = UNK; }
  if (tq) fprintf(stderr, "[q %zu constraints, limit %u ms: %d in %.2f s]\n", cs.size(), ms, (int)r, now() - q0);
  if (tq && *getenv("SX_TRACEQ") == '2') { for (auto& c : cs) fprintf(stderr, "   %s\n", Z3_ast_to_string(Z, c)); }
  Z3_solver_dec_ref(Z, s); return r;
}
static void dumpQuery(std::vector<E> const& cs, const char* tag) {
  if (dumpDir.empty()) return;
  Z3_solver s = Z3_mk_solver(Z); Z3_solver_inc_ref(Z, s);
  for (auto& c : cs) Z3_solver_assert(Z, s, c);
  std::ofstream f(dumpDir + "/" + tag + std::to_string(dumped++) + ".smt2");
  f << "(set-logic ALL)\n" << Z3_solver_to_string(Z, s) << "(check-sat)\n"; Z3_solver_dec_ref(Z, s);
}
static std::string extCmd; // external fallback solver command
static R external(std::vector<E> const& cs, unsigned ms) {
  char fn[64] = "/tmp/sxq.XXXXXX"; int fd = mkstemp(fn); if (fd < 0) return UNK; close(fd);
  Z3_solver s = Z3_mk_solver(Z); Z3_solver_inc_ref(Z, s);
  for (auto& c : cs) Z3_solver_assert(Z, s, c);
  { std::ofstream f(fn); f << "(set-logic ALL)\n" << Z3_solver_to_string(Z, s) << "(check-sat)\n"; }
  Z3_solver_dec_ref(Z, s);
  std::string cmd = "timeout " + std::to_string(ms / 1000 + 2) + " cvc5 --tlimit=" + std::to_string(ms) + " " + fn + " 2>&1";
  FILE* p = popen(cmd.c_str(), "r"); char b[256]; std::string o; while (p && fgets(b, sizeof b, p)) o += b; if (p) pclose(p);
  unlink(fn);
  if (o.find("error") != std::string::npos) return UNK;
  if (o.substr(0, 5) == "unsat") return UNSAT;
  return UNK;
}
static R query(State& S, std::vector<E> const& extra, std::shared_ptr<ModelRef>* mo, unsigned ms, bool goal = false) {
  double t0 = now(); queries++; R r = UNK;
  double left = tLimit - (t0 - tStart); if (left < 1) left = 1; if (ms > left * 1000) ms = (unsigned)(left * 1000);
  if (!S.real) {
    size_t k = 0; while (k < incStack.size() && k < S.pc.size() && incStack[k].a == S.pc[k].a) k++;
    if (incStack.size() > k) { Z3_solver_pop(Z, inc, incStack.size() - k); incStack.resize(k); }
    while (incStack.size() < S.pc.size()) { Z3_solver_push(Z, inc); Z3_solver_assert(Z, inc, S.pc[incStack.size()]); incStack.push_back(S.pc[incStack.size()]); }
    setTimeout(inc, ms);
    Z3_solver_push(Z, inc);
    for (auto& e : extra) Z3_solver_assert(Z, inc, e);
    try {
      Z3_lbool b = Z3_solver_check(Z, inc);
      r = b == Z3_L_TRUE ? SAT : b == Z3_L_FALSE ? UNSAT : UNK;
      if (r == SAT && mo) *mo = std::make_shared<ModelRef>(Z3_solver_get_model(Z, inc));
    } catch (PathCut&) { r = UNK; }
    Z3_solver_pop(Z, inc, 1);
    if (r == UNK) {
      std::vector<E> cs = S.pc; cs.insert(cs.end(), extra.begin(), extra.end());
      r = runFresh(cs, mo, ms, nullptr);
      if (r == UNK && goal) dumpQuery(cs, "bv");
    }
  } else {
    realQ++;
    std::vector<E> cs, full; bool ints = false; std::vector<E> ax;
    auto build = [&](std::function<E(E const&)> uf) {
      cs.clear(); full.clear(); ax.clear();
      std::vector<E> in = S.pc; in.insert(in.end(), extra.begin(), extra.end());
      for (auto& e : in) cs.push_back(simp(uf(e)));
      auto close = [&](std::vector<E>& v, std::vector<E> roots) {  // definitions of the atoms, and of the atoms of those
        std::set<unsigned> have;
        while (!roots.empty()) { std::vector<E> d, nx; collectDefs(roots, d); for (auto& e : d) { E u = uf(e); if (have.insert(Z3_get_ast_id(Z, u)).second) { v.push_back(u); nx.push_back(u); } } roots = nx; }
      };
      std::vector<E> defs; close(defs, cs); cs.insert(cs.end(), defs.begin(), defs.end());
      collectAngleAxioms(cs, ax); for (auto& e : ax) e = uf(e);
      full = cs; full.insert(full.end(), ax.begin(), ax.end());
      { std::vector<E> d2; close(d2, ax); full.insert(full.end(), d2.begin(), d2.end()); }
      ints = hasQuantOrInt(cs);
    };
    if (haveLets()) {
      build(unfoldHidden); unsigned q = goal ? ms / 3 : ms / 6;
      if (runFresh(cs, nullptr, q, ints ? nullptr : "QF_NRA") == UNSAT || (!ax.empty() && runFresh(full, nullptr, q, ints ? nullptr : "QF_NRA") == UNSAT)) { solverTime += now() - t0; return UNSAT; }
    }
    build([](E const& e) { return unfold(e); });
    unsigned share = goal ? ms / 2 : ms;
    std::shared_ptr<ModelRef> m1;
    r = runFresh(cs, &m1, goal ? share : ms / 2, ints ? nullptr : "QF_NRA");
    if (r != UNSAT && !ax.empty()) {
      std::shared_ptr<ModelRef> m2; R r2 = runFresh(full, &m2, share, ints ? nullptr : "QF_NRA");
      if (r2 == UNK && r == SAT) { r = SAT; } else { r = r2; m1 = m2; }
    }
    if (r == UNK && goal) { r = runFresh(full, &m1, share, nullptr); }
    if (r == UNK && goal) { r = external(full, share); }
    if (r == UNK && goal) dumpQuery(full, "real");
    if (r == SAT && mo) *mo = m1;
  }
  solverTime += now() - t0; return r;
}
static bool exprReal(E const& e);
static int evalBool(State& S, E const& e) {  // 1 true, 0 false, -1 unknown, under cached model
  if (!S.model || !S.model->m || S.real || exprReal(e)) return -1;
  Z3_ast out; if (!Z3_model_eval(Z, S.model->m, e, true, &out)) return -1;
  E o(out); Z3_lbool b = Z3_get_bool_value(Z, o); return b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
}
static void addPC(State& S, E const& e0) {
  E e = simp(e0); if (Z3_get_bool_value(Z, e) == Z3_L_TRUE) return;
  S.pc.push_back(e);
  if (usesReal() && !S.real) {
    // real constraint?
    std::set<unsigned> seen; std::vector<E> w{e};
    while (!w.empty()) {
      E x = w.back(); w.pop_back(); if (!seen.insert(Z3_get_ast_id(Z, x)).second) continue;
      if (Z3_get_sort_kind(Z, Z3_get_sort(Z, x)) == Z3_REAL_SORT) { S.real = true; break; }
      if (Z3_get_ast_kind(Z, x) == Z3_APP_AST) { Z3_app a = Z3_to_app(Z, x); for (unsigned i = 0; i < Z3_get_app_num_args(Z, a); i++) w.push_back(E(Z3_get_app_arg(Z, a, i))); }
    }
  }
  if (evalBool(S, e) != 1) S.model.reset();
}
static bool exprReal(E const& e) {
  std::set<unsigned> seen; std::vector<E> w{e};
  while (!w.empty()) {
    E x = w.back(); w.pop_back(); if (!seen.insert(Z3_get_ast_id(Z, x)).second) continue;
    if (Z3_get_sort_kind(Z, Z3_get_sort(Z, x)) == Z3_REAL_SORT) return true;
    if (Z3_get_ast_kind(Z, x) == Z3_APP_AST) { Z3_app a = Z3_to_app(Z, x); for (unsigned i = 0; i < Z3_get_app_num_args(Z, a); i++) w.push_back(E(Z3_get_app_arg(Z, a, i))); }
  }
  return false;
}

// ---- violations ---------------------------------------------------------------
static std::string numStr(Z3_model m, E const& e) {
  Z3_ast out; if (!m || !Z3_model_eval(Z, m, e, true, &out)) return "0";
  E o(out); if (isNum(o)) return Z3_get_numeral_string(Z, o);
  if (Z3_is_algebraic_number(Z, o)) { return std::string("~") + Z3_get_numeral_decimal_string(Z, o, 25); }
  return "0";
}
static double ratD(std::string s) {
  if (!s.empty() && s[0] == '~') { s = s.substr(1); if (!s.empty() && s.back() == '?') s.pop_back(); return strtod(s.c_str(), nullptr); }
  auto p = s.find('/'); if (p == std::string::npos) return strtod(s.c_str(), nullptr);
  return (double)(strtold(s.substr(0, p).c_str(), nullptr) / strtold(s.substr(p + 1).c_str(), nullptr));
}
static std::string inputsJson(State& S, std::shared_ptr<ModelRef> mr) {
  Z3_model m = mr ? mr->m : nullptr; std::ostringstream o; o << "{"; bool first = true; char b[64];
  for (auto& [n, v] : S.in) {
    if (!first) o << ", "; first = false; o << jstr(n) << ": ";
    if (v.k == K::R) {
      double d = ratD(numStr(m, v.e)); snprintf(b, sizeof b, "%.17g", d); std::string alt;
      for (auto& k : angleKeys()) {  // angle term q*v ?
        E q = simp(E(Z3_mk_div(Z, k.t, v.e)));
        E sub; { Z3_ast from[] = {v.e}, to[] = {numR("1")}; sub = simp(E(Z3_substitute(Z, k.t, 1, from, to))); }
        if (!isNum(sub)) continue;
        E z; { Z3_ast from[] = {v.e}, to[] = {numR("0")}; z = simp(E(Z3_substitute(Z, k.t, 1, from, to))); }
        if (!isNum(z) || std::string(Z3_get_numeral_string(Z, z)) != "0") continue;
        double co = ratD(Z3_get_numeral_string(Z, sub)); if (co == 0) continue;
        double th = atan2(ratD(numStr(m, unfold(k.s))), ratD(numStr(m, unfold(k.c))));
        char b2[64]; snprintf(b2, sizeof b2, "%.17g", th / co); alt = b2; break;
      }
      if (alt.empty()) o << b; else o << "[" << b << ", " << alt << "]";
    } else if (v.k == K::C) o << v.c;
    else {
      std::string s;
      if (v.k == K::S && v.w == 1) { Z3_ast out; s = "0"; if (m && Z3_model_eval(Z, m, v.e, true, &out)) { E x(out); if (Z3_get_bool_value(Z, x) == Z3_L_TRUE) s = "1"; } }
      else s = numStr(m, v.e);
      o << s;
    }
  }
  o << "}"; return o.str();
}
static void violation(State& S, std::string const& id, std::shared_ptr<ModelRef> m, std::string const& kind, std::string const& detail = "") {
  if (cexCount[id]++ >= maxCexPerId) return;
  std::string where; for (auto it = S.st.rbegin(); it != S.st.rend() && where.size() < 600; ++it) where += demangle(it->fi->F->getName().str()) + " < ";
  cexs.push_back("{\"id\": " + jstr(id) + ", \"kind\": " + jstr(kind) + ", \"detail\": " + jstr(detail) + ", \"stack\": " + jstr(where.substr(0, 600)) + ", \"inputs\": " + inputsJson(S, m) + "}");
}
struct PathEnd {};  // silently ends the path
static void ensureModel(State& S) { if (!S.model || S.real) { std::shared_ptr<ModelRef> m; R r = query(S, {}, &m, branchTimeoutMs); if (r == SAT) S.model = m; else if (r == UNSAT) throw PathEnd(); } }
static void pathViolation(State& S, std::string const& id, std::string const& kind, std::string const& detail = "") {
  auto& o = obs[id]; o.checked++;
  ensureModel(S); o.sat++;
  violation(S, id, S.model, kind, detail); throw PathEnd();
}
static void applyDomain(State& S) {
  if (!pendingDefs.empty()) {
    auto v = std::move(pendingDefs); pendingDefs.clear();
    for (auto& e : v) { E s = simp(e); bool dup = false; for (auto& p : S.pc) if (p.a == s.a) { dup = true; break; } if (!dup) addPC(S, s); }
  }
  if (pendingDomain.empty()) return;
  auto v = std::move(pendingDomain); pendingDomain.clear();
  for (auto& e : v) {
    E s = simp(e); Z3_lbool b = Z3_get_bool_value(Z, s);
    if (b == Z3_L_TRUE) continue; if (b == Z3_L_FALSE) pathViolation(S, "defined", "domain", "operation without a result (division by zero, root of a negative number, inverse cosine outside of [-1,1])");
    bool dup = false; for (auto& p : S.pc) if (p.a == s.a) { dup = true; break; }
    if (dup) continue;
    domainConds++;
    { auto& o = obs["defined"]; o.checked++; double t0 = now(); bool wr = S.real; S.real = true; std::shared_ptr<ModelRef> m; R r = query(S, {eNot(s)}, &m, assertTimeoutMs / 2, true); S.real = wr; o.time += now() - t0;
      if (r == UNSAT) o.proved++; else if (r == SAT) { o.sat++; violation(S, "defined", m, "domain", "operation without a result (division by zero, root of a negative number, inverse cosine outside of [-1,1])"); } else o.unk++; }
    addPC(S, s);
  }
}

// ---- memory -------------------------------------------------------------------
static uint64_t allocObj(State& S, uint64_t size, const char* tag, bool heap) {
  if (size > (64u << 20)) throw PathCut{"allocation larger than 64 MiB"};
  auto o = std::make_shared<Obj>(); o->base = S.next; o->size = size; o->b.assign(size, 0xCD); o->tag = tag; o->heap = heap;
  S.next += (size + 63) / 16 * 16 + 32; S.mem[o->base] = o; return o->base;
}
static std::shared_ptr<Obj>* findObj(State& S, uint64_t a) {
  auto it = S.mem.upper_bound(a); if (it != S.mem.begin()) { --it; if (a < it->first + it->second->size || (a == it->first)) return &it->second; }
  auto g = gmem.upper_bound(a); if (g != gmem.begin()) { --g; if (a < g->first + g->second->size || a == g->first) return &g->second; }
  return nullptr;
}
struct NeedConc { const Value* v; };
static std::string hexs(uint64_t v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
static Obj& roObj(State& S, uint64_t a, uint64_t n, const char* what) {
  auto p = findObj(S, a);
  if (!p || a + n > (*p)->base + (*p)->size) {
    if (n == 0) { static Obj z; return z; }
    pathViolation(S, "memory-safety", "memory", std::string(what) + " of " + std::to_string(n) + " bytes at " + hexs(a) + (p ? std::string(" beyond object ") + (*p)->tag + " size " + std::to_string((*p)->size) : " (no object)"));
  }
  return **p;
}
static Obj& rwObj(State& S, uint64_t a, uint64_t n, const char* what) {
  roObj(S, a, n, what);
  auto it = S.mem.upper_bound(a);
  if (it != S.mem.begin()) { --it; if (a < it->first + it->second->size || a == it->first) { if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second); return *it->second; } }
  auto g = findObj(S, a); if (!g) { static Obj z; return z; }
  if ((*g)->ro) pathViolation(S, "memory-safety", "memory", "write to constant");
  auto c = std::make_shared<Obj>(**g); S.mem[c->base] = c; return *c;
}
static void eraseSym(Obj& o, uint32_t off, uint32_t n) { if (o.sym.empty()) return; auto a = o.sym.lower_bound(off), b = o.sym.lower_bound(off + n); o.sym.erase(a, b); }
static unsigned nb(unsigned w) { return w == 80 ? 10 : (w + 7) / 8; }
static void storeScalar(State& S, uint64_t a, Val v) {
  if (v.k == K::Undef) { unsigned n = nb(v.w ? v.w : 8); Obj& o = rwObj(S, a, n, "store"); if (!o.size) return; uint32_t off = a - o.base; eraseSym(o, off, n); memset(&o.b[off], 0, n); return; }
  if (v.w == 1) v = zext(v, 8);
  if (v.k == K::CF && v.w != 80) v = fpToBits(v);
  unsigned n = nb(v.w); Obj& o = rwObj(S, a, n, "store"); uint32_t off = a - o.base; eraseSym(o, off, n);
  if (v.k == K::C) { memcpy(&o.b[off], &v.c, n); return; }
  for (unsigned i = 0; i < n; i++) o.sym[off + i] = SymByte{v, (uint8_t)i, (uint8_t)n};
}
static E byteExpr(SymByte const& sb) {
  Val x = sb.v; if (x.k == K::F || x.k == K::CF) x = fpToBits(x);
  if (sb.n == 1) return bvOf(x);
  return simp(E(Z3_mk_extract(Z, sb.idx * 8 + 7, sb.idx * 8, bvOf(x))));
}
static bool sameVal(Val const& a, Val const& b) { return a.k == b.k && a.w == b.w && (a.k == K::CF ? a.ld == b.ld : a.e.a == b.e.a); }
static Val loadScalar(State& S, uint64_t a, unsigned w, bool fp) {
  unsigned n = nb(w); Obj& o = roObj(S, a, n, "load"); uint32_t off = a - o.base;
  auto it = o.sym.lower_bound(off);
  if (it == o.sym.end() || it->first >= off + n) {
    if (w == 80) { long double x = 0; memcpy(&x, &o.b[off], 10); return Val::Flt(x, 80); }
    uint64_t c = 0; if (n > 8) { // wide integer
      E e; for (unsigned i = 0; i < n; i++) { E b = bvNum(o.b[off + i], 8); e = i ? E(Z3_mk_concat(Z, b, e)) : b; } return Val::Sym(simp(e), w); }
    memcpy(&c, &o.b[off], n);
    Val v = Val::Int(c, w); if (fp) return bitsToFp(v, w); return v;
  }
  // whole value?
  if (it->first == off && it->second.idx == 0 && it->second.n == n) {
    bool ok = true; auto j = it; Val const& v0 = it->second.v;
    for (unsigned i = 0; i < n; i++, ++j) if (j == o.sym.end() || j->first != off + i || j->second.idx != i || j->second.n != n || !sameVal(j->second.v, v0)) { ok = false; break; }
    if (ok) { Val v = v0; if (w == 1) return trunc(v, 1); if (!fp && (v.k == K::F || v.k == K::CF)) v = fpToBits(v); return v; }
  }
  if (w == 80) throw PathCut{"partial fp80 load"};
  // mathematical integers: a part of one, or several next to each other
  if (w % 8 == 0 && w <= 64) {
    auto at = [&](unsigned i) { auto j = o.sym.find(off + i); return j == o.sym.end() ? nullptr : &j->second; };
    auto whole = [&](unsigned i, unsigned k, auto* c) { for (unsigned t = 0; t < k; t++) { auto* d = at(i + t); if (!d || d->idx != c->idx + t || d->n != c->n || !sameVal(d->v, c->v)) return false; } return true; };
    auto* c0 = at(0);
    if (c0 && c0->v.k == K::I && c0->n > n && c0->idx + n <= c0->n && whole(0, n, c0)) { Val v = c0->v; if (c0->idx) v = iop(IOp::LShr, v, Val::Int(8 * c0->idx, v.w)); v = trunc(v, w); if (v.k != K::S) return v; }
    bool ok = true, any = false; Val acc = Val::Int(0, w);
    for (unsigned i = 0; i < n && ok;) {
      auto* c = at(i); Val part; unsigned k;
      if (!c) { part = Val::Int(o.b[off + i], 8); k = 1; }
      else { k = c->n; if (c->idx || c->v.k != K::I || i + k > n || c->v.w != 8 * k || !whole(i, k, c)) { ok = false; break; } part = c->v; any = true; }
      Val z = part.w < w ? zext(part, w) : part; if (i) z = iop(IOp::Shl, z, Val::Int(8 * i, w)); acc = iop(IOp::Or, acc, z); if (acc.k == K::S) ok = false; i += k;
    }
    if (ok && any) return acc;
  }
  // undefined exact-real pieces are rejected by bvOf
  E e;
  for (unsigned i = 0; i < n; i++) {
    auto j = o.sym.find(off + i); E b = j == o.sym.end() ? bvNum(o.b[off + i], 8) : byteExpr(j->second);
    e = i ? E(Z3_mk_concat(Z, b, e)) : b;
  }
  if (w == 1) { Val v = fromBV(e, 8); return trunc(v, 1); }
  if (w % 8) { Val v = fromBV(e, n * 8); return trunc(v, w); }
  Val v = fromBV(e, w); if (fp && v.k == K::C) return bitsToFp(v, w); return v;
}
static unsigned tw(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isX86_FP80Ty()) return 80;
  std::string s; raw_string_ostream os(s); t->print(os); throw PathCut{"type " + os.str()};
}
static void storeT(State& S, uint64_t a, Val const& v, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeT(S, a + L->getElementOffset(i), v.agg ? (*v.agg)[i] : Val(), st->getElementType(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) storeT(S, a + i * es, v.agg ? (*v.agg)[i] : Val(), at->getElementType()); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) storeT(S, a + i * es, v.agg ? (*v.agg)[i] : Val(), vt->getElementType()); return; }
  Val x = v; if (x.k == K::Undef) x.w = tw(t); storeScalar(S, a, x);
}
static Val loadT(State& S, uint64_t a, Type* t) {
  auto agg = [&](unsigned n, auto f) { Val v; v.k = K::Agg; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < n; i++) v.agg->push_back(f(i)); return v; };
  if (auto* st = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(st); return agg(st->getNumElements(), [&](unsigned i) { return loadT(S, a + L->getElementOffset(i), st->getElementType(i)); }); }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); return agg(at->getNumElements(), [&](unsigned i) { return loadT(S, a + i * es, at->getElementType()); }); }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(vt->getElementType()); return agg(vt->getNumElements(), [&](unsigned i) { return loadT(S, a + i * es, vt->getElementType()); }); }
  return loadScalar(S, a, tw(t), t->isFloatingPointTy());
}
static void copyMem(State& S, uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  Obj& so = roObj(S, s, n, "memcpy read"); uint32_t soff = s - so.base;
  std::vector<uint8_t> tmp(so.b.begin() + soff, so.b.begin() + soff + n);
  std::vector<std::pair<uint32_t, SymByte>> sy;
  for (auto it = so.sym.lower_bound(soff); it != so.sym.end() && it->first < soff + n; ++it) sy.push_back({it->first - soff, it->second});
  Obj& dd = rwObj(S, d, n, "memcpy write"); uint32_t doff = d - dd.base; eraseSym(dd, doff, n);
  memcpy(&dd.b[doff], tmp.data(), n); for (auto& p : sy) dd.sym[doff + p.first] = p.second;
}
static std::string readCStr(State& S, uint64_t a) {
  std::string s; for (;;) { Val v = loadScalar(S, a++, 8, false); if (v.k != K::C) throw PathCut{"symbolic C string"}; if (!v.c) return s; s += (char)v.c; if (s.size() > 100000) throw PathCut{"cstr"}; }
}

// ---- globals ------------------------------------------------------------------
static uint64_t gNext = 0x1000000ull;
static uint64_t fnAddr(Function* F) { auto it = gaddr.find(F); if (it != gaddr.end()) return it->second; uint64_t a = gNext; gNext += 64; gaddr[F] = a; fnAt[a] = F; return a; }
static Val constVal(const Constant* c);
static void initInto(State* S, Obj& o, uint64_t off, const Constant* c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  Type* t = c->getType();
  if (auto* ca = dyn_cast<ConstantDataSequential>(c)) { auto s = ca->getRawDataValues(); memcpy(&o.b[off], s.data(), s.size()); return; }
  if (auto* st = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initInto(S, o, off + L->getElementOffset(i), cast<Constant>(c->getOperand(i))); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initInto(S, o, off + i * es, cast<Constant>(c->getOperand(i))); return; }
  Val v = constVal(c);
  if (v.k == K::Undef) return;
  if (v.k == K::CF) { if (v.w == 80) { memcpy(&o.b[off], &v.ld, 10); return; } v = fpToBits(v); }
  memcpy(&o.b[off], &v.c, nb(v.w));
}
static void initGlobals() {
  for (auto& F : M->functions()) fnAddr(&F);
  for (auto& g : M->globals()) {
    uint64_t sz = DL->getTypeAllocSize(g.getValueType()); if (!g.hasInitializer()) sz = std::max<uint64_t>(sz, 512);
    gNext = (gNext + 63) / 64 * 64; auto o = std::make_shared<Obj>(); o->base = gNext; o->size = sz; o->b.assign(sz, 0); o->tag = "global"; o->ro = g.isConstant() && g.hasInitializer();
    gNext += sz + 32; gaddr[&g] = o->base; gmem[o->base] = o;
  }
  for (auto& a : M->aliases()) { if (auto* base = dyn_cast<GlobalValue>(a.getAliasee()->stripPointerCasts())) if (gaddr.count(base)) gaddr[&a] = gaddr[base]; }
  for (auto& g : M->globals()) if (g.hasInitializer()) initInto(nullptr, *gmem[gaddr[&g]], 0, g.getInitializer());
}
static Val constVal(const Constant* c) {
  auto it = constCache.find(c); if (it != constCache.end()) return it->second;
  Val v;
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) v = Val::Int(ci->getZExtValue(), ci->getBitWidth());
    else { SmallString<64> s; ci->getValue().toStringUnsigned(s); v = Val::Sym(E(Z3_mk_numeral(Z, s.c_str(), Z3_mk_bv_sort(Z, ci->getBitWidth()))), ci->getBitWidth()); }
  }
  else if (auto* cf = dyn_cast<ConstantFP>(c)) {
    unsigned w = tw(c->getType()); APFloat f = cf->getValueAPF();
    if (w == 80) { APInt bi = f.bitcastToAPInt(); long double x = 0; uint64_t lo = bi.getRawData()[0], hi = bi.getRawData()[1]; memcpy(&x, &lo, 8); memcpy((char*)&x + 8, &hi, 2); v = Val::Flt(x, 80); }
    else if (w == 32) v = Val::Flt(f.convertToFloat(), 32); else v = Val::Flt(f.convertToDouble(), 64);
  }
  else if (isa<ConstantPointerNull>(c)) v = Val::Int(0, 64);
  else if (auto* gv = dyn_cast<GlobalValue>(c)) {
    auto g = gaddr.find(gv); if (g == gaddr.end()) { if (auto* ga = dyn_cast<GlobalAlias>(gv)) v = constVal(ga->getAliasee()); else throw PathCut{"global " + gv->getName().str()}; }
    else v = Val::Int(g->second, 64);
  }
  else if (isa<UndefValue>(c)) { v.k = K::Undef; Type* t = c->getType(); if (t->isIntegerTy() || t->isPointerTy() || t->isFloatingPointTy()) v.w = tw(t);
    else if (auto* st = dyn_cast<StructType>(t)) { v.k = K::Agg; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < st->getNumElements(); i++) v.agg->push_back(constVal(UndefValue::get(st->getElementType(i)))); }
    else if (auto* at = dyn_cast<ArrayType>(t)) { v.k = K::Agg; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < at->getNumElements(); i++) v.agg->push_back(constVal(UndefValue::get(at->getElementType()))); }
    else if (auto* vt = dyn_cast<FixedVectorType>(t)) { v.k = K::Agg; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < vt->getNumElements(); i++) v.agg->push_back(constVal(UndefValue::get(vt->getElementType()))); } }
  else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw PathCut{"const gep"}; v = iop(IOp::Add, constVal(ce->getOperand(0)), Val::Int(off.getSExtValue(), 64)); break; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: v = constVal(ce->getOperand(0)); break;
      case Instruction::PtrToInt: v = constVal(ce->getOperand(0)); if (tw(ce->getType()) < 64) v = trunc(v, tw(ce->getType())); break;
      case Instruction::IntToPtr: v = zext(constVal(ce->getOperand(0)), 64); break;
      case Instruction::Sub: v = iop(IOp::Sub, constVal(ce->getOperand(0)), constVal(ce->getOperand(1))); break;
      case Instruction::Add: v = iop(IOp::Add, constVal(ce->getOperand(0)), constVal(ce->getOperand(1))); break;
      case Instruction::Trunc: v = trunc(constVal(ce->getOperand(0)), tw(ce->getType())); break;
      case Instruction::ICmp: { auto a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); v = icmp(ce->getPredicate() == CmpInst::ICMP_EQ ? IPred::EQ : IPred::NE, a, b); break; }
      default: throw PathCut{"constexpr"};
    }
  }
  else if (c->getType()->isStructTy() || c->getType()->isArrayTy() || c->getType()->isVectorTy()) {
    unsigned n = c->getType()->isStructTy() ? cast<StructType>(c->getType())->getNumElements() : c->getType()->isArrayTy() ? (unsigned)cast<ArrayType>(c->getType())->getNumElements() : cast<FixedVectorType>(c->getType())->getNumElements();
    v.k = K::Agg; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < n; i++) v.agg->push_back(constVal(c->getAggregateElement(i)));
  } else throw PathCut{"constant"};
  constCache[c] = v; return v;
}

static FnInfo* info(Function* F) {
  auto& p = fnInfos[F]; if (p) return p.get();
  p = std::make_unique<FnInfo>(); p->F = F;
  for (auto& a : F->args()) p->slot[&a] = p->n++;
  for (auto& bb : *F) for (auto& i : bb) if (!i.getType()->isVoidTy()) p->slot[&i] = p->n++;
  return p.get();
}
static inline Val const& get(State& S, const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) { auto it = constCache.find(c); if (it != constCache.end()) return it->second; constVal(c); return constCache[c]; }
  Frame& f = S.st.back(); return f.r[f.fi->slot.at(v)];
}
static inline void set(State& S, const Value* v, Val x) { Frame& f = S.st.back(); f.r[f.fi->slot.at(v)] = std::move(x); }
static uint64_t cint(State& S, const Value* v) { Val const& x = get(S, v); if (x.k == K::C) return x.c; if (x.k == K::Undef) return 0; if (x.k == K::S || x.k == K::I) throw NeedConc{v}; throw PathCut{"non-integer used as address/size"}; }

static void pushFrame(State& S, Function* F, std::vector<Val> const& args, CallBase* site) {
  if (S.st.size() > 2000) throw PathCut{"call depth"};
  FnInfo* fi = info(F); Frame f; f.fi = fi; f.r.resize(fi->n); f.bb = &F->getEntryBlock(); f.it = f.bb->begin(); f.site = site;
  unsigned i = 0; for (auto& a : F->args()) { Val v = i < args.size() ? args[i] : Val(); 
    if (a.hasByValAttr() && v.k == K::C) { Type* t = a.getParamByValType(); uint64_t n = DL->getTypeAllocSize(t); uint64_t p = allocObj(S, n, "byval", false); copyMem(S, p, v.c, n); f.allocas.push_back(p); v = Val::Int(p, 64); }
    f.r[fi->slot[&a]] = v; i++; }
  executed.insert(F); S.st.push_back(std::move(f));
}
static void popFrame(State& S) { for (auto a : S.st.back().allocas) S.mem.erase(a); S.st.pop_back(); }
static void enterBlock(State& S, BasicBlock* to) {
  Frame& f = S.st.back(); f.prev = f.bb; f.bb = to; f.it = to->begin();
  // phis in parallel
  std::vector<std::pair<const Value*, Val>> nv;
  for (auto& p : to->phis()) nv.push_back({&p, get(S, p.getIncomingValueForBlock(f.prev))});
  for (auto& [k, v] : nv) set(S, k, v);
  while (isa<PHINode>(*f.it)) ++f.it;
}
static void afterCall(State& S, CallBase* cb) {  // current frame is the caller
  if (auto* inv = dyn_cast<InvokeInst>(cb)) enterBlock(S, inv->getNormalDest()); else ++S.st.back().it;
}

// ---- exceptions ---------------------------------------------------------------
static std::unordered_map<uint64_t, const GlobalVariable*> gvAt;
static const GlobalVariable* gvByAddr(uint64_t a) { if (gvAt.empty()) for (auto& g : M->globals()) gvAt[gaddr[&g]] = &g; auto it = gvAt.find(a); return it == gvAt.end() ? nullptr : it->second; }
static const std::map<std::string, std::string> stdBase = {
  {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
  {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
  {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"},
  {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"}};
static bool tiMatch(std::string const& thrown, std::string const& want, int64_t& off, int depth = 0) {
  if (thrown == want) return true;
  if (depth > 12) return false;
  auto sb = stdBase.find(thrown); if (sb != stdBase.end()) return tiMatch(sb->second, want, off, depth + 1);
  auto* g = M->getNamedGlobal(thrown); if (!g || !g->hasInitializer()) return false;
  auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs || cs->getNumOperands() < 3) return false;
  if (cs->getNumOperands() == 3) { auto* b = cs->getOperand(2)->stripPointerCasts(); return tiMatch(b->getName().str(), want, off, depth + 1); }
  for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) {
    auto* b = cs->getOperand(i)->stripPointerCasts(); int64_t fl = cast<ConstantInt>(cs->getOperand(i + 1))->getSExtValue();
    int64_t o2 = 0; if (!(fl & 2)) continue; // public only
    if (tiMatch(b->getName().str(), want, o2, depth + 1)) { off += (fl >> 8) + o2; return true; }
  }
  return false;
}
static std::map<std::string, uint32_t> typeIds;
static uint32_t typeId(std::string const& n) { auto it = typeIds.find(n); if (it != typeIds.end()) return it->second; uint32_t i = typeIds.size() + 1; typeIds[n] = i; return i; }
static std::map<std::string, uint64_t> fakeTi;
static std::string tiName(uint64_t a) { if (auto* g = gvByAddr(a)) return g->getName().str(); for (auto& p : fakeTi) if (p.second == a) return p.first; return "?"; }
static uint64_t tiAddr(std::string const& n) { if (auto* g = M->getNamedGlobal(n)) return gaddr[g]; auto it = fakeTi.find(n); if (it != fakeTi.end()) return it->second; uint64_t a = gNext; gNext += 64; fakeTi[n] = a; return a; }

static void unwind(State& S, Exn ex) {  // top frame is the one whose current instruction throws
  std::string tn = tiName(ex.ti);
  bool first = true;
  while (!S.st.empty()) {
    Frame& f = S.st.back();
    Instruction* cur = &*f.it;
    auto* inv = dyn_cast<InvokeInst>(cur);
    if (inv && !(first && false)) {
      auto* lp = inv->getLandingPadInst(); uint32_t sel = 0; bool hit = lp->isCleanup(); bool handler = false; int64_t off = 0;
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        if (lp->isCatch(i)) {
          auto* c = lp->getClause(i)->stripPointerCasts();
          if (isa<ConstantPointerNull>(c)) { sel = typeId("<any>"); hit = handler = true; break; }
          off = 0; if (tiMatch(tn, c->getName().str(), off)) { sel = typeId(c->getName().str()); hit = handler = true; break; }
        } else { // filter
          hit = true; sel = (uint32_t)-1; handler = true; break;
        }
      }
      if (hit) {
        ex.adj = ex.ptr + (handler ? off : 0); S.live[ex.ptr] = ex;
        enterBlock(S, inv->getUnwindDest());
        Val v; v.k = K::Agg; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(Val::Int(ex.ptr, 64)); v.agg->push_back(Val::Int(sel, 32));
        set(S, lp, v); ++S.st.back().it; return;
      }
    }
    first = false;
    popFrame(S);
    if (S.st.empty()) break;
  }
  // uncaught in harness
  S.st.clear(); auto& o = obs["uncaught-exception"]; o.checked++; o.sat++;
  if (!S.model || S.real) { std::shared_ptr<ModelRef> m; if (query(S, {}, &m, branchTimeoutMs) == SAT) S.model = m; else { o.sat--; throw PathEnd(); } }
  violation(S, "uncaught-exception", S.model, "exception", demangle(tn)); throw PathEnd();
}
static void throwStd(State& S, std::string const& ti, unsigned sz = 16) {
  Exn ex; ex.ptr = allocObj(S, sz, "exn", true); ex.ti = tiAddr(ti); unwind(S, ex);
}

// ---- forking ------------------------------------------------------------------
static void forkOn(State& S, const Value* v) {
  Val x = get(S, v); E e = x.k == K::I ? x.e : bvOf(x);
  std::vector<E> excl; std::vector<SP> outs; unsigned n = 0; bool exhausted = false;
  std::shared_ptr<ModelRef> m = S.model; if (S.real) m.reset();
  while (n < 600) {
    if (!m) { R r = query(S, excl, &m, branchTimeoutMs); if (r == UNSAT) { exhausted = true; break; } if (r == UNK) { cuts["concretisation: solver unknown"]++; break; } }
    Z3_ast out; if (!Z3_model_eval(Z, m->m, e, true, &out)) throw PathCut{"eval"};
    E val(out); Val cv;
    if (x.w == 1) { cv = Val::Int(Z3_get_bool_value(Z, val) == Z3_L_TRUE, 1); val = E(cv.c ? Z3_mk_true(Z) : Z3_mk_false(Z)); }
    else if (x.k == K::I) { int64_t s; if (!Z3_get_numeral_int64(Z, val, &s)) throw PathCut{"int range"}; cv = Val::Int((uint64_t)s, x.w); }
    else { uint64_t u; if (!Z3_get_numeral_uint64(Z, val, &u)) throw PathCut{"eval numeral"}; cv = Val::Int(u, x.w); }
    auto c = std::make_unique<State>(S); c->model = m; addPC(*c, eEq(e, val)); set(*c, v, cv); c->forks++; outs.push_back(std::move(c)); n++; forksTotal++;
    excl.push_back(eNot(eEq(e, val))); m.reset();
    if (now() - tStart > tLimit) { timedOut = true; break; }
  }
  if (!exhausted && n >= 600) cuts["concretisation limit 600"]++;
  for (auto it = outs.rbegin(); it != outs.rend(); ++it) work.push_back(std::move(*it));
}
// returns chosen side for S (1/0) after adding constraint; pushes the other side if feasible
static int branch(State& S, E const& e, std::function<void(State&, bool)> take) {
  int mv = evalBool(S, e); E ne = eNot(e); bool ft, ff;
  std::shared_ptr<ModelRef> mt, mf;
  bool wasReal = S.real; if (!S.real && exprReal(e)) S.real = true;
  auto ask = [&](E const& c, std::shared_ptr<ModelRef>& m) { R r = query(S, {c}, &m, branchTimeoutMs); if (r == UNK) unkBranches++; return r != UNSAT; };
  if (mv == 1) { ft = true; mt = S.model; ff = ask(ne, mf); }
  else if (mv == 0) { ff = true; mf = S.model; ft = ask(e, mt); }
  else { ft = ask(e, mt); ff = ft ? ask(ne, mf) : true; if (!ft) { std::shared_ptr<ModelRef> m; R r = query(S, {ne}, &m, branchTimeoutMs); if (r == UNSAT) throw PathEnd(); mf = m; } }
  S.real = wasReal;
  if (ft && ff) {
    forksTotal++; auto c = std::make_unique<State>(S); c->forks++; S.forks++;
    c->model = mf; c->pc.push_back(simp(ne)); if (exprReal(e)) { c->real = true; S.real = true; }
    take(*c, false); work.push_back(std::move(c));
    S.model = mt; S.pc.push_back(e); take(S, true); return 1;
  }
  // the constraint is implied; keep model
  if (ft) { if (mt) S.model = mt; take(S, true); return 1; }
  if (mf) S.model = mf; take(S, false); return 0;
}

// ---- assertions ---------------------------------------------------------------
static void doAssert(State& S, Val const& c, std::string const& id) {
  auto& o = obs[id]; o.checked++; double t0 = now();
  if (c.k == K::C) {
    if (c.c) { o.proved++; o.trivially++; return; }
    std::shared_ptr<ModelRef> m = S.model; if (S.real) m.reset(); R r = SAT; if (!m) r = query(S, {}, &m, assertTimeoutMs, true);
    if (r == UNSAT) { o.proved++; throw PathEnd(); }
    if (r == UNK) { o.unk++; throw PathEnd(); }
    o.sat++; o.time += now() - t0; violation(S, id, m, "assert"); throw PathEnd();
  }
  E e = boolOf(c); bool wr = S.real; if (exprReal(e)) S.real = true;
  std::shared_ptr<ModelRef> m; R r = query(S, {eNot(e)}, &m, assertTimeoutMs, true);
  o.time += now() - t0; S.real = wr;
  if (r == UNSAT) { o.proved++; return; }
  if (r == SAT) { o.sat++; violation(S, id, m, "assert"); } else o.unk++;
  addPC(S, e); if (!S.model) { std::shared_ptr<ModelRef> mm; R q = query(S, {}, &mm, branchTimeoutMs); if (q == UNSAT) throw PathEnd(); S.model = mm; }
}
static void doClose(State& S, Val const& a, Val const& b, double tol, std::string const& id) {
  auto& o = obs[id];
  if (a.k == K::CF && b.k == K::CF) {
    double x = a.ld, y = b.ld; bool ok = fabs(x - y) <= tol * std::max(1.0, std::max(fabs(x), fabs(y)));
    doAssert(S, Val::Int(ok, 1), id); return;
  }
  if (a.k != K::R && b.k != K::R) { doAssert(S, fcmp(1, a, b), id); return; }
  // exact equality first
  o.checked++; double t0 = now();
  E x = realOf(a), y = realOf(b); E eq = simp(eEq(x, y)); E eqU = unfold(eq);
  if (Z3_get_bool_value(Z, eq) == Z3_L_TRUE) { o.proved++; o.trivially++; return; }
  bool wr = S.real; S.real = true; std::shared_ptr<ModelRef> m;
  R r = Z3_get_bool_value(Z, simpSom(eqU)) == Z3_L_TRUE ? UNSAT : query(S, {eNot(eq)}, &m, assertTimeoutMs, true);
  bool exact = r == UNSAT;
  if (r != UNSAT) {
    E d = E(Z3_mk_sub(Z, 2, (Z3_ast[]){x, y})); char b1[64]; snprintf(b1, 64, "%.1e", tol);
    // |x-y| > tol*max(1,|x|,|y|)
    E T = numR(snapRational(tol, 64)); E ax = eIte(E(Z3_mk_ge(Z, x, numR("0"))), x, E(Z3_mk_unary_minus(Z, x)));
    E bound = E(Z3_mk_mul(Z, 2, (Z3_ast[]){T, E(Z3_mk_add(Z, 2, (Z3_ast[]){numR("1"), ax}))}));
    E big = E(Z3_mk_or(Z, 2, (Z3_ast[]){E(Z3_mk_gt(Z, d, bound)), E(Z3_mk_lt(Z, d, E(Z3_mk_unary_minus(Z, bound))))}));
    R r2 = query(S, {big}, &m, assertTimeoutMs, true);
    r = r2;
  }
  S.real = wr; o.time += now() - t0;
  if (r == UNSAT) {
    o.proved++;
    if (exact) { auto n = std::make_shared<std::unordered_map<unsigned, E>>(); if (S.alias) *n = *S.alias; learnEqual(*n, x, y); S.alias = n; curAlias = n.get(); }
    return;
  }
  if (r == SAT) { o.sat++; violation(S, id, m, "assert"); } else o.unk++;
}

#include "calls.inc"

// ---- interpreter --------------------------------------------------------------
static Val vecMap(Type* t, std::function<Val(unsigned)> f) {
  unsigned n = cast<FixedVectorType>(t)->getNumElements(); Val v; v.k = K::Agg; v.agg = std::make_shared<std::vector<Val>>();
  for (unsigned i = 0; i < n; i++) v.agg->push_back(f(i)); return v;
}
static Val lane(Val const& v, unsigned i) { return v.agg ? (*v.agg)[i] : v; }
static IPred ipred(CmpInst::Predicate p) {
  switch (p) { case CmpInst::ICMP_EQ: return IPred::EQ; case CmpInst::ICMP_NE: return IPred::NE; case CmpInst::ICMP_UGT: return IPred::UGT; case CmpInst::ICMP_UGE: return IPred::UGE; case CmpInst::ICMP_ULT: return IPred::ULT; case CmpInst::ICMP_ULE: return IPred::ULE; case CmpInst::ICMP_SGT: return IPred::SGT; case CmpInst::ICMP_SGE: return IPred::SGE; case CmpInst::ICMP_SLT: return IPred::SLT; default: return IPred::SLE; }
}
static Val bin(unsigned op, Val const& a, Val const& b) {
  switch (op) {
    case Instruction::Add: return iop(IOp::Add, a, b); case Instruction::Sub: return iop(IOp::Sub, a, b); case Instruction::Mul: return iop(IOp::Mul, a, b);
    case Instruction::UDiv: return iop(IOp::UDiv, a, b); case Instruction::SDiv: return iop(IOp::SDiv, a, b); case Instruction::URem: return iop(IOp::URem, a, b); case Instruction::SRem: return iop(IOp::SRem, a, b);
    case Instruction::Shl: return iop(IOp::Shl, a, b); case Instruction::LShr: return iop(IOp::LShr, a, b); case Instruction::AShr: return iop(IOp::AShr, a, b);
    case Instruction::And: return iop(IOp::And, a, b); case Instruction::Or: return iop(IOp::Or, a, b); case Instruction::Xor: return iop(IOp::Xor, a, b);
    case Instruction::FAdd: return fop(FOp::Add, a, b); case Instruction::FSub: return fop(FOp::Sub, a, b); case Instruction::FMul: return fop(FOp::Mul, a, b); case Instruction::FDiv: { Val q = fop(FOp::Div, a, b); return roundQuotients && (a.k == K::R || b.k == K::R) && (q.k == K::R || q.k == K::CF) ? nearReal(q.k == K::R ? q : Val::Real(realOf(q), q.w), "1/4503599627370496") : q; } case Instruction::FRem: return fop(FOp::Rem, a, b);
  }
  throw PathCut{"binop"};
}
static Val castOp(unsigned op, Val const& a, Type* from, Type* to) {
  switch (op) {
    case Instruction::Trunc: return trunc(a, tw(to)); case Instruction::ZExt: return zext(a, tw(to)); case Instruction::SExt: return sext(a, tw(to));
    case Instruction::PtrToInt: return tw(to) < 64 ? trunc(a, tw(to)) : a; case Instruction::IntToPtr: return a.w < 64 ? zext(a, 64) : a;
    case Instruction::FPTrunc: case Instruction::FPExt: return fpCast(a, tw(to));
    case Instruction::SIToFP: return intToFp(a, true, tw(to)); case Instruction::UIToFP: return intToFp(a, false, tw(to));
    case Instruction::FPToSI: return fpToInt(a, true, tw(to)); case Instruction::FPToUI: return fpToInt(a, false, tw(to));
    case Instruction::BitCast:
      if (from->isVectorTy() || to->isVectorTy()) {
        if (from == to) return a;
        throw PathCut{"vector bitcast"};
      }
      if (to->isFloatingPointTy()) return from->isFloatingPointTy() ? a : bitsToFp(a, tw(to));
      if (from->isFloatingPointTy()) return fpToBits(a);
      return a;
    case Instruction::AddrSpaceCast: return a;
  }
  throw PathCut{"cast"};
}
static Val symLoad(State& S, LoadInst* li, Val const& addr) {
  // all feasible addresses inside one small object, byte-sized concrete cells: table look-up
  Type* t = li->getType();
  ensureModel(S);
  if (!S.model) throw NeedConc{li->getPointerOperand()};
  Z3_ast out; E ea = bvOf(addr); if (!Z3_model_eval(Z, S.model->m, ea, true, &out)) throw PathCut{"eval"};
  uint64_t a0; E oe(out); if (!Z3_get_numeral_uint64(Z, oe, &a0)) throw PathCut{"eval"};
  auto p = findObj(S, a0);
  if (p && (t->isIntegerTy() || t->isPointerTy())) {
    Obj& o = **p; unsigned n = nb(tw(t));
    if (o.size <= 2048 && o.sym.empty() && o.size >= n) {
      E in = eAnd({E(Z3_mk_bvuge(Z, ea, bvNum(o.base, 64))), E(Z3_mk_bvule(Z, ea, bvNum(o.base + o.size - n, 64)))});
      if (query(S, {eNot(in)}, nullptr, branchTimeoutMs) == UNSAT) {
        unsigned al = n; // element-aligned table?
        if (n > 1) { E mis = eNot(eEq(E(Z3_mk_bvurem(Z, E(Z3_mk_bvsub(Z, ea, bvNum(o.base, 64))), bvNum(al, 64))), bvNum(0, 64))); if (query(S, {mis}, nullptr, branchTimeoutMs) != UNSAT) throw NeedConc{li->getPointerOperand()}; }
        E off = simp(E(Z3_mk_bvsub(Z, ea, bvNum(o.base, 64))));
        unsigned cnt = o.size / al; auto cell = [&](unsigned i) { uint64_t c = 0; memcpy(&c, &o.b[i * al], n); return c; };
        // runs
        E r; unsigned i = cnt;
        while (i > 0) {
          unsigned j = i - 1; uint64_t v = cell(j); while (j > 0 && cell(j - 1) == v) j--;
          E ve = bvNum(v, tw(t) == 1 ? 8 : tw(t));
          if (!r) r = ve; else r = eIte(E(Z3_mk_bvult(Z, off, bvNum((uint64_t)i * al, 64))), ve, r);
          i = j;
        }
        return fromBV(r, tw(t));
      }
    }
  }
  throw NeedConc{li->getPointerOperand()};
}
static Val symLoadInt(State& S, LoadInst* li, Val const& addr) {  // table indexed by a bounded mathematical integer
  Type* t = li->getType(); if (!t->isIntegerTy() || tw(t) == 1 || tw(t) > 64) throw NeedConc{li->getPointerOperand()};
  unsigned w = tw(t), n = nb(w); if (addr.hi - addr.lo > 4096 || addr.lo < 0) throw NeedConc{li->getPointerOperand()};
  i128 c, k; E term; if (!linTerm(addr.e, c, k, term)) throw NeedConc{li->getPointerOperand()};
  auto fdiv = [](i128 a, i128 b) { return a >= 0 ? a / b : -((-a + b - 1) / b); };
  i128 jl = -fdiv(-(addr.lo - c), k), jh = fdiv(addr.hi - c, k); if (jh < jl || jh - jl > 1024) throw NeedConc{li->getPointerOperand()};
  std::vector<i128> cell;
  for (i128 j = jl; j <= jh; j++) {
    uint64_t a = (uint64_t)(c + k * j); auto p = findObj(S, a);
    if (!p || a + n > (*p)->base + (*p)->size || !(*p)->sym.empty()) throw NeedConc{li->getPointerOperand()};
    uint64_t v = 0; memcpy(&v, &(*p)->b[a - (*p)->base], n); cell.push_back(n == 8 ? (i128)(int64_t)v : (i128)v);
  }
  bool cst = true, lin = true, d10 = jl >= 0, m10 = jl >= 0; i128 lo = cell[0], hi = cell[0]; size_t N = cell.size();
  for (size_t i = 0; i < N; i++) {
    i128 j = jl + (i128)i; lo = std::min(lo, cell[i]); hi = std::max(hi, cell[i]);
    if (cell[i] != cell[0]) cst = false; if (cell[i] - cell[0] != (i128)i) lin = false;
    if (cell[i] - cell[0] != j / 10 - jl / 10) d10 = false; if (cell[i] - cell[0] != j % 10 - jl % 10) m10 = false;
  }
  if (cst) return Val::Int((uint64_t)cell[0], w);
  auto add = [&](E const& x, i128 y) { return E(Z3_mk_add(Z, 2, (Z3_ast[]){x, numI(y)})); };
  if (lin) return mkIntVal(add(term, cell[0] - jl), w, lo, hi);
  if (d10 || m10) { E q, r; edivPub(term, 10, jl, jh, q, r); return mkIntVal(d10 ? add(q, cell[0] - jl / 10) : add(r, cell[0] - jl % 10), w, lo, hi); }
  E e; size_t i = N; while (i > 0) { size_t j = i - 1; while (j > 0 && cell[j - 1] == cell[j]) j--; E ve = numI(cell[j]); e = e ? eIte(E(Z3_mk_lt(Z, term, numI(jl + (i128)i))), ve, e) : ve; i = j; }
  return mkIntVal(e, w, lo, hi);
}
static void step(State& S) {
  Frame& f = S.st.back(); Instruction* I = &*f.it;
  S.steps++; totalSteps++;
  unsigned op = I->getOpcode();
  if (auto* b = dyn_cast<BinaryOperator>(I)) {
    Val a = get(S, b->getOperand(0)), c = get(S, b->getOperand(1)), r;
    if (b->getType()->isVectorTy()) r = vecMap(b->getType(), [&](unsigned i) { return bin(op, lane(a, i), lane(c, i)); });
    else {
      if ((op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem)) {
        if (c.k == K::C && c.c == 0) pathViolation(S, "division-by-zero", "arith");
        if (c.k == K::S || c.k == K::I) {
          Val z = icmp(IPred::EQ, c, Val::Int(0, c.w));
          if (z.k != K::C) { bool zero = false; branch(S, boolOf(z), [&](State& X, bool t) { if (&X == &S) zero = t; else { /* other side re-executes */ } }); if (zero) { pathViolation(S, "division-by-zero", "arith"); } }
        }
      }
      unsigned bop = op; if (op == Instruction::Or && (a.k == K::I || c.k == K::I)) if (auto* pd = dyn_cast<PossiblyDisjointInst>(I)) if (pd->isDisjoint()) bop = Instruction::Add;
      r = bin(bop, a, c);
    }
    applyDomain(S); set(S, I, r); ++S.st.back().it; return;
  }
  switch (op) {
    case Instruction::ICmp: {
      auto* c = cast<ICmpInst>(I); Val a = get(S, c->getOperand(0)), b = get(S, c->getOperand(1));
      if (I->getType()->isVectorTy()) set(S, I, vecMap(I->getType(), [&](unsigned i) { return icmp(ipred(c->getPredicate()), lane(a, i), lane(b, i)); }));
      else set(S, I, icmp(ipred(c->getPredicate()), a, b)); ++f.it; return; }
    case Instruction::FCmp: { auto* c = cast<FCmpInst>(I); Val a = get(S, c->getOperand(0)), b = get(S, c->getOperand(1));
      if (I->getType()->isVectorTy()) set(S, I, vecMap(I->getType(), [&](unsigned i) { return fcmp(c->getPredicate(), lane(a, i), lane(b, i)); }));
      else set(S, I, fcmp(c->getPredicate(), a, b)); ++f.it; return; }
    case Instruction::FNeg: { Val a = get(S, I->getOperand(0)); set(S, I, I->getType()->isVectorTy() ? vecMap(I->getType(), [&](unsigned i) { return fneg(lane(a, i)); }) : fneg(a)); ++f.it; return; }
    case Instruction::Freeze: { Val a = get(S, I->getOperand(0)); if (a.k == K::Undef && a.w) a = Val::Int(0, a.w); set(S, I, a); ++f.it; return; }
    case Instruction::Select: {
      Val c = get(S, I->getOperand(0)), a = get(S, I->getOperand(1)), b = get(S, I->getOperand(2));
      if (I->getType()->isVectorTy()) { set(S, I, vecMap(I->getType(), [&](unsigned i) { bool ok; Val r = select(lane(c, i), lane(a, i), lane(b, i), ok); if (!ok) throw PathCut{"vector select"}; return r; })); ++f.it; return; }
      bool ok; Val r = select(c, a, b, ok);
      // symbolic pointers are worth forking on
      if (ok && c.k == K::S && I->getType()->isPointerTy()) ok = false;
      if (!ok) { branch(S, boolOf(c), [&](State& X, bool t) { set(X, I, t ? a : b); ++X.st.back().it; }); return; }
      set(S, I, r); ++f.it; return; }
    case Instruction::Alloca: {
      auto* al = cast<AllocaInst>(I); uint64_t n = DL->getTypeAllocSize(al->getAllocatedType()) * cint(S, al->getArraySize());
      uint64_t p = allocObj(S, n, "stack", false); S.st.back().allocas.push_back(p); set(S, I, Val::Int(p, 64)); ++S.st.back().it; return; }
    case Instruction::Load: {
      auto* li = cast<LoadInst>(I); Val const& a = get(S, li->getPointerOperand());
      if (a.k == K::C) { Val v = loadT(S, a.c, li->getType()); set(S, I, v); ++S.st.back().it; return; }
      if (a.k == K::S) { Val v = symLoad(S, li, a); set(S, I, v); ++S.st.back().it; return; }
      if (a.k == K::I) { Val v = symLoadInt(S, li, a); set(S, I, v); applyDomain(S); ++S.st.back().it; return; }
      throw NeedConc{li->getPointerOperand()}; }
    case Instruction::Store: { auto* si = cast<StoreInst>(I); uint64_t a = cint(S, si->getPointerOperand()); storeT(S, a, get(S, si->getValueOperand()), si->getValueOperand()->getType()); ++S.st.back().it; return; }
    case Instruction::GetElementPtr: {
      auto* g = cast<GetElementPtrInst>(I); Val base = get(S, g->getPointerOperand()); if (base.k == K::Undef) base = Val::Int(0, 64);
      uint64_t off = 0; Val sym; bool has = false;
      for (auto gi = gep_type_begin(g); gi != gep_type_end(g); ++gi) {
        Value* ix = gi.getOperand();
        if (auto* st = gi.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
        uint64_t es = DL->getTypeAllocSize(gi.getIndexedType()); Val v = get(S, ix); if (v.k == K::Undef) v = Val::Int(0, 64);
        if (v.k == K::C) { int64_t s = (int64_t)sext(v, 64).c; off += (uint64_t)s * es; continue; }
        if (v.w < 64) v = sext(v, 64);
        Val t = es == 1 ? v : iop(IOp::Mul, v, Val::Int(es, 64)); sym = has ? iop(IOp::Add, sym, t) : t; has = true;
      }
      Val r = base.k == K::C ? Val::Int(base.c + off, 64) : iop(IOp::Add, base, Val::Int(off, 64));
      if (has) r = iop(IOp::Add, r, sym); applyDomain(S);
      set(S, I, r); ++f.it; return; }
    case Instruction::ExtractValue: { auto* ev = cast<ExtractValueInst>(I); Val v = get(S, ev->getAggregateOperand()); for (unsigned ix : ev->indices()) { if (!v.agg) { v = Val(); break; } Val t = (*v.agg)[ix]; v = t; } set(S, I, v); ++f.it; return; }
    case Instruction::InsertValue: { auto* iv = cast<InsertValueInst>(I); Val v = get(S, iv->getAggregateOperand()), x = get(S, iv->getInsertedValueOperand());
      std::function<Val(Val, unsigned)> go = [&](Val cur, unsigned d) -> Val { if (d == iv->getNumIndices()) return x; Val o; o.k = K::Agg; o.agg = std::make_shared<std::vector<Val>>(cur.agg ? *cur.agg : std::vector<Val>(8)); unsigned ix = iv->getIndices()[d]; if (ix >= o.agg->size()) o.agg->resize(ix + 1); (*o.agg)[ix] = go((*o.agg)[ix], d + 1); return o; };
      set(S, I, go(v, 0)); ++f.it; return; }
    case Instruction::ExtractElement: { Val v = get(S, I->getOperand(0)); uint64_t ix = cint(S, I->getOperand(1)); set(S, I, lane(v, ix)); ++f.it; return; }
    case Instruction::InsertElement: { Val v = get(S, I->getOperand(0)), x = get(S, I->getOperand(1)); uint64_t ix = cint(S, I->getOperand(2)); unsigned n = cast<FixedVectorType>(I->getType())->getNumElements(); Val o; o.k = K::Agg; o.agg = std::make_shared<std::vector<Val>>(v.agg ? *v.agg : std::vector<Val>(n)); (*o.agg)[ix] = x; set(S, I, o); ++f.it; return; }
    case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(I); Val a = get(S, I->getOperand(0)), b = get(S, I->getOperand(1)); unsigned n = cast<FixedVectorType>(I->getOperand(0)->getType())->getNumElements(); set(S, I, vecMap(I->getType(), [&](unsigned i) { int m = sv->getMaskValue(i); if (m < 0) return Val(); return (unsigned)m < n ? lane(a, m) : lane(b, m - n); })); ++f.it; return; }
    case Instruction::Br: {
      auto* br = cast<BranchInst>(I); if (br->isUnconditional()) { enterBlock(S, br->getSuccessor(0)); return; }
      Val c = get(S, br->getCondition());
      if (c.k == K::C || c.k == K::Undef) { enterBlock(S, br->getSuccessor(c.c ? 0 : 1)); return; }
      branch(S, boolOf(c), [&](State& X, bool t) { enterBlock(X, br->getSuccessor(t ? 0 : 1)); }); return; }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(I); Val c = get(S, sw->getCondition());
      if (c.k == K::Undef) c = Val::Int(0, c.w);
      if (c.k == K::C) { for (auto& k : sw->cases()) if (k.getCaseValue()->getZExtValue() == c.c) { enterBlock(S, k.getCaseSuccessor()); return; } enterBlock(S, sw->getDefaultDest()); return; }
      // group cases by successor
      std::map<BasicBlock*, std::vector<E>> by; std::vector<BasicBlock*> order; std::vector<E> none;
      for (auto& k : sw->cases()) { Val q = icmp(IPred::EQ, c, constVal(k.getCaseValue())); if (q.k == K::C && !q.c) continue; E e = boolOf(q); if (!by.count(k.getCaseSuccessor())) order.push_back(k.getCaseSuccessor()); by[k.getCaseSuccessor()].push_back(e); none.push_back(eNot(e)); }
      struct Alt { BasicBlock* b; E c; }; std::vector<Alt> alts;
      for (auto* b : order) { auto& v = by[b]; std::vector<Z3_ast> a; for (auto& e : v) a.push_back(e); alts.push_back({b, v.size() == 1 ? v[0] : E(Z3_mk_or(Z, a.size(), a.data()))}); }
      alts.push_back({sw->getDefaultDest(), eAnd(none)});
      bool wasReal = S.real; std::vector<std::pair<Alt, std::shared_ptr<ModelRef>>> feas;
      for (auto& al : alts) { if (!S.real && exprReal(al.c)) S.real = true; std::shared_ptr<ModelRef> m; int mv = evalBool(S, al.c); if (mv == 1) { feas.push_back({al, S.model}); continue; } R r = query(S, {al.c}, &m, branchTimeoutMs); if (r != UNSAT) { if (r == UNK) unkBranches++; feas.push_back({al, m}); } }
      S.real = wasReal; if (feas.empty()) throw PathEnd();
      for (size_t i = 1; i < feas.size(); i++) { auto n = std::make_unique<State>(S); n->model = feas[i].second; n->pc.push_back(simp(feas[i].first.c)); if (exprReal(feas[i].first.c)) n->real = true; n->forks++; forksTotal++; enterBlock(*n, feas[i].first.b); work.push_back(std::move(n)); }
      S.model = feas[0].second; S.pc.push_back(simp(feas[0].first.c)); if (exprReal(feas[0].first.c)) S.real = true; enterBlock(S, feas[0].first.b); return; }
    case Instruction::Ret: {
      Val v; if (I->getNumOperands()) v = get(S, I->getOperand(0)); CallBase* site = f.site; popFrame(S);
      if (S.st.empty()) { pathsDone++; throw PathEnd(); }
      if (!site) { return; }  // constructor runner
      if (!site->getType()->isVoidTy()) set(S, site, v); afterCall(S, site); return; }
    case Instruction::Unreachable: pathViolation(S, "reached-unreachable", "ub"); return;
    case Instruction::Call: case Instruction::Invoke: doCall(S, cast<CallBase>(I)); applyDomain(S); return;
    case Instruction::LandingPad: ++f.it; return;
    case Instruction::Resume: { Val v = get(S, I->getOperand(0)); uint64_t p = (*v.agg)[0].c; Exn ex = S.live[p]; popFrame(S);
      unwind(S, ex); return; }
    case Instruction::Fence: ++f.it; return;
    case Instruction::AtomicRMW: { auto* rm = cast<AtomicRMWInst>(I); uint64_t a = cint(S, rm->getPointerOperand()); Val old = loadT(S, a, rm->getType()), x = get(S, rm->getValOperand()), nv;
      switch (rm->getOperation()) { case AtomicRMWInst::Add: nv = iop(IOp::Add, old, x); break; case AtomicRMWInst::Sub: nv = iop(IOp::Sub, old, x); break; case AtomicRMWInst::Xchg: nv = x; break; case AtomicRMWInst::And: nv = iop(IOp::And, old, x); break; case AtomicRMWInst::Or: nv = iop(IOp::Or, old, x); break; default: throw PathCut{"atomicrmw"}; }
      storeT(S, a, nv, rm->getType()); set(S, I, old); ++S.st.back().it; return; }
    case Instruction::AtomicCmpXchg: { auto* cx = cast<AtomicCmpXchgInst>(I); uint64_t a = cint(S, cx->getPointerOperand()); Type* t = cx->getCompareOperand()->getType(); Val old = loadT(S, a, t); Val eq = icmp(IPred::EQ, old, get(S, cx->getCompareOperand())); if (eq.k != K::C) throw PathCut{"cmpxchg"}; if (eq.c) storeT(S, a, get(S, cx->getNewValOperand()), t); Val r; r.k = K::Agg; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(old); r.agg->push_back(eq); set(S, I, r); ++S.st.back().it; return; }
    default: break;
  }
  if (auto* c = dyn_cast<CastInst>(I)) {
    Val a = get(S, c->getOperand(0)); Type *ft = c->getSrcTy(), *tt = c->getDestTy();
    if (tt->isVectorTy() && ft->isVectorTy() && op != Instruction::BitCast) set(S, I, vecMap(tt, [&](unsigned i) { return castOp(op, lane(a, i), ft->getScalarType(), tt->getScalarType()); }));
    else if (op == Instruction::BitCast && (tt->isVectorTy() || ft->isVectorTy()) && tt != ft) { // through memory
      uint64_t n = std::max<uint64_t>(DL->getTypeAllocSize(ft), DL->getTypeAllocSize(tt)); uint64_t p = allocObj(S, n, "bitcast", false); storeT(S, p, a, ft); Val r = loadT(S, p, tt); S.mem.erase(p); set(S, I, r); }
    else set(S, I, castOp(op, a, ft, tt));
    applyDomain(S); ++S.st.back().it; return;
  }
  throw PathCut{std::string("instruction ") + I->getOpcodeName()};
}

bool roundQuotients = false;
static void runState(SP sp) {
  curAlias = sp->alias.get();
  State& S = *sp;
  try {
    for (;;) {
      if (S.steps > maxSteps) { if (stepViolation) pathViolation(S, "termination", "steps"); cuts["step bound " + std::to_string(maxSteps)]++; pathsCut++; return; }
      if ((S.steps & 1023) == 0 && now() - tStart > tLimit) { timedOut = true; return; }
      unsigned ib = int2bvCount; std::string tr; if (trace) { raw_string_ostream os(tr); S.st.back().it->print(os); os.flush(); tr += " @ " + demangle(S.st.back().fi->F->getName().str()).substr(0, 150); }
      roundQuotients = S.rounding;
      try { step(S); if (trace && int2bvCount != ib) std::cerr << "[int2bv] " << tr << "\n"; }
      catch (NeedConc& n) { forkOn(S, n.v); return; }
      if (S.st.empty()) { pathsDone++; return; }
    }
  } catch (PathEnd&) {}
  catch (PathCut& c) {
    pendingDomain.clear(); pendingDefs.clear(); pathsCut++; std::string where = S.st.empty() ? "" : demangle(S.st.back().fi->F->getName().str()).substr(0, 120);
    cuts[c.why + " in " + where]++;
    // the path left the encoding: its inputs are a candidate for the native replay, which alone decides
    try { ensureModel(S); if (S.model) violation(S, "left-the-encoding", S.model, "cut", c.why); } catch (PathEnd&) {} catch (PathCut&) {}
  }
}

int main(int argc, char** argv) {
  std::string bc, entry, out; std::vector<std::string> a(argv + 1, argv + argc);
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i] == "--entry") entry = a[++i]; else if (a[i] == "--out") out = a[++i]; else if (a[i] == "--time") tLimit = atof(a[++i].c_str());
    else if (a[i] == "--steps") maxSteps = strtoull(a[++i].c_str(), nullptr, 10); else if (a[i] == "--steps-violation") stepViolation = true;
    else if (a[i] == "--assert-ms") assertTimeoutMs = atoi(a[++i].c_str()); else if (a[i] == "--branch-ms") branchTimeoutMs = atoi(a[++i].c_str()); else if (a[i] == "--dump") dumpDir = a[++i]; else if (a[i] == "--trace") trace = true;
    else bc = a[i];
  }
  tInit(); tStart = now(); inc = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, inc);
  SMDiagnostic err; M = parseIRFile(bc, err, LC); if (!M) { err.print("sx", errs()); return 2; }
  DL = &M->getDataLayout(); initGlobals();
  Function* F = M->getFunction(entry); if (!F) { std::cerr << "no entry " << entry << "\n"; return 2; }
  // static constructors, concretely
  SP S0 = std::make_unique<State>();
  S0->model = nullptr;
  { // initial (empty) model
    std::shared_ptr<ModelRef> m; query(*S0, {}, &m, 1000); S0->model = m; queries = 0; solverTime = 0; }
  if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<uint64_t, Function*>> v;
    for (auto& o : arr->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); }
    std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first < y.first; });
    for (auto& [pr, fn] : v) { pushFrame(*S0, fn, {}, nullptr); try { while (!S0->st.empty()) step(*S0); } catch (PathEnd&) { pathsDone = 0; S0->st.clear(); } catch (PathCut& c) { cuts["static ctor: " + c.why]++; S0->st.clear(); } catch (NeedConc&) { S0->st.clear(); } }
  }
  executed.clear(); pathsDone = 0; cuts.clear();
  S0->steps = 0; pushFrame(*S0, F, {}, nullptr); work.push_back(std::move(S0));
  while (!work.empty() && !timedOut) { SP s = std::move(work.back()); work.pop_back(); runState(std::move(s)); if (now() - tStart > tLimit) timedOut = true; }
  std::ostringstream o; double wall = now() - tStart;
  o << "{\"entry\": " << jstr(entry) << ", \"paths\": " << pathsDone << ", \"paths_cut\": " << pathsCut << ", \"paths_pending\": " << work.size() << ", \"forks\": " << forksTotal << ", \"steps\": " << totalSteps << ", \"queries\": " << queries << ", \"real_queries\": " << realQ << ", \"solver_s\": " << solverTime << ", \"wall_s\": " << wall << ", \"timeout\": " << (timedOut ? "true" : "false") << ", \"unknown_branches\": " << unkBranches << ", \"domain_conditions\": " << domainConds << ", \"assumed_away\": " << pathsAssumedAway << ",\n \"obligations\": {";
  bool first = true; for (auto& [k, b] : obs) { o << (first ? "" : ", ") << jstr(k) << ": {\"checked\": " << b.checked << ", \"proved\": " << b.proved << ", \"sat\": " << b.sat << ", \"unknown\": " << b.unk << ", \"folded\": " << b.trivially << ", \"time_s\": " << b.time << "}"; first = false; }
  o << "},\n \"reach\": {"; first = true; for (auto& [k, b] : reach) { o << (first ? "" : ", ") << jstr(k) << ": " << b; first = false; }
  o << "},\n \"cuts\": {"; first = true; for (auto& [k, b] : cuts) { o << (first ? "" : ", ") << jstr(k) << ": " << b; first = false; }
  o << "},\n \"functions\": ["; first = true; for (auto* f : executed) { std::string n = demangle(f->getName().str()); if (n.find("astronomy") == std::string::npos && n.find("decimal_hour") == std::string::npos) continue; if (n.size() > 300) n = n.substr(0, 300); o << (first ? "" : ", ") << jstr(n); first = false; }
  o << "],\n \"ranges\": {"; first = true; for (auto& [k, v] : realRange) { char b[96]; snprintf(b, sizeof b, "[%.17g, %.17g]", v.first, v.second); o << (first ? "" : ", ") << jstr(k) << ": " << b; first = false; }
  o << "},\n \"samples\": ["; first = true; for (auto& s : samples) { o << (first ? "" : ", ") << s; first = false; }
  o << "],\n \"cex\": ["; first = true; for (auto& c : cexs) { o << (first ? "" : ",\n  ") << c; first = false; }
  o << "]}\n";
  if (out.empty()) std::cout << o.str(); else { std::ofstream f(out); f << o.str(); }
  std::cout.flush(); _exit(0);
}
