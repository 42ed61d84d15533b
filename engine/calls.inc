// calls: external functions, intrinsics, the vf_* harness interface
static std::string uniqName(State& S, std::string n) { unsigned k = S.names[n]++; return k ? n + "#" + std::to_string(k) : n; }
static void ret(State& S, CallBase* cb, Val v) { if (!cb->getType()->isVoidTy()) set(S, cb, std::move(v)); afterCall(S, cb); }
static long double cfp(State& S, Value* v) { Val const& x = get(S, v); if (x.k != K::CF) throw PathCut{"concrete fp expected"}; return x.ld; }

static bool vfCall(State& S, CallBase* cb, StringRef n) {
  auto arg = [&](unsigned i) -> Val const& { return get(S, cb->getArgOperand(i)); };
  auto cstr = [&](unsigned i) { return readCStr(S, cint(S, cb->getArgOperand(i))); };
  if (n == "vf_u8" || n == "vf_u16" || n == "vf_u32" || n == "vf_u64") {
    unsigned w = n == "vf_u8" ? 8 : n == "vf_u16" ? 16 : n == "vf_u32" ? 32 : 64; std::string nm = uniqName(S, cstr(0));
    Val v = Val::Sym(mkConst(nm, Z3_mk_bv_sort(Z, w)), w); S.in.push_back({nm, v}); ret(S, cb, v); return true; }
  if (n == "vf_f64" || n == "vf_f32") { unsigned w = n == "vf_f64" ? 64 : 32; std::string nm = uniqName(S, cstr(0)); Val v = Val::Sym(mkConst(nm, Z3_mk_bv_sort(Z, w)), w); S.in.push_back({nm, v}); ret(S, cb, v); return true; }
  if (n == "vf_bool") { std::string nm = uniqName(S, cstr(0)); Val v = Val::Sym(mkConst(nm, Z3_mk_bool_sort(Z)), 1); S.in.push_back({nm, v}); ret(S, cb, v); return true; }
  if (n == "vf_int") {
    std::string nm = uniqName(S, cstr(0)); int64_t lo = cint(S, cb->getArgOperand(1)), hi = cint(S, cb->getArgOperand(2));
    Val v = Val::MInt(mkConst(nm, Z3_mk_int_sort(Z)), 64, lo, hi); regFirm(v.e, lo, hi); S.in.push_back({nm, v});
    addPC(S, eAnd({E(Z3_mk_ge(Z, v.e, numI(lo))), E(Z3_mk_le(Z, v.e, numI(hi)))})); ret(S, cb, v); return true; }
  if (n == "vf_real") {
    std::string nm = uniqName(S, cstr(0)); long double lo = cfp(S, cb->getArgOperand(1)), hi = cfp(S, cb->getArgOperand(2));
    E v = mkConst(nm, Z3_mk_real_sort(Z)); (void)realOf(Val::Real(v, 64)); Val x = Val::Real(v, 64); S.in.push_back({nm, x}); realRange[nm] = {(double)lo, (double)hi};
    addPC(S, eAnd({E(Z3_mk_ge(Z, v, numR(snapRational(lo, 64)))), E(Z3_mk_le(Z, v, numR(snapRational(hi, 64))))})); S.real = true; ret(S, cb, x); return true; }
  if (n == "vf_pick") {  // forks over every value lo..hi
    std::string nm = uniqName(S, cstr(0)); int64_t lo = cint(S, cb->getArgOperand(1)), hi = cint(S, cb->getArgOperand(2));
    for (int64_t v = hi; v > lo; v--) { auto c = std::make_unique<State>(S); c->in.push_back({nm, Val::Int((uint64_t)v, 64)}); forksTotal++; ret(*c, cb, Val::Int((uint64_t)v, 64)); work.push_back(std::move(c)); }
    S.in.push_back({nm, Val::Int((uint64_t)lo, 64)}); ret(S, cb, Val::Int((uint64_t)lo, 64)); return true; }
  if (n == "vf_concretize") { (void)cint(S, cb->getArgOperand(0)); ret(S, cb, arg(0)); return true; }
  if (n == "vf_bytes") {
    uint64_t p = cint(S, cb->getArgOperand(0)), k = cint(S, cb->getArgOperand(1)); std::string nm = uniqName(S, cstr(2));
    for (uint64_t i = 0; i < k; i++) { std::string bn = nm + "[" + std::to_string(i) + "]"; Val v = Val::Sym(mkConst(bn, Z3_mk_bv_sort(Z, 8)), 8); S.in.push_back({bn, v}); storeScalar(S, p + i, v); }
    ret(S, cb, Val()); return true; }
  if (n == "vf_assume") {
    Val c = arg(0); if (c.k == K::C) { if (!c.c) { pathsAssumedAway++; throw PathEnd(); } ret(S, cb, Val()); return true; }
    E e = boolOf(c); bool re = exprReal(e);
    addPC(S, e); if (re) S.real = true;
    if (!S.model || S.real) { std::shared_ptr<ModelRef> m; R r = query(S, {}, &m, branchTimeoutMs); if (r == UNSAT) { pathsAssumedAway++; throw PathEnd(); } S.model = m; }
    ret(S, cb, Val()); return true; }
  if (n == "vf_assert") { std::string id = cstr(1); doAssert(S, arg(0), id); ret(S, cb, Val()); return true; }
  if (n == "vf_close") { std::string id = cstr(3); doClose(S, arg(0), arg(1), (double)cfp(S, cb->getArgOperand(2)), id); ret(S, cb, Val()); return true; }
  if (n == "vf_reach") {
    std::string id = cstr(0); auto& r = reach[id];
    // witness: the path condition is satisfiable here (twin of assert(false))
    if (r < 3) { std::shared_ptr<ModelRef> m; R q = query(S, {}, &m, assertTimeoutMs); if (q == UNSAT) throw PathEnd(); if (q == SAT) { r++; if (samples.size() < 6) samples.push_back("{\"reach\": " + jstr(id) + ", \"inputs\": " + inputsJson(S, m) + "}"); } }
    else r++;
    ret(S, cb, Val()); return true; }
  if (n == "vf_rounding") { S.rounding = cint(S, cb->getArgOperand(0)) != 0; ret(S, cb, Val()); return true; }
  if (n == "vf_symbolic") { ret(S, cb, Val::Int(1, 32)); return true; }
  if (n == "vf_is_concrete") { Val v = arg(0); ret(S, cb, Val::Int(v.conc(), 1)); return true; }
  if (n == "vf_unsupported") throw PathCut{"unsupported " + cstr(0)};
  if (n == "vf_throw_std") { throwStd(S, "_ZTISt" + cstr(0)); return true; }
  if (n == "vf_log") { if (trace) { std::cerr << "[vf] " << cstr(0) << " forks=" << S.forks << " steps=" << S.steps << "\n"; } ret(S, cb, Val()); return true; }
  if (n == "vf_logval") { if (trace) { Val v = arg(1); std::cerr << "[vf] " << cstr(0) << " = " << (v.k == K::C ? std::to_string((int64_t)v.c) : v.k == K::CF ? std::to_string((double)v.ld) : v.e ? str(v.e).substr(0, 2000) + (v.k == K::I ? " in [" + std::to_string((double)v.lo) + "," + std::to_string((double)v.hi) + "]" : "") : "?") << "\n"; } ret(S, cb, Val()); return true; }
  return false;
}
static Val minmax(Val const& a, Val const& b, IPred p) { Val c = icmp(p, a, b); bool ok; return select(c, a, b, ok); }

static bool intrinsic(State& S, CallBase* cb, Function* F) {
  auto arg = [&](unsigned i) -> Val const& { return get(S, cb->getArgOperand(i)); };
  auto id = F->getIntrinsicID(); Type* T = cb->getType();
  auto pair = [&](Val a, Val o) { Val v; v.k = K::Agg; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(a); v.agg->push_back(o); return v; };
  switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::invariant_end:
      ret(S, cb, Val()); return true;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: ret(S, cb, Val::Int(0, 64)); return true;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: case Intrinsic::ptrmask: ret(S, cb, arg(0)); return true;
    case Intrinsic::is_constant: ret(S, cb, Val::Int(0, 1)); return true;
    case Intrinsic::objectsize: ret(S, cb, Val::Int(~0ull, 64)); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: pathViolation(S, "trap", "trap"); return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = cint(S, cb->getArgOperand(2)); uint64_t d = n ? cint(S, cb->getArgOperand(0)) : 0, s = n ? cint(S, cb->getArgOperand(1)) : 0; copyMem(S, d, s, n); ret(S, cb, Val()); return true; }
    case Intrinsic::memset: { uint64_t n = cint(S, cb->getArgOperand(2)); if (n) { uint64_t d = cint(S, cb->getArgOperand(0)); Val v = arg(1); if (v.k == K::C) { Obj& o = rwObj(S, d, n, "memset"); eraseSym(o, d - o.base, n); memset(&o.b[d - o.base], (int)v.c, n); } else for (uint64_t i = 0; i < n; i++) storeScalar(S, d + i, v); } ret(S, cb, Val()); return true; }
    case Intrinsic::umin: ret(S, cb, minmax(arg(0), arg(1), IPred::ULT)); return true;
    case Intrinsic::umax: ret(S, cb, minmax(arg(0), arg(1), IPred::UGT)); return true;
    case Intrinsic::smin: ret(S, cb, minmax(arg(0), arg(1), IPred::SLT)); return true;
    case Intrinsic::smax: ret(S, cb, minmax(arg(0), arg(1), IPred::SGT)); return true;
    case Intrinsic::abs: { Val a = arg(0); Val ng = iop(IOp::Sub, Val::Int(0, a.w), a); bool ok; ret(S, cb, select(icmp(IPred::SLT, a, Val::Int(0, a.w)), ng, a, ok)); return true; }
    case Intrinsic::usub_sat: { Val a = arg(0), b = arg(1); bool ok; ret(S, cb, select(icmp(IPred::UGE, a, b), iop(IOp::Sub, a, b), Val::Int(0, a.w), ok)); return true; }
    case Intrinsic::uadd_sat: { Val a = arg(0), b = arg(1); Val s = iop(IOp::Add, a, b); bool ok; ret(S, cb, select(icmp(IPred::ULT, s, a), Val::Int(~0ull, a.w), s, ok)); return true; }
    case Intrinsic::uadd_with_overflow: { Val a = arg(0), b = arg(1), s = iop(IOp::Add, a, b); ret(S, cb, pair(s, icmp(IPred::ULT, s, a))); return true; }
    case Intrinsic::usub_with_overflow: { Val a = arg(0), b = arg(1); ret(S, cb, pair(iop(IOp::Sub, a, b), icmp(IPred::ULT, a, b))); return true; }
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
      Val a = arg(0), b = arg(1); bool sg = id != Intrinsic::umul_with_overflow; IOp op = id == Intrinsic::sadd_with_overflow ? IOp::Add : id == Intrinsic::ssub_with_overflow ? IOp::Sub : IOp::Mul;
      if (a.k == K::C && b.k == K::C) {
        auto sx = [&](Val const& v) -> i128 { return sg ? (i128)(int64_t)sext(v, 64).c : (i128)v.c; };
        i128 r = op == IOp::Add ? sx(a) + sx(b) : op == IOp::Sub ? sx(a) - sx(b) : sx(a) * sx(b);
        i128 lo = sg ? -((i128)1 << (a.w - 1)) : 0, hi = sg ? ((i128)1 << (a.w - 1)) - 1 : ((i128)1 << a.w) - 1;
        ret(S, cb, pair(Val::Int((uint64_t)r, a.w), Val::Int(r < lo || r > hi, 1))); return true; }
      if ((a.k == K::I || a.k == K::C) && (b.k == K::I || b.k == K::C)) {
        Val p; E ov; if (ovMath(op, sg, a, b, p, ov)) { ret(S, cb, pair(p, fromBool(ov))); return true; } }
      unsigned w2 = op == IOp::Mul ? 2 * a.w : a.w + 1; E x = bvOf(a), y = bvOf(b);
      auto ext = [&](E const& e) { return E(sg ? Z3_mk_sign_ext(Z, w2 - a.w, e) : Z3_mk_zero_ext(Z, w2 - a.w, e)); };
      E X = ext(x), Y = ext(y); E r = E(op == IOp::Add ? Z3_mk_bvadd(Z, X, Y) : op == IOp::Sub ? Z3_mk_bvsub(Z, X, Y) : Z3_mk_bvmul(Z, X, Y));
      E lowp = E(Z3_mk_extract(Z, a.w - 1, 0, r)); ret(S, cb, pair(fromBV(lowp, a.w), fromBool(eNot(eEq(ext(lowp), r))))); return true; }
    case Intrinsic::bswap: {
      Val a = arg(0); if (a.k == K::C) { uint64_t c = __builtin_bswap64(a.c) >> (64 - a.w); ret(S, cb, Val::Int(c, a.w)); return true; }
      E x = bvOf(a), r; for (unsigned i = 0; i < a.w / 8; i++) { E b = E(Z3_mk_extract(Z, i * 8 + 7, i * 8, x)); r = i ? E(Z3_mk_concat(Z, r, b)) : b; } ret(S, cb, fromBV(r, a.w)); return true; }
    case Intrinsic::ctpop: { Val a = arg(0); if (a.k != K::C) { Val r = Val::Int(0, a.w); for (unsigned i = 0; i < a.w; i++) r = iop(IOp::Add, r, iop(IOp::And, iop(IOp::LShr, a, Val::Int(i, a.w)), Val::Int(1, a.w))); ret(S, cb, r); return true; } ret(S, cb, Val::Int(__builtin_popcountll(a.c), a.w)); return true; }
    case Intrinsic::ctlz: { Val a = arg(0); if (a.k != K::C) { Val r = Val::Int(a.w, a.w); bool ok; for (unsigned i = 0; i < a.w; i++) r = select(icmp(IPred::NE, iop(IOp::And, a, Val::Int(1ull << i, a.w)), Val::Int(0, a.w)), Val::Int(a.w - 1 - i, a.w), r, ok); ret(S, cb, r); return true; } ret(S, cb, Val::Int(a.c ? __builtin_clzll(a.c) - (64 - a.w) : a.w, a.w)); return true; }
    case Intrinsic::cttz: { Val a = arg(0); if (a.k != K::C) { Val r = Val::Int(a.w, a.w); bool ok; for (int i = a.w - 1; i >= 0; i--) r = select(icmp(IPred::NE, iop(IOp::And, a, Val::Int(1ull << i, a.w)), Val::Int(0, a.w)), Val::Int(i, a.w), r, ok); ret(S, cb, r); return true; } ret(S, cb, Val::Int(a.c ? __builtin_ctzll(a.c) : a.w, a.w)); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      Val a = arg(0), b = arg(1), s = arg(2); if (s.k != K::C) throw PathCut{"fsh"}; unsigned k = s.c % a.w; bool l = id == Intrinsic::fshl;
      if (k == 0) { ret(S, cb, l ? a : b); return true; } unsigned lk = l ? k : a.w - k;
      ret(S, cb, iop(IOp::Or, iop(IOp::Shl, a, Val::Int(lk, a.w)), iop(IOp::LShr, b, Val::Int(a.w - lk, a.w)))); return true; }
    case Intrinsic::eh_typeid_for: { auto* c = cb->getArgOperand(0)->stripPointerCasts(); ret(S, cb, Val::Int(isa<ConstantPointerNull>(c) ? typeId("<any>") : typeId(c->getName().str()), 32)); return true; }
    case Intrinsic::fmuladd: case Intrinsic::fma: ret(S, cb, fop(FOp::Add, fop(FOp::Mul, arg(0), arg(1)), arg(2))); return true;
    case Intrinsic::sqrt: case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::pow: case Intrinsic::round: case Intrinsic::maxnum: case Intrinsic::minnum: case Intrinsic::copysign: case Intrinsic::exp: case Intrinsic::log: {
      std::string nm = F->getName().str().substr(5); nm = nm.substr(0, nm.find('.')); if (nm == "maxnum") nm = "fmax"; if (nm == "minnum") nm = "fmin";
      if (T->isVectorTy()) throw PathCut{"vector math"};
      std::vector<Val> as; for (unsigned i = 0; i < cb->arg_size(); i++) as.push_back(arg(i)); Val o; if (!mathFn(nm, as, o)) throw PathCut{"intrinsic " + nm}; ret(S, cb, o); return true; }
    case Intrinsic::powi: { Val a = arg(0); int64_t p = (int32_t)cint(S, cb->getArgOperand(1)); Val r = Val::Flt(1, a.w); for (int64_t i = 0; i < std::abs(p); i++) r = fop(FOp::Mul, r, a); if (p < 0) r = fop(FOp::Div, Val::Flt(1, a.w), r); ret(S, cb, r); return true; }
    case Intrinsic::is_fpclass: { Val a = arg(0); if (a.k == K::R) { ret(S, cb, Val::Int((cint(S, cb->getArgOperand(1)) & 0x3) ? 0 : 1, 1)); return true; } throw PathCut{"fpclass"}; }
    case Intrinsic::threadlocal_address: ret(S, cb, arg(0)); return true;
    default: break;
  }
  return false;
}
static void freePtr(State& S, uint64_t p) {
  if (!p) return; auto it = S.mem.find(p);
  if (it == S.mem.end() || !it->second->heap) pathViolation(S, "memory-safety", "memory", "free of invalid pointer " + hexs(p));
  S.mem.erase(it);
}
static bool external(State& S, CallBase* cb, StringRef n) {
  auto arg = [&](unsigned i) -> Val const& { return get(S, cb->getArgOperand(i)); };
  auto A = [&](unsigned i) { return cint(S, cb->getArgOperand(i)); };
  auto is = [&](std::initializer_list<const char*> l) { for (auto* x : l) if (n == x) return true; return false; };
  if (is({"_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamRKSt9nothrow_t"})) {
    uint64_t sz = A(0); if (sz > (64u << 20)) { if (n.starts_with("_Znw") || n.starts_with("_Zna")) { throwStd(S, "_ZTISt9bad_alloc"); return true; } ret(S, cb, Val::Int(0, 64)); return true; }
    ret(S, cb, Val::Int(allocObj(S, sz, "heap", true), 64)); return true; }
  if (n == "calloc") { uint64_t k = A(0) * A(1); uint64_t p = allocObj(S, k, "heap", true); memset(S.mem[p]->b.data(), 0, k); ret(S, cb, Val::Int(p, 64)); return true; }
  if (n == "realloc") { uint64_t p = A(0), k = A(1); uint64_t q = allocObj(S, k, "heap", true); if (p) { uint64_t os = S.mem.at(p)->size; copyMem(S, q, p, std::min(os, k)); freePtr(S, p); } ret(S, cb, Val::Int(q, 64)); return true; }
  if (is({"_ZdlPv", "_ZdaPv", "free", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"})) { freePtr(S, A(0)); ret(S, cb, Val()); return true; }
  if (is({"memcpy", "memmove"})) { uint64_t k = A(2); if (k) copyMem(S, A(0), A(1), k); ret(S, cb, arg(0)); return true; }
  if (n == "memset") { uint64_t k = A(2); if (k) { uint64_t d = A(0); Val v = trunc(arg(1), 8); for (uint64_t i = 0; i < k; i++) storeScalar(S, d + i, v); } ret(S, cb, arg(0)); return true; }
  if (is({"memcmp", "bcmp"})) {
    uint64_t k = A(2); if (!k) { ret(S, cb, Val::Int(0, 32)); return true; } uint64_t p = A(0), q = A(1);
    roObj(S, p, k, "memcmp"); roObj(S, q, k, "memcmp");
    // first difference decides: fold from the back
    E r = bvNum(0, 32); bool sym = false; std::vector<std::pair<Val, Val>> bs;
    for (uint64_t i = 0; i < k; i++) { Val x = loadScalar(S, p + i, 8, false), y = loadScalar(S, q + i, 8, false); if (x.k == K::C && y.k == K::C) { if (x.c != y.c) { if (!sym) { ret(S, cb, Val::Int(x.c < y.c ? (uint64_t)-1 : 1, 32)); return true; } bs.push_back({x, y}); break; } continue; } if (x.k == K::S && y.k == K::S && x.e.a == y.e.a) continue; sym = true; bs.push_back({x, y}); }
    if (n == "bcmp") { // only equality matters
      std::vector<E> eqs; for (auto& b : bs) eqs.push_back(eEq(bvOf(b.first), bvOf(b.second)));
      ret(S, cb, fromBV(eIte(eAnd(eqs), bvNum(0, 32), bvNum(1, 32)), 32)); return true; }
    for (auto it = bs.rbegin(); it != bs.rend(); ++it) { E x = bvOf(it->first), y = bvOf(it->second); r = eIte(eEq(x, y), r, eIte(E(Z3_mk_bvult(Z, x, y)), bvNum(0xffffffffu, 32), bvNum(1, 32))); }
    ret(S, cb, fromBV(r, 32)); return true; }
  // C++ runtime
  if (n == "__cxa_allocate_exception") { uint64_t p = allocObj(S, A(0), "exn", true); Obj& o = rwObj(S, p, A(0), "x"); memset(o.b.data(), 0, o.b.size()); ret(S, cb, Val::Int(p, 64)); return true; }
  if (n == "__cxa_free_exception") { ret(S, cb, Val()); return true; }
  if (n == "__cxa_throw") { Exn ex; ex.ptr = A(0); ex.ti = A(1); unwind(S, ex); return true; }
  if (n == "__cxa_begin_catch") { uint64_t p = A(0); Exn ex = S.live[p]; S.caught.push_back(ex); ret(S, cb, Val::Int(ex.adj, 64)); return true; }
  if (n == "__cxa_get_exception_ptr") { uint64_t p = A(0); ret(S, cb, Val::Int(S.live[p].adj, 64)); return true; }
  if (n == "__cxa_end_catch") { if (!S.caught.empty()) S.caught.pop_back(); ret(S, cb, Val()); return true; }
  if (n == "__cxa_rethrow") { if (S.caught.empty()) pathViolation(S, "terminate", "abort", "rethrow without exception"); Exn ex = S.caught.back(); ex.adj = 0; unwind(S, ex); return true; }
  if (is({"__cxa_guard_acquire"})) { uint64_t p = A(0); Val g = loadScalar(S, p, 8, false); ret(S, cb, Val::Int(g.c ? 0 : 1, 32)); return true; }
  if (is({"__cxa_guard_release"})) { storeScalar(S, A(0), Val::Int(1, 8)); ret(S, cb, Val()); return true; }
  if (is({"__cxa_guard_abort"})) { ret(S, cb, Val()); return true; }
  if (is({"__cxa_atexit", "atexit"})) { ret(S, cb, Val::Int(0, 32)); return true; }
  if (n == "__cxa_pure_virtual") { pathViolation(S, "terminate", "abort", "pure virtual call"); return true; }
  if (is({"_ZSt9terminatev", "__clang_call_terminate", "abort", "exit", "_exit"})) { pathViolation(S, "terminate", "abort", n.str()); return true; }
  if (n == "__assert_fail") { std::string ex; try { ex = readCStr(S, A(0)); } catch (PathCut&) {} pathViolation(S, "assertion-failure", "abort", ex); return true; }
  if (n == "__errno_location") { static uint64_t ea = 0; if (!ea || !S.mem.count(ea)) { ea = allocObj(S, 8, "errno", false); storeScalar(S, ea, Val::Int(0, 64)); } ret(S, cb, Val::Int(ea, 64)); return true; }
  static const std::map<std::string, const char*> thr = {
    {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"}, {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"}, {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"},
    {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"}, {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"}, {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"},
    {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"}, {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"}, {"_ZSt19__throw_range_errorPKc", "_ZTISt11range_error"}, {"_ZSt22__throw_overflow_errorPKc", "_ZTISt14overflow_error"}, {"__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length"}, {"__cxa_bad_cast", "_ZTISt8bad_cast"}};
  auto it = thr.find(n.str()); if (it != thr.end()) { throwStd(S, it->second); return true; }
  // std exception objects: state is never inspected
  if ((n.starts_with("_ZNSt") || n.starts_with("_ZNKSt")) && (n.contains("_errorC") || n.contains("_errorD") || n.contains("exceptionD") || n.contains("exceptionC") || n.contains("out_of_rangeC") || n.contains("out_of_rangeD") || n.contains("argumentC") || n.contains("argumentD") || n.contains("bad_castD") || n.contains("bad_castC") || n.contains("bad_allocD"))) { ret(S, cb, Val()); return true; }
  if (n.starts_with("_ZNSt8ios_base4Init")) { ret(S, cb, Val()); return true; }
  if (n == "strtod") { std::string s = readCStr(S, A(0)); char* e; double d = strtod(s.c_str(), &e); uint64_t ep = A(1); if (ep) storeScalar(S, ep, Val::Int(A(0) + (e - s.c_str()), 64)); ret(S, cb, Val::Flt(d, 64)); return true; }
  if (n == "vf_format_double") { // model hook: text of a concrete double, "%.*g"
    long double d = cfp(S, cb->getArgOperand(0)); int prec = (int)A(1); uint64_t buf = A(2); char b[128]; int k = snprintf(b, sizeof b, "%.*g", prec, (double)d); for (int i = 0; i < k; i++) storeScalar(S, buf + i, Val::Int((unsigned char)b[i], 8)); ret(S, cb, Val::Int(k, 32)); return true; }
  if (n == "vf_format_fixed") { long double d = cfp(S, cb->getArgOperand(0)); int prec = (int)A(1); uint64_t buf = A(2); char b[512]; int k = snprintf(b, sizeof b, "%.*f", prec, (double)d); for (int i = 0; i < k; i++) storeScalar(S, buf + i, Val::Int((unsigned char)b[i], 8)); ret(S, cb, Val::Int(k, 32)); return true; }
  std::vector<Val> as; bool fpish = cb->getType()->isFloatingPointTy();
  if (fpish) { for (unsigned i = 0; i < cb->arg_size(); i++) as.push_back(arg(i)); Val o; if (mathFn(n.str(), as, o)) { ret(S, cb, o); return true; } }
  if (is({"lround", "lrint"})) throw PathCut{"lround"};
  return false;
}
static void doCall(State& S, CallBase* cb) {
  if (cb->isInlineAsm()) { auto* ia = cast<InlineAsm>(cb->getCalledOperand()); if (ia->getAsmString().empty()) { ret(S, cb, cb->arg_size() ? get(S, cb->getArgOperand(0)) : Val()); return; } throw PathCut{"inline asm"}; }
  Value* cv = cb->getCalledOperand()->stripPointerCasts(); Function* F = dyn_cast<Function>(cv);
  if (!F) { if (auto* ga = dyn_cast<GlobalAlias>(cv)) F = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts()); }
  if (!F) {
    uint64_t a = cint(S, cb->getCalledOperand()); auto it = fnAt.find(a);
    if (it == fnAt.end()) pathViolation(S, "memory-safety", "memory", "call through invalid pointer " + hexs(a));
    F = it->second;
  }
  StringRef n = F->getName();
  if (n.starts_with("vf_") && vfCall(S, cb, n)) return;
  if (F->isIntrinsic()) { if (intrinsic(S, cb, F)) return; throw PathCut{"intrinsic " + n.str()}; }
  if (F->isDeclaration() || n == "memcpy" || n == "memcmp" || n == "bcmp" || n == "__clang_call_terminate") {
    if (external(S, cb, n)) return;
    throw PathCut{"external " + demangle(n.str())};
  }
  if (F->isVarArg()) throw PathCut{"vararg " + n.str()};
  std::vector<Val> args; for (unsigned i = 0; i < cb->arg_size(); i++) args.push_back(get(S, cb->getArgOperand(i)));
  pushFrame(S, F, args, cb);
}
