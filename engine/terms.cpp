#include "terms.h"
#include <array>
#include <cstdio>
#include <cstdlib>
#include <algorithm>

Z3_context Z;
std::vector<E> pendingDomain;
const char* PI_NUM = "245850922"; const char* PI_DEN = "78256779";
static bool realUsed = false;
bool usesReal() { return realUsed; }

static Z3_sort sBool, sInt, sReal, sF32, sF64;
static E rne;
static void errh(Z3_context c, Z3_error_code e) { throw PathCut{std::string("z3 error: ") + Z3_get_error_msg(c, e)}; }

void tInit() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  Z = Z3_mk_context_rc(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(Z, errh);
  Z3_set_ast_print_mode(Z, Z3_PRINT_SMTLIB2_COMPLIANT);
  auto keep = [](Z3_sort s) { Z3_inc_ref(Z, Z3_sort_to_ast(Z, s)); return s; };
  sBool = keep(Z3_mk_bool_sort(Z)); sInt = keep(Z3_mk_int_sort(Z)); sReal = keep(Z3_mk_real_sort(Z));
  sF32 = keep(Z3_mk_fpa_sort_32(Z)); sF64 = keep(Z3_mk_fpa_sort_64(Z));
  rne = E(Z3_mk_fpa_rne(Z));
}

E simp(E const& e) { return E(Z3_simplify(Z, e)); }
E simpSom(E const& e) {
  static Z3_params p = nullptr;
  if (!p) {
    p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
    Z3_params_set_bool(Z, p, Z3_mk_string_symbol(Z, "som"), true); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "som_blowup"), 1000);
    Z3_params_set_bool(Z, p, Z3_mk_string_symbol(Z, "flat"), true); Z3_params_set_bool(Z, p, Z3_mk_string_symbol(Z, "sort_sums"), true);
  }
  return E(Z3_simplify_ex(Z, e, p));
}
bool isNum(E const& e) { return Z3_get_ast_kind(Z, e) == Z3_NUMERAL_AST; }
std::string str(E const& e) { return Z3_ast_to_string(Z, e); }
E mkConst(std::string const& n, Z3_sort s) { return E(Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), s)); }
static int freshN = 0;
E mkFreshReal(const char* p) { realUsed = true; return mkConst(std::string(p) + "!" + std::to_string(freshN++), sReal); }
E eAnd(std::vector<E> const& v) {
  if (v.empty()) return E(Z3_mk_true(Z));
  if (v.size() == 1) return v[0];
  std::vector<Z3_ast> a; for (auto& x : v) a.push_back(x);
  return E(Z3_mk_and(Z, a.size(), a.data()));
}
E eNot(E const& a) { return E(Z3_mk_not(Z, a)); }
E eEq(E const& a, E const& b) { return E(Z3_mk_eq(Z, a, b)); }
E eIte(E const& c, E const& a, E const& b) { return E(Z3_mk_ite(Z, c, a, b)); }
static std::string i128s(i128 v) {
  if (v == 0) return "0";
  bool n = v < 0; u128 u = n ? (u128)(-v) : (u128)v; std::string s;
  while (u) { s += char('0' + (int)(u % 10)); u /= 10; }
  if (n) s += '-';
  std::reverse(s.begin(), s.end()); return s;
}
E numI(i128 v) { return E(Z3_mk_numeral(Z, i128s(v).c_str(), sInt)); }
E numR(std::string const& s) { return E(Z3_mk_numeral(Z, s.c_str(), sReal)); }
E bvNum(uint64_t v, unsigned w) { return E(Z3_mk_unsigned_int64(Z, v, Z3_mk_bv_sort(Z, w))); }

static int64_t sx64(uint64_t c, unsigned w) { if (w >= 64) return (int64_t)c; uint64_t m = 1ull << (w - 1); return (int64_t)((c ^ m) - m); }

unsigned int2bvCount = 0;
E bvOf(Val const& v) {
  switch (v.k) {
    case K::C: if (v.w == 1) return E(v.c ? Z3_mk_true(Z) : Z3_mk_false(Z)); return bvNum(v.c, v.w);
    case K::S: return v.e;
    case K::I: int2bvCount++; return E(Z3_mk_int2bv(Z, v.w, v.e));
    case K::F: case K::CF: { Val b = fpToBits(v); if (b.k == K::F || b.k == K::CF || b.k == K::R) break; return bvOf(b); }
    case K::Undef: return bvOf(Val::Int(0, v.w ? v.w : 64));
    default: break;
  }
  throw PathCut{"bit pattern of an exact-real value needed"};
}
E boolOf(Val const& v) {
  if (v.k == K::C) return E(v.c ? Z3_mk_true(Z) : Z3_mk_false(Z));
  if (v.k == K::S) return v.e;
  if (v.k == K::I) return eNot(eEq(v.e, numI(0)));
  if (v.k == K::Undef) return E(Z3_mk_false(Z));
  throw PathCut{"bool expected"};
}
E intOf(Val const& v) {
  if (v.k == K::C) return numI(v.w == 1 ? (i128)v.c : (i128)sx64(v.c, v.w));
  if (v.k == K::I) return v.e;
  if (v.k == K::S) { if (v.w == 1) return eIte(v.e, numI(1), numI(0)); return E(Z3_mk_bv2int(Z, v.e, true)); }
  throw PathCut{"int expected"};
}
Val fromBool(E e0) {
  E e = simp(e0);
  Z3_lbool b = Z3_get_bool_value(Z, e);
  if (b == Z3_L_TRUE) return Val::Int(1, 1);
  if (b == Z3_L_FALSE) return Val::Int(0, 1);
  return Val::Sym(e, 1);
}
Val fromBV(E e0, unsigned w) {
  if (w == 1) return fromBool(e0);
  E e = simp(e0);
  if (w <= 64 && isNum(e)) { uint64_t u; if (Z3_get_numeral_uint64(Z, e, &u)) return Val::Int(u, w); }
  return Val::Sym(e, w);
}
// intervals of integer terms which hold on every path
static std::unordered_map<unsigned, std::pair<i128, i128>> intIv; static std::vector<E> intIvKeep;
static std::unordered_map<unsigned, std::pair<i128, i128>> firmIv; void regFirm(E const& e, i128 lo, i128 hi) { auto [it, nw] = firmIv.try_emplace(Z3_get_ast_id(Z, e), lo, hi); if (nw) intIvKeep.push_back(e); else { it->second.first = std::min(it->second.first, lo); it->second.second = std::max(it->second.second, hi); } }
void regInt(E const& e, i128 lo, i128 hi) {
  if (firmIv.count(Z3_get_ast_id(Z, e))) return;
  auto it = intIv.find(Z3_get_ast_id(Z, e));
  if (it == intIv.end()) { intIv[Z3_get_ast_id(Z, e)] = {lo, hi}; intIvKeep.push_back(e); }
  else { it->second.first = std::min(it->second.first, lo); it->second.second = std::max(it->second.second, hi); }
}
static bool numI128(E const& e, i128& v) { int64_t s; if (!isNum(e) || !Z3_get_numeral_int64(Z, e, &s)) return false; v = s; return true; }
static bool ivOf(E const& e, i128& lo, i128& hi) {
  if (numI128(e, lo)) { hi = lo; return true; }
  if (auto f = firmIv.find(Z3_get_ast_id(Z, e)); f != firmIv.end()) { lo = f->second.first; hi = f->second.second; return true; }
  auto it = intIv.find(Z3_get_ast_id(Z, e)); if (it != intIv.end()) { lo = it->second.first; hi = it->second.second; return true; }
  if (Z3_get_ast_kind(Z, e) != Z3_APP_AST) return false;
  Z3_app a = Z3_to_app(Z, e); auto k = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, a)); unsigned n = Z3_get_app_num_args(Z, a);
  if (k == Z3_OP_ADD) { lo = hi = 0; for (unsigned i = 0; i < n; i++) { i128 l, h; if (!ivOf(E(Z3_get_app_arg(Z, a, i)), l, h)) return false; lo += l; hi += h; } return true; }
  if (k == Z3_OP_MUL && n == 2) { i128 c, l, h; if (!numI128(E(Z3_get_app_arg(Z, a, 0)), c) || !ivOf(E(Z3_get_app_arg(Z, a, 1)), l, h)) return false; if (fabsl((long double)c) * std::max(fabsl((long double)l), fabsl((long double)h)) > 1e36L) return false; lo = c >= 0 ? c * l : c * h; hi = c >= 0 ? c * h : c * l; return true; }
  return false;
}
static unsigned tzOf(E const& e) {  // power of two which divides the term
  i128 c; if (numI128(e, c)) { if (c == 0) return 63; return __builtin_ctzll((uint64_t)c); }
  if (Z3_get_ast_kind(Z, e) != Z3_APP_AST) return 0;
  Z3_app a = Z3_to_app(Z, e); auto k = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, a)); unsigned n = Z3_get_app_num_args(Z, a), r = 0;
  if (k == Z3_OP_ADD) { r = 63; for (unsigned i = 0; i < n; i++) r = std::min(r, tzOf(E(Z3_get_app_arg(Z, a, i)))); }
  if (k == Z3_OP_MUL) for (unsigned i = 0; i < n; i++) r = std::min(63u, r + tzOf(E(Z3_get_app_arg(Z, a, i))));
  return r;
}
static Val fromInt(E e0, unsigned w, i128 lo, i128 hi) {
  E e = simp(e0); if (!isNum(e)) regInt(e, lo, hi);
  if (isNum(e)) { int64_t s; if (Z3_get_numeral_int64(Z, e, &s)) return Val::Int((uint64_t)s, w); }
  return Val::MInt(e, w, lo, hi);
}

// ---- mathematical-int mode -------------------------------------------------
static i128 p2(unsigned n) { return (i128)1 << n; }
static void iv(Val const& v, i128& lo, i128& hi) {
  if (v.k == K::C) lo = hi = (v.w == 1 ? (i128)v.c : (i128)sx64(v.c, v.w)); else { lo = v.lo; hi = v.hi; }
}
// as signed / unsigned mathematical value of the bit pattern
static void asSigned(Val const& v, E& e, i128& lo, i128& hi) {
  e = intOf(v); iv(v, lo, hi);
  i128 H = p2(v.w - 1);
  if (hi < H && lo >= -H) return;
  if (lo >= -H && hi < 2 * H) { e = eIte(E(Z3_mk_ge(Z, e, numI(H))), E(Z3_mk_sub(Z, 2, (Z3_ast[]){e, numI(2 * H)})), e); lo = -H; hi = H - 1; return; }
  throw PathCut{"int interval"};
}
static void asUnsigned(Val const& v, E& e, i128& lo, i128& hi) {
  e = intOf(v); iv(v, lo, hi);
  if (lo >= 0 && hi < p2(v.w)) return;
  if (v.k == K::C) { lo = hi = (i128)(v.w >= 64 ? (u128)v.c : (u128)v.c); e = numI(lo); return; }
  if (hi < 0) { e = E(Z3_mk_add(Z, 2, (Z3_ast[]){e, numI(p2(v.w))})); lo += p2(v.w); hi += p2(v.w); return; }
  e = eIte(E(Z3_mk_lt(Z, e, numI(0))), E(Z3_mk_add(Z, 2, (Z3_ast[]){e, numI(p2(v.w))})), e); lo = 0; hi = p2(v.w) - 1;
}
static void ediv(E const& x0, i128 d, i128 lo, i128 hi, E& q, E& r);
static Val normI(E e, unsigned w, i128 lo, i128 hi) {
  if (w > 64) throw PathCut{"wide int"};
  if (lo >= -p2(w - 1) && hi < p2(w)) return fromInt(e, w, lo, hi);
  // wrap to signed range
  E q, m; ediv(e, p2(w), lo, hi, q, m);
  return fromInt(m, w, 0, p2(w) - 1);
}
static E add2(E const& a, E const& b) { return E(Z3_mk_add(Z, 2, (Z3_ast[]){a, b})); }
static E sub2(E const& a, E const& b) { return E(Z3_mk_sub(Z, 2, (Z3_ast[]){a, b})); }
static E mul2(E const& a, E const& b) { return E(Z3_mk_mul(Z, 2, (Z3_ast[]){a, b})); }
// Euclidean division by a positive constant through fresh q, r with x = d*q + r, 0 <= r < d
std::vector<E> pendingDefs;
static std::map<std::pair<unsigned, std::string>, std::array<E, 4>> divMemo;
static bool divReduce = true; static Z3_decl_kind opk0(Z3_ast x) { return Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, x))); }
static std::unordered_map<unsigned, std::pair<E, i128>> quotOf;  // quotient constant -> what it is a quotient of, and by what
static void ediv(E const& x0, i128 d, i128 lo, i128 hi, E& q, E& r) {
  E x = simp(x0);
  if (isNum(x) || d == 1) { q = simp(E(Z3_mk_div(Z, x, numI(d)))); r = simp(E(Z3_mk_mod(Z, x, numI(d)))); return; }
  if (lo >= 0 && hi < d) { q = numI(0); r = x; return; }
  if (Z3_get_ast_kind(Z, x) == Z3_APP_AST && (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, x))) == Z3_OP_ADD || Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, x))) == Z3_OP_MUL)) {
    // x = d*B + A with A known to lie in [0,d)
    Z3_app a = Z3_to_app(Z, x); std::vector<E> ts; if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, a)) == Z3_OP_ADD) for (unsigned i = 0; i < Z3_get_app_num_args(Z, a); i++) ts.push_back(E(Z3_get_app_arg(Z, a, i))); else ts.push_back(x);
    E A = numI(0), B = numI(0); bool any = false; i128 l = 0, h = 0; bool ok = true;
    for (auto& t : ts) {
      i128 c; E rest; bool isC = numI128(t, c);
      if (!isC && Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, t))) == Z3_OP_MUL && Z3_get_app_num_args(Z, Z3_to_app(Z, t)) == 2 && numI128(E(Z3_get_app_arg(Z, Z3_to_app(Z, t), 0)), c)) rest = E(Z3_get_app_arg(Z, Z3_to_app(Z, t), 1));
      if (isC) { i128 f = c >= 0 ? c / d : -((-c + d - 1) / d); B = add2(B, numI(f)); if (f != 0) any = true; c -= f * d; A = add2(A, numI(c)); l += c; h += c; continue; }
      if (rest && c % d == 0) { B = add2(B, mul2(numI(c / d), rest)); any = true; continue; }
      i128 tl, th; if (!ivOf(t, tl, th)) { ok = false; break; } A = add2(A, t); l += tl; h += th;
    }
    if (ok && any && l >= 0 && h < d) { q = simp(B); r = simp(A); return; }
    if (divReduce) { // the multiples of d in the coefficients come out of the quotient
      E A2 = numI(0), B2 = numI(0); bool ch = false;
      for (auto& t : ts) {
        i128 c = 1; E rest = t; bool isC = numI128(t, c);
        if (!isC) { c = 1; if (opk0(t) == Z3_OP_MUL && Z3_get_app_num_args(Z, Z3_to_app(Z, t)) == 2 && numI128(E(Z3_get_app_arg(Z, Z3_to_app(Z, t), 0)), c)) rest = E(Z3_get_app_arg(Z, Z3_to_app(Z, t), 1)); else c = 1; }
        i128 f = c >= 0 ? c / d : -((-c + d - 1) / d); if (f != 0) ch = true; i128 rc = c - f * d;
        if (isC) { B2 = add2(B2, numI(f)); A2 = add2(A2, numI(rc)); } else { B2 = add2(B2, mul2(numI(f), rest)); A2 = add2(A2, mul2(numI(rc), rest)); }
      }
      if (ch) { E A3 = simp(A2); i128 l2, h2; if (!ivOf(A3, l2, h2)) { l2 = -p2(100); h2 = p2(100); } E q2; ediv(A3, d, l2, h2, q2, r); q = simp(add2(B2, q2)); return; }
    }
  }
  auto& m = divMemo[{Z3_get_ast_id(Z, x), i128s(d)}];
  if (!m[0]) { m[0] = E(Z3_mk_fresh_const(Z, "q", sInt)); m[1] = E(Z3_mk_fresh_const(Z, "r", sInt)); m[3] = x; quotOf[Z3_get_ast_id(Z, m[0])] = {x, d}; regFirm(m[1], 0, d - 1); { i128 xl, xh; if (ivOf(x, xl, xh)) regFirm(m[0], xl >= 0 ? xl / d : -((-xl + d - 1) / d), xh >= 0 ? xh / d : -((-xh + d - 1) / d)); }
    m[2] = simp(eAnd({eEq(x, add2(mul2(numI(d), m[0]), m[1])), E(Z3_mk_ge(Z, m[1], numI(0))), E(Z3_mk_lt(Z, m[1], numI(d)))})); }
  pendingDefs.push_back(m[2]); q = m[0]; r = m[1];
}
static bool mathIop(IOp op, Val const& a, Val const& b, Val& out) {
  unsigned w = a.w; if (w == 1) return false;
  i128 al, ah, bl, bh; E x, y;
  auto fits = [&](Val const& v) { return v.k == K::I || v.k == K::C; };
  if (!fits(a) || !fits(b)) return false;
  switch (op) {
    case IOp::Add: iv(a, al, ah); iv(b, bl, bh); out = normI(add2(intOf(a), intOf(b)), w, al + bl, ah + bh); return true;
    case IOp::Sub: iv(a, al, ah); iv(b, bl, bh); out = normI(sub2(intOf(a), intOf(b)), w, al - bh, ah - bl); return true;
    case IOp::Mul: {
      iv(a, al, ah); iv(b, bl, bh);
      long double m = std::max(fabsl((long double)al), fabsl((long double)ah)) * std::max(fabsl((long double)bl), fabsl((long double)bh));
      if (m > 1e37L) return false;
      i128 c[4] = {al * bl, al * bh, ah * bl, ah * bh};
      out = normI(mul2(intOf(a), intOf(b)), w, *std::min_element(c, c + 4), *std::max_element(c, c + 4)); return true;
    }
    case IOp::UDiv: case IOp::URem: {
      if (b.k == K::I && a.k == K::C && op == IOp::UDiv && b.lo >= 0 && b.hi <= 64) { // constant / small symbolic divisor (zero divisor checked by the caller)
        i128 N = (i128)a.c, l = std::max<i128>(b.lo, 1), hiv = N / l; if (hiv >= p2(63) && w == 64 && 0) return false; E r;
        for (i128 j = b.hi; j >= l; j--) { E ve = numI(N / j); r = r ? eIte(eEq(intOf(b), numI(j)), ve, r) : ve; }
        out = fromInt(r, w, N / b.hi, hiv); return true; }
      if (b.k != K::C || b.c == 0) return false;
      asUnsigned(a, x, al, ah); i128 d = (i128)b.c;
      E q, r; ediv(x, d, al, ah, q, r);
      if (op == IOp::UDiv) out = fromInt(q, w, al / d, ah / d); else out = fromInt(r, w, ah < d ? al : 0, std::min(ah, d - 1));
      return true;
    }
    case IOp::SDiv: case IOp::SRem: {
      if (b.k != K::C) return false;
      i128 d = sx64(b.c, w); if (d <= 0) return false;
      asSigned(a, x, al, ah);
      E q, r; if (ah >= 0) ediv(x, d, al, ah, q, r);
      if (al < 0) { E n2, r2; ediv(E(Z3_mk_unary_minus(Z, x)), d, -ah, -al, n2, r2); E nq = E(Z3_mk_unary_minus(Z, n2)); q = ah < 0 ? nq : eIte(E(Z3_mk_ge(Z, x, numI(0))), q, nq); }
      if (op == IOp::SDiv) out = fromInt(q, w, al / d, ah / d);
      else out = fromInt(sub2(x, mul2(numI(d), q)), w, al < 0 ? -(d - 1) : 0, ah > 0 ? d - 1 : 0);
      return true;
    }
    case IOp::Shl: {
      if (b.k != K::C || b.c >= w || b.c > 60) return false;
      iv(a, al, ah); i128 m = p2(b.c);
      out = normI(mul2(intOf(a), numI(m)), w, al * m, ah * m); return true;
    }
    case IOp::LShr: {
      if (b.k != K::C || b.c >= w) return false;
      asUnsigned(a, x, al, ah); i128 m = p2(b.c);
      E q, r; ediv(x, m, al, ah, q, r); out = fromInt(q, w, al / m, ah / m); return true;
    }
    case IOp::AShr: {
      if (b.k != K::C || b.c >= w) return false;
      asSigned(a, x, al, ah); i128 m = p2(b.c);
      auto fl = [&](i128 v) { return v >= 0 ? v / m : -((-v + m - 1) / m); };
      E q, r; ediv(x, m, al, ah, q, r); out = fromInt(q, w, fl(al), fl(ah)); return true;
    }
    case IOp::And: {
      Val const *s = &a, *c = &b; if (a.k == K::C) std::swap(s, c);
      if (c->k != K::C) return false;
      uint64_t m = c->c;
      if (m == 0) { out = Val::Int(0, w); return true; }
      unsigned tz = __builtin_ctzll(m); uint64_t mm = m >> tz;
      if ((mm & (mm + 1)) == 0) {  // contiguous mask
        asUnsigned(*s, x, al, ah);
        unsigned n = mm == ~0ull ? 64 : __builtin_popcountll(mm);
        E r = x, t1; if (tz) ediv(x, p2(tz), al, ah, r, t1);
        if (ah >= p2(n + tz)) { E r0 = r, q2; ediv(r0, p2(n), al / p2(tz), ah / p2(tz), q2, r); }
        if (tz) r = mul2(r, numI(p2(tz)));
        out = fromInt(r, w, tz == 0 && ah < p2(n) ? al : 0, std::min(ah, (i128)m)); return true;
      }
      return false;
    }
    case IOp::Or: { // parts with no bit in common
      if (b.k == K::C && b.c == 0) { out = a; return true; }
      asUnsigned(a, x, al, ah); asUnsigned(b, y, bl, bh); x = simp(x); y = simp(y);
      for (int k = 0; k < 2; k++) { unsigned tz = tzOf(x); if (tz > 0 && bh < p2(tz)) { i128 lo2 = al + bl, hi2 = ah + bh; if (hi2 < p2(w)) { out = fromInt(add2(x, y), w, lo2, hi2); return true; } } std::swap(x, y); std::swap(al, bl); std::swap(ah, bh); }
      return false;
    }
    case IOp::Xor: {
      Val const *s = &a, *c = &b; if (a.k == K::C) std::swap(s, c);
      if (c->k == K::C && sx64(c->c, w) == -1) { iv(*s, al, ah); out = normI(sub2(numI(-1), intOf(*s)), w, -1 - ah, -1 - al); return true; }
      return false;
    }
  }
  return false;
}

Val iop(IOp op, Val const& a0, Val const& b0) {
  Val a = a0, b = b0;
  if (a.k == K::Undef) a = Val::Int(0, b.w ? b.w : 64);
  if (b.k == K::Undef) b = Val::Int(0, a.w);
  unsigned w = a.w;
  if (a.k == K::C && b.k == K::C) {
    uint64_t x = a.c, y = b.c; int64_t sxv = sx64(x, w), sy = sx64(y, w);
    switch (op) {
      case IOp::Add: return Val::Int(x + y, w);
      case IOp::Sub: return Val::Int(x - y, w);
      case IOp::Mul: return Val::Int(x * y, w);
      case IOp::UDiv: if (!y) throw PathCut{"div0"}; return Val::Int(x / y, w);
      case IOp::URem: if (!y) throw PathCut{"div0"}; return Val::Int(x % y, w);
      case IOp::SDiv: if (!y) throw PathCut{"div0"}; if (sy == -1) return Val::Int(0 - x, w); return Val::Int((uint64_t)(sxv / sy), w);
      case IOp::SRem: if (!y) throw PathCut{"div0"}; if (sy == -1) return Val::Int(0, w); return Val::Int((uint64_t)(sxv % sy), w);
      case IOp::Shl: return Val::Int(y >= w ? 0 : x << y, w);
      case IOp::LShr: return Val::Int(y >= w ? 0 : x >> y, w);
      case IOp::AShr: return Val::Int(y >= w ? (sxv < 0 ? ~0ull : 0) : (uint64_t)(sxv >> y), w);
      case IOp::And: return Val::Int(x & y, w);
      case IOp::Or: return Val::Int(x | y, w);
      case IOp::Xor: return Val::Int(x ^ y, w);
    }
  }
  // identities keep opaque values opaque
  if (b.k == K::C && b.c == 0 && (op == IOp::Add || op == IOp::Sub || op == IOp::Or || op == IOp::Xor || op == IOp::Shl || op == IOp::LShr || op == IOp::AShr)) return a;
  if (a.k == K::C && a.c == 0 && (op == IOp::Add || op == IOp::Or || op == IOp::Xor)) return b;
  if (w == 1) {
    E x = boolOf(a), y = boolOf(b);
    switch (op) {
      case IOp::And: case IOp::Mul: return fromBool(E(Z3_mk_and(Z, 2, (Z3_ast[]){x, y})));
      case IOp::Or: return fromBool(E(Z3_mk_or(Z, 2, (Z3_ast[]){x, y})));
      case IOp::Xor: case IOp::Add: case IOp::Sub: return fromBool(E(Z3_mk_xor(Z, x, y)));
      default: throw PathCut{"i1 op"};
    }
  }
  if (a.k == K::I || b.k == K::I) { Val o; if (mathIop(op, a, b, o)) return o; }
  E x = bvOf(a), y = bvOf(b); Z3_ast r = nullptr;
  switch (op) {
    case IOp::Add: r = Z3_mk_bvadd(Z, x, y); break;
    case IOp::Sub: r = Z3_mk_bvsub(Z, x, y); break;
    case IOp::Mul: r = Z3_mk_bvmul(Z, x, y); break;
    case IOp::UDiv: r = Z3_mk_bvudiv(Z, x, y); break;
    case IOp::URem: r = Z3_mk_bvurem(Z, x, y); break;
    case IOp::SDiv: r = Z3_mk_bvsdiv(Z, x, y); break;
    case IOp::SRem: r = Z3_mk_bvsrem(Z, x, y); break;
    case IOp::Shl: r = Z3_mk_bvshl(Z, x, y); break;
    case IOp::LShr: r = Z3_mk_bvlshr(Z, x, y); break;
    case IOp::AShr: r = Z3_mk_bvashr(Z, x, y); break;
    case IOp::And: r = Z3_mk_bvand(Z, x, y); break;
    case IOp::Or: r = Z3_mk_bvor(Z, x, y); break;
    case IOp::Xor: r = Z3_mk_bvxor(Z, x, y); break;
  }
  return fromBV(E(r), w);
}

Val icmp(IPred p, Val const& a0, Val const& b0) {
  Val a = a0, b = b0;
  if (a.k == K::Undef) a = Val::Int(0, b.w ? b.w : 64);
  if (b.k == K::Undef) b = Val::Int(0, a.w);
  unsigned w = a.w;
  if (a.k == K::C && b.k == K::C) {
    uint64_t x = a.c, y = b.c; int64_t s = sx64(x, w), t = sx64(y, w); bool r = false;
    switch (p) {
      case IPred::EQ: r = x == y; break; case IPred::NE: r = x != y; break;
      case IPred::UGT: r = x > y; break; case IPred::UGE: r = x >= y; break;
      case IPred::ULT: r = x < y; break; case IPred::ULE: r = x <= y; break;
      case IPred::SGT: r = s > t; break; case IPred::SGE: r = s >= t; break;
      case IPred::SLT: r = s < t; break; case IPred::SLE: r = s <= t; break;
    }
    return Val::Int(r, 1);
  }
  if (w == 1) {
    E x = boolOf(a), y = boolOf(b);
    E na = eNot(x), nb = eNot(y);
    switch (p) {
      case IPred::EQ: return fromBool(eEq(x, y));
      case IPred::NE: return fromBool(E(Z3_mk_xor(Z, x, y)));
      case IPred::UGT: case IPred::SLT: return fromBool(E(Z3_mk_and(Z, 2, (Z3_ast[]){x, nb})));
      case IPred::ULT: case IPred::SGT: return fromBool(E(Z3_mk_and(Z, 2, (Z3_ast[]){na, y})));
      case IPred::UGE: case IPred::SLE: return fromBool(E(Z3_mk_or(Z, 2, (Z3_ast[]){x, nb})));
      default: return fromBool(E(Z3_mk_or(Z, 2, (Z3_ast[]){na, y})));
    }
  }
  if ((a.k == K::I || b.k == K::I) && (a.k == K::I || a.k == K::C) && (b.k == K::I || b.k == K::C)) {
    E x, y; i128 l, h, l2, h2; bool sg = p >= IPred::SGT;
    if (p == IPred::EQ || p == IPred::NE) sg = true;
    if (sg) { asSigned(a, x, l, h); asSigned(b, y, l2, h2); } else { asUnsigned(a, x, l, h); asUnsigned(b, y, l2, h2); }
    bool known = false, r = false;
    auto ret = [&](bool v) { known = true; r = v; };
    switch (p) {
      case IPred::EQ: if (h < l2 || h2 < l) ret(false); break;
      case IPred::NE: if (h < l2 || h2 < l) ret(true); break;
      case IPred::UGT: case IPred::SGT: if (l > h2) ret(true); else if (h <= l2) ret(false); break;
      case IPred::UGE: case IPred::SGE: if (l >= h2) ret(true); else if (h < l2) ret(false); break;
      case IPred::ULT: case IPred::SLT: if (h < l2) ret(true); else if (l >= h2) ret(false); break;
      case IPred::ULE: case IPred::SLE: if (h <= l2) ret(true); else if (l > h2) ret(false); break;
    }
    if (known) return Val::Int(r, 1);
    Z3_ast q = nullptr;
    switch (p) {
      case IPred::EQ: q = Z3_mk_eq(Z, x, y); break; case IPred::NE: return fromBool(eNot(eEq(x, y)));
      case IPred::UGT: case IPred::SGT: q = Z3_mk_gt(Z, x, y); break;
      case IPred::UGE: case IPred::SGE: q = Z3_mk_ge(Z, x, y); break;
      case IPred::ULT: case IPred::SLT: q = Z3_mk_lt(Z, x, y); break;
      case IPred::ULE: case IPred::SLE: q = Z3_mk_le(Z, x, y); break;
    }
    return fromBool(E(q));
  }
  E x = bvOf(a), y = bvOf(b); Z3_ast q = nullptr;
  switch (p) {
    case IPred::EQ: q = Z3_mk_eq(Z, x, y); break; case IPred::NE: return fromBool(eNot(eEq(x, y)));
    case IPred::UGT: q = Z3_mk_bvugt(Z, x, y); break; case IPred::UGE: q = Z3_mk_bvuge(Z, x, y); break;
    case IPred::ULT: q = Z3_mk_bvult(Z, x, y); break; case IPred::ULE: q = Z3_mk_bvule(Z, x, y); break;
    case IPred::SGT: q = Z3_mk_bvsgt(Z, x, y); break; case IPred::SGE: q = Z3_mk_bvsge(Z, x, y); break;
    case IPred::SLT: q = Z3_mk_bvslt(Z, x, y); break; case IPred::SLE: q = Z3_mk_bvsle(Z, x, y); break;
  }
  return fromBool(E(q));
}

Val zext(Val const& a, unsigned w) {
  if (a.k == K::C) return Val::Int(a.c, w);
  if (a.k == K::Undef) return Val::Int(0, w);
  if (a.w == 1) {
    if (w > 64) throw PathCut{"wide"};
    return fromBV(eIte(boolOf(a), bvNum(1, w), bvNum(0, w)), w);
  }
  if (a.k == K::I) { E x; i128 l, h; asUnsigned(a, x, l, h); return fromInt(x, w, l, h); }
  return fromBV(E(Z3_mk_zero_ext(Z, w - a.w, bvOf(a))), w);
}
Val sext(Val const& a, unsigned w) {
  if (a.k == K::C) return Val::Int((uint64_t)sx64(a.c, a.w), w);
  if (a.k == K::Undef) return Val::Int(0, w);
  if (a.w == 1) return fromBV(eIte(boolOf(a), bvNum(w >= 64 ? ~0ull : ((1ull << w) - 1), w), bvNum(0, w)), w);
  if (a.k == K::I) { E x; i128 l, h; asSigned(a, x, l, h); return fromInt(x, w, l, h); }
  return fromBV(E(Z3_mk_sign_ext(Z, w - a.w, bvOf(a))), w);
}
Val trunc(Val const& a, unsigned w) {
  if (a.k == K::C) return Val::Int(a.c, w);
  if (a.k == K::Undef) return Val::Int(0, w);
  if (a.k == K::I) {
    if (w > 1) return normI(a.e, w, a.lo, a.hi);
    return fromBool(eEq(E(Z3_mk_mod(Z, a.e, numI(2))), numI(1)));
  }
  E x = E(Z3_mk_extract(Z, w - 1, 0, bvOf(a)));
  if (w == 1) return fromBool(eEq(x, bvNum(1, 1)));
  return fromBV(x, w);
}
Val select(Val const& c, Val const& a, Val const& b, bool& ok) {
  ok = true;
  if (c.k == K::C) return c.c ? a : b;
  if (c.k == K::Undef) return b;
  if (a.k == K::Undef) return b;
  if (b.k == K::Undef) return a;
  E cc = boolOf(c);
  bool fa = a.k == K::R || b.k == K::R;
  if (fa) { if (a.k == K::Agg || b.k == K::Agg || a.k == K::C || b.k == K::C || a.k == K::S || b.k == K::S) { ok = false; return a; } return Val::Real(eIte(cc, realOf(a), realOf(b)), a.w); }
  if (a.k == K::F || b.k == K::F || (a.k == K::CF && b.k == K::CF)) {
    if (a.k == K::CF && b.k == K::CF) { if (a.ld == b.ld) return a; ok = false; return a; }
    if (a.w > 64) { ok = false; return a; }
    return Val::Fp(simp(eIte(cc, fpOf(a), fpOf(b))), a.w);
  }
  if (a.k == K::CF || b.k == K::CF) { ok = false; return a; }
  if (a.k == K::Agg || b.k == K::Agg) { ok = false; return a; }
  if (a.k == K::I || b.k == K::I) {
    if ((a.k == K::I || a.k == K::C) && (b.k == K::I || b.k == K::C)) {
      i128 l, h, l2, h2; iv(a, l, h); iv(b, l2, h2);
      return fromInt(eIte(cc, intOf(a), intOf(b)), a.w, std::min(l, l2), std::max(h, h2));
    }
  }
  if (a.w == 1) return fromBool(eIte(cc, boolOf(a), boolOf(b)));
  return fromBV(eIte(cc, bvOf(a), bvOf(b)), a.w);
}

// ---- rationals from doubles ---------------------------------------------------
static bool cfrac(__float128 f, __float128 relTol, long double maxProd, long long& p, long long& q) {
  bool neg = f < 0; if (neg) f = -f;
  long long p0 = 0, q0 = 1, p1 = 1, q1 = 0; __float128 x = f;
  for (int i = 0; i < 40; i++) {
    if (x > 4e18Q) return false;
    long long a = (long long)x;
    long double pn = (long double)a * p1 + p0, qn = (long double)a * q1 + q0;
    if (pn > 1e15L || qn > 1e15L) return false;
    long long p2_ = a * p1 + p0, q2 = a * q1 + q0;
    p0 = p1; q0 = q1; p1 = p2_; q1 = q2;
    if (p1 && (long double)p1 * q1 > maxProd) return false;
    __float128 d = f - (__float128)p1 / q1; if (d < 0) d = -d;
    if (p1 && d <= relTol * f) { p = neg ? -p1 : p1; q = q1; return true; }
    __float128 fr = x - a; if (fr == 0) return false; x = 1 / fr;
  }
  return false;
}
static std::string decimalToRational(const char* s) {  // "[-]d.ddde[+-]xx"
  std::string mant, out; bool neg = false; int exp = 0, frac = 0; bool dot = false;
  const char* c = s; if (*c == '-') { neg = true; c++; }
  for (; *c && *c != 'e' && *c != 'E'; c++) { if (*c == '.') { dot = true; continue; } mant += *c; if (dot) frac++; }
  if (*c) exp = atoi(c + 1);
  exp -= frac;
  std::string num = mant, den = "1";
  if (exp >= 0) num += std::string(exp, '0'); else den += std::string(-exp, '0');
  return (neg ? "-" : "") + num + "/" + den;
}
std::string snapRational(long double d, unsigned w) {
  if (d == 0) return "0";
  if (fabsl(d) < 9e15L && d == (long double)(long long)d) return std::to_string((long long)d);
  double dd = (double)d; char buf[64]; int digs = 17;
  for (int p = 1; p <= 17; p++) {
    snprintf(buf, sizeof buf, "%.*e", p - 1, dd);
    bool same = w == 32 ? (float)strtod(buf, nullptr) == (float)dd : strtod(buf, nullptr) == dd;
    if (same) { digs = p; break; }
  }
  std::string dec = decimalToRational(buf);
  if (digs <= 11 || w == 32) return dec;
  long long p, q;
  __float128 f = dd, tol = 3.4e-16Q;
  const __float128 pi = 3.14159265358979323846264338327950288Q;
  if (cfrac(f, tol, 1e8L, p, q)) return std::to_string(p) + "/" + std::to_string(q);
  std::string N = PI_NUM, D = PI_DEN;
  auto mulS = [](std::string const& a, long long b) {
    u128 x = 0; for (char ch : a) x = x * 10 + (ch - '0'); bool neg = b < 0; x *= (u128)(neg ? -b : b);
    return (neg ? "-" : "") + i128s((i128)x); };
  if (cfrac(f / pi, tol, 1e8L, p, q)) return mulS(N, p) + "/" + mulS(D, q);
  if (cfrac(f * pi, tol, 1e8L, p, q)) return mulS(D, p) + "/" + mulS(N, q);
  // boost::units defines the degree through 2*pi = 6.28318530718 (relative error 7e-14): taken as the exact multiple of pi
  if (cfrac(f / pi, 1e-13Q, 1e6L, p, q) && p < 1000 && p > -1000) return mulS(N, p) + "/" + mulS(D, q);
  if (cfrac(f * pi, 1e-13Q, 1000.0L, p, q) && p < 1000000 && p > -1000000) return mulS(D, p) + "/" + mulS(N, q);
  // reciprocal of a short decimal
  {
    double inv = 1.0 / dd; char b2[64];
    for (int pr = 1; pr <= 11; pr++) {
      snprintf(b2, sizeof b2, "%.*e", pr - 1, inv);
      double back = 1.0 / strtod(b2, nullptr);
      if (fabs(back - dd) <= 2.3e-16 * fabs(dd)) {
        std::string r = decimalToRational(b2); bool neg = r[0] == '-'; if (neg) r = r.substr(1);
        auto sl = r.find('/'); return (neg ? "-" : "") + r.substr(sl + 1) + "/" + r.substr(0, sl);
      }
    }
  }
  return dec;
}

E realOf(Val const& v) {
  realUsed = true;
  if (v.k == K::R) return v.e;
  if (v.k == K::CF) { if (std::isnan(v.ld) || std::isinf(v.ld)) throw PathCut{"nan/inf constant meets exact real"}; return numR(snapRational(v.ld, v.w)); }
  if (v.k == K::Undef) return numR("0");
  if (v.k == K::C) { Val f = bitsToFp(v, v.w); return realOf(f); }
  throw PathCut{"real value of a bit-level float needed"};
}
static Z3_sort fsort(unsigned w) { if (w == 32) return sF32; if (w == 64) return sF64; throw PathCut{"fp width"}; }
E fpOf(Val const& v) {
  if (v.k == K::F) return v.e;
  if (v.k == K::CF) return E(v.w == 32 ? Z3_mk_fpa_numeral_float(Z, (float)v.ld, sF32) : Z3_mk_fpa_numeral_double(Z, (double)v.ld, fsort(v.w)));
  if (v.k == K::S || v.k == K::C) return E(Z3_mk_fpa_to_fp_bv(Z, bvOf(v), fsort(v.w)));
  if (v.k == K::Undef) return fpOf(Val::Flt(0, v.w));
  throw PathCut{"IEEE value of an exact real needed"};
}
Val bitsToFp(Val const& a, unsigned fw) {
  if (a.k == K::C) {
    if (fw == 32) { uint32_t u = (uint32_t)a.c; float f; memcpy(&f, &u, 4); return Val::Flt(f, 32); }
    if (fw == 64) { double f; memcpy(&f, &a.c, 8); return Val::Flt(f, 64); }
    throw PathCut{"fp80 bits"};
  }
  if (a.k == K::R || a.k == K::F || a.k == K::CF) return a;
  if (a.k == K::Undef) return Val::Flt(0, fw);
  Val r = a; r.w = fw;  // K::S bits, interpreted lazily
  if (a.k == K::I) { r = Val::Sym(bvOf(a), fw); }
  return r;
}
Val fpToBits(Val const& a) {
  if (a.k == K::CF) {
    if (std::isnan(a.ld)) { if (a.w == 32) return Val::Int(0x7fc00000u, 32); return Val::Int(0x7ff8000000000000ull, 64); }
    if (a.w == 32) { float f = (float)a.ld; uint32_t u; memcpy(&u, &f, 4); return Val::Int(u, 32); }
    if (a.w == 64) { double f = (double)a.ld; uint64_t u; memcpy(&u, &f, 8); return Val::Int(u, 64); }
    return a;
  }
  if (a.k == K::F) return fromBV(E(Z3_mk_fpa_to_ieee_bv(Z, a.e)), a.w);
  return a;
}
// ---- named sums -----------------------------------------------------------------
// A sum with a nonlinear term gets a name, so that a value which is computed once and used in many places (the x of a
// converted vector) is one variable to the solver.  The name is found by the expanded polynomial up to a factor: the same
// polynomial computed in another way is the same name.  A query is tried with the names opaque first (only "unsat" is
// believed then), and with every name replaced by its definition afterwards.
struct Let { E atom, def, som; bool base; };
static std::vector<Let> lets; static std::unordered_map<unsigned, size_t> letOfAtom, letOfSom; static bool letsOn = !getenv("SX_NOLETS");
static Z3_decl_kind opk(Z3_ast x) { return Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, x))); }
static std::unordered_map<unsigned, E> unfoldMemo[3]; static std::vector<E> unfoldKeep;
// how: 0 = only the names whose definition has names in it, 1 = every name, by definition, 2 = every name, by its polynomial
static E unfoldW(E const& e0, int how) {
  if (lets.empty()) return e0;
  auto& M = unfoldMemo[how]; std::vector<E> st{e0};
  while (!st.empty()) {
    E x = st.back(); unsigned i0 = Z3_get_ast_id(Z, x);
    if (M.count(i0)) { st.pop_back(); continue; }
    if (Z3_get_ast_kind(Z, x) != Z3_APP_AST) { M[i0] = x; unfoldKeep.push_back(x); st.pop_back(); continue; }
    Z3_app a = Z3_to_app(Z, x); unsigned n = Z3_get_app_num_args(Z, a);
    if (n == 0) {
      auto it = letOfAtom.find(i0); E r = x;
      if (it != letOfAtom.end()) {
        Let& L = lets[it->second];
        if (how == 2) r = L.som;
        else if (how == 1 || !L.base) { auto f = M.find(Z3_get_ast_id(Z, L.def)); if (f == M.end()) { st.push_back(L.def); continue; } r = f->second; }
      }
      M[i0] = r; unfoldKeep.push_back(x); st.pop_back(); continue;
    }
    bool ready = true; std::vector<Z3_ast> na(n); bool ch = false;
    for (unsigned i = 0; i < n; i++) {
      Z3_ast y = Z3_get_app_arg(Z, a, i); auto f = M.find(Z3_get_ast_id(Z, y));
      if (f == M.end()) { st.push_back(E(y)); ready = false; } else { na[i] = f->second; if (na[i] != y) ch = true; }
    }
    if (!ready) continue;
    M[i0] = ch ? E(Z3_update_term(Z, x, n, na.data())) : x; unfoldKeep.push_back(x); st.pop_back();
  }
  return M[Z3_get_ast_id(Z, e0)];
}
E unfoldHidden(E const& e) { return unfoldW(e, 0); }
E unfold(E const& e) { return unfoldW(e, 1); }
bool haveLets() { return !lets.empty(); }
static E somOf(E const& e) { return simpSom(unfoldW(e, 2)); }
static bool onlyPoly(E const& e) {  // + and * over constants: no ite, no integer conversion
  std::set<unsigned> seen; std::vector<E> w{e};
  while (!w.empty()) {
    E x = w.back(); w.pop_back(); if (isNum(x) || !seen.insert(Z3_get_ast_id(Z, x)).second) continue;
    if (seen.size() > 4000 || Z3_get_ast_kind(Z, x) != Z3_APP_AST) return false;
    Z3_app a = Z3_to_app(Z, x); unsigned n = Z3_get_app_num_args(Z, a); if (n == 0) continue;
    auto k = opk(x); if (k == Z3_OP_TO_REAL) continue; if (k != Z3_OP_ADD && k != Z3_OP_MUL && k != Z3_OP_SUB && k != Z3_OP_UMINUS) return false;
    for (unsigned i = 0; i < n; i++) w.push_back(E(Z3_get_app_arg(Z, a, i)));
  }
  return true;
}
static bool hasLet(E const& e) {
  std::set<unsigned> seen; std::vector<E> w{e};
  while (!w.empty()) {
    E x = w.back(); w.pop_back(); if (!seen.insert(Z3_get_ast_id(Z, x)).second || Z3_get_ast_kind(Z, x) != Z3_APP_AST) continue;
    if (letOfAtom.count(Z3_get_ast_id(Z, x))) return true;
    Z3_app a = Z3_to_app(Z, x); for (unsigned i = 0; i < Z3_get_app_num_args(Z, a); i++) w.push_back(E(Z3_get_app_arg(Z, a, i)));
  }
  return false;
}
// equalities proved on the current path: a product (up to a factor) -> the value it was shown to be equal to
std::unordered_map<unsigned, E>* curAlias = nullptr; static std::vector<E> aliasKeep;
static bool monomial(E const& s, E& co, E& key) {
  if (isNum(s) || Z3_get_ast_kind(Z, s) != Z3_APP_AST || opk(s) != Z3_OP_MUL) return false;
  Z3_app m = Z3_to_app(Z, s); unsigned n = Z3_get_app_num_args(Z, m); co = numR("1"); key = s;
  E f = E(Z3_get_app_arg(Z, m, 0));
  if (isNum(f)) { co = f; key = simpSom(E(Z3_mk_mul(Z, 2, (Z3_ast[]){simp(E(Z3_mk_div(Z, numR("1"), f))), s}))); }
  return !isNum(key) && Z3_get_ast_kind(Z, key) == Z3_APP_AST && opk(key) == Z3_OP_MUL;
}
void learnEqual(std::unordered_map<unsigned, E>& al, E const& x, E const& y) {
  if (!letsOn || !onlyPoly(x) || !onlyPoly(y)) return;
  E co, key; if (!monomial(somOf(x), co, key)) return;
  E v = simp(E(Z3_mk_mul(Z, 2, (Z3_ast[]){simp(E(Z3_mk_div(Z, numR("1"), co))), y})));
  E c2, k2; if (monomial(somOf(v), c2, k2) && k2.a == key.a) return;
  aliasKeep.push_back(key); al.emplace(Z3_get_ast_id(Z, key), v);
}
// products of roots, quotients and the sine and cosine of an inverse function are shortened: b*(1/b) = 1, h*sin(atan2(a,b)) = a
// and h*cos(atan2(a,b)) = b for h = sqrt(a*a+b*b), r*sqrt(1-(z/r)^2) = sqrt(r*r-z*z) for a root r
static std::unordered_map<unsigned, E> invArg, rootArg, coArg; static std::unordered_map<unsigned, std::pair<E, E>> polar;
static E sqrtE(E t0, bool known);
static void factors(E const& e, std::vector<E>& f, E& co) {
  if (isNum(e)) { co = simp(mul2(co, e)); return; }
  if (Z3_get_ast_kind(Z, e) == Z3_APP_AST && opk(e) == Z3_OP_MUL) { Z3_app a = Z3_to_app(Z, e); for (unsigned i = 0; i < Z3_get_app_num_args(Z, a); i++) factors(E(Z3_get_app_arg(Z, a, i)), f, co); return; }
  if (Z3_get_ast_kind(Z, e) == Z3_APP_AST && opk(e) == Z3_OP_POWER) { Z3_app a = Z3_to_app(Z, e); E b = E(Z3_get_app_arg(Z, a, 0)), n = E(Z3_get_app_arg(Z, a, 1)); int64_t p, q; if (isNum(n) && Z3_get_numeral_rational_int64(Z, n, &p, &q) && q == 1 && p > 0 && p <= 8) { for (int i = 0; i < p; i++) factors(b, f, co); return; } }
  f.push_back(e);
}
static E product(std::vector<E> const& f, E const& co) { E r = co; for (auto& x : f) r = mul2(r, x); return simp(r); }
static bool takeAll(std::vector<E>& f, std::vector<E> const& need) {  // removes need from f when all of it is there
  std::vector<E> g = f; for (auto& n : need) { bool ok = false; for (size_t i = 0; i < g.size(); i++) if (g[i].a == n.a) { g.erase(g.begin() + i); ok = true; break; } if (!ok) return false; } f = g; return true;
}
static E shorten(E const& e) {
  if (invArg.empty() && polar.empty()) return e;
  if (isNum(e) || Z3_get_ast_kind(Z, e) != Z3_APP_AST || opk(e) != Z3_OP_MUL) return e;
  std::vector<E> f; E co = numR("1"); factors(e, f, co); if (f.size() > 12) return e;
  bool any = false;
  for (int round = 0; round < 20; round++) {
    bool ch = false;
    for (size_t i = 0; i < f.size() && !ch; i++) {
      unsigned k = Z3_get_ast_id(Z, f[i]);
      if (auto it = invArg.find(k); it != invArg.end()) {
        std::vector<E> nb; E nc = numR("1"); factors(it->second, nb, nc); std::vector<E> rest = f; rest.erase(rest.begin() + i);
        if (takeAll(rest, nb)) { f = rest; co = simp(E(Z3_mk_div(Z, co, nc))); ch = true; break; }
        for (size_t j = 0; j < rest.size() && !ch; j++) {  // every term of a sum has the divisor as a factor
          auto lt = letOfAtom.find(Z3_get_ast_id(Z, rest[j])); E s = lt != letOfAtom.end() ? lets[lt->second].som : rest[j];
          if (isNum(s) || Z3_get_ast_kind(Z, s) != Z3_APP_AST || opk(s) != Z3_OP_ADD) continue;
          Z3_app sa = Z3_to_app(Z, s); unsigned sn = Z3_get_app_num_args(Z, sa); if (sn > 60) continue; E sum = numR("0"); bool ok = true;
          for (unsigned q = 0; q < sn && ok; q++) { std::vector<E> tf; E tc = numR("1"); factors(E(Z3_get_app_arg(Z, sa, q)), tf, tc); ok = takeAll(tf, nb); if (ok) sum = add2(sum, product(tf, tc)); }
          if (!ok) continue; rest.erase(rest.begin() + j); sum = simpSom(sum); f = rest; co = simp(E(Z3_mk_div(Z, co, nc))); factors(sum, f, co); ch = true;
        }
        if (ch) break;
      }
      if (auto it = polar.find(k); it != polar.end()) {
        std::vector<E> rest = f; rest.erase(rest.begin() + i);
        if (takeAll(rest, {it->second.first})) { f = rest; factors(it->second.second, f, co); ch = true; break; }
      }
      if (auto it = coArg.find(k); it != coArg.end()) {
        std::vector<E> ub; E uc = numR("1"); factors(it->second, ub, uc); 
        for (size_t j = 0; j < ub.size() && !ch; j++) {
          auto v = invArg.find(Z3_get_ast_id(Z, ub[j])); if (v == invArg.end()) continue;
          auto ra = rootArg.find(Z3_get_ast_id(Z, v->second)); if (ra == rootArg.end()) continue;
          std::vector<E> rest = f; rest.erase(rest.begin() + i); if (!takeAll(rest, {v->second})) continue;
          std::vector<E> zb = ub; zb.erase(zb.begin() + j); E z = product(zb, uc);
          f = rest; factors(sqrtE(sub2(ra->second, mul2(z, z)), true), f, co); ch = true;
        }
      }
    }
    if (!ch) break; any = true;
  }
  return any ? product(f, co) : e;
}
static Val fromReal(E e0, unsigned w) {
  E e = shorten(simp(e0));
  if (curAlias && !curAlias->empty() && onlyPoly(e)) {
    E co, key; if (monomial(somOf(e), co, key)) { auto it = curAlias->find(Z3_get_ast_id(Z, key)); if (it != curAlias->end()) e = simp(E(Z3_mk_mul(Z, 2, (Z3_ast[]){co, it->second}))); }
  }
  if (!letsOn || isNum(e) || Z3_get_ast_kind(Z, e) != Z3_APP_AST || opk(e) != Z3_OP_ADD || !onlyPoly(e)) return Val::Real(e, w);
  E s = somOf(e);
  if (isNum(s) || opk(s) != Z3_OP_ADD) return Val::Real(s, w);
  Z3_app a = Z3_to_app(Z, s); unsigned n = Z3_get_app_num_args(Z, a); if (n > 120) return Val::Real(e, w);
  bool nonlin = false; E lead;
  for (unsigned i = 0; i < n; i++) {
    E t = E(Z3_get_app_arg(Z, a, i)); if (isNum(t)) continue; E co = numR("1"); bool nl = false;
    if (opk(t) == Z3_OP_MUL) { Z3_app m = Z3_to_app(Z, t); unsigned k = Z3_get_app_num_args(Z, m); E f = E(Z3_get_app_arg(Z, m, 0)); if (isNum(f)) { co = f; k--; } nl = k > 1 || (k == 1 && opk(E(Z3_get_app_arg(Z, m, Z3_get_app_num_args(Z, m) - 1))) == Z3_OP_MUL); }
    else if (opk(t) == Z3_OP_POWER) nl = true;
    if (nl) nonlin = true; if (!lead) lead = co;
  }
  if (!nonlin) return Val::Real(e, w);
  E inv = simp(E(Z3_mk_div(Z, numR("1"), lead))); bool unit = std::string(Z3_get_numeral_string(Z, lead)) == "1";
  if (!unit) s = simpSom(E(Z3_mk_mul(Z, 2, (Z3_ast[]){inv, s})));
  unsigned key = Z3_get_ast_id(Z, s); auto it = letOfSom.find(key); size_t ix;
  if (it != letOfSom.end()) ix = it->second;
  else {
    Let L; L.atom = mkFreshReal("let"); L.def = unit ? e : simp(E(Z3_mk_mul(Z, 2, (Z3_ast[]){inv, e}))); L.som = s; L.base = !hasLet(L.def);
    ix = lets.size(); lets.push_back(L); letOfSom[key] = ix; letOfAtom[Z3_get_ast_id(Z, L.atom)] = ix;
  }
  return Val::Real(unit ? lets[ix].atom : simp(E(Z3_mk_mul(Z, 2, (Z3_ast[]){lead, lets[ix].atom}))), w);
}

// ---- definitional atoms -------------------------------------------------------
static std::unordered_map<unsigned, std::vector<E>> atomDefs;   // ast id of const -> constraints
static std::vector<AngKey> angs;                                // registered angles
static std::unordered_map<unsigned, size_t> angIdx;             // ast id of angle term -> index
std::vector<AngKey> const& angleKeys() { return angs; }
static unsigned id(E const& e) { return Z3_get_ast_id(Z, e); }
static void addDef(E const& atom, E const& c) { atomDefs[id(atom)].push_back(c); }
static std::map<std::pair<std::string, std::pair<unsigned, unsigned>>, E> memo;
static std::vector<E> memoKeep;
static E PIE() { return numR(std::string(PI_NUM) + "/" + PI_DEN); }
static E halfPI() { return simp(E(Z3_mk_div(Z, PIE(), numR("2")))); }
static E neg(E const& a) { return E(Z3_mk_unary_minus(Z, a)); }
static E ge(E const& a, E const& b) { return E(Z3_mk_ge(Z, a, b)); }
static E gt(E const& a, E const& b) { return E(Z3_mk_gt(Z, a, b)); }
static E impl(E const& a, E const& b) { return E(Z3_mk_implies(Z, a, b)); }

static E floorE(E const& x0); 
bool linTerm(E const& e0, i128& c, i128& k, E& t);
static E sqrtE(E t0) { return sqrtE(t0, false); }
static E sqrtE(E t0, bool known) {
  E t = somOf(t0);
  if (isNum(t)) {
    std::string s = Z3_get_numeral_string(Z, t);
    if (s == "0" || s == "1") return t;
  }
  if (!known) pendingDomain.push_back(ge(letsOn ? t0 : t, numR("0")));
  auto key = std::make_pair(std::string("sqrt"), std::make_pair(id(t), 0u));
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  memoKeep.push_back(t);
  E v = mkFreshReal("sqrt");
  addDef(v, ge(v, numR("0"))); addDef(v, eEq(mul2(v, v), letsOn ? t0 : t));
  rootArg[id(v)] = letsOn ? t0 : t; memo[key] = v; return v;
}
static E divE(E const& a, E const& b0) {
  E b = simp(b0); if (letsOn && onlyPoly(b)) { E k = somOf(b); if (isNum(k)) b = k; }
  if (isNum(b)) {
    if (std::string(Z3_get_numeral_string(Z, b)) == "0") throw PathCut{"real division by zero"};
    return simp(mul2(a, simp(E(Z3_mk_div(Z, numR("1"), b)))));
  }
  E as = simp(a);
  if (isNum(as) && std::string(Z3_get_numeral_string(Z, as)) == "0") { pendingDomain.push_back(eNot(eEq(b, numR("0")))); return as; }
  pendingDomain.push_back(eNot(eEq(b, numR("0"))));
  // a/b = a * inv(b)
  auto key = std::make_pair(std::string("inv"), std::make_pair(id(b), 0u));
  auto it = memo.find(key); E inv;
  if (it != memo.end()) inv = it->second;
  else { memoKeep.push_back(b); inv = mkFreshReal("inv"); addDef(inv, eEq(mul2(inv, b), numR("1"))); memo[key] = inv; invArg[id(inv)] = b; }
  return shorten(simp(mul2(as, inv)));
}

struct Lin { std::vector<std::pair<E, E>> t; E c; };  // (coef numeral, atom)
static Lin linOf(E e0) {
  E e = somOf(e0); Lin L; L.c = numR("0");
  std::vector<E> work{e};
  auto op = [](E const& x) { return Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, x))); };
  while (!work.empty()) {
    E x = work.back(); work.pop_back();
    if (isNum(x)) { L.c = simp(add2(L.c, x)); continue; }
    if (Z3_get_ast_kind(Z, x) == Z3_APP_AST) {
      Z3_app a = Z3_to_app(Z, x); unsigned n = Z3_get_app_num_args(Z, a);
      if (op(x) == Z3_OP_ADD) { for (unsigned i = 0; i < n; i++) work.push_back(E(Z3_get_app_arg(Z, a, i))); continue; }
      if (op(x) == Z3_OP_MUL && n >= 2) {
        E f = E(Z3_get_app_arg(Z, a, 0));
        if (isNum(f)) {
          std::vector<Z3_ast> rest; for (unsigned i = 1; i < n; i++) rest.push_back(Z3_get_app_arg(Z, a, i));
          E r = rest.size() == 1 ? E(rest[0]) : E(Z3_mk_mul(Z, rest.size(), rest.data()));
          L.t.push_back({f, r}); continue;
        }
      }
    }
    L.t.push_back({numR("1"), x});
  }
  return L;
}
static bool numNeg(E const& n) { return Z3_get_numeral_string(Z, n)[0] == '-'; }
struct SC { E s, c; };
static SC angOf(E t0);
static SC angAtom(E t) {  // t positive-coefficient single atom (or opaque constant)
  auto it = angIdx.find(id(t));
  if (it != angIdx.end()) return {angs[it->second].s, angs[it->second].c};
  E s = mkFreshReal("sin"), c = mkFreshReal("cos");
  E one = eEq(add2(mul2(s, s), mul2(c, c)), numR("1"));
  addDef(s, one); addDef(c, one);
  if (isNum(t)) {
    double v = Z3_get_numeral_double(Z, t);
    char b[64];
    auto near = [&](E const& x, double val) {
      snprintf(b, sizeof b, "%.17e", val - 1e-15); addDef(x, ge(x, numR(decimalToRational(b))));
      snprintf(b, sizeof b, "%.17e", val + 1e-15); addDef(x, ge(numR(decimalToRational(b)), x)); };
    near(s, sin(v)); near(c, cos(v));
  }
  angIdx[id(t)] = angs.size(); angs.push_back({t, s, c});
  return {s, c};
}
static SC angOf(E t0) {
  Lin L = linOf(t0);
  // constant offset: multiple of pi/2
  E k = simp(E(Z3_mk_div(Z, L.c, halfPI())));
  std::string ks = Z3_get_numeral_string(Z, k);
  bool mult = ks.find('/') == std::string::npos && ks.size() < 12;
  long q = mult ? (((atol(ks.c_str()) % 4) + 4) % 4) : 0;
  SC r; bool have = false;
  auto comb = [&](SC const& x) {
    if (!have) { r = x; have = true; return; }
    E s = add2(mul2(r.s, x.c), mul2(r.c, x.s)), c = sub2(mul2(r.c, x.c), mul2(r.s, x.s));
    r = {simp(s), simp(c)};
  };
  std::sort(L.t.begin(), L.t.end(), [](auto& a, auto& b) { return id(a.second) < id(b.second); });
  for (auto& [co, at] : L.t) {
    bool ng = numNeg(co);
    E pc = ng ? simp(neg(co)) : co;
    E term = simp(mul2(pc, at));
    SC x = angAtom(term);
    if (ng) x.s = simp(neg(x.s));
    comb(x);
  }
  if (!mult) comb(angAtom(L.c));
  if (!have) { r = {numR("0"), numR("1")}; }
  switch (q) {
    case 1: return {r.c, simp(neg(r.s))};
    case 2: return {simp(neg(r.s)), simp(neg(r.c))};
    case 3: return {simp(neg(r.c)), r.s};
  }
  return r;
}
static E invTrig(std::string const& fn, E a0, E b0 = E()) {
  E a = somOf(a0), b = b0 ? somOf(b0) : E();
  if (fn == "asin" || fn == "acos") { E q = letsOn ? simp(a0) : a; pendingDomain.push_back(eAnd({ge(numR("1"), q), ge(q, numR("-1"))})); }
  auto key = std::make_pair(fn, std::make_pair(id(a), b ? id(b) : 0u));
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  memoKeep.push_back(a); if (b) memoKeep.push_back(b);
  if (letsOn) { a = simp(a0); if (b) b = simp(b0); }
  E A = mkFreshReal(fn.c_str()); E zero = numR("0"), one = numR("1");
  E s, c;
  if (fn == "asin") {
    s = a; c = sqrtE(sub2(one, mul2(a, a)), true); if (!isNum(c)) coArg[id(c)] = a;
    addDef(A, ge(A, neg(halfPI()))); addDef(A, ge(halfPI(), A));
    addDef(A, ge(one, a)); addDef(A, ge(a, numR("-1")));
    addDef(A, impl(gt(a, zero), gt(A, zero))); addDef(A, impl(gt(zero, a), gt(zero, A))); addDef(A, impl(eEq(a, zero), eEq(A, zero)));
  } else if (fn == "acos") {
    c = a; s = sqrtE(sub2(one, mul2(a, a)), true); if (!isNum(s)) coArg[id(s)] = a;
    addDef(A, ge(A, zero)); addDef(A, ge(PIE(), A));
    addDef(A, ge(one, a)); addDef(A, ge(a, numR("-1")));
    addDef(A, impl(gt(a, zero), gt(halfPI(), A))); addDef(A, impl(gt(zero, a), gt(A, halfPI()))); addDef(A, impl(eEq(a, zero), eEq(A, halfPI())));
  } else if (fn == "atan") {
    c = mkFreshReal("atc"); s = simp(mul2(a, c));
    addDef(c, gt(c, zero)); addDef(c, eEq(mul2(mul2(c, c), add2(one, mul2(a, a))), one));
    addDef(A, gt(A, neg(halfPI()))); addDef(A, gt(halfPI(), A));
    addDef(A, impl(gt(a, zero), gt(A, zero))); addDef(A, impl(gt(zero, a), gt(zero, A))); addDef(A, impl(eEq(a, zero), eEq(A, zero)));
  } else {  // atan2(y=a, x=b)
    E h = sqrtE(add2(mul2(a, a), mul2(b, b)), true);
    s = mkFreshReal("ats"); c = mkFreshReal("atc");
    E d1 = eEq(mul2(h, s), a), d2 = eEq(mul2(h, c), b), d3 = eEq(add2(mul2(s, s), mul2(c, c)), one);
    E d4 = impl(eEq(h, zero), eAnd({eEq(s, zero), eEq(c, one), eEq(A, zero)}));
    if (!isNum(h)) { polar[id(s)] = {h, a}; polar[id(c)] = {h, b}; }
    for (E const& x : {s, c}) { addDef(x, d1); addDef(x, d2); addDef(x, d3); addDef(x, d4); }
    addDef(A, d4);
    addDef(A, ge(A, neg(PIE()))); addDef(A, ge(PIE(), A));
    addDef(A, impl(gt(a, zero), eAnd({gt(A, zero), gt(PIE(), A)})));
    addDef(A, impl(gt(zero, a), eAnd({gt(zero, A), gt(A, neg(PIE()))})));
    addDef(A, impl(eAnd({eEq(a, zero), gt(b, zero)}), eEq(A, zero)));
    addDef(A, impl(eAnd({eEq(a, zero), gt(zero, b)}), eEq(A, PIE())));
    addDef(A, impl(eAnd({gt(b, zero)}), eAnd({gt(A, neg(halfPI())), gt(halfPI(), A)})));
  }
  angIdx[id(A)] = angs.size(); angs.push_back({A, s, c});
  memo[key] = A; return A;
}

void collectDefs(std::vector<E> const& roots, std::vector<E>& defs) {
  std::set<unsigned> seen; std::vector<E> work(roots); std::set<unsigned> have;
  while (!work.empty()) {
    E x = work.back(); work.pop_back();
    if (!seen.insert(id(x)).second) continue;
    if (Z3_get_ast_kind(Z, x) != Z3_APP_AST) continue;
    Z3_app a = Z3_to_app(Z, x); unsigned n = Z3_get_app_num_args(Z, a);
    if (n == 0) {
      auto it = atomDefs.find(id(x));
      if (it != atomDefs.end()) for (auto& d : it->second) if (have.insert(id(d)).second) { defs.push_back(d); work.push_back(d); }
    } else for (unsigned i = 0; i < n; i++) work.push_back(E(Z3_get_app_arg(Z, a, i)));
  }
}
void collectAngleAxioms(std::vector<E> const& roots, std::vector<E>& ax) {
  std::set<unsigned> seen; std::vector<E> work(roots);
  while (!work.empty()) {
    E x = work.back(); work.pop_back();
    if (!seen.insert(id(x)).second) continue;
    if (Z3_get_ast_kind(Z, x) != Z3_APP_AST) continue;
    Z3_app a = Z3_to_app(Z, x); unsigned n = Z3_get_app_num_args(Z, a);
    for (unsigned i = 0; i < n; i++) work.push_back(E(Z3_get_app_arg(Z, a, i)));
  }
  std::vector<AngKey*> used;
  auto isAtom = [](E const& e) { return Z3_get_ast_kind(Z, e) == Z3_APP_AST && Z3_get_app_num_args(Z, Z3_to_app(Z, e)) == 0; };
  for (auto& k : angs) {
    bool u = seen.count(id(k.t)) || (isAtom(k.s) && seen.count(id(k.s))) || (isAtom(k.c) && seen.count(id(k.c)));
    if (!u) { // scaled input angle: does its variable occur?
      Lin L = linOf(k.t); for (auto& p : L.t) if (seen.count(id(p.second)) && seen.count(id(k.s))) u = true;
    }
    // the inverse of a partial function brings its domain with it: only where it was evaluated, that is where its value occurs
    if (u && !seen.count(id(k.t)) && isAtom(k.t)) { Z3_symbol y = Z3_get_decl_name(Z, Z3_get_app_decl(Z, Z3_to_app(Z, k.t))); std::string nm = Z3_get_symbol_kind(Z, y) == Z3_STRING_SYMBOL ? Z3_get_symbol_string(Z, y) : ""; if (nm.rfind("acos", 0) == 0 || nm.rfind("asin", 0) == 0) u = false; }
    if (u) used.push_back(&k);
  }
  E zero = numR("0");
  for (auto* k : used) {
    E t = k->t;
    ax.push_back(impl(eAnd({ge(t, neg(halfPI())), ge(halfPI(), t)}), ge(k->c, zero)));
    ax.push_back(impl(eAnd({ge(t, zero), ge(PIE(), t)}), ge(k->s, zero)));
    ax.push_back(impl(eAnd({ge(t, neg(PIE())), ge(zero, t)}), ge(zero, k->s)));
    ax.push_back(impl(eEq(t, zero), eAnd({eEq(k->s, zero), eEq(k->c, numR("1"))})));
  }
  E tp = simp(mul2(PIE(), numR("2")));
  for (size_t i = 0; i < used.size(); i++) for (size_t j = i + 1; j < used.size(); j++) {
    auto *a = used[i], *b = used[j];
    E d = sub2(a->t, b->t);
    ax.push_back(impl(eAnd({eEq(a->s, b->s), eEq(a->c, b->c), gt(d, neg(tp)), gt(tp, d)}), eEq(a->t, b->t)));
  }
}

// ---- floating point ops ---------------------------------------------------------
static bool anyReal(Val const& a, Val const& b) { return a.k == K::R || b.k == K::R; }
static long double rnd(long double v, unsigned w) { return w == 32 ? (long double)(float)v : w == 64 ? (long double)(double)v : v; }
Val fop(FOp op, Val const& a, Val const& b) {
  unsigned w = std::max(a.w, b.w);
  if (a.k == K::Undef) return fop(op, Val::Flt(0, b.w), b);
  if (b.k == K::Undef) return fop(op, a, Val::Flt(0, a.w));
  if (a.k == K::CF && b.k == K::CF) {
    if (w == 64) { double x = a.ld, y = b.ld, r; switch (op) { case FOp::Add: r = x + y; break; case FOp::Sub: r = x - y; break; case FOp::Mul: r = x * y; break; case FOp::Div: r = x / y; break; default: r = fmod(x, y); } return Val::Flt(r, 64); }
    if (w == 32) { float x = a.ld, y = b.ld, r; switch (op) { case FOp::Add: r = x + y; break; case FOp::Sub: r = x - y; break; case FOp::Mul: r = x * y; break; case FOp::Div: r = x / y; break; default: r = fmodf(x, y); } return Val::Flt(r, 32); }
    long double x = a.ld, y = b.ld, r; switch (op) { case FOp::Add: r = x + y; break; case FOp::Sub: r = x - y; break; case FOp::Mul: r = x * y; break; case FOp::Div: r = x / y; break; default: r = fmodl(x, y); } return Val::Flt(r, w);
  }
  if (anyReal(a, b)) {
    E x = realOf(a), y = realOf(b);
    switch (op) {
      case FOp::Add: return fromReal(add2(x, y), w);
      case FOp::Sub: return fromReal(sub2(x, y), w);
      case FOp::Mul: return fromReal(mul2(x, y), w);
      case FOp::Div: return fromReal(divE(x, y), w);
      case FOp::Rem: { if (!isNum(y)) throw PathCut{"frem"};
        E q = E(Z3_mk_div(Z, x, y)); E fl = E(Z3_mk_int2real(Z, floorE(q))); E ce = neg(E(Z3_mk_int2real(Z, floorE(neg(q)))));
        E t = eIte(ge(q, numR("0")), fl, ce); return fromReal(sub2(x, mul2(y, t)), w); }
    }
  }
  E x = fpOf(a), y = fpOf(b); Z3_ast r = nullptr;
  switch (op) {
    case FOp::Add: r = Z3_mk_fpa_add(Z, rne, x, y); break;
    case FOp::Sub: r = Z3_mk_fpa_sub(Z, rne, x, y); break;
    case FOp::Mul: r = Z3_mk_fpa_mul(Z, rne, x, y); break;
    case FOp::Div: r = Z3_mk_fpa_div(Z, rne, x, y); break;
    case FOp::Rem: throw PathCut{"fp frem"};
  }
  return Val::Fp(simp(E(r)), w);
}
Val fneg(Val const& a) {
  if (a.k == K::CF) return Val::Flt(-a.ld, a.w);
  if (a.k == K::R) return fromReal(neg(a.e), a.w);
  if (a.k == K::Undef) return Val::Flt(0, a.w);
  return Val::Fp(simp(E(Z3_mk_fpa_neg(Z, fpOf(a)))), a.w);
}
// sign of a linear combination of integers, by their intervals: 1, -1, or 0 for not known
static int linSign(E const& d) {
  E s = simp(d); if (Z3_get_ast_kind(Z, s) != Z3_APP_AST || isNum(s)) return 0;
  std::vector<E> ts; if (opk(s) == Z3_OP_ADD) { if (Z3_get_app_num_args(Z, Z3_to_app(Z, s)) > 12) return 0; for (unsigned i = 0; i < Z3_get_app_num_args(Z, Z3_to_app(Z, s)); i++) ts.push_back(E(Z3_get_app_arg(Z, Z3_to_app(Z, s), i))); } else ts.push_back(s);
  long double lo = 0, hi = 0, ab = 1;
  for (auto& t : ts) {
    E co = numR("1"), v = t; if (isNum(t)) { co = t; v = E(); }
    else if (opk(t) == Z3_OP_MUL && Z3_get_app_num_args(Z, Z3_to_app(Z, t)) == 2 && isNum(E(Z3_get_app_arg(Z, Z3_to_app(Z, t), 0)))) { co = E(Z3_get_app_arg(Z, Z3_to_app(Z, t), 0)); v = E(Z3_get_app_arg(Z, Z3_to_app(Z, t), 1)); }
    int64_t p, q; if (!Z3_get_numeral_rational_int64(Z, co, &p, &q)) return 0; long double c = (long double)p / q;
    if (!v) { lo += c; hi += c; ab += fabsl(c); continue; }
    if (Z3_get_ast_kind(Z, v) != Z3_APP_AST || opk(v) != Z3_OP_TO_REAL) return 0;
    i128 l, h; if (!ivOf(E(Z3_get_app_arg(Z, Z3_to_app(Z, v), 0)), l, h)) return 0;
    long double u = c * l, w = c * h; lo += std::min(u, w); hi += std::max(u, w); ab += std::max(fabsl(u), fabsl(w));
  }
  if (lo > ab * 1e-12L) return 1; if (hi < -ab * 1e-12L) return -1; return 0;
}
Val fcmp(unsigned p, Val const& a, Val const& b) {
  if (p == 0) return Val::Int(0, 1);
  if (p == 15) return Val::Int(1, 1);
  bool ord = p < 8; unsigned q = p & 7;  // q: 1 eq 2 gt 3 ge 4 lt 5 le 6 ne 7 ord / (8+q: u-variants; 8 = uno)
  if (a.k == K::CF && b.k == K::CF) {
    long double x = a.ld, y = b.ld; bool un = std::isnan(x) || std::isnan(y); bool r;
    if (p == 7) r = !un; else if (p == 8) r = un;
    else { switch (q) { case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; default: r = !un && x != y; } if (!ord) r = r || un; }
    return Val::Int(r, 1);
  }
  if (anyReal(a, b)) {
    if (p == 7) return Val::Int(1, 1); if (p == 8) return Val::Int(0, 1);
    // comparisons with infinities
    if ((a.k == K::CF && std::isinf(a.ld)) || (b.k == K::CF && std::isinf(b.ld))) {
      long double x = a.k == K::CF ? a.ld : 0, y = b.k == K::CF ? b.ld : 0; bool r;
      switch (q) { case 1: r = false; break; case 2: case 3: r = x > y; break; case 4: case 5: r = x < y; break; default: r = true; }
      return Val::Int(r, 1);
    }
    E x = realOf(a), y = realOf(b);
    if (int sg = linSign(E(Z3_mk_sub(Z, 2, (Z3_ast[]){x, y})))) { bool r; switch (q) { case 1: r = false; break; case 2: case 3: r = sg > 0; break; case 4: case 5: r = sg < 0; break; default: r = true; } return Val::Int(r, 1); }
    switch (q) {
      case 1: return fromBool(eEq(x, y));
      case 2: return fromBool(gt(x, y));
      case 3: return fromBool(ge(x, y));
      case 4: return fromBool(gt(y, x));
      case 5: return fromBool(ge(y, x));
      default: return fromBool(eNot(eEq(x, y)));
    }
  }
  E x = fpOf(a), y = fpOf(b);
  E un = E(Z3_mk_or(Z, 2, (Z3_ast[]){E(Z3_mk_fpa_is_nan(Z, x)), E(Z3_mk_fpa_is_nan(Z, y))}));
  if (p == 7) return fromBool(eNot(un));
  if (p == 8) return fromBool(un);
  E r;
  switch (q) {
    case 1: r = E(Z3_mk_fpa_eq(Z, x, y)); break;
    case 2: r = E(Z3_mk_fpa_gt(Z, x, y)); break;
    case 3: r = E(Z3_mk_fpa_geq(Z, x, y)); break;
    case 4: r = E(Z3_mk_fpa_lt(Z, x, y)); break;
    case 5: r = E(Z3_mk_fpa_leq(Z, x, y)); break;
    default: r = eAnd({eNot(un), eNot(E(Z3_mk_fpa_eq(Z, x, y)))}); break;
  }
  if (!ord) r = E(Z3_mk_or(Z, 2, (Z3_ast[]){r, un}));
  return fromBool(r);
}
Val intToFp(Val const& a, bool sgn, unsigned fw) {
  if (a.k == K::C) { if (sgn && a.w > 1) return Val::Flt((long double)sx64(a.c, a.w), fw); return Val::Flt((long double)a.c, fw); }
  if (a.k == K::Undef) return Val::Flt(0, fw);
  if (a.k == K::I) { E x; i128 l, h; if (sgn) asSigned(a, x, l, h); else asUnsigned(a, x, l, h); return fromReal(E(Z3_mk_int2real(Z, x)), fw); }
  if (a.w == 1) return Val::Fp(eIte(a.e, fpOf(Val::Flt(sgn ? -1 : 1, fw)), fpOf(Val::Flt(0, fw))), fw);
  return Val::Fp(simp(E(sgn ? Z3_mk_fpa_to_fp_signed(Z, rne, a.e, fsort(fw)) : Z3_mk_fpa_to_fp_unsigned(Z, rne, a.e, fsort(fw)))), fw);
}
// the largest integer which is not larger than x: of a linear combination of integers by integer division, otherwise a
// constant k with k <= x < k + 1
static E floorE(E const& x0) {
  E s = somOf(x0);
  if (isNum(s)) return simp(E(Z3_mk_real2int(Z, s)));
  std::vector<E> ts; if (opk(s) == Z3_OP_ADD) for (unsigned i = 0; i < Z3_get_app_num_args(Z, Z3_to_app(Z, s)); i++) ts.push_back(E(Z3_get_app_arg(Z, Z3_to_app(Z, s), i))); else ts.push_back(s);
  std::vector<std::pair<std::pair<int64_t, int64_t>, E>> lin; bool ok = true; i128 D = 1;
  for (auto& t : ts) {
    E co = numR("1"), v = t; if (isNum(t)) { co = t; v = E(); }
    else if (opk(t) == Z3_OP_MUL && Z3_get_app_num_args(Z, Z3_to_app(Z, t)) == 2 && isNum(E(Z3_get_app_arg(Z, Z3_to_app(Z, t), 0)))) { co = E(Z3_get_app_arg(Z, Z3_to_app(Z, t), 0)); v = E(Z3_get_app_arg(Z, Z3_to_app(Z, t), 1)); }
    int64_t p, q; if (!Z3_get_numeral_rational_int64(Z, co, &p, &q) || q > 1000000000L || llabs(p) > (int64_t)1e15) { ok = false; break; }
    if (v) { if (Z3_get_ast_kind(Z, v) != Z3_APP_AST || opk(v) != Z3_OP_TO_REAL) { ok = false; break; } v = E(Z3_get_app_arg(Z, Z3_to_app(Z, v), 0)); }
    lin.push_back({{p, q}, v}); i128 g = D, h = q; while (h) { i128 k = g % h; g = h; h = k; } D = D / g * q; if (D > (i128)1000000000) { ok = false; break; }
  }
  if (ok) {
    E num = numI(0); for (auto& [c, v] : lin) { i128 k = (i128)c.first * (D / c.second); num = v ? add2(num, mul2(numI(k), v)) : add2(num, numI(k)); }
    num = simp(num); if (D == 1) return num;
    { i128 c, k; E t; if (linTerm(num, c, k, t) && k == 1 && t) { auto it = quotOf.find(Z3_get_ast_id(Z, t)); if (it != quotOf.end() && (long double)it->second.second * D < 1e15L) { // floor((floor(x/d) + c)/D) = floor((x + c*d)/(d*D))
      E x = simp(add2(it->second.first, numI(c * it->second.second))); i128 l, h; if (!ivOf(x, l, h)) { l = -p2(100); h = p2(100); } E q, r; ediv(x, it->second.second * D, l, h, q, r); return simp(q); } } }
    i128 l, h; if (!ivOf(num, l, h)) { l = -p2(100); h = p2(100); } E q, r; ediv(num, D, l, h, q, r); return simp(q);
  }
  static std::unordered_map<unsigned, E> M; auto& k = M[id(s)];
  if (!k) { memoKeep.push_back(s); k = E(Z3_mk_fresh_const(Z, "floor", sInt)); E kr = E(Z3_mk_int2real(Z, k)); addDef(k, ge(x0, kr)); addDef(k, gt(E(Z3_mk_add(Z, 2, (Z3_ast[]){kr, numR("1")})), x0)); }
  return k;
}
static E truncRealToInt(E x) {
  E fl = floorE(x), ce = E(Z3_mk_unary_minus(Z, floorE(neg(x))));
  return eIte(ge(x, numR("0")), fl, ce);
}
Val fpToInt(Val const& a, bool sgn, unsigned w) {
  if (a.k == K::CF) { long double t = truncl(a.ld); if (sgn) return Val::Int((uint64_t)(int64_t)t, w); return Val::Int(t < 0 ? (uint64_t)(int64_t)t : (uint64_t)t, w); }
  if (a.k == K::Undef) return Val::Int(0, w);
  if (a.k == K::R) {
    // in-range conversion is a domain condition (out of range is undefined behaviour)
    i128 lo = sgn ? -p2(w - 1) : 0, hi = sgn ? p2(w - 1) - 1 : p2(w) - 1;
    E t = simp(truncRealToInt(a.e));
    pendingDomain.push_back(eAnd({E(Z3_mk_ge(Z, t, numI(lo))), E(Z3_mk_le(Z, t, numI(hi)))}));
    return Val::MInt(t, w, lo, hi);
  }
  E rtz = E(Z3_mk_fpa_rtz(Z));
  return fromBV(E(sgn ? Z3_mk_fpa_to_sbv(Z, rtz, fpOf(a), w) : Z3_mk_fpa_to_ubv(Z, rtz, fpOf(a), w)), w);
}
// some real within a relative distance of x; the same real for the same term
Val nearReal(Val const& a, const char* rel) {
  static std::map<std::pair<unsigned, std::string>, std::array<E, 3>> memo; auto& m = memo[{Z3_get_ast_id(Z, a.e), rel}];
  if (!m[0]) {
    m[2] = a.e; m[0] = E(Z3_mk_fresh_const(Z, "rnd", sReal)); E d = E(Z3_mk_sub(Z, 2, (Z3_ast[]){m[0], a.e})), u = E(Z3_mk_mul(Z, 2, (Z3_ast[]){numR(rel), a.e}));
    E nu = E(Z3_mk_unary_minus(Z, u)), lo = E(Z3_mk_le(Z, d, u)), hi = E(Z3_mk_ge(Z, d, nu)), lo2 = E(Z3_mk_le(Z, d, nu)), hi2 = E(Z3_mk_ge(Z, d, u));
    m[1] = eIte(E(Z3_mk_ge(Z, a.e, numR("0"))), eAnd({lo, hi}), eAnd({lo2, hi2}));
  }
  pendingDefs.push_back(m[1]); Val r = a; r.e = m[0]; return r;
}
Val fpCast(Val const& a, unsigned fw) {
  if (a.k == K::CF) return Val::Flt(rnd(a.ld, fw), fw);
  if (a.k == K::Undef) return Val::Flt(0, fw);
  if (a.k == K::R) {
    Val r = a; r.w = fw; if (fw != 32 || a.w == 32 || isNum(a.e)) return r;
    r = nearReal(a, "1/16777216"); r.w = fw; return r;   // narrowing to float
  }
  if (a.w == fw) return a;
  return Val::Fp(simp(E(Z3_mk_fpa_to_fp_float(Z, rne, fpOf(a), fsort(fw)))), fw);
}

bool mathFn(std::string const& n0, std::vector<Val> const& A, Val& out) {
  std::string n = n0;
  static const std::set<std::string> one = {"sin","cos","tan","asin","acos","atan","sqrt","fabs","floor","ceil","trunc","round","exp","log","cbrt","log10","sinh","cosh","tanh"};
  static const std::set<std::string> two = {"atan2","pow","fmod","hypot","fmax","fmin","copysign","ldexp"};
  unsigned w = 64;
  if (!one.count(n) && !two.count(n)) {
    if (n.size() > 1 && (n.back() == 'f' || n.back() == 'l')) { w = n.back() == 'f' ? 32 : 80; n.pop_back(); }
    if (!one.count(n) && !two.count(n)) return false;
  }
  if (A.empty()) return false;
  w = A[0].w;
  bool allc = true; for (auto& a : A) if (!(a.k == K::CF || a.k == K::C)) allc = false;
  if (allc) {
    long double r = 0; double x = A[0].ld, y = A.size() > 1 ? (A[1].k == K::CF ? (double)A[1].ld : (double)sx64(A[1].c, A[1].w)) : 0;
    if (w == 80) {
      long double X = A[0].ld;
      if (n == "floor") { out = Val::Flt(floorl(X), w); return true; }
      if (n == "fabs") { out = Val::Flt(fabsl(X), w); return true; }
      if (n == "sqrt") { out = Val::Flt(sqrtl(X), w); return true; }
    }
    if (w == 32) { // float versions
      float fx = x, fy = y;
      if (n == "sin") r = sinf(fx); else if (n == "cos") r = cosf(fx); else if (n == "sqrt") r = sqrtf(fx); else if (n == "atan2") r = atan2f(fx, fy); else goto dbl;
      out = Val::Flt(r, w); return true;
    }
  dbl:
    if (n == "sin") r = sin(x); else if (n == "cos") r = cos(x); else if (n == "tan") r = tan(x);
    else if (n == "asin") r = asin(x); else if (n == "acos") r = acos(x); else if (n == "atan") r = atan(x);
    else if (n == "sqrt") r = sqrt(x); else if (n == "fabs") r = fabs(x); else if (n == "floor") r = floor(x);
    else if (n == "ceil") r = ceil(x); else if (n == "trunc") r = trunc(x); else if (n == "round") r = round(x);
    else if (n == "exp") r = exp(x); else if (n == "log") r = log(x); else if (n == "log10") r = log10(x); else if (n == "cbrt") r = cbrt(x);
    else if (n == "atan2") r = atan2(x, y); else if (n == "pow") r = pow(x, y); else if (n == "fmod") r = fmod(x, y);
    else if (n == "hypot") r = hypot(x, y); else if (n == "fmax") r = fmax(x, y); else if (n == "fmin") r = fmin(x, y);
    else if (n == "copysign") r = copysign(x, y); else if (n == "ldexp") r = ldexp(x, (int)y);
    else return false;
    out = Val::Flt(r, w); return true;
  }
  bool real = false; for (auto& a : A) if (a.k == K::R) real = true;
  if (!real) {
    E x = fpOf(A[0]);
    if (n == "fabs") { out = Val::Fp(simp(E(Z3_mk_fpa_abs(Z, x))), w); return true; }
    if (n == "sqrt") { out = Val::Fp(E(Z3_mk_fpa_sqrt(Z, rne, x)), w); return true; }
    if (n == "floor") { out = Val::Fp(E(Z3_mk_fpa_round_to_integral(Z, E(Z3_mk_fpa_rtn(Z)), x)), w); return true; }
    if (n == "ceil") { out = Val::Fp(E(Z3_mk_fpa_round_to_integral(Z, E(Z3_mk_fpa_rtp(Z)), x)), w); return true; }
    if (n == "trunc") { out = Val::Fp(E(Z3_mk_fpa_round_to_integral(Z, E(Z3_mk_fpa_rtz(Z)), x)), w); return true; }
    throw PathCut{"IEEE-mode " + n};
  }
  E x = realOf(A[0]), y = A.size() > 1 && A[1].k != K::C ? realOf(A[1]) : E();
  if (n == "sin") { out = fromReal(angOf(x).s, w); return true; }
  if (n == "cos") { out = fromReal(angOf(x).c, w); return true; }
  if (n == "tan") { SC a = angOf(x); out = fromReal(divE(a.s, a.c), w); return true; }
  if (n == "asin" || n == "acos" || n == "atan") { out = fromReal(invTrig(n, x), w); return true; }
  if (n == "atan2") { out = fromReal(invTrig(n, x, y), w); return true; }
  if (n == "sqrt") { out = fromReal(sqrtE(x), w); return true; }
  if (n == "hypot") { out = fromReal(sqrtE(add2(mul2(x, x), mul2(y, y))), w); return true; }
  if (n == "fabs") { out = fromReal(eIte(ge(x, numR("0")), x, neg(x)), w); return true; }
  if (n == "floor") { out = fromReal(E(Z3_mk_int2real(Z, floorE(x))), w); return true; }
  if (n == "ceil") { out = fromReal(neg(E(Z3_mk_int2real(Z, floorE(neg(x))))), w); return true; }
  if (n == "trunc") { out = fromReal(E(Z3_mk_int2real(Z, truncRealToInt(x))), w); return true; }
  if (n == "fmod") { out = fop(FOp::Rem, A[0], A[1]); return true; }
  if (n == "fmax") { out = fromReal(eIte(ge(x, y), x, y), w); return true; }
  if (n == "fmin") { out = fromReal(eIte(ge(x, y), y, x), w); return true; }
  if (n == "pow" && A[1].k == K::CF) {
    long double p = A[1].ld;
    if (p == 2) { out = fromReal(mul2(x, x), w); return true; }
    if (p == 1) { out = A[0]; return true; }
    if (p == 3) { out = fromReal(mul2(mul2(x, x), x), w); return true; }
    if (p == 0.5L) { out = fromReal(sqrtE(x), w); return true; }
    if (p == -1) { out = fromReal(divE(numR("1"), x), w); return true; }
  }
  if (n == "copysign" && A[0].k == K::CF && A[0].ld == 1) { out = fromReal(eIte(ge(y, numR("0")), numR("1"), numR("-1")), w); return true; }
  // uninterpreted but congruent
  {
    auto key = std::make_pair(n, std::make_pair(id(x), y ? id(y) : 0u));
    auto it = memo.find(key); if (it != memo.end()) { out = Val::Real(it->second, w); return true; }
    memoKeep.push_back(x); if (y) memoKeep.push_back(y);
    E v = mkFreshReal(n.c_str()); memo[key] = v; out = Val::Real(v, w); return true;
  }
}

bool linTerm(E const& e0, i128& c, i128& k, E& t) {  // e = c + k*t
  E e = simp(e0); c = 0; k = 1; t = E();
  auto num = [](E const& x, i128& v) { int64_t s; if (!isNum(x) || !Z3_get_numeral_int64(Z, x, &s)) return false; v = s; return true; };
  std::vector<E> parts; if (Z3_get_ast_kind(Z, e) == Z3_APP_AST && Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, e))) == Z3_OP_ADD) { Z3_app a = Z3_to_app(Z, e); for (unsigned i = 0; i < Z3_get_app_num_args(Z, a); i++) parts.push_back(E(Z3_get_app_arg(Z, a, i))); } else parts.push_back(e);
  std::vector<E> rest; for (auto& p : parts) { i128 v; if (num(p, v)) c += v; else rest.push_back(p); }
  if (rest.size() != 1) { if (rest.empty()) return false; std::vector<Z3_ast> as; for (auto& x : rest) as.push_back(x); t = E(Z3_mk_add(Z, as.size(), as.data())); return true; }
  E p = rest[0]; if (Z3_get_ast_kind(Z, p) == Z3_APP_AST && Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, p))) == Z3_OP_MUL) { Z3_app a = Z3_to_app(Z, p); i128 v; if (Z3_get_app_num_args(Z, a) == 2 && num(E(Z3_get_app_arg(Z, a, 0)), v) && v > 0) { k = v; t = E(Z3_get_app_arg(Z, a, 1)); return true; } }
  t = p; return true;
}
Val mkIntVal(E e, unsigned w, i128 lo, i128 hi) { return fromInt(e, w, lo, hi); }
void edivPub(E const& x, i128 d, i128 lo, i128 hi, E& q, E& r) { ediv(x, d, lo, hi, q, r); }

bool ovMath(IOp op, bool sg, Val const& a, Val const& b, Val& out, E& ov) {
  i128 al, ah, bl, bh; E x, y; if (sg) { asSigned(a, x, al, ah); asSigned(b, y, bl, bh); } else { asUnsigned(a, x, al, ah); asUnsigned(b, y, bl, bh); }
  long double m = std::max(fabsl((long double)al), fabsl((long double)ah)) * std::max(fabsl((long double)bl), fabsl((long double)bh)); if (op == IOp::Mul && m > 1e37L) return false;
  E r; i128 lo, hi;
  if (op == IOp::Add) { r = add2(x, y); lo = al + bl; hi = ah + bh; } else if (op == IOp::Sub) { r = sub2(x, y); lo = al - bh; hi = ah - bl; }
  else { r = mul2(x, y); i128 c[4] = {al * bl, al * bh, ah * bl, ah * bh}; lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4); }
  i128 L = sg ? -p2(a.w - 1) : 0, H = sg ? p2(a.w - 1) - 1 : p2(a.w) - 1;
  if (lo >= L && hi <= H) ov = E(Z3_mk_false(Z)); else { E o1(Z3_mk_lt(Z, r, numI(L))), o2(Z3_mk_gt(Z, r, numI(H))); Z3_ast o[2] = {o1, o2}; ov = E(Z3_mk_or(Z, 2, o)); }
  out = normI(r, a.w, lo, hi); return true;
}
