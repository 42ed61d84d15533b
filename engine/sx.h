// sx: a small symbolic executor for LLVM IR (core data structures)
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <cmath>

typedef __int128 i128;
typedef unsigned __int128 u128;

extern Z3_context Z;

struct E {  // ref-counted z3 ast
  Z3_ast a = nullptr;
  E() {}
  E(Z3_ast x) : a(x) { if (a) Z3_inc_ref(Z, a); }
  E(E const& o) : a(o.a) { if (a) Z3_inc_ref(Z, a); }
  E(E&& o) noexcept : a(o.a) { o.a = nullptr; }
  E& operator=(E const& o) { if (o.a) Z3_inc_ref(Z, o.a); if (a) Z3_dec_ref(Z, a); a = o.a; return *this; }
  E& operator=(E&& o) noexcept { std::swap(a, o.a); return *this; }
  ~E() { if (a) Z3_dec_ref(Z, a); }
  operator Z3_ast() const { return a; }
  explicit operator bool() const { return a != nullptr; }
};

enum class K : uint8_t { Undef, C, CF, S, I, R, F, Agg };

struct Val {
  K k = K::Undef;
  uint32_t w = 0;       // bit width (ints, pointers), or fp width 32/64/80
  uint64_t c = 0;       // K::C
  long double ld = 0;   // K::CF
  E e;                  // S (BV, or Bool if w==1), I (Int), R (Real), F (FP)
  i128 lo = 0, hi = 0;  // K::I interval
  std::shared_ptr<std::vector<Val>> agg;
  static Val Int(uint64_t v, uint32_t w) { Val r; r.k = K::C; r.w = w; r.c = w >= 64 ? v : (v & ((1ull << w) - 1)); return r; }
  static Val Flt(long double v, uint32_t w) { Val r; r.k = K::CF; r.w = w; r.ld = w == 32 ? (long double)(float)v : w == 64 ? (long double)(double)v : v; return r; }
  static Val Sym(E e, uint32_t w) { Val r; r.k = K::S; r.w = w; r.e = std::move(e); return r; }
  static Val Real(E e, uint32_t w) { Val r; r.k = K::R; r.w = w; r.e = std::move(e); return r; }
  static Val Fp(E e, uint32_t w) { Val r; r.k = K::F; r.w = w; r.e = std::move(e); return r; }
  static Val MInt(E e, uint32_t w, i128 lo, i128 hi) { Val r; r.k = K::I; r.w = w; r.e = std::move(e); r.lo = lo; r.hi = hi; return r; }
  bool conc() const { return k == K::C || k == K::CF; }
};

struct SymByte { Val v; uint8_t idx; uint8_t n; };

struct Obj {
  uint64_t base = 0, size = 0;
  std::vector<uint8_t> b;
  std::map<uint32_t, SymByte> sym;
  bool ro = false, heap = false;
  const char* tag = "";
};
