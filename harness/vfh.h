// helpers shared by the harnesses
#pragma once
#include "vf.h"
#include <string>
#include <vector>
extern "C" { void vfs_put(const char*, const void*, size_t); size_t vfs_size(const char*); void vfs_get(const char*, void*, size_t, size_t); void vfs_path(const char*, char*); void vfs_done(); }
#ifdef VF_THOROUGH
#define VF_TIER(q, t) (t)
#else
#define VF_TIER(q, t) (q)
#endif
// n symbolic characters, each in [lo,hi]
inline std::string vf_chars(size_t n, const char* name, unsigned char lo = 32, unsigned char hi = 126) {
  std::string s(n, '?'); if (n) vf_bytes(&s[0], n, name);
  bool ok = true; for (size_t i = 0; i < n; i++) ok &= ((unsigned char)s[i] >= lo) & ((unsigned char)s[i] <= hi);
  vf_assume(ok); return s;
}
inline void vf_none_of(std::string const& s, char c) { bool ok = true; for (char x : s) ok &= x != c; vf_assume(ok); }
// FITS keyword alphabet: A-Z 0-9 - _
inline std::string vf_keyword(size_t n, const char* name) {
  std::string s(n, '?'); if (n) vf_bytes(&s[0], n, name);
  bool ok = true; for (char c : s) ok &= ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '-') | (c == '_');
  vf_assume(ok); return s;
}
// branch-free comparison of two strings
inline bool vf_same(std::string const& a, std::string const& b) { if (a.size() != b.size()) return false; bool ok = true; for (size_t i = 0; i < a.size(); i++) ok &= a[i] == b[i]; return ok; }
inline std::string vf_pad(std::string s, size_t n) { if (s.size() < n) s.append(n - s.size(), ' '); return s; }
// ---- FITS text helpers
inline std::string vf_card(std::string const& key, std::string const& val, std::string const& comment = "") { std::string s = vf_pad(key, 8) + "= "; if (val.size() < 20 && (val.empty() || val[0] != '\'')) s.append(20 - val.size(), ' '); s += val; if (!comment.empty()) s += " / " + comment; return vf_pad(s, 80); }
inline std::string vf_dec(uint64_t v) { std::string r; do { r.insert(r.begin(), (char)('0' + v % 10)); v /= 10; } while (v); return r; }
// a number of exactly n symbolic decimal digits (leading zeros allowed), its text and its value
struct vf_num { std::string text; uint64_t value; };
inline vf_num vf_digits(size_t n, const char* name) { vf_num r; r.text = vf_chars(n, name, '0', '9'); r.value = 0; for (char c : r.text) r.value = r.value * 10 + (uint64_t)(c - '0'); return r; }
inline std::string vf_path(const char* n) { char b[512]; vfs_path(n, b); return b; }
inline std::string vf_file(const char* n) { size_t k = vfs_size(n); if (k == (size_t)-1) return "<missing>"; std::string s(k, '?'); if (k) vfs_get(n, &s[0], 0, k); return s; }
inline void vf_put(const char* n, std::string const& s) { vfs_put(n, s.data(), s.size()); }
