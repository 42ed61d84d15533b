// C02: parsing a raw card
// @bounds whole keyword/indicator area (columns 1..10) symbolic over all 256 byte values; value area: 5 symbolic bytes (thorough 6) at columns 11.., the rest blank; raw lengths 0..90
// @assume leading-blank and nine-letter look-alikes of the commentary keywords are unspecified
// @outside floating point values (see C28)
#include "vfh.h"
#include <boost/astronomy/io/card.hpp>
using namespace boost::astronomy; using io::card; using io::card_policy;
typedef card<card_policy> Card;
static bool sp(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static std::string trim(std::string const& s) { size_t a = 0, b = s.size(); while (a < b && sp(s[a])) a++; while (b > a && sp(s[b - 1])) b--; return s.substr(a, b - a); }
static bool has(std::string const& s, const char* w, size_t from, size_t to) { std::string x(w); for (size_t i = from; i + x.size() <= to; i++) { bool m = true; for (size_t j = 0; j < x.size(); j++) m &= s[i + j] == x[j]; if (m) return true; } return false; }
// @entry h_accept reach=ok,bad
VF_HARNESS(h_accept) {
  std::string s(80, ' '); vf_bytes(&s[0], 10, "b");
  bool ind = (s[8] == '=') & (s[9] == ' ');
  bool com = vf_same(s.substr(0, 8), "COMMENT ") | vf_same(s.substr(0, 8), "HISTORY ") | vf_same(s.substr(0, 8), "END     ") | vf_same(s.substr(0, 8), "        ");
  bool ok; try { Card c(s); ok = true; vf_assert(vf_same(c.raw_card(), s), "stored-verbatim"); vf_assert(vf_same(c.keyword(true), s.substr(0, 8)), "keyword-columns-1-8"); vf_assert(vf_same(c.keyword(), trim(s.substr(0, 8))), "keyword-trimmed"); } catch (invalid_card&) { ok = false; }
  if (ok) { vf_reach("ok"); if (!(ind | com)) vf_assert(has(s, "END", 0, 8) || has(s, "COMMENT", 0, 8) || has(s, "HISTORY", 0, 8), "malformed-card-accepted"); }
  else { vf_reach("bad"); vf_assert(!(ind | com), "well-formed-card-refused"); }
}
// @entry h_length reach=ok,bad
VF_HARNESS(h_length) {
  size_t n = vf_pick("len", 0, 90); std::string s(n, ' '); for (size_t i = 0; i < 12 && i < n; i++) s[i] = "OBJECT  = 12"[i];
  bool ok; try { Card c(s); ok = true; vf_assert(n <= 80, "over-long-accepted"); (void)c.keyword(); vf_reach("ok"); if (n >= 12) vf_assert(c.value<int>() == 12, "short-card-value"); } catch (invalid_card&) { ok = false; vf_reach("bad"); }
  if (!ok) vf_assert(n < 10 || n > 80, "card-of-allowed-length-refused");
}
// @entry h_short_end reach=ok
VF_HARNESS(h_short_end) { size_t n = vf_pick("len", 3, 12); Card c(vf_pad("END", n)); vf_assert(c.keyword() == "END", "end-keyword"); vf_assert(c.value<std::string>() == "", "end-value"); vf_assert(c.raw_card().size() == 80, "card-is-80-characters"); vf_reach("ok"); }
static const size_t N = VF_TIER(4, 5);
static std::string mk(std::string const& v) { return vf_pad("KEYWORD = " + v, 80); }
// reference: the value text ends at the first slash outside quotes
static std::string text(std::string const& v) { bool q = false; size_t i = 0; for (; i < v.size(); i++) { if (v[i] == '\'') q = !q; else if (v[i] == '/' && !q) break; } return trim(v.substr(0, i)); }
// @entry h_int reach=num,bad time=100
VF_HARNESS(h_int) {
  std::string v = vf_chars(N, "v"); Card c(mk(v)); std::string t = text(v); size_t i = 0; bool neg = false; if (t.size() && (t[0] == '-' || t[0] == '+')) { neg = t[0] == '-'; i = 1; }
  bool num = i < t.size(); int want = 0; for (; i < t.size(); i++) { if (t[i] < '0' || t[i] > '9') { num = false; break; } want = want * 10 + (t[i] - '0'); } if (neg) want = -want;
  try { int g = c.value<int>(); vf_reach("num"); vf_assert(num, "non-number-read-as-int"); vf_assert(g == want, "int-value"); } catch (invalid_cast&) { vf_reach("bad"); vf_assert(!num, "number-refused"); }
}
// @entry h_bool reach=val,bad
VF_HARNESS(h_bool) {
  std::string v = vf_chars(N, "v"); Card c(mk(v)); std::string t = text(v); bool isb = t.size() == 1 && (t[0] == 'T' || t[0] == 'F');
  try { bool g = c.value<bool>(); vf_reach("val"); vf_assert(isb, "non-bool-read-as-bool"); vf_assert(g == (t[0] == 'T'), "bool-value"); } catch (invalid_cast&) { vf_reach("bad"); vf_assert(!isb, "bool-refused"); }
}
// @entry h_string reach=quoted,plain time=100
VF_HARNESS(h_string) {
  std::string v = vf_chars(N, "v"); Card c(mk(v)); std::string t = text(v);
  if (t.size() && t[0] == '\'') {
    vf_assume(t.size() >= 2 && t[t.size() - 1] == '\'');   // unterminated strings are malformed
    vf_reach("quoted"); vf_assert(vf_same(c.value<std::string>(), trim(t.substr(1, t.size() - 2))), "quoted-string"); }
  else { vf_reach("plain"); vf_assert(vf_same(c.value<std::string>(), t), "plain-text"); }
}
// @entry h_vwc reach=end
VF_HARNESS(h_vwc) { std::string v = vf_chars(N, "v"); Card c(mk(v)); vf_assert(vf_same(c.value_with_comment(), trim(v)), "value-with-comment"); vf_reach("end"); }
// @entry h_unterminated reach=end
VF_HARNESS(h_unterminated) { std::string v = vf_chars(2, "v"); vf_none_of(v, '\''); vf_none_of(v, '/'); Card c(mk("'" + v)); try { (void)c.value<std::string>(); } catch (invalid_cast&) {} catch (invalid_card&) {} vf_reach("end"); }
// @entry h_comment_text reach=end
VF_HARNESS(h_comment_text) {   // commentary text may hold anything, slashes included
  std::string v = vf_chars(3, "v"); int k = vf_pick("k", 0, 2); static const char* h[] = {"COMMENT  ", "HISTORY  ", "         "}; Card c(vf_pad(h[k] + v, 80)); std::string t = trim(v); vf_assume(t.empty() || t[0] != '\'');
  vf_assert(vf_same(c.value<std::string>(), t), "commentary-text"); vf_reach("end"); }
