// C01: creating a header card
// @bounds keyword length 1..8 over A-Z0-9-_; comments of 0..3 arbitrary printable characters plus lengths up to the field limit; integers with up to 6 digits in every integer type (thorough: 12), ten sizes of 7 to 19 digits with a symbolic last digit, and the ends of the ranges; string values of 0..4 arbitrary printable characters and lengths 0..70; complex parts up to 3 digits (thorough 4)
// @assume string values contain no apostrophe (FITS doubles them; the library stores them verbatim); no leading/trailing blanks in string values (not significant in FITS)
// @outside floating point values (see C28)
#include "vfh.h"
#include <boost/astronomy/io/card.hpp>
using namespace boost::astronomy; using io::card; using io::card_policy;
typedef card<card_policy> Card;
static void check_layout(Card& c, std::string const& key, const char* id) {
  vf_assert(c.raw_card().size() == 80, "eighty-characters");
  vf_assert(vf_same(c.keyword(true), vf_pad(key, 8)), "keyword-field");
  vf_assert(vf_same(c.raw_card().substr(8, 2), "= "), "value-indicator");
}
// @entry h_key_comment reach=end
VF_HARNESS(h_key_comment) {   // symbolic keyword and comment
  size_t n = vf_pick("keylen", 1, 8), m = vf_pick("comlen", 0, 3);
  std::string key = vf_keyword(n, "key"), com = vf_chars(m, "comment");
  Card c; c.create_card(key, 42, com); check_layout(c, key, "kc");
  vf_assert(vf_same(c.keyword(), key), "keyword");
  vf_assert(c.value<int>() == 42, "value-with-any-comment");
  std::string tail = m ? " /" + com : std::string();
  vf_assert(vf_same(c.raw_card().substr(30), vf_pad(tail, 50)), "comment-field");
  vf_reach("end");
}
template <class T> static void num(int64_t lo, int64_t hi) {
  T v = (T)vf_int("v", lo, hi); bool withc = vf_pick("comment", 0, 1);
  Card c; c.create_card("NAXIS1", v, withc ? "x/y" : ""); check_layout(c, "NAXIS1", "n");
  vf_assert(c.value<T>() == v, "integer-round-trip");
  if (withc) vf_assert(c.raw_card().substr(30, 5) == " /x/y", "comment-after-number"); else vf_assert(c.raw_card().substr(30) == std::string(50, ' '), "blank-after-number");
  vf_reach("end");
}
static const int64_t LIM = VF_TIER(999999, 99999999999ll);
// @entry h_int reach=end
VF_HARNESS(h_int) { num<int>(-VF_TIER(999999, 999999999), VF_TIER(999999, 999999999)); }
// @entry h_ll reach=end
VF_HARNESS(h_ll) { num<long long>(-LIM, LIM); }
// @entry h_size reach=end
VF_HARNESS(h_size) { num<std::size_t>(0, LIM); }
// @entry h_uint reach=end
VF_HARNESS(h_uint) { num<unsigned int>(0, VF_TIER(999999, 999999999)); }
// @entry h_extreme reach=end
VF_HARNESS(h_extreme) {  // ends of the integer ranges
  static const long long t[] = {INT64_MIN, INT64_MIN + 1, INT64_MAX, INT64_MAX - 1, 1000000000000000000ll, -1000000000000000000ll};
  int i = vf_pick("i", 0, 5); Card c; c.create_card("K", t[i], "c"); check_layout(c, "K", "e"); vf_assert(c.value<long long>() == t[i], "extreme-long-long");
  Card d; d.create_card("K", (std::size_t)-1 - (std::size_t)i); vf_assert(d.value<std::size_t>() == (std::size_t)-1 - (std::size_t)i, "extreme-size_t");
  Card e; int x = i & 1 ? INT32_MIN : INT32_MAX; e.create_card("K", x); vf_assert(e.value<int>() == x, "extreme-int"); vf_reach("end");
}
// @entry h_bool reach=end
VF_HARNESS(h_bool) {
  bool b = vf_bool("b"); size_t m = vf_pick("comlen", 0, 2); std::string com = vf_chars(m, "comment");
  Card c; c.create_card("SIMPLE", b, com); check_layout(c, "SIMPLE", "b"); vf_assert(c.value<bool>() == b, "bool-round-trip");
  vf_assert(c.raw_card()[29] == (b ? 'T' : 'F'), "bool-column-30"); vf_reach("end");
}
// @entry h_string reach=end
VF_HARNESS(h_string) {
  size_t n = vf_pick("len", 0, VF_TIER(3, 5)), m = vf_pick("comlen", 0, 2);
  std::string s = vf_chars(n, "s"), com = vf_chars(m, "comment"); vf_none_of(s, '\'');
  if (n) vf_assume((s[0] != ' ') & (s[n - 1] != ' '));
  Card c; c.create_card("OBJECT", s, com); check_layout(c, "OBJECT", "s");
  vf_assert(vf_same(c.value<std::string>(), s), "string-round-trip");
  std::string want = "'" + s + "'" + (m ? " /" + com : std::string()); vf_assert(vf_same(c.raw_card().substr(10), vf_pad(want, 70)), "string-layout"); vf_reach("end");
}
// @entry h_ctor reach=end
VF_HARNESS(h_ctor) {   // the (key, value, comment) constructor agrees with create_card
  size_t n = vf_pick("keylen", 1, 8); std::string key = vf_keyword(n, "key"), s = vf_chars(2, "s", 33, 126), com = vf_chars(1, "comment"); vf_none_of(s, '\'');
  Card a(key, s, com), b; b.create_card(key, s, com); vf_assert(vf_same(a.raw_card(), b.raw_card()), "ctor-equals-create_card"); vf_assert(a == b, "equal-cards"); vf_assert(vf_same(a.value<std::string>(), s), "ctor-value"); vf_reach("end");
}
// @entry h_lengths reach=made,refused
VF_HARNESS(h_lengths) {  // every split of the 80 columns: too long is refused with invalid_card, everything else is stored whole
  size_t n = vf_pick("len", 0, 76), m = vf_pick("comlen", 0, 3) * 23;
  std::string s(n, 'v'), com(m, 'c'); Card c; bool fits = m ? n + 2 + m <= 68 : n + 2 <= 70;
  try { c.create_card("OBJECT", s, com); vf_reach("made"); vf_assert(fits, "accepted-only-if-it-fits"); check_layout(c, "OBJECT", "l"); vf_assert(c.value<std::string>() == s, "long-string-value"); if (m) vf_assert(c.raw_card().substr(10 + n + 2, 2 + m) == " /" + com, "long-comment"); }
  catch (invalid_card&) { vf_reach("refused"); vf_assert(!fits, "refused-only-if-too-long"); }
}
// @entry h_badkey reach=refused
VF_HARNESS(h_badkey) {
  size_t n = vf_pick("keylen", 9, 12); std::string key = vf_keyword(n, "key"); Card c; bool threw = false;
  try { c.create_card(key, 1, ""); } catch (invalid_card&) { threw = true; vf_reach("refused"); } vf_assert(threw, "long-keyword-refused");
  threw = false; try { c.create_commentary_card(key, "x"); } catch (invalid_card&) { threw = true; } vf_assert(threw, "long-commentary-keyword-refused");
}
// @entry h_complex reach=end
VF_HARNESS(h_complex) {
  int re = (int)vf_int("re", -VF_TIER(99,999), VF_TIER(99,9999)), im = (int)vf_int("im", -VF_TIER(9,999), VF_TIER(999,9999)); Card c; c.create_card("Z", std::complex<int>(re, im), "");
  vf_assert(c.raw_card().size() == 80, "complex-eighty"); std::complex<int> z = c.value<std::complex<int>>(); vf_assert((z.real() == re) & (z.imag() == im), "complex-round-trip"); vf_reach("end");
}
// @entry h_commentary reach=end
VF_HARNESS(h_commentary) {
  int k = vf_pick("k", 0, 2); static const char* keys[] = {"COMMENT", "HISTORY", ""}; size_t n = vf_pick("len", 0, 3); std::string s = vf_chars(n, "s");
  if (n) vf_assume((s[0] != ' ') & (s[n - 1] != ' ') & (s[0] != '\''));
  Card c; c.create_commentary_card(keys[k], s); vf_assert(c.raw_card().size() == 80, "commentary-eighty"); vf_assert(c.keyword() == keys[k], "commentary-keyword"); vf_assert(vf_same(c.value<std::string>(), s), "commentary-text"); vf_reach("end");
}
static const long long WIDE[] = {1234567, 40000123, 900000007, 2147483600ll, 4294967290ll, 31415926535ll, 271828182845ll, 9007199254740990ll, 100000000000000055ll, 4611686018427387900ll};
// @entry h_wide reach=end
VF_HARNESS(h_wide) {   // long integers, also beyond 32 bits and beyond what a double holds exactly
  long long v = WIDE[vf_pick("size", 0, 9)] + (long long)vf_int("low", 0, 9); bool neg = vf_pick("neg", 0, 1); if (neg) v = -v; Card c; c.create_card("NAXIS1", v, "n"); check_layout(c, "NAXIS1", "w"); vf_assert(c.value<long long>() == v, "long-integer"); Card r(c.raw_card()); vf_assert(r.value<long long>() == v, "long-integer-from-text"); if (!neg) { Card u; u.create_card("NAXIS1", (std::size_t)v); vf_assert(u.value<std::size_t>() == (std::size_t)v, "long-size"); } vf_reach("end"); }
