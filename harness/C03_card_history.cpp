// C03: histories of operations on one card
// @bounds all sequences of 3 operations (thorough 4) from: create int/bool/string card, set int/bool/string value, read as int/long long/bool/string; numbers 0..99 symbolic, strings of 2 symbolic letters; copies taken at any point; values of 64..73 characters around the limit of the card
// @outside floating point values (see C28)
#include "vfh.h"
#include <boost/astronomy/io/card.hpp>
using namespace boost::astronomy; using io::card; using io::card_policy;
typedef card<card_policy> Card;
struct Ref { int type = -1; int i = 0; bool b = false; std::string s; bool com = false; };
static std::string dec(int i) { std::string r; if (i >= 10) r += (char)('0' + i / 10); r += (char)('0' + i % 10); return r; }
static void rd(Card& c, Ref& m, int t) {
  try {
    if (t == 0) { int g = c.value<int>(); vf_assert(m.type == 0, "int-read-of-non-number"); vf_assert(g == m.i, "int-read"); }
    if (t == 1) { long long g = c.value<long long>(); vf_assert(m.type == 0, "ll-read-of-non-number"); vf_assert(g == m.i, "ll-read"); }
    if (t == 2) { bool g = c.value<bool>(); vf_assert(m.type == 1, "bool-read-of-non-bool"); vf_assert(g == m.b, "bool-read"); }
    if (t == 3) { std::string g = c.value<std::string>(); std::string w = m.type == 0 ? dec(m.i) : m.type == 1 ? (m.b ? "T" : "F") : m.s; vf_assert(vf_same(g, w), "string-read"); }
  } catch (invalid_cast&) { vf_assert((t == 2 && m.type != 1) || (t <= 1 && m.type != 0), "readable-value-refused"); }
}
static void op(Card& c, Ref& m, int o) {
  if (o == 0 || o == 3) { m.type = 0; m.i = (int)vf_int("i", 0, 99); if (o == 0) c.create_card("KEY", m.i, "c"); else c.set_value(m.i); }
  else if (o == 1 || o == 4) { m.type = 1; m.b = vf_bool("b"); if (o == 1) c.create_card("KEY", m.b, ""); else c.set_value(m.b); }
  else if (o == 2 || o == 5) { m.type = 2; m.s = vf_chars(2, "s", 'a', 'z'); if (o == 2) c.create_card("KEY", m.s, "c"); else c.set_value(m.s); }
  else rd(c, m, o - 6);
  vf_assert(c.keyword() == "KEY", "keyword-kept"); vf_assert(c.raw_card().size() == 80, "still-80-characters"); vf_assert(c.raw_card().substr(8, 2) == "= ", "still-a-value-card");
}
static void history(int n) {
  Card c; Ref m; op(c, m, vf_pick("first", 0, 2));
  for (int k = 0; k < n; k++) op(c, m, vf_pick("op", 0, 9));
  Card fresh(c.raw_card());   // the text of the card carries the same value as the object
  for (int t = 0; t < 4; t++) { rd(c, m, t); rd(fresh, m, t); }
  vf_assert(fresh == c, "equal-to-reparsed"); vf_reach("end");
}
// @entry h_history reach=end
VF_HARNESS(h_history) { history(VF_TIER(2, 3)); }
// @entry h_copy reach=end
VF_HARNESS(h_copy) {   // copies are independent
  Card c; Ref m; op(c, m, vf_pick("first", 0, 2)); if (vf_pick("read", 0, 1)) rd(c, m, 3); Card d(c); Ref n = m; op(d, n, vf_pick("op", 0, 5)); for (int t = 0; t < 4; t++) { rd(c, m, t); rd(d, n, t); } vf_reach("end");
}
// @entry h_reparse reach=end
VF_HARNESS(h_reparse) {   // order of reads on a parsed card does not matter
  Ref m; m.type = 0; m.i = (int)vf_int("i", 0, 99); Card w; w.create_card("KEY", m.i, "x"); Card c(w.raw_card());
  for (int k = 0; k < 3; k++) rd(c, m, vf_pick("t", 0, 3)); vf_reach("end");
}
// @entry h_commentary_after reach=end
VF_HARNESS(h_commentary_after) { Card c; Ref m; op(c, m, vf_pick("first", 0, 2)); rd(c, m, vf_pick("t", 0, 3)); c.create_commentary_card("COMMENT", "abc"); vf_assert(c.value<std::string>() == "abc", "commentary-replaces-value"); vf_reach("end"); }
// @entry h_refused reach=refused,kept
VF_HARNESS(h_refused) {   // what does not fit is refused, and a refused change leaves the card as it was
  Card c; Ref m; op(c, m, vf_pick("first", 0, 2)); int t = vf_pick("read", 0, 4); if (t < 4) rd(c, m, t); std::string before = c.raw_card(); int o = vf_pick("op", 0, 3), len = vf_pick("len", 64, 73); std::string v = vf_chars(2, "v", 'a', 'z') + std::string(len - 2, 'x'); bool threw = false, fits = o == 3 ? len <= 71 : o == 1 ? len <= 65 : len <= 68;
  try { if (o == 0) c.create_card("OTHER", v); else if (o == 1) c.create_card("OTHER", v, "c"); else if (o == 2) c.set_value(v); else c.create_commentary_card("COMMENT", v); } catch (std::exception&) { threw = true; }
  if (fits) { vf_assert(!threw, "fitting-value-refused"); vf_assert(vf_same(c.value<std::string>(), v), "fitting-value-read"); vf_assert(c.keyword() == (o == 2 ? "KEY" : o == 3 ? "COMMENT" : "OTHER"), "fitting-keyword"); vf_assert(c.raw_card().size() == 80, "still-80-characters"); vf_reach("kept"); }
  else { vf_assert(o == 2 || threw, "over-long-value-accepted"); vf_assert(vf_same(c.raw_card(), before), "refused-change-changes-card"); for (int k = 0; k < 4; k++) rd(c, m, k); vf_reach("refused"); }
}
