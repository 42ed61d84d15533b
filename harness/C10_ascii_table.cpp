// C10: ASCII tables
// @bounds 1..2 rows (thorough 3; 300 rows and 30 columns in single entries), up to 3 fields at symbolic-free picked columns (gaps, reversed order, adjacent), fields of 1..5 symbolic characters; integer fields of up to 4 symbolic digits with sign; updates with numbers of up to 4 digits (symbolic) and strings of up to 6 characters
// @outside decimal text of floating point fields (see C28)
#include "vfh.h"
#include <boost/astronomy/io/fits_stream.hpp>
#include <boost/astronomy/io/ascii_table.hpp>
#include <boost/astronomy/io/default_card_policy.hpp>
#include <boost/astronomy/io/string_conversion_utility.hpp>
using namespace boost::astronomy; using namespace boost::astronomy::io;
typedef header<card_policy> Header; typedef basic_ascii_table<card_policy, ascii_converter> AT;
static const std::string END = vf_pad("END", 80);
static std::string block(std::string s) { size_t k = (2880 - s.size() % 2880) % 2880; return s.append(k, ' '); }
static void load(Header& h, std::string const& s) { vf_put("h", s); fits_stream f; f.set_file(vf_path("h")); h.read_header(f); }
static bool sp(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static std::string trim(std::string const& s) { size_t a = 0, b = s.size(); while (a < b && sp(s[a])) a++; while (b > a && sp(s[b - 1])) b--; return s.substr(a, b - a); }
struct Col { const char* form; size_t at, w; };
static std::string head(std::vector<Col> const& c, size_t width, size_t rows) {
  std::string s = vf_card("XTENSION", "'TABLE'") + vf_card("BITPIX", "8") + vf_card("NAXIS", "2") + vf_card("NAXIS1", vf_dec(width)) + vf_card("NAXIS2", vf_dec(rows)) + vf_card("PCOUNT", "0") + vf_card("GCOUNT", "1") + vf_card("TFIELDS", vf_dec(c.size())) + vf_card("EXTNAME", "'T'");
  for (size_t i = 0; i < c.size(); i++) { s += vf_card("TFORM" + vf_dec(i + 1), std::string("'") + c[i].form + "'") + vf_card("TBCOL" + vf_dec(i + 1), vf_dec(c[i].at)) + vf_card("TTYPE" + vf_dec(i + 1), "'COL" + vf_dec(i + 1) + "'"); } return s + END; }
static std::string written(AT& t, std::string const& h) { fits_stream o; o.create_file(vf_path("o")); t.write_to(o); o.close(); std::string g = vf_file("o"); vf_assert(g.size() % 2880 == 0, "multiple-of-2880"); vf_assert(vf_same(g.substr(0, h.size()), h), "header-first"); return g.substr(block(h).size()); }
static std::string right(std::string const& s, size_t w) { return std::string(w - s.size(), ' ') + s; }
static std::vector<Col> L[] = {{{"A3", 1, 3}, {"A2", 4, 2}}, {{"A3", 2, 3}, {"A2", 7, 2}}, {{"A2", 6, 2}, {"A3", 1, 3}}, {{"A1", 9, 1}, {"A2", 3, 2}}};
static const size_t WD[] = {5, 10, 8, 9};
// @entry h_fields reach=end time=100
VF_HARNESS(h_fields) {   // every field is read at its own column, in every row, and written back there
  int k = vf_pick("layout", 0, 3); size_t rows = vf_pick("rows", 1, 2); std::vector<Col>& c = L[k]; std::string hs = head(c, WD[k], rows), d(WD[k] * rows, '.'), w(WD[k] * rows, ' '); std::vector<std::string> want; for (size_t r = 0; r < rows; r++) for (size_t i = 0; i < 2; i++) { std::string f = r == 0 ? vf_chars(c[i].w, "d", 33, 126) : std::string(c[i].w, (char)('a' + r + i)); if (r == 1) f[0] = ' '; if (c[i].w == 3 && r == 0) f = vf_pick("lead", 0, 1) ? " " + f.substr(1) : f; std::string t = trim(f); want.push_back(t); for (size_t j = 0; j < f.size(); j++) d[r * WD[k] + c[i].at - 1 + j] = f[j]; std::string q = right(t, c[i].w); for (size_t j = 0; j < q.size(); j++) w[r * WD[k] + c[i].at - 1 + j] = q[j]; }
  Header h; load(h, hs); AT t(h, d); vf_assert(t.get_data().size() == rows, "row-count"); for (size_t r = 0; r < rows; r++) { vf_assert(t.get_data()[r].size() == 2, "field-count"); for (size_t i = 0; i < 2; i++) { vf_assert(vf_same(t.get_data()[r][i], want[r * 2 + i]), "field-text"); std::string g = t.get_column<std::string>("COL" + vf_dec(i + 1))[r]; if (!want[r * 2 + i].empty()) vf_assert(vf_same(g, want[r * 2 + i]), "string-column"); } }
  vf_assert(vf_same(written(t, hs), block(w)), "written-at-its-column"); AT u(h, written(t, hs).substr(0, d.size())); for (size_t r = 0; r < rows; r++) for (size_t i = 0; i < 2; i++) vf_assert(vf_same(u.get_data()[r][i], want[r * 2 + i]), "same-after-writing"); column m = t.get_column_metadata("COL2"); vf_assert(m.TBCOL() == c[1].at && m.TFORM() == c[1].form && m.index() == 2, "metadata"); vf_reach("end"); }
// @entry h_int reach=num,bad
VF_HARNESS(h_int) {   // integer columns
  std::vector<Col> c{{"I4", 2, 4}, {"I2", 8, 2}}; std::string f = vf_chars(4, "f"), d = "#" + f + "##42"; Header h; load(h, head(c, 9, 1)); AT t(h, d); std::string s = trim(f); size_t i = 0; bool neg = false; if (s.size() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; i = 1; } bool num = i < s.size(); long long want = 0; for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') { num = false; break; } want = want * 10 + (s[i] - '0'); } if (neg) want = -want;
  long long o = t.get_column<long long>("COL2")[0]; vf_assert(o == 42, "second-integer-column"); try { long long g = t.get_column<long long>("COL1")[0]; vf_reach("num"); vf_assert(num, "text-read-as-integer"); vf_assert(g == want, "integer-column"); } catch (invalid_cast&) { vf_reach("bad"); vf_assert(!num, "integer-refused"); } }
// @entry h_update reach=end
VF_HARNESS(h_update) {   // an update changes its own field only
  std::vector<Col> c{{"I4", 2, 4}, {"A3", 7, 3}}; std::string hs = head(c, 10, 2), d = "  12  abc  345  xyz "; Header h; load(h, hs); AT t(h, d); int r = vf_pick("row", 0, 1), warm = vf_pick("warm", 0, 1); long long v = vf_int("v", -VF_TIER(99, 999), VF_TIER(999, 9999)); auto& x = t.get_column<long long>("COL1"); if (warm) { long long q = x[r]; vf_assert(q == (r ? 345 : 12), "before"); } x[r] = v; long long g = x[r]; vf_assert(g == v, "update-seen"); long long other = x[1 - r]; vf_assert(other == (r ? 12 : 345), "other-row"); std::string s = t.get_column<std::string>("COL2")[r]; vf_assert(s == (r ? "xyz" : "abc"), "other-column");
  std::string w = written(t, hs); vf_assert(w.size() == 2880, "one-block"); AT u(h, w.substr(0, 20)); long long a = u.get_column<long long>("COL1")[r], b = u.get_column<long long>("COL1")[1 - r]; vf_assert(a == v, "update-written"); vf_assert(b == (r ? 12 : 345), "other-row-written"); std::string p = u.get_column<std::string>("COL2")[0], q = u.get_column<std::string>("COL2")[1]; vf_assert(p == "abc" && q == "xyz", "strings-written"); vf_reach("end"); }
// @entry h_long reach=end
VF_HARNESS(h_long) {   // a value that does not fit its field never spills over
  std::vector<Col> c{{"A3", 1, 3}, {"A2", 4, 2}}; std::string hs = head(c, 5, 2); Header h; load(h, hs); AT t(h, "abcdefghij"); size_t n = vf_pick("n", 0, 6); std::string v = vf_chars(n, "v", 33, 126); t.get_column<std::string>("COL1")[0] = v; bool threw = false; std::string o; try { o = written(t, hs); } catch (std::exception&) { threw = true; } if (n <= 3) { vf_assert(!threw, "fitting-value-refused"); vf_assert(vf_same(o, block(right(v, 3) + "defghij")), "fitting-value-written"); } else if (!threw) vf_assert(o.size() == 2880 && o.substr(3, 7) == "defghij", "long-value-spilled"); vf_reach("end"); }
// @entry h_malformed reach=ok,bad
VF_HARNESS(h_malformed) {   // fields outside the row and short data are reported
  size_t at = vf_pick("at", 0, 5), w = vf_pick("w", 1, 2), width = vf_pick("width", 2, 5), rows = vf_pick("rows", 1, 2), have = vf_pick("have", 1, 6) * 2; char f[3] = {'A', (char)('0' + w), 0}; std::vector<Col> c{{f, at, w}}; Header h; load(h, head(c, width, rows)); bool good = at >= 1 && at - 1 + w <= width && have >= rows * width; try { AT t(h, std::string(have, 'q')); vf_reach("ok"); vf_assert(good, "inconsistent-table-accepted"); } catch (std::exception&) { vf_reach("bad"); vf_assert(!good, "consistent-table-refused"); } }
// @entry h_copy reach=end
VF_HARNESS(h_copy) { std::vector<Col> c{{"A3", 1, 3}, {"A2", 4, 2}}; std::string hs = head(c, 5, 1), d = vf_chars(5, "d", 33, 126); Header h; load(h, hs); AT t(h, d); if (vf_pick("warm", 0, 1)) { std::string q = t.get_column<std::string>("COL1")[0]; } AT a(t), b; int how = vf_pick("how", 0, 1); if (how) b = t; AT& u = how ? b : a; std::string v = vf_chars(3, "v", 33, 126); u.get_column<std::string>("COL1")[0] = v; std::string o = t.get_column<std::string>("COL1")[0]; vf_assert(vf_same(o, d.substr(0, 3)), "original-kept"); std::string g = u.get_column<std::string>("COL1")[0]; vf_assert(vf_same(g, v), "copy-changed"); vf_assert(vf_same(written(t, hs), block(d)), "original-written"); vf_assert(vf_same(written(u, hs), block(v + d.substr(3))), "copy-written"); vf_reach("end"); }
// @entry h_setdata reach=end
VF_HARNESS(h_setdata) { std::vector<Col> c{{"A3", 1, 3}, {"A2", 4, 2}}; std::string hs = head(c, 5, 1), d = vf_chars(5, "d", 33, 126), e = vf_chars(5, "e", 33, 126); Header h; load(h, hs); AT t(h, vf_pick("empty", 0, 1) ? "" : d); if (t.get_data().size() && vf_pick("warm", 0, 1)) { std::string q = t.get_column<std::string>("COL1")[0]; } t.set_data(e); std::string g = t.get_column<std::string>("COL1")[0]; vf_assert(vf_same(g, e.substr(0, 3)), "new-data-seen"); vf_assert(vf_same(written(t, hs), block(e)), "new-data-written"); vf_reach("end"); }
// @entry h_unknown reach=end
VF_HARNESS(h_unknown) { std::vector<Col> c{{"A3", 1, 3}, {"A2", 4, 2}}; Header h; load(h, head(c, 5, 1)); AT t(h, "abcde"); std::string n = vf_chars(4, "n", 33, 126); bool known = vf_same(n, "COL1") | vf_same(n, "COL2"); bool threw = false; try { (void)t.get_column<std::string>(n); } catch (column_not_found_exception&) { threw = true; } vf_assert(threw == !known, "unknown-column-reported"); vf_reach("end"); }
// @entry h_rows_many reach=end
VF_HARNESS(h_rows_many) {
  std::vector<Col> c{{"A1", 1, 1}, {"I3", 3, 3}}; std::string hs = head(c, 6, 300), d(1800, ' '); static const int R[] = {0, 127, 128, 255, 256, 299}; for (int r = 0; r < 300; r++) { d[6 * r] = (char)('a' + r % 26); d[6 * r + 2] = (char)('0' + r / 100); d[6 * r + 3] = (char)('0' + r / 10 % 10); d[6 * r + 4] = (char)('0' + r % 10); } std::string x = vf_chars(6, "x", 'a', 'z'); for (int i = 0; i < 6; i++) d[6 * R[i]] = x[i]; Header h; load(h, hs); AT t(h, d); vf_assert(t.get_data().size() == 300, "many-rows-count"); auto& n = t.get_column<long long>("COL2"); vf_assert(n.get_row_count() == 300, "many-rows-view"); for (int i = 0; i < 6; i++) { vf_assert(vf_same(t.get_data()[R[i]][0], x.substr(i, 1)), "many-rows-text"); long long v = n[R[i]]; vf_assert(v == R[i], "many-rows-number"); } vf_assert(vf_same(written(t, hs), block(d)), "many-rows-written"); vf_reach("end"); }
// @entry h_columns_many reach=end
VF_HARNESS(h_columns_many) {
  const int N = 30; std::vector<Col> c; for (int i = 0; i < N; i++) { Col q = {"A2", (size_t)(3 * (N - 1 - i) + 1), 2}; c.push_back(q); } std::string hs = head(c, 3 * N, 1), d = vf_chars(3 * N, "d", 'a', 'z'); for (int i = 0; i < N; i++) d[3 * i + 2] = ' '; Header h; load(h, hs); AT t(h, d); vf_assert(t.get_data().size() == 1 && t.get_data()[0].size() == (size_t)N, "many-columns-count"); for (int i = 0; i < N; i++) { vf_assert(vf_same(t.get_data()[0][i], d.substr(c[i].at - 1, 2)), "many-columns-text"); vf_assert(t.get_column_metadata("COL" + vf_dec(i + 1)).index() == (size_t)i + 1, "many-columns-number"); } vf_assert(vf_same(written(t, hs), block(d)), "many-columns-written"); vf_reach("end"); }
