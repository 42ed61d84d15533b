// C09: binary tables
// @bounds 1..3 rows (and 300 rows, 260 columns, arrays of 17 elements in single entries); all field bytes symbolic; tables of up to 3 fields with formats over L B A I J E D C M P X with repeat counts 1..3 (picked), mixed column orders; writes and re-reads through the in-memory file system
// @outside variable-length array heaps; TDIM interpretation
#include "vfh.h"
#include <boost/astronomy/io/fits_stream.hpp>
#include <boost/astronomy/io/binary_table.hpp>
#include <boost/astronomy/io/default_card_policy.hpp>
#include <boost/astronomy/io/binary_data_converter.hpp>
using namespace boost::astronomy; using namespace boost::astronomy::io;
typedef header<card_policy> Header; typedef basic_binary_table_extension<card_policy, binary_data_converter> BT;
static const std::string END = vf_pad("END", 80);
static std::string block(std::string s, char c) { size_t k = (2880 - s.size() % 2880) % 2880; return s.append(k, c); }
static void load(Header& h, std::string const& s) { vf_put("h", s); fits_stream f; f.set_file(vf_path("h")); h.read_header(f); }
static std::string raw(size_t n, const char* nm = "d") { std::string s(n, '?'); if (n) vf_bytes(&s[0], n, nm); return s; }
static std::string head(std::vector<std::string> const& tf, size_t width, size_t rows) {
  std::string s = vf_card("XTENSION", "'BINTABLE'") + vf_card("BITPIX", "8") + vf_card("NAXIS", "2") + vf_card("NAXIS1", vf_dec(width)) + vf_card("NAXIS2", vf_dec(rows)) + vf_card("PCOUNT", "0") + vf_card("GCOUNT", "1") + vf_card("TFIELDS", vf_dec(tf.size())) + vf_card("EXTNAME", "'T'");
  for (size_t i = 0; i < tf.size(); i++) { s += vf_card("TFORM" + vf_dec(i + 1), "'" + tf[i] + "'"); s += vf_card("TTYPE" + vf_dec(i + 1), "'COL" + vf_dec(i + 1) + "'"); } return s + END; }
static size_t W(std::string const& f) { size_t r = f.size() > 1 ? f[0] - '0' : 1; switch (f[f.size() - 1]) { case 'X': return (r + 7) / 8; case 'I': return 2 * r; case 'J': case 'E': return 4 * r; case 'D': case 'C': case 'P': return 8 * r; case 'M': return 16 * r; } return r; }
static std::string table(BT& t, std::string const& h) { fits_stream o; o.create_file(vf_path("o")); t.write_to(o); o.close(); std::string g = vf_file("o"); vf_assert(g.size() % 2880 == 0, "multiple-of-2880"); size_t hb = block(h, ' ').size(); vf_assert(vf_same(g.substr(0, h.size()), h), "header-first"); return g.substr(hb); }
static const char* F[][3] = {{"2I", "J", "3A"}, {"L", "2E", "B"}, {"D", "I", "2B"}, {"C", "3L", "2J"}, {"M", "A", "2D"}, {"P", "2X", "I"}, {"9X", "E", "2P"}, {"2C", "B", "J"}};
// @entry h_fields reach=end
VF_HARNESS(h_fields) {   // rows are cut into fields byte for byte, and written back byte for byte
  int k = vf_pick("format", 0, 7); size_t rows = vf_pick("rows", 1, VF_TIER(2, 3)); std::vector<std::string> tf(F[k], F[k] + 3); size_t w = W(tf[0]) + W(tf[1]) + W(tf[2]); std::string hs = head(tf, w, rows), d = raw(w * rows); Header h; load(h, hs); BT t(h, d);
  vf_assert(t.get_data().size() == rows, "row-count"); for (size_t r = 0; r < rows; r++) { vf_assert(t.get_data()[r].size() == 3, "field-count"); size_t at = r * w; for (int c = 0; c < 3; c++) { vf_assert(vf_same(t.get_data()[r][c], d.substr(at, W(tf[c]))), "field-bytes"); at += W(tf[c]); } }
  std::string o = table(t, hs); vf_assert(vf_same(o, block(d, 0)), "written-rows-then-zeros"); size_t at = 0; for (int c = 0; c < 3; c++) { column m = t.get_column_metadata("COL" + vf_dec(c + 1)); vf_assert(m.index() == (size_t)c + 1, "column-number"); vf_assert(m.TBCOL() == at, "column-start"); vf_assert(m.TFORM() == tf[c], "column-format"); vf_assert(m.total_elements() == (tf[c].size() > 1 ? (size_t)(tf[c][0] - '0') : 1), "column-elements"); at += W(tf[c]); } vf_reach("end"); }
// @entry h_read reach=end
VF_HARNESS(h_read) {   // values seen through column views
  std::vector<std::string> tf{"I", "2J", "L"}; Header h; std::string hs = head(tf, 11, 2), d = raw(22); load(h, hs); BT t(h, d); auto u = [&](size_t i) { return (uint32_t)(unsigned char)d[i]; };
  for (int r = 0; r < 2; r++) { size_t b = 11 * r; auto& a = t.get_column<boost::int16_t>("COL1"); auto& v = t.get_column<std::vector<boost::int32_t>>("COL2"); auto& l = t.get_column<bool>("COL3"); boost::int16_t x = a[r]; vf_assert(x == (boost::int16_t)(u(b) << 8 | u(b + 1)), "int16-column"); std::vector<boost::int32_t> y = v[r]; vf_assert(y.size() == 2, "array-column-size"); for (int j = 0; j < 2; j++) vf_assert(y[j] == (boost::int32_t)(u(b + 2 + 4 * j) << 24 | u(b + 3 + 4 * j) << 16 | u(b + 4 + 4 * j) << 8 | u(b + 5 + 4 * j)), "array-column-value"); bool z = l[r]; vf_assert(z == (d[b + 10] == 'T'), "logical-column"); vf_assert(a.get_row_count() == 2, "view-row-count"); vf_assert(a.get_column_number() == 1 && v.get_column_number() == 2 && l.get_column_number() == 3, "view-column-number"); }
  vf_assert(vf_same(table(t, hs), block(d, 0)), "reading-changes-nothing"); vf_reach("end"); }
// @entry h_update reach=end
VF_HARNESS(h_update) {   // an update changes exactly its own bytes, is seen at once and survives writing
  std::vector<std::string> tf{"I", "2E", "B"}; Header h; std::string hs = head(tf, 11, 2), d = raw(22); load(h, hs); BT t(h, d); int r = vf_pick("row", 0, 1), c = vf_pick("col", 0, 2), before = vf_pick("readfirst", 0, 1); std::string w = d; size_t at = 11 * r;
  if (c == 0) { boost::int16_t v = (boost::int16_t)vf_u16("v"); auto& x = t.get_column<boost::int16_t>("COL1"); if (before) { boost::int16_t q = x[r]; (void)q; } x[r] = v; boost::int16_t g = x[r]; vf_assert(g == v, "update-seen"); w[at] = (char)((unsigned short)v >> 8); w[at + 1] = (char)v; boost::int16_t o = x[1 - r]; vf_assert(o == (boost::int16_t)((unsigned char)d[11 * (1 - r)] << 8 | (unsigned char)d[11 * (1 - r) + 1]), "other-row-kept"); }
  if (c == 1) { float p = vf_f32("p"), q = vf_f32("q"); uint32_t pb, qb; std::memcpy(&pb, &p, 4); std::memcpy(&qb, &q, 4); auto& x = t.get_column<std::vector<float>>("COL2"); if (before) { std::vector<float> z = x[r]; } x[r] = std::vector<float>{p, q}; std::vector<float> g = x[r]; uint32_t g0, g1; std::memcpy(&g0, &g[0], 4); std::memcpy(&g1, &g[1], 4); vf_assert(g.size() == 2 && g0 == pb && g1 == qb, "array-update-seen"); for (int j = 0; j < 4; j++) { w[at + 2 + j] = (char)(pb >> (24 - 8 * j)); w[at + 6 + j] = (char)(qb >> (24 - 8 * j)); } }
  if (c == 2) { std::uint8_t v = vf_u8("v"); auto& x = t.get_column<std::uint8_t>("COL3"); if (before) { std::uint8_t q = x[r]; (void)q; } x[r] = v; std::uint8_t g = x[r]; vf_assert(g == v, "byte-update-seen"); w[at + 10] = (char)v; }
  vf_assert(vf_same(table(t, hs), block(w, 0)), "update-written-and-nothing-else"); vf_reach("end"); }
// @entry h_badsize reach=end
VF_HARNESS(h_badsize) {   // an array of the wrong length never shifts its neighbours
  std::vector<std::string> tf{"I", "2J", "B"}; Header h; std::string hs = head(tf, 11, 2), d = raw(22); load(h, hs); BT t(h, d); int n = vf_pick("n", 0, 4); t.get_column<std::vector<boost::int32_t>>("COL2")[1] = std::vector<boost::int32_t>(n, 7); bool threw = false; std::string o; try { o = table(t, hs); } catch (fits_exception&) { threw = true; } if (n == 2) vf_assert(!threw, "right-size-accepted"); if (!threw) { vf_assert(o.size() == 2880 && vf_same(o.substr(0, 13), d.substr(0, 13)) && o[21] == d[21], "neighbours-kept"); } vf_reach("end"); }
// @entry h_malformed reach=ok,bad
VF_HARNESS(h_malformed) {   // tables whose rows, fields and data do not agree are reported
  size_t w = vf_pick("width", 0, 5), rows = vf_pick("rows", 1, 2), have = vf_pick("have", 1, 8); int f = vf_pick("fields", 0, 2); std::vector<std::string> tf; size_t need = 0; if (f > 0) { tf.push_back("I"); need += 2; } if (f > 1) { tf.push_back("A"); need += 1; } Header h; load(h, head(tf, w, rows)); std::string d = raw(have);
  try { BT t(h, d); vf_reach("ok"); vf_assert(need == w && need && have >= rows * w, "inconsistent-table-accepted"); } catch (std::exception&) { vf_reach("bad"); vf_assert(need != w || !need || have < rows * w, "consistent-table-refused"); } }
// @entry h_copy reach=end
VF_HARNESS(h_copy) {   // copies are independent
  std::vector<std::string> tf{"I", "B"}; Header h; std::string hs = head(tf, 3, 2), d = raw(6); load(h, hs); BT t(h, d); int warm = vf_pick("warm", 0, 1), how = vf_pick("how", 0, 1); if (warm) { std::uint8_t q = t.get_column<std::uint8_t>("COL2")[0]; (void)q; } BT a(t), b; if (how) b = t; BT& c = how ? b : a; std::uint8_t v = vf_u8("v"); c.get_column<std::uint8_t>("COL2")[0] = v;
  std::uint8_t o = t.get_column<std::uint8_t>("COL2")[0]; vf_assert(o == (unsigned char)d[2], "original-value-kept"); std::uint8_t g = c.get_column<std::uint8_t>("COL2")[0]; vf_assert(g == v, "copy-value"); vf_assert(vf_same(table(t, hs), block(d, 0)), "original-bytes-kept"); std::string w = d; w[2] = (char)v; vf_assert(vf_same(table(c, hs), block(w, 0)), "copy-bytes"); vf_reach("end"); }
// @entry h_setdata reach=end
VF_HARNESS(h_setdata) {   // setting data anew replaces everything seen and written
  std::vector<std::string> tf{"I", "B"}; Header h; std::string hs = head(tf, 3, 2), d = raw(6), e = raw(6, "e"); load(h, hs); BT t(h, vf_pick("empty", 0, 1) ? std::string() : d); if (t.get_data().size() && vf_pick("warm", 0, 1)) { std::uint8_t q = t.get_column<std::uint8_t>("COL2")[0]; (void)q; if (vf_pick("upd", 0, 1)) t.get_column<std::uint8_t>("COL2")[1] = q; } t.set_data(e); std::uint8_t o = t.get_column<std::uint8_t>("COL2")[0]; vf_assert(o == (unsigned char)e[2], "new-value-seen"); vf_assert(t.get_column_metadata("COL2").index() == 2, "metadata"); vf_assert(vf_same(table(t, hs), block(e, 0)), "new-bytes-written"); vf_reach("end"); }
// @entry h_unknown reach=end
VF_HARNESS(h_unknown) { std::vector<std::string> tf{"I", "B"}; Header h; load(h, head(tf, 3, 1)); BT t(h, raw(3)); std::string n = vf_chars(4, "n", 33, 126); bool known = vf_same(n, "COL1") | vf_same(n, "COL2"); bool threw = false; try { (void)t.get_column_metadata(n); } catch (column_not_found_exception&) { threw = true; } vf_assert(threw == !known, "unknown-column-reported"); vf_reach("end"); }
// @entry h_meta reach=end
VF_HARNESS(h_meta) {   // optional column keywords
  int u = vf_pick("unit", 0, 1), di = vf_pick("disp", 0, 1), dm = vf_pick("dim", 0, 1); std::string x = vf_chars(2, "x", 'a', 'z'), y = vf_chars(2, "y", 'a', 'z'), z = vf_chars(2, "z", 'a', 'z'); std::string s = head({"I", "B"}, 3, 1); s.resize(s.size() - 80); if (u) s += vf_card("TUNIT2", "'" + x + "'"); if (di) s += vf_card("TDISP2", "'" + y + "'"); if (dm) s += vf_card("TDIM2", "'" + z + "'"); Header h; load(h, s + END); BT t(h, raw(3)); column c = t.get_column_metadata("COL2"), b = t.get_column_metadata("COL1"); vf_assert(vf_same(c.TUNIT(), u ? x : ""), "unit"); vf_assert(vf_same(c.TDISP(), di ? y : ""), "display"); vf_assert(vf_same(c.TDIM(), dm ? z : ""), "dimension"); vf_assert(b.TUNIT() == "" && b.TDISP() == "" && b.TDIM() == "", "other-column-untouched"); vf_assert(c.TSCAL() == 1 && c.TZERO() == 0, "default-scaling"); vf_reach("end"); }
// every column type a table offers, between two byte columns: read, taken again, updated, written
template <class T> static T big(std::string const& s, size_t at) { unsigned char x[sizeof(T)]; for (size_t i = 0; i < sizeof(T); i++) x[i] = (unsigned char)s[at + sizeof(T) - 1 - i]; T v; std::memcpy(&v, x, sizeof(T)); return v; }
template <class T> static bool bits(T const& a, T const& b) { unsigned char x[sizeof(T)], y[sizeof(T)]; std::memcpy(x, &a, sizeof(T)); std::memcpy(y, &b, sizeof(T)); bool ok = true; for (size_t i = 0; i < sizeof(T); i++) ok &= x[i] == y[i]; return ok; }
template <class T> struct Cell { static const size_t n = sizeof(T); static T get(std::string const& s, size_t at) { return big<T>(s, at); } static bool eq(T const& a, T const& b) { return bits(a, b); } };
template <> struct Cell<bool> { static const size_t n = 1; static bool get(std::string const& s, size_t at) { return s[at] == 'T'; } static bool eq(bool a, bool b) { return a == b; } };
template <class U> struct Cell<std::complex<U>> { static const size_t n = 2 * sizeof(U); static std::complex<U> get(std::string const& s, size_t at) { return std::complex<U>(big<U>(s, at), big<U>(s, at + sizeof(U))); } static bool eq(std::complex<U> const& a, std::complex<U> const& b) { return bits(a.real(), b.real()) & bits(a.imag(), b.imag()); } };
template <class U> struct Cell<std::pair<U, U>> { static const size_t n = 2 * sizeof(U); static std::pair<U, U> get(std::string const& s, size_t at) { return std::make_pair(big<U>(s, at), big<U>(s, at + sizeof(U))); } static bool eq(std::pair<U, U> const& a, std::pair<U, U> const& b) { return (a.first == b.first) & (a.second == b.second); } };
template <class T> static void one(char letter) {   // repeat count one, written or left out
  std::string f(1, letter); if (vf_pick("explicit", 0, 1)) f = "1" + f; const size_t n = Cell<T>::n, w = n + 2; std::vector<std::string> tf{"B", f, "B"}; std::string hs = head(tf, w, 2), d = raw(2 * w), e = raw(n, "e"); if (letter == 'L') { bool ok = true; for (int r = 0; r < 2; r++) ok &= (d[r * w + 1] == 'T') | (d[r * w + 1] == 'F'); ok &= (e[0] == 'T') | (e[0] == 'F'); vf_assume(ok); } Header h; load(h, hs); BT t(h, d); int r = vf_pick("row", 0, 1);
  for (int k = 0; k < 2; k++) { T v = t.get_column<T>("COL2")[k]; vf_assert(Cell<T>::eq(v, Cell<T>::get(d, k * w + 1)), "scalar-column-value"); } vf_assert(t.get_column<T>("COL2").get_row_count() == 2 && t.get_column<T>("COL2").get_column_number() == 2, "scalar-column-view");
  t.get_column<T>("COL2")[r] = Cell<T>::get(e, 0); T g = t.get_column<T>("COL2")[r]; vf_assert(Cell<T>::eq(g, Cell<T>::get(e, 0)), "scalar-column-update-seen"); T o = t.get_column<T>("COL2")[1 - r]; vf_assert(Cell<T>::eq(o, Cell<T>::get(d, (1 - r) * w + 1)), "scalar-column-other-row"); std::string x = d; x.replace(r * w + 1, n, e); vf_assert(vf_same(table(t, hs), block(x, 0)), "scalar-column-written"); vf_reach("end"); }
template <class T> static void many(char letter) {
  int c = vf_pick("repeat", 2, letter == 'L' ? VF_TIER(2, 3) : VF_TIER(3, 4)); const size_t n = Cell<T>::n * c, w = n + 2; std::vector<std::string> tf{"B", vf_dec(c) + letter, "B"}; std::string hs = head(tf, w, 2), d = raw(2 * w), e = raw(n, "e"); if (letter == 'L') { bool ok = true; for (int r = 0; r < 2; r++) for (int i = 0; i < c; i++) ok &= (d[r * w + 1 + i] == 'T') | (d[r * w + 1 + i] == 'F'); for (int i = 0; i < c; i++) ok &= (e[i] == 'T') | (e[i] == 'F'); vf_assume(ok); } Header h; load(h, hs); BT t(h, d); int r = vf_pick("row", 0, 1); typedef std::vector<T> L;
  for (int k = 0; k < 2; k++) { L v = t.get_column<L>("COL2")[k]; vf_assert(v.size() == (size_t)c, "array-column-length"); for (int i = 0; i < c; i++) vf_assert(Cell<T>::eq(v[i], Cell<T>::get(d, k * w + 1 + i * Cell<T>::n)), "array-column-element"); }
  L u; for (int i = 0; i < c; i++) u.push_back(Cell<T>::get(e, i * Cell<T>::n)); t.get_column<L>("COL2")[r] = u; L g = t.get_column<L>("COL2")[r]; vf_assert(g.size() == (size_t)c, "array-column-update-length"); for (int i = 0; i < c; i++) vf_assert(Cell<T>::eq(g[i], Cell<T>::get(e, i * Cell<T>::n)), "array-column-update-seen"); L o = t.get_column<L>("COL2")[1 - r]; vf_assert(o.size() == (size_t)c, "array-column-other-length"); for (int i = 0; i < c; i++) vf_assert(Cell<T>::eq(o[i], Cell<T>::get(d, (1 - r) * w + 1 + i * Cell<T>::n)), "array-column-other-row"); std::string x = d; x.replace(r * w + 1, n, e); vf_assert(vf_same(table(t, hs), block(x, 0)), "array-column-written"); vf_reach("end"); }
typedef std::pair<boost::int32_t, boost::int32_t> PR;
// @entry h_one_l reach=end
VF_HARNESS(h_one_l) { one<bool>('L'); }
// @entry h_many_l reach=end
VF_HARNESS(h_many_l) { many<bool>('L'); }
// @entry h_one_i reach=end
VF_HARNESS(h_one_i) { one<boost::int16_t>('I'); }
// @entry h_many_i reach=end
VF_HARNESS(h_many_i) { many<boost::int16_t>('I'); }
// @entry h_one_j reach=end
VF_HARNESS(h_one_j) { one<boost::int32_t>('J'); }
// @entry h_many_j reach=end
VF_HARNESS(h_many_j) { many<boost::int32_t>('J'); }
// @entry h_one_e reach=end
VF_HARNESS(h_one_e) { one<boost::float32_t>('E'); }
// @entry h_many_e reach=end
VF_HARNESS(h_many_e) { many<boost::float32_t>('E'); }
// @entry h_one_d reach=end
VF_HARNESS(h_one_d) { one<boost::float64_t>('D'); }
// @entry h_many_d reach=end
VF_HARNESS(h_many_d) { many<boost::float64_t>('D'); }
// @entry h_one_p reach=end
VF_HARNESS(h_one_p) { one<PR>('P'); }
// @entry h_many_p reach=end
VF_HARNESS(h_many_p) { many<PR>('P'); }
// @entry h_one_c reach=end
VF_HARNESS(h_one_c) { one<std::complex<boost::float32_t>>('C'); }
// @entry h_many_c reach=end
VF_HARNESS(h_many_c) { many<std::complex<boost::float32_t>>('C'); }
// @entry h_one_m reach=end
VF_HARNESS(h_one_m) { one<std::complex<boost::float64_t>>('M'); }
// @entry h_many_m reach=end
VF_HARNESS(h_many_m) { many<std::complex<boost::float64_t>>('M'); }
// @entry h_one_b reach=end
VF_HARNESS(h_one_b) { one<std::uint8_t>('B'); }
// @entry h_many_b reach=end
VF_HARNESS(h_many_b) { many<std::uint8_t>('B'); }
// @entry h_one_a reach=end
VF_HARNESS(h_one_a) { one<char>('A'); }
// @entry h_many_a reach=end
VF_HARNESS(h_many_a) { many<char>('A'); }
// @entry h_rows_many reach=end
VF_HARNESS(h_rows_many) {   // as many rows as the header says
  std::vector<std::string> tf{"B", "I"}; Header h; std::string hs = head(tf, 3, 300), d = raw(900); load(h, hs); BT t(h, d); vf_assert(t.get_data().size() == 300, "many-rows-count"); auto& b = t.get_column<std::uint8_t>("COL1"); auto& s = t.get_column<boost::int16_t>("COL2"); vf_assert(b.get_row_count() == 300, "many-rows-view"); static const int R[] = {0, 127, 128, 255, 256, 299}; for (int r : R) { std::uint8_t x = b[r]; boost::int16_t y = s[r]; vf_assert(x == (unsigned char)d[3 * r] && y == (boost::int16_t)((unsigned char)d[3 * r + 1] << 8 | (unsigned char)d[3 * r + 2]), "many-rows-value"); } std::uint8_t v = vf_u8("v"); int r = R[vf_pick("row", 0, 5)]; b[r] = v; d[3 * r] = (char)v; std::uint8_t g = b[r]; vf_assert(g == v, "many-rows-update"); vf_assert(vf_same(table(t, hs), block(d, 0)), "many-rows-written"); vf_reach("end"); }
// @entry h_columns_many reach=end
VF_HARNESS(h_columns_many) {
  const int N = 260; std::vector<std::string> tf(N, "B"); tf[100] = "I"; Header h; std::string hs = head(tf, N + 1, 2), d = raw(2 * (N + 1)); load(h, hs); BT t(h, d); static const int C[] = {0, 9, 99, 101, 127, 128, 254, 255, 256, 259}; for (int c : C) { column m = t.get_column_metadata("COL" + vf_dec(c + 1)); vf_assert(m.index() == (size_t)c + 1 && m.TBCOL() == (size_t)(c + (c > 100)), "many-columns-place"); auto& v = t.get_column<std::uint8_t>("COL" + vf_dec(c + 1)); for (int r = 0; r < 2; r++) { std::uint8_t x = v[r]; vf_assert(x == (unsigned char)d[r * (N + 1) + c + (c > 100)], "many-columns-value"); } } vf_assert(vf_same(table(t, hs), block(d, 0)), "many-columns-written"); vf_reach("end"); }
// @entry h_array_long reach=end
VF_HARNESS(h_array_long) {
  std::string s = vf_card("XTENSION", "'BINTABLE'") + vf_card("BITPIX", "8") + vf_card("NAXIS", "2") + vf_card("NAXIS1", "37") + vf_card("NAXIS2", "2") + vf_card("PCOUNT", "0") + vf_card("GCOUNT", "1") + vf_card("TFIELDS", "3") + vf_card("TFORM1", "'B'") + vf_card("TTYPE1", "'COL1'") + vf_card("TFORM2", "'17I'") + vf_card("TTYPE2", "'COL2'") + vf_card("TFORM3", "'9X'") + vf_card("TTYPE3", "'COL3'") + END; std::string d = raw(74); Header h; load(h, s); BT t(h, d); auto& v = t.get_column<std::vector<boost::int16_t>>("COL2"); for (int r = 0; r < 2; r++) { std::vector<boost::int16_t> x = v[r]; vf_assert(x.size() == 17, "long-array-size"); for (int j = 0; j < 17; j++) vf_assert(x[j] == (boost::int16_t)((unsigned char)d[37 * r + 1 + 2 * j] << 8 | (unsigned char)d[37 * r + 2 + 2 * j]), "long-array-value"); } std::vector<boost::int16_t> y(17, 0); for (auto& e : y) e = (boost::int16_t)vf_u16("y"); v[1] = y; for (int j = 0; j < 17; j++) { d[38 + 2 * j] = (char)((unsigned short)y[j] >> 8); d[39 + 2 * j] = (char)y[j]; } vf_assert(vf_same(table(t, s), block(d, 0)), "long-array-written"); vf_reach("end"); }
