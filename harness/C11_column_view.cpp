// C11: column views as a window on the table
// @bounds tables of 3 rows x 2 columns with symbolic bytes; all histories of 3 operations (thorough 4) from: read row, write row through proxy, write row through update_value, iterate and write, read through an iterator, take the view again; written values symbolic; bytes, 16 bit integers and arrays
// @assume table bytes are changed only through views (two views of the same column in one table are the same view)
#include "vfh.h"
#include <boost/astronomy/io/fits_stream.hpp>
#include <boost/astronomy/io/binary_table.hpp>
#include <boost/astronomy/io/default_card_policy.hpp>
#include <boost/astronomy/io/binary_data_converter.hpp>
using namespace boost::astronomy; using namespace boost::astronomy::io;
typedef std::vector<std::vector<std::string>> Table;
template <class T> struct V {};
template <> struct V<std::uint8_t> { static std::uint8_t mk() { return vf_u8("v"); } static std::string enc(std::uint8_t v) { return std::string(1, (char)v); } static bool eq(std::uint8_t a, std::uint8_t b) { return a == b; } static const size_t n = 1, cnt = 1; };
template <> struct V<boost::int16_t> { static boost::int16_t mk() { return (boost::int16_t)vf_u16("v"); } static std::string enc(boost::int16_t v) { std::string s(2, 0); s[0] = (char)((unsigned short)v >> 8); s[1] = (char)v; return s; } static bool eq(boost::int16_t a, boost::int16_t b) { return a == b; } static const size_t n = 2, cnt = 1; };
typedef std::vector<boost::int16_t> VI; template <> struct V<VI> { static VI mk() { VI r; r.push_back((boost::int16_t)vf_u16("v")); r.push_back((boost::int16_t)vf_u16("v")); return r; } static std::string enc(VI const& v) { return V<boost::int16_t>::enc(v[0]) + V<boost::int16_t>::enc(v[1]); } static bool eq(VI const& a, VI const& b) { return (a.size() == 2) & (b.size() == 2) && ((a[0] == b[0]) & (a[1] == b[1])); } static const size_t n = 4, cnt = 2; };
template <class T> static T dec(std::string const& s); template <> std::uint8_t dec(std::string const& s) { return (std::uint8_t)s[0]; } template <> boost::int16_t dec(std::string const& s) { return (boost::int16_t)((unsigned char)s[0] << 8 | (unsigned char)s[1]); } template <> VI dec(std::string const& s) { VI r; r.push_back(dec<boost::int16_t>(s.substr(0, 2))); r.push_back(dec<boost::int16_t>(s.substr(2, 2))); return r; }
template <class T> static void history(int steps) {
  const int R = 3; Table tb(R, std::vector<std::string>(2)); for (auto& r : tb) for (auto& f : r) { f.assign(V<T>::n, '?'); vf_bytes(&f[0], f.size(), "d"); } Table ref = tb; column m; m.index(2); m.total_elements(V<T>::cnt); column_view<T, binary_data_converter> v(m, &tb); vf_assert(v.get_row_count() == (size_t)R, "row-count"); vf_assert(v.get_column_number() == 2, "column-number");
  for (int k = 0; k < steps; k++) { int op = vf_pick("op", 0, 4), r = op < 4 ? (int)vf_pick("row", 0, R - 1) : 0;
    if (op == 0) { T g = v[r]; vf_assert(V<T>::eq(g, dec<T>(ref[r][1])), "read"); }
    else if (op == 1) { T x = V<T>::mk(); T res = (v[r] = x); vf_assert(V<T>::eq(res, x), "assignment-result"); ref[r][1] = V<T>::enc(x); }
    else if (op == 2) { T x = V<T>::mk(); v.update_value(r, x); ref[r][1] = V<T>::enc(x); }
    else if (op == 3) { T x = V<T>::mk(); auto it = v.begin(); for (int i = 0; i < r; i++) ++it; *it = x; ref[r][1] = V<T>::enc(x); }
    else { int i = 0; for (auto p : v) { T g = p; vf_assert(V<T>::eq(g, dec<T>(ref[i][1])), "iterated-value"); i++; } vf_assert(i == R, "iteration-visits-every-row"); }
    for (int i = 0; i < R; i++) for (int c = 0; c < 2; c++) vf_assert(vf_same(tb[i][c], ref[i][c]), "table-bytes");
  }
  for (int i = 0; i < R; i++) { T g = v[i]; vf_assert(V<T>::eq(g, dec<T>(ref[i][1])), "final-read"); } column_view<T, binary_data_converter> w(m, &tb); for (int i = 0; i < R; i++) { T g = w[i]; vf_assert(V<T>::eq(g, dec<T>(ref[i][1])), "fresh-view-agrees"); } vf_reach("end"); }
// @entry h_u8 reach=end
VF_HARNESS(h_u8) { history<std::uint8_t>(VF_TIER(3, 4)); }
// @entry h_i16 reach=end
VF_HARNESS(h_i16) { history<boost::int16_t>(VF_TIER(2, 3)); }
// @entry h_vec reach=end
VF_HARNESS(h_vec) { history<VI>(VF_TIER(2, 3)); }
// @entry h_swap reach=end
VF_HARNESS(h_swap) {   // values move between rows through the view
  Table tb(2, std::vector<std::string>(1)); for (auto& r : tb) { r[0].assign(2, '?'); vf_bytes(&r[0][0], 2, "d"); } Table o = tb; column m; m.index(1); m.total_elements(1); column_view<boost::int16_t, binary_data_converter> v(m, &tb); boost::int16_t a = v[0], b = v[1]; v[0] = b; v[1] = a; vf_assert(vf_same(tb[0][0], o[1][0]) && vf_same(tb[1][0], o[0][0]), "swapped"); boost::int16_t c = v[0]; vf_assert(c == b, "swapped-read"); vf_reach("end"); }
// @entry h_same_view reach=end
VF_HARNESS(h_same_view) {   // asking a table for the same column again yields the same contents
  std::string s = vf_card("XTENSION", "'BINTABLE'") + vf_card("BITPIX", "8") + vf_card("NAXIS", "2") + vf_card("NAXIS1", "2") + vf_card("NAXIS2", "3") + vf_card("PCOUNT", "0") + vf_card("GCOUNT", "1") + vf_card("TFIELDS", "2") + vf_card("TFORM1", "'B'") + vf_card("TTYPE1", "'A'") + vf_card("TFORM2", "'B'") + vf_card("TTYPE2", "'B'") + vf_pad("END", 80); vf_put("h", s); fits_stream f; f.set_file(vf_path("h")); header<card_policy> h; h.read_header(f); std::string d(6, '?'); vf_bytes(&d[0], 6, "d"); basic_binary_table_extension<card_policy, binary_data_converter> t(h, d); std::string ref = d;
  for (int k = 0; k < VF_TIER(3, 4); k++) { int c = vf_pick("c", 0, 1), r = vf_pick("r", 0, 2); auto& v = t.get_column<std::uint8_t>(c ? "B" : "A"); std::uint8_t g = v[r]; vf_assert(g == (unsigned char)ref[2 * r + c], "value-through-table"); std::uint8_t x = vf_u8("v"); v[r] = x; ref[2 * r + c] = (char)x; } for (int r = 0; r < 3; r++) for (int c = 0; c < 2; c++) { std::uint8_t g = t.get_column<std::uint8_t>(c ? "B" : "A")[r]; vf_assert(g == (unsigned char)ref[2 * r + c], "final-value"); vf_assert(t.get_data()[r][c][0] == ref[2 * r + c], "final-byte"); } vf_reach("end"); }
