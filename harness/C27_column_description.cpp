// C27: descriptions of table columns
// @bounds binary and ASCII tables of 1..3 columns (12 and 101 for the numbering), with 0..2 rows; every keyword of the description present or absent, in two orders in the header, with symbolic texts of 1..3 characters and symbolic decimals of 3 digits with exponent E or D; every public setter of a column with symbolic values
// @outside comment() (the library takes it from a card named like the column); TNULL, THEAP and other keywords the library does not offer
#include "vfh.h"
#include <cstring>
#include <boost/astronomy/io/fits_stream.hpp>
#include <boost/astronomy/io/binary_table.hpp>
#include <boost/astronomy/io/ascii_table.hpp>
#include <boost/astronomy/io/default_card_policy.hpp>
#include <boost/astronomy/io/binary_data_converter.hpp>
#include <boost/astronomy/io/string_conversion_utility.hpp>
using namespace boost::astronomy; using namespace boost::astronomy::io;
typedef header<card_policy> Header; typedef basic_binary_table_extension<card_policy, binary_data_converter> BT; typedef basic_ascii_table<card_policy, ascii_converter> AT;
static const std::string END = vf_pad("END", 80);
static void load(Header& h, std::string const& s) { vf_put("a", s); fits_stream f; f.set_file(vf_path("a")); h.read_header(f); }
static bool same(double a, double b) { uint64_t x, y; std::memcpy(&x, &a, 8); std::memcpy(&y, &b, 8); return x == y; }
static std::string base(bool ascii, size_t fields, size_t n1, size_t rows) { return vf_card("XTENSION", ascii ? "'TABLE'" : "'BINTABLE'") + vf_card("BITPIX", "8") + vf_card("NAXIS", "2") + vf_card("NAXIS1", vf_dec(n1)) + vf_card("NAXIS2", vf_dec(rows)) + vf_card("PCOUNT", "0") + vf_card("GCOUNT", "1") + vf_card("TFIELDS", vf_dec(fields)); }
static std::string q(std::string const& s) { return "'" + s + "'"; }
struct Dec { std::string t; double v; };
static Dec dec(const char* nm, int kind) { Dec r; std::string d = vf_chars(3, nm, '0', '9'), e; r.t = d.substr(0, 1) + "." + d.substr(1); e = r.t; if (kind == 1) { r.t = "-" + r.t + "E1"; e = "-" + e + "E1"; } if (kind == 2) { r.t += "D-2"; e += "E-2"; } r.v = vf_decimal(e.data(), e.size()); return r; }
// the optional keywords of column n: a bit of mask for each
struct Opt { std::string type, unit, disp, dim; Dec scal, zero; int mask; };
static Opt opt(int mask, int kind) { Opt o; o.mask = mask; o.type = vf_chars(2, "ttype", 'a', 'z'); o.unit = vf_chars(2, "tunit", 33, 126); vf_none_of(o.unit, '\''); vf_none_of(o.unit, '/'); o.disp = vf_chars(3, "tdisp", '0', 'Z'); o.dim = vf_chars(1, "tdim", '1', '9'); o.scal = dec("tscal", kind); o.zero = dec("tzero", (kind + 1) % 3); return o; }
static std::string cards(Opt const& o, int n, bool ascii, bool back) { std::string N = vf_dec(n), r; std::vector<std::string> c; if (o.mask & 1) c.push_back(vf_card("TUNIT" + N, q(o.unit), "unit")); if (o.mask & 2) c.push_back(vf_card("TSCAL" + N, o.scal.t, "scale")); if (o.mask & 4) c.push_back(vf_card("TZERO" + N, o.zero.t)); if (o.mask & 8) c.push_back(vf_card("TDISP" + N, q(o.disp))); if ((o.mask & 16) && !ascii) c.push_back(vf_card("TDIM" + N, q("(" + o.dim + ")"))); for (size_t i = 0; i < c.size(); i++) r += c[back ? c.size() - 1 - i : i]; return r; }
static void check(column c, Opt const& o, bool ascii, size_t index, std::string const& form, size_t bcol, size_t elems) {
  vf_assert(c.index() == index, "index"); vf_assert(vf_same(c.TFORM(), form), "format"); vf_assert(c.TBCOL() == bcol, "start"); vf_assert(c.total_elements() == elems, "elements"); vf_assert(vf_same(c.TTYPE(), o.type), "name"); vf_assert(vf_same(c.TUNIT(), o.mask & 1 ? o.unit : ""), "unit"); vf_assert(same(c.TSCAL(), o.mask & 2 ? o.scal.v : 1), "scale"); vf_assert(same(c.TZERO(), o.mask & 4 ? o.zero.v : 0), "zero"); vf_assert(vf_same(c.TDISP(), o.mask & 8 ? o.disp : ""), "display"); vf_assert(vf_same(c.TDIM(), (o.mask & 16) && !ascii ? "(" + o.dim + ")" : ""), "dimension"); }
template <bool ASC> struct Tab { typedef BT type; }; template <> struct Tab<true> { typedef AT type; };
template <bool ASC> static void describe() {   // the description of a column is what the header says about it and about no other column
  int at = vf_pick("column", 0, 2), rows = vf_pick("rows", 0, 1), back = vf_pick("back", 0, 1), mask = vf_pick("mask", 0, ASC ? 15 : 31), place = vf_pick("place", 0, 1); Opt o = opt(mask, (mask + back) % 3); std::string bf[] = {"2I", "B", "3A"}, af[] = {"I4", "A2", "A3"}; size_t bs[] = {4, 1, 3}, as[] = {4, 2, 3}, be[] = {2, 1, 3}, bb[] = {0, 4, 5}, ab[] = {2, 7, 10}; size_t n1 = ASC ? 12 : 8;
  std::string s = base(ASC, 3, n1, rows), mine = vf_card("TTYPE" + vf_dec(at + 1), q(o.type)) + cards(o, at + 1, ASC, back); if (place) s += mine; for (int i = 0; i < 3; i++) { std::string N = vf_dec(i + 1); s += vf_card("TFORM" + N, q(ASC ? af[i] : bf[i])); if (ASC) s += vf_card("TBCOL" + N, vf_dec(ab[i])); if (i != at) s += vf_card("TTYPE" + N, q("COL" + N)); } if (!place) s += mine; Header h; load(h, s + END);
  std::string d(n1 * rows, ASC ? ' ' : 0); typename Tab<ASC>::type t(h, d); Opt none; none.mask = 0; for (int i = 0; i < 3; i++) { Opt e = i == at ? o : none; if (i != at) e.type = "COL" + vf_dec(i + 1); column c = t.get_column_metadata(e.type); check(c, e, ASC, i + 1, ASC ? af[i] : bf[i], ASC ? ab[i] : bb[i], ASC ? 0 : be[i]); }
  typename Tab<ASC>::type u(t); check(u.get_column_metadata(o.type), o, ASC, at + 1, ASC ? af[at] : bf[at], ASC ? ab[at] : bb[at], ASC ? 0 : be[at]); u.set_data(d); check(u.get_column_metadata(o.type), o, ASC, at + 1, ASC ? af[at] : bf[at], ASC ? ab[at] : bb[at], ASC ? 0 : be[at]); vf_reach("end"); (void)bs; (void)as; }
// @entry h_binary reach=end
VF_HARNESS(h_binary) { describe<false>(); }
// @entry h_ascii reach=end
VF_HARNESS(h_ascii) { describe<true>(); }
template <bool ASC> static void many() {   // columns beyond the ninth, and keywords that only start alike
  int at = vf_pick("column", 0, 11); Opt o = opt(31, at % 3); std::string s = base(ASC, 12, 24, 1), f = ASC ? "A2" : "2B"; for (int i = 11; i >= 0; i--) { std::string N = vf_dec(i + 1); if (i == at) s += vf_card("TTYPE" + N, q(o.type)) + cards(o, i + 1, ASC, false); else s += vf_card("TTYPE" + N, q("COL" + N)); s += vf_card("TFORM" + N, q(f)); if (ASC) s += vf_card("TBCOL" + N, vf_dec(2 * i + 1)); } Header h; load(h, s + END); typename Tab<ASC>::type t(h, std::string(24, ' ')); Opt none; none.mask = 0;
  for (int i = 0; i < 12; i++) { Opt e = i == at ? o : none; if (i != at) e.type = "COL" + vf_dec(i + 1); check(t.get_column_metadata(e.type), e, ASC, i + 1, f, ASC ? 2 * i + 1 : 2 * i, ASC ? 0 : 2); } vf_reach("end"); }
// @entry h_many_binary reach=end
VF_HARNESS(h_many_binary) { many<false>(); }
// @entry h_many_ascii reach=end
VF_HARNESS(h_many_ascii) { many<true>(); }
// @entry h_view_binary reach=end
VF_HARNESS(h_view_binary) {   // a view of a column carries its description; changing that of the view or of a copy changes no other
  Opt o = opt(31, vf_pick("kind", 0, 2)); std::string s = base(false, 2, 5, 2) + vf_card("TFORM1", "'B'") + vf_card("TTYPE1", "'COL1'") + vf_card("TFORM2", "'2I'") + vf_card("TTYPE2", q(o.type)) + cards(o, 2, false, false); Header h; load(h, s + END); BT t(h, std::string(10, 0)); auto& v = t.get_column<std::vector<std::int16_t>>(o.type); check(v, o, false, 2, "2I", 1, 2); vf_assert(v.get_column_number() == 2 && v.get_row_count() == 2, "view-number"); column c = t.get_column_metadata(o.type); c.TSCAL(7); c.TUNIT("x"); c.TTYPE("y"); c.index(1); v.TDISP("Z"); v.TZERO(9); Opt w = o; w.disp = "Z"; w.zero.v = 9; check(t.get_column<std::vector<std::int16_t>>(o.type), w, false, 2, "2I", 1, 2); check(t.get_column_metadata(o.type), o, false, 2, "2I", 1, 2); vf_reach("end"); }
// @entry h_view_ascii reach=end
VF_HARNESS(h_view_ascii) { Opt o = opt(15, vf_pick("kind", 0, 2)); std::string s = base(true, 2, 6, 1) + vf_card("TFORM1", "'A2'") + vf_card("TBCOL1", "1") + vf_card("TTYPE1", "'COL1'") + vf_card("TFORM2", "'I3'") + vf_card("TBCOL2", "4") + vf_card("TTYPE2", q(o.type)) + cards(o, 2, true, true); Header h; load(h, s + END); AT t(h, "ab 123"); auto& v = t.get_column<long long>(o.type); check(v, o, true, 2, "I3", 4, 0); vf_assert(v.get_column_number() == 2 && v.get_row_count() == 1, "view-number"); column c = t.get_column_metadata(o.type); c.TFORM("A9"); c.TBCOL(9); check(t.get_column_metadata(o.type), o, true, 2, "I3", 4, 0); vf_reach("end"); }
// @entry h_missing reach=end,thrown
VF_HARNESS(h_missing) {   // mandatory keywords are asked for, optional ones are not
  bool asc = vf_pick("ascii", 0, 1), empty = vf_pick("empty", 0, 1); int m = vf_pick("missing", 0, 4); std::string s = base(asc, 2, 6, 1); if (m == 1) s.resize(s.size() - 80); if (m != 2) s += vf_card("TFORM2", asc ? "'A3'" : "'3A'"); if (m != 4) s += vf_card("TTYPE2", "'N2'"); if (asc && m != 3) s += vf_card("TBCOL2", "4"); s += vf_card("TFORM1", asc ? "'A3'" : "'3A'"); if (asc) s += vf_card("TBCOL1", "1"); s += vf_card("TTYPE1", "'N1'"); Header h; load(h, s + END); std::string d = empty ? "" : "abcdef"; bool threw = false; try { if (asc) { AT t(h, d); vf_assert(vf_same(t.get_column_metadata("N1").TTYPE(), "N1"), "first"); bool no = false; try { (void)t.get_column_metadata("N2"); } catch (column_not_found_exception&) { no = true; } vf_assert(no == (m == 4), "unnamed-column"); } else { BT t(h, d); vf_assert(vf_same(t.get_column_metadata("N1").TTYPE(), "N1"), "first"); bool no = false; try { (void)t.get_column_metadata("N2"); } catch (column_not_found_exception&) { no = true; } vf_assert(no == (m == 4), "unnamed-column"); } vf_reach("end"); } catch (std::out_of_range&) { threw = true; vf_reach("thrown"); } vf_assert(threw == (m == 1 || m == 2 || (m == 3 && asc)), "missing-keyword-reported"); }
// @entry h_twice reach=end
VF_HARNESS(h_twice) {   // two columns of one name: the first one is found
  bool asc = vf_pick("ascii", 0, 1); std::string n = vf_chars(2, "n", 'a', 'z'), u = vf_chars(2, "u", 'a', 'z'), w = vf_chars(2, "w", 'a', 'z'); std::string s = base(asc, 3, 6, 1) + vf_card("TTYPE3", q(n)) + vf_card("TUNIT3", q(w)); for (int i = 1; i <= 3; i++) { s += vf_card("TFORM" + vf_dec(i), asc ? "'A2'" : "'2A'"); if (asc) s += vf_card("TBCOL" + vf_dec(i), vf_dec(2 * i - 1)); } s += vf_card("TTYPE2", q(n)) + vf_card("TUNIT2", q(u)) + vf_card("TTYPE1", "'COL1'"); Header h; load(h, s + END); column c = asc ? AT(h, "aabbcc").get_column_metadata(n) : BT(h, "aabbcc").get_column_metadata(n); vf_assert(c.index() == 2 && vf_same(c.TUNIT(), u), "first-of-two"); vf_reach("end"); }
// @entry h_column reach=end
VF_HARNESS(h_column) {   // every field of a description is kept as set, whatever else is set before or after it
  column c = vf_pick("from", 0, 2) == 0 ? column() : column(3, "B"); Opt o; o.mask = 31; size_t ix = vf_u64("index"), bc = vf_u64("bcol"), te = vf_u64("elements"); double sc = vf_f64("scal"), ze = vf_f64("zero"); std::string st[6]; static const char* NM[] = {"type", "unit", "disp", "dim", "form", "com"}; for (int i = 0; i < 6; i++) st[i] = vf_chars(1 + i % 3, NM[i], 0, 255); int first = vf_pick("first", 0, 10); for (int k = 0; k <= 10; k++) switch ((first + 3 * k) % 11) { case 0: c.index(ix); break; case 1: c.TTYPE(st[0]); break; case 2: c.TBCOL(bc); break; case 3: c.TFORM(st[4]); break; case 4: c.TUNIT(st[1]); break; case 5: c.TSCAL(sc); break; case 6: c.TZERO(ze); break; case 7: c.TDISP(st[2]); break; case 8: c.TDIM(st[3]); break; case 9: c.comment(st[5]); break; case 10: c.total_elements(te); break; }
  column e(c), g; g = e; vf_assert(g.index() == ix && g.TBCOL() == bc && g.total_elements() == te, "numbers"); vf_assert(same(g.TSCAL(), sc) && same(g.TZERO(), ze), "scaling"); vf_assert(vf_same(g.TTYPE(), st[0]) && vf_same(g.TUNIT(), st[1]) && vf_same(g.TDISP(), st[2]) && vf_same(g.TDIM(), st[3]) && vf_same(g.TFORM(), st[4]) && vf_same(g.comment(), st[5]), "texts"); vf_reach("end"); }
template <bool ASC> static void hundred() {   // columns with three digits
  const int N = 101; static const int P[] = {0, 9, 98, 99, 100}; int at = P[vf_pick("column", 0, 4)]; Opt o = opt(31, at % 3); std::string s = base(ASC, N, 2 * N, 1), f = ASC ? "A2" : "2B"; for (int i = 0; i < N; i++) { std::string M = vf_dec(i + 1); if (i == at) s += vf_card("TTYPE" + M, q(o.type)) + cards(o, i + 1, ASC, false); else s += vf_card("TTYPE" + M, q("COL" + M)); s += vf_card("TFORM" + M, q(f)); if (ASC) s += vf_card("TBCOL" + M, vf_dec(2 * i + 1)); } Header h; load(h, s + END); typename Tab<ASC>::type t(h, std::string(2 * N, ' ')); Opt none; none.mask = 0;
  for (int i : P) { Opt e = i == at ? o : none; if (i != at) e.type = "COL" + vf_dec(i + 1); check(t.get_column_metadata(e.type), e, ASC, i + 1, f, ASC ? 2 * i + 1 : 2 * i, ASC ? 0 : 2); } vf_reach("end"); }
// @entry h_hundred_binary reach=end
VF_HARNESS(h_hundred_binary) { hundred<false>(); }
// @entry h_hundred_ascii reach=end
VF_HARNESS(h_hundred_ascii) { hundred<true>(); }
