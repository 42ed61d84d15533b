// C08: field geometry from TFORM
// @bounds binary formats: repeat count absent or 1..3 symbolic digits or 4..10 digits of which the first two and the last are symbolic, any type byte (0..255), surrounding quotes/blanks; ASCII formats: any letter, width of 1..3 symbolic digits (4 and 5 as well), optional .dd with symbolic digits
#include "vfh.h"
#include <boost/astronomy/io/binary_table.hpp>
#include <boost/astronomy/io/ascii_table.hpp>
#include <boost/astronomy/io/default_card_policy.hpp>
#include <boost/astronomy/io/binary_data_converter.hpp>
using namespace boost::astronomy; using namespace boost::astronomy::io;
typedef basic_binary_table_extension<card_policy, binary_data_converter> BT; typedef basic_ascii_table<card_policy, ascii_converter> AT;
static const char L[] = "LXBIJAEDCMP"; static const size_t S[] = {1, 1, 1, 2, 4, 1, 4, 8, 8, 16, 8};
static std::string deco(std::string s, int k) { return k == 0 ? s : k == 1 ? "'" + s + "'" : k == 2 ? "'" + s + "   '" : "  " + s + " "; }
// @entry h_bin reach=end
VF_HARNESS(h_bin) { size_t n = vf_pick("digits", 0, 3); vf_num d = vf_digits(n, "r"); int t = vf_pick("type", 0, 10), k = vf_pick("deco", 0, 3); std::string f = deco(d.text + L[t], k); uint64_t r = n ? d.value : 1;
  vf_assert(BT::element_count(f) == r, "element-count"); vf_assert(BT::get_type(f) == L[t], "type-letter"); vf_assert(BT::column_size(f) == (L[t] == 'X' ? (r + 7) / 8 : r * S[t]), "field-width"); vf_assert(binary_data_converter::element_count(f) == r, "converter-element-count"); vf_reach("end"); }
// @entry h_type reach=ok,bad
VF_HARNESS(h_type) { unsigned char c = vf_u8("c"); int t = -1; for (int i = 0; i < 11; i++) if (c == (unsigned char)L[i]) t = i; try { size_t s = BT::type_size((char)c); vf_reach("ok"); vf_assert(t >= 0, "unknown-type-accepted"); vf_assert(s == S[t], "type-size"); } catch (invalid_table_colum_format&) { vf_reach("bad"); vf_assert(t < 0, "known-type-refused"); } }
// @entry h_badbin reach=end
VF_HARNESS(h_badbin) { std::string f = vf_chars(1, "x", 'a', 'z') + vf_chars(1, "y", 'A', 'Z'); bool threw = false; try { (void)BT::element_count(f); } catch (std::exception&) { threw = true; } vf_assert(threw, "bad-repeat-accepted"); vf_reach("end"); }
// @entry h_ascii reach=end
VF_HARNESS(h_ascii) { size_t n = vf_pick("digits", 1, 3), m = vf_pick("frac", 0, 2); vf_num w = vf_digits(n, "w"); std::string dd = vf_chars(m, "d", '0', '9'); std::string l = vf_chars(1, "l", 'A', 'Z'); int k = vf_pick("deco", 0, 3); std::string f = deco(l + w.text + (m ? "." + dd : ""), k); vf_assert(AT::column_size(f) == w.value, "ascii-width"); vf_assert(AT::get_type(f) == l[0], "ascii-type"); vf_reach("end"); }
// @entry h_bin_wide reach=end
VF_HARNESS(h_bin_wide) { size_t n = vf_pick("digits", 4, 10); vf_num a = vf_digits(2, "r"), b = vf_digits(1, "s"); vf_assume(a.value > 0); int t = vf_pick("type", 0, 10); std::string f = a.text + std::string(n - 3, '7') + b.text + L[t]; uint64_t r = a.value; for (size_t i = 0; i < n - 3; i++) r = r * 10 + 7; r = r * 10 + b.value;
  vf_assert(BT::element_count(f) == r, "wide-element-count"); vf_assert(BT::column_size(f) == (L[t] == 'X' ? (r + 7) / 8 : r * S[t]), "wide-field-width"); vf_assert(binary_data_converter::element_count(f) == r, "wide-converter-element-count"); vf_reach("end"); }
// @entry h_ascii_wide reach=end
VF_HARNESS(h_ascii_wide) { size_t n = vf_pick("digits", 4, 5); vf_num w = vf_digits(n, "w"); int m = vf_pick("frac", 0, 1); std::string f = "E" + w.text + (m ? ".10" : ""); vf_assert(AT::column_size(f) == w.value, "wide-ascii-width"); vf_reach("end"); }
