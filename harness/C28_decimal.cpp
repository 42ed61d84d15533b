// C28: real numbers as decimal text
// @bounds every finite float and double for writing (the text of a number is opaque, in the shapes 0, short and longest, of either sign, with and without exponent); for reading all texts [sign] 0..3 digits [. 0..3 digits] [E or D [sign] 1..2 digits up to 15] with symbolic digits (thorough: up to 5 and 4 digits); arbitrary texts of up to 3 characters (thorough 4)
// @outside texts of more than 15 digits or with exponents beyond 22; the decimal conversion of the C++ runtime itself (strtod and printf are taken to be exact, and different numbers to have different texts); implicit decimal points of ASCII fields
#include "vfh.h"
#include <cstring>
#include <complex>
#include <boost/astronomy/io/fits_stream.hpp>
#include <boost/astronomy/io/ascii_table.hpp>
#include <boost/astronomy/io/card.hpp>
#include <boost/astronomy/io/default_card_policy.hpp>
#include <boost/astronomy/io/string_conversion_utility.hpp>
using namespace boost::astronomy; using namespace boost::astronomy::io;
typedef card<card_policy> Card; typedef header<card_policy> Header; typedef basic_ascii_table<card_policy, ascii_converter> AT;
static bool same(double a, double b) { uint64_t x, y; std::memcpy(&x, &a, 8); std::memcpy(&y, &b, 8); return x == y; }
static bool same(float a, float b) { uint32_t x, y; std::memcpy(&x, &a, 4); std::memcpy(&y, &b, 4); return x == y; }
static double fin(const char* n) { double v = vf_f64(n); uint64_t u; std::memcpy(&u, &v, 8); vf_assume(((u >> 52) & 0x7ff) != 0x7ff); return v; }
static float finf(const char* n) { float v = vf_f32(n); uint32_t u; std::memcpy(&u, &v, 4); vf_assume(((u >> 23) & 0xff) != 0xff); return v; }
// a decimal text t and the same text e with the exponent letter of the runtime
struct Text { std::string t, e; bool valid; };
static Text text(bool dot, bool small = false) {
  if (small) { Text r; r.t = std::string(vf_pick("neg", 0, 1), '-') + vf_chars(1, "i", '0', '9') + "." + vf_chars(2, "f", '0', '9'); r.e = r.t; r.valid = true; int x = vf_pick("exp", 0, 2); if (x) { std::string d = vf_chars(1, "x", '0', '9'); r.t += (x == 1 ? "E-" : "D+") + d; r.e += (x == 1 ? "E-" : "E+") + d; } return r; }
  int s = vf_pick("sign", 0, 2), a = vf_pick("int", 0, VF_TIER(2, 4)), p = dot ? 1 : (int)vf_pick("point", 0, 1), b = p ? (int)vf_pick("frac", 0, VF_TIER(2, 4)) : 0, x = vf_pick("exp", 0, 4); Text r; r.t = s == 1 ? "-" : s == 2 ? "+" : ""; r.t += vf_chars(a, "i", '0', '9'); if (p) r.t += "." + vf_chars(b, "f", '0', '9'); r.valid = a + b > 0; r.e = r.t;
  if (x) { static const char* S[] = {"", "", "-", "+", "-"}; int n = x == 3 ? 2 : 1; std::string d = vf_chars(n, "x", '0', '9'); if (n == 2) vf_assume((d[0] == '0') | ((d[0] == '1') & (d[1] <= '5'))); r.t += (vf_pick("letter", 0, 1) ? "D" : "E"); r.e += "E"; r.t += S[x] + d; r.e += S[x] + d; } return r; }
template <class T> struct N; template <> struct N<double> { static double of(std::string const& s) { return vf_decimal(s.data(), s.size()); } }; template <> struct N<float> { static float of(std::string const& s) { return vf_decimal_f(s.data(), s.size()); } };
template <class T> static void convert() { Text x = text(false); bool threw = false; try { T v = ascii_converter::deserialize_to<T>(x.t, 0); vf_assert(x.valid, "no-number-accepted"); vf_assert(same(v, N<T>::of(x.e)), "text-value"); } catch (invalid_cast&) { threw = true; } vf_assert(threw == !x.valid, "number-refused"); vf_reach("end"); }
// @entry h_convert_d reach=end
VF_HARNESS(h_convert_d) { convert<double>(); }
// @entry h_convert_f reach=end
VF_HARNESS(h_convert_f) { convert<float>(); }
// @entry h_card_read reach=end
VF_HARNESS(h_card_read) {   // the value of a card, wherever it stands in its field, with and without comment, in both types and any order
  Text x = text(true, true); vf_assume(x.valid); int lead = vf_pick("lead", 0, 1) ? 20 - (int)x.t.size() : 0, com = vf_pick("comment", 0, 1), first = vf_pick("first", 0, 1); std::string s = "CRVAL1  = " + std::string(lead, ' ') + x.t + (com ? " / deg" : ""); Card c(vf_pick("padded", 0, 1) ? vf_pad(s, 80) : s);
  if (first) { float f = c.value<float>(); vf_assert(same(f, N<float>::of(x.e)), "card-float"); } double d = c.value<double>(); vf_assert(same(d, N<double>::of(x.e)), "card-double"); d = c.value<double>(); vf_assert(same(d, N<double>::of(x.e)), "card-double-again"); float f = c.value<float>(); vf_assert(same(f, N<float>::of(x.e)), "card-float-after"); std::string t = c.value<std::string>(); vf_assert(vf_same(t, x.t), "card-text"); vf_reach("end"); }
template <class T> static void complex_read() { std::string a = vf_chars(1, "a", '0', '9') + "." + vf_chars(2, "b", '0', '9'), b = std::string(vf_pick("neg", 0, 1), '-') + vf_chars(2, "c", '0', '9') + "." + vf_chars(1, "d", '0', '9'); Card c("Z       = " + std::string(vf_pick("lead", 0, 2), ' ') + a + std::string(vf_pick("gap", 1, 3), ' ') + b + (vf_pick("com", 0, 1) ? " / c" : "")); std::complex<T> z = c.value<std::complex<T>>(); vf_assert(same(z.real(), N<T>::of(a)), "complex-real"); vf_assert(same(z.imag(), N<T>::of(b)), "complex-imaginary"); vf_reach("end"); }
// @entry h_complex_d reach=end
VF_HARNESS(h_complex_d) { complex_read<double>(); }
// @entry h_complex_f reach=end
VF_HARNESS(h_complex_f) { complex_read<float>(); }
// @entry h_garbage reach=num,bad
VF_HARNESS(h_garbage) {   // text that is no decimal number is reported
  int n = vf_pick("n", 0, VF_TIER(2, 3)); std::string s = vf_chars(n, "s", 33, 126); bool nn = true; for (char c : s) nn &= (c != 'n') & (c != 'N') & (c != 'i') & (c != 'I'); vf_assume(nn);
  size_t i = 0; bool dig = false, ok = true; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; bool dot = false; while (i < s.size() && ((s[i] >= '0' && s[i] <= '9') || (s[i] == '.' && !dot))) { if (s[i] == '.') dot = true; else dig = true; i++; } if (i < s.size() && dig && (s[i] == 'E' || s[i] == 'e' || s[i] == 'D')) { i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; size_t k = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') i++; if (i == k) ok = false; } ok = ok && dig && i == s.size();
  bool threw = false; try { (void)ascii_converter::deserialize_to<double>(s, 0); } catch (invalid_cast&) { threw = true; } vf_assert(threw == !ok, "garbage-reported"); if (ok) vf_reach("num"); else vf_reach("bad"); }
static void no_lower(std::string const& v) { bool ok = true; for (char c : v) ok &= !((c >= 'a') & (c <= 'z')); vf_assert(ok, "exponent-letter"); }
template <class T> static void write(T v, T w) {   // a number written into a card is read back from it exactly, at once and from its text
  int how = vf_pick("how", 0, 1); Card c; if (how) { c.create_card("CDELT1", w, ""); c.set_value(v); } else c.create_card("CDELT1", v, "a/b"); std::string r = c.raw_card(); vf_assert(r.size() == 80, "eighty-characters"); vf_assert(vf_same(r.substr(0, 10), "CDELT1  = "), "keyword-and-indicator"); vf_assert((r[29] != ' ') & ((r[10] != ' ') | (r[30] == ' ')), "right-justified-in-field"); if (!how) { std::string tail = vf_pad(" /a/b", 50); size_t at = 30; while (at < 40 && r[at] != ' ') at++; vf_assert(vf_same(r.substr(at, 5), " /a/b"), "comment-after-number"); no_lower(r.substr(10, at - 10)); } else no_lower(r);
  T g = c.value<T>(); vf_assert(same(g, v), "number-read-back"); Card d(r); g = d.value<T>(); vf_assert(same(g, v), "number-from-text"); Card e(d); g = e.value<T>(); vf_assert(same(g, v), "number-from-copy"); vf_reach("end"); }
// @entry h_write_d reach=end
VF_HARNESS(h_write_d) { double v = fin("v"), w = 1.5; write<double>(v, w); }
// @entry h_write_f reach=end
VF_HARNESS(h_write_f) { float v = finf("v"), w = 1.5f; write<float>(v, w); }
template <class T> static void write_complex(T a, T b) { Card c; c.create_card("Z", std::complex<T>(a, b), ""); vf_assert(c.raw_card().size() == 80, "complex-eighty"); std::complex<T> z = c.value<std::complex<T>>(); vf_assert(same(z.real(), a) & same(z.imag(), b), "complex-read-back"); Card d(c.raw_card()); z = d.value<std::complex<T>>(); vf_assert(same(z.real(), a) & same(z.imag(), b), "complex-from-text"); vf_reach("end"); }
// @entry h_write_cd reach=end
VF_HARNESS(h_write_cd) { double a = fin("a"), b = fin("b"); write_complex<double>(a, b); }
// @entry h_write_cf reach=end
VF_HARNESS(h_write_cf) { float a = finf("a"), b = finf("b"); write_complex<float>(a, b); }
static void load(Header& h, std::string const& s) { vf_put("h", s); fits_stream f; f.set_file(vf_path("h")); h.read_header(f); }
static std::string head(const char* form, size_t w) { return vf_card("XTENSION", "'TABLE'") + vf_card("BITPIX", "8") + vf_card("NAXIS", "2") + vf_card("NAXIS1", vf_dec(w + 4)) + vf_card("NAXIS2", "2") + vf_card("PCOUNT", "0") + vf_card("GCOUNT", "1") + vf_card("TFIELDS", "3") + vf_card("TFORM1", "'A2'") + vf_card("TBCOL1", "1") + vf_card("TTYPE1", "'A'") + vf_card("TFORM2", std::string("'") + form + "'") + vf_card("TBCOL2", "3") + vf_card("TTYPE2", "'X'") + vf_card("TFORM3", "'A2'") + vf_card("TBCOL3", vf_dec(w + 3)) + vf_card("TTYPE3", "'B'") + vf_pad("END", 80); }
// @entry h_column reach=end
VF_HARNESS(h_column) {   // real columns of an ASCII table
  Text x = text(true, true); vf_assume(x.valid); int row = vf_pick("row", 0, 1), left = vf_pick("left", 0, 1), dbl = vf_pick("double", 0, 1); std::string f = x.t, o = vf_pad("1.25", 14); f = left ? vf_pad(f, 14) : std::string(14 - f.size(), ' ') + f; Header h; load(h, head(dbl ? "D14.5" : row ? "E14.3" : "F14.3", 14)); AT t(h, "ab" + (row ? o : f) + "cd" + "ef" + (row ? f : o) + "gh");
  if (dbl) { auto& c = t.get_column<double>("X"); double v = c[row], w = c[1 - row]; vf_assert(same(v, N<double>::of(x.e)), "double-column"); vf_assert(w == 1.25, "other-row"); v = c[row]; vf_assert(same(v, N<double>::of(x.e)), "double-column-again"); } else { auto& c = t.get_column<float>("X"); float v = c[row], w = c[1 - row]; vf_assert(same(v, N<float>::of(x.e)), "float-column"); vf_assert(w == 1.25f, "other-row-float"); } vf_reach("end"); }
template <class T> static void update(T v) {   // an updated number is seen at once and touches nothing but its field
  Header h; std::string hs = head("D24.15", 24); load(h, hs); int row = vf_pick("row", 0, 1); std::string a = vf_pad("2.5", 24), d = "ab" + a + "cd" + "ef" + a + "gh"; AT t(h, d); auto& c = t.get_column<T>("X"); c[row] = v; T g = c[row]; vf_assert(same(g, v), "update-seen"); T o = c[1 - row]; vf_assert(o == T(2.5), "update-other-row"); fits_stream s; s.create_file(vf_path("o")); t.write_to(s); s.close(); std::string w = vf_file("o").substr(2880); vf_assert(w.size() == 2880, "one-block"); size_t at = 28 * row + 2; std::string q(24, ' '); q.replace(21, 3, "2.5"); size_t oa = 28 * (1 - row) + 2; vf_assert(vf_same(w.substr(oa, 24), q), "other-field"); vf_assert(vf_same(w.substr(0, 2) + w.substr(26, 4) + w.substr(54, 2), "abcdefgh"), "neighbours"); vf_assert(vf_same(w.substr(56), std::string(2880 - 56, ' ')), "fill"); no_lower(w.substr(at, 24)); vf_assert(w[at + 23] != ' ', "right-justified"); vf_reach("end"); }
// @entry h_update_d reach=end
VF_HARNESS(h_update_d) { double v = fin("v"); update<double>(v); }
// @entry h_update_f reach=end
VF_HARNESS(h_update_f) { float v = finf("v"); update<float>(v); }
// @entry h_header reach=end
VF_HARNESS(h_header) {   // through a header, next to other keywords
  Text x = text(true, true); vf_assume(x.valid); Header h; load(h, vf_card("SIMPLE", "T") + vf_card("BITPIX", "8") + vf_card("NAXIS", "0") + vf_card("CRPIX1", "7.5") + vf_card("CRVAL1", x.t) + vf_card("CDELT1", "-0.5") + vf_pad("END", 80)); double d = h.value_of<double>("CRVAL1"), e = h.value_of<double>("CRPIX1"), g = h.value_of<double>("CDELT1"); vf_assert(same(d, N<double>::of(x.e)), "header-value"); vf_assert(e == 7.5 && g == -0.5, "header-neighbours"); vf_reach("end"); }
