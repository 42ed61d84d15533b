// C04: reading a header unit
// @bounds headers of 3..40, 150 and 300 cards; 0..4 axes (and 9, 10, 12 and 101 axes; lengths up to 11 digits) (0..3 in the symbolic-length entries; thorough up to 12 axes) with symbolic lengths of up to 3 digits; BITPIX text of 1..3 symbolic digits with either sign; card order permuted; one mandatory card missing; file cut at any card boundary and at symbolic byte offsets; keyword queries with symbolic 4-letter keywords
// @outside other numbers of cards
#include "vfh.h"
#include <boost/astronomy/io/header.hpp>
#include <boost/astronomy/io/fits_stream.hpp>
#include <boost/astronomy/io/default_card_policy.hpp>
using namespace boost::astronomy; using io::fits_stream; using io::card_policy;
typedef io::header<card_policy> Header;
static const std::string END = vf_pad("END", 80);
static std::string block(std::string s) { size_t k = (2880 - s.size() % 2880) % 2880; return s.append(k, ' '); }
static void load(Header& h, std::string const& s) { vf_put("f", s); fits_stream f; f.set_file(vf_path("f")); h.read_header(f); }
static bool bitpix_ok(int v) { return (v == 8) | (v == 16) | (v == 32) | (v == -32) | (v == -64); }
// @entry h_bitpix reach=ok,bad
VF_HARNESS(h_bitpix) {   // every BITPIX text of one to three digits, either sign
  size_t n = vf_pick("n", 1, 3); int neg = vf_pick("neg", 0, 1); vf_num d = vf_digits(n, "d"); int v = (int)d.value; if (neg) v = -v;
  Header h; try { load(h, block(vf_card("SIMPLE", "T") + vf_card("BITPIX", (neg ? "-" : "") + d.text) + vf_card("NAXIS", "0") + END)); vf_reach("ok");
    vf_assert(bitpix_ok(v), "illegal-bitpix-accepted"); io::bitpix b = h.bitpix();
    vf_assert(b == (v == 8 ? io::bitpix::B8 : v == 16 ? io::bitpix::B16 : v == 32 ? io::bitpix::B32 : v == -32 ? io::bitpix::_B32 : io::bitpix::_B64), "bitpix-kind");
    vf_assert(h.value_of<int>("BITPIX") == v, "bitpix-value"); vf_assert(h.total_dimensions() == 0 && h.data_size() == 0 && h.all_naxis().empty(), "no-axes"); vf_assert(h.card_count() == 3, "card-count");
  } catch (fits_exception&) { vf_reach("bad"); vf_assert(!bitpix_ok(v), "legal-bitpix-refused"); }
}
// @entry h_axes reach=end
VF_HARNESS(h_axes) {   // axis lengths, in any number
  int n = vf_pick("axes", 0, VF_TIER(4, 12)); std::string s = vf_card("XTENSION", "'IMAGE'") + vf_card("BITPIX", "16") + vf_card("NAXIS", vf_dec(n)); std::vector<uint64_t> w; uint64_t prod = n ? 1 : 0;
  for (int i = 1; i <= n; i++) { vf_num d = vf_digits(i <= 2 ? 3 : 1, "len"); s += vf_card("NAXIS" + vf_dec(i), d.text); w.push_back(d.value); }
  Header h; load(h, block(s + END)); vf_assert(h.total_dimensions() == (size_t)n, "dimension-count"); std::vector<size_t> a = h.all_naxis(); vf_assert(a.size() == (size_t)n, "all-axes-count");
  for (int i = 0; i < n; i++) { vf_assert(a[i] == w[i], "axis-length"); prod *= a[i]; vf_assert(h.naxis(i + 1) == w[i], "axis-by-number"); vf_assert(h.value_of<size_t>("NAXIS" + vf_dec(i + 1)) == w[i], "axis-by-keyword"); }
  vf_assert(h.data_size() == prod, "data-size-is-product"); vf_assert(h.card_count() == (size_t)n + 3, "card-count");
  bool threw = false; try { (void)h.naxis(n + 1); } catch (std::out_of_range&) { threw = true; } vf_assert(threw, "absent-axis-reported"); threw = false; try { (void)h.naxis(0); } catch (std::out_of_range&) { threw = true; } vf_assert(threw, "axis-zero-reported"); vf_reach("end");
}
// @entry h_order reach=end
VF_HARNESS(h_order) {   // cards are found by keyword wherever they stand
  vf_num a = vf_digits(2, "a"), b = vf_digits(2, "b"); std::string c[5] = {vf_card("BITPIX", "-32"), vf_card("NAXIS", "2"), vf_card("NAXIS1", a.text), vf_card("NAXIS2", b.text), vf_card("EXTRA", "'x / y'", "note")};
  int r = vf_pick("rot", 0, 4), sw = vf_pick("swap", 0, 3); std::swap(c[sw], c[sw + 1]); std::string s = vf_card("SIMPLE", "T"); for (int i = 0; i < 5; i++) s += c[(i + r) % 5];
  Header h; load(h, block(s + END)); vf_assert(h.bitpix() == io::bitpix::_B32, "bitpix"); vf_assert(h.total_dimensions() == 2 && h.naxis(1) == a.value && h.naxis(2) == b.value, "axes"); vf_assert(h.value_of<std::string>("EXTRA") == "x / y", "string-card"); vf_assert(h.card_count() == 6, "card-count"); vf_reach("end");
}
// @entry h_missing reach=missing
VF_HARNESS(h_missing) {   // a mandatory card that is absent is reported
  int m = vf_pick("missing", 0, 4); vf_num a = vf_digits(2, "a"); std::string s = vf_card("SIMPLE", "T"); if (m != 0) s += vf_card("BITPIX", "16"); if (m != 1) s += vf_card("NAXIS", "3"); if (m != 2) s += vf_card("NAXIS1", a.text); if (m != 3) s += vf_card("NAXIS2", "1"); if (m != 4) s += vf_card("NAXIS3", "1");
  Header h; bool threw = false; try { load(h, block(s + END)); } catch (std::exception&) { threw = true; } vf_assert(threw, "missing-mandatory-card-accepted"); vf_reach("missing");
}
// @entry h_cut reach=cut termination=1 steps=3000000
VF_HARNESS(h_cut) {   // the file ends before END, anywhere: reported, never accepted, never endless
  std::string s = vf_card("SIMPLE", "T") + vf_card("BITPIX", "8") + vf_card("NAXIS", "0") + vf_card("A", "1") + END; size_t n = vf_pick("keep", 0, VF_TIER(9, 40)) * VF_TIER(36, 8); if (n > 322) n = 322; s.resize(n);
  Header h; bool threw = false; try { load(h, s); } catch (std::exception&) { threw = true; } vf_assert(threw, "truncated-header-accepted"); vf_reach("cut");
}
// @entry h_many reach=end
VF_HARNESS(h_many) {   // across block boundaries; the cards before END are exactly the cards of the file, in order
  size_t n = vf_pick("cards", 33, 38); std::string s = vf_card("SIMPLE", "T") + vf_card("BITPIX", "8") + vf_card("NAXIS", "0"); for (size_t i = 3; i < n; i++) s += vf_card("K" + vf_dec(i), vf_dec(i * 7)); size_t hdr = s.size() + 80;
  std::string all = block(s + END) + "DATA"; vf_put("f", all); fits_stream f; f.set_file(vf_path("f")); Header h; h.read_header(f); vf_assert(f.get_current_pos() == hdr, "stops-right-after-end-card"); vf_assert(h.card_count() == n, "card-count"); for (size_t i = 3; i < n; i++) vf_assert(h.value_of<size_t>("K" + vf_dec(i)) == i * 7, "card-value"); vf_reach("end");
}
// @entry h_lookup reach=hit,miss
VF_HARNESS(h_lookup) {   // keyword queries agree with the cards, for every keyword
  std::string k = vf_keyword(4, "k"), q = vf_keyword(4, "q"); bool same = vf_same(k, q); vf_num v = vf_digits(2, "v"); vf_assume(!vf_same(k.substr(0, 3), "END"));
  Header h; load(h, vf_card("SIMPLE", "T") + vf_card("BITPIX", "8") + vf_card("NAXIS", "0") + vf_card(k, v.text) + END);
  vf_assert(h.contains_keyword(q) == same, "contains-keyword");
  try { uint64_t g = h.value_of<size_t>(q); vf_reach("hit"); vf_assert(same, "absent-keyword-has-value"); vf_assert(g == v.value, "value-of-keyword"); } catch (std::out_of_range&) { vf_reach("miss"); vf_assert(!same, "present-keyword-not-found"); }
}
// @entry h_prefix reach=end
VF_HARNESS(h_prefix) {  // keywords that start alike are different keywords
  size_t n = vf_pick("n", 1, 8), m = vf_pick("m", 1, 8); std::string a(n, 'K'), b(m, 'K'); Header h; load(h, vf_card("SIMPLE", "T") + vf_card("BITPIX", "8") + vf_card("NAXIS", "0") + vf_card(a, "7") + END); vf_assert(h.contains_keyword(b) == (n == m), "contains-exact-keyword"); vf_assert(!h.contains_keyword(b + " "), "contains-with-blank"); vf_reach("end"); }
// @entry h_name reach=end
VF_HARNESS(h_name) {   // the name of the unit; asking for it changes nothing
  int k = vf_pick("kind", 0, 2); std::string x = vf_chars(3, "x", 'A', 'Z'); std::string first = k == 0 ? vf_card("SIMPLE", "T") : k == 1 ? vf_card("XTENSION", "'" + x + "'") : vf_card("FOO", "1"); std::string s = first + vf_card("BITPIX", "8") + vf_card("NAXIS", "0") + END; Header h, g; load(h, s); load(g, s);
  bool threw = false; std::string n; try { n = h.get_hdu_name(); } catch (std::exception&) { threw = true; } if (k == 0) vf_assert(!threw && n == "primary_hdu", "primary-name"); if (k == 1) vf_assert(!threw && vf_same(n, x), "extension-name"); if (k == 2) vf_assert(threw, "nameless-unit-reported"); vf_assert(h == g, "name-query-leaves-header-equal"); vf_reach("end");
}
// @entry h_again reach=end
VF_HARNESS(h_again) {   // a header object can be read again: only the last header counts
  vf_num a = vf_digits(2, "a"), b = vf_digits(2, "b"); int n1 = vf_pick("n1", 0, 2), n2 = vf_pick("n2", 0, 2); auto mk = [](int n, std::string const& t, const char* extra) { std::string s = vf_card("SIMPLE", "T") + vf_card("BITPIX", "16") + vf_card("NAXIS", vf_dec(n)); for (int i = 1; i <= n; i++) s += vf_card("NAXIS" + vf_dec(i), t); return s + vf_card(extra, "1") + END; };
  Header h, g; load(h, mk(n1, a.text, "ONE")); load(h, mk(n2, b.text, "TWO")); load(g, mk(n2, b.text, "TWO")); vf_assert(h.total_dimensions() == (size_t)n2, "dimensions-of-last-read"); for (int i = 1; i <= n2; i++) vf_assert(h.naxis(i) == b.value, "axis-of-last-read"); vf_assert(!h.contains_keyword("ONE") && h.contains_keyword("TWO"), "cards-of-last-read"); vf_assert(h == g, "equal-to-fresh-read"); Header c(h); vf_assert(c == h && c.card_count() == h.card_count(), "copy-equal"); vf_reach("end");
}
// @entry h_equal reach=end
VF_HARNESS(h_equal) {   // headers are equal exactly when their cards are
  std::string a = vf_chars(2, "a", 33, 126), b = vf_chars(2, "b", 33, 126); vf_none_of(a, '\''); vf_none_of(b, '\''); auto mk = [](std::string const& t) { return vf_card("SIMPLE", "T") + vf_card("BITPIX", "16") + vf_card("NAXIS", "0") + vf_card("OBJECT", "'" + t + "'") + END; }; Header h, g; load(h, mk(a)); load(g, mk(b)); vf_assert((h == g) == vf_same(a, b), "header-equality"); vf_reach("end"); }
// @entry h_badcard reach=end
VF_HARNESS(h_badcard) {   // a malformed card inside a header is reported
  std::string bad = vf_chars(8, "w", 'a', 'z') + vf_chars(2, "i", 'a', 'z'); Header h; bool threw = false; try { load(h, vf_card("SIMPLE", "T") + vf_pad(bad, 80) + vf_card("BITPIX", "16") + vf_card("NAXIS", "0") + END); } catch (fits_exception&) { threw = true; } vf_assert(threw, "malformed-card-in-header-accepted"); vf_reach("end"); }
// @entry h_axes_many reach=end
VF_HARNESS(h_axes_many) {   // axes with numbers of two and three digits
  static const int NA[] = {9, 10, 12, 101}; int n = NA[vf_pick("axes", 0, 3)]; std::string s = vf_card("SIMPLE", "T") + vf_card("BITPIX", "16") + vf_card("NAXIS", vf_dec(n)); std::vector<uint64_t> w; for (int i = 1; i <= n; i++) { bool sym = i == 2 || i == n || i == n - 1; vf_num d = sym ? vf_digits(1, "len") : vf_num(); if (!sym) { d.value = 1 + (i % 2 && i < 12); d.text = vf_dec(d.value); } s += vf_card("NAXIS" + vf_dec(i), d.text); w.push_back(d.value); }
  Header h; load(h, block(s + END)); vf_assert(h.total_dimensions() == (size_t)n && h.all_naxis().size() == (size_t)n, "dimension-count"); uint64_t prod = 1; for (int i = 0; i < n; i++) { vf_assert(h.naxis(i + 1) == w[i], "axis-by-number"); prod *= w[i]; } vf_assert(h.data_size() == prod, "data-size-is-product"); vf_reach("end"); }
// @entry h_axes_long reach=end
VF_HARNESS(h_axes_long) {   // axes whose product is beyond 32 bits, and single lengths beyond 32 bits
  static const char* A[] = {"65536", "100000", "2147483648", "4294967296", "99999999999"}; static const uint64_t V[] = {65536, 100000, 2147483648ull, 4294967296ull, 99999999999ull}; int i = vf_pick("first", 0, 4); vf_num d = vf_digits(2, "second"); Header h; load(h, block(vf_card("SIMPLE", "T") + vf_card("BITPIX", "8") + vf_card("NAXIS", "3") + vf_card("NAXIS1", A[i]) + vf_card("NAXIS2", d.text) + vf_card("NAXIS3", "3") + END)); vf_assert(h.naxis(1) == V[i] && h.naxis(2) == d.value && h.naxis(3) == 3, "long-axis"); vf_assert(h.data_size() == V[i] * h.naxis(2) * 3, "long-data-size"); vf_reach("end"); }
// @entry h_cards_many reach=end
VF_HARNESS(h_cards_many) {   // a header of several blocks
  size_t n = vf_pick("cards", 0, 1) ? 300 : 150; std::string s = vf_card("SIMPLE", "T") + vf_card("BITPIX", "8") + vf_card("NAXIS", "0"); vf_num d = vf_digits(3, "d"); for (size_t i = 3; i < n; i++) s += vf_card("K" + vf_dec(i), i == n - 2 ? d.text : vf_dec(i)); size_t hdr = s.size() + 80; vf_put("f", block(s + END) + "DATA"); fits_stream f; f.set_file(vf_path("f")); Header h; h.read_header(f); vf_assert(f.get_current_pos() == hdr, "stops-right-after-end-card"); vf_assert(h.card_count() == n, "card-count"); for (size_t i = 3; i < n; i += 7) if (i != n - 2) vf_assert(h.value_of<size_t>("K" + vf_dec(i)) == i, "card-value"); vf_assert(h.value_of<size_t>("K" + vf_dec(n - 2)) == d.value && h.value_of<size_t>("K" + vf_dec(n - 1)) == n - 1, "late-card"); vf_assert(h.contains_keyword("K" + vf_dec(n - 1)) && !h.contains_keyword("K" + vf_dec(n)), "late-keyword"); vf_reach("end"); }
