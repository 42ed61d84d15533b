// C05: writing a header unit
// @bounds headers of 4..110 and 300 cards (every count around each block boundary up to three blocks), three cards with symbolic contents of up to 6 characters/digits, one or two headers written one after the other
#include "vfh.h"
#include <boost/astronomy/io/header.hpp>
#include <boost/astronomy/io/fits_stream.hpp>
#include <boost/astronomy/io/default_card_policy.hpp>
using namespace boost::astronomy; using io::fits_stream; using io::card_policy;
typedef io::header<card_policy> Header;
static const std::string END = vf_pad("END", 80);
static std::string block(std::string s) { size_t k = (2880 - s.size() % 2880) % 2880; return s.append(k, ' '); }
static void load(Header& h, std::string const& s) { vf_put("f", s); fits_stream f; f.set_file(vf_path("f")); h.read_header(f); }
static std::string text(size_t n, const char* nm, bool sym) { std::string s = vf_card("SIMPLE", "T") + vf_card("BITPIX", "8") + vf_card("NAXIS", "0"); for (size_t i = 3; i < n - 1; i++) s += i == 3 && sym ? vf_card(vf_keyword(4, nm), "'" + vf_chars(3, nm) + "'", vf_chars(2, nm)) : i == 5 && sym ? vf_pad("COMMENT  " + vf_chars(6, nm), 80) : i == 4 && sym ? vf_card("NUM", vf_digits(4, nm).text) : vf_card("K" + vf_dec(i), vf_dec(i)); return s + END; }
static const size_t T[] = {5, 6, 35, 36, 37, 71, 72, 73, 107, 108, 109, 110};
static size_t pick_n() { return T[vf_pick("n", 0, 11)]; }
// @entry h_bytes reach=end
VF_HARNESS(h_bytes) {   // the file holds the cards in order, then blanks up to the end of the block and nothing else
  std::string s = text(pick_n(), "c", true); vf_assume(!vf_same(s.substr(240, 3), "END")); Header h; load(h, s); fits_stream o; vf_assert(o.create_file(vf_path("o")), "created"); h.write_header(o); vf_assert(o.get_current_pos() == block(s).size(), "position-after-writing"); o.close();
  std::string got = vf_file("o"); vf_assert(got.size() % 2880 == 0, "multiple-of-2880"); vf_assert(vf_same(got, block(s)), "cards-then-blanks"); vf_reach("end");
}
// @entry h_roundtrip reach=end
VF_HARNESS(h_roundtrip) {   // written headers read back equal, value for value
  std::string s = text(pick_n(), "c", true); vf_assume(!vf_same(s.substr(240, 3), "END")); Header h, g; load(h, s); fits_stream o; o.create_file(vf_path("o")); h.write_header(o); o.set_file(vf_path("o")); g.read_header(o); vf_assert(g == h, "reads-back-equal"); vf_assert(g.card_count() == h.card_count(), "same-card-count"); if (s.size() > 480) vf_assert(g.value_of<int>("NUM") == h.value_of<int>("NUM"), "same-number"); vf_reach("end");
}
// @entry h_two reach=end
VF_HARNESS(h_two) {   // headers written one after the other keep their block boundaries
  std::string a = text(pick_n(), "a", false), b = text(6, "b", true); vf_assume(!vf_same(b.substr(240, 3), "END")); Header h, g, r; load(h, a); load(g, b); fits_stream o; o.create_file(vf_path("o")); h.write_header(o); g.write_header(o); o.close(); vf_assert(vf_same(vf_file("o"), block(a) + block(b)), "two-units"); vf_assert(h.card_count() * 80 + 80 == a.size(), "writing-keeps-cards");
  o.set_file(vf_path("o")); r.read_header(o); vf_assert(r == h, "first-unit"); o.set_unit_end(); vf_assert(o.get_current_pos() == block(a).size(), "next-unit-position"); Header q; q.read_header(o); vf_assert(q == g, "second-unit"); vf_reach("end");
}
// @entry h_twice reach=end
VF_HARNESS(h_twice) {   // reading values before writing, or writing twice, changes nothing in the output
  std::string s = text(7, "c", true); vf_assume(!vf_same(s.substr(240, 3), "END")); Header h; load(h, s); (void)h.value_of<int>("NUM"); (void)h.value_of<std::string>("NUM"); (void)h.get_hdu_name(); (void)h.data_size(); fits_stream o; o.create_file(vf_path("o")); h.write_header(o); o.close(); vf_assert(vf_same(vf_file("o"), block(s)), "output-after-queries"); fits_stream p; p.create_file(vf_path("p")); h.write_header(p); p.close(); vf_assert(vf_same(vf_file("p"), block(s)), "second-output"); vf_reach("end");
}
// @entry h_long reach=end
VF_HARNESS(h_long) {   // a header of nine blocks, with a symbolic card near its end
  size_t n = 287 + vf_pick("n", 0, 2); std::string v = vf_digits(4, "v").text, s = text(n, "c", false); s.insert(s.size() - 160, vf_card("LATE", v, vf_chars(3, "com"))); Header h, g; load(h, s); fits_stream o; o.create_file(vf_path("o")); h.write_header(o); o.close(); vf_assert(vf_same(vf_file("o"), block(s)), "long-header-written"); o.set_file(vf_path("o")); g.read_header(o); vf_assert(g == h && g.card_count() == n, "long-header-read-back"); vf_reach("end"); }
