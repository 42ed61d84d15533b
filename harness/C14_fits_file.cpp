// C14: whole FITS files
// @bounds files of 1..5 units (and 12 units, headers of 5 and data of 4 blocks in single entries): a primary image (five pixel kinds, 0..2 x 1..2 pixels, symbolic bytes), binary tables (symbolic bytes), ASCII tables (symbolic letters), image extensions and extensions of unknown kinds; header sizes around the block boundary; tables of 0..2 rows with a heap of picked size; every truncation at picked offsets; reopening
// @outside random groups, 64 bit integer images (refused)
#include "vfh.h"
#include <boost/astronomy/io/fits.hpp>
using namespace boost::astronomy; using namespace boost::astronomy::io;
static const std::string END = vf_pad("END", 80);
typedef fits_io<fits_stream, default_hdu_manager<card_policy, ascii_converter, binary_data_converter>> Reader;
static std::string block(std::string s, char c) { size_t k = (2880 - s.size() % 2880) % 2880; return s.append(k, c); }
static std::string raw(size_t n, const char* nm = "d") { std::string s(n, '?'); if (n) vf_bytes(&s[0], n, nm); return s; }
static const char* BPS[] = {"8", "16", "32", "-32", "-64"}; static const size_t SZ[] = {1, 2, 4, 4, 8};
static std::string primary(int k, int n1, int n2, std::string& d, int extra = 0) { std::string s = vf_card("SIMPLE", "T") + vf_card("BITPIX", BPS[k]) + vf_card("NAXIS", n1 ? "2" : "0"); if (n1) s += vf_card("NAXIS1", vf_dec(n1)) + vf_card("NAXIS2", vf_dec(n2)); s += vf_card("EXTEND", "T"); for (int i = 0; i < extra; i++) s += vf_card("X" + vf_dec(i), vf_dec(i)); d = raw((size_t)n1 * n2 * SZ[k], "img"); return block(s + END, ' ') + block(d, 0); }
static std::string bintable(std::string& d, int rows, size_t heap = 0, const char* nm = "bin") { d = raw(3 * rows, nm); std::string s = vf_card("XTENSION", "'BINTABLE'") + vf_card("BITPIX", "8") + vf_card("NAXIS", "2") + vf_card("NAXIS1", "3") + vf_card("NAXIS2", vf_dec(rows)) + vf_card("PCOUNT", vf_dec(heap)) + vf_card("GCOUNT", "1") + vf_card("TFIELDS", "2") + vf_card("TFORM1", "'I'") + vf_card("TTYPE1", "'A'") + vf_card("TFORM2", "'B'") + vf_card("TTYPE2", "'B'"); return block(s + END, ' ') + block(d + std::string(heap, 'H'), 0); }
static std::string asciitable(std::string& d, const char* nm = "asc") { d = vf_chars(5, nm, 'a', 'z'); std::string s = vf_card("XTENSION", "'TABLE'") + vf_card("BITPIX", "8") + vf_card("NAXIS", "2") + vf_card("NAXIS1", "5") + vf_card("NAXIS2", "1") + vf_card("PCOUNT", "0") + vf_card("GCOUNT", "1") + vf_card("TFIELDS", "2") + vf_card("TFORM1", "'A3'") + vf_card("TBCOL1", "1") + vf_card("TTYPE1", "'A'") + vf_card("TFORM2", "'A2'") + vf_card("TBCOL2", "4") + vf_card("TTYPE2", "'B'"); return block(s + END, ' ') + block(d, ' '); }
static std::string imageext(std::string& d, int k, int n, const char* x = "'IMAGE'", int heap = 0) { d = raw(n * SZ[k], "ie"); return block(vf_card("XTENSION", x) + vf_card("BITPIX", BPS[k]) + vf_card("NAXIS", "1") + vf_card("NAXIS1", vf_dec(n)) + vf_card("PCOUNT", vf_dec(heap)) + vf_card("GCOUNT", "1") + END, ' ') + block(d + std::string(heap * SZ[k], 'H'), 0); }
static size_t pixels(primary_hdu& p, int k) { switch (k) { case 0: return p.get_data<bitpix::B8>().size(); case 1: return p.get_data<bitpix::B16>().size(); case 2: return p.get_data<bitpix::B32>().size(); case 3: return p.get_data<bitpix::_B32>().size(); } return p.get_data<bitpix::_B64>().size(); }
static void check_bin(binary_table& t, std::string const& d, int rows) { vf_assert(t.get_data().size() == (size_t)rows, "table-rows"); for (int r = 0; r < rows; r++) { vf_assert(vf_same(t.get_data()[r][0] + t.get_data()[r][1], d.substr(3 * r, 3)), "table-row-bytes"); std::uint8_t v = t.get_column<std::uint8_t>("B")[r]; vf_assert(v == (unsigned char)d[3 * r + 2], "table-value"); } }
static void check_asc(ascii_table& t, std::string const& d) { vf_assert(t.get_data().size() == 1, "ascii-rows"); vf_assert(vf_same(t.get_data()[0][0] + t.get_data()[0][1], d), "ascii-fields"); }
// @entry h_mix reach=end
VF_HARNESS(h_mix) {   // every unit is found, whatever precedes it, and rewriting reproduces the file
  int k = vf_pick("bitpix", 0, 4), n1 = vf_pick("n1", 0, 2), order = vf_pick("order", 0, 4); std::string di, db, da, s = primary(k, n1, 1, di); bool hb = order != 0 && order != 2, ha = order >= 2; if (order == 3) { s += asciitable(da); s += bintable(db, 2); } else { if (hb) s += bintable(db, 2); if (ha) s += asciitable(da); }
  vf_put("f", s); auto f = fits::open(vf_path("f")); size_t n = 1 + hb + ha; auto list = f.get_hdu_list(); vf_assert(list.size() == n, "unit-count"); vf_assert(f.get_control_block_info().total_hdus() == n, "total-units"); vf_assert(pixels(fits::convert_to<primary_hdu>(f[0]), k) == (size_t)n1, "primary-pixels");
  if (hb) { check_bin(fits::convert_to<binary_table>(f["BINTABLE"]), db, 2); check_bin(fits::convert_to<binary_table>(f[order == 3 ? 2 : 1]), db, 2); } if (ha) { check_asc(fits::convert_to<ascii_table>(f["TABLE"]), da); check_asc(fits::convert_to<ascii_table>(f[order == 3 ? 1 : (int)n - 1]), da); }
  bool threw = false; try { (void)f[(int)n]; } catch (std::out_of_range&) { threw = true; } vf_assert(threw, "index-out-of-range"); threw = false; try { (void)f["nothing"]; } catch (std::out_of_range&) { threw = true; } vf_assert(threw, "unknown-name");
  f.write_to(vf_path("o")); vf_assert(vf_same(vf_file("o"), s), "rewritten-file-identical"); vf_reach("end"); }
// @entry h_headers_only reach=end
VF_HARNESS(h_headers_only) {   // header-only reading finds the same units at the same places without their data
  int k = vf_pick("bitpix", 0, 4), n1 = vf_pick("n1", 0, 2); std::string di, db, da, p = primary(k, n1, 2, di), b = bintable(db, 2), a = asciitable(da), s = p + b + a; vf_put("f", s); auto f = fits::open(vf_path("f"), reading_options::read_only_headers), g = fits::open(vf_path("f")); vf_assert(f.get_hdu_list().size() == 3, "unit-count"); auto ci = f.get_control_block_info(), cg = g.get_control_block_info(); vf_assert(ci.total_hdus() == 3, "total-units");
  vf_assert(ci.hdus_info.at("primary_hdu").header_location == 0 && ci.hdus_info.at("BINTABLE").header_location == p.size() && ci.hdus_info.at("TABLE").header_location == p.size() + b.size(), "header-locations"); vf_assert(ci.hdus_info.at("primary_hdu").data_location == 2880 && ci.hdus_info.at("BINTABLE").data_location == p.size() + 2880 && ci.hdus_info.at("TABLE").data_location == p.size() + b.size() + 2880, "data-locations"); for (const char* n : {"primary_hdu", "BINTABLE", "TABLE"}) { auto x = ci.hdus_info.at(n), y = cg.hdus_info.at(n); vf_assert(x.header_location == y.header_location && x.data_location == y.data_location && x.hdu_index == y.hdu_index, "both-modes-agree"); } vf_assert(ci.filepath == vf_path("f"), "file-path");
  vf_assert(pixels(fits::convert_to<primary_hdu>(f[0]), k) == 0, "no-pixels"); vf_assert(fits::convert_to<binary_table>(f[1]).get_data().empty() && fits::convert_to<ascii_table>(f[2]).get_data().empty(), "no-rows"); vf_assert(fits::convert_to<binary_table>(f["BINTABLE"]).get_header() == fits::convert_to<binary_table>(g[1]).get_header(), "same-header"); vf_reach("end"); }
// @entry h_boundary reach=end
VF_HARNESS(h_boundary) {   // headers that end at, before and after a block boundary; data as well
  int extra = 36 - 7 + vf_pick("extra", 0, 2), n = vf_pick("n", 0, 2); std::string db, s = vf_card("SIMPLE", "T") + vf_card("BITPIX", "16") + vf_card("NAXIS", "1") + vf_card("NAXIS1", vf_dec(1439 + n)) + vf_card("EXTEND", "T"); for (int i = 0; i < extra; i++) s += vf_card("X" + vf_dec(i), "1"); std::string d(2 * (1439 + n), 'x'); s = block(s + END, ' ') + block(d, 0); size_t at = s.size(); s += bintable(db, 2); vf_put("f", s); int m = vf_pick("mode", 0, 1); auto f = fits::open(vf_path("f"), m ? reading_options::read_only_headers : reading_options::read_entire_hdus); vf_assert(f.get_control_block_info().total_hdus() == 2, "total-units"); vf_assert(f.get_control_block_info().hdus_info.at("BINTABLE").header_location == at, "second-unit-place"); if (!m) { check_bin(fits::convert_to<binary_table>(f[1]), db, 2); f.write_to(vf_path("o")); vf_assert(vf_same(vf_file("o"), s), "rewritten-file-identical"); } vf_reach("end"); }
// @entry h_twins reach=end
VF_HARNESS(h_twins) {   // two units of the same kind
  std::string di, a, b, s = primary(0, 0, 1, di) + bintable(a, 1, 0, "one") + bintable(b, 2, 0, "two"); vf_put("f", s); auto f = fits::open(vf_path("f")); vf_assert(f.get_hdu_list().size() == 3, "unit-count"); vf_assert(f.get_control_block_info().total_hdus() == 3, "total-units"); check_bin(fits::convert_to<binary_table>(f[1]), a, 1); check_bin(fits::convert_to<binary_table>(f[2]), b, 2); f.write_to(vf_path("o")); vf_assert(vf_same(vf_file("o"), s), "rewritten-file-identical"); vf_reach("end"); }
static const size_t HP[] = {0, 1, 10, 2871, 2874, 2875, 3000};
// @entry h_heap reach=end
VF_HARNESS(h_heap) {   // the unit after a table with a heap
  size_t heap = HP[vf_pick("heap", 0, 6)]; int rows = vf_pick("rows", 0, 2); std::string di, db, da, s = primary(0, 0, 1, di) + bintable(db, rows, heap); size_t at = s.size(); s += asciitable(da); vf_put("f", s); int m = vf_pick("mode", 0, 1); auto f = fits::open(vf_path("f"), m ? reading_options::read_only_headers : reading_options::read_entire_hdus); vf_assert(f.get_hdu_list().size() == 3, "unit-count"); vf_assert(f.get_control_block_info().hdus_info.at("TABLE").header_location == at, "unit-after-heap"); if (!m) { check_bin(fits::convert_to<binary_table>(f[1]), db, rows); check_asc(fits::convert_to<ascii_table>(f[2]), da); } vf_reach("end"); }
// @entry h_heap_rewrite reach=end
VF_HARNESS(h_heap_rewrite) {   // the heap of a table survives rewriting, also through copies and after edits of the rows
  size_t heap = HP[vf_pick("heap", 0, 6)]; int rows = vf_pick("rows", 0, 2), how = vf_pick("how", 0, 2); std::string di, db, da, s = primary(0, 0, 1, di) + bintable(db, rows, heap); size_t at = s.size() - 2880 * ((3 * rows + heap + 2879) / 2880); if (heap) { std::string hb = raw(1, "hp"); s[at + 3 * rows + heap - 1] = hb[0]; } s += asciitable(da); vf_put("f", s); auto f = fits::open(vf_path("f")); if (how == 1) { binary_table c(fits::convert_to<binary_table>(f[1])), e; e = c; fits::convert_to<binary_table>(f[1]) = e; } if (how == 2 && rows) { std::uint8_t v = vf_u8("v"); fits::convert_to<binary_table>(f[1]).get_column<std::uint8_t>("B")[rows - 1] = v; s[at + 3 * rows - 1] = (char)v; } f.write_to(vf_path("o")); vf_assert(vf_same(vf_file("o"), s), "heap-survives-rewriting"); vf_reach("end"); }
// @entry h_heap_cut reach=end
VF_HARNESS(h_heap_cut) {   // a file that ends inside of a heap is reported, one that ends with it is complete
  int rows = vf_pick("rows", 0, 2), c = vf_pick("cut", 0, 3); std::string di, db, s = primary(0, 0, 1, di) + bintable(db, rows, 10); size_t e = s.size() - 2880 + 3 * rows + 10; static const int O[] = {-9, -1, 0, 1}; vf_put("f", s.substr(0, e + O[c])); bool threw = false; try { auto f = fits::open(vf_path("f")); vf_assert(f.get_hdu_list().size() == 2, "unit-count"); f.write_to(vf_path("o")); vf_assert(vf_same(vf_file("o"), s), "completed-by-rewriting"); } catch (file_reading_exception&) { threw = true; } vf_assert(threw == (O[c] < 0), "incomplete-heap-reported"); vf_reach("end"); }
// @entry h_headers_rewrite
VF_HARNESS(h_headers_rewrite) { std::string di, s = primary(1, 1, 1, di); vf_reach("start"); vf_put("f", s); auto f = fits::open(vf_path("f"), reading_options::read_only_headers); bool threw = false; try { f.write_to(vf_path("o")); } catch (std::exception&) { threw = true; } vf_assert(threw || vf_same(vf_file("o"), s), "headers-only-rewriting"); vf_reach("end"); }
static const char* XT[] = {"'IMAGE'", "'FOREIGN'", "'A3DTABLE'"};
// @entry h_other reach=end
VF_HARNESS(h_other) {   // image extensions and extensions of unknown kinds do not disturb the units around them and survive rewriting
  int x = vf_pick("xtension", 0, 2), k = vf_pick("bitpix", 0, 4), n = vf_pick("n", 0, 2), m = vf_pick("mode", 0, 1), last = vf_pick("last", 0, 1), hp = vf_pick("heap", 0, 1); std::string di, ie, db, p = primary(1, 1, 1, di), e = imageext(ie, k, n, XT[x], x ? hp * 1440 : 0), s = p; if (last) s += bintable(db, 2) + e; else s += e + bintable(db, 2); vf_put("f", s); auto f = fits::open(vf_path("f"), m ? reading_options::read_only_headers : reading_options::read_entire_hdus); vf_assert(f.get_hdu_list().size() == 3, "unit-count"); vf_assert(f.get_control_block_info().total_hdus() == 3, "total-units"); auto ci = f.get_control_block_info(); vf_assert(ci.hdus_info.at("BINTABLE").header_location == p.size() + (last ? 0 : e.size()), "unit-after-other"); std::string nm = XT[x]; nm = nm.substr(1, nm.size() - 2); vf_assert(ci.hdus_info.at(nm).header_location == p.size() + (last ? 5760 : 0) && ci.hdus_info.at(nm).hdu_index == (size_t)(last ? 2 : 1), "other-location"); if (!m) { check_bin(fits::convert_to<binary_table>(f[last ? 1 : 2]), db, 2); check_bin(fits::convert_to<binary_table>(f["BINTABLE"]), db, 2); f.write_to(vf_path("o")); vf_assert(vf_same(vf_file("o"), s), "other-extension-survives-rewriting"); vf_assert(vf_same(vf_file("f"), s), "input-file-unchanged"); } vf_reach("end"); }
// @entry h_other_many reach=end
VF_HARNESS(h_other_many) {   // several of them, with a heap or random bytes behind the data, a reader used again
  int x = vf_pick("xtension", 0, 2), heap = vf_pick("heap", 0, 2); std::string di, ie, je, db, e = imageext(ie, 0, 3, XT[x]), s = primary(0, 0, 1, di) + e + imageext(je, 1, 2, XT[1]) + bintable(db, 1, HP[heap]) + e, t = primary(1, 1, 1, di) + bintable(db, 2) + bintable(db, 2); vf_put("g", t); vf_put("f", s); Reader r(vf_path("f")); r.read_entire_hdus(); vf_assert(r.get_hdu_list().size() == 5, "unit-count"); r.write_to(vf_path("o")); vf_assert(vf_same(vf_file("o"), s), "other-extensions-survive-rewriting"); r.initialize(vf_path("g")); vf_assert(r.get_hdu_list().empty() && r.get_control_block_info().total_hdus() == 0 && r.get_control_block_info().hdus_info.empty(), "nothing-before-reading"); r.read_entire_hdus(); vf_assert(r.get_hdu_list().size() == 3, "unit-count"); r.write_to(vf_path("o")); vf_assert(vf_same(vf_file("o"), t), "rewriting-after-reopening"); vf_reach("end"); }
// @entry h_cut reach=cut termination=1 steps=20000000
VF_HARNESS(h_cut) {   // a file that ends early is reported or yields only complete units; it is never read for ever
  std::string di, db, p = primary(1, 2, 2, di), s = p + bintable(db, 2); static const size_t C[] = {0, 1, 79, 80, 400, 480, 2879, 2880, 2881, 2887, 2888, 2889, 5759, 5760, 5761, 5840, 8639, 8640, 8641, 8645, 8646, 8647, 11519}; int c = vf_pick("cut", 0, 22); size_t n = C[c]; int m = vf_pick("mode", 0, 1); vf_put("f", s.substr(0, n)); 
  bool threw = false; Reader f; try { f.initialize(vf_path("f")); if (m) f.read_only_headers(); else f.read_entire_hdus(); } catch (std::exception&) { threw = true; } auto l = f.get_hdu_list(); 
  if (!m && !threw && l.size() > 0) vf_assert(pixels(fits::convert_to<primary_hdu>(f[0]), 1) == 4 && n >= 2888, "incomplete-image-accepted"); if (!m && !threw && l.size() > 1) vf_assert(n >= 8646, "incomplete-table-accepted"); if (!m && n >= 8646) vf_assert(!threw && l.size() == 2, "complete-data-refused"); if (n > 5760 && n < 5760 + 13 * 80) vf_assert(threw, "incomplete-header-accepted"); if (!m && n > 5760 && n < 8646) vf_assert(threw, "incomplete-table-accepted"); vf_reach("cut"); }
// @entry h_reopen reach=end
VF_HARNESS(h_reopen) {   // a reader that is given another file shows that file only
  std::string da, db, di, dj; vf_put("f", primary(0, 2, 1, di) + bintable(db, 2)); vf_put("g", primary(1, 1, 1, dj) + asciitable(da)); Reader r(vf_path("f")); if (vf_pick("first", 0, 1)) r.read_entire_hdus(); r.initialize(vf_path("g")); if (vf_pick("mode", 0, 1)) { r.read_only_headers(); vf_assert(r.get_hdu_list().size() == 2, "unit-count"); } else { r.read_entire_hdus(); vf_assert(r.get_hdu_list().size() == 2, "unit-count"); vf_assert(pixels(fits::convert_to<primary_hdu>(r[0]), 1) == 1, "primary-of-new-file"); check_asc(fits::convert_to<ascii_table>(r[1]), da); check_asc(fits::convert_to<ascii_table>(r["TABLE"]), da); } vf_assert(r.get_control_block_info().total_hdus() == 2, "total-units"); bool threw = false; try { (void)r["BINTABLE"]; } catch (std::out_of_range&) { threw = true; } vf_assert(threw, "unit-of-old-file-gone"); vf_reach("end"); }
// @entry h_edit reach=end
VF_HARNESS(h_edit) {   // edits through the reader reach the rewritten file and touch nothing else
  std::string di, db, da, s = primary(1, 2, 1, di) + bintable(db, 2); size_t at = s.size() - 2880; s += asciitable(da); vf_put("f", s); auto f = fits::open(vf_path("f")); int r = vf_pick("row", 0, 1); std::uint8_t v = vf_u8("v"); fits::convert_to<binary_table>(f["BINTABLE"]).get_column<std::uint8_t>("B")[r] = v; std::string t = vf_chars(2, "t", 'A', 'Z'); fits::convert_to<ascii_table>(f[2]).get_column<std::string>("B")[0] = t; f.write_to(vf_path("o")); std::string w = s; w[at + 3 * r + 2] = (char)v; w[w.size() - 2880 + 3] = t[0]; w[w.size() - 2880 + 4] = t[1]; vf_assert(vf_same(vf_file("o"), w), "edited-file"); vf_assert(vf_same(vf_file("f"), s), "input-file-unchanged"); auto g = fits::open(vf_path("o")); std::uint8_t q = fits::convert_to<binary_table>(g[1]).get_column<std::uint8_t>("B")[r]; vf_assert(q == v, "edit-read-back"); vf_reach("end"); }
// @entry h_missing reach=end
VF_HARNESS(h_missing) { bool threw = false; try { auto f = fits::open(vf_path("nofile")); } catch (file_reading_exception&) { threw = true; } vf_assert(threw, "missing-file-reported"); vf_reach("end"); }
// @entry h_long reach=end
VF_HARNESS(h_long) {   // headers and data of several blocks, in both modes
  int k = vf_pick("bitpix", 0, 4), m = vf_pick("mode", 0, 1), ext = vf_pick("ext", 0, 1); size_t n = 3 * 2880 / SZ[k] + 1; std::string d(n * SZ[k], 'x'), x = raw(SZ[k]), db; for (size_t i = 0; i < SZ[k]; i++) d[d.size() - 1 - i] = x[i]; for (size_t i = 0; i < d.size(); i += 97) d[i] = (char)(i / 97); std::string di, s = ext ? primary(0, 0, 1, di) : ""; s += block((ext ? vf_card("XTENSION", "'IMAGE'") : vf_card("SIMPLE", "T")) + vf_card("BITPIX", BPS[k]) + vf_card("NAXIS", "1") + vf_card("NAXIS1", vf_dec(n)) + vf_card("PCOUNT", "0") + vf_card("GCOUNT", "1") + [] { std::string r; for (int i = 0; i < 150; i++) r += vf_card("X" + vf_dec(i), vf_dec(i)); return r; }() + END, ' ') + block(d, 0); size_t at = s.size(); s += bintable(db, 2); vf_put("f", s); auto f = fits::open(vf_path("f"), m ? reading_options::read_only_headers : reading_options::read_entire_hdus); size_t u = 2 + ext; vf_assert(f.get_control_block_info().total_hdus() == u && f.get_hdu_list().size() == u, "long-unit-count"); auto info = f.get_control_block_info().hdus_info; vf_assert(info.at("BINTABLE").header_location == at && info.at("BINTABLE").data_location == at + 2880, "unit-after-long-unit"); if (!m) { check_bin(fits::convert_to<binary_table>(f["BINTABLE"]), db, 2); f.write_to(vf_path("o")); vf_assert(vf_same(vf_file("o"), s), "long-file-identical"); } vf_reach("end"); }
// @entry h_units_many reach=end
VF_HARNESS(h_units_many) {
  int m = vf_pick("mode", 0, 1); std::string di, s = primary(1, 2, 1, di); std::vector<std::string> d(11); for (int i = 0; i < 11; i++) s += i % 3 == 2 ? asciitable(d[i]) : bintable(d[i], 1 + i % 2); vf_put("f", s); auto f = fits::open(vf_path("f"), m ? reading_options::read_only_headers : reading_options::read_entire_hdus); vf_assert(f.get_control_block_info().total_hdus() == 12 && f.get_hdu_list().size() == 12, "many-units-count"); if (!m) { for (int i = 0; i < 11; i++) if (i % 3 == 2) check_asc(fits::convert_to<ascii_table>(f[i + 1]), d[i]); else check_bin(fits::convert_to<binary_table>(f[i + 1]), d[i], 1 + i % 2); f.write_to(vf_path("o")); vf_assert(vf_same(vf_file("o"), s), "many-units-identical"); } bool threw = false; try { (void)f[12]; } catch (std::out_of_range&) { threw = true; } vf_assert(threw, "many-units-index"); vf_reach("end"); }
