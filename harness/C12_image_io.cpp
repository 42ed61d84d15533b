// C12: image data units
// @bounds every bit pattern of up to 4 pixels (thorough 8) of each of the five pixel kinds; header dimensions 1x1..2x2 and empty; data ending exactly at and one pixel around a block boundary
#include "vfh.h"
#include <cstring>
#include <boost/astronomy/io/fits_stream.hpp>
#include <boost/astronomy/io/primary_hdu.hpp>
#include <boost/astronomy/io/image_extension.hpp>
#include <boost/astronomy/io/default_card_policy.hpp>
#include <boost/astronomy/io/binary_data_converter.hpp>
using namespace boost::astronomy; using namespace boost::astronomy::io;
typedef header<card_policy> Header; typedef basic_primary_hdu<card_policy, binary_data_converter> PH; typedef basic_image_extension<card_policy, binary_data_converter> IE;
static const std::string END = vf_pad("END", 80); static const int N = VF_TIER(4, 8);
static std::string block(std::string s, char c) { size_t k = (2880 - s.size() % 2880) % 2880; return s.append(k, c); }
static void load(Header& h, std::string const& s) { vf_put("h", s); fits_stream f; f.set_file(vf_path("h")); h.read_header(f); }
static std::string raw(size_t n) { std::string s(n, '?'); if (n) vf_bytes(&s[0], n, "d"); return s; }
template <class T> static T big(const char* p) { unsigned char x[sizeof(T)]; for (size_t i = 0; i < sizeof(T); i++) x[i] = (unsigned char)p[sizeof(T) - 1 - i]; T v; std::memcpy(&v, x, sizeof(T)); return v; }
template <class T> static bool same(T a, T b) { unsigned char x[sizeof(T)], y[sizeof(T)]; std::memcpy(x, &a, sizeof(T)); std::memcpy(y, &b, sizeof(T)); bool ok = true; for (size_t i = 0; i < sizeof(T); i++) ok &= x[i] == y[i]; return ok; }
static std::string head(bool ext, const char* bp, int n1, int n2) { std::string s = (ext ? vf_card("XTENSION", "'IMAGE'") : vf_card("SIMPLE", "T")) + vf_card("BITPIX", bp) + vf_card("NAXIS", n1 ? "2" : "0"); if (n1) s += vf_card("NAXIS1", vf_dec(n1)) + vf_card("NAXIS2", vf_dec(n2)); if (ext) s += vf_card("PCOUNT", "0") + vf_card("GCOUNT", "1"); return s + END; }
template <bitpix BP, class T> static void image_rt() {
  int n = vf_pick("n", 0, N + 2); if (n > N) n = n == N + 1 ? 17 : 257; std::string d = raw(n * sizeof(T)); image<BP, binary_data_converter> im; im.read_image(d); vf_assert(im.size() == (size_t)n, "pixel-count"); vf_assert(vf_same(im.write_image(), d), "pixels-round-trip"); vf_assert(get_element_size_from_bitpix(BP) == (int)sizeof(T), "pixel-size");
  if (n == 1) { T m = im.max(); vf_assert(same(m, big<T>(d.data())), "pixel-value-big-endian"); vf_assert(same<T>(im.min(), big<T>(d.data())), "pixel-value-min"); vf_assert(same<T>(im.median(), big<T>(d.data())), "pixel-value-median"); } image<BP, binary_data_converter> c(im); vf_assert(vf_same(c.write_image(), d), "copied-pixels"); im.read_image(raw(2 * sizeof(T))); vf_assert(im.size() == 2, "read-again"); vf_assert(vf_same(c.write_image(), d), "copy-independent"); vf_reach("end"); }
// @entry h_b8 reach=end
VF_HARNESS(h_b8) { image_rt<bitpix::B8, std::uint8_t>(); }
// @entry h_b16 reach=end
VF_HARNESS(h_b16) { image_rt<bitpix::B16, boost::int16_t>(); }
// @entry h_b32 reach=end
VF_HARNESS(h_b32) { image_rt<bitpix::B32, boost::int32_t>(); }
// @entry h_f32 reach=end
VF_HARNESS(h_f32) { image_rt<bitpix::_B32, boost::float32_t>(); }
// @entry h_f64 reach=end
VF_HARNESS(h_f64) { image_rt<bitpix::_B64, boost::float64_t>(); }
static const char* BPS[] = {"8", "16", "32", "-32", "-64"}; static const size_t SZ[] = {1, 2, 4, 4, 8};
template <class H> static size_t size_of(H& p, int k) { switch (k) { case 0: return p.template get_data<bitpix::B8>().size(); case 1: return p.template get_data<bitpix::B16>().size(); case 2: return p.template get_data<bitpix::B32>().size(); case 3: return p.template get_data<bitpix::_B32>().size(); } return p.template get_data<bitpix::_B64>().size(); }
template <class H> static void hdu(bool ext) {
  int k = vf_pick("bitpix", 0, 4), n1 = vf_pick("n1", 0, 2), n2 = vf_pick("n2", 1, 2); std::string hs = head(ext, BPS[k], n1, n2), d = raw((size_t)n1 * n2 * SZ[k]); Header h; load(h, hs); H p(h, d); vf_assert(p.get_header() == h, "header-kept"); vf_assert(size_of(p, k) == (size_t)n1 * n2, "pixel-count");
  for (int q = 0; q < 5; q++) if (q != k) { bool threw = false; try { (void)size_of(p, q); } catch (std::exception&) { threw = true; } vf_assert(threw, "wrong-pixel-type-reported"); }
  fits_stream o; o.create_file(vf_path("o")); p.write_to(o); o.close(); std::string g = vf_file("o"); vf_assert(vf_same(g, block(hs, ' ') + block(d, 0)), "unit-written"); H c(p); fits_stream o2; o2.create_file(vf_path("o2")); c.write_to(o2); o2.close(); vf_assert(vf_same(vf_file("o2"), g), "copy-writes-the-same"); vf_reach("end"); }
// @entry h_primary reach=end
VF_HARNESS(h_primary) { hdu<PH>(false); }
// @entry h_extension reach=end
VF_HARNESS(h_extension) { hdu<IE>(true); }
// @entry h_boundary reach=end
VF_HARNESS(h_boundary) {   // data ending at, before and after a block boundary
  size_t n = 1440 + vf_pick("n", 0, 2) - 1; Header h; std::string hs = vf_card("SIMPLE", "T") + vf_card("BITPIX", "16") + vf_card("NAXIS", "1") + vf_card("NAXIS1", vf_dec(n)) + END; load(h, hs); std::string d(n * 2, 'x'), e = raw(4); for (int i = 0; i < 4; i++) d[d.size() - 4 + i] = e[i]; PH p(h, d); fits_stream o; o.create_file(vf_path("o")); p.write_to(o); o.close(); std::string g = vf_file("o"); vf_assert(g.size() == (n > 1440 ? 3 : 2) * 2880u, "blocks"); vf_assert(vf_same(g.substr(2880, d.size()), d), "data-in-place"); bool z = true; for (size_t i = 2880 + d.size(); i < g.size(); i++) z &= g[i] == 0; vf_assert(z, "zero-fill"); vf_reach("end"); }
// @entry h_flags reach=end
VF_HARNESS(h_flags) {   // SIMPLE and EXTEND
  int s = vf_pick("simple", 0, 1), e = vf_pick("extend", 0, 2); Header h; load(h, vf_card("SIMPLE", s ? "T" : "F") + vf_card("BITPIX", "8") + vf_card("NAXIS", "0") + (e == 2 ? std::string() : vf_card("EXTEND", e ? "T" : "F")) + END); PH p(h, ""); vf_assert(p.is_simple() == (s == 1), "simple"); vf_assert(p.is_extended() == (e == 1), "extend"); vf_reach("end"); }
template <class H> static void pixels(bool ext) {   // pixel (row, column) of an image that was read is the pixel of the file at that place
  int w = vf_pick("w", 1, 3), r = vf_pick("rows", 1, 3); Header h; load(h, head(ext, "16", w, r)); std::string d = raw(2 * w * r); H p(h, d); image<bitpix::B16, binary_data_converter> im = p.template get_data<bitpix::B16>(); for (int x = 0; x < r; x++) for (int y = 0; y < w; y++) vf_assert(im(x, y) == big<boost::int16_t>(d.data() + 2 * (x * w + y)), "pixel-by-position"); vf_reach("end"); }
// @entry h_pixels reach=end
VF_HARNESS(h_pixels) { pixels<PH>(false); }
// @entry h_ext_pixels reach=end
VF_HARNESS(h_ext_pixels) { pixels<IE>(true); }
