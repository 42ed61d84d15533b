// C13: image statistics
// @bounds images of 1..4 pixels (thorough 5); pixels are exact reals in [-1e6,1e6] (64 bit float images) or all integers of the pixel type (8, 16, 32 bit images); floating point rounding is outside the real-number encoding (tolerance 1e-6 in replay)
// @assume standard deviation is specified from two pixels on
#include "vfh.h"
#include <cmath>
#include <new>
#include <boost/astronomy/io/image.hpp>
using namespace boost::astronomy::io;
static const int N = VF_TIER(4, 5);
struct RealConv { template <class T> static T deserialize_to(std::string const& s, int) { double v = vf_real("px", -1000000, 1000000); px()[cnt()++] = v; return v; } static double* px() { static double p[16]; return p; } static int& cnt() { static int c; return c; } template <class T> static std::string serialize(T) { return ""; } };
struct IntConv { template <class T> static T deserialize_to(std::string const& s, int) { int64_t v = vf_int("px", std::numeric_limits<T>::min(), std::numeric_limits<T>::max()); px()[cnt()++] = v; return (T)v; } static int64_t* px() { static int64_t p[16]; return p; } static int& cnt() { static int c; return c; } template <class T> static std::string serialize(T) { return ""; } };
// @entry h_extrema reach=end
VF_HARNESS(h_extrema) { int n = vf_pick("n", 1, N); image<bitpix::_B64, RealConv> im; im.read_image(std::string(8 * n, 'x')); double* p = RealConv::px(); double mx = im.max(), mn = im.min(); bool a = false, b = false; for (int i = 0; i < n; i++) { vf_assert(mx >= p[i], "max-not-below-any-pixel"); vf_assert(mn <= p[i], "min-not-above-any-pixel"); a |= mx == p[i]; b |= mn == p[i]; } vf_assert(a, "max-is-a-pixel"); vf_assert(b, "min-is-a-pixel"); vf_assert(im.size() == (size_t)n, "size"); vf_reach("end"); }
// @entry h_mean reach=end
VF_HARNESS(h_mean) { int n = vf_pick("n", 1, N); image<bitpix::_B64, RealConv> im; im.read_image(std::string(8 * n, 'x')); double* p = RealConv::px(); double s = 0; for (int i = 0; i < n; i++) s += p[i]; vf_close(im.mean() * n, s, 1e-6, "mean-times-count-is-sum"); vf_reach("end"); }
// @entry h_median reach=end
VF_HARNESS(h_median) { int n = vf_pick("n", 1, N); image<bitpix::_B64, RealConv> im; im.read_image(std::string(8 * n, 'x')); double* p = RealConv::px(); double m = im.median(); int lo = 0, hi = 0; bool in = false; for (int i = 0; i < n; i++) { lo += p[i] < m; hi += p[i] > m; in |= p[i] == m; } vf_assert(in, "median-is-a-pixel"); vf_assert(2 * lo <= n && 2 * hi <= n, "median-splits-in-half"); vf_assert(hi <= n - 1 - n / 2 && lo <= n / 2, "upper-median"); double q = im.max(); bool any = false; for (int i = 0; i < n; i++) any |= q == p[i]; vf_assert(any, "image-unchanged"); vf_reach("end"); }
// @entry h_stddev reach=end
VF_HARNESS(h_stddev) { int n = vf_pick("n", 2, N); image<bitpix::_B64, RealConv> im; im.read_image(std::string(8 * n, 'x')); double* p = RealConv::px(); double s = 0, q = 0; for (int i = 0; i < n; i++) s += p[i]; s /= n; for (int i = 0; i < n; i++) q += (p[i] - s) * (p[i] - s); double d = im.std_dev(); vf_assert(d >= 0, "non-negative"); vf_close(d * d * (n - 1), q, 1e-6, "sample-standard-deviation"); vf_reach("end"); }
// @entry h_empty reach=end
VF_HARNESS(h_empty) { image<bitpix::_B64, RealConv> im; im.read_image(""); vf_assert(im.size() == 0 && im.mean() == 0 && im.std_dev() == 0, "empty-image"); vf_reach("end"); }
template <bitpix B> static void ints() { int n = vf_pick("n", 1, N); image<B, IntConv> im; im.read_image(std::string(n * get_element_size_from_bitpix(B), 'x')); int64_t* p = IntConv::px(); int64_t mx = im.max(), mn = im.min(), md = im.median(); int lo = 0, hi = 0; bool a = false, b = false, c = false; double s = 0; for (int i = 0; i < n; i++) { vf_assert(mx >= p[i] && mn <= p[i], "integer-extrema"); a |= mx == p[i]; b |= mn == p[i]; c |= md == p[i]; lo += p[i] < md; hi += p[i] > md; s += (double)p[i]; } vf_assert(a && b && c, "integer-statistic-is-a-pixel"); vf_assert(2 * lo <= n && 2 * hi <= n, "integer-median"); vf_close(im.mean() * n, s, 1e-6, "integer-mean"); vf_reach("end"); }
// @entry h_b8 reach=end
VF_HARNESS(h_b8) { ints<bitpix::B8>(); }
// @entry h_b16 reach=end
VF_HARNESS(h_b16) { ints<bitpix::B16>(); }
// @entry h_b32 reach=end
VF_HARNESS(h_b32) { ints<bitpix::B32>(); }
template <bitpix B> static void idev() { int n = vf_pick("n", 2, N); image<B, IntConv> im; im.read_image(std::string(n * get_element_size_from_bitpix(B), 'x')); int64_t* p = IntConv::px(); double s = 0, q = 0; for (int i = 0; i < n; i++) s += (double)p[i]; s /= n; for (int i = 0; i < n; i++) q += ((double)p[i] - s) * ((double)p[i] - s); double d = im.std_dev(); vf_assert(d >= 0, "integer-dev-sign"); vf_close(d * d * (n - 1), q, 1e-6, "integer-standard-deviation"); vf_reach("end"); }
// @entry h_b8dev reach=end
VF_HARNESS(h_b8dev) { idev<bitpix::B8>(); }
// @entry h_b32dev reach=end
VF_HARNESS(h_b32dev) { idev<bitpix::B32>(); }
struct Buf : image_buffer<std::int32_t> { Buf(size_t w, size_t h) : image_buffer<std::int32_t>(w, h) {} std::valarray<std::int32_t>& d() { return data_; } };
// @entry h_pixel reach=end
VF_HARNESS(h_pixel) {   // pixel access in an image of known size
  int w = vf_pick("w", 1, 3), h = vf_pick("h", 1, 3); Buf b(w, h); vf_assert(b.size() == (size_t)w * h, "allocated-pixels"); for (int i = 0; i < w * h; i++) b.d()[i] = (std::int32_t)vf_u32("px"); for (int x = 0; x < h; x++) for (int y = 0; y < w; y++) vf_assert(b(x, y) == b.d()[x * w + y], "pixel-at-row-column"); vf_reach("end"); }
