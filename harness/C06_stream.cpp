// C06: the file access layer
// @bounds files of up to 12 symbolic bytes (and files of 9001 and 70001 bytes, symbolic at the usual buffer boundaries, for long reads and writes; 2880-block files up to 4 blocks); all histories of 3 operations (thorough 4) from read 1..4 bytes, get one byte, reposition 0..12, query end/position; record ends for symbolic positions up to 2^40
// @assume after a read beyond the end of the file only the end-of-file query is specified
#include "vfh.h"
#include <boost/astronomy/io/fits_stream.hpp>
using namespace boost::astronomy; using io::fits_stream;
// @entry h_history reach=end
VF_HARNESS(h_history) {
  const size_t N = 6; std::string d(N, '?'); vf_bytes(&d[0], N, "d"); vf_put("f", d); fits_stream f; f.set_file(vf_path("f")); vf_assert(f.is_open(), "open"); size_t pos = 0; bool over = false;
  for (int k = 0; k < VF_TIER(3, 4) && !over; k++) { int op = vf_pick("op", 0, 3);
    if (op == 0) { size_t n = vf_pick("n", 0, 3); std::string g = f.read(n); vf_assert(g.size() == n, "read-length"); size_t av = pos < N ? N - pos : 0, t = n < av ? n : av; vf_assert(vf_same(g.substr(0, t), d.substr(pos < N ? pos : N, t)), "read-bytes"); over = n > av; pos += n; }
    else if (op == 1) { unsigned char c = f.get(); if (pos < N) vf_assert(c == (unsigned char)d[pos], "get-byte"); else { vf_assert(c == 0, "get-at-end"); over = true; } pos++; }
    else if (op == 2) { pos = vf_pick("p", 0, 7); f.set_reading_pos(pos); }
    else vf_assert(f.at_end() == (pos >= N), "at-end");
    if (!over && op != 3) vf_assert(f.get_current_pos() == pos, "position");
    if (op == 3 && pos >= N) { f.set_reading_pos(pos); vf_assert(f.get_current_pos() == pos, "position-after-end-query"); }
  }
  if (over) vf_assert(f.at_end(), "at-end-after-reading-over"); vf_reach("end");
}
// @entry h_unit_end reach=end
VF_HARNESS(h_unit_end) {   // the end of the record: the smallest multiple of 2880 not before the position
  vf_put("f", "x"); fits_stream f; f.set_file(vf_path("f")); uint64_t p = (uint64_t)vf_int("p", 0, 1099511627776ll); f.set_reading_pos(p); uint64_t e = f.find_unit_end(); vf_assert(e % 2880 == 0, "multiple-of-2880"); vf_assert(e >= p, "not-before"); vf_assert(e - p < 2880, "nearest"); vf_assert(f.get_current_pos() == p, "query-does-not-move"); f.set_unit_end(); vf_assert(f.get_current_pos() == e, "moves-to-record-end"); f.set_unit_end(); vf_assert(f.get_current_pos() == e, "record-end-is-stable"); vf_reach("end"); }
// @entry h_write reach=end
VF_HARNESS(h_write) {   // what is written is what is read, at the position given
  size_t n = vf_pick("n", 0, 4), m = vf_pick("m", 0, 3), at = vf_pick("at", 0, 5); std::string a(n, '?'), b(m, '?'); if (n) vf_bytes(&a[0], n, "a"); if (m) vf_bytes(&b[0], m, "b"); vf_put("o", "previous content"); fits_stream o; vf_assert(o.create_file(vf_path("o")), "create"); vf_assert(o.write(a), "write-ok"); vf_assert(o.get_current_pos() == n, "position-after-write"); if (at > n) at = n; vf_assert(o.write(b, at), "write-at-ok"); o.close();
  std::string w = a; if (at + m > w.size()) w.resize(at + m); for (size_t i = 0; i < m; i++) w[at + i] = b[i]; vf_assert(vf_same(vf_file("o"), w), "file-content"); o.set_file(vf_path("o")); vf_assert(vf_same(o.read(w.size()), w), "reads-back"); vf_assert(o.at_end(), "end-after-all"); vf_reach("end"); }
// @entry h_reopen reach=end
VF_HARNESS(h_reopen) {   // another file can be opened in any state; a file that is not there is reported
  std::string a(3, '?'), b(2, '?'); vf_bytes(&a[0], 3, "a"); vf_bytes(&b[0], 2, "b"); vf_put("f", a); vf_put("g", b); fits_stream s; s.set_file(vf_path("f")); size_t n = vf_pick("n", 0, 5); (void)s.read(n); if (vf_pick("q", 0, 1)) (void)s.at_end(); if (vf_pick("c", 0, 1)) s.close();
  int bad = vf_pick("bad", 0, 1); if (bad) { bool threw = false; try { s.set_file(vf_path("none")); } catch (file_reading_exception&) { threw = true; } vf_assert(threw, "missing-file-reported"); vf_assert(!s.is_open(), "nothing-open"); }
  s.set_file(vf_path("g")); vf_assert(s.get_current_pos() == 0, "starts-at-zero"); vf_assert(!s.at_end(), "not-at-end"); vf_assert(vf_same(s.read(2), b), "bytes-of-second-file"); vf_assert(s.at_end(), "end-of-second-file"); vf_reach("end"); }
// @entry h_readonly reach=end
VF_HARNESS(h_readonly) {   // a file opened for reading is never changed
  std::string a(3, '?'); vf_bytes(&a[0], 3, "a"); vf_put("f", a); fits_stream s; s.set_file(vf_path("f")); size_t p = vf_pick("p", 0, 3); s.set_reading_pos(p); vf_assert(!s.write("zz"), "write-refused"); s.close(); vf_assert(vf_same(vf_file("f"), a), "file-unchanged"); vf_reach("end"); }
static std::string bulk(size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)(i * 7 + i / 251); static const size_t P[] = {0, 511, 512, 1023, 1024, 2879, 2880, 4095, 4096, 8191, 8192, 9000}; for (size_t p : P) if (p < n) vf_bytes(&s[p], 1, "b"); return s; }
static const size_t LEN[] = {80, 512, 1024, 1025, 2880, 4096, 4097, 8193, 9001};
// @entry h_bulk_read reach=end
VF_HARNESS(h_bulk_read) {   // long reads, from the start and from inside the file
  std::string d = bulk(9001); vf_put("f", d); fits_stream f; f.set_file(vf_path("f")); size_t at = vf_pick("at", 0, 2) * 1441, n = LEN[vf_pick("n", 0, 8)]; if (n > 9001 - at) n = 9001 - at; f.set_reading_pos(at); std::string g = f.read(n); vf_assert(g.size() == n, "bulk-read-length"); vf_assert(vf_same(g, d.substr(at, n)), "bulk-read-bytes"); vf_assert(f.get_current_pos() == at + n, "bulk-position"); vf_assert(f.at_end() == (at + n == 9001), "bulk-at-end"); if (at + n < 9001) vf_assert(f.get() == (unsigned char)d[at + n], "bulk-next-byte"); vf_reach("end"); }
// @entry h_bulk_write reach=end
VF_HARNESS(h_bulk_write) {
  size_t n = LEN[vf_pick("n", 0, 8)]; std::string d = bulk(n), e = bulk(3000); fits_stream o; o.create_file(vf_path("o")); vf_assert(o.write(d), "bulk-write"); vf_assert(o.get_current_pos() == n, "bulk-write-position"); vf_assert(o.write(e), "bulk-second-write"); o.close(); vf_assert(vf_same(vf_file("o"), d + e), "bulk-file-content"); vf_reach("end"); }
// @entry h_huge reach=end
VF_HARNESS(h_huge) {   // one read and one write beyond 64 KiB
  std::string d(70001, 0); for (size_t i = 0; i < d.size(); i++) d[i] = (char)(i * 5 + i / 253); static const size_t P[] = {0, 16383, 16384, 32767, 32768, 65535, 65536, 70000}; for (size_t p : P) vf_bytes(&d[p], 1, "b"); fits_stream o; o.create_file(vf_path("o")); vf_assert(o.write(d), "huge-write"); vf_assert(o.get_current_pos() == d.size(), "huge-position"); o.close(); vf_assert(vf_same(vf_file("o"), d), "huge-file-content"); fits_stream f; f.set_file(vf_path("o")); std::string g = f.read(d.size()); vf_assert(vf_same(g, d), "huge-read"); vf_assert(f.get_current_pos() == d.size() && f.at_end(), "huge-end"); vf_reach("end"); }
