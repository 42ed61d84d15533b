// Environment models linked with every harness: the parts of libstdc++ that exist only as
// compiled code, written as ordinary C++ so that the executor interprets them symbolically.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <ctype.h>
#include <locale>
#include <string>
#include <map>
#include <unordered_map>
#include "vfs_model.h"
template class std::basic_string<char>;

extern "C" {
void vf_throw_std(const char*);
char __libc_single_threaded = 1;
// ---- in-memory files
static vfs_file vfs_tab[8]; static int vfs_n = 0;
vfs_file* vfs_find(const char* p) { for (int i = 0; i < vfs_n; i++) if (!strcmp(vfs_tab[i].name, p)) return &vfs_tab[i]; return nullptr; }
vfs_file* vfs_create(const char* p) { vfs_file* f = &vfs_tab[vfs_n++]; size_t n = strlen(p); memcpy(f->name, p, n + 1); f->b = nullptr; f->n = f->cap = 0; return f; }
void vfs_reserve(vfs_file* f, size_t n) { if (n <= f->cap) return; size_t c = n + n / 2 + 4096; unsigned char* q = (unsigned char*)malloc(c); if (f->n) memcpy(q, f->b, f->n); free(f->b); f->b = q; f->cap = c; }
void vfs_put(const char* p, const void* d, size_t n) { vfs_file* f = vfs_find(p); if (!f) f = vfs_create(p); vfs_reserve(f, n); memcpy(f->b, d, n); f->n = n; }
size_t vfs_size(const char* p) { vfs_file* f = vfs_find(p); return f ? f->n : (size_t)-1; }
void vfs_get(const char* p, void* d, size_t off, size_t n) { vfs_file* f = vfs_find(p); memcpy(d, f->b + off, n); }
void vfs_path(const char* p, char* out) { memcpy(out, p, strlen(p) + 1); }
void vfs_done() {}
}

// ---- locale: the classic locale only
static uint16_t vf_ctype_table[256]; static char vf_facet[1024]; struct vf_limpl { int rc; const void** facets; size_t nfacets; const void** caches; char** names; };
static const void* vf_facets[32]; static vf_limpl vf_loc_impl_s; static vf_limpl* const vf_loc_impl = &vf_loc_impl_s;
__attribute__((constructor(101))) static void vf_locale_init() {
  vf_loc_impl_s.facets = vf_facets; vf_loc_impl_s.nfacets = 32; vf_facets[0] = vf_facet;
  for (int c = 0; c < 128; c++) {
    uint16_t m = 0; bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', dg = c >= '0' && c <= '9';
    if (up) m |= std::ctype_base::upper; if (lo) m |= std::ctype_base::lower; if (up || lo) m |= std::ctype_base::alpha; if (dg) m |= std::ctype_base::digit;
    if (dg || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) m |= std::ctype_base::xdigit;
    if (c == ' ' || (c >= 9 && c <= 13)) m |= std::ctype_base::space;
    if (c == ' ' || c == '\t') m |= std::ctype_base::blank;
    if (c >= 32 && c < 127) m |= std::ctype_base::print; if (c < 32 || c == 127) m |= std::ctype_base::cntrl;
    if (c > 32 && c < 127 && !up && !lo && !dg) m |= std::ctype_base::punct;
    vf_ctype_table[c] = m;
  }
  struct probe : std::ctype<char> { static size_t off() { return (size_t)&((probe*)0x1000)->_M_table - 0x1000; } };
  *(const uint16_t**)(vf_facet + probe::off()) = vf_ctype_table;
}
extern "C" {
void vfm_loc_ctor(void** l) asm("_ZNSt6localeC1Ev"); void vfm_loc_ctor(void** l) { *l = vf_loc_impl; }
void vfm_loc_cctor(void** l, void** o) asm("_ZNSt6localeC1ERKS_"); void vfm_loc_cctor(void** l, void** o) { *l = *o; }
void vfm_loc_dtor(void** l) asm("_ZNSt6localeD1Ev"); void vfm_loc_dtor(void**) {}
void** vfm_loc_as(void** l, void** o) asm("_ZNSt6localeaSERKS_"); void** vfm_loc_as(void** l, void** o) { *l = *o; return l; }
bool vfm_loc_eq(void** l, void** o) asm("_ZNKSt6localeeqERKS_"); bool vfm_loc_eq(void**, void**) { return true; }
static void* vf_classic = &vf_loc_impl_s;
size_t vfm_loc_id(void*) asm("_ZNKSt6locale2id5_M_idEv"); size_t vfm_loc_id(void*) { return 0; }
void* vfm_dyncast(void* p, void*, void*, long) asm("__dynamic_cast"); void* vfm_dyncast(void* p, void*, void*, long) { return p; }
void** vfm_loc_classic() asm("_ZNSt6locale7classicEv"); void** vfm_loc_classic() { return &vf_classic; }
void* vfm_use_ctype(void*) asm("_ZSt9use_facetISt5ctypeIcEERKT_RKSt6locale"); void* vfm_use_ctype(void*) { return vf_facet; }
// ---- hash containers: every key in one bucket class is a legal hash
size_t vfm_hash_bytes(const void* p, size_t n, size_t) asm("_ZSt11_Hash_bytesPKvmm"); size_t vfm_hash_bytes(const void*, size_t, size_t) { return 0; }
size_t vfm_next_bkt(void* self, size_t n) asm("_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm"); size_t vfm_next_bkt(void*, size_t n) { return n < 13 ? 13 : 2 * n + 1; }
struct vf_pair { bool b; size_t n; };
vf_pair vfm_need_rehash(void*, size_t nb, size_t ne, size_t ni) asm("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm");
vf_pair vfm_need_rehash(void*, size_t nb, size_t ne, size_t ni) { if (nb < 13) return {true, 13}; return {false, 0}; }
}
// ---- red-black tree: an unbalanced binary search tree has the same observable order
using RB = std::_Rb_tree_node_base;
extern "C" {
void vfm_rb_ins(bool left, RB* x, RB* p, RB& h) asm("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
void vfm_rb_ins(bool left, RB* x, RB* p, RB& h) {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = std::_S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  h._M_color = std::_S_red;
}
RB* vfm_rb_inc(RB* x) asm("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
RB* vfm_rb_inc(RB* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } RB* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
RB* vfm_rb_cinc(RB* x) asm("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base"); RB* vfm_rb_cinc(RB* x) { return vfm_rb_inc(x); }
RB* vfm_rb_dec(RB* x) asm("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base");
RB* vfm_rb_dec(RB* x) { if (x->_M_color == std::_S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { RB* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } RB* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
RB* vfm_rb_cdec(RB* x) asm("_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base"); RB* vfm_rb_cdec(RB* x) { return vfm_rb_dec(x); }
}

// ---- input of floating point numbers (boost::lexical_cast reads them through std::istream): the grammar of num_get,
// the value N * 10^e for at most 15 digits and decimal exponents of at most 22 (then the nearest double is one rounding away)
extern "C" {
void vf_unsupported(const char*); uint64_t vf_concretize(uint64_t);
struct vf_sb { void* vt; char *eback, *gptr, *egptr; };
static inline char* vf_ios(void* is) { return (char*)is + *(long*)(*(char**)is - 24); }
static inline int& vf_state(char* i) { return *(int*)(i + 32); }
void vfm_ios_init(char* i, void* sb) asm("_ZNSt9basic_iosIcSt11char_traitsIcEE4initEPSt15basic_streambufIcS1_E");
void vfm_ios_init(char* i, void* sb) { *(long*)(i + 8) = 6; *(long*)(i + 16) = 0; *(int*)(i + 24) = 0x1002; *(int*)(i + 28) = 0; vf_state(i) = sb ? 0 : 1; *(void**)(i + 232) = sb; }
void vfm_ios_clear(char* i, int st) asm("_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate");
void vfm_ios_clear(char* i, int st) { vf_state(i) = st; if (st & *(int*)(i + 28)) vf_unsupported("stream exception"); }
void vfm_iosb_c(void*) asm("_ZNSt8ios_baseC2Ev"); void vfm_iosb_c(void*) {}
void vfm_iosb_d(void*) asm("_ZNSt8ios_baseD2Ev"); void vfm_iosb_d(void*) {}
void vfm_sb_d(void*) asm("_ZNSt15basic_streambufIcSt11char_traitsIcEED2Ev"); void vfm_sb_d(void*) {}
// vtable of std::istream: the virtual base is 16 bytes into the object
extern const long vfm_vt_si[10] asm("_ZTVSi"); const long vfm_vt_si[10] = {16, 0, 0, 0, 0, -16, -16, 0, 0, 0};
extern const void* const vfm_vtt_si[2] asm("_ZTTSi"); const void* const vfm_vtt_si[2] = {&vfm_vt_si[3], &vfm_vt_si[8]};
extern const long vfm_vt_ios[4] asm("_ZTVSt9basic_iosIcSt11char_traitsIcEE"); const long vfm_vt_ios[4] = {0, 0, 0, 0};
extern const long vfm_vt_sb[16] asm("_ZTVSt15basic_streambufIcSt11char_traitsIcEE"); const long vfm_vt_sb[16] = {0};
int vfm_is_get(void* is) asm("_ZNSi3getEv");
int vfm_is_get(void* is) { char* i = vf_ios(is); *(long*)((char*)is + 8) = 0; if (vf_state(i)) { vf_state(i) |= 4; return -1; } vf_sb* b = *(vf_sb**)(i + 232); if (b->gptr == b->egptr) { vf_state(i) |= 6; return -1; } *(long*)((char*)is + 8) = 1; return (unsigned char)*b->gptr++; }
// ---- output of floating point numbers: a text of a picked shape (short or longest, by sign, with the exponent of a large or a
// small number) that stands for the number; different numbers have different texts. Reading such a text back gives the number
// if it has enough digits (17, or 9 for a float), else some number of the same sign.
double vf_f64(const char*); int64_t vf_pick(const char*, int64_t, int64_t); void vf_bytes(void*, size_t, const char*); void vf_assume(bool);
struct vf_tok { char b[40]; int n, prec; bool flt, read; double v, r; float fv, fr; }; static vf_tok vf_toks[32]; static int vf_ntok;
int vf_format_double(double v, int prec, int how, char* out) {
  static int k = -1; if (k < 0) k = (int)vf_pick("number-shape", 0, 4); if (vf_ntok >= 32 || prec > 20 || prec < 1) vf_unsupported("many numbers written");
  int n = 0; uint64_t u; memcpy(&u, &v, 8); uint64_t x = (u >> 52) & 0x7ff; bool neg = u >> 63; char a = (char)('1' + vf_ntok % 9), b = (char)('1' + vf_ntok / 9); vf_assume(k == 4 ? u == 0 : (neg == (k & 1)) & ((u << 1) != 0) & (x != 0x7ff) & (k == 2 ? x >= 1023 + 70 : k == 3 ? x <= 1023 - 70 : true));
  if (k == 4) out[n++] = '0'; else { if (k & 1) out[n++] = '-'; out[n++] = a; out[n++] = '.'; if (k >= 2) { for (int i = 2; i < prec; i++) out[n++] = (char)('0' + i % 10); } if (prec > 1) out[n++] = b; if (k >= 2) { out[n++] = (how & 1) ? 'E' : 'e'; out[n++] = k == 2 ? '+' : '-'; out[n++] = k == 2 ? '2' : '3'; out[n++] = '0'; out[n++] = '7'; } }
  vf_tok& t = vf_toks[vf_ntok++]; for (int i = 0; i < n; i++) t.b[i] = out[i]; t.n = n; t.prec = prec; t.flt = how & 2; t.v = v; t.read = false; return n; }
int vf_format_float(float v, int prec, int how, char* out) { int n = vf_format_double((double)v, prec, how | 2, out); vf_toks[vf_ntok - 1].fv = v; return n; }
static vf_tok* vf_find_token(vf_sb* b) { for (int i = vf_ntok - 1; i >= 0; i--) { vf_tok& t = vf_toks[i]; if (t.n != b->egptr - b->gptr) continue; bool same = true; for (int j = 0; j < t.n; j++) same &= t.b[j] == b->gptr[j]; if (same) { b->gptr = b->egptr; return &t; } } return nullptr; }
float vf_f32(const char*);
static void vf_token_value(vf_tok& t, double& v) { if (t.prec >= 17) { v = t.v; return; } if (!t.read) { t.r = vf_f64("rounded"); uint64_t x, y; memcpy(&x, &t.r, 8); memcpy(&y, &t.v, 8); vf_assume((((x ^ y) >> 63) == 0) & (((x << 1) == 0) == ((y << 1) == 0)) & (((x >> 52) & 0x7ff) != 0x7ff)); t.read = true; } v = t.r; }
static void vf_token_value_f(vf_tok& t, float& v) { if (!t.flt) vf_unsupported("written as double, read as float"); if (t.prec >= 9) { v = t.fv; return; } if (!t.read) { t.fr = vf_f32("rounded"); uint32_t x, y; memcpy(&x, &t.fr, 4); memcpy(&y, &t.fv, 4); vf_assume((((x ^ y) >> 31) == 0) & (((x << 1) == 0) == ((y << 1) == 0)) & (((x >> 23) & 0xff) != 0xff)); t.read = true; } v = t.fr; }
static bool vf_read_double(vf_sb* b, double& v, bool& eof) {
  char *p = b->gptr, *e = b->egptr; bool neg = false, dig = false, dot = false, ok = true; uint64_t n = 0; int nd = 0, k = 0, x = 0; v = 0;
  if (p != e && (*p == '+' || *p == '-')) { neg = *p == '-'; p++; }
  for (; p != e; p++) { char c = *p; if (c >= '0' && c <= '9') { dig = true; if (++nd > 15) vf_unsupported("more than 15 digits"); n = n * 10 + (uint64_t)(c - '0'); if (dot) k++; } else if (c == '.' && !dot) dot = true; else break; }
  if (dig && p != e && (*p == 'e' || *p == 'E')) { p++; bool xn = false; if (p != e && (*p == '+' || *p == '-')) { xn = *p == '-'; p++; } bool xd = false; for (; p != e && *p >= '0' && *p <= '9'; p++) { xd = true; x = x * 10 + (*p - '0'); if (x > 99) vf_unsupported("large exponent"); } if (!xd) ok = false; if (xn) x = -x; }
  b->gptr = p; eof = p == e; if (!dig || !ok) return false;
  x = (int)vf_concretize((uint64_t)(int64_t)(x - k)); if (x < -22 || x > 22) vf_unsupported("large exponent"); double s = 1, r = (double)(int64_t)n; for (int i = 0; i < (x < 0 ? -x : x); i++) s *= 10; r = x < 0 ? r / s : r * s; v = neg ? -r : r; return true;
}
}
static inline void vf_token_as(vf_tok& t, double& v) { vf_token_value(t, v); }
static inline void vf_token_as(vf_tok& t, float& v) { vf_token_value_f(t, v); }
template <class F> static void* vf_extract(void* is, F& v) { char* i = vf_ios(is); if (vf_state(i)) { vf_state(i) |= 4; return is; } vf_sb* b = *(vf_sb**)(i + 232); if (vf_tok* t = vf_find_token(b)) { vf_token_as(*t, v); vf_state(i) |= 2; return is; } bool eof; double d; if (!vf_read_double(b, d, eof)) vf_state(i) |= 4; if (eof) vf_state(i) |= 2; v = (F)d; return is; }
extern "C" {
void* vfm_extract_d(void* is, double& v) asm("_ZNSi10_M_extractIdEERSiRT_"); void* vfm_extract_d(void* is, double& v) { return vf_extract(is, v); }
void* vfm_extract_f(void* is, float& v) asm("_ZNSi10_M_extractIfEERSiRT_"); void* vfm_extract_f(void* is, float& v) { return vf_extract(is, v); }
}
extern "C" {
// what the runtime reads from a decimal text (in replay: strtod, strtof)
double vf_decimal(const char* p, size_t n) { vf_sb b; b.gptr = (char*)p; b.egptr = (char*)p + n; double d; bool e; vf_read_double(&b, d, e); return d; }
float vf_decimal_f(const char* p, size_t n) { return (float)vf_decimal(p, n); }
}

// ---- printing: an output stream is a record of the characters put into it; a real number is a mark
// (its value, precision and flags are kept aside), so that equal texts need equal numbers
struct vf_num { double v; long prec; unsigned flags; }; static vf_num vf_nums[64]; static int vf_nnums = 0;
struct vf_ostream { void** vptr; char ios[264]; char text[1024]; int n; };   // vptr[-3]: distance of the ios part, as in the ABI of libstdc++ (precision, width and flags are its first members)
static void* vf_os_vtab[8]; static vf_ostream vf_os_tab[4]; static int vf_os_count = 0; static char vf_os_word[16];
static long* vf_os_fields(vf_ostream* o) { return (long*)(o->ios + 8); }   // precision, width, flags (int)
static void vf_os_add(vf_ostream* o, const char* p, long n) { if (o->n + n > 1024) vf_throw_std("length_error"); for (long i = 0; i < n; i++) o->text[o->n + i] = p[i]; o->n += (int)n; }
static void vf_os_put(vf_ostream* o, const char* p, long n) { long* f = vf_os_fields(o); long w = f[1]; f[1] = 0; bool left = ((unsigned)f[2] & (unsigned)std::ios_base::left) != 0; char sp = ' '; if (!left) for (long i = n; i < w; i++) vf_os_add(o, &sp, 1); vf_os_add(o, p, n); if (left) for (long i = n; i < w; i++) vf_os_add(o, &sp, 1); }
static void vf_os_real(vf_ostream* o, double v, char kind) { long* f = vf_os_fields(o); vf_nums[vf_nnums] = {v, f[0], (unsigned)f[2]}; char m[2] = {kind, (char)(16 + vf_nnums++)}; vf_os_put(o, m, 2); }
static void vf_os_int(vf_ostream* o, unsigned long v, bool neg) { char b[24]; int n = 24; do { b[--n] = (char)('0' + (int)(v % 10)); v /= 10; } while (v); if (neg) b[--n] = '-'; vf_os_put(o, b + n, 24 - n); }
extern "C" {
void* vf_os_new() { vf_os_vtab[0] = (void*)8; vf_ostream* o = &vf_os_tab[vf_os_count++]; o->vptr = vf_os_vtab + 3; long* f = vf_os_fields(o); f[0] = 6; f[1] = 0; *(unsigned*)(f + 2) = (unsigned)(std::ios_base::skipws | std::ios_base::dec); return o; }
bool vf_os_same(void* x, void* y) { vf_ostream *a = (vf_ostream*)x, *b = (vf_ostream*)y; if (a->n != b->n) return false; bool ok = true; for (int i = 0; i < a->n; i++) { char c = a->text[i]; ok &= c == b->text[i]; if ((c == 1 || c == 2) && b->text[i] == c && i + 1 < a->n) { ++i; vf_num &p = vf_nums[a->text[i] - 16], &q = vf_nums[b->text[i] - 16]; ok &= p.v == q.v; ok &= p.prec == q.prec; ok &= p.flags == q.flags; } } return ok; }
void* vf_m_ins_str(vf_ostream* o, const char* p, long n) asm("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l"); void* vf_m_ins_str(vf_ostream* o, const char* p, long n) { vf_os_put(o, p, n); return o; }
void* vf_m_ins_chr(vf_ostream* o, char c) asm("_ZNSo3putEc"); void* vf_m_ins_chr(vf_ostream* o, char c) { vf_os_add(o, &c, 1); return o; }
void* vf_m_ins_wr(vf_ostream* o, const char* p, long n) asm("_ZNSo5writeEPKcl"); void* vf_m_ins_wr(vf_ostream* o, const char* p, long n) { vf_os_add(o, p, n); return o; }
void* vf_m_ins_fl(vf_ostream* o) asm("_ZNSo5flushEv"); void* vf_m_ins_fl(vf_ostream* o) { return o; }
void* vf_m_ins_d(vf_ostream* o, double v) asm("_ZNSo9_M_insertIdEERSoT_"); void* vf_m_ins_d(vf_ostream* o, double v) { vf_os_real(o, v, 1); return o; }
void* vf_m_ins_l(vf_ostream* o, long v) asm("_ZNSo9_M_insertIlEERSoT_"); void* vf_m_ins_l(vf_ostream* o, long v) { vf_os_int(o, v < 0 ? 0ul - (unsigned long)v : (unsigned long)v, v < 0); return o; }
void* vf_m_ins_m(vf_ostream* o, unsigned long v) asm("_ZNSo9_M_insertImEERSoT_"); void* vf_m_ins_m(vf_ostream* o, unsigned long v) { vf_os_int(o, v, false); return o; }
void* vf_m_ins_i(vf_ostream* o, int v) asm("_ZNSolsEi"); void* vf_m_ins_i(vf_ostream* o, int v) { return vf_m_ins_l(o, v); }
int vf_m_xalloc() asm("_ZNSt8ios_base6xallocEv"); int vf_m_xalloc() { return 0; }
void* vf_m_words(void*, int, bool) asm("_ZNSt8ios_base13_M_grow_wordsEib"); void* vf_m_words(void*, int, bool) { return vf_os_word; }
int vf_num_new(double v, long kind) { vf_nums[vf_nnums] = {v, kind, 0}; return 16 + vf_nnums++; }
}
