// harness interface: symbolic under the executor, concrete (read from a file) in native replay
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint8_t  vf_u8(const char*);  uint16_t vf_u16(const char*); uint32_t vf_u32(const char*); uint64_t vf_u64(const char*);
double   vf_f64(const char*); float vf_f32(const char*);          // arbitrary bit patterns
bool     vf_bool(const char*);
int64_t  vf_int(const char*, int64_t lo, int64_t hi);             // mathematical integer in [lo,hi]
double   vf_real(const char*, double lo, double hi);              // exact real in [lo,hi]
int64_t  vf_pick(const char*, int64_t lo, int64_t hi);            // case split over lo..hi
uint64_t vf_concretize(uint64_t);
void     vf_bytes(void*, size_t, const char*);
void     vf_assume(bool);
void     vf_assert(bool, const char*);
void     vf_close(double a, double b, double tol, const char*);   // equal over the reals (replay: within tol)
void     vf_reach(const char*);                                   // vacuity witness
double   vf_decimal(const char*, size_t);                         // the number the runtime reads from a decimal text
float    vf_decimal_f(const char*, size_t);
int      vf_symbolic();
void     vf_rounding(int on);                                     // while on, quotients carry a relative error of up to 2^-52
void     vf_log(const char*); void vf_logval(const char*, uint64_t);
}
#define VF_HARNESS(name) extern "C" __attribute__((used,noinline)) void name()
