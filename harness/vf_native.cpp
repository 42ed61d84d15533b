// native side of vf.h: replays a counterexample against the natively compiled real code
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <dlfcn.h>
#include <unistd.h>
#include <exception>
static std::map<std::string, std::string> in; static std::map<std::string, unsigned> names;
static int failures = 0;
static std::string uniq(const char* n) { unsigned k = names[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
static std::string get(std::string const& n) { auto it = in.find(n); return it == in.end() ? "0" : it->second; }
static uint64_t U(const char* n) { return strtoull(get(uniq(n)).c_str(), nullptr, 10); }
extern "C" void vfs_done();
static void finish(int rc) { vfs_done(); fflush(stdout); fflush(stderr); _exit(rc); }
extern "C" {
uint8_t vf_u8(const char* n) { return U(n); } uint16_t vf_u16(const char* n) { return U(n); } uint32_t vf_u32(const char* n) { return U(n); } uint64_t vf_u64(const char* n) { return U(n); }
double vf_f64(const char* n) { uint64_t u = U(n); double d; memcpy(&d, &u, 8); return d; }
float vf_f32(const char* n) { uint32_t u = U(n); float d; memcpy(&d, &u, 4); return d; }
bool vf_bool(const char* n) { return U(n) != 0; }
int64_t vf_int(const char* n, int64_t lo, int64_t hi) { int64_t v = strtoll(get(uniq(n)).c_str(), nullptr, 10); if (v < lo || v > hi) { puts("VF-ASSUME"); finish(77); } return v; }
double vf_real(const char* n, double lo, double hi) { double v = strtod(get(uniq(n)).c_str(), nullptr); double s = 1e-9 * (std::fabs(hi - lo)); if (v < lo && v > lo - s) v = lo; if (v > hi && v < hi + s) v = hi; if (!(v >= lo && v <= hi)) { puts("VF-ASSUME"); finish(77); } return v; }
int64_t vf_pick(const char* n, int64_t lo, int64_t) { std::string k = uniq(n); return in.count(k) ? (int64_t)strtoull(in[k].c_str(), nullptr, 10) : lo; }
uint64_t vf_concretize(uint64_t v) { return v; }
void vf_bytes(void* p, size_t k, const char* n) { std::string u = uniq(n); for (size_t i = 0; i < k; i++) ((unsigned char*)p)[i] = (unsigned char)strtoul(get(u + "[" + std::to_string(i) + "]").c_str(), nullptr, 10); }
void vf_assume(bool b) { if (!b) { puts("VF-ASSUME"); finish(failures ? 3 : 77); } }
void vf_assert(bool b, const char* id) { if (!b) { printf("VF-FAIL %s\n", id); failures++; } }
void vf_close(double a, double b, double tol, const char* id) {
  bool ok = std::fabs(a - b) <= tol * std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b)));
  if (!ok) { printf("VF-FAIL %s (%.17g vs %.17g)\n", id, a, b); failures++; } }
void vf_reach(const char* id) { printf("VF-REACH %s\n", id); }
double vf_decimal(const char* p, size_t n) { return strtod(std::string(p, n).c_str(), nullptr); } float vf_decimal_f(const char* p, size_t n) { return strtof(std::string(p, n).c_str(), nullptr); }
int vf_symbolic() { return 0; } void vf_rounding(int) {}
void vf_log(const char* s) { fprintf(stderr, "[vf] %s\n", s); } void vf_logval(const char* s, uint64_t v) { fprintf(stderr, "[vf] %s = %lld\n", s, (long long)v); }
}
static std::string vfs_real(const char* n) { const char* d = getenv("VF_SCRATCH"); return std::string(d ? d : "/tmp") + "/vfs_" + std::to_string(getpid()) + "_" + n; }
static std::map<std::string, int> vfs_used;
extern "C" {
void vfs_path(const char* n, char* out) { std::string p = vfs_real(n); vfs_used[p] = 1; strcpy(out, p.c_str()); }
void vfs_put(const char* n, const void* d, size_t k) { std::string p = vfs_real(n); vfs_used[p] = 1; FILE* f = fopen(p.c_str(), "wb"); if (k) fwrite(d, 1, k, f); fclose(f); }
size_t vfs_size(const char* n) { FILE* f = fopen(vfs_real(n).c_str(), "rb"); if (!f) return (size_t)-1; fseek(f, 0, SEEK_END); size_t k = ftell(f); fclose(f); return k; }
void vfs_get(const char* n, void* d, size_t off, size_t k) { FILE* f = fopen(vfs_real(n).c_str(), "rb"); if (!f) return; fseek(f, off, SEEK_SET); size_t r = fread(d, 1, k, f); (void)r; fclose(f); }
void vfs_done() { for (auto& p : vfs_used) unlink(p.first.c_str()); }
}
static void term() {
  if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (std::exception& x) { printf("VF-FAIL uncaught-exception %s\n", x.what()); } catch (...) { printf("VF-FAIL uncaught-exception\n"); } }
  else printf("VF-FAIL terminate\n");
  finish(3); }
int main(int argc, char** argv) {   // replay <entry> <inputs: lines "name value">
  if (argc < 3) return 2;
  FILE* f = fopen(argv[2], "r"); if (!f) return 2; char line[4096];
  while (fgets(line, sizeof line, f)) { char* t = strrchr(line, '\t'); if (!t) continue; *t = 0; std::string v = t + 1; while (!v.empty() && (v.back() == '\n' || v.back() == ' ')) v.pop_back(); in[line] = v; }
  fclose(f);
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { fprintf(stderr, "no entry\n"); return 2; }
  std::set_terminate(term);
  try { fn(); } catch (std::exception& e) { printf("VF-FAIL uncaught-exception %s\n", e.what()); finish(3); } catch (...) { printf("VF-FAIL uncaught-exception\n"); finish(3); }
  if (failures) finish(3);
  puts("VF-OK"); finish(0);
}
#include <sstream>
extern "C" void* vf_os_new() { return static_cast<std::ostream*>(new std::ostringstream); }
extern "C" bool vf_os_same(void* a, void* b) { std::string x = static_cast<std::ostringstream*>(static_cast<std::ostream*>(a))->str(), y = static_cast<std::ostringstream*>(static_cast<std::ostream*>(b))->str(); if (x != y) printf("printed \"%s\" instead of \"%s\"\n", x.c_str(), y.c_str()); return x == y; }
