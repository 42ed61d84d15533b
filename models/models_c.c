/* libc string functions, as loops */
#include <stddef.h>
#define nullptr ((void*)0)
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return nullptr; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i] || !a[i]) return (unsigned char)a[i] - (unsigned char)b[i]; } return 0; }


/* std::to_string(double): a mark instead of the digits (see "printing" in models.cpp), stored in the small buffer of a libstdc++ string */
int vf_num_new(double, long);
struct vf_small_string { char* p; unsigned long n; char b[16]; };
void vf_m_xstring(struct vf_small_string* r, void* f, unsigned long n, const char* fmt, double v) __asm__("_ZN9__gnu_cxx12__to_xstringINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEcEET_PFiPT0_mPKS8_P13__va_list_tagEmSB_z");
void vf_m_xstring(struct vf_small_string* r, void* f, unsigned long n, const char* fmt, double v) { r->p = r->b; r->n = 2; r->b[0] = 2; r->b[1] = (char)vf_num_new(v, fmt[0] == '%' && fmt[1] == 'f' && !fmt[2] ? -1 : -2); r->b[2] = 0; }

/* library functions made of ones the engine has */
double trunc(double); double round(double); double fabs(double); double sin(double); double cos(double); float truncf(float);
double modf(double x, double* whole) { *whole = trunc(x); return x - *whole; }
float modff(float x, float* whole) { *whole = truncf(x); return x - *whole; }
long lround(double x) { return (long)round(x); }
long long llround(double x) { return (long long)round(x); }
void sincos(double x, double* s, double* c) { *s = sin(x); *c = cos(x); }
double fdim(double x, double y) { return x > y ? x - y : 0; }
