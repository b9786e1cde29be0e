// A character sink in place of the compiled parts of libstdc++'s ostream (they are not in any header, so they cannot be executed symbolically).  Pointers are written as
// 16 hexadecimal digits, integers in decimal, floating-point values as "0.00"; the same definitions are used by the native replay.
#pragma once
#include <ostream>
#include <cstring>
static char h_out[1 << 16]; static unsigned h_outn;
static void h_put(const char* s, unsigned long n) { for (unsigned long i = 0; i < n && h_outn + 1 < sizeof h_out; i++) h_out[h_outn++] = s[i]; h_out[h_outn] = 0; }
static void h_putu(unsigned long v) { char b[24]; int n = 24; do { b[--n] = (char)('0' + v % 10); v /= 10; } while (v); h_put(b + n, 24 - n); }
static long h_ostreamVt[4] = {8, 0, 0, 0}; alignas(16) static char h_ostreamMem[1024]; 
static std::ostream& h_stream(void* mem = h_ostreamMem) { if (!*(void**)mem) *(void**)mem = &h_ostreamVt[3]; return *(std::ostream*)mem; }
static std::string h_hex(const void* p) { char b[16]; unsigned long v = (unsigned long)p; for (int i = 15; i >= 0; i--) { b[i] = "0123456789abcdef"[v & 15]; v >>= 4; } return std::string(b, 16); }
#define H_OS(ret, name, sym, ...) ret name(__VA_ARGS__) asm(sym); ret name(__VA_ARGS__)
extern "C" {
H_OS(void*, h_os_ins, "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", void* o, const char* s, long n) { h_put(s, (unsigned long)n); return o; }
H_OS(void*, h_os_str, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc", void* o, const char* s) { h_put(s, strlen(s)); return o; }
H_OS(void*, h_os_chr, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c", void* o, char c) { h_put(&c, 1); return o; }
H_OS(void*, h_os_sst, "_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE", void* o, const std::string& s) { h_put(s.data(), s.size()); return o; }
H_OS(void*, h_os_put, "_ZNSo3putEc", void* o, char c) { h_put(&c, 1); return o; }
H_OS(void*, h_os_wri, "_ZNSo5writeEPKcl", void* o, const char* s, long n) { h_put(s, (unsigned long)n); return o; }
H_OS(void*, h_os_flu, "_ZNSo5flushEv", void* o) { return o; }
H_OS(void*, h_os_end, "_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", void* o) { h_put("\n", 1); return o; }
H_OS(void*, h_os_ptr, "_ZNSo9_M_insertIPKvEERSoT_", void* o, const void* p) { std::string s = h_hex(p); h_put(s.data(), s.size()); return o; }
H_OS(void*, h_os_dbl, "_ZNSo9_M_insertIdEERSoT_", void* o, double) { h_put("0.00", 4); return o; }
H_OS(void*, h_os_ld, "_ZNSo9_M_insertIeEERSoT_", void* o, long double) { h_put("0.00", 4); return o; }
H_OS(void*, h_os_ul, "_ZNSo9_M_insertImEERSoT_", void* o, unsigned long v) { h_putu(v); return o; }
H_OS(void*, h_os_ull, "_ZNSo9_M_insertIyEERSoT_", void* o, unsigned long v) { h_putu(v); return o; }
H_OS(void*, h_os_l, "_ZNSo9_M_insertIlEERSoT_", void* o, long v) { if (v < 0) { h_put("-", 1); v = -v; } h_putu((unsigned long)v); return o; }
H_OS(void*, h_os_i, "_ZNSolsEi", void* o, int v) { return h_os_l(o, v); }
}
