// Models of the compiled parts of the stream library; the stringbuf/stringstream templates run as compiled.
// Output to cout, cerr and clog is discarded; numbers are written in decimal.
#include "vp.h"
#include <ostream>
#include <sstream>
#include <iostream>
#include <cstring>
extern "C" { void vp_stream_write(void *os, const char *s, size_t n); bool vp_stream_console(void *o); }
namespace std {
locale::locale() throw() {}
locale::locale(const locale &) throw() {}
locale::~locale() throw() {}
const locale &locale::operator=(const locale &) throw() { return *this; }
ios_base::ios_base() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_exception = goodbit; _M_streambuf_state = goodbit; _M_word = _M_local_word; }
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
locale ios_base::imbue(const locale &l) throw() { return l; }
ostream cout(nullptr), cerr(nullptr), clog(nullptr);
}
static bool console(void *os) { return os == (void *)&std::cout || os == (void *)&std::cerr || os == (void *)&std::clog; }
bool vp_stream_console(void *o) { return console(o); }
void vp_stream_write(void *o, const char *s, size_t n) {
  if (console(o)) return;
  std::ostream &os = *(std::ostream *)o; std::streamsize w = os.width();
  bool left = (os.flags() & std::ios_base::adjustfield) == std::ios_base::left;
  if (w > (std::streamsize)n && !left) for (std::streamsize i = n; i < w; i++) os.rdbuf()->sputc(os.fill());
  if (n) os.rdbuf()->sputn(s, n);
  if (w > (std::streamsize)n && left) for (std::streamsize i = n; i < w; i++) os.rdbuf()->sputc(os.fill());
  os.width(0);
}
static void num(void *o, unsigned long v, bool neg) {
  if (console(o)) return;
  std::ostream &os = *(std::ostream *)o; char b[32]; int n = 32; v = vp_concretize(v);
  unsigned base = (os.flags() & std::ios_base::basefield) == std::ios_base::hex ? 16 : (os.flags() & std::ios_base::basefield) == std::ios_base::oct ? 8 : 10;
  do { b[--n] = ((os.flags() & std::ios_base::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef")[v % base]; v /= base; } while (v);
  if (neg) b[--n] = '-';
  vp_stream_write(o, b + n, 32 - n);
}
static void numS(void *o, long v) { if (console(o)) return; v = (long)vp_concretize((unsigned long)v); num(o, v < 0 ? -(unsigned long)v : (unsigned long)v, v < 0); }
#define OS std::ostream &
extern "C" {
OS m_insert(OS o, const char *s, long n) asm("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
OS m_insert(OS o, const char *s, long n) { vp_stream_write(&o, s, n); return o; }
OS m_cstr(OS o, const char *s) asm("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc");
OS m_cstr(OS o, const char *s) { if (!console(&o)) vp_stream_write(&o, s, strlen(s)); else (void)strlen(s); return o; }
OS m_chr(OS o, char c) asm("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c");
OS m_chr(OS o, char c) { vp_stream_write(&o, &c, 1); return o; }
OS m_uchr(OS o, unsigned char c) asm("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_h");
OS m_uchr(OS o, unsigned char c) { vp_stream_write(&o, (char *)&c, 1); return o; }
OS m_str(OS o, const std::string &s) asm("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE");
OS m_str(OS o, const std::string &s) { if (!console(&o)) vp_stream_write(&o, s.data(), s.size()); else (void)*(volatile const char *)s.data(); return o; }
OS m_i(OS o, int v) asm("_ZNSolsEi"); OS m_i(OS o, int v) { numS(&o, v); return o; }
OS m_s(OS o, short v) asm("_ZNSolsEs"); OS m_s(OS o, short v) { numS(&o, v); return o; }
OS m_j(OS o, unsigned v) asm("_ZNSolsEj"); OS m_j(OS o, unsigned v) { num(&o, v, false); return o; }
OS m_t(OS o, unsigned short v) asm("_ZNSolsEt"); OS m_t(OS o, unsigned short v) { num(&o, v, false); return o; }
OS m_l(OS o, long v) asm("_ZNSolsEl"); OS m_l(OS o, long v) { numS(&o, v); return o; }
OS m_m(OS o, unsigned long v) asm("_ZNSolsEm"); OS m_m(OS o, unsigned long v) { num(&o, v, false); return o; }
OS m_x(OS o, long long v) asm("_ZNSolsEx"); OS m_x(OS o, long long v) { numS(&o, v); return o; }
OS m_y(OS o, unsigned long long v) asm("_ZNSolsEy"); OS m_y(OS o, unsigned long long v) { num(&o, v, false); return o; }
OS m_b(OS o, bool v) asm("_ZNSolsEb"); OS m_b(OS o, bool v) { num(&o, v, false); return o; }
OS m_d(OS o, double v) asm("_ZNSolsEd"); OS m_d(OS o, double v) { if (!console(&o)) vp_bound("floating-point text"); return o; }
OS m_f(OS o, float v) asm("_ZNSolsEf"); OS m_f(OS o, float v) { if (!console(&o)) vp_bound("floating-point text"); return o; }
OS m_p(OS o, const void *v) asm("_ZNSolsEPKv"); OS m_p(OS o, const void *v) { if (!console(&o)) vp_bound("pointer text"); return o; }
OS m_fn(OS o, OS (*f)(OS)) asm("_ZNSolsEPFRSoS_E"); OS m_fn(OS o, OS (*f)(OS)) { return f(o); }
OS m_Md(OS o, double v) asm("_ZNSo9_M_insertIdEERSoT_"); OS m_Md(OS o, double v) { if (!console(&o)) vp_bound("floating-point text"); return o; }
OS m_Ml(OS o, long v) asm("_ZNSo9_M_insertIlEERSoT_"); OS m_Ml(OS o, long v) { numS(&o, v); return o; }
OS m_Mm(OS o, unsigned long v) asm("_ZNSo9_M_insertImEERSoT_"); OS m_Mm(OS o, unsigned long v) { num(&o, v, false); return o; }
OS m_Mb(OS o, bool v) asm("_ZNSo9_M_insertIbEERSoT_"); OS m_Mb(OS o, bool v) { num(&o, v, false); return o; }
OS m_endl(OS o) asm("_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"); OS m_endl(OS o) { char c = '\n'; vp_stream_write(&o, &c, 1); return o; }
OS m_ends(OS o) asm("_ZSt4endsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"); OS m_ends(OS o) { char c = 0; vp_stream_write(&o, &c, 1); return o; }
OS m_flush1(OS o) asm("_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"); OS m_flush1(OS o) { return o; }
OS m_flush(OS o) asm("_ZNSo5flushEv"); OS m_flush(OS o) { return o; }
OS m_put(OS o, char c) asm("_ZNSo3putEc"); OS m_put(OS o, char c) { if (!console(&o)) o.rdbuf()->sputc(c); return o; }
OS m_write(OS o, const char *s, long n) asm("_ZNSo5writeEPKcl"); OS m_write(OS o, const char *s, long n) { if (!console(&o)) o.rdbuf()->sputn(s, n); return o; }
}
