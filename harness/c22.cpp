// Exceptions: what ends the process, what reads back, what can be caught.
#include "h.h"
#include <exception.h>
#include <outofboundex.h>
#include <protocolex.h>
struct Custom : Exception { Custom(const std::string &m, bool f, int c) : Exception(m, f, c) {} };
static void reads(const Exception &e, const std::string &m, bool fatal, int code) {
  const char *w = e.what(); { Exception other("another exception's message, read meanwhile"); ProtocolException p("a third one"); vp_check(*other.what() == 'a' && other.getMessage()[1] == 'n' && *p.what() == 'a', "another message is its own"); }
  vp_check(std::string(w) == m.c_str(), "the text stays while others are read");
  vp_check(e.getMessage() == m && std::string(e.what()) == m.c_str(), "the message is the given one");
  vp_check(e.isFatal() == fatal, "the fatality is the given one");
  vp_check(e.getExitCode() == code, "the exit code is the given one");
}
static const char *const DEFAULT = "Did you try to insert or read an element out of allowed bound of some container?";
template <class T> static void caught(const T &x, const std::string &m, int code) {
  int how = vp_choose(3, "catch"); bool ok = false;
  try { throw x; }
  catch (T &e) { if (how == 0) { reads(e, m, false, code); ok = true; } }
  if (how == 1) try { throw x; } catch (Exception &e) { reads(e, m, false, code); ok = true; }
  if (how == 2) try { throw x; } catch (std::exception &e) { vp_check(std::string(e.what()) == m.c_str(), "the message survives"); ok = true; }
  vp_check(ok, "it is caught");
}
extern "C" int vp_main() {
  static const int codes[] = {0, 1, 2, 3, 77, 255, -1};
  char b[64]; size_t n = (size_t)vp_choose(LEN + 1, "length"); if (n) vp_make(b, n, "text"); for (size_t i = 0; i < n; i++) vp_assume(b[i] != 0);
  std::string m(b, n);
  if (n == LEN && vp_choose(2, "long")) m += " and a text too long to be stored inside of the string object itself";
  bool fatal = vp_choose(2, "fatal"); int code = codes[vp_choose(7, "code")];
  int kind = vp_choose(7, "kind");
  if (kind == 2) code = 1; else if (kind == 3 || kind == 5) { code = 1; } else if (kind == 4) { code = 1; fatal = false; m = ""; }
  else if (kind == 6) { code = 1; fatal = false; }
  if (fatal) vp_expect_exit(code);
  vp_reach(fatal ? "fatal" : "non-fatal");
  if (kind == 0) { Exception e(m, fatal, code); if (fatal) vp_fail("a fatal exception ends the process"); reads(e, m, false, code); caught(e, m, code); }
  else if (kind == 1) { ProtocolException e(m, fatal, code); if (fatal) vp_fail("a fatal exception ends the process"); reads(e, m, false, code); caught(e, m, code); }
  else if (kind == 2) { OutOfBoundException e(m, fatal); if (fatal) vp_fail("a fatal exception ends the process"); std::string w = n ? m : std::string(DEFAULT); reads(e, w, false, 1); caught(e, w, 1); }
  else if (kind == 3) { Exception e(m, fatal); if (fatal) vp_fail("a fatal exception ends the process"); reads(e, m, false, 1); caught(e, m, 1); }
  else if (kind == 4) { Exception e; reads(e, "", false, 1); ProtocolException p; reads(p, "", false, 1); OutOfBoundException o; reads(o, DEFAULT, false, 1); caught(p, "", 1); caught(o, DEFAULT, 1); }
  else if (kind == 5) { ProtocolException e(m, fatal); if (fatal) vp_fail("a fatal exception ends the process"); reads(e, m, false, 1); }
  else { // setters
    int c2 = (int)vp_u("code2", 32); bool f2 = vp_choose(2, "fatal2");
    ProtocolException e(m); e.setExitCode(c2); reads(e, m, false, c2); e.setMessage("new"); reads(e, "new", false, c2); e.setFatal(f2); reads(e, "new", f2, c2); e.setFatal(); reads(e, "new", true, c2);
    ProtocolException c(e); reads(c, "new", true, c2);
    OutOfBoundException o(m); o.setFatal(f2); o.setMessage(m); reads(o, m, f2, 1);
  }
  vp_reach("end");
  return 0;
}
