// Log line formatting and printf-style messages.
#include <cstdlib>
static const char* g_env = nullptr;
extern "C" char* getenv(const char* n) noexcept { const char* w = "SMCONSOLE_FORMAT"; for (int i = 0;; i++) { if (n[i] != w[i]) return nullptr; if (!w[i]) break; } return (char*)g_env; }
#include "L01.h"
#include <sstream>
extern "C" int sxth_spurious = 0;
static const char* const TOK[8] = {"severity", "message", "time", "thread", "file", "line", "function", "streamname"};
static const char* const SEV[12] = {"  ALL", "FINES", "VERBO", "FINER", "TRACE", " FINE", "DEBUG", " INFO", " WARN", "ERROR", "FATAL", "UNKNO"};
void Cap::logImplementation(const LoggingEvent& e) { Ev x; x.level = e.level; x.stream = e.streamName; x.message = e.message; ev.push_back(x); }
static std::string text(const char* nm, int n) { std::string t; for (int i = 0; i < n; i++) { uint8_t c = sx_u8(nm); sx_assume(c != 0); t.push_back((char)c); } return t; }
struct Src { std::string stream, file, func, msg, time; int level, line; std::map<std::string, std::string> extra; };
static std::string num(long v) { char t[24]; int i = 24; bool neg = v < 0; if (neg) v = -v; do { t[--i] = '0' + v % 10; v /= 10; } while (v); if (neg) t[--i] = '-'; return std::string(t + i, 24 - i); }
static std::string value(const Src& s, const std::string& k) {
  if (k == "severity") return SEV[sx_concrete(s.level)]; if (k == "message") return s.msg; if (k == "time") return s.time; if (k == "thread") { std::ostringstream o; o << boost::this_thread::get_id(); return o.str(); }
  if (k == "file") return s.file; if (k == "line") return num(s.line); if (k == "function") return s.func; if (k == "streamname") return s.stream;
  std::map<std::string, std::string>::const_iterator i = s.extra.find(k); return i == s.extra.end() ? "${" + k + "}" : i->second;
}
static bool letter(char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
static std::string expand(const Src& s, const std::string& f) {
  std::string o; size_t i = 0;
  while (i < f.size()) { if (f[i] == '$' && i + 1 < f.size() && f[i + 1] == '{') { size_t j = i + 2; while (j < f.size() && letter(f[j])) j++; if (j > i + 2 && j < f.size() && f[j] == '}') { o += value(s, f.substr(i + 2, j - i - 2)); i = j + 1; continue; } } o.push_back(f[i++]); }
  return o;
}
static Src source(int n) { Src s; s.stream = text("stream", n); s.file = text("file", n); s.func = text("func", n); s.msg = text("msg", n); s.time = text("time", n); s.level = sx_u8("level") & 15; sx_assume(s.level <= 11); static const int L[4] = {1234567, 0, 7, -1}; s.line = L[sx_choose(4, "line")]; return s; }
static void check(Formatter& f, const Src& s, const std::string& fmt, const char* what) {
  LoggingEvent e(s.stream.c_str(), (Level)s.level, s.file.c_str(), s.line, s.func.c_str(), s.msg.c_str(), s.time); std::string w = expand(s, fmt); std::ostringstream o;
  f.print(e, o); std::string r = o.str();
  if (f.doColor_) { size_t b = r.find('m'), n = r.size(); sx_assert(n >= 8 && r[0] == '\033' && r[1] == '[' && b < 6 && r.compare(n - 5, 5, "\033[0m\n") == 0, "a coloured line starts with a colour and ends with the reset"); r = r.substr(b + 1, n - 5 - (b + 1)) + "\n"; }
  sx_assert(r == w + "\n", what);
}
static const char* const EXP = "every token is replaced by its value and all other text is kept in order";
SX_ENTRY h_default() { Formatter f; sx_assert(f.doColor_, "lines are coloured by default"); f.doColor_ = sx_choose(2, "color"); Src s = source(2); check(f, s, "[${severity}] [${time}]: ${message}", "the default line is severity, time and message"); sx_reach("end"); }
SX_ENTRY h_env() { static std::string t; t = text("c", sx_param(0)); if (sx_param(1)) t += "${message}"; g_env = t.c_str(); Formatter f; g_env = nullptr; f.doColor_ = false; Src s = source(1); s.level = 7; check(f, s, t, "the format comes from the environment when given"); sx_reach("end"); }
// arbitrary text
SX_ENTRY h_any() { Formatter f; f.doColor_ = false; int n = sx_param(0); std::string t = text("c", n); Src s = source(0); s.level = 7; s.line = 1; if (sx_param(1)) { f.extra_fixed_tokens_["a"] = "XY"; s.extra["a"] = "XY"; } f.init(t.c_str()); check(f, s, t, EXP); sx_reach("end"); }
// two tokens with arbitrary text between them
SX_ENTRY h_tokens() { Formatter f; f.doColor_ = false; Src s = source(1); if (sx_param(0) != 0 && sx_param(1) != 0) s.level = 3; std::string t = text("c", sx_param(2)) + "${" + TOK[sx_param(0)] + "}" + text("c", sx_param(2)) + "${" + TOK[sx_param(1)] + "}" + text("c", sx_param(3)); f.init(t.c_str()); check(f, s, t, EXP); sx_reach("end"); }
// a token name with one arbitrary character, and a broken delimiter
SX_ENTRY h_near() { Formatter f; f.doColor_ = false; Src s = source(1); s.level = 3; s.line = 5; int i = sx_param(0), p = sx_param(1); std::string k = std::string("${") + TOK[i] + "}"; if (p < (int)k.size()) k[p] = (char)sx_u8("c"); sx_assume(p >= (int)k.size() || k[p] != 0); std::string t = "x" + k + "y"; f.init(t.c_str()); check(f, s, t, EXP); sx_reach("end"); }
// extra tokens are looked up when printing; initialising again replaces the format
SX_ENTRY h_extra() { Formatter f; f.doColor_ = false; Src s = source(1); s.level = 3; s.line = 5; std::string v = text("v", 2); f.init("a${host}b${message}${other}"); check(f, s, "a${host}b${message}${other}", EXP); f.extra_fixed_tokens_["host"] = v; s.extra["host"] = v; check(f, s, "a${host}b${message}${other}", "extra tokens are looked up when a line is printed"); f.extra_fixed_tokens_["message"] = "no"; check(f, s, "a${host}b${message}${other}", EXP); f.init("${host}"); check(f, s, "${host}", "initialising again replaces the format"); sx_reach("end"); }
// colours tell the levels apart: fatal, error, warning, information, debugging and the finer ones, whatever else the line says
static std::string colour(int level, const std::string& m) { Formatter f; f.doColor_ = true; f.init("${message}"); LoggingEvent e("s", (Level)level, "f", 1, "g", m.c_str(), "t"); std::ostringstream o; f.print(e, o); std::string r = o.str(); size_t n = m.size() + 5; sx_assert(r.size() > n && r.compare(r.size() - n, n, m + "\033[0m\n") == 0, "the line ends with the message and the reset"); return r.substr(0, r.size() - n); }
SX_ENTRY h_color() { int a = sx_choose(11, "a"), b = sx_choose(11, "b"); std::string x = colour(a, text("m", 1)), y = colour(b, text("m", 2)); int ca = a < 6 ? 0 : a, cb = b < 6 ? 0 : b; sx_assert((x == y) == (ca == cb), "the colour of a line is that of its level"); sx_reach("end"); }
// printf-style messages of every length
static boost::shared_ptr<Cap> cap;
SX_ENTRY h_long() {
  cap.reset(new Cap); setLogger(cap); int n = sx_param(0), k = sx_param(1); std::string t(n, 'x'); if (n > 0) { t[0] = (char)(sx_u8("c") | 1); t[n - 1] = (char)(sx_u8("c") | 1); } if (n > 4095) { t[4094] = (char)(sx_u8("c") | 1); t[4095] = (char)(sx_u8("c") | 1); }
  if (k == 0) SM_INFO("%s", t.c_str()); else if (k == 1) SM_INFO("%d:%s%c", 17, t.c_str(), '!'); else SM_INFO_STREAM(t);
  std::string w = k == 1 ? "17:" + t + "!" : t; sx_assert(cap->ev.size() == 1 && cap->ev[0].message.size() == w.size(), "a message is rendered in full whatever its length"); sx_assert(cap->ev[0].message == w, "a message is rendered in full whatever its length");
  SM_INFO("%s", "short"); sx_assert(cap->ev.size() == 2 && cap->ev[1].message == "short", "a message after a long one is rendered as well"); SM_INFO("%s%s", t.c_str(), t.c_str()); sx_assert(cap->ev.size() == 3 && cap->ev[2].message == t + t, "a message is rendered in full whatever its length"); sx_reach("end");
}
SX_ENTRY h_printf() { cap.reset(new Cap); setLogger(cap); uint8_t c = sx_u8("c"); sx_assume(c != 0); std::string t = text("t", 2); SM_INFO("%c|%5s|%-4s|%%|%d|%05d|%u|%x|%ld", c, t.c_str(), t.c_str(), -12, 34, 56u, 255u, 123456789012l);
  sx_assert(cap->ev.size() == 1, "the message is logged"); std::string w; w.push_back((char)c); w += "|   " + t + "|" + t + "  |%|-12|00034|56|ff|123456789012"; sx_assert(cap->ev[0].message == w, "printf-style arguments are substituted"); sx_reach("end"); }
// formatToBuffer keeps the text terminated for every length
SX_ENTRY h_buffer() { int n = sx_param(0); std::string t(n, 'x'); g_logging_globals.formatToBuffer("%s", t.c_str()); const std::vector<char>& b = g_logging_globals._globalCharBuffer; sx_assert((int)b.size() > n, "the buffer holds the text and its terminator"); sx_assert(b[n] == 0 && strlen(&b[0]) == (size_t)n, "the text is terminated"); sx_reach("end"); }
// the clock reading in seconds
SX_ENTRY h_clock() { Cap c; static const int64_t B[4] = {0, 1000000, 1700000000000000ll, -5000000}; c.us = B[sx_param(0)] + (int64_t)sx_u8("us"); double s = c.currentTimeSecondsUtc(); sx_assert(s == (double)c.us / 1000000.0, "the time is the clock reading in seconds"); sx_assert(c.currentTime() == Logger::Time(std::chrono::microseconds(c.us)), "the clock reading is passed on"); sx_reach("end"); }
