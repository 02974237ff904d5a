#include "sx.h"
#include <cstring>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <sm/MatrixArchive.hpp>
#include "simfile.h"
namespace {
typedef sm::MatrixArchive MA; typedef sm::MatrixArchiveException EX;
uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
int fixedData; // 1, 2: given bytes instead of arbitrary ones
double num(const char* n) { uint64_t u = fixedData == 1 ? 0x4242424242424242ull : fixedData == 2 ? 0x2020656d616e5342ull : sx_u64(n); double d; memcpy(&d, &u, 8); return d; }
bool same(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; if (a.size() == 0) return true; bool ok = true; for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) ok = ok & (bits(a(i, j)) == bits(b(i, j))); return ok; }
Eigen::MatrixXd mat(int r, int c) { Eigen::MatrixXd m(r, c); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) m(i, j) = num("m"); return m; }
std::string text(int n) { std::string s; for (int i = 0; i < n; i++) s.push_back((char)sx_u8("t")); return s; }
bool equal(const MA& a, const MA& b) { if (a.sizeMatrices() != b.sizeMatrices() || a.sizeStrings() != b.sizeStrings()) return false; bool ok = true; for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) ok = ok && i->first == j->first && same(i->second, j->second); auto j = b.getStrings().begin(); for (auto i = a.getStrings().begin(); i != a.getStrings().end(); ++i, ++j) ok = ok && i->first == j->first && i->second == j->second; return ok; }
void fill(MA& a, int kind) { // the archives that are saved
  switch (kind) {
    case 0: return; case 1: a.setMatrix("m", mat(2, 2)); return; case 2: a.setString("s", text(3)); return;
    case 3: a.setScalar("scalar_1", num("d")); a.setString("text", text(2)); return;
    case 4: a.setMatrix("A", mat(1, 2)); a.setMatrix("b", mat(2, 1)); a.setString("empty", ""); a.setString("z", text(1)); return;
    case 5: a.setMatrix("none", mat(0, 3)); a.setMatrix("none2", mat(3, 0)); a.setMatrix("none3", mat(0, 0)); return;
    case 6: a.setScalar("abcdefghijklmnopqrstuvwxyz012345", num("d")); a.setString("ABCDEFGHIJKLMNOPQRSTUVWXYZ_12345", text(1)); return;
    default: a.setMatrix("m3", mat(3, 3)); a.setString("B", "B"); a.setString("AS", "A\n\0S"); return;
  }
}
// what the file says, independently: false if it is damaged; out receives the blocks in front of the damage
uint64_t u32at(const std::string& f, size_t p) { uint64_t v = 0; for (int i = 3; i >= 0; i--) v = v << 8 | (unsigned char)f[p + i]; return v; }
bool space(char c) { return (c == ' ') | ((c >= '\t') & (c <= '\r')); }
bool validRef(const std::string& s) { bool ok = s.size() >= 1 && s.size() <= 32; for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; bool al = ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')), dg = (c >= '0') & (c <= '9'); ok = ok & (al | ((i > 0) & (dg | (c == '_')))); } return ok; }
bool parse(const std::string& f, MA& out, const std::set<std::string>& only) {
  size_t p = 0; while (p < f.size()) { if (f.size() - p < 33) return false; char k = f[p]; if ((k != 'A') & (k != 'S')) return false; std::string n = f.substr(p + 1, 32); p += 33; size_t b = 0, e = 32; while (b < e && space(n[b])) b++; while (e > b && space(n[e - 1])) e--; n = n.substr(b, e - b); bool take = only.empty() || only.count(n) > 0; bool okName = validRef(n);
    if (k == 'A') { if (f.size() - p < 8) return false; uint64_t r = u32at(f, p), c = u32at(f, p + 4); p += 8; uint64_t left = f.size() - p; if ((r != 0) & (c != 0)) { if ((r > left) | (c > left)) return false; } Eigen::MatrixXd m; if ((r == 0) | (c == 0)) m.resize((long)r, (long)c); else { r = sx_concrete(r); c = sx_concrete(c); if (r * c * 8 > left) return false; m.resize((long)r, (long)c); for (uint64_t j = 0; j < c; j++) for (uint64_t i = 0; i < r; i++) { double d; memcpy(&d, f.data() + p, 8); m(i, j) = d; p += 8; } } if (p >= f.size() || f[p] != 'B') return false; p++; if (take) { if (!okName) return false; out.setMatrix(n, m); } }
    else { if (f.size() - p < 4) return false; uint64_t z = u32at(f, p); p += 4; if (z > f.size() - p) return false; z = sx_concrete(z); std::string t = f.substr(p, z); p += z; if (p >= f.size() || f[p] != 'B') return false; p++; if (take) { if (!okName) return false; out.setString(n, t); } } }
  return true;
}
int load(MA& a, const std::string& p, const std::set<std::string>* only = nullptr) { try { if (only) a.load(boost::filesystem::path(p), *only); else a.load(p); } catch (const EX&) { return 1; } catch (const std::bad_alloc&) { return 2; } catch (const std::exception&) { return 3; } return 0; }
void checkLoad(const std::string& f, const std::string& p) { // loading an arbitrary file
  std::set<std::string> all; MA want, got; bool ok = parse(f, want, all); simPut(p, f); int r = load(got, p); sx_assert((r == 0) == ok, "loading succeeds exactly when the file is whole"); if (ok) sx_assert(equal(got, want), "exactly what the file says"); else sx_assert(equal(got, want), "only entries that are in the file"); sx_reach(ok ? "whole" : "damaged");
}
}
SX_ENTRY h_round() { // saved and loaded back, through a file and onto other contents
  MA a; fill(a, sx_param(0)); std::string p = simPath("f"); a.save(p); MA b; int m = sx_param(1); MA want(a);
  if (m == 1) { b.setScalar("m", 7); b.setString("other", "o"); want.setString("other", "o"); if (a.find("m") == a.end()) want.setScalar("m", 7); } if (m == 2) { b.setString("m", "x"); b.setScalar("text", 2); b.setScalar("s", 1); if (a.find("m") == a.end()) want.setString("m", "x"); if (!a.getStrings().count("text")) want.setScalar("text", 2); if (!a.getStrings().count("s")) want.setScalar("s", 1); }
  sx_assert(load(b, p) == 0, "a saved archive can be loaded"); sx_assert(equal(b, want), "every name and value restored, others untouched"); b.save(boost::filesystem::path(p)); MA c; sx_assert(load(c, p) == 0 && equal(c, want), "saving again replaces the file"); sx_reach("end");
}
SX_ENTRY h_format() { // the file is what the format says
  MA a; fill(a, sx_param(0)); std::string p = simPath("f"); a.save(p); MA w; std::set<std::string> all; sx_assert(parse(simGet(p), w, all) && equal(a, w), "the documented format"); std::ostringstream os; a.save(os, all); sx_assert(os.str() == simGet(p), "saving to a stream is the same"); sx_reach("end");
}
SX_ENTRY h_subset() { // selected names only
  MA a; fill(a, 4); std::set<std::string> sel; const char* N[] = {"A", "empty", "z", "absent"}; for (int i = 0; i < 4; i++) if (sx_param(0) >> i & 1) sel.insert(N[i]); std::string p = simPath("f"); MA want; if (sel.empty()) want = a; else { if (sel.count("A")) want.setMatrix("A", a.getMatrix("A")); if (sel.count("empty")) want.setString("empty", ""); if (sel.count("z")) want.setString("z", a.getString("z")); }
  MA b; a.save(boost::filesystem::path(p), sel); sx_assert(load(b, p) == 0 && equal(b, want), "only the selected entries are saved"); a.save(p); MA c; sx_assert(load(c, p, &sel) == 0 && equal(c, want), "only the selected entries are loaded"); sx_reach("end");
}
SX_ENTRY h_append() { // appending to a file
  MA a, b; fill(a, sx_param(0)); fill(b, sx_param(1)); std::string p = simPath("f"); if (sx_param(2)) a.save(p); b.append(p); MA want; if (sx_param(2)) want = a; for (auto i = b.begin(); i != b.end(); ++i) want.setMatrix(i->first, i->second); for (auto i = b.getStrings().begin(); i != b.getStrings().end(); ++i) want.setString(i->first, i->second); MA c; sx_assert(load(c, p) == 0, "loads"); sx_assert(equal(c, want), "the old and the appended entries"); sx_reach("end");
}
SX_ENTRY h_cut() { // cut off at any byte, e.g. by a crash while it was being written
  MA a; fill(a, sx_param(0)); std::string p = simPath("f"); a.save(p); std::string f = simGet(p); long from = sx_param(1), n = sx_param(2); for (long i = from; i < from + n && i <= (long)f.size(); i++) checkLoad(f.substr(0, i), p); sx_reach("end");
}
SX_ENTRY h_damage() { // any value of one byte, or of two neighbouring ones
  fixedData = sx_param(3); MA a; fill(a, sx_param(0)); std::string p = simPath("f"); a.save(p); std::string f = simGet(p); size_t i = sx_param(1); if (i >= f.size()) { sx_reach("end"); return; } f[i] = (char)sx_u8("byte"); if (sx_param(2) && i + 1 < f.size()) f[i + 1] = (char)sx_u8("byte2"); checkLoad(f, p); sx_reach("end");
}
SX_ENTRY h_dims() { // any value of one size field, several of the other
  fixedData = sx_param(3); MA a; fill(a, sx_param(0)); std::string p = simPath("f"); a.save(p); std::string f = simGet(p); const uint32_t F[] = {0, 1, 2, 3, 0x100, 0x10000, 0x20000000, 0x80000000, 0xffffffff}; uint32_t r = sx_u32("n"), c = F[sx_param(2)]; if (sx_param(1)) { uint32_t t = r; r = c; c = t; } for (int i = 0; i < 4; i++) { f[33 + i] = (char)(r >> 8 * i); f[37 + i] = (char)(c >> 8 * i); } checkLoad(f, p); sx_reach("end");
}
SX_ENTRY h_junk() { // a short arbitrary file
  std::string p = simPath("f"), f; for (int i = 0; i < sx_param(0); i++) f.push_back((char)sx_u8("c")); checkLoad(f, p); sx_reach("end");
}
SX_ENTRY h_full() { // the device is full
  MA a; fill(a, sx_param(0)); std::string p = simPath("f"); a.save(p); std::string f = simGet(p); long room = sx_param(1); if (room >= (long)f.size()) { sx_reach("end"); return; } simPut(p, ""); simRoom(room); bool th = false; try { if (sx_param(2)) a.append(p); else a.save(p); } catch (const EX&) { th = true; } simRoom(~0ull); sx_assert(th, "an incomplete save is reported"); sx_reach("end");
}
SX_ENTRY h_missing() { MA a; a.setScalar("x", 1); sx_assert(load(a, simPath("absent")) == 1, "a missing file is reported"); sx_assert(a.size() == 1 && a.getScalar("x") == 1, "and changes nothing"); sx_reach("end"); }
