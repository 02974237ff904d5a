#include "sx.h"
#include <string>
#include <sstream>
#include <sm/hash_id.hpp>
#include <sm/Id.hpp>
#include <boost/functional/hash.hpp>
using sm::HashId;
namespace h { SM_DEFINE_ID(MyId); struct Derived : sm::HashId { using sm::HashId::HashId; }; }
SM_DEFINE_ID_HASH(h::MyId)
SM_DEFINE_HASHID_HASH(h::Derived);
static HashId any(const char* a, const char* b, uint64_t w[2]) { w[0] = sx_u64(a); w[1] = sx_u64(b); return HashId(w); }
static int ref(uint8_t c) { int r = -1; r = (c >= '0') & (c <= '9') ? c - '0' : r; r = (c >= 'a') & (c <= 'f') ? c - 'a' + 10 : r; r = (c >= 'A') & (c <= 'F') ? c - 'A' + 10 : r; return r; }
SX_ENTRY h_words() { // the words that go in come out
  uint64_t w[2], v[2] = {1, 2}; HashId x = any("a", "b", w); x.toUint64(v); sx_assert((v[0] == w[0]) & (v[1] == w[1]), "words are kept"); HashId y(x), z; z = x; sx_assert((y == x) & (z == x) & !(y != x), "copies are equal"); HashId q; q.fromUint64(w); sx_assert(q == x, "fromUint64");
  sx_assert(x.isValid() == ((w[0] | w[1]) != 0), "valid unless zero"); x.setInvalid(); sx_assert(!x.isValid(), "cleared"); sx_assert(!HashId().isValid(), "default is invalid"); sx_assert(x == HashId(), "cleared equals default"); sx_reach("end");
}
SX_ENTRY h_hex() { // to text and back
  uint64_t w[2]; HashId x = any("a", "b", w); std::string s = x.hexString(); sx_assert(s.size() == 32, "32 digits"); unsigned char raw[16]; __builtin_memcpy(raw, w, 16);
  for (int i = 0; i < 16; i++) { int hi = ref(s[2 * i]), lo = ref(s[2 * i + 1]); sx_assert((hi >= 0) & (lo >= 0), "digits are hexadecimal"); sx_assert(hi * 16 + lo == raw[i], "digits are the bytes"); sx_assert(!((s[2 * i] >= 'A') & (s[2 * i] <= 'F')), "lower case"); }
  HashId y; sx_assert(y.fromHexString(s), "own text is accepted"); sx_assert(y == x, "text round trip"); sx_reach("end");
}
SX_ENTRY h_print() { // printing uses the same digits
  static const uint64_t W[3][2] = {{0, 0}, {0x0123456789abcdefull, ~0ull}, {0x8000000000000001ull, 0xf0e1d2c3b4a59687ull}}; int k = sx_choose(3, "k"); HashId x(W[k]); std::ostringstream o; o << x; sx_assert(o.str() == x.hexString(), "printed text"); sx_reach("end"); }
SX_ENTRY h_parse() { // arbitrary text of the right length: a window of arbitrary characters, arbitrary digits elsewhere
  int at = sx_param(0), n = sx_param(1); std::string s(32, '0'); for (int i = 0; i < 32; i++) { std::string nm = "c" + std::to_string(i); s[i] = (char)sx_u8(nm.c_str()); if (i < at || i >= at + n) sx_assume(ref(s[i]) >= 0); }
  uint64_t w[2]; HashId x = any("a", "b", w), y(x); bool good = true; for (int i = 0; i < 32; i++) good = good & (ref(s[i]) >= 0); bool r = false, threw = false; try { r = y.fromHexString(s); } catch (...) { threw = true; }
  sx_assert(!threw, "parsing does not throw"); sx_assert(r == good, "accepted exactly when every character is a hexadecimal digit"); if (!r) { sx_assert(y == x, "refused text leaves the identifier alone"); }
  else { uint64_t v[2]; y.toUint64(v); unsigned char raw[16]; __builtin_memcpy(raw, v, 16); bool e = true; for (int i = 0; i < 16; i++) e = e & (raw[i] == ref(s[2 * i]) * 16 + ref(s[2 * i + 1])); sx_assert(e, "value is the digits"); } sx_reach("end");
}
SX_ENTRY h_length() { unsigned n = sx_choose(70, "n"); if (n == 32) sx_end(); std::string s(n, 'a'); if (n) { uint8_t c = sx_u8("c"); s[n - 1] = (char)c; } uint64_t w[2]; HashId x = any("a", "b", w), y(x); bool r = true; try { r = y.fromHexString(s); } catch (...) { r = true; } sx_assert(!r, "wrong length is refused"); sx_assert(y == x, "refused text leaves the identifier alone"); sx_reach("end"); }
SX_ENTRY h_order() { // strict total order, consistent with equality and hashing
  uint64_t a[2], b[2], c[2]; HashId x = any("a0", "a1", a), y = any("b0", "b1", b), z = any("c0", "c1", c); bool same = (a[0] == b[0]) & (a[1] == b[1]);
  sx_assert((x == y) == same, "equality is equality of the words"); sx_assert((x != y) == !same, "inequality"); sx_assert(((x < y) + (x > y) + (x == y)) == 1, "exactly one of less, greater, equal"); sx_assert((x < y) == (y > x), "less mirrors greater"); sx_assert(!(x < x) & !(x > x), "irreflexive");
  sx_assert(!((x < y) & (y < z)) | (x < z), "transitive"); HashId e(a); sx_assert(e == x, "same words, equal"); sx_assert(e.hashToSizeT() == x.hashToSizeT(), "equal identifiers hash equally"); sx_assert(e.hashToSizeTFast() == x.hashToSizeTFast(), "equal identifiers hash equally (fast)");
  sx_assert(std::hash<HashId>()(x) == x.hashToSizeT(), "std::hash"); h::Derived d(a); sx_assert(std::hash<h::Derived>()(d) == x.hashToSizeT(), "hash of derived identifiers"); sx_reach("end");
}
SX_ENTRY h_fnv() { // the hash uses every bit of both words: with one word fixed it is injective in the other
  uint64_t a[2], b[2]; HashId x = any("a0", "a1", a), y = any("b0", "b1", b); int k = sx_choose(2, "k"); sx_assume(a[k] == b[k]); bool same = a[1 - k] == b[1 - k]; sx_assert((x.hashToSizeTFast() == y.hashToSizeTFast()) == same, "fast hash separates identifiers differing in one word"); 
  sx_assume((a[1 - k] ^ b[1 - k]) < 256u); if (!same) { sx_assert(x.hashToSizeT() != y.hashToSizeT(), "hash separates identifiers differing in one byte"); } sx_reach("end"); }
SX_ENTRY h_num() { // numeric ids behave like the number they wrap
  uint64_t a = sx_u64("a"), b = sx_u64("b"); sm::Id x(a), y(b); h::MyId m(a), k(x);
  sx_assert((x == y) == (a == b), "=="); sx_assert((x != y) == (a != b), "!="); sx_assert((x < y) == (a < b), "<"); sx_assert((x > y) == (a > b), ">"); sx_assert((x <= y) == (a <= b), "<="); sx_assert((x >= y) == (a >= b), ">="); sx_assert(x.isBinaryEqual(y) == (a == b), "binary equality");
  sx_assert((x.getId() == a) & (x.value() == a) & (m.getId() == a) & (k.value() == a), "value"); sx_assert((m == x) & (k == m), "typed ids"); sx_assert(x.isSet() == (a != ~0ull), "set unless the marker");
  sx_assert(std::hash<h::MyId>()(m) == std::hash<uint64_t>()(a), "std hash"); { h::MyId n(b); if (a == b) { sx_assert(boost::hash<h::MyId>()(m) == boost::hash<h::MyId>()(n), "boost hash"); } }
  sm::Id p(x), q; sx_assert(!q.isSet(), "default is unset"); sx_assert(!h::MyId().isSet(), "typed default is unset"); q = y; sx_assert(q == y, "assignment"); sm::Id old = x++; sx_assert((old == p) & (x.value() == a + 1), "post-increment"); sm::Id& r = ++x; sx_assert((x.value() == a + 2) & (&r == &x), "pre-increment");
  x.swap(q); sx_assert((x.value() == b) & (q.value() == a + 2), "swap"); x.clear(); sx_assert(!x.isSet(), "cleared"); sx_reach("end");
}
SX_ENTRY h_num_print() { static const uint64_t V[4] = {0, 7, 18446744073709551615ull, 9223372036854775808ull}; static const char* T[4] = {"0", "7", "18446744073709551615", "9223372036854775808"}; int k = sx_choose(4, "k"); std::ostringstream o; o << sm::Id(V[k]); sx_assert(o.str() == T[k], "printed as the number"); sx_reach("end"); }
struct Ar { uint64_t v = 0; bool load = false; int n = 0; template <class T> Ar& operator&(const boost::serialization::nvp<T>& t) { n++; if (load) t.value() = v; else v = t.value(); return *this; } };
SX_ENTRY h_num_save() { h::MyId a(sx_u64("a")), b(sx_u64("b")); Ar ar; a.serialize(ar, 0); ar.load = true; b.serialize(ar, 0); sx_assert(a == b, "saved and loaded ids are equal"); sx_assert(ar.n == 2, "one value each"); sx_reach("end"); }
