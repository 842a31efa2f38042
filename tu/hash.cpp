// Instantiates the inline functions of hash.hpp and passwordhashandcount.hpp so
// that clang emits their bodies.  The verified text is the repository's own.
#include "pwned-lib/hash.cpp"
#include "pwned-lib/passwordhashandcount.hpp"
using pwned::Hash;
using pwned::PHC;
extern "C" {
bool vt_eq(const Hash &a, const Hash &b) { return a == b; }
bool vt_ne(const Hash &a, const Hash &b) { return a != b; }
bool vt_lt(const Hash &a, const Hash &b) { return a < b; }
bool vt_le(const Hash &a, const Hash &b) { return a <= b; }
bool vt_gt(const Hash &a, const Hash &b) { return a > b; }
bool vt_ge(const Hash &a, const Hash &b) { return a >= b; }
bool vt_less(const Hash &a, const Hash &b) { return pwned::HashLess()(a, b); }
bool vt_phcless(const PHC &a, const PHC &b) { return pwned::PasswordHashAndCountLess()(a, b); }
bool vt_phceq(const PHC &a, const PHC &b) { return a == b; }
void vt_copy(Hash *d, const Hash &s) { new (d) Hash(s); }
void vt_assign(Hash *d, const Hash &s) { *d = s; }
void vt_phccopy(PHC *d, const PHC &s) { new (d) PHC(s); }
void vt_phcassign(PHC *d, const PHC &s) { *d = s; }
void vt_phcmake(PHC *d, const Hash &h, uint32_t c) { new (d) PHC(h, c); }
void vt_phcdefault(PHC *d) { new (d) PHC(); }
void vt_default(Hash *d) { new (d) Hash(); }
void vt_two(Hash *d, uint64_t u, uint64_t l) { new (d) Hash(u, l); }
bool vt_hread(Hash *h, std::istream &f) { return h->read(f); }
bool vt_hreadpos(Hash *h, std::istream &f, std::streamoff p) { return h->read(f, p); }
bool vt_read(PHC *h, std::istream &f) { return h->read(f); }
bool vt_readpos(PHC *h, std::istream &f, std::streamoff p) { return h->read(f, p); }
void vt_dump(const PHC *h, std::ofstream &f) { h->dump(f); }
}
