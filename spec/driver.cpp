// Instantiates the library's templates so that their bodies are analysed.
#include <type_traits>
#include <NTL/ZZ_p.h>
#include "eopsiclient.h"
#include "eopsiserver.h"
#include "strint.h"
#include "zzppoly.h"
#include "simplebm.h"
#include "hashbuckets.hpp"
#include "murmurhash3.h"
#include "shazzp.h"
#include "shastr.h"
#include "shabyte.h"
#include "zzpprf.h"

template class HashTable<NTL::ZZ_p, MarkedVector<NTL::ZZ_p>>;
template class HashBuckets<NTL::ZZ_p>;
template class MarkedVector<NTL::ZZ_p>;
template class SHA<NTL::ZZ_p>;
template class SHA<std::string>;
template class SHA<byte *>;
template class PseudoRandom<NTL::ZZ, NTL::ZZ>;
template class PseudoRandom<NTL::ZZ_p, NTL::ZZ_p>;
template class HashAlgorithm<NTL::ZZ_p>;

// Copies that the compiler provides are analysed wherever they can be made.
namespace verif {
template<class T, bool> struct Copy { static void make(T &) {} };
template<class T> struct Copy<T, true> { static void make(T &t) { T u(t); } };
template<class T, bool> struct Assign { static void make(T &, T &) {} };
template<class T> struct Assign<T, true> { static void make(T &t, T &u) { t = u; } };
template<class T> void copies(T &t, T &u) {
  Copy<T, std::is_copy_constructible<T>::value>::make(t);
  Assign<T, std::is_copy_assignable<T>::value>::make(t, u);
}
void all(HashBuckets<NTL::ZZ_p> &a, StrInt &b, ZZpPolynomials &c, ZZPRF &d, ZZpPRF &e, MurmurHash3 &f, SHAZZp &g, SHAString &h, SHAByteArray &i,
         EOPSIClient &j, EOPSIServer &k, EOPSIMessage &l, SimpleBenchmark &m) {
  copies(a, a); copies(b, b); copies(c, c); copies(d, d); copies(e, e); copies(f, f); copies(g, g); copies(h, h); copies(i, i);
  copies(j, j); copies(k, k); copies(l, l); copies(m, m);
}
}
