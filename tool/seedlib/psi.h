// Small stand-alone scaffolding for the demonstrations.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <set>
#include <map>
#include <string>
#include <vector>
#include <thread>
#include <functional>
#include <algorithm>
#include <unistd.h>
#include <sys/wait.h>
#include <NTL/ZZ.h>
#include <NTL/ZZ_p.h>
#include <NTL/ZZ_pX.h>
#include <NTL/vec_ZZ_p.h>
#include <NTL/ZZ_pXFactoring.h>
#include "libeopsi.h"

#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED %s:%d %s\n", __FILE__, __LINE__, #c); _exit(1); } } while (0)

// runs f in a child process; its exit status, or 1000 + signal
static int inChild(std::function<void()> f, unsigned secs = 60) {
  fflush(stdout); fflush(stderr); std::cout.flush();
  pid_t p = fork();
  if (p == 0) { alarm(secs); f(); std::cout.flush(); _exit(0); }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}

// silence the library's own chatter
struct Quiet {
  std::ostringstream o; std::streambuf *b, *e;
  Quiet() { b = std::cout.rdbuf(o.rdbuf()); e = std::cerr.rdbuf(o.rdbuf()); }
  ~Quiet() { std::cout.rdbuf(b); std::cerr.rdbuf(e); }
};

struct Spy : EOPSIParty {
  struct Got { std::string from; EOPSIMessageType type; void *data; size_t len; std::string bytes; };
  std::vector<Got> got;
  bool copy, refuse;
  Spy(EOPSIPartyType t, NTL::ZZ p, size_t l, size_t h, size_t d, std::string id) : EOPSIParty(t, p, l, h, d, id), copy(false), refuse(false) {}
  void receive(EOPSIMessage *m) {
    if (refuse) throw ProtocolException("refused by the spy");
    Got g; g.from = m->getPartyId(); g.type = m->getType(); g.data = m->getData(); g.len = m->length();
    if (copy && g.data) g.bytes.assign((char *) g.data, g.len);
    got.push_back(g);
  }
  bool isAuthorised(const EOPSIMessage *) const { return true; }
};

struct World {
  NTL::ZZ p; size_t length, maxLoad, degree, bits;
  MurmurHash3 *mh;
  HashBuckets<NTL::ZZ_p> *ha, *hb;
  EOPSIClient *alice, *bob;
  EOPSIServer *cloud;
  NTL::ZZ sa, sb;
  EOPSIMessage ma, mb;
  std::vector<NTL::ZZ> ra, rb;
  World(size_t len = 6, size_t load = 20, size_t dataBits = 32, size_t fieldBits = 113, const char *A = "Alice", const char *B = "Bob", const char *C = "Cloud") : length(len), maxLoad(load), degree(2 * load + 1), bits(dataBits) {
    srand(7);
    NTL::SetSeed(NTL::to_ZZ(12345));
    NTL::GenPrime(p, fieldBits);
    NTL::ZZ_p::init(p);
    mh = new MurmurHash3(0x5A17ED5u);
    ha = new HashBuckets<NTL::ZZ_p>(length, maxLoad, mh);
    hb = new HashBuckets<NTL::ZZ_p>(length, maxLoad, mh);
    sa = NTL::to_ZZ("9182736455463728190"); sb = NTL::to_ZZ("1029384756657483920112233");
    alice = new EOPSIClient(*ha, p, length, maxLoad, degree, A, sa);
    bob = new EOPSIClient(*hb, p, length, maxLoad, degree, B, sb);
    cloud = new EOPSIServer(p, length, maxLoad, degree, C);
  }
  void meet() {
    EOPSIParty *ps[] = { alice, bob, cloud };
    for (auto a : ps) for (auto b : ps) a->authenticate(*b);
  }
  static NTL::ZZ *arr(const std::vector<NTL::ZZ> &v) { NTL::ZZ *r = new NTL::ZZ[v.size()]; for (size_t i = 0; i < v.size(); i++) r[i] = v[i]; return r; }
  void load(std::vector<NTL::ZZ> a, std::vector<NTL::ZZ> b) {
    ra = a; rb = b;
    alice->setRawData(arr(a), a.size(), bits, 1);
    bob->setRawData(arr(b), b.size(), bits, 1);
  }
  void outsource() {
    ma.setType(EOPSI_MESSAGE_OUTSOURCING_DATA); ma.setPartyId(alice->getId()); ma.setData(alice->getBlindedData(), alice->getBlindedDataSize());
    mb.setType(EOPSI_MESSAGE_OUTSOURCING_DATA); mb.setPartyId(bob->getId()); mb.setData(bob->getBlindedData(), bob->getBlindedDataSize());
    alice->send(*cloud, &ma);
    bob->send(*cloud, &mb);
  }
  // bob asks alice
  static std::string requestBytes(const std::string &id, NTL::ZZ secret) {
    long n = NTL::NumBytes(secret);
    std::string s = id; s.push_back(0);
    std::vector<unsigned char> b(n ? n : 1);
    NTL::BytesFromZZ(b.data(), secret, n);
    s.append((char *) b.data(), n); s.push_back(0);
    return s;
  }
  void ask() {
    std::string s = requestBytes(bob->getId(), bob->getSecret());
    unsigned char *d = new unsigned char[s.size()];
    memcpy(d, s.data(), s.size());
    EOPSIMessage *m = new EOPSIMessage(d, s.size(), EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST);
    m->setPartyId(bob->getId());
    bob->send(*alice, m);
  }
  std::multiset<std::string> result() {
    std::multiset<std::string> r;
    NTL::vec_ZZ v = bob->getIntersection();
    for (long i = 0; i < v.length(); i++) { std::ostringstream o; o << v[i]; r.insert(o.str()); }
    return r;
  }
  static std::vector<NTL::ZZ> range(long from, long to, long mul = 7919) { std::vector<NTL::ZZ> r; for (long i = from; i < to; i++) r.push_back(NTL::to_ZZ(i) * mul + 3); return r; }
  static std::multiset<std::string> common(const std::vector<NTL::ZZ> &a, const std::vector<NTL::ZZ> &b) {
    std::multiset<std::string> r;
    for (auto &x : a) for (auto &y : b) if (x == y) { std::ostringstream o; o << x; r.insert(o.str()); }
    return r;
  }
  std::multiset<std::string> run() { outsource(); ask(); return result(); }
};
