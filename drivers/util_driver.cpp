// Concrete search driver over umpire/util and the judy array:  util_driver <component> <seed> <rounds>
// Random operation sequences against a shadow oracle; prints "FAIL <what>" and the operation log and exits 1.
#include <strings.h>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>

#include "umpire/strategy/AllocationStrategy.hpp"
#include "umpire/util/AllocationMap.hpp"
#include "umpire/util/AllocationRecord.hpp"
#include "umpire/util/FixedMallocPool.hpp"
#include "umpire/util/MemoryMap.hpp"
#include "umpire/util/OutputBuffer.hpp"
#include "umpire/util/allocation_statistics.hpp"
#include "umpire/util/error.hpp"
#include "umpire/util/find_first_set.hpp"

namespace U = umpire::util;

static std::mt19937_64 rng;
static std::vector<std::string> oplog;
static size_t R(size_t n) { return n ? rng() % n : 0; }
template <class... A>
static void L(const char* f, A... a)
{
  char b[256];
  snprintf(b, sizeof b, f, a...);
  oplog.push_back(b);
}
static void die(const std::string& m)
{
  printf("FAIL %s\n", m.c_str());
  size_t k = oplog.size() > 400 ? oplog.size() - 400 : 0;
  for (; k < oplog.size(); ++k) printf("  %s\n", oplog[k].c_str());
  fflush(stdout);
  _exit(1);
}
#define CHECK(c, m)                                      \
  do {                                                   \
    if (!(c)) die(std::string(m) + "   [" #c "]");       \
  } while (0)

// keys that stress the radix structure: shared prefixes, dense runs, high bits, neighbours
struct Keys {
  uint64_t base;
  int mode;
  Keys() : base(rng() & 0xffffffffff00ull), mode((int)R(5)) {}
  uint64_t get()
  {
    uint64_t k;
    switch (mode) {
      case 0: k = base + R(40) * 8; break;
      case 1: k = base + R(3000); break;
      case 2: k = rng() >> R(60); break;
      case 3: k = (rng() & 0x0101010101010101ull) * (1 + R(255)); break;
      default: k = R(4) ? base + (R(8) << (8 * R(8))) : rng(); break;
    }
    return k ? k : 1;
  }
};

struct Rec {
  size_t size;
  uintptr_t strat;
  std::string name;
  const U::AllocationRecord* at;
};

static bool same(const U::AllocationRecord& r, uint64_t k, const Rec& e)
{
  return r.ptr == (void*)k && r.size == e.size && r.strategy == (umpire::strategy::AllocationStrategy*)e.strat && r.name == e.name;
}

static void allocmap_round()
{
  oplog.clear();
  U::AllocationMap m;
  const U::AllocationMap& cm = m;
  std::map<uint64_t, std::vector<Rec>> o;
  Keys ks;
  size_t n = 0, nops = 50 + R(800);
  size_t bias = 40 + R(40);
  for (size_t i = 0; i < nops; ++i) {
    size_t op = R(100);
    uint64_t k = ks.get();
    if (R(2) && !o.empty()) {
      auto it = o.lower_bound(k);
      if (it == o.end()) it = o.begin();
      k = it->first;
    }
    if (op < bias) {
      Rec r{R(8) ? 1 + R(64) : (R(2) ? 0 : 1 + R(4000)), 1 + R(1000), R(2) ? "" : "n" + std::to_string(R(99)), nullptr};
      if (k + r.size < k) r.size = 0;
      L("insert(%llx, size=%zu)", (unsigned long long)k, r.size);
      m.insert((void*)k, U::AllocationRecord{(void*)k, r.size, (umpire::strategy::AllocationStrategy*)r.strat, r.name});
      r.at = m.findRecord((void*)k);
      CHECK(r.at, "inserted pointer is not found");
      o[k].push_back(r);
      ++n;
    } else if (op < 90) {
      L("remove(%llx)", (unsigned long long)k);
      auto it = o.find(k);
      try {
        U::AllocationRecord r = m.remove((void*)k);
        CHECK(it != o.end(), "remove of an absent key returned");
        CHECK(same(r, k, it->second.back()), "remove did not return the most recent record");
        it->second.pop_back();
        if (it->second.empty()) o.erase(it);
        --n;
      } catch (std::exception&) {
        CHECK(it == o.end(), "remove of a present key threw");
      }
    } else if (op == 98 && R(8) == 0) {
      L("clear()");
      m.clear();
      o.clear();
      n = 0;
    }
    CHECK(m.size() == n, "size differs from the number of records");
    for (int q = 0; q < 4; ++q) {
      uint64_t p = R(2) ? ks.get() : k + R(80) - 8;
      if (!p) p = 1;
      auto it = o.upper_bound(p);
      const Rec* e = nullptr;
      uint64_t ek = 0;
      if (it != o.begin()) {
        --it;
        ek = it->first;
        const Rec& c = it->second.back();
        if (ek == p || p - ek < c.size) e = &c;
      }
      L("find(%llx)", (unsigned long long)p);
      const U::AllocationRecord* g = q & 1 ? m.findRecord((void*)p) : cm.findRecord((void*)p);
      CHECK((g != nullptr) == (e != nullptr), e ? "pointer inside the nearest record is not found" : "pointer outside every record is found");
      CHECK(m.contains((void*)p) == (e != nullptr), "contains differs from find");
      if (e) {
        CHECK(same(*g, ek, *e), "find returned another record than the newest of the nearest key");
        CHECK(g == e->at, "a record moved while registered");
      }
      if (g || R(10) == 0) try {
        const U::AllocationRecord* f = q & 1 ? m.find((void*)p) : cm.find((void*)p);
        CHECK(f == g, "find and findRecord differ");
      } catch (std::exception&) {
        CHECK(!g, "find threw for a pointer that is recorded");
      }
    }
    if (R(20) == 0) {
      // iteration: every record once, keys ascending, newest record of a key first
      L("iterate");
      auto it = m.begin();
      size_t cnt = 0;
      for (auto& e : o)
        for (size_t j = e.second.size(); j-- > 0;) {
          CHECK(it != m.end(), "iteration ends early");
          CHECK(same(*it, e.first, e.second[j]), "iteration returns the wrong record");
          CHECK(it->ptr == (void*)e.first, "iterator arrow differs");
          ++cnt;
          if (R(2))
            ++it;
          else {
            auto old = it++;
            CHECK(old->ptr == (void*)e.first, "postfix increment returns the wrong position");
          }
        }
      CHECK(it == m.end(), "iteration returns more records than registered");
      CHECK(cnt == n, "iteration count");
      std::stringstream ss;
      m.print([](const U::AllocationRecord&) { return true; }, ss);
      size_t lines = 0;
      std::string s = ss.str();
      for (size_t at = 0; (at = s.find("size: ", at)) != std::string::npos; ++at) ++lines;
      CHECK(lines == n, "print lists a different number of records");
      std::stringstream s2;
      m.print([&](const U::AllocationRecord& r) { return r.size > 30; }, s2);
      size_t want = 0, l2 = 0;
      for (auto& e : o)
        for (auto& r : e.second) want += r.size > 30;
      s = s2.str();
      for (size_t at = 0; (at = s.find("size: ", at)) != std::string::npos; ++at) ++l2;
      CHECK(l2 == want, "print(predicate) lists a different number of records");
    }
  }
}

static void allocmap_threads()
{
  oplog.clear();
  L("4 threads insert/find/remove disjoint keys");
  U::AllocationMap m;
  std::vector<std::thread> t;
  std::atomic<int> bad{0};
  for (int i = 0; i < 4; ++i)
    t.emplace_back([&, i] {
      for (int j = 0; j < 300; ++j) {
        void* p = (void*)(uintptr_t)(0x10000 + i * 64 + (j % 7) * 4096);
        m.insert(p, U::AllocationRecord{p, 8, nullptr});
        if (!m.contains(p)) bad = 1;
        if (m.find(p)->ptr != p) bad = 2;
        if (m.remove(p).ptr != p) bad = 3;
      }
    });
  for (auto& x : t) x.join();
  CHECK(!bad, "concurrent use returned a wrong record");
  CHECK(m.size() == 0, "size after concurrent use");
}

struct Val {
  static long live;
  uint64_t v;
  uint64_t self;
  explicit Val(uint64_t x) : v(x), self((uint64_t)this) { ++live; }
  Val(const Val& o) : v(o.v), self((uint64_t)this) { ++live; }
  ~Val()
  {
    CHECK(self == (uint64_t)this, "a value was destroyed that was not constructed there");
    self = 0;
    --live;
  }
};
long Val::live = 0;

static void memorymap_round()
{
  oplog.clear();
  long live0 = Val::live;
  {
    using M = U::MemoryMap<Val>;
    M m;
    const M& cm = m;
    std::map<uint64_t, uint64_t> o;
    Keys ks;
    size_t nops = 50 + R(800), bias = 35 + R(40);
    M::Iterator kept = m.end();
    for (size_t i = 0; i < nops; ++i) {
      uint64_t k = ks.get();
      if (R(2) && !o.empty()) {
        auto it = o.lower_bound(k);
        if (it == o.end()) it = o.begin();
        k = it->first;
      }
      size_t op = R(100);
      if (op < bias) {
        uint64_t v = rng();
        int how = (int)R(3);
        L("insert(%llx) form %d", (unsigned long long)k, how);
        Val tmp(v);
        std::pair<M::Iterator, bool> r = how == 0 ? m.insert((void*)k, tmp) : how == 1 ? m.insert(std::make_pair((void*)k, tmp)) : m.insert((void*)k, v);
        bool isnew = !o.count(k);
        if (isnew) o[k] = v;
        CHECK(r.second == isnew, "insert reports the wrong result");
        CHECK(r.first->first == (void*)k, "insert returns an iterator at another key");
        CHECK(r.first->second && r.first->second->v == o[k], "insert returns an iterator at another value");
      } else if (op < 80) {
        L("erase(%llx)", (unsigned long long)k);
        bool have = o.count(k);
        bool done = false;
        try {
          if (R(2) || !have)
            m.erase((void*)k);
          else if (R(2))
            m.erase(m.find((void*)k));
          else
            m.erase(cm.find((void*)k));
          done = true;
        } catch (std::exception&) {
        }
        CHECK(done == have, have ? "erase of a present key threw" : "erase of an absent key returned");
        o.erase(k);
      } else if (op < 84) {
        auto it = m.find((void*)k);
        L("find(%llx) and removeLast", (unsigned long long)k);
        if (o.count(k)) {
          m.removeLast();
          o.erase(k);
        }
      } else if (op == 99 && R(6) == 0) {
        L("clear()");
        m.clear();
        o.clear();
      }
      CHECK(m.size() == o.size(), "size differs from the number of keys");
      CHECK((size_t)(Val::live - live0) == o.size(), "number of live values differs from the number of keys");
      for (int q = 0; q < 3; ++q) {
        uint64_t p = R(2) ? ks.get() : k + R(5) - 2;
        if (!p) p = 1;
        L("find(%llx), findOrBefore", (unsigned long long)p);
        bool have = o.count(p);
        if (R(2)) {
          auto it = m.find((void*)p);
          CHECK((it != m.end()) == have, "find differs");
          CHECK(!have || (it->first == (void*)p && it->second->v == o[p]), "find returns another entry");
          CHECK(have || it->second == nullptr, "find of an absent key gives a value");
        } else {
          auto it = cm.find((void*)p);
          CHECK((it != cm.end()) == have, "find (const) differs");
          CHECK(!have || (it->first == (void*)p && it->second->v == o[p]), "find returns another entry");
        }
        auto e = o.upper_bound(p);
        auto fb = m.findOrBefore((void*)p);
        auto cfb = cm.findOrBefore((void*)p);
        if (e == o.begin()) {
          CHECK(!fb->second && !cfb->second, "findOrBefore below the first key gives a value");
        } else {
          --e;
          CHECK(fb->second && fb->first == (void*)e->first && fb->second->v == e->second, "findOrBefore is not the nearest key at or below");
          CHECK(cfb->second && cfb->first == (void*)e->first && cfb->second->v == e->second, "findOrBefore (const) is not the nearest key at or below");
        }
      }
      if (R(15) == 0) {
        L("iterate with interleaved lookups");
        auto it = m.begin();
        auto cit = cm.begin();
        M::Iterator second = m.begin();
        size_t j = 0;
        for (auto& e : o) {
          CHECK(it != m.end(), "iteration ends early");
          CHECK(it->first == (void*)e.first && it->second->v == e.second, "iteration returns the wrong entry");
          CHECK(cit != cm.end() && cit->first == (void*)e.first && cit->second->v == e.second, "const iteration returns the wrong entry");
          size_t act = R(6);
          if (act == 0) m.find((void*)ks.get());
          if (act == 1) cm.findOrBefore((void*)ks.get());
          if (act == 2) {
            second = m.begin();
            ++second;
            second = it;
            it = m.end();
            it = second;
          }
          if (act == 3) {
            M::Iterator cp = it;
            it = cp;
          }
          if (R(2))
            ++it;
          else {
            auto old = it++;
            CHECK(old->first == (void*)e.first, "postfix increment returns the wrong position");
          }
          ++cit;
          ++j;
        }
        CHECK(it == m.end(), "iteration returns more entries than stored");
        CHECK(cit == cm.end(), "const iteration returns more entries than stored");
      }
    }
  }
  CHECK(Val::live == live0, "values are not destroyed exactly once");
}

static void fmpool_round()
{
  oplog.clear();
  size_t sizes[] = {4, 4, 8, 12, 16, 24, 32, 48, 64, 5, 7, 9, 100};
  size_t ob = sizes[R(13)], per = R(3) ? 1 + R(40) : 1 + R(5);
  L("FixedMallocPool(%zu, %zu)", ob, per);
  U::FixedMallocPool p(ob, per);
  std::map<char*, unsigned char> live;
  size_t maxlive = 0, nops = 50 + R(1000), bias = 35 + R(40);
  for (size_t i = 0; i < nops; ++i) {
    if (R(100) < bias || live.empty()) {
      L("allocate()");
      char* q = (char*)p.allocate();
      CHECK(q, "allocate returned null");
      auto it = live.lower_bound(q);
      CHECK(it == live.end() || it->first >= q + ob, "allocation overlaps a live object");
      if (it != live.begin()) {
        --it;
        CHECK(it->first + ob <= q, "allocation overlaps a live object");
      }
      unsigned char c = (unsigned char)R(256);
      memset(q, c, ob);
      live[q] = c;
      if (live.size() > maxlive) maxlive = live.size();
    } else {
      auto it = live.begin();
      std::advance(it, R(live.size()));
      for (size_t j = 0; j < ob; ++j) CHECK((unsigned char)it->first[j] == it->second, "contents of a live object changed");
      char* q = it->first;
      live.erase(it);
      L("deallocate(%p)", (void*)q);
      p.deallocate(q);
    }
    CHECK(p.numPools() == (maxlive + per - 1) / per + (maxlive == 0), "more or fewer pools than the peak of live objects needs");
    for (auto& e : live)
      for (size_t j = 0; j < ob; ++j) CHECK((unsigned char)e.first[j] == e.second, "contents of a live object changed");
  }
  char other[64];
  bool threw = false;
  try {
    p.deallocate(other);
  } catch (std::exception&) {
    threw = true;
  }
  CHECK(threw, "deallocate of a foreign pointer did not throw");
}

struct FailBuf : std::streambuf {
  std::string got;
  bool fail = false;
  int syncs = 0, syncret = 0;
  int overflow(int c) override
  {
    if (fail) return EOF;
    got.push_back((char)c);
    return (unsigned char)c;
  }
  int sync() override
  {
    ++syncs;
    return syncret;
  }
};

static void obuf_round()
{
  oplog.clear();
  FailBuf fb[3];
  std::ostream s0(&fb[0]), s1(&fb[1]), s2(&fb[2]);
  std::ostream* ss[3] = {&s0, &s1, &s2};
  std::string want[3];
  {
    std::ostream out(nullptr);
    alignas(U::OutputBuffer) static unsigned char raw[sizeof(U::OutputBuffer)];
    memset(raw, 0xa5, sizeof raw);
    std::unique_ptr<U::OutputBuffer, void (*)(U::OutputBuffer*)> hold(new (raw) U::OutputBuffer, [](U::OutputBuffer* p) { p->~OutputBuffer(); });
    U::OutputBuffer& ob = *hold;
    out.rdbuf(&ob);
    int con = -1, fil = -1;
    for (size_t i = 0, n = 20 + R(60); i < n; ++i) {
      size_t op = R(10);
      if (op == 0) {
        con = (int)R(3) - 1;
        L("setConsoleStream(%d)", con);
        ob.setConsoleStream(con < 0 ? nullptr : ss[con]);
      } else if (op == 1) {
        fil = R(2) ? 2 : -1;
        L("setFileStream(%d)", fil);
        ob.setFileStream(fil < 0 ? nullptr : ss[fil]);
      } else if (op == 2) {
        int k = (int)R(3);
        fb[k].fail = R(3) == 0;
        fb[k].syncret = R(3) == 0 ? -1 : 0;
        L("sink %d fail=%d syncret=%d", k, fb[k].fail, fb[k].syncret);
      } else if (op == 3) {
        int s[3] = {fb[0].syncs, fb[1].syncs, fb[2].syncs};
        int r = ob.sync();
        L("sync() -> %d", r);
        int e = (con >= 0 && fb[con].syncret) || (fil >= 0 && fb[fil].syncret) ? -1 : 0;
        CHECK(r == e, "sync result");
        for (int k = 0; k < 3; ++k) CHECK(fb[k].syncs - s[k] == (k == con) + (k == fil), "a stream was not synced exactly once");
      } else {
        int c = (int)R(256);
        int r = ob.overflow(c);
        L("overflow(%d) -> %d", c, r);
        bool bad = false;
        for (int k : {con, fil})
          if (k >= 0) {
            if (fb[k].fail)
              bad = true;
            else
              want[k].push_back((char)c);
          }
        CHECK(r == (bad ? EOF : c), "overflow result");
        for (int k = 0; k < 3; ++k) CHECK(fb[k].got == want[k], "a character was lost, duplicated or reordered");
      }
      if (R(6) == 0) {
        int r = ob.overflow(EOF);
        CHECK(r != EOF, "overflow(EOF) reports a failure");
        for (int k = 0; k < 3; ++k) CHECK(fb[k].got == want[k], "overflow(EOF) wrote a character");
      }
    }
    for (int k = 0; k < 3; ++k) fb[k].fail = false, fb[k].syncret = 0;
    out.clear();
    std::string msg = "line " + std::to_string(R(100000)) + "\n";
    out << msg << std::flush;
    if (con >= 0) want[con] += msg;
    if (fil >= 0) want[fil] += msg;
    for (int k = 0; k < 3; ++k) CHECK(fb[k].got == want[k], "text did not reach every stream set");
    int s[3] = {fb[0].syncs, fb[1].syncs, fb[2].syncs};
    (void)s;
  }
}

static void ffs_round()
{
  oplog.clear();
  for (int i = 0; i < 5000; ++i) {
    int x = R(2) ? (int)rng() : (int)(((uint32_t)rng()) << R(32));
    if (i < 33) x = i == 32 ? 0 : (int)(1u << i);
    int e = 0;
    for (int b = 0; b < 32; ++b)
      if ((uint32_t)x >> b & 1) {
        e = b + 1;
        break;
      }
    if (U::find_first_set(x) != e) {
      L("find_first_set(%d) = %d, expected %d", x, U::find_first_set(x), e);
      die("find_first_set is not the lowest set bit");
    }
  }
}

static void judy_round()
{
  oplog.clear();
  Judy* j = judy_open(8, 1);
  std::map<uint64_t, uint64_t> o;
  Keys ks;
  for (size_t i = 0, n = 100 + R(2000), bias = 40 + R(30); i < n; ++i) {
    uint64_t k = ks.get();
    if (R(2) && !o.empty()) {
      auto it = o.lower_bound(k);
      if (it == o.end()) it = o.begin();
      k = it->first;
    }
    if (R(100) < bias) {
      L("cell(%llx)", (unsigned long long)k);
      JudySlot* c = judy_cell(j, (unsigned char*)&k, JUDY_key_size);
      CHECK(c, "judy_cell returned null");
      CHECK(o.count(k) ? *c == o[k] : *c == 0, "judy_cell content");
      *c = o[k] = rng() | 1;
    } else {
      L("slot(%llx), del", (unsigned long long)k);
      JudySlot* c = judy_slot(j, (unsigned char*)&k, JUDY_key_size);
      CHECK((c != nullptr) == (o.count(k) > 0), "judy_slot presence");
      if (c) {
        CHECK(*c == o[k], "judy_slot content");
        judy_del(j);
        o.erase(k);
      }
    }
    uint64_t p = ks.get(), got = 0;
    L("strt(%llx), prv", (unsigned long long)p);
    JudySlot* c = judy_strt(j, (unsigned char*)&p, JUDY_key_size);
    auto e = o.lower_bound(p);
    CHECK((c != nullptr) == (e != o.end()), "judy_strt presence");
    if (c) {
      judy_key(j, (unsigned char*)&got, JUDY_key_size);
      CHECK(got == e->first && *c == e->second, "judy_strt key");
    }
    c = judy_prv(j);
    CHECK((c != nullptr) == (e != o.begin()), "judy_prv presence");
    if (c) {
      --e;
      judy_key(j, (unsigned char*)&got, JUDY_key_size);
      CHECK(got == e->first && *c == e->second, "judy_prv key");
    }
    if (R(40) == 0) {
      uint64_t z = 0;
      c = judy_strt(j, (unsigned char*)&z, 0);
      for (auto& x : o) {
        CHECK(c, "judy iteration ends early");
        judy_key(j, (unsigned char*)&got, JUDY_key_size);
        CHECK(got == x.first && *c == x.second, "judy iteration order");
        c = judy_nxt(j);
      }
      CHECK(!c, "judy iteration has more keys");
    }
  }
  judy_close(j);
}

static void relfrag_round()
{
  oplog.clear();
  std::vector<U::AllocationRecord> v;
  uint64_t at = 4096 + R(100) * 16;
  double total = 0, largest = 0;
  for (size_t i = 0, n = R(12); i < n; ++i) {
    size_t s = 1 + R(1000), g = R(2) ? 0 : R(5000);
    if (i) {
      total += g;
      if (g > largest) largest = g;
      at += g;
    }
    L("record at %llx size %zu", (unsigned long long)at, s);
    v.push_back(U::AllocationRecord{(void*)at, s, nullptr});
    at += s;
  }
  double e = v.empty() ? 0 : total > 0 ? 1 - largest / total : 1;
  float g = U::relative_fragmentation(v);
  L("result %g, expected %g", g, e);
  CHECK(std::fabs(g - e) < 1e-4 && g >= -1e-6f && g <= 1.0f, "relative_fragmentation");
}

int main(int argc, char** argv)
{
  if (argc < 4) return 2;
  std::string c = argv[1];
  long seed = atol(argv[2]), rounds = atol(argv[3]);
  std::map<std::string, std::vector<std::function<void()>>> T{
      {"allocmap", {allocmap_round, [] { if (R(10) == 0) allocmap_threads(); }}}, {"memorymap", {memorymap_round}}, {"fmpool", {fmpool_round}}, {"obuf", {obuf_round}},
      {"ffs", {ffs_round}},           {"judy", {judy_round}},           {"relfrag", {relfrag_round}},
  };
  if (!T.count(c)) {
    fprintf(stderr, "unknown component %s\n", c.c_str());
    return 2;
  }
  for (long r = 0; r < rounds; ++r)
    for (auto& f : T[c]) {
      rng.seed((uint64_t)seed * 1000003ull + (uint64_t)r);
      f();
    }
  printf("OK %ld rounds\n", rounds);
  return 0;
}
