// Concrete search driver over the real Umpire core (host configuration).
//   core_driver <component> <seed> <rounds>
// Runs random operation sequences against the public API with a shadow oracle. On the first disagreement it prints
// "FAIL <what>" and the operation log that leads to it, and exits 1. Used to look for a failing input when a proof
// obligation fails, and as a labelled bounded stand-in where a function is outside the verifier's reach.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <atomic>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <csignal>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/TypedAllocator.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/resource/FileMemoryResource.hpp"
#include "umpire/resource/HostResourceFactory.hpp"
#include "umpire/resource/NoOpMemoryResource.hpp"
#include "umpire/resource/NullMemoryResource.hpp"
#include "umpire/strategy/AlignedAllocator.hpp"
#include "umpire/strategy/AllocationStrategy.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/NamingShim.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/SlotPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/error.hpp"

using umpire::Allocator;
using umpire::ResourceManager;
namespace S = umpire::strategy;

static std::mt19937_64 rng;
static std::vector<std::string> oplog;
static size_t R(size_t n) { return n ? rng() % n : 0; }
template <class... A>
static void L(const char* f, A... a)
{
  char b[256];
  snprintf(b, sizeof b, f, a...);
  oplog.push_back(b);
}
static std::string scratch_dir;
static std::vector<std::string> dir_files(const std::string& d)
{
  std::vector<std::string> v;
  if (DIR* x = opendir(d.c_str())) {
    while (dirent* e = readdir(x))
      if (std::string(e->d_name) != "." && std::string(e->d_name) != "..") v.push_back(e->d_name);
    closedir(x);
  }
  return v;
}
static void drop_scratch()
{
  if (scratch_dir.empty()) return;
  for (auto& f : dir_files(scratch_dir)) ::unlink((scratch_dir + "/" + f).c_str());
  ::rmdir(scratch_dir.c_str());
  scratch_dir.clear();
}
static void die(const std::string& m)
{
  drop_scratch();
  printf("FAIL %s\n", m.c_str());
  size_t k = oplog.size() > 400 ? oplog.size() - 400 : 0;
  for (; k < oplog.size(); ++k) printf("  %s\n", oplog[k].c_str());
  fflush(stdout);
  _exit(1);
}
#define CHECK(c, m) \
  do {              \
    if (!(c)) die(m); \
  } while (0)

// Upstream strategy with a ledger; can be told to fail.
class Probe : public S::AllocationStrategy {
 public:
  Probe(const std::string& n, int id, Allocator p) : AllocationStrategy(n, id, p.getAllocationStrategy(), "Probe") {}
  std::map<char*, size_t> held;
  std::map<char*, char*> base;
  long fail_from = -1;  // fail allocations number >= fail_from ...
  long fail_to = -1;    // ... and < fail_to
  long n = 0, nfail = 0;
  bool check_size = true;
  bool odd = false;  // blocks at any address
  size_t total() const
  {
    size_t t = 0;
    for (auto& h : held) t += h.second;
    return t;
  }
  bool inside(char* p, size_t s) const
  {
    auto i = held.upper_bound(p);
    if (i == held.begin()) return false;
    --i;
    return p >= i->first && p + s <= i->first + i->second;
  }
  char* block_of(char* p) const
  {
    auto i = held.upper_bound(p);
    if (i == held.begin()) return nullptr;
    --i;
    return p < i->first + i->second ? i->first : nullptr;
  }
  void* allocate(size_t b) override
  {
    long k = n++;
    if (b > (1u << 26) || (k >= fail_from && k < fail_to)) {
      nfail++;
      L("  probe: allocate(%zu) throws", b);
      throw umpire::out_of_memory_error("probe", __FILE__, __LINE__);
    }
    size_t sh = 16 * R(8) + (odd ? R(16) : 0);
    char* q = static_cast<char*>(malloc(b + sh + 1));
    memset(q, 0x5a, sh);
    char* p = q + sh;
    base[p] = q;
    held[p] = b;
    L("  probe: allocate(%zu) = %p", b, (void*)p);
    return p;
  }
  void deallocate(void* p, size_t s) override
  {
    L("  probe: deallocate(%p, %zu)", p, s);
    auto i = held.find(static_cast<char*>(p));
    CHECK(i != held.end(), "pointer returned upstream that is not held from upstream (double free or foreign pointer)");
    if (check_size) CHECK(i->second == s, "block returned upstream with a size different from the one it was obtained with");
    for (char* c = base[i->first]; c < i->first; ++c) CHECK(*c == 0x5a, "memory in front of a block was written");
    free(base[i->first]);
    base.erase(i->first);
    held.erase(i);
  }
  umpire::Platform getPlatform() noexcept override { return umpire::Platform::host; }
  umpire::MemoryResourceTraits getTraits() const noexcept override { return umpire::MemoryResourceTraits{}; }
};

static int uniq = 0;
static std::string nm(const char* s) { return std::string(s) + std::to_string(uniq++); }
static ResourceManager& rm() { return ResourceManager::getInstance(); }
static Probe* mkprobe(Allocator& out)
{
  out = rm().makeAllocator<Probe>(nm("probe"), rm().getAllocator("HOST"));
  return dynamic_cast<Probe*>(out.getAllocationStrategy());
}

struct Live {
  size_t size;
  unsigned char pat;
};
using LiveMap = std::map<char*, Live>;
static void fill(char* p, size_t n, unsigned char c) { memset(p, c, n); }
static bool intact(char* p, size_t n, unsigned char c)
{
  for (size_t i = 0; i < n; ++i)
    if (static_cast<unsigned char>(p[i]) != c) return false;
  return true;
}
static void add_live(LiveMap& lv, void* v, size_t size, Probe* pr, size_t align)
{
  char* p = static_cast<char*>(v);
  CHECK(p != nullptr, "allocate returned null");
  CHECK(reinterpret_cast<uintptr_t>(p) % align == 0, "allocation not aligned as promised");
  if (size) {
    if (pr) CHECK(pr->inside(p, size), "allocation not inside one block held from upstream");
    auto i = lv.lower_bound(p);
    if (i != lv.end()) CHECK(p + size <= i->first, "allocation overlaps a live allocation");
    if (i != lv.begin()) {
      --i;
      CHECK(i->first + i->second.size <= p, "allocation overlaps a live allocation");
    }
  }
  unsigned char c = static_cast<unsigned char>(R(256));
  fill(p, size, c);
  CHECK(lv.find(p) == lv.end(), "allocation address already live");
  lv[p] = Live{size, c};
}
static void check_live(const LiveMap& lv, Probe* pr)
{
  for (auto& l : lv) {
    if (pr && l.second.size) CHECK(pr->inside(l.first, l.second.size), "memory of a live allocation was returned upstream");
    CHECK(intact(l.first, l.second.size, l.second.pat), "contents of a live allocation changed");
  }
}
static size_t sum(const LiveMap& lv)
{
  size_t s = 0;
  for (auto& l : lv) s += l.second.size;
  return s;
}
struct Stats {
  size_t hwm = 0;
  void check(Allocator& a, const LiveMap& lv)
  {
    size_t s = sum(lv);
    if (s > hwm) hwm = s;
    CHECK(a.getCurrentSize() == s, "getCurrentSize differs from the sum of the live sizes");
    CHECK(a.getHighWatermark() == hwm, "getHighWatermark differs from the running maximum of the current size");
    CHECK(a.getAllocationCount() == lv.size(), "getAllocationCount differs from the number of live allocations");
  }
};
static void check_probe_stats(Probe* pr)
{
  CHECK(pr->getCurrentSize() == pr->total(), "upstream getCurrentSize differs from the bytes held");
  CHECK(pr->getAllocationCount() == pr->held.size(), "upstream getAllocationCount differs from the blocks held");
}
static void check_records(Allocator& a, const LiveMap& lv)
{
  auto recs = umpire::get_allocator_records(a);
  CHECK(recs.size() == lv.size(), "get_allocator_records: wrong number of records");
  for (auto& r : recs) {
    auto i = lv.find(static_cast<char*>(r.ptr));
    CHECK(i != lv.end() && i->second.size == r.size, "get_allocator_records: wrong record");
  }
}
static size_t roundup(size_t b, size_t a) { return (b + a - 1) / a * a; }

template <class Pool>
static S::PoolCoalesceHeuristic<Pool> heur(int k)
{
  switch (k) {
    case 0: return Pool::percent_releasable(100);
    case 1: return Pool::blocks_releasable(2);
    case 2: return Pool::percent_releasable(50);
    case 3: return Pool::percent_releasable(0);
    case 4: return Pool::blocks_releasable_hwm(2);
    case 5: return Pool::percent_releasable_hwm(100);
    case 6: return Pool::percent_releasable_hwm(30);
    case 7: return Pool::blocks_releasable(1);
    default: return Pool::blocks_releasable_hwm(3);
  }
}

template <class Pool>
static void pool_round(bool accounting)
{
  oplog.clear();
  Allocator up = rm().getAllocator("HOST");
  Probe* pr = mkprobe(up);
  size_t firsts[] = {16, 64, 100, 256, 1024, 4096, 1};
  size_t nexts[] = {1, 16, 48, 128, 512, 1000};
  size_t aligns[] = {1, 8, 16, 16, 32, 64, 256};
  size_t first = firsts[R(7)], next = nexts[R(6)], al = aligns[R(7)];
  int h = static_cast<int>(R(9));
  L("pool(first=%zu next=%zu align=%zu heuristic=%d)", first, next, al, h);
  Allocator a = rm().makeAllocator<Pool>(nm("pool"), up, first, next, al, heur<Pool>(h));
  Pool* p = dynamic_cast<Pool*>(a.getAllocationStrategy());
  LiveMap lv;
  Stats st;
  size_t maxact = 0, maxal = 0;
  size_t nops = 20 + R(120);
  for (size_t k = 0; k < nops; ++k) {
    size_t op = R(100);
    if (op < 50 || lv.empty()) {
      size_t szs[] = {1, 8, 15, 16, 17, 31, 32, 33, 64, 100, 128, 256, 500, 1000, 4096};
      size_t b = R(3) ? szs[R(15)] : 1 + R(700);
      bool inj = R(8) == 0;
      if (inj) {
        pr->fail_from = pr->n + static_cast<long>(R(2));
        pr->fail_to = R(2) ? pr->fail_from + 1 : pr->n + 1000;
      }
      if (R(40) == 0) b = ~size_t(0) - R(2 * al + 40);
      if (R(60) == 0) b = (size_t(1) << 63) + R(64);
      L("allocate(%zu)%s", b, inj ? " with upstream failure" : "");
      void* q = nullptr;
      bool thrown = false;
      long nf = pr->nfail;
      try {
        q = a.allocate(b);
      } catch (std::exception&) {
        thrown = true;
        L("  threw");
      }
      pr->fail_from = pr->fail_to = -1;
      if (!thrown) {
        CHECK(b < (1u << 26), "allocation of an impossible size succeeded");
        add_live(lv, q, b, pr, al);
      } else
        CHECK(nf != pr->nfail || b >= (1u << 26), "allocate threw although upstream did not fail");
    } else if (op < 88) {
      auto i = lv.begin();
      std::advance(i, R(lv.size()));
      L("deallocate(%p)", (void*)i->first);
      char* q = i->first;
      CHECK(intact(q, i->second.size, i->second.pat), "contents of a live allocation changed");
      lv.erase(i);
      if (R(10) == 0) {
        L("  (with upstream failure)");
        pr->fail_from = pr->n;
        pr->fail_to = pr->n + 1000;
      }
      a.deallocate(q);
      pr->fail_from = pr->fail_to = -1;
    } else if (op < 94) {
      L("release()");
      a.release();
      for (auto& b : pr->held) {
        auto i = lv.lower_bound(b.first);
        CHECK(i != lv.end() && i->first < b.first + b.second, "a wholly free block was kept after release()");
      }
    } else {
      L("coalesce()");
      if (R(5) == 0) {
        L("  (with upstream failure)");
        pr->fail_from = pr->n;
        pr->fail_to = pr->n + 1000;
      }
      p->coalesce();
      pr->fail_from = pr->fail_to = -1;
    }
    check_live(lv, pr);
    CHECK(a.getCurrentSize() == sum(lv), "getCurrentSize differs from the sum of the live sizes");
    if (accounting) {
      st.check(a, lv);
      check_probe_stats(pr);
      size_t act = 0, relb = 0, reln = 0;
      for (auto& b : pr->held) {
        act += b.second - al;
        auto i = lv.lower_bound(b.first);
        if (i == lv.end() || i->first >= b.first + b.second) {
          reln++;
          relb += b.second - al;
        }
      }
      size_t als = 0;
      for (auto& l : lv) als += roundup(l.second.size, al);
      if (act > maxact) maxact = act;
      if (als > maxal) maxal = als;
      CHECK(a.getActualSize() == act, "getActualSize differs from the bytes held from upstream");
      CHECK(p->getTotalBlocks() == pr->held.size(), "getTotalBlocks differs from the blocks held");
      CHECK(p->getReleasableBlocks() == reln, "getReleasableBlocks differs from the wholly free blocks");
      CHECK(p->getReleasableSize() == relb, "getReleasableSize differs from the bytes in wholly free blocks");
      CHECK(p->getAlignedSize() == als, "getAlignedSize differs from the rounded live sizes");
      CHECK(p->getActualHighwaterMark() >= maxact, "getActualHighwaterMark below an observed actual size");
      CHECK(p->getAlignedHighwaterMark() >= maxal, "getAlignedHighwaterMark below an observed aligned size");
      CHECK(p->getBlocksInPool() >= lv.size(), "getBlocksInPool below the live allocations");
      CHECK(p->getLargestAvailableBlock() <= act - als, "getLargestAvailableBlock exceeds the free bytes");
    }
  }
  check_records(a, lv);
  while (!lv.empty()) {
    auto i = lv.begin();
    std::advance(i, R(lv.size()));
    char* q = i->first;
    lv.erase(i);
    L("deallocate(%p)", (void*)q);
    a.deallocate(q);
    check_live(lv, pr);
  }
  a.release();
  CHECK(pr->held.empty(), "blocks kept after everything was freed and released");
}

// the value each heuristic suggests, and that an explicit request coalesces exactly when one is suggested
template <class Pool>
static void heur_round()
{
  oplog.clear();
  Allocator up = rm().getAllocator("HOST");
  Probe* pr = mkprobe(up);
  size_t al = 16, asked = 0;
  bool quiet = true;
  size_t ret = 0;
  Allocator a = rm().makeAllocator<Pool>(nm("hpool"), up, size_t(64) << R(5), size_t(16) << R(5), al, S::PoolCoalesceHeuristic<Pool>{[&](const Pool&) -> size_t {
    asked++;
    return quiet ? 0 : ret;
  }});
  Pool* p = dynamic_cast<Pool*>(a.getAllocationStrategy());
  std::vector<void*> v;
  size_t n = 5 + R(30);
  for (size_t k = 0; k < n; ++k) {
    if (v.empty() || R(100) < 55) {
      size_t b = 1 + R(300);
      L("allocate(%zu)", b);
      v.push_back(a.allocate(b));
    } else {
      size_t i = R(v.size());
      L("deallocate(#%zu)", i);
      a.deallocate(v[i]);
      v.erase(v.begin() + static_cast<long>(i));
    }
    size_t act = p->getActualSize(), rel = p->getReleasableSize(), blk = p->getReleasableBlocks(), hwm = p->getAlignedHighwaterMark();
    int pc = static_cast<int>(R(4) ? R(101) : 25 * R(5));
    size_t nb = R(5);
    L("actual %zu releasable %zu in %zu blocks, high watermark %zu; percentage %d blocks %zu", act, rel, blk, hwm, pc, nb);
    CHECK(Pool::blocks_releasable(nb)(*p) == (blk >= nb ? act : 0), "blocks_releasable suggests the wrong size");
    CHECK(Pool::blocks_releasable_hwm(nb)(*p) == (blk >= nb ? hwm : 0), "blocks_releasable_hwm suggests the wrong size");
    for (int h = 0; h < 2; ++h) {
      size_t want = h ? hwm : act, got = h ? Pool::percent_releasable_hwm(pc)(*p) : Pool::percent_releasable(pc)(*p);
      if (pc == 0) CHECK(got == 0, "percentage 0 suggests coalescing");
      else if (pc == 100) CHECK(got == (act == rel ? want : 0), "percentage 100 suggests the wrong size");
      else {
        bool exact = pc % 25 == 0 && act < (1u << 24);
        if (rel * 100 >= static_cast<size_t>(pc) * act + (exact ? 0 : 200)) CHECK(got == want, "enough is releasable, but the percentage heuristic suggests nothing");
        if ((rel + 2) * 100 <= static_cast<size_t>(pc) * act) CHECK(got == 0, "too little is releasable, but the percentage heuristic suggests coalescing");
      }
    }
    for (int bad : {-1, 101, -100, 1000}) {
      if (R(20)) continue;
      int thrown = 0;
      try { Pool::percent_releasable(bad); } catch (std::exception&) { thrown++; }
      try { Pool::percent_releasable_hwm(bad); } catch (std::exception&) { thrown++; }
      CHECK(thrown == 2, "a percentage outside 0 to 100 was accepted");
    }
    long before = pr->n;
    auto held = pr->held;
    asked = 0;
    L("coalesce() with nothing suggested");
    p->coalesce();
    CHECK(asked > 0, "an explicit coalesce did not ask the heuristic");
    CHECK(pr->n == before && pr->held == held, "coalesced although the heuristic suggested nothing");
    if (R(4) == 0) {
      quiet = false;
      ret = act ? act : 64;
      L("coalesce() with %zu suggested", ret);
      CHECK(umpire::try_coalesce(a), "try_coalesce refused a pool");
      quiet = true;
      CHECK(p->getReleasableBlocks() <= 1 || blk <= 1, "coalescing left several releasable blocks");
    }
  }
  Allocator host = rm().getAllocator("HOST");
  CHECK(!umpire::try_coalesce(host), "try_coalesce accepted an allocator that is no pool");
  bool thrown = false;
  try { umpire::coalesce(host); } catch (std::exception&) { thrown = true; }
  CHECK(thrown, "coalesce accepted an allocator that is no pool");
  for (auto q : v) a.deallocate(q);
  a.release();
}

static void fixedpool_round()
{
  oplog.clear();
  Allocator up = rm().getAllocator("HOST");
  Probe* pr = mkprobe(up);
  size_t objs[] = {1, 2, 5, 31, 32, 33, 63, 64, 65, 96, 100, 128};
  size_t ob = 1 + R(40), n = objs[R(12)];
  L("FixedPool(obj=%zu per_pool=%zu)", ob, n);
  Allocator a = rm().makeAllocator<S::FixedPool>(nm("fixed"), up, ob, n);
  auto* p = dynamic_cast<S::FixedPool*>(a.getAllocationStrategy());
  LiveMap lv;
  size_t hwm = 0;
  size_t nops = 20 + R(500), per_pool = SIZE_MAX;
  int bias = 35 + static_cast<int>(R(40));
  for (size_t k = 0; k < nops; ++k) {
    size_t op = R(100);
    if (op < static_cast<size_t>(bias) || lv.empty()) {
      bool inj = R(10) == 0;
      if (inj) {
        pr->fail_from = pr->n;
        pr->fail_to = pr->n + 1000;
      }
      L("allocate%s", inj ? " with upstream failure" : "");
      long nf = pr->nfail;
      try {
        void* q = a.allocate(ob);
        pr->fail_from = pr->fail_to = -1;
        add_live(lv, q, ob, pr, 1);
        CHECK(p->pointerIsFromPool(q), "pointerIsFromPool is false for a live allocation");
        CHECK((static_cast<char*>(q) - pr->block_of(static_cast<char*>(q))) % ob == 0, "object not at a slot boundary");
      } catch (std::exception&) {
        L("  threw");
        CHECK(nf != pr->nfail, "allocate threw although upstream did not fail");
      }
      pr->fail_from = pr->fail_to = -1;
    } else if (op < 97) {
      auto i = lv.begin();
      std::advance(i, R(lv.size()));
      L("deallocate(%p)", (void*)i->first);
      char* q = i->first;
      lv.erase(i);
      a.deallocate(q);
    } else {
      L("release()");
      a.release();
      for (auto& b : pr->held) {
        auto i = lv.lower_bound(b.first);
        CHECK(i != lv.end() && i->first < b.first + b.second, "a wholly free pool was kept after release()");
      }
    }
    check_live(lv, pr);
    size_t s = lv.size() * ob;
    if (s > hwm) hwm = s;
    CHECK(a.getCurrentSize() == s, "getCurrentSize differs from the live bytes");
    CHECK(a.getHighWatermark() == hwm, "getHighWatermark differs from the running maximum");
    CHECK(a.getAllocationCount() == lv.size(), "getAllocationCount differs");
    CHECK(p->numPools() == pr->held.size(), "numPools differs from the blocks held");
    // each pool held counts its data and the same fixed amount of bookkeeping
    CHECK(a.getActualSize() >= pr->total(), "getActualSize below the bytes of the pools held");
    size_t over = a.getActualSize() - pr->total();
    if (per_pool == SIZE_MAX && !pr->held.empty()) per_pool = over / pr->held.size();
    CHECK(over == (pr->held.empty() ? 0 : per_pool * pr->held.size()), "getActualSize differs from the bytes of the pools held");
    CHECK(per_pool == SIZE_MAX || per_pool <= 4 * (n / 32 + 1), "getActualSize counts more than the pool occupies");
    check_probe_stats(pr);
    char other[8];
    CHECK(!p->pointerIsFromPool(other), "pointerIsFromPool is true for a foreign pointer");
  }
  check_records(a, lv);
}

static void mixed_round()
{
  oplog.clear();
  Allocator up = rm().getAllocator("HOST");
  Probe* pr = mkprobe(up);
  pr->check_size = true;
  size_t sm = size_t(4) << R(4), la = sm << R(6), mult = 2 + R(4), mx = 256 << R(5);
  L("MixedPool(smallest=%zu largest=%zu max=%zu mult=%zu)", sm, la, mx, mult);
  Allocator a = rm().makeAllocator<S::MixedPool>(nm("mixed"), up, sm, la, mx, mult, size_t(512), size_t(128), size_t(16));
  LiveMap lv;
  Stats st;
  for (size_t k = 0, n = 20 + R(300); k < n; ++k) {
    if (R(100) < 60 || lv.empty()) {
      size_t b = R(2) ? (sm << R(8)) + R(3) - 1 : 1 + R(2 * la + 100);
      L("allocate(%zu)", b);
      add_live(lv, a.allocate(b), b, pr, 1);
    } else {
      auto i = lv.begin();
      std::advance(i, R(lv.size()));
      char* q = i->first;
      L("deallocate(%p)", (void*)q);
      lv.erase(i);
      a.deallocate(q);
    }
    check_live(lv, pr);
    st.check(a, lv);
    CHECK(a.getActualSize() >= sum(lv), "getActualSize below the live bytes");
  }
  check_records(a, lv);
}

static void monotonic_round()
{
  oplog.clear();
  Allocator up = rm().getAllocator("HOST");
  Probe* pr = mkprobe(up);
  size_t cap = R(4) ? R(600) : 0;
  L("Monotonic(capacity=%zu)", cap);
  Allocator a = rm().makeAllocator<S::MonotonicAllocationStrategy>(nm("mono"), up, cap);
  LiveMap lv;
  size_t used = 0;
  std::vector<char*> freed;
  for (size_t k = 0; k < 40; ++k) {
    size_t b = 1 + R(100);
    if (R(6) == 0) b = ~size_t(0) - R(300);
    if (R(6) == 0) b = cap - used + R(3);
    if (b == 0) b = 1;
    L("allocate(%zu)", b);
    bool fits = b <= cap - used;
    try {
      void* q = a.allocate(b);
      CHECK(fits, "allocate succeeded beyond the capacity");
      add_live(lv, q, b, pr, 1);
      used += b;
    } catch (std::exception&) {
      L("  threw");
      CHECK(!fits, "allocate threw although the request fits");
    }
    CHECK(a.getCurrentSize() == used, "getCurrentSize differs from the bytes handed out");
    if (!lv.empty() && R(5) == 0) {
      auto i = lv.begin();
      std::advance(i, R(lv.size()));
      L("deallocate(%p)", (void*)i->first);
      a.deallocate(i->first);
      freed.push_back(i->first);
      // memory is not reused: keep watching it through 'lv' with size 0 marker
      lv.erase(i);
    }
    check_live(lv, pr);
    check_probe_stats(pr);
  }
}

static void slot_round()
{
  oplog.clear();
  Allocator up = rm().getAllocator("HOST");
  Probe* pr = mkprobe(up);
  size_t slots = 1 + R(8);
  L("SlotPool(%zu)", slots);
  Allocator a = rm().makeAllocator<S::SlotPool>(nm("slot"), up, slots);
  LiveMap lv;
  Stats st;
  std::map<char*, size_t> full;  // sizes as allocated upstream
  size_t szs[] = {8, 16, 24, 100, 8, 16};
  for (size_t k = 0, n = 10 + R(150); k < n; ++k) {
    if (R(100) < 60 || lv.empty()) {
      size_t b = szs[R(6)];
      if (R(30) == 0) b = ~size_t(0) - R(100);
      bool inj = R(8) == 0;
      if (inj) {
        pr->fail_from = pr->n;
        pr->fail_to = pr->n + 1000;
      }
      L("allocate(%zu)%s", b, inj ? " with upstream failure" : "");
      long nf = pr->nfail;
      size_t h0 = pr->held.size();
      bool idle = false;
      for (auto& x : pr->held)
        if (x.second == b && lv.find(x.first) == lv.end()) idle = true;
      try {
        void* q = a.allocate(b);
        pr->fail_from = pr->fail_to = -1;
        CHECK(b < (1u << 26), "allocation of an impossible size succeeded");
        add_live(lv, q, b, pr, 1);
      } catch (std::exception&) {
        L("  threw");
        CHECK(nf != pr->nfail || b > (1u << 26) || h0 == slots, "allocate threw although a slot is available");
        CHECK(!(idle && b < (1u << 26)), "allocate threw although an idle slot of that size exists");
      }
      pr->fail_from = pr->fail_to = -1;
    } else {
      auto i = lv.begin();
      std::advance(i, R(lv.size()));
      char* q = i->first;
      L("deallocate(%p)", (void*)q);
      lv.erase(i);
      a.deallocate(q);
    }
    check_live(lv, pr);
    CHECK(pr->held.size() <= slots, "more blocks held than slots");
    check_probe_stats(pr);
    st.check(a, lv);
  }
}

static void slot_dtor_round()
{
  // destruction returns every slot's block with its size
  oplog.clear();
  Allocator up = rm().getAllocator("HOST");
  Probe* pr = mkprobe(up);
  size_t slots = 1 + R(6);
  L("SlotPool(%zu), destroyed", slots);
  {
    S::SlotPool sp("slotd", -1, up, slots);
    std::vector<void*> v;
    for (size_t k = 0; k < 12; ++k) {
      bool inj = R(5) == 0;
      if (inj) {
        pr->fail_from = pr->n;
        pr->fail_to = pr->n + 1000;
      }
      size_t b = 8 * (1 + R(3));
      L("allocate(%zu)%s", b, inj ? " with upstream failure" : "");
      try {
        void* q = sp.allocate_internal(b);
        if (q) v.push_back(q);
      } catch (std::exception&) {
        L("  threw");
      }
      pr->fail_from = pr->fail_to = -1;
      if (!v.empty() && R(2)) {
        L("deallocate(%p)", v.back());
        sp.deallocate_internal(v.back(), 8);
        v.pop_back();
      }
    }
    if (R(2))
      while (!v.empty()) {
        sp.deallocate_internal(v.back(), 8);
        v.pop_back();
      }
    L("destroy");
  }
  CHECK(pr->held.empty(), "blocks not returned upstream by the destructor");
}

static void limiter_round()
{
  oplog.clear();
  Allocator up = rm().getAllocator("HOST");
  Probe* pr = mkprobe(up);
  size_t limit = R(5) ? R(2000) : (R(2) ? ~size_t(0) : 0);
  L("SizeLimiter(%zu)", limit);
  Allocator a = rm().makeAllocator<S::SizeLimiter>(nm("limit"), up, limit);
  LiveMap lv;
  Stats st;
  for (size_t k = 0; k < 60; ++k) {
    if (R(100) < 60 || lv.empty()) {
      size_t used = sum(lv);
      size_t b = 1 + R(400);
      if (R(5) == 0) b = ~size_t(0) - R(600);
      if (R(5) == 0) b = limit - used + R(3) - 1;
      if (b == 0) b = 1;
      bool inj = R(6) == 0;
      if (inj) {
        pr->fail_from = pr->n;
        pr->fail_to = pr->n + 1;
      }
      bool fits = b <= limit - used;
      long nf = pr->nfail;
      L("allocate(%zu)%s", b, inj ? " with upstream failure" : "");
      try {
        void* q = a.allocate(b);
        CHECK(fits, "allocation beyond the limit succeeded");
        add_live(lv, q, b, pr, 1);
      } catch (std::exception&) {
        L("  threw");
        CHECK(!fits || nf != pr->nfail, "allocate threw although the request fits the limit");
        if (!fits) CHECK(nf == pr->nfail, "a request beyond the limit reached the upstream allocator");
      }
      pr->fail_from = pr->fail_to = -1;
    } else {
      auto i = lv.begin();
      std::advance(i, R(lv.size()));
      char* q = i->first;
      L("deallocate(%p)", (void*)q);
      lv.erase(i);
      a.deallocate(q);
    }
    check_live(lv, pr);
    st.check(a, lv);
    check_probe_stats(pr);
    CHECK(pr->total() == sum(lv), "upstream holds a different number of bytes than are live");
  }
}

static void aligned_round()
{
  oplog.clear();
  Allocator up = rm().getAllocator("HOST");
  Probe* pr = mkprobe(up);
  pr->odd = R(2);
  size_t al = size_t(16) << R(9);
  if (R(20) == 0) {
    size_t bad[] = {0, 1, 2, 4, 8, 17, 24, 48, 100, 3};
    size_t x = bad[R(10)];
    L("AlignedAllocator(align=%zu) must be rejected", x);
    bool th = false;
    try {
      rm().makeAllocator<S::AlignedAllocator>(nm("aligned"), up, x);
    } catch (std::exception&) {
      th = true;
    }
    CHECK(th, "invalid alignment accepted");
    return;
  }
  L("AlignedAllocator(align=%zu)", al);
  Allocator a = rm().makeAllocator<S::AlignedAllocator>(nm("aligned"), up, al);
  LiveMap lv;
  Stats st;
  for (size_t k = 0; k < 60; ++k) {
    if (R(100) < 60 || lv.empty()) {
      size_t b = R(2) ? 1 + R(40) : 1 + R(3000);
      if (R(20) == 0) b = ~size_t(0) - R(2 * al + 40);
      L("allocate(%zu)", b);
      try {
        void* q = a.allocate(b);
        CHECK(b < (1u << 26), "allocation of an impossible size succeeded");
        add_live(lv, q, b, pr, al);
      } catch (std::exception&) {
        L("  threw");
        CHECK(b > (1u << 26), "allocate threw");
      }
    } else {
      auto i = lv.begin();
      std::advance(i, R(lv.size()));
      char* q = i->first;
      L("deallocate(%p)", (void*)q);
      lv.erase(i);
      a.deallocate(q);
    }
    check_live(lv, pr);
    st.check(a, lv);
    check_probe_stats(pr);
    CHECK(pr->held.size() == lv.size(), "blocks held differ from live allocations");
  }
}

// random towers of strategies over a probe
static void stack_round()
{
  oplog.clear();
  Allocator up = rm().getAllocator("HOST");
  Probe* pr = mkprobe(up);
  Allocator a = up;
  size_t limit = ~size_t(0), depth = 1 + R(4);
  size_t al = 1;
  std::vector<Allocator> chain{up};
  for (size_t d = 0; d < depth; ++d) {
    switch (R(7)) {
      case 0:
        L("QuickPool");
        a = rm().makeAllocator<S::QuickPool>(nm("s"), a, size_t(64) << R(4), size_t(64), size_t(16), heur<S::QuickPool>(static_cast<int>(R(9))));
        al = 16;
        break;
      case 1:
        L("DynamicPoolList");
        a = rm().makeAllocator<S::DynamicPoolList>(nm("s"), a, size_t(64) << R(4), size_t(64), size_t(16), heur<S::DynamicPoolList>(static_cast<int>(R(9))));
        al = 16;
        break;
      case 2: L("ThreadSafeAllocator"); a = rm().makeAllocator<S::ThreadSafeAllocator>(nm("s"), a); break;
      case 3: L("NamedAllocationStrategy"); a = rm().makeAllocator<S::NamedAllocationStrategy>(nm("s"), a); break;
      case 4: L("NamingShim"); a = rm().makeAllocator<S::NamingShim>(nm("s"), a); break;
      case 5:
        L("AlignedAllocator");
        a = rm().makeAllocator<S::AlignedAllocator>(nm("s"), a, size_t(32));
        al = 32;
        break;
      default:
        L("SizeLimiter");
        a = rm().makeAllocator<S::SizeLimiter>(nm("s"), a, size_t(1) << 20);
        break;
    }
    chain.push_back(a);
  }
  LiveMap lv;
  Stats st;
  for (size_t k = 0; k < 80; ++k) {
    if (R(100) < 55 || lv.empty()) {
      size_t b = R(10) ? 1 + R(300) : 0;
      bool inj = R(10) == 0;
      if (inj) {
        pr->fail_from = pr->n;
        pr->fail_to = pr->n + 1000;
      }
      L("allocate(%zu)%s", b, inj ? " with upstream failure" : "");
      long nf = pr->nfail;
      try {
        void* q = R(4) ? a.allocate(b) : a.allocate(std::string("n") + std::to_string(k), b);
        pr->fail_from = pr->fail_to = -1;
        add_live(lv, q, b, b ? pr : nullptr, b ? al : 1);
        CHECK(a.getSize(q) == b, "getSize differs from the requested size");
        CHECK(rm().getAllocator(static_cast<void*>(q)).getId() == a.getId(), "getAllocator(ptr) is not the allocator that allocated it");
        CHECK(rm().hasAllocator(q), "hasAllocator is false for a live allocation");
      } catch (std::exception&) {
        L("  threw");
        CHECK(nf != pr->nfail, "allocate threw although upstream did not fail");
      }
      pr->fail_from = pr->fail_to = -1;
    } else {
      auto i = lv.begin();
      std::advance(i, R(lv.size()));
      char* q = i->first;
      L("deallocate(%p)", (void*)q);
      lv.erase(i);
      if (R(10) == 0) {
        L("  (with upstream failure)");
        pr->fail_from = pr->n;
        pr->fail_to = pr->n + 1000;
      }
      if (R(3)) a.deallocate(q);
      else rm().deallocate(q);
      pr->fail_from = pr->fail_to = -1;
      CHECK(!rm().hasAllocator(q), "hasAllocator is true after deallocate");
      if (R(5) == 0) {
        bool th = false;
        try {
          a.deallocate(q);
        } catch (std::exception&) {
          th = true;
        }
        CHECK(th, "double deallocate not reported");
      }
    }
    check_live(lv, pr);
    st.check(a, lv);
    check_probe_stats(pr);
  }
  check_records(a, lv);
  a.deallocate(nullptr);
  st.check(a, lv);
  if (!lv.empty()) {
    Allocator other = rm().getAllocator("HOST");
    char* q = lv.begin()->first;
    bool th = false;
    size_t ocs = other.getCurrentSize(), ocn = other.getAllocationCount(), ohw = other.getHighWatermark();
    L("deallocate(%p) through another allocator", (void*)q);
    try {
      other.deallocate(q);
    } catch (std::exception&) {
      th = true;
    }
    CHECK(th, "deallocate through another allocator not reported");
    CHECK(rm().hasAllocator(q) && rm().getAllocator(static_cast<void*>(q)).getId() == a.getId() && a.getSize(q) == lv.begin()->second.size,
          "record lost by a rejected deallocate");
    CHECK(other.getCurrentSize() == ocs && other.getAllocationCount() == ocn && other.getHighWatermark() == ohw,
          "a rejected deallocate changed the statistics of the allocator that refused it");
    st.check(a, lv);
    check_live(lv, pr);
  }
  while (!lv.empty()) {
    char* q = lv.begin()->first;
    lv.erase(lv.begin());
    a.deallocate(q);
  }
  st.check(a, lv);
}

// lookups by interior pointer across allocators
static void find_round()
{
  oplog.clear();
  Allocator host = rm().getAllocator("HOST");
  Allocator pool = rm().makeAllocator<S::QuickPool>(nm("fp"), host, size_t(4096), size_t(1024));
  std::map<char*, std::pair<size_t, int>> lv;
  size_t bh = host.getCurrentSize();
  for (size_t k = 0; k < 60; ++k) {
    if (R(100) < 55 || lv.empty()) {
      Allocator& a = R(2) ? host : pool;
      size_t b = 1 + R(200);
      char* q = static_cast<char*>(a.allocate(b));
      L("%s.allocate(%zu) = %p", a.getName().c_str(), b, (void*)q);
      lv[q] = {b, a.getId()};
    } else {
      auto i = lv.begin();
      std::advance(i, R(lv.size()));
      L("rm.deallocate(%p)", (void*)i->first);
      char* q = i->first;
      lv.erase(i);
      rm().deallocate(q);
      CHECK(!rm().hasAllocator(q) || true, "");
    }
    for (auto& l : lv) {
      size_t o = R(l.second.first);
      char* q = l.first + o;
      CHECK(rm().hasAllocator(q), "hasAllocator is false inside a live allocation");
      CHECK(rm().getAllocator(static_cast<void*>(q)).getId() == l.second.second, "interior pointer attributed to the wrong allocator");
      auto r = rm().findAllocationRecord(q);
      CHECK(r->ptr == l.first && r->size == l.second.first, "interior pointer found the wrong record");
    }
    char loc;
    CHECK(!rm().hasAllocator(&loc), "hasAllocator is true for a stack address");
    bool th = false;
    try {
      rm().getAllocator(static_cast<void*>(&loc));
    } catch (std::exception&) {
      th = true;
    }
    CHECK(th, "unknown pointer not reported");
  }
  while (!lv.empty()) {
    rm().deallocate(lv.begin()->first);
    lv.erase(lv.begin());
  }
  CHECK(host.getCurrentSize() >= bh, "size underflow");
}

// copy / memset / reallocate / move
static void ops_round()
{
  oplog.clear();
  Allocator up = rm().getAllocator("HOST");
  mkprobe(up);
  Allocator host = rm().getAllocator("HOST");
  Allocator pool = rm().makeAllocator<S::QuickPool>(nm("op"), up, size_t(512), size_t(256));
  Allocator list = rm().makeAllocator<S::DynamicPoolList>(nm("op"), up, size_t(512), size_t(256));
  std::vector<Allocator> as{host, pool, list};
  camp::resources::Resource ctx{camp::resources::Host{}};
  struct Rec {
    Allocator a;
    std::vector<unsigned char> c;
  };
  std::map<char*, Rec> lv;
  std::map<int, size_t> base, basen;
  for (auto& a : as) base[a.getId()] = a.getCurrentSize(), basen[a.getId()] = a.getAllocationCount();
  auto pick = [&]() {
    auto i = lv.begin();
    std::advance(i, R(lv.size()));
    return i;
  };
  for (size_t k = 0; k < 120; ++k) {
    size_t op = R(100);
    if (lv.size() < 2 || op < 20) {
      Allocator& a = as[R(3)];
      size_t b = 1 + R(200);
      char* q = static_cast<char*>(a.allocate(b));
      L("%s.allocate(%zu) = %p", a.getName().c_str(), b, (void*)q);
      std::vector<unsigned char> c(b);
      for (size_t i = 0; i < b; ++i) q[i] = static_cast<char>(c[i] = static_cast<unsigned char>(R(256)));
      lv.emplace(q, Rec{a, c});
    } else if (op < 50) {
      auto s = pick(), d = pick();
      if (s == d) continue;
      size_t so = R(s->second.c.size()), dof = R(d->second.c.size());
      size_t sn = s->second.c.size() - so, dn = d->second.c.size() - dof;
      size_t n = R(3) ? 1 + R(220) : 0;
      size_t eff = n ? n : sn;
      bool ok = eff <= dn && eff <= sn;
      L("copy(dst=%p+%zu (%zu), src=%p+%zu (%zu), %zu)", (void*)d->first, dof, d->second.c.size(), (void*)s->first, so, s->second.c.size(), n);
      bool th = false;
      try {
        if (R(3)) rm().copy(d->first + dof, s->first + so, n);
        else rm().copy(d->first + dof, s->first + so, ctx, n);
      } catch (std::exception&) {
        th = true;
        L("  threw");
      }
      CHECK(ok == !th, ok ? "copy rejected although it fits" : "copy beyond an allocation accepted");
      if (ok) memcpy(d->second.c.data() + dof, s->second.c.data() + so, eff);
    } else if (op < 65) {
      auto s = pick();
      size_t so = R(s->second.c.size()), sn = s->second.c.size() - so;
      size_t n = R(3) ? 1 + R(220) : 0, eff = n ? n : sn;
      int v = static_cast<int>(R(256));
      bool th = false;
      L("memset(%p+%zu (%zu), %d, %zu)", (void*)s->first, so, s->second.c.size(), v, n);
      try {
        if (R(3)) rm().memset(s->first + so, v, n);
        else rm().memset(s->first + so, v, ctx, n);
      } catch (std::exception&) {
        th = true;
        L("  threw");
      }
      CHECK((eff <= sn) == !th, "memset bounds");
      if (eff <= sn) memset(s->second.c.data() + so, v, eff);
    } else if (op < 80) {
      auto s = pick();
      size_t n = R(12) ? 1 + R(300) : 0;
      char* q = s->first;
      Rec r = s->second;
      L("reallocate(%p (%zu), %zu)", (void*)q, r.c.size(), n);
      if (R(8) == 0 && r.c.size() > 1) {
        bool th = false;
        try {
          rm().reallocate(q + 1 + R(r.c.size() - 1), n ? n : 5);
        } catch (std::exception&) {
          th = true;
        }
        CHECK(th, "reallocate of an interior pointer accepted");
        continue;
      }
      if (R(8) == 0) {
        Allocator& o = as[R(3)];
        if (o.getId() != r.a.getId()) {
          bool th = false;
          try {
            rm().reallocate(q, n, o);
          } catch (std::exception&) {
            th = true;
          }
          CHECK(th, "reallocate with another allocator accepted");
          continue;
        }
      }
      char* z = static_cast<char*>(R(3) ? rm().reallocate(q, n) : rm().reallocate(q, n, r.a));
      lv.erase(s);
      size_t m = std::min(n, r.c.size());
      r.c.resize(n);
      CHECK(z != nullptr, "reallocate returned null");
      CHECK(rm().getAllocator(static_cast<void*>(z)).getId() == r.a.getId(), "reallocated memory belongs to another allocator");
      CHECK(rm().getSize(z) == n, "reallocated memory has the wrong size");
      if (z != q) CHECK(!rm().hasAllocator(q) || rm().findAllocationRecord(q)->ptr != q, "old pointer still registered after reallocate");
      CHECK(memcmp(z, r.c.data(), m) == 0, "reallocate did not keep the common prefix");
      for (size_t i = m; i < n; ++i) z[i] = static_cast<char>(r.c[i] = static_cast<unsigned char>(R(256)));
      if (n == 0) {
        r.a.deallocate(z);
      } else {
        CHECK(lv.find(z) == lv.end(), "reallocate returned a live address");
        lv.emplace(z, r);
      }
    } else if (op < 90) {
      auto s = pick();
      Allocator& o = as[R(3)];
      char* q = s->first;
      Rec r = s->second;
      L("move(%p (%zu) of %s, %s)", (void*)q, r.c.size(), r.a.getName().c_str(), o.getName().c_str());
      if (R(8) == 0 && r.c.size() > 1 && o.getId() != r.a.getId()) {
        bool th = false;
        try {
          rm().move(q + 1, o);
        } catch (std::exception&) {
          th = true;
        }
        CHECK(th, "move of an interior pointer accepted");
        continue;
      }
      char* z = static_cast<char*>(rm().move(q, o));
      CHECK((z == q) == (o.getId() == r.a.getId()), "move returned an unexpected address");
      lv.erase(s);
      CHECK(memcmp(z, r.c.data(), r.c.size()) == 0, "move did not keep the contents");
      CHECK(rm().getAllocator(static_cast<void*>(z)).getId() == o.getId() && rm().getSize(z) == r.c.size(), "moved memory has the wrong record");
      r.a = o;
      lv.emplace(z, r);
    } else {
      auto s = pick();
      char* q = s->first;
      Allocator a = s->second.a;
      L("deallocate(%p)", (void*)q);
      lv.erase(s);
      a.deallocate(q);
    }
    std::map<int, size_t> sz = base, nn = basen;
    for (auto& l : lv) {
      CHECK(memcmp(l.first, l.second.c.data(), l.second.c.size()) == 0, "contents of an allocation differ from the shadow copy");
      CHECK(rm().getSize(l.first) == l.second.c.size(), "getSize differs");
      sz[l.second.a.getId()] += l.second.c.size();
      nn[l.second.a.getId()]++;
    }
    for (auto& a : as) {
      CHECK(a.getCurrentSize() == sz[a.getId()], "getCurrentSize differs from the live bytes (" + a.getName() + ")");
      CHECK(a.getAllocationCount() == nn[a.getId()], "getAllocationCount differs (" + a.getName() + ")");
    }
  }
  while (!lv.empty()) {
    rm().deallocate(lv.begin()->first);
    lv.erase(lv.begin());
  }
}

// names, ids and aliases
static void names_round()
{
  oplog.clear();
  std::map<std::string, int> names;  // name -> id
  std::map<std::string, bool> alias;
  std::vector<Allocator> as;
  std::string pfx = nm("N");
  auto mk = [&](size_t k) { return pfx + "_" + std::to_string(k); };
  as.push_back(rm().getAllocator("HOST"));
  std::set<int> ids;
  for (int i : rm().getAllocatorIds()) ids.insert(i);
  for (size_t k = 0; k < 60; ++k) {
    size_t op = R(100);
    std::string n = mk(R(14));
    if (R(15) == 0) n = "HOST";
    bool known = n == "HOST" || names.count(n);
    if (op < 30) {
      L("makeAllocator(%s)", n.c_str());
      bool th = false;
      try {
        Allocator a = rm().makeAllocator<S::SizeLimiter>(n, as[R(as.size())], size_t(100));
        CHECK(!ids.count(a.getId()), "allocator id reused");
        ids.insert(a.getId());
        names[n] = a.getId();
        alias[n] = false;
        CHECK(a.getName() == n, "wrong name");
        as.push_back(a);
      } catch (std::exception&) {
        th = true;
        L("  threw");
      }
      CHECK(th == known, known ? "name registered twice" : "fresh name rejected");
    } else if (op < 55) {
      Allocator a = as[R(as.size())];
      L("addAlias(%s, %s)", n.c_str(), a.getName().c_str());
      bool th = false;
      try {
        rm().addAlias(n, a);
        names[n] = a.getId();
        alias[n] = true;
      } catch (std::exception&) {
        th = true;
        L("  threw");
      }
      CHECK(th == known, known ? "alias shadows an existing name" : "fresh alias rejected");
    } else if (op < 80) {
      Allocator a = as[R(as.size())];
      L("removeAlias(%s, %s)", n.c_str(), a.getName().c_str());
      bool ok = names.count(n) && alias[n] && names[n] == a.getId();
      bool th = false;
      try {
        rm().removeAlias(n, a);
        names.erase(n);
      } catch (std::exception&) {
        th = true;
        L("  threw");
      }
      CHECK(th == !ok, ok ? "alias not removable" : "removeAlias removed something that is not that alias");
    } else if (op < 85) {
      std::string r = "HOST" + n;
      L("makeResource(%s)", r.c_str());
      bool th = false;
      try {
        rm().makeResource(r);
      } catch (std::exception&) {
        th = true;
      }
      CHECK(th && !rm().isAllocator(r), "a resource of unknown type stays registered");
    }
    for (size_t j = 0; j < 14; ++j) {
      std::string m = mk(j);
      CHECK(rm().isAllocator(m) == (names.count(m) != 0), "isAllocator(name) wrong for " + m);
      bool th = false;
      try {
        Allocator a = rm().getAllocator(m);
        CHECK(names.count(m) && a.getId() == names[m], "getAllocator(name) returned the wrong allocator for " + m);
      } catch (std::exception&) {
        th = true;
      }
      CHECK(th == !names.count(m), "getAllocator(name) wrongly threw or not for " + m);
    }
    for (auto& a : as) {
      CHECK(rm().isAllocator(a.getId()), "isAllocator(id) false");
      CHECK(rm().getAllocator(a.getId()).getAllocationStrategy() == a.getAllocationStrategy(), "getAllocator(id) wrong");
    }
    CHECK(rm().getAllocator("HOST").getName() == "HOST", "HOST replaced");
    auto nv = rm().getAllocatorNames();
    std::set<std::string> ns(nv.begin(), nv.end());
    for (auto& x : names) CHECK(ns.count(x.first), "getAllocatorNames misses " + x.first);
  }
}

static void alias_first_round()
{
  // resource names that were not created yet
  oplog.clear();
  Allocator h = rm().getAllocator("HOST");
  L("removeAlias(FILE, HOST) before FILE exists");
  bool th = false;
  try {
    rm().removeAlias("FILE", h);
  } catch (std::exception&) {
    th = true;
  }
  CHECK(th, "removeAlias of a resource name accepted");
}

static void typed_round()
{
  oplog.clear();
  Allocator up = rm().getAllocator("HOST");
  Probe* pr = mkprobe(up);
  umpire::TypedAllocator<double> ta(up);
  for (int k = 0; k < 10; ++k) {
    size_t n = R(3) ? R(50) : (size_t(1) << 61) + R(8);
    L("TypedAllocator<double>.allocate(%zu)", n);
    try {
      double* d = ta.allocate(n);
      CHECK(n < 1000, "allocation of an impossible element count succeeded");
      if (n) CHECK(pr->inside(reinterpret_cast<char*>(d), n * sizeof(double)), "typed allocation too small");
      ta.deallocate(d, n);
    } catch (std::exception&) {
      CHECK(n > 1000, "typed allocate threw");
    }
    CHECK(up.getAllocationCount() == 0 && up.getCurrentSize() == 0 && pr->held.empty(), "a typed array was not given back");
  }
}

static void zero_round()
{
  oplog.clear();
  Allocator up = rm().getAllocator("HOST");
  Probe* pr = mkprobe(up);
  Allocator a = R(2) ? up : rm().makeAllocator<S::QuickPool>(nm("z"), up, size_t(64), size_t(64));
  LiveMap lv;
  Stats st;
  size_t nz = 0;
  for (int k = 0; k < 80; ++k) {
    if (R(2) || lv.empty()) {
      size_t b = R(3) ? 0 : 1 + R(64);
      L("allocate(%zu)", b);
      size_t h = pr->held.size();
      char* q = static_cast<char*>(a.allocate(b));
      if (b == 0) {
        CHECK(h == pr->held.size(), "a zero-byte allocation reached the resource");
        nz++;
      }
      CHECK(a.getSize(q) == b, "getSize of an allocation differs from its request");
      add_live(lv, q, b, b ? pr : nullptr, 1);
    } else {
      auto i = lv.begin();
      std::advance(i, R(lv.size()));
      char* q = i->first;
      L("deallocate(%p)", (void*)q);
      lv.erase(i);
      a.deallocate(q);
    }
    st.check(a, lv);
    check_live(lv, pr);
  }
  while (!lv.empty()) {
    char* q = lv.begin()->first;
    lv.erase(lv.begin());
    a.deallocate(q);
  }
}

// allocators without introspection
static void untracked_round()
{
  oplog.clear();
  Allocator up = rm().getAllocator("HOST");
  Probe* pr = mkprobe(up);
  Allocator a = R(2) ? rm().makeAllocator<S::QuickPool, false>(nm("u"), up, size_t(64), size_t(64))
                     : rm().makeAllocator<S::DynamicPoolList, false>(nm("u"), up, size_t(64), size_t(64));
  LiveMap lv;
  for (int k = 0; k < 60; ++k) {
    if (R(2) || lv.empty()) {
      size_t b = R(3) ? 1 + R(64) : 0;
      L("allocate(%zu)", b);
      long n = pr->n;
      char* q = static_cast<char*>(a.allocate(b));
      if (b == 0) CHECK(n == pr->n, "a zero-byte allocation reached the resource");
      CHECK(!rm().hasAllocator(q), "an allocation without introspection was registered");
      add_live(lv, q, b, b ? pr : nullptr, 1);
    } else {
      auto i = lv.begin();
      std::advance(i, R(lv.size()));
      char* q = i->first;
      L("deallocate(%p)", (void*)q);
      lv.erase(i);
      a.deallocate(q);
    }
    check_live(lv, pr);
  }
  a.deallocate(nullptr);
  while (!lv.empty()) {
    char* q = lv.begin()->first;
    lv.erase(lv.begin());
    a.deallocate(q);
  }
  a.release();
  CHECK(pr->held.empty(), "memory held although everything was deallocated and released");
}

static void overlap_round()
{
  oplog.clear();
  Allocator h = rm().getAllocator("HOST");
  // external registrations give arbitrary extents inside one buffer
  static char buf[4096];
  size_t o1 = R(200), n1 = 1 + R(200), o2 = R(200), n2 = 1 + R(200);
  if (o1 == o2) o2 += 1;
  L("left [%zu,+%zu) right [%zu,+%zu)", o1, n1, o2, n2);
  auto* s = h.getAllocationStrategy();
  umpire::register_external_allocation(buf + o1, umpire::util::AllocationRecord(buf + o1, n1, s));
  umpire::register_external_allocation(buf + o2, umpire::util::AllocationRecord(buf + o2, n2, s));
  bool ov = o2 >= o1 && o2 < o1 + n1 && o2 + n2 > o1 + n1;
  bool co = o2 >= o1 && o2 < o1 + n1 && o2 + n2 <= o1 + n1;
  CHECK(umpire::pointer_overlaps(buf + o1, buf + o2) == ov, "pointer_overlaps wrong");
  CHECK(umpire::pointer_contains(buf + o1, buf + o2) == co, "pointer_contains wrong");
  umpire::deregister_external_allocation(buf + o1);
  umpire::deregister_external_allocation(buf + o2);
  bool th = false;
  try {
    umpire::pointer_contains(buf + o1, buf + o2);
  } catch (std::exception&) {
    th = true;
  }
  CHECK(th, "unknown pointers not reported");
}

static bool mapped(void* p, size_t n)  // every page of the range is mapped
{
  std::vector<unsigned char> v((n + 4095) / 4096 + 1);
  uintptr_t a = reinterpret_cast<uintptr_t>(p) & ~uintptr_t(4095);
  return mincore(reinterpret_cast<void*>(a), n, v.data()) == 0;
}
static bool any_mapped(void* p, size_t n)
{
  for (size_t k = 0; k < n; k += 4096)
    if (mapped(static_cast<char*>(p) + k, 1)) return true;
  return false;
}

static void resources_round()
{
  namespace RS = umpire::resource;
  oplog.clear();
  char tmpl[] = "/tmp/umpire_drv_XXXXXX";
  scratch_dir = mkdtemp(tmpl);
  setenv("UMPIRE_MEMORY_FILE_DIR", (scratch_dir + "/").c_str(), 1);
  signal(SIGXFSZ, SIG_IGN);
  umpire::MemoryResourceTraits tr{};
  {
    RS::FileMemoryResource f(umpire::Platform::host, "F", 0, tr);
    CHECK(f.isAccessibleFrom(umpire::Platform::host), "FILE not accessible from the host");
    std::map<char*, size_t> live;
    std::map<char*, int> pat;
    size_t fds = dir_files("/proc/self/fd").size();
    for (int k = 0; k < 14; ++k) {
      size_t c = R(10);
      if (c < 5 || live.empty()) {
        size_t n = 1 + R(3 * 4096 + 2);
        if (R(4) == 0) n = 4096 * (1 + R(3)) + R(3) - 1;
        L("file allocate %zu", n);
        char* q = static_cast<char*>(f.allocate(n));
        CHECK(q != nullptr, "FILE returned null");
        CHECK(mapped(q, n), "FILE result not wholly mapped");
        size_t m = (n + 4095) / 4096 * 4096;
        for (auto& l : live) CHECK(q + m <= l.first || l.first + (l.second + 4095) / 4096 * 4096 <= q, "FILE allocations overlap");
        int v = static_cast<int>(R(255)) + 1;
        memset(q, v, n);
        live[q] = n;
        pat[q] = v;
      } else if (c < 8) {
        auto i = live.begin();
        std::advance(i, R(live.size()));
        L("file deallocate %zu", i->second);
        f.deallocate(i->first, i->second);
        CHECK(!any_mapped(i->first, i->second), "FILE memory still mapped after deallocation");
        pat.erase(i->first);
        live.erase(i);
      } else {
        // an allocation that fails at one of the steps
        int how = static_cast<int>(R(4));
        L("file allocation failing, way %d", how);
        rlimit o{}, fo{};
        getrlimit(RLIMIT_NOFILE, &o);
        getrlimit(RLIMIT_FSIZE, &fo);
        rlimit lim = how == 0 ? o : fo;
        size_t n = 5000;
        if (how == 0) {
          lim.rlim_cur = 0;
          setrlimit(RLIMIT_NOFILE, &lim);
        } else if (how == 1) {
          lim.rlim_cur = 100;
          setrlimit(RLIMIT_FSIZE, &lim);
        } else if (how == 2) {
          n = size_t(1) << 50;  // larger than the address space
        } else {
          n = ~size_t(0) - R(4096);
        }
        bool th = false;
        try {
          f.allocate(n);
        } catch (std::exception&) {
          th = true;
        }
        setrlimit(RLIMIT_NOFILE, &o);
        setrlimit(RLIMIT_FSIZE, &fo);
        CHECK(th, "FILE allocation that cannot succeed did not throw");
      }
      CHECK(dir_files(scratch_dir).size() == live.size(), "FILE: number of files is not the number of live allocations");
      CHECK(dir_files("/proc/self/fd").size() == fds, "FILE: descriptor left open");
      for (auto& l : live) {
        CHECK(mapped(l.first, l.second), "FILE: live allocation no longer mapped");
        for (size_t b = 0; b < l.second; b += 1 + l.second / 37) CHECK(l.first[b] == static_cast<char>(pat[l.first]), "FILE: contents changed");
        CHECK(l.first[l.second - 1] == static_cast<char>(pat[l.first]), "FILE: contents changed");
      }
    }
    if (!live.empty() && R(2) == 0) {
      // the file is removed behind the resource's back: reported once, and forgotten
      for (auto& x : dir_files(scratch_dir)) ::unlink((scratch_dir + "/" + x).c_str());
      for (auto& l : live) {
        L("deallocate with the file gone");
        bool th = false;
        try {
          f.deallocate(l.first, l.second);
        } catch (std::exception&) {
          th = true;
        }
        CHECK(th, "FILE: a missing file is not reported");
        CHECK(!any_mapped(l.first, l.second), "FILE memory still mapped after deallocation");
      }
    }
    L("file resource destroyed with %zu live", live.size());
  }
  CHECK(dir_files(scratch_dir).empty(), "FILE: destructor leaves files behind");
  drop_scratch();
  {
    RS::NullMemoryResource u(umpire::Platform::host, "N", 0, tr);
    CHECK(!u.isAccessibleFrom(umpire::Platform::host), "null resource accessible");
    std::map<char*, size_t> live;
    for (int k = 0; k < 12; ++k) {
      if (R(2) || live.empty()) {
        size_t n = 1 + R(5 * 4096);
        L("null allocate %zu", n);
        char* q = static_cast<char*>(u.allocate(n));
        CHECK(q && mapped(q, n), "null resource: range not reserved");
        for (auto& l : live) CHECK(q + n <= l.first || l.first + l.second <= q, "null resource: ranges overlap");
        live[q] = n;
      } else {
        auto i = live.begin();
        std::advance(i, R(live.size()));
        L("null deallocate %zu", i->second);
        u.deallocate(i->first, R(2) ? i->second : 0);
        CHECK(!any_mapped(i->first, i->second), "null resource: range not wholly released");
        live.erase(i);
      }
      for (auto& l : live) CHECK(mapped(l.first, l.second), "null resource: live range released");
    }
    bool th = false;
    try {
      u.allocate(size_t(1) << 60);
    } catch (std::exception&) {
      th = true;
    }
    CHECK(th, "null resource: a failing reservation is not reported");
    for (auto& l : live) u.deallocate(l.first, l.second);
  }
  {
    RS::NoOpMemoryResource o(umpire::Platform::host, "O", 0, tr);
    std::map<char*, size_t> live;
    for (int k = 0; k < 12; ++k) {
      size_t n = 1 + R(1000);
      char* q = static_cast<char*>(o.allocate(n));
      L("noop allocate %zu", n);
      for (auto& l : live) CHECK(q + n <= l.first || l.first + l.second <= q, "NO_OP: ranges overlap");
      live[q] = n;
      if (R(3) == 0) o.deallocate(q, n);
    }
  }
  {
    RS::HostResourceFactory fac;
    auto h = static_cast<RS::MemoryResourceFactory&>(fac).create("HOST", 0);
    CHECK(h->isAccessibleFrom(umpire::Platform::host), "HOST not accessible from the host");
    for (int k = 0; k < 4; ++k) {
      size_t n = 1 + R(5000);
      void* q = h->allocate(n);
      CHECK(q != nullptr, "HOST returned null");
      memset(q, 1, n);
      h->deallocate(q, n);
    }
    bool th = false;
    try {
      h->allocate(size_t(1) << 62);
    } catch (std::exception&) {
      th = true;
    }
    CHECK(th, "HOST: a failing malloc is not reported");
  }
}

static void threads_round()
{
  oplog.clear();
  Allocator up = rm().getAllocator("HOST");
  Allocator pool = rm().makeAllocator<S::QuickPool>(nm("t"), up, size_t(512), size_t(256), size_t(16), heur<S::QuickPool>(static_cast<int>(R(9))));
  Allocator a = rm().makeAllocator<S::ThreadSafeAllocator>(nm("ts"), pool);
  std::vector<std::thread> th;
  std::atomic<bool> bad{false};
  for (int t = 0; t < 4; ++t)
    th.emplace_back([&, t] {
      std::mt19937 g(static_cast<unsigned>(t) + 7);
      std::vector<std::pair<char*, size_t>> mine;
      for (int k = 0; k < 400; ++k) {
        if (g() % 100 < 55 || mine.empty()) {
          size_t b = 1 + g() % 120;
          char* q = static_cast<char*>((k & 1) ? a.allocate(b) : a.allocate("n", b));
          memset(q, t + 1, b);
          mine.push_back({q, b});
        } else {
          size_t i = g() % mine.size();
          if (!intact(mine[i].first, mine[i].second, static_cast<unsigned char>(t + 1))) bad = true;
          a.deallocate(mine[i].first);
          mine.erase(mine.begin() + static_cast<long>(i));
        }
      }
      for (auto& m : mine) {
        if (!intact(m.first, m.second, static_cast<unsigned char>(t + 1))) bad = true;
        a.deallocate(m.first);
      }
    });
  for (auto& t : th) t.join();
  CHECK(!bad, "memory of one thread was handed to another");
  CHECK(a.getCurrentSize() == 0 && a.getAllocationCount() == 0, "statistics not zero after every thread freed everything");
}

static void make_threads_round()
{
  oplog.clear();
  std::vector<std::thread> th;
  std::atomic<int> ok{0};
  std::string n = nm("race");
  Allocator h = rm().getAllocator("HOST");
  for (int t = 0; t < 4; ++t)
    th.emplace_back([&] {
      try {
        rm().makeAllocator<S::SizeLimiter>(n, h, size_t(10));
        ok++;
      } catch (std::exception&) {
      }
      for (int k = 0; k < 50; ++k) {
        void* p = h.allocate(8);
        h.deallocate(p);
      }
    });
  for (auto& t : th) t.join();
  CHECK(ok == 1, "concurrent makeAllocator with one name did not succeed exactly once");
}

int main(int argc, char** argv)
{
  if (argc < 4) return 2;
  std::string c = argv[1];
  long seed = atol(argv[2]), rounds = atol(argv[3]);
  std::map<std::string, std::vector<std::function<void()>>> T{
      {"quickpool", {[] { pool_round<S::QuickPool>(false); }}},
      {"quickpool_acct", {[] { pool_round<S::QuickPool>(true); }}},
      {"dynpool", {[] { pool_round<S::DynamicPoolList>(false); }}},
      {"dynpool_acct", {[] { pool_round<S::DynamicPoolList>(true); }}},
      {"heur", {heur_round<S::QuickPool>, heur_round<S::DynamicPoolList>}},
      {"fixedpool", {fixedpool_round}},
      {"mixed", {mixed_round}},
      {"monotonic", {monotonic_round}},
      {"slot", {slot_round, slot_dtor_round}},
      {"limiter", {limiter_round}},
      {"aligned", {aligned_round, [] { pool_round<S::QuickPool>(false); }}},
      {"stack", {stack_round}},
      {"find", {find_round, zero_round}},
      {"zero", {zero_round, stack_round, untracked_round}},
      {"ops", {ops_round}},
      {"names", {names_round, alias_first_round}},
      {"typed", {typed_round}},
      {"overlap", {overlap_round}},
      {"resources", {resources_round}},
      {"threads", {threads_round, make_threads_round, stack_round}},
  };
  if (!T.count(c)) {
    fprintf(stderr, "unknown component %s\n", c.c_str());
    return 2;
  }
  for (long r = 0; r < rounds; ++r) {
    for (auto& f : T[c]) {
      rng.seed(static_cast<unsigned long>(seed) * 1000003ul + static_cast<unsigned long>(r));
      try {
        f();
      } catch (std::exception& e) {
        die(std::string("unexpected exception: ") + std::string(e.what()).substr(0, 200));
      }
    }
  }
  printf("OK %s rounds=%ld\n", c.c_str(), rounds);
  fflush(stdout);
  _exit(0);
}
