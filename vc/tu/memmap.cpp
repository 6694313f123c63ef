// Instantiates the members of umpire::util::MemoryMap so that their bodies are emitted.
#include "umpire/util/MemoryMap.hpp"
namespace vc {
struct Val {
  std::size_t a;
  std::size_t b;
};
using M = umpire::util::MemoryMap<Val>;
std::pair<M::Iterator, bool> i1(M& m, void* k, const Val& v) { return m.insert(k, v); }
std::pair<M::Iterator, bool> i2(M& m, void* k, std::size_t x, std::size_t y) { return m.insert(k, x, y); }
std::pair<M::Iterator, bool> i3(M& m, std::pair<void*, Val>& p) { return m.insert(p); }
M::Iterator f1(M& m, void* k) { return m.find(k); }
M::ConstIterator f2(const M& m, void* k) { return m.find(k); }
M::Iterator b1(M& m, void* k) { return m.findOrBefore(k); }
M::ConstIterator b2(const M& m, void* k) { return m.findOrBefore(k); }
void e1(M& m, void* k) { m.erase(k); }
void e2(M& m, M::Iterator i) { m.erase(i); }
void e3(M& m, M::ConstIterator i) { m.erase(i); }
void c1(M& m) { m.clear(); }
std::size_t s1(const M& m) { return m.size(); }
M::Iterator g1(M& m) { return m.begin(); }
M::ConstIterator g2(const M& m) { return m.begin(); }
M::Iterator h1(M& m) { return m.end(); }
M::ConstIterator h2(const M& m) { return m.end(); }
void n1(M::Iterator& i) { ++i; }
void n2(M::ConstIterator& i) { ++i; }
M::Iterator n3(M::Iterator& i) { return i++; }
bool q1(M::Iterator& i, M::Iterator& j) { return i == j; }
bool q2(M::Iterator& i, M::Iterator& j) { return i != j; }
bool q3(M::ConstIterator& i, M::ConstIterator& j) { return i == j; }
void* d1(M::Iterator& i) { return (*i).first; }
M* m1() { return new M; }
void x1(M* m) { m->~MemoryMap(); }
} // namespace vc
