// Calls each coalescing heuristic the way a pool does, through the std::function it is returned in, and instantiates TypedAllocator.
#include "umpire/TypedAllocator.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/QuickPool.hpp"
namespace vc {
using Q = umpire::strategy::QuickPool;
using D = umpire::strategy::DynamicPoolList;
std::size_t q_percent(int p, const Q& pool) { return Q::percent_releasable(p)(pool); }
std::size_t q_percent_hwm(int p, const Q& pool) { return Q::percent_releasable_hwm(p)(pool); }
std::size_t q_blocks(std::size_t n, const Q& pool) { return Q::blocks_releasable(n)(pool); }
std::size_t q_blocks_hwm(std::size_t n, const Q& pool) { return Q::blocks_releasable_hwm(n)(pool); }
std::size_t d_percent(int p, const D& pool) { return D::percent_releasable(p)(pool); }
std::size_t d_percent_hwm(int p, const D& pool) { return D::percent_releasable_hwm(p)(pool); }
std::size_t d_blocks(std::size_t n, const D& pool) { return D::blocks_releasable(n)(pool); }
std::size_t d_blocks_hwm(std::size_t n, const D& pool) { return D::blocks_releasable_hwm(n)(pool); }
struct Elem {
  char bytes[24];
};
using TA = umpire::TypedAllocator<Elem>;
using TB = umpire::TypedAllocator<char>;
Elem* t_allocate(TA& a, std::size_t n) { return a.allocate(n); }
char* t_allocate1(TB& a, std::size_t n) { return a.allocate(n); }
void t_deallocate(TA& a, Elem* p, std::size_t n) { a.deallocate(p, n); }
bool t_eq(const TA& a, const TB& b) { return a == b; }
bool t_ne(const TA& a, const TB& b) { return a != b; }
void t_ctor(TA* out, umpire::Allocator a) { new (out) TA(a); }
void t_convert(TB* out, const TA& a) { new (out) TB(a); }
}
