// Instantiates ResourceManager::makeAllocator for strategies without and with arguments so that its body is emitted.
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
namespace vc {
umpire::Allocator m1(umpire::ResourceManager& r, const std::string& n, umpire::Tracking t, umpire::Allocator a, std::size_t s)
{
  return r.makeAllocator<umpire::strategy::SizeLimiter>(n, t, a, s);
}
umpire::Allocator m2(umpire::ResourceManager& r, const std::string& n, umpire::Allocator a, std::size_t s)
{
  return r.makeAllocator<umpire::strategy::SizeLimiter>(n, a, s);
}
}
