// Instantiates the inline front-end functions of umpire::Allocator so that their bodies are emitted.
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
namespace vc {
void* a1(umpire::Allocator& a, std::size_t n) { return a.allocate(n); }
void* a2(umpire::Allocator& a, const std::string& s, std::size_t n) { return a.allocate(s, n); }
void d1(umpire::Allocator& a, void* p) { a.deallocate(p); }
}
