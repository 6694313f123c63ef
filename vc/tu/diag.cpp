// Instantiates the implicit constructor of OutputBuffer.
#include <new>
#include "umpire/util/OutputBuffer.hpp"
namespace vc {
void make_buffer(void* at) { new (at) umpire::util::OutputBuffer; }
}
