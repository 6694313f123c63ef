#ifndef VERIF_CAMP_RESOURCE_HPP
#define VERIF_CAMP_RESOURCE_HPP
#include "camp/resource/platform.hpp"
namespace camp { namespace resources {
struct Event { bool check() const { return true; } void wait() const {} };
struct Host { Platform get_platform() const { return Platform::host; } static Host get_default() { return Host{}; } };
struct Resource {
  Platform p;
  Resource() : p(Platform::host) {}
  template <typename T> Resource(T&& t) : p(t.get_platform()) {}
  Resource(const Resource&) = default;
  Resource(Resource&) = default;
  Platform get_platform() const { return p; }
  Event get_event() { return Event{}; }
  void wait() {}
};
template <typename Res> struct EventProxy {
  Res* r;
  EventProxy(Res& res) : r(&res) {}
  Event get() { return r->get_event(); }
  operator Event() { return get(); }
};
}}
#endif
