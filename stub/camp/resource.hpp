#ifndef VERIF_CAMP_RESOURCE_HPP
#define VERIF_CAMP_RESOURCE_HPP
#include "camp/resource/platform.hpp"
namespace camp {
namespace resources {
inline namespace v1 {
class Event {
 public:
  bool check() const { return true; }
  void wait() const {}
};
class Host {
 public:
  static Host get_default() { return Host{}; }
  Platform get_platform() const { return Platform::host; }
  Event get_event() { return Event{}; }
  void wait() {}
};
class Resource {
 public:
  Resource() = default;
  template <typename T>
  Resource(T&&) {}
  Resource(const Resource&) = default;
  Resource(Resource&) = default;
  Platform get_platform() const { return Platform::host; }
  Event get_event() { return Event{}; }
  void wait() {}
};
template <typename Res>
class EventProxy {
 public:
  explicit EventProxy(Res r) : m_resource{r} {}
  Event get() { return m_resource.get_event(); }
  operator Event() { return get(); }

 private:
  Res m_resource;
};
} // namespace v1
} // namespace resources
} // namespace camp
#endif
