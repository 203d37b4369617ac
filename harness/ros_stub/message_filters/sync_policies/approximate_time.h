#pragma once
#include <cstdint>
namespace message_filters { namespace sync_policies {
template <class A, class B>
struct ApproximateTime {
  typedef A First;
  typedef B Second;
  explicit ApproximateTime(uint32_t) {}
};
} }
