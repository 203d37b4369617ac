#pragma once
#include <ros/ros.h>
namespace message_filters {
template <class M>
class Subscriber {
 public:
  std::string topic;
  Subscriber(ros::NodeHandle&, const std::string& t, uint32_t) : topic(t) {}
  Subscriber(const Subscriber&) = delete;
};
}
