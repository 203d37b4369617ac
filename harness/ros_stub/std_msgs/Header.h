#pragma once
#include <ros/ros.h>
namespace std_msgs {
template <class A>
struct Header_ {
  uint32_t seq = 0;
  ros::Time stamp;
  std::string frame_id;
  Header_() {}
  explicit Header_(const A&) {}
  bool operator==(const Header_& o) const { return seq == o.seq && stamp == o.stamp && frame_id == o.frame_id; }
};
typedef Header_<std::allocator<void>> Header;
}
