#pragma once
#include <geometry_msgs/all.h>
namespace sensor_msgs {
struct Imu {
  std_msgs::Header header;
  geometry_msgs::Quaternion orientation;
  std::array<double, 9> orientation_covariance{};
  geometry_msgs::Vector3 angular_velocity;
  std::array<double, 9> angular_velocity_covariance{};
  geometry_msgs::Vector3 linear_acceleration;
  std::array<double, 9> linear_acceleration_covariance{};
};
}
