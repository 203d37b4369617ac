#pragma once
#include <std_msgs/Header.h>
namespace geometry_msgs {
struct Vector3 { double x = 0, y = 0, z = 0; };
struct Point { double x = 0, y = 0, z = 0; };
struct Quaternion { double x = 0, y = 0, z = 0, w = 0; };
struct Pose { Point position; Quaternion orientation; };
struct Twist { Vector3 linear, angular; };
struct PoseWithCovariance { Pose pose; std::array<double, 36> covariance{}; };
struct TwistWithCovariance { Twist twist; std::array<double, 36> covariance{}; };
struct PoseStamped { std_msgs::Header header; Pose pose; };
struct TwistStamped { std_msgs::Header header; Twist twist; };
struct TwistWithCovarianceStamped { std_msgs::Header header; TwistWithCovariance twist; };
struct PoseWithCovarianceStamped { std_msgs::Header header; PoseWithCovariance pose; };
struct Vector3Stamped { std_msgs::Header header; Vector3 vector; };
}
