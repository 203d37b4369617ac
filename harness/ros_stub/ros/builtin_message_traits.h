#pragma once
#include <ros/ros.h>
namespace ros { namespace message_traits {
struct TrueType { static const bool value = true; };
struct FalseType { static const bool value = false; };
template <class M> struct IsMessage : FalseType {};
template <class M> struct IsFixedSize : FalseType {};
template <class M> struct HasHeader : FalseType {};
template <class M> struct MD5Sum;
template <class M> struct DataType;
template <class M> struct Definition;
} }
