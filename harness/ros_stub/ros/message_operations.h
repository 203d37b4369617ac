#pragma once
#include <string>
namespace ros { namespace message_operations {
template <class M> struct Printer {
  template <class S> static void stream(S&, const std::string&, const M&) {}
};
} }
