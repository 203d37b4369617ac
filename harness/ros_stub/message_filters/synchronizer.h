#pragma once
#include <message_filters/subscriber.h>
namespace message_filters {
template <class P>
class Synchronizer {
  std::shared_ptr<ros::stub::Pair> p;

 public:
  typedef typename P::First A;
  typedef typename P::Second B;
  Synchronizer(const P&, Subscriber<A>& a, Subscriber<B>& b) : p(std::make_shared<ros::stub::Pair>()) {
    p->a = a.topic;
    p->b = b.topic;
  }
  void registerCallback(const boost::function<void(const boost::shared_ptr<const A>&, const boost::shared_ptr<const B>&)>& cb) {
    p->cb = [cb](const boost::shared_ptr<const void>& a, const boost::shared_ptr<const void>& b) {
      cb(boost::static_pointer_cast<const A>(a), boost::static_pointer_cast<const B>(b));
    };
    auto& bus = ros::stub::bus();
    std::lock_guard<std::mutex> l(bus.m);
    bus.pairs.push_back(p);
  }
};
}
