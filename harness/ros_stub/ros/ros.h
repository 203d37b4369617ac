// Stand-in for roscpp: an in-process message bus with just what the bridge uses.
// Rates and spinners can be driven by the harness (see ros::stub).
#pragma once
#include <boost/function.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <typeinfo>
#include <vector>
namespace ros {
struct Time {
  uint32_t sec = 0, nsec = 0;
  Time() {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  explicit Time(double t) { fromSec(t); }
  Time& fromSec(double t) {
    int64_t s = int64_t(std::floor(t));
    int64_t n = int64_t(std::llround((t - double(s)) * 1e9));
    s += n / 1000000000;
    n %= 1000000000;
    sec = uint32_t(s);
    nsec = uint32_t(n);
    return *this;
  }
  double toSec() const { return double(sec) + 1e-9 * double(nsec); }
  uint64_t toNSec() const { return uint64_t(sec) * 1000000000ull + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool operator==(const Time& o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Time& o) const { return !(*this == o); }
  bool operator<(const Time& o) const { return toNSec() < o.toNSec(); }
  static Time now() { return Time(1, 0); }
};
struct Duration {
  double s = 0;
  Duration(double x = 0) : s(x) {}
  double toSec() const { return s; }
  bool sleep() const { return true; }
};

namespace stub {
struct Sub {    // one subscription: a callback that is never run twice at once
  std::string topic;
  const std::type_info* type;
  uint32_t queue = 0;
  std::function<void(const boost::shared_ptr<const void>&)> cb;
  std::mutex running;
  std::deque<boost::shared_ptr<const void>> pending;
};
struct Out {    // a published message
  std::string topic;
  const std::type_info* type;
  boost::shared_ptr<const void> msg;
};
struct Pair {    // synchronised topics
  std::string a, b;
  std::function<void(const boost::shared_ptr<const void>&, const boost::shared_ptr<const void>&)> cb;
  std::mutex running;
};
struct Gate {    // a thread inside Rate::sleep
  double rate;
  long arrived = 0, granted = 0;
};
struct Bus {
  std::mutex m;
  std::condition_variable cv;
  std::vector<std::weak_ptr<Sub>> subs;
  std::vector<std::weak_ptr<Pair>> pairs;
  std::vector<Out> out;
  std::map<std::string, const std::type_info*> advertised;
  std::atomic<bool> running{true};
  bool gated = false;
  std::vector<std::shared_ptr<Gate>> gates;
  // messages waiting for a spinner
  std::deque<std::pair<std::shared_ptr<Sub>, boost::shared_ptr<const void>>> work;
  std::deque<std::function<void()>> pwork;
  long delivered = 0;
  std::function<void()> on_publish;    // called by publishing threads, without locks

  void reset() {
    std::lock_guard<std::mutex> l(m);
    subs.clear();
    pairs.clear();
    out.clear();
    advertised.clear();
    gates.clear();
    work.clear();
    pwork.clear();
    delivered = 0;
    gated = false;
    running = true;
  }
  void shutdown() {
    std::lock_guard<std::mutex> l(m);
    running = false;
    cv.notify_all();
  }
  std::vector<std::shared_ptr<Sub>> find(const std::string& topic) {
    std::lock_guard<std::mutex> l(m);
    std::vector<std::shared_ptr<Sub>> o;
    for (auto& w : subs)
      if (auto s = w.lock())
        if (s->topic == topic) o.push_back(s);
    return o;
  }
  std::vector<std::shared_ptr<Pair>> findPair(const std::string& a, const std::string& b) {
    std::lock_guard<std::mutex> l(m);
    std::vector<std::shared_ptr<Pair>> o;
    for (auto& w : pairs)
      if (auto s = w.lock())
        if (s->a == a && s->b == b) o.push_back(s);
    return o;
  }
  // Delivers at once in the calling thread; returns the number of receivers, -1 for a type mismatch
  template <class M>
  int deliver(const std::string& topic, const boost::shared_ptr<const M>& msg) {
    int n = 0;
    for (auto& s : find(topic)) {
      if (*s->type != typeid(M)) return -1;
      std::lock_guard<std::mutex> l(s->running);
      s->cb(msg);
      n++;
    }
    return n;
  }
  template <class A, class B>
  int deliverPair(const std::string& ta, const std::string& tb, const boost::shared_ptr<const A>& a, const boost::shared_ptr<const B>& b) {
    int n = 0;
    for (auto& s : findPair(ta, tb)) {
      std::lock_guard<std::mutex> l(s->running);
      s->cb(a, b);
      n++;
    }
    return n;
  }
  // Queues for the spinner threads, which keep the order within a subscription
  template <class M>
  void post(const std::string& topic, const boost::shared_ptr<const M>& msg) {
    auto ss = find(topic);
    std::lock_guard<std::mutex> l(m);
    for (auto& s : ss) {
      s->pending.push_back(msg);
      work.push_back({s, nullptr});
    }
    cv.notify_all();
  }
  bool spinOne(bool wait) {
    std::shared_ptr<Sub> s;
    {
      std::unique_lock<std::mutex> l(m);
      if (wait) cv.wait(l, [&] { return !work.empty() || !running; });
      if (work.empty()) return false;
      s = work.front().first;
      work.pop_front();
    }
    std::lock_guard<std::mutex> r(s->running);
    boost::shared_ptr<const void> msg;
    {
      std::lock_guard<std::mutex> l(m);
      msg = s->pending.front();
      s->pending.pop_front();
    }
    s->cb(msg);
    {
      std::lock_guard<std::mutex> l(m);
      delivered++;
      cv.notify_all();
    }
    return true;
  }
  // Gated rates: wait until n threads sleep, and let the thread of one gate run one turn
  bool parked(size_t n, double seconds) {
    std::unique_lock<std::mutex> l(m);
    return cv.wait_for(l, std::chrono::duration<double>(seconds), [&] {
      if (gates.size() < n) return false;
      for (auto& g : gates)
        if (g->arrived == g->granted) return false;
      return true;
    });
  }
  void grant(const std::shared_ptr<Gate>& g) {
    std::lock_guard<std::mutex> l(m);
    g->granted++;
    cv.notify_all();
  }
  std::vector<Out> takeOut() {
    std::lock_guard<std::mutex> l(m);
    std::vector<Out> o;
    o.swap(out);
    return o;
  }
};
inline Bus& bus() {
  static Bus b;
  return b;
}
}    // namespace stub

class Subscriber {
 public:
  std::shared_ptr<stub::Sub> s;
  void shutdown() { s.reset(); }
  std::string getTopic() const { return s ? s->topic : ""; }
};
class Publisher {
 public:
  std::string topic;
  const std::type_info* type = nullptr;
  template <class M>
  void publish(const M& m) const {
    auto& b = stub::bus();
    if (b.on_publish) b.on_publish();
    std::lock_guard<std::mutex> l(b.m);
    b.out.push_back({topic, &typeid(M), boost::shared_ptr<const void>(boost::make_shared<M>(m))});
  }
  template <class M>
  void publish(const boost::shared_ptr<M>& m) const { publish(*m); }
  std::string getTopic() const { return topic; }
  uint32_t getNumSubscribers() const { return 1; }
};
class NodeHandle {
 public:
  NodeHandle(const std::string& = "") {}
  template <class M>
  Subscriber subscribe(const std::string& topic, uint32_t queue, const boost::function<void(const boost::shared_ptr<M const>&)>& cb) {
    Subscriber o;
    o.s = std::make_shared<stub::Sub>();
    o.s->topic = topic;
    o.s->type = &typeid(M);
    o.s->queue = queue;
    o.s->cb = [cb](const boost::shared_ptr<const void>& m) { cb(boost::static_pointer_cast<const M>(m)); };
    auto& b = stub::bus();
    std::lock_guard<std::mutex> l(b.m);
    b.subs.push_back(o.s);
    return o;
  }
  template <class M>
  Publisher advertise(const std::string& topic, uint32_t, bool = false) {
    Publisher p;
    p.topic = topic;
    p.type = &typeid(M);
    auto& b = stub::bus();
    std::lock_guard<std::mutex> l(b.m);
    b.advertised[topic] = &typeid(M);
    return p;
  }
  bool ok() const { return stub::bus().running; }
};
class Rate {
  std::shared_ptr<stub::Gate> g;

 public:
  explicit Rate(double r) {
    g = std::make_shared<stub::Gate>();
    g->rate = r;
    auto& b = stub::bus();
    std::lock_guard<std::mutex> l(b.m);
    b.gates.push_back(g);
  }
  bool sleep() {
    auto& b = stub::bus();
    std::unique_lock<std::mutex> l(b.m);
    if (!b.gated) {
      l.unlock();
      std::this_thread::yield();
      return true;
    }
    g->arrived++;
    b.cv.notify_all();
    b.cv.wait(l, [&] { return g->granted >= g->arrived || !b.running; });
    return true;
  }
  void reset() {}
};
inline bool ok() { return stub::bus().running; }
inline void init(int&, char**, const std::string&, uint32_t = 0) {}
inline void spinOnce() {
  for (int i = 0; i < 64 && stub::bus().spinOne(false); i++) {
  }
}
inline void shutdown() { stub::bus().shutdown(); }
inline void waitForShutdown() {
  auto& b = stub::bus();
  std::unique_lock<std::mutex> l(b.m);
  b.cv.wait(l, [&] { return !b.running; });
}
class AsyncSpinner {
  uint32_t n;
  std::vector<std::thread> t;

 public:
  explicit AsyncSpinner(uint32_t k) : n(k ? k : 4) {}
  ~AsyncSpinner() { stop(); }
  void start() {
    for (uint32_t i = 0; i < n; i++)
      t.emplace_back([] {
        while (stub::bus().running) stub::bus().spinOne(true);
      });
  }
  void stop() {
    for (auto& x : t)
      if (x.joinable()) x.join();
    t.clear();
  }
};
class MultiThreadedSpinner {
 public:
  explicit MultiThreadedSpinner(uint32_t = 0) {}
  void spin() {
    AsyncSpinner s(4);
    s.start();
    waitForShutdown();
  }
};
}    // namespace ros
