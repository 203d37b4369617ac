// Shared by all harnesses: random numbers, reporter, small helpers.
#pragma once
#include <Eigen/Dense>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vc {

inline uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

struct Rng {
  uint64_t s[4];
  explicit Rng(uint64_t seed) {
    for (auto& x : s) x = splitmix(seed);
  }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next() {
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    return r;
  }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  int below(int n) { return int(next() % uint64_t(n)); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(double p) { return uni() < p; }
  double logu(double a, double b) { return a * std::pow(b / a, uni()); }
  double gauss() {
    double u = uni(), v = uni();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * v);
  }
  Eigen::Vector3d gvec(double s = 1) {
    double a = gauss(), b = gauss(), c = gauss();
    return s * Eigen::Vector3d(a, b, c);
  }
  Eigen::Vector3d dir() {
    Eigen::Vector3d v;
    if (chance(0.15)) {
      v.setZero();
      v[below(3)] = chance(0.5) ? 1 : -1;
      return v;
    }
    do v = gvec();
    while (v.norm() < 1e-6);
    return v.normalized();
  }
  Eigen::Quaterniond quat() {
    double q[4], n;
    do {
      n = 0;
      for (double& x : q) {
        x = gauss();
        n += x * x;
      }
    } while (n < 1e-6);
    n = std::sqrt(n);
    Eigen::Quaterniond r(q[0] / n, q[1] / n, q[2] / n, q[3] / n);
    return r;
  }
  Eigen::Matrix3d rot() {
    if (chance(0.1)) return Eigen::Matrix3d::Identity();
    double ang = chance(0.2) ? M_PI - logu(1e-9, 1e-2)
                 : chance(0.2) ? logu(1e-9, 1e-1)
                               : uni(0, M_PI);
    return Eigen::AngleAxisd(ang, dir()).toRotationMatrix();
  }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[below(int(v.size()))];
  }
};

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32) {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      o += b;
    } else {
      o += char(c);
    }
  }
  return o;
}

struct Hash {
  uint64_t h = 1469598103934665603ull;
  Hash& u(uint64_t x) {
    h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    uint64_t t = h;
    h = splitmix(t);
    return *this;
  }
  Hash& i(long x) { return u(uint64_t(x)); }
  Hash& d(double x) {
    uint64_t u_;
    std::memcpy(&u_, &x, 8);
    return u(u_);
  }
  template <class M>
  Hash& m(const M& a) {
    for (int i = 0; i < a.rows(); i++)
      for (int j = 0; j < a.cols(); j++) d(a(i, j));
    return *this;
  }
};

// Collects what a run observed; violations are written at once so that a later
// crash does not lose them.
class Reporter {
 public:
  std::string prop, work, tier;
  uint64_t seed = 0, cur_case = 0;
  long only = -1;
  FILE* out = nullptr;
  int phase_fd = -1;

  void open(const std::string& path) {
    out = fopen(path.c_str(), "w");
    phase_fd = ::open((path + ".phase").c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
  }
  void phase(const std::string& p) {
    std::lock_guard<std::mutex> l(mu_);
    if (p == phase_) return;
    phase_ = p;
    char b[128];
    std::memset(b, ' ', sizeof b);
    int n = snprintf(b, sizeof b - 1, "%s case=%lu", p.c_str(), (unsigned long)cur_case);
    if (n > 0 && n < 127) b[n] = ' ';
    b[127] = '\n';
    if (phase_fd >= 0) { ssize_t r = pwrite(phase_fd, b, sizeof b, 0); (void)r; }
  }
  const std::string& cur_phase() const { return phase_; }
  void begin_case(uint64_t c) {
    std::lock_guard<std::mutex> l(mu_);
    cur_case = c;
    phase_ = "?";
  }
  // key: stable name of what is wrong (not of the particular input)
  void viol(const std::string& key, const std::string& msg) {
    std::lock_guard<std::mutex> l(mu_);
    nviol_++;
    if (++vcount_[key] > 5) return;
    fprintf(out, "{\"t\":\"viol\",\"key\":\"%s\",\"case\":%lu,\"phase\":\"%s\",\"msg\":\"%s\"}\n",
            jesc(key).c_str(), (unsigned long)cur_case, jesc(phase_).c_str(), jesc(msg).c_str());
    fflush(out);
  }
  // one evaluated case / observation; h identifies it
  void eval(uint64_t h, bool nontrivial = true) {
    std::lock_guard<std::mutex> l(mu_);
    evals_++;
    if (nontrivial && distinct_.size() < 2000000) distinct_.insert(h);
  }
  void count(const std::string& k, long n = 1) {
    std::lock_guard<std::mutex> l(mu_);
    counts_[k] += n;
  }
  void maxi(const std::string& k, double v) {
    std::lock_guard<std::mutex> l(mu_);
    auto it = maxs_.find(k);
    if (it == maxs_.end() || it->second < v) maxs_[k] = v;
  }
  void sample(const std::string& s) {
    std::lock_guard<std::mutex> l(mu_);
    if (samples_.size() < 3) samples_.push_back(s);
  }
  bool want_sample() const { return samples_.size() < 3; }
  long evals() const { return evals_; }
  long viols() const { return nviol_; }
  void finish() {
    std::lock_guard<std::mutex> l(mu_);
    fprintf(out, "{\"t\":\"sum\",\"evals\":%ld,\"viols\":%ld,\"counts\":{", evals_, nviol_);
    bool f = true;
    for (auto& kv : counts_) {
      fprintf(out, "%s\"%s\":%ld", f ? "" : ",", jesc(kv.first).c_str(), kv.second);
      f = false;
    }
    fprintf(out, "},\"max\":{");
    f = true;
    for (auto& kv : maxs_) {
      double v = std::isfinite(kv.second) ? kv.second : 1e308;
      fprintf(out, "%s\"%s\":%.6g", f ? "" : ",", jesc(kv.first).c_str(), v);
      f = false;
    }
    fprintf(out, "},\"samples\":[");
    f = true;
    for (auto& s : samples_) {
      fprintf(out, "%s\"%s\"", f ? "" : ",", jesc(s).c_str());
      f = false;
    }
    fprintf(out, "],\"distinct\":%lu}\n", (unsigned long)distinct_.size());
    fprintf(out, "{\"t\":\"end\"}\n");
    fclose(out);
    out = nullptr;
  }

 private:
  std::mutex mu_;
  std::string phase_ = "?";
  long evals_ = 0, nviol_ = 0;
  std::unordered_set<uint64_t> distinct_;
  std::map<std::string, long> counts_, vcount_;
  std::map<std::string, double> maxs_;
  std::vector<std::string> samples_;
};

inline Reporter& rep() {
  static Reporter r;
  return r;
}

inline std::string fmt(const char* f, ...) {
  char b[1024];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}

template <class M>
std::string mstr(const M& m, int prec = 9) {
  std::ostringstream o;
  o.precision(prec);
  o << "[";
  for (int i = 0; i < m.rows(); i++) {
    if (i) o << "; ";
    for (int j = 0; j < m.cols(); j++) o << (j ? " " : "") << m(i, j);
  }
  o << "]";
  return o.str();
}

// Redirects the chatter of the code under test; the harness never needs stdout.
inline void mute() {
  int n = ::open("/dev/null", O_WRONLY);
  dup2(n, 1);
  close(n);
}

// argv: prop seed cases out workdir tier [only]
using CaseFn = std::function<void(Rng&, long)>;
inline int run_main(int argc, char** argv, const std::map<std::string, CaseFn>& fns,
                    bool keep_stderr = true) {
  if (argc < 7) {
    fprintf(stderr, "usage: prop seed cases out workdir tier [only]\n");
    return 2;
  }
  Reporter& r = rep();
  r.prop = argv[1];
  r.seed = strtoull(argv[2], nullptr, 10);
  long cases = atol(argv[3]);
  r.open(argv[4]);
  r.work = argv[5];
  r.tier = argv[6];
  if (argc > 7) r.only = atol(argv[7]);
  auto it = fns.find(r.prop);
  if (it == fns.end()) {
    fprintf(stderr, "no such property in this harness: %s\n", argv[1]);
    return 2;
  }
  mute();
  for (long c = 0; c < cases; c++) {
    if (r.only >= 0 && c != r.only) continue;
    uint64_t s = r.seed * 1000003ull + uint64_t(c);
    splitmix(s);
    Rng g(s);
    r.begin_case(c);
    r.phase("start");
    try {
      it->second(g, c);
    } catch (const std::exception& e) {
      r.viol("exception:" + r.cur_phase(), std::string("uncaught exception: ") + e.what());
    }
    if (r.viols() > 200) break;
  }
  r.phase("end");
  r.finish();
  fflush(nullptr);
  return 0;
}

}    // namespace vc
