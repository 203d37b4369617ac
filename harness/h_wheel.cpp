// W01: dead reckoning of the wheel-odometry baseline, observed through its pose log.
#include "vcommon.hpp"
#include "ref.hpp"
#include <dirent.h>
#include <fstream>
#include <sys/stat.h>
#include <thread>
#include "wheel_odometry/wheel_odometry.h"
using namespace vc;
using ref::L;
using ref::LM;
using Eigen::Matrix3d;
using Eigen::Vector3d;

struct In {
  double tv, tw;
  Vector3d v, w;
};
struct Pose {
  L t;
  LM R, p;
  L eR, ep, et;
};
static VelocityMeasurementPtr mkv(double t, const Vector3d& v) {
  auto m = std::make_shared<VelocityMeasurement<double>>();
  m->set_time(t);
  m->set_velocity(v[0], v[1], v[2]);
  return m;
}
static AngularVelocityMeasurementPtr mkw(double t, const Vector3d& w) {
  auto m = std::make_shared<AngularVelocityMeasurement<double>>();
  m->set_time(t);
  m->set_angular_velocity(w[0], w[1], w[2]);
  return m;
}
static L nrm3(const LM& v) { return std::sqrt(v(0) * v(0) + v(1) * v(1) + v(2) * v(2)); }

static std::vector<Pose> integrate(const std::vector<In>& in) {
  std::vector<Pose> o;
  LM R = LM::I(3), p(3, 1);
  L eR = 1e-15L, ep = 0, et = 0, reach = 0;
  for (size_t i = 1; i < in.size(); i++) {
    L dt = L(in[i].tv) - L(in[i - 1].tv);
    LM phi = dt * ref::lm(in[i].w), v = ref::lm(in[i].v);
    LM step = dt * (R * v);
    p = p + step;
    reach += nrm3(step);
    ep += eR * 4 * nrm3(step) + 1e-15L * (reach + nrm3(p));
    L th = nrm3(phi);
    eR += 1e-14L + 4e-15L * th + (th > 0 ? std::min(1e-15L / th, 1e-9L) * std::min(th, 1.0L) : 0);
    if (th < 1.0001e-10L) eR += th;    // below this the rotation of one step is taken as none
    R = R * ref::Gam(phi, 0);
    et += 3e-16L * std::fabs(L(in[i].tv)) + 1e-15L;
    o.push_back({L(in[i].tv), R, p, eR, ep, et});
  }
  return o;
}
static Vector3d randW(Rng& g) {
  double u = g.uni();
  if (u < 0.1) return Vector3d::Zero();
  if (u < 0.5) return Vector3d(0, 0, g.uni(-3, 3));                       // planar
  if (u < 0.7) return Vector3d(0, 0, (g.chance(0.5) ? 1 : -1) * g.logu(1e-12, 1e-2));
  if (u < 0.9) return g.gvec(1);
  return g.logu(1e-9, 100) * g.dir();
}
static Vector3d randV(Rng& g) {
  double u = g.uni();
  if (u < 0.1) return Vector3d::Zero();
  if (u < 0.6) return Vector3d(g.uni(-2, 3), 0, 0);
  if (u < 0.9) return g.gvec(1);
  return g.logu(1e-6, 100) * g.dir();
}
static void W01(Rng& g, long) {
  static std::string base;
  if (base.empty()) {
    char b[4096];
    base = rep().work[0] == '/' ? rep().work : std::string(getcwd(b, sizeof b) ? b : ".") + "/" + rep().work;
    base += "/wheel.d_" + std::to_string(getpid());
    mkdir(base.c_str(), 0755);
  }
  rep().phase("generate");
  bool log = !g.chance(0.1), has_rate = !g.chance(0.15);
  double rate = g.chance(0.6) ? 1e7 : g.pick(std::vector<double>{100.3, 31.7, 9.7, 3.3, 0.83});
  static const std::vector<std::string> ext = {"", ".txt", ".csv"};
  std::string stem = base + (g.chance(0.5) ? "/wheel" : "/run.3/odom"), conf = base + "/c.yaml";
  mkdir((base + "/run.3").c_str(), 0755);
  if (g.chance(0.2)) stem += "_2024";
  {
    std::ofstream f(conf);
    f << "logger:\n  enable_pose_logger: " << (log ? "true" : "false") << "\n";
    if (log) f << "  pose_log_file: \"" << stem << g.pick(ext) << "\"\n";
    if (log && has_rate) f << "  pose_log_rate: " << fmt("%.17g", rate) << "\n";
  }
  if (!has_rate) rate = 10;
  std::string file = stem + ".txt";
  unlink(file.c_str());

  int n = g.chance(0.05) ? 0 : g.chance(0.1) ? 1 : g.chance(0.1) ? g.range(500, 3000) : g.range(2, 200);
  double t = g.chance(0.1) ? 0 : g.chance(0.4) ? 1.6e9 + g.uni(0, 1000) : g.uni(0.5, 100);
  if (t == 0 && n > 1) rep().count("runs starting at time zero");
  std::vector<In> in;
  bool steady = g.chance(0.3);
  Vector3d v = randV(g), w = randW(g);
  for (int i = 0; i < n; i++) {
    if (!steady && g.chance(0.7)) v = randV(g), w = randW(g);
    in.push_back({t, g.chance(0.7) ? t : t + g.uni(-0.01, 0.01), v, w});
    t += g.chance(0.03) ? 0 : g.chance(0.1) ? g.uni(0.5, 3) : g.chance(0.1) ? g.logu(1e-5, 1e-3) : g.uni(0.003, 0.05);
  }

  auto vq = std::make_shared<VelocityQueue>();
  auto wq = std::make_shared<AngularVelocityQueue>();
  auto vm = std::make_shared<std::mutex>(), wm = std::make_shared<std::mutex>();
  rep().phase("run");
  bool threaded = g.chance(0.1);
  size_t paired = in.size();
  {
    baseline::WheelOdometry odo(vq, vm, wq, wm, conf);
    if (threaded) {
      std::thread pv([&] {
        for (auto& x : in) {
          std::lock_guard<std::mutex> l(*vm);
          vq->push(mkv(x.tv, x.v));
        }
      });
      std::thread pw([&] {
        for (auto& x : in) {
          std::lock_guard<std::mutex> l(*wm);
          wq->push(mkw(x.tw, x.w));
        }
      });
      for (;;) {
        odo.RunOnce();
        std::lock_guard<std::mutex> a(*vm), b(*wm);
        if (vq->empty() && wq->empty()) break;
      }
      pv.join();
      pw.join();
      for (size_t i = 0; i < in.size() + 1; i++) odo.RunOnce();
      rep().count("runs next to producer threads");
    } else {
      // arrival patterns: either stream may run ahead, steps are taken at any moment
      size_t iv = 0, iw = 0, used = 0;
      size_t stop_v = in.size(), stop_w = in.size();
      if (g.chance(0.3)) (g.chance(0.5) ? stop_v : stop_w) = size_t(g.range(0, n));    // one stream falls silent
      paired = std::min(stop_v, stop_w);
      while (iv < stop_v || iw < stop_w || used < paired) {
        double u = g.uni();
        if (u < 0.3 && iv < stop_v) {
          int k = g.chance(0.1) ? g.range(2, 9) : 1;
          while (k-- && iv < stop_v) vq->push(mkv(in[iv].tv, in[iv].v)), iv++;
        } else if (u < 0.6 && iw < stop_w) {
          int k = g.chance(0.1) ? g.range(2, 9) : 1;
          while (k-- && iw < stop_w) wq->push(mkw(in[iw].tw, in[iw].w)), iw++;
        } else {
          size_t a = vq->size(), b = wq->size();
          odo.RunOnce();
          size_t take = a && b ? 1 : 0;
          used += take;
          if (vq->size() != a - take || wq->size() != b - take) {
            rep().viol("queues", fmt("%d velocities and %d angular velocities were queued, %d and %d are left after a step", int(a), int(b), int(vq->size()), int(wq->size())));
            return;
          }
          rep().count(take ? "pairs taken" : "steps without a pair");
        }
      }
    }
  }
  rep().phase("read log");
  std::vector<In> seen(in.begin(), in.begin() + paired);
  if (!log) {
    struct stat st;
    if (stat(file.c_str(), &st) == 0) rep().viol("log_although_disabled", "a pose log was written although the logger is disabled");
    rep().count("runs with the logger disabled");
    return;
  }
  auto want = integrate(seen);
  // which poses are due; a case in which rounding could decide is not judged
  std::vector<Pose> due;
  L last = 0;
  for (auto& p : want) {
    L d = p.t - last - 1.0L / rate;
    if (std::fabs(d) < 1e-7L + 4 * p.et && std::fabs(p.t - last) > 0 && rate < 1e6) {
      rep().count("cases skipped: due time within rounding");
      return;
    }
    bool same_time = p.t - last == 0;
    if (!same_time && d >= (rate < 1e6 ? 0 : -1.0L / rate + 1e-6L)) {
      due.push_back(p);
      last = p.t;
    }
  }
  std::ifstream f(file);
  if (!f) {
    rep().viol("no_log", "the pose log " + file + " does not exist");
    return;
  }
  std::string line;
  size_t i = 0;
  while (std::getline(f, line)) {
    std::istringstream ls(line);
    std::vector<double> x;
    std::string wd;
    bool bad = false;
    while (ls >> wd) {
      char* e = nullptr;
      x.push_back(strtod(wd.c_str(), &e));
      bad = bad || *e;
    }
    if (bad || x.size() != 8) {
      rep().viol("format", "line " + std::to_string(i + 1) + " of the pose log is '" + line + "'");
      return;
    }
    if (i >= due.size()) {
      rep().viol("records", fmt("the pose log has more than the %d poses due at rate %g (pairs %d); extra one at time %.17g", int(due.size()), rate, int(paired), x[0]));
      return;
    }
    auto& d = due[i];
    if (!(std::fabs(L(x[0]) - d.t) <= d.et + 1e-12L)) {
      rep().viol("time", fmt("record %d is of time %.17g, expected %.17Lg", int(i), x[0], d.t));
      return;
    }
    L dp = 0;
    for (int k = 0; k < 3; k++) dp = std::max(dp, std::fabs(L(x[1 + k]) - d.p(k)));
    if (!(dp <= d.ep * 8 + 1e-15L)) {
      rep().viol("position", fmt("record %d: position %.17g %.17g %.17g, expected %.17Lg %.17Lg %.17Lg (allowance %.3Lg)", int(i), x[1], x[2], x[3], d.p(0), d.p(1), d.p(2), d.ep * 8));
      return;
    }
    L qn = std::sqrt(L(x[4]) * x[4] + L(x[5]) * x[5] + L(x[6]) * x[6] + L(x[7]) * x[7]);
    if (!(std::fabs(qn - 1) <= 1e-8L)) {
      rep().viol("rotation_invalid", fmt("record %d: quaternion of norm %.17Lg", int(i), qn));
      return;
    }
    LM R = ref::quatR(x[7], x[4], x[5], x[6]);
    L dr = (R - d.R).maxabs();
    if (!(dr <= d.eR * 8 + 1e-14L)) {
      rep().viol("orientation", fmt("record %d: orientation off by %.3Lg (allowance %.3Lg)", int(i), dr, d.eR * 8));
      return;
    }
    rep().maxi("position deviation / allowance", double(dp / (d.ep * 8 + 1e-15L)));
    rep().maxi("orientation deviation / allowance", double(dr / (d.eR * 8 + 1e-14L)));
    i++;
  }
  if (i != due.size()) {
    rep().viol("records", fmt("the pose log has %d records, %d were due (%d pairs, rate %g)", int(i), int(due.size()), int(paired), rate));
    return;
  }
  Hash h;
  for (auto& d : due) h.d(double(d.t)).d(double(d.p(0))).d(double(d.R(0, 1)));
  rep().eval(h.h, !due.empty());
  rep().count("records compared", long(due.size()));
  if (rep().want_sample() && !due.empty()) rep().sample(fmt("%d pairs, rate %g, %d records, last position %.6Lg %.6Lg %.6Lg", int(paired), rate, int(due.size()), due.back().p(0), due.back().p(1), due.back().p(2)));
}
int main(int argc, char** argv) { return run_main(argc, argv, {{"W01", W01}}); }
