// S06: the trajectory logs.
#include "script.hpp"
#include <atomic>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <thread>
using namespace rig;

static std::vector<std::string> filesIn(const std::string& d) {
  std::vector<std::string> o;
  if (DIR* p = opendir(d.c_str())) {
    while (dirent* e = readdir(p))
      if (e->d_name[0] != '.') o.push_back(e->d_name);
    closedir(p);
  }
  std::sort(o.begin(), o.end());
  return o;
}
static void wipe(const std::string& d) {
  for (auto& f : filesIn(d)) unlink((d + "/" + f).c_str());
}
struct Rec {    // what a published state looks like in the logs
  double t;
  Vector3d p, v, vb;
  Matrix3d R;
};
static Rec rec(const Snap& s) {
  Rec r;
  r.t = s.t;
  r.R = s.X.block<3, 3>(0, 0);
  r.v = s.X.block<3, 1>(0, 3);
  r.p = s.X.block<3, 1>(0, 4);
  r.vb = r.R.transpose() * r.v;
  return r;
}
static std::vector<Rec> select(const std::vector<Rec>& all, double rate) {
  std::vector<Rec> o;
  double last = 0;
  for (auto& r : all)
    if (r.t - last >= 1.0 / rate) {
      o.push_back(r);
      last = r.t;
    }
  return o;
}
// Could rounding decide whether some state is due?
static bool borderline(const std::vector<Rec>& all, double rate) {
  double last = 0;
  for (auto& r : all) {
    double d = r.t - last - 1.0 / rate;
    if (std::fabs(d) < 1e-6) return true;
    if (d > 0) last = r.t;
  }
  return false;
}
static bool readTable(const std::string& f, size_t cols, std::vector<std::vector<double>>* out, std::string* why) {
  std::ifstream in(f);
  if (!in) {
    *why = "cannot be read";
    return false;
  }
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    std::string w;
    std::vector<double> v;
    while (ls >> w) {
      char* e = nullptr;
      double x = strtod(w.c_str(), &e);
      if (*e) {
        *why = "line " + std::to_string(out->size() + 1) + " has '" + w + "'";
        return false;
      }
      v.push_back(x);
    }
    if (v.size() != cols) {
      *why = fmt("line %d has %d values instead of %d", int(out->size()) + 1, int(v.size()), int(cols));
      return false;
    }
    out->push_back(v);
  }
  return true;
}
// whole: the file must hold every expected record, otherwise a prefix of them
static void checkLog(const std::string& file, char kind, const std::vector<Rec>& want, bool whole, const std::string& ctx) {
  std::vector<std::vector<double>> t;
  std::string why;
  const char* name = kind == 'p' ? "pose" : kind == 'v' ? "world velocity" : "body velocity";
  if (!readTable(file, kind == 'p' ? 8 : 4, &t, &why)) {
    rep().viol(std::string("format:") + name, ctx + ": " + name + " log: " + why);
    return;
  }
  if (whole ? t.size() != want.size() : t.size() > want.size()) {
    rep().viol(std::string("records:") + name, fmt("%s: the %s log holds %d records, %d expected", ctx.c_str(), name, int(t.size()), int(want.size())));
    return;
  }
  for (size_t i = 0; i < t.size(); i++) {
    auto& r = want[i];
    auto& x = t[i];
    if (x[0] != r.t) {
      rep().viol(std::string("records:") + name, fmt("%s: record %d of the %s log is of time %.17g, expected %.17g", ctx.c_str(), int(i), name, x[0], r.t));
      return;
    }
    Vector3d a(x[1], x[2], x[3]);
    const Vector3d& b = kind == 'p' ? r.p : kind == 'v' ? r.v : r.vb;
    double tol = kind == 'b' ? 1e-14 * r.v.norm() : 0;
    if (!((a - b).cwiseAbs().maxCoeff() <= tol)) {
      rep().viol(std::string("value:") + name, fmt("%s: record %d of the %s log reads %s, logged state has %s", ctx.c_str(), int(i), name, mstr(a.transpose(), 17).c_str(), mstr(b.transpose(), 17).c_str()));
      return;
    }
    if (kind == 'p') {
      Eigen::Quaterniond q(x[7], x[4], x[5], x[6]);
      double d = (q.toRotationMatrix() - r.R).cwiseAbs().maxCoeff();
      rep().maxi("orientation deviation", d);
      if (!(d <= 1e-8)) {
        rep().viol("value:orientation", fmt("%s: record %d of the pose log has orientation (x y z w) %.9g %.9g %.9g %.9g, off by %.3g", ctx.c_str(), int(i), x[4], x[5], x[6], x[7], d));
        return;
      }
    }
  }
  rep().count(std::string("records ") + name, long(t.size()));
}
// A device that takes nothing for a while: the pose log is a pipe that is first
// read when the workload is over, so the logger falls as far behind as it can.
struct SlowDevice {
  std::string file, text;
  int fd = -1;
  std::atomic<bool> go{false}, end{false};
  std::thread reader;
  explicit SlowDevice(const std::string& f) : file(f) {
    if (mkfifo(f.c_str(), 0600) != 0 || (fd = open(f.c_str(), O_RDWR | O_NONBLOCK)) < 0) return;
    fcntl(fd, F_SETPIPE_SZ, 4096);
    reader = std::thread([this] {
      auto until = std::chrono::steady_clock::now() + std::chrono::seconds(20);    // should the workload need the device
      while (!go && std::chrono::steady_clock::now() < until) std::this_thread::sleep_for(std::chrono::milliseconds(1));
      char b[4096];
      for (;;) {
        bool last = end;
        ssize_t n = read(fd, b, sizeof b);
        if (n > 0) text.append(b, size_t(n));
        else if (last) break;
        else std::this_thread::sleep_for(std::chrono::microseconds(200));
      }
    });
  }
  bool ok() const { return fd >= 0; }
  void finish() {    // leave what arrived in an ordinary file
    if (!reader.joinable()) return;
    go = end = true;
    reader.join();
    close(fd);
    unlink(file.c_str());
    std::ofstream(file) << text;
  }
  ~SlowDevice() { finish(); }
};
static void S06(Rng& g, long) {
  int legs = 4;
  char cwd[4096];
  if (!getcwd(cwd, sizeof cwd)) return;
  if (rep().work[0] != '/') rep().work = std::string(cwd) + "/" + rep().work;
  std::string work = rep().work;
  std::string dir = work + "/log.v2_" + std::to_string(getpid());    // dots in directories are no extensions
  mkdir(dir.c_str(), 0755);
  wipe(dir);
  Cfg c = scriptCfg(g, g.range(0, 1), g.range(0, 1));
  c.log = !g.chance(0.12);
  static const std::vector<std::string> ext = {"", ".txt", ".csv", ".log"};
  std::string sub = dir + (g.chance(0.5) ? "/" : "/run-2_");
  c.pose_log = sub + "pose" + g.pick(ext);
  c.vel_log = sub + "vel" + g.pick(ext);
  c.log_rate = g.pick(std::vector<double>{1000, 333.7, 100.3, 31.7, 9.7, 3.3, 1.7, 0.6});
  std::string pbase = sub + "pose", vbase = sub + "vel";
  if (!c.log) {
    // with the logger disabled its other settings are not looked at
  } else {
    if (g.chance(0.15)) c.omit.insert("pose_log_file"), pbase = dir + "/inekf_pose";
    if (g.chance(0.15)) c.omit.insert("vel_log_file"), vbase = dir + "/inekf_vel";
    if (g.chance(0.15)) c.omit.insert("pose_log_rate"), c.log_rate = 10;
  }
  struct Back {
    const char* d;
    ~Back() {
      int r = chdir(d);
      (void)r;
    }
  } back{cwd};
  if (chdir(dir.c_str()) != 0) return;    // default names are relative
  bool slow = c.log && g.chance(0.08);
  int sessions = slow || g.chance(0.5) ? 1 : g.range(2, 4);
  std::unique_ptr<SlowDevice> dev;
  if (slow) {
    if (!c.omit.count("pose_log_rate")) c.log_rate = g.pick(std::vector<double>{1000, 333.7});
    dev.reset(new SlowDevice(pbase + ".txt"));
    if (!dev->ok()) return;
    rep().count("runs with a slow device");
  }
  struct Session {
    std::vector<Rec> pub;
    std::string p, v, b;
    bool whole = true;
  };
  std::vector<Session> ses(sessions);
  std::set<std::string> seen;
  // Logs of an earlier run may be there already
  static const std::string junk = "1 2 3 4 5 6 7 8\n9 10 11 12 13 14 15 16\n";
  bool stale = c.log && !slow && g.chance(0.25);
  if (stale) {
    rep().count("runs over the logs of an earlier run");
    for (auto& b : {pbase, vbase, vbase + "_body_frame"})
      for (int n = 0; n < 10; n++) std::ofstream(b + (n ? "_" + std::to_string(n) : "") + ".txt") << junk;
  }
  auto untouched = [&](const std::string& f) {
    if (!stale) return false;
    std::ifstream in(dir + "/" + f);
    std::stringstream s;
    s << in.rdbuf();
    return s.str() == junk;
  };
  auto newFiles = [&](Session& s, int k) {
    int extra = 0;
    for (auto& f : filesIn(dir)) {
      if (untouched(f)) continue;
      if (!seen.insert(f).second || f.find(".yaml") != std::string::npos) continue;
      std::string full = dir + "/" + f;
      std::string* slot = full.compare(0, pbase.size(), pbase) == 0 ? &s.p : full.compare(0, vbase.size(), vbase) == 0 ? (f.find("body_frame") != std::string::npos ? &s.b : &s.v) : nullptr;
      if (!slot || !slot->empty()) extra++;
      else *slot = full;
    }
    if (c.log && (extra || s.p.empty() || s.v.empty() || s.b.empty())) {
      std::string all;
      for (auto& f : filesIn(dir)) all += f + " ";
      rep().viol("files", fmt("session %d did not open one pose, one velocity and one body velocity log: %s", k, all.c_str()));
      return false;
    }
    if (c.log && k == 0 && (s.p != pbase + ".txt" || s.v != vbase + ".txt" || s.b != vbase + "_body_frame.txt")) {
      rep().viol("files", "log files are not named as configured: " + s.p + " " + s.v + " " + s.b);
      return false;
    }
    return true;
  };
  bool edit = g.chance(0.5);    // the consumer changes the states it has taken
  double t0 = g.chance(0.3) ? 1.6e9 + g.range(0, 1000) : g.range(0, 100);
  bool ok = true;
  {
    Rig k(c);
    auto q = k.est->get_robot_state_queue_ptr();
    auto qm = k.est->get_robot_state_queue_mutex_ptr();
    for (int n = 0; n < sessions && ok; n++) {
      rep().phase(fmt("session %d", n));
      ok = newFiles(ses[n], n);
      if (!ok) break;
      start(k, genStart(g, c, t0, legs));
      k.drainPublished();
      Script sc = genScript(g, c, t0, slow ? 2500 : g.chance(0.1) ? 0 : g.chance(0.2) ? 800 : 80, legs);
      double tmax = t0;
      for (auto& e : sc) {
        if (e.k != 's') {
          feed(k, e);
          if (e.im) tmax = std::max(tmax, e.im->get_time());
          continue;
        }
        k.est->RunOnce();
        std::lock_guard<std::mutex> l(*qm);
        while (!q->empty()) {
          auto st = q->front();
          q->pop();
          ses[n].pub.push_back(rec(snap(*st)));
          if (edit) {
            st->set_position(Vector3d(-7e7, -7e7, -7e7));
            st->set_velocity(Vector3d(-7e7, -7e7, -7e7));
            st->set_time(-1);
            rep().count("states edited by the consumer");
          }
        }
      }
      t0 = g.chance(0.5) ? std::round(tmax) + 2 : g.range(1, 100);    // clocks may restart
      if (n + 1 < sessions) {
        if (g.chance(0.5) && c.log && !borderline(ses[n].pub, c.log_rate)) {
          // wait until the logger has caught up, then everything must be there
          size_t want = select(ses[n].pub, c.log_rate).size();
          static int late = 0;    // entries are missing: do not wait as long again
          auto until = std::chrono::steady_clock::now() + std::chrono::seconds(late < 2 ? 30 : 1);
          while (std::chrono::steady_clock::now() < until) {
            std::ifstream in(ses[n].b);
            size_t lines = 0;
            std::string line;
            while (std::getline(in, line)) lines++;
            if (lines >= want) break;
            std::this_thread::yield();
          }
          if (std::chrono::steady_clock::now() >= until) late++;
        } else {
          ses[n].whole = false;
        }
        k.est->clear();
        rep().count("resets");
      }
    }
    rep().phase("destruction");
    if (dev) dev->go = true;
  }
  if (dev) dev->finish();
  if (!ok) return;
  if (!c.log) {
    for (auto& f : filesIn(dir)) rep().viol("log_although_disabled", "a file was written although the logger is disabled: " + f);
    rep().count("runs with the logger disabled");
    wipe(dir);
    return;
  }
  rep().phase("reading the logs");
  std::string why;
  for (int n = 0; n < sessions; n++) {
    if (borderline(ses[n].pub, c.log_rate)) {
      rep().count("sessions skipped: due time within rounding");
      continue;
    }
    auto want = select(ses[n].pub, c.log_rate);
    std::string ctx = fmt("session %d of %d, %d states published, rate %g", n, sessions, int(ses[n].pub.size()), c.log_rate);
    checkLog(ses[n].p, 'p', want, ses[n].whole, ctx);
    checkLog(ses[n].v, 'v', want, ses[n].whole, ctx);
    checkLog(ses[n].b, 'b', want, ses[n].whole, ctx);
    Hash h;
    for (auto& r : want) h.d(r.t).m(r.p).m(r.v);
    rep().eval(h.h, !want.empty());
    rep().count(ses[n].whole ? "sessions compared completely" : "sessions reset while logging");
    rep().count("states published", long(ses[n].pub.size()));
    rep().count("states selected", long(want.size()));
    if (rep().want_sample()) rep().sample(ctx + fmt(", %d selected", int(want.size())));
  }
  // nothing else was written
  for (auto& f : filesIn(dir))
    if (!seen.count(f) && !untouched(f)) rep().viol("files", "an unexpected file was written: " + f);
  wipe(dir);
}
int main(int argc, char** argv) { return run_main(argc, argv, {{"S06", S06}}); }
