// Random workloads for the estimator, replayable on any number of instances.
#pragma once
#include <deque>
#include "engine.hpp"

namespace rig {
// ------------------------------------------------------------------- scripts
struct Ev {
  char k;    // 'i' imu, 'v' velocity, 'l' legged, 's' step
  int src = 0;
  ImuMeasurementPtr im;
  VelocityMeasurementPtr v;
  FakeLegPtr l;
};
typedef std::vector<Ev> Script;
inline FakeLegPtr clone(const FakeLegPtr& l) {
  auto o = std::make_shared<FakeLeg>(l->n);
  o->set_time(l->get_time());
  for (int i = 0; i < l->n; i++) {
    o->pos.col(i) = l->pos.col(i);
    for (int j = 0; j < 3; j++) o->jac.col(3 * i + j) = l->jac.col(3 * i + j);
  }
  unsigned m = 0;
  for (int i = 0; i < l->n; i++) m |= unsigned(l->get_contact(i)) << i;
  o->contacts(m);
  o->v0 = l->v0;
  o->vw = l->vw;
  return o;
}
inline ImuMeasurementPtr clone(const ImuMeasurementPtr& m) { return std::make_shared<ImuMeasurement<double>>(*m); }
inline VelocityMeasurementPtr clone(const VelocityMeasurementPtr& m) { return std::make_shared<VelocityMeasurement<double>>(*m); }

// Thresholds off the time grid of the scripts, so that no measurement ever sits
// on a boundary of the acceptance window.
inline double offGrid(double t) { return std::round(t * 1000) * 1e-3 + 0.11e-3; }
inline Cfg scriptCfg(Rng& g, int nv, int nl) {
  Cfg c = randCfg(g, nv, nl);
  // calm noise ratios: the runs are long
  c.gyro = g.logu(1e-3, 0.1);
  c.acc = g.logu(1e-2, 0.5);
  c.gb = g.logu(1e-4, 0.03);
  c.ab = g.logu(1e-4, 0.1);
  for (auto& v : c.v) v.thr = g.chance(0.05) ? 0 : offGrid(g.chance(0.3) ? 0.3 : g.logu(0.01, 0.5)), v.std = g.logu(0.05, 1), v.scale = g.uni(0.5, 2);
  for (auto& l : c.l) l.thr = g.chance(0.05) ? 0 : offGrid(g.chance(0.3) ? 0.3 : g.logu(0.01, 0.5)), l.enc = g.logu(1e-3, 0.1), l.add = g.logu(0.02, 0.3), l.contact = g.logu(0.05, 1);
  return c;
}
// Readings that are special: a robot at rest, a dead axis, a huge value
inline Vector3d reading(Rng& g, double s) {
  double u = g.uni();
  if (u < 0.08) return Vector3d::Zero();
  Vector3d v = g.gvec(s);
  if (u < 0.14) v[g.below(3)] = 0;
  if (u < 0.16) v *= 1e-7;
  return v;
}
struct Start {
  ImuMeasurementPtr im;
  std::vector<VelocityMeasurementPtr> v;
  std::vector<FakeLegPtr> l;
};
inline Start genStart(Rng& g, const Cfg& c, double t0, int legs) {
  Start s;
  s.im = imu(t0, g.gvec(0.3), Vector3d(0, 0, 9.8) + g.gvec(0.1), g.quat());
  for (size_t i = 0; i < c.v.size(); i++) s.v.push_back(vel(t0 + g.range(-20, 5) * 1e-3 + 0.37e-3, reading(g, 1)));
  for (size_t i = 0; i < c.l.size(); i++) {
    auto l = randLegMeas(g, legs, g.below(1 << legs), t0 + g.range(-20, 5) * 1e-3 + 0.37e-3);
    l->v0 = g.gvec(1);
    l->vw << 0, 1, 0.5, -0.3, 0, 0.2, 0.1, 0.7, 0;
    s.l.push_back(l);
  }
  return s;
}
inline void start(Rig& k, const Start& s) {
  auto m = clone(s.im);
  k.push(m);
  for (size_t i = 0; i < s.v.size(); i++) k.push(int(i), clone(s.v[i]));
  for (size_t i = 0; i < s.l.size(); i++) k.push(int(i), LeggedKinMeasurementPtr(clone(s.l[i])));
  for (int i = 0; i < 1000 && !k.est->BiasInitialized(); i++) k.est->InitBias();
  k.est->InitState();
  k.prev = m;
  k.tr.clear();
}
// Mostly short histories, rarely long ones.
inline int rounds(Rng& g, int n, double p = 0.015, double most = 1500) {
  if (!g.chance(p)) return n;
  rep().count("long histories");
  return int(g.logu(150, most));
}
// Arrival patterns: bursts, late, outdated and early measurements, drop-outs.
inline Script genScript(Rng& g, const Cfg& c, double t0, int rounds, int legs, bool gentle = false) {
  Script s;
  double tp = t0, prev = t0, ti = t0;
  std::deque<double> q;
  std::vector<unsigned> mask(c.l.size(), 0);
  int dtmax = g.pick(std::vector<int>{2, 5, 20});
  double pi = g.uni(0.4, 1), pv = g.uni(0.1, 0.9), pl = g.uni(0.1, 0.9);
  auto grid = [](double t) { return std::round(t * 1000) * 1e-3; };
  for (int r = 0; r < rounds; r++) {
    if (g.chance(0.03)) pi = g.uni(0.1, 1), pv = g.uni(0, 0.9), pl = g.uni(0, 0.9);
    // the estimator has fallen far behind
    bool flood = g.chance(0.1 / rounds), vflood = g.chance(0.1 / rounds);
    int ni = flood ? int(g.logu(20, 1500)) : g.chance(pi) ? (g.chance(0.1) ? g.range(2, 6) : 1) : 0;
    for (int i = 0; i < ni; i++) {
      ti = grid(ti + (g.chance(0.02) ? 0 : g.chance(0.02) ? g.range(100, 700) : g.range(1, dtmax)) * 1e-3);
      Ev e{'i'};
      e.im = imu(ti, reading(g, 0.5), Vector3d(0, 0, 9.8) + reading(g, 0.5), g.quat());
      s.push_back(e);
      q.push_back(ti);
    }
    for (size_t i = 0; i < c.v.size(); i++) {
      int n = vflood ? int(g.logu(5, 300)) : g.chance(pv) ? (g.chance(0.15) ? g.range(2, 5) : 1) : 0;
      for (int j = 0; j < n; j++) {
        double u = g.uni(), off = u < 0.5 ? -g.uni(0, 0.95) * c.v[i].thr : u < 0.75 ? -c.v[i].thr * g.uni(1.05, 3) : g.uni(0, 0.2);
        Ev e{'v', int(i)};
        e.v = vel(grid(tp + off) + 0.37e-3, reading(g, 1));
        s.push_back(e);
      }
    }
    for (size_t i = 0; i < c.l.size(); i++) {
      int n = vflood ? int(g.logu(5, 200)) : g.chance(pl) ? (g.chance(0.15) ? g.range(2, 5) : 1) : 0;
      for (int j = 0; j < n; j++) {
        double u = g.uni(), off = u < 0.5 ? -g.uni(0, 0.9) * c.l[i].thr : u < 0.75 ? -c.l[i].thr * g.uni(1.1, 3) : g.uni(0, 0.8) * c.l[i].thr;
        if (off > 0) off = std::min(off, std::max(0.0, c.l[i].thr - 1.2e-3));
        for (int b = 0; b < legs; b++)
          if (g.chance(0.15)) mask[i] ^= 1u << b;
        Ev e{'l', int(i)};
        e.l = randLegMeas(g, legs, mask[i], grid(tp + off) + 0.37e-3, 0.1);
        for (int b = 0; b < legs; b++) e.l->pos.col(b) = Vector3d(b & 1 ? 0.2 : -0.2, b & 2 ? 0.15 : -0.15, -0.3) + g.gvec(0.02);
        s.push_back(e);
      }
    }
    if (!gentle) {    // arrival order between the sources is arbitrary
      size_t b = s.size();
      while (b > 0 && s[b - 1].k != 's') b--;
      for (size_t i = s.size(); i > b + 1; i--) {
        size_t a = b + g.below(int(i - b));
        if (s[a].k != s[i - 1].k || s[a].src != s[i - 1].src) {
          // only swap neighbours of different streams: order within a stream stays
          bool between = false;
          for (size_t x = a + 1; x < i - 1; x++) between = between || (s[x].k == s[a].k && s[x].src == s[a].src) || (s[x].k == s[i - 1].k && s[x].src == s[i - 1].src);
          if (!between) std::swap(s[a], s[i - 1]);
        }
      }
    }
    int ns = g.chance(0.1) ? 0 : g.chance(0.15) ? g.range(2, 4) : 1;
    for (int j = 0; j < ns; j++) {
      s.push_back(Ev{'s'});
      if (!q.empty()) {
        tp = prev;
        prev = q.front();
        q.pop_front();
      }
    }
  }
  return s;
}
inline void feed(Rig& k, const Ev& e) {
  if (e.k == 'i') k.push(clone(e.im));
  if (e.k == 'v') k.push(e.src, clone(e.v));
  if (e.k == 'l') k.push(e.src, LeggedKinMeasurementPtr(clone(e.l)));
}
inline void randT(Rng& g, double& t0) { t0 = g.chance(0.3) ? 1.6e9 + g.range(0, 1000) : g.range(0, 100); }
}    // namespace rig
