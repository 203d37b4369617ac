// F01..F09: the filter mathematics, monitored step by step.
#include "engine.hpp"
using namespace rig;

static void report(const std::string& key, const Step& s, const Rig& k, const std::string& extra = "") {
  rep().viol(key, fmt("step '%s' %s, bias estimation %s, %d contacts: %s %s", s.kinds.c_str(), k.c.right() ? "right" : "left",
                      k.c.bias ? "on" : "off", int(k.tr.size()), s.d.str().c_str(), extra.c_str()));
}
static void note(const Step& s) {
  rep().count("steps " + (s.kinds.empty() ? std::string("idle") : s.kinds));
  if (s.churn) rep().count("contact changes");
}

// Mostly short cases; now and then one estimator lives through thousands of steps
static int rounds(Rng& g, int n) {
  if (!g.chance(0.02)) return n;
  rep().count("long runs");
  return int(g.logu(500, 3000));
}
// Mostly a quadruped; now and then up to a dozen legs
static int legCount(Rng& g, int lo, int hi, double plain) { return g.chance(plain) ? 4 : g.chance(0.75) ? g.range(lo, hi) : g.range(hi + 1, 12); }
static unsigned legMask(Rng& g, int legs) { return unsigned(g.next()) & ((1u << legs) - 1); }

// ------------------------------------------------------------------ F01 / F02
static void propagation(Rng& g, bool cov) {
  Cfg c = randCfg(g, 0, 1);
  Rig k(c);
  double t = g.chance(0.3) ? g.uni(0, 10) : 1.6e9 + g.uni(0, 1e3);
  rep().phase("init");
  int legs = legCount(g, 1, 6, 0.75);
  begin(k, g, t, legs);
  t = k.now().tp;
  StateScale sc;
  sc.col = farCol(g, 100);
  sc.smin = 1e-4;
  sc.smax = 30;
  // some contacts to carry along
  unsigned mask = legMask(g, legs);
  rep().phase("touchdown");
  if (mask) {
    touchDown(k, g, 0, mask, legs, t);
    runStep(k);
  }
  bool chain = g.chance(0.4);
  double speed = g.logu(1e-3, 1);
  // Now and then a steady stream with little jitter
  double beat = g.chance(0.3) ? g.logu(1e-3, 0.1) : 0, jitter = g.logu(1e-4, 0.3);
  for (int i = 0, n = rounds(g, 25); i < n; i++) {
    if (!chain || i % 25 == 0) k.put(randState(g, k.now(), k.c, sc, k.now().tp));
    double dt = beat > 0 && !g.chance(0.003) ? beat * (1 + jitter * g.uni(-1, 1)) : randDt(g);
    t = k.prev->get_time() + dt;
    Vector3d w = randRate(g), a = randAcc(g);
    if (chain) w *= speed, a = Vector3d(0, 0, 9.8) + (a - Vector3d(0, 0, 9.8)) * speed;
    // angles around the small-angle switch of the transition matrix
    if (!chain && dt > 1e-4 && g.chance(0.2)) {
      double ang = g.pick(std::vector<double>{0.5, 1e-10, 1e-5, 1e-8, 1e-3}) * (1 + 1e-3 * g.gauss());
      w = ang / dt * g.dir();
    }
    if (g.chance(0.5)) {    // the sample is applied one step later
      k.push(imu(t, w, a, g.quat()));
    } else {
      k.push(imu(t, w, a));
    }
    rep().phase("propagate");
    Step s = runStep(k);
    note(s);
    if (!cov) {
      rep().maxi("deviation mean", s.d.mean());
      if (s.d.mean() > 1 || s.d.bottom > 0) report("mean", s, k, "pre X=" + mstr(s.pre.X) + " got " + mstr(s.post.X, 17) + " want " + mstr(ref::dbl(s.r->X), 17));
      if (!bits(s.pre.Th, s.post.Th)) report("bias_changed", s, k);
      for (int q = 5; q < s.pre.X.cols() && q < s.post.X.cols(); q++)
        if (!bits(s.pre.X.col(q), s.post.X.col(q))) report("contact_moved", s, k);
      if (s.post.t != s.prev_pre->get_time() || s.post.tp != s.prev_pre->get_time())
        report("time", s, k, fmt("state time %.17g, propagation time %.17g, sample %.17g", s.post.t, s.post.tp, s.prev_pre->get_time()));
      if (!bits(s.pre.Qc, s.post.Qc)) report("noise_changed", s, k);
      if (s.post.bias != s.pre.bias || !bits(s.pre.w, s.post.w)) report("bookkeeping", s, k);
    } else {
      rep().maxi("deviation P", s.d.P);
      if (s.d.P > 1) {
        std::string where;
        for (int x = 0; x < s.post.P.rows() && where.empty(); x++)
          for (int y = 0; y < s.post.P.rows(); y++) {
            double e = std::fabs(double(s.r->P(x, y)) - s.post.P(x, y));
            if (e > double(s.r->eP(x, y)) && (k.c.bias || (x < s.r->dx() && y < s.r->dx()))) {
              where = fmt("first at (%d,%d): got %.12g want %.12g allowance %.3g", x, y, s.post.P(x, y), double(s.r->P(x, y)), double(s.r->eP(x, y)));
              break;
            }
          }
        report("covariance", s, k, where + " w=" + mstr(s.prev_pre->get_angular_velocity()) + fmt(" dt=%.9g", s.prev_pre->get_time() - s.pre.tp));
      }
      double th = (s.prev_pre->get_angular_velocity().norm()) * (s.prev_pre->get_time() - s.pre.tp);
      rep().count(th < 1e-6 ? "angle per step <1e-6" : th < 1e-2 ? "angle per step <1e-2" : th < 0.5 ? "angle per step <0.5" : "angle per step >=0.5");
    }
    rep().eval(digest(s.post), s.kinds == "i");
    if (rep().want_sample() && i == 5) rep().sample(fmt("dt=%.6g w=%s a=%s contacts=%d", dt, mstr(w).c_str(), mstr(a).c_str(), int(k.tr.size())));
    if (!inSync(k, s)) return;
    if (!cov && g.chance(0.15)) {
      rep().phase("idle");
      Snap a0 = k.now();
      k.est->RunOnce();
      std::string what;
      if (!same(a0, k.now(), &what)) rep().viol("idle", "a step without a new sample changed the " + what);
      rep().count("steps idle");
    }
    if (chain && k.now().X.cwiseAbs().maxCoeff() > 1e6) chain = false;
  }
}
static void F01(Rng& g, long) { propagation(g, false); }
static void F02(Rng& g, long) { propagation(g, true); }

// ------------------------------------------------------------------------ F05
static MatrixXd toRight(const Snap& s, const Cfg& c) {
  if (c.right()) return s.P;
  return ref::dbl(sandwich(blkI(ref::Ad(ref::lm(s.X)), 6), ref::lm(s.P)));
}
static void F05(Rng& g, long) {
  Cfg c = randCfg(g, g.range(1, 2), 1);
  for (auto& v : c.v) v.std = g.logu(1e-3, 30);
  Rig k(c);
  double t = g.uni(0, 100);
  rep().phase("init");
  int legs = legCount(g, 1, 6, 0.75);
  begin(k, g, t, legs);
  unsigned mask = legMask(g, legs);
  if (mask) {
    touchDown(k, g, 0, mask, legs, t);
    runStep(k);
  }
  for (int i = 0, n = rounds(g, 25); i < n; i++) {
    StateScale sc;
    sc.col = farCol(g, 100);
    sc.smin = 1e-4;
    sc.smax = 100;
    bool keep = g.chance(0.2);
    if (!keep) k.put(randState(g, k.now(), k.c, sc, k.now().tp));
    Snap pre = k.now();
    int src = g.below(int(k.c.v.size()));
    const VelCfg& vc_ = k.c.v[src];
    Matrix3d R = pre.X.block<3, 3>(0, 0);
    Vector3d truth = vc_.q.normalized().toRotationMatrix().transpose() * (R.transpose() * pre.X.block<3, 1>(0, 3)) / vc_.scale;
    bool consistent = g.chance(0.15);
    Vector3d m = consistent ? truth : g.chance(0.5) ? Vector3d(truth + g.gvec(g.logu(1e-4, 10))) : g.gvec(g.logu(1e-2, 20));
    k.push(src, vel(pre.tp - vc_.thr * g.uni(0.05, 0.9), m));
    rep().phase("velocity");
    Step s = runStep(k);
    note(s);
    rep().maxi("deviation mean", s.d.mean());
    rep().maxi("deviation P", s.d.P);
    rep().maxi("deviation bias", s.d.Th);
    if (s.d.all() > 1) report("update", s, k);
    if (!inSync(k, s)) return;
    if (consistent) {
      rep().count("consistent measurements");
      double e = 0;
      for (int q = 0; q < pre.X.cols(); q++) e = std::max(e, (pre.X.col(q) - s.post.X.col(q)).norm() / (1e-7 * (1 + pre.X.block(0, 3, 3, pre.X.cols() - 3).norm())));
      if (e > 1 || (s.post.Th - pre.Th).norm() > 1e-7 * (1 + pre.Th.norm())) report("consistent_moves_mean", s, k);
    }
    // Uncertainty of pose, velocity and contacts never grows
    int dx = int(s.r->dx());
    MatrixXd A = toRight(s.pre, k.c).topLeftCorner(dx, dx), B = toRight(s.post, k.c).topLeftCorner(dx, dx);
    LM ea = s.r->eP + 1e-14L * s.r->P.abs(), eb = 1e-14L * ref::lm(s.pre.P).abs();
    if (!k.c.right()) {
      ea = sandwich(blkI(ref::Ad(s.r->X).abs(), 6), ea);
      eb = sandwich(blkI(ref::Ad(ref::lm(s.pre.X)).abs(), 6), eb);
    }
    // Judged on the coordinates whose variance stands clear of rounding: a
    // principal block of a reduction is a reduction.
    std::vector<int> ok;
    for (int x = 0; x < dx; x++)
      if (A(x, x) > 1e3 * double(ea(x, x) + eb(x, x)) && A(x, x) > 0) ok.push_back(x);
    rep().count("coordinates judged", long(ok.size()));
    rep().count("coordinates lost in rounding", dx - long(ok.size()));
    int no = int(ok.size());
    MatrixXd D(no, no);
    double tol = 1e-6;
    for (int x = 0; x < no; x++)
      for (int y = 0; y < no; y++) {
        double sc2 = std::sqrt(A(ok[x], ok[x])) * std::sqrt(A(ok[y], ok[y]));
        D(x, y) = (A(ok[x], ok[y]) - B(ok[x], ok[y])) / sc2;
        tol = std::max(tol, 1e-6 + 50 * no * double(ea(ok[x], ok[y]) + eb(ok[x], ok[y])) / sc2);
      }
    double mn = no ? Eigen::SelfAdjointEigenSolver<MatrixXd>(0.5 * (D + D.transpose()), Eigen::EigenvaluesOnly).eigenvalues()[0] : 0;
    rep().maxi("growth", -mn);
    if (!(mn >= -tol)) report("uncertainty_grew", s, k, fmt("smallest eigenvalue of the reduction %.3g", mn));
    rep().eval(digest(s.post));
    if (rep().want_sample() && i == 3) rep().sample(fmt("velocity %s std %.3g scale %.3g contacts %d", mstr(m).c_str(), vc_.std, vc_.scale, int(k.tr.size())));
  }
}

// ------------------------------------------------------------------------ F06
static void F06(Rng& g, long) {
  int nl = g.chance(0.15) ? 2 : 1, legs = legCount(g, 1, 6, 0.7);
  Cfg c = randCfg(g, 0, nl);
  for (auto& l : c.l) l.add = g.logu(3e-3, 3), l.enc = g.logu(1e-3, 1);
  Rig k(c);
  double t = g.uni(0, 100);
  rep().phase("init");
  begin(k, g, t, legs);
  for (int i = 0, n = rounds(g, 22); i < n; i++) {
    StateScale sc;
    sc.col = farCol(g, 100);
    sc.smin = 1e-3;
    sc.smax = 10;
    if (g.chance(0.8)) k.put(randState(g, k.now(), k.c, sc, k.now().tp));
    int src = g.below(nl);
    unsigned all = (1u << legs) - 1, mask = g.chance(0.4) ? all : g.next() & all;
    if (nl == 2) mask &= g.next() | 1;
    auto m = randLegMeas(g, legs, mask, k.now().tp + k.c.l[src].thr * g.uni(-0.9, 0.9), g.logu(0.03, 1));
    if (g.chance(0.6)) {    // feet near where the filter believes they are
      Snap p = k.now();
      for (size_t q = 0; q < k.tr.size(); q++)
        if (k.order[k.tr[q].first].second == src)
          m->pos.col(k.tr[q].second) = p.X.block<3, 3>(0, 0).transpose() * (p.X.block<3, 1>(0, 5 + int(q)) - p.X.block<3, 1>(0, 4)) + g.gvec(g.logu(1e-4, 0.3));
    }
    k.push(src, LeggedKinMeasurementPtr(m));
    rep().phase("legged");
    Step s = runStep(k);
    note(s);
    rep().maxi("deviation mean", s.d.mean());
    rep().maxi("deviation P", s.d.P);
    rep().maxi("condition of S", double(s.r->worst_cond));
    if (s.d.all() > 1 || s.d.Qc > 1) report(s.churn ? (s.mixed ? "update_and_change" : "contact_change") : "update", s, k);
    LegPlan pl;
    std::string what;
    if (s.post.tp != s.pre.tp) report("propagation_time", s, k);
    rep().count(fmt("contacts tracked %d", int(k.tr.size())));
    rep().eval(digest(s.post));
    if (rep().want_sample() && i == 3) rep().sample(fmt("mask %u contacts %d add %.3g enc %.3g", mask, int(k.tr.size()), k.c.l[src].add, k.c.l[src].enc));
    if (!inSync(k, s)) return;
  }
}

// ------------------------------------------------------------------------ F07
static void F07(Rng& g, long) {
  int legs = legCount(g, 2, 6, 0.8);
  Cfg c = randCfg(g, 1, 1);
  // Kinematic noise far above the state uncertainty: corrections hardly move
  // anything, so that every step can be held against pure bookkeeping.
  c.l[0].add = 1e3;
  c.l[0].enc = 1e-3;
  c.v[0].std = 1e4;
  c.gyro = c.acc = 1e-7;
  c.l[0].contact = g.logu(0.1, 10);
  c.gb = g.logu(20, 100);
  c.ab = g.logu(20, 100);
  Rig k(c);
  double t = g.uni(0, 100);
  rep().phase("init");
  begin(k, g, t, legs);
  unsigned all = (1u << legs) - 1;
  int changes = 0;
  for (int i = 0, last = rounds(g, 40); i < last; i++) {
    StateScale sc;
    sc.col = 3;
    sc.smin = 1e-3;
    sc.smax = 1e-2;
    k.put(randState(g, k.now(), k.c, sc, k.now().tp));
    double u = g.uni();
    if (u < 0.6) {
      // one foot, a few feet, all feet at once
      unsigned cur = 0;
      for (auto& f : k.tr) cur |= 1u << f.second;
      unsigned mask = g.chance(0.3) ? cur ^ (1u << g.below(legs)) : g.chance(0.3) ? (cur ^ (unsigned)g.next()) & all : g.chance(0.15) ? 0 : (unsigned)g.next() & all;
      auto m = randLegMeas(g, legs, mask, k.now().tp + k.c.l[0].thr * g.uni(-0.9, 0.9));
      k.push(0, LeggedKinMeasurementPtr(m));
    } else if (u < 0.85) {
      double dt = g.logu(1e-3, 0.2);
      k.push(imu(k.prev->get_time() + dt, randRate(g) * 0.1, Vector3d(0, 0, 9.8) + g.gvec(1)));
      if (g.chance(0.3)) k.push(0, LeggedKinMeasurementPtr(randLegMeas(g, legs, (unsigned)g.next() & all, k.prev->get_time())));
    } else {
      k.push(0, vel(k.now().tp - k.c.v[0].thr * g.uni(0.05, 0.9), g.gvec(1)));
    }
    rep().phase("contacts");
    Step s = runStep(k, 1e-5);
    note(s);
    changes += s.churn;
    // dimension and set
    int n = 5 + int(k.tr.size());
    if (s.post.X.cols() != n || s.post.X.rows() != n || s.post.P.rows() != 3 * n || s.post.P.cols() != 3 * n || s.post.Qc.rows() != 3 * n || s.post.Qc.cols() != 3 * n || s.post.Th.size() != 6) {
      rep().viol("tracked_set", fmt("%d feet are in contact; X is %dx%d, P %dx%d, noise %dx%d", n - 5, int(s.post.X.rows()), int(s.post.X.cols()),
                                    int(s.post.P.rows()), int(s.post.P.cols()), int(s.post.Qc.rows()), int(s.post.Qc.cols())));
      return;
    }
    if (s.d.bottom > 0) report("bottom_rows", s, k);
    if (s.churn || s.kinds.find('l') != std::string::npos) {
      rep().maxi("deviation mean", s.d.mean());
      rep().maxi("deviation P", s.d.P);
      if (s.d.mean() > 1) report("positions", s, k, "X=" + mstr(s.post.X) + " want " + mstr(ref::dbl(s.r->X)));
      if (s.d.P > 1) report("covariance", s, k);
      if (s.d.Th > 1) report("bias", s, k);
    }
    // process noise of each contact and nothing else
    MatrixXd want = MatrixXd::Zero(3 * n, 3 * n);
    for (int q = 9; q < 3 * n - 6; q++) want(q, q) = k.c.l[0].contact * k.c.l[0].contact;
    for (int x = 0; x < 3 * n; x++)
      for (int y = 0; y < 3 * n; y++) {
        bool contact = x >= 9 && y >= 9 && x < 3 * n - 6 && y < 3 * n - 6, outer = (x >= 9 && x < 3 * n - 6) || (y >= 9 && y < 3 * n - 6);
        if ((contact || outer) && std::fabs(s.post.Qc(x, y) - want(x, y)) > 1e-12 * (1 + std::fabs(want(x, y)))) {
          rep().viol("contact_noise", fmt("process noise entry (%d,%d) of %d contacts is %.9g, expected %.9g", x, y, n - 5, s.post.Qc(x, y), want(x, y)));
          x = y = 1000;
        }
      }
    // in a propagation step the contacts receive their noise and the biases theirs
    if (s.kinds == "i" && !k.tr.empty()) {
      rep().count("propagation with contacts");
      // gyro and accelerometer noise are negligible here; 1% of the contact noise
      double dt = s.post.tp - s.pre.tp, unit = k.c.l[0].contact * k.c.l[0].contact * dt;
      bool bad = false;
      double worst = 0;
      for (int x = 9; x < 3 * n - 6; x++)
        for (int y = 9; y < 3 * n - 6; y++) {
          double e = std::fabs(double(s.r->P(x, y)) - s.post.P(x, y));
          double tol = 0.01 * unit + 1e-4 * std::sqrt(std::fabs(double(s.r->P(x, x) * s.r->P(y, y))));
          worst = std::max(worst, e / tol);
          bad = bad || !(e <= tol);
        }
      if (bad) report("contact_noise_applied", s, k, fmt("deviation %.3g times 1%% of the contact noise", worst));
      if (k.c.bias) {
        int b = 3 * n - 6;
        for (int x = 0; x < 6; x++) {
          if (x == 2) continue;
          double q = (x < 3 ? k.c.gb * k.c.gb : k.c.ab * k.c.ab) * dt, e = std::fabs(s.post.P(b + x, b + x) - s.pre.P(b + x, b + x) - q);
          if (!(e <= 0.01 * q + 1e-9)) {
            report("bias_noise", s, k, fmt("bias %d: variance %.6g -> %.6g, noise %.6g", x, s.pre.P(b + x, b + x), s.post.P(b + x, b + x), q));
            break;
          }
        }
      }
      for (size_t q = 5; q < 5 + k.tr.size(); q++)
        if (!bits(s.pre.X.col(int(q)), s.post.X.col(int(q)))) report("contact_moved", s, k);
    }
    rep().count(fmt("contacts tracked %d", int(k.tr.size())));
    rep().eval(digest(s.post), s.churn || !k.tr.empty());
    if (rep().want_sample() && i == 20) rep().sample(fmt("%d contact changes, %d tracked, legs %d, %s", changes, int(k.tr.size()), legs, k.c.right() ? "right" : "left"));
    if (!inSync(k, s)) return;
  }
}

// ---------------------------------------------------- pairs of filters: F03/F04
struct PairTol {
  LM eX, eP;
};
static LM mapP(const LM& A, const LM& P) { return sandwich(blkI(A, 6), P); }
// compares two states given mapped covariances and allowances
static double pairDev(const LM& Xa, const LM& Xb, const LM& eX, const LM& Pa, const LM& Pb, const LM& eP, bool bias, double* dm, double* dP) {
  double a = 0, b = 0;
  int dx = 3 * Xa.c - 6;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < Xa.c; j++) a = std::max(a, double(std::fabs(Xa(i, j) - Xb(i, j)) / (kSlack * eX(i, j) + 1e-300L)));
  for (int i = 0; i < Pa.r; i++)
    for (int j = 0; j < Pa.c; j++) {
      if (!bias && (i >= dx || j >= dx)) continue;
      b = std::max(b, double(std::fabs(Pa(i, j) - Pb(i, j)) / (kSlack * eP(i, j) + 1e-300L)));
    }
  if (!(a == a)) a = 1e300;
  if (!(b == b)) b = 1e300;
  *dm = a;
  *dP = b;
  return std::max(a, b);
}
// relative comparison for whole runs
static void looseTol(const LM& X, const LM& P, double relx, double relp, LM& eX, LM& eP) {
  eX = LM(X.r, X.c);
  eP = LM(P.r, P.c);
  for (int j = 0; j < X.c; j++)
    for (int i = 0; i < 3; i++) eX(i, j) = relx * (j < 3 ? 1 : 1 + nrm(X.block(0, j, 3, 1)));
  for (int i = 0; i < P.r; i++)
    for (int j = 0; j < P.c; j++) eP(i, j) = relp * std::sqrt(std::fabs(P(i, i) * P(j, j)));
}
// How much a whole run amplifies rounding: a third filter starts a hair away from
// the first one, and what it drifts apart by widens the allowances.
static Snap nudged(Rng& g, Snap s) {
  for (int c = 0; c < s.X.cols(); c++) {
    if (c < 3) continue;
    s.X.block<3, 1>(0, c) += 1e-12 * (1 + s.X.block<3, 1>(0, c).norm()) * g.dir();
  }
  s.X.block<3, 3>(0, 0) = (s.X.block<3, 3>(0, 0) * Eigen::AngleAxisd(1e-12, g.dir()).toRotationMatrix()).eval();
  s.P *= 1 + 1e-12;
  return s;
}
static void widenBy(const Snap& a, const Snap& z, LM& eX, LM& eP) {
  if (a.X.cols() != z.X.cols()) return;
  double dx = 0, scale = 0;
  MatrixXd D = (a.X - z.X).cwiseAbs();
  for (int j = 0; j < D.cols(); j++) {
    double m = D.col(j).maxCoeff(), nj = j < 3 ? 1 : 1 + a.X.block<3, 1>(0, j).norm();
    scale = std::max(scale, m / nj);
    for (int i = 0; i < 3; i++) eX(i, j) += 1e3 * m;
  }
  MatrixXd E = (a.P - z.P).cwiseAbs();
  for (int i = 0; i < E.rows(); i++)
    for (int j = 0; j < E.cols(); j++) {
      double sc = std::sqrt(std::fabs(a.P(i, i) * a.P(j, j)));
      dx = std::max(dx, E(i, j) / (sc + 1e-300));
    }
  for (int i = 0; i < E.rows(); i++)
    for (int j = 0; j < E.cols(); j++) eP(i, j) += 1e3 * (dx < 1 ? dx : 1) * std::sqrt(std::fabs(a.P(i, i) * a.P(j, j)));
  rep().maxi("amplification of whole runs", std::max(scale, dx) / 1e-12);
}
static void pushRandom(Rng& g, Rig& a, Rig& b, Rig* z, int legs, std::string& what, bool gentle) {
  double u = g.uni();
  what = "";
  unsigned all = (1u << legs) - 1;
  if (u < 0.45) {
    double dt = gentle ? g.uni(1e-3, 0.02) : randDt(g);
    Vector3d w = gentle ? g.gvec(0.5) : randRate(g), ac = gentle ? Vector3d(Vector3d(0, 0, 9.8) + g.gvec(1)) : randAcc(g);
    auto m = imu(a.prev->get_time() + dt, w, ac);
    a.push(m);
    b.push(m);
    if (z) z->push(m);
    what += "i";
  }
  if (u >= 0.35 && u < 0.75 && !a.vq.empty()) {
    int s = g.below(int(a.vq.size()));
    double tp = what.empty() ? a.now().tp : a.prev->get_time();
    auto m = vel(tp - a.c.v[s].thr * g.uni(0.05, 0.9), g.gvec(gentle ? 1 : g.logu(0.1, 10)));
    a.push(s, m);
    b.push(s, m);
    if (z) z->push(s, m);
    what += "v";
  }
  if (u >= 0.7 && !a.lq.empty()) {
    unsigned mask = g.chance(0.6) ? all : (unsigned)g.next() & all;
    auto m = randLegMeas(g, legs, mask, a.now().tp + a.c.l[0].thr * g.uni(-0.9, 0.9));
    if (gentle) {
      Snap p = a.now();
      for (size_t q = 0; q < a.tr.size(); q++)
        m->pos.col(a.tr[q].second) = p.X.block<3, 3>(0, 0).transpose() * (p.X.block<3, 1>(0, 5 + int(q)) - p.X.block<3, 1>(0, 4)) + g.gvec(0.02);
    }
    a.push(0, LeggedKinMeasurementPtr(m));
    b.push(0, LeggedKinMeasurementPtr(m));
    if (z) z->push(0, LeggedKinMeasurementPtr(m));
    what += "l";
  }
}
static void F03(Rng& g, long) {
  Cfg c = randCfg(g, g.range(0, 2), 1);
  c.et = RightInvariant;
  Cfg c2 = c;
  c2.et = LeftInvariant;
  Rig a(c), b(c2);
  double t = g.uni(0, 100);
  Rng g2 = g;
  rep().phase("init");
  begin(a, g, t);
  begin(b, g2, t);
  bool chain = g.chance(0.4);
  std::unique_ptr<Rig> z;
  if (chain) {
    z.reset(new Rig(c));
    Rng g3 = g;
    begin(*z, g3, t);
    z->push(a.prev);
    z->est->RunOnce();
  }
  for (int i = 0; i < 20; i++) {
    StateScale sc;
    sc.col = farCol(g, 30);
    sc.smin = 3e-3;
    sc.smax = 3;
    LM inP;
    if (!chain || i == 0) {
      if (chain) sc.col = 1, sc.smin = 0.05, sc.smax = 0.3;
      Snap s = randState(g, a.now(), c, sc, a.now().tp);
      if (chain) s.Th.setZero();
      LM Ai = ref::Ad(ref::ginv(ref::lm(s.X)));
      Snap l = s;
      inP = sandwich(blkI(Ai.abs(), 6), ref::lm(s.P).abs());
      l.P = ref::dbl(mapP(Ai, ref::lm(s.P)));
      l.P = (0.5 * (l.P + l.P.transpose())).eval();
      a.put(s);
      b.put(l);
      if (z) z->put(nudged(g, s));
    }
    std::string what;
    pushRandom(g, a, b, z.get(), 4, what, chain);
    rep().phase("step " + what);
    Step sa = runStep(a), sb;
    {
      // allowance for the conversion of the prior covariance
      RS r0(b.now());
      sb = runStep(b);
      if (z) z->est->RunOnce();
    }
    note(sa);
    if (sa.kinds != sb.kinds || sa.post.X.cols() != sb.post.X.cols() || !inSync(a, sa) || !inSync(b, sb)) {
      rep().viol("structure", "the two filters track different states after the same inputs");
      return;
    }
    LM Xa = ref::lm(sa.post.X), Xb = ref::lm(sb.post.X), A = ref::Ad(Xb);
    LM Pa = ref::lm(sa.post.P), Pb = mapP(A, ref::lm(sb.post.P));
    LM eX, eP;
    double dm, dP, ampTh = 0;
    if (!chain) {
      // both were predicted from their own start with allowances; add the
      // rounding of the converted prior, which acts like a change of the prior
      LM Aa = A.abs();
      eX = sa.r->eX + sb.r->eX;
      eP = sa.r->eP + sandwich(blkI(Aa, 6), sb.r->eP + 1e-13L * ref::lm(sb.post.P).abs());
      // prior rounding seen through the step: bounded by relative 1e-12 of the mapped prior
      LM lx, lp;
      looseTol(Xa, Pa, 1e-9, 1e-9, lx, lp);
      eX = 10.0L * eX + lx;
      eP = 10.0L * eP + lp;
    } else {
      looseTol(Xa, Pa, 1e-5, 1e-4, eX, eP);
      widenBy(sa.post, z->now(), eX, eP);
      ampTh = 1e3 * (sa.post.Th - z->now().Th).cwiseAbs().maxCoeff();
    }
    pairDev(Xa, Xb, eX, Pa, Pb, eP, c.bias, &dm, &dP);
    rep().maxi(chain ? "chain deviation mean" : "deviation mean", dm);
    rep().maxi(chain ? "chain deviation P" : "deviation P", dP);
    std::string m = fmt("step '%s' bias %d contacts %d %s: mean %.3g covariance %.3g allowances apart", sa.kinds.c_str(), int(c.bias), int(a.tr.size()), chain ? "whole run" : "one step", dm, dP);
    if (dm > 1) rep().viol("mean_" + sa.kinds, m);
    if (dP > 1) rep().viol("covariance_" + sa.kinds, m);
    double tb = 1e-7 * (1 + sa.post.Th.norm() + double(sa.r->eTh.maxabs()) * 1e9) + 100 * double(sa.r->eTh.maxabs() + sb.r->eTh.maxabs());
    if (chain) tb = 1e-4 * (1 + sa.post.Th.norm()) + ampTh;
    if (!((sa.post.Th - sb.post.Th).cwiseAbs().maxCoeff() <= tb)) rep().viol("bias_" + sa.kinds, m);
    rep().eval(digest(sa.post), !sa.kinds.empty());
    if (rep().want_sample() && i == 5) rep().sample(m);
    if (dm > 1 || dP > 1) return;
  }
}

static void F04(Rng& g, long) {
  Cfg c = randCfg(g, g.range(0, 2), 1);
  bool chain = g.chance(0.4);
  bool from_init = chain && g.chance(0.5);
  c.use_ori = from_init;
  Rig a(c), b(c);
  std::unique_ptr<Rig> z;
  if (chain) z.reset(new Rig(c));
  double t = g.uni(0, 100), psi = g.chance(0.2) ? M_PI * g.range(-1, 1) : g.uni(-M_PI, M_PI);
  Vector3d tr = from_init ? Vector3d::Zero() : g.gvec(chain ? g.logu(0.1, 10) : farCol(g, 300));
  LM Rz = ref::quatR(std::cos(L(psi) / 2), 0, 0, std::sin(L(psi) / 2));
  auto T = [&](int n) {
    LM M = LM::I(n);
    M.put(0, 0, Rz);
    for (int k = 4; k < n; k++) M.put(0, k, ref::lm(tr));
    return M;
  };
  rep().phase("init");
  if (from_init) {
    Eigen::Quaterniond q = g.quat(), q2 = Eigen::Quaterniond(Eigen::AngleAxisd(psi, Vector3d::UnitZ())) * q;
    auto m1 = imu(t, g.gvec(0.1), Vector3d(0, 0, 9.8), q);
    auto m2 = imu(t, m1->get_angular_velocity(), m1->get_lin_acc(), q2.normalized());
    for (size_t i = 0; i < a.vq.size(); i++) {
      auto m = vel(t - 1e-3, g.gvec(1));
      a.push(int(i), m);
      b.push(int(i), m);
    }
    auto l = std::make_shared<FakeLeg>(4);
    l->set_time(t);
    l->v0 = g.gvec(1);
    a.push(0, LeggedKinMeasurementPtr(l));
    b.push(0, LeggedKinMeasurementPtr(l));
    a.push(m1);
    b.push(m2);
    a.est->InitBias();
    b.est->InitBias();
    a.est->InitState();
    b.est->InitState();
    a.prev = m1;
    b.prev = m2;
    rep().count("runs from initialisation");
  } else {
    Rng g2 = g;
    begin(a, g, t);
    begin(b, g2, t);
  }
  if (z) {
    Snap s = a.now();
    Rng g3 = g;
    begin(*z, g3, t);
    z->push(a.prev);
    z->est->RunOnce();
    z->put(nudged(g3, s));
  }
  for (int i = 0; i < 20; i++) {
    StateScale sc;
    sc.col = farCol(g, 30);
    sc.smin = 3e-3;
    sc.smax = 3;
    if (!from_init && (!chain || i == 0)) {
      if (chain) sc.col = 1, sc.smin = 0.05, sc.smax = 0.3;
      Snap s = randState(g, a.now(), c, sc, a.now().tp), s2 = s;
      if (chain) s.Th.setZero(), s2.Th.setZero();
      LM M = T(int(s.X.cols()));
      s2.X = ref::dbl(M * ref::lm(s.X));
      if (c.right()) {
        s2.P = ref::dbl(mapP(ref::Ad(M), ref::lm(s.P)));
        s2.P = (0.5 * (s2.P + s2.P.transpose())).eval();
      }
      a.put(s);
      b.put(s2);
      if (z) z->put(nudged(g, s));
    }
    std::string what;
    pushRandom(g, a, b, z.get(), 4, what, chain);
    rep().phase("step " + what);
    Step sa = runStep(a), sb = runStep(b);
    if (z) z->est->RunOnce();
    note(sa);
    if (sa.kinds != sb.kinds || sa.post.X.cols() != sb.post.X.cols() || !inSync(a, sa) || !inSync(b, sb)) {
      rep().viol("structure", "the moved filter tracks different states after the same inputs");
      return;
    }
    LM M = T(int(sa.post.X.cols())), A = ref::Ad(M);
    LM Xa = M * ref::lm(sa.post.X), Xb = ref::lm(sb.post.X);
    LM Pa = c.right() ? mapP(A, ref::lm(sa.post.P)) : ref::lm(sa.post.P), Pb = ref::lm(sb.post.P);
    LM eX, eP;
    double dm, dP, ampTh = 0;
    if (!chain) {
      LM lx, lp;
      looseTol(Xa, Pa, 1e-9, 1e-9, lx, lp);
      L ex = sa.r->eX.maxabs();
      eX = 10.0L * (M.abs() * sa.r->eX + sb.r->eX) + lx;
      for (int q = 3; q < eX.c; q++)
        for (int r = 0; r < 3; r++) eX(r, q) += 10 * sa.r->eX.block(0, q, 3, 1).maxabs() + 0 * ex;
      LM Aa = blkI(A.abs(), 6);
      eP = 10.0L * ((c.right() ? sandwich(Aa, sa.r->eP + 1e-13L * ref::lm(sa.post.P).abs()) : sa.r->eP) + sb.r->eP) + lp;
      if (c.right()) {
        // the moved prior was rounded: entries of P as large as |Ad||P||Ad|'
        eP = eP + 1e-11L * sandwich(Aa, ref::lm(sa.pre.P.rows() == sa.post.P.rows() ? sa.pre.P : sa.post.P).abs());
      }
    } else {
      looseTol(Xa, Pa, 1e-5, 1e-4, eX, eP);
      widenBy(sa.post, z->now(), eX, eP);
      ampTh = 1e3 * (sa.post.Th - z->now().Th).cwiseAbs().maxCoeff();
    }
    pairDev(Xa, Xb, eX, Pa, Pb, eP, c.bias, &dm, &dP);
    rep().maxi(chain ? "chain deviation mean" : "deviation mean", dm);
    rep().maxi(chain ? "chain deviation P" : "deviation P", dP);
    std::string m = fmt("step '%s' %s bias %d contacts %d yaw %.3g shift %.3g %s: mean %.3g covariance %.3g allowances apart", sa.kinds.c_str(), c.right() ? "right" : "left",
                        int(c.bias), int(a.tr.size()), psi, tr.norm(), chain ? "whole run" : "one step", dm, dP);
    if (dm > 1) rep().viol("mean_" + sa.kinds, m);
    if (dP > 1) rep().viol("covariance_" + sa.kinds, m);
    double tb = 1e-7 * (1 + sa.post.Th.norm()) + 100 * double(sa.r->eTh.maxabs() + sb.r->eTh.maxabs());
    if (chain) tb = 1e-4 * (1 + sa.post.Th.norm()) + ampTh;
    if (!((sa.post.Th - sb.post.Th).cwiseAbs().maxCoeff() <= tb)) rep().viol("bias_" + sa.kinds, m);
    // body-frame quantities are identical
    Vector3d v1 = sa.post.X.block<3, 3>(0, 0).transpose() * sa.post.X.block<3, 1>(0, 3), v2 = sb.post.X.block<3, 3>(0, 0).transpose() * sb.post.X.block<3, 1>(0, 3);
    double tv = (chain ? 1e-4 : 1e-7) * (1 + v1.norm()) + 200 * double(eX.block(0, 3, 3, 1).maxabs() + eX.block(0, 0, 3, 3).maxabs() * v1.norm());
    if (!((v1 - v2).norm() <= tv)) rep().viol("body_velocity", m);
    rep().eval(digest(sb.post), !sa.kinds.empty());
    if (rep().want_sample() && i == 5) rep().sample(m);
    if (dm > 1 || dP > 1) return;
  }
}

// ------------------------------------------------------------------------ F08
static bool gExtreme = false, gPrecise = false;
static bool checkValid(const Snap& s, const char* where, int contacts, double gen) {
  auto bad = [&](const char* key, const std::string& m) {
    rep().viol(key, std::string(where) + ": " + m);
    return false;
  };
  int n = int(s.X.cols());
  if (s.X.rows() != n || n < 5) return bad("shape", "state matrix is not square");
  if (contacts >= 0 && n != 5 + contacts) return bad("dimension", fmt("%d columns for %d contacts", n, contacts));
  if (s.Th.size() != 6 || s.P.rows() != 3 * n || s.P.cols() != 3 * n) return bad("dimension", fmt("X %d, biases %d, P %dx%d", n, int(s.Th.size()), int(s.P.rows()), int(s.P.cols())));
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      if (!std::isfinite(s.X(i, j))) return bad("finite_mean", "mean is not finite");
      if (i >= 3 && s.X(i, j) != (i == j ? 1.0 : 0.0)) return bad("homogeneous", "bottom rows are not [0 I]");
    }
  for (int i = 0; i < 6; i++)
    if (!std::isfinite(s.Th[i])) return bad("finite_mean", "bias is not finite");
  Matrix3d R = s.X.block<3, 3>(0, 0);
  double orth = (R * R.transpose() - Matrix3d::Identity()).cwiseAbs().maxCoeff();
  rep().maxi("orthogonality error", orth);
  if (!(orth < 1e-9) || !(R.determinant() > 0.5)) return bad("rotation", fmt("R R' differs from identity by %.3g, det %.6g", orth, R.determinant()));
  if (!s.P.allFinite()) return bad("finite_cov", "covariance is not finite");
  double mx = s.P.cwiseAbs().maxCoeff(), asym = 0, corr = 0;
  int ai = 0, aj = 0;
  for (int i = 0; i < s.P.rows(); i++)
    for (int j = 0; j < i; j++) {
      double sc = std::sqrt(std::fabs(s.P(i, i) * s.P(j, j)));
      double as = std::fabs(s.P(i, j) - s.P(j, i)) / (1e-4 * mx + 2e-4 * sc + 1e-300);
      if (as > asym) asym = as, ai = i, aj = j;
      corr = std::max(corr, (std::fabs(s.P(i, j)) - sc * (1 + 1e-5)) / (1e-9 * mx + 1e-300));
    }
  rep().maxi("asymmetry (allowances)", asym);
  rep().maxi("correlation excess (allowances)", corr);
  if (!(asym <= 1)) return bad("symmetric", fmt("covariance is asymmetric (%.3g allowances): P(%d,%d) %.17g P(%d,%d) %.17g, variances %.3g %.3g, largest entry %.3g", asym, ai, aj, s.P(ai, aj), aj, ai, s.P(aj, ai), s.P(ai, ai), s.P(aj, aj), mx) + fmt(" step %g", gen) + (gExtreme ? " extreme" : ""));
  if (!(corr <= 1)) return bad("psd", fmt("a correlation exceeds 1 (%.3g allowances)", corr));
  if (!(s.P.diagonal().minCoeff() >= -1e-11 * mx)) return bad("psd", fmt("negative variance %.3g", s.P.diagonal().minCoeff()));
  double mn = Eigen::SelfAdjointEigenSolver<MatrixXd>(0.5 * (s.P + s.P.transpose()), Eigen::EigenvaluesOnly).eigenvalues()[0];
  rep().maxi("negative eigenvalue / largest entry", -mn / mx);
  if (!(mn >= -1e-11 * mx)) return bad("psd", fmt("eigenvalue %.3g of a covariance with entries up to %.3g", mn, mx));
  double dmin = s.P.diagonal().minCoeff();
  if (gPrecise) {
    double pas = 0, pc = 0;
    for (int i = 0; i < s.P.rows(); i++)
      for (int j = 0; j < i; j++) {
        double sc = std::sqrt(std::fabs(s.P(i, i) * s.P(j, j))) + 1e-300;
        pas = std::max(pas, std::fabs(s.P(i, j) - s.P(j, i)) / sc);
        pc = std::max(pc, std::fabs(s.P(i, j)) / sc - 1);
      }
    rep().maxi("precise: asymmetry / deviations", pas);
    rep().maxi("precise: correlation above 1", pc);
    VectorXd d = s.P.diagonal().cwiseSqrt().cwiseInverse();
    MatrixXd C = d.asDiagonal() * (0.5 * (s.P + s.P.transpose())) * d.asDiagonal();
    double cn = Eigen::SelfAdjointEigenSolver<MatrixXd>(C, Eigen::EigenvaluesOnly).eigenvalues()[0];
    rep().maxi("precise: negative eigenvalue of the correlation matrix", -cn);
    rep().count("states with precise measurements");
    if (!(pas <= 1e-3)) return bad("symmetric", fmt("covariance is asymmetric by %.3g of the standard deviations, largest entry %.3g, precise measurements", pas, mx) + fmt(" step %g", gen));
    if (!(pc <= 1e-4)) return bad("psd", fmt("a correlation exceeds 1 by %.3g, precise measurements", pc));
    if (!(dmin >= 0 && cn >= -1e-5)) return bad("psd", fmt("smallest variance %.3g, eigenvalue %.3g of the correlation matrix, precise measurements", dmin, cn));
  }
  if (mx < 1e3 && dmin > 1e-8 * mx) {
    VectorXd d = s.P.diagonal().cwiseSqrt().cwiseInverse();
    MatrixXd C = d.asDiagonal() * (0.5 * (s.P + s.P.transpose())) * d.asDiagonal();
    double cn = Eigen::SelfAdjointEigenSolver<MatrixXd>(C, Eigen::EigenvaluesOnly).eigenvalues()[0];
    rep().maxi("negative eigenvalue of the correlation matrix", -cn);
    rep().count("correlation matrices");
    if (!(cn >= -1e-8)) return bad("psd", fmt("eigenvalue %.3g of the correlation matrix", cn));
  }
  return true;
}
static void F08(Rng& g, long) {
  int legs = 4;
  Cfg c = randCfg(g, g.range(0, 2), g.range(0, 1));
  bool extreme = g.chance(0.4);
  gExtreme = extreme;
  // Noise settings over all physically meaningful ratios. (With settings ten
  // orders of magnitude apart a covariance update is rounding noise in any
  // double precision filter.)
  c.gyro = g.logu(1e-4, extreme ? 0.3 : 0.1);
  c.acc = g.logu(1e-3, extreme ? 10 : 1);
  c.gb = g.logu(1e-5, 0.03);
  c.ab = g.logu(1e-5, 0.1);
  for (auto& v : c.v) v.std = g.logu(1e-2, extreme ? 30 : 1);
  for (auto& l : c.l) l.enc = g.logu(1e-3, 0.3), l.add = g.logu(1e-2, extreme ? 10 : 1), l.contact = g.logu(1e-2, extreme ? 10 : 1);
  c.use_ori = g.chance(0.5);
  gPrecise = !extreme && !c.v.empty() && g.chance(0.4);
  if (gPrecise) {    // precise measurements of an uncertain start
    c.vel_std = g.logu(10, 3000);
    c.rot_std = g.logu(0.1, 1);
    for (auto& v : c.v) v.std = g.logu(1e-6, 1e-4);
  }
  Rig k(c);
  double t = g.uni(0, 100);
  rep().phase("init");
  begin(k, g, t, legs);
  k.drainPublished();
  if (!checkValid(k.now(), "after initialisation", 0, 0)) return;
  int steps = g.chance(0.1) ? 3000 : 300;
  double imu_dt = g.logu(5e-4, 0.02), wamp = extreme ? g.logu(0.1, 50) : 1, aamp = extreme ? g.logu(1, 500) : 2;
  double vel_rate = g.uni(0.05, 0.9), leg_rate = g.uni(0.05, 0.9);
  if (gPrecise) vel_rate = 0.9;
  unsigned mask = 0;
  Vector3d w0 = g.gvec(wamp), v0 = g.gvec(1);
  long phaseleft = 0;
  for (int i = 0; i < steps; i++) {
    if (phaseleft-- <= 0) {    // manoeuvres, drop-outs, gaps
      phaseleft = g.range(5, 60);
      w0 = g.dir() * std::min(50.0, wamp * std::fabs(g.gauss()));
      if (g.chance(0.2)) vel_rate = g.chance(0.5) ? 0 : g.uni(0.05, 0.9);
      if (g.chance(0.2)) leg_rate = g.chance(0.5) ? 0 : g.uni(0.05, 0.9);
    }
    double dt = g.chance(0.01) ? g.uni(0.1, 2) : g.chance(0.02) ? 0 : imu_dt * g.uni(0.7, 1.3);
    t += dt;
    Vector3d ac = Vector3d(0, 0, 9.8) + g.gvec(1);
    if (extreme && g.chance(0.3)) ac = aamp * g.dir();
    k.push(imu(t, w0 + g.gvec(0.01), ac));
    if (!k.vq.empty() && g.chance(vel_rate)) {
      int s = g.below(int(k.vq.size())), burst = g.chance(0.05) ? 5 : 1;
      for (int q = 0; q < burst; q++) {
        Snap p = k.now();
        Vector3d z = v0 + g.gvec(extreme ? 10 : 0.1);
        if (gPrecise)    // consistent with the estimate to within the stated precision
          z = k.c.v[s].q.toRotationMatrix().transpose() * p.X.block<3, 3>(0, 0).transpose() * p.X.block<3, 1>(0, 3) / k.c.v[s].scale + g.gvec(k.c.v[s].std);
        k.push(s, vel(p.tp - k.c.v[s].thr * g.uni(0.01, 1.2), z));
      }
    }
    if (!k.lq.empty() && g.chance(leg_rate)) {
      if (g.chance(0.2)) mask ^= 1u << g.below(4);
      if (g.chance(0.02)) mask = 0;
      auto m = randLegMeas(g, legs, mask, k.now().tp + k.c.l[0].thr * g.uni(-0.9, 0.9));
      Snap p = k.now();
      if (p.X.cols() == 5 + int(k.tr.size()))
        for (size_t q = 0; q < k.tr.size(); q++)
          m->pos.col(k.tr[q].second) = p.X.block<3, 3>(0, 0).transpose() * (p.X.block<3, 1>(0, 5 + int(q)) - p.X.block<3, 1>(0, 4)) + g.gvec(extreme ? 0.3 : 0.02);
      k.push(0, LeggedKinMeasurementPtr(m));
    }
    rep().phase("step");
    // contact model only (no reference arithmetic in these long runs)
    if (!k.lq.empty()) {
      auto q = items(*k.lq[0]);
      double tp = k.iq->empty() || !k.prev ? k.now().tp : k.prev->get_time();
      Take tk = legTake(q, tp, k.c.l[0].thr);
      if (tk.used >= 0) {
        auto m = std::dynamic_pointer_cast<FakeLeg>(q[tk.used]);
        int src = 0;
        for (size_t o = 0; o < k.order.size(); o++)
          if (k.order[o].first == 'l') src = int(o);
        LegPlan p = legPlan(k.tr, src, *m);
        for (int id : p.gone) k.tr.erase(k.tr.begin() + (footCol(k.tr, src, id) - 5));
        for (int id : p.fresh) k.tr.push_back({src, id});
      }
    }
    k.prev = k.iq->front();
    k.est->RunOnce();
    Snap s = k.now();
    if (!checkValid(s, "estimate", int(k.tr.size()), i)) return;
    auto q = k.est->get_robot_state_queue_ptr();
    while (!q->empty()) {
      Snap p = snap(*q->front());
      q->pop();
      if (!same(p, s)) {
        if (!checkValid(p, "published state", -1, i)) return;
      }
    }
    rep().count(fmt("contacts tracked %d", int(k.tr.size())));
    rep().eval(digest(s));
    if (rep().want_sample() && i == 200) rep().sample(fmt("%d steps, dt %.3g, %s, contacts %d, largest variance %.3g", i, imu_dt, extreme ? "extreme" : "moderate", int(k.tr.size()), s.P.diagonal().maxCoeff()));
    if (s.X.cwiseAbs().maxCoeff() > 1e7 || s.P.cwiseAbs().maxCoeff() > 1e6) break;    // dead reckoning without aiding left the workspace
  }
  rep().count(extreme ? "runs extreme" : "runs moderate");
}

// ------------------------------------------------------------------------ F09
static void F09(Rng& g, long) {
  Cfg c = randCfg(g, g.range(0, 2), g.range(0, 1));
  if (c.v.empty() && c.l.empty()) c.v.push_back(randVel(g)), c.corr = "v";
  c.use_ori = g.chance(0.5);
  if (g.chance(0.4)) {
    c.static_init = true;
    c.init_size = g.range(0, 5);
  }
  Rig k(c);
  double t = g.uni(0, 100);
  rep().phase("init");
  for (int i = 0; i < c.init_size + 2 && c.static_init; i++) {
    k.push(imu(t - 1 + 0.01 * i, g.gvec(0.05), Vector3d(0, 0, 9.8) + g.gvec(0.1)));
  }
  int guard = 0;
  while (!k.est->BiasInitialized() && guard++ < 50) k.est->InitBias();
  while (!k.iq->empty()) k.iq->pop();
  begin(k, g, t);
  Snap s0 = k.now();
  // biases of the first state are the initial ones
  if (!c.static_init && (!bits(s0.Th.head(3), c.bg0) || !bits(s0.Th.tail(3), c.ba0))) rep().viol("initial_bias", "initial biases are not the configured prior");
  VectorXd fixed = s0.Th;
  for (int i = 0, last = rounds(g, 40); i < last; i++) {
    if (c.bias && g.chance(0.4)) {
      StateScale sc;
      k.put(randState(g, k.now(), k.c, sc, k.now().tp));
      fixed = k.now().Th;
    } else if (!c.bias && g.chance(0.3)) {
      Snap p = k.now();
      StateScale sc;
      Snap q = randState(g, p, k.c, sc, p.tp);
      q.Th = p.Th;
      // correlations that must be removed again by any step
      if (g.chance(0.3)) q.P = randCov(g, int(q.P.rows()), 0.1, 1);
      k.put(q);
    }
    std::string what;
    double u = g.uni();
    // mostly a steady stream, now and then a gap
    if (u < 0.5) k.push(imu(k.prev->get_time() + (g.chance(0.06) ? g.logu(0.05, 100) : g.uni(1e-3, 0.05)), randRate(g) * 0.2, Vector3d(0, 0, 9.8) + g.gvec(2)));
    if (u > 0.4 && !k.vq.empty()) k.push(g.below(int(k.vq.size())), vel(k.now().tp - 0.005, g.gvec(3)));
    if (u > 0.6 && !k.lq.empty()) k.push(0, LeggedKinMeasurementPtr(randLegMeas(g, 4, (unsigned)g.next() & 15, k.now().tp)));
    rep().phase("step");
    Step s = runStep(k);
    note(s);
    if (!inSync(k, s)) return;
    int dx = 3 * int(s.post.X.cols()) - 6;
    if (!c.bias) {
      if (!bits(s.post.Th, fixed)) rep().viol("frozen_moved", fmt("bias estimation is off, step '%s' changed the biases by %.3g", s.kinds.c_str(), (s.post.Th - fixed).cwiseAbs().maxCoeff()));
      if (!s.kinds.empty()) {
        bool corrected = s.kinds.find('i') != std::string::npos || s.kinds.find('v') != std::string::npos || (s.kinds.find('l') != std::string::npos && (s.mixed || !s.churn) && !k.tr.empty());
        double x = std::max(s.post.P.block(0, dx, dx, 6).cwiseAbs().maxCoeff(), s.post.P.block(dx, 0, 6, dx).cwiseAbs().maxCoeff());
        if (corrected && x > 1e-9 * std::sqrt(s.post.P.cwiseAbs().maxCoeff())) rep().viol("frozen_correlated", fmt("bias estimation is off, step '%s' left a correlation %.3g with the biases", s.kinds.c_str(), x));
      }
      rep().count("steps with frozen biases");
    } else {
      bool corr = s.kinds.find('v') != std::string::npos || s.kinds.find('l') != std::string::npos;
      if (!corr && !bits(s.pre.Th, s.post.Th)) rep().viol("moved_by_propagation", fmt("step '%s' changed the biases", s.kinds.c_str()));
      if (s.post.Th[2] != s.pre.Th[2]) rep().viol("heading_bias", fmt("step '%s' changed the gyro bias about the vertical axis by %.3g", s.kinds.c_str(), s.post.Th[2] - s.pre.Th[2]));
      rep().maxi("deviation bias", s.d.Th);
      if (s.d.Th > 1 && s.kinds.size() == 1) report("bias_correction", s, k);
      if (corr && (s.post.Th - s.pre.Th).cwiseAbs().maxCoeff() > 0) rep().count("bias corrections");
    }
    rep().eval(digest(s.post), !s.kinds.empty());
    if (rep().want_sample() && i == 7) rep().sample(fmt("bias %s, step %s, biases %s", c.bias ? "on" : "off", s.kinds.c_str(), mstr(s.post.Th).c_str()));
  }
}

int main(int argc, char** argv) {
  return run_main(argc, argv, {{"F01", F01}, {"F02", F02}, {"F03", F03}, {"F04", F04}, {"F05", F05}, {"F06", F06}, {"F07", F07}, {"F08", F08}, {"F09", F09}});
}
