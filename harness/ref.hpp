// Independent reference arithmetic in extended precision. Nothing of the code
// under test is used here.
#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <stdexcept>
#include <vector>

namespace ref {
typedef long double L;

struct LM {
  int r = 0, c = 0;
  std::vector<L> a;
  LM() {}
  LM(int r_, int c_) : r(r_), c(c_), a(size_t(r_) * c_, 0.0L) {}
  L& operator()(int i, int j) { return a[size_t(i) * c + j]; }
  L operator()(int i, int j) const { return a[size_t(i) * c + j]; }
  L& operator()(int i) { return a[i]; }
  L operator()(int i) const { return a[i]; }
  int rows() const { return r; }
  int cols() const { return c; }
  static LM I(int n) {
    LM m(n, n);
    for (int i = 0; i < n; i++) m(i, i) = 1;
    return m;
  }
  LM t() const {
    LM m(c, r);
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++) m(j, i) = (*this)(i, j);
    return m;
  }
  LM abs() const {
    LM m = *this;
    for (auto& x : m.a) x = std::fabs(x);
    return m;
  }
  L maxabs() const {
    L m = 0;
    for (auto x : a) {
      if (!(std::fabs(x) <= 1e4000L)) return INFINITY;
      m = std::max(m, std::fabs(x));
    }
    return m;
  }
  LM block(int i0, int j0, int n, int m) const {
    LM b(n, m);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < m; j++) b(i, j) = (*this)(i0 + i, j0 + j);
    return b;
  }
  void put(int i0, int j0, const LM& b) {
    for (int i = 0; i < b.r; i++)
      for (int j = 0; j < b.c; j++) (*this)(i0 + i, j0 + j) = b(i, j);
  }
  void zero(int i0, int j0, int n, int m) {
    for (int i = 0; i < n; i++)
      for (int j = 0; j < m; j++) (*this)(i0 + i, j0 + j) = 0;
  }
};
inline LM operator*(const LM& x, const LM& y) {
  if (x.c != y.r) throw std::logic_error("ref: dimension mismatch in product");
  LM m(x.r, y.c);
  for (int i = 0; i < x.r; i++)
    for (int k = 0; k < x.c; k++) {
      L v = x(i, k);
      if (v == 0) continue;
      const L* b = &y.a[size_t(k) * y.c];
      L* o = &m.a[size_t(i) * y.c];
      for (int j = 0; j < y.c; j++) o[j] += v * b[j];
    }
  return m;
}
inline LM operator+(LM x, const LM& y) {
  if (x.r != y.r || x.c != y.c) throw std::logic_error("ref: dimension mismatch in sum");
  for (size_t i = 0; i < x.a.size(); i++) x.a[i] += y.a[i];
  return x;
}
inline LM operator-(LM x, const LM& y) {
  if (x.r != y.r || x.c != y.c) throw std::logic_error("ref: dimension mismatch in difference");
  for (size_t i = 0; i < x.a.size(); i++) x.a[i] -= y.a[i];
  return x;
}
inline LM operator*(L s, LM x) {
  for (auto& v : x.a) v *= s;
  return x;
}
template <class M>
LM lm(const M& m) {
  LM o(int(m.rows()), int(m.cols()));
  for (int i = 0; i < o.r; i++)
    for (int j = 0; j < o.c; j++) o(i, j) = L(m(i, j));
  return o;
}
inline Eigen::MatrixXd dbl(const LM& m) {
  Eigen::MatrixXd o(m.r, m.c);
  for (int i = 0; i < m.r; i++)
    for (int j = 0; j < m.c; j++) o(i, j) = double(m(i, j));
  return o;
}
inline LM skew(const LM& v) {
  LM m(3, 3);
  m(0, 1) = -v(2);
  m(0, 2) = v(1);
  m(1, 0) = v(2);
  m(1, 2) = -v(0);
  m(2, 0) = -v(1);
  m(2, 1) = v(0);
  return m;
}
inline LM cross(const LM& a, const LM& b) { return skew(a) * b; }
inline LM expm(const LM& A) {
  int n = A.r, s = 0;
  L nrm = 0;
  for (int i = 0; i < n; i++) {
    L x = 0;
    for (int j = 0; j < n; j++) x += std::fabs(A(i, j));
    nrm = std::max(nrm, x);
  }
  while (nrm > 0.25L && s < 200) {
    nrm /= 2;
    s++;
  }
  LM B = (1.0L / std::pow(2.0L, L(s))) * A;
  LM E = LM::I(n), T = LM::I(n);
  for (int k = 1; k <= 22; k++) {
    T = (1.0L / k) * (T * B);
    E = E + T;
    if (T.maxabs() < 1e-30L) break;
  }
  for (int i = 0; i < s; i++) E = E * E;
  return E;
}
inline LM inverse(const LM& A, L* cond = nullptr) {
  int n = A.r;
  LM M = A, R = LM::I(n);
  for (int k = 0; k < n; k++) {
    int p = k;
    for (int i = k + 1; i < n; i++)
      if (std::fabs(M(i, k)) > std::fabs(M(p, k))) p = i;
    if (M(p, k) == 0) throw std::runtime_error("ref: singular matrix");
    if (p != k)
      for (int j = 0; j < n; j++) {
        std::swap(M(p, j), M(k, j));
        std::swap(R(p, j), R(k, j));
      }
    L d = M(k, k);
    for (int j = 0; j < n; j++) {
      M(k, j) /= d;
      R(k, j) /= d;
    }
    for (int i = 0; i < n; i++) {
      if (i == k) continue;
      L f = M(i, k);
      if (f == 0) continue;
      for (int j = 0; j < n; j++) {
        M(i, j) -= f * M(k, j);
        R(i, j) -= f * R(k, j);
      }
    }
  }
  if (cond) {
    auto nr = [n](const LM& X) {
      L m = 0;
      for (int i = 0; i < n; i++) {
        L x = 0;
        for (int j = 0; j < n; j++) x += std::fabs(X(i, j));
        m = std::max(m, x);
      }
      return m;
    };
    *cond = nr(A) * nr(R);
  }
  return R;
}
// matrix inverse in SE_K(3)
inline LM ginv(const LM& X) {
  int n = X.r;
  LM Y = LM::I(n);
  LM Rt = X.block(0, 0, 3, 3).t();
  Y.put(0, 0, Rt);
  if (n > 3) Y.put(0, 3, (-1.0L) * (Rt * X.block(0, 3, 3, n - 3)));
  return Y;
}
// adjoint of SE_K(3), twist order [rotation, column 3, column 4, ...]
inline LM Ad(const LM& X) {
  int K = X.r - 3;
  LM A(3 + 3 * K, 3 + 3 * K);
  LM R = X.block(0, 0, 3, 3);
  A.put(0, 0, R);
  for (int i = 0; i < K; i++) {
    A.put(3 + 3 * i, 3 + 3 * i, R);
    A.put(3 + 3 * i, 0, skew(X.block(0, 3 + i, 3, 1)) * R);
  }
  return A;
}
// Inverse of Ad(X), exact also when the given rotation is orthogonal only up to rounding
inline LM AdInv(const LM& X) {
  int K = X.r - 3;
  LM A(3 + 3 * K, 3 + 3 * K);
  LM R = X.block(0, 0, 3, 3), Ri = R.t() * (2.0L * LM::I(3) - R * R.t());
  A.put(0, 0, Ri);
  for (int i = 0; i < K; i++) {
    A.put(3 + 3 * i, 3 + 3 * i, Ri);
    A.put(3 + 3 * i, 0, (-1.0L) * (Ri * skew(X.block(0, 3 + i, 3, 1))));
  }
  return A;
}
inline LM wedge(const LM& xi) {
  int K = (xi.r - 3) / 3;
  LM A(3 + K, 3 + K);
  A.put(0, 0, skew(xi.block(0, 0, 3, 1)));
  for (int i = 0; i < K; i++) A.put(0, 3 + i, xi.block(3 + 3 * i, 0, 3, 1));
  return A;
}
// Gamma_m(w) = sum_n wx^n/(n+m)!: a block of one (well scaled) matrix exponential
inline LM Gam(const LM& w, int m) {
  LM A(3 * (m + 1), 3 * (m + 1));
  A.put(0, 0, skew(w));
  for (int k = 0; k < m; k++)
    for (int i = 0; i < 3; i++) A(3 * k + i, 3 * (k + 1) + i) = 1;
  return expm(A).block(0, 3 * m, 3, 3);
}
// exp(wedge(xi)) = [Gamma_0(w) Gamma_1(w) x; 0 I]
inline LM Exp(const LM& xi) {
  int K = (xi.r - 3) / 3;
  LM w = xi.block(0, 0, 3, 1), X = LM::I(3 + K), J = Gam(w, 1);
  X.put(0, 0, Gam(w, 0));
  for (int k = 0; k < K; k++) X.put(0, 3 + k, J * xi.block(3 + 3 * k, 0, 3, 1));
  return X;
}
inline LM quatR(L w, L x, L y, L z) {
  L n = std::sqrt(w * w + x * x + y * y + z * z);
  w /= n, x /= n, y /= n, z /= n;
  LM R(3, 3);
  R(0, 0) = 1 - 2 * (y * y + z * z);
  R(0, 1) = 2 * (x * y - w * z);
  R(0, 2) = 2 * (x * z + w * y);
  R(1, 0) = 2 * (x * y + w * z);
  R(1, 1) = 1 - 2 * (x * x + z * z);
  R(1, 2) = 2 * (y * z - w * x);
  R(2, 0) = 2 * (x * z - w * y);
  R(2, 1) = 2 * (y * z + w * x);
  R(2, 2) = 1 - 2 * (x * x + y * y);
  return R;
}
inline LM v3(L a, L b, L c) {
  LM v(3, 1);
  v(0) = a, v(1) = b, v(2) = c;
  return v;
}
}    // namespace ref
