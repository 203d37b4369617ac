From 6cb88c2cdb947574342a1c0ab3fef8c53d070b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 01/49] fix: keep the process noise of earlier contacts when a
 contact is added

add_aug_state copied only the first dimX rows/columns of the noise matrix, so
adding a second contact truncated the noise block of the ones before it.
---
 src/state/robot_state.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index 88c203c..7b6d400 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -148,12 +148,13 @@ int RobotState::add_aug_state(const Eigen::Vector3d& aug,
   int dimTheta = this->dimTheta();
   Eigen::MatrixXd Qc_aug = Eigen::MatrixXd::Zero(dimQc + 3, dimQc + 3);
 
-  Qc_aug.topLeftCorner(this->dimX(), this->dimX())
-      = this->Qc_.topLeftCorner(this->dimX(), this->dimX());
-  Qc_aug.bottomLeftCorner(dimTheta, this->dimX())
-      = this->Qc_.bottomLeftCorner(dimTheta, this->dimX());
-  Qc_aug.topRightCorner(this->dimX(), dimTheta)
-      = this->Qc_.topRightCorner(this->dimX(), dimTheta);
+  // Noise blocks of the group part (everything before the bias blocks)
+  int dimQx = dimQc - dimTheta;
+  Qc_aug.topLeftCorner(dimQx, dimQx) = this->Qc_.topLeftCorner(dimQx, dimQx);
+  Qc_aug.bottomLeftCorner(dimTheta, dimQx)
+      = this->Qc_.bottomLeftCorner(dimTheta, dimQx);
+  Qc_aug.topRightCorner(dimQx, dimTheta)
+      = this->Qc_.topRightCorner(dimQx, dimTheta);
   Qc_aug.bottomRightCorner(dimTheta, dimTheta)
       = this->Qc_.bottomRightCorner(dimTheta, dimTheta);
   Qc_aug.block<3, 3>(dimQc - dimTheta, dimQc - dimTheta) = noise_cov;
-- 
2.43.0


From 2ac59ddb47e09eca40474fb3cece14c8d691c170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 02/49] fix: address the bias covariance behind the contact
 blocks

The bias blocks of P come after all blocks of X; with tracked contacts the
accessors read and wrote the covariance of the first contacts instead.
---
 src/state/robot_state.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index 7b6d400..df41573 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -120,10 +120,12 @@ const Eigen::Matrix3d RobotState::get_position_covariance() const {
   return P_.block<3, 3>(6, 6);
 }
 const Eigen::Matrix3d RobotState::get_gyroscope_bias_covariance() const {
-  return P_.block<3, 3>(9, 9);
+  int start = 3 * this->dimX() - 6;    // bias blocks follow all X blocks
+  return P_.block<3, 3>(start, start);
 }
 const Eigen::Matrix3d RobotState::get_accelerometer_bias_covariance() const {
-  return P_.block<3, 3>(12, 12);
+  int start = 3 * this->dimX() - 6 + 3;
+  return P_.block<3, 3>(start, start);
 }
 
 const double RobotState::get_time() const { return t_; }
@@ -314,10 +316,12 @@ void RobotState::set_position_covariance(const Eigen::Matrix3d& cov) {
   P_.block<3, 3>(6, 6) = cov;
 }
 void RobotState::set_gyroscope_bias_covariance(const Eigen::Matrix3d& cov) {
-  P_.block<3, 3>(9, 9) = cov;
+  int start = 3 * this->dimX() - 6;    // bias blocks follow all X blocks
+  P_.block<3, 3>(start, start) = cov;
 }
 void RobotState::set_accelerometer_bias_covariance(const Eigen::Matrix3d& cov) {
-  P_.block<3, 3>(12, 12) = cov;
+  int start = 3 * this->dimX() - 6 + 3;
+  P_.block<3, 3>(start, start) = cov;
 }
 void RobotState::set_time(const double t) { t_ = t; }
 
-- 
2.43.0


From 34555ab3489a2aebbb37827219cf4744f4ec8556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 03/49] fix: map to the left-invariant error for
 right-invariant filters

CorrectLeftInvariant converted the covariance of filters that already use the
left-invariant error and left the others alone, the opposite of what the
conversion back at its end assumes.
---
 src/filter/inekf/inekf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/inekf/inekf.cpp b/src/filter/inekf/inekf.cpp
index 8e50d9f..fbf4f72 100644
--- a/src/filter/inekf/inekf.cpp
+++ b/src/filter/inekf/inekf.cpp
@@ -122,7 +122,7 @@ void CorrectLeftInvariant(const Eigen::MatrixXd& Z, const Eigen::MatrixXd& H,
   }
 
   // Map from right invariant to left invariant error temporarily
-  if (error_type == ErrorType::LeftInvariant) {
+  if (error_type == ErrorType::RightInvariant) {
     Eigen::MatrixXd AdjInv = Eigen::MatrixXd::Identity(dimP, dimP);
     AdjInv.block(0, 0, dimP - dimTheta, dimP - dimTheta)
         = lie_group::Adjoint_SEK3(state.get_Xinv());
-- 
2.43.0


From 98b4a9cd4585816219643db4fa47e3d9a0a0f764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 04/49] fix: evaluate higher-order SO(3) integrals accurately
 for small angles

The closed forms for m >= 2 lose all significant digits for small rotations
(Gamma_2 is off by up to 100% around 1e-8 rad): sum the defining series there.
---
 src/math/lie_group.cpp | 302 +++++++++++++++++++++--------------------
 1 file changed, 157 insertions(+), 145 deletions(-)

diff --git a/src/math/lie_group.cpp b/src/math/lie_group.cpp
index 5d9221e..76df183 100644
--- a/src/math/lie_group.cpp
+++ b/src/math/lie_group.cpp
@@ -1,146 +1,158 @@
-/* ----------------------------------------------------------------------------
- * Copyright 2023, CURLY Lab, University of Michigan
- * All Rights Reserved
- * See LICENSE for the license information
- * -------------------------------------------------------------------------- */
-
-/**
- *  @file   lie_group.cpp
- *  @author Ross Hartley, Tzu-Yuan Lin
- *  @brief  Source file for various Lie Group functions
- *  @date   May 16, 2023
- **/
-
-#include "drift/math/lie_group.h"
-
-namespace math::lie_group {
-
-using namespace std;
-
-const double TOLERANCE = 1e-10;
-
-long int factorial(int n) {
-  return (n == 1 || n == 0) ? 1 : factorial(n - 1) * n;
-}
-
-Eigen::Matrix3d skew(const Eigen::Vector3d& v) {
-  // Convert vector to skew-symmetric matrix
-  Eigen::Matrix3d M = Eigen::Matrix3d::Zero();
-  M << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
-  return M;
-}
-
-Eigen::Matrix3d Gamma_SO3(const Eigen::Vector3d& w, int m) {
-  // Computes mth integral of the exponential map: \Gamma_m =
-  // \sum_{n=0}^{\infty} \dfrac{1}{(n+m)!} (w^\wedge)^n
-  assert(m >= 0);
-  Eigen::Matrix3d I = Eigen::Matrix3d::Identity();
-  double theta = w.norm();
-  if (theta < TOLERANCE) {
-    return (1.0 / factorial(m))
-           * I;    // TODO: There is a better small value approximation for
-                   // exp() given in Trawny p.19
-  }
-  Eigen::Matrix3d A = skew(w);
-  double theta2 = theta * theta;
-
-  // Closed form solution for the first 3 cases
-  switch (m) {
-    case 0:    // Exp map of SO(3)
-      return I + (sin(theta) / theta) * A + ((1 - cos(theta)) / theta2) * A * A;
-
-    case 1:    // Left Jacobian of SO(3)
-      // eye(3) - A*(1/theta^2) * (R - eye(3) - A);
-      // eye(3) + (1-cos(theta))/theta^2 * A + (theta-sin(theta))/theta^3 * A^2;
-      return I + ((1 - cos(theta)) / theta2) * A
-             + ((theta - sin(theta)) / (theta2 * theta)) * A * A;
-
-    case 2:
-      // 0.5*eye(3) - (1/theta^2) * (R - eye(3) - A - 0.5*A^2);
-      // 0.5*eye(3) + (theta-sin(theta))/theta^3 * A + (2*(cos(theta)-1) +
-      // theta^2)/(2*theta^4) * A^2
-      return 0.5 * I + (theta - sin(theta)) / (theta2 * theta) * A
-             + (theta2 + 2 * cos(theta) - 2) / (2 * theta2 * theta2) * A * A;
-
-    default:    // General case
-      Eigen::Matrix3d R
-          = I + (sin(theta) / theta) * A + ((1 - cos(theta)) / theta2) * A * A;
-      Eigen::Matrix3d S = I;
-      Eigen::Matrix3d Ak = I;
-      long int kfactorial = 1;
-      for (int k = 1; k <= m; ++k) {
-        kfactorial = kfactorial * k;
-        Ak = (Ak * A).eval();
-        S = (S + (1.0 / kfactorial) * Ak).eval();
-      }
-      if (m == 0) {
-        return R;
-      } else if (m % 2) {    // odd
-        return (1.0 / kfactorial) * I
-               + (pow(-1, (m + 1) / 2) / pow(theta, m + 1)) * A * (R - S);
-      } else {    // even
-        return (1.0 / kfactorial) * I
-               + (pow(-1, m / 2) / pow(theta, m)) * (R - S);
-      }
-  }
-}
-
-Eigen::Matrix3d Exp_SO3(const Eigen::Vector3d& w) {
-  // Computes the vectorized exponential map for SO(3)
-  return Gamma_SO3(w, 0);
-}
-
-Eigen::Matrix3d LeftJacobian_SO3(const Eigen::Vector3d& w) {
-  // Computes the Left Jacobian of SO(3)
-  return Gamma_SO3(w, 1);
-}
-
-Eigen::Matrix3d RightJacobian_SO3(const Eigen::Vector3d& w) {
-  // Computes the Right Jacobian of SO(3)
-  return Gamma_SO3(-w, 1);
-}
-
-Eigen::MatrixXd Exp_SEK3(const Eigen::VectorXd& v) {
-  // Computes the vectorized exponential map for SE_K(3)
-  int K = (v.size() - 3) / 3;
-  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(3 + K, 3 + K);
-  Eigen::Matrix3d R;
-  Eigen::Matrix3d Jl;
-  Eigen::Vector3d w = v.head(3);
-  double theta = w.norm();
-  Eigen::Matrix3d I = Eigen::Matrix3d::Identity();
-  if (theta < TOLERANCE) {
-    R = I;
-    Jl = I;
-  } else {
-    Eigen::Matrix3d A = skew(w);
-    double theta2 = theta * theta;
-    double stheta = sin(theta);
-    double ctheta = cos(theta);
-    double oneMinusCosTheta2 = (1 - ctheta) / (theta2);
-    Eigen::Matrix3d A2 = A * A;
-    R = I + (stheta / theta) * A + oneMinusCosTheta2 * A2;
-    Jl = I + oneMinusCosTheta2 * A + ((theta - stheta) / (theta2 * theta)) * A2;
-  }
-  X.block<3, 3>(0, 0) = R;
-  for (int i = 0; i < K; ++i) {
-    X.block<3, 1>(0, 3 + i) = Jl * v.segment<3>(3 + 3 * i);
-  }
-  return X;
-}
-
-Eigen::MatrixXd Adjoint_SEK3(const Eigen::MatrixXd& X) {
-  // Compute Adjoint(X) for X in SE_K(3)
-  int K = X.cols() - 3;
-  Eigen::MatrixXd Adj = Eigen::MatrixXd::Zero(3 + 3 * K, 3 + 3 * K);
-  Eigen::Matrix3d R = X.block<3, 3>(0, 0);
-  Adj.block<3, 3>(0, 0) = R;
-  for (int i = 0; i < K; ++i) {
-    Adj.block<3, 3>(3 + 3 * i, 3 + 3 * i) = R;
-    Adj.block<3, 3>(3 + 3 * i, 0) = skew(X.block<3, 1>(0, 3 + i)) * R;
-  }
-  return Adj;
-}
-
-
+/* ----------------------------------------------------------------------------
+ * Copyright 2023, CURLY Lab, University of Michigan
+ * All Rights Reserved
+ * See LICENSE for the license information
+ * -------------------------------------------------------------------------- */
+
+/**
+ *  @file   lie_group.cpp
+ *  @author Ross Hartley, Tzu-Yuan Lin
+ *  @brief  Source file for various Lie Group functions
+ *  @date   May 16, 2023
+ **/
+
+#include "drift/math/lie_group.h"
+
+namespace math::lie_group {
+
+using namespace std;
+
+const double TOLERANCE = 1e-10;
+
+long int factorial(int n) {
+  return (n == 1 || n == 0) ? 1 : factorial(n - 1) * n;
+}
+
+Eigen::Matrix3d skew(const Eigen::Vector3d& v) {
+  // Convert vector to skew-symmetric matrix
+  Eigen::Matrix3d M = Eigen::Matrix3d::Zero();
+  M << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
+  return M;
+}
+
+Eigen::Matrix3d Gamma_SO3(const Eigen::Vector3d& w, int m) {
+  // Computes mth integral of the exponential map: \Gamma_m =
+  // \sum_{n=0}^{\infty} \dfrac{1}{(n+m)!} (w^\wedge)^n
+  assert(m >= 0);
+  Eigen::Matrix3d I = Eigen::Matrix3d::Identity();
+  double theta = w.norm();
+  if (theta < TOLERANCE) {
+    return (1.0 / factorial(m))
+           * I;    // TODO: There is a better small value approximation for
+                   // exp() given in Trawny p.19
+  }
+  Eigen::Matrix3d A = skew(w);
+  double theta2 = theta * theta;
+
+  // The closed forms for m >= 2 divide differences of nearly equal numbers by
+  // theta^m: sum the (quickly converging) series for small angles instead
+  if (m >= 2 && theta < 0.5) {
+    Eigen::Matrix3d term = (1.0 / factorial(m)) * I;
+    Eigen::Matrix3d sum = term;
+    for (int n = 1; n <= 16; ++n) {
+      term = (term * A / (n + m)).eval();
+      sum += term;
+    }
+    return sum;
+  }
+
+  // Closed form solution for the first 3 cases
+  switch (m) {
+    case 0:    // Exp map of SO(3)
+      return I + (sin(theta) / theta) * A + ((1 - cos(theta)) / theta2) * A * A;
+
+    case 1:    // Left Jacobian of SO(3)
+      // eye(3) - A*(1/theta^2) * (R - eye(3) - A);
+      // eye(3) + (1-cos(theta))/theta^2 * A + (theta-sin(theta))/theta^3 * A^2;
+      return I + ((1 - cos(theta)) / theta2) * A
+             + ((theta - sin(theta)) / (theta2 * theta)) * A * A;
+
+    case 2:
+      // 0.5*eye(3) - (1/theta^2) * (R - eye(3) - A - 0.5*A^2);
+      // 0.5*eye(3) + (theta-sin(theta))/theta^3 * A + (2*(cos(theta)-1) +
+      // theta^2)/(2*theta^4) * A^2
+      return 0.5 * I + (theta - sin(theta)) / (theta2 * theta) * A
+             + (theta2 + 2 * cos(theta) - 2) / (2 * theta2 * theta2) * A * A;
+
+    default:    // General case
+      Eigen::Matrix3d R
+          = I + (sin(theta) / theta) * A + ((1 - cos(theta)) / theta2) * A * A;
+      Eigen::Matrix3d S = I;
+      Eigen::Matrix3d Ak = I;
+      long int kfactorial = 1;
+      for (int k = 1; k <= m; ++k) {
+        kfactorial = kfactorial * k;
+        Ak = (Ak * A).eval();
+        S = (S + (1.0 / kfactorial) * Ak).eval();
+      }
+      if (m == 0) {
+        return R;
+      } else if (m % 2) {    // odd
+        return (1.0 / kfactorial) * I
+               + (pow(-1, (m + 1) / 2) / pow(theta, m + 1)) * A * (R - S);
+      } else {    // even
+        return (1.0 / kfactorial) * I
+               + (pow(-1, m / 2) / pow(theta, m)) * (R - S);
+      }
+  }
+}
+
+Eigen::Matrix3d Exp_SO3(const Eigen::Vector3d& w) {
+  // Computes the vectorized exponential map for SO(3)
+  return Gamma_SO3(w, 0);
+}
+
+Eigen::Matrix3d LeftJacobian_SO3(const Eigen::Vector3d& w) {
+  // Computes the Left Jacobian of SO(3)
+  return Gamma_SO3(w, 1);
+}
+
+Eigen::Matrix3d RightJacobian_SO3(const Eigen::Vector3d& w) {
+  // Computes the Right Jacobian of SO(3)
+  return Gamma_SO3(-w, 1);
+}
+
+Eigen::MatrixXd Exp_SEK3(const Eigen::VectorXd& v) {
+  // Computes the vectorized exponential map for SE_K(3)
+  int K = (v.size() - 3) / 3;
+  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(3 + K, 3 + K);
+  Eigen::Matrix3d R;
+  Eigen::Matrix3d Jl;
+  Eigen::Vector3d w = v.head(3);
+  double theta = w.norm();
+  Eigen::Matrix3d I = Eigen::Matrix3d::Identity();
+  if (theta < TOLERANCE) {
+    R = I;
+    Jl = I;
+  } else {
+    Eigen::Matrix3d A = skew(w);
+    double theta2 = theta * theta;
+    double stheta = sin(theta);
+    double ctheta = cos(theta);
+    double oneMinusCosTheta2 = (1 - ctheta) / (theta2);
+    Eigen::Matrix3d A2 = A * A;
+    R = I + (stheta / theta) * A + oneMinusCosTheta2 * A2;
+    Jl = I + oneMinusCosTheta2 * A + ((theta - stheta) / (theta2 * theta)) * A2;
+  }
+  X.block<3, 3>(0, 0) = R;
+  for (int i = 0; i < K; ++i) {
+    X.block<3, 1>(0, 3 + i) = Jl * v.segment<3>(3 + 3 * i);
+  }
+  return X;
+}
+
+Eigen::MatrixXd Adjoint_SEK3(const Eigen::MatrixXd& X) {
+  // Compute Adjoint(X) for X in SE_K(3)
+  int K = X.cols() - 3;
+  Eigen::MatrixXd Adj = Eigen::MatrixXd::Zero(3 + 3 * K, 3 + 3 * K);
+  Eigen::Matrix3d R = X.block<3, 3>(0, 0);
+  Adj.block<3, 3>(0, 0) = R;
+  for (int i = 0; i < K; ++i) {
+    Adj.block<3, 3>(3 + 3 * i, 3 + 3 * i) = R;
+    Adj.block<3, 3>(3 + 3 * i, 0) = skew(X.block<3, 1>(0, 3 + i)) * R;
+  }
+  return Adj;
+}
+
+
 }    // namespace math::lie_group
\ No newline at end of file
-- 
2.43.0


From 41007b5caf55b0393d4b47d851b1ac94286cfd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 05/49] fix: bias blocks of the state transition matrix for
 slow rotation

For rates below 1e-6 rad/s integer division made both blocks zero, and just
above that the closed forms are dominated by cancellation: sum their Taylor
series for small rotation angles.
---
 .../inekf/propagation/imu_propagation.cpp     | 32 ++++++++++++++++---
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index abb038c..f537d27 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -304,11 +304,33 @@ Eigen::MatrixXd ImuPropagation::StateTransitionMatrix(const Eigen::Vector3d& w,
                  * (wx2 * ax * wx2));
 
 
-  /// TODO: Get better approximation using taylor series when theta < tol
-  const double tol = 1e-6;
-  if (theta < tol) {
-    Phi25L = (1 / 2) * ax * dt2;
-    Phi35L = (1 / 6) * ax * dt3;
+  // The closed forms above cancel badly (and divide by zero) for small rotation
+  // angles: sum the Taylor series of the two blocks there. They solve
+  //   Phi15' = -wx * Phi15 - I
+  //   Phi25' = -wx * Phi25 - ax * Phi15
+  //   Phi35' = -wx * Phi35 + Phi25
+  const double tol = 0.5;
+  if (std::abs(thetadt) < tol) {
+    Eigen::Matrix3d c1 = Eigen::Matrix3d::Zero();
+    Eigen::Matrix3d c2 = Eigen::Matrix3d::Zero();
+    Eigen::Matrix3d c3 = Eigen::Matrix3d::Zero();
+    Phi25L.setZero();
+    Phi35L.setZero();
+    double coeff = 1.0;    // dt^n / n!
+    for (int n = 0; n < 20; ++n) {
+      Eigen::Matrix3d c3_next = -wx * c3 + c2;
+      Eigen::Matrix3d c2_next = -wx * c2 - ax * c1;
+      Eigen::Matrix3d c1_next = -wx * c1;
+      if (n == 0) {
+        c1_next -= Eigen::Matrix3d::Identity();
+      }
+      c1 = c1_next;
+      c2 = c2_next;
+      c3 = c3_next;
+      coeff *= dt / (n + 1);
+      Phi25L += coeff * c2;
+      Phi35L += coeff * c3;
+    }
   }
 
   // Fill out analytical state transition matrices
-- 
2.43.0


From ea64bd39c8cb3dd5e5c2f2a9e6524729846ce475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 06/49] fix: propagation without a previous imu measurement

A filter that is started from a given state instead of InitState has no
previous measurement yet: keep the first one instead of dereferencing null.
---
 src/filter/inekf/propagation/imu_propagation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index f537d27..2d8b602 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -141,6 +141,11 @@ bool ImuPropagation::Propagate(RobotState& state) {
   sensor_data_buffer_ptr_->pop();
   sensor_data_buffer_mutex_ptr_.get()->unlock();
 
+  // There is nothing to propagate with before the second measurement
+  if (imu_measurement == nullptr) {
+    return false;
+  }
+
   double dt = imu_measurement->get_time() - state.get_propagate_time();
   state.set_time(imu_measurement->get_time());
   state.set_propagate_time(imu_measurement->get_time());
-- 
2.43.0


From 27f2dc5b59cf6b77b34b5add3a1e662a947f2eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 07/49] fix: inspect the sensor buffers under their lock during
 initialization

The emptiness checks raced with the sensor callbacks.
---
 src/filter/inekf/correction/legged_kinematics_correction.cpp | 5 +++--
 src/filter/inekf/correction/velocity_correction.cpp          | 5 +++--
 src/filter/inekf/propagation/imu_propagation.cpp             | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/filter/inekf/correction/legged_kinematics_correction.cpp b/src/filter/inekf/correction/legged_kinematics_correction.cpp
index 053f3d1..cfa536a 100644
--- a/src/filter/inekf/correction/legged_kinematics_correction.cpp
+++ b/src/filter/inekf/correction/legged_kinematics_correction.cpp
@@ -259,12 +259,13 @@ bool LeggedKinematicsCorrection::initialize(RobotState& state) {
 
   // Get measurement from sensor data buffer
   // Do not initialize if the buffer is emptys
-  while (sensor_data_buffer_ptr_->empty()) {
+  sensor_data_buffer_mutex_ptr_.get()->lock();
+  if (sensor_data_buffer_ptr_->empty()) {
     // std::cout << "Waiting for leg encoder data..." << std::endl;
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
     return false;
   }
 
-  sensor_data_buffer_mutex_ptr_.get()->lock();
   // Get the lates measurement
   while (sensor_data_buffer_ptr_->size() > 1) {
     // std::cout << "Discarding old sensor data..." << std::endl;
diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index 5e7f3f3..93baf38 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -150,12 +150,13 @@ bool VelocityCorrection::initialize(RobotState& state) {
 
   // Get measurement from sensor data buffer
   // Do not initialize if the buffer is emptys
-  while (sensor_data_buffer_ptr_->empty()) {
+  sensor_data_buffer_mutex_ptr_.get()->lock();
+  if (sensor_data_buffer_ptr_->empty()) {
     // std::cout << "Waiting for velocity related encoder data..." << std::endl;
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
     return false;
   }
 
-  sensor_data_buffer_mutex_ptr_.get()->lock();
   // Get the latest measurement
   while (sensor_data_buffer_ptr_->size() > 1) {
     // std::cout << "Discarding old sensor data..." << std::endl;
diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 2d8b602..6e538a0 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -517,10 +517,11 @@ const bool ImuPropagation::get_bias_initialized() const {
 // IMU propagation initialization for robot state
 bool ImuPropagation::set_initial_state(RobotState& state) {
   // Do not initialize if the buffer is emptys
+  sensor_data_buffer_mutex_ptr_.get()->lock();
   if (sensor_data_buffer_ptr_->empty()) {
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
     return false;
   }
-  sensor_data_buffer_mutex_ptr_.get()->lock();
   const ImuMeasurementPtr imu_measurement = sensor_data_buffer_ptr_->front();
   sensor_data_buffer_ptr_->pop();
   sensor_data_buffer_mutex_ptr_.get()->unlock();
-- 
2.43.0


From bbc2b9c87a2e59f01a2e9f10840fdffc7f5de739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 08/49] fix: keep the prior bias when no static samples are
 requested

With init_bias_size 0 (the default) the average over no samples made both
biases, and with them every later estimate, NaN.
---
 src/filter/inekf/propagation/imu_propagation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 6e538a0..9462e4d 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -448,6 +448,12 @@ void ImuPropagation::InitImuBias() {
     return;
   }
 
+  // Without samples to average, the prior is all there is
+  if (init_bias_size_ <= 0) {
+    bias_initialized_ = true;
+    return;
+  }
+
   // Initialize bias based on imu orientation and static assumption
   if (bias_init_vec_.size() < init_bias_size_) {
     sensor_data_buffer_mutex_ptr_.get()->lock();
-- 
2.43.0


From 0ba1fb5835a8d27f5cd058c5d6d5e77f4dd67b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 09/49] fix: do not use future velocities after dropping
 outdated ones

The check that a velocity lies before the propagation time was only made for
the first queued measurement, not for the one found behind outdated ones.
---
 src/filter/inekf/correction/velocity_correction.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index 93baf38..5d3ab15 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -105,10 +105,14 @@ bool VelocityCorrection::Correct(RobotState& state) {
         return false;
       }
       measured_velocity = sensor_data_buffer_ptr_->front();
+      t_diff = measured_velocity->get_time() - state.get_propagate_time();
+      // Leave measurements from the future for a later correction
+      if (t_diff >= 0) {
+        sensor_data_buffer_mutex_ptr_->unlock();
+        return false;
+      }
       sensor_data_buffer_ptr_->pop();
       sensor_data_buffer_mutex_ptr_->unlock();
-
-      t_diff = measured_velocity->get_time() - state.get_propagate_time();
     }
   }
 
-- 
2.43.0


From 60f10bb13653f70cb1abdcc71c56f4f7056adfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 10/49] fix: apply mounting and scale to the initial velocity

The initial velocity was taken from the sensor frame unscaled, unlike every
later correction.
---
 src/filter/inekf/correction/velocity_correction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index 5d3ab15..72e1056 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -170,8 +170,9 @@ bool VelocityCorrection::initialize(RobotState& state) {
   sensor_data_buffer_ptr_->pop();
   sensor_data_buffer_mutex_ptr_.get()->unlock();
 
-  // Apply the rotation to map the body velocity to the world frame
-  state.set_velocity(state.get_rotation() * measured_velocity->get_velocity());
+  // Rotate the velocity from sensor frame to body frame, then to world frame
+  state.set_velocity(state.get_rotation() * R_vel2body_ * velocity_scale_
+                     * measured_velocity->get_velocity());
   state.set_time(measured_velocity->get_time());
   return true;
 }
-- 
2.43.0


From 9095d977bec204563b7799a1d52ca32e0febae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 11/49] fix: read the contact noise setting under its
 documented name

The template and the mini cheetah configuration set contact_std, which was
ignored.
---
 .../inekf/correction/legged_kinematics_correction.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/filter/inekf/correction/legged_kinematics_correction.cpp b/src/filter/inekf/correction/legged_kinematics_correction.cpp
index cfa536a..e120363 100644
--- a/src/filter/inekf/correction/legged_kinematics_correction.cpp
+++ b/src/filter/inekf/correction/legged_kinematics_correction.cpp
@@ -26,10 +26,13 @@ LeggedKinematicsCorrection::LeggedKinematicsCorrection(
             ? config_["noises"]["kinematics_additive_std"].as<double>()
             : 0.05;
 
-  double contact_noise_std
-      = config_["noises"]["contact_noise_std"]
-            ? config_["noises"]["contact_noise_std"].as<double>()
-            : 0.1;
+  // The configuration files name it contact_std
+  double contact_noise_std = 0.1;
+  if (config_["noises"]["contact_noise_std"]) {
+    contact_noise_std = config_["noises"]["contact_noise_std"].as<double>();
+  } else if (config_["noises"]["contact_std"]) {
+    contact_noise_std = config_["noises"]["contact_std"].as<double>();
+  }
   contact_noise_cov_ = contact_noise_std * contact_noise_std
                        * Eigen::Matrix<double, 3, 3>::Identity();
 
-- 
2.43.0


From 1095e156a91f08e7dc9e45459609b575db7df4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 12/49] fix: initialize the times and angular velocity of a new
 state

They were indeterminate until first set; a state given to the estimator without
a time made the first step size indeterminate.
---
 include/drift/state/robot_state.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/drift/state/robot_state.h b/include/drift/state/robot_state.h
index ad6c237..90b5d5f 100644
--- a/include/drift/state/robot_state.h
+++ b/include/drift/state/robot_state.h
@@ -637,10 +637,11 @@ class RobotState {
                                  // corresponding
                                  // correction map's value
 
-  double t_;                     // The latest time when the state X_ is updated
-  double t_prop_;         // The latest time when the state X_ is propagated
+  double t_ = 0;                 // The latest time when the state X_ is updated
+  double t_prop_ = 0;     // The latest time when the state X_ is propagated
   Eigen::MatrixXd Qc_;    // Continuous noise covariance matrix
-  Eigen::Vector3d body_ang_vel_;    // Latest angular velocity
+  Eigen::Vector3d body_ang_vel_
+      = Eigen::Vector3d::Zero();    // Latest angular velocity
   bool enable_imu_bias_update_ = false;
   int slip_flag_ = 0;               // 0: no slip, 1: slip;
 };
-- 
2.43.0


From 09ca7f2793645f7e616d54a49be735e30977ceff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 13/49] fix: invert group elements with any number of columns

inverse() only handled elements with exactly two columns; with more it returned
a wrong matrix and with fewer it accessed columns that do not exist.
---
 src/math/se_k_3.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/math/se_k_3.cpp b/src/math/se_k_3.cpp
index 891492c..46b9abf 100644
--- a/src/math/se_k_3.cpp
+++ b/src/math/se_k_3.cpp
@@ -63,9 +63,13 @@ SEK3 SEK3::operator*(const SEK3& X) {
 // methods
 SEK3 SEK3::inverse() {
   SEK3 Y;
-  Y.set_R(this->get_R().transpose());
-  Y.set_p(-this->get_R().transpose() * this->get_p());
-  Y.set_v(-this->get_R().transpose() * this->get_v());
+  // [R x]^-1 = [R^T -R^T x] for any number of columns x
+  Eigen::MatrixXd Xinv = Eigen::MatrixXd::Identity(X_.rows(), X_.cols());
+  Eigen::MatrixXd Rt = this->get_R().transpose();
+  int K = X_.cols() - 3;
+  Xinv.block(0, 0, 3, 3) = Rt;
+  Xinv.block(0, 3, 3, K) = -Rt * X_.block(0, 3, 3, K);
+  Y.set_X(Xinv);
   Y.set_K(this->get_K());
   return Y;
 }
-- 
2.43.0


From f21446a22da7c5d66d2a0ea34be54a707ff92423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 14/49] fix: default settings of a default-constructed
 estimator

The members were indeterminate; the destructor could join a thread that was
never started and the initial covariance was arbitrary.
---
 include/drift/estimator/inekf_estimator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/drift/estimator/inekf_estimator.h b/include/drift/estimator/inekf_estimator.h
index 192804c..6c5837a 100644
--- a/include/drift/estimator/inekf_estimator.h
+++ b/include/drift/estimator/inekf_estimator.h
@@ -292,13 +292,13 @@ class InekfEstimator {
   std::shared_ptr<std::mutex>
       robot_state_queue_mutex_ptr_;    // Mutex of the robot
                                        // state queue
-  bool enable_pose_logger_;            // Boolean value indicating whether
+  bool enable_pose_logger_ = false;    // Boolean value indicating whether
                                        // the filter should log the pose
   std::ofstream outfile_;              // Output file stream for pose logger
   std::ofstream vel_outfile_;          // Output file stream for velocity logger
   std::ofstream vel_body_outfile_;     // Output file stream for velocity in the
                                        // body frame logger
-  double pose_log_rate_;               // Pose logger rate
+  double pose_log_rate_ = 10.0;        // Pose logger rate
   double last_pub_t_ = 0.0;            // Last published time for pose logger
   std::thread pose_logging_thread_;    // Pose logging thread
   std::mutex
@@ -306,9 +306,9 @@ class InekfEstimator {
   RobotStateQueuePtr robot_state_log_queue_ptr_;    // Pointer to the robot
                                                     // state log queue
 
-  double rotation_cov_val_;                  // Covariance value for rotation
-  double velocity_cov_val_;                  // Covariance value for velocity
-  double position_cov_val_;                  // Covariance value for position
+  double rotation_cov_val_ = 0.03;           // Covariance value for rotation
+  double velocity_cov_val_ = 0.01;           // Covariance value for velocity
+  double position_cov_val_ = 0.00001;        // Covariance value for position
   std::atomic<bool> stop_signal_ = false;    // Stop signal for pose logger
   bool enabled_slip_estimator_ = false;      // Slip estimator enabled
   std::string pose_log_file_ = "";           // Pose log file path
-- 
2.43.0


From 1abedfc8646a284a0815767693d336b4b0c950f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 15/49] fix: do not reopen the log files while the logger is
 writing

clear() replaced the streams under the logging thread, which is a data race and
could write a record of the old session into the new file.
---
 include/drift/estimator/inekf_estimator.h | 2 ++
 src/estimator/inekf_estimator.cpp         | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/drift/estimator/inekf_estimator.h b/include/drift/estimator/inekf_estimator.h
index 6c5837a..1eb41a1 100644
--- a/include/drift/estimator/inekf_estimator.h
+++ b/include/drift/estimator/inekf_estimator.h
@@ -303,6 +303,8 @@ class InekfEstimator {
   std::thread pose_logging_thread_;    // Pose logging thread
   std::mutex
       robot_state_log_queue_mutex_;    // Mutex of the robot state log queue
+  std::mutex log_file_mutex_;          // Mutex of the log files. Locked after
+                                       // the log queue mutex, if both are
   RobotStateQueuePtr robot_state_log_queue_ptr_;    // Pointer to the robot
                                                     // state log queue
 
diff --git a/src/estimator/inekf_estimator.cpp b/src/estimator/inekf_estimator.cpp
index 9dad73d..b85b0a9 100644
--- a/src/estimator/inekf_estimator.cpp
+++ b/src/estimator/inekf_estimator.cpp
@@ -143,6 +143,8 @@ void InekfEstimator::PoseLoggingThread() {
     std::shared_ptr<RobotState> state_log_ptr
         = robot_state_log_queue_ptr_.get()->front();
     robot_state_log_queue_ptr_.get()->pop();
+    // From here until it is written, clear() must not switch to a new file
+    std::lock_guard<std::mutex> log_file_lock(log_file_mutex_);
     robot_state_log_queue_mutex_.unlock();
 
     double time_diff = state_log_ptr->get_time() - last_pub_t_;
@@ -316,8 +318,8 @@ void InekfEstimator::clear() {
   while (!robot_state_log_queue_ptr_.get()->empty()) {
     robot_state_log_queue_ptr_.get()->pop();
   }
-  robot_state_log_queue_mutex_.unlock();
   if (enable_pose_logger_) {
+    std::lock_guard<std::mutex> log_file_lock(log_file_mutex_);
     outfile_.close();
     outfile_.open(pose_log_file_ + '_' + std::to_string(++init_count_)
                   + ".txt");
@@ -331,6 +333,7 @@ void InekfEstimator::clear() {
                            + std::to_string(++init_count_) + ".txt");
     vel_body_outfile_.precision(dbl::max_digits10);
   }
+  robot_state_log_queue_mutex_.unlock();
 }
 
 void InekfEstimator::SlipEstimatorStep() {
-- 
2.43.0


From 40072e5203cd244cdb0604c5174834fab5dc1043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 16/49] fix: restart the log rate limiter after clear()

A session whose times lie before the last logged time of the previous one was
not logged at all.
---
 src/estimator/inekf_estimator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/estimator/inekf_estimator.cpp b/src/estimator/inekf_estimator.cpp
index b85b0a9..fc3e37b 100644
--- a/src/estimator/inekf_estimator.cpp
+++ b/src/estimator/inekf_estimator.cpp
@@ -332,6 +332,7 @@ void InekfEstimator::clear() {
     vel_body_outfile_.open(vel_log_file_ + "_body_frame_"
                            + std::to_string(++init_count_) + ".txt");
     vel_body_outfile_.precision(dbl::max_digits10);
+    last_pub_t_ = 0.0;
   }
   robot_state_log_queue_mutex_.unlock();
 }
-- 
2.43.0


From 2ad43963510e85af7205f3bd60eec687f23c210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 17/49] fix: write the remaining states to the logs before
 shutting down

The logging thread left its queue unwritten when the estimator was destroyed.
---
 src/estimator/inekf_estimator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/estimator/inekf_estimator.cpp b/src/estimator/inekf_estimator.cpp
index fc3e37b..218c889 100644
--- a/src/estimator/inekf_estimator.cpp
+++ b/src/estimator/inekf_estimator.cpp
@@ -132,11 +132,16 @@ void InekfEstimator::StartLoggingThread() {
 
 void InekfEstimator::PoseLoggingThread() {
   // logger, tum style
-  while (stop_signal_ == false) {
+  while (true) {
+    // Everything queued before the stop signal is still written
+    const bool stopping = stop_signal_;
     // Get new pose data for logger
     robot_state_log_queue_mutex_.lock();
     if (robot_state_log_queue_ptr_.get()->empty()) {
       robot_state_log_queue_mutex_.unlock();
+      if (stopping) {
+        break;
+      }
       continue;
     }
 
-- 
2.43.0


From 4c1a50c85295e44318cce032a43725418e2178d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 18/49] fix: log file names in directories with a dot

A path without extension was cut at the last dot of its directory part.
---
 src/estimator/inekf_estimator.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/estimator/inekf_estimator.cpp b/src/estimator/inekf_estimator.cpp
index 218c889..3e2270e 100644
--- a/src/estimator/inekf_estimator.cpp
+++ b/src/estimator/inekf_estimator.cpp
@@ -49,13 +49,14 @@ InekfEstimator::InekfEstimator(ErrorType error_type, std::string config_file)
     // Erase the ".txt" or ".csv" from the file name.
     // This is helpful to make new file names when InekfEstimator::clear() is
     // called
-    std::string::size_type pos = pose_log_file_.find_last_of(".");
-    if (pos != std::string::npos)
+    // Dots in the directory part do not start an extension
+    std::string::size_type pos = pose_log_file_.find_last_of("./");
+    if (pos != std::string::npos && pose_log_file_[pos] == '.')
       pose_log_file_.erase(pos, pose_log_file_.length());
 
 
-    std::string::size_type v_pos = vel_log_file_.find_last_of(".");
-    if (v_pos != std::string::npos)
+    std::string::size_type v_pos = vel_log_file_.find_last_of("./");
+    if (v_pos != std::string::npos && vel_log_file_[v_pos] == '.')
       vel_log_file_.erase(v_pos, vel_log_file_.length());
 
     // Define logger settings
-- 
2.43.0


From cd8b6e923192eaafec5997f5534b40c2ed967ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 19/49] fix: type of leg measurements constructed from data

Only the default constructor set the measurement type.
---
 src/measurement/legged_kinematics.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/measurement/legged_kinematics.cpp b/src/measurement/legged_kinematics.cpp
index 9c78471..e48df08 100644
--- a/src/measurement/legged_kinematics.cpp
+++ b/src/measurement/legged_kinematics.cpp
@@ -21,7 +21,9 @@ LeggedKinematicsMeasurement::LeggedKinematicsMeasurement(
     const Eigen::Matrix<double, Eigen::Dynamic, 1>& encoders,
     const Eigen::Matrix<double, Eigen::Dynamic, 1>& d_encoders,
     const Eigen::Matrix<bool, Eigen::Dynamic, 1>& contacts)
-    : encoders_(encoders), d_encoders_(d_encoders), contacts_(contacts) {}
+    : encoders_(encoders), d_encoders_(d_encoders), contacts_(contacts) {
+  type_ = LEGGED_KINEMATICS;
+}
 
 void LeggedKinematicsMeasurement::set_contact(
     const Eigen::Matrix<bool, Eigen::Dynamic, 1>& contacts) {
-- 
2.43.0


From a43f97e482df17a5d9f7ae7276c0df0fc47a9588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 20/49] fix: size the joint velocities of an empty mini cheetah
 measurement

The initial velocity multiplies them with the Jacobian of the leg.
---
 src/kinematics/mini_cheetah_kinematics.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinematics/mini_cheetah_kinematics.cpp b/src/kinematics/mini_cheetah_kinematics.cpp
index 85b9fca..84962bf 100644
--- a/src/kinematics/mini_cheetah_kinematics.cpp
+++ b/src/kinematics/mini_cheetah_kinematics.cpp
@@ -26,6 +26,7 @@ MiniCheetahKinematics::MiniCheetahKinematics() {
   jacobians_.setConstant(3, NLEG * NAPL, 0);
   contacts_.setConstant(NLEG, 1, 0);
   encoders_.setConstant(NLEG * NAPL, 1, 0);
+  d_encoders_.setConstant(NLEG * NAPL, 1, 0);
 }
 
 MiniCheetahKinematics::MiniCheetahKinematics(
-- 
2.43.0


From 9af22317e95459119238665213eb487fedf010e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 21/49] fix: destroy a gyro filter whose thread was never
 started

Joining a thread that does not exist throws out of the destructor.
---
 src/imu_filter/imu_ang_vel_ekf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index c749132..6b9b9b9 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -325,7 +325,9 @@ ImuAngVelEKF::ImuAngVelEKF(const std::string& yaml_filepath)
 // IMU filter destructor
 ImuAngVelEKF::~ImuAngVelEKF() {
   stop_thread_ = true;
-  imu_filter_thread_.join();
+  if (imu_filter_thread_.joinable()) {
+    imu_filter_thread_.join();
+  }
   imu_propagate_input_outfile_.close();
   imu_propagate_outfile_.close();
   imu_ang_vel_outfile_.close();
-- 
2.43.0


From dc44913f2e50f8c635faad4e447f6cc3ca5deead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 22/49] fix: read the number of static samples in every gyro
 filter constructor

The one that takes the buffers left it indeterminate.
---
 src/imu_filter/imu_ang_vel_ekf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 6b9b9b9..505c29a 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -65,6 +65,10 @@ ImuAngVelEKF::ImuAngVelEKF(
           ? config_["settings"]["correction_method"].as<int>()
           : 0);
 
+  init_bias_size_ = config_["settings"]["init_bias_size"]
+                        ? config_["settings"]["init_bias_size"].as<int>()
+                        : 250;
+
   // Set the initial bias
   static_bias_initialization_
       = config_["settings"]["static_bias_initialization"]
-- 
2.43.0


From 52e9d0cad29420c7e08e00ef5373d0aeb6413c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 23/49] fix: gyro filter initialization without static samples

The average over no samples made the bias and every output NaN.
---
 src/imu_filter/imu_ang_vel_ekf.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 505c29a..81cf3aa 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -476,6 +476,12 @@ void ImuAngVelEKF::InitializeFilter() {
 
   // std::cout << "bias_init set to " << static_bias_initialization_ <<
   // std::endl;
+  if (static_bias_initialization_ && init_bias_size_ <= 0) {
+    // Without samples to average, the initial bias is kept
+    filter_initialized_ = true;
+    return;
+  }
+
   if (bias_init_vec_.size() < init_bias_size_ && static_bias_initialization_) {
     imu_data_buffer_mutex_ptr_.get()->lock();
     if (imu_data_buffer_ptr_->empty()) {
-- 
2.43.0


From cfac4c0fe8966c0986c7040c717d9e2c1fe94626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 24/49] fix: gyro filter corrections while the buffers are
 cleared

The sample was looked at and removed in two steps; if clear() emptied the buffer
in between, the removal popped an empty queue.
---
 src/imu_filter/imu_ang_vel_ekf.cpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 81cf3aa..0e9d148 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -659,14 +659,22 @@ void ImuAngVelEKF::SingleImuAngVelCorrection() {
     }
 
     imu_data_buffer_mutex_ptr_.get()->lock();
-    imu_data_buffer_ptr_.get()->pop();
+    // The buffer may have been cleared in the meantime
+    if (!imu_data_buffer_ptr_->empty()
+        && imu_data_buffer_ptr_->front() == imu_measurement) {
+      imu_data_buffer_ptr_.get()->pop();
+    }
     imu_data_buffer_mutex_ptr_.get()->unlock();
     return;
   }
 
   if (ang_vel_measurement && !latest_imu_measurement_) {
     ang_vel_data_buffer_mutex_ptr_.get()->lock();
-    ang_vel_data_buffer_ptr_.get()->pop();
+    // The buffer may have been cleared in the meantime
+    if (!ang_vel_data_buffer_ptr_->empty()
+        && ang_vel_data_buffer_ptr_->front() == ang_vel_measurement) {
+      ang_vel_data_buffer_ptr_->pop();
+    }
     ang_vel_data_buffer_mutex_ptr_.get()->unlock();
     return;
   }
@@ -683,7 +691,11 @@ void ImuAngVelEKF::SingleImuAngVelCorrection() {
     }
 
     ang_vel_data_buffer_mutex_ptr_.get()->lock();
-    ang_vel_data_buffer_ptr_->pop();
+    // The buffer may have been cleared in the meantime
+    if (!ang_vel_data_buffer_ptr_->empty()
+        && ang_vel_data_buffer_ptr_->front() == ang_vel_measurement) {
+      ang_vel_data_buffer_ptr_->pop();
+    }
     ang_vel_data_buffer_mutex_ptr_.get()->unlock();
     return;
   }
@@ -704,7 +716,11 @@ void ImuAngVelEKF::AngVelCorrection() {
 
   if (ang_vel_measurement && !latest_imu_measurement_) {
     ang_vel_data_buffer_mutex_ptr_.get()->lock();
-    ang_vel_data_buffer_ptr_->pop();
+    // The buffer may have been cleared in the meantime
+    if (!ang_vel_data_buffer_ptr_->empty()
+        && ang_vel_data_buffer_ptr_->front() == ang_vel_measurement) {
+      ang_vel_data_buffer_ptr_->pop();
+    }
     ang_vel_data_buffer_mutex_ptr_.get()->unlock();
     return;
   }
@@ -718,7 +734,11 @@ void ImuAngVelEKF::AngVelCorrection() {
     filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
 
     ang_vel_data_buffer_mutex_ptr_.get()->lock();
-    ang_vel_data_buffer_ptr_->pop();
+    // The buffer may have been cleared in the meantime
+    if (!ang_vel_data_buffer_ptr_->empty()
+        && ang_vel_data_buffer_ptr_->front() == ang_vel_measurement) {
+      ang_vel_data_buffer_ptr_->pop();
+    }
     ang_vel_data_buffer_mutex_ptr_.get()->unlock();
     return;
   }
-- 
2.43.0


From e622a60bb6daa72d45e231e9eccd0429b5be4349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 25/49] fix: outdated samples jammed the single-imu gyro filter

A sample older than the threshold stayed at the head of the queue forever, and
without gyro propagation no sample was ever used.
---
 src/imu_filter/imu_ang_vel_ekf.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 0e9d148..ac47f76 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -564,22 +564,23 @@ void ImuAngVelEKF::SingleImuCorrection() {
 
   ImuMeasurementPtr imu_measurement = imu_data_buffer_ptr_.get()->front();
 
-  // Only perform correction step if with data prior to the propagation time
-  // and the time gap is smaller than a threshold
-  /// TODO: double check if we need absolute here?
-  // if (last_propagate_time_ == -1
-  // || last_propagate_time_ - imu_measurement->get_time() <= t_thres_) {
-  if (last_propagate_time_ - imu_measurement->get_time() <= t_thres_
-      && last_propagate_time_ >= imu_measurement->get_time()) {
-    imu_data_buffer_ptr_.get()->pop();
+  // Keep data from after the propagation time for later
+  if (propagation_method_ == GYRO
+      && last_propagate_time_ < imu_measurement->get_time()) {
     imu_data_buffer_mutex_ptr_.get()->unlock();
+    return;
+  }
+  imu_data_buffer_ptr_.get()->pop();
+  imu_data_buffer_mutex_ptr_.get()->unlock();
 
+  // Only perform correction step if with data prior to the propagation time
+  // and the time gap is smaller than a threshold
+  if (propagation_method_ != GYRO
+      || last_propagate_time_ - imu_measurement->get_time() <= t_thres_) {
     auto fused_ang_imu = AngVelFilterCorrectIMU(imu_measurement);
     filtered_imu_data_buffer_mutex_ptr_.get()->lock();
     filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
     filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
-  } else {
-    imu_data_buffer_mutex_ptr_.get()->unlock();
   }
 }
 
-- 
2.43.0


From a91da80ce099a2a73c678917430d37b6519c6220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 26/49] fix: use the first imu in the multi-imu gyro filter

Only the second and later ones were added to the list it reads from.
---
 src/imu_filter/imu_ang_vel_ekf.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index ac47f76..78ef178 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -355,11 +355,10 @@ void ImuAngVelEKF::add_imu_correction(
     // For single imu version:
     imu_data_buffer_ptr_ = imu_data_buffer_ptr;
     imu_data_buffer_mutex_ptr_ = imu_data_buffer_mutex_ptr;
-  } else {
-    // For all other versions:
-    imu_data_buffer_ptrs_.push_back(imu_data_buffer_ptr);
-    imu_data_buffer_mutex_ptrs_.push_back(imu_data_buffer_mutex_ptr);
   }
+  // For all other versions:
+  imu_data_buffer_ptrs_.push_back(imu_data_buffer_ptr);
+  imu_data_buffer_mutex_ptrs_.push_back(imu_data_buffer_mutex_ptr);
 }
 
 void ImuAngVelEKF::add_ang_vel_correction(
-- 
2.43.0


From 5b673a18d43f0dc227eccc3b436f41372d54350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 27/49] fix: do not emit the previous imu's sample again for an
 outdated one

An outdated sample of a later imu repeated the fused sample of the one before.
---
 src/imu_filter/imu_ang_vel_ekf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 78ef178..f0acd19 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -585,10 +585,10 @@ void ImuAngVelEKF::SingleImuCorrection() {
 
 void ImuAngVelEKF::MultiImuCorrection() {
   ImuMeasurementPtr imu_measurement = nullptr;
-  ImuMeasurementPtr fused_ang_imu = nullptr;
 
   // Bias corrected IMU measurements
   for (int i = 0; i < imu_data_buffer_mutex_ptrs_.size(); i++) {
+    ImuMeasurementPtr fused_ang_imu = nullptr;
     imu_data_buffer_mutex_ptrs_[i].get()->lock();
     if (imu_data_buffer_ptrs_[i]->empty()) {
       imu_data_buffer_mutex_ptrs_[i].get()->unlock();
-- 
2.43.0


From e5474dd883808ce6df9d686ef4d2f07309369e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 28/49] fix: clear every buffer the gyro filter uses

The gyro propagation and further imu buffers were kept, and a filter without an
imu or encoder correction dereferenced a null buffer.
---
 src/imu_filter/imu_ang_vel_ekf.cpp | 36 +++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index f0acd19..fc1f099 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -900,19 +900,39 @@ ImuAngVelEKF::get_filtered_imu_data_buffer_and_mutex_ptr() {
 };
 
 void ImuAngVelEKF::clear() {
+  // Clear gyro propagation data buffer
+  if (gyro_prop_data_buffer_ptr_) {
+    gyro_prop_data_buffer_mutex_ptr_.get()->lock();
+    while (!gyro_prop_data_buffer_ptr_->empty()) {
+      gyro_prop_data_buffer_ptr_->pop();
+    }
+    gyro_prop_data_buffer_mutex_ptr_.get()->unlock();
+  }
+
   // Clear Imu data buffer
-  imu_data_buffer_mutex_ptr_.get()->lock();
-  while (!imu_data_buffer_ptr_->empty()) {
-    imu_data_buffer_ptr_->pop();
+  if (imu_data_buffer_ptr_) {
+    imu_data_buffer_mutex_ptr_.get()->lock();
+    while (!imu_data_buffer_ptr_->empty()) {
+      imu_data_buffer_ptr_->pop();
+    }
+    imu_data_buffer_mutex_ptr_.get()->unlock();
+  }
+  for (int i = 0; i < imu_data_buffer_ptrs_.size(); i++) {
+    imu_data_buffer_mutex_ptrs_[i].get()->lock();
+    while (!imu_data_buffer_ptrs_[i]->empty()) {
+      imu_data_buffer_ptrs_[i]->pop();
+    }
+    imu_data_buffer_mutex_ptrs_[i].get()->unlock();
   }
-  imu_data_buffer_mutex_ptr_.get()->unlock();
 
   // Clear angular velocity data buffer
-  ang_vel_data_buffer_mutex_ptr_.get()->lock();
-  while (!ang_vel_data_buffer_ptr_->empty()) {
-    ang_vel_data_buffer_ptr_->pop();
+  if (ang_vel_data_buffer_ptr_) {
+    ang_vel_data_buffer_mutex_ptr_.get()->lock();
+    while (!ang_vel_data_buffer_ptr_->empty()) {
+      ang_vel_data_buffer_ptr_->pop();
+    }
+    ang_vel_data_buffer_mutex_ptr_.get()->unlock();
   }
-  ang_vel_data_buffer_mutex_ptr_.get()->unlock();
 
   // Clear filtered_imu_data_buffer
   filtered_imu_data_buffer_mutex_ptr_.get()->lock();
-- 
2.43.0


From b3ac2d9c524bb33bca412bfa6780dcc02172b72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 29/49] fix: look at the state queue under its lock when
 publishing

The emptiness check raced with the estimator, and with its clear() the front of
an empty queue could be taken.
---
 ROS/drift/src/communication/ros_publisher.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ROS/drift/src/communication/ros_publisher.cpp b/ROS/drift/src/communication/ros_publisher.cpp
index 27c6530..e4bd489 100644
--- a/ROS/drift/src/communication/ros_publisher.cpp
+++ b/ROS/drift/src/communication/ros_publisher.cpp
@@ -94,12 +94,12 @@ void ROSPublisher::StartPublishingThread() {
 
 // Publishes pose
 void ROSPublisher::PosePublish() {
+  // Get the first pose
+  robot_state_queue_mutex_.get()->lock();
   if (robot_state_queue_ptr_->empty()) {
+    robot_state_queue_mutex_.get()->unlock();
     return;
   }
-
-  // Get the first pose
-  robot_state_queue_mutex_.get()->lock();
   const std::shared_ptr<RobotState> state_ptr = robot_state_queue_ptr_->front();
   robot_state_queue_ptr_->pop();
   robot_state_queue_mutex_.get()->unlock();
-- 
2.43.0


From fed0d03fbd8c53b4b166cd144a565a00ffc97288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 30/49] fix: order of the published pose covariance

The message wants position before rotation; the rotation and velocity blocks were
sent as position and rotation.
---
 ROS/drift/src/communication/ros_publisher.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ROS/drift/src/communication/ros_publisher.cpp b/ROS/drift/src/communication/ros_publisher.cpp
index e4bd489..6db618e 100644
--- a/ROS/drift/src/communication/ros_publisher.cpp
+++ b/ROS/drift/src/communication/ros_publisher.cpp
@@ -131,9 +131,11 @@ void ROSPublisher::PosePublish() {
   // Get the 6x6 covariance matrix in the following order:
   // (x, y, z, rotation about X axis, rotation about Y axis, rotation
   // about Z axis)
+  // The state covariance is ordered (rotation, velocity, position, ...)
+  const int pose_idx[6] = {6, 7, 8, 0, 1, 2};
   for (int i = 0; i < 6; i++) {
     for (int j = 0; j < 6; j++) {
-      pose_msg.pose.covariance[i * 6 + j] = cov(i, j);
+      pose_msg.pose.covariance[i * 6 + j] = cov(pose_idx[i], pose_idx[j]);
     }
   }
 
-- 
2.43.0


From b092007d2eaee690a854583392c25e1cf13d64b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 31/49] fix: keep the slip publisher setting given to the
 constructor

The parameter hides the member of the same name, which stayed indeterminate.
---
 ROS/drift/src/communication/ros_publisher.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ROS/drift/src/communication/ros_publisher.cpp b/ROS/drift/src/communication/ros_publisher.cpp
index 6db618e..4f1ed7a 100644
--- a/ROS/drift/src/communication/ros_publisher.cpp
+++ b/ROS/drift/src/communication/ros_publisher.cpp
@@ -22,6 +22,7 @@ ROSPublisher::ROSPublisher(ros::NodeHandle* nh,
     : nh_(nh),
       robot_state_queue_ptr_(robot_state_queue_ptr),
       robot_state_queue_mutex_(robot_state_queue_mutex),
+      enable_slip_publisher_(enable_slip_publisher_),
       thread_started_(false) {
   std::string pose_topic = "/robot/inekf_estimation/pose";
   std::string path_topic = "/robot/inekf_estimation/path";
-- 
2.43.0


From e3f02596525d72232ca46f6096b6c3c0a3fbcbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 32/49] fix: ignore encoder and contact messages with missing
 entries

They were read beyond the end of their arrays.
---
 ROS/drift/src/communication/ros_subscriber.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ROS/drift/src/communication/ros_subscriber.cpp b/ROS/drift/src/communication/ros_subscriber.cpp
index 180d861..bb2acdf 100644
--- a/ROS/drift/src/communication/ros_subscriber.cpp
+++ b/ROS/drift/src/communication/ros_subscriber.cpp
@@ -408,6 +408,11 @@ void ROSSubscriber::DifferentialEncoder2VelocityCallback(
           + encoder_msg->header.stamp.nsec / 1000000000.0,
       encoder_msg->header.frame_id);
 
+  // One velocity per wheel is needed
+  if (encoder_msg->velocity.size() < 4) {
+    return;
+  }
+
   double vr = (encoder_msg->velocity[1] + encoder_msg->velocity[3]) / 2.0
               * wheel_radius;
   double vl = (encoder_msg->velocity[0] + encoder_msg->velocity[2]) / 2.0
@@ -445,6 +450,11 @@ void ROSSubscriber::DifferentialEncoder2VelocityCallback(
           + encoder_msg->header.stamp.nsec / 1000000000.0,
       encoder_msg->header.frame_id);
 
+  // One velocity per wheel is needed
+  if (encoder_msg->velocity.size() < 4) {
+    return;
+  }
+
   double vr = (encoder_msg->velocity[1] + encoder_msg->velocity[3]) / 2.0
               * wheel_radius;
   double vl = (encoder_msg->velocity[0] + encoder_msg->velocity[2]) / 2.0
@@ -547,6 +557,12 @@ void ROSSubscriber::MiniCheetahKinCallBack(
         contact_msg,
     const boost::shared_ptr<const sensor_msgs::JointState>& encoder_msg,
     const std::shared_ptr<std::mutex>& mutex, LeggedKinQueuePtr& kin_queue) {
+  // Messages without the data of all legs can't be used
+  if (contact_msg->contacts.size() < 4 || encoder_msg->position.size() < 12
+      || encoder_msg->velocity.size() < 12) {
+    return;
+  }
+
   // Create a legged kinematics measurement object
   // Set headers and time stamps
   std::shared_ptr<kinematics::MiniCheetahKinematics> kin_measurement(
-- 
2.43.0


From 48bbbe0943b86d259087ce37f3dfadd5d031479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 33/49] fix: keep one mounting per odometry source

Adding a second source replaced the mounting of the first.
---
 ROS/drift/include/communication/ros_subscriber.h |  4 +++-
 ROS/drift/src/communication/ros_subscriber.cpp   | 12 +++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/ROS/drift/include/communication/ros_subscriber.h b/ROS/drift/include/communication/ros_subscriber.h
index a55a18a..a5021e5 100644
--- a/ROS/drift/include/communication/ros_subscriber.h
+++ b/ROS/drift/include/communication/ros_subscriber.h
@@ -420,7 +420,9 @@ class ROSSubscriber {
   std::vector<std::shared_ptr<std::mutex>> mutex_list_;    // List of mutexes
   std::unordered_map<int, OdomMeasurementPtr>
       prev_odom_map_;                   // odom_src_id -> prev_odom_measurement
-  Eigen::Matrix4d odom_src_to_body_;    // Camera to body transformation matrix
+  std::unordered_map<int, Eigen::Matrix4d>
+      odom_src_to_body_map_;    // odom_src_id -> camera to body transformation
+                                // matrix
 
 
   bool thread_started_;    // Flag of the thread started, true for started,
diff --git a/ROS/drift/src/communication/ros_subscriber.cpp b/ROS/drift/src/communication/ros_subscriber.cpp
index bb2acdf..a66e4ba 100644
--- a/ROS/drift/src/communication/ros_subscriber.cpp
+++ b/ROS/drift/src/communication/ros_subscriber.cpp
@@ -249,12 +249,12 @@ VelocityQueuePair ROSSubscriber::AddOdom2VelocityCallback(
   mutex_list_.emplace_back(new std::mutex);
 
   // Calculate the transformation from odometry source to body
-  odom_src_to_body_ = Eigen::Matrix4d::Identity();
+  Eigen::Matrix4d odom_src_to_body = Eigen::Matrix4d::Identity();
   Eigen::Quaternion<double> orientation_quat(
       rotation_odomsrc2body[0], rotation_odomsrc2body[1],
       rotation_odomsrc2body[2], rotation_odomsrc2body[3]);
-  odom_src_to_body_.block<3, 3>(0, 0) = orientation_quat.toRotationMatrix();
-  odom_src_to_body_.block<3, 1>(0, 3) = Eigen::Vector3d(
+  odom_src_to_body.block<3, 3>(0, 0) = orientation_quat.toRotationMatrix();
+  odom_src_to_body.block<3, 1>(0, 3) = Eigen::Vector3d(
       {translation_odomsrc2body[0], translation_odomsrc2body[1],
        translation_odomsrc2body[2]});
 
@@ -262,6 +262,7 @@ VelocityQueuePair ROSSubscriber::AddOdom2VelocityCallback(
   // odometry sources
   //   OdomMeasurementPtr odom_ptr(new OdomMeasurement);
   prev_odom_map_[odom_src_id_] = nullptr;
+  odom_src_to_body_map_[odom_src_id_] = odom_src_to_body;
 
   // Create the subscriber
   subscriber_list_.push_back(nh_->subscribe<nav_msgs::Odometry>(
@@ -675,9 +676,10 @@ void ROSSubscriber::Odom2VelocityCallback(
   // Set current odometry as previous odometry
   prev_odom_map_[odom_src_id] = odom_ptr;
 
-  Eigen::Matrix4d transformation = odom_src_to_body_.inverse()
+  const Eigen::Matrix4d& odom_src_to_body = odom_src_to_body_map_[odom_src_id];
+  Eigen::Matrix4d transformation = odom_src_to_body.inverse()
                                    * prev_transformation.inverse()
-                                   * curr_transformation * odom_src_to_body_;
+                                   * curr_transformation * odom_src_to_body;
   Eigen::Matrix4d twist_se3 = transformation.log();
 
   std::shared_ptr<VelocityMeasurement<double>> vel_measurement(
-- 
2.43.0


From dd0676f2cd813f2ac55322c18738ccf3a2c9a50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 34/49] fix: wheel odometry log file names in directories with
 a dot

A path without extension was cut at the last dot of its directory part.
---
 baselines/src/wheel_odometry/wheel_odometry.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/baselines/src/wheel_odometry/wheel_odometry.cpp b/baselines/src/wheel_odometry/wheel_odometry.cpp
index a6b0bfa..a3bd54c 100644
--- a/baselines/src/wheel_odometry/wheel_odometry.cpp
+++ b/baselines/src/wheel_odometry/wheel_odometry.cpp
@@ -39,8 +39,9 @@ WheelOdometry::WheelOdometry(VelocityQueuePtr vel_queue,
     // Erase the ".txt" or ".csv" from the file name.
     // This is helpful to make new file names when InekfEstimator::clear() is
     // called
-    std::string::size_type pos = pose_log_file_.find_last_of(".");
-    if (pos != std::string::npos)
+    // Dots in the directory part do not start an extension
+    std::string::size_type pos = pose_log_file_.find_last_of("./");
+    if (pos != std::string::npos && pose_log_file_[pos] == '.')
       pose_log_file_.erase(pos, pose_log_file_.length());
 
     // Define logger settings
-- 
2.43.0


From ea0f25c9a957938aef923d87c83b46237041af00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 35/49] fix: rotate the initial angular velocity into the body
 frame

The legs' initial velocity is computed from it in the body frame.
---
 src/filter/inekf/propagation/imu_propagation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 9462e4d..80fcbcd 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -543,7 +543,8 @@ bool ImuPropagation::set_initial_state(RobotState& state) {
 
   state.set_rotation(R0);
   state.set_position(p0);
-  state.set_body_angular_velocity(imu_measurement->get_angular_velocity());
+  state.set_body_angular_velocity(R_imu2body_
+                                  * imu_measurement->get_angular_velocity());
 
   // Set the initial bias
   state.set_gyroscope_bias(bg0_);
-- 
2.43.0


From 7e811ca4b064eb9b9ad701306794d8bba2520550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 36/49] fix: a reset forgets the previous IMU measurement

A step between clear() and InitState() propagated the cleared state with
it, and InitState() keeps the resulting cross covariances.
---
 src/filter/inekf/propagation/imu_propagation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 80fcbcd..554eb6b 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -572,5 +572,6 @@ void ImuPropagation::clear() {
     sensor_data_buffer_ptr_->pop();
   }
   sensor_data_buffer_mutex_ptr_.get()->unlock();
+  prev_imu_measurement_ = nullptr;
 }
 }    // namespace filter::inekf
\ No newline at end of file
-- 
2.43.0


From dff827dec6a708d0244e27236c976570988fca7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 37/49] fix: clearing a state also resets its times and flags

---
 src/state/robot_state.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index df41573..abcda81 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -427,6 +427,10 @@ void RobotState::clear() {
   column_id_to_corr_map_
       = std::vector<std::shared_ptr<int>>(this->dimX(), nullptr);
   body_ang_vel_ = Eigen::Vector3d::Zero();
+  t_ = 0;
+  t_prop_ = 0;
+  enable_imu_bias_update_ = false;
+  slip_flag_ = 0;
 }
 
 void RobotState::set_slip_flag(int slip_flag) { slip_flag_ = slip_flag; }
-- 
2.43.0


From b5599a3781dac3ea5df4f29209762e5ed62bb48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 38/49] fix: delete a column in front of one without an index

---
 src/state/robot_state.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index abcda81..f128df7 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -178,7 +178,10 @@ void RobotState::del_aug_state(int matrix_idx) {
   int dimX = this->dimX();
   for (int i = matrix_idx; i < dimX - 1; i++) {
     column_id_to_corr_map_[i] = column_id_to_corr_map_[i + 1];
-    *(column_id_to_corr_map_[i]) -= 1;
+    // Columns that were not added by a correction have no index to keep
+    if (column_id_to_corr_map_[i]) {
+      *(column_id_to_corr_map_[i]) -= 1;
+    }
   }
   column_id_to_corr_map_.pop_back();
   RemoveRowAndColumn(X_, matrix_idx, 1);
-- 
2.43.0


From 3748496f57a7357f5eaeedf4d76c3065e03ef842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:15 +0000
Subject: [PATCH 39/49] fix: keep the original line endings of lie_group.cpp

---
 src/math/lie_group.cpp | 316 ++++++++++++++++++++---------------------
 1 file changed, 158 insertions(+), 158 deletions(-)

diff --git a/src/math/lie_group.cpp b/src/math/lie_group.cpp
index 76df183..8b3eb6a 100644
--- a/src/math/lie_group.cpp
+++ b/src/math/lie_group.cpp
@@ -1,158 +1,158 @@
-/* ----------------------------------------------------------------------------
- * Copyright 2023, CURLY Lab, University of Michigan
- * All Rights Reserved
- * See LICENSE for the license information
- * -------------------------------------------------------------------------- */
-
-/**
- *  @file   lie_group.cpp
- *  @author Ross Hartley, Tzu-Yuan Lin
- *  @brief  Source file for various Lie Group functions
- *  @date   May 16, 2023
- **/
-
-#include "drift/math/lie_group.h"
-
-namespace math::lie_group {
-
-using namespace std;
-
-const double TOLERANCE = 1e-10;
-
-long int factorial(int n) {
-  return (n == 1 || n == 0) ? 1 : factorial(n - 1) * n;
-}
-
-Eigen::Matrix3d skew(const Eigen::Vector3d& v) {
-  // Convert vector to skew-symmetric matrix
-  Eigen::Matrix3d M = Eigen::Matrix3d::Zero();
-  M << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
-  return M;
-}
-
-Eigen::Matrix3d Gamma_SO3(const Eigen::Vector3d& w, int m) {
-  // Computes mth integral of the exponential map: \Gamma_m =
-  // \sum_{n=0}^{\infty} \dfrac{1}{(n+m)!} (w^\wedge)^n
-  assert(m >= 0);
-  Eigen::Matrix3d I = Eigen::Matrix3d::Identity();
-  double theta = w.norm();
-  if (theta < TOLERANCE) {
-    return (1.0 / factorial(m))
-           * I;    // TODO: There is a better small value approximation for
-                   // exp() given in Trawny p.19
-  }
-  Eigen::Matrix3d A = skew(w);
-  double theta2 = theta * theta;
-
-  // The closed forms for m >= 2 divide differences of nearly equal numbers by
-  // theta^m: sum the (quickly converging) series for small angles instead
-  if (m >= 2 && theta < 0.5) {
-    Eigen::Matrix3d term = (1.0 / factorial(m)) * I;
-    Eigen::Matrix3d sum = term;
-    for (int n = 1; n <= 16; ++n) {
-      term = (term * A / (n + m)).eval();
-      sum += term;
-    }
-    return sum;
-  }
-
-  // Closed form solution for the first 3 cases
-  switch (m) {
-    case 0:    // Exp map of SO(3)
-      return I + (sin(theta) / theta) * A + ((1 - cos(theta)) / theta2) * A * A;
-
-    case 1:    // Left Jacobian of SO(3)
-      // eye(3) - A*(1/theta^2) * (R - eye(3) - A);
-      // eye(3) + (1-cos(theta))/theta^2 * A + (theta-sin(theta))/theta^3 * A^2;
-      return I + ((1 - cos(theta)) / theta2) * A
-             + ((theta - sin(theta)) / (theta2 * theta)) * A * A;
-
-    case 2:
-      // 0.5*eye(3) - (1/theta^2) * (R - eye(3) - A - 0.5*A^2);
-      // 0.5*eye(3) + (theta-sin(theta))/theta^3 * A + (2*(cos(theta)-1) +
-      // theta^2)/(2*theta^4) * A^2
-      return 0.5 * I + (theta - sin(theta)) / (theta2 * theta) * A
-             + (theta2 + 2 * cos(theta) - 2) / (2 * theta2 * theta2) * A * A;
-
-    default:    // General case
-      Eigen::Matrix3d R
-          = I + (sin(theta) / theta) * A + ((1 - cos(theta)) / theta2) * A * A;
-      Eigen::Matrix3d S = I;
-      Eigen::Matrix3d Ak = I;
-      long int kfactorial = 1;
-      for (int k = 1; k <= m; ++k) {
-        kfactorial = kfactorial * k;
-        Ak = (Ak * A).eval();
-        S = (S + (1.0 / kfactorial) * Ak).eval();
-      }
-      if (m == 0) {
-        return R;
-      } else if (m % 2) {    // odd
-        return (1.0 / kfactorial) * I
-               + (pow(-1, (m + 1) / 2) / pow(theta, m + 1)) * A * (R - S);
-      } else {    // even
-        return (1.0 / kfactorial) * I
-               + (pow(-1, m / 2) / pow(theta, m)) * (R - S);
-      }
-  }
-}
-
-Eigen::Matrix3d Exp_SO3(const Eigen::Vector3d& w) {
-  // Computes the vectorized exponential map for SO(3)
-  return Gamma_SO3(w, 0);
-}
-
-Eigen::Matrix3d LeftJacobian_SO3(const Eigen::Vector3d& w) {
-  // Computes the Left Jacobian of SO(3)
-  return Gamma_SO3(w, 1);
-}
-
-Eigen::Matrix3d RightJacobian_SO3(const Eigen::Vector3d& w) {
-  // Computes the Right Jacobian of SO(3)
-  return Gamma_SO3(-w, 1);
-}
-
-Eigen::MatrixXd Exp_SEK3(const Eigen::VectorXd& v) {
-  // Computes the vectorized exponential map for SE_K(3)
-  int K = (v.size() - 3) / 3;
-  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(3 + K, 3 + K);
-  Eigen::Matrix3d R;
-  Eigen::Matrix3d Jl;
-  Eigen::Vector3d w = v.head(3);
-  double theta = w.norm();
-  Eigen::Matrix3d I = Eigen::Matrix3d::Identity();
-  if (theta < TOLERANCE) {
-    R = I;
-    Jl = I;
-  } else {
-    Eigen::Matrix3d A = skew(w);
-    double theta2 = theta * theta;
-    double stheta = sin(theta);
-    double ctheta = cos(theta);
-    double oneMinusCosTheta2 = (1 - ctheta) / (theta2);
-    Eigen::Matrix3d A2 = A * A;
-    R = I + (stheta / theta) * A + oneMinusCosTheta2 * A2;
-    Jl = I + oneMinusCosTheta2 * A + ((theta - stheta) / (theta2 * theta)) * A2;
-  }
-  X.block<3, 3>(0, 0) = R;
-  for (int i = 0; i < K; ++i) {
-    X.block<3, 1>(0, 3 + i) = Jl * v.segment<3>(3 + 3 * i);
-  }
-  return X;
-}
-
-Eigen::MatrixXd Adjoint_SEK3(const Eigen::MatrixXd& X) {
-  // Compute Adjoint(X) for X in SE_K(3)
-  int K = X.cols() - 3;
-  Eigen::MatrixXd Adj = Eigen::MatrixXd::Zero(3 + 3 * K, 3 + 3 * K);
-  Eigen::Matrix3d R = X.block<3, 3>(0, 0);
-  Adj.block<3, 3>(0, 0) = R;
-  for (int i = 0; i < K; ++i) {
-    Adj.block<3, 3>(3 + 3 * i, 3 + 3 * i) = R;
-    Adj.block<3, 3>(3 + 3 * i, 0) = skew(X.block<3, 1>(0, 3 + i)) * R;
-  }
-  return Adj;
-}
-
-
-}    // namespace math::lie_group
\ No newline at end of file
+/* ----------------------------------------------------------------------------
+ * Copyright 2023, CURLY Lab, University of Michigan
+ * All Rights Reserved
+ * See LICENSE for the license information
+ * -------------------------------------------------------------------------- */
+
+/**
+ *  @file   lie_group.cpp
+ *  @author Ross Hartley, Tzu-Yuan Lin
+ *  @brief  Source file for various Lie Group functions
+ *  @date   May 16, 2023
+ **/
+
+#include "drift/math/lie_group.h"
+
+namespace math::lie_group {
+
+using namespace std;
+
+const double TOLERANCE = 1e-10;
+
+long int factorial(int n) {
+  return (n == 1 || n == 0) ? 1 : factorial(n - 1) * n;
+}
+
+Eigen::Matrix3d skew(const Eigen::Vector3d& v) {
+  // Convert vector to skew-symmetric matrix
+  Eigen::Matrix3d M = Eigen::Matrix3d::Zero();
+  M << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
+  return M;
+}
+
+Eigen::Matrix3d Gamma_SO3(const Eigen::Vector3d& w, int m) {
+  // Computes mth integral of the exponential map: \Gamma_m =
+  // \sum_{n=0}^{\infty} \dfrac{1}{(n+m)!} (w^\wedge)^n
+  assert(m >= 0);
+  Eigen::Matrix3d I = Eigen::Matrix3d::Identity();
+  double theta = w.norm();
+  if (theta < TOLERANCE) {
+    return (1.0 / factorial(m))
+           * I;    // TODO: There is a better small value approximation for
+                   // exp() given in Trawny p.19
+  }
+  Eigen::Matrix3d A = skew(w);
+  double theta2 = theta * theta;
+
+  // The closed forms for m >= 2 divide differences of nearly equal numbers by
+  // theta^m: sum the (quickly converging) series for small angles instead
+  if (m >= 2 && theta < 0.5) {
+    Eigen::Matrix3d term = (1.0 / factorial(m)) * I;
+    Eigen::Matrix3d sum = term;
+    for (int n = 1; n <= 16; ++n) {
+      term = (term * A / (n + m)).eval();
+      sum += term;
+    }
+    return sum;
+  }
+
+  // Closed form solution for the first 3 cases
+  switch (m) {
+    case 0:    // Exp map of SO(3)
+      return I + (sin(theta) / theta) * A + ((1 - cos(theta)) / theta2) * A * A;
+
+    case 1:    // Left Jacobian of SO(3)
+      // eye(3) - A*(1/theta^2) * (R - eye(3) - A);
+      // eye(3) + (1-cos(theta))/theta^2 * A + (theta-sin(theta))/theta^3 * A^2;
+      return I + ((1 - cos(theta)) / theta2) * A
+             + ((theta - sin(theta)) / (theta2 * theta)) * A * A;
+
+    case 2:
+      // 0.5*eye(3) - (1/theta^2) * (R - eye(3) - A - 0.5*A^2);
+      // 0.5*eye(3) + (theta-sin(theta))/theta^3 * A + (2*(cos(theta)-1) +
+      // theta^2)/(2*theta^4) * A^2
+      return 0.5 * I + (theta - sin(theta)) / (theta2 * theta) * A
+             + (theta2 + 2 * cos(theta) - 2) / (2 * theta2 * theta2) * A * A;
+
+    default:    // General case
+      Eigen::Matrix3d R
+          = I + (sin(theta) / theta) * A + ((1 - cos(theta)) / theta2) * A * A;
+      Eigen::Matrix3d S = I;
+      Eigen::Matrix3d Ak = I;
+      long int kfactorial = 1;
+      for (int k = 1; k <= m; ++k) {
+        kfactorial = kfactorial * k;
+        Ak = (Ak * A).eval();
+        S = (S + (1.0 / kfactorial) * Ak).eval();
+      }
+      if (m == 0) {
+        return R;
+      } else if (m % 2) {    // odd
+        return (1.0 / kfactorial) * I
+               + (pow(-1, (m + 1) / 2) / pow(theta, m + 1)) * A * (R - S);
+      } else {    // even
+        return (1.0 / kfactorial) * I
+               + (pow(-1, m / 2) / pow(theta, m)) * (R - S);
+      }
+  }
+}
+
+Eigen::Matrix3d Exp_SO3(const Eigen::Vector3d& w) {
+  // Computes the vectorized exponential map for SO(3)
+  return Gamma_SO3(w, 0);
+}
+
+Eigen::Matrix3d LeftJacobian_SO3(const Eigen::Vector3d& w) {
+  // Computes the Left Jacobian of SO(3)
+  return Gamma_SO3(w, 1);
+}
+
+Eigen::Matrix3d RightJacobian_SO3(const Eigen::Vector3d& w) {
+  // Computes the Right Jacobian of SO(3)
+  return Gamma_SO3(-w, 1);
+}
+
+Eigen::MatrixXd Exp_SEK3(const Eigen::VectorXd& v) {
+  // Computes the vectorized exponential map for SE_K(3)
+  int K = (v.size() - 3) / 3;
+  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(3 + K, 3 + K);
+  Eigen::Matrix3d R;
+  Eigen::Matrix3d Jl;
+  Eigen::Vector3d w = v.head(3);
+  double theta = w.norm();
+  Eigen::Matrix3d I = Eigen::Matrix3d::Identity();
+  if (theta < TOLERANCE) {
+    R = I;
+    Jl = I;
+  } else {
+    Eigen::Matrix3d A = skew(w);
+    double theta2 = theta * theta;
+    double stheta = sin(theta);
+    double ctheta = cos(theta);
+    double oneMinusCosTheta2 = (1 - ctheta) / (theta2);
+    Eigen::Matrix3d A2 = A * A;
+    R = I + (stheta / theta) * A + oneMinusCosTheta2 * A2;
+    Jl = I + oneMinusCosTheta2 * A + ((theta - stheta) / (theta2 * theta)) * A2;
+  }
+  X.block<3, 3>(0, 0) = R;
+  for (int i = 0; i < K; ++i) {
+    X.block<3, 1>(0, 3 + i) = Jl * v.segment<3>(3 + 3 * i);
+  }
+  return X;
+}
+
+Eigen::MatrixXd Adjoint_SEK3(const Eigen::MatrixXd& X) {
+  // Compute Adjoint(X) for X in SE_K(3)
+  int K = X.cols() - 3;
+  Eigen::MatrixXd Adj = Eigen::MatrixXd::Zero(3 + 3 * K, 3 + 3 * K);
+  Eigen::Matrix3d R = X.block<3, 3>(0, 0);
+  Adj.block<3, 3>(0, 0) = R;
+  for (int i = 0; i < K; ++i) {
+    Adj.block<3, 3>(3 + 3 * i, 3 + 3 * i) = R;
+    Adj.block<3, 3>(3 + 3 * i, 0) = skew(X.block<3, 1>(0, 3 + i)) * R;
+  }
+  return Adj;
+}
+
+
+}    // namespace math::lie_group
\ No newline at end of file
-- 
2.43.0


From b02d5dc81cbdc1463a398e9a6f3cfd32305ee25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:38 +0000
Subject: [PATCH 40/49] fix: last line of lie_group.cpp as in the original

---
 src/math/lie_group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/lie_group.cpp b/src/math/lie_group.cpp
index 8b3eb6a..12de4b2 100644
--- a/src/math/lie_group.cpp
+++ b/src/math/lie_group.cpp
@@ -155,4 +155,4 @@ Eigen::MatrixXd Adjoint_SEK3(const Eigen::MatrixXd& X) {
 }
 
 
-}    // namespace math::lie_group
\ No newline at end of file
+}    // namespace math::lie_group
\ No newline at end of file
-- 
2.43.0


From d4dac0d92e4d992fa27e922bdb2d7b882313dc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 41/49] fix: drop imu messages whose quaternion is not
 normalized

---
 .../src/communication/ros_subscriber.cpp      | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/ROS/drift/src/communication/ros_subscriber.cpp b/ROS/drift/src/communication/ros_subscriber.cpp
index a66e4ba..9fcad4a 100644
--- a/ROS/drift/src/communication/ros_subscriber.cpp
+++ b/ROS/drift/src/communication/ros_subscriber.cpp
@@ -340,9 +340,14 @@ void ROSSubscriber::IMUCallback(
                        imu_msg->orientation.y, imu_msg->orientation.z})
           .norm()
       != 0) {
-    imu_measurement->set_quaternion(
-        imu_msg->orientation.w, imu_msg->orientation.x, imu_msg->orientation.y,
-        imu_msg->orientation.z);
+    try {
+      imu_measurement->set_quaternion(
+          imu_msg->orientation.w, imu_msg->orientation.x,
+          imu_msg->orientation.y, imu_msg->orientation.z);
+    } catch (const std::invalid_argument&) {
+      // A quaternion that isn't normalized: the message can't be used
+      return;
+    }
   }
 
   mutex.get()->lock();
@@ -632,9 +637,14 @@ void ROSSubscriber::FetchIMUCallBack(
                        imu_msg->orientation.y, imu_msg->orientation.z})
           .norm()
       != 0) {
-    imu_measurement->set_quaternion(
-        imu_msg->orientation.w, imu_msg->orientation.x, imu_msg->orientation.y,
-        imu_msg->orientation.z);
+    try {
+      imu_measurement->set_quaternion(
+          imu_msg->orientation.w, imu_msg->orientation.x,
+          imu_msg->orientation.y, imu_msg->orientation.z);
+    } catch (const std::invalid_argument&) {
+      // A quaternion that isn't normalized: the message can't be used
+      return;
+    }
   }
 
   // std::lock_guard<std::mutex> lock(*mutex);
-- 
2.43.0


From 63cd87f13c837feba918dca079a76ead93b81042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 42/49] fix: ignore odometry messages that repeat a time stamp

---
 ROS/drift/src/communication/ros_subscriber.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ROS/drift/src/communication/ros_subscriber.cpp b/ROS/drift/src/communication/ros_subscriber.cpp
index 9fcad4a..ab070a9 100644
--- a/ROS/drift/src/communication/ros_subscriber.cpp
+++ b/ROS/drift/src/communication/ros_subscriber.cpp
@@ -682,6 +682,10 @@ void ROSSubscriber::Odom2VelocityCallback(
   double curr_time = odom_ptr->get_time();
 
   double time_diff = curr_time - prev_time;
+  if (time_diff == 0) {
+    // No velocity can be calculated from a repeated time stamp
+    return;
+  }
 
   // Set current odometry as previous odometry
   prev_odom_map_[odom_src_id] = odom_ptr;
-- 
2.43.0


From c394da3902663fff974c6e9d3ce79bfac10e2a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:26 +0000
Subject: [PATCH 43/49] fix: format matrices before printing them to the shared
 console

---
 src/estimator/inekf_estimator.cpp               | 10 ++++++++--
 .../inekf/propagation/imu_propagation.cpp       | 17 +++++++++++++----
 src/imu_filter/imu_ang_vel_ekf.cpp              |  9 +++++++--
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/estimator/inekf_estimator.cpp b/src/estimator/inekf_estimator.cpp
index 3e2270e..0b7488d 100644
--- a/src/estimator/inekf_estimator.cpp
+++ b/src/estimator/inekf_estimator.cpp
@@ -12,6 +12,7 @@
  **/
 
 #include "drift/estimator/inekf_estimator.h"
+#include <sstream>
 
 namespace estimator {
 InekfEstimator::InekfEstimator()
@@ -278,9 +279,14 @@ void InekfEstimator::InitState() {
                                  * Eigen::Matrix3d::Identity());
 
   std::cout << "Robot's state mean is initialized to: \n";
-  std::cout << this->get_state().get_X() << std::endl;
+  // Matrices are formatted apart: printing one sets flags of the stream,
+  // which all threads share
+  std::stringstream mean, covariance;
+  mean << this->get_state().get_X();
+  covariance << this->get_state().get_P();
+  std::cout << mean.str() << std::endl;
   std::cout << "Robot's state covariance is initialized to: \n";
-  std::cout << this->get_state().get_P() << std::endl;
+  std::cout << covariance.str() << std::endl;
 
   // Push the initial state to the queue
   robot_state_queue_mutex_ptr_.get()->lock();
diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 554eb6b..56422f6 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -18,6 +18,7 @@
  **/
 
 #include "drift/filter/inekf/propagation/imu_propagation.h"
+#include <sstream>
 
 
 using namespace std;
@@ -114,8 +115,12 @@ ImuPropagation::ImuPropagation(
                   .as<std::vector<double>>()
             : std::vector<double>({0, 0, 0});    // meters
   t_imu2body_ << trans_imu2body[0], trans_imu2body[1], trans_imu2body[2];
+  // Matrices are formatted apart: printing one sets flags of the stream,
+  // which all threads share
+  std::stringstream translation;
+  translation << t_imu2body_.transpose();
   std::cout << "Translation from body center to IMU is set to: ["
-            << t_imu2body_.transpose() << "]" << std::endl;
+            << translation.str() << "]" << std::endl;
 }
 
 const IMUQueuePtr ImuPropagation::get_sensor_data_buffer_ptr() const {
@@ -443,8 +448,10 @@ void ImuPropagation::InitImuBias() {
   if (!static_bias_initialization_) {
     bias_initialized_ = true;
     std::cout << "Static bias inialization is set to false." << std::endl;
+    std::stringstream bias;
+    bias << bg0_.transpose() << ba0_.transpose();
     std::cout << "Bias is initialized using prior as [gyro_bias, acc_bias]: "
-              << bg0_.transpose() << ba0_.transpose() << std::endl;
+              << bias.str() << std::endl;
     return;
   }
 
@@ -500,8 +507,10 @@ void ImuPropagation::InitImuBias() {
       avg = (avg + bias_init_vec_[i]).eval();
     }
     avg = (avg / bias_init_vec_.size()).eval();
-    std::cout << "IMU bias initialized to [gyro_bias, acc_bias]: "
-              << avg.transpose() << std::endl;
+    std::stringstream bias;
+    bias << avg.transpose();
+    std::cout << "IMU bias initialized to [gyro_bias, acc_bias]: " << bias.str()
+              << std::endl;
     bg0_ = avg.head<3>();
     ba0_ = avg.tail<3>();
     bias_initialized_ = true;
diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index fc1f099..210213c 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -13,6 +13,7 @@
  **/
 
 #include "drift/imu_filter/imu_ang_vel_ekf.h"
+#include <sstream>
 
 
 using namespace std;
@@ -511,8 +512,12 @@ void ImuAngVelEKF::InitializeFilter() {
       avg = (avg + bias_init_vec_[i]).eval();
     }
     avg = (avg / bias_init_vec_.size()).eval();
-    std::cout << "Biases in the gyro filter are initialized to: "
-              << avg.transpose() << std::endl;
+    // Matrices are formatted apart: printing one sets flags of the stream,
+    // which all threads share
+    std::stringstream bias;
+    bias << avg.transpose();
+    std::cout << "Biases in the gyro filter are initialized to: " << bias.str()
+              << std::endl;
 
     ang_vel_and_bias_est_.head(3) = Eigen::Matrix<double, 3, 1>::Zero();
     ang_vel_and_bias_est_.tail(3) = avg;
-- 
2.43.0


From 53092a85ed5207b06a60c98cf9c7549b3be4a234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:51 +0000
Subject: [PATCH 44/49] fix: format the initial rotation before printing it too

---
 src/filter/inekf/propagation/imu_propagation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 56422f6..e9026fe 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -545,7 +545,9 @@ bool ImuPropagation::set_initial_state(RobotState& state) {
   if (use_imu_ori_to_init_) {
     Eigen::Quaternion<double> quat = imu_measurement->get_quaternion();
     R0 = quat.toRotationMatrix();    // Initialize based on VectorNav estimate
-    std::cout << "R0: \n" << R0 << std::endl;
+    std::stringstream rotation;
+    rotation << R0;
+    std::cout << "R0: \n" << rotation.str() << std::endl;
   }
   Eigen::Vector3d p0
       = {0.0, 0.0, 0.0};    // initial position, we set imu frame as world frame
-- 
2.43.0


From 8cbb860cc2020ccfaaa9941729304027f5a68a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:25 +0000
Subject: [PATCH 45/49] fix: keep the accuracy of exponentials and their
 integrals at small angles and high orders

---
 src/math/lie_group.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/math/lie_group.cpp b/src/math/lie_group.cpp
index 12de4b2..90639bf 100644
--- a/src/math/lie_group.cpp
+++ b/src/math/lie_group.cpp
@@ -36,20 +36,19 @@ Eigen::Matrix3d Gamma_SO3(const Eigen::Vector3d& w, int m) {
   assert(m >= 0);
   Eigen::Matrix3d I = Eigen::Matrix3d::Identity();
   double theta = w.norm();
-  if (theta < TOLERANCE) {
-    return (1.0 / factorial(m))
-           * I;    // TODO: There is a better small value approximation for
-                   // exp() given in Trawny p.19
-  }
   Eigen::Matrix3d A = skew(w);
   double theta2 = theta * theta;
 
-  // The closed forms for m >= 2 divide differences of nearly equal numbers by
-  // theta^m: sum the (quickly converging) series for small angles instead
-  if (m >= 2 && theta < 0.5) {
-    Eigen::Matrix3d term = (1.0 / factorial(m)) * I;
+  // The closed forms divide differences of nearly equal numbers by powers of
+  // theta: sum the (quickly converging) series instead for angles that are
+  // small, or small for the order
+  if (theta < 0.5 || theta < m) {
+    Eigen::Matrix3d term = I;
+    for (int k = 2; k <= m; ++k) {
+      term /= k;
+    }
     Eigen::Matrix3d sum = term;
-    for (int n = 1; n <= 16; ++n) {
+    for (int n = 1; n <= 16 + 3 * m; ++n) {
       term = (term * A / (n + m)).eval();
       sum += term;
     }
@@ -79,7 +78,7 @@ Eigen::Matrix3d Gamma_SO3(const Eigen::Vector3d& w, int m) {
           = I + (sin(theta) / theta) * A + ((1 - cos(theta)) / theta2) * A * A;
       Eigen::Matrix3d S = I;
       Eigen::Matrix3d Ak = I;
-      long int kfactorial = 1;
+      double kfactorial = 1;
       for (int k = 1; k <= m; ++k) {
         kfactorial = kfactorial * k;
         Ak = (Ak * A).eval();
@@ -121,9 +120,10 @@ Eigen::MatrixXd Exp_SEK3(const Eigen::VectorXd& v) {
   Eigen::Vector3d w = v.head(3);
   double theta = w.norm();
   Eigen::Matrix3d I = Eigen::Matrix3d::Identity();
-  if (theta < TOLERANCE) {
-    R = I;
-    Jl = I;
+  if (theta < 0.5) {
+    // The closed forms below lose accuracy for small angles
+    R = Gamma_SO3(w, 0);
+    Jl = Gamma_SO3(w, 1);
   } else {
     Eigen::Matrix3d A = skew(w);
     double theta2 = theta * theta;
-- 
2.43.0


From ca79ce140c0fc9ea8bdf15bda96edf0223330780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:20 +0000
Subject: [PATCH 46/49] fix: do not divide by zero when the path is published
 more often than poses

---
 ROS/drift/src/communication/ros_publisher.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ROS/drift/src/communication/ros_publisher.cpp b/ROS/drift/src/communication/ros_publisher.cpp
index 4f1ed7a..acfd3f8 100644
--- a/ROS/drift/src/communication/ros_publisher.cpp
+++ b/ROS/drift/src/communication/ros_publisher.cpp
@@ -146,6 +146,9 @@ void ROSPublisher::PosePublish() {
   int pose_skip = pose_publish_rate_
                   / path_publish_rate_;    // Pose publish rate must be faster
                                            // than path publish rate
+  if (pose_skip < 1) {
+    pose_skip = 1;
+  }
   if (int(pose_seq_) % pose_skip == 0) {
     geometry_msgs::PoseStamped pose_stamped;
     pose_stamped.header = pose_msg.header;
-- 
2.43.0


From 1788154cbe1d31d99ad2c42c67fb69f8aa2d8903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:21 +0000
Subject: [PATCH 47/49] fix: find the augmented bias of the given state matrix
 index

---
 src/state/robot_state.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index f128df7..62171ab 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -298,7 +298,8 @@ void RobotState::add_aug_bias(const Eigen::Vector3d& baug) {
 
 
 void RobotState::del_aug_bias(int matrix_idx) {
-  int start = matrix_idx - 5 + 6;
+  // The first augmented bias follows the gyroscope and accelerometer biases
+  int start = 6 + 3 * (matrix_idx - 5);
   Theta_.block(start, 0, Theta_.rows() - start - 3, 1)
       = Theta_.block(start + 3, 0, Theta_.rows() - start - 3, 1);
   Theta_.conservativeResize(Theta_.rows() - 3);
@@ -306,7 +307,7 @@ void RobotState::del_aug_bias(int matrix_idx) {
 
 
 const Eigen::Vector3d RobotState::get_aug_bias(int matrix_idx) {
-  return Theta_.block<3, 1>(Theta_.rows() - 3, 0);
+  return Theta_.block<3, 1>(6 + 3 * (matrix_idx - 5), 0);
 }
 
 void RobotState::set_rotation_covariance(const Eigen::Matrix3d& cov) {
-- 
2.43.0


From 8fa214c1e7609af8e03e5fc6e99edc5afd77c7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:21 +0000
Subject: [PATCH 48/49] fix: integrate from a first sample stamped zero

---
 baselines/include/wheel_odometry/wheel_odometry.h | 1 +
 baselines/src/wheel_odometry/wheel_odometry.cpp   | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/baselines/include/wheel_odometry/wheel_odometry.h b/baselines/include/wheel_odometry/wheel_odometry.h
index c65fe46..a67b19f 100644
--- a/baselines/include/wheel_odometry/wheel_odometry.h
+++ b/baselines/include/wheel_odometry/wheel_odometry.h
@@ -50,6 +50,7 @@ class WheelOdometry {
 
   RobotState state_;
 
+  bool started_ = false;    // a first sample has been seen
   double prev_t_ = 0.0;
   double last_pub_t_ = 0.0;
 
diff --git a/baselines/src/wheel_odometry/wheel_odometry.cpp b/baselines/src/wheel_odometry/wheel_odometry.cpp
index a3bd54c..8f447f7 100644
--- a/baselines/src/wheel_odometry/wheel_odometry.cpp
+++ b/baselines/src/wheel_odometry/wheel_odometry.cpp
@@ -86,7 +86,8 @@ void WheelOdometry::RunOnce() {
     // Get the time stamp of the measurement
     double t = vel_measurement->get_time();
 
-    if (prev_t_ == 0) {
+    if (!started_) {
+      started_ = true;
       prev_t_ = t;
       state_.set_time(t);
       return;
-- 
2.43.0


From 061d233450078ef4f2088aac1d495f9819c29c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:13 +0000
Subject: [PATCH 49/49] fix: start an interrupted bias calibration over after a
 reset

---
 src/filter/inekf/propagation/imu_propagation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index e9026fe..c5286dc 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -584,5 +584,9 @@ void ImuPropagation::clear() {
   }
   sensor_data_buffer_mutex_ptr_.get()->unlock();
   prev_imu_measurement_ = nullptr;
+  // A calibration that was not completed starts over
+  if (!bias_initialized_) {
+    bias_init_vec_.clear();
+  }
 }
 }    // namespace filter::inekf
\ No newline at end of file
-- 
2.43.0

