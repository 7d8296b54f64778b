From 11931bb570abf359716be2cd843b52f39e9730ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:03 +0000
Subject: [PATCH 01/11] fix: apply gravity as a force (mass times acceleration)
 in the dynamics step

---
 multirotor_simulator/multirotor_dynamic_model/dynamics.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
index df821f6..d66ebc4 100644
--- a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
@@ -187,8 +187,9 @@ public:
     // Kinematics linear derivative
     state_.kinematics.linear_acceleration = get_vehicle_linear_velocity_derivative(
         model_.get_mass(), get_thrust_force_in_earth_frame(state_.actuators.motor_angular_velocity),
-        model_.get_drag_force(state_.kinematics.linear_velocity), model_.get_gravity(),
-        model_.get_stochastic_force(), external_force, state_.dynamics.force);
+        model_.get_drag_force(state_.kinematics.linear_velocity),
+        model_.get_gravity() * model_.get_mass(), model_.get_stochastic_force(),
+        external_force, state_.dynamics.force);
 
     Vector3 position_derivative =
         get_vehicle_position_derivative(state_.kinematics.linear_velocity);
-- 
2.43.0


From 62873f6e000cf4d63e242450213f269c899e72a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:03 +0000
Subject: [PATCH 02/11] fix: integrate exactly dt when a step is split in
 substeps

---
 .../multirotor_dynamic_model/dynamics.hpp                | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
index d66ebc4..1f6d8b2 100644
--- a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
@@ -34,6 +34,8 @@
 #ifndef MULTIROTOR_DYNAMIC_MODEL_DYNAMICS_HPP_
 #define MULTIROTOR_DYNAMIC_MODEL_DYNAMICS_HPP_
 
+#include <algorithm>
+#include <cmath>
 #include <vector>
 
 #include "multirotor_dynamic_model/common/state.hpp"
@@ -148,10 +150,11 @@ public:
       throw std::invalid_argument("The time step must be greater than zero");
       return;
     } else if (dt > LOWEST_UPDATE_FREQUENCY) {
-      Scalar num_iter = dt / LOWEST_UPDATE_FREQUENCY;
+      // Split the step in equal substeps that add up to dt
+      const int num_iter  = static_cast<int>(std::ceil(dt / LOWEST_UPDATE_FREQUENCY));
+      const Scalar sub_dt = std::min<Scalar>(dt / num_iter, LOWEST_UPDATE_FREQUENCY);
       for (int i = 0; i < num_iter; i++) {
-        process_euler_explicit(actuation_angular_velocity, LOWEST_UPDATE_FREQUENCY, external_force,
-                               enable_noise);
+        process_euler_explicit(actuation_angular_velocity, sub_dt, external_force, enable_noise);
       }
       return;
     }
-- 
2.43.0


From 58dcdfcdcdcd60f2b1910ca4165c75184e7a2abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:03 +0000
Subject: [PATCH 03/11] fix: dereference the pointer in the pointer setters of
 Dynamics

---
 multirotor_simulator/multirotor_dynamic_model/dynamics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
index 1f6d8b2..0e49971 100644
--- a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
@@ -266,7 +266,7 @@ public:
    */
   void set_state(const State *state) {
     if (state != nullptr) {
-      state_ = state;
+      state_ = *state;
     }
   }
 
@@ -284,7 +284,7 @@ public:
    */
   void set_model(const Model *model) {
     if (model != nullptr) {
-      model_ = model;
+      model_ = *model;
     }
   }
 
-- 
2.43.0


From 1d68eba7a31f53863cad90d21552e9ad4aebcb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:03 +0000
Subject: [PATCH 04/11] fix: return the IMU measurement pair by value instead
 of a dangling reference

---
 multirotor_simulator/imu_simulator/imu.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multirotor_simulator/imu_simulator/imu.hpp b/multirotor_simulator/imu_simulator/imu.hpp
index 049032f..bab2fd3 100644
--- a/multirotor_simulator/imu_simulator/imu.hpp
+++ b/multirotor_simulator/imu_simulator/imu.hpp
@@ -236,7 +236,7 @@ public:
    * @return const std::pair<Vector3, Vector3>& Gyroscope and accelerometer measurement in body
    * frame.
    */
-  inline const std::pair<Vector3, Vector3>& get_measurement() const {
+  inline std::pair<Vector3, Vector3> get_measurement() const {
     return std::make_pair(gyro_, accel_);
   }
 
-- 
2.43.0


From 724b3caaa10f7d3b635fdcabd08cd573cc771d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:03 +0000
Subject: [PATCH 05/11] fix: measure the specific force in body frame and
 rotate it back to world frame in the odometry

---
 multirotor_simulator/imu_simulator/inertial_odometry.hpp | 2 +-
 multirotor_simulator/multirotor_simulator.hpp            | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/imu_simulator/inertial_odometry.hpp b/multirotor_simulator/imu_simulator/inertial_odometry.hpp
index 9bc2b21..44de6a1 100644
--- a/multirotor_simulator/imu_simulator/inertial_odometry.hpp
+++ b/multirotor_simulator/imu_simulator/inertial_odometry.hpp
@@ -239,7 +239,7 @@ protected:
     angular_velocity_ = gyro_filtered_;
 
     // Linear acceleration in world frame
-    linear_acceleration_ = orientation_.inverse() * accel_filtered_;
+    linear_acceleration_ = orientation_ * accel_filtered_;
 
     // Integrate angular velocity to get orientation quaternion
     orientation_ = get_quaternion_integrate(orientation_, angular_velocity_, dt);
diff --git a/multirotor_simulator/multirotor_simulator.hpp b/multirotor_simulator/multirotor_simulator.hpp
index 2e0e462..9f5bec8 100644
--- a/multirotor_simulator/multirotor_simulator.hpp
+++ b/multirotor_simulator/multirotor_simulator.hpp
@@ -243,7 +243,8 @@ public:
   inline void update_imu(const Scalar dt) {
     // Convert force from world to body frame
     imu_.update(dt,
-                dynamics_.get_state().kinematics.orientation * dynamics_.get_state().dynamics.force,
+                dynamics_.get_state().kinematics.orientation.inverse() *
+                    dynamics_.get_state().dynamics.force / dynamics_.get_model_const().get_mass(),
                 dynamics_.get_state().kinematics.angular_velocity);
   }
 
-- 
2.43.0


From cb700702ffdd0f28091ceaf6e930b3d5c1f13ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:03 +0000
Subject: [PATCH 06/11] fix: make set_control_mode usable with any precision

---
 multirotor_simulator/multirotor_simulator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/multirotor_simulator.hpp b/multirotor_simulator/multirotor_simulator.hpp
index 9f5bec8..95fbfcb 100644
--- a/multirotor_simulator/multirotor_simulator.hpp
+++ b/multirotor_simulator/multirotor_simulator.hpp
@@ -319,10 +319,10 @@ public:
     Scalar roll, pitch;
     state::internal::quaternion_to_Euler(dynamics_.get_state().kinematics.orientation, roll, pitch,
                                          reference_yaw_);
-    reference_velocity_         = Eigen::Vector3d::Zero();
-    reference_acceleration_     = Eigen::Vector3d::Zero();
+    reference_velocity_         = Vector3::Zero();
+    reference_acceleration_     = Vector3::Zero();
     reference_thrust_           = 0.0;
-    reference_angular_velocity_ = Eigen::Vector3d::Zero();
+    reference_angular_velocity_ = Vector3::Zero();
   }
 
   /**
-- 
2.43.0


From fcd3049dc98f59af8c796fa3d600474ed24de938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:03 +0000
Subject: [PATCH 07/11] fix: make the INDI controller usable with any number of
 rotors

---
 .../multirotor_controllers/controllers/indi_controller.hpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp b/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp
index 6b05fb2..d46e61e 100644
--- a/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp
+++ b/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp
@@ -128,7 +128,8 @@ public:
    *
    * @param params IndiControllerParams parameters
    */
-  explicit IndiController(const IndiControllerParams<P> &params = IndiControllerParams<P>())
+  explicit IndiController(
+      const IndiControllerParams<P, num_rotors> &params = IndiControllerParams<P, num_rotors>())
       : inertia_(params.inertia), mixer_matrix_inverse_(params.mixer_matrix_inverse),
         PID(params.pid_params) {}
   /**
@@ -196,7 +197,7 @@ public:
    *
    * @param params IndiControllerParams
    */
-  inline void update_params(const IndiControllerParams<P> &params) {
+  inline void update_params(const IndiControllerParams<P, num_rotors> &params) {
     update_inertia(params.inertia);
     update_mixer_matrix_inverse(params.mixer_matrix_inverse);
     this->update_pid_params(params.pid_params);
-- 
2.43.0


From 4bff29122efdbb1dc5562000b550e168f81b16eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:03 +0000
Subject: [PATCH 08/11] fix: reset the saturated integral when the error
 changes sign

---
 pid_controller/include/pid_controller/pid.hpp    | 2 +-
 pid_controller/include/pid_controller/pid_1d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pid_controller/include/pid_controller/pid.hpp b/pid_controller/include/pid_controller/pid.hpp
index 0e05728..2785872 100644
--- a/pid_controller/include/pid_controller/pid.hpp
+++ b/pid_controller/include/pid_controller/pid.hpp
@@ -630,7 +630,7 @@ protected:
     // axis
     if (reset_integral_flag_ != 0) {
       for (int j = 0; j < proportional_error.size(); j++) {
-        if (std::abs(integral_accum_error_[j]) > antiwindup_cte_[j]) {
+        if (std::abs(integral_accum_error_[j]) >= antiwindup_cte_[j]) {
           if (std::signbit(integral_accum_error_[j]) != std::signbit(proportional_error[j])) {
             integral_accum_error_[j] = 0.0;
           }
diff --git a/pid_controller/include/pid_controller/pid_1d.hpp b/pid_controller/include/pid_controller/pid_1d.hpp
index 7d3f4d5..48551ed 100644
--- a/pid_controller/include/pid_controller/pid_1d.hpp
+++ b/pid_controller/include/pid_controller/pid_1d.hpp
@@ -535,7 +535,7 @@ protected:
     // If sing of the error changes and the integrator is saturated, reset the
     // integral for each axis
     if (reset_integral_flag_ != 0) {
-      if (std::abs(integral_accum_error_) > antiwindup_cte_) {
+      if (std::abs(integral_accum_error_) >= antiwindup_cte_) {
         if (std::signbit(integral_accum_error_) != std::signbit(proportional_error)) {
           integral_accum_error_ = 0.0;
         }
-- 
2.43.0


From e628e6d9407a0ca3970824e9c2c8239f36685873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:03 +0000
Subject: [PATCH 09/11] fix: store the mixer matrix returned by
 get_mixer_matrix

---
 multirotor_simulator/multirotor_dynamic_model/model.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/model.hpp b/multirotor_simulator/multirotor_dynamic_model/model.hpp
index 2b07b8e..71ee6c4 100644
--- a/multirotor_simulator/multirotor_dynamic_model/model.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/model.hpp
@@ -133,7 +133,6 @@ class Model {
   using Matrix4N     = Eigen::Matrix<Precision, 4, num_rotors>;
   using Matrix6N     = Eigen::Matrix<Precision, 6, num_rotors>;
   using MatrixN4     = Eigen::Matrix<Precision, num_rotors, 4>;
-  using MatrixN6     = Eigen::Matrix<Precision, num_rotors, 6>;
   using MotorParamsP = MotorParams<Precision>;
   using ModelParamsP = ModelParams<Precision, num_rotors>;
 
@@ -169,7 +168,7 @@ private:
   Matrix3N mixer_force_matrix_;    // [Fx, Fy, Fz] = Mixer * a^2
   Matrix3N mixer_torque_matrix_;   // [Mx, My, Mz] = Mixer * a^2
   Matrix3N mixer_inertia_matrix_;  // [Ix, Iy, Iz] = Mixer * a^2
-  MatrixN6 mixer_matrix_;          // [Fx, Fy, Fz, Mx, My, Mz] = Mixer * a^2
+  Matrix6N mixer_matrix_;          // [Fx, Fy, Fz, Mx, My, Mz] = Mixer * a^2
 
   // Noise properties
   std::default_random_engine random_number_generator_;  // Random number generator
@@ -196,7 +195,7 @@ public:
     params_ = params;
 
     // Motor mixer matrix
-    Matrix6N mixer_matrix_ = compute_mixer_matrix<6>(params.motors_params);
+    mixer_matrix_ = compute_mixer_matrix<6>(params.motors_params);
 
     // Update mixer matrix
     mixer_force_vector_  = mixer_matrix_.row(2);
@@ -477,9 +476,9 @@ public:
    *
    * Get the mixer matrix
    *
-   * @return MatrixN6 Mixer matrix
+   * @return Matrix6N Mixer matrix
    */
-  inline const MatrixN6 &get_mixer_matrix() const { return mixer_matrix_; }
+  inline const Matrix6N &get_mixer_matrix() const { return mixer_matrix_; }
 
 public:
   // Static functions
-- 
2.43.0


From acc8c300ecf729a9e7c855497d93bc8f7af4c0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:03 +0000
Subject: [PATCH 10/11] fix: leave the simulator untouched when the time step
 is rejected

---
 multirotor_simulator/multirotor_simulator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/multirotor_simulator/multirotor_simulator.hpp b/multirotor_simulator/multirotor_simulator.hpp
index 95fbfcb..440f117 100644
--- a/multirotor_simulator/multirotor_simulator.hpp
+++ b/multirotor_simulator/multirotor_simulator.hpp
@@ -136,6 +136,10 @@ public:
    * @param dt Scalar Time step (s)
    */
   void update_dynamics(const Scalar dt) {
+    if (dt <= 0) {
+      throw std::invalid_argument("The time step must be greater than zero");
+    }
+
     if (floor_collision_enable_ && dynamics_.get_state().kinematics.position.z() < floor_height_) {
       external_force_ =
           -dynamics_.get_model_const().get_gravity() * dynamics_.get_model_const().get_mass();
-- 
2.43.0


From 3e85500e35d83507078bc6cb80266f0a424c3f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:29 +0000
Subject: [PATCH 11/11] fix: print_state ran the groups of the state together
 without a separator

---
 .../multirotor_dynamic_model/common/state.hpp            | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/common/state.hpp b/multirotor_simulator/multirotor_dynamic_model/common/state.hpp
index ca14570..8d991a8 100644
--- a/multirotor_simulator/multirotor_dynamic_model/common/state.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/common/state.hpp
@@ -203,10 +203,7 @@ std::ostream& operator<<(std::ostream& os, const Actuators<T, num_rotors>& actua
 template <typename T = double, int num_rotors = 4>
 std::ostream& print_actuators(std::ostream& os, const Actuators<T, num_rotors>& actuators) {
   for (int i = 0; i < num_rotors; i++) {
-    os << "motor_" << i << "_angular_velocity: " << actuators.motor_angular_velocity[i];
-    if (i < num_rotors - 1) {
-      os << ", ";
-    }
+    os << "motor_" << i << "_angular_velocity: " << actuators.motor_angular_velocity[i] << ", ";
   }
   for (int i = 0; i < num_rotors; i++) {
     os << "motor_" << i << "_angular_acceleration: " << actuators.motor_angular_acceleration[i];
@@ -247,8 +244,8 @@ std::ostream& operator<<(std::ostream& os, const State<T, num_rotors>& state) {
 
 template <typename T = double, int num_rotors = 4>
 void print_state(const State<T, num_rotors>& state) {
-  state::internal::print_kinematics(std::cout, state.kinematics);
-  state::internal::print_dynamics(std::cout, state.dynamics);
+  state::internal::print_kinematics(std::cout, state.kinematics) << ", ";
+  state::internal::print_dynamics(std::cout, state.dynamics) << ", ";
   state::internal::print_actuators(std::cout, state.actuators);
 }
 
-- 
2.43.0

