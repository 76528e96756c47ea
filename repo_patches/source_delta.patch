From dd5bb8f8d82358cd9e41c657f6ca614236828c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:56 +0000
Subject: [PATCH 01/83] fix: a query on an empty trajectory no longer corrupts
 the interpolation index

---
 ct_core/include/ct/core/common/Interpolation.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_core/include/ct/core/common/Interpolation.h b/ct_core/include/ct/core/common/Interpolation.h
index 98dd000..abf1a4a 100644
--- a/ct_core/include/ct/core/common/Interpolation.h
+++ b/ct_core/include/ct/core/common/Interpolation.h
@@ -118,6 +118,9 @@ public:
     //! find an index corresponding to a certain inquiry time
     int findIndex(const tpl::TimeArray<SCALAR>& timeArray, const SCALAR& enquiryTime)
     {
+        if (timeArray.size() == 0)
+            throw std::runtime_error("Interpolation.h : TimeArray is size 0.");
+
         int index = -1;
 
         index_ = std::min(index_, (int)timeArray.size() - 1);
-- 
2.43.0


From e940499161e7d8c96d99143a03e40419904f19b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:55 +0000
Subject: [PATCH 02/83] fix: (Discrete)LTISystem computes the stacked
 observability matrix without leaving its bounds

---
 .../systems/continuous_time/linear/LTISystem.h | 18 +++++++++---------
 .../discrete_time/linear/DiscreteLTISystem.h   | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
index d69c064..7a3c7e0 100644
--- a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
@@ -127,12 +127,12 @@ public:
 	 */
     void computeControllabilityMatrix(Eigen::Matrix<double, STATE_DIM, STATE_DIM * CONTROL_DIM>& CO)
     {
-        CO.block<STATE_DIM, CONTROL_DIM>(0, 0) = B_;
+        CO.template block<STATE_DIM, CONTROL_DIM>(0, 0) = B_;
 
         for (size_t i = 1; i < STATE_DIM; i++)
         {
-            CO.block<STATE_DIM, CONTROL_DIM>(0, i * CONTROL_DIM) =
-                A_ * CO.block<STATE_DIM, CONTROL_DIM>(0, (i - 1) * CONTROL_DIM);
+            CO.template block<STATE_DIM, CONTROL_DIM>(0, i * CONTROL_DIM) =
+                A_ * CO.template block<STATE_DIM, CONTROL_DIM>(0, (i - 1) * CONTROL_DIM);
         }
     }
 
@@ -158,14 +158,14 @@ public:
 	 * Computes the observability matrix to assess observability. See isObservable() for the full test.
 	 * @param O observability matrix
 	 */
-    void computeObservabilityMatrix(Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM>& O)
+    void computeObservabilityMatrix(Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM>& O)
     {
-        O.block<STATE_DIM, STATE_DIM>(0, 0) = C_;
+        O.template block<STATE_DIM, STATE_DIM>(0, 0) = C_;
 
         for (size_t i = 1; i < STATE_DIM; i++)
         {
-            O.block<STATE_DIM, STATE_DIM>(i * STATE_DIM, 0) =
-                O.block<STATE_DIM, STATE_DIM>(0, (i - 1) * STATE_DIM) * A_;
+            O.template block<STATE_DIM, STATE_DIM>(i * STATE_DIM, 0) =
+                O.template block<STATE_DIM, STATE_DIM>((i - 1) * STATE_DIM, 0) * A_;
         }
     }
 
@@ -177,10 +177,10 @@ public:
 	 */
     bool isObservable()
     {
-        Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM> O;
+        Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM> O;
         computeObservabilityMatrix(O);
 
-        Eigen::FullPivLU<Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM>> LUdecomposition(O);
+        Eigen::FullPivLU<Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM>> LUdecomposition(O);
         return LUdecomposition.rank() == STATE_DIM;
     }
 
diff --git a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
index 36ffa3e..faf5dbd 100644
--- a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
+++ b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
@@ -109,12 +109,12 @@ public:
      */
     void computeControllabilityMatrix(Eigen::Matrix<double, STATE_DIM, STATE_DIM * CONTROL_DIM>& CO)
     {
-        CO.block<STATE_DIM, CONTROL_DIM>(0, 0) = B_;
+        CO.template block<STATE_DIM, CONTROL_DIM>(0, 0) = B_;
 
         for (size_t i = 1; i < STATE_DIM; i++)
         {
-            CO.block<STATE_DIM, CONTROL_DIM>(0, i * CONTROL_DIM) =
-                A_ * CO.block<STATE_DIM, CONTROL_DIM>(0, (i - 1) * CONTROL_DIM);
+            CO.template block<STATE_DIM, CONTROL_DIM>(0, i * CONTROL_DIM) =
+                A_ * CO.template block<STATE_DIM, CONTROL_DIM>(0, (i - 1) * CONTROL_DIM);
         }
     }
 
@@ -170,14 +170,14 @@ public:
      * isObservable() for the full test.
      * @param O observability matrix
      */
-    void computeObservabilityMatrix(Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM>& O)
+    void computeObservabilityMatrix(Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM>& O)
     {
-        O.block<STATE_DIM, STATE_DIM>(0, 0) = C_;
+        O.template block<STATE_DIM, STATE_DIM>(0, 0) = C_;
 
         for (size_t i = 1; i < STATE_DIM; i++)
         {
-            O.block<STATE_DIM, STATE_DIM>(i * STATE_DIM, 0) =
-                O.block<STATE_DIM, STATE_DIM>(0, (i - 1) * STATE_DIM) * A_;
+            O.template block<STATE_DIM, STATE_DIM>(i * STATE_DIM, 0) =
+                O.template block<STATE_DIM, STATE_DIM>((i - 1) * STATE_DIM, 0) * A_;
         }
     }
 
@@ -220,10 +220,10 @@ public:
      */
     bool isObservable()
     {
-        Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM> O;
+        Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM> O;
         computeObservabilityMatrix(O);
 
-        Eigen::FullPivLU<Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM>> LUdecomposition(O);
+        Eigen::FullPivLU<Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM>> LUdecomposition(O);
         return LUdecomposition.rank() == STATE_DIM;
     }
 
-- 
2.43.0


From 5583b55db268942f15351648b79b864b543c5895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:55 +0000
Subject: [PATCH 03/83] fix: DiscreteLTISystem implements getAandB, so that it
 can be instantiated

---
 .../discrete_time/linear/DiscreteLTISystem.h      | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
index faf5dbd..4b03b85 100644
--- a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
+++ b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
@@ -82,6 +82,21 @@ public:
         stateNext = A_ * state + B_ * control;
     }
 
+    //! retrieve the (constant) system matrices A and B, all arguments but the outputs get ignored
+    void getAandB(const StateVector<STATE_DIM>& x,
+        const ControlVector<CONTROL_DIM>& u,
+        const StateVector<STATE_DIM>& x_next,
+        const int n,
+        size_t subSteps,
+        StateMatrix<STATE_DIM>& A,
+        StateControlMatrix<STATE_DIM, CONTROL_DIM>& B) override
+    {
+        A = A_;
+        B = B_;
+    }
+
+    using DiscreteLinearSystem<STATE_DIM, CONTROL_DIM>::getAandB;
+
     //! computes the system output (measurement)
     /*!
      * Computes \f$ y_{n+1} = Cx_n + Du_n \f$
-- 
2.43.0


From 43903e6ed4e584d85a36e17eb3dde7daca9b415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:27 +0000
Subject: [PATCH 04/83] fix: copies of LTI and discrete-time controlled systems
 carry their own copy of the controller

---
 .../ct/core/systems/continuous_time/linear/LTISystem.h       | 2 +-
 .../ct/core/systems/discrete_time/DiscreteControlledSystem.h | 2 +-
 .../ct/core/systems/discrete_time/linear/DiscreteLTISystem.h | 5 ++++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
index 7a3c7e0..15d5714 100644
--- a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
@@ -57,7 +57,7 @@ public:
     }
 
     //! copy constructor
-    LTISystem(const LTISystem& arg) : A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_) {}
+    LTISystem(const LTISystem& arg) : Base(arg), A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_) {}
     //! deep clone
     LTISystem<STATE_DIM, CONTROL_DIM>* clone() const override { return new LTISystem<STATE_DIM, CONTROL_DIM>(*this); }
     virtual ~LTISystem() {}
diff --git a/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h b/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h
index 81c216c..cb90870 100644
--- a/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h
+++ b/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h
@@ -68,7 +68,7 @@ public:
         : DiscreteSystem<STATE_DIM, CONTROL_DIM, SCALAR>(type), controller_(controller){};
 
     //! copy constructor
-    DiscreteControlledSystem(const ControlledSystem<STATE_DIM, CONTROL_DIM, SCALAR>& arg)
+    DiscreteControlledSystem(const DiscreteControlledSystem<STATE_DIM, CONTROL_DIM, SCALAR>& arg)
         : DiscreteSystem<STATE_DIM, CONTROL_DIM, SCALAR>(arg)
     {
         if (arg.controller_)
diff --git a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
index 4b03b85..8803e10 100644
--- a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
+++ b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
@@ -51,7 +51,10 @@ public:
     }
 
     //! copy constructor
-    DiscreteLTISystem(const DiscreteLTISystem& arg) : A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_) {}
+    DiscreteLTISystem(const DiscreteLTISystem& arg)
+        : DiscreteLinearSystem<STATE_DIM, CONTROL_DIM>(arg), A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_)
+    {
+    }
     //! deep clone
     DiscreteLTISystem<STATE_DIM, CONTROL_DIM>* clone() const override
     {
-- 
2.43.0


From 189f2c841836914990ba54132dc1f11d6b41466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:13 +0000
Subject: [PATCH 05/83] fix: adaptive integration scales its error with abs +
 rel*|x| instead of abs * rel*|x|

---
 ct_core/include/ct/core/integration/eigenIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/eigenIntegration.h b/ct_core/include/ct/core/integration/eigenIntegration.h
index 6bd13d5..2325892 100644
--- a/ct_core/include/ct/core/integration/eigenIntegration.h
+++ b/ct_core/include/ct/core/integration/eigenIntegration.h
@@ -40,7 +40,7 @@ inline Matrix<typename internal::traits<D>::Scalar, internal::traits<D>::RowsAtC
     const MatrixBase<D>& m)
 {
     Matrix<typename internal::traits<D>::Scalar, internal::traits<D>::RowsAtCompileTime, 1> result = m;
-    result *= s;
+    result.array() += s;
     return result;
 }
 
-- 
2.43.0


From 37b78f394f737cc434dd45888323f90a8990449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:24 +0000
Subject: [PATCH 06/83] fix: error tolerances set on an adaptive integrator
 reach its stepper

---
 .../ct/core/integration/internal/StepperBase.h       |  2 +-
 .../ct/core/integration/internal/SteppersODEInt.h    | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/internal/StepperBase.h b/ct_core/include/ct/core/integration/internal/StepperBase.h
index ba57e3c..ccd9400 100644
--- a/ct_core/include/ct/core/integration/internal/StepperBase.h
+++ b/ct_core/include/ct/core/integration/internal/StepperBase.h
@@ -171,7 +171,7 @@ public:
      * @param[in]  absErrTol  The absolute error tolerance
      * @param[in]  relErrTol  The relative error tolerance
      */
-    void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol)
+    virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol)
     {
         absErrTol_ = absErrTol;
         relErrTol_ = relErrTol;
diff --git a/ct_core/include/ct/core/integration/internal/SteppersODEInt.h b/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
index 731baa6..10e14b8 100644
--- a/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
+++ b/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
@@ -118,6 +118,12 @@ public:
         stepperDense_ = boost::numeric::odeint::make_dense_output(this->absErrTol_, this->relErrTol_, stepper_);
     }
 
+    virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol) override
+    {
+        StepperBase<MATRIX, SCALAR>::setAdaptiveErrorTolerances(absErrTol, relErrTol);
+        stepperDense_ = boost::numeric::odeint::make_dense_output(this->absErrTol_, this->relErrTol_, stepper_);
+    }
+
     virtual void integrate_adaptive(const std::function<void(const MATRIX&, MATRIX&, SCALAR)>& rhs,
         MATRIX& state,
         const SCALAR& startTime,
@@ -175,6 +181,12 @@ public:
         stepperControlled_ = boost::numeric::odeint::make_controlled(this->absErrTol_, this->relErrTol_, stepper_);
     }
 
+    virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol) override
+    {
+        StepperBase<MATRIX, SCALAR>::setAdaptiveErrorTolerances(absErrTol, relErrTol);
+        stepperControlled_ = boost::numeric::odeint::make_controlled(this->absErrTol_, this->relErrTol_, stepper_);
+    }
+
     virtual void integrate_adaptive(const std::function<void(const MATRIX&, MATRIX&, SCALAR)>& rhs,
         MATRIX& state,
         const SCALAR& startTime,
-- 
2.43.0


From 9c44f2100ce3bf85cd6b4bdeecf744616d7e0aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:14 +0000
Subject: [PATCH 07/83] fix: copying a SystemDiscretizer clones the source's
 system instead of dereferencing its own null pointer

---
 .../systems/discrete_time/SystemDiscretizer-impl.h     | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
index 2aae2ae..2aa969a 100644
--- a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
+++ b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
@@ -56,9 +56,15 @@ SystemDiscretizer<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::~SystemDiscreti
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
 SystemDiscretizer<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::SystemDiscretizer(const SystemDiscretizer& arg)
-    : dt_(arg.dt_), K_sim_(arg.K_sim_), dt_sim_(arg.dt_sim_), integratorType_(arg.integratorType_)
+    : Base(arg),
+      dt_(arg.dt_),
+      K_sim_(arg.K_sim_),
+      dt_sim_(arg.dt_sim_),
+      integratorType_(arg.integratorType_),
+      cont_constant_controller_(new ConstantController<STATE_DIM, CONTROL_DIM, SCALAR>())
 {
-    changeContinuousTimeSystem(ContinuousSystemPtr(cont_time_system_->clone()));
+    if (arg.cont_time_system_)
+        changeContinuousTimeSystem(arg.cont_time_system_);
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
-- 
2.43.0


From 4a89cb2a5b9c08042dc97761846699cb7aec331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:14 +0000
Subject: [PATCH 08/83] fix: SystemDiscretizer::setIntegrationType rebuilds the
 integrator

---
 .../ct/core/systems/discrete_time/SystemDiscretizer-impl.h    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
index 2aa969a..effcc9f 100644
--- a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
+++ b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
@@ -87,6 +87,10 @@ void SystemDiscretizer<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::setIntegra
     const ct::core::IntegrationType& integratorType)
 {
     integratorType_ = integratorType;
+
+    // re-build the integrator in case there is already a system to integrate
+    if (cont_time_system_)
+        initialize();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
-- 
2.43.0


From 3c9e9eec96e832ae3809173b06aa8f83d6c1a164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:33 +0000
Subject: [PATCH 09/83] fix: the Tustin discretization uses half the time step
 on either side

---
 .../core/integration/sensitivity/SensitivityApproximation.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
index 30ae591..ca4336f 100644
--- a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
+++ b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
@@ -150,10 +150,10 @@ public:
 
                 // front derivatives
                 linearSystem_->getDerivatives(Ac_front, Bc_front, x, u, n * settings_.dt_);
-                Ac_front *= settings_.dt_;
+                Ac_front *= 0.5 * settings_.dt_;
 
                 state_matrix_t Ac_back =
-                    settings_.dt_ * linearSystem_->getDerivativeState(x_next, u, (n + 1) * settings_.dt_);
+                    0.5 * settings_.dt_ * linearSystem_->getDerivativeState(x_next, u, (n + 1) * settings_.dt_);
 
 
                 //! tustin approximation
-- 
2.43.0


From ad53d229454bb2589cbc3f7538ef4a0947e448c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:33 +0000
Subject: [PATCH 10/83] fix: the matrix exponential discretization works for
 singular system matrices

---
 .../sensitivity/SensitivityApproximation.h         | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
index ca4336f..3ee063a 100644
--- a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
+++ b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
@@ -227,11 +227,15 @@ private:
         state_control_matrix_t Bc;
         linearSystem_->getDerivatives(Ac, Bc, x_n, u_n, n * settings_.dt_);
 
-        state_matrix_t Adt = settings_.dt_ * Ac;
-
-        A_discr.template topLeftCorner<STATE_DIM, STATE_DIM>() = Adt.exp();
-        B_discr.template topLeftCorner<STATE_DIM, CONTROL_DIM>() =
-            Ac.inverse() * (A_discr - state_matrix_t::Identity()) * Bc;
+        // the exponential of the augmented matrix holds A and B and does not require Ac to be invertible
+        typedef Eigen::Matrix<SCALAR, STATE_DIM + CONTROL_DIM, STATE_DIM + CONTROL_DIM> augmented_matrix_t;
+        augmented_matrix_t ABdt = augmented_matrix_t::Zero();
+        ABdt.template topLeftCorner<STATE_DIM, STATE_DIM>() = settings_.dt_ * Ac;
+        ABdt.template topRightCorner<STATE_DIM, CONTROL_DIM>() = settings_.dt_ * Bc;
+        const augmented_matrix_t ABexp = ABdt.exp();
+
+        A_discr = ABexp.template topLeftCorner<STATE_DIM, STATE_DIM>();
+        B_discr = ABexp.template topRightCorner<STATE_DIM, CONTROL_DIM>();
     }
 
 
-- 
2.43.0


From 0babeb472311cb3ac9c59bba08a4d92e938549ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:33 +0000
Subject: [PATCH 11/83] fix: the sensitivity integrator evaluates every substep
 at its own time

---
 .../ct/core/integration/sensitivity/SensitivityIntegrator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h b/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
index d73e7fc..8a39e6c 100644
--- a/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
+++ b/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
@@ -144,7 +144,7 @@ public:
 
         for (size_t i = 0; i < numSteps; ++i)
         {
-            stepper_->do_step(dFdxDot_, AB, k * dt_, dt_);
+            stepper_->do_step(dFdxDot_, AB, (k * numSteps + i) * dt_, dt_);
         }
 
         A = AB.template leftCols<STATE_DIM>();
@@ -196,8 +196,8 @@ public:
 
         if (!timeVarying_)
         {
-            Aconst_ = linearSystem_->getDerivativeState(x, u, n * dt_);
-            Bconst_ = linearSystem_->getDerivativeControl(x, u, n * dt_);
+            Aconst_ = linearSystem_->getDerivativeState(x, u, n * numSteps * dt_);
+            Bconst_ = linearSystem_->getDerivativeControl(x, u, n * numSteps * dt_);
         }
 
         integrateSensitivity(n, numSteps, A, B);
-- 
2.43.0


From b04aa407761aef78aedb007a1f274f7a006d0d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:33 +0000
Subject: [PATCH 12/83] fix: symplectic integration reports the state and
 control at the start of each substep to its observers

---
 .../core/integration/IntegratorSymplectic-impl.h   |  4 ++--
 .../systems/continuous_time/SymplecticSystem.h     | 14 ++++++--------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
index 7137914..6ed9639 100644
--- a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
+++ b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
@@ -48,9 +48,9 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
     {
         xCached_ = state;
         stepper_.do_step(std::make_pair(systemFunctionPosition_, systemFunctionVelocity_), xPair, time, dt);
+        observer_.observeInternal(state, time);
         state.head(POS_DIM) = xPair.first;
         state.tail(VEL_DIM) = xPair.second;
-        observer_.observeInternal(state, time);
         time += dt;
         stateTrajectory.push_back(state);
         timeTrajectory.push_back(time);
@@ -72,9 +72,9 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
     {
         xCached_ = state;
         stepper_.do_step(std::make_pair(systemFunctionPosition_, systemFunctionVelocity_), xPair, time, dt);
+        observer_.observeInternal(state, time);
         state.head(POS_DIM) = xPair.first;
         state.tail(VEL_DIM) = xPair.second;
-        observer_.observeInternal(state, time);
         time += dt;
     }
 }
diff --git a/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h b/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h
index 5233ea0..9e3e510 100644
--- a/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h
@@ -91,13 +91,12 @@ public:
         const StateVector<VEL_DIM, SCALAR>& v,
         StateVector<POS_DIM, SCALAR>& pDot)
     {
-        ControlVector<CONTROL_DIM, SCALAR> controlAction;
         if (this->controller_)
-            this->controller_->computeControl(x, 0.0, controlAction);
+            this->controller_->computeControl(x, 0.0, this->controlAction_);
         else
-            controlAction.setZero();
+            this->controlAction_.setZero();
 
-        computePdot(x, v, controlAction, pDot);
+        computePdot(x, v, this->controlAction_, pDot);
     }
 
     /**
@@ -111,13 +110,12 @@ public:
         const StateVector<POS_DIM, SCALAR>& p,
         StateVector<VEL_DIM, SCALAR>& vDot)
     {
-        ControlVector<CONTROL_DIM, SCALAR> controlAction;
         if (this->controller_)
-            this->controller_->computeControl(x, 0.0, controlAction);
+            this->controller_->computeControl(x, 0.0, this->controlAction_);
         else
-            controlAction.setZero();
+            this->controlAction_.setZero();
 
-        computeVdot(x, p, controlAction, vDot);
+        computeVdot(x, p, this->controlAction_, vDot);
     }
 
 
-- 
2.43.0


From f48dc52d777142eff5e90b10d6ab0b223cac9a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:07 +0000
Subject: [PATCH 13/83] fix: size the numerical Jacobian for dynamic dimensions

---
 ct_core/include/ct/core/math/DerivativesNumDiff.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_core/include/ct/core/math/DerivativesNumDiff.h b/ct_core/include/ct/core/math/DerivativesNumDiff.h
index a20eee3..c07e73a 100644
--- a/ct_core/include/ct/core/math/DerivativesNumDiff.h
+++ b/ct_core/include/ct/core/math/DerivativesNumDiff.h
@@ -89,6 +89,8 @@ public:
 
             // get evaluation of f(x,u)
             OUT_TYPE y_perturbed = f_(x_perturbed);
+            if (i == 0)
+                jac.resize(y_perturbed.rows(), x.rows());  // no-op for fixed-size Jacobians
 
             if (doubleSidedDerivative_)
             {
-- 
2.43.0


From 86e5aafbecb039feb495e14819a346bd1d4f8485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:25 +0000
Subject: [PATCH 14/83] fix: damping ratio of the mechanical oscillator
 constructor

---
 .../include/ct/core/systems/continuous_time/SecondOrderSystem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h b/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h
index 64e0ec2..64c79fd 100644
--- a/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h
@@ -113,7 +113,7 @@ public:
         : ControlledSystem<2, 1>(controller),
           w_n_(std::sqrt(k / m)),
           w_n_square_(w_n_ * w_n_),
-          zeta_(d / (2.0 * m * k)),
+          zeta_(d / (2.0 * std::sqrt(m * k))),
           g_dc_(g_dc)
     {
     }
-- 
2.43.0


From ff6e8c9efe3b2bf8adba1cf371659b6f1b3b8a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:05 +0000
Subject: [PATCH 15/83] fix: quantization rest buffer is long enough for the
 addressed channel

---
 ct_core/include/ct/core/common/QuantizationNoise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/common/QuantizationNoise.h b/ct_core/include/ct/core/common/QuantizationNoise.h
index 5af2170..53519ea 100644
--- a/ct_core/include/ct/core/common/QuantizationNoise.h
+++ b/ct_core/include/ct/core/common/QuantizationNoise.h
@@ -49,7 +49,7 @@ public:
     void noisify(double& value, size_t index = 0)
     {
         if (index >= quantizationRest_.size())
-            quantizationRest_.resize(index, 0);
+            quantizationRest_.resize(index + 1, 0.0);
 
         double currentValue = value + quantizationRest_[index];
         double nQuantsDouble = currentValue / quantizationInterval_;
-- 
2.43.0


From 7b40ff10257ff3cde2588329625475b07d7e6939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:05 +0000
Subject: [PATCH 16/83] fix: RBF activation constructor uses a decaying
 Gaussian

---
 ct_core/include/ct/core/common/activations/RBFGaussActivation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/common/activations/RBFGaussActivation.h b/ct_core/include/ct/core/common/activations/RBFGaussActivation.h
index b5a6e35..6c0e238 100644
--- a/ct_core/include/ct/core/common/activations/RBFGaussActivation.h
+++ b/ct_core/include/ct/core/common/activations/RBFGaussActivation.h
@@ -18,7 +18,7 @@ public:
     RBFGaussActivation() {}
     RBFGaussActivation(const SCALAR mu, const SCALAR sigma) : mu_(mu), sigma_(sigma)
     {
-        sigma2inv_ = SCALAR(1.0) / (SCALAR(2.0) * sigma_ * sigma_);
+        sigma2inv_ = -SCALAR(1.0) / (SCALAR(2.0) * sigma_ * sigma_);
         factor_ = SCALAR(1.0) / sqrt(SCALAR(2.0) * M_PI * sigma_ * sigma_);
     }
     virtual ~RBFGaussActivation() {}
-- 
2.43.0


From c0cd355e53310a91a8e73cfc528557dfa52f1d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:05 +0000
Subject: [PATCH 17/83] fix: barrier activation loaded from file activates the
 bounds it finds

---
 .../include/ct/core/common/activations/BarrierActivation.hpp    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_core/include/ct/core/common/activations/BarrierActivation.hpp b/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
index ddd2e60..8c05150 100644
--- a/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
+++ b/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
@@ -58,6 +58,7 @@ public:
         {
             // if there is no or a wrongly specified upper bound
             ub_ = pt.get<SCALAR>(termName + ".upper_bound");
+            ub_active_ = true;
         } catch (std::exception& e)
         {
             // we set the upper bound inactive
@@ -69,6 +70,7 @@ public:
         {
             // if there is no or a wrongly specified lower bound
             lb_ = pt.get<SCALAR>(termName + ".lower_bound");
+            lb_active_ = true;
         } catch (std::exception& e)
         {
             // we set the lower bound inactive
-- 
2.43.0


From 3ad94ea3ca72e1c1294fedef6cd5b40370ccddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:05 +0000
Subject: [PATCH 18/83] fix: periodic activation constructed without end time
 never ends

---
 .../include/ct/core/common/activations/PeriodicActivation.hpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp b/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp
index 1157cce..59afcf0 100644
--- a/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp
+++ b/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp
@@ -22,7 +22,8 @@ public:
         : active_percentage_(active_percentage),
           period_(period),
           activation_offset_(activation_offset),
-          period_offset_(period_offset)
+          period_offset_(period_offset),
+          t_end_(std::numeric_limits<SCALAR>::max())
     {
     }
     virtual ~PeriodicActivation() {}
-- 
2.43.0


From 57b431214d9172725f3283087acbbea87ebec9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:37 +0000
Subject: [PATCH 19/83] fix: NLOptConSettings reads each of its choices even
 when another one is absent

---
 .../include/ct/optcon/solver/NLOptConSettings.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp b/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp
index fd6918b..48a8ca7 100644
--- a/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp
+++ b/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp
@@ -549,6 +549,11 @@ public:
                 exit(-1);
             }
 
+        } catch (...)
+        {
+        }
+        try
+        {
             std::string discretizationStr = pt.get<std::string>(ns + ".discretization");
             if (stringToDiscretization.find(discretizationStr) != stringToDiscretization.end())
             {
@@ -566,6 +571,11 @@ public:
                 exit(-1);
             }
 
+        } catch (...)
+        {
+        }
+        try
+        {
             std::string nlocp_algorithmStr = pt.get<std::string>(ns + ".nlocp_algorithm");
             if (stringToNlocAlgorithm.find(nlocp_algorithmStr) != stringToNlocAlgorithm.end())
             {
@@ -585,6 +595,11 @@ public:
             }
 
 
+        } catch (...)
+        {
+        }
+        try
+        {
             std::string locp_solverStr = pt.get<std::string>(ns + ".locp_solver");
             if (stringToLqocSolver.find(locp_solverStr) != stringToLqocSolver.end())
             {
-- 
2.43.0


From 83b1ce270078d15f6a3e2138e0d4d4790b3cf744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:37 +0000
Subject: [PATCH 20/83] fix: filter settings are read with their own type and a
 consistent prefix

---
 ct_optcon/include/ct/optcon/filter/FilterSettings.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/FilterSettings.h b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
index 596b149..7128c98 100644
--- a/ct_optcon/include/ct/optcon/filter/FilterSettings.h
+++ b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
@@ -112,7 +112,7 @@ struct SteadyStateKalmanFilterSettings
         boost::property_tree::ptree pt;
         boost::property_tree::read_info(filename, pt);
 
-        maxDAREIterations = pt.get<size_t>(ns + ".maxDAREIterations", 1000);
+        maxDAREIterations = pt.get<size_t>(ns + "maxDAREIterations", 1000);
         ct::core::loadMatrix(filename, "x0", x0, ns);
 
         if (verbose)
@@ -213,9 +213,9 @@ struct UnscentedKalmanFilterSettings
         boost::property_tree::read_info(filename, pt);
 
         ct::core::loadMatrix(filename, "x0", x0, ns);
-        alpha = pt.get<bool>(ns + ".alpha");
-        beta = pt.get<bool>(ns + ".beta");
-        kappa = pt.get<bool>(ns + ".kappa");
+        alpha = pt.get<SCALAR>(ns + "alpha");
+        beta = pt.get<SCALAR>(ns + "beta");
+        kappa = pt.get<SCALAR>(ns + "kappa");
         ct::core::loadMatrix(filename, "P0", P0, ns);
 
         if (verbose)
-- 
2.43.0


From 668b14e0d798e513a322a82f4ae18dee7473e1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:19 +0000
Subject: [PATCH 21/83] fix: apply the time activation of a cost term once in
 the value, as in its derivatives

---
 .../ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
index 3b79d02..9c2be86 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
@@ -317,7 +317,7 @@ SCALAR CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::evaluateIntermedia
         {
             continue;
         }
-        y += it->computeActivation(this->t_) * it->eval(this->x_, this->u_, this->t_);
+        y += it->eval(this->x_, this->u_, this->t_);
     }
 
     return y;
-- 
2.43.0


From 487a9801f87ac83e0bef48bf1cbe1e59608a7d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:19 +0000
Subject: [PATCH 22/83] fix: initialise and load the constant of TermLinear

---
 .../include/ct/optcon/costfunction/term/TermLinear-impl.hpp   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp
index dfd971d..159df10 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp
@@ -31,6 +31,9 @@ TermLinear<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::clone() const
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
 TermLinear<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::TermLinear()
+    : a_(core::StateVector<STATE_DIM, SCALAR_EVAL>::Zero()),
+      b_(core::ControlVector<CONTROL_DIM, SCALAR_EVAL>::Zero()),
+      c_(SCALAR_EVAL(0.0))
 {
 }
 
@@ -116,6 +119,7 @@ void TermLinear<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(con
     // read in the file and put the valus in a_ and b_
     loadMatrixCF(filename, "a", a_, termName);
     loadMatrixCF(filename, "b", b_, termName);
+    loadScalarOptionalCF(filename, "c", c_, termName, SCALAR_EVAL(0.0));
     if (verbose)
     {
         std::cout << "Read a as a= \n" << a_ << std::endl;
-- 
2.43.0


From 59cfe065321321bbd8eae358a880fdd9b9ab3159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:19 +0000
Subject: [PATCH 23/83] fix: check the activation kind before using the
 activation

---
 ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp
index aa9f83b..da98679 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp
@@ -160,13 +160,13 @@ void TermBase<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadTimeActivation(c
         boost::algorithm::to_lower(activationKind);
         std::shared_ptr<ct::core::tpl::ActivationBase<SCALAR_EVAL>> c_i;
         CT_LOADABLE_ACTIVATIONS(SCALAR_EVAL);
-        c_i->loadConfigFile(filename, termName + ".time_activation", verbose);
         if (!c_i)
         {
             throw std::runtime_error("Activation type \"" + activationKind + "\" not supported");
         }
         else
         {
+            c_i->loadConfigFile(filename, termName + ".time_activation", verbose);
             c_i_ = c_i;
             if (verbose)
                 c_i_->printInfo();
-- 
2.43.0


From 75c8185cf64099821c2ddc76e19c9a2bea56870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:34 +0000
Subject: [PATCH 24/83] fix: set up the barriers of TermStateBarrier

---
 .../ct/optcon/costfunction/term/TermStateBarrier-impl.hpp    | 5 ++++-
 .../include/ct/optcon/costfunction/term/TermStateBarrier.hpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier-impl.hpp
index 8728a9c..55eedd2 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier-impl.hpp
@@ -14,17 +14,19 @@ TermStateBarrier<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::TermStateBarrier(
     const state_vector_t& alpha)
     : ub_(ub), lb_(lb), alpha_(alpha)
 {
+    initialize();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
 TermStateBarrier<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::TermStateBarrier()
     : ub_(state_vector_t::Zero()), lb_(state_vector_t::Zero()), alpha_(state_vector_t::Zero())
 {
+    initialize();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
 TermStateBarrier<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::TermStateBarrier(const TermStateBarrier& arg)
-    : ub_(arg.ub_), lb_(arg.lb_), alpha_(arg.alpha_)
+    : TermBase<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>(arg), ub_(arg.ub_), lb_(arg.lb_), alpha_(arg.alpha_)
 {
     initialize();
 }
@@ -93,6 +95,7 @@ void TermStateBarrier<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFi
     alpha_ = Alpha.diagonal();
     ub_ = Ub.diagonal();
     lb_ = Lb.diagonal();
+    initialize();
 
     if (verbose)
     {
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier.hpp
index fac128b..158d399 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier.hpp
@@ -68,7 +68,7 @@ protected:
     state_vector_t ub_;
     state_vector_t lb_;
 
-    std::vector<ct::core::tpl::BarrierActivation<SCALAR, ct::core::tpl::TraitSelector<SCALAR>>> barriers_;
+    std::vector<ct::core::tpl::BarrierActivation<SCALAR>> barriers_;
 };
 
 
-- 
2.43.0


From d90ad7edf91e6fb9ce4b18a386d41631e6ad1106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:51 +0000
Subject: [PATCH 25/83] fix: numerical cost derivatives leave the current
 state, control and time untouched

---
 .../ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
index 9c2be86..e1a279f 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
@@ -179,6 +179,7 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::stateDerivativeIntermedia
     control_vector_t u_local;
     SCALAR t_local;
     this->getCurrentStateAndControl(x_local, u_local, t_local);
+    t_local -= this->t_shift_;  // setCurrentStateAndControl() adds the time shift again
     SCALAR dxdt_ref = this->evaluateIntermediate();
 
     for (size_t i = 0; i < STATE_DIM; ++i)
@@ -213,6 +214,7 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::stateDerivativeIntermedia
             dFdx(i, 0) = (dxdt - dxdt_ref) / dxp;
         }
     }
+    this->setCurrentStateAndControl(x_local, u_local, t_local);
 
     return dFdx;
 }
@@ -226,6 +228,7 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::controlDerivativeIntermed
     control_vector_t u_local;
     SCALAR t_local;
     this->getCurrentStateAndControl(x_local, u_local, t_local);
+    t_local -= this->t_shift_;  // setCurrentStateAndControl() adds the time shift again
     SCALAR dxdt_ref = this->evaluateIntermediate();
 
     for (size_t i = 0; i < CONTROL_DIM; ++i)
@@ -261,6 +264,7 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::controlDerivativeIntermed
             dFdu(i, 0) = (dxdt - dxdt_ref) / dup;
         }
     }
+    this->setCurrentStateAndControl(x_local, u_local, t_local);
 
     return dFdu;
 }
-- 
2.43.0


From 727f176c40cf1749d67a5fad64e1cfe66339a5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:51 +0000
Subject: [PATCH 26/83] fix: CostFunctionQuadraticSimple: copies keep the
 current point, reference updates take effect

---
 .../CostFunctionQuadraticSimple-impl.hpp         | 16 ++++++++++++----
 .../costfunction/CostFunctionQuadraticSimple.hpp |  2 ++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
index d85f5d0..6f9fa85 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
@@ -42,7 +42,8 @@ CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::~CostFunctionQuadra
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::CostFunctionQuadraticSimple(
     const CostFunctionQuadraticSimple& arg)
-    : x_deviation_(arg.x_deviation_),
+    : CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>(arg),
+      x_deviation_(arg.x_deviation_),
       x_nominal_(arg.x_nominal_),
       Q_(arg.Q_),
       u_deviation_(arg.u_deviation_),
@@ -66,9 +67,7 @@ void CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::setCurrentStat
     const control_vector_t& u,
     const SCALAR& t)
 {
-    this->x_ = x;
-    this->u_ = u;
-    this->t_ = t;
+    CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::setCurrentStateAndControl(x, u, t);
 
     this->x_deviation_ = x - x_nominal_;
     this->u_deviation_ = u - u_nominal_;
@@ -143,6 +142,15 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 void CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::updateReferenceState(const state_vector_t& x_ref)
 {
     x_nominal_ = x_ref;
+    x_deviation_ = this->x_ - x_nominal_;
+}
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
+void CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::updateReferenceControl(
+    const control_vector_t& u_ref)
+{
+    u_nominal_ = u_ref;
+    u_deviation_ = this->u_ - u_nominal_;
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp
index 2b472d2..6c2f629 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp
@@ -86,6 +86,8 @@ public:
 
     virtual void updateReferenceState(const state_vector_t& x_ref) override;
 
+    virtual void updateReferenceControl(const control_vector_t& u_ref) override;
+
     virtual void updateFinalState(const state_vector_t& x_final) override;
 
 protected:
-- 
2.43.0


From 7e603e5526b46632b7f2cea1849f702fc741deea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:51 +0000
Subject: [PATCH 27/83] fix: terms read from file carry the name given in the
 file

---
 .../ct/optcon/costfunction/CostFunctionAnalytical-impl.hpp    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionAnalytical-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionAnalytical-impl.hpp
index 1fc8c6a..dc35700 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionAnalytical-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionAnalytical-impl.hpp
@@ -61,6 +61,7 @@ void CostFunctionAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::loadFromConfigFile(
         boost::algorithm::to_lower(termKind);
         int currentTermType = pt.get<int>(currentTerm + ".type");
         std::string termName;
+        bool namedInFile = true;
         try
         {
             termName = pt.get<std::string>(currentTerm + ".name");
@@ -69,6 +70,7 @@ void CostFunctionAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::loadFromConfigFile(
         } catch (boost::property_tree::ptree_bad_path& err)
         {
             termName = "Unnamed";
+            namedInFile = false;
             if (verbose)
             {
                 std::cout << "Name field for " + currentTerm + " does not exist" << std::endl;
@@ -86,6 +88,8 @@ void CostFunctionAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::loadFromConfigFile(
         else
         {
             addTerm(filename, currentTerm, currentTermType, term, this, verbose);
+            if (namedInFile)
+                term->setName(termName);
         }
         currentTerm = "term" + std::to_string(++i);
     } while (pt.find(currentTerm) != pt.not_found());
-- 
2.43.0


From b1fd20b6acca5259c0c4f1d3a3cfc3dbb54f8945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:51 +0000
Subject: [PATCH 28/83] fix: list the default sparse constraint Jacobian in the
 order of its sparsity pattern

---
 .../include/ct/optcon/constraint/term/ConstraintBase-impl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h b/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h
index 9d85769..d2881ce 100644
--- a/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h
@@ -101,7 +101,8 @@ ConstraintBase<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianStateSparse(const state_
     const control_vector_t& u,
     const SCALAR t)
 {
-    MatrixXs jacState = jacobianState(x, u, t);
+    // row by row, as listed by genBlockIndices()
+    MatrixXs jacState = jacobianState(x, u, t).transpose();
 
     VectorXs jac(Eigen::Map<VectorXs>(jacState.data(), jacState.rows() * jacState.cols()));
 
@@ -114,7 +115,8 @@ ConstraintBase<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianInputSparse(const state_
     const control_vector_t& u,
     const SCALAR t)
 {
-    MatrixXs jacInput = jacobianInput(x, u, t);
+    // row by row, as listed by genBlockIndices()
+    MatrixXs jacInput = jacobianInput(x, u, t).transpose();
 
     VectorXs jac(Eigen::Map<VectorXs>(jacInput.data(), jacInput.rows() * jacInput.cols()));
     return jac;
-- 
2.43.0


From 0e187d1e58e113b582e9ab7222ef9253293838cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:51 +0000
Subject: [PATCH 29/83] fix: terminal state Jacobians check that the terminal
 constraints are initialised

---
 .../ct/optcon/constraint/ConstraintContainerAnalytical-impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h b/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
index 237c492..11cbe99 100644
--- a/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
@@ -190,7 +190,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 typename ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::VectorXs
 ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianStateSparseTerminal()
 {
-    checkIntermediateConstraints();
+    checkTerminalConstraints();
 
     size_t count = 0;
     for (auto constraint : constraintsTerminal_)
@@ -211,7 +211,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 typename ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::MatrixXs
 ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianStateTerminal()
 {
-    checkIntermediateConstraints();
+    checkTerminalConstraints();
 
     size_t count = 0;
     for (auto constraint : constraintsTerminal_)
-- 
2.43.0


From 0ff69ebf31b8aaee1bec273512f4d5ac316c6e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:52 +0000
Subject: [PATCH 30/83] fix: switched constraints: evaluate the terminal
 constraint at the current state

---
 .../optcon/constraint/SwitchedLinearConstraintContainer-impl.h  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
index 992e6c3..c654f4a 100644
--- a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
@@ -218,6 +218,8 @@ void SwitchedLinearConstraintContainer<STATE_DIM, CONTROL_DIM, SCALAR>::update()
     auto mode = continuousModeSequence_.getPhaseFromTime(this->t_);
     activeLinearConstraintContainer_ = switchedLinearConstraintContainers_.at(mode);
     activeLinearConstraintContainer_->setCurrentStateAndControl(this->x_, this->u_, this->t_);
+    if (terminalLinearConstraintContainer_ != activeLinearConstraintContainer_)
+        terminalLinearConstraintContainer_->setCurrentStateAndControl(this->x_, this->u_, this->t_);
 
     this->lowerBoundsIntermediate_ = activeLinearConstraintContainer_->getLowerBoundsIntermediate();
     this->upperBoundsIntermediate_ = activeLinearConstraintContainer_->getUpperBoundsIntermediate();
-- 
2.43.0


From 0cae5da4407eab049b5dedcd14577312724fb39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:24 +0000
Subject: [PATCH 31/83] fix: a copied switched constraint container stays in
 the current mode

---
 .../optcon/constraint/SwitchedLinearConstraintContainer-impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
index c654f4a..73bdab9 100644
--- a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
@@ -30,9 +30,10 @@ SwitchedLinearConstraintContainer<STATE_DIM, CONTROL_DIM, SCALAR>::SwitchedLinea
     for (auto& linearConstraintContainer : arg.switchedLinearConstraintContainers_)
     {
         switchedLinearConstraintContainers_.emplace_back(linearConstraintContainer->clone());
+        if (linearConstraintContainer == arg.activeLinearConstraintContainer_)
+            activeLinearConstraintContainer_ = switchedLinearConstraintContainers_.back();
     }
 
-    activeLinearConstraintContainer_ = switchedLinearConstraintContainers_.front();
     terminalLinearConstraintContainer_ =
         switchedLinearConstraintContainers_.at(continuousModeSequence_.getFinalPhase());
 }
-- 
2.43.0


From 80511bbfb87ab87d176dd892cea43bd04a9845e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:56 +0000
Subject: [PATCH 32/83] fix: linearise time-varying systems at the time of each
 stage in FHDTLQR

---
 ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp b/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
index 73f626d..a901f5a 100644
--- a/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
+++ b/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
@@ -65,8 +65,8 @@ void FHDTLQR<STATE_DIM, CONTROL_DIM, SCALAR>::linearizeModel(const state_vector_
 
     for (int i = 0; i < N; i++)
     {
-        A[i] = state_matrix_t::Identity() + dt * derivatives->getDerivativeState(x_trajectory[i], u_trajectory[i]);
-        B[i] = dt * derivatives->getDerivativeControl(x_trajectory[i], u_trajectory[i]);
+        A[i] = state_matrix_t::Identity() + dt * derivatives->getDerivativeState(x_trajectory[i], u_trajectory[i], i * dt);
+        B[i] = dt * derivatives->getDerivativeControl(x_trajectory[i], u_trajectory[i], i * dt);
     }
 }
 
-- 
2.43.0


From cff5297e1c94cfdf67177bb3ed18c4dc9f2c3b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:37 +0000
Subject: [PATCH 33/83] fix: allocate the Riccati solver for the problem it is
 constructed with

---
 .../include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
index 8f90f0c..2e8f189 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
@@ -15,11 +15,14 @@ GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(const std::shar
 {
     Eigen::initParallel();
     Eigen::setNbThreads(settings_.nThreadsEigen);
+
+    if (lqocProblem)
+        this->setProblem(lqocProblem);
 }
 
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
-GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(int N)
+GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(int N) : N_(-1)
 {
     changeNumberOfStages(N);
 }
-- 
2.43.0


From c78a6b4029d3e52fd4b44df2d67625c080bd0547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:13 +0000
Subject: [PATCH 34/83] fix: compute the feedback of single-input problems with
 the fixed Hessian correction

---
 ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
index 2e8f189..34b28bf 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
@@ -223,7 +223,7 @@ void GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::designController(size_t k)
         Hi_inverse_[k] = -Hi_[k].template selfadjointView<Eigen::Lower>().llt().solve(ControlMatrix::Identity());
 
         // calculate FB gain update
-        this->L_[k].noalias() = Hi_inverse_[k].template selfadjointView<Eigen::Lower>() * G_[k];
+        this->L_[k].noalias() = Hi_inverse_[k] * G_[k];
 
         // calculate FF update
         this->lv_[k].noalias() = Hi_inverse_[k].template selfadjointView<Eigen::Lower>() * gv_[k];
-- 
2.43.0


From 3fab7384ea6bf827e9fc3f15b68f4af1bdc75125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:14 +0000
Subject: [PATCH 35/83] fix: shots longer than the horizon no longer run past
 its end

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 2 +-
 ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp   | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 9ec54b6..65c0e35 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1661,7 +1661,7 @@ int NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::g
     if (settings_.isSingleShooting())
         return K_;
     else
-        return settings_.K_shot;
+        return std::min(K_, settings_.K_shot);  // a shot cannot be longer than the horizon
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index 45f183f..b623a2d 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -216,6 +216,10 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
     if (lastIndex == (static_cast<size_t>(this->K_) - 1))
         this->initializeCostToGo();
 
+    // nothing to do for an empty index range, e.g. if the first shot covers the entire time horizon
+    if (lastIndex < firstIndex)
+        return;
+
     /*
 	 * In special cases, this function may be called for a single index, e.g. for the unconstrained GNMS real-time iteration scheme.
 	 * Then, don't wake up workers, but do single-threaded computation for that single index, and return.
@@ -312,6 +316,10 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, type
 void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::rolloutShots(size_t firstIndex,
     size_t lastIndex)
 {
+    // nothing to do for an empty index range, e.g. if the first shot covers the entire time horizon
+    if (lastIndex < firstIndex)
+        return;
+
     /*!
 	 * In special cases, this function may be called for a single index, e.g. for the unconstrained GNMS real-time iteration scheme.
 	 * Then, don't wake up workers, but do single-threaded computation for that single index, and return.
-- 
2.43.0


From fbd4ec6f2a384c8a06fc06bc1e0918d9a6d18d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:54 +0000
Subject: [PATCH 36/83] fix: real-time iterations of multiple-shooting iLQR
 apply the feedback part of the control update

---
 .../include/ct/optcon/nloc/NLOCBackendBase-impl.hpp  | 12 ++++++++++++
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp |  3 +++
 .../optcon/nloc/algorithms/MultipleShooting-impl.hpp |  1 +
 3 files changed, 16 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 65c0e35..385058f 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1453,6 +1453,18 @@ void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
     x_ref_lqr_ += delta_x_ref_lqr_;
 }
 
+template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
+void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::doFeedbackUpdate()
+{
+    if (!settings_.closedLoopShooting())
+        return;
+
+    for (int i = 0; i < K_; i++)
+        u_ff_[i] += L_[i] * (x_[i] - x_ref_lqr_[i]);
+
+    x_ref_lqr_ = x_;
+}
+
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
 void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::logSummaryToMatlab(
     const std::string& fileName)
diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp
index 7726909..bb305a9 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp
@@ -378,6 +378,9 @@ public:
     //! simple full-step update for state and feedforward control (used for MPC-mode!)
     void doFullStepUpdate();
 
+    //! apply the feedback part of the control update along the updated states (if there is no rollout which does it)
+    void doFeedbackUpdate();
+
     void logSummaryToMatlab(const std::string& fileName);
 
     const SummaryAllIterations<SCALAR>& getSummary() const;
diff --git a/ct_optcon/include/ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp b/ct_optcon/include/ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp
index 825016d..e541530 100644
--- a/ct_optcon/include/ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp
@@ -257,6 +257,7 @@ bool MultipleShooting<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>:
     //! update solutions
     start = std::chrono::steady_clock::now();
     this->backend_->doFullStepUpdate();
+    this->backend_->doFeedbackUpdate();
 
     end = std::chrono::steady_clock::now();
     diff = end - start;
-- 
2.43.0


From 492e92f0255d8c6f82e878092bcdba8e7a167d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:56 +0000
Subject: [PATCH 37/83] fix: keep the defects when the line search takes no
 step

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 385058f..5d45a4f 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1049,9 +1049,6 @@ bool NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
                       (e_box_norm_ + e_gen_norm_) * settings_.meritFunctionRhoConstraints;
         lowestCostPrevious = lowestCost_;
 
-        resetDefects();
-
-
         if (settings_.lineSearchSettings.debugPrint)
         {
             std::cout << "[LineSearch]: Starting line search." << std::endl;
-- 
2.43.0


From eb9e44ca2fd98d824a6f65100a8104baa38825d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:05 +0000
Subject: [PATCH 38/83] fix: multi-threaded line search: a smaller step no
 longer replaces a larger accepted one

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index b623a2d..3dfa1ad 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -515,7 +515,8 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::li
         bool stepAccepted =
             this->acceptStep(alpha, intermediateCost, finalCost, defectNorm, e_box_norm, e_gen_norm, lowestCostPrevious_, cost);
 
-        if (stepAccepted)
+        // the largest accepted step size wins, independently of the order in which the workers finish
+        if (stepAccepted && alphaExp < alphaExpBest_)
         {
             // make sure we do not alter an existing result
             if (alphaBestFound_)
-- 
2.43.0


From b510749cd7c55325b43f7968065c4feb44ebd201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:39 +0000
Subject: [PATCH 39/83] fix: multi-threaded backend: protect the task hand-over
 and wait for all workers

---
 .../ct/optcon/nloc/NLOCBackendMP-impl.hpp     | 148 +++++-------------
 .../include/ct/optcon/nloc/NLOCBackendMP.hpp  |  24 +--
 2 files changed, 45 insertions(+), 127 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index 3dfa1ad..3d6a574 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -46,8 +46,11 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::st
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
 void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::shutdownRoutine()
 {
-    workersActive_ = false;
-    workerTask_ = SHUTDOWN;
+    {
+        std::lock_guard<std::mutex> lock(workerMutex_);
+        workerTask_ = SHUTDOWN;
+        taskCounter_++;
+    }
     workerWakeUpCondition_.notify_all();
 
 #ifdef DEBUG_PRINT_MP
@@ -73,64 +76,23 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
 #endif  // DEBUG_PRINT_MP
 
 
-    // local variables
-    int workerTask_local = IDLE;
-    size_t uniqueProcessID = 0;
-    size_t iteration_local = this->iteration_;
-    size_t lqpCounter_local = this->lqpCounter_;
+    size_t lastTask = 0;  // the last task this worker has been working on
 
-
-    while (workersActive_)
+    while (true)
     {
-        workerTask_local = workerTask_.load();
-        iteration_local = this->iteration_;
-        lqpCounter_local = this->lqpCounter_;
-
-#ifdef DEBUG_PRINT_MP
-        printString("[Thread " + std::to_string(threadId) + "]: previous procId: " + std::to_string(uniqueProcessID) +
-                    ", current procId: " +
-                    std::to_string(generateUniqueProcessID(iteration_local, (int)workerTask_local, lqpCounter_local)));
-#endif
+        WORKER_STATE workerTask_local;
 
-
-        /*!
-         * We want to put the worker to sleep if
-         * - the workerTask_ is IDLE
-         * - or we are finished but workerTask_ is not yet reset, thus the process ID is still the same
-         * */
-        if (workerTask_local == IDLE ||
-            uniqueProcessID == generateUniqueProcessID(iteration_local, (int)workerTask_local, lqpCounter_local))
+        // sleep until there is a new task
         {
-#ifdef DEBUG_PRINT_MP
-            printString("[Thread " + std::to_string(threadId) + "]: going to sleep !");
-#endif
-
-            // sleep until the state is not IDLE any more and we have a different process ID than before
-            std::unique_lock<std::mutex> waitLock(workerWakeUpMutex_);
-            while (workerTask_ == IDLE || (uniqueProcessID == generateUniqueProcessID(this->iteration_,
-                                                                  (int)workerTask_.load(), this->lqpCounter_)))
-            {
-                workerWakeUpCondition_.wait(waitLock);
-            }
-            waitLock.unlock();
-
-            workerTask_local = workerTask_.load();
-            iteration_local = this->iteration_;
-            lqpCounter_local = this->lqpCounter_;
-
-#ifdef DEBUG_PRINT_MP
-            printString("[Thread " + std::to_string(threadId) + "]: woke up !");
-#endif  // DEBUG_PRINT_MP
+            std::unique_lock<std::mutex> waitLock(workerMutex_);
+            workerWakeUpCondition_.wait(waitLock, [this, lastTask] { return taskCounter_ != lastTask; });
+            workerTask_local = workerTask_;
+            lastTask = taskCounter_;
         }
 
-        if (!workersActive_)
-        {
 #ifdef DEBUG_PRINT_MP
-            printString("Breaking - workers are not active !");
+        printString("[Thread " + std::to_string(threadId) + "]: woke up !");
 #endif  // DEBUG_PRINT_MP
-            break;
-        }
-
 
         switch (workerTask_local)
         {
@@ -140,7 +102,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
                 printString("[Thread " + std::to_string(threadId) + "]: now busy with LINE_SEARCH !");
 #endif  // DEBUG_PRINT_MP
                 lineSearchWorker(threadId);
-                uniqueProcessID = generateUniqueProcessID(iteration_local, LINE_SEARCH, lqpCounter_local);
                 break;
             }
             case ROLLOUT_SHOTS:
@@ -149,7 +110,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
                 printString("[Thread " + std::to_string(threadId) + "]: now doing shot rollouts !");
 #endif  // DEBUG_PRINT_MP
                 rolloutShotWorker(threadId);
-                uniqueProcessID = generateUniqueProcessID(iteration_local, ROLLOUT_SHOTS, lqpCounter_local);
                 break;
             }
             case COMPUTE_LQ_PROBLEM:
@@ -158,7 +118,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
                 printString("[Thread " + std::to_string(threadId) + "]: now doing LQ approximation !");
 #endif  // DEBUG_PRINT_MP
                 computeLQProblemWorker(threadId);
-                uniqueProcessID = generateUniqueProcessID(iteration_local, COMPUTE_LQ_PROBLEM, lqpCounter_local);
                 break;
             }
             case SHUTDOWN:
@@ -182,6 +141,10 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
                 break;
             }
         }
+
+        std::lock_guard<std::mutex> lock(workerMutex_);
+        if (--workersBusy_ == 0)
+            workersDoneCondition_.notify_all();
     }
 
 #ifdef DEBUG_PRINT_MP
@@ -195,11 +158,11 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::la
 {
 #ifdef DEBUG_PRINT_MP
     printString("[MP]: Going to launch worker threads!");
-    std::cout << workersActive_.load() << std::endl;
 #endif  //DEBUG_PRINT_MP
 
-    workersActive_ = true;
     workerTask_ = IDLE;
+    taskCounter_ = 0;
+    workersBusy_ = 0;
 
     for (int i = 0; i < (int)this->settings_.nThreads; i++)
     {
@@ -208,6 +171,21 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::la
 }
 
 
+template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
+void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::runWorkers(WORKER_STATE task)
+{
+    std::unique_lock<std::mutex> lock(workerMutex_);
+    workerTask_ = task;
+    taskCounter_++;
+    workersBusy_ = workerThreads_.size();
+    workerWakeUpCondition_.notify_all();
+
+    // wait for all workers, such that none of them can interfere with whatever comes next
+    workersDoneCondition_.wait(lock, [this] { return workersBusy_ == 0; });
+    workerTask_ = IDLE;
+}
+
+
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
 void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::computeLQApproximation(size_t firstIndex,
     size_t lastIndex)
@@ -245,24 +223,13 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
 #endif  //DEBUG_PRINT_MP
 
     kTaken_ = 0;
-    kCompleted_ = 0;
     KMax_ = lastIndex;
     KMin_ = firstIndex;
 
 #ifdef DEBUG_PRINT_MP
     printString("[MP]: Waking up workers to do LQ approximation.");
 #endif  //DEBUG_PRINT_MP
-    workerTask_ = COMPUTE_LQ_PROBLEM;
-    workerWakeUpCondition_.notify_all();
-
-#ifdef DEBUG_PRINT_MP
-    printString("[MP]: Will sleep now until done with LQ approximation.");
-#endif  //DEBUG_PRINT_MP
-
-    std::unique_lock<std::mutex> waitLock(kCompletedMutex_);
-    kCompletedCondition_.wait(waitLock, [this] { return kCompleted_.load() > KMax_ - KMin_; });
-    waitLock.unlock();
-    workerTask_ = IDLE;
+    runWorkers(COMPUTE_LQ_PROBLEM);
 #ifdef DEBUG_PRINT_MP
     printString("[MP]: Woke up again, should have computed LQ approximation now.");
 #endif  //DEBUG_PRINT_MP
@@ -290,9 +257,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
                             std::to_string(KMax_) + " and KMin_ is " + std::to_string(KMin_));
 #endif
 
-            //kCompleted_++;
-            if (kCompleted_.load() > KMax_ - KMin_)
-                kCompletedCondition_.notify_all();
             return;
         }
 
@@ -306,8 +270,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
 
         if (this->generalConstraints_[threadId] != nullptr)
             this->computeLinearizedConstraints(threadId, KMax_ - k);  // linearize constraints backwards
-
-        kCompleted_++;
     }
 }
 
@@ -348,7 +310,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 
 
     kTaken_ = 0;
-    kCompleted_ = 0;
     KMax_ = lastIndex;
     KMin_ = firstIndex;
 
@@ -356,17 +317,7 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Waking up workers to do shot rollouts." << std::endl;
 #endif  //DEBUG_PRINT_MP
-    workerTask_ = ROLLOUT_SHOTS;
-    workerWakeUpCondition_.notify_all();
-
-#ifdef DEBUG_PRINT_MP
-    std::cout << "[MP]: Will sleep now until we have rolled out all shots." << std::endl;
-#endif  //DEBUG_PRINT_MP
-
-    std::unique_lock<std::mutex> waitLock(kCompletedMutex_);
-    kCompletedCondition_.wait(waitLock, [this] { return kCompleted_.load() > KMax_ - KMin_; });
-    waitLock.unlock();
-    workerTask_ = IDLE;
+    runWorkers(ROLLOUT_SHOTS);
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Woke up again, should have rolled out all shots now." << std::endl;
 #endif  //DEBUG_PRINT_MP
@@ -387,8 +338,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 
         if (k > KMax_ - KMin_)
         {
-            if (kCompleted_.load() > KMax_ - KMin_)
-                kCompletedCondition_.notify_all();
             return;
         }
 
@@ -407,8 +356,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 
             this->computeSingleDefect(kShot, this->x_, this->xShot_, this->d_);
         }
-
-        kCompleted_++;
     }
 }
 
@@ -429,16 +376,7 @@ SCALAR NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Waking up workers." << std::endl;
 #endif  //DEBUG_PRINT_MP
-    workerTask_ = LINE_SEARCH;
-    workerWakeUpCondition_.notify_all();
-
-#ifdef DEBUG_PRINT_MP
-    std::cout << "[MP]: Will sleep now until done line search." << std::endl;
-#endif  //DEBUG_PRINT_MP
-    std::unique_lock<std::mutex> waitLock(alphaBestFoundMutex_);
-    alphaBestFoundCondition_.wait(waitLock, [this] { return alphaBestFound_.load(); });
-    waitLock.unlock();
-    workerTask_ = IDLE;
+    runWorkers(LINE_SEARCH);
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Woke up again, should have results now." << std::endl;
 #endif  //DEBUG_PRINT_MP
@@ -586,22 +524,12 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::li
         if (allPreviousAlphasProcessed)
         {
             alphaBestFound_ = true;
-            alphaBestFoundCondition_.notify_all();
         }
 
         lineSearchResultMutex_.unlock();
     }
 }
 
-template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
-size_t NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::generateUniqueProcessID(
-    const size_t& iterateNo,
-    const int workerState,
-    const size_t resetCount)
-{
-    return (10e12 * (resetCount + 1) + 10e6 * (workerState + 1) + iterateNo + 1);
-}
-
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
 void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::printString(const std::string& text)
 {
diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
index 8d2d405..aa01fff 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
@@ -97,31 +97,22 @@ private:
     //! rolls out a shot and computes the defect
     void rolloutShotWorker(size_t threadId);
 
-    /*! heuristic that generates a unique id for a process, such that we can manage the tasks.
-	 * Generates a unique identifiers for task, iteration:
-	 * @todo replace by proper hash
-	 * */
-    size_t generateUniqueProcessID(const size_t& iterateNo, const int workerState, const size_t resetCount);
+    //! hand a task to all workers and wait until every one of them has finished with it
+    void runWorkers(WORKER_STATE task);
 
     //! wrapper method for nice debug printing
     void printString(const std::string& text);
 
     std::vector<std::thread> workerThreads_;
-    std::atomic_bool workersActive_;
-    std::atomic_int workerTask_;
 
-    std::mutex workerWakeUpMutex_;
+    std::mutex workerMutex_;  //! protects the current task and the number of busy workers
     std::condition_variable workerWakeUpCondition_;
-
-    std::mutex kCompletedMutex_;
-    std::condition_variable kCompletedCondition_;
-
-    std::mutex kCompletedMutexCost_;
-    std::condition_variable kCompletedConditionCost_;
+    std::condition_variable workersDoneCondition_;
+    WORKER_STATE workerTask_;  //! current task
+    size_t taskCounter_;       //! number of tasks handed out so far, identifies the current task
+    size_t workersBusy_;       //! number of workers not yet finished with the current task
 
     std::mutex lineSearchResultMutex_;
-    std::mutex alphaBestFoundMutex_;
-    std::condition_variable alphaBestFoundCondition_;
 
     std::atomic_size_t alphaTaken_;
     size_t alphaMax_;
@@ -131,7 +122,6 @@ private:
     std::vector<size_t> alphaProcessed_;
 
     std::atomic_size_t kTaken_;
-    std::atomic_size_t kCompleted_;
 
     size_t KMax_;
     size_t KMin_;
-- 
2.43.0


From 1c2e38cbbb5d9650f99a02349939b15eddcb82b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:07 +0000
Subject: [PATCH 40/83] fix: steady-state Kalman filter hands the time step to
 the system model

---
 .../include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
index a0d1c6c..3a82558 100644
--- a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
@@ -38,8 +38,8 @@ auto SteadyStateKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::predic
     const ct::core::Time& dt,
     const ct::core::Time& t) -> const state_vector_t&
 {
-    A_ = this->f_->computeDerivativeState(this->x_est_, u, t);
-    this->x_est_ = this->f_->computeDynamics(this->x_est_, u, t);
+    A_ = this->f_->computeDerivativeState(this->x_est_, u, dt, t);
+    this->x_est_ = this->f_->computeDynamics(this->x_est_, u, dt, t);
     return this->x_est_;
 }
 
-- 
2.43.0


From 93469d48124455a50fa864781310b480a98c42cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:01 +0000
Subject: [PATCH 41/83] fix: unscented Kalman filter works when the output
 dimension differs from the state dimension

---
 ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h | 2 +-
 ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
index 2e5dfb5..9ef2f0a 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
@@ -264,7 +264,7 @@ void UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::computeS
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
 template <size_t DIM>
 auto UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::computePredictionFromSigmaPoints(
-    const SigmaPoints<DIM>& sigmaPoints) -> state_vector_t
+    const SigmaPoints<DIM>& sigmaPoints) -> Eigen::Matrix<SCALAR, DIM, 1>
 {
     // Use efficient matrix x vector computation
     return sigmaPoints * sigmaWeights_m_;
diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h
index bffac4c..05f525d 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h
@@ -149,7 +149,7 @@ public:
 
     //! Make a prediction based on sigma points.
     template <size_t DIM>
-    state_vector_t computePredictionFromSigmaPoints(const SigmaPoints<DIM>& sigmaPoints);
+    Eigen::Matrix<SCALAR, DIM, 1> computePredictionFromSigmaPoints(const SigmaPoints<DIM>& sigmaPoints);
 
 private:
     state_matrix_t P_;                                          //! Covariance matrix.
-- 
2.43.0


From 5667bd386d25664c1b24319943bfe32a6092c58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:01 +0000
Subject: [PATCH 42/83] fix: extended Kalman filter evaluates the measurement
 model at the time of the measurement

---
 ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
index 743c12b..d99261c 100644
--- a/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
@@ -64,7 +64,7 @@ auto ExtendedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::update(co
         P_ * dHdx.transpose() * (dHdx * P_ * dHdx.transpose() + dHdw * (R_)*dHdw.transpose()).inverse();
 
     // STEP 3 - state estimate correction
-    this->x_est_ += K * (y - this->h_->computeMeasurement(this->x_est_));
+    this->x_est_ += K * (y - this->h_->computeMeasurement(this->x_est_, t));
 
     // STEP 4 - covariance matrix correction
     P_ -= (K * dHdx * P_).eval();
-- 
2.43.0


From 9c93720ad4713079a6a237beb27c694f9623adb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:12 +0000
Subject: [PATCH 43/83] fix: unscented Kalman filter computes the sigma point
 weights

---
 ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
index 9ef2f0a..c7d8903 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
@@ -62,6 +62,7 @@ UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::UnscentedKalm
     const ct::core::StateMatrix<STATE_DIM, SCALAR>& P0)
     : Base(f, h, x0), alpha_(alpha), beta_(beta), kappa_(kappa), P_(P0)
 {
+    computeWeights();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
@@ -75,6 +76,7 @@ UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::UnscentedKalm
       kappa_(ukf_settings.kappa),
       P_(ukf_settings.P0)
 {
+    computeWeights();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
-- 
2.43.0


From e032a83bb1fe3a00fb59e5bbc25a6abe756861ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:12 +0000
Subject: [PATCH 44/83] fix: steady-state Kalman filter: correct with the
 filter gain, not with the predictor gain

---
 .../include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
index 3a82558..c44cd6a 100644
--- a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
@@ -61,7 +61,10 @@ auto SteadyStateKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::update
         throw;
     }
 
-    this->x_est_ -= K.transpose() * (y - this->h_->computeMeasurement(this->x_est_, t));
+    // K is the one-step-ahead predictor gain; the measurement update corrects the already predicted state
+    const Eigen::Matrix<SCALAR, STATE_DIM, OUTPUT_DIM> L =
+        P_ * dHdx.transpose() * (dHdx * P_ * dHdx.transpose() + R_).inverse();
+    this->x_est_ += L * (y - this->h_->computeMeasurement(this->x_est_, t));
     return this->x_est_;
 }
 
-- 
2.43.0


From 23ba0e474727bd58fe25cca14aa013eb82565187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:12 +0000
Subject: [PATCH 45/83] fix: system model for estimation linearises at the
 requested time

---
 ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h b/ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h
index d566c98..c0becd7 100644
--- a/ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h
@@ -51,7 +51,7 @@ auto CTSystemModel<STATE_DIM, CONTROL_DIM, SCALAR>::computeDerivativeState(const
 
     sensApprox_->setTimeDiscretization(dt);
 
-    sensApprox_->getAandB(state, u, state, int(t / dt), 1, A, Btemp);
+    sensApprox_->getAandB(state, u, state, static_cast<int>(std::round(t / dt)), 1, A, Btemp);
     return A;
 }
 
-- 
2.43.0


From 5bb314423e214863df29c0988cb06c960d9d8cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:34 +0000
Subject: [PATCH 46/83] fix: copies of input-disturbed systems copy the
 controller of the original

---
 .../include/ct/optcon/filter/DisturbedSystemController-impl.h   | 2 +-
 ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h b/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
index c4b6c1d..6a3fdd1 100644
--- a/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
@@ -18,7 +18,7 @@ DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>::DisturbedSy
 template <size_t STATE_DIM, size_t DIST_DIM, size_t CONTROL_DIM, typename SCALAR>
 DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>::DisturbedSystemController(
     const DisturbedSystemController& other)
-    : controller_(other.controller_->clone())
+    : controller_(other.controller_ ? other.controller_->clone() : nullptr)
 {
 }
 
diff --git a/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h b/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h
index c73e369..605225d 100644
--- a/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h
@@ -18,7 +18,7 @@ InputDisturbedSystem<STATE_DIM, CONTROL_DIM, SCALAR>::InputDisturbedSystem(
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 InputDisturbedSystem<STATE_DIM, CONTROL_DIM, SCALAR>::InputDisturbedSystem(const InputDisturbedSystem& other)
-    : Base(*this), system_(other.system_->clone())
+    : Base(other), system_(other.system_->clone())
 {
 }
 
-- 
2.43.0


From 68e440569d8575cc7aae9ef0f4bc1a97c220f501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:31 +0000
Subject: [PATCH 47/83] fix: disturbed systems accept a nominal controller
 whatever controller they had before

---
 ct_optcon/include/ct/optcon/filter/DisturbedSystem-impl.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/DisturbedSystem-impl.h b/ct_optcon/include/ct/optcon/filter/DisturbedSystem-impl.h
index 720a3da..0087262 100644
--- a/ct_optcon/include/ct/optcon/filter/DisturbedSystem-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/DisturbedSystem-impl.h
@@ -29,8 +29,12 @@ template <size_t STATE_DIM, size_t DIST_DIM, size_t CONTROL_DIM, typename SCALAR
 void DisturbedSystem<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>::setController(
     const std::shared_ptr<ct::core::Controller<STATE_DIM, CONTROL_DIM, SCALAR>> controller)
 {
-    std::dynamic_pointer_cast<DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>>(this->controller_)
-        ->setController(controller);
+    typedef DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR> controller_t;
+    std::shared_ptr<controller_t> disturbedController = std::dynamic_pointer_cast<controller_t>(this->controller_);
+    if (disturbedController)
+        disturbedController->setController(controller);
+    else
+        this->controller_ = std::shared_ptr<controller_t>(new controller_t(controller));
 }
 
 }  // namespace optcon
-- 
2.43.0


From 3d233fd786af857ce8e61e3e2ad2aca9c285dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:37 +0000
Subject: [PATCH 48/83] fix: joint states can be compared with < and >

---
 ct_rbd/include/ct/rbd/state/JointState.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/state/JointState.h b/ct_rbd/include/ct/rbd/state/JointState.h
index 2beb6e4..991c8f4 100644
--- a/ct_rbd/include/ct/rbd/state/JointState.h
+++ b/ct_rbd/include/ct/rbd/state/JointState.h
@@ -59,12 +59,12 @@ public:
 
     inline bool operator<(const JointState<NJOINTS, SCALAR>& rhs) const
     {
-        return (this->array() < rhs.array()).isConstant(1);
+        return (this->state_.array() < rhs.state_.array()).all();
     }
 
     inline bool operator>(const JointState<NJOINTS, SCALAR>& rhs) const
     {
-        return (this->array() > rhs.array()).isConstant(1);
+        return (this->state_.array() > rhs.state_.array()).all();
     }
 
     bool isApprox(const JointState<NJOINTS, SCALAR>& rhs, const SCALAR& tol = 1e-10)
-- 
2.43.0


From e031ccb00ed4872f7600d67a3d1b297753af1eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:37 +0000
Subject: [PATCH 49/83] fix: unit-amplification actuator dynamics really have
 amplification one

---
 .../ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h b/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
index 3a02d0b..28ee4ee 100644
--- a/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
+++ b/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
@@ -10,7 +10,7 @@ namespace rbd {
 
 template <size_t NJOINTS, typename SCALAR>
 SecondOrderActuatorDynamics<NJOINTS, SCALAR>::SecondOrderActuatorDynamics(double w_n, double zeta)
-    : oscillators_(NJOINTS, ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n, (SCALAR)zeta, (SCALAR)(w_n * w_n)))
+    : oscillators_(NJOINTS, ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n, (SCALAR)zeta, (SCALAR)1.0))
 {
 }
 
@@ -30,7 +30,7 @@ SecondOrderActuatorDynamics<NJOINTS, SCALAR>::SecondOrderActuatorDynamics(std::v
     oscillators_.resize(NJOINTS);
     for (size_t i = 0; i < NJOINTS; i++)
         oscillators_[i] =
-            ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)(w_n[i] * w_n[i]));
+            ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)1.0);
 }
 
 template <size_t NJOINTS, typename SCALAR>
-- 
2.43.0


From a789355650d74f7d327bffbc9215087aad5bfb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:37 +0000
Subject: [PATCH 50/83] fix: actuator dynamics can be built with parameters per
 joint

---
 .../robot/actuator/SecondOrderActuatorDynamics-impl.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h b/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
index 28ee4ee..2fab38a 100644
--- a/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
+++ b/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
@@ -27,10 +27,10 @@ SecondOrderActuatorDynamics<NJOINTS, SCALAR>::SecondOrderActuatorDynamics(std::v
     if ((w_n.size() != NJOINTS) || (zeta.size() != NJOINTS))
         throw std::runtime_error("SecondOrderActuatorDynamics: w_n or zeta is not correct size");
 
-    oscillators_.resize(NJOINTS);
+    oscillators_.reserve(NJOINTS);
     for (size_t i = 0; i < NJOINTS; i++)
-        oscillators_[i] =
-            ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)1.0);
+        oscillators_.push_back(
+            ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)1.0));
 }
 
 template <size_t NJOINTS, typename SCALAR>
@@ -41,9 +41,10 @@ SecondOrderActuatorDynamics<NJOINTS, SCALAR>::SecondOrderActuatorDynamics(std::v
     if ((w_n.size() != NJOINTS) || (zeta.size() != NJOINTS) || (g_dc.size() != NJOINTS))
         throw std::runtime_error("SecondOrderActuatorDynamics: w_n, zeta or g_dc is not correct size");
 
-    oscillators_.resize(NJOINTS);
+    oscillators_.reserve(NJOINTS);
     for (size_t i = 0; i < NJOINTS; i++)
-        oscillators_[i] = ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)g_dc[i]);
+        oscillators_.push_back(
+            ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)g_dc[i]));
 }
 
 template <size_t NJOINTS, typename SCALAR>
-- 
2.43.0


From b71570184935b989a2f010702bdf731feaf5aa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:40 +0000
Subject: [PATCH 51/83] fix: generated Hessian code reads state and weights
 from the right vectors

---
 .../ct/core/internal/autodiff/CGHelpers.h     |   2 +-
 .../HyA/codegen/HyAInverseDynHessian.cpp      | 776 +++++++++---------
 2 files changed, 389 insertions(+), 389 deletions(-)

diff --git a/ct_core/include/ct/core/internal/autodiff/CGHelpers.h b/ct_core/include/ct/core/internal/autodiff/CGHelpers.h
index fbaefbf..9f22aef 100644
--- a/ct_core/include/ct/core/internal/autodiff/CGHelpers.h
+++ b/ct_core/include/ct/core/internal/autodiff/CGHelpers.h
@@ -217,7 +217,7 @@ public:
         CppAD::cg::LanguageC<double> langC("double", 4);
         langC.setIgnoreZeroDepAssign(ignoreZero);
         CppAD::cg::LangCDefaultVariableNameGenerator<double> nameGenTmp(jacName, inputName, tempName);
-        CppAD::cg::LangCDefaultHessianVarNameGenerator<double> nameGen(&nameGenTmp, "w_in", m);
+        CppAD::cg::LangCDefaultHessianVarNameGenerator<double> nameGen(&nameGenTmp, "w_in", n);
 
         std::ostringstream code;
         codeHandler.generateCode(code, langC, hes, nameGen);
diff --git a/ct_models/include/ct/models/HyA/codegen/HyAInverseDynHessian.cpp b/ct_models/include/ct/models/HyA/codegen/HyAInverseDynHessian.cpp
index dd4c7ff..385b5d3 100644
--- a/ct_models/include/ct/models/HyA/codegen/HyAInverseDynHessian.cpp
+++ b/ct_models/include/ct/models/HyA/codegen/HyAInverseDynHessian.cpp
@@ -14,29 +14,29 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     double* hes = hessian_.data();
 
     v_[0] = sin(x_in[1]);
-    v_[1] = v_[0] * w_in[0];
+    v_[1] = v_[0] * x_in[6];
     v_[2] = 0 - v_[1];
-    v_[3] = v_[2] * w_in[1];
+    v_[3] = v_[2] * x_in[7];
     v_[4] = cos(x_in[1]);
-    v_[5] = v_[4] * w_in[0];
-    v_[6] = v_[5] * w_in[1];
+    v_[5] = v_[4] * x_in[6];
+    v_[6] = v_[5] * x_in[7];
     v_[7] = 9.81 * v_[0];
-    v_[8] = w_in[1] * w_in[1];
+    v_[8] = x_in[7] * x_in[7];
     v_[9] = cos(x_in[2]);
     v_[10] = sin(x_in[2]);
     v_[11] = 0 - v_[9];
-    v_[12] = v_[10] * v_[5] + v_[11] * w_in[1];
+    v_[12] = v_[10] * v_[5] + v_[11] * x_in[7];
     v_[13] = 0 - v_[12];
-    v_[14] = v_[9] * v_[3] + v_[13] * w_in[2];
-    v_[15] = v_[9] * v_[5] + v_[10] * w_in[1];
-    v_[16] = v_[10] * v_[3] + v_[15] * w_in[2];
+    v_[14] = v_[9] * v_[3] + v_[13] * x_in[8];
+    v_[15] = v_[9] * v_[5] + v_[10] * x_in[7];
+    v_[16] = v_[10] * v_[3] + v_[15] * x_in[8];
     v_[17] = 9.81 * v_[4];
     v_[18] = 0.112 * v_[9];
     v_[19] = -0.112 * v_[10];
     v_[20] = 0.112 * v_[9];
-    v_[21] = v_[19] * v_[5] + v_[20] * w_in[1];
-    v_[22] = v_[10] * v_[17] + v_[18] * v_[3] + v_[21] * w_in[2];
-    v_[23] = v_[1] + w_in[2];
+    v_[21] = v_[19] * v_[5] + v_[20] * x_in[7];
+    v_[22] = v_[10] * v_[17] + v_[18] * v_[3] + v_[21] * x_in[8];
+    v_[23] = v_[1] + x_in[8];
     v_[24] = 0 - v_[23] * v_[21];
     v_[25] = v_[15] * v_[23];
     v_[26] = v_[23] * v_[23];
@@ -47,20 +47,20 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[31] = 0 - v_[30];
     v_[32] = v_[30] * v_[15] + v_[28] * v_[23];
     v_[33] = 0 - v_[32];
-    v_[34] = v_[31] * v_[6] + v_[28] * v_[14] + v_[33] * w_in[3];
+    v_[34] = v_[31] * v_[6] + v_[28] * v_[14] + v_[33] * x_in[9];
     v_[35] = v_[28] * v_[15] + v_[31] * v_[23];
-    v_[36] = v_[28] * v_[6] + v_[30] * v_[14] + v_[35] * w_in[3];
+    v_[36] = v_[28] * v_[6] + v_[30] * v_[14] + v_[35] * x_in[9];
     v_[37] = -0.304 * v_[14] + -1 * v_[22];
     v_[38] = 0.112 * v_[10];
-    v_[39] = v_[18] * v_[5] + v_[38] * w_in[1];
+    v_[39] = v_[18] * v_[5] + v_[38] * x_in[7];
     v_[40] = 0 - v_[39];
-    v_[41] = v_[9] * v_[17] + v_[19] * v_[3] + v_[40] * w_in[2];
+    v_[41] = v_[9] * v_[17] + v_[19] * v_[3] + v_[40] * x_in[8];
     v_[42] = -0.304 * v_[30];
     v_[43] = -0.304 * v_[28];
     v_[44] = v_[43] * v_[12] + v_[28] * v_[21];
-    v_[45] = v_[28] * v_[7] + v_[30] * v_[41] + v_[42] * v_[16] + v_[44] * w_in[3];
+    v_[45] = v_[28] * v_[7] + v_[30] * v_[41] + v_[42] * v_[16] + v_[44] * x_in[9];
     v_[46] = -0.304 * v_[15] + -1 * v_[39];
-    v_[47] = -1 * v_[12] + w_in[3];
+    v_[47] = -1 * v_[12] + x_in[9];
     v_[48] = v_[35] * v_[46] - v_[47] * v_[44];
     v_[49] = v_[35] * v_[47];
     v_[50] = v_[47] * v_[47];
@@ -70,21 +70,21 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[54] = 0 - v_[52];
     v_[55] = v_[53] * v_[35] + v_[54] * v_[47];
     v_[56] = 0 - v_[55];
-    v_[57] = v_[53] * v_[29] + v_[52] * v_[34] + v_[56] * w_in[4];
+    v_[57] = v_[53] * v_[29] + v_[52] * v_[34] + v_[56] * x_in[10];
     v_[58] = v_[52] * v_[35] + v_[53] * v_[47];
-    v_[59] = v_[54] * v_[29] + v_[53] * v_[34] + v_[58] * w_in[4];
+    v_[59] = v_[54] * v_[29] + v_[53] * v_[34] + v_[58] * x_in[10];
     v_[60] = 0.112 * v_[53];
     v_[61] = 0.112 * v_[52];
     v_[62] = 0 - v_[52];
     v_[63] = 0 - v_[30];
     v_[64] = v_[42] * v_[12] + v_[30] * v_[21];
     v_[65] = 0 - v_[64];
-    v_[66] = v_[63] * v_[7] + v_[28] * v_[41] + v_[43] * v_[16] + v_[65] * w_in[3];
+    v_[66] = v_[63] * v_[7] + v_[28] * v_[41] + v_[43] * v_[16] + v_[65] * x_in[9];
     v_[67] = 0.112 * v_[52];
     v_[68] = -0.112 * v_[53];
     v_[69] = v_[67] * v_[47] + v_[68] * v_[35] + v_[53] * v_[46] + v_[52] * v_[44];
-    v_[70] = v_[60] * v_[29] + v_[61] * v_[34] + v_[62] * v_[37] + v_[53] * v_[66] + v_[69] * w_in[4];
-    v_[71] = v_[32] + w_in[4];
+    v_[70] = v_[60] * v_[29] + v_[61] * v_[34] + v_[62] * v_[37] + v_[53] * v_[66] + v_[69] * x_in[10];
+    v_[71] = v_[32] + x_in[10];
     v_[72] = v_[58] * v_[64] - v_[71] * v_[69];
     v_[73] = v_[58] * v_[71];
     v_[74] = v_[71] * v_[71];
@@ -97,25 +97,25 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[81] = 0.184 * v_[76] - 0.02075 * v_[77];
     v_[82] = v_[77] * v_[64] + v_[76] * v_[80] + v_[81] * v_[58];
     v_[83] = 0 - v_[82];
-    v_[84] = v_[79] * v_[45] + v_[77] * v_[70] + v_[78] * v_[57] + v_[83] * w_in[5];
+    v_[84] = v_[79] * v_[45] + v_[77] * v_[70] + v_[78] * v_[57] + v_[83] * x_in[11];
     v_[85] = v_[76] * v_[55] + v_[77] * v_[71];
     v_[86] = 0 - v_[76];
     v_[87] = v_[77] * v_[55] + v_[86] * v_[71];
     v_[88] = v_[85] * v_[87];
     v_[89] = 0.02075 * v_[71] + -0.184 * v_[55] + v_[69];
     v_[90] = v_[85] * v_[89];
-    v_[91] = v_[58] + w_in[5];
+    v_[91] = v_[58] + x_in[11];
     v_[92] = v_[91] * v_[82];
     v_[93] = 1.547475 * v_[84] + 0.038686875 * v_[57] + 0.038686875 * v_[88] + -1.547475 * (v_[90] - v_[92]);
     v_[94] = v_[79] * v_[64] + v_[77] * v_[80] + v_[78] * v_[58];
     v_[95] = v_[91] * v_[91];
     v_[96] = v_[87] * v_[87];
     v_[97] = 1.547475 * (v_[87] * v_[89] - v_[91] * v_[94]) +
-             1.547475 * (v_[77] * v_[45] + v_[76] * v_[70] + v_[81] * v_[57] + v_[94] * w_in[5]) -
+             1.547475 * (v_[77] * v_[45] + v_[76] * v_[70] + v_[81] * v_[57] + v_[94] * x_in[11]) -
              0.038686875 * (v_[95] + v_[96]);
     v_[98] = 0 - v_[85];
-    v_[99] = v_[86] * v_[36] + v_[77] * v_[59] + v_[98] * w_in[5];
-    v_[100] = v_[77] * v_[36] + v_[76] * v_[59] + v_[87] * w_in[5];
+    v_[99] = v_[86] * v_[36] + v_[77] * v_[59] + v_[98] * x_in[11];
+    v_[100] = v_[77] * v_[36] + v_[76] * v_[59] + v_[87] * x_in[11];
     v_[101] = v_[85] * v_[91];
     v_[102] = v_[87] * v_[91];
     v_[103] = v_[85] * v_[85];
@@ -127,7 +127,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
              0.038686875 * (v_[92] - v_[90]) + -0.000829 * v_[101] - 1.5e-05 * v_[102] - 0.000198 * (v_[96] - v_[103]) -
              -0.008386 * v_[104] - -0.001243 * v_[105];
     v_[90] = 0 - v_[80];
-    v_[84] = v_[67] * v_[29] + v_[68] * v_[34] + v_[53] * v_[37] + v_[52] * v_[66] + v_[90] * w_in[4];
+    v_[84] = v_[67] * v_[29] + v_[68] * v_[34] + v_[53] * v_[37] + v_[52] * v_[66] + v_[90] * x_in[10];
     v_[106] = v_[55] * v_[64] - v_[71] * v_[80];
     v_[107] = 0.02075 * v_[36] + -0.184 * v_[59] + v_[84];
     v_[108] = v_[85] * v_[94] - v_[87] * v_[82];
@@ -194,22 +194,22 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               0.01438086 * (v_[26] + v_[27]);
     v_[84] = -0.01438086 * v_[6] + 0.647967112 * v_[14] + 2.327 * v_[22] + 2.327 * v_[24] + 0.647967112 * v_[104] +
              0.01438086 * v_[73] + -1 * v_[84] - -0.0055615274403 * (v_[26] + v_[75]);
-    v_[26] = v_[1] * w_in[1];
+    v_[26] = v_[1] * x_in[7];
     v_[88] = v_[1] * v_[5];
-    v_[95] = w_in[6] * v_[4];
-    v_[96] = w_in[7] * v_[38] + v_[95] * v_[18];
-    v_[99] = w_in[7] * v_[10] + v_[95] * v_[9];
+    v_[95] = w_in[0] * v_[4];
+    v_[96] = w_in[1] * v_[38] + v_[95] * v_[18];
+    v_[99] = w_in[1] * v_[10] + v_[95] * v_[9];
     v_[101] = v_[96] * -1 + v_[99] * -0.304;
-    v_[51] = w_in[7] * v_[20] + v_[95] * v_[19];
-    v_[49] = w_in[7] * v_[11] + v_[95] * v_[10];
+    v_[51] = w_in[1] * v_[20] + v_[95] * v_[19];
+    v_[49] = w_in[1] * v_[11] + v_[95] * v_[10];
     v_[48] = v_[51] * v_[28] + v_[49] * v_[43];
-    v_[50] = w_in[9] + v_[49] * -1;
-    v_[113] = w_in[6] * v_[0];
-    v_[114] = w_in[8] + v_[113];
+    v_[50] = w_in[3] + v_[49] * -1;
+    v_[113] = w_in[0] * v_[0];
+    v_[114] = w_in[2] + v_[113];
     v_[115] = v_[114] * v_[31] + v_[99] * v_[28];
     v_[116] = v_[101] * v_[53] + v_[48] * v_[52] + v_[50] * v_[67] + v_[115] * v_[68];
     v_[117] = v_[114] * v_[28] + v_[99] * v_[30];
-    v_[118] = w_in[10] + v_[117];
+    v_[118] = w_in[4] + v_[117];
     v_[119] = v_[50] * v_[54] + v_[115] * v_[53];
     v_[120] = v_[116] + v_[118] * 0.02075 + v_[119] * -0.184;
     v_[121] = v_[118] * v_[86] + v_[119] * v_[77];
@@ -219,7 +219,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[125] = v_[101] * v_[62] + v_[48] * v_[53] + v_[50] * v_[60] + v_[115] * v_[61];
     v_[126] = v_[50] * v_[53] + v_[115] * v_[52];
     v_[127] = v_[124] * v_[79] + v_[125] * v_[77] + v_[126] * v_[78];
-    v_[128] = w_in[11] + v_[126];
+    v_[128] = w_in[5] + v_[126];
     v_[129] = v_[127] * 1.547475 + v_[128] * 0.038686875;
     v_[130] = v_[124] * v_[77] + v_[125] * v_[76] + v_[126] * v_[81];
     v_[131] = v_[130] * 1.547475;
@@ -240,36 +240,36 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[143] = v_[125] * 2.1032 + v_[126] * 0.057838;
     v_[144] = 0 - v_[143];
     v_[145] = v_[124] * 2.1032;
-    v_[146] = v_[142] + v_[144] * v_[71] + v_[145] * v_[55] + v_[132] * w_in[4];
+    v_[146] = v_[142] + v_[144] * v_[71] + v_[145] * v_[55] + v_[132] * x_in[10];
     v_[147] = 0 - v_[138];
     v_[148] = v_[120] * 1.547475 + (0 - v_[121]) * 0.038686875;
-    v_[149] = v_[147] * v_[91] + v_[148] * v_[85] + v_[131] * w_in[5];
+    v_[149] = v_[147] * v_[91] + v_[148] * v_[85] + v_[131] * x_in[11];
     v_[140] = 0 - v_[139] + v_[140];
     v_[139] = 0 - v_[148];
-    v_[150] = v_[140] * v_[91] + v_[139] * v_[87] - v_[129] * w_in[5];
+    v_[150] = v_[140] * v_[91] + v_[139] * v_[87] - v_[129] * x_in[11];
     v_[151] = v_[116] * -2.1032 + v_[119] * 0.057838;
     v_[152] = 0 - v_[151];
     v_[153] = 0 - v_[145];
-    v_[154] = v_[149] * v_[77] + v_[150] * v_[76] + v_[152] * v_[71] + v_[153] * v_[58] - v_[123] * w_in[4];
+    v_[154] = v_[149] * v_[77] + v_[150] * v_[76] + v_[152] * v_[71] + v_[153] * v_[58] - v_[123] * x_in[10];
     v_[155] = v_[124] * 1.7423722 + (0 - v_[50]) * -0.008711861 + v_[115] * 1.52322944854339e-09;
     v_[156] = 0 - v_[155];
     v_[157] = v_[101] * 1.7423722 + (0 - v_[115]) * 0.160298259823722 + v_[117] * -0.008711861;
-    v_[158] = v_[146] * v_[52] + v_[154] * v_[53] + v_[156] * v_[47] + v_[157] * v_[32] + v_[134] * w_in[3];
+    v_[158] = v_[146] * v_[52] + v_[154] * v_[53] + v_[156] * v_[47] + v_[157] * v_[32] + v_[134] * x_in[9];
     v_[159] = v_[48] * -1.7423722;
     v_[160] = v_[50] * 0.160298259823722;
     v_[161] = v_[117] * 1.52322944854339e-09;
     v_[162] = 0 - v_[159] + v_[160] - v_[161];
     v_[163] = 0 - v_[157];
     v_[164] = v_[149] * v_[79] + v_[150] * v_[77] + v_[143] * v_[58] + v_[151] * v_[55] + v_[162] * v_[47] +
-              v_[163] * v_[35] - v_[133] * w_in[3];
+              v_[163] * v_[35] - v_[133] * x_in[9];
     v_[165] = 0 - (v_[96] * 2.327 + (0 - v_[114]) * 0.01438086 + v_[99] * 0.647967112);
     v_[166] = (0 - v_[99]) * -0.0055615274403 + v_[49] * 0.01438086;
-    v_[167] = v_[158] * v_[28] + v_[164] * v_[30] + v_[165] * v_[23] + v_[166] * v_[12] + v_[137] * w_in[2];
+    v_[167] = v_[158] * v_[28] + v_[164] * v_[30] + v_[165] * v_[23] + v_[166] * v_[12] + v_[137] * x_in[8];
     v_[161] = v_[159] - v_[160] + v_[161];
     v_[160] = v_[146] * v_[53] + v_[154] * v_[62] + v_[155] * v_[35] + v_[161] * v_[32];
     v_[159] = v_[114] * -0.0055615274403 - (v_[51] * -2.327 + v_[49] * 0.647967112);
     v_[168] = 0 - v_[166];
-    v_[169] = v_[160] * -1 + v_[159] * v_[23] + v_[168] * v_[15] - v_[135] * w_in[2];
+    v_[169] = v_[160] * -1 + v_[159] * v_[23] + v_[168] * v_[15] - v_[135] * x_in[8];
     v_[170] = v_[118] * v_[77] + v_[119] * v_[76];
     v_[171] = (0 - v_[128]) * 1.5e-05 + v_[121] * 0.000198 + v_[170] * 0.00605;
     v_[172] = v_[120] * 0.038686875 + v_[128] * -0.000829 + (0 - v_[121]) * -0.00146 + (0 - v_[170]) * 0.000198;
@@ -289,22 +289,22 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[126] * -0.001387 + v_[119] * 0.019432;
     v_[183] = v_[147] * v_[94] + v_[140] * v_[82] + v_[171] * v_[87] + v_[172] * v_[85] + v_[175] * v_[91] +
               v_[175] * v_[91] + v_[149] * v_[78] + v_[150] * v_[81] + v_[143] * v_[64] + v_[153] * v_[80] +
-              v_[176] * v_[71] + v_[177] * v_[55] + v_[181] * v_[58] + v_[181] * v_[58] + v_[116] * w_in[4];
+              v_[176] * v_[71] + v_[177] * v_[55] + v_[181] * v_[58] + v_[181] * v_[58] + v_[116] * x_in[10];
     v_[184] = v_[127] * 0.038686875 + v_[128] * -0.00751 + (0 - v_[121]) * -0.000829 + v_[170] * 1.5e-05;
     v_[185] = (0 - v_[128]) * 0.000198;
     v_[174] = v_[130] + v_[185] - v_[174];
     v_[130] = v_[138] * v_[89] + v_[139] * v_[82] + v_[171] * v_[91] + v_[184] * v_[85] + v_[174] * v_[87] +
-              v_[174] * v_[87] + v_[182] * w_in[5];
+              v_[174] * v_[87] + v_[182] * x_in[11];
     v_[185] = 0 - v_[185] - v_[173];
     v_[173] = v_[141] * v_[89] + v_[148] * v_[94] + v_[172] * v_[91] + v_[184] * v_[87] + v_[185] * v_[85] +
-              v_[185] * v_[85] - v_[120] * w_in[5];
+              v_[185] * v_[85] - v_[120] * x_in[11];
     v_[186] = v_[125] * 0.057838 + v_[118] * -0.001243 + (0 - v_[126]) * -0.008386 + (0 - v_[119]) * -0.001387;
     v_[187] = v_[126] * -0.012652;
     v_[179] = v_[178] - v_[179] - v_[187];
     v_[170] = v_[127] * 0.038686875 + v_[128] * 0.009277 + v_[121] * -0.000829 + v_[170] * 1.5e-05 + v_[129] * v_[78] +
               v_[131] * v_[81] + v_[125] * 0.057838 + v_[118] * -0.001243 + v_[126] * 0.029115 + v_[119] * -0.001387;
     v_[128] = v_[142] * -0.184 + v_[130] * v_[77] + v_[173] * v_[76] + v_[151] * v_[64] + v_[145] * v_[69] +
-              v_[186] * v_[71] + v_[177] * v_[58] + v_[179] * v_[55] + v_[179] * v_[55] - v_[170] * w_in[4];
+              v_[186] * v_[71] + v_[177] * v_[58] + v_[179] * v_[55] + v_[179] * v_[55] - v_[170] * x_in[10];
     v_[127] = v_[101] * -0.008711861 + v_[48] * 1.52322944854339e-09 + (0 - v_[50]) * -0.00021200017 +
               v_[115] * 0.0036857284 + v_[117] * 0.077424;
     v_[121] = v_[48] * 0.160298259823722 + v_[124] * -0.008711861 + v_[50] * -0.06337651 +
@@ -319,7 +319,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[115] * 0.0036857284 + v_[117] * 0.081661;
     v_[192] = v_[146] * v_[68] + v_[154] * v_[61] + v_[183] * v_[52] + v_[128] * v_[53] + v_[155] * v_[46] +
               v_[163] * v_[64] + v_[127] * v_[47] + v_[121] * v_[32] + v_[191] * v_[35] + v_[191] * v_[35] +
-              v_[122] * w_in[3];
+              v_[122] * x_in[9];
     v_[187] = v_[187] + v_[180];
     v_[180] = v_[101] * 0.160298259823722 + v_[124] * 1.52322944854339e-09 + v_[50] * -0.0022920002 +
               (0 - v_[115]) * 0.01404749 + (0 - v_[117]) * 0.0036857284;
@@ -331,7 +331,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[142] = v_[142] * 0.02075 + v_[130] * v_[86] + v_[173] * v_[77] + v_[144] * v_[69] + v_[152] * v_[80] +
               v_[176] * v_[58] + v_[186] * v_[55] + v_[187] * v_[71] + v_[187] * v_[71] + v_[161] * v_[46] +
               v_[157] * v_[44] + v_[180] * v_[47] + v_[121] * v_[35] + v_[189] * v_[32] + v_[189] * v_[32] -
-              v_[178] * w_in[3];
+              v_[178] * x_in[9];
     v_[195] = v_[51] * 0.647967112 + (0 - v_[114]) * -0.011715295 + v_[99] * 5.399998e-05 + v_[49] * -0.199538951;
     v_[196] = v_[51] * -0.0055615274403 + v_[96] * 0.01438086 + v_[114] * 0.00750500000000001 +
               (0 - v_[99]) * -0.0037997814 + v_[49] * -0.011715295;
@@ -345,7 +345,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   -1 +
               v_[51] * -0.647967112 + v_[114] * -0.011715295 + v_[99] * 5.399998e-05 + v_[49] * 0.20236395;
     v_[160] = v_[160] * -0.304 + v_[192] * v_[28] + v_[142] * v_[30] + v_[168] * v_[39] + v_[195] * v_[23] +
-              v_[196] * v_[12] + v_[200] * v_[15] + v_[200] * v_[15] + v_[117] * w_in[2];
+              v_[196] * v_[12] + v_[200] * v_[15] + v_[200] * v_[15] + v_[117] * x_in[8];
     v_[194] = v_[193] + v_[188] + v_[194] + v_[190];
     v_[193] =
         v_[96] * 0.647967112 + v_[114] * -0.0037997814 + (0 - v_[99]) * -0.192033951 + (0 - v_[49]) * 5.399998e-05;
@@ -359,33 +359,33 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   v_[162] * v_[64] + v_[127] * v_[35] + v_[180] * v_[32] + v_[194] * v_[47] + v_[194] * v_[47]) *
                   -1 +
               v_[166] * v_[21] + v_[193] * v_[23] + v_[196] * v_[15] + v_[198] * v_[12] + v_[198] * v_[12] -
-              v_[136] * w_in[2];
-    v_[202] = w_in[7] * 0.046852534 + (0 - v_[95]) * -0.002752 + v_[113] * -0.022851627;
-    v_[203] = (0 - w_in[7]) * 0.0055279857;
+              v_[136] * x_in[8];
+    v_[202] = w_in[1] * 0.046852534 + (0 - v_[95]) * -0.002752 + v_[113] * -0.022851627;
+    v_[203] = (0 - w_in[1]) * 0.0055279857;
     v_[204] = v_[203] - (0 - v_[113]) * -0.002752;
     v_[96] = v_[178] * v_[31] + v_[122] * v_[28] + v_[51] * -0.0055615274403 + v_[96] * -0.01438086 +
-             v_[114] * 0.010329999 + v_[99] * -0.0037997814 + v_[49] * -0.011715295 + w_in[7] * -0.022851627 +
-             v_[95] * 0.0055279857 + v_[113] * 0.039002996 + (0 - w_in[7]) * -0.022851627 + v_[95] * 0.0055279857 +
+             v_[114] * 0.010329999 + v_[99] * -0.0037997814 + v_[49] * -0.011715295 + w_in[1] * -0.022851627 +
+             v_[95] * 0.0055279857 + v_[113] * 0.039002996 + (0 - w_in[1]) * -0.022851627 + v_[95] * 0.0055279857 +
              v_[113] * -0.034462002;
     v_[205] = v_[167] * v_[19] + v_[169] * v_[18] + v_[160] * v_[9] + v_[201] * v_[10] + v_[202] * v_[1] +
-              v_[204] * v_[5] + v_[204] * v_[5] + v_[96] * w_in[1];
+              v_[204] * v_[5] + v_[204] * v_[5] + v_[96] * x_in[7];
     v_[206] = cos(x_in[1]);
-    v_[207] = v_[206] * w_in[0];
+    v_[207] = v_[206] * x_in[6];
     v_[208] = -v_[207];
-    v_[209] = v_[208] * w_in[1];
+    v_[209] = v_[208] * x_in[7];
     v_[210] = sin(x_in[1]);
     v_[211] = 0 - v_[210];
-    v_[212] = v_[211] * w_in[0];
-    v_[213] = v_[212] * w_in[1];
+    v_[212] = v_[211] * x_in[6];
+    v_[213] = v_[212] * x_in[7];
     v_[214] = 9.81 * v_[206];
     v_[215] = v_[10] * v_[212];
     v_[216] = -v_[215];
-    v_[217] = v_[9] * v_[209] + v_[216] * w_in[2];
+    v_[217] = v_[9] * v_[209] + v_[216] * x_in[8];
     v_[218] = v_[9] * v_[212];
-    v_[219] = v_[10] * v_[209] + v_[218] * w_in[2];
+    v_[219] = v_[10] * v_[209] + v_[218] * x_in[8];
     v_[220] = 9.81 * v_[211];
     v_[221] = v_[19] * v_[212];
-    v_[222] = v_[10] * v_[220] + v_[18] * v_[209] + v_[221] * w_in[2];
+    v_[222] = v_[10] * v_[220] + v_[18] * v_[209] + v_[221] * x_in[8];
     v_[223] = -(v_[207] * v_[21] + v_[23] * v_[221]);
     v_[224] = v_[218] * v_[23] + v_[15] * v_[207];
     v_[225] = v_[207] * v_[23] + v_[23] * v_[207];
@@ -393,15 +393,15 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[227] = -1 * v_[219];
     v_[228] = v_[30] * v_[218] + v_[28] * v_[207];
     v_[229] = -v_[228];
-    v_[230] = v_[31] * v_[213] + v_[28] * v_[217] + v_[229] * w_in[3];
+    v_[230] = v_[31] * v_[213] + v_[28] * v_[217] + v_[229] * x_in[9];
     v_[231] = v_[28] * v_[218] + v_[31] * v_[207];
-    v_[232] = v_[28] * v_[213] + v_[30] * v_[217] + v_[231] * w_in[3];
+    v_[232] = v_[28] * v_[213] + v_[30] * v_[217] + v_[231] * x_in[9];
     v_[233] = -0.304 * v_[217] + -1 * v_[222];
     v_[234] = v_[18] * v_[212];
     v_[235] = -v_[234];
-    v_[236] = v_[9] * v_[220] + v_[19] * v_[209] + v_[235] * w_in[2];
+    v_[236] = v_[9] * v_[220] + v_[19] * v_[209] + v_[235] * x_in[8];
     v_[237] = v_[43] * v_[215] + v_[28] * v_[221];
-    v_[238] = v_[28] * v_[214] + v_[30] * v_[236] + v_[42] * v_[219] + v_[237] * w_in[3];
+    v_[238] = v_[28] * v_[214] + v_[30] * v_[236] + v_[42] * v_[219] + v_[237] * x_in[9];
     v_[239] = -0.304 * v_[218] + -1 * v_[234];
     v_[240] = -1 * v_[215];
     v_[241] = v_[231] * v_[46] + v_[35] * v_[239] - (v_[240] * v_[44] + v_[47] * v_[237]);
@@ -410,14 +410,14 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[244] = v_[228] * v_[32] + v_[32] * v_[228];
     v_[245] = v_[53] * v_[231] + v_[54] * v_[240];
     v_[246] = -v_[245];
-    v_[247] = v_[53] * v_[227] + v_[52] * v_[230] + v_[246] * w_in[4];
+    v_[247] = v_[53] * v_[227] + v_[52] * v_[230] + v_[246] * x_in[10];
     v_[248] = v_[52] * v_[231] + v_[53] * v_[240];
-    v_[249] = v_[54] * v_[227] + v_[53] * v_[230] + v_[248] * w_in[4];
+    v_[249] = v_[54] * v_[227] + v_[53] * v_[230] + v_[248] * x_in[10];
     v_[250] = v_[42] * v_[215] + v_[30] * v_[221];
     v_[251] = -v_[250];
-    v_[252] = v_[63] * v_[214] + v_[28] * v_[236] + v_[43] * v_[219] + v_[251] * w_in[3];
+    v_[252] = v_[63] * v_[214] + v_[28] * v_[236] + v_[43] * v_[219] + v_[251] * x_in[9];
     v_[253] = v_[67] * v_[240] + v_[68] * v_[231] + v_[53] * v_[239] + v_[52] * v_[237];
-    v_[254] = v_[60] * v_[227] + v_[61] * v_[230] + v_[62] * v_[233] + v_[53] * v_[252] + v_[253] * w_in[4];
+    v_[254] = v_[60] * v_[227] + v_[61] * v_[230] + v_[62] * v_[233] + v_[53] * v_[252] + v_[253] * x_in[10];
     v_[255] = v_[248] * v_[64] + v_[58] * v_[250] - (v_[228] * v_[69] + v_[71] * v_[253]);
     v_[256] = v_[248] * v_[71] + v_[58] * v_[228];
     v_[257] = v_[228] * v_[71] + v_[71] * v_[228];
@@ -425,7 +425,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[259] = v_[60] * v_[240] + v_[61] * v_[231] + v_[62] * v_[239] + v_[53] * v_[237];
     v_[260] = v_[77] * v_[250] + v_[76] * v_[259] + v_[81] * v_[248];
     v_[261] = -v_[260];
-    v_[262] = v_[79] * v_[238] + v_[77] * v_[254] + v_[78] * v_[247] + v_[261] * w_in[5];
+    v_[262] = v_[79] * v_[238] + v_[77] * v_[254] + v_[78] * v_[247] + v_[261] * x_in[11];
     v_[263] = v_[76] * v_[245] + v_[77] * v_[228];
     v_[264] = v_[77] * v_[245] + v_[86] * v_[228];
     v_[265] = v_[263] * v_[87] + v_[85] * v_[264];
@@ -437,11 +437,11 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[271] = v_[248] * v_[91] + v_[91] * v_[248];
     v_[272] = v_[264] * v_[87] + v_[87] * v_[264];
     v_[273] = 1.547475 * (v_[264] * v_[89] + v_[87] * v_[266] - (v_[248] * v_[94] + v_[91] * v_[270])) +
-              1.547475 * (v_[77] * v_[238] + v_[76] * v_[254] + v_[81] * v_[247] + v_[270] * w_in[5]) -
+              1.547475 * (v_[77] * v_[238] + v_[76] * v_[254] + v_[81] * v_[247] + v_[270] * x_in[11]) -
               0.038686875 * (v_[271] + v_[272]);
     v_[274] = -v_[263];
-    v_[275] = v_[86] * v_[232] + v_[77] * v_[249] + v_[274] * w_in[5];
-    v_[276] = v_[77] * v_[232] + v_[76] * v_[249] + v_[264] * w_in[5];
+    v_[275] = v_[86] * v_[232] + v_[77] * v_[249] + v_[274] * x_in[11];
+    v_[276] = v_[77] * v_[232] + v_[76] * v_[249] + v_[264] * x_in[11];
     v_[277] = v_[263] * v_[91] + v_[85] * v_[248];
     v_[278] = v_[264] * v_[91] + v_[87] * v_[248];
     v_[279] = v_[263] * v_[85] + v_[85] * v_[263];
@@ -453,7 +453,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               -0.00751 * v_[265] + 0.038686875 * (v_[268] - v_[267]) + -0.000829 * v_[277] - 1.5e-05 * v_[278] -
               0.000198 * (v_[272] - v_[279]) - -0.008386 * v_[280] - -0.001243 * v_[281];
     v_[267] = -v_[259];
-    v_[262] = v_[67] * v_[227] + v_[68] * v_[230] + v_[53] * v_[233] + v_[52] * v_[252] + v_[267] * w_in[4];
+    v_[262] = v_[67] * v_[227] + v_[68] * v_[230] + v_[53] * v_[233] + v_[52] * v_[252] + v_[267] * x_in[10];
     v_[282] = v_[245] * v_[64] + v_[55] * v_[250] - (v_[228] * v_[80] + v_[71] * v_[259]);
     v_[283] = 0.02075 * v_[232] + -0.184 * v_[249] + v_[262];
     v_[284] = v_[263] * v_[94] + v_[85] * v_[270] - (v_[264] * v_[82] + v_[87] * v_[260]);
@@ -521,9 +521,9 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               0.01438086 * (v_[225] + v_[226]);
     v_[262] = -0.01438086 * v_[213] + 0.647967112 * v_[217] + 2.327 * v_[222] + 2.327 * v_[223] +
               0.647967112 * v_[280] + 0.01438086 * v_[256] + -1 * v_[262] - -0.0055615274403 * (v_[225] + v_[258]);
-    v_[225] = v_[207] * w_in[1];
+    v_[225] = v_[207] * x_in[7];
     v_[265] = v_[207] * v_[5] + v_[1] * v_[212];
-    v_[271] = w_in[6] * v_[211];
+    v_[271] = w_in[0] * v_[211];
     v_[272] = v_[271] * v_[18];
     v_[275] = v_[271] * v_[9];
     v_[277] = v_[272] * -1 + v_[275] * -0.304;
@@ -531,7 +531,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[242] = v_[271] * v_[10];
     v_[241] = v_[244] * v_[28] + v_[242] * v_[43];
     v_[243] = v_[242] * -1;
-    v_[289] = w_in[6] * v_[206];
+    v_[289] = w_in[0] * v_[206];
     v_[290] = v_[289] * v_[31] + v_[275] * v_[28];
     v_[291] = v_[277] * v_[53] + v_[241] * v_[52] + v_[243] * v_[67] + v_[290] * v_[68];
     v_[292] = v_[289] * v_[28] + v_[275] * v_[30];
@@ -565,23 +565,23 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[316] = v_[299] * 2.1032 + v_[300] * 0.057838;
     v_[317] = 0 - v_[316];
     v_[318] = v_[298] * 2.1032;
-    v_[319] = v_[315] + v_[144] * v_[228] + v_[317] * v_[71] + v_[145] * v_[245] + v_[318] * v_[55] + v_[305] * w_in[4];
+    v_[319] = v_[315] + v_[144] * v_[228] + v_[317] * v_[71] + v_[145] * v_[245] + v_[318] * v_[55] + v_[305] * x_in[10];
     v_[320] = 0 - v_[311];
     v_[321] = v_[294] * 1.547475 + (0 - v_[295]) * 0.038686875;
-    v_[322] = v_[147] * v_[248] + v_[320] * v_[91] + v_[148] * v_[263] + v_[321] * v_[85] + v_[304] * w_in[5];
+    v_[322] = v_[147] * v_[248] + v_[320] * v_[91] + v_[148] * v_[263] + v_[321] * v_[85] + v_[304] * x_in[11];
     v_[313] = 0 - v_[312] + v_[313];
     v_[312] = 0 - v_[321];
-    v_[323] = v_[140] * v_[248] + v_[313] * v_[91] + v_[139] * v_[264] + v_[312] * v_[87] - v_[302] * w_in[5];
+    v_[323] = v_[140] * v_[248] + v_[313] * v_[91] + v_[139] * v_[264] + v_[312] * v_[87] - v_[302] * x_in[11];
     v_[324] = v_[291] * -2.1032 + v_[293] * 0.057838;
     v_[325] = 0 - v_[324];
     v_[326] = 0 - v_[318];
     v_[327] = v_[322] * v_[77] + v_[323] * v_[76] + v_[152] * v_[228] + v_[325] * v_[71] + v_[153] * v_[248] +
-              v_[326] * v_[58] - v_[297] * w_in[4];
+              v_[326] * v_[58] - v_[297] * x_in[10];
     v_[328] = v_[298] * 1.7423722 + (0 - v_[243]) * -0.008711861 + v_[290] * 1.52322944854339e-09;
     v_[329] = 0 - v_[328];
     v_[330] = v_[277] * 1.7423722 + (0 - v_[290]) * 0.160298259823722 + v_[292] * -0.008711861;
     v_[331] = v_[319] * v_[52] + v_[327] * v_[53] + v_[156] * v_[240] + v_[329] * v_[47] + v_[157] * v_[228] +
-              v_[330] * v_[32] + v_[307] * w_in[3];
+              v_[330] * v_[32] + v_[307] * x_in[9];
     v_[332] = v_[241] * -1.7423722;
     v_[333] = v_[243] * 0.160298259823722;
     v_[334] = v_[292] * 1.52322944854339e-09;
@@ -589,18 +589,18 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[336] = 0 - v_[330];
     v_[337] = v_[322] * v_[79] + v_[323] * v_[77] + v_[143] * v_[248] + v_[316] * v_[58] + v_[151] * v_[245] +
               v_[324] * v_[55] + v_[162] * v_[240] + v_[335] * v_[47] + v_[163] * v_[231] + v_[336] * v_[35] -
-              v_[306] * w_in[3];
+              v_[306] * x_in[9];
     v_[338] = 0 - (v_[272] * 2.327 + (0 - v_[289]) * 0.01438086 + v_[275] * 0.647967112);
     v_[339] = (0 - v_[275]) * -0.0055615274403 + v_[242] * 0.01438086;
     v_[340] = v_[331] * v_[28] + v_[337] * v_[30] + v_[165] * v_[207] + v_[338] * v_[23] + v_[166] * v_[215] +
-              v_[339] * v_[12] + v_[310] * w_in[2];
+              v_[339] * v_[12] + v_[310] * x_in[8];
     v_[334] = v_[332] - v_[333] + v_[334];
     v_[333] = v_[319] * v_[53] + v_[327] * v_[62] + v_[155] * v_[231] + v_[328] * v_[35] + v_[161] * v_[228] +
               v_[334] * v_[32];
     v_[332] = v_[289] * -0.0055615274403 - (v_[244] * -2.327 + v_[242] * 0.647967112);
     v_[341] = 0 - v_[339];
     v_[342] =
-        v_[333] * -1 + v_[159] * v_[207] + v_[332] * v_[23] + v_[168] * v_[218] + v_[341] * v_[15] - v_[308] * w_in[2];
+        v_[333] * -1 + v_[159] * v_[207] + v_[332] * v_[23] + v_[168] * v_[218] + v_[341] * v_[15] - v_[308] * x_in[8];
     v_[343] = v_[292] * v_[77] + v_[293] * v_[76];
     v_[344] = (0 - v_[300]) * 1.5e-05 + v_[295] * 0.000198 + v_[343] * 0.00605;
     v_[345] = v_[294] * 0.038686875 + v_[300] * -0.000829 + (0 - v_[295]) * -0.00146 + (0 - v_[343]) * 0.000198;
@@ -625,17 +625,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[300] * -0.001387 + v_[293] * 0.019432;
     v_[349] = v_[348] + v_[322] * v_[78] + v_[323] * v_[81] + v_[143] * v_[250] + v_[316] * v_[64] + v_[153] * v_[259] +
               v_[326] * v_[80] + v_[176] * v_[228] + v_[313] * v_[71] + v_[177] * v_[245] + v_[320] * v_[55] +
-              v_[181] * v_[248] + v_[181] * v_[248] + v_[349] * v_[58] + v_[349] * v_[58] + v_[291] * w_in[4];
+              v_[181] * v_[248] + v_[181] * v_[248] + v_[349] * v_[58] + v_[349] * v_[58] + v_[291] * x_in[10];
     v_[348] = v_[301] * 0.038686875 + v_[300] * -0.00751 + (0 - v_[295]) * -0.000829 + v_[343] * 1.5e-05;
     v_[326] = (0 - v_[300]) * 0.000198;
     v_[347] = v_[303] + v_[326] - v_[347];
     v_[347] = v_[138] * v_[266] + v_[311] * v_[89] + v_[139] * v_[260] + v_[312] * v_[82] + v_[171] * v_[248] +
               v_[344] * v_[91] + v_[184] * v_[263] + v_[348] * v_[85] + v_[174] * v_[264] + v_[174] * v_[264] +
-              v_[347] * v_[87] + v_[347] * v_[87] + v_[350] * w_in[5];
+              v_[347] * v_[87] + v_[347] * v_[87] + v_[350] * x_in[11];
     v_[326] = 0 - v_[326] - v_[346];
     v_[326] = v_[141] * v_[266] + v_[314] * v_[89] + v_[148] * v_[270] + v_[321] * v_[94] + v_[172] * v_[248] +
               v_[345] * v_[91] + v_[184] * v_[264] + v_[348] * v_[87] + v_[185] * v_[263] + v_[185] * v_[263] +
-              v_[326] * v_[85] + v_[326] * v_[85] - v_[294] * w_in[5];
+              v_[326] * v_[85] + v_[326] * v_[85] - v_[294] * x_in[11];
     v_[348] = v_[299] * 0.057838 + v_[292] * -0.001243 + (0 - v_[300]) * -0.008386 + (0 - v_[293]) * -0.001387;
     v_[345] = v_[300] * -0.012652;
     v_[140] = v_[175] - v_[140] - v_[345];
@@ -644,7 +644,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[140] = v_[315] * -0.184 + v_[347] * v_[77] + v_[326] * v_[76] + v_[151] * v_[250] + v_[324] * v_[64] +
               v_[145] * v_[253] + v_[318] * v_[69] + v_[186] * v_[228] + v_[348] * v_[71] + v_[177] * v_[248] +
               v_[320] * v_[58] + v_[179] * v_[245] + v_[179] * v_[245] + v_[140] * v_[55] + v_[140] * v_[55] -
-              v_[343] * w_in[4];
+              v_[343] * x_in[10];
     v_[320] = v_[277] * -0.008711861 + v_[241] * 1.52322944854339e-09 + (0 - v_[243]) * -0.00021200017 +
               v_[290] * 0.0036857284 + v_[292] * 0.077424;
     v_[324] = v_[241] * 0.160298259823722 + v_[298] * -0.008711861 + v_[243] * -0.06337651 +
@@ -660,7 +660,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[145] = v_[319] * v_[68] + v_[327] * v_[61] + v_[349] * v_[52] + v_[140] * v_[53] + v_[155] * v_[239] +
               v_[328] * v_[46] + v_[163] * v_[250] + v_[336] * v_[64] + v_[127] * v_[240] + v_[320] * v_[47] +
               v_[121] * v_[228] + v_[324] * v_[32] + v_[191] * v_[231] + v_[191] * v_[231] + v_[145] * v_[35] +
-              v_[145] * v_[35] + v_[296] * w_in[3];
+              v_[145] * v_[35] + v_[296] * x_in[9];
     v_[345] = v_[345] + v_[147];
     v_[345] = v_[315] * 0.02075 + v_[347] * v_[86] + v_[326] * v_[77] + v_[144] * v_[253] + v_[317] * v_[69] +
               v_[152] * v_[259] + v_[325] * v_[80] + v_[176] * v_[248] + v_[313] * v_[58] + v_[186] * v_[245] +
@@ -676,7 +676,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[298] * 1.52322944854339e-09 + v_[243] * -0.0022920002 + v_[290] * 0.01828449 + v_[292] * 0.0036857284;
     v_[177] = v_[345] + v_[161] * v_[239] + v_[334] * v_[46] + v_[157] * v_[237] + v_[330] * v_[44] +
               v_[180] * v_[240] + v_[267] * v_[47] + v_[121] * v_[231] + v_[324] * v_[35] + v_[189] * v_[228] +
-              v_[189] * v_[228] + v_[177] * v_[32] + v_[177] * v_[32] - v_[318] * w_in[3];
+              v_[189] * v_[228] + v_[177] * v_[32] + v_[177] * v_[32] - v_[318] * x_in[9];
     v_[345] = v_[244] * 0.647967112 + (0 - v_[289]) * -0.011715295 + v_[275] * 5.399998e-05 + v_[242] * -0.199538951;
     v_[324] = v_[244] * -0.0055615274403 + v_[272] * 0.01438086 + v_[289] * 0.00750500000000001 +
               (0 - v_[275]) * -0.0037997814 + v_[242] * -0.011715295;
@@ -691,7 +691,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[244] * -0.647967112 + v_[289] * -0.011715295 + v_[275] * 5.399998e-05 + v_[242] * 0.20236395;
     v_[121] = v_[333] * -0.304 + v_[145] * v_[28] + v_[177] * v_[30] + v_[168] * v_[234] + v_[341] * v_[39] +
               v_[195] * v_[207] + v_[345] * v_[23] + v_[196] * v_[215] + v_[324] * v_[12] + v_[200] * v_[218] +
-              v_[200] * v_[218] + v_[121] * v_[15] + v_[121] * v_[15] + v_[161] * w_in[2];
+              v_[200] * v_[218] + v_[121] * v_[15] + v_[121] * v_[15] + v_[161] * x_in[8];
     v_[246] = v_[253] + v_[179] + v_[246] + v_[151];
     v_[246] = v_[319] * v_[67] + v_[327] * v_[60] + v_[349] * v_[53] + v_[140] * v_[54] + v_[156] * v_[237] +
               v_[329] * v_[44] + v_[162] * v_[250] + v_[335] * v_[64] + v_[127] * v_[231] + v_[320] * v_[35] +
@@ -708,7 +708,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[275] * 0.20986895 + v_[242] * 5.399998e-05;
     v_[330] = v_[331] * v_[43] + v_[337] * v_[42] + v_[246] * -1 + v_[166] * v_[221] + v_[339] * v_[21] +
               v_[193] * v_[207] + v_[251] * v_[23] + v_[196] * v_[218] + v_[324] * v_[15] + v_[198] * v_[215] +
-              v_[198] * v_[215] + v_[330] * v_[12] + v_[330] * v_[12] - v_[309] * w_in[2];
+              v_[198] * v_[215] + v_[330] * v_[12] + v_[330] * v_[12] - v_[309] * x_in[8];
     v_[246] = (0 - v_[271]) * -0.002752 + v_[289] * -0.022851627;
     v_[324] = (0 - v_[289]) * -0.002752;
     v_[339] = 0 - v_[324];
@@ -717,7 +717,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[289] * 0.039002996 + v_[271] * 0.0055279857 + v_[289] * -0.034462002;
     v_[339] = v_[340] * v_[19] + v_[342] * v_[18] + v_[121] * v_[9] + v_[330] * v_[10] + v_[202] * v_[207] +
               v_[246] * v_[1] + v_[204] * v_[212] + v_[204] * v_[212] + v_[339] * v_[5] + v_[339] * v_[5] +
-              v_[272] * w_in[1];
+              v_[272] * x_in[7];
     v_[188] = v_[190] + v_[197] + v_[188] + v_[199];
     v_[267] = v_[229] + v_[334] + v_[267] + v_[189];
     v_[267] = v_[145] * v_[31] + v_[177] * v_[28] + v_[165] * v_[221] + v_[338] * v_[21] + v_[159] * v_[234] +
@@ -731,28 +731,28 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[251] = 0 - v_[216];
     v_[345] = v_[308] * v_[19] + v_[310] * v_[18] + v_[309] * v_[9] + v_[161] * v_[10] + v_[271] * 0.08585553 +
               v_[289] * 0.0055279857;
-    v_[251] = v_[267] + v_[235] * w_in[1] + v_[202] * v_[212] + v_[246] * v_[5] + v_[203] * v_[207] +
-              v_[203] * v_[207] + v_[251] * v_[1] + v_[251] * v_[1] - v_[345] * w_in[1];
-    v_[267] = w_in[7] * -0.002752 + (0 - v_[95]) * 0.012390532 + (0 - v_[113]) * 0.0055279857;
-    v_[246] = v_[135] * v_[19] + v_[137] * v_[18] + v_[136] * v_[9] + v_[117] * v_[10] + w_in[7] * -0.002752 +
+    v_[251] = v_[267] + v_[235] * x_in[7] + v_[202] * v_[212] + v_[246] * v_[5] + v_[203] * v_[207] +
+              v_[203] * v_[207] + v_[251] * v_[1] + v_[251] * v_[1] - v_[345] * x_in[7];
+    v_[267] = w_in[1] * -0.002752 + (0 - v_[95]) * 0.012390532 + (0 - v_[113]) * 0.0055279857;
+    v_[246] = v_[135] * v_[19] + v_[137] * v_[18] + v_[136] * v_[9] + v_[117] * v_[10] + w_in[1] * -0.002752 +
               v_[95] * 0.08585553 + v_[113] * 0.0055279857;
     v_[203] = v_[192] * v_[31] + v_[142] * v_[28] + v_[165] * v_[21] + v_[159] * v_[39] + v_[195] * v_[15] +
-              v_[193] * v_[12] + v_[188] * v_[23] + v_[188] * v_[23] + v_[267] * w_in[1] + v_[202] * v_[5] +
-              v_[203] * v_[1] + v_[203] * v_[1] - v_[246] * w_in[1];
+              v_[193] * v_[12] + v_[188] * v_[23] + v_[188] * v_[23] + v_[267] * x_in[7] + v_[202] * v_[5] +
+              v_[203] * v_[1] + v_[203] * v_[1] - v_[246] * x_in[7];
     hes[13] =
         (0 -
-            (w_in[6] * (0.08585553 * v_[3] + 0.0055279857 * v_[6] + 0.0099341499912 * v_[7] + 0.0055279857 * v_[6] +
+            (w_in[0] * (0.08585553 * v_[3] + 0.0055279857 * v_[6] + 0.0099341499912 * v_[7] + 0.0055279857 * v_[6] +
                            -0.022851627 * (v_[8] - v_[1] * v_[1]) + v_[9] * v_[109] + v_[10] * v_[105] +
                            v_[19] * v_[111] + v_[18] * v_[84] - 0.012390532 * v_[26] - -0.002752 * v_[88]) +
-                (v_[135] * v_[9] + v_[137] * v_[10] + w_in[7] * 0.293374233908935 + v_[113] * -0.0099341499912) * 9.81 +
-                v_[205] * w_in[0])) *
+                (v_[135] * v_[9] + v_[137] * v_[10] + w_in[1] * 0.293374233908935 + v_[113] * -0.0099341499912) * 9.81 +
+                v_[205] * x_in[6])) *
             v_[4] -
-        (w_in[6] * (0.08585553 * v_[209] + 0.0055279857 * v_[213] + 0.0099341499912 * v_[214] + 0.0055279857 * v_[213] +
+        (w_in[0] * (0.08585553 * v_[209] + 0.0055279857 * v_[213] + 0.0099341499912 * v_[214] + 0.0055279857 * v_[213] +
                        -0.022851627 * (0 - (v_[207] * v_[1] + v_[1] * v_[207])) + v_[9] * v_[285] + v_[10] * v_[281] +
                        v_[19] * v_[287] + v_[18] * v_[262] - 0.012390532 * v_[225] - -0.002752 * v_[265]) +
-            (v_[308] * v_[9] + v_[310] * v_[10] + v_[289] * -0.0099341499912) * 9.81 + v_[339] * w_in[0]) *
+            (v_[308] * v_[9] + v_[310] * v_[10] + v_[289] * -0.0099341499912) * 9.81 + v_[339] * x_in[6]) *
             v_[210] +
-        (w_in[6] *
+        (w_in[0] *
                 (0.0055279857 * v_[209] + 0.039002996 * v_[213] + -0.0099341499912 * v_[220] + -0.034462002 * v_[213] +
                     -0.022851627 * v_[265] + 0.010329999 * v_[213] + -0.0037997814 * v_[217] + -0.011715295 * v_[219] +
                     -0.0055615274403 * v_[236] + -0.01438086 * v_[222] + -0.0055615274403 * v_[286] +
@@ -762,18 +762,18 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
             (v_[306] * v_[63] + v_[307] * v_[28] + v_[275] * 0.0055615274403 + v_[242] * 0.01438086 +
                 v_[271] * 0.0099341499912) *
                 9.81 +
-            v_[251] * w_in[0]) *
+            v_[251] * x_in[6]) *
             v_[206] -
-        (w_in[6] * (0.0055279857 * v_[3] + 0.039002996 * v_[6] + -0.0099341499912 * v_[17] + -0.034462002 * v_[6] +
+        (w_in[0] * (0.0055279857 * v_[3] + 0.039002996 * v_[6] + -0.0099341499912 * v_[17] + -0.034462002 * v_[6] +
                        -0.022851627 * v_[88] + 0.010329999 * v_[6] + -0.0037997814 * v_[14] + -0.011715295 * v_[16] +
                        -0.0055615274403 * v_[41] + -0.01438086 * v_[22] + -0.0055615274403 * v_[110] +
                        0.00750500000000001 * v_[73] + -0.0037997814 * v_[104] + v_[31] * v_[100] + v_[28] * v_[108] -
                        0.01438086 * v_[24] - -0.011715295 * v_[25] - 5.399998e-05 * (v_[75] - v_[27]) -
                        0.0055279857 * v_[26] - -0.002752 * (v_[8] - v_[5] * v_[5])) +
             (v_[133] * v_[63] + v_[134] * v_[28] + v_[99] * 0.0055615274403 + v_[49] * 0.01438086 +
-                w_in[7] * 0.0606159433962 + v_[95] * 0.0099341499912) *
+                w_in[1] * 0.0606159433962 + v_[95] * 0.0099341499912) *
                 9.81 +
-            v_[203] * w_in[0]) *
+            v_[203] * x_in[6]) *
             v_[0];
     hes[18] = v_[205] * v_[211] + v_[339] * v_[4] + v_[203] * v_[206] + v_[251] * v_[0];
     v_[203] = sin(x_in[2]);
@@ -781,18 +781,18 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     hes[14] =
         0 -
         (v_[95] * v_[285] + v_[271] * v_[109] + v_[135] * v_[220] + v_[308] * v_[17] + v_[136] * v_[209] +
-            v_[309] * v_[3] + v_[160] * v_[212] + v_[121] * v_[5] + (w_in[7] * v_[287] + v_[340] * w_in[1]) * 0.112 +
+            v_[309] * v_[3] + v_[160] * v_[212] + v_[121] * v_[5] + (w_in[1] * v_[287] + v_[340] * x_in[7]) * 0.112 +
             (v_[95] * v_[262] + v_[271] * v_[84] + v_[137] * v_[209] + v_[310] * v_[3] + v_[169] * v_[212] +
                 v_[342] * v_[5]) *
                 0.112 -
-            (w_in[7] * v_[281] + v_[330] * w_in[1])) *
+            (w_in[1] * v_[281] + v_[330] * x_in[7])) *
             v_[203] +
-        (w_in[7] * v_[285] + v_[95] * v_[281] + v_[271] * v_[105] + v_[137] * v_[220] + v_[310] * v_[17] +
-            v_[117] * v_[209] + v_[161] * v_[3] + v_[121] * w_in[1] + v_[201] * v_[212] + v_[330] * v_[5] +
+        (w_in[1] * v_[285] + v_[95] * v_[281] + v_[271] * v_[105] + v_[137] * v_[220] + v_[310] * v_[17] +
+            v_[117] * v_[209] + v_[161] * v_[3] + v_[121] * x_in[7] + v_[201] * v_[212] + v_[330] * v_[5] +
             (v_[95] * v_[287] + v_[271] * v_[111] + v_[135] * v_[209] + v_[308] * v_[3] + v_[167] * v_[212] +
                 v_[340] * v_[5]) *
                 -0.112 +
-            (w_in[7] * v_[262] + v_[342] * w_in[1]) * 0.112) *
+            (w_in[1] * v_[262] + v_[342] * x_in[7]) * 0.112) *
             v_[251];
     v_[309] = sin(x_in[3]);
     v_[161] = cos(x_in[3]);
@@ -868,21 +868,21 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   v_[247];
     v_[216] = v_[216] + v_[324];
     hes[19] = v_[340] * v_[20] + v_[342] * v_[38] + v_[121] * v_[10] + v_[330] * v_[11] + v_[267] * v_[207] +
-              v_[235] * v_[1] + v_[216] * w_in[1] + v_[216] * w_in[1] + v_[246] * v_[208] + v_[345] * v_[2] +
+              v_[235] * v_[1] + v_[216] * x_in[7] + v_[216] * x_in[7] + v_[246] * v_[208] + v_[345] * v_[2] +
               v_[96] * v_[212] + v_[272] * v_[5];
-    v_[216] = w_in[6] * v_[4];
-    v_[246] = w_in[7] * v_[38] + v_[216] * v_[18];
-    v_[267] = w_in[7] * v_[10] + v_[216] * v_[9];
+    v_[216] = w_in[0] * v_[4];
+    v_[246] = w_in[1] * v_[38] + v_[216] * v_[18];
+    v_[267] = w_in[1] * v_[10] + v_[216] * v_[9];
     v_[345] = v_[246] * -1 + v_[267] * -0.304;
-    v_[235] = w_in[7] * v_[20] + v_[216] * v_[19];
-    v_[272] = w_in[7] * v_[11] + v_[216] * v_[10];
+    v_[235] = w_in[1] * v_[20] + v_[216] * v_[19];
+    v_[272] = w_in[1] * v_[11] + v_[216] * v_[10];
     v_[330] = v_[235] * v_[28] + v_[272] * v_[43];
-    v_[121] = w_in[9] + v_[272] * -1;
-    v_[342] = w_in[8] + w_in[6] * v_[0];
+    v_[121] = w_in[3] + v_[272] * -1;
+    v_[342] = w_in[2] + w_in[0] * v_[0];
     v_[340] = v_[342] * v_[31] + v_[267] * v_[28];
     v_[212] = v_[345] * v_[53] + v_[330] * v_[52] + v_[121] * v_[67] + v_[340] * v_[68];
     v_[208] = v_[342] * v_[28] + v_[267] * v_[30];
-    v_[207] = w_in[10] + v_[208];
+    v_[207] = w_in[4] + v_[208];
     v_[96] = v_[121] * v_[54] + v_[340] * v_[53];
     v_[1] = v_[212] + v_[207] * 0.02075 + v_[96] * -0.184;
     v_[324] = v_[207] * v_[86] + v_[96] * v_[77];
@@ -892,7 +892,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[347] = v_[345] * v_[62] + v_[330] * v_[53] + v_[121] * v_[60] + v_[340] * v_[61];
     v_[350] = v_[121] * v_[53] + v_[340] * v_[52];
     v_[294] = v_[326] * v_[79] + v_[347] * v_[77] + v_[350] * v_[78];
-    v_[323] = w_in[11] + v_[350];
+    v_[323] = w_in[5] + v_[350];
     v_[322] = v_[294] * 1.547475 + v_[323] * 0.038686875;
     v_[304] = v_[326] * v_[77] + v_[347] * v_[76] + v_[350] * v_[81];
     v_[302] = v_[304] * 1.547475;
@@ -927,17 +927,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[130] = v_[347] * 2.1032 + v_[350] * 0.057838;
     v_[182] = 0 - v_[130];
     v_[120] = v_[326] * 2.1032;
-    v_[150] = v_[173] + v_[182] * v_[71] + v_[120] * v_[55] + v_[299] * w_in[4];
+    v_[150] = v_[173] + v_[182] * v_[71] + v_[120] * v_[55] + v_[299] * x_in[10];
     v_[149] = 0 - v_[245];
     v_[131] = v_[1] * 1.547475 + (0 - v_[324]) * 0.038686875;
-    v_[129] = v_[149] * v_[91] + v_[131] * v_[85] + v_[302] * w_in[5];
+    v_[129] = v_[149] * v_[91] + v_[131] * v_[85] + v_[302] * x_in[11];
     v_[232] = 0 - v_[238] + v_[232];
     v_[238] = 0 - v_[131];
-    v_[125] = v_[232] * v_[91] + v_[238] * v_[87] - v_[322] * w_in[5];
+    v_[125] = v_[232] * v_[91] + v_[238] * v_[87] - v_[322] * x_in[11];
     v_[124] = v_[212] * -2.1032 + v_[96] * 0.057838;
     v_[119] = 0 - v_[124];
     v_[118] = 0 - v_[120];
-    v_[126] = v_[129] * v_[77] + v_[125] * v_[76] + v_[119] * v_[71] + v_[118] * v_[58] - v_[140] * w_in[4];
+    v_[126] = v_[129] * v_[77] + v_[125] * v_[76] + v_[119] * v_[71] + v_[118] * v_[58] - v_[140] * x_in[10];
     v_[343] = v_[326] * 1.7423722 + (0 - v_[121]) * -0.008711861 + v_[340] * 1.52322944854339e-09;
     v_[349] = v_[330] * -1.7423722;
     v_[291] = v_[121] * 0.160298259823722;
@@ -958,20 +958,20 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[268] = v_[255] + v_[282] - v_[257];
     v_[252] = v_[149] * v_[94] + v_[232] * v_[82] + v_[297] * v_[87] + v_[1] * v_[85] + v_[241] * v_[91] +
               v_[241] * v_[91] + v_[129] * v_[78] + v_[125] * v_[81] + v_[130] * v_[64] + v_[118] * v_[80] +
-              v_[212] * v_[71] + v_[277] * v_[55] + v_[268] * v_[58] + v_[268] * v_[58] + v_[254] * w_in[4];
+              v_[212] * v_[71] + v_[277] * v_[55] + v_[268] * v_[58] + v_[268] * v_[58] + v_[254] * x_in[10];
     v_[279] = v_[294] * 0.038686875 + v_[323] * -0.00751 + (0 - v_[324]) * -0.000829 + v_[279] * 1.5e-05;
     v_[323] = (0 - v_[323]) * 0.000198;
     v_[243] = v_[304] + v_[323] - v_[243];
     v_[304] = v_[245] * v_[89] + v_[238] * v_[82] + v_[297] * v_[91] + v_[279] * v_[85] + v_[243] * v_[87] +
-              v_[243] * v_[87] + v_[259] * w_in[5];
+              v_[243] * v_[87] + v_[259] * x_in[11];
     v_[323] = 0 - v_[323] - v_[290];
     v_[290] = v_[228] * v_[89] + v_[131] * v_[94] + v_[1] * v_[91] + v_[279] * v_[87] + v_[323] * v_[85] +
-              v_[323] * v_[85] - v_[269] * w_in[5];
+              v_[323] * v_[85] - v_[269] * x_in[11];
     v_[294] = v_[347] * 0.057838 + v_[207] * -0.001243 + (0 - v_[350]) * -0.008386 + (0 - v_[96]) * -0.001387;
     v_[324] = v_[350] * -0.012652;
     v_[282] = v_[255] - v_[282] - v_[324];
     v_[255] = v_[173] * -0.184 + v_[304] * v_[77] + v_[290] * v_[76] + v_[124] * v_[64] + v_[120] * v_[69] +
-              v_[294] * v_[71] + v_[277] * v_[58] + v_[282] * v_[55] + v_[282] * v_[55] - v_[273] * w_in[4];
+              v_[294] * v_[71] + v_[277] * v_[58] + v_[282] * v_[55] + v_[282] * v_[55] - v_[273] * x_in[10];
     v_[240] = v_[345] * 1.7423722 + (0 - v_[340]) * 0.160298259823722 + v_[208] * -0.008711861;
     v_[239] = 0 - v_[240];
     v_[237] = v_[345] * -0.008711861 + v_[330] * 1.52322944854339e-09 + (0 - v_[121]) * -0.00021200017 +
@@ -985,7 +985,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[170] = v_[231] + v_[230] + v_[227] - v_[128];
     v_[183] = v_[150] * v_[68] + v_[126] * v_[61] + v_[252] * v_[52] + v_[255] * v_[53] + v_[343] * v_[46] +
               v_[239] * v_[64] + v_[237] * v_[47] + v_[233] * v_[32] + v_[170] * v_[35] + v_[170] * v_[35] +
-              v_[300] * w_in[3];
+              v_[300] * x_in[9];
     v_[324] = v_[324] + v_[257];
     v_[257] = v_[345] * 0.160298259823722 + v_[326] * 1.52322944854339e-09 + v_[121] * -0.0022920002 +
               (0 - v_[340]) * 0.01404749 + (0 - v_[208]) * 0.0036857284;
@@ -995,7 +995,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[173] = v_[173] * 0.02075 + v_[304] * v_[86] + v_[290] * v_[77] + v_[182] * v_[69] + v_[119] * v_[80] +
               v_[212] * v_[58] + v_[294] * v_[55] + v_[324] * v_[71] + v_[324] * v_[71] + v_[319] * v_[46] +
               v_[240] * v_[44] + v_[257] * v_[47] + v_[233] * v_[35] + v_[227] * v_[32] + v_[227] * v_[32] -
-              v_[250] * w_in[3];
+              v_[250] * x_in[9];
     v_[231] = (0 - v_[267]) * -0.0055615274403 + v_[272] * 0.01438086;
     v_[146] = 0 - v_[231];
     v_[132] = v_[235] * 0.647967112 + (0 - v_[342]) * -0.011715295 + v_[267] * 5.399998e-05 + v_[272] * -0.199538951;
@@ -1009,17 +1009,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   -1 +
               v_[235] * -0.647967112 + v_[342] * -0.011715295 + v_[267] * 5.399998e-05 + v_[272] * 0.20236395;
     v_[48] = v_[305] * -0.304 + v_[183] * v_[28] + v_[173] * v_[30] + v_[146] * v_[39] + v_[132] * v_[23] +
-             v_[123] * v_[12] + v_[50] * v_[15] + v_[50] * v_[15] + v_[208] * w_in[2];
+             v_[123] * v_[12] + v_[50] * v_[15] + v_[50] * v_[15] + v_[208] * x_in[8];
     v_[101] = 0 - v_[343];
-    v_[145] = v_[150] * v_[52] + v_[126] * v_[53] + v_[101] * v_[47] + v_[240] * v_[32] + v_[293] * w_in[3];
+    v_[145] = v_[150] * v_[52] + v_[126] * v_[53] + v_[101] * v_[47] + v_[240] * v_[32] + v_[293] * x_in[9];
     v_[327] = 0 - v_[349] + v_[291] - v_[327];
     v_[291] = v_[129] * v_[79] + v_[125] * v_[77] + v_[130] * v_[58] + v_[124] * v_[55] + v_[327] * v_[47] +
-              v_[239] * v_[35] - v_[298] * w_in[3];
+              v_[239] * v_[35] - v_[298] * x_in[9];
     v_[349] = 0 - (v_[246] * 2.327 + (0 - v_[342]) * 0.01438086 + v_[267] * 0.647967112);
     v_[278] = v_[278] * -1 + v_[246] * 2.327 + v_[342] * -0.01438086 + v_[267] * 0.647967112;
-    v_[296] = v_[145] * v_[28] + v_[291] * v_[30] + v_[349] * v_[23] + v_[231] * v_[12] + v_[278] * w_in[2];
+    v_[296] = v_[145] * v_[28] + v_[291] * v_[30] + v_[349] * v_[23] + v_[231] * v_[12] + v_[278] * x_in[8];
     v_[337] = v_[342] * -0.0055615274403 - (v_[235] * -2.327 + v_[272] * 0.647967112);
-    v_[305] = v_[305] * -1 + v_[337] * v_[23] + v_[146] * v_[15] - v_[292] * w_in[2];
+    v_[305] = v_[305] * -1 + v_[337] * v_[23] + v_[146] * v_[15] - v_[292] * x_in[8];
     v_[154] = v_[116] + v_[230] + v_[154] + v_[128];
     v_[246] =
         v_[246] * 0.647967112 + v_[342] * -0.0037997814 + (0 - v_[267]) * -0.192033951 + (0 - v_[272]) * 5.399998e-05;
@@ -1029,35 +1029,35 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   v_[327] * v_[64] + v_[237] * v_[35] + v_[257] * v_[32] + v_[154] * v_[47] + v_[154] * v_[47]) *
                   -1 +
               v_[231] * v_[21] + v_[246] * v_[23] + v_[123] * v_[15] + v_[115] * v_[12] + v_[115] * v_[12] -
-              v_[249] * w_in[2];
+              v_[249] * x_in[8];
     v_[128] = 0 - v_[203];
     v_[230] = -v_[128];
-    v_[331] = v_[251] * v_[5] + v_[230] * w_in[1];
+    v_[331] = v_[251] * v_[5] + v_[230] * x_in[7];
     v_[307] = -v_[331];
-    v_[306] = v_[128] * v_[3] + v_[307] * w_in[2];
-    v_[289] = v_[128] * v_[5] + v_[251] * w_in[1];
-    v_[242] = v_[251] * v_[3] + v_[289] * w_in[2];
+    v_[306] = v_[128] * v_[3] + v_[307] * x_in[8];
+    v_[289] = v_[128] * v_[5] + v_[251] * x_in[7];
+    v_[242] = v_[251] * v_[3] + v_[289] * x_in[8];
     v_[244] = 0.112 * v_[128];
     v_[275] = -0.112 * v_[251];
     v_[283] = 0.112 * v_[128];
-    v_[288] = v_[275] * v_[5] + v_[283] * w_in[1];
-    v_[284] = v_[251] * v_[17] + v_[244] * v_[3] + v_[288] * w_in[2];
+    v_[288] = v_[275] * v_[5] + v_[283] * x_in[7];
+    v_[284] = v_[251] * v_[17] + v_[244] * v_[3] + v_[288] * x_in[8];
     v_[276] = -v_[23] * v_[288];
     v_[236] = v_[289] * v_[23];
     v_[221] = v_[331] * v_[12] + v_[12] * v_[331];
     v_[219] = -1 * v_[242];
     v_[218] = v_[30] * v_[289];
     v_[217] = -v_[218];
-    v_[215] = v_[28] * v_[306] + v_[217] * w_in[3];
+    v_[215] = v_[28] * v_[306] + v_[217] * x_in[9];
     v_[214] = v_[28] * v_[289];
-    v_[213] = v_[30] * v_[306] + v_[214] * w_in[3];
+    v_[213] = v_[30] * v_[306] + v_[214] * x_in[9];
     v_[142] = -0.304 * v_[306] + -1 * v_[284];
     v_[178] = 0.112 * v_[251];
-    v_[192] = v_[244] * v_[5] + v_[178] * w_in[1];
+    v_[192] = v_[244] * v_[5] + v_[178] * x_in[7];
     v_[122] = -v_[192];
-    v_[164] = v_[128] * v_[17] + v_[275] * v_[3] + v_[122] * w_in[2];
+    v_[164] = v_[128] * v_[17] + v_[275] * v_[3] + v_[122] * x_in[8];
     v_[158] = v_[43] * v_[331] + v_[28] * v_[288];
-    v_[134] = v_[30] * v_[164] + v_[42] * v_[242] + v_[158] * w_in[3];
+    v_[134] = v_[30] * v_[164] + v_[42] * v_[242] + v_[158] * x_in[9];
     v_[133] = -0.304 * v_[289] + -1 * v_[192];
     v_[114] = -1 * v_[331];
     v_[49] = v_[214] * v_[46] + v_[35] * v_[133] - (v_[114] * v_[44] + v_[47] * v_[158]);
@@ -1066,14 +1066,14 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[310] = v_[218] * v_[32] + v_[32] * v_[218];
     v_[308] = v_[53] * v_[214] + v_[54] * v_[114];
     v_[271] = -v_[308];
-    v_[262] = v_[53] * v_[219] + v_[52] * v_[215] + v_[271] * w_in[4];
+    v_[262] = v_[53] * v_[219] + v_[52] * v_[215] + v_[271] * x_in[10];
     v_[287] = v_[52] * v_[214] + v_[53] * v_[114];
-    v_[281] = v_[54] * v_[219] + v_[53] * v_[215] + v_[287] * w_in[4];
+    v_[281] = v_[54] * v_[219] + v_[53] * v_[215] + v_[287] * x_in[10];
     v_[285] = v_[42] * v_[331] + v_[30] * v_[288];
     v_[220] = -v_[285];
-    v_[209] = v_[28] * v_[164] + v_[43] * v_[242] + v_[220] * w_in[3];
+    v_[209] = v_[28] * v_[164] + v_[43] * v_[242] + v_[220] * x_in[9];
     v_[201] = v_[67] * v_[114] + v_[68] * v_[214] + v_[53] * v_[133] + v_[52] * v_[158];
-    v_[136] = v_[60] * v_[219] + v_[61] * v_[215] + v_[62] * v_[142] + v_[53] * v_[209] + v_[201] * w_in[4];
+    v_[136] = v_[60] * v_[219] + v_[61] * v_[215] + v_[62] * v_[142] + v_[53] * v_[209] + v_[201] * x_in[10];
     v_[160] = v_[287] * v_[64] + v_[58] * v_[285] - (v_[218] * v_[69] + v_[71] * v_[201]);
     v_[117] = v_[287] * v_[71] + v_[58] * v_[218];
     v_[169] = v_[218] * v_[71] + v_[71] * v_[218];
@@ -1081,7 +1081,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[137] = v_[60] * v_[114] + v_[61] * v_[214] + v_[62] * v_[133] + v_[53] * v_[158];
     v_[135] = v_[77] * v_[285] + v_[76] * v_[137] + v_[81] * v_[287];
     v_[95] = -v_[135];
-    v_[339] = v_[79] * v_[134] + v_[77] * v_[136] + v_[78] * v_[262] + v_[95] * w_in[5];
+    v_[339] = v_[79] * v_[134] + v_[77] * v_[136] + v_[78] * v_[262] + v_[95] * x_in[11];
     v_[211] = v_[76] * v_[308] + v_[77] * v_[218];
     v_[206] = v_[77] * v_[308] + v_[86] * v_[218];
     v_[205] = v_[211] * v_[87] + v_[85] * v_[206];
@@ -1093,11 +1093,11 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[280] = v_[287] * v_[91] + v_[91] * v_[287];
     v_[226] = v_[206] * v_[87] + v_[87] * v_[206];
     v_[224] = 1.547475 * (v_[206] * v_[89] + v_[87] * v_[265] - (v_[287] * v_[94] + v_[91] * v_[256])) +
-              1.547475 * (v_[77] * v_[134] + v_[76] * v_[136] + v_[81] * v_[262] + v_[256] * w_in[5]) -
+              1.547475 * (v_[77] * v_[134] + v_[76] * v_[136] + v_[81] * v_[262] + v_[256] * x_in[11]) -
               0.038686875 * (v_[280] + v_[226]);
     v_[223] = -v_[211];
-    v_[222] = v_[86] * v_[213] + v_[77] * v_[281] + v_[223] * w_in[5];
-    v_[210] = v_[77] * v_[213] + v_[76] * v_[281] + v_[206] * w_in[5];
+    v_[222] = v_[86] * v_[213] + v_[77] * v_[281] + v_[223] * x_in[11];
+    v_[210] = v_[77] * v_[213] + v_[76] * v_[281] + v_[206] * x_in[11];
     v_[113] = v_[211] * v_[91] + v_[85] * v_[287];
     v_[88] = v_[206] * v_[91] + v_[87] * v_[287];
     v_[26] = v_[211] * v_[85] + v_[85] * v_[211];
@@ -1109,7 +1109,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               -0.00751 * v_[205] + 0.038686875 * (v_[258] - v_[225]) + -0.000829 * v_[113] - 1.5e-05 * v_[88] -
               0.000198 * (v_[226] - v_[26]) - -0.008386 * v_[75] - -0.001243 * v_[110];
     v_[225] = -v_[137];
-    v_[339] = v_[67] * v_[219] + v_[68] * v_[215] + v_[53] * v_[142] + v_[52] * v_[209] + v_[225] * w_in[4];
+    v_[339] = v_[67] * v_[219] + v_[68] * v_[215] + v_[53] * v_[142] + v_[52] * v_[209] + v_[225] * x_in[10];
     v_[73] = v_[308] * v_[64] + v_[55] * v_[285] - (v_[218] * v_[80] + v_[71] * v_[137]);
     v_[104] = 0.02075 * v_[213] + -0.184 * v_[281] + v_[339];
     v_[63] = v_[211] * v_[94] + v_[85] * v_[256] - (v_[206] * v_[82] + v_[87] * v_[135]);
@@ -1151,11 +1151,11 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[27] = 0.20986895 * v_[306] + 5.399998e-05 * v_[242] + 0.647967112 * v_[284] + 0.647967112 * v_[276] +
              5.399998e-05 * v_[236] + -0.011715295 * (0 - v_[221]) + v_[28] * v_[210] + v_[30] * v_[63] +
              -0.304 * v_[339] - -0.0055615274403 * v_[110] - -0.192033951 * v_[75] - -0.0037997814 * v_[117];
-    v_[25] = w_in[7] * v_[178] + v_[216] * v_[244];
-    v_[24] = w_in[7] * v_[251] + v_[216] * v_[128];
+    v_[25] = w_in[1] * v_[178] + v_[216] * v_[244];
+    v_[24] = w_in[1] * v_[251] + v_[216] * v_[128];
     v_[22] = v_[25] * -1 + v_[24] * -0.304;
-    v_[8] = w_in[7] * v_[283] + v_[216] * v_[275];
-    v_[188] = w_in[7] * v_[230] + v_[216] * v_[251];
+    v_[8] = w_in[1] * v_[283] + v_[216] * v_[275];
+    v_[188] = w_in[1] * v_[230] + v_[216] * v_[251];
     v_[202] = v_[8] * v_[28] + v_[188] * v_[43];
     v_[193] = v_[188] * -1;
     v_[195] = v_[24] * v_[28];
@@ -1203,18 +1203,18 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[348] = v_[190] * 2.1032 + v_[199] * 0.057838;
     v_[313] = 0 - v_[348];
     v_[325] = v_[334] * 2.1032;
-    v_[317] = v_[157] + v_[182] * v_[218] + v_[313] * v_[71] + v_[120] * v_[308] + v_[325] * v_[55] + v_[166] * w_in[4];
+    v_[317] = v_[157] + v_[182] * v_[218] + v_[313] * v_[71] + v_[120] * v_[308] + v_[325] * v_[55] + v_[166] * x_in[10];
     v_[315] = 0 - v_[341];
     v_[187] = v_[338] * 1.547475 + (0 - v_[234]) * 0.038686875;
-    v_[186] = v_[149] * v_[287] + v_[315] * v_[91] + v_[131] * v_[211] + v_[187] * v_[85] + v_[196] * w_in[5];
+    v_[186] = v_[149] * v_[287] + v_[315] * v_[91] + v_[131] * v_[211] + v_[187] * v_[85] + v_[196] * x_in[11];
     v_[200] = 0 - v_[333] + v_[200];
     v_[333] = 0 - v_[187];
-    v_[176] = v_[232] * v_[287] + v_[200] * v_[91] + v_[238] * v_[206] + v_[333] * v_[87] - v_[204] * w_in[5];
+    v_[176] = v_[232] * v_[287] + v_[200] * v_[91] + v_[238] * v_[206] + v_[333] * v_[87] - v_[204] * x_in[11];
     v_[152] = v_[159] * -2.1032 + v_[332] * 0.057838;
     v_[144] = 0 - v_[152];
     v_[147] = 0 - v_[325];
     v_[336] = v_[186] * v_[77] + v_[176] * v_[76] + v_[119] * v_[218] + v_[144] * v_[71] + v_[118] * v_[287] +
-              v_[147] * v_[58] - v_[189] * w_in[4];
+              v_[147] * v_[58] - v_[189] * x_in[10];
     v_[328] = v_[334] * 1.7423722 + (0 - v_[193]) * -0.008711861 + v_[195] * 1.52322944854339e-09;
     v_[191] = v_[202] * -1.7423722;
     v_[163] = v_[193] * 0.160298259823722;
@@ -1241,24 +1241,24 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[241] = v_[95] + v_[200] - v_[315];
     v_[241] = v_[270] + v_[186] * v_[78] + v_[176] * v_[81] + v_[130] * v_[285] + v_[348] * v_[64] + v_[118] * v_[137] +
               v_[147] * v_[80] + v_[212] * v_[218] + v_[159] * v_[71] + v_[277] * v_[308] + v_[223] * v_[55] +
-              v_[268] * v_[287] + v_[268] * v_[287] + v_[241] * v_[58] + v_[241] * v_[58] + v_[253] * w_in[4];
+              v_[268] * v_[287] + v_[268] * v_[287] + v_[241] * v_[58] + v_[241] * v_[58] + v_[253] * x_in[10];
     v_[180] = v_[197] * 0.038686875 + v_[199] * -0.00751 + (0 - v_[234]) * -0.000829 + v_[180] * 1.5e-05;
     v_[197] = (0 - v_[199]) * 0.000198;
     v_[314] = v_[198] + v_[197] - v_[314];
     v_[314] = v_[245] * v_[265] + v_[341] * v_[89] + v_[238] * v_[135] + v_[333] * v_[82] + v_[297] * v_[287] +
               v_[175] * v_[91] + v_[279] * v_[211] + v_[180] * v_[85] + v_[243] * v_[206] + v_[243] * v_[206] +
-              v_[314] * v_[87] + v_[314] * v_[87] + v_[156] * w_in[5];
+              v_[314] * v_[87] + v_[314] * v_[87] + v_[156] * x_in[11];
     v_[197] = 0 - v_[197] - v_[321];
     v_[197] = v_[228] * v_[265] + v_[168] * v_[89] + v_[131] * v_[256] + v_[187] * v_[94] + v_[1] * v_[287] +
               v_[338] * v_[91] + v_[279] * v_[206] + v_[180] * v_[87] + v_[323] * v_[211] + v_[323] * v_[211] +
-              v_[197] * v_[85] + v_[197] * v_[85] - v_[162] * w_in[5];
+              v_[197] * v_[85] + v_[197] * v_[85] - v_[162] * x_in[11];
     v_[180] = v_[190] * 0.057838 + v_[165] * -0.001243 + (0 - v_[199]) * -0.008386 + (0 - v_[332]) * -0.001387;
     v_[338] = v_[199] * -0.012652;
     v_[200] = v_[95] - v_[200] - v_[338];
     v_[200] = v_[157] * -0.184 + v_[314] * v_[77] + v_[197] * v_[76] + v_[124] * v_[285] + v_[152] * v_[64] +
               v_[120] * v_[201] + v_[325] * v_[69] + v_[294] * v_[218] + v_[180] * v_[71] + v_[277] * v_[287] +
               v_[223] * v_[58] + v_[282] * v_[308] + v_[282] * v_[308] + v_[200] * v_[55] + v_[200] * v_[55] -
-              v_[127] * w_in[4];
+              v_[127] * x_in[10];
     hes[28] = 0 -
               (v_[330] * v_[73] + v_[202] * v_[106] + v_[340] * v_[258] + v_[195] * v_[92] + v_[140] * v_[209] +
                   v_[189] * v_[66] + v_[273] * v_[215] + v_[127] * v_[34] + v_[150] * v_[158] + v_[317] * v_[44] +
@@ -1300,7 +1300,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[345] = v_[317] * v_[68] + v_[336] * v_[61] + v_[241] * v_[52] + v_[200] * v_[53] + v_[343] * v_[133] +
               v_[328] * v_[46] + v_[239] * v_[285] + v_[255] * v_[64] + v_[237] * v_[114] + v_[252] * v_[47] +
               v_[233] * v_[218] + v_[126] * v_[32] + v_[170] * v_[214] + v_[170] * v_[214] + v_[345] * v_[35] +
-              v_[345] * v_[35] + v_[229] * w_in[3];
+              v_[345] * v_[35] + v_[229] * x_in[9];
     v_[338] = v_[338] + v_[315];
     v_[338] = v_[157] * 0.02075 + v_[314] * v_[86] + v_[197] * v_[77] + v_[182] * v_[201] + v_[313] * v_[69] +
               v_[119] * v_[137] + v_[144] * v_[80] + v_[212] * v_[287] + v_[159] * v_[58] + v_[294] * v_[308] +
@@ -1314,7 +1314,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[121] = v_[150] + v_[225] - v_[121] - v_[271];
     v_[121] = v_[338] + v_[319] * v_[133] + v_[301] * v_[46] + v_[240] * v_[158] + v_[142] * v_[44] +
               v_[257] * v_[114] + v_[22] * v_[47] + v_[233] * v_[214] + v_[126] * v_[35] + v_[227] * v_[218] +
-              v_[227] * v_[218] + v_[121] * v_[32] + v_[121] * v_[32] - v_[151] * w_in[3];
+              v_[227] * v_[218] + v_[121] * v_[32] + v_[121] * v_[32] - v_[151] * x_in[9];
     v_[338] = (0 - v_[24]) * -0.0055615274403 + v_[188] * 0.01438086;
     v_[126] = 0 - v_[338];
     v_[301] = v_[8] * 0.647967112 + v_[24] * 5.399998e-05 + v_[188] * -0.199538951;
@@ -1329,7 +1329,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[8] * -0.647967112 + v_[24] * 5.399998e-05 + v_[188] * 0.20236395;
     v_[319] = v_[295] * -0.304 + v_[345] * v_[28] + v_[121] * v_[30] + v_[146] * v_[192] + v_[126] * v_[39] +
               v_[301] * v_[23] + v_[123] * v_[331] + v_[133] * v_[12] + v_[50] * v_[289] + v_[50] * v_[289] +
-              v_[319] * v_[15] + v_[319] * v_[15] + v_[253] * w_in[2];
+              v_[319] * v_[15] + v_[319] * v_[15] + v_[253] * x_in[8];
     v_[50] = -v_[23] * v_[192];
     v_[127] = 0.160298259823722 * v_[219] + -1.52322944854339e-09 * v_[213] + 1.7423722 * v_[209] +
               -1.7423722 * (v_[226] - v_[280]) + 0.160298259823722 * v_[222] + 1.52322944854339e-09 * v_[51] +
@@ -1343,11 +1343,11 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               0.647967112 * v_[236] + v_[28] * v_[127] + v_[30] * v_[104] - 0.01438086 * v_[221];
     v_[328] = 0 - v_[328];
     v_[142] = v_[317] * v_[52] + v_[336] * v_[53] + v_[101] * v_[114] + v_[328] * v_[47] + v_[240] * v_[218] +
-              v_[142] * v_[32] + v_[335] * w_in[3];
+              v_[142] * v_[32] + v_[335] * x_in[9];
     v_[155] = 0 - v_[191] + v_[163] - v_[155];
     v_[255] = v_[186] * v_[79] + v_[176] * v_[77] + v_[130] * v_[287] + v_[348] * v_[58] + v_[124] * v_[308] +
               v_[152] * v_[55] + v_[327] * v_[114] + v_[155] * v_[47] + v_[239] * v_[214] + v_[255] * v_[35] -
-              v_[320] * w_in[3];
+              v_[320] * x_in[9];
     hes[27] = 0 -
               (v_[235] * v_[127] + v_[8] * v_[112] + v_[342] * v_[63] + v_[267] * v_[210] + v_[24] * v_[100] +
                   v_[298] * v_[164] + v_[320] * v_[41] + v_[335] * v_[7] + v_[250] * v_[306] + v_[151] * v_[14] +
@@ -1368,12 +1368,12 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[63] = 0 - (v_[25] * 2.327 + v_[24] * 0.647967112);
     v_[194] = v_[194] * -1 + v_[25] * 2.327 + v_[24] * 0.647967112;
     v_[210] = v_[142] * v_[28] + v_[255] * v_[30] + v_[63] * v_[23] + v_[231] * v_[331] + v_[338] * v_[12] +
-              v_[194] * w_in[2];
+              v_[194] * x_in[8];
     v_[291] = v_[289] * v_[15] + v_[15] * v_[289];
     v_[339] = 0.647967112 * v_[306] + 2.327 * v_[284] + 2.327 * v_[276] + 0.647967112 * v_[75] + 0.01438086 * v_[117] +
               -1 * v_[339] - -0.0055615274403 * v_[291];
     v_[276] = 0 - (v_[8] * -2.327 + v_[188] * 0.647967112);
-    v_[126] = v_[295] * -1 + v_[276] * v_[23] + v_[146] * v_[289] + v_[126] * v_[15] - v_[329] * w_in[2];
+    v_[126] = v_[295] * -1 + v_[276] * v_[23] + v_[146] * v_[289] + v_[126] * v_[15] - v_[329] * x_in[8];
     v_[291] =
         5.399998e-05 * v_[306] + 0.20236395 * v_[242] + -0.647967112 * v_[164] + 0.01438086 * v_[110] +
         0.647967112 * v_[50] + -0.199538951 * v_[236] + -0.011715295 * v_[117] + v_[43] * v_[127] + v_[42] * v_[104] +
@@ -1395,24 +1395,24 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[158] = v_[320] - v_[220];
     v_[158] = v_[142] * v_[43] + v_[255] * v_[42] + v_[271] * -1 + v_[231] * v_[288] + v_[338] * v_[21] +
               v_[335] * v_[23] + v_[123] * v_[289] + v_[133] * v_[15] + v_[115] * v_[331] + v_[115] * v_[331] +
-              v_[158] * v_[12] + v_[158] * v_[12] - v_[179] * w_in[2];
+              v_[158] * v_[12] + v_[158] * v_[12] - v_[179] * x_in[8];
     hes[26] =
         (0 - (v_[216] * v_[109] + v_[292] * v_[17] + v_[249] * v_[3] + v_[48] * v_[5] +
-                 (w_in[7] * v_[111] + v_[296] * w_in[1]) * 0.112 +
+                 (w_in[1] * v_[111] + v_[296] * x_in[7]) * 0.112 +
                  (v_[216] * v_[84] + v_[278] * v_[3] + v_[305] * v_[5]) * 0.112 -
-                 (w_in[7] * v_[105] + v_[116] * w_in[1]))) *
+                 (w_in[1] * v_[105] + v_[116] * x_in[7]))) *
             v_[9] -
         (v_[216] * v_[27] + v_[329] * v_[17] + v_[179] * v_[3] + v_[319] * v_[5] +
-            (w_in[7] * v_[221] + v_[210] * w_in[1]) * 0.112 +
-            (v_[216] * v_[339] + v_[194] * v_[3] + v_[126] * v_[5]) * 0.112 - (w_in[7] * v_[291] + v_[158] * w_in[1])) *
+            (w_in[1] * v_[221] + v_[210] * x_in[7]) * 0.112 +
+            (v_[216] * v_[339] + v_[194] * v_[3] + v_[126] * v_[5]) * 0.112 - (w_in[1] * v_[291] + v_[158] * x_in[7])) *
             v_[203] +
-        (w_in[7] * v_[27] + v_[216] * v_[291] + v_[194] * v_[17] + v_[253] * v_[3] + v_[319] * w_in[1] +
+        (w_in[1] * v_[27] + v_[216] * v_[291] + v_[194] * v_[17] + v_[253] * v_[3] + v_[319] * x_in[7] +
             v_[158] * v_[5] + (v_[216] * v_[221] + v_[329] * v_[3] + v_[210] * v_[5]) * -0.112 +
-            (w_in[7] * v_[339] + v_[126] * w_in[1]) * 0.112) *
+            (w_in[1] * v_[339] + v_[126] * x_in[7]) * 0.112) *
             v_[251] -
-        (w_in[7] * v_[109] + v_[216] * v_[105] + v_[278] * v_[17] + v_[208] * v_[3] + v_[48] * w_in[1] +
+        (w_in[1] * v_[109] + v_[216] * v_[105] + v_[278] * v_[17] + v_[208] * v_[3] + v_[48] * x_in[7] +
             v_[116] * v_[5] + (v_[216] * v_[111] + v_[292] * v_[3] + v_[296] * v_[5]) * -0.112 +
-            (w_in[7] * v_[84] + v_[305] * w_in[1]) * 0.112) *
+            (w_in[1] * v_[84] + v_[305] * x_in[7]) * 0.112) *
             v_[10];
     v_[291] = v_[350] * v_[286] + v_[199] * v_[93] + v_[322] * v_[262] + v_[204] * v_[57] + v_[129] * v_[287] +
               v_[186] * v_[58];
@@ -1446,23 +1446,23 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[194] = v_[292] * v_[275] + v_[329] * v_[19] + v_[278] * v_[244] + v_[194] * v_[18] + v_[249] * v_[128] +
               v_[179] * v_[9] + v_[208] * v_[251] + v_[253] * v_[10];
     hes[30] = (v_[296] * v_[275] + v_[210] * v_[19] + v_[305] * v_[244] + v_[126] * v_[18] + v_[48] * v_[128] +
-                  v_[319] * v_[9] + v_[116] * v_[251] + v_[158] * v_[10] + v_[229] * w_in[1]) *
+                  v_[319] * v_[9] + v_[116] * v_[251] + v_[158] * v_[10] + v_[229] * x_in[7]) *
                   v_[4] +
-              (v_[220] - v_[194] * w_in[1]) * v_[0];
+              (v_[220] - v_[194] * x_in[7]) * v_[0];
     hes[31] = v_[296] * v_[283] + v_[210] * v_[20] + v_[305] * v_[178] + v_[126] * v_[38] + v_[48] * v_[251] +
               v_[319] * v_[10] + v_[116] * v_[230] + v_[158] * v_[11] + v_[194] * v_[2] + v_[229] * v_[5];
-    v_[194] = w_in[6] * v_[4];
-    v_[229] = w_in[7] * v_[20] + v_[194] * v_[19];
-    v_[158] = w_in[8] + w_in[6] * v_[0];
-    v_[126] = w_in[7] * v_[10] + v_[194] * v_[9];
-    v_[210] = (w_in[7] * v_[38] + v_[194] * v_[18]) * -1 + v_[126] * -0.304;
-    v_[194] = w_in[7] * v_[11] + v_[194] * v_[10];
+    v_[194] = w_in[0] * v_[4];
+    v_[229] = w_in[1] * v_[20] + v_[194] * v_[19];
+    v_[158] = w_in[2] + w_in[0] * v_[0];
+    v_[126] = w_in[1] * v_[10] + v_[194] * v_[9];
+    v_[210] = (w_in[1] * v_[38] + v_[194] * v_[18]) * -1 + v_[126] * -0.304;
+    v_[194] = w_in[1] * v_[11] + v_[194] * v_[10];
     v_[319] = v_[229] * v_[28] + v_[194] * v_[43];
-    v_[178] = w_in[9] + v_[194] * -1;
+    v_[178] = w_in[3] + v_[194] * -1;
     v_[283] = v_[158] * v_[31] + v_[126] * v_[28];
     v_[230] = v_[210] * v_[53] + v_[319] * v_[52] + v_[178] * v_[67] + v_[283] * v_[68];
     v_[116] = v_[158] * v_[28] + v_[126] * v_[30];
-    v_[305] = w_in[10] + v_[116];
+    v_[305] = w_in[4] + v_[116];
     v_[296] = v_[178] * v_[54] + v_[283] * v_[53];
     v_[48] = v_[230] + v_[305] * 0.02075 + v_[296] * -0.184;
     v_[251] = v_[305] * v_[86] + v_[296] * v_[77];
@@ -1472,7 +1472,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[128] = v_[210] * v_[62] + v_[319] * v_[53] + v_[178] * v_[60] + v_[283] * v_[61];
     v_[253] = v_[178] * v_[53] + v_[283] * v_[52];
     v_[179] = v_[244] * v_[79] + v_[128] * v_[77] + v_[253] * v_[78];
-    v_[329] = w_in[11] + v_[253];
+    v_[329] = w_in[5] + v_[253];
     v_[278] = v_[179] * 1.547475 + v_[329] * 0.038686875;
     v_[208] = v_[244] * v_[77] + v_[128] * v_[76] + v_[253] * v_[81];
     v_[249] = v_[208] * 1.547475;
@@ -1501,21 +1501,21 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[337] = v_[128] * 2.1032 + v_[253] * 0.057838;
     v_[349] = 0 - v_[337];
     v_[132] = v_[244] * 2.1032;
-    v_[39] = v_[246] + v_[349] * v_[71] + v_[132] * v_[55] + v_[292] * w_in[4];
+    v_[39] = v_[246] + v_[349] * v_[71] + v_[132] * v_[55] + v_[292] * x_in[10];
     v_[320] = 0 - v_[121];
     v_[233] = v_[48] * 1.547475 + (0 - v_[251]) * 0.038686875;
-    v_[227] = v_[320] * v_[91] + v_[233] * v_[85] + v_[249] * w_in[5];
+    v_[227] = v_[320] * v_[91] + v_[233] * v_[85] + v_[249] * x_in[11];
     v_[192] = 0 - v_[345] + v_[192];
     v_[345] = 0 - v_[233];
-    v_[151] = v_[192] * v_[91] + v_[345] * v_[87] - v_[278] * w_in[5];
+    v_[151] = v_[192] * v_[91] + v_[345] * v_[87] - v_[278] * x_in[11];
     v_[188] = v_[230] * -2.1032 + v_[296] * 0.057838;
     v_[8] = 0 - v_[188];
     v_[24] = 0 - v_[132];
-    v_[25] = v_[227] * v_[77] + v_[151] * v_[76] + v_[8] * v_[71] + v_[24] * v_[58] - v_[275] * w_in[4];
+    v_[25] = v_[227] * v_[77] + v_[151] * v_[76] + v_[8] * v_[71] + v_[24] * v_[58] - v_[275] * x_in[10];
     v_[199] = v_[244] * 1.7423722 + (0 - v_[178]) * -0.008711861 + v_[283] * 1.52322944854339e-09;
     v_[291] = 0 - v_[199];
     v_[197] = v_[210] * 1.7423722 + (0 - v_[283]) * 0.160298259823722 + v_[116] * -0.008711861;
-    v_[314] = v_[39] * v_[52] + v_[25] * v_[53] + v_[291] * v_[47] + v_[197] * v_[32] + v_[288] * w_in[3];
+    v_[314] = v_[39] * v_[52] + v_[25] * v_[53] + v_[291] * v_[47] + v_[197] * v_[32] + v_[288] * x_in[9];
     v_[176] = (0 - v_[329]) * 1.5e-05 + v_[251] * 0.000198 + v_[289] * 0.00605;
     v_[48] = v_[48] * 0.038686875 + v_[329] * -0.000829 + (0 - v_[251]) * -0.00146 + (0 - v_[289]) * 0.000198;
     v_[208] = (0 - v_[208]) * 0.038686875;
@@ -1530,20 +1530,20 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[332] = v_[204] + v_[190] - v_[334];
     v_[165] = v_[320] * v_[94] + v_[192] * v_[82] + v_[176] * v_[87] + v_[48] * v_[85] + v_[162] * v_[91] +
               v_[162] * v_[91] + v_[227] * v_[78] + v_[151] * v_[81] + v_[337] * v_[64] + v_[24] * v_[80] +
-              v_[230] * v_[71] + v_[196] * v_[55] + v_[332] * v_[58] + v_[332] * v_[58] + v_[63] * w_in[4];
+              v_[230] * v_[71] + v_[196] * v_[55] + v_[332] * v_[58] + v_[332] * v_[58] + v_[63] * x_in[10];
     v_[289] = v_[179] * 0.038686875 + v_[329] * -0.00751 + (0 - v_[251]) * -0.000829 + v_[289] * 1.5e-05;
     v_[329] = (0 - v_[329]) * 0.000198;
     v_[156] = v_[208] + v_[329] - v_[156];
     v_[208] = v_[121] * v_[89] + v_[345] * v_[82] + v_[176] * v_[91] + v_[289] * v_[85] + v_[156] * v_[87] +
-              v_[156] * v_[87] + v_[276] * w_in[5];
+              v_[156] * v_[87] + v_[276] * x_in[11];
     v_[329] = 0 - v_[329] - v_[186];
     v_[186] = v_[331] * v_[89] + v_[233] * v_[94] + v_[48] * v_[91] + v_[289] * v_[87] + v_[329] * v_[85] +
-              v_[329] * v_[85] - v_[335] * w_in[5];
+              v_[329] * v_[85] - v_[335] * x_in[11];
     v_[179] = v_[128] * 0.057838 + v_[305] * -0.001243 + (0 - v_[253]) * -0.008386 + (0 - v_[296]) * -0.001387;
     v_[251] = v_[253] * -0.012652;
     v_[190] = v_[204] - v_[190] - v_[251];
     v_[204] = v_[246] * -0.184 + v_[208] * v_[77] + v_[186] * v_[76] + v_[188] * v_[64] + v_[132] * v_[69] +
-              v_[179] * v_[71] + v_[196] * v_[58] + v_[190] * v_[55] + v_[190] * v_[55] - v_[307] * w_in[4];
+              v_[179] * v_[71] + v_[196] * v_[58] + v_[190] * v_[55] + v_[190] * v_[55] - v_[307] * x_in[10];
     v_[88] = 0 - v_[197];
     v_[26] = v_[210] * -0.008711861 + v_[319] * 1.52322944854339e-09 + (0 - v_[178]) * -0.00021200017 +
              v_[283] * 0.0036857284 + v_[116] * 0.077424;
@@ -1554,7 +1554,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[136] = v_[286] + (0 - v_[244]) * 0.160298259823722 + v_[137] - (0 - v_[116]) * -0.0022920002;
     v_[285] = v_[39] * v_[68] + v_[25] * v_[61] + v_[165] * v_[52] + v_[204] * v_[53] + v_[199] * v_[46] +
               v_[88] * v_[64] + v_[26] * v_[47] + v_[224] * v_[32] + v_[136] * v_[35] + v_[136] * v_[35] +
-              v_[220] * w_in[3];
+              v_[220] * x_in[9];
     v_[251] = v_[251] + v_[334];
     v_[334] = v_[319] * -1.7423722;
     v_[281] = v_[178] * 0.160298259823722;
@@ -1566,36 +1566,36 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[246] = v_[246] * 0.02075 + v_[208] * v_[86] + v_[186] * v_[77] + v_[349] * v_[69] + v_[8] * v_[80] +
               v_[230] * v_[58] + v_[179] * v_[55] + v_[251] * v_[71] + v_[251] * v_[71] + v_[134] * v_[46] +
               v_[197] * v_[44] + v_[116] * v_[47] + v_[224] * v_[35] + v_[137] * v_[32] + v_[137] * v_[32] -
-              v_[301] * w_in[3];
+              v_[301] * x_in[9];
     v_[286] = 0 - v_[309];
     v_[213] = -v_[161];
     v_[218] = v_[286] * v_[15] + v_[213] * v_[23];
-    v_[290] = v_[286] * v_[6] + v_[161] * v_[14] + v_[218] * w_in[3];
+    v_[290] = v_[286] * v_[6] + v_[161] * v_[14] + v_[218] * x_in[9];
     v_[304] = -0.304 * v_[286];
     v_[125] = -0.304 * v_[161];
     v_[129] = v_[125] * v_[12] + v_[161] * v_[21];
     v_[259] = -v_[129];
-    v_[269] = (-v_[161]) * v_[7] + v_[286] * v_[41] + v_[304] * v_[16] + v_[259] * w_in[3];
+    v_[269] = (-v_[161]) * v_[7] + v_[286] * v_[41] + v_[304] * v_[16] + v_[259] * x_in[9];
     v_[302] = v_[161] * v_[15] + v_[286] * v_[23];
     v_[322] = v_[302] * v_[46];
     v_[347] = v_[47] * v_[129];
     v_[326] = v_[302] * v_[35] + v_[32] * v_[218];
     v_[96] = v_[218] * v_[47];
     v_[207] = -v_[302];
-    v_[287] = v_[213] * v_[6] + v_[286] * v_[14] + v_[207] * w_in[3];
+    v_[287] = v_[213] * v_[6] + v_[286] * v_[14] + v_[207] * x_in[9];
     v_[262] = v_[304] * v_[12] + v_[286] * v_[21];
     v_[350] = v_[61] * v_[218] + v_[53] * v_[262];
     v_[339] = -v_[350];
-    v_[221] = v_[68] * v_[287] + v_[52] * v_[269] + v_[339] * w_in[4];
+    v_[221] = v_[68] * v_[287] + v_[52] * v_[269] + v_[339] * x_in[10];
     v_[27] = v_[52] * v_[218];
-    v_[216] = v_[53] * v_[287] + v_[27] * w_in[4];
+    v_[216] = v_[53] * v_[287] + v_[27] * x_in[10];
     v_[203] = v_[27] * v_[71] + v_[58] * v_[302];
     v_[84] = v_[53] * v_[218];
     v_[111] = v_[84] * v_[64] + v_[55] * v_[129] - (v_[302] * v_[80] + v_[71] * v_[350]);
     v_[105] = 0.02075 * v_[290] + -0.184 * v_[216] + v_[221];
     v_[109] = v_[76] * v_[84] + v_[77] * v_[302];
     v_[17] = -v_[109];
-    v_[3] = v_[86] * v_[290] + v_[77] * v_[216] + v_[17] * w_in[5];
+    v_[3] = v_[86] * v_[290] + v_[77] * v_[216] + v_[17] * x_in[11];
     v_[271] = v_[109] * v_[91] + v_[85] * v_[27];
     v_[255] = v_[79] * v_[129] + v_[77] * v_[350] + v_[78] * v_[27];
     v_[142] = v_[77] * v_[84] + v_[86] * v_[302];
@@ -1604,14 +1604,14 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[115] = 1.547475 * v_[105] + -0.038686875 * v_[3] + 0.038686875 * v_[271] + 1.547475 * v_[338];
     v_[123] = 2.1032 * v_[221] + -0.057838 * v_[216] + 0.057838 * v_[203] + -2.1032 * v_[111] + v_[115];
     v_[231] = v_[68] * v_[218] + v_[52] * v_[262];
-    v_[214] = v_[61] * v_[287] + v_[53] * v_[269] + v_[231] * w_in[4];
+    v_[214] = v_[61] * v_[287] + v_[53] * v_[269] + v_[231] * x_in[10];
     v_[217] = -v_[84];
-    v_[300] = v_[52] * v_[287] + v_[217] * w_in[4];
+    v_[300] = v_[52] * v_[287] + v_[217] * x_in[10];
     v_[250] = v_[84] * v_[71] + v_[55] * v_[302];
     v_[293] = v_[27] * v_[64] + v_[58] * v_[129] - (v_[302] * v_[69] + v_[71] * v_[231]);
-    v_[298] = v_[286] * v_[7] + v_[161] * v_[41] + v_[125] * v_[16] + v_[262] * w_in[3];
+    v_[298] = v_[286] * v_[7] + v_[161] * v_[41] + v_[125] * v_[16] + v_[262] * x_in[9];
     v_[155] = -v_[133];
-    v_[328] = v_[79] * v_[298] + v_[77] * v_[214] + v_[78] * v_[300] + v_[155] * w_in[5];
+    v_[328] = v_[79] * v_[298] + v_[77] * v_[214] + v_[78] * v_[300] + v_[155] * x_in[11];
     v_[22] = v_[109] * v_[87] + v_[85] * v_[142];
     v_[252] = 0.02075 * v_[302] + -0.184 * v_[84] + v_[231];
     v_[200] = v_[109] * v_[89] + v_[85] * v_[252];
@@ -1620,7 +1620,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[317] = v_[27] * v_[91] + v_[91] * v_[27];
     v_[114] = v_[142] * v_[87] + v_[87] * v_[142];
     v_[154] = 1.547475 * (v_[142] * v_[89] + v_[87] * v_[252] - (v_[27] * v_[94] + v_[91] * v_[255])) +
-              1.547475 * (v_[77] * v_[298] + v_[76] * v_[214] + v_[81] * v_[300] + v_[255] * w_in[5]) -
+              1.547475 * (v_[77] * v_[298] + v_[76] * v_[214] + v_[81] * v_[300] + v_[255] * x_in[11]) -
               0.038686875 * (v_[317] + v_[114]);
     v_[327] = 2.1032 * v_[214] + 0.057838 * v_[300] + 0.057838 * v_[250] + 2.1032 * v_[293] + v_[77] * v_[336] +
               v_[76] * v_[154];
@@ -1630,7 +1630,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               -0.008711861 * v_[101];
     v_[237] = v_[302] * v_[44] + v_[32] * v_[262] - (v_[218] * v_[64] + v_[35] * v_[129]);
     v_[225] = v_[84] * v_[58] + v_[55] * v_[27];
-    v_[330] = v_[77] * v_[290] + v_[76] * v_[216] + v_[142] * w_in[5];
+    v_[330] = v_[77] * v_[290] + v_[76] * v_[216] + v_[142] * x_in[11];
     v_[340] = v_[142] * v_[91] + v_[87] * v_[27];
     v_[104] = v_[109] * v_[85] + v_[85] * v_[109];
     v_[338] = -0.000829 * v_[300] + 0.003227 * v_[3] + 0.000198 * v_[330] + -0.038686875 * v_[105] +
@@ -1700,23 +1700,23 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[51] = v_[114] * 2.1032 + v_[241] * 0.057838;
     v_[49] = 0 - v_[51];
     v_[164] = v_[330] * 2.1032;
-    v_[215] = v_[310] + v_[349] * v_[302] + v_[49] * v_[71] + v_[132] * v_[84] + v_[164] * v_[55] + v_[271] * w_in[4];
+    v_[215] = v_[310] + v_[349] * v_[302] + v_[49] * v_[71] + v_[132] * v_[84] + v_[164] * v_[55] + v_[271] * x_in[10];
     v_[219] = 0 - v_[73];
     v_[236] = v_[111] * 1.547475 + (0 - v_[203]) * 0.038686875;
-    v_[242] = v_[320] * v_[27] + v_[219] * v_[91] + v_[233] * v_[109] + v_[236] * v_[85] + v_[293] * w_in[5];
+    v_[242] = v_[320] * v_[27] + v_[219] * v_[91] + v_[233] * v_[109] + v_[236] * v_[85] + v_[293] * x_in[11];
     v_[258] = 0 - v_[169] + v_[258];
     v_[169] = 0 - v_[236];
-    v_[306] = v_[192] * v_[27] + v_[258] * v_[91] + v_[345] * v_[142] + v_[169] * v_[87] - v_[22] * w_in[5];
+    v_[306] = v_[192] * v_[27] + v_[258] * v_[91] + v_[345] * v_[142] + v_[169] * v_[87] - v_[22] * x_in[11];
     v_[295] = v_[225] * -2.1032 + v_[115] * 0.057838;
     v_[146] = 0 - v_[295];
     v_[284] = 0 - v_[164];
     v_[145] = v_[242] * v_[77] + v_[306] * v_[76] + v_[8] * v_[302] + v_[146] * v_[71] + v_[24] * v_[27] +
-              v_[284] * v_[58] - v_[340] * w_in[4];
+              v_[284] * v_[58] - v_[340] * x_in[10];
     v_[173] = v_[330] * 1.7423722 + v_[96] * 1.52322944854339e-09;
     v_[183] = 0 - v_[173];
     v_[342] = (0 - v_[96]) * 0.160298259823722 + v_[250] * -0.008711861;
     v_[272] = v_[215] * v_[52] + v_[145] * v_[53] + v_[183] * v_[47] + v_[197] * v_[302] + v_[342] * v_[32] +
-              v_[110] * w_in[3];
+              v_[110] * x_in[9];
     v_[235] = (0 - v_[241]) * 1.5e-05 + v_[203] * 0.000198 + v_[205] * 0.00605;
     v_[111] = v_[111] * 0.038686875 + v_[241] * -0.000829 + (0 - v_[203]) * -0.00146 + (0 - v_[205]) * 0.000198;
     v_[328] = (0 - v_[328]) * 0.038686875;
@@ -1736,24 +1736,24 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[162] = v_[17] + v_[258] - v_[219];
     v_[162] = v_[348] + v_[242] * v_[78] + v_[306] * v_[81] + v_[337] * v_[129] + v_[51] * v_[64] + v_[24] * v_[350] +
               v_[284] * v_[80] + v_[230] * v_[302] + v_[225] * v_[71] + v_[196] * v_[84] + v_[155] * v_[55] +
-              v_[332] * v_[27] + v_[332] * v_[27] + v_[162] * v_[58] + v_[162] * v_[58] + v_[113] * w_in[4];
+              v_[332] * v_[27] + v_[332] * v_[27] + v_[162] * v_[58] + v_[162] * v_[58] + v_[113] * x_in[10];
     v_[205] = v_[200] * 0.038686875 + v_[241] * -0.00751 + (0 - v_[203]) * -0.000829 + v_[205] * 1.5e-05;
     v_[200] = (0 - v_[241]) * 0.000198;
     v_[152] = v_[328] + v_[200] - v_[152];
     v_[152] = v_[121] * v_[252] + v_[73] * v_[89] + v_[345] * v_[133] + v_[169] * v_[82] + v_[176] * v_[27] +
               v_[235] * v_[91] + v_[289] * v_[109] + v_[205] * v_[85] + v_[156] * v_[142] + v_[156] * v_[142] +
-              v_[152] * v_[87] + v_[152] * v_[87] + v_[222] * w_in[5];
+              v_[152] * v_[87] + v_[152] * v_[87] + v_[222] * x_in[11];
     v_[200] = 0 - v_[200] - v_[267];
     v_[200] = v_[331] * v_[252] + v_[209] * v_[89] + v_[233] * v_[255] + v_[236] * v_[94] + v_[48] * v_[27] +
               v_[111] * v_[91] + v_[289] * v_[142] + v_[205] * v_[87] + v_[329] * v_[109] + v_[329] * v_[109] +
-              v_[200] * v_[85] + v_[200] * v_[85] - v_[226] * w_in[5];
+              v_[200] * v_[85] + v_[200] * v_[85] - v_[226] * x_in[11];
     v_[205] = v_[114] * 0.057838 + v_[250] * -0.001243 + (0 - v_[241]) * -0.008386 + (0 - v_[115]) * -0.001387;
     v_[111] = v_[241] * -0.012652;
     v_[258] = v_[17] - v_[258] - v_[111];
     v_[258] = v_[310] * -0.184 + v_[152] * v_[77] + v_[200] * v_[76] + v_[188] * v_[129] + v_[295] * v_[64] +
               v_[132] * v_[231] + v_[164] * v_[69] + v_[179] * v_[302] + v_[205] * v_[71] + v_[196] * v_[27] +
               v_[155] * v_[58] + v_[190] * v_[84] + v_[190] * v_[84] + v_[258] * v_[55] + v_[258] * v_[55] -
-              v_[280] * w_in[4];
+              v_[280] * x_in[10];
     hes[40] =
         0 -
         (v_[319] * v_[123] + v_[101] * v_[106] + v_[283] * v_[104] + v_[96] * v_[92] + v_[275] * v_[269] +
@@ -1783,7 +1783,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[204] = v_[123] - v_[269];
     v_[204] = v_[215] * v_[68] + v_[145] * v_[61] + v_[162] * v_[52] + v_[258] * v_[53] + v_[173] * v_[46] +
               v_[88] * v_[129] + v_[75] * v_[64] + v_[104] * v_[47] + v_[224] * v_[302] + v_[327] * v_[32] +
-              v_[136] * v_[218] + v_[136] * v_[218] + v_[204] * v_[35] + v_[204] * v_[35] + v_[221] * w_in[3];
+              v_[136] * v_[218] + v_[136] * v_[218] + v_[204] * v_[35] + v_[204] * v_[35] + v_[221] * x_in[9];
     v_[111] = v_[111] + v_[219];
     v_[111] = v_[310] * 0.02075 + v_[152] * v_[86] + v_[200] * v_[77] + v_[349] * v_[231] + v_[49] * v_[69] +
               v_[8] * v_[350] + v_[146] * v_[80] + v_[230] * v_[27] + v_[225] * v_[58] + v_[179] * v_[84] +
@@ -1799,17 +1799,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[205] = v_[292] - v_[275];
     v_[205] = v_[111] + v_[63] * v_[46] + v_[197] * v_[262] + v_[342] * v_[44] + v_[307] * v_[47] + v_[224] * v_[218] +
               v_[327] * v_[35] + v_[137] * v_[302] + v_[137] * v_[302] + v_[205] * v_[32] + v_[205] * v_[32] -
-              v_[160] * w_in[3];
+              v_[160] * x_in[9];
     v_[322] = 1.52322944854339e-09 * v_[287] + 1.7423722 * v_[298] + 1.7423722 * v_[322] +
               1.52322944854339e-09 * v_[50] + -0.008711861 * v_[326] +
               2.1032 * (v_[84] * v_[69] + v_[55] * v_[231] - (v_[27] * v_[80] + v_[58] * v_[350])) + 2.1032 * v_[298] +
               v_[79] * v_[336] + v_[77] * v_[154] - 0.160298259823722 * v_[117] - 0.057838 * (v_[105] + v_[127]);
     v_[339] = 0 - v_[217] - v_[339];
     v_[75] = v_[242] * v_[79] + v_[306] * v_[77] + v_[337] * v_[27] + v_[51] * v_[58] + v_[188] * v_[84] +
-             v_[295] * v_[55] + v_[339] * v_[47] + v_[88] * v_[218] + v_[75] * v_[35] - v_[3] * w_in[3];
+             v_[295] * v_[55] + v_[339] * v_[47] + v_[88] * v_[218] + v_[75] * v_[35] - v_[3] * x_in[9];
     v_[308] = 0 - v_[334] + v_[281] - v_[308];
     v_[88] = v_[227] * v_[79] + v_[151] * v_[77] + v_[337] * v_[58] + v_[188] * v_[55] + v_[308] * v_[47] +
-             v_[88] * v_[35] - v_[122] * w_in[3];
+             v_[88] * v_[35] - v_[122] * x_in[9];
     hes[39] =
         (0 - (v_[229] * v_[112] + v_[158] * v_[108] + v_[126] * v_[100] + v_[122] * v_[41] + v_[288] * v_[7] +
                  v_[301] * v_[14] + v_[220] * v_[6] + v_[314] * v_[21] + v_[285] * v_[15] + v_[246] * v_[23] +
@@ -1850,17 +1850,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   v_[247];
     v_[241] = v_[340] * v_[53] + v_[271] * v_[62] + v_[96] * -0.160298259823722 + v_[250] * -0.008711861;
     v_[322] = v_[241] * -1;
-    v_[200] = v_[314] * v_[286] + v_[272] * v_[28] + v_[88] * v_[161] + v_[75] * v_[30] + v_[322] * w_in[2];
+    v_[200] = v_[314] * v_[286] + v_[272] * v_[28] + v_[88] * v_[161] + v_[75] * v_[30] + v_[322] * x_in[8];
     v_[63] = v_[215] * v_[53] + v_[145] * v_[62] + v_[199] * v_[218] + v_[173] * v_[35] + v_[134] * v_[302] +
              v_[63] * v_[32];
     v_[173] = v_[122] * v_[286] + v_[3] * v_[28] + v_[288] * v_[161] + v_[110] * v_[30];
-    v_[134] = v_[63] * -1 - v_[173] * w_in[2];
+    v_[134] = v_[63] * -1 - v_[173] * x_in[8];
     v_[113] = v_[122] * v_[304] + v_[3] * v_[43] + v_[288] * v_[125] + v_[110] * v_[42] +
               (v_[340] * v_[67] + v_[271] * v_[60] + v_[280] * v_[53] + v_[113] * v_[54] + v_[101] * 0.160298259823722 +
                   v_[330] * 0.008711861 + v_[96] * -0.0022920002 + v_[250] * -0.00021200017) *
                   -1;
     v_[63] = v_[63] * -0.304 + v_[285] * v_[286] + v_[204] * v_[28] + v_[246] * v_[161] + v_[205] * v_[30] +
-             v_[113] * w_in[2];
+             v_[113] * x_in[8];
     v_[275] = v_[292] + v_[123] + v_[275] + v_[269];
     v_[275] = v_[215] * v_[67] + v_[145] * v_[60] + v_[162] * v_[53] + v_[258] * v_[54] + v_[291] * v_[262] +
               v_[183] * v_[44] + v_[308] * v_[129] + v_[339] * v_[64] + v_[26] * v_[218] + v_[104] * v_[35] +
@@ -1869,26 +1869,26 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[160] * v_[33] + v_[220] * v_[218] + v_[221] * v_[35] + v_[275];
     v_[241] = v_[241] * -0.304 + v_[301] * v_[286] + v_[160] * v_[28] + v_[220] * v_[161] + v_[221] * v_[30];
     v_[275] =
-        v_[314] * v_[304] + v_[272] * v_[43] + v_[88] * v_[125] + v_[75] * v_[42] + v_[275] * -1 - v_[241] * w_in[2];
+        v_[314] * v_[304] + v_[272] * v_[43] + v_[88] * v_[125] + v_[75] * v_[42] + v_[275] * -1 - v_[241] * x_in[8];
     v_[221] = v_[301] * v_[213] + v_[160] * v_[31] + v_[220] * v_[286] + v_[221] * v_[28];
     v_[205] = v_[285] * v_[213] + v_[204] * v_[31] + v_[246] * v_[286] + v_[205] * v_[28];
     hes[44] = v_[173] * v_[40] + v_[322] * v_[21] + v_[241] * v_[13] + v_[113] * v_[15] + v_[205];
     v_[241] = v_[173] * v_[19] + v_[322] * v_[18] + v_[241] * v_[9] + v_[113] * v_[10];
-    hes[42] = (v_[200] * v_[19] + v_[134] * v_[18] + v_[63] * v_[9] + v_[275] * v_[10] + v_[221] * w_in[1]) * v_[4] +
-              (v_[205] - v_[241] * w_in[1]) * v_[0];
+    hes[42] = (v_[200] * v_[19] + v_[134] * v_[18] + v_[63] * v_[9] + v_[275] * v_[10] + v_[221] * x_in[7]) * v_[4] +
+              (v_[205] - v_[241] * x_in[7]) * v_[0];
     hes[43] =
         v_[200] * v_[20] + v_[134] * v_[38] + v_[63] * v_[10] + v_[275] * v_[11] + v_[241] * v_[2] + v_[221] * v_[5];
-    v_[241] = w_in[6] * v_[4];
-    v_[221] = w_in[7] * v_[20] + v_[241] * v_[19];
-    v_[275] = w_in[7] * v_[11] + v_[241] * v_[10];
+    v_[241] = w_in[0] * v_[4];
+    v_[221] = w_in[1] * v_[20] + v_[241] * v_[19];
+    v_[275] = w_in[1] * v_[11] + v_[241] * v_[10];
     v_[63] = v_[221] * v_[28] + v_[275] * v_[43];
-    v_[134] = w_in[8] + w_in[6] * v_[0];
-    v_[200] = w_in[7] * v_[10] + v_[241] * v_[9];
+    v_[134] = w_in[2] + w_in[0] * v_[0];
+    v_[200] = w_in[1] * v_[10] + v_[241] * v_[9];
     v_[205] = v_[134] * v_[31] + v_[200] * v_[28];
-    v_[241] = (w_in[7] * v_[38] + v_[241] * v_[18]) * -1 + v_[200] * -0.304;
-    v_[113] = w_in[9] + v_[275] * -1;
+    v_[241] = (w_in[1] * v_[38] + v_[241] * v_[18]) * -1 + v_[200] * -0.304;
+    v_[113] = w_in[3] + v_[275] * -1;
     v_[173] = v_[241] * v_[53] + v_[63] * v_[52] + v_[113] * v_[67] + v_[205] * v_[68];
-    v_[200] = w_in[10] + v_[134] * v_[28] + v_[200] * v_[30];
+    v_[200] = w_in[4] + v_[134] * v_[28] + v_[200] * v_[30];
     v_[134] = v_[113] * v_[54] + v_[205] * v_[53];
     v_[322] = v_[173] + v_[200] * 0.02075 + v_[134] * -0.184;
     v_[204] = v_[200] * v_[86] + v_[134] * v_[77];
@@ -1898,7 +1898,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[221] = v_[241] * v_[62] + v_[63] * v_[53] + v_[113] * v_[60] + v_[205] * v_[61];
     v_[246] = v_[113] * v_[53] + v_[205] * v_[52];
     v_[285] = v_[275] * v_[79] + v_[221] * v_[77] + v_[246] * v_[78];
-    v_[160] = w_in[11] + v_[246];
+    v_[160] = w_in[5] + v_[246];
     v_[220] = v_[200] * v_[77] + v_[134] * v_[76];
     v_[301] = v_[285] * 1.547475 + v_[160] * 0.038686875;
     v_[88] = v_[275] * v_[77] + v_[221] * v_[76] + v_[246] * v_[81];
@@ -1914,7 +1914,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[262] = 0 - v_[3];
     v_[207] = v_[275] * 2.1032;
     v_[259] = v_[301] * v_[77] + v_[75] * v_[76] + v_[221] * 2.1032 + v_[246] * 0.057838;
-    v_[218] = v_[110] + v_[262] * v_[71] + v_[207] * v_[55] + v_[259] * w_in[4];
+    v_[218] = v_[110] + v_[262] * v_[71] + v_[207] * v_[55] + v_[259] * x_in[10];
     v_[288] = 0 - v_[125];
     v_[314] = 0 - v_[304] + v_[314];
     v_[304] = (0 - v_[160]) * 1.5e-05 + v_[204] * 0.000198 + v_[220] * 0.00605;
@@ -1924,9 +1924,9 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[339] = (0 - v_[220]) * -0.000829;
     v_[307] = v_[88] + v_[308] + v_[339];
     v_[104] = v_[322] * 1.547475 + (0 - v_[204]) * 0.038686875;
-    v_[258] = v_[288] * v_[91] + v_[104] * v_[85] + v_[75] * w_in[5];
+    v_[258] = v_[288] * v_[91] + v_[104] * v_[85] + v_[75] * x_in[11];
     v_[162] = 0 - v_[104];
-    v_[183] = v_[314] * v_[91] + v_[162] * v_[87] - v_[301] * w_in[5];
+    v_[183] = v_[314] * v_[91] + v_[162] * v_[87] - v_[301] * x_in[11];
     v_[145] = 0 - v_[207];
     v_[215] = v_[173] * 0.057838 + (0 - v_[200]) * -0.012652 + v_[246] * -0.001387 + v_[134] * -0.018069;
     v_[302] = v_[200] * 0.009683 + (0 - v_[246]) * -0.001243 + v_[134] * -0.012652;
@@ -1939,22 +1939,22 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[246] * -0.001387 + v_[134] * 0.019432;
     v_[32] = v_[288] * v_[94] + v_[314] * v_[82] + v_[304] * v_[87] + v_[122] * v_[85] + v_[307] * v_[91] +
              v_[307] * v_[91] + v_[258] * v_[78] + v_[183] * v_[81] + v_[3] * v_[64] + v_[145] * v_[80] +
-             v_[215] * v_[71] + v_[302] * v_[55] + v_[26] * v_[58] + v_[26] * v_[58] + v_[213] * w_in[4];
+             v_[215] * v_[71] + v_[302] * v_[55] + v_[26] * v_[58] + v_[26] * v_[58] + v_[213] * x_in[10];
     v_[173] = v_[173] * -2.1032 + v_[134] * 0.057838;
     v_[292] = 0 - v_[173];
-    v_[269] = v_[258] * v_[77] + v_[183] * v_[76] + v_[292] * v_[71] + v_[145] * v_[58] - v_[286] * w_in[4];
+    v_[269] = v_[258] * v_[77] + v_[183] * v_[76] + v_[292] * v_[71] + v_[145] * v_[58] - v_[286] * x_in[10];
     v_[220] = v_[285] * 0.038686875 + v_[160] * -0.00751 + (0 - v_[204]) * -0.000829 + v_[220] * 1.5e-05;
     v_[160] = (0 - v_[160]) * 0.000198;
     v_[339] = v_[88] + v_[160] - v_[339];
     v_[88] = v_[125] * v_[89] + v_[162] * v_[82] + v_[304] * v_[91] + v_[220] * v_[85] + v_[339] * v_[87] +
-             v_[339] * v_[87] + v_[291] * w_in[5];
+             v_[339] * v_[87] + v_[291] * x_in[11];
     v_[160] = 0 - v_[160] - v_[308];
     v_[308] = v_[161] * v_[89] + v_[104] * v_[94] + v_[122] * v_[91] + v_[220] * v_[87] + v_[160] * v_[85] +
-              v_[160] * v_[85] - v_[322] * w_in[5];
+              v_[160] * v_[85] - v_[322] * x_in[11];
     v_[285] = v_[221] * 0.057838 + v_[200] * -0.001243 + (0 - v_[246]) * -0.008386 + (0 - v_[134]) * -0.001387;
     v_[116] = v_[129] - v_[116] - v_[246] * -0.012652;
     v_[110] = v_[110] * -0.184 + v_[88] * v_[77] + v_[308] * v_[76] + v_[173] * v_[64] + v_[207] * v_[69] +
-              v_[285] * v_[71] + v_[302] * v_[58] + v_[116] * v_[55] + v_[116] * v_[55] - v_[272] * w_in[4];
+              v_[285] * v_[71] + v_[302] * v_[58] + v_[116] * v_[55] + v_[116] * v_[55] - v_[272] * x_in[10];
     v_[129] = 0 - v_[177];
     v_[204] = 0.112 * v_[129];
     v_[123] = -0.112 * v_[318];
@@ -1963,17 +1963,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[330] = -v_[129];
     v_[340] = v_[280] * v_[47] + v_[271] * v_[35] + v_[330] * v_[46] + v_[318] * v_[44];
     v_[250] = -v_[340];
-    v_[96] = v_[204] * v_[29] + v_[123] * v_[34] + v_[318] * v_[37] + v_[129] * v_[66] + v_[250] * w_in[4];
+    v_[96] = v_[204] * v_[29] + v_[123] * v_[34] + v_[318] * v_[37] + v_[129] * v_[66] + v_[250] * x_in[10];
     v_[101] = -v_[129];
     v_[199] = v_[129] * v_[35] + v_[318] * v_[47];
-    v_[152] = v_[101] * v_[29] + v_[318] * v_[34] + v_[199] * w_in[4];
+    v_[152] = v_[101] * v_[29] + v_[318] * v_[34] + v_[199] * x_in[10];
     v_[306] = v_[199] * v_[71];
     v_[242] = v_[318] * v_[35] + v_[101] * v_[47];
     v_[222] = v_[242] * v_[64] - v_[71] * v_[340];
     v_[226] = -0.184 * v_[152] + v_[96];
     v_[293] = v_[76] * v_[242];
     v_[22] = -v_[293];
-    v_[114] = v_[77] * v_[152] + v_[22] * w_in[5];
+    v_[114] = v_[77] * v_[152] + v_[22] * x_in[11];
     v_[115] = v_[293] * v_[91] + v_[85] * v_[199];
     v_[317] = v_[77] * v_[340] + v_[78] * v_[199];
     v_[338] = v_[77] * v_[242];
@@ -1982,12 +1982,12 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[298] = 1.547475 * v_[226] + -0.038686875 * v_[114] + 0.038686875 * v_[115] + 1.547475 * v_[336];
     v_[214] = 2.1032 * v_[96] + -0.057838 * v_[152] + 0.057838 * v_[306] + -2.1032 * v_[222] + v_[298];
     v_[84] = -v_[242];
-    v_[216] = v_[318] * v_[29] + v_[129] * v_[34] + v_[84] * w_in[4];
+    v_[216] = v_[318] * v_[29] + v_[129] * v_[34] + v_[84] * x_in[10];
     v_[350] = v_[204] * v_[47] + v_[123] * v_[35] + v_[318] * v_[46] + v_[129] * v_[44];
-    v_[290] = v_[280] * v_[29] + v_[271] * v_[34] + v_[330] * v_[37] + v_[318] * v_[66] + v_[350] * w_in[4];
+    v_[290] = v_[280] * v_[29] + v_[271] * v_[34] + v_[330] * v_[37] + v_[318] * v_[66] + v_[350] * x_in[10];
     v_[186] = v_[199] * v_[64] - v_[71] * v_[350];
     v_[208] = -v_[154];
-    v_[151] = v_[77] * v_[290] + v_[78] * v_[216] + v_[208] * w_in[5];
+    v_[151] = v_[77] * v_[290] + v_[78] * v_[216] + v_[208] * x_in[11];
     v_[227] = v_[293] * v_[87] + v_[85] * v_[338];
     v_[276] = -0.184 * v_[242] + v_[350];
     v_[335] = v_[293] * v_[89] + v_[85] * v_[276];
@@ -1996,8 +1996,8 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[128] = v_[199] * v_[91] + v_[91] * v_[199];
     v_[244] = v_[338] * v_[87] + v_[87] * v_[338];
     v_[296] = 1.547475 * (v_[338] * v_[89] + v_[87] * v_[276] - (v_[199] * v_[94] + v_[91] * v_[317])) +
-              1.547475 * (v_[76] * v_[290] + v_[81] * v_[216] + v_[317] * w_in[5]) - 0.038686875 * (v_[128] + v_[244]);
-    v_[305] = v_[76] * v_[152] + v_[338] * w_in[5];
+              1.547475 * (v_[76] * v_[290] + v_[81] * v_[216] + v_[317] * x_in[11]) - 0.038686875 * (v_[128] + v_[244]);
+    v_[305] = v_[76] * v_[152] + v_[338] * x_in[11];
     v_[300] = v_[338] * v_[91] + v_[87] * v_[199];
     v_[27] = v_[293] * v_[85] + v_[85] * v_[293];
     v_[253] = v_[242] * v_[71];
@@ -2030,7 +2030,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[6] = v_[158] * 2.1032 + v_[229] * 0.057838;
     v_[188] = 0 - v_[6];
     v_[337] = v_[112] * v_[77] + v_[100] * v_[76] + v_[158] * 2.1032 + v_[229] * 0.057838;
-    v_[281] = v_[7] + v_[188] * v_[71] + v_[207] * v_[242] + v_[337] * w_in[4];
+    v_[281] = v_[7] + v_[188] * v_[71] + v_[207] * v_[242] + v_[337] * x_in[10];
     v_[334] = 0 - v_[23];
     v_[14] = 0 - v_[16] + v_[14];
     v_[16] = (0 - v_[229]) * 1.5e-05 + v_[257] * 0.000198 + v_[107] * 0.00605;
@@ -2043,9 +2043,9 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[16] * v_[87] + v_[122] * v_[293] + v_[295] * v_[85] + v_[307] * v_[199] + v_[307] * v_[199] +
               v_[117] * v_[91] + v_[117] * v_[91];
     v_[307] = v_[347] * 1.547475 + (0 - v_[257]) * 0.038686875;
-    v_[334] = v_[288] * v_[199] + v_[334] * v_[91] + v_[104] * v_[293] + v_[307] * v_[85] + v_[100] * w_in[5];
+    v_[334] = v_[288] * v_[199] + v_[334] * v_[91] + v_[104] * v_[293] + v_[307] * v_[85] + v_[100] * x_in[11];
     v_[288] = 0 - v_[307];
-    v_[14] = v_[314] * v_[199] + v_[14] * v_[91] + v_[162] * v_[338] + v_[288] * v_[87] - v_[112] * w_in[5];
+    v_[14] = v_[314] * v_[199] + v_[14] * v_[91] + v_[162] * v_[338] + v_[288] * v_[87] - v_[112] * x_in[11];
     v_[314] = v_[335] * 0.057838 + v_[229] * -0.001387 + v_[151] * -0.018069;
     v_[50] = (0 - v_[229]) * -0.001243 + v_[151] * -0.012652;
     v_[127] = (0 - v_[151]) * -0.001243;
@@ -2058,12 +2058,12 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[151] * 0.019432;
     v_[105] = v_[117] + v_[334] * v_[78] + v_[14] * v_[81] + v_[6] * v_[64] + v_[145] * v_[340] + v_[314] * v_[71] +
               v_[302] * v_[242] + v_[50] * v_[55] + v_[26] * v_[199] + v_[26] * v_[199] + v_[105] * v_[58] +
-              v_[105] * v_[58] + v_[208] * w_in[4];
+              v_[105] * v_[58] + v_[208] * x_in[10];
     v_[186] = 2.1032 * v_[290] + 0.057838 * v_[216] + 0.057838 * v_[253] + 2.1032 * v_[186] + v_[77] * v_[278] +
               v_[76] * v_[296];
     v_[335] = v_[335] * -2.1032 + v_[151] * 0.057838;
     v_[117] = 0 - v_[335];
-    v_[145] = v_[334] * v_[77] + v_[14] * v_[76] + v_[117] * v_[71] + v_[145] * v_[199] - v_[126] * w_in[4];
+    v_[145] = v_[334] * v_[77] + v_[14] * v_[76] + v_[117] * v_[71] + v_[145] * v_[199] - v_[126] * x_in[10];
     v_[27] = -0.000829 * v_[216] + 0.003227 * v_[114] + 0.000198 * v_[305] + -0.038686875 * v_[226] +
              0.000198 * v_[300] + 1.5e-05 * (v_[128] - v_[27]) - 0.038686875 * v_[336] - -0.00146 * v_[115] -
              -0.000829 * v_[227];
@@ -2077,17 +2077,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[217] = v_[108] + v_[309] - v_[217];
     v_[217] = v_[125] * v_[276] + v_[23] * v_[89] + v_[162] * v_[154] + v_[288] * v_[82] + v_[304] * v_[199] +
               v_[16] * v_[91] + v_[220] * v_[293] + v_[107] * v_[85] + v_[339] * v_[338] + v_[339] * v_[338] +
-              v_[217] * v_[87] + v_[217] * v_[87] + v_[231] * w_in[5];
+              v_[217] * v_[87] + v_[217] * v_[87] + v_[231] * x_in[11];
     v_[309] = 0 - v_[309] - v_[51];
     v_[309] = v_[161] * v_[276] + v_[12] * v_[89] + v_[104] * v_[317] + v_[307] * v_[94] + v_[122] * v_[199] +
               v_[295] * v_[91] + v_[220] * v_[338] + v_[107] * v_[87] + v_[160] * v_[293] + v_[160] * v_[293] +
-              v_[309] * v_[85] + v_[309] * v_[85] - v_[347] * w_in[5];
+              v_[309] * v_[85] + v_[309] * v_[85] - v_[347] * x_in[11];
     v_[107] = v_[158] * 0.057838 + (0 - v_[229]) * -0.008386 + (0 - v_[151]) * -0.001387;
     v_[307] = v_[229] * -0.012652;
     v_[295] = 0 - v_[307];
     v_[295] = v_[7] * -0.184 + v_[217] * v_[77] + v_[309] * v_[76] + v_[335] * v_[64] + v_[207] * v_[350] +
               v_[107] * v_[71] + v_[302] * v_[199] + v_[50] * v_[58] + v_[116] * v_[242] + v_[116] * v_[242] +
-              v_[295] * v_[55] + v_[295] * v_[55] - v_[41] * w_in[4];
+              v_[295] * v_[55] + v_[295] * v_[55] - v_[41] * x_in[10];
     hes[52] =
         (0 - (v_[63] * v_[106] + v_[205] * v_[92] + v_[286] * v_[66] + v_[272] * v_[34] + v_[218] * v_[44] +
                  v_[32] * v_[35] + (v_[113] * v_[106] + v_[286] * v_[29] + v_[218] * v_[47]) * 0.112 -
@@ -2127,19 +2127,19 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   v_[237] * 0.02075 + v_[216] * 0.184 - (v_[200] * v_[27] + v_[347] * v_[36] + v_[217] * v_[71])) *
                   v_[247];
     v_[100] = v_[112] * v_[79] + v_[100] * v_[77];
-    v_[112] = v_[218] * v_[129] + v_[281] * v_[52] + v_[269] * v_[318] + v_[145] * v_[53] + v_[100] * w_in[3];
+    v_[112] = v_[218] * v_[129] + v_[281] * v_[52] + v_[269] * v_[318] + v_[145] * v_[53] + v_[100] * x_in[9];
     v_[216] = v_[286] * v_[129] + v_[126] * v_[52] + v_[259] * v_[318] + v_[337] * v_[53];
     v_[335] = v_[334] * v_[79] + v_[14] * v_[77] + v_[3] * v_[199] + v_[6] * v_[58] + v_[173] * v_[242] +
-              v_[335] * v_[55] - v_[216] * w_in[3];
+              v_[335] * v_[55] - v_[216] * x_in[9];
     v_[14] = v_[286] * v_[318] + v_[126] * v_[53] + v_[259] * v_[330] + v_[337] * v_[62];
     v_[334] = v_[14] * -1;
-    v_[6] = v_[112] * v_[28] + v_[335] * v_[30] + v_[334] * w_in[2];
+    v_[6] = v_[112] * v_[28] + v_[335] * v_[30] + v_[334] * x_in[8];
     v_[330] = v_[218] * v_[318] + v_[281] * v_[53] + v_[269] * v_[330] + v_[145] * v_[62];
     v_[173] = v_[216] * v_[28] + v_[100] * v_[30];
-    v_[3] = v_[330] * -1 - v_[173] * w_in[2];
+    v_[3] = v_[330] * -1 - v_[173] * x_in[8];
     v_[231] = v_[194] * 0.02075 + v_[347] * v_[86] + v_[231] * v_[77] + v_[229] * -0.001243 + v_[151] * -0.012652;
     v_[347] = v_[218] * v_[123] + v_[281] * v_[68] + v_[269] * v_[271] + v_[145] * v_[61] + v_[32] * v_[129] +
-              v_[105] * v_[52] + v_[110] * v_[318] + v_[295] * v_[53] + v_[231] * w_in[3];
+              v_[105] * v_[52] + v_[110] * v_[318] + v_[295] * v_[53] + v_[231] * x_in[9];
     v_[307] = v_[307] + v_[127];
     v_[307] = v_[7] * 0.02075 + v_[217] * v_[86] + v_[309] * v_[77] + v_[262] * v_[350] + v_[188] * v_[69] +
               v_[292] * v_[340] + v_[117] * v_[80] + v_[215] * v_[199] + v_[314] * v_[58] + v_[285] * v_[242] +
@@ -2148,40 +2148,40 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[41] * v_[56] + v_[213] * v_[199] + v_[208] * v_[58] + v_[307];
     v_[271] = v_[286] * v_[123] + v_[126] * v_[68] + v_[259] * v_[271] + v_[337] * v_[61] + v_[272] * v_[129] +
               v_[41] * v_[52] + v_[213] * v_[318] + v_[208] * v_[53];
-    v_[307] = v_[307] - v_[271] * w_in[3];
+    v_[307] = v_[307] - v_[271] * x_in[9];
     v_[208] = v_[216] * v_[43] + v_[100] * v_[42] +
               (v_[286] * v_[204] + v_[126] * v_[67] + v_[259] * v_[280] + v_[337] * v_[60] + v_[272] * v_[318] +
                   v_[41] * v_[53] + v_[213] * v_[101] + v_[208] * v_[54]) *
                   -1;
-    v_[330] = v_[330] * -0.304 + v_[347] * v_[28] + v_[307] * v_[30] + v_[208] * w_in[2];
+    v_[330] = v_[330] * -0.304 + v_[347] * v_[28] + v_[307] * v_[30] + v_[208] * x_in[8];
     v_[295] = v_[218] * v_[204] + v_[281] * v_[67] + v_[269] * v_[280] + v_[145] * v_[60] + v_[32] * v_[318] +
               v_[105] * v_[53] + v_[110] * v_[101] + v_[295] * v_[54];
     hes[57] = v_[216] * v_[65] + v_[100] * v_[44] + v_[271] * v_[33] + v_[231] * v_[35] + v_[295];
     v_[14] = v_[14] * -0.304 + v_[271] * v_[28] + v_[231] * v_[30];
-    v_[295] = v_[112] * v_[43] + v_[335] * v_[42] + v_[295] * -1 - v_[14] * w_in[2];
+    v_[295] = v_[112] * v_[43] + v_[335] * v_[42] + v_[295] * -1 - v_[14] * x_in[8];
     v_[271] = v_[271] * v_[31] + v_[231] * v_[28];
     v_[307] = v_[347] * v_[31] + v_[307] * v_[28];
     hes[56] = v_[173] * v_[40] + v_[334] * v_[21] + v_[14] * v_[13] + v_[208] * v_[15] + v_[307];
     v_[14] = v_[173] * v_[19] + v_[334] * v_[18] + v_[14] * v_[9] + v_[208] * v_[10];
-    hes[54] = (v_[6] * v_[19] + v_[3] * v_[18] + v_[330] * v_[9] + v_[295] * v_[10] + v_[271] * w_in[1]) * v_[4] +
-              (v_[307] - v_[14] * w_in[1]) * v_[0];
+    hes[54] = (v_[6] * v_[19] + v_[3] * v_[18] + v_[330] * v_[9] + v_[295] * v_[10] + v_[271] * x_in[7]) * v_[4] +
+              (v_[307] - v_[14] * x_in[7]) * v_[0];
     hes[55] = v_[6] * v_[20] + v_[3] * v_[38] + v_[330] * v_[10] + v_[295] * v_[11] + v_[14] * v_[2] + v_[271] * v_[5];
-    v_[14] = w_in[6] * v_[4];
-    v_[271] = w_in[7] * v_[20] + v_[14] * v_[19];
-    v_[295] = w_in[7] * v_[11] + v_[14] * v_[10];
+    v_[14] = w_in[0] * v_[4];
+    v_[271] = w_in[1] * v_[20] + v_[14] * v_[19];
+    v_[295] = w_in[1] * v_[11] + v_[14] * v_[10];
     v_[330] = v_[271] * v_[30] + v_[295] * v_[42];
-    v_[3] = w_in[7] * v_[10] + v_[14] * v_[9];
-    v_[14] = (w_in[7] * v_[38] + v_[14] * v_[18]) * -1 + v_[3] * -0.304;
+    v_[3] = w_in[1] * v_[10] + v_[14] * v_[9];
+    v_[14] = (w_in[1] * v_[38] + v_[14] * v_[18]) * -1 + v_[3] * -0.304;
     v_[271] = v_[271] * v_[28] + v_[295] * v_[43];
-    v_[295] = w_in[9] + v_[295] * -1;
-    v_[6] = w_in[8] + w_in[6] * v_[0];
+    v_[295] = w_in[3] + v_[295] * -1;
+    v_[6] = w_in[2] + w_in[0] * v_[0];
     v_[307] = v_[6] * v_[31] + v_[3] * v_[28];
     v_[208] = v_[14] * v_[62] + v_[271] * v_[53] + v_[295] * v_[60] + v_[307] * v_[61];
-    v_[6] = w_in[10] + v_[6] * v_[28] + v_[3] * v_[30];
+    v_[6] = w_in[4] + v_[6] * v_[28] + v_[3] * v_[30];
     v_[3] = v_[295] * v_[54] + v_[307] * v_[53];
     v_[173] = v_[295] * v_[53] + v_[307] * v_[52];
     v_[334] = v_[330] * v_[79] + v_[208] * v_[77] + v_[173] * v_[78];
-    v_[347] = w_in[11] + v_[173];
+    v_[347] = w_in[5] + v_[173];
     v_[231] = v_[334] * 1.547475 + v_[347] * 0.038686875;
     v_[335] = v_[330] * v_[77] + v_[208] * v_[76] + v_[173] * v_[81];
     v_[112] = v_[335] * 1.547475;
@@ -2194,23 +2194,23 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[100] = v_[335] * 1.547475;
     v_[145] = 0 - v_[100];
     v_[105] = v_[307] * 1.547475 + (0 - v_[295]) * 0.038686875;
-    v_[281] = v_[145] * v_[91] + v_[105] * v_[85] + v_[112] * w_in[5];
+    v_[281] = v_[145] * v_[91] + v_[105] * v_[85] + v_[112] * x_in[11];
     v_[101] = v_[334] * -1.547475;
     v_[280] = v_[347] * 0.038686875;
     v_[204] = 0 - v_[101] + v_[280];
     v_[110] = 0 - v_[105];
-    v_[269] = v_[204] * v_[91] + v_[110] * v_[87] - v_[231] * w_in[5];
+    v_[269] = v_[204] * v_[91] + v_[110] * v_[87] - v_[231] * x_in[11];
     v_[32] = (0 - v_[347]) * 1.5e-05 + v_[295] * 0.000198 + v_[271] * 0.00605;
     v_[334] = v_[334] * 0.038686875 + v_[347] * -0.00751 + (0 - v_[295]) * -0.000829 + v_[271] * 1.5e-05;
     v_[218] = (0 - v_[347]) * 0.000198;
     v_[335] = (0 - v_[335]) * 0.038686875 + v_[218] - (0 - v_[271]) * -0.000829;
     v_[318] = v_[100] * v_[89] + v_[110] * v_[82] + v_[32] * v_[91] + v_[334] * v_[85] + v_[335] * v_[87] +
-              v_[335] * v_[87] + v_[216] * w_in[5];
+              v_[335] * v_[87] + v_[216] * x_in[11];
     v_[280] = v_[101] - v_[280];
     v_[271] = v_[307] * 0.038686875 + v_[347] * -0.000829 + (0 - v_[295]) * -0.00146 + (0 - v_[271]) * 0.000198;
     v_[218] = 0 - v_[218] - v_[295] * 1.5e-05;
     v_[295] = v_[280] * v_[89] + v_[105] * v_[94] + v_[271] * v_[91] + v_[334] * v_[87] + v_[218] * v_[85] +
-              v_[218] * v_[85] - v_[14] * w_in[5];
+              v_[218] * v_[85] - v_[14] * x_in[11];
     v_[307] = v_[173] * v_[93] + v_[231] * v_[57] + v_[281] * v_[58];
     v_[347] = v_[173] * v_[97] + v_[112] * v_[57] + v_[269] * v_[58];
     v_[101] = 0 - v_[248];
@@ -2222,17 +2222,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[272] = 0.184 * v_[247] - 0.02075 * v_[101];
     v_[286] = v_[41] * v_[87] + v_[87] * v_[41];
     v_[123] = 1.547475 * (v_[41] * v_[89] - v_[91] * v_[259]) +
-              1.547475 * (v_[101] * v_[45] + v_[247] * v_[70] + v_[272] * v_[57] + v_[259] * w_in[5]) -
+              1.547475 * (v_[101] * v_[45] + v_[247] * v_[70] + v_[272] * v_[57] + v_[259] * x_in[11]) -
               0.038686875 * v_[286];
     v_[129] = v_[101] * v_[64] + v_[247] * v_[80] + v_[272] * v_[58];
     v_[350] = -v_[129];
     v_[84] = v_[247] * v_[55] + v_[101] * v_[71];
     v_[199] = v_[84] * v_[87] + v_[85] * v_[41];
-    v_[250] = 1.547475 * (v_[126] * v_[45] + v_[101] * v_[70] + v_[213] * v_[57] + v_[350] * w_in[5]) +
+    v_[250] = 1.547475 * (v_[126] * v_[45] + v_[101] * v_[70] + v_[213] * v_[57] + v_[350] * x_in[11]) +
               0.038686875 * v_[199] + -1.547475 * (v_[84] * v_[89] - v_[91] * v_[129]);
     v_[107] = -v_[84];
-    v_[309] = v_[337] * v_[36] + v_[101] * v_[59] + v_[107] * w_in[5];
-    v_[217] = v_[101] * v_[36] + v_[247] * v_[59] + v_[41] * w_in[5];
+    v_[309] = v_[337] * v_[36] + v_[101] * v_[59] + v_[107] * x_in[11];
+    v_[217] = v_[101] * v_[36] + v_[247] * v_[59] + v_[41] * x_in[11];
     v_[117] = v_[41] * v_[91];
     v_[314] = v_[84] * v_[91];
     v_[286] = 0.000198 * v_[309] + 0.010737 * v_[217] + 0.00605 * v_[117] + 1.5e-05 * v_[199] - 0.000198 * v_[314] -
@@ -2252,11 +2252,11 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[285] = v_[309] * 1.547475;
     v_[292] = 0 - v_[285];
     v_[215] = (0 - v_[188]) * 0.038686875;
-    v_[262] = v_[292] * v_[91] + v_[105] * v_[84] + v_[215] * v_[85] + v_[199] * w_in[5];
+    v_[262] = v_[292] * v_[91] + v_[105] * v_[84] + v_[215] * v_[85] + v_[199] * x_in[11];
     v_[127] = v_[117] * -1.547475;
     v_[229] = 0 - v_[127];
     v_[194] = 0 - v_[215];
-    v_[151] = v_[229] * v_[91] + v_[110] * v_[41] + v_[194] * v_[87] - v_[217] * w_in[5];
+    v_[151] = v_[229] * v_[91] + v_[110] * v_[41] + v_[194] * v_[87] - v_[217] * x_in[11];
     v_[237] = v_[188] * 0.000198 + v_[7] * 0.00605;
     v_[300] = v_[117] * 0.038686875 + (0 - v_[188]) * -0.000829 + v_[7] * 1.5e-05;
     v_[309] = (0 - v_[309]) * 0.038686875;
@@ -2264,13 +2264,13 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[158] = v_[309] - v_[27];
     v_[158] = v_[285] * v_[89] + v_[110] * v_[129] + v_[194] * v_[82] + v_[237] * v_[91] + v_[334] * v_[84] +
               v_[300] * v_[85] + v_[335] * v_[41] + v_[335] * v_[41] + v_[158] * v_[87] + v_[158] * v_[87] +
-              v_[340] * w_in[5];
+              v_[340] * x_in[11];
     v_[194] = (0 - v_[188]) * -0.00146 + (0 - v_[7]) * 0.000198;
     v_[335] = v_[188] * 1.5e-05;
     v_[110] = 0 - v_[335];
     v_[110] = v_[127] * v_[89] + v_[105] * v_[259] + v_[215] * v_[94] + v_[194] * v_[91] + v_[334] * v_[41] +
               v_[300] * v_[87] + v_[218] * v_[84] + v_[218] * v_[84] + v_[110] * v_[85] + v_[110] * v_[85] -
-              v_[242] * w_in[5];
+              v_[242] * x_in[11];
     v_[300] = v_[173] * v_[250] + v_[217] * v_[57] + v_[262] * v_[58];
     v_[173] = v_[173] * v_[123] + v_[199] * v_[57] + v_[151] * v_[58];
     hes[65] = (0 - (v_[330] * v_[97] + v_[208] * v_[93] + v_[6] * v_[102] + v_[3] * v_[103] + v_[231] * v_[70] +
@@ -2291,62 +2291,62 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   v_[76];
     v_[127] = v_[100] * v_[41] + v_[285] * v_[87] + v_[280] * v_[84] + v_[127] * v_[85];
     v_[285] = v_[231] * v_[101] + v_[217] * v_[77] + v_[112] * v_[247] + v_[199] * v_[76];
-    v_[280] = v_[127] + v_[285] * w_in[4];
+    v_[280] = v_[127] + v_[285] * x_in[10];
     v_[100] = v_[188] * -0.038686875;
-    v_[173] = v_[281] * v_[101] + v_[262] * v_[77] + v_[269] * v_[247] + v_[151] * v_[76] - v_[100] * w_in[4];
+    v_[173] = v_[281] * v_[101] + v_[262] * v_[77] + v_[269] * v_[247] + v_[151] * v_[76] - v_[100] * x_in[10];
     v_[300] = v_[231] * v_[126] + v_[217] * v_[79] + v_[112] * v_[101] + v_[199] * v_[77];
-    v_[314] = v_[280] * v_[52] + v_[173] * v_[53] + v_[300] * w_in[3];
+    v_[314] = v_[280] * v_[52] + v_[173] * v_[53] + v_[300] * x_in[9];
     v_[286] = v_[100] * v_[52] + v_[285] * v_[53];
-    v_[126] = v_[281] * v_[126] + v_[262] * v_[79] + v_[269] * v_[101] + v_[151] * v_[77] - v_[286] * w_in[3];
+    v_[126] = v_[281] * v_[126] + v_[262] * v_[79] + v_[269] * v_[101] + v_[151] * v_[77] - v_[286] * x_in[9];
     v_[250] = v_[100] * v_[53] + v_[285] * v_[62];
     v_[123] = v_[250] * -1;
-    v_[347] = v_[314] * v_[28] + v_[126] * v_[30] + v_[123] * w_in[2];
+    v_[347] = v_[314] * v_[28] + v_[126] * v_[30] + v_[123] * x_in[8];
     v_[307] = v_[280] * v_[53] + v_[173] * v_[62];
     v_[3] = v_[286] * v_[28] + v_[300] * v_[30];
-    v_[6] = v_[307] * -1 - v_[3] * w_in[2];
+    v_[6] = v_[307] * -1 - v_[3] * x_in[8];
     v_[335] = v_[309] + v_[335] + v_[27];
     v_[335] = v_[145] * v_[259] + v_[292] * v_[94] + v_[204] * v_[129] + v_[229] * v_[82] + v_[32] * v_[41] +
               v_[237] * v_[87] + v_[271] * v_[84] + v_[194] * v_[85] + v_[335] * v_[91] + v_[335] * v_[91];
     hes[71] = v_[231] * v_[350] + v_[217] * v_[83] + v_[112] * v_[259] + v_[199] * v_[94] + v_[14] * v_[107] +
               v_[242] * v_[98] + v_[216] * v_[41] + v_[340] * v_[87] + v_[335];
     v_[107] = v_[100] * -0.184 + v_[14] * v_[101] + v_[242] * v_[77] + v_[216] * v_[247] + v_[340] * v_[76];
-    v_[335] = v_[335] + v_[281] * v_[213] + v_[262] * v_[78] + v_[269] * v_[272] + v_[151] * v_[81] + v_[107] * w_in[4];
+    v_[335] = v_[335] + v_[281] * v_[213] + v_[262] * v_[78] + v_[269] * v_[272] + v_[151] * v_[81] + v_[107] * x_in[10];
     v_[7] = v_[117] * 0.038686875 + v_[188] * -0.000829 + v_[7] * 1.5e-05 + v_[231] * v_[213] + v_[217] * v_[78] +
             v_[112] * v_[272] + v_[199] * v_[81];
     v_[247] = v_[127] * -0.184 + v_[318] * v_[101] + v_[158] * v_[77] + v_[295] * v_[247] + v_[110] * v_[76] -
-              v_[7] * w_in[4];
+              v_[7] * x_in[10];
     v_[340] = v_[100] * 0.02075 + v_[14] * v_[337] + v_[242] * v_[86] + v_[216] * v_[101] + v_[340] * v_[77];
-    v_[242] = v_[280] * v_[68] + v_[173] * v_[61] + v_[335] * v_[52] + v_[247] * v_[53] + v_[340] * w_in[3];
+    v_[242] = v_[280] * v_[68] + v_[173] * v_[61] + v_[335] * v_[52] + v_[247] * v_[53] + v_[340] * x_in[9];
     v_[127] = v_[127] * 0.02075 + v_[318] * v_[337] + v_[158] * v_[86] + v_[295] * v_[101] + v_[110] * v_[77];
     hes[70] = v_[100] * v_[90] + v_[285] * v_[69] + v_[7] * v_[56] + v_[107] * v_[58] + v_[127];
     v_[90] = v_[100] * v_[68] + v_[285] * v_[61] + v_[7] * v_[52] + v_[107] * v_[53];
-    v_[127] = v_[127] - v_[90] * w_in[3];
+    v_[127] = v_[127] - v_[90] * x_in[9];
     v_[7] = v_[286] * v_[43] + v_[300] * v_[42] +
             (v_[100] * v_[67] + v_[285] * v_[60] + v_[7] * v_[53] + v_[107] * v_[54]) * -1;
-    v_[307] = v_[307] * -0.304 + v_[242] * v_[28] + v_[127] * v_[30] + v_[7] * w_in[2];
+    v_[307] = v_[307] * -0.304 + v_[242] * v_[28] + v_[127] * v_[30] + v_[7] * x_in[8];
     v_[247] = v_[280] * v_[67] + v_[173] * v_[60] + v_[335] * v_[53] + v_[247] * v_[54];
     hes[69] = v_[286] * v_[65] + v_[300] * v_[44] + v_[90] * v_[33] + v_[340] * v_[35] + v_[247];
     v_[250] = v_[250] * -0.304 + v_[90] * v_[28] + v_[340] * v_[30];
-    v_[247] = v_[314] * v_[43] + v_[126] * v_[42] + v_[247] * -1 - v_[250] * w_in[2];
+    v_[247] = v_[314] * v_[43] + v_[126] * v_[42] + v_[247] * -1 - v_[250] * x_in[8];
     v_[90] = v_[90] * v_[31] + v_[340] * v_[28];
     v_[127] = v_[242] * v_[31] + v_[127] * v_[28];
     hes[68] = v_[3] * v_[40] + v_[123] * v_[21] + v_[250] * v_[13] + v_[7] * v_[15] + v_[127];
     v_[250] = v_[3] * v_[19] + v_[123] * v_[18] + v_[250] * v_[9] + v_[7] * v_[10];
-    hes[66] = (v_[347] * v_[19] + v_[6] * v_[18] + v_[307] * v_[9] + v_[247] * v_[10] + v_[90] * w_in[1]) * v_[4] +
-              (v_[127] - v_[250] * w_in[1]) * v_[0];
+    hes[66] = (v_[347] * v_[19] + v_[6] * v_[18] + v_[307] * v_[9] + v_[247] * v_[10] + v_[90] * x_in[7]) * v_[4] +
+              (v_[127] - v_[250] * x_in[7]) * v_[0];
     hes[67] =
         v_[347] * v_[20] + v_[6] * v_[38] + v_[307] * v_[10] + v_[247] * v_[11] + v_[250] * v_[2] + v_[90] * v_[5];
-    v_[250] = w_in[6] * v_[4];
-    v_[90] = w_in[7] * v_[20] + v_[250] * v_[19];
-    v_[247] = w_in[7] * v_[11] + v_[250] * v_[10];
+    v_[250] = w_in[0] * v_[4];
+    v_[90] = w_in[1] * v_[20] + v_[250] * v_[19];
+    v_[247] = w_in[1] * v_[11] + v_[250] * v_[10];
     v_[307] = v_[90] * v_[30] + v_[247] * v_[42];
-    v_[6] = w_in[7] * v_[38] + v_[250] * v_[18];
-    v_[347] = w_in[7] * v_[10] + v_[250] * v_[9];
+    v_[6] = w_in[1] * v_[38] + v_[250] * v_[18];
+    v_[347] = w_in[1] * v_[10] + v_[250] * v_[9];
     v_[5] = v_[6] * -1 + v_[347] * -0.304;
     v_[2] = v_[90] * v_[28] + v_[247] * v_[43];
-    v_[127] = w_in[9] + v_[247] * -1;
-    v_[7] = w_in[6] * v_[0];
-    v_[3] = w_in[8] + v_[7];
+    v_[127] = w_in[3] + v_[247] * -1;
+    v_[7] = w_in[0] * v_[0];
+    v_[3] = w_in[2] + v_[7];
     v_[123] = v_[3] * v_[31] + v_[347] * v_[28];
     v_[40] = v_[5] * v_[62] + v_[2] * v_[53] + v_[127] * v_[60] + v_[123] * v_[61];
     v_[21] = v_[127] * v_[53] + v_[123] * v_[52];
@@ -2361,7 +2361,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[65] = v_[77] * v_[286] + v_[86] * v_[300];
     v_[44] = v_[307] * v_[79] + v_[40] * v_[77] + v_[21] * v_[78];
     v_[35] = v_[44] * -1.547475;
-    v_[33] = w_in[11] + v_[21];
+    v_[33] = w_in[5] + v_[21];
     v_[335] = v_[33] * 0.038686875;
     v_[173] = v_[35] - v_[335];
     v_[280] = v_[76] * v_[286] + v_[77] * v_[300];
@@ -2374,7 +2374,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[110] = v_[52] * v_[340] + v_[53] * v_[314];
     v_[158] = v_[5] * v_[53] + v_[2] * v_[52] + v_[127] * v_[67] + v_[123] * v_[68];
     v_[337] = v_[3] * v_[28] + v_[347] * v_[30];
-    v_[101] = w_in[10] + v_[337];
+    v_[101] = w_in[4] + v_[337];
     v_[295] = v_[127] * v_[54] + v_[123] * v_[53];
     v_[318] = v_[158] + v_[101] * 0.02075 + v_[295] * -0.184;
     v_[216] = v_[101] * v_[86] + v_[295] * v_[77];
@@ -2485,8 +2485,8 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[151] = v_[56] - v_[151] - v_[102];
     v_[151] = v_[262] * v_[43] + v_[98] * v_[42] + v_[208] * -1 + v_[87] * v_[229] + v_[188] * v_[0] +
               v_[129] * v_[242] + v_[151] * v_[126] + v_[151] * v_[126];
-    v_[129] = w_in[7] * 0.046852534 + (0 - v_[250]) * -0.002752 + v_[7] * -0.022851627;
-    v_[87] = (0 - w_in[7]) * 0.0055279857;
+    v_[129] = w_in[1] * 0.046852534 + (0 - v_[250]) * -0.002752 + v_[7] * -0.022851627;
+    v_[87] = (0 - w_in[1]) * 0.0055279857;
     v_[98] = v_[87] - (0 - v_[7]) * -0.002752;
     v_[102] = v_[56] + v_[350] + v_[102] + v_[69];
     v_[102] = v_[173] * v_[31] + v_[82] * v_[28] + v_[94] * v_[229] + v_[269] * v_[84] + v_[217] * v_[242] +
@@ -2532,26 +2532,26 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[90] * -0.647967112 + v_[3] * -0.011715295 + v_[347] * 5.399998e-05 + v_[247] * 0.20236395;
     hes[79] =
         v_[83] * v_[20] + v_[237] * v_[38] + v_[335] * v_[10] + v_[151] * v_[11] +
-        (w_in[7] * -0.002752 + (0 - v_[250]) * 0.012390532 + (0 - v_[7]) * 0.0055279857) * v_[0] +
-        (v_[173] * v_[19] + v_[94] * v_[18] + v_[269] * v_[9] + v_[158] * v_[10] + w_in[7] * -0.002752 +
+        (w_in[1] * -0.002752 + (0 - v_[250]) * 0.012390532 + (0 - v_[7]) * 0.0055279857) * v_[0] +
+        (v_[173] * v_[19] + v_[94] * v_[18] + v_[269] * v_[9] + v_[158] * v_[10] + w_in[1] * -0.002752 +
             v_[250] * 0.08585553 + v_[7] * 0.0055279857) *
             (-v_[0]) +
         (v_[199] * v_[31] + v_[91] * v_[28] + v_[90] * -0.0055615274403 + v_[6] * -0.01438086 + v_[3] * 0.010329999 +
-            v_[347] * -0.0037997814 + v_[247] * -0.011715295 + w_in[7] * -0.022851627 + v_[250] * 0.0055279857 +
-            v_[7] * 0.039002996 + (0 - w_in[7]) * -0.022851627 + v_[250] * 0.0055279857 + v_[7] * -0.034462002) *
+            v_[347] * -0.0037997814 + v_[247] * -0.011715295 + w_in[1] * -0.022851627 + v_[250] * 0.0055279857 +
+            v_[7] * 0.039002996 + (0 - w_in[1]) * -0.022851627 + v_[250] * 0.0055279857 + v_[7] * -0.034462002) *
             v_[4];
     hes[80] = v_[173] * (-v_[84]) + v_[94] * v_[229] + v_[269] * (-v_[126]) + v_[158] * v_[242] + v_[102];
-    v_[158] = w_in[6] * v_[4];
-    v_[269] = w_in[7] * v_[20] + v_[158] * v_[19];
-    v_[94] = w_in[7] * v_[11] + v_[158] * v_[10];
+    v_[158] = w_in[0] * v_[4];
+    v_[269] = w_in[1] * v_[20] + v_[158] * v_[19];
+    v_[94] = w_in[1] * v_[11] + v_[158] * v_[10];
     v_[173] = v_[269] * v_[30] + v_[94] * v_[42];
-    v_[102] = w_in[7] * v_[38] + v_[158] * v_[18];
-    v_[84] = w_in[7] * v_[10] + v_[158] * v_[9];
+    v_[102] = w_in[1] * v_[38] + v_[158] * v_[18];
+    v_[84] = w_in[1] * v_[10] + v_[158] * v_[9];
     v_[229] = v_[102] * -1 + v_[84] * -0.304;
     v_[126] = v_[269] * v_[28] + v_[94] * v_[43];
-    v_[242] = w_in[9] + v_[94] * -1;
-    v_[91] = w_in[6] * v_[0];
-    v_[199] = w_in[8] + v_[91];
+    v_[242] = w_in[3] + v_[94] * -1;
+    v_[91] = w_in[0] * v_[0];
+    v_[199] = w_in[2] + v_[91];
     v_[151] = v_[199] * v_[31] + v_[84] * v_[28];
     v_[335] = v_[229] * v_[62] + v_[126] * v_[53] + v_[242] * v_[60] + v_[151] * v_[61];
     v_[237] = v_[242] * v_[53] + v_[151] * v_[52];
@@ -2564,7 +2564,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[90] = v_[77] * v_[6] + v_[86] * v_[247];
     v_[250] = v_[173] * v_[79] + v_[335] * v_[77] + v_[237] * v_[78];
     v_[44] = v_[250] * -1.547475;
-    v_[82] = w_in[11] + v_[237];
+    v_[82] = w_in[5] + v_[237];
     v_[217] = v_[82] * 0.038686875;
     v_[188] = v_[44] - v_[217];
     v_[98] = v_[76] * v_[6] + v_[77] * v_[247];
@@ -2577,7 +2577,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[271] = v_[52] * v_[7] + v_[53] * v_[347];
     v_[292] = v_[229] * v_[53] + v_[126] * v_[52] + v_[242] * v_[67] + v_[151] * v_[68];
     v_[300] = v_[199] * v_[28] + v_[84] * v_[30];
-    v_[340] = w_in[10] + v_[300];
+    v_[340] = w_in[4] + v_[300];
     v_[318] = v_[242] * v_[54] + v_[151] * v_[53];
     v_[87] = v_[292] + v_[340] * 0.02075 + v_[318] * -0.184;
     v_[295] = v_[340] * v_[86] + v_[318] * v_[77];
@@ -2727,16 +2727,16 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
         (v_[102] * 0.647967112 + v_[199] * -0.0037997814 + (0 - v_[84]) * -0.192033951 + (0 - v_[94]) * 5.399998e-05) *
             v_[11];
     hes[93] = v_[204] * (-v_[69]) + v_[280] * v_[262] + v_[5] * (-v_[247]) + v_[213] * v_[7] + v_[248];
-    v_[213] = w_in[6] * v_[4];
-    v_[5] = w_in[7] * v_[20] + v_[213] * v_[19];
-    v_[280] = w_in[7] * v_[11] + v_[213] * v_[10];
+    v_[213] = w_in[0] * v_[4];
+    v_[5] = w_in[1] * v_[20] + v_[213] * v_[19];
+    v_[280] = w_in[1] * v_[11] + v_[213] * v_[10];
     v_[204] = v_[5] * v_[30] + v_[280] * v_[42];
-    v_[248] = w_in[7] * v_[38] + v_[213] * v_[18];
-    v_[213] = w_in[7] * v_[10] + v_[213] * v_[9];
+    v_[248] = w_in[1] * v_[38] + v_[213] * v_[18];
+    v_[213] = w_in[1] * v_[10] + v_[213] * v_[9];
     v_[262] = v_[248] * -1 + v_[213] * -0.304;
     v_[69] = v_[5] * v_[28] + v_[280] * v_[43];
-    v_[247] = w_in[9] + v_[280] * -1;
-    v_[7] = w_in[8] + w_in[6] * v_[0];
+    v_[247] = w_in[3] + v_[280] * -1;
+    v_[7] = w_in[2] + w_in[0] * v_[0];
     v_[292] = v_[7] * v_[31] + v_[213] * v_[28];
     v_[250] = v_[262] * v_[62] + v_[69] * v_[53] + v_[247] * v_[60] + v_[292] * v_[61];
     v_[56] = v_[247] * v_[53] + v_[292] * v_[52];
@@ -2746,7 +2746,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[188] = v_[77] * v_[314] + v_[86] * v_[28];
     v_[300] = v_[204] * v_[79] + v_[250] * v_[77] + v_[56] * v_[78];
     v_[151] = v_[300] * -1.547475;
-    v_[199] = w_in[11] + v_[56];
+    v_[199] = w_in[5] + v_[56];
     v_[242] = v_[199] * 0.038686875;
     v_[126] = v_[151] - v_[242];
     v_[84] = v_[76] * v_[314] + v_[77] * v_[28];
@@ -2758,7 +2758,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[91] = v_[52] * v_[31];
     v_[318] = v_[262] * v_[53] + v_[69] * v_[52] + v_[247] * v_[67] + v_[292] * v_[68];
     v_[7] = v_[7] * v_[28] + v_[213] * v_[30];
-    v_[340] = w_in[10] + v_[7];
+    v_[340] = w_in[4] + v_[7];
     v_[237] = v_[247] * v_[54] + v_[292] * v_[53];
     v_[229] = v_[318] + v_[340] * 0.02075 + v_[237] * -0.184;
     v_[110] = v_[340] * v_[86] + v_[237] * v_[77];
@@ -2848,15 +2848,15 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
             (0 - v_[292]) * 0.01404749 + (0 - v_[7]) * 0.0036857284) *
             v_[28];
     hes[106] = v_[21] * (-v_[231]) + v_[87] * v_[65] + v_[300] * (-v_[314]) + v_[318] * v_[91] + v_[6];
-    v_[318] = w_in[6] * v_[4];
-    v_[300] = w_in[7] * v_[20] + v_[318] * v_[19];
-    v_[87] = w_in[7] * v_[11] + v_[318] * v_[10];
+    v_[318] = w_in[0] * v_[4];
+    v_[300] = w_in[1] * v_[20] + v_[318] * v_[19];
+    v_[87] = w_in[1] * v_[11] + v_[318] * v_[10];
     v_[21] = v_[300] * v_[30] + v_[87] * v_[42];
-    v_[6] = w_in[7] * v_[10] + v_[318] * v_[9];
-    v_[318] = (w_in[7] * v_[38] + v_[318] * v_[18]) * -1 + v_[6] * -0.304;
+    v_[6] = w_in[1] * v_[10] + v_[318] * v_[9];
+    v_[318] = (w_in[1] * v_[38] + v_[318] * v_[18]) * -1 + v_[6] * -0.304;
     v_[300] = v_[300] * v_[28] + v_[87] * v_[43];
-    v_[87] = w_in[9] + v_[87] * -1;
-    v_[65] = w_in[8] + w_in[6] * v_[0];
+    v_[87] = w_in[3] + v_[87] * -1;
+    v_[65] = w_in[2] + w_in[0] * v_[0];
     v_[231] = v_[65] * v_[31] + v_[6] * v_[28];
     v_[91] = v_[318] * v_[62] + v_[300] * v_[53] + v_[87] * v_[60] + v_[231] * v_[61];
     v_[314] = v_[87] * v_[53] + v_[231] * v_[52];
@@ -2865,7 +2865,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[213] = v_[77] * v_[54];
     v_[208] = v_[21] * v_[79] + v_[91] * v_[77] + v_[314] * v_[78];
     v_[107] = v_[208] * -1.547475;
-    v_[194] = w_in[11] + v_[314];
+    v_[194] = w_in[5] + v_[314];
     v_[237] = v_[194] * 0.038686875;
     v_[340] = v_[107] - v_[237];
     v_[7] = v_[76] * v_[54];
@@ -2874,7 +2874,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[292] = 0 - v_[229];
     v_[318] = v_[318] * v_[53] + v_[300] * v_[52] + v_[87] * v_[67] + v_[231] * v_[68];
     v_[65] = v_[65] * v_[28] + v_[6] * v_[30];
-    v_[6] = w_in[10] + v_[65];
+    v_[6] = w_in[4] + v_[65];
     v_[87] = v_[87] * v_[54] + v_[231] * v_[53];
     v_[247] = v_[318] + v_[6] * 0.02075 + v_[87] * -0.184;
     v_[69] = v_[6] * v_[86] + v_[87] * v_[77];
@@ -2938,24 +2938,24 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                (v_[318] * 0.057838 + (0 - v_[6]) * -0.012652 + v_[314] * -0.001387 + v_[87] * -0.018069) * v_[53] +
                (v_[91] * 0.057838 + v_[6] * -0.001243 + (0 - v_[314]) * -0.008386 + (0 - v_[87]) * -0.001387) * v_[54];
     hes[119] = v_[280] * (-v_[98]) + v_[90] * v_[158] + v_[247] * (-v_[7]) + v_[5] * v_[213] + v_[248];
-    v_[5] = w_in[6] * v_[4];
-    v_[247] = w_in[7] * v_[20] + v_[5] * v_[19];
-    v_[90] = w_in[7] * v_[11] + v_[5] * v_[10];
+    v_[5] = w_in[0] * v_[4];
+    v_[247] = w_in[1] * v_[20] + v_[5] * v_[19];
+    v_[90] = w_in[1] * v_[11] + v_[5] * v_[10];
     v_[280] = v_[247] * v_[30] + v_[90] * v_[42];
-    v_[248] = w_in[7] * v_[10] + v_[5] * v_[9];
-    v_[5] = (w_in[7] * v_[38] + v_[5] * v_[18]) * -1 + v_[248] * -0.304;
+    v_[248] = w_in[1] * v_[10] + v_[5] * v_[9];
+    v_[5] = (w_in[1] * v_[38] + v_[5] * v_[18]) * -1 + v_[248] * -0.304;
     v_[247] = v_[247] * v_[28] + v_[90] * v_[43];
-    v_[90] = w_in[9] + v_[90] * -1;
-    v_[98] = w_in[8] + w_in[6] * v_[0];
+    v_[90] = w_in[3] + v_[90] * -1;
+    v_[98] = w_in[2] + w_in[0] * v_[0];
     v_[158] = v_[98] * v_[31] + v_[248] * v_[28];
     v_[7] = v_[5] * v_[62] + v_[247] * v_[53] + v_[90] * v_[60] + v_[158] * v_[61];
     v_[213] = v_[90] * v_[53] + v_[158] * v_[52];
     v_[65] = v_[280] * v_[77] + v_[7] * v_[76] + v_[213] * v_[81];
     v_[216] = v_[65] * 1.547475;
     v_[7] = v_[280] * v_[79] + v_[7] * v_[77] + v_[213] * v_[78];
-    v_[280] = w_in[11] + v_[213];
+    v_[280] = w_in[5] + v_[213];
     v_[79] = v_[7] * -1.547475 - v_[280] * 0.038686875;
-    v_[98] = w_in[10] + v_[98] * v_[28] + v_[248] * v_[30];
+    v_[98] = w_in[4] + v_[98] * v_[28] + v_[248] * v_[30];
     v_[248] = v_[90] * v_[54] + v_[158] * v_[53];
     v_[78] = v_[98] * v_[86] + v_[248] * v_[77];
     v_[250] = v_[98] * v_[77] + v_[248] * v_[76];
@@ -2974,17 +2974,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
         (v_[280] * 1.5e-05 + v_[78] * 0.000198 + v_[250] * 0.010737) * v_[86] +
         ((0 - v_[280]) * 1.5e-05 + v_[78] * 0.000198 + v_[250] * 0.00605) * v_[86] +
         (v_[248] * 0.038686875 + v_[280] * -0.000829 + (0 - v_[78]) * -0.00146 + (0 - v_[250]) * 0.000198) * v_[77];
-    v_[4] = w_in[6] * v_[4];
-    v_[20] = w_in[7] * v_[20] + v_[4] * v_[19];
-    v_[11] = w_in[7] * v_[11] + v_[4] * v_[10];
-    v_[10] = w_in[7] * v_[10] + v_[4] * v_[9];
-    v_[9] = w_in[9] + v_[11] * -1;
-    v_[0] = w_in[8] + w_in[6] * v_[0];
+    v_[4] = w_in[0] * v_[4];
+    v_[20] = w_in[1] * v_[20] + v_[4] * v_[19];
+    v_[11] = w_in[1] * v_[11] + v_[4] * v_[10];
+    v_[10] = w_in[1] * v_[10] + v_[4] * v_[9];
+    v_[9] = w_in[3] + v_[11] * -1;
+    v_[0] = w_in[2] + w_in[0] * v_[0];
     v_[31] = v_[0] * v_[31] + v_[10] * v_[28];
-    v_[0] = w_in[10] + v_[0] * v_[28] + v_[10] * v_[30];
+    v_[0] = w_in[4] + v_[0] * v_[28] + v_[10] * v_[30];
     v_[54] = v_[9] * v_[54] + v_[31] * v_[53];
     v_[54] = (0 - ((v_[20] * v_[30] + v_[11] * v_[42]) * v_[77] +
-                      (((w_in[7] * v_[38] + v_[4] * v_[18]) * -1 + v_[10] * -0.304) * v_[62] +
+                      (((w_in[1] * v_[38] + v_[4] * v_[18]) * -1 + v_[10] * -0.304) * v_[62] +
                           (v_[20] * v_[28] + v_[11] * v_[43]) * v_[53] + v_[9] * v_[60] + v_[31] * v_[61]) *
                           v_[76] +
                       (v_[9] * v_[53] + v_[31] * v_[52]) * v_[81])) *
-- 
2.43.0


From f3d552671f608ec24af294fbb7534b237ee4fdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:41 +0000
Subject: [PATCH 52/83] fix: reconfiguring the solver takes over the choice of
 sensitivity

---
 .../OptconContinuousSystemInterface-impl.h    | 55 ++++++++++---------
 .../OptconContinuousSystemInterface.h         |  3 +
 2 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/system_interface/OptconContinuousSystemInterface-impl.h b/ct_optcon/include/ct/optcon/system_interface/OptconContinuousSystemInterface-impl.h
index 04195f8..b5aef76 100644
--- a/ct_optcon/include/ct/optcon/system_interface/OptconContinuousSystemInterface-impl.h
+++ b/ct_optcon/include/ct/optcon/system_interface/OptconContinuousSystemInterface-impl.h
@@ -74,29 +74,36 @@ void OptconContinuousSystemInterface<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALA
             this->systems_.at(i), this->settings_.dt, this->settings_.integrator, this->settings_.K_sim));
         discretizers_.at(i)->initialize();
 
-        if (this->settings_.useSensitivityIntegrator)
-        {
-            if (this->settings_.integrator != ct::core::IntegrationType::EULER &&
-                this->settings_.integrator != ct::core::IntegrationType::EULERCT &&
-                this->settings_.integrator != ct::core::IntegrationType::RK4 &&
-                this->settings_.integrator != ct::core::IntegrationType::RK4CT &&
-                this->settings_.integrator != ct::core::IntegrationType::EULER_SYM)
-                throw std::runtime_error("sensitivity integrator only available for Euler and RK4 integrators");
-
-            sensitivity_.at(i) = SensitivityPtr(
-                new ct::core::SensitivityIntegrator<STATE_DIM, CONTROL_DIM, STATE_DIM / 2, STATE_DIM / 2, SCALAR>(
-                    this->settings_.getSimulationTimestep(), this->linearSystems_.at(i), this->controller_.at(i),
-                    this->settings_.integrator, this->settings_.timeVaryingDiscretization));
-        }
-        else
-        {
-            sensitivity_.at(i) = SensitivityPtr(
-                new ct::core::SensitivityApproximation<STATE_DIM, CONTROL_DIM, STATE_DIM / 2, STATE_DIM / 2, SCALAR>(
-                    this->settings_.dt, this->linearSystems_.at(i), this->settings_.discretization));
-        }
+        sensitivity_.at(i) = createSensitivity(this->settings_, i);
     }
 }
 
+template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
+typename OptconContinuousSystemInterface<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::SensitivityPtr
+OptconContinuousSystemInterface<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::createSensitivity(
+    const settings_t& settings,
+    const int i) const
+{
+    if (settings.useSensitivityIntegrator)
+    {
+        if (settings.integrator != ct::core::IntegrationType::EULER &&
+            settings.integrator != ct::core::IntegrationType::EULERCT &&
+            settings.integrator != ct::core::IntegrationType::RK4 &&
+            settings.integrator != ct::core::IntegrationType::RK4CT &&
+            settings.integrator != ct::core::IntegrationType::EULER_SYM)
+            throw std::runtime_error("sensitivity integrator only available for Euler and RK4 integrators");
+
+        return SensitivityPtr(
+            new ct::core::SensitivityIntegrator<STATE_DIM, CONTROL_DIM, STATE_DIM / 2, STATE_DIM / 2, SCALAR>(
+                settings.getSimulationTimestep(), this->linearSystems_.at(i), this->controller_.at(i),
+                settings.integrator, settings.timeVaryingDiscretization));
+    }
+
+    return SensitivityPtr(
+        new ct::core::SensitivityApproximation<STATE_DIM, CONTROL_DIM, STATE_DIM / 2, STATE_DIM / 2, SCALAR>(
+            settings.dt, this->linearSystems_.at(i), settings.discretization));
+}
+
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
 void OptconContinuousSystemInterface<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::configure(
     const settings_t& settings)
@@ -116,12 +123,8 @@ void OptconContinuousSystemInterface<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALA
         if (!sensitivity_[i])
             break;
 
-        sensitivity_[i]->setApproximation(settings.discretization);
-
-        if (settings.useSensitivityIntegrator)
-            sensitivity_[i]->setTimeDiscretization(settings.getSimulationTimestep());
-        else
-            sensitivity_[i]->setTimeDiscretization(settings.dt);
+        // the type of the sensitivity and its time step depend on the settings
+        sensitivity_[i] = createSensitivity(settings, i);
 
         discretizers_[i]->setParameters(settings.dt, settings.K_sim);
     }
diff --git a/ct_optcon/include/ct/optcon/system_interface/OptconContinuousSystemInterface.h b/ct_optcon/include/ct/optcon/system_interface/OptconContinuousSystemInterface.h
index 30fff36..f3ef7eb 100644
--- a/ct_optcon/include/ct/optcon/system_interface/OptconContinuousSystemInterface.h
+++ b/ct_optcon/include/ct/optcon/system_interface/OptconContinuousSystemInterface.h
@@ -115,6 +115,9 @@ public:
         const size_t threadId) override;
 
 private:
+    //! create the sensitivity of thread i as requested by the settings
+    SensitivityPtr createSensitivity(const settings_t& settings, const int i) const;
+
     std::vector<system_discretizer_ptr_t, Eigen::aligned_allocator<system_discretizer_ptr_t>>
         discretizers_;  //! system discretizers
 
-- 
2.43.0


From 1c7db2d97f36155ecb73f7d4838d81d1c93cc5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:37 +0000
Subject: [PATCH 53/83] fix: setProblem of the nonlinear solver takes the
 horizon of a discrete-time problem as number of stages

---
 ct_optcon/include/ct/optcon/solver/NLOptConSolver.hpp | 6 ++++++
 ct_optcon/include/ct/optcon/solver/OptConSolver.h     | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/solver/NLOptConSolver.hpp b/ct_optcon/include/ct/optcon/solver/NLOptConSolver.hpp
index aa5578e..0748698 100644
--- a/ct_optcon/include/ct/optcon/solver/NLOptConSolver.hpp
+++ b/ct_optcon/include/ct/optcon/solver/NLOptConSolver.hpp
@@ -243,6 +243,12 @@ public:
     void logSummaryToMatlab(const std::string& fileName);
 
 protected:
+    //! the time horizon of a problem is a time or a number of stages
+    virtual void changeProblemTimeHorizon(const OptConProblem_t& optConProblem) override
+    {
+        nlocBackend_->changeTimeHorizon(optConProblem.getTimeHorizon());
+    }
+
     //! the backend holding all the math operations
     std::shared_ptr<Backend_t> nlocBackend_;
 
diff --git a/ct_optcon/include/ct/optcon/solver/OptConSolver.h b/ct_optcon/include/ct/optcon/solver/OptConSolver.h
index ac11af5..39b7ec5 100644
--- a/ct_optcon/include/ct/optcon/solver/OptConSolver.h
+++ b/ct_optcon/include/ct/optcon/solver/OptConSolver.h
@@ -74,7 +74,7 @@ public:
     {
         optConProblem.verify();
 
-        changeTimeHorizon(optConProblem.getTimeHorizon());
+        changeProblemTimeHorizon(optConProblem);
         changeInitialState(optConProblem.getInitialState());
         changeCostFunction(optConProblem.getCostFunction());
         changeNonlinearSystem(optConProblem.getNonlinearSystem());
@@ -347,6 +347,13 @@ public:
     {
         throw std::runtime_error("Generate Code not implemented for this solver");
     }
+
+protected:
+    //! take over the time horizon of a problem, which is a number of stages if the problem is discrete-time
+    virtual void changeProblemTimeHorizon(const OptConProblem_t& optConProblem)
+    {
+        changeTimeHorizon(optConProblem.getTimeHorizon());
+    }
 };
 }  // namespace optcon
 }  // namespace ct
-- 
2.43.0


From 8617d2527b75fff47f00912375d92a93e869f6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:44 +0000
Subject: [PATCH 54/83] fix: warm starts keep increasing time stamps when the
 horizon grows

---
 .../default/StateFeedbackPolicyHandler-impl.h             | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h b/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h
index 352d866..5a154f1 100644
--- a/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h
@@ -62,12 +62,12 @@ void StateFeedbackPolicyHandler<STATE_DIM, CONTROL_DIM, SCALAR>::designWarmStart
     if (Kn_new > currentSize)
     {
         //extend at back with constant value taken from last element
-        bool timeIsRelative = true;
+        bool timeIsAbsolute = false;
         for (int i = 0; i < Kn_new - currentSize; i++)
         {
-            FeedbackTraj.push_back(FeedbackTraj.back(), dt_, timeIsRelative);
-            FeedForwardTraj.push_back(FeedForwardTraj.back(), dt_, timeIsRelative);
-            StateRefTraj.push_back(StateRefTraj.back(), dt_, timeIsRelative);
+            FeedbackTraj.push_back(FeedbackTraj.back(), dt_, timeIsAbsolute);
+            FeedForwardTraj.push_back(FeedForwardTraj.back(), dt_, timeIsAbsolute);
+            StateRefTraj.push_back(StateRefTraj.back(), dt_, timeIsAbsolute);
         }
     }
     else if (Kn_new < currentSize)
-- 
2.43.0


From c81d327f942615cadf170c17e9e025e66ff0cdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:44 +0000
Subject: [PATCH 55/83] fix: policy handlers that do not truncate report zero
 truncation

---
 .../include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h b/ct_optcon/include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h
index 614f659..d2f36ec 100644
--- a/ct_optcon/include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h
@@ -31,6 +31,8 @@ void PolicyHandler<POLICY, STATE_DIM, CONTROL_DIM, SCALAR>::truncateSolutionFron
     POLICY& policy,
     SCALAR& effectivelyTruncated)
 {
+    // this policy handler does not truncate
+    effectivelyTruncated = SCALAR(0.0);
 }
 
 template <typename POLICY, size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
-- 
2.43.0


From 523084bb5e7086c8a98a0653a578092b459d5452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:13 +0000
Subject: [PATCH 56/83] fix: the MPC time keeper only reports delays that it
 measured

---
 .../include/ct/optcon/mpc/MpcTimeKeeper.h     | 32 +++++++++++--------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
index 0f93e6b..8b7c8ea 100644
--- a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
+++ b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
@@ -212,24 +212,30 @@ public:
     //! stop measuring time elapsed during solving the optimal control problem
     void stopDelayMeasurement(const SCALAR& externalTime)
     {
+        // measure how much time passed since last successful solve()
         if (mpc_settings_.useExternalTiming_)
-        {
-            ext_timer_.stop(externalTime);
-            lastMeasuredDelay_ = ext_timer_.getElapsedTime();
-            // measure how much time passed since last successful solve()
             ext_lastSolveTimer_.start(externalTime);
-        }
         else
-        {
-            timer_.stop();
-            lastMeasuredDelay_ = timer_.getElapsedTime();
-            // measure how much time passed since last successful solve()
             lastSolveTimer_.start();
-        }
 
-        maxDelayMeasured_ = std::max(maxDelayMeasured_, lastMeasuredDelay_);
-        minDelayMeasured_ = std::min(minDelayMeasured_, lastMeasuredDelay_);
-        summedDelay_ += lastMeasuredDelay_;
+        // the delay timers are only running if the delay is supposed to be measured
+        if (mpc_settings_.measureDelay_)
+        {
+            if (mpc_settings_.useExternalTiming_)
+            {
+                ext_timer_.stop(externalTime);
+                lastMeasuredDelay_ = ext_timer_.getElapsedTime();
+            }
+            else
+            {
+                timer_.stop();
+                lastMeasuredDelay_ = timer_.getElapsedTime();
+            }
+
+            maxDelayMeasured_ = std::max(maxDelayMeasured_, lastMeasuredDelay_);
+            minDelayMeasured_ = std::min(minDelayMeasured_, lastMeasuredDelay_);
+            summedDelay_ += lastMeasuredDelay_;
+        }
 
         if (lastMeasuredDelay_ < 0)
             throw std::runtime_error("Fatal: measured delay cannot be < 0");
-- 
2.43.0


From 423003cc8b52774e51d9f7bb1c28da165691acde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:13 +0000
Subject: [PATCH 57/83] fix: MPC::setTimeHorizonStrategy reaches the time
 keeper

---
 ct_optcon/include/ct/optcon/mpc/MPC-impl.h      | 1 +
 ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
index fabc657..711d050 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
@@ -85,6 +85,7 @@ template <typename OPTCON_SOLVER>
 void MPC<OPTCON_SOLVER>::setTimeHorizonStrategy(std::shared_ptr<tpl::MpcTimeHorizon<Scalar_t>> timeHorizonStrategy)
 {
     timeHorizonStrategy_ = timeHorizonStrategy;
+    timeKeeper_.setTimeHorizonStrategy(timeHorizonStrategy);
 }
 
 
diff --git a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
index 8b7c8ea..8b7866e 100644
--- a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
+++ b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
@@ -196,6 +196,15 @@ public:
 	 * 	the new settings to be handed over
 	 */
     void updateSettings(const mpc_settings& settings) { mpc_settings_ = settings; }
+    //! replace the time horizon strategy
+    /*!
+	 * @param timeHorizonStrategy
+	 * 	the strategy employed from the next call to computeNewTimings() on
+	 */
+    void setTimeHorizonStrategy(std::shared_ptr<MpcTimeHorizon<SCALAR>> timeHorizonStrategy)
+    {
+        timeHorizonStrategy_ = timeHorizonStrategy;
+    }
     //! start measuring time elapsed during planning / solving the optimal control problem
     void startDelayMeasurement(const SCALAR& externalTime)
     {
-- 
2.43.0


From 89246a06c574d70bf9272762cbab8e21de06733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:30 +0000
Subject: [PATCH 58/83] fix: MPC predicts the state with the policy of the last
 iteration, not with the shifted warm start

---
 ct_optcon/include/ct/optcon/mpc/MPC-impl.h | 4 +++-
 ct_optcon/include/ct/optcon/mpc/MPC.h      | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
index 711d050..fd4a0d1 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
@@ -95,6 +95,7 @@ void MPC<OPTCON_SOLVER>::setInitialGuess(const Policy_t& initGuess)
     solver_.setInitialGuess(initGuess);
     policyHandler_->setPolicy(initGuess);
     currentPolicy_ = initGuess;
+    lastPolicy_ = initGuess;
 }
 
 
@@ -128,7 +129,7 @@ void MPC<OPTCON_SOLVER>::doForwardIntegration(const Scalar_t& t_forward_start,
         else
         {
             // ... or with the controller obtained from the solver (solution of last mpc-run).
-            std::shared_ptr<Policy_t> prevController(new Policy_t(currentPolicy_));
+            std::shared_ptr<Policy_t> prevController(new Policy_t(lastPolicy_));
             integrateForward(t_forward_start, t_forward_stop, x_start, prevController);
         }
     }
@@ -252,6 +253,7 @@ bool MPC<OPTCON_SOLVER>::finishIteration(const core::StateVector<STATE_DIM, Scal
 
     // update policy result
     newPolicy = currentPolicy_;
+    lastPolicy_ = currentPolicy_;
 
     // stop the delay measurement. This needs to be the last method called in finishIteration().
     timeKeeper_.stopDelayMeasurement(x_ts);
diff --git a/ct_optcon/include/ct/optcon/mpc/MPC.h b/ct_optcon/include/ct/optcon/mpc/MPC.h
index 6399a2f..89b93a0 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC.h
@@ -242,6 +242,9 @@ private:
     //! currently optimal policy, initial guess respectively
     Policy_t currentPolicy_;
 
+    //! policy handed out by the last iteration, its times refer to the state prediction of the next iteration
+    Policy_t lastPolicy_;
+
     //! time horizon strategy, e.g. receding horizon optimal control
     std::shared_ptr<tpl::MpcTimeHorizon<Scalar_t>> timeHorizonStrategy_;
 
-- 
2.43.0


From ddca390a44e7d3f59f9b3be2cdb32e9459ef547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:16 +0000
Subject: [PATCH 59/83] fix: changing the integrator of the MPC state
 prediction no longer leaves dangling callbacks

---
 ct_optcon/include/ct/optcon/mpc/MPC-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
index fd4a0d1..809bef0 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
@@ -291,7 +291,7 @@ void MPC<OPTCON_SOLVER>::updateSettings(const mpc_settings& settings)
     checkSettings(settings);
 
     if (settings.stateForwardIntegratorType_ != mpc_settings_.stateForwardIntegratorType_)
-        forwardIntegrator_ = ct::core::Integrator<STATE_DIM, Scalar_t>(dynamics_, settings.stateForwardIntegratorType_);
+        forwardIntegrator_.changeIntegrationType(settings.stateForwardIntegratorType_);
 
     mpc_settings_ = settings;
     timeKeeper_.updateSettings(settings);
-- 
2.43.0


From 0fd1368fffcf2406d0ca701550b06a317f8e3070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:45 +0000
Subject: [PATCH 60/83] fix: trapezoidal weight of the last node in the simple
 DMS cost evaluator

---
 .../ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
index 7bd7a0a..2bb149b 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
@@ -141,7 +141,7 @@ void CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::updatePhi()
             for (size_t i = 1; i < settings_.N_; i++)
                 phi_(i) = SCALAR(0.5) * (timeGrid_->getShotEndTime(i) - timeGrid_->getShotStartTime(i - 1));
 
-            phi_(settings_.N_) = SCALAR(0.5) * (timeGrid_->getShotDuration(settings_.N_));
+            phi_(settings_.N_) = SCALAR(0.5) * (timeGrid_->getShotDuration(settings_.N_ - 1));
             break;
         }
         default:
-- 
2.43.0


From ee8234f1beabf243606a212129a2f7d9e7a20d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:02 +0000
Subject: [PATCH 61/83] fix: evaluate discretized constraints with the input of
 the node

---
 .../include/ct/optcon/dms/constraints/ConstraintDiscretizer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
index 04940e9..ed59f74 100644
--- a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
+++ b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
@@ -130,7 +130,7 @@ public:
             for (auto constraint : constraints_)
             {
                 constraint->setCurrentStateAndControl(
-                    w_->getOptimizedState(n), controlSpliner_->evalSpline(tShot, n), tShot);
+                    w_->getOptimizedState(n), w_->getOptimizedControl(n), tShot);
                 constraintSize = constraint->getIntermediateConstraintsCount();
                 if (constraintSize > 0)
                 {
@@ -165,7 +165,7 @@ public:
             for (auto constraint : constraints_)
             {
                 constraint->setCurrentStateAndControl(
-                    w_->getOptimizedState(n), controlSpliner_->evalSpline(tShot, n), tShot);
+                    w_->getOptimizedState(n), w_->getOptimizedControl(n), tShot);
                 jacSize = constraint->getJacobianStateNonZeroCountIntermediate();
                 if (jacSize > 0)
                 {
-- 
2.43.0


From d4a37dc1d3a41e2a9a62d47690848acff1e47a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:02 +0000
Subject: [PATCH 62/83] fix: DmsProblem::changeInitialState updates the initial
 state constraint

---
 ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
index 2fbf7d1..ddd9eeb 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
@@ -258,6 +258,8 @@ public:
     {
         // constraints_->changeInitialConstraint(x0);
         optVariablesDms_->changeInitialState(x0);
+        std::static_pointer_cast<ConstraintsContainerDms<STATE_DIM, CONTROL_DIM, SCALAR>>(this->constraints_)
+            ->changeInitialConstraint(x0);
     }
 
     /**
-- 
2.43.0


From 4697bf90ce04947cfaeb67fa81a41e70be4a27d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:03 +0000
Subject: [PATCH 63/83] fix: count the input Jacobian entries of general
 constraints in the DMS transcription

---
 .../ct/optcon/dms/constraints/ConstraintDiscretizer.h       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
index ed59f74..f859bd9 100644
--- a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
+++ b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
@@ -110,8 +110,10 @@ public:
         discreteLowerBound_.resize(constraintsCount_);
         discreteUpperBound_.resize(constraintsCount_);
 
-        nonZeroJacCountIntermediate_ += (N_ + 1) * generalConstraints->getJacobianStateNonZeroCountIntermediate();
-        nonZeroJacCountTerminal_ += generalConstraints->getJacobianStateNonZeroCountTerminal();
+        nonZeroJacCountIntermediate_ += (N_ + 1) * (generalConstraints->getJacobianStateNonZeroCountIntermediate() +
+                                                       generalConstraints->getJacobianInputNonZeroCountIntermediate());
+        nonZeroJacCountTerminal_ += generalConstraints->getJacobianStateNonZeroCountTerminal() +
+                                    generalConstraints->getJacobianInputNonZeroCountTerminal();
         nonZeroJacCount_ = nonZeroJacCountIntermediate_ + nonZeroJacCountTerminal_;
 
         discreteJac_.resize(nonZeroJacCount_);
-- 
2.43.0


From 7561452f29cd821ff357fa916804659796fa8b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:03 +0000
Subject: [PATCH 64/83] fix: interpolate the DMS initial guess between the
 initial and final state

---
 .../ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h b/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h
index 39ce2d7..69181be 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h
@@ -110,7 +110,7 @@ void OptVectorDms<STATE_DIM, CONTROL_DIM, SCALAR>::setInitGuess(const state_vect
                 break;
             }
             case 1:
-                this->xInit_.segment(s_index, STATE_DIM) = x0 + (x_f - x0) * (i / (numPairs_ - 1));
+                this->xInit_.segment(s_index, STATE_DIM) = x0 + (x_f - x0) * (SCALAR(i) / SCALAR(numPairs_ - 1));
                 break;
         }
         this->xInit_.segment(q_index, CONTROL_DIM) = u0;
-- 
2.43.0


From 4d35cb80a4daeffad5024b5ab6c0d763349abed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:51 +0000
Subject: [PATCH 65/83] fix: a change of the DMS time horizon reaches the shots
 and the cost weights

---
 ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h    | 8 ++++++--
 ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h | 9 +++++++++
 .../dms/dms_core/cost_evaluator/CostEvaluatorSimple.h    | 4 ++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
index ddd9eeb..ee85f3a 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
@@ -248,7 +248,12 @@ public:
 	 *
 	 * @param[in]  tf    The new time horizon
 	 */
-    void changeTimeHorizon(const SCALAR tf) { timeGrid_->changeTimeHorizon(tf); }
+    void changeTimeHorizon(const SCALAR tf)
+    {
+        timeGrid_->changeTimeHorizon(tf);
+        for (auto shotContainer : shotContainers_)
+            shotContainer->updateTimings();
+    }
     /**
 	 * @brief      Updates the initial state
 	 *
@@ -256,7 +261,6 @@ public:
 	 */
     void changeInitialState(const state_vector_t& x0)
     {
-        // constraints_->changeInitialConstraint(x0);
         optVariablesDms_->changeInitialState(x0);
         std::static_pointer_cast<ConstraintsContainerDms<STATE_DIM, CONTROL_DIM, SCALAR>>(this->constraints_)
             ->changeInitialConstraint(x0);
diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h b/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
index b9fceb6..d80f4f4 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
@@ -159,6 +159,15 @@ public:
         }
     }
 
+    /**
+     * @brief      Adapts the start time and the number of integration steps to the current time grid
+     */
+    void updateTimings()
+    {
+        tStart_ = timeGrid_->getShotStartTime(shotNr_);
+        nSteps_ = timeGrid_->getShotDuration(shotNr_) / settings_.dt_sim_ + 0.5;
+    }
+
     /**
 	 * @brief      Performs the state and the sensitivity integration between the shots
 	 */
diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
index 2bb149b..80dcf95 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
@@ -84,7 +84,7 @@ private:
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 SCALAR CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::eval()
 {
-    // updatePhi();
+    updatePhi();
     SCALAR cost = SCALAR(0.0);
 
     for (size_t i = 0; i < settings_.N_ + 1; ++i)
@@ -105,7 +105,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 void CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::evalGradient(size_t grad_length,
     Eigen::Map<Eigen::Matrix<SCALAR, Eigen::Dynamic, 1>>& grad)
 {
-    // updatePhi();
+    updatePhi();
     grad.setZero();
     for (size_t i = 0; i < settings_.N_ + 1; ++i)
     {
-- 
2.43.0


From 639f26e53effd8e1b47dbfa0e4da550623fc71bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:20 +0000
Subject: [PATCH 66/83] fix: an NLP variable vector without initial guess
 starts from zero

---
 ct_optcon/include/ct/optcon/nlp/OptVector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ct_optcon/include/ct/optcon/nlp/OptVector.h b/ct_optcon/include/ct/optcon/nlp/OptVector.h
index c0c26df..6c5bdff 100644
--- a/ct_optcon/include/ct/optcon/nlp/OptVector.h
+++ b/ct_optcon/include/ct/optcon/nlp/OptVector.h
@@ -41,6 +41,7 @@ public:
         x_.resize(n);
         x_.setZero();
         xInit_.resize(n);
+        xInit_.setZero();
         xLb_.resize(n);
         xUb_.resize(n);
         xLb_.setConstant(std::numeric_limits<SCALAR>::lowest());
-- 
2.43.0


From c9cddfc885a7a4b652a68dae9dd9ef5fd67f7940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:21 +0000
Subject: [PATCH 67/83] fix: quadrotor-with-load inertia tensors follow the
 model description (mass matrix was indefinite)

---
 .../QuadrotorWithLoad/generated/inertia_properties.impl.h   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ct_models/include/ct/models/QuadrotorWithLoad/generated/inertia_properties.impl.h b/ct_models/include/ct/models/QuadrotorWithLoad/generated/inertia_properties.impl.h
index 314feae..3d745f1 100644
--- a/ct_models/include/ct/models/QuadrotorWithLoad/generated/inertia_properties.impl.h
+++ b/ct_models/include/ct/models/QuadrotorWithLoad/generated/inertia_properties.impl.h
@@ -7,8 +7,8 @@ iit::ct_quadrotor::dyn::tpl::InertiaProperties<TRAIT>::InertiaProperties()
         com_body,
         rbd::Utils::buildInertiaTensor(
                 SCALAR(0.03),
-                SCALAR(0.05),
                 SCALAR(0.03),
+                SCALAR(0.05),
                 SCALAR(0.0),
                 SCALAR(0.0),
                 SCALAR(0.0)) );
@@ -19,8 +19,8 @@ iit::ct_quadrotor::dyn::tpl::InertiaProperties<TRAIT>::InertiaProperties()
         com_link1,
         rbd::Utils::buildInertiaTensor(
                 SCALAR(2.075E-5),
-                SCALAR(1.0E-6),
                 SCALAR(2.075E-5),
+                SCALAR(1.0E-6),
                 SCALAR(0.0),
                 SCALAR(0.0),
                 SCALAR(0.0)) );
@@ -30,9 +30,9 @@ iit::ct_quadrotor::dyn::tpl::InertiaProperties<TRAIT>::InertiaProperties()
         SCALAR(0.1),
         com_link2,
         rbd::Utils::buildInertiaTensor(
+                SCALAR(2.5E-6),
                 SCALAR(0.004084),
                 SCALAR(0.004084),
-                SCALAR(2.5E-6),
                 SCALAR(0.0),
                 SCALAR(0.0),
                 SCALAR(0.0)) );
-- 
2.43.0


From 7931f3db4ae839dc6d11a2806dffca8eeffb6842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:02 +0000
Subject: [PATCH 68/83] fix: L^T L factorization and inverse of floating-base
 inertia matrices include the base

---
 .../ct/models/HyQ/generated/jsim.impl.h       | 135 ++----------------
 .../QuadrotorWithLoad/generated/jsim.impl.h   |  26 ++--
 2 files changed, 22 insertions(+), 139 deletions(-)

diff --git a/ct_models/include/ct/models/HyQ/generated/jsim.impl.h b/ct_models/include/ct/models/HyQ/generated/jsim.impl.h
index b26126c..7d4677e 100644
--- a/ct_models/include/ct/models/HyQ/generated/jsim.impl.h
+++ b/ct_models/include/ct/models/HyQ/generated/jsim.impl.h
@@ -205,140 +205,27 @@ const typename iit::HyQ::dyn::tpl::JSIM<TRAIT>& iit::HyQ::dyn::tpl::JSIM<TRAIT>:
 template <typename TRAIT>
 void iit::HyQ::dyn::tpl::JSIM<TRAIT>::computeL() {
     L = this -> template triangularView<Eigen::Lower>();
-    // Joint RH_KFE, index 11 :
-    L(11, 11) = std::sqrt(L(11, 11));
-    L(11, 10) = L(11, 10) / L(11, 11);
-    L(11, 9) = L(11, 9) / L(11, 11);
-    L(10, 10) = L(10, 10) - L(11, 10) * L(11, 10);
-    L(10, 9) = L(10, 9) - L(11, 10) * L(11, 9);
-    L(9, 9) = L(9, 9) - L(11, 9) * L(11, 9);
-    
-    // Joint RH_HFE, index 10 :
-    L(10, 10) = std::sqrt(L(10, 10));
-    L(10, 9) = L(10, 9) / L(10, 10);
-    L(9, 9) = L(9, 9) - L(10, 9) * L(10, 9);
-    
-    // Joint RH_HAA, index 9 :
-    L(9, 9) = std::sqrt(L(9, 9));
-    
-    // Joint LH_KFE, index 8 :
-    L(8, 8) = std::sqrt(L(8, 8));
-    L(8, 7) = L(8, 7) / L(8, 8);
-    L(8, 6) = L(8, 6) / L(8, 8);
-    L(7, 7) = L(7, 7) - L(8, 7) * L(8, 7);
-    L(7, 6) = L(7, 6) - L(8, 7) * L(8, 6);
-    L(6, 6) = L(6, 6) - L(8, 6) * L(8, 6);
-    
-    // Joint LH_HFE, index 7 :
-    L(7, 7) = std::sqrt(L(7, 7));
-    L(7, 6) = L(7, 6) / L(7, 7);
-    L(6, 6) = L(6, 6) - L(7, 6) * L(7, 6);
-    
-    // Joint LH_HAA, index 6 :
-    L(6, 6) = std::sqrt(L(6, 6));
-    
-    // Joint RF_KFE, index 5 :
-    L(5, 5) = std::sqrt(L(5, 5));
-    L(5, 4) = L(5, 4) / L(5, 5);
-    L(5, 3) = L(5, 3) / L(5, 5);
-    L(4, 4) = L(4, 4) - L(5, 4) * L(5, 4);
-    L(4, 3) = L(4, 3) - L(5, 4) * L(5, 3);
-    L(3, 3) = L(3, 3) - L(5, 3) * L(5, 3);
-    
-    // Joint RF_HFE, index 4 :
-    L(4, 4) = std::sqrt(L(4, 4));
-    L(4, 3) = L(4, 3) / L(4, 4);
-    L(3, 3) = L(3, 3) - L(4, 3) * L(4, 3);
-    
-    // Joint RF_HAA, index 3 :
-    L(3, 3) = std::sqrt(L(3, 3));
-    
-    // Joint LF_KFE, index 2 :
-    L(2, 2) = std::sqrt(L(2, 2));
-    L(2, 1) = L(2, 1) / L(2, 2);
-    L(2, 0) = L(2, 0) / L(2, 2);
-    L(1, 1) = L(1, 1) - L(2, 1) * L(2, 1);
-    L(1, 0) = L(1, 0) - L(2, 1) * L(2, 0);
-    L(0, 0) = L(0, 0) - L(2, 0) * L(2, 0);
-    
-    // Joint LF_HFE, index 1 :
-    L(1, 1) = std::sqrt(L(1, 1));
-    L(1, 0) = L(1, 0) / L(1, 1);
-    L(0, 0) = L(0, 0) - L(1, 0) * L(1, 0);
-    
-    // Joint LF_HAA, index 0 :
-    L(0, 0) = std::sqrt(L(0, 0));
-    
+    // the rows and columns of the floating base come first, those of the joints follow
+    for (int k = L.rows() - 1; k >= 0; k--) {
+        L(k, k) = std::sqrt(L(k, k));
+        for (int i = 0; i < k; i++)
+            L(k, i) = L(k, i) / L(k, k);
+        for (int i = 0; i < k; i++)
+            for (int j = 0; j <= i; j++)
+                L(i, j) = L(i, j) - L(k, i) * L(k, j);
+    }
 }
 
 template <typename TRAIT>
 void iit::HyQ::dyn::tpl::JSIM<TRAIT>::computeInverse() {
     computeLInverse();
 
-    inverse(0, 0) =  + (Linv(0, 0) * Linv(0, 0));
-    inverse(1, 1) =  + (Linv(1, 0) * Linv(1, 0)) + (Linv(1, 1) * Linv(1, 1));
-    inverse(1, 0) =  + (Linv(1, 0) * Linv(0, 0));
-    inverse(0, 1) = inverse(1, 0);
-    inverse(2, 2) =  + (Linv(2, 0) * Linv(2, 0)) + (Linv(2, 1) * Linv(2, 1)) + (Linv(2, 2) * Linv(2, 2));
-    inverse(2, 1) =  + (Linv(2, 0) * Linv(1, 0)) + (Linv(2, 1) * Linv(1, 1));
-    inverse(1, 2) = inverse(2, 1);
-    inverse(2, 0) =  + (Linv(2, 0) * Linv(0, 0));
-    inverse(0, 2) = inverse(2, 0);
-    inverse(3, 3) =  + (Linv(3, 3) * Linv(3, 3));
-    inverse(4, 4) =  + (Linv(4, 3) * Linv(4, 3)) + (Linv(4, 4) * Linv(4, 4));
-    inverse(4, 3) =  + (Linv(4, 3) * Linv(3, 3));
-    inverse(3, 4) = inverse(4, 3);
-    inverse(5, 5) =  + (Linv(5, 3) * Linv(5, 3)) + (Linv(5, 4) * Linv(5, 4)) + (Linv(5, 5) * Linv(5, 5));
-    inverse(5, 4) =  + (Linv(5, 3) * Linv(4, 3)) + (Linv(5, 4) * Linv(4, 4));
-    inverse(4, 5) = inverse(5, 4);
-    inverse(5, 3) =  + (Linv(5, 3) * Linv(3, 3));
-    inverse(3, 5) = inverse(5, 3);
-    inverse(6, 6) =  + (Linv(6, 6) * Linv(6, 6));
-    inverse(7, 7) =  + (Linv(7, 6) * Linv(7, 6)) + (Linv(7, 7) * Linv(7, 7));
-    inverse(7, 6) =  + (Linv(7, 6) * Linv(6, 6));
-    inverse(6, 7) = inverse(7, 6);
-    inverse(8, 8) =  + (Linv(8, 6) * Linv(8, 6)) + (Linv(8, 7) * Linv(8, 7)) + (Linv(8, 8) * Linv(8, 8));
-    inverse(8, 7) =  + (Linv(8, 6) * Linv(7, 6)) + (Linv(8, 7) * Linv(7, 7));
-    inverse(7, 8) = inverse(8, 7);
-    inverse(8, 6) =  + (Linv(8, 6) * Linv(6, 6));
-    inverse(6, 8) = inverse(8, 6);
-    inverse(9, 9) =  + (Linv(9, 9) * Linv(9, 9));
-    inverse(10, 10) =  + (Linv(10, 9) * Linv(10, 9)) + (Linv(10, 10) * Linv(10, 10));
-    inverse(10, 9) =  + (Linv(10, 9) * Linv(9, 9));
-    inverse(9, 10) = inverse(10, 9);
-    inverse(11, 11) =  + (Linv(11, 9) * Linv(11, 9)) + (Linv(11, 10) * Linv(11, 10)) + (Linv(11, 11) * Linv(11, 11));
-    inverse(11, 10) =  + (Linv(11, 9) * Linv(10, 9)) + (Linv(11, 10) * Linv(10, 10));
-    inverse(10, 11) = inverse(11, 10);
-    inverse(11, 9) =  + (Linv(11, 9) * Linv(9, 9));
-    inverse(9, 11) = inverse(11, 9);
+    inverse = Linv * Linv.transpose();
 }
 
 template <typename TRAIT>
 void iit::HyQ::dyn::tpl::JSIM<TRAIT>::computeLInverse() {
     //assumes L has been computed already
-    Linv(0, 0) = 1 / L(0, 0);
-    Linv(1, 1) = 1 / L(1, 1);
-    Linv(2, 2) = 1 / L(2, 2);
-    Linv(3, 3) = 1 / L(3, 3);
-    Linv(4, 4) = 1 / L(4, 4);
-    Linv(5, 5) = 1 / L(5, 5);
-    Linv(6, 6) = 1 / L(6, 6);
-    Linv(7, 7) = 1 / L(7, 7);
-    Linv(8, 8) = 1 / L(8, 8);
-    Linv(9, 9) = 1 / L(9, 9);
-    Linv(10, 10) = 1 / L(10, 10);
-    Linv(11, 11) = 1 / L(11, 11);
-    Linv(1, 0) = - Linv(0, 0) * ((Linv(1, 1) * L(1, 0)) + 0);
-    Linv(2, 1) = - Linv(1, 1) * ((Linv(2, 2) * L(2, 1)) + 0);
-    Linv(2, 0) = - Linv(0, 0) * ((Linv(2, 1) * L(1, 0)) + (Linv(2, 2) * L(2, 0)) + 0);
-    Linv(4, 3) = - Linv(3, 3) * ((Linv(4, 4) * L(4, 3)) + 0);
-    Linv(5, 4) = - Linv(4, 4) * ((Linv(5, 5) * L(5, 4)) + 0);
-    Linv(5, 3) = - Linv(3, 3) * ((Linv(5, 4) * L(4, 3)) + (Linv(5, 5) * L(5, 3)) + 0);
-    Linv(7, 6) = - Linv(6, 6) * ((Linv(7, 7) * L(7, 6)) + 0);
-    Linv(8, 7) = - Linv(7, 7) * ((Linv(8, 8) * L(8, 7)) + 0);
-    Linv(8, 6) = - Linv(6, 6) * ((Linv(8, 7) * L(7, 6)) + (Linv(8, 8) * L(8, 6)) + 0);
-    Linv(10, 9) = - Linv(9, 9) * ((Linv(10, 10) * L(10, 9)) + 0);
-    Linv(11, 10) = - Linv(10, 10) * ((Linv(11, 11) * L(11, 10)) + 0);
-    Linv(11, 9) = - Linv(9, 9) * ((Linv(11, 10) * L(10, 9)) + (Linv(11, 11) * L(11, 9)) + 0);
+    Linv = L.template triangularView<Eigen::Lower>().solve(MatrixType::Identity());
 }
 
diff --git a/ct_models/include/ct/models/QuadrotorWithLoad/generated/jsim.impl.h b/ct_models/include/ct/models/QuadrotorWithLoad/generated/jsim.impl.h
index 66ee1a0..03585d4 100644
--- a/ct_models/include/ct/models/QuadrotorWithLoad/generated/jsim.impl.h
+++ b/ct_models/include/ct/models/QuadrotorWithLoad/generated/jsim.impl.h
@@ -61,32 +61,28 @@
  template <typename TRAIT>
  void iit::ct_quadrotor::dyn::tpl::JSIM<TRAIT>::computeL() {
      L = this -> template triangularView<Eigen::Lower>();
-     // Joint jB, index 1 :
-     L(1, 1) = std::sqrt(L(1, 1));
-     L(1, 0) = L(1, 0) / L(1, 1);
-     L(0, 0) = L(0, 0) - L(1, 0) * L(1, 0);
-     
-     // Joint jA, index 0 :
-     L(0, 0) = std::sqrt(L(0, 0));
-     
+     // the rows and columns of the floating base come first, those of the joints follow
+     for (int k = L.rows() - 1; k >= 0; k--) {
+         L(k, k) = std::sqrt(L(k, k));
+         for (int i = 0; i < k; i++)
+             L(k, i) = L(k, i) / L(k, k);
+         for (int i = 0; i < k; i++)
+             for (int j = 0; j <= i; j++)
+                 L(i, j) = L(i, j) - L(k, i) * L(k, j);
+     }
  }
 
  template <typename TRAIT>
  void iit::ct_quadrotor::dyn::tpl::JSIM<TRAIT>::computeInverse() {
      computeLInverse();
 
-     inverse(0, 0) =  + (Linv(0, 0) * Linv(0, 0));
-     inverse(1, 1) =  + (Linv(1, 0) * Linv(1, 0)) + (Linv(1, 1) * Linv(1, 1));
-     inverse(1, 0) =  + (Linv(1, 0) * Linv(0, 0));
-     inverse(0, 1) = inverse(1, 0);
+     inverse = Linv * Linv.transpose();
  }
 
  template <typename TRAIT>
  void iit::ct_quadrotor::dyn::tpl::JSIM<TRAIT>::computeLInverse() {
      //assumes L has been computed already
-     Linv(0, 0) = 1 / L(0, 0);
-     Linv(1, 1) = 1 / L(1, 1);
-     Linv(1, 0) = - Linv(0, 0) * ((Linv(1, 1) * L(1, 0)) + 0);
+     Linv = L.template triangularView<Eigen::Lower>().solve(MatrixType::Identity());
  }
 
 
-- 
2.43.0


From d27e14f7a8098f378a818f1ec476fc5a64306884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:02 +0000
Subject: [PATCH 69/83] fix: QuadrotorLinear returns the matrix types of the
 LinearSystem interface

---
 ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp b/ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp
index 32c2283..5a7bd46 100644
--- a/ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp
+++ b/ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp
@@ -18,8 +18,8 @@ public:
     typedef ct::core::StateVector<quadrotor::nStates> state_vector_t;
     typedef ct::core::ControlVector<quadrotor::nControls> control_vector_t;
 
-    typedef Eigen::Matrix<double, quadrotor::nStates, quadrotor::nStates> state_matrix_t;
-    typedef Eigen::Matrix<double, quadrotor::nStates, quadrotor::nControls> state_control_matrix_t;
+    typedef ct::core::StateMatrix<quadrotor::nStates> state_matrix_t;
+    typedef ct::core::StateControlMatrix<quadrotor::nStates, quadrotor::nControls> state_control_matrix_t;
 
 
     QuadrotorLinear* clone() const override { return new QuadrotorLinear(*this); }
-- 
2.43.0


From e71b0a47b13ea7ba753dcf42d81846837d67d40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:53 +0000
Subject: [PATCH 70/83] fix: the control simulator can be copied

---
 ct_core/include/ct/core/simulation/ControlSimulator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index 156f305..12347b7 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -55,11 +55,11 @@ public:
 
     //! copy constructor
     ControlSimulator(const ControlSimulator& arg)
-        : sim_dt_(arg.sim_dt_), control_dt_(arg.control_dt_), x0_(arg.x0_), stop_(arg.stop_)
+        : sim_dt_(arg.sim_dt_), control_dt_(arg.control_dt_), x0_(arg.x0_), stop_(arg.stop_.load()), verbose_(arg.verbose_)
     {
         if (!arg.system_)
             return;
-        system_ = std::shared_ptr<Controller<STATE_DIM, CONTROL_DIM, SCALAR>>(arg.system_->clone());
+        system_ = std::shared_ptr<CONTROLLED_SYSTEM>(static_cast<CONTROLLED_SYSTEM*>(arg.system_->clone()));
         if (arg.controller_)
         {
             controller_ = std::shared_ptr<Controller<STATE_DIM, CONTROL_DIM, SCALAR>>(arg.controller_->clone());
-- 
2.43.0


From 78c2b5ce20f0a718a8956b8104bf35be0395f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:32 +0000
Subject: [PATCH 71/83] fix: the simulation thread keeps its own copy of the
 integration type

---
 ct_core/include/ct/core/simulation/ControlSimulator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index 12347b7..a2d778c 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -81,7 +81,7 @@ public:
         stop_ = false;
         sim_start_time_ = std::chrono::high_resolution_clock::now();
         x_ = x0_;
-        sys_thread_ = std::thread(&ControlSimulator::simulateSystem, this, duration, std::ref(intType));
+        sys_thread_ = std::thread(&ControlSimulator::simulateSystem, this, duration, intType);
         control_thread_ = std::thread(&ControlSimulator::simulateController, this, duration);
     }
 
-- 
2.43.0


From 3e92a81c1cf6b5c87449d2720a5f469d19801d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:46 +0000
Subject: [PATCH 72/83] fix: the simulator's last step of a control period
 covers the rest of the period

---
 ct_core/include/ct/core/simulation/ControlSimulator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index a2d778c..1c24604 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -115,7 +115,7 @@ protected:
             {
                 integrator.integrate_n_steps(temp_x, sim_time, int(control_dt_ / sim_dt_), sim_dt_);
                 if (residue > 1e-6)
-                    integrator.integrate_n_steps(temp_x, sim_time + int(control_dt_ / sim_dt_) * sim_dt_, 1, residue);
+                    integrator.integrate_n_steps(temp_x, sim_time + int(control_dt_ / sim_dt_) * sim_dt_, 1, residue * sim_dt_);
 
                 if (std::chrono::duration<double>(std::chrono::high_resolution_clock::now() - wall_time).count() >=
                     control_dt_)
-- 
2.43.0


From 85ef3a949fac362f73e163e88111414af28bda51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:32 +0000
Subject: [PATCH 73/83] fix: the multiple-shooting terminal cost is evaluated
 at the final time

---
 ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h    | 6 ++++++
 .../optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h  | 6 ++++--
 .../dms/dms_core/cost_evaluator/CostEvaluatorSimple.h       | 6 ++++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h b/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
index d80f4f4..c5c6e34 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
@@ -223,6 +223,12 @@ public:
 	 * @return     The integrated state
 	 */
     const state_vector_t& getStateIntegrated() { return stateSubsteps_.back(); }
+    /**
+	 * @brief      Returns the time at which the shot ends
+	 *
+	 * @return     The end time of the shot on the time grid
+	 */
+    const SCALAR getShotEndTime() const { return timeGrid_->getShotEndTime(shotNr_); }
     /**
 	 * @brief      Returns the end time of the integration	
 	 *
diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h
index 782ff57..7bec0e8 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h
@@ -80,7 +80,8 @@ public:
         for (auto shotContainer : shotContainers_)
             cost += shotContainer->getCostIntegrated();
 
-        costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero());
+        costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero(),
+            shotContainers_.back()->getShotEndTime());
         cost += costFct_->evaluateTerminal();
         return cost;
     }
@@ -134,7 +135,8 @@ public:
         }
 
         /* gradient of terminal cost */
-        costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero());
+        costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero(),
+            shotContainers_.back()->getShotEndTime());
         grad.segment(w_->getStateIndex(settings_.N_), STATE_DIM) +=
             costFct_->stateDerivativeTerminal();  // * dXdSi.back();
     }
diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
index 80dcf95..82286a3 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
@@ -94,7 +94,8 @@ SCALAR CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::eval()
         cost += phi_(i) * costFct_->evaluateIntermediate();
     }
 
-    costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero());
+    costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero(),
+        timeGrid_->getShotStartTime(settings_.N_));
     cost += costFct_->evaluateTerminal();
     assert(cost == cost);
     return cost;
@@ -116,7 +117,8 @@ void CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::evalGradient(size_t gr
     }
 
     /* gradient of terminal cost */
-    costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero());
+    costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero(),
+        timeGrid_->getShotStartTime(settings_.N_));
     grad.segment(w_->getStateIndex(settings_.N_), STATE_DIM) += costFct_->stateDerivativeTerminal();
 }
 
-- 
2.43.0


From a8d808eae8a9aea65ab40a7a4941977ac2a81ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:03 +0000
Subject: [PATCH 74/83] fix: KillIntegrationEventHandler can be instantiated

---
 .../integration/EventHandlers/KillIntegrationEventHandler.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h b/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
index da97fa9..11ef893 100644
--- a/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
+++ b/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
@@ -22,7 +22,7 @@ template <size_t STATE_DIM>
 class KillIntegrationEventHandler : public EventHandler<STATE_DIM>
 {
 public:
-    typedef Eigen::Matrix<double, STATE_DIM, 1> State_T;
+    typedef StateVector<STATE_DIM> State_T;
 
     //! default constructor
     /*!
-- 
2.43.0


From 0f076a173eb5b8dab7dae177fdf9ffb4d0fc7d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:30 +0000
Subject: [PATCH 75/83] fix: new settings replace all IPOPT options

---
 .../nlp/solver/implementation/IpoptSolver-impl.h   | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nlp/solver/implementation/IpoptSolver-impl.h b/ct_optcon/include/ct/optcon/nlp/solver/implementation/IpoptSolver-impl.h
index 5161da2..30fcb15 100644
--- a/ct_optcon/include/ct/optcon/nlp/solver/implementation/IpoptSolver-impl.h
+++ b/ct_optcon/include/ct/optcon/nlp/solver/implementation/IpoptSolver-impl.h
@@ -46,19 +46,19 @@ void IpoptSolver<SCALAR>::setSolverOptions()
     // ipoptApp_->Options()->SetNumericValue("resto.tol", settings_.restoTol_);
     // ipoptApp_->Options()->SetNumericValue("acceptable_tol", settings_.acceptableTol_);
     // ipoptApp_->Options()->SetNumericValue("resto.acceptable_tol", settings_.restoAcceptableTol_);
-    ipoptApp_->Options()->SetStringValueIfUnset("linear_scaling_on_demand", settings_.linear_scaling_on_demand_);
-    ipoptApp_->Options()->SetStringValueIfUnset("hessian_approximation", settings_.hessian_approximation_);
-    // ipoptApp_->Options()->SetStringValueIfUnset("nlp_scaling_method", settings_.nlp_scaling_method_);
+    ipoptApp_->Options()->SetStringValue("linear_scaling_on_demand", settings_.linear_scaling_on_demand_);
+    ipoptApp_->Options()->SetStringValue("hessian_approximation", settings_.hessian_approximation_);
+    // ipoptApp_->Options()->SetStringValue("nlp_scaling_method", settings_.nlp_scaling_method_);
     ipoptApp_->Options()->SetIntegerValue("print_level", settings_.printLevel_);  //working now
-    ipoptApp_->Options()->SetStringValueIfUnset("print_user_options", settings_.print_user_options_);
+    ipoptApp_->Options()->SetStringValue("print_user_options", settings_.print_user_options_);
     // ipoptApp_->Options()->SetIntegerValue("print_frequency_iter", settings_.print_frequency_iter_);
-    ipoptApp_->Options()->SetStringValueIfUnset("derivative_test", settings_.derivativeTest_);
+    ipoptApp_->Options()->SetStringValue("derivative_test", settings_.derivativeTest_);
     ipoptApp_->Options()->SetIntegerValue("print_level", settings_.printLevel_);
     ipoptApp_->Options()->SetNumericValue("derivative_test_tol", settings_.derivativeTestTol_);
     ipoptApp_->Options()->SetNumericValue("derivative_test_perturbation", settings_.derivativeTestPerturbation_);
     ipoptApp_->Options()->SetNumericValue("point_perturbation_radius", settings_.point_perturbation_radius_);
-    ipoptApp_->Options()->SetStringValueIfUnset("linear_system_scaling", settings_.linearSystemScaling_);
-    ipoptApp_->Options()->SetStringValueIfUnset("linear_solver", settings_.linear_solver_);
+    ipoptApp_->Options()->SetStringValue("linear_system_scaling", settings_.linearSystemScaling_);
+    ipoptApp_->Options()->SetStringValue("linear_solver", settings_.linear_solver_);
 }
 
 template <typename SCALAR>
-- 
2.43.0


From 43cfb61087bd40517206662699c95ab9a4033611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:51 +0000
Subject: [PATCH 76/83] fix: FloatingBaseRobotState without actuator states can
 be set from an Euler state vector

---
 ct_rbd/include/ct/rbd/state/FloatingBaseRobotState.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/state/FloatingBaseRobotState.h b/ct_rbd/include/ct/rbd/state/FloatingBaseRobotState.h
index 34eac66..5691d98 100644
--- a/ct_rbd/include/ct/rbd/state/FloatingBaseRobotState.h
+++ b/ct_rbd/include/ct/rbd/state/FloatingBaseRobotState.h
@@ -155,7 +155,7 @@ public:
     typename std::enable_if<(ACT_STATE_DIM == 0), T>::type fromStateVectorEulerXyz(const state_vector_euler_t& state)
     {
         // transcribe RBDState only
-        Base_t::state_vector_euler_t(state);
+        Base_t::fromStateVectorEulerXyz(state);
     }
 
     //! a convenience method
-- 
2.43.0


From b5dd9ff6f0c2324f348f904418da281ca865d5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:27 +0000
Subject: [PATCH 77/83] fix: the transform of the base link is the identity

---
 ct_rbd/include/ct/rbd/robot/robcogen/robcogenHelpers.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/robot/robcogen/robcogenHelpers.h b/ct_rbd/include/ct/rbd/robot/robcogen/robcogenHelpers.h
index 5603edf..1ed5bab 100644
--- a/ct_rbd/include/ct/rbd/robot/robcogen/robcogenHelpers.h
+++ b/ct_rbd/include/ct/rbd/robot/robcogen/robcogenHelpers.h
@@ -90,8 +90,7 @@ public:
             case 0:
             {
                 typename TRANS::MatrixType identity;
-                identity.setZero();
-                identity.template topRightCorner<3, 3>().setIdentity();
+                identity.setIdentity();
                 return identity;
                 break;
             }
@@ -227,8 +226,7 @@ public:
             case 0:
             {
                 typename TRANS::MatrixType identity;
-                identity.setZero();
-                identity.template topRightCorner<3, 3>().setIdentity();
+                identity.setIdentity();
                 return identity;
                 break;
             }
-- 
2.43.0


From 6ef92d94ed2bd0a923714f15f7ba0ff229842429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:26 +0000
Subject: [PATCH 78/83] fix: RigidBodyPose from an Eigen quaternion honours the
 requested storage

---
 ct_rbd/include/ct/rbd/state/RigidBodyPose.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/state/RigidBodyPose.h b/ct_rbd/include/ct/rbd/state/RigidBodyPose.h
index eda608a..a391037 100644
--- a/ct_rbd/include/ct/rbd/state/RigidBodyPose.h
+++ b/ct_rbd/include/ct/rbd/state/RigidBodyPose.h
@@ -83,7 +83,7 @@ public:
     RigidBodyPose(const Eigen::Quaternion<SCALAR>& orientationQuat,
         const Eigen::Matrix<SCALAR, 3, 1>& position,
         STORAGE_TYPE storage = EULER)
-        : RigidBodyPose(kindr::RotationQuaternion<SCALAR>(orientationQuat), Position3Tpl(position))
+        : RigidBodyPose(kindr::RotationQuaternion<SCALAR>(orientationQuat), Position3Tpl(position), storage)
     {
     }
 
-- 
2.43.0


From 33e8e2343d02d4060289a784285b43062591ed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:14 +0000
Subject: [PATCH 79/83] fix: fully actuated inverse dynamics uses the given
 base acceleration

---
 ct_rbd/include/ct/rbd/robot/Dynamics.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/robot/Dynamics.h b/ct_rbd/include/ct/rbd/robot/Dynamics.h
index 5fa5c65..a9290b5 100644
--- a/ct_rbd/include/ct/rbd/robot/Dynamics.h
+++ b/ct_rbd/include/ct/rbd/robot/Dynamics.h
@@ -312,10 +312,8 @@ ENABLE_FLOAT_BASE_IMPL Dynamics<RBD, NEE>::FloatingBaseFullyActuatedID(const RBD
     ForceVector_t& base_w,
     control_vector_t& u)
 {
-    Vector6d_t b_accel;
-
     kinematics_->robcogen().inverseDynamics().id_fully_actuated(base_w, u, x.basePose().computeGravityB6D(),
-        x.baseVelocities().getVector(), b_accel, x.joints().getPositions(), x.joints().getVelocities(),
+        x.baseVelocities().getVector(), base_a.getVector6d(), x.joints().getPositions(), x.joints().getVelocities(),
         qdd.getAcceleration(), l_forces);
 }
 
-- 
2.43.0


From 35a62e6b91607bb6f82ad075e0cc5c87bd5a75bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:26 +0000
Subject: [PATCH 80/83] fix: no contact force at inactive end effectors

---
 ct_rbd/include/ct/rbd/physics/EEContactModel.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ct_rbd/include/ct/rbd/physics/EEContactModel.h b/ct_rbd/include/ct/rbd/physics/EEContactModel.h
index e5fb898..a93028e 100644
--- a/ct_rbd/include/ct/rbd/physics/EEContactModel.h
+++ b/ct_rbd/include/ct/rbd/physics/EEContactModel.h
@@ -164,6 +164,10 @@ public:
                     eeForces[i].setZero();
                 }
             }
+            else
+            {
+                eeForces[i].setZero();
+            }
         }
 
         return eeForces;
-- 
2.43.0


From 1bfb02bad24dbb7434ddac12670c817769b43098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:22 +0000
Subject: [PATCH 81/83] fix: FixBaseFDSystemSymplectic can be instantiated

---
 .../include/ct/rbd/robot/actuator/ActuatorDynamicsSymplectic.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/robot/actuator/ActuatorDynamicsSymplectic.h b/ct_rbd/include/ct/rbd/robot/actuator/ActuatorDynamicsSymplectic.h
index aba8bd0..ec758db 100644
--- a/ct_rbd/include/ct/rbd/robot/actuator/ActuatorDynamicsSymplectic.h
+++ b/ct_rbd/include/ct/rbd/robot/actuator/ActuatorDynamicsSymplectic.h
@@ -35,7 +35,7 @@ public:
 
     virtual ~ActuatorDynamicsSymplectic(){};
 
-    virtual ActuatorDynamicsSymplectic<NJOINTS, ACT_STATE_DIMS, SCALAR>* clone() const override = 0;
+    virtual ActuatorDynamicsSymplectic<NJOINTS, ACT_STATE_DIMS, SCALAR>* clone() const = 0;
 
     virtual void computePdot(const JointState<NJOINTS, SCALAR>& robotJointState,
         const act_state_vector_t& x,
-- 
2.43.0


From 6524c6c651f3c994f59d7dc7a25521df823ecb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:22 +0000
Subject: [PATCH 82/83] fix: computeConsistentActuatorState finds the inverse
 dynamics of its base class

---
 ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h b/ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h
index 1c3e434..c849c08 100644
--- a/ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h
+++ b/ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h
@@ -181,7 +181,7 @@ public:
     typename std::enable_if<(ACT_STATE_DIM > 0), T>::type computeConsistentActuatorState(
         const JointState<BASE::NJOINTS, SCALAR>& jStateRef)
     {
-        const ct::core::ControlVector<BASE::NJOINTS> torqueRef = computeIDTorques(jStateRef);
+        const ct::core::ControlVector<BASE::NJOINTS> torqueRef = this->computeIDTorques(jStateRef);
         return computeConsistentActuatorState(jStateRef, torqueRef);
     }
 
-- 
2.43.0


From 4e9585743e4318c015d3ff005759f72e3754933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:39 +0000
Subject: [PATCH 83/83] fix: a floating base system without contact model can
 be copied

---
 ct_rbd/include/ct/rbd/systems/FloatingBaseFDSystem.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/systems/FloatingBaseFDSystem.h b/ct_rbd/include/ct/rbd/systems/FloatingBaseFDSystem.h
index a17653a..48cbc1b 100644
--- a/ct_rbd/include/ct/rbd/systems/FloatingBaseFDSystem.h
+++ b/ct_rbd/include/ct/rbd/systems/FloatingBaseFDSystem.h
@@ -47,7 +47,8 @@ public:
 
     FloatingBaseFDSystem() : Base(), dynamics_(), eeContactModel_(nullptr) {}
     FloatingBaseFDSystem(const FloatingBaseFDSystem<RBDDynamics, QUAT_INTEGRATION, EE_ARE_CONTROL_INPUTS>& other)
-        : Base(other), dynamics_(other.dynamics_), eeContactModel_(other.eeContactModel_->clone())
+        : Base(other), dynamics_(other.dynamics_),
+          eeContactModel_(other.eeContactModel_ ? other.eeContactModel_->clone() : nullptr)
     {
     }
 
-- 
2.43.0

