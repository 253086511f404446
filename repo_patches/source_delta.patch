From d3cb7e55acac416441934bd9916a2d71d8515355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:17 +0000
Subject: [PATCH 01/29] fix: make ConstraintsIB usable as an objective (missing
 A'b accumulation)

---
 core/include/humoto/constraints.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/core/include/humoto/constraints.h b/core/include/humoto/constraints.h
index d2e2ae6..f93c069 100644
--- a/core/include/humoto/constraints.h
+++ b/core/include/humoto/constraints.h
@@ -981,7 +981,18 @@ namespace humoto
                 ConstraintsIB() {}
 
 
+                /// @copydoc humoto::constraints::BoundsB0Mixin::getATb
+                void addATb(Eigen::VectorXd &g) const
+                {
+                    for(EigenIndex i = 0; i < getIndices().size(); ++i)
+                    {
+                        g[getIndices()[i]] += getB()[i];
+                    }
+                }
+
+
             public:
+                using HUMOTO_PARENT_CLASS_SHORTHAND::getNumberOfVariables;
                 using HUMOTO_PARENT_CLASS_SHORTHAND::getIndices;
                 using HUMOTO_PARENT_CLASS_SHORTHAND::getB;
 
@@ -1006,7 +1017,8 @@ namespace humoto
                 void getATAandATb(Eigen::MatrixXd &H, Eigen::VectorXd &g) const
                 {
                     HUMOTO_PARENT_CLASS_SHORTHAND::getATA(H);
-                    HUMOTO_PARENT_CLASS_SHORTHAND::getATb(g);
+                    g.setZero(getNumberOfVariables());
+                    addATb(g);
                 }
 
 
@@ -1014,7 +1026,7 @@ namespace humoto
                 void addATAandATb(Eigen::MatrixXd &H, Eigen::VectorXd &g) const
                 {
                     HUMOTO_PARENT_CLASS_SHORTHAND::addATA(H);
-                    HUMOTO_PARENT_CLASS_SHORTHAND::addATb(g);
+                    addATb(g);
                 }
         };
 #undef HUMOTO_PARENT_CLASS_SHORTHAND
-- 
2.43.0


From e25ba73415b9ce7b0f99d83ddcc230ad31d41ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:16 +0000
Subject: [PATCH 02/29] fix: drop constraints of the previous problem when a
 one-level hierarchy is converted to a QP

---
 core/include/humoto/hierarchy.h  |  4 ++++
 core/include/humoto/qp_problem.h | 37 ++++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/core/include/humoto/hierarchy.h b/core/include/humoto/hierarchy.h
index 131c12f..2c09059 100644
--- a/core/include/humoto/hierarchy.h
+++ b/core/include/humoto/hierarchy.h
@@ -344,6 +344,10 @@ namespace humoto
                 {
                     qp_problem.initializeConstraints(hierarchy_[0], sol_structure);
                 }
+                else
+                {
+                    qp_problem.resetConstraints(sol_structure);
+                }
             }
     };
 }
diff --git a/core/include/humoto/qp_problem.h b/core/include/humoto/qp_problem.h
index 65e82ab..011bbe1 100644
--- a/core/include/humoto/qp_problem.h
+++ b/core/include/humoto/qp_problem.h
@@ -232,6 +232,20 @@ namespace humoto
             }
 
 
+            /**
+             * @brief Remove all constraints
+             *
+             * @param[in] sol_structure     structure of the solution
+             */
+            void resetConstraints(const humoto::SolutionStructure & sol_structure)
+            {
+                general_constraints_.reset(0, sol_structure.getNumberOfVariables());
+
+                bounds_.reset(0, sol_structure.getNumberOfVariables());
+                bounds_.initializeSolutionBounds(lb_, ub_);
+            }
+
+
             /**
              * @brief get container with simple bounds
              *
@@ -321,6 +335,18 @@ namespace humoto
             }
 
 
+            /**
+             * @brief Remove all constraints
+             *
+             * @param[in] sol_structure     structure of the solution
+             */
+            void resetConstraints(const humoto::SolutionStructure & sol_structure)
+            {
+                equality_constraints_.reset(0, sol_structure.getNumberOfVariables());
+                inequality_constraints_.reset(0, sol_structure.getNumberOfVariables());
+            }
+
+
             /**
              * @brief get container with inequalities
              *
@@ -386,6 +412,17 @@ namespace humoto
             }
 
 
+            /**
+             * @brief Remove all constraints
+             *
+             * @param[in] sol_structure     structure of the solution
+             */
+            void resetConstraints(const humoto::SolutionStructure & sol_structure)
+            {
+                equality_constraints_.reset(0, sol_structure.getNumberOfVariables());
+            }
+
+
             /**
              * @brief get container with equalities
              *
-- 
2.43.0


From 5a30f11a5eda2bfacc9e4dd285b8efc17854daa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:49 +0000
Subject: [PATCH 03/29] fix: cubic polynomial with nonzero end velocities must
 reach the final position and velocity

---
 core/include/rigid_body/cubic_polynomial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/rigid_body/cubic_polynomial.h b/core/include/rigid_body/cubic_polynomial.h
index 8c76869..971fc8d 100644
--- a/core/include/rigid_body/cubic_polynomial.h
+++ b/core/include/rigid_body/cubic_polynomial.h
@@ -82,8 +82,8 @@ namespace humoto
                 {
                     a0_ = a;
                     a1_ = adot;
-                    a2_ =  3.0*(b - a) - 2.0*(adot - bdot);
-                    a3_ = -2.0*(b - a) + 1.0*(bdot - adot);
+                    a2_ =  3.0*(b - a) - 2.0*adot - bdot;
+                    a3_ = -2.0*(b - a) + adot + bdot;
                 }
 
 
-- 
2.43.0


From 13ca24b3b3fcbe613f27406e9d08390afa52cf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:39 +0000
Subject: [PATCH 04/29] fix: a walk without a first single support must not
 schedule steps

---
 core/include/walking/stance_finite_state_machine.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/walking/stance_finite_state_machine.h b/core/include/walking/stance_finite_state_machine.h
index 528bf6c..89c0237 100644
--- a/core/include/walking/stance_finite_state_machine.h
+++ b/core/include/walking/stance_finite_state_machine.h
@@ -262,6 +262,7 @@ namespace humoto
                                 case StanceType::UNDEFINED:
                                     current_stance_.previous_nonds_stance_type_ = StanceType::UNDEFINED;
                                     sfsm_params_.num_steps_ = 0;
+                                    ss_states_to_termination_ = 0;
                                     break;
                                 default:
                                     HUMOTO_THROW_MSG("Misformed walking options.");
-- 
2.43.0


From ae9572af9f145475247e582fe80a6c63ac6c8caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:16 +0000
Subject: [PATCH 05/29] fix: condensed output of several control groups must
 use E[0] for the first control

---
 core/include/humoto/control_problem.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/include/humoto/control_problem.h b/core/include/humoto/control_problem.h
index c4da964..dec95fa 100644
--- a/core/include/humoto/control_problem.h
+++ b/core/include/humoto/control_problem.h
@@ -167,10 +167,10 @@ namespace humoto
 
                 for (std::size_t i = 0; i < Uu.size(); ++i)
                 {
-                    Ou[i](N-1, N-1) = E[0].block( 0,
-                                                  control_offsets[i],
-                                                  t_num_outputs,
-                                                  Uu[i].getBlockColsNum());
+                    Ou[i](0, 0) = E[0].block( 0,
+                                              control_offsets[i],
+                                              t_num_outputs,
+                                              Uu[i].getBlockColsNum());
                 }
 
                 for (std::ptrdiff_t i = 1; i < N; ++i)
-- 
2.43.0


From a5710ba5c2032fbf2f92f0dc5df42ee53e5312e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:22 +0000
Subject: [PATCH 06/29] fix: rows selected in blocks keep the number of columns
 of a block of dynamic size

---
 core/include/eigentools/blockmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/eigentools/blockmatrix.h b/core/include/eigentools/blockmatrix.h
index 4a7733d..19525e0 100644
--- a/core/include/eigentools/blockmatrix.h
+++ b/core/include/eigentools/blockmatrix.h
@@ -203,7 +203,7 @@ namespace etools
                                                         EIGENTOOLS_BLOCKMATRIX_BLOCK_ROWS_NUM,
                                                         row_in_a_block),
                                      MatrixBlockSizeType::UNDEFINED,
-                                     ((t_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : block_rows_num_)));
+                                     ((t_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : block_cols_num_)));
             }
 
 
-- 
2.43.0


From f5b6c1a15382ba3dbdd6f5d6b2a0ebeb4a57f0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:13 +0000
Subject: [PATCH 07/29] fix: steps which are previewed but not reached within
 the horizon must not be given a rotation block

---
 modules/wpg04/include/wpg04/mpc_wpg.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/wpg04/include/wpg04/mpc_wpg.h b/modules/wpg04/include/wpg04/mpc_wpg.h
index 1712b2f..58d60b9 100644
--- a/modules/wpg04/include/wpg04/mpc_wpg.h
+++ b/modules/wpg04/include/wpg04/mpc_wpg.h
@@ -35,9 +35,10 @@ namespace humoto
                     Rh_.setZero(preview_horizon_.intervals_.size());
 
                     std::size_t index = 0;
-                    for(std::size_t i=0; i < (preview_horizon_.walk_states_.size() - 1); ++i)
+                    // steps which are previewed, but not reached within the horizon, are not variable
+                    for(std::size_t i=0; index < preview_horizon_.getNumberOfVariableSteps(); ++i)
                     {
-                        if (humoto::walking::StanceType::TDS != preview_horizon_.walk_states_[i].type_)
+                        if (humoto::walking::StanceType::TDS != preview_horizon_.walk_states_.at(i).type_)
                         {
                             // orientations of the preceding foot positions.
                             R_(index) = preview_horizon_.walk_states_.at(i).rotation_;
-- 
2.43.0


From 54d57d4c5849b2a04cb540d093123eadfcd4c3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:13 +0000
Subject: [PATCH 08/29] fix: a transitional double support which takes several
 samples must not be refused by the model

---
 modules/wpg04/include/wpg04/model.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/wpg04/include/wpg04/model.h b/modules/wpg04/include/wpg04/model.h
index 390ca83..2ec17e7 100644
--- a/modules/wpg04/include/wpg04/model.h
+++ b/modules/wpg04/include/wpg04/model.h
@@ -189,6 +189,7 @@ namespace humoto
                                     break;
 
                                 case humoto::walking::StanceType::DS:
+                                case humoto::walking::StanceType::TDS: // TDS may take several samples
                                     // no need to update positions of the feet (they must not change)
                                     break;
 
-- 
2.43.0


From 90068c6b27127d1b9350a5f4ee2d33af2d745189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:52 +0000
Subject: [PATCH 09/29] fix: previewed states of the mobile base must follow
 the controls of their own interval

---
 modules/pepper_mpc/include/pepper_mpc/mpc_mg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
index 2fd0c85..d463d19 100644
--- a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
+++ b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
@@ -318,8 +318,8 @@ namespace humoto
                                         preview_horizon_.intervals_[interval_index].T_,
                                         interval_offset,
                                         preceding_cstate,
-                                        base_controls_.head(2),
-                                        body_controls_.head(2),
+                                        base_control,
+                                        body_control,
                                         base_height,
                                         body_height,
                                         theta);
-- 
2.43.0


From 74bd028e031d71fa749aaf52dca721ae2c9e7f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:52 +0000
Subject: [PATCH 10/29] fix: heights of the base and body must not be swapped
 when a state is constructed

---
 modules/pepper_mpc/include/pepper_mpc/model_state.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/model_state.h b/modules/pepper_mpc/include/pepper_mpc/model_state.h
index 6fbd542..59370c7 100644
--- a/modules/pepper_mpc/include/pepper_mpc/model_state.h
+++ b/modules/pepper_mpc/include/pepper_mpc/model_state.h
@@ -99,7 +99,7 @@ namespace humoto
                             const double body_height,
                             const double body_x_offset)
                 {
-                    setParameters(body_height, base_height, body_x_offset);
+                    setParameters(base_height, body_height, body_x_offset);
                 }
 
 
-- 
2.43.0


From d01659f92fb2084ddb74fae8af70d3db527b0eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:52 +0000
Subject: [PATCH 11/29] fix: body position reference must drive the body to the
 base (sign of the right hand side)

---
 modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h b/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h
index 69ed918..6d86b62 100644
--- a/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h
+++ b/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h
@@ -34,7 +34,7 @@ namespace humoto
                     Eigen::VectorXd     &b    = getB();
 
                     A.noalias() = getGain()*mpc.Apd_;
-                    b.noalias() = getGain()*mpc.spd_;
+                    b.noalias() = -getGain()*mpc.spd_;
                 }
         };
     }//pepper
-- 
2.43.0


From 433d88168970c6997a4a5338a37b10cc123b1126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:52 +0000
Subject: [PATCH 12/29] fix: next states of the mobile base must keep the
 masses of the model

---
 modules/pepper_mpc/include/pepper_mpc/model.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/pepper_mpc/include/pepper_mpc/model.h b/modules/pepper_mpc/include/pepper_mpc/model.h
index e14393c..39b814b 100644
--- a/modules/pepper_mpc/include/pepper_mpc/model.h
+++ b/modules/pepper_mpc/include/pepper_mpc/model.h
@@ -264,6 +264,9 @@ namespace humoto
                     model_state.body_state_ = convertBodyStateMPCtoRB(mpc_state, body_height);
 
                     model_state.base_state_.rpy_.z() = theta;
+
+                    model_state.base_mass_ = getBaseMass();
+                    model_state.body_mass_ = getBodyMass();
                 }
 
 
-- 
2.43.0


From ec59ee73e39ab176c810bf1a4f9991ec055d2403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:15 +0000
Subject: [PATCH 13/29] fix: Matrix1x2 has two columns

---
 core/include/eigentools/eigentools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 8a4cc53..2d419d5 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -83,7 +83,7 @@ namespace etools
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(9, 9)  Matrix9;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(10, 10)  Matrix10;
 
-    typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 1)  Matrix1x2;
+    typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 2)  Matrix1x2;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 3)  Matrix1x3;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 4)  Matrix1x4;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 5)  Matrix1x5;
-- 
2.43.0


From 50921654f380a8a3489905f5c9bbec1292aaea44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:15 +0000
Subject: [PATCH 14/29] fix: removeColumn() must not compare the index of a
 column with the number of rows

---
 core/include/eigentools/eigentools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 2d419d5..3abad93 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -669,7 +669,7 @@ namespace etools
             removeColumn(   Eigen::PlainObjectBase<t_Derived> & matrix,
                             const std::ptrdiff_t column_to_remove)
     {
-        EIGENTOOLS_ASSERT(column_to_remove <= matrix.rows(), "The index of a removed column is greater than the size of the matrix.");
+        EIGENTOOLS_ASSERT(column_to_remove <= matrix.cols(), "The index of a removed column is greater than the size of the matrix.");
 
         std::ptrdiff_t number_of_rows = matrix.rows();
         std::ptrdiff_t number_of_cols = matrix.cols()-1;
-- 
2.43.0


From 16e9bf39db470ebbd63cb335129b71606eb9d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:15 +0000
Subject: [PATCH 15/29] fix: concatenateMatricesVertically() must skip
 consecutive empty matrices

---
 core/include/eigentools/eigentools.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 3abad93..a98da60 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -480,13 +480,17 @@ namespace etools
             std::ptrdiff_t total_number_of_rows = 0;
             std::ptrdiff_t number_of_cols = 0;
 
-            for(std::size_t i = 0; i < number_of_matrices; ++i)
+            for(std::size_t i = 0; i < number_of_matrices; )
             {
                 if(!nonempty_matrices[i].size())
                 {
                     nonempty_matrices.erase(nonempty_matrices.begin() + i);
                     --number_of_matrices;
                 }
+                else
+                {
+                    ++i;
+                }
             }
 
             if(!number_of_matrices)
-- 
2.43.0


From 7e8d3851970cca9b5c4ceffd35adaca35f4d8124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:36 +0000
Subject: [PATCH 16/29] fix: matrices are written to configuration files row by
 row, as they are read

---
 bridges/config_msgpack/interface/config_msgpack/writer.h | 7 +++++--
 bridges/config_yaml/interface/config_yaml/writer.h       | 6 +++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/writer.h b/bridges/config_msgpack/interface/config_msgpack/writer.h
index 31dc8c8..a30f030 100644
--- a/bridges/config_msgpack/interface/config_msgpack/writer.h
+++ b/bridges/config_msgpack/interface/config_msgpack/writer.h
@@ -139,9 +139,12 @@ namespace humoto
                         packer_->pack("data");
                         packer_->pack_array(entry.size());
 
-                        for (humoto::EigenIndex i = 0; i < entry.size(); ++i)
+                        for (humoto::EigenIndex i = 0; i < entry.rows(); ++i)
                         {
-                            packer_->pack(entry.data()[i]);
+                            for (humoto::EigenIndex j = 0; j < entry.cols(); ++j)
+                            {
+                                packer_->pack(entry(i, j));
+                            }
                         }
 
                         ascend();
diff --git a/bridges/config_yaml/interface/config_yaml/writer.h b/bridges/config_yaml/interface/config_yaml/writer.h
index 95a7d99..cd1dd40 100644
--- a/bridges/config_yaml/interface/config_yaml/writer.h
+++ b/bridges/config_yaml/interface/config_yaml/writer.h
@@ -166,11 +166,11 @@ namespace humoto
                         *emitter_ << YAML::Value << YAML::Flow;
                         *emitter_ << YAML::BeginSeq;
 
-                        for(humoto::EigenIndex i = 0; i < entry.cols(); ++i)
+                        for(humoto::EigenIndex i = 0; i < entry.rows(); ++i)
                         {
-                            for(humoto::EigenIndex j = 0; j < entry.rows(); ++j)
+                            for(humoto::EigenIndex j = 0; j < entry.cols(); ++j)
                             {
-                                *emitter_ << entry(j, i);
+                                *emitter_ << entry(i, j);
                             }
                         }
 
-- 
2.43.0


From c8042b1044f4e49f0a2fae0ccc409e24a67a4309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:35 +0000
Subject: [PATCH 17/29] fix: an empty map in a configuration file has no first
 entry to be compared with

---
 bridges/config_msgpack/interface/config_msgpack/reader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/reader.h b/bridges/config_msgpack/interface/config_msgpack/reader.h
index c4d1168..dea8ae7 100644
--- a/bridges/config_msgpack/interface/config_msgpack/reader.h
+++ b/bridges/config_msgpack/interface/config_msgpack/reader.h
@@ -120,7 +120,7 @@ namespace humoto
                         {
                             for (std::size_t i = 0; i < handles_.size(); ++i)
                             {
-                                if (::msgpack::type::MAP == handles_[i]->get().type)
+                                if ((::msgpack::type::MAP == handles_[i]->get().type) && (handles_[i]->get().via.map.size > 0))
                                 {
                                     if (child_name == handles_[i]->get().via.map.ptr[0].key.as<std::string>())
                                     {
-- 
2.43.0


From 3c2e3e052ba2cf4f6ce401fbed0eafdd87bad496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:59 +0000
Subject: [PATCH 18/29] fix: defaults of parameters of solvers include
 parameters of the base class

Parameters of the base class kept their values when a configuration file did
not contain them, since setDefaults() of derived classes did not reset them.
---
 bridges/QuadProgpp/interface/quadprogpp/solver.h | 1 +
 bridges/qpOASES/interface/qpoases/solver.h       | 1 +
 bridges/qpmad/interface/qpmad/solver.h           | 1 +
 core/include/kktsolver.h                         | 1 +
 4 files changed, 4 insertions(+)

diff --git a/bridges/QuadProgpp/interface/quadprogpp/solver.h b/bridges/QuadProgpp/interface/quadprogpp/solver.h
index 62484f3..10924a0 100644
--- a/bridges/QuadProgpp/interface/quadprogpp/solver.h
+++ b/bridges/QuadProgpp/interface/quadprogpp/solver.h
@@ -33,6 +33,7 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    SolverParametersBase::setDefaults();
                     regularization_factor_ = 0;
                 }
 
diff --git a/bridges/qpOASES/interface/qpoases/solver.h b/bridges/qpOASES/interface/qpoases/solver.h
index 6cf85a0..9024370 100644
--- a/bridges/qpOASES/interface/qpoases/solver.h
+++ b/bridges/qpOASES/interface/qpoases/solver.h
@@ -104,6 +104,7 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    SolverParametersBase::setDefaults();
                     max_number_of_iterations_ = 1000;
                     max_cpu_time_ = 0.0;
                 }
diff --git a/bridges/qpmad/interface/qpmad/solver.h b/bridges/qpmad/interface/qpmad/solver.h
index d858a6e..b7fa126 100644
--- a/bridges/qpmad/interface/qpmad/solver.h
+++ b/bridges/qpmad/interface/qpmad/solver.h
@@ -59,6 +59,7 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    SolverParametersBase::setDefaults();
                     regularization_factor_ = 0;
                 }
 
diff --git a/core/include/kktsolver.h b/core/include/kktsolver.h
index 31ddbec..230df6e 100644
--- a/core/include/kktsolver.h
+++ b/core/include/kktsolver.h
@@ -66,6 +66,7 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    SolverParametersBase::setDefaults();
                     solution_method_ = LU;
                     elimination_regularization_factor_ = 1e-08;
                 }
-- 
2.43.0


From b7a164d09b3ba594cf0f70ebe862bfba26ada6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:04 +0000
Subject: [PATCH 19/29] fix: a task of an unknown class is reported instead of
 being dereferenced

---
 core/include/humoto/configurable_optimization_problem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/configurable_optimization_problem.h b/core/include/humoto/configurable_optimization_problem.h
index 8200407..08bde1d 100644
--- a/core/include/humoto/configurable_optimization_problem.h
+++ b/core/include/humoto/configurable_optimization_problem.h
@@ -150,10 +150,10 @@ namespace humoto
                     for(std::size_t j = 0; j < task_class_names_[i].size(); ++j)
                     {
                         humoto::TaskSharedPointer task = getTask(task_class_names_[i][j]);
-                        task->setDescription(task_ids_[i][j]);
 
                         if (task)
                         {
+                            task->setDescription(task_ids_[i][j]);
                             // configure tasks
                             task->readConfig(reader, task_ids_[i][j], crash_on_missing_entry);
                             // push tasks into the stack/hierarchy
-- 
2.43.0


From f1db3b7dbfc06db84e4346992c41a88b631e268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:04 +0000
Subject: [PATCH 20/29] fix: defaults of a configurable problem do not keep its
 old tasks

---
 core/include/humoto/configurable_optimization_problem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/configurable_optimization_problem.h b/core/include/humoto/configurable_optimization_problem.h
index 08bde1d..438efff 100644
--- a/core/include/humoto/configurable_optimization_problem.h
+++ b/core/include/humoto/configurable_optimization_problem.h
@@ -83,7 +83,7 @@ namespace humoto
              */
             void setDefaults()
             {
-                task_class_names_.clear();
+                reset(0);
             }
 
 
-- 
2.43.0


From 16916ae7a6c6f902112bea9b19b17d47c8792cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:33 +0000
Subject: [PATCH 21/29] fix: a changed gain of TaskZeroVariables is used even
 if its variables did not move

---
 core/include/humoto/task_generic.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/include/humoto/task_generic.h b/core/include/humoto/task_generic.h
index 315a347..186a496 100644
--- a/core/include/humoto/task_generic.h
+++ b/core/include/humoto/task_generic.h
@@ -91,7 +91,9 @@ namespace humoto
                 }
 
 
-                if ( location_of_variables != location_of_variables_ )
+                if (    (location_of_variables != location_of_variables_)
+                        ||
+                        ((location_of_variables.length_ > 0) && (getIGains()(0) != getGain())) )
                 {
                     // Task was modified
                     location_of_variables_ = location_of_variables;
-- 
2.43.0


From 20ff8bad4b757ba09346ccdb67b11955428520c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:33 +0000
Subject: [PATCH 22/29] fix: rows of the objective are equalities even if the
 level with constraints is empty (qpOASES)

---
 bridges/qpOASES/interface/qpoases/solver.h | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/bridges/qpOASES/interface/qpoases/solver.h b/bridges/qpOASES/interface/qpoases/solver.h
index 9024370..fadc6ed 100644
--- a/bridges/qpOASES/interface/qpoases/solver.h
+++ b/bridges/qpOASES/interface/qpoases/solver.h
@@ -312,16 +312,8 @@ namespace humoto
 
                     hierarchy.initializeActiveSet(active_set);
 
-                    // Objective level includes only equalities by design.
-                    if (0 == number_of_constraints_ + qp_problem_.getSimpleBounds().getNumberOfConstraints())
-                    {
-                        // no constraints -- objective on the first level
-                        active_set.set(0, ConstraintActivationType::EQUALITY);
-                    }
-                    else
-                    {
-                        active_set.set(1, ConstraintActivationType::EQUALITY);
-                    }
+                    // Objective level (the last one) includes only equalities by design.
+                    active_set.set(hierarchy.getNumberOfLevels() - 1, ConstraintActivationType::EQUALITY);
 
 
                     for (std::size_t i = 0; i < number_of_constraints_; ++i)
-- 
2.43.0


From 543091aa89911b206367cc259f0e8ead51d15ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:18 +0000
Subject: [PATCH 23/29] fix: defaults of parameters of qpmad do not depend on
 previous parameters

---
 bridges/qpmad/interface/qpmad/solver.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bridges/qpmad/interface/qpmad/solver.h b/bridges/qpmad/interface/qpmad/solver.h
index b7fa126..5ae83b1 100644
--- a/bridges/qpmad/interface/qpmad/solver.h
+++ b/bridges/qpmad/interface/qpmad/solver.h
@@ -41,6 +41,7 @@ namespace humoto
                     protected:
                         void setDefaults()
                         {
+                            *this = QPmadParameters();
                         }
 
                     public:
@@ -61,6 +62,7 @@ namespace humoto
                 {
                     SolverParametersBase::setDefaults();
                     regularization_factor_ = 0;
+                    options_ = QPmadParameters();
                 }
 
                 /**
-- 
2.43.0


From f9a46901e350522ec5cc12370140ca9426c75bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:18 +0000
Subject: [PATCH 24/29] fix: defaults of parameters of qpOASES do not depend on
 previous parameters

---
 bridges/qpOASES/interface/qpoases/solver.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bridges/qpOASES/interface/qpoases/solver.h b/bridges/qpOASES/interface/qpoases/solver.h
index fadc6ed..579c91f 100644
--- a/bridges/qpOASES/interface/qpoases/solver.h
+++ b/bridges/qpOASES/interface/qpoases/solver.h
@@ -107,6 +107,7 @@ namespace humoto
                     SolverParametersBase::setDefaults();
                     max_number_of_iterations_ = 1000;
                     max_cpu_time_ = 0.0;
+                    options_.setDefaults();
                 }
 
 
-- 
2.43.0


From 482618f1d8d06df47b962b0cde90d39624d4845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:46 +0000
Subject: [PATCH 25/29] fix: an active set can be shifted by its whole length
 (preview of one interval)

Controllers with a preview horizon of one interval threw on the second
iteration, when the bounds of the only interval leave the horizon.
---
 core/include/humoto/active_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/active_set.h b/core/include/humoto/active_set.h
index d490f07..3a47ba9 100644
--- a/core/include/humoto/active_set.h
+++ b/core/include/humoto/active_set.h
@@ -217,7 +217,7 @@ namespace humoto
             void shift( const std::size_t shift_size,
                         const ConstraintActivationType::Type type)
             {
-                HUMOTO_ASSERT(  shift_size < size(),
+                HUMOTO_ASSERT(  shift_size <= size(),
                                 "Shift size exceeded size of the active set.");
 
                 std::rotate(data_.begin(),
-- 
2.43.0


From ad072fdb58abb343620b231965cbd3661b793a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:02 +0000
Subject: [PATCH 26/29] fix: a new objective of a QP problem is marked as not
 initialized

---
 core/include/humoto/qp_problem.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/include/humoto/qp_problem.h b/core/include/humoto/qp_problem.h
index 011bbe1..71706d7 100644
--- a/core/include/humoto/qp_problem.h
+++ b/core/include/humoto/qp_problem.h
@@ -47,6 +47,16 @@ namespace humoto
 
 
         public:
+            /**
+             * @brief Constructor: the objective is not initialized
+             */
+            QPObjective()
+            {
+                hessian_type_ = HESSIAN_UNDEFINED;
+                status_ = UNDEFINED;
+            }
+
+
             /**
              * @brief Generates (general) objective containing all constraints on this level
              *
-- 
2.43.0


From 1219b58ab8b28daeafc1a9cfa66d6e0c8e1447f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:10 +0000
Subject: [PATCH 27/29] fix: the flag which stops the thread of the logger is
 shared under the lock

---
 core/include/humoto/logger.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index 82b25d8..c327413 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -593,12 +593,11 @@ namespace humoto
                     std::size_t num_msg = 0;
 
 
+                    message_queue_mutex_.lock();
                     if (interrupted_)
                     {
                         stop_thread = true;
                     }
-
-                    message_queue_mutex_.lock();
                     num_msg = message_queue_.size();
                     message_queue_mutex_.unlock();
 
@@ -644,7 +643,9 @@ namespace humoto
             {
                 if (! interrupted_)
                 {
+                    message_queue_mutex_.lock();
                     interrupted_ = true;
+                    message_queue_mutex_.unlock();
                     processor_thread_.join();
                 }
             }
-- 
2.43.0


From cbd1272a4649787f9fad5043093cde4eb523caf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:10 +0000
Subject: [PATCH 28/29] fix: a logger may be initialized with another file

---
 core/include/humoto/logger.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index c327413..011d1a8 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -422,6 +422,10 @@ namespace humoto
              */
             void initialize(const std::string &output_filename)
             {
+                if (output_file_stream_.is_open())
+                {
+                    output_file_stream_.close();
+                }
                 file_stream_is_open_ = true;
 
                 output_file_stream_.open(output_filename.c_str());
-- 
2.43.0


From cb954c2b6ffd7c3880f3cfc660d47f6499aa0681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:29 +0000
Subject: [PATCH 29/29] fix: functions defined in headers are inline

---
 .../walking/stance_finite_state_machine.h     | 16 ++++++------
 modules/wpg04/include/wpg04/preview_horizon.h | 26 +++++++++----------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/core/include/walking/stance_finite_state_machine.h b/core/include/walking/stance_finite_state_machine.h
index 89c0237..e54a028 100644
--- a/core/include/walking/stance_finite_state_machine.h
+++ b/core/include/walking/stance_finite_state_machine.h
@@ -71,7 +71,7 @@ namespace humoto
          *
          * @return Left or right.
          */
-        humoto::LeftOrRight::Type     determineSupportFoot(const StanceType::Type & stance_type)
+        inline humoto::LeftOrRight::Type     determineSupportFoot(const StanceType::Type & stance_type)
         {
             switch(stance_type)
             {
@@ -314,7 +314,7 @@ namespace humoto
          *
          * @return
          */
-        std::vector<Stance> StanceFiniteStateMachine::previewStances(const std::size_t preview_duration_ms) const
+        inline std::vector<Stance> StanceFiniteStateMachine::previewStances(const std::size_t preview_duration_ms) const
         {
             bool not_enough_states = false;
 
@@ -381,7 +381,7 @@ namespace humoto
         /**
          * @brief Preview next walk state of the FSM
          */
-        Stance StanceFiniteStateMachine::getNextStance() const
+        inline Stance StanceFiniteStateMachine::getNextStance() const
         {
             StanceFiniteStateMachine stance_fsm = StanceFiniteStateMachine(*this);
             stance_fsm.shiftStance();
@@ -394,7 +394,7 @@ namespace humoto
          *
          * @param[in] sfsm_params
          */
-        StanceFiniteStateMachine::StanceFiniteStateMachine(const StanceFSMParameters &sfsm_params)
+        inline StanceFiniteStateMachine::StanceFiniteStateMachine(const StanceFSMParameters &sfsm_params)
         {
             sfsm_params_ = sfsm_params;
             finalize();
@@ -406,7 +406,7 @@ namespace humoto
          *
          * @param[in] shift_time_ms
          */
-        void StanceFiniteStateMachine::shiftTime(const std::size_t shift_time_ms)
+        inline void StanceFiniteStateMachine::shiftTime(const std::size_t shift_time_ms)
         {
             for (std::size_t time_ms = shift_time_ms; time_ms > 0; )
             {
@@ -429,7 +429,7 @@ namespace humoto
         /**
          * @brief Shift state of the model
          */
-        void StanceFiniteStateMachine::shiftStance()
+        inline void StanceFiniteStateMachine::shiftStance()
         {
             is_tds_started_ = true;
 
@@ -519,8 +519,8 @@ namespace humoto
          * @param[in] parent parent
          * @param[in] name name
          */
-        void StanceFiniteStateMachine::log( humoto::Logger & logger HUMOTO_GLOBAL_LOGGER_IF_DEFINED,
-                                            const LogEntryName &parent = LogEntryName(),
+        inline void StanceFiniteStateMachine::log( humoto::Logger & logger HUMOTO_GLOBAL_LOGGER_IF_DEFINED,
+                                                   const LogEntryName &parent = LogEntryName(),
                                             const std::string &name = "stance_fsm") const
         {
             LogEntryName subname = parent; subname.add(name);
diff --git a/modules/wpg04/include/wpg04/preview_horizon.h b/modules/wpg04/include/wpg04/preview_horizon.h
index 5a4b0b2..b92ff68 100644
--- a/modules/wpg04/include/wpg04/preview_horizon.h
+++ b/modules/wpg04/include/wpg04/preview_horizon.h
@@ -233,10 +233,10 @@ namespace humoto
          * @param[in] walk_parameters
          * @param[in] preview_duration
          */
-        void PreviewHorizon::previewStates(const Model                                     &model,
-                                           const humoto::walking::StanceFiniteStateMachine &stance_fsm,
-                                           const WalkParameters                            &walk_parameters,
-                                           const std::size_t                               preview_duration)
+        inline void PreviewHorizon::previewStates(const Model                                     &model,
+                                                  const humoto::walking::StanceFiniteStateMachine &stance_fsm,
+                                                  const WalkParameters                            &walk_parameters,
+                                                  const std::size_t                               preview_duration)
         {
             std::vector<humoto::walking::Stance> stances;
 
@@ -334,7 +334,7 @@ namespace humoto
          *
          * @return number of variable steps in the preview
          */
-        std::size_t PreviewHorizon::getNumberOfVariableSteps() const
+        inline std::size_t PreviewHorizon::getNumberOfVariableSteps() const
         {
             return (variable_steps_indices_.size());
         }
@@ -351,10 +351,10 @@ namespace humoto
          *
          * @return
          */
-        bool PreviewHorizon::form(const MPCParameters                             &mpc_params,
-                                  const Model                                     &model,
-                                  const humoto::walking::StanceFiniteStateMachine &stance_fsm,
-                                  const WalkParameters                            &walk_parameters)
+        inline bool PreviewHorizon::form(const MPCParameters                             &mpc_params,
+                                         const Model                                     &model,
+                                         const humoto::walking::StanceFiniteStateMachine &stance_fsm,
+                                         const WalkParameters                            &walk_parameters)
         {
             bool preview_horizon_formed = true;
 
@@ -468,8 +468,8 @@ namespace humoto
          * @param[in,out] state
          * @param[in] model
          */
-        void PreviewHorizon::getConstraints(WalkState       &state,
-                                            const Model     &model)
+        inline void PreviewHorizon::getConstraints(WalkState       &state,
+                                                   const Model     &model)
         {
             if(state.subtype_ == humoto::walking::StanceSubType::FIRST)
             {
@@ -548,8 +548,8 @@ namespace humoto
          * @param[in] parent parent
          * @param[in] name name
          */
-        void PreviewHorizon::log(   humoto::Logger & logger HUMOTO_GLOBAL_LOGGER_IF_DEFINED,
-                                    const LogEntryName &parent = LogEntryName(),
+        inline void PreviewHorizon::log(   humoto::Logger & logger HUMOTO_GLOBAL_LOGGER_IF_DEFINED,
+                                           const LogEntryName &parent = LogEntryName(),
                                     const std::string &name = "preview_horizon") const
         {
             LogEntryName subname = parent;
-- 
2.43.0

