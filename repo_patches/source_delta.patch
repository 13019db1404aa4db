From 88d4e0e5542a777add147a995b1facc8e87966f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:15 +0000
Subject: [PATCH 01/94] fix: QP objective misses cross terms between separated
 column intervals

With use_sparsity (the default), a soft constraint having several separated
groups of non-zero columns contributed only the diagonal blocks to P.
---
 src/placo/problem/problem.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index ff53c15..45ad8a9 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -235,8 +235,14 @@ void Problem::solve()
 
           Eigen::MatrixXd block = expression_A.block(0, interval.start, constraints, size);
 
-          P.block(interval.start, interval.start, size, size).noalias() +=
-              constraint->weight * block.transpose() * block;
+          // Cross terms with the other intervals are also part of the objective
+          for (auto other : sparsity.intervals)
+          {
+            int other_size = 1 + other.end - other.start;
+
+            P.block(interval.start, other.start, size, other_size).noalias() +=
+                constraint->weight * block.transpose() * expression_A.block(0, other.start, constraints, other_size);
+          }
         }
 
         q.block(0, 0, expression_A.cols(), 1).noalias() +=
-- 
2.43.0


From dbc5d761e30c457400507abfc67b93df0c108508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:15 +0000
Subject: [PATCH 02/94] fix: equality matrix ignores slack variables when
 equalities are not rewritten

The QP solver was given a matrix with less rows than the decision variables,
and was reading out of its bounds.
---
 src/placo/problem/problem.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index 45ad8a9..7742e3a 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -183,6 +183,12 @@ void Problem::solve()
     A.resize(0, 0);
     b.resize(0);
   }
+  else if (A.rows() > 0 && slack_variables > 0)
+  {
+    // The QP decision variables also include the slack variables
+    A.conservativeResize(Eigen::NoChange, n_variables + slack_variables);
+    A.rightCols(slack_variables).setZero();
+  }
 
   Eigen::MatrixXd P(free_variables + slack_variables, free_variables + slack_variables);
   Eigen::VectorXd q(free_variables + slack_variables);
-- 
2.43.0


From f1fd2bfbbf1e93b0c53b7307fa2fb967c5cbbeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:15 +0000
Subject: [PATCH 03/94] fix: check constraints dimensions before copying hard
 equalities

A hard equality of inconsistent size was written out of the bounds of the
equality matrix before being rejected.
---
 src/placo/problem/problem.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index 7742e3a..28b93ec 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -136,6 +136,23 @@ void Problem::solve()
     }
   }
 
+  // Checking the constraints dimensions
+  for (auto constraint : constraints)
+  {
+    if (constraint->expression.cols() > n_variables)
+    {
+      throw QPError("Problem: Inconsistent problem size");
+    }
+    if (constraint->expression.A.rows() == 0 || constraint->expression.b.rows() == 0)
+    {
+      throw QPError("Problem: A or b is empty");
+    }
+    if (constraint->expression.A.rows() != constraint->expression.b.rows())
+    {
+      throw QPError("Problem: A.rows() != b.rows()");
+    }
+  }
+
   // Equality constraints
   Eigen::MatrixXd A(n_equalities, n_variables);
   Eigen::VectorXd b(n_equalities);
@@ -203,19 +220,6 @@ void Problem::solve()
   // Scanning the constraints (counting inequalities and equalities, building objectif function)
   for (auto constraint : constraints)
   {
-    if (constraint->expression.cols() > n_variables)
-    {
-      throw QPError("Problem: Inconsistent problem size");
-    }
-    if (constraint->expression.A.rows() == 0 || constraint->expression.b.rows() == 0)
-    {
-      throw QPError("Problem: A or b is empty");
-    }
-    if (constraint->expression.A.rows() != constraint->expression.b.rows())
-    {
-      throw QPError("Problem: A.rows() != b.rows()");
-    }
-
     if (constraint->type == ProblemConstraint::Inequality)
     {
       // If the constraint is hard, this will be the true inequality, else, this will be the inequality
-- 
2.43.0


From 997fd3d79fd27a1e617372b64a423ab97d19e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:15 +0000
Subject: [PATCH 04/94] fix: overdetermined equality constraints corrupt memory
 in the QP solver

---
 src/placo/problem/problem.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index 28b93ec..83f9c63 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -171,6 +171,12 @@ void Problem::solve()
     }
   }
 
+  // The QP solver can't handle more equalities than variables
+  if (n_equalities > n_variables)
+  {
+    throw QPError("Problem: Infeasible QP (there are more equality constraints than variables)");
+  }
+
   free_variables = n_variables;
   determined_variables = 0;
 
-- 
2.43.0


From bccd4a5c5f92dbd53c5d57a951be5bbc966d1c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:15 +0000
Subject: [PATCH 05/94] fix: infinite values in the QP solution are not
 reported

---
 src/placo/problem/problem.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index 83f9c63..2431ce5 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -378,10 +378,10 @@ void Problem::solve()
     }
   }
 
-  // Checking for NaNs in solution
-  if (x.hasNaN())
+  // Checking for NaNs and infinite values in solution
+  if (!x.allFinite())
   {
-    throw QPError("Problem: NaN in the QP solution");
+    throw QPError("Problem: NaN or infinity in the QP solution");
   }
 
   // Reporting on the active constraints
-- 
2.43.0


From 0a1a780885661c07f1be9a49e9b0a3e8ab0fac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:31 +0000
Subject: [PATCH 06/94] fix: vector - expression computes expression - vector

---
 src/placo/problem/expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index ad96bb3..38f134b 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -190,7 +190,7 @@ Expression Expression::operator-(const Eigen::VectorXd v) const
 
 Expression operator-(const Eigen::VectorXd v, const Expression& e)
 {
-  return e - v;
+  return (-e) + v;
 }
 
 Expression Expression::operator+(const double f) const
-- 
2.43.0


From 781c9b1147e7a5c368b9aef7bc71007d3ada0381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:31 +0000
Subject: [PATCH 07/94] fix: Expression::mean() divides by the number of
 columns instead of rows

---
 src/placo/problem/expression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index 38f134b..9e17eb9 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -253,8 +253,8 @@ Expression Expression::sum()
 Expression Expression::mean()
 {
   Expression e = sum();
-  e.A /= (double)cols();
-  e.b /= (double)cols();
+  e.A /= (double)rows();
+  e.b /= (double)rows();
 
   return e;
 }
-- 
2.43.0


From 876c395b690bba1469af36ce87bc8cd14073402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:31 +0000
Subject: [PATCH 08/94] fix: expression - scalar reads out of bounds for
 expressions with several rows

---
 src/placo/problem/expression.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index 9e17eb9..1ce6d13 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -208,10 +208,7 @@ Expression operator+(double f, const Expression& e)
 
 Expression Expression::operator-(const double f) const
 {
-  Eigen::VectorXd fv(1);
-  fv(0, 0) = f;
-
-  return (*this) - fv;
+  return (*this) + (-f);
 }
 
 Expression operator-(double f, const Expression& e)
-- 
2.43.0


From a5b4ce209b3e606bdb2d9a9c9972dde0d954b079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:31 +0000
Subject: [PATCH 09/94] fix: expression operations with inconsistent sizes
 access memory out of bounds

Addition/subtraction of a vector, multiplication by a matrix, slice and value
were not checking the sizes. An error is now thrown, as it is already the case
when adding expressions with different number of rows.
---
 src/placo/problem/expression.cpp | 33 ++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index 1ce6d13..953b630 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -56,6 +56,14 @@ Expression Expression::slice(int start, int rows) const
     rows = this->rows() - start;
   }
 
+  if (start < 0 || rows < 0 || start + rows > this->rows())
+  {
+    std::ostringstream oss;
+    oss << "Trying to slice " << rows << " rows starting at " << start << " in an expression having " << this->rows()
+        << " rows";
+    throw std::runtime_error(oss.str());
+  }
+
   e.A = A.block(start, 0, rows, cols());
   e.b = b.block(start, 0, rows, 1);
 
@@ -169,10 +177,7 @@ Expression Expression::operator*(const Expression& other) const
 
 Expression Expression::operator+(const Eigen::VectorXd v) const
 {
-  Expression e(*this);
-  e.b += v;
-
-  return e;
+  return (*this) + Expression(v);
 }
 
 Expression operator+(const Eigen::VectorXd v, const Expression& e)
@@ -182,10 +187,7 @@ Expression operator+(const Eigen::VectorXd v, const Expression& e)
 
 Expression Expression::operator-(const Eigen::VectorXd v) const
 {
-  Expression e(*this);
-  e.b -= v;
-
-  return e;
+  return (*this) - Expression(v);
 }
 
 Expression operator-(const Eigen::VectorXd v, const Expression& e)
@@ -218,6 +220,14 @@ Expression operator-(double f, const Expression& e)
 
 Expression operator*(const Eigen::MatrixXd M, const Expression& e_)
 {
+  if (M.cols() != e_.rows())
+  {
+    std::ostringstream oss;
+    oss << "Trying to multiply an expression having " << e_.rows() << " rows by a matrix having " << M.cols()
+        << " columns";
+    throw std::runtime_error(oss.str());
+  }
+
   Expression e(e_);
   e.A = M.operator*(e.A);
   e.b = M.operator*(e.b);
@@ -296,6 +306,13 @@ ProblemConstraint Expression::operator<=(const Expression& other) const
 
 Eigen::VectorXd Expression::value(Eigen::VectorXd x) const
 {
+  if (x.rows() < A.cols())
+  {
+    std::ostringstream oss;
+    oss << "Trying to evaluate an expression of " << A.cols() << " variables with only " << x.rows() << " values";
+    throw std::runtime_error(oss.str());
+  }
+
   return A * x.block(0, 0, A.cols(), 1) + b;
 }
 
-- 
2.43.0


From d681b3391f554b49be5a7166544fa8fa8e11ebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:31 +0000
Subject: [PATCH 10/94] fix: Variable::expr() writes out of bounds when the
 slice exceeds the variable

This is also reached through Integrator::expr(N, order), that has no variable.
---
 src/placo/problem/variable.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/placo/problem/variable.cpp b/src/placo/problem/variable.cpp
index 7f86dfe..2cd2f22 100644
--- a/src/placo/problem/variable.cpp
+++ b/src/placo/problem/variable.cpp
@@ -1,3 +1,5 @@
+#include <stdexcept>
+#include <string>
 #include "placo/problem/variable.h"
 
 namespace placo::problem
@@ -13,6 +15,12 @@ Expression Variable::expr(int start, int rows)
     rows = size() - start;
   }
 
+  if (start < 0 || rows < 0 || start + rows > size())
+  {
+    throw std::runtime_error("Asking an expression for rows " + std::to_string(start) + " to " +
+                             std::to_string(start + rows) + " of a variable of size " + std::to_string(size()));
+  }
+
   Expression e;
   e.A = Eigen::MatrixXd(rows, k_end);
   e.A.setZero();
-- 
2.43.0


From 89fd9a96e2c6afacb635d320c79ec1e213d4c888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:31 +0000
Subject: [PATCH 11/94] fix: Integrator::expr_t() doesn't check the
 differentiation order

---
 src/placo/problem/integrator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index 809ddf9..b782f76 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -169,6 +169,8 @@ Expression Integrator::expr(int step, int diff)
 
 Expression Integrator::expr_t(double t, int diff)
 {
+  check_diff(order, diff, true);
+
   t -= t_start;
 
   int step = std::max<int>(std::min<int>(variable->size() - 1, t / dt), 0);
-- 
2.43.0


From febceb1444ddbb828a74c637bf299aaa8f8b4ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:31 +0000
Subject: [PATCH 12/94] fix: integrator trajectory duration is one step too
 long

---
 src/placo/problem/integrator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index b782f76..215c6dc 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -40,7 +40,8 @@ double Integrator::Trajectory::value(double t, int diff)
 
 double Integrator::Trajectory::duration()
 {
-  return keyframes.size() * dt;
+  // There is one more keyframe than steps (initial and final state)
+  return variable_value.size() * dt;
 }
 
 Integrator::Integrator()
-- 
2.43.0


From 2381531bb167e58f4a9f2381f3328c489abfbc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:31 +0000
Subject: [PATCH 13/94] fix: changing Integrator::t_start is ignored once the
 trajectory was computed

---
 src/placo/problem/integrator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index 215c6dc..75317e3 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -242,6 +242,9 @@ void Integrator::update_trajectory()
 
     version = variable->version;
   }
+
+  // The starting time can be changed after the problem is solved
+  trajectory.t_start = t_start;
 }
 
 }  // namespace placo::problem
\ No newline at end of file
-- 
2.43.0


From 3099290eaa66d3b3b3f82e67ea9fe02992370697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:31 +0000
Subject: [PATCH 14/94] fix: Integrator with a system matrix doesn't check the
 size of X0

---
 src/placo/problem/integrator.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index 75317e3..82a6950 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -53,6 +53,15 @@ Integrator::Integrator(Variable& variable_, Expression X0, Eigen::MatrixXd syste
 {
   order = system_matrix.rows() - 1;
 
+  if (order < 1 || system_matrix.rows() != system_matrix.cols())
+  {
+    throw std::runtime_error("Integrator: the system matrix should be square, with at least 2 rows");
+  }
+  if (X0.rows() != order)
+  {
+    throw std::runtime_error("Integrator: X0 should have " + std::to_string(order) + " rows (same as order)");
+  }
+
   N = variable->size();
 
   auto AB = AB_matrices(M, order, dt);
@@ -78,10 +87,6 @@ Integrator::Integrator(Variable& variable_, Expression X0, Eigen::MatrixXd syste
 Integrator::Integrator(Variable& variable_, Expression X0, int order, double dt)
   : Integrator(variable_, X0, upper_shift_matrix(order), dt)
 {
-  if (X0.rows() != order)
-  {
-    throw std::runtime_error("Integrator: X0 should have " + std::to_string(order) + " rows (same as order)");
-  }
 }
 
 Integrator::~Integrator()
-- 
2.43.0


From 9aab70d23cde01fe1bf14dcfb96970d7f96ec797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:31 +0000
Subject: [PATCH 15/94] fix: CubicSpline::duration() reads out of bounds before
 the first interpolation

---
 src/placo/tools/cubic_spline.cpp | 376 ++++++++++++++++---------------
 1 file changed, 191 insertions(+), 185 deletions(-)

diff --git a/src/placo/tools/cubic_spline.cpp b/src/placo/tools/cubic_spline.cpp
index e7aa5d7..8beff2f 100644
--- a/src/placo/tools/cubic_spline.cpp
+++ b/src/placo/tools/cubic_spline.cpp
@@ -1,185 +1,191 @@
-#include "placo/tools/cubic_spline.h"
-#include "placo/tools/utils.h"
-#include <Eigen/Dense>
-#include <algorithm>
-#include <cmath>
-#include <iostream>
-#include <vector>
-
-namespace placo::tools
-{
-CubicSpline::CubicSpline(bool angular) : angular(angular)
-{
-}
-
-void CubicSpline::add_point(double t, double x, double dx)
-{
-  // Discontinuity of angle
-  if (angular && _points.size() > 0)
-  {
-    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
-  }
-  struct Point point = { t, x, dx };
-
-  if (_points.size() > 0 && t <= _points.back().t)
-  {
-    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
-  }
-
-  _points.push_back(point);
-  dirty = true;
-}
-
-void CubicSpline::clear()
-{
-  _points.clear();
-  _splines.clear();
-}
-
-double CubicSpline::duration() const
-{
-  return _splines[_splines.size() - 1].t_end - _splines[0].t_start;
-}
-
-/**
- * Return the spline interpolation
- * for given x position
- */
-double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
-{
-  if (dirty)
-  {
-    compute_splines();
-    dirty = false;
-  }
-
-  if (_points.size() == 0)
-  {
-    return 0.0;
-  }
-  else if (_points.size() == 1)
-  {
-    if (type == Value)
-    {
-      return _points.front().x;
-    }
-    else
-    {
-      return _points.front().dx;
-    }
-  }
-  else
-  {
-    if (t < _splines.front().t_start)
-    {
-      t = _splines.front().t_start;
-    }
-    if (t > _splines.back().t_end)
-    {
-      t = _splines.back().t_end;
-    }
-
-    for (size_t i = 0; i < _splines.size(); i++)
-    {
-      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
-      {
-        if (type == Value)
-        {
-          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Speed)
-        {
-          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Acceleration)
-        {
-          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
-        }
-      }
-    }
-    return 0.0;
-  }
-}
-
-double CubicSpline::pos(double t)
-{
-  return interpolation(t, Value);
-}
-
-double CubicSpline::vel(double t)
-{
-  return interpolation(t, Speed);
-}
-
-double CubicSpline::acc(double t)
-{
-  return interpolation(t, Acceleration);
-}
-
-/**
- * Access to internal Points container
- */
-const CubicSpline::Points& CubicSpline::points() const
-{
-  return _points;
-}
-
-double CubicSpline::polynom_value(double t, const Polynom& p)
-{
-  return p.d + t * (t * (p.a * t + p.b) + p.c);
-}
-
-double CubicSpline::polynom_diff(double t, const Polynom& p)
-{
-  return t * (3 * p.a * t + 2 * p.b) + p.c;
-}
-
-double CubicSpline::polynom_diff2(double t, const Polynom& p)
-{
-  return 6 * p.a * t + 2 * p.b;
-}
-
-CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
-{
-  Eigen::Matrix4d M;
-  double t1_2 = t1 * t1;
-  double t1_3 = t1_2 * t1;
-  double t2_2 = t2 * t2;
-  double t2_3 = t2_2 * t2;
-
-  M << t1_3, t1_2, t1, 1,      //
-      3 * t1_2, 2 * t1, 1, 0,  //
-      t2_3, t2_2, t2, 1,       //
-      3 * t2_2, 2 * t2, 1, 0   //
-      ;
-
-  Eigen::Vector4d v;
-  v << x1, dx1, x2, dx2;
-
-  Eigen::Vector4d abcd = M.inverse() * v;
-
-  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
-
-  return polynom;
-}
-
-void CubicSpline::compute_splines()
-{
-  _splines.clear();
-  if (_points.size() < 2)
-  {
-    return;
-  }
-
-  for (size_t i = 1; i < _points.size(); i++)
-  {
-    double t_start = _points[i - 1].t;
-    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
-                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
-                             _points[i - 1].t, _points[i].t };
-
-    _splines.push_back(spline);
-  }
-}
-
-}  // namespace placo::tools
+#include "placo/tools/cubic_spline.h"
+#include "placo/tools/utils.h"
+#include <Eigen/Dense>
+#include <algorithm>
+#include <cmath>
+#include <iostream>
+#include <vector>
+
+namespace placo::tools
+{
+CubicSpline::CubicSpline(bool angular) : angular(angular)
+{
+}
+
+void CubicSpline::add_point(double t, double x, double dx)
+{
+  // Discontinuity of angle
+  if (angular && _points.size() > 0)
+  {
+    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
+  }
+  struct Point point = { t, x, dx };
+
+  if (_points.size() > 0 && t <= _points.back().t)
+  {
+    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
+  }
+
+  _points.push_back(point);
+  dirty = true;
+}
+
+void CubicSpline::clear()
+{
+  _points.clear();
+  _splines.clear();
+}
+
+double CubicSpline::duration() const
+{
+  // Splines are only computed when needed, relying on points
+  if (_points.size() < 2)
+  {
+    return 0.;
+  }
+
+  return _points.back().t - _points.front().t;
+}
+
+/**
+ * Return the spline interpolation
+ * for given x position
+ */
+double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
+{
+  if (dirty)
+  {
+    compute_splines();
+    dirty = false;
+  }
+
+  if (_points.size() == 0)
+  {
+    return 0.0;
+  }
+  else if (_points.size() == 1)
+  {
+    if (type == Value)
+    {
+      return _points.front().x;
+    }
+    else
+    {
+      return _points.front().dx;
+    }
+  }
+  else
+  {
+    if (t < _splines.front().t_start)
+    {
+      t = _splines.front().t_start;
+    }
+    if (t > _splines.back().t_end)
+    {
+      t = _splines.back().t_end;
+    }
+
+    for (size_t i = 0; i < _splines.size(); i++)
+    {
+      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
+      {
+        if (type == Value)
+        {
+          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Speed)
+        {
+          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Acceleration)
+        {
+          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
+        }
+      }
+    }
+    return 0.0;
+  }
+}
+
+double CubicSpline::pos(double t)
+{
+  return interpolation(t, Value);
+}
+
+double CubicSpline::vel(double t)
+{
+  return interpolation(t, Speed);
+}
+
+double CubicSpline::acc(double t)
+{
+  return interpolation(t, Acceleration);
+}
+
+/**
+ * Access to internal Points container
+ */
+const CubicSpline::Points& CubicSpline::points() const
+{
+  return _points;
+}
+
+double CubicSpline::polynom_value(double t, const Polynom& p)
+{
+  return p.d + t * (t * (p.a * t + p.b) + p.c);
+}
+
+double CubicSpline::polynom_diff(double t, const Polynom& p)
+{
+  return t * (3 * p.a * t + 2 * p.b) + p.c;
+}
+
+double CubicSpline::polynom_diff2(double t, const Polynom& p)
+{
+  return 6 * p.a * t + 2 * p.b;
+}
+
+CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
+{
+  Eigen::Matrix4d M;
+  double t1_2 = t1 * t1;
+  double t1_3 = t1_2 * t1;
+  double t2_2 = t2 * t2;
+  double t2_3 = t2_2 * t2;
+
+  M << t1_3, t1_2, t1, 1,      //
+      3 * t1_2, 2 * t1, 1, 0,  //
+      t2_3, t2_2, t2, 1,       //
+      3 * t2_2, 2 * t2, 1, 0   //
+      ;
+
+  Eigen::Vector4d v;
+  v << x1, dx1, x2, dx2;
+
+  Eigen::Vector4d abcd = M.inverse() * v;
+
+  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
+
+  return polynom;
+}
+
+void CubicSpline::compute_splines()
+{
+  _splines.clear();
+  if (_points.size() < 2)
+  {
+    return;
+  }
+
+  for (size_t i = 1; i < _points.size(); i++)
+  {
+    double t_start = _points[i - 1].t;
+    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
+                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
+                             _points[i - 1].t, _points[i].t };
+
+    _splines.push_back(spline);
+  }
+}
+
+}  // namespace placo::tools
-- 
2.43.0


From 74d560b05797031ec7328471d89ddb344bf6dd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:31 +0000
Subject: [PATCH 16/94] fix: setting Segment.end in Python changes the start of
 the segment

---
 bindings/expose-tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/expose-tools.cpp b/bindings/expose-tools.cpp
index 6ff38ad..47d9295 100644
--- a/bindings/expose-tools.cpp
+++ b/bindings/expose-tools.cpp
@@ -88,7 +88,7 @@ void exposeTools()
 
   class__<Segment>("Segment", init<Eigen::Vector2d, Eigen::Vector2d>())
       .add_property("start", &Segment::start, &Segment::start)
-      .add_property("end", &Segment::end, &Segment::start)
+      .add_property("end", &Segment::end, &Segment::end)
       .def("norm", &Segment::norm)
       .def("is_parallel", &Segment::is_parallel)
       .def("is_point_aligned", &Segment::is_point_aligned)
-- 
2.43.0


From 24519db8a79f3ed7ec54d67c21f6d0c2c262948a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:51 +0000
Subject: [PATCH 17/94] fix: LIPM trajectory dzmp has a wrong sign

The ZMP is pos - acc / omega^2, its derivative (and LIPM::dzmp) is vel - jerk / omega^2.
---
 src/placo/humanoid/lipm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/humanoid/lipm.cpp b/src/placo/humanoid/lipm.cpp
index 3e9ca1b..1e95559 100644
--- a/src/placo/humanoid/lipm.cpp
+++ b/src/placo/humanoid/lipm.cpp
@@ -37,7 +37,7 @@ Eigen::VectorXd LIPM::Trajectory::zmp(double t, double omega_2)
 
 Eigen::VectorXd LIPM::Trajectory::dzmp(double t, double omega_2)
 {
-  return vel(t) + (1 / omega_2) * jerk(t);
+  return vel(t) - (1 / omega_2) * jerk(t);
 }
 
 LIPM::LIPM()
-- 
2.43.0


From d3eb0a4b4e9ecc93f3538d1177b0777336eff768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:09 +0000
Subject: [PATCH 18/94] fix: Python expression arithmetics truncates scalars to
 single precision

---
 bindings/expose-problem.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/bindings/expose-problem.cpp b/bindings/expose-problem.cpp
index 79037d9..f06583a 100644
--- a/bindings/expose-problem.cpp
+++ b/bindings/expose-problem.cpp
@@ -152,17 +152,17 @@ void exposeProblem()
       .def(self / self)
       .def(self + self)
       .def(self - self)
-      .def(self * float())
-      .def(float() * self)
+      .def(self * double())
+      .def(double() * self)
       .def(self * self)
       .def(self + other<Eigen::VectorXd>())
       .def(other<Eigen::VectorXd>() + self)
       .def(self - other<Eigen::VectorXd>())
       .def(other<Eigen::VectorXd>() - self)
-      .def(self + float())
-      .def(float() + self)
-      .def(self - float())
-      .def(float() - self)
+      .def(self + double())
+      .def(double() + self)
+      .def(self - double())
+      .def(double() - self)
       .def(other<Eigen::MatrixXd>() * self)
       .def("left_multiply", &Expression::left_multiply)
       // Compare to build constraints
@@ -171,12 +171,12 @@ void exposeProblem()
       .def(self == self)
       .def(self == other<Eigen::VectorXd>())
       .def(other<Eigen::VectorXd>() == self)
-      .def(self == float())
-      .def(float() == self)
-      .def(self <= float())
-      .def(float() <= self)
-      .def(self >= float())
-      .def(float() >= self)
+      .def(self == double())
+      .def(double() == self)
+      .def(self <= double())
+      .def(double() <= self)
+      .def(self >= double())
+      .def(double() >= self)
       .def(self <= other<Eigen::VectorXd>())
       .def(other<Eigen::VectorXd>() <= self)
       .def(self >= other<Eigen::VectorXd>())
-- 
2.43.0


From fcc239526f8a21edac177977c3c2db0c84783647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:37 +0000
Subject: [PATCH 19/94] fix: arrays returned by Variable.value and Problem.x
 are dangling after the next solve

They were views on vectors that are reallocated by Problem::solve(). Values are
now copied, as it is already the case for Problem.slacks.
---
 bindings/expose-problem.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bindings/expose-problem.cpp b/bindings/expose-problem.cpp
index f06583a..e5538a3 100644
--- a/bindings/expose-problem.cpp
+++ b/bindings/expose-problem.cpp
@@ -113,7 +113,8 @@ void exposeProblem()
       .def("clear_variables", &Problem::clear_variables)
       .def("clear_constraints", &Problem::clear_constraints)
       .def("dump_status", &Problem::dump_status)
-      .add_property("x", &Problem::x)
+      .add_property(
+          "x", +[](const Problem& problem) { return problem.x; })
       .add_property("n_variables", &Problem::n_variables, &Problem::n_variables)
       .add_property("n_inequalities", &Problem::n_inequalities, &Problem::n_inequalities)
       .add_property("n_equalities", &Problem::n_equalities, &Problem::n_equalities)
@@ -129,7 +130,8 @@ void exposeProblem()
   class__<Variable>("Variable")
       .add_property("k_start", &Variable::k_start)
       .add_property("k_end", &Variable::k_end)
-      .add_property("value", &Variable::value)
+      .add_property(
+          "value", +[](const Variable& variable) { return variable.value; })
       .def("expr", &Variable::expr, expr_overloads());
 
   class__<Expression>("Expression")
-- 
2.43.0


From 290e1e6b143c28fd982e8413921f901929da3222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:48 +0000
Subject: [PATCH 20/94] fix: accessing an unknown joint reads and writes out of
 bounds

get_joint_offset() was checking the joint name, but not the other accessors
(velocities, accelerations, limits, rotor inertia, sizes and jacobians).
---
 src/placo/model/robot_wrapper.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 152501c..c06b222 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -193,7 +193,7 @@ double RobotWrapper::get_joint(const std::string& name)
   return state.q[get_joint_offset(name)];
 }
 
-int RobotWrapper::get_joint_offset(const std::string& name)
+static pinocchio::JointIndex get_joint_index(const pinocchio::Model& model, const std::string& name)
 {
   if (!model.existJointName(name))
   {
@@ -202,25 +202,30 @@ int RobotWrapper::get_joint_offset(const std::string& name)
     throw std::runtime_error(oss.str());
   }
 
-  auto index = model.getJointId(name);
+  return model.getJointId(name);
+}
+
+int RobotWrapper::get_joint_offset(const std::string& name)
+{
+  auto index = get_joint_index(model, name);
   return model.joints[index].idx_q();
 }
 
 int RobotWrapper::get_joint_size(const std::string& name)
 {
-  auto index = model.getJointId(name);
+  auto index = get_joint_index(model, name);
   return model.joints[index].nq();
 }
 
 int RobotWrapper::get_joint_v_offset(const std::string& name)
 {
-  auto index = model.getJointId(name);
+  auto index = get_joint_index(model, name);
   return model.joints[index].idx_v();
 }
 
 int RobotWrapper::get_joint_v_size(const std::string& name)
 {
-  auto index = model.getJointId(name);
+  auto index = get_joint_index(model, name);
   return model.joints[index].nv();
 }
 
@@ -585,7 +590,7 @@ Eigen::MatrixXd RobotWrapper::frame_jacobian_time_variation(pinocchio::FrameInde
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian(const std::string& joint, const std::string& reference)
 {
-  return joint_jacobian(model.getJointId(joint), string_to_reference(reference));
+  return joint_jacobian(get_joint_index(model, joint), string_to_reference(reference));
 }
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian(pinocchio::JointIndex joint, pinocchio::ReferenceFrame ref)
-- 
2.43.0


From 79baff12dfdf0a349f2e3674a2f9a915f06f95ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:48 +0000
Subject: [PATCH 21/94] fix: joint_jacobian_time_variation() with names returns
 the joint jacobian

---
 src/placo/model/robot_wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index c06b222..8df11f5 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -604,7 +604,7 @@ Eigen::MatrixXd RobotWrapper::joint_jacobian(pinocchio::JointIndex joint, pinocc
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian_time_variation(const std::string& joint, const std::string& reference)
 {
-  return joint_jacobian(model.getJointId(joint), string_to_reference(reference));
+  return joint_jacobian_time_variation(get_joint_index(model, joint), string_to_reference(reference));
 }
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian_time_variation(pinocchio::JointIndex joint, pinocchio::ReferenceFrame ref)
-- 
2.43.0


From 1e4daef74c2027550df23d38cdd5ebdf756b26dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:48 +0000
Subject: [PATCH 22/94] fix: torques with a fixed frame ignore the floating
 base acceleration

torques_from_acceleration_with_fixed_frame() was neglecting the floating base
acceleration induced by the fixed frame, and the forces it requires.
---
 src/placo/model/robot_wrapper.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 8df11f5..df257d1 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -741,15 +741,24 @@ Eigen::VectorXd RobotWrapper::torques_from_acceleration_with_fixed_frame(Eigen::
   auto h = non_linear_effects();
   auto M = mass_matrix();
 
-  // Compute f the forces fixing the frame
+  if (qdd_a.rows() != model.nv - 6)
+  {
+    throw std::runtime_error("torques_from_acceleration_with_fixed_frame(): wrong size for actuated accelerations");
+  }
+
+  // Compute the floating base acceleration, since the frame is fixed: J * qdd + dJ * qd = 0
   Eigen::MatrixXd J = frame_jacobian(frameIndex);
-  Eigen::VectorXd f = J.transpose().block(0, 0, 6, 6).inverse() * h.block(0, 0, 6, 1);
+  Eigen::MatrixXd dJ = frame_jacobian_time_variation(frameIndex);
+  Eigen::VectorXd qdd(model.nv);
+  qdd.tail(model.nv - 6) = qdd_a;
+  qdd.head(6) = -J.leftCols(6).inverse() * (J.rightCols(model.nv - 6) * qdd_a + dJ * state.qd);
 
-  auto h_a = h.bottomRows(model.nv - 6);
-  auto M_a = M.bottomRightCorner(model.nv - 6, model.nv - 6);
+  // Compute f the forces fixing the frame (the floating base is not actuated)
+  Eigen::VectorXd tau = M * qdd + h;
+  Eigen::VectorXd f = J.transpose().block(0, 0, 6, 6).inverse() * tau.head(6);
 
   // Compute the torques
-  return M_a * qdd_a + h_a - (J.transpose() * f).bottomRows(model.nv - 6);
+  return (tau - J.transpose() * f).bottomRows(model.nv - 6);
 }
 
 Eigen::VectorXd RobotWrapper::torques_from_acceleration_with_fixed_frame(Eigen::VectorXd qdd_a, std::string frame)
-- 
2.43.0


From e82d6adc0dcc8bd81d21a25f14e923a8a248f99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:48 +0000
Subject: [PATCH 23/94] fix: unknown frame hessian and contact index read out
 of bounds

---
 bindings/expose-robot-wrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/expose-robot-wrapper.cpp b/bindings/expose-robot-wrapper.cpp
index 25b9ba0..9fc8266 100644
--- a/bindings/expose-robot-wrapper.cpp
+++ b/bindings/expose-robot-wrapper.cpp
@@ -56,7 +56,7 @@ void exposeRobotType(class_<RobotType, W1>& type)
       .def(
           "get_frame_hessian",
           +[](RobotType& robot, const std::string frame, const std::string joint) {
-            return robot.get_frame_hessian(robot.model.getFrameId(frame), robot.get_joint_v_offset(joint));
+            return robot.get_frame_hessian(robot.get_frame_index(frame), robot.get_joint_v_offset(joint));
           })
       .def("get_T_world_fbase", &RobotType::get_T_world_fbase)
       .def("set_T_world_fbase", &RobotType::set_T_world_fbase)
@@ -161,7 +161,7 @@ void exposeRobotWrapper()
       .add_property("parentA", &RobotWrapper::Collision::parentA)
       .add_property("parentB", &RobotWrapper::Collision::parentB)
       .def(
-          "get_contact", +[](RobotWrapper::Collision& collision, int index) { return collision.contacts[index]; });
+          "get_contact", +[](RobotWrapper::Collision& collision, int index) { return collision.contacts.at(index); });
 
   class__<RobotWrapper::Distance>("Distance")
       .add_property("objA", &RobotWrapper::Distance::objA)
-- 
2.43.0


From 6f30d7f1ef36d0cac636a19fdc33596582da2aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:48 +0000
Subject: [PATCH 24/94] fix: HumanoidRobot::get_com_velocity() assumes 20
 actuated DoFs

---
 src/placo/humanoid/humanoid_robot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/humanoid_robot.cpp b/src/placo/humanoid/humanoid_robot.cpp
index cd38c52..c55b0fb 100644
--- a/src/placo/humanoid/humanoid_robot.cpp
+++ b/src/placo/humanoid/humanoid_robot.cpp
@@ -140,7 +140,7 @@ Eigen::Vector3d HumanoidRobot::get_com_velocity(Side support, Eigen::Vector3d om
   // CoM Jacobians
   Eigen::Matrix3Xd J_C = com_jacobian();
   Eigen::Matrix3Xd J_u_C = J_C.leftCols(6);
-  Eigen::Matrix3Xd J_a_C = J_C.rightCols(20);
+  Eigen::Matrix3Xd J_a_C = J_C.rightCols(model.nv - 6);
 
   // Support foot
   Eigen::MatrixXd J_contact = frame_jacobian(support_frame, pinocchio::ReferenceFrame::LOCAL);
@@ -151,7 +151,7 @@ Eigen::Vector3d HumanoidRobot::get_com_velocity(Side support, Eigen::Vector3d om
   Eigen::MatrixXd J(6, J_contact.cols());
   J << J_contact.topRows(3), J_IMU.bottomRows(3);
   Eigen::MatrixXd J_u = J.leftCols(6);
-  Eigen::MatrixXd J_a = J.rightCols(20);
+  Eigen::MatrixXd J_a = J.rightCols(model.nv - 6);
 
   Eigen::MatrixXd J_u_inv = J_u.inverse();
 
-- 
2.43.0


From 4ea2a8668e211985f2addbf3e638429ad46dc273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:48 +0000
Subject: [PATCH 25/94] fix: HumanoidRobot::get_com_velocity() ignores the
 given support side

---
 src/placo/humanoid/humanoid_robot.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/placo/humanoid/humanoid_robot.cpp b/src/placo/humanoid/humanoid_robot.cpp
index c55b0fb..a33bd79 100644
--- a/src/placo/humanoid/humanoid_robot.cpp
+++ b/src/placo/humanoid/humanoid_robot.cpp
@@ -143,7 +143,12 @@ Eigen::Vector3d HumanoidRobot::get_com_velocity(Side support, Eigen::Vector3d om
   Eigen::Matrix3Xd J_a_C = J_C.rightCols(model.nv - 6);
 
   // Support foot
-  Eigen::MatrixXd J_contact = frame_jacobian(support_frame, pinocchio::ReferenceFrame::LOCAL);
+  RobotWrapper::FrameIndex contact_frame = support_frame;
+  if (support != support_side)
+  {
+    contact_frame = (support == Left) ? left_foot : right_foot;
+  }
+  Eigen::MatrixXd J_contact = frame_jacobian(contact_frame, pinocchio::ReferenceFrame::LOCAL);
 
   // IMU body Jacobian
   Eigen::MatrixXd J_IMU = frame_jacobian("trunk", "local");
-- 
2.43.0


From dea67246acabeb231e2b50231d63a23a79267599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:23 +0000
Subject: [PATCH 26/94] fix: wrong velocity-dependent acceleration in dynamics
 RelativePositionTask

---
 src/placo/dynamics/relative_position_task.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/dynamics/relative_position_task.cpp b/src/placo/dynamics/relative_position_task.cpp
index 9b35bfc..79e2abc 100644
--- a/src/placo/dynamics/relative_position_task.cpp
+++ b/src/placo/dynamics/relative_position_task.cpp
@@ -50,8 +50,8 @@ void RelativePositionTask::update()
   J += a_R_w * (Jb.block(0, 0, 3, solver->N) - Ja.block(0, 0, 3, solver->N));
 
   Eigen::Vector3d e = 2 * pinocchio::skew(a_omega_w) * a_R_w * w_dAB;
-  e += 2 * pinocchio::skew(a_omega_w) * pinocchio::skew(a_omega_w) * a_AB;
-  e += a_R_w * (dJb.block(3, 0, 3, solver->N) - dJa.block(3, 0, 3, solver->N)) * solver->robot.state.qd;
+  e += pinocchio::skew(a_omega_w) * pinocchio::skew(a_omega_w) * a_AB;
+  e += a_R_w * (dJb.block(0, 0, 3, solver->N) - dJa.block(0, 0, 3, solver->N)) * solver->robot.state.qd;
   e += pinocchio::skew(a_AB) * a_R_w * dJa.block(3, 0, 3, solver->N) * solver->robot.state.qd;
 
   A = mask.apply(J);
-- 
2.43.0


From fff24e8a7b61de687ae729c1369f1abac1b3d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:50 +0000
Subject: [PATCH 27/94] fix: dynamics RelativeOrientationTask mixes world and
 frame a quantities

---
 .../dynamics/relative_orientation_task.cpp    | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/placo/dynamics/relative_orientation_task.cpp b/src/placo/dynamics/relative_orientation_task.cpp
index 95c1008..3cbba17 100644
--- a/src/placo/dynamics/relative_orientation_task.cpp
+++ b/src/placo/dynamics/relative_orientation_task.cpp
@@ -31,24 +31,23 @@ void RelativeOrientationTask::update()
   Eigen::Matrix3d R_world_a = T_world_a.rotation();
   Eigen::Matrix3d R_a_b_real = T_world_a.rotation().transpose() * T_world_b.rotation();
   Eigen::Matrix3d M = (R_a_b * R_a_b_real.transpose()).matrix();
-  Eigen::Vector3d orientation_error_world = R_world_a * pinocchio::log3(M);
+  Eigen::Vector3d orientation_error = pinocchio::log3(M);
 
   // Computing A and b
   Eigen::Vector3d world_omega_a = Ja * solver->robot.state.qd;
   Eigen::Vector3d world_omega_b = Jb * solver->robot.state.qd;
   Eigen::Vector3d world_omega_a_b_real = world_omega_b - world_omega_a;
-  Eigen::Vector3d velocity_error_world = R_world_a * omega_a_b - world_omega_a_b_real;
+  Eigen::Vector3d velocity_error = omega_a_b - R_world_a.transpose() * world_omega_a_b_real;
 
-  Eigen::Vector3d desired_acceleration = kp * orientation_error_world + get_kd() * velocity_error_world + domega_a_b;
+  Eigen::Vector3d desired_acceleration = kp * orientation_error + get_kd() * velocity_error + domega_a_b;
 
-  Eigen::Matrix3d Jlog;
-  pinocchio::Jlog3(M, Jlog);
+  // Acceleration (in a) is: R_a_world * (J * qdd + dJ * qd - omega_a x omega_a_b)
+  Eigen::Vector3d world_drift = (dJb - dJa) * solver->robot.state.qd - world_omega_a.cross(world_omega_a_b_real);
+  A = mask.apply(R_world_a.transpose() * (Jb - Ja));
+  b = mask.apply(desired_acceleration - R_world_a.transpose() * world_drift);
 
-  // Acceleration is: J * qdd + dJ * qd
-  A = mask.apply(Jlog * (Jb - Ja));
-  b = mask.apply(desired_acceleration - Jlog * (dJb * solver->robot.state.qd - dJa * solver->robot.state.qd));
-  error = mask.apply(orientation_error_world);
-  derror = mask.apply(velocity_error_world);
+  error = mask.apply(orientation_error);
+  derror = mask.apply(velocity_error);
 }
 
 std::string RelativeOrientationTask::type_name()
-- 
2.43.0


From e4489e6602fe436cb182b181d814fe2bf9e224b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:16 +0000
Subject: [PATCH 28/94] fix: dynamics GearTask::set_gear() removes the gears of
 the other joints

---
 src/placo/dynamics/gear_task.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/dynamics/gear_task.cpp b/src/placo/dynamics/gear_task.cpp
index d5af82b..2a498ad 100644
--- a/src/placo/dynamics/gear_task.cpp
+++ b/src/placo/dynamics/gear_task.cpp
@@ -9,7 +9,7 @@ GearTask::GearTask()
 
 void GearTask::set_gear(std::string target, std::string source, double ratio)
 {
-  gears.clear();
+  gears[solver->robot.get_joint_v_offset(target)].clear();
   add_gear(target, source, ratio);
 }
 
-- 
2.43.0


From 8873cac7be4f6214aeb802e27ad2b5aeb8a7a99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:16 +0000
Subject: [PATCH 29/94] fix: DynamicsSolver::remove_task() deletes tasks that
 it doesn't own

---
 src/placo/dynamics/dynamics_solver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/placo/dynamics/dynamics_solver.cpp b/src/placo/dynamics/dynamics_solver.cpp
index e112249..1edcd73 100644
--- a/src/placo/dynamics/dynamics_solver.cpp
+++ b/src/placo/dynamics/dynamics_solver.cpp
@@ -566,7 +566,10 @@ void DynamicsSolver::remove_task(Task& task)
 {
   tasks.erase(&task);
 
-  delete &task;
+  if (task.solver_memory)
+  {
+    delete &task;
+  }
 }
 
 void DynamicsSolver::remove_task(FrameTask& task)
-- 
2.43.0


From b7ae5093b4698208a4274871cde277cf2d44e986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:16 +0000
Subject: [PATCH 30/94] fix: Contact6D tangential cost penalizes the normal
 force

---
 src/placo/dynamics/contacts.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/dynamics/contacts.cpp b/src/placo/dynamics/contacts.cpp
index 2062cd3..3b61832 100644
--- a/src/placo/dynamics/contacts.cpp
+++ b/src/placo/dynamics/contacts.cpp
@@ -138,7 +138,7 @@ void Contact6D::add_constraints(Problem& problem)
   }
   if (weight_tangentials > 0)
   {
-    problem.add_constraint(f.slice(F_Y, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
+    problem.add_constraint(f.slice(F_X, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
   }
   if (weight_moments > 0)
   {
-- 
2.43.0


From 5e3c8312330652850ee94461286fd6efff56587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:16 +0000
Subject: [PATCH 31/94] fix: LineContact uses the indices of a 6D contact

---
 bindings/expose-dynamics.cpp    |  4 ++--
 src/placo/dynamics/contacts.cpp | 20 ++++++++++++--------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index f4744e1..6ccc508 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -77,8 +77,8 @@ void exposeDynamics()
       .def_readwrite("length", &LineContact::length)
       .def("zmp", &LineContact::zmp)
       .add_property(
-          "R_world_surface", +[](PointContact& contact) { return contact.R_world_surface; },
-          +[](PointContact& contact, Eigen::Matrix3d R) { contact.R_world_surface = R; });
+          "R_world_surface", +[](LineContact& contact) { return contact.R_world_surface; },
+          +[](LineContact& contact, Eigen::Matrix3d R) { contact.R_world_surface = R; });
 
   class__<ExternalWrenchContact, bases<Contact>>("ExternalWrenchContact", init<RobotWrapper::FrameIndex>())
       .add_property("frame_index", &ExternalWrenchContact::frame_index)
diff --git a/src/placo/dynamics/contacts.cpp b/src/placo/dynamics/contacts.cpp
index 3b61832..26f9b8e 100644
--- a/src/placo/dynamics/contacts.cpp
+++ b/src/placo/dynamics/contacts.cpp
@@ -12,6 +12,9 @@
 #define M_Y 4
 #define M_Z 5
 
+// A line contact has no M_X, its moments are M_Y and M_Z
+#define LINE_M_Y 3
+
 namespace placo::dynamics
 {
 using namespace placo::problem;
@@ -184,7 +187,7 @@ void LineContact::add_constraints(Problem& problem)
     }
 
     // Expressing the force in the surface frame
-    Expression f_surface = R_world_surface.transpose() * f;
+    Expression f_surface = R_world_surface.transpose() * f.slice(F_X, 3);
 
     // The contact is unilateral
     problem.add_constraint(f_surface.slice(F_Z, 1) >= 0);
@@ -192,8 +195,8 @@ void LineContact::add_constraints(Problem& problem)
     // We want the ZMPs to remain in the contacts
     // We add constraints in the form of:
     // -l_1 f_x <= m_y <= l_1 f_x
-    problem.add_constraint(f_surface.slice(M_Y, 1) <= ((length / 2) * f_surface.slice(F_Z, 1)));
-    problem.add_constraint((-(length / 2) * f_surface.slice(F_Z, 1)) <= f_surface.slice(M_Y, 1));
+    problem.add_constraint(f.slice(LINE_M_Y, 1) <= ((length / 2) * f_surface.slice(F_Z, 1)));
+    problem.add_constraint((-(length / 2) * f_surface.slice(F_Z, 1)) <= f.slice(LINE_M_Y, 1));
 
     // We don't slip
     problem.add_constraint(f_surface.slice(F_X, 1) <= mu * f_surface.slice(F_Z, 1));
@@ -206,24 +209,25 @@ void LineContact::add_constraints(Problem& problem)
   // Objective
   if (weight_forces > 0)
   {
-    Expression f_surface = R_world_surface.transpose() * f;
+    Expression f_surface = R_world_surface.transpose() * f.slice(F_X, 3);
     problem.add_constraint(f_surface.slice(F_X, 3) == 0).configure(ProblemConstraint::Soft, weight_forces);
   }
   if (weight_tangentials > 0)
   {
-    Expression f_surface = R_world_surface.transpose() * f;
-    problem.add_constraint(f_surface.slice(F_Y, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
+    Expression f_surface = R_world_surface.transpose() * f.slice(F_X, 3);
+    problem.add_constraint(f_surface.slice(F_X, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
   }
   if (weight_moments > 0)
   {
     // In a line contact, there are only two moments, which are actually M_Y and M_Z
-    problem.add_constraint(f.slice(3, 2) == 0).configure(ProblemConstraint::Soft, weight_moments);
+    problem.add_constraint(f.slice(LINE_M_Y, 2) == 0).configure(ProblemConstraint::Soft, weight_moments);
   }
 }
 
 Eigen::Vector3d LineContact::zmp()
 {
-  return Eigen::Vector3d(-wrench(M_Y, 0) / wrench(F_Z, 0), 0, 0);
+  Eigen::Vector3d f_surface = R_world_surface.transpose() * wrench.head(3);
+  return Eigen::Vector3d(-wrench(LINE_M_Y, 0) / f_surface(F_Z), 0, 0);
 }
 
 ExternalWrenchContact::ExternalWrenchContact(model::RobotWrapper::FrameIndex frame_index,
-- 
2.43.0


From bab6d0fe324fe648f12374f056c6ab8650706cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:16 +0000
Subject: [PATCH 32/94] fix: DynamicsSolver.robot returns a copy of the robot
 in Python

---
 bindings/expose-dynamics.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index 6ccc508..e47f0b9 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -128,8 +128,9 @@ void exposeDynamics()
       .def("remove_constraint", &DynamicsSolver::remove_constraint)
       .def("set_kp", &DynamicsSolver::set_kp)
       .def("set_kd", &DynamicsSolver::set_kd)
-      .add_property(
-          "robot", +[](const DynamicsSolver& solver) { return solver.robot; })
+      .add_property("robot", make_function(
+                                 +[](const DynamicsSolver& solver) -> RobotWrapper& { return solver.robot; },
+                                 return_value_policy<reference_existing_object>()))
       .def(
           "count_contacts", +[](DynamicsSolver& solver) { return solver.contacts.size(); })
       .def(
-- 
2.43.0


From d7a097398b90993fe58798037461990618f5d8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:16 +0000
Subject: [PATCH 33/94] fix: DynamicsSolver.get_contact() reads out of bounds

---
 bindings/expose-dynamics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index e47f0b9..bfc49b2 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -134,7 +134,7 @@ void exposeDynamics()
       .def(
           "count_contacts", +[](DynamicsSolver& solver) { return solver.contacts.size(); })
       .def(
-          "get_contact", +[](DynamicsSolver& solver, int i) -> Contact& { return *solver.contacts[i]; },
+          "get_contact", +[](DynamicsSolver& solver, int i) -> Contact& { return *solver.contacts.at(i); },
           return_internal_reference<>())
       .def<PositionTask& (DynamicsSolver::*)(std::string, Eigen::Vector3d)>(
           "add_position_task", &DynamicsSolver::add_position_task, return_internal_reference<>())
-- 
2.43.0


From 883e0e66fe5961085eb37cc3ccf4c7a71fd731d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:16 +0000
Subject: [PATCH 34/94] fix: KineticEnergyRegularizationTask is unusable in
 Python because of a wrong base class

---
 bindings/expose-kinematics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/expose-kinematics.cpp b/bindings/expose-kinematics.cpp
index a348cf4..2d7a020 100644
--- a/bindings/expose-kinematics.cpp
+++ b/bindings/expose-kinematics.cpp
@@ -235,7 +235,7 @@ void exposeKinematics()
       .def_readwrite("minimize", &ManipulabilityTask::minimize)
       .def_readonly("manipulability", &ManipulabilityTask::manipulability);
 
-  class__<KineticEnergyRegularizationTask, bases<RegularizationTask>>("KineticEnergyRegularizationTask");
+  class__<KineticEnergyRegularizationTask, bases<Task>>("KineticEnergyRegularizationTask");
 
   class__<Constraint, bases<tools::Prioritized>, boost::noncopyable>("KinematicsConstraint", no_init);
 
-- 
2.43.0


From c5feceece93dbe9871668ec3e577783f4e63399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:16 +0000
Subject: [PATCH 35/94] fix: solvers use a dangling robot when Python releases
 it first

---
 bindings/expose-dynamics.cpp   | 2 +-
 bindings/expose-kinematics.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index bfc49b2..ba7b84c 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -88,7 +88,7 @@ void exposeDynamics()
 
   class__<TaskContact, bases<Contact>>("TaskContact", init<Task&>());
 
-  class__<DynamicsSolver>("DynamicsSolver", init<RobotWrapper&>())
+  class__<DynamicsSolver>("DynamicsSolver", init<RobotWrapper&>()[with_custodian_and_ward<1, 2>()])
       .add_property("problem", &DynamicsSolver::problem)
       .def_readwrite("damping", &DynamicsSolver::damping)
       .def_readwrite("dt", &DynamicsSolver::dt)
diff --git a/bindings/expose-kinematics.cpp b/bindings/expose-kinematics.cpp
index 2d7a020..921d558 100644
--- a/bindings/expose-kinematics.cpp
+++ b/bindings/expose-kinematics.cpp
@@ -19,7 +19,7 @@ BOOST_PYTHON_MEMBER_FUNCTION_OVERLOADS(frametask_configure_overloads, configure,
 void exposeKinematics()
 {
   class_<KinematicsSolver> solver_class =
-      class__<KinematicsSolver>("KinematicsSolver", init<RobotWrapper&>())
+      class__<KinematicsSolver>("KinematicsSolver", init<RobotWrapper&>()[with_custodian_and_ward<1, 2>()])
           .add_property("problem", &KinematicsSolver::problem)
           .add_property("dt", &KinematicsSolver::dt, &KinematicsSolver::dt)
           .add_property("N", &KinematicsSolver::N)
-- 
2.43.0


From 620894741a364103131ceda2fcc2272aed8e0a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:16 +0000
Subject: [PATCH 36/94] fix: AxisAlignTask yields NaNs when the axis is exactly
 aligned or opposite

---
 src/placo/kinematics/axis_align_task.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/placo/kinematics/axis_align_task.cpp b/src/placo/kinematics/axis_align_task.cpp
index 561f28e..456e43f 100644
--- a/src/placo/kinematics/axis_align_task.cpp
+++ b/src/placo/kinematics/axis_align_task.cpp
@@ -20,7 +20,13 @@ void AxisAlignTask::update()
   // the rotation about z to be the error, and about y to be zero.
   Eigen::Matrix3d R_world_axisframe;
   R_world_axisframe.col(0) = (T_world_frame.rotation() * axis_frame).normalized();
-  R_world_axisframe.col(2) = R_world_axisframe.col(0).cross(targetAxis_world_normalized).normalized();
+  Eigen::Vector3d rotation_axis = R_world_axisframe.col(0).cross(targetAxis_world_normalized);
+  if (rotation_axis.norm() < 1e-12)
+  {
+    // The axises are (anti-)parallel, any orthogonal axis can be used
+    rotation_axis = R_world_axisframe.col(0).unitOrthogonal();
+  }
+  R_world_axisframe.col(2) = rotation_axis.normalized();
   R_world_axisframe.col(1) = R_world_axisframe.col(2).cross(R_world_axisframe.col(0));
 
   // Computing the error angle we want to compensate
-- 
2.43.0


From cde35f392a84dc0701a1b7ff69d457c71df009f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:16 +0000
Subject: [PATCH 37/94] fix: dump_status() overflows its buffer with huge
 errors

---
 src/placo/dynamics/dynamics_solver.cpp     | 4 ++--
 src/placo/kinematics/kinematics_solver.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/placo/dynamics/dynamics_solver.cpp b/src/placo/dynamics/dynamics_solver.cpp
index 1edcd73..af7adaa 100644
--- a/src/placo/dynamics/dynamics_solver.cpp
+++ b/src/placo/dynamics/dynamics_solver.cpp
@@ -372,9 +372,9 @@ void DynamicsSolver::dump_status_stream(std::ostream& stream)
     }
     stream << std::endl;
     char buffer[128];
-    sprintf(buffer, "    - Error: %.06f [%s]\n", task->error.norm(), task->error_unit().c_str());
+    snprintf(buffer, sizeof(buffer), "    - Error: %.06f [%s]\n", task->error.norm(), task->error_unit().c_str());
     stream << buffer;
-    sprintf(buffer, "    - DError: %.06f [%s]\n", task->derror.norm(), task->error_unit().c_str());
+    snprintf(buffer, sizeof(buffer), "    - DError: %.06f [%s]\n", task->derror.norm(), task->error_unit().c_str());
     stream << buffer << std::endl;
   }
 }
diff --git a/src/placo/kinematics/kinematics_solver.cpp b/src/placo/kinematics/kinematics_solver.cpp
index 8fbd85b..bc9c3c9 100644
--- a/src/placo/kinematics/kinematics_solver.cpp
+++ b/src/placo/kinematics/kinematics_solver.cpp
@@ -509,7 +509,7 @@ void KinematicsSolver::dump_status_stream(std::ostream& stream)
     }
     stream << std::endl;
     char buffer[128];
-    sprintf(buffer, "    - Error: %.06f [%s]\n", task->error_norm(), task->error_unit().c_str());
+    snprintf(buffer, sizeof(buffer), "    - Error: %.06f [%s]\n", task->error_norm(), task->error_unit().c_str());
     stream << buffer << std::endl;
   }
 }
-- 
2.43.0


From 79d6acfe324045bc6f2a6b694d3371346f67e7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:35 +0000
Subject: [PATCH 38/94] fix: YawConstraint underestimates the yaw rate of
 tilted frames

---
 src/placo/kinematics/yaw_constraint.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/placo/kinematics/yaw_constraint.cpp b/src/placo/kinematics/yaw_constraint.cpp
index f4d84fd..2774404 100644
--- a/src/placo/kinematics/yaw_constraint.cpp
+++ b/src/placo/kinematics/yaw_constraint.cpp
@@ -30,7 +30,8 @@ void YawConstraint::add_constraint(placo::problem::Problem& problem)
   Eigen::Vector3d perp_axis = Eigen::Vector3d::UnitZ().cross(x_axis).normalized();
   Eigen::Vector3d yaw_axis = x_axis.cross(perp_axis).normalized();
 
-  Eigen::MatrixXd J_angle = yaw_axis.transpose() * J_relative;
+  // The more B's x axis is tilted, the faster its projection turns
+  Eigen::MatrixXd J_angle = yaw_axis.transpose() * J_relative / std::max(x_axis.head(2).norm(), 1e-3);
 
   // Expression for the angle
   problem::Expression e;
-- 
2.43.0


From 7f2f4f3f8dc2f11a8f462029157351174a2109ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:24 +0000
Subject: [PATCH 39/94] fix: Result.tau_dict() reads out of bounds after a
 failed solve

---
 bindings/expose-dynamics.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index ba7b84c..6baa36c 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -31,6 +31,11 @@ void exposeDynamics()
           "tau_dict", +[](const DynamicsSolver::Result& result, RobotWrapper& robot) {
             boost::python::dict dict;
 
+            if (result.tau.size() != robot.model.nv)
+            {
+              throw std::runtime_error("Result has no torques for this robot (did the solver fail ?)");
+            }
+
             for (auto& dof : robot.joint_names())
             {
               dict[dof] = result.tau[robot.get_joint_v_offset(dof)];
-- 
2.43.0


From 11e18d14cb9bcf729ec3d2e3cc10ce2808505c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:31 +0000
Subject: [PATCH 40/94] fix: support polygons are stale when footsteps are
 moved

---
 src/placo/humanoid/footsteps_planner.cpp | 43 ++++++++++++------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index a9262bd..2392a4c 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -41,11 +41,9 @@ std::vector<Eigen::Vector2d> FootstepsPlanner::Footstep::compute_polygon(double
 
 std::vector<Eigen::Vector2d> FootstepsPlanner::Footstep::support_polygon()
 {
-  if (!computed_polygon)
-  {
-    polygon = compute_polygon();
-    computed_polygon = true;
-  }
+  // This is not cached, since the frame and the dimensions can be changed at any time
+  polygon = compute_polygon();
+  computed_polygon = true;
 
   return polygon;
 }
@@ -108,29 +106,32 @@ FootstepsPlanner::Support::Support(std::vector<Footstep> footsteps) : footsteps(
 
 std::vector<Eigen::Vector2d> FootstepsPlanner::Support::support_polygon()
 {
-  if (!computed_polygon)
+  if (footsteps.size() == 0)
   {
-    polygon.clear();
+    throw std::runtime_error("Asking support_polygon() for a support without footsteps");
+  }
 
-    b_polygon poly, hull;
-    for (auto& footstep : footsteps)
+  // This is not cached, since the footsteps can be changed at any time
+  polygon.clear();
+
+  b_polygon poly, hull;
+  for (auto& footstep : footsteps)
+  {
+    for (auto& pt : footstep.support_polygon())
     {
-      for (auto& pt : footstep.support_polygon())
-      {
-        boost::geometry::append(poly, b_point(pt.x(), pt.y()));
-      }
+      boost::geometry::append(poly, b_point(pt.x(), pt.y()));
     }
+  }
 
-    // Boost convex hull is also clockwise
-    boost::geometry::convex_hull(poly, hull);
+  // Boost convex hull is also clockwise
+  boost::geometry::convex_hull(poly, hull);
 
-    for (auto& pt : hull.outer())
-    {
-      polygon.push_back(Eigen::Vector2d(pt.get<0>(), pt.get<1>()));
-    }
-    polygon.pop_back();
-    computed_polygon = true;
+  for (auto& pt : hull.outer())
+  {
+    polygon.push_back(Eigen::Vector2d(pt.get<0>(), pt.get<1>()));
   }
+  polygon.pop_back();
+  computed_polygon = true;
 
   return polygon;
 }
-- 
2.43.0


From bcf6c4e45de46668f028bbe8c5f4bfa06b25fd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:31 +0000
Subject: [PATCH 41/94] fix: Footstep::overlap() misses footsteps that cross
 each other

---
 src/placo/humanoid/footsteps_planner.cpp | 33 ++++++++++++++----------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index 2392a4c..a2bcd0f 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -73,22 +73,29 @@ bool FootstepsPlanner::Footstep::overlap(Footstep& other, double margin)
   std::vector<Eigen::Vector2d> support1 = compute_polygon(margin);
   std::vector<Eigen::Vector2d> support2 = other.compute_polygon(margin);
 
-  for (auto pt : support1)
-  {
-    if (polygon_contains(support2, pt))
-    {
-      return true;
-    }
-  }
-  for (auto pt : support2)
-  {
-    if (polygon_contains(support1, pt))
+  // Footsteps are convex, they don't overlap if (and only if) all the points of one are outside an edge of the other.
+  // Testing if one contains a corner of the other is not enough, because they can cross each other.
+  auto is_separated = [](const std::vector<Eigen::Vector2d>& polygon, const std::vector<Eigen::Vector2d>& points) {
+    Eigen::Vector2d last_point = polygon.back();
+
+    for (auto& current_point : polygon)
     {
-      return true;
+      Eigen::Vector2d v = current_point - last_point;
+      Eigen::Vector2d n(v.y(), -v.x());
+
+      if (std::all_of(points.begin(), points.end(),
+                      [&](const Eigen::Vector2d& point) { return n.dot(point - last_point) < 0; }))
+      {
+        return true;
+      }
+
+      last_point = current_point;
     }
-  }
 
-  return false;
+    return false;
+  };
+
+  return !is_separated(support1, support2) && !is_separated(support2, support1);
 }
 
 bool FootstepsPlanner::Footstep::operator==(const Footstep& other)
-- 
2.43.0


From 8f3f762df5bdf8423bc1e150d41fab607ab886e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:31 +0000
Subject: [PATCH 42/94] fix: supports with missing footsteps read out of bounds

---
 src/placo/humanoid/footsteps_planner.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index a2bcd0f..71b3851 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -145,6 +145,11 @@ std::vector<Eigen::Vector2d> FootstepsPlanner::Support::support_polygon()
 
 Eigen::Affine3d FootstepsPlanner::Support::frame()
 {
+  if (footsteps.size() == 0)
+  {
+    throw std::runtime_error("Asking frame() for a support without footsteps");
+  }
+
   Eigen::Affine3d f;
   int n = 1;
 
@@ -195,6 +200,11 @@ HumanoidRobot::Side FootstepsPlanner::Support::side()
     throw std::runtime_error("Asking side() for a double support (call is_both() before)");
   }
 
+  if (footsteps.size() == 0)
+  {
+    throw std::runtime_error("Asking side() for a support without footsteps");
+  }
+
   return footsteps[0].side;
 }
 
@@ -285,6 +295,11 @@ std::vector<FootstepsPlanner::Support> FootstepsPlanner::make_supports(
 
   if (end)
   {
+    if (footsteps.size() < 2)
+    {
+      throw std::runtime_error("At least two footsteps are needed to make a double support");
+    }
+
     // Creating the first (double-support) initial state
     Support support({ footsteps[footsteps.size() - 2], footsteps[footsteps.size() - 1] });
     support.end = true;
-- 
2.43.0


From 173bd368381b82a1d415c616234f88556b6af3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:31 +0000
Subject: [PATCH 43/94] fix: truncate_supports() reads out of bounds

---
 bindings/expose-footsteps.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bindings/expose-footsteps.cpp b/bindings/expose-footsteps.cpp
index 1dca123..a709168 100644
--- a/bindings/expose-footsteps.cpp
+++ b/bindings/expose-footsteps.cpp
@@ -65,7 +65,7 @@ void exposeFootsteps()
       .def("clipped_opposite_footstep", &FootstepsPlanner::clipped_opposite_footstep)
       .def(
           "truncate_supports", +[](const std::vector<FootstepsPlanner::Support>& supports, int index, bool add_end) {
-            if (index > (int)supports.size())
+            if (index < 1 || index > (int)supports.size())
             {
               throw std::out_of_range("Index out of range for supports");
             }
@@ -78,6 +78,11 @@ void exposeFootsteps()
 
             if (add_end && !head.back().end)
             {
+              if (index == (int)supports.size())
+              {
+                throw std::out_of_range("There is no next support to build the end support");
+              }
+
               FootstepsPlanner::Support end_support({ head.back().footsteps[0] });
               end_support.end = true;
               if (end_support.footsteps.size() == 1)
-- 
2.43.0


From c19e9c752aec9f80900b2e4037badb6b536eeefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:31 +0000
Subject: [PATCH 44/94] fix: Trajectory::get_prev_support() overwrites the
 current part of the trajectory

---
 src/placo/humanoid/walk_pattern_generator.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 2df25ab..39425b0 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -280,12 +280,13 @@ FootstepsPlanner::Support WalkPatternGenerator::Trajectory::get_next_support(dou
 
 FootstepsPlanner::Support WalkPatternGenerator::Trajectory::get_prev_support(double t, int n)
 {
-  TrajectoryPart& part = _findPart(parts, t);
-  for (int i = 0; i < n; i++)
+  int index;
+  _findPart(parts, t, &index);
+  if (index - n < 0)
   {
-    part = _findPart(parts, part.t_start - 1e-4);
+    return T * parts.front().support;
   }
-  return T * part.support;
+  return T * parts[index - n].support;
 }
 
 std::vector<FootstepsPlanner::Support> WalkPatternGenerator::Trajectory::get_supports()
-- 
2.43.0


From 4e8f9658e60b4d0433299e849bade9748d934a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:31 +0000
Subject: [PATCH 45/94] fix: Trajectory feet velocities raise during double
 supports

---
 src/placo/humanoid/walk_pattern_generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 39425b0..eace7ab 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -124,7 +124,7 @@ Eigen::Affine3d WalkPatternGenerator::Trajectory::get_T_world_foot(HumanoidRobot
 Eigen::Vector3d WalkPatternGenerator::Trajectory::get_v_world_left(double t)
 {
   TrajectoryPart& part = _findPart(parts, t);
-  if (part.support.side() == HumanoidRobot::Right)
+  if (is_flying(HumanoidRobot::Left, t))
   {
     return T.linear() * part.swing_trajectory.vel(t);
   }
@@ -134,7 +134,7 @@ Eigen::Vector3d WalkPatternGenerator::Trajectory::get_v_world_left(double t)
 Eigen::Vector3d WalkPatternGenerator::Trajectory::get_v_world_right(double t)
 {
   TrajectoryPart& part = _findPart(parts, t);
-  if (part.support.side() == HumanoidRobot::Left)
+  if (is_flying(HumanoidRobot::Right, t))
   {
     return T.linear() * part.swing_trajectory.vel(t);
   }
-- 
2.43.0


From 17c58668650caa8cfacd46232d72fd322db7c91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:31 +0000
Subject: [PATCH 46/94] fix: planning with a single support at the start or at
 the end reads out of bounds

---
 src/placo/humanoid/walk_pattern_generator.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index eace7ab..864917c 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -342,6 +342,15 @@ void WalkPatternGenerator::plan_sgl_support(Trajectory& trajectory, int part_ind
 {
   TrajectoryPart& part = trajectory.parts[part_index];
 
+  if (part_index + 1 >= (int)trajectory.parts.size())
+  {
+    throw std::runtime_error("Can't plan a trajectory ending with a single support");
+  }
+  if (part_index == 0 && old_trajectory == nullptr)
+  {
+    throw std::runtime_error("Can't plan a trajectory starting with a single support");
+  }
+
   // Swing trajectory
   HumanoidRobot::Side flying_side = HumanoidRobot::other_side(part.support.footsteps[0].side);
   Eigen::Affine3d T_world_end = trajectory.parts[part_index + 1].support.footstep_frame(flying_side);
-- 
2.43.0


From 843efaa75e93d8c30ef853e92ad82b1b581e4ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 47/94] fix: clipping a step yields NaNs when a maximum step is
 zero

---
 src/placo/humanoid/humanoid_parameters.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/placo/humanoid/humanoid_parameters.cpp b/src/placo/humanoid/humanoid_parameters.cpp
index f527a59..3749f61 100644
--- a/src/placo/humanoid/humanoid_parameters.cpp
+++ b/src/placo/humanoid/humanoid_parameters.cpp
@@ -35,12 +35,16 @@ bool HumanoidParameters::has_double_support()
   return double_support_timesteps() > 0;
 }
 
+// Divides the step components by their maximum, components for which the maximum is zero are not allowed
+static Eigen::Vector3d divide_step(const Eigen::Vector3d& step, const Eigen::Vector3d& factor)
+{
+  return (factor.array() == 0.).select(0., step.array() / factor.array());
+}
+
 Eigen::Vector3d HumanoidParameters::ellipsoid_clip(Eigen::Vector3d step)
 {
   Eigen::Vector3d factor((step.x() >= 0) ? walk_max_dx_forward : walk_max_dx_backward, walk_max_dy, walk_max_dtheta);
-  step.x() /= factor.x();
-  step.y() /= factor.y();
-  step.z() /= factor.z();
+  step = divide_step(step, factor);
 
   double norm = step.norm();
   if (norm > 1)
@@ -58,9 +62,7 @@ Eigen::Vector3d HumanoidParameters::ellipsoid_clip(Eigen::Vector3d step)
 Eigen::Vector3d HumanoidParameters::box_clip(Eigen::Vector3d step)
 {
   Eigen::Vector3d factor((step.x() >= 0) ? walk_max_dx_forward : walk_max_dx_backward, walk_max_dy, walk_max_dtheta);
-  step.x() /= factor.x();
-  step.y() /= factor.y();
-  step.z() /= factor.z();
+  step = divide_step(step, factor);
 
   double norm = fabs(step.x()) + fabs(step.y()) + fabs(step.z());
   if (norm > 1)
@@ -78,9 +80,7 @@ Eigen::Vector3d HumanoidParameters::box_clip(Eigen::Vector3d step)
 Eigen::Vector3d HumanoidParameters::conic_clip(Eigen::Vector3d step)
 {
   Eigen::Vector3d factor((step.x() >= 0) ? walk_max_dx_forward : walk_max_dx_backward, walk_max_dy, walk_max_dtheta);
-  step.x() /= factor.x();
-  step.y() /= factor.y();
-  step.z() /= factor.z();
+  step = divide_step(step, factor);
 
   double norm = sqrt(step.x() * step.x() + step.y() * step.y()) + fabs(step.z());
   if (norm > 1)
-- 
2.43.0


From 39d6b34867fe629c330fd5cc956153f272e7a010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 48/94] fix: SwingFootQuintic mixes vectors of different sizes

---
 src/placo/humanoid/swing_foot_quintic.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/placo/humanoid/swing_foot_quintic.cpp b/src/placo/humanoid/swing_foot_quintic.cpp
index 25fd927..5e38042 100644
--- a/src/placo/humanoid/swing_foot_quintic.cpp
+++ b/src/placo/humanoid/swing_foot_quintic.cpp
@@ -5,7 +5,7 @@ namespace placo::humanoid
 {
 Eigen::VectorXd quintic_pos_times(double t)
 {
-  Eigen::VectorXd times(18);
+  Eigen::VectorXd times(6);
 
   times << pow(t, 5), pow(t, 4), pow(t, 3), pow(t, 2), pow(t, 1), 1;
 
@@ -14,7 +14,7 @@ Eigen::VectorXd quintic_pos_times(double t)
 
 Eigen::VectorXd quintic_d_times(double t)
 {
-  Eigen::VectorXd times(18);
+  Eigen::VectorXd times(6);
 
   times << 5 * pow(t, 4), 4 * pow(t, 3), 3 * pow(t, 2), 2 * pow(t, 1), 1, 0;
 
@@ -23,7 +23,7 @@ Eigen::VectorXd quintic_d_times(double t)
 
 Eigen::VectorXd quintic_dd_times(double t)
 {
-  Eigen::VectorXd times(18);
+  Eigen::VectorXd times(6);
 
   times << 20 * pow(t, 3), 12 * pow(t, 2), 6 * pow(t, 1), 2, 0, 0;
 
-- 
2.43.0


From 87642b97b772fe670704ca5abc129237cee079df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 49/94] fix: SwingFootQuintic is wrong when the start time is
 large

---
 src/placo/humanoid/swing_foot_quintic.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/placo/humanoid/swing_foot_quintic.cpp b/src/placo/humanoid/swing_foot_quintic.cpp
index 5e38042..a12c60b 100644
--- a/src/placo/humanoid/swing_foot_quintic.cpp
+++ b/src/placo/humanoid/swing_foot_quintic.cpp
@@ -34,6 +34,12 @@ SwingFootQuintic::Trajectory SwingFootQuintic::make_trajectory(double t_start, d
                                                                Eigen::Vector3d start, Eigen::Vector3d target)
 {
   Trajectory trajectory;
+  trajectory.t_start = t_start;
+  trajectory.t_end = t_end;
+
+  // The polynom is expressed relatively to t_start, to be well conditioned whatever the time origin
+  t_end -= t_start;
+  t_start = 0.;
 
   double t_a = t_start + (t_end - t_start) / 4.;
   double t_b = t_start + 3 * (t_end - t_start) / 4.;
@@ -90,6 +96,7 @@ SwingFootQuintic::Trajectory SwingFootQuintic::make_trajectory(double t_start, d
 
 Eigen::Vector3d SwingFootQuintic::Trajectory::pos(double t)
 {
+  t -= t_start;
   double t_2 = t * t;
   double t_3 = t_2 * t;
   double t_4 = t_3 * t;
@@ -100,6 +107,7 @@ Eigen::Vector3d SwingFootQuintic::Trajectory::pos(double t)
 
 Eigen::Vector3d SwingFootQuintic::Trajectory::vel(double t)
 {
+  t -= t_start;
   double t_2 = t * t;
   double t_3 = t_2 * t;
   double t_4 = t_3 * t;
-- 
2.43.0


From db4415170258ee84d95ecc75305a713523c15cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 50/94] fix: WalkTasks::get_tasks_error() overwrites the feet
 orientation errors

---
 src/placo/humanoid/walk_tasks.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_tasks.cpp b/src/placo/humanoid/walk_tasks.cpp
index 8f46098..9ccc3ec 100644
--- a/src/placo/humanoid/walk_tasks.cpp
+++ b/src/placo/humanoid/walk_tasks.cpp
@@ -150,8 +150,8 @@ std::map<std::string, Eigen::Vector3d> WalkTasks::get_tasks_error()
   std::map<std::string, Eigen::Vector3d> error;
   error["left_foot_orientation"] = left_foot_task.orientation->error();
   error["right_foot_orientation"] = right_foot_task.orientation->error();
-  error["left_foot_orientation"] = left_foot_task.position->error();
-  error["right_foot_orientation"] = right_foot_task.position->error();
+  error["left_foot_position"] = left_foot_task.position->error();
+  error["right_foot_position"] = right_foot_task.position->error();
   error["trunk_orientation"] = trunk_orientation_task->error();
   if (trunk_mode)
   {
-- 
2.43.0


From 8cfaffb4ce193ec922f10b45bd415e358ccc7bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 51/94] fix: WalkTasks dereferences null pointers when tasks
 are missing

---
 bindings/expose-walk-pattern-generator.cpp |  6 +++---
 src/placo/humanoid/walk_tasks.cpp          | 19 +++++++++++++++++--
 src/placo/humanoid/walk_tasks.h            |  7 ++++++-
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/bindings/expose-walk-pattern-generator.cpp b/bindings/expose-walk-pattern-generator.cpp
index 705461b..e0187b7 100644
--- a/bindings/expose-walk-pattern-generator.cpp
+++ b/bindings/expose-walk-pattern-generator.cpp
@@ -142,13 +142,13 @@ void exposeWalkPatternGenerator()
       .add_property("com_y", &WalkTasks::com_y, &WalkTasks::com_y)
       .add_property("trunk_orientation_task",
                     make_function(
-                        +[](WalkTasks& tasks) -> OrientationTask& { return *tasks.trunk_orientation_task; },
+                        +[](WalkTasks& tasks) { return tasks.trunk_orientation_task; },
                         return_value_policy<reference_existing_object>()))
       .add_property("com_task", make_function(
-                                    +[](WalkTasks& tasks) -> CoMTask& { return *tasks.com_task; },
+                                    +[](WalkTasks& tasks) { return tasks.com_task; },
                                     return_value_policy<reference_existing_object>()))
       .add_property("trunk_task", make_function(
-                                      +[](WalkTasks& tasks) -> PositionTask& { return *tasks.trunk_task; },
+                                      +[](WalkTasks& tasks) { return tasks.trunk_task; },
                                       return_value_policy<reference_existing_object>()));
 
   class__<LIPM::Trajectory>("LIPMTrajectory", init<>())
diff --git a/src/placo/humanoid/walk_tasks.cpp b/src/placo/humanoid/walk_tasks.cpp
index 9ccc3ec..4e50212 100644
--- a/src/placo/humanoid/walk_tasks.cpp
+++ b/src/placo/humanoid/walk_tasks.cpp
@@ -24,8 +24,18 @@ void WalkTasks::initialize_tasks(KinematicsSolver* solver_, HumanoidRobot* robot
   update_com_task();
 }
 
+void WalkTasks::check_initialized()
+{
+  if (solver == nullptr)
+  {
+    throw std::runtime_error("WalkTasks: tasks are not initialized, call initialize_tasks() first");
+  }
+}
+
 void WalkTasks::update_com_task()
 {
+  check_initialized();
+
   if (trunk_mode)
   {
     if (com_task != nullptr)
@@ -57,6 +67,8 @@ void WalkTasks::update_com_task()
 void WalkTasks::reach_initial_pose(Eigen::Affine3d T_world_left, double feet_spacing, double com_height,
                                    double trunk_pitch)
 {
+  check_initialized();
+
   Eigen::Affine3d T_world_right = T_world_left;
   T_world_right.translation() =
       T_world_left.translation() + T_world_left.rotation() * Eigen::Vector3d(0, -feet_spacing, 0);
@@ -126,6 +138,7 @@ void WalkTasks::remove_tasks()
       trunk_task = nullptr;
     }
     solver->remove_task(*trunk_orientation_task);
+    trunk_orientation_task = nullptr;
     solver = nullptr;
   }
 }
@@ -147,17 +160,19 @@ void WalkTasks::update_tasks_and_pid(WalkPatternGenerator::Trajectory& trajector
 
 std::map<std::string, Eigen::Vector3d> WalkTasks::get_tasks_error()
 {
+  check_initialized();
+
   std::map<std::string, Eigen::Vector3d> error;
   error["left_foot_orientation"] = left_foot_task.orientation->error();
   error["right_foot_orientation"] = right_foot_task.orientation->error();
   error["left_foot_position"] = left_foot_task.position->error();
   error["right_foot_position"] = right_foot_task.position->error();
   error["trunk_orientation"] = trunk_orientation_task->error();
-  if (trunk_mode)
+  if (trunk_task != nullptr)
   {
     error["trunk_position"] = trunk_task->error();
   }
-  else
+  if (com_task != nullptr)
   {
     error["com_position"] = com_task->error();
   }
diff --git a/src/placo/humanoid/walk_tasks.h b/src/placo/humanoid/walk_tasks.h
index 38a43b6..8adfcdd 100644
--- a/src/placo/humanoid/walk_tasks.h
+++ b/src/placo/humanoid/walk_tasks.h
@@ -23,13 +23,18 @@ public:
 
   placo::kinematics::FrameTask left_foot_task;
   placo::kinematics::FrameTask right_foot_task;
-  placo::kinematics::OrientationTask* trunk_orientation_task;
+  placo::kinematics::OrientationTask* trunk_orientation_task = nullptr;
 
   placo::kinematics::CoMTask* com_task = nullptr;
   placo::kinematics::PositionTask* trunk_task = nullptr;
 
   void update_com_task();
 
+  /**
+   * @brief Throws an exception if the tasks are not initialized
+   */
+  void check_initialized();
+
   void reach_initial_pose(Eigen::Affine3d T_world_left, double feet_spacing, double com_height, double trunk_pitch);
 
   bool scaled = false;
-- 
2.43.0


From b3fed7617d80a453be2fdd57ff6c7b251e5ec32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 52/94] fix: WalkTasks.solver returns a copy of the solver,
 which frees its tasks

---
 bindings/expose-walk-pattern-generator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bindings/expose-walk-pattern-generator.cpp b/bindings/expose-walk-pattern-generator.cpp
index e0187b7..490cc05 100644
--- a/bindings/expose-walk-pattern-generator.cpp
+++ b/bindings/expose-walk-pattern-generator.cpp
@@ -132,8 +132,9 @@ void exposeWalkPatternGenerator()
             }
             return dict;
           })
-      .add_property(
-          "solver", +[](WalkTasks& tasks) { return *tasks.solver; })
+      .add_property("solver", make_function(
+                                  +[](WalkTasks& tasks) { return tasks.solver; },
+                                  return_value_policy<reference_existing_object>()))
       .add_property("scaled", &WalkTasks::scaled, &WalkTasks::scaled)
       .add_property("left_foot_task", &WalkTasks::left_foot_task)
       .add_property("right_foot_task", &WalkTasks::right_foot_task)
-- 
2.43.0


From e24d33d984e919189d4ab2b71bb9c82fac42e7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 53/94] fix: planners and walk classes use a dangling robot or
 parameters when Python releases them first

---
 bindings/expose-footsteps.cpp              | 4 ++--
 bindings/expose-walk-pattern-generator.cpp | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/bindings/expose-footsteps.cpp b/bindings/expose-footsteps.cpp
index a709168..aa83187 100644
--- a/bindings/expose-footsteps.cpp
+++ b/bindings/expose-footsteps.cpp
@@ -101,12 +101,12 @@ void exposeFootsteps()
             return head;
           });
 
-  class__<FootstepsPlannerNaive, bases<FootstepsPlanner>>("FootstepsPlannerNaive", init<HumanoidParameters&>())
+  class__<FootstepsPlannerNaive, bases<FootstepsPlanner>>("FootstepsPlannerNaive", init<HumanoidParameters&>()[with_custodian_and_ward<1, 2>()])
       .def("plan", &FootstepsPlannerNaive::plan)
       .def("configure", &FootstepsPlannerNaive::configure);
 
   class__<FootstepsPlannerRepetitive, bases<FootstepsPlanner>>("FootstepsPlannerRepetitive",
-                                                               init<HumanoidParameters&>())
+                                                               init<HumanoidParameters&>()[with_custodian_and_ward<1, 2>()])
       .def("plan", &FootstepsPlannerRepetitive::plan)
       .def("configure", &FootstepsPlannerRepetitive::configure);
 
diff --git a/bindings/expose-walk-pattern-generator.cpp b/bindings/expose-walk-pattern-generator.cpp
index 490cc05..82546a3 100644
--- a/bindings/expose-walk-pattern-generator.cpp
+++ b/bindings/expose-walk-pattern-generator.cpp
@@ -64,7 +64,8 @@ void exposeWalkPatternGenerator()
       .def("apply_transform", &WalkPatternGenerator::Trajectory::apply_transform)
       .def("print_parts_timings", &WalkPatternGenerator::Trajectory::print_parts_timings);
 
-  class__<WalkPatternGenerator>("WalkPatternGenerator", init<HumanoidRobot&, HumanoidParameters&>())
+  class__<WalkPatternGenerator>("WalkPatternGenerator", init<HumanoidRobot&, HumanoidParameters&>()
+                                [with_custodian_and_ward<1, 2, with_custodian_and_ward<1, 3>>()])
       .def("plan", &WalkPatternGenerator::plan)
       .def("replan", &WalkPatternGenerator::replan)
       .def("can_replan_supports", &WalkPatternGenerator::can_replan_supports)
@@ -102,7 +103,8 @@ void exposeWalkPatternGenerator()
   class__<WalkTasks>("WalkTasks", init<>())
       .def(
           "initialize_tasks", +[](WalkTasks& tasks, KinematicsSolver& solver,
-                                  HumanoidRobot& robot) { tasks.initialize_tasks(&solver, &robot); })
+                                  HumanoidRobot& robot) { tasks.initialize_tasks(&solver, &robot); },
+          with_custodian_and_ward<1, 2, with_custodian_and_ward<1, 3>>())
       .def(
           "update_tasks_from_trajectory", +[](WalkTasks& tasks, WalkPatternGenerator::Trajectory& trajectory,
                                               double t) { return tasks.update_tasks(trajectory, t); })
@@ -183,7 +185,8 @@ void exposeWalkPatternGenerator()
       .add_property("x", &LIPM::x, &LIPM::x)
       .add_property("y", &LIPM::y, &LIPM::y);
 
-  class__<DummyWalk>("DummyWalk", init<model::RobotWrapper&, humanoid::HumanoidParameters&>())
+  class__<DummyWalk>("DummyWalk", init<model::RobotWrapper&, humanoid::HumanoidParameters&>()
+                     [with_custodian_and_ward<1, 2, with_custodian_and_ward<1, 3>>()])
       .def("reset", &DummyWalk::reset, (arg("support_left") = false))
       .def("update", &DummyWalk::update)
       .def("next_step", &DummyWalk::next_step)
-- 
2.43.0


From 466a350b3376d805c84df4636f5d057790a398e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 54/94] fix: update_supports() does not mirror the DCM offset
 polygon for right supports

---
 src/placo/humanoid/walk_pattern_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 864917c..5a64476 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -749,7 +749,7 @@ std::vector<FootstepsPlanner::Support> WalkPatternGenerator::update_supports(
       point(0) = -point(0);
       point(1) = -point(1);
     }
-    problem.add_constraint(PolygonConstraint::in_polygon_xy(support_dcm_offset->expr(), parameters.dcm_offset_polygon))
+    problem.add_constraint(PolygonConstraint::in_polygon_xy(support_dcm_offset->expr(), dcm_offset_polygon))
         .configure(ProblemConstraint::Soft, w_viability);
   }
   else
-- 
2.43.0


From 0840d3626baea398c0f0750951e8f0e3b54c2c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:13 +0000
Subject: [PATCH 55/94] fix: update_supports() moves the wrong footstep before
 a double support

---
 src/placo/humanoid/walk_pattern_generator.cpp | 30 +++++++++++++++++--
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 5a64476..82d6e6f 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -689,12 +689,19 @@ void WalkPatternGenerator::Trajectory::print_parts_timings()
 std::vector<FootstepsPlanner::Support> WalkPatternGenerator::update_supports(
     double t, std::vector<FootstepsPlanner::Support> supports, Eigen::Vector2d world_measured_dcm)
 {
+  if (supports.size() < 2)
+  {
+    throw std::runtime_error("At least two supports are needed to update the flying target");
+  }
+
   FootstepsPlanner::Support current_support = supports[0];
   if (current_support.is_both())
   {
     throw std::runtime_error("Can't modify flying target and step duration if the current support is both");
   }
 
+  HumanoidRobot::Side flying_side = HumanoidRobot::other_side(current_support.side());
+
   placo::problem::Problem problem;
   double w1 = 5;
   double w2 = 100;
@@ -722,7 +729,7 @@ std::vector<FootstepsPlanner::Support> WalkPatternGenerator::update_supports(
 
   // ZMP Reference (expressed in the world frame)
   Expression world_next_zmp_expr = p_world_support + R_world_support * support_next_zmp->expr();
-  Eigen::Vector2d world_target_zmp = supports[1].frame().translation().head(2);
+  Eigen::Vector2d world_target_zmp = supports[1].footstep_frame(flying_side).translation().head(2);
   problem.add_constraint(world_next_zmp_expr == world_target_zmp).configure(ProblemConstraint::Soft, w2);
 
   // DCM offset reference (expressed in the world frame)
@@ -782,8 +789,25 @@ std::vector<FootstepsPlanner::Support> WalkPatternGenerator::update_supports(
 
   // Updating next support position
   Eigen::Vector2d world_next_zmp_val = p_world_support + R_world_support * support_next_zmp->value;
-  supports[1].footsteps[0].frame.translation().x() = world_next_zmp_val(0);
-  supports[1].footsteps[0].frame.translation().y() = world_next_zmp_val(1);
+  for (int k = 1; k < (int)supports.size(); k++)
+  {
+    // The flying foot stays where it lands until its next flight
+    bool is_landed = false;
+    for (auto& footstep : supports[k].footsteps)
+    {
+      if (footstep.side == flying_side)
+      {
+        footstep.frame.translation().x() = world_next_zmp_val(0);
+        footstep.frame.translation().y() = world_next_zmp_val(1);
+        is_landed = true;
+      }
+    }
+
+    if (!is_landed)
+    {
+      break;
+    }
+  }
 
   // Updating current support remaining duration
   double support_remaining_time = std::max(1e-3, log(tau->value(0)) / omega - elapsed_time);
-- 
2.43.0


From bfc9e1a9b910f8d7e1e02f67923e1f574b3f66a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:13 +0000
Subject: [PATCH 56/94] fix: transformed supports keep their target DCM in the
 original frame

---
 src/placo/humanoid/footsteps_planner.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index 71b3851..fc21277 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -223,6 +223,8 @@ FootstepsPlanner::Support operator*(Eigen::Affine3d T, const FootstepsPlanner::S
     footstep.computed_polygon = false;
   }
   new_support.computed_polygon = false;
+  new_support.target_world_dcm =
+      (T * Eigen::Vector3d(support.target_world_dcm.x(), support.target_world_dcm.y(), 0.)).head(2);
 
   return new_support;
 }
-- 
2.43.0


From 3f8c6d7372a9aa3228d38a2df12a00b5a0de4326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:13 +0000
Subject: [PATCH 57/94] fix: get_next_support() and get_prev_support() read out
 of bounds with a negative n

---
 src/placo/humanoid/walk_pattern_generator.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 82d6e6f..c3fde5a 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -271,22 +271,16 @@ FootstepsPlanner::Support WalkPatternGenerator::Trajectory::get_next_support(dou
 {
   int index;
   _findPart(parts, t, &index);
-  if (index + n >= (int)parts.size())
-  {
-    return T * parts.back().support;
-  }
-  return T * parts[index + n].support;
+  index = std::max(0, std::min((int)parts.size() - 1, index + n));
+  return T * parts[index].support;
 }
 
 FootstepsPlanner::Support WalkPatternGenerator::Trajectory::get_prev_support(double t, int n)
 {
   int index;
   _findPart(parts, t, &index);
-  if (index - n < 0)
-  {
-    return T * parts.front().support;
-  }
-  return T * parts[index - n].support;
+  index = std::max(0, std::min((int)parts.size() - 1, index - n));
+  return T * parts[index].support;
 }
 
 std::vector<FootstepsPlanner::Support> WalkPatternGenerator::Trajectory::get_supports()
-- 
2.43.0


From adc3e356ae17e6e6a7b889f42d328a082d8220c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:25 +0000
Subject: [PATCH 58/94] fix: FootstepsPlannerNaive stops before reaching the
 target

---
 src/placo/humanoid/footsteps_planner_naive.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/placo/humanoid/footsteps_planner_naive.cpp b/src/placo/humanoid/footsteps_planner_naive.cpp
index 14bbb3c..a1030fe 100644
--- a/src/placo/humanoid/footsteps_planner_naive.cpp
+++ b/src/placo/humanoid/footsteps_planner_naive.cpp
@@ -108,6 +108,9 @@ void FootstepsPlannerNaive::plan_impl(std::vector<FootstepsPlanner::Footstep>& f
 
     if (dist > place_threshold)
     {
+      // The orientation is not the target one yet
+      arrived = false;
+
       Eigen::Vector3d target_to_center =
           (T_world_support.inverse() * T_world_target).translation() - T_support_center.translation();
       error_yaw = atan2(target_to_center.y(), target_to_center.x());
@@ -130,7 +133,12 @@ void FootstepsPlannerNaive::plan_impl(std::vector<FootstepsPlanner::Footstep>& f
 
     // Ellipsoid clipping
     Eigen::Vector3d step(error.x(), error.y(), error_yaw);
-    step = parameters.ellipsoid_clip(step);
+    Eigen::Vector3d clipped_step = parameters.ellipsoid_clip(step);
+    if (!clipped_step.isApprox(step))
+    {
+      arrived = false;
+    }
+    step = clipped_step;
 
     // Computing new frame
     Eigen::Affine3d new_step;
-- 
2.43.0


From 13086d9ddeea89f588d63c0857be07fb74fffdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:25 +0000
Subject: [PATCH 59/94] fix: converting Python sequences to vectors leaks their
 items

---
 bindings/expose-utils.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/expose-utils.hpp b/bindings/expose-utils.hpp
index 39d99f0..8765a6d 100644
--- a/bindings/expose-utils.hpp
+++ b/bindings/expose-utils.hpp
@@ -34,7 +34,9 @@ struct custom_vector_from_seq
     v->reserve(l);
     for (int i = 0; i < l; i++)
     {
-      v->push_back(extract<containedType>(PySequence_GetItem(obj_ptr, i)));
+      // PySequence_GetItem returns a new reference, which is released by the handle
+      handle<> item(PySequence_GetItem(obj_ptr, i));
+      v->push_back(extract<containedType>(item.get()));
     }
     data->convertible = storage;
   }
-- 
2.43.0


From 336f5df202ebef8bd78bf82d9890bcdf9c7f18d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:55 +0000
Subject: [PATCH 60/94] fix: WalkTasks::get_tasks_error() reads empty errors
 before the first solve

---
 src/placo/humanoid/walk_tasks.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/placo/humanoid/walk_tasks.cpp b/src/placo/humanoid/walk_tasks.cpp
index 4e50212..89e5663 100644
--- a/src/placo/humanoid/walk_tasks.cpp
+++ b/src/placo/humanoid/walk_tasks.cpp
@@ -162,19 +162,32 @@ std::map<std::string, Eigen::Vector3d> WalkTasks::get_tasks_error()
 {
   check_initialized();
 
+  auto task_error = [](Task* task) -> Eigen::Vector3d {
+    if (task->b.rows() == 0)
+    {
+      // The solver has not updated this task yet
+      task->update();
+    }
+    if (task->b.rows() != 3)
+    {
+      throw std::runtime_error("WalkTasks: the errors of masked tasks are not available");
+    }
+    return task->b;
+  };
+
   std::map<std::string, Eigen::Vector3d> error;
-  error["left_foot_orientation"] = left_foot_task.orientation->error();
-  error["right_foot_orientation"] = right_foot_task.orientation->error();
-  error["left_foot_position"] = left_foot_task.position->error();
-  error["right_foot_position"] = right_foot_task.position->error();
-  error["trunk_orientation"] = trunk_orientation_task->error();
+  error["left_foot_orientation"] = task_error(left_foot_task.orientation);
+  error["right_foot_orientation"] = task_error(right_foot_task.orientation);
+  error["left_foot_position"] = task_error(left_foot_task.position);
+  error["right_foot_position"] = task_error(right_foot_task.position);
+  error["trunk_orientation"] = task_error(trunk_orientation_task);
   if (trunk_task != nullptr)
   {
-    error["trunk_position"] = trunk_task->error();
+    error["trunk_position"] = task_error(trunk_task);
   }
   if (com_task != nullptr)
   {
-    error["com_position"] = com_task->error();
+    error["com_position"] = task_error(com_task);
   }
   return error;
 }
-- 
2.43.0


From 8eca28a1e2a218a7ab229bb1e6172b743a4bdaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:55 +0000
Subject: [PATCH 61/94] fix: DummyWalk::update_T_world_support() places the
 robot using outdated kinematics

---
 src/placo/humanoid/dummy_walk.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/placo/humanoid/dummy_walk.cpp b/src/placo/humanoid/dummy_walk.cpp
index ebb7718..f06a997 100644
--- a/src/placo/humanoid/dummy_walk.cpp
+++ b/src/placo/humanoid/dummy_walk.cpp
@@ -94,6 +94,9 @@ void DummyWalk::update_T_world_support(Eigen::Affine3d T_world_support)
   T_world_right = tools::flatten_on_floor(T * T_world_right);
   T_world_next = tools::flatten_on_floor(T * T_world_next);
 
+  // The configuration was changed by the last solve
+  robot.update_kinematics();
+
   if (support_left)
   {
     robot.set_T_world_frame("left_foot", T_world_left);
-- 
2.43.0


From b7335b9c5b6e01a99d74ff498a6b9d87dcba9596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:36 +0000
Subject: [PATCH 62/94] fix: frame tasks use a dead solver when it goes out of
 scope in Python

---
 bindings/expose-dynamics.cpp   | 7 ++++---
 bindings/expose-kinematics.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index 6baa36c..4e40810 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -149,7 +149,8 @@ void exposeDynamics()
           "add_relative_orientation_task", &DynamicsSolver::add_relative_orientation_task,
           return_internal_reference<>())
       .def<RelativeFrameTask (DynamicsSolver::*)(std::string, std::string, Eigen::Affine3d)>(
-          "add_relative_frame_task", &DynamicsSolver::add_relative_frame_task)
+          "add_relative_frame_task", &DynamicsSolver::add_relative_frame_task,
+          with_custodian_and_ward_postcall<0, 1>())
       .def<JointsTask& (DynamicsSolver::*)()>("add_joints_task", &DynamicsSolver::add_joints_task,
                                               return_internal_reference<>())
       .def<TorqueTask& (DynamicsSolver::*)()>("add_torque_task", &DynamicsSolver::add_torque_task,
@@ -161,8 +162,8 @@ void exposeDynamics()
 
       .def<OrientationTask& (DynamicsSolver::*)(std::string, Eigen::Matrix3d)>(
           "add_orientation_task", &DynamicsSolver::add_orientation_task, return_internal_reference<>())
-      .def<FrameTask (DynamicsSolver::*)(std::string, Eigen::Affine3d)>("add_frame_task",
-                                                                        &DynamicsSolver::add_frame_task);
+      .def<FrameTask (DynamicsSolver::*)(std::string, Eigen::Affine3d)>(
+          "add_frame_task", &DynamicsSolver::add_frame_task, with_custodian_and_ward_postcall<0, 1>());
 
   class__<Task, bases<tools::Prioritized>, boost::noncopyable>("DynamicsTask", no_init)
       .def_readwrite("A", &Task::A)
diff --git a/bindings/expose-kinematics.cpp b/bindings/expose-kinematics.cpp
index 921d558..80b4e83 100644
--- a/bindings/expose-kinematics.cpp
+++ b/bindings/expose-kinematics.cpp
@@ -46,10 +46,11 @@ void exposeKinematics()
               return_internal_reference<>())
 
           // Frame task
-          .def<FrameTask (KinematicsSolver::*)(std::string, Eigen::Affine3d)>("add_frame_task",
-                                                                              &KinematicsSolver::add_frame_task)
+          .def<FrameTask (KinematicsSolver::*)(std::string, Eigen::Affine3d)>(
+              "add_frame_task", &KinematicsSolver::add_frame_task, with_custodian_and_ward_postcall<0, 1>())
           .def<RelativeFrameTask (KinematicsSolver::*)(std::string, std::string, Eigen::Affine3d)>(
-              "add_relative_frame_task", &KinematicsSolver::add_relative_frame_task)
+              "add_relative_frame_task", &KinematicsSolver::add_relative_frame_task,
+              with_custodian_and_ward_postcall<0, 1>())
 
           // Axis align task
           .def<AxisAlignTask& (KinematicsSolver::*)(std::string, Eigen::Vector3d, Eigen::Vector3d)>(
-- 
2.43.0


From 1a8a344963ab7b647e8dff59758172cf3445095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:36 +0000
Subject: [PATCH 63/94] fix: robots, parameters, solvers and tasks read from
 properties dangle when their owner goes out of scope

---
 bindings/expose-dynamics.cpp               |  2 +-
 bindings/expose-kinematics.cpp             |  2 +-
 bindings/expose-walk-pattern-generator.cpp | 12 ++++++------
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index 4e40810..e309e53 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -135,7 +135,7 @@ void exposeDynamics()
       .def("set_kd", &DynamicsSolver::set_kd)
       .add_property("robot", make_function(
                                  +[](const DynamicsSolver& solver) -> RobotWrapper& { return solver.robot; },
-                                 return_value_policy<reference_existing_object>()))
+                                 return_internal_reference<>()))
       .def(
           "count_contacts", +[](DynamicsSolver& solver) { return solver.contacts.size(); })
       .def(
diff --git a/bindings/expose-kinematics.cpp b/bindings/expose-kinematics.cpp
index 80b4e83..79cacd8 100644
--- a/bindings/expose-kinematics.cpp
+++ b/bindings/expose-kinematics.cpp
@@ -27,7 +27,7 @@ void exposeKinematics()
           .add_property("robot",
                         make_function(
                             +[](const KinematicsSolver& solver) -> model::RobotWrapper& { return solver.robot; },
-                            return_value_policy<reference_existing_object>()))
+                            return_internal_reference<>()))
 
           // Position and CoM task
           .def<PositionTask& (KinematicsSolver::*)(std::string, Eigen::Vector3d)>(
diff --git a/bindings/expose-walk-pattern-generator.cpp b/bindings/expose-walk-pattern-generator.cpp
index 82546a3..e899ed8 100644
--- a/bindings/expose-walk-pattern-generator.cpp
+++ b/bindings/expose-walk-pattern-generator.cpp
@@ -136,7 +136,7 @@ void exposeWalkPatternGenerator()
           })
       .add_property("solver", make_function(
                                   +[](WalkTasks& tasks) { return tasks.solver; },
-                                  return_value_policy<reference_existing_object>()))
+                                  return_internal_reference<>()))
       .add_property("scaled", &WalkTasks::scaled, &WalkTasks::scaled)
       .add_property("left_foot_task", &WalkTasks::left_foot_task)
       .add_property("right_foot_task", &WalkTasks::right_foot_task)
@@ -146,13 +146,13 @@ void exposeWalkPatternGenerator()
       .add_property("trunk_orientation_task",
                     make_function(
                         +[](WalkTasks& tasks) { return tasks.trunk_orientation_task; },
-                        return_value_policy<reference_existing_object>()))
+                        return_internal_reference<>()))
       .add_property("com_task", make_function(
                                     +[](WalkTasks& tasks) { return tasks.com_task; },
-                                    return_value_policy<reference_existing_object>()))
+                                    return_internal_reference<>()))
       .add_property("trunk_task", make_function(
                                       +[](WalkTasks& tasks) { return tasks.trunk_task; },
-                                      return_value_policy<reference_existing_object>()));
+                                      return_internal_reference<>()));
 
   class__<LIPM::Trajectory>("LIPMTrajectory", init<>())
       .def("pos", &LIPM::Trajectory::pos)
@@ -193,10 +193,10 @@ void exposeWalkPatternGenerator()
       .def("update_T_world_support", &DummyWalk::update_T_world_support)
       .add_property("robot", make_function(
                                  +[](DummyWalk& walk) -> model::RobotWrapper& { return walk.robot; },
-                                 return_value_policy<reference_existing_object>()))
+                                 return_internal_reference<>()))
       .add_property("parameters", make_function(
                                       +[](DummyWalk& walk) -> humanoid::HumanoidParameters& { return walk.parameters; },
-                                      return_value_policy<reference_existing_object>()))
+                                      return_internal_reference<>()))
       .add_property("solver", &DummyWalk::solver)
       .def_readwrite("support_left", &DummyWalk::support_left)
       .def_readwrite("lift_spline", &DummyWalk::lift_spline)
-- 
2.43.0


From 43312f5512b1aafe6295e999d095edbed8455878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:36 +0000
Subject: [PATCH 64/94] fix: integrators, polynoms and LIPMs use the variables
 of a dead problem in Python

---
 bindings/expose-problem.cpp                | 6 +++---
 bindings/expose-walk-pattern-generator.cpp | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/bindings/expose-problem.cpp b/bindings/expose-problem.cpp
index e5538a3..4752615 100644
--- a/bindings/expose-problem.cpp
+++ b/bindings/expose-problem.cpp
@@ -83,8 +83,8 @@ void exposeProblem()
       .def("in_polygon_xy", &PolygonConstraint::in_polygon_xy)
       .staticmethod("in_polygon_xy");
 
-  class__<Integrator>("Integrator", init<Variable&, Expression, int, double>())
-      .def(init<Variable&, Eigen::VectorXd, Eigen::MatrixXd, double>())
+  class__<Integrator>("Integrator", init<Variable&, Expression, int, double>()[with_custodian_and_ward<1, 2>()])
+      .def(init<Variable&, Eigen::VectorXd, Eigen::MatrixXd, double>()[with_custodian_and_ward<1, 2>()])
       .def("upper_shift_matrix", &Integrator::upper_shift_matrix)
       .staticmethod("upper_shift_matrix")
       .add_property("t_start", &Integrator::t_start, &Integrator::t_start)
@@ -97,7 +97,7 @@ void exposeProblem()
       .def("value", &Integrator::value)
       .def("get_trajectory", &Integrator::get_trajectory);
 
-  class__<ProblemPolynom>("ProblemPolynom", init<Variable&>())
+  class__<ProblemPolynom>("ProblemPolynom", init<Variable&>()[with_custodian_and_ward<1, 2>()])
       .def("expr", &ProblemPolynom::expr, problem_polynom_expr_overloads())
       .def("get_polynom", &ProblemPolynom::get_polynom);
 
diff --git a/bindings/expose-walk-pattern-generator.cpp b/bindings/expose-walk-pattern-generator.cpp
index e899ed8..2e868f5 100644
--- a/bindings/expose-walk-pattern-generator.cpp
+++ b/bindings/expose-walk-pattern-generator.cpp
@@ -164,7 +164,8 @@ void exposeWalkPatternGenerator()
       .def("dcm", &LIPM::Trajectory::dcm);
 
   class__<LIPM>("LIPM",
-                init<problem::Problem&, double, int, double, Eigen::Vector2d, Eigen::Vector2d, Eigen::Vector2d>())
+                init<problem::Problem&, double, int, double, Eigen::Vector2d, Eigen::Vector2d, Eigen::Vector2d>()
+                [with_custodian_and_ward<1, 2>()])
       .def("compute_omega", &LIPM::compute_omega)
       .def("get_trajectory", &LIPM::get_trajectory)
       .def("pos", &LIPM::pos)
@@ -174,7 +175,7 @@ void exposeWalkPatternGenerator()
       .def("dcm", &LIPM::dcm)
       .def("zmp", &LIPM::zmp)
       .def("dzmp", &LIPM::dzmp)
-      .def("build_LIPM_from_previous", &LIPM::build_LIPM_from_previous)
+      .def("build_LIPM_from_previous", &LIPM::build_LIPM_from_previous, with_custodian_and_ward_postcall<0, 1>())
       .def("get_trajectory", &LIPM::get_trajectory)
       .add_property("dt", &LIPM::dt, &LIPM::dt)
       .add_property("timesteps", &LIPM::timesteps, &LIPM::timesteps)
-- 
2.43.0


From a43d0c3d259bcaea8e1af47f7a5105fb319e7300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:42 +0000
Subject: [PATCH 65/94] fix: LIPM.x_var and LIPM.y_var can't be read in Python

---
 bindings/expose-walk-pattern-generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/expose-walk-pattern-generator.cpp b/bindings/expose-walk-pattern-generator.cpp
index 2e868f5..c161a9f 100644
--- a/bindings/expose-walk-pattern-generator.cpp
+++ b/bindings/expose-walk-pattern-generator.cpp
@@ -181,8 +181,8 @@ void exposeWalkPatternGenerator()
       .add_property("timesteps", &LIPM::timesteps, &LIPM::timesteps)
       .add_property("t_start", &LIPM::t_start, &LIPM::t_start)
       .add_property("t_end", &LIPM::t_end, &LIPM::t_end)
-      .add_property("x_var", &LIPM::x_var, &LIPM::x_var)
-      .add_property("y_var", &LIPM::y_var, &LIPM::y_var)
+      .add_property("x_var", make_getter(&LIPM::x_var, return_internal_reference<>()), make_setter(&LIPM::x_var))
+      .add_property("y_var", make_getter(&LIPM::y_var, return_internal_reference<>()), make_setter(&LIPM::y_var))
       .add_property("x", &LIPM::x, &LIPM::x)
       .add_property("y", &LIPM::y, &LIPM::y);
 
-- 
2.43.0


From 242a4afaa88d359a216bc255cc67d1ee6d8fae7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:36 +0000
Subject: [PATCH 66/94] fix: joint accessors read and write out of bounds with
 the universe joint

---
 src/placo/model/robot_wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index df257d1..6f61cec 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -195,7 +195,8 @@ double RobotWrapper::get_joint(const std::string& name)
 
 static pinocchio::JointIndex get_joint_index(const pinocchio::Model& model, const std::string& name)
 {
-  if (!model.existJointName(name))
+  // The joint 0 ("universe") is not an actual joint
+  if (!model.existJointName(name) || model.getJointId(name) == 0)
   {
     std::ostringstream oss;
     oss << "Joint with name " << name << " not found in model";
-- 
2.43.0


From 7055cb7c97335ea86259a9183a4e4f77d97c05fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:36 +0000
Subject: [PATCH 67/94] fix: integrators overflow with large times

---
 src/placo/problem/integrator.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index 82a6950..5eae021 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -12,13 +12,8 @@ double Integrator::Trajectory::value(double t, int diff)
 
   Integrator::check_diff(order, diff);
 
-  int k = std::floor(t / dt);
-
-  if (k < 0)
-    k = 0;
-
-  if (k >= variable_value.size())
-    k = variable_value.size() - 1;
+  // Clamping before converting to an integer, which could overflow
+  int k = std::floor(fmax(0., fmin(variable_value.size() - 1, t / dt)));
 
   double remaining_dt = fmax(0, fmin(dt, t - k * dt));
 
@@ -179,7 +174,8 @@ Expression Integrator::expr_t(double t, int diff)
 
   t -= t_start;
 
-  int step = std::max<int>(std::min<int>(variable->size() - 1, t / dt), 0);
+  // Clamping before converting to an integer, which could overflow
+  int step = fmax(0., fmin(variable->size() - 1, t / dt));
 
   if (diff == order)
   {
-- 
2.43.0


From c89c5627a5f0792594743ad8c8e81e5e8db82289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:36 +0000
Subject: [PATCH 68/94] fix: Polynom::value() reads out of bounds with a
 negative differentiation order

---
 src/placo/tools/polynom.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/placo/tools/polynom.cpp b/src/placo/tools/polynom.cpp
index 4c40ecd..6fa4f39 100644
--- a/src/placo/tools/polynom.cpp
+++ b/src/placo/tools/polynom.cpp
@@ -1,3 +1,4 @@
+#include <stdexcept>
 #include "placo/tools/polynom.h"
 
 namespace placo::tools
@@ -27,6 +28,11 @@ int Polynom::derivative_coefficient(int degree, int derivative)
 
 double Polynom::value(double x, int differentiate)
 {
+  if (differentiate < 0)
+  {
+    throw std::runtime_error("Polynom: can't differentiate a negative number of times");
+  }
+
   double p = 0;
 
   double x_pow = 1;
-- 
2.43.0


From 144e3358da16128189e94c4ccfcb30c3c9cf6993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:36 +0000
Subject: [PATCH 69/94] fix: new footsteps have an uninitialized side and frame

---
 src/placo/humanoid/footsteps_planner.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/footsteps_planner.h b/src/placo/humanoid/footsteps_planner.h
index 1b5ba4e..3ef080f 100644
--- a/src/placo/humanoid/footsteps_planner.h
+++ b/src/placo/humanoid/footsteps_planner.h
@@ -21,8 +21,8 @@ public:
     double foot_width;
     double foot_length;
 
-    HumanoidRobot::Side side;
-    Eigen::Affine3d frame;
+    HumanoidRobot::Side side = HumanoidRobot::Side::Left;
+    Eigen::Affine3d frame = Eigen::Affine3d::Identity();
 
     std::vector<Eigen::Vector2d> polygon;
     bool computed_polygon = false;
-- 
2.43.0


From c0aad77d8e435efad9c549a9f174e531fc894fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:36 +0000
Subject: [PATCH 70/94] fix: directions_2d() and directions_3d() corrupt memory
 with a negative count

---
 src/placo/tools/directions.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/placo/tools/directions.cpp b/src/placo/tools/directions.cpp
index a44d61d..7060628 100644
--- a/src/placo/tools/directions.cpp
+++ b/src/placo/tools/directions.cpp
@@ -1,9 +1,15 @@
+#include <stdexcept>
 #include "directions.h"
 
 namespace placo::tools
 {
 Eigen::MatrixXd directions_2d(int n)
 {
+  if (n < 0)
+  {
+    throw std::runtime_error("directions_2d: the number of directions should be positive");
+  }
+
   Eigen::MatrixXd directions(n, 2);
 
   for (int i = 0; i < n; i++)
@@ -18,6 +24,11 @@ Eigen::MatrixXd directions_2d(int n)
 
 Eigen::MatrixXd directions_3d(int n, double epsilon)
 {
+  if (n < 0)
+  {
+    throw std::runtime_error("directions_3d: the number of directions should be positive");
+  }
+
   Eigen::MatrixXd directions(n, 3);
 
   // Golden ratio
-- 
2.43.0


From 8fc09d77ed9868c2357ddacd4bcc0e3df953d56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:00 +0000
Subject: [PATCH 71/94] fix: ProblemPolynom::expr() writes out of bounds with a
 negative derivative

---
 src/placo/problem/problem_polynom.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/placo/problem/problem_polynom.cpp b/src/placo/problem/problem_polynom.cpp
index 7892e72..1f09e99 100644
--- a/src/placo/problem/problem_polynom.cpp
+++ b/src/placo/problem/problem_polynom.cpp
@@ -9,6 +9,11 @@ ProblemPolynom::ProblemPolynom(Variable& variable) : variable(&variable)
 
 Expression ProblemPolynom::expr(double x, int derivative)
 {
+  if (derivative < 0)
+  {
+    throw std::runtime_error("ProblemPolynom: can't differentiate a negative number of times");
+  }
+
   Eigen::MatrixXd coefficients(1, variable->size());
   coefficients.setZero();
 
-- 
2.43.0


From 7209c73ab8798e67b88fc3f6f0ede078d9f0b6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:00 +0000
Subject: [PATCH 72/94] fix: adding a task or constraint of another solver
 frees it twice

---
 src/placo/dynamics/dynamics_solver.cpp     | 10 ++++++++++
 src/placo/kinematics/kinematics_solver.cpp | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/placo/dynamics/dynamics_solver.cpp b/src/placo/dynamics/dynamics_solver.cpp
index af7adaa..d88b142 100644
--- a/src/placo/dynamics/dynamics_solver.cpp
+++ b/src/placo/dynamics/dynamics_solver.cpp
@@ -631,12 +631,22 @@ void DynamicsSolver::set_torque_limit(std::string joint, double limit)
 
 void DynamicsSolver::add_task(Task& task)
 {
+  if (task.solver_memory && task.solver != this)
+  {
+    throw std::runtime_error("DynamicsSolver: can't add a task that is owned by another solver");
+  }
+
   task.solver = this;
   tasks.insert(&task);
 }
 
 void DynamicsSolver::add_constraint(Constraint& constraint)
 {
+  if (constraint.solver_memory && constraint.solver != this)
+  {
+    throw std::runtime_error("DynamicsSolver: can't add a constraint that is owned by another solver");
+  }
+
   constraint.solver = this;
   constraints.insert(&constraint);
 }
diff --git a/src/placo/kinematics/kinematics_solver.cpp b/src/placo/kinematics/kinematics_solver.cpp
index bc9c3c9..fa735f2 100644
--- a/src/placo/kinematics/kinematics_solver.cpp
+++ b/src/placo/kinematics/kinematics_solver.cpp
@@ -516,12 +516,22 @@ void KinematicsSolver::dump_status_stream(std::ostream& stream)
 
 void KinematicsSolver::add_task(Task& task)
 {
+  if (task.solver_memory && task.solver != this)
+  {
+    throw std::runtime_error("KinematicsSolver: can't add a task that is owned by another solver");
+  }
+
   task.solver = this;
   tasks.insert(&task);
 }
 
 void KinematicsSolver::add_constraint(Constraint& constraint)
 {
+  if (constraint.solver_memory && constraint.solver != this)
+  {
+    throw std::runtime_error("KinematicsSolver: can't add a constraint that is owned by another solver");
+  }
+
   constraint.solver = this;
   constraints.insert(&constraint);
 }
-- 
2.43.0


From d1c85c50d1980184719d8d0be947b0cb453502c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:34 +0000
Subject: [PATCH 73/94] fix: solvers use tasks and constraints created in
 Python after they are freed

---
 bindings/expose-dynamics.cpp   | 6 +++---
 bindings/expose-kinematics.cpp | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index e309e53..5b1092f 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -123,9 +123,9 @@ void exposeDynamics()
       .def("enable_torque_limits", &DynamicsSolver::enable_torque_limits)
       .def("dump_status", &DynamicsSolver::dump_status)
       .def("solve", &DynamicsSolver::solve, solve_overloads())
-      .def<void (DynamicsSolver::*)(Task&)>("add_task", &DynamicsSolver::add_task)
-      .def<void (DynamicsSolver::*)(Constraint&)>("add_constraint", &DynamicsSolver::add_constraint)
-      .def<void (DynamicsSolver::*)(Constraint&)>("add_constraint", &DynamicsSolver::add_constraint)
+      .def<void (DynamicsSolver::*)(Task&)>("add_task", &DynamicsSolver::add_task, with_custodian_and_ward<1, 2>())
+      .def<void (DynamicsSolver::*)(Constraint&)>("add_constraint", &DynamicsSolver::add_constraint,
+                                                  with_custodian_and_ward<1, 2>())
       .def("clear", &DynamicsSolver::clear)
       .def<void (DynamicsSolver::*)(Task&)>("remove_task", &DynamicsSolver::remove_task)
       .def<void (DynamicsSolver::*)(FrameTask&)>("remove_task", &DynamicsSolver::remove_task)
diff --git a/bindings/expose-kinematics.cpp b/bindings/expose-kinematics.cpp
index 79cacd8..ea2d2dc 100644
--- a/bindings/expose-kinematics.cpp
+++ b/bindings/expose-kinematics.cpp
@@ -125,8 +125,10 @@ void exposeKinematics()
 
           .def("enable_joint_limits", &KinematicsSolver::enable_joint_limits)
           .def("enable_velocity_limits", &KinematicsSolver::enable_velocity_limits)
-          .def<void (KinematicsSolver::*)(Task&)>("add_task", &KinematicsSolver::add_task)
-          .def<void (KinematicsSolver::*)(Constraint&)>("add_constraint", &KinematicsSolver::add_constraint)
+          .def<void (KinematicsSolver::*)(Task&)>("add_task", &KinematicsSolver::add_task,
+                                                        with_custodian_and_ward<1, 2>())
+          .def<void (KinematicsSolver::*)(Constraint&)>("add_constraint", &KinematicsSolver::add_constraint,
+                                                              with_custodian_and_ward<1, 2>())
           .def<void (KinematicsSolver::*)(Task&)>("remove_task", &KinematicsSolver::remove_task)
           .def<void (KinematicsSolver::*)(FrameTask&)>("remove_task", &KinematicsSolver::remove_task)
           .def("remove_constraint", &KinematicsSolver::remove_constraint)
-- 
2.43.0


From cdb41255485be8121029c53ffa33468e6954d1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:32 +0000
Subject: [PATCH 74/94] fix: empty integrator trajectories read out of bounds

---
 src/placo/problem/integrator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index 5eae021..5e4c0ad 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -12,6 +12,11 @@ double Integrator::Trajectory::value(double t, int diff)
 
   Integrator::check_diff(order, diff);
 
+  if (variable_value.size() == 0)
+  {
+    throw std::runtime_error("Integrator: the trajectory is empty");
+  }
+
   // Clamping before converting to an integer, which could overflow
   int k = std::floor(fmax(0., fmin(variable_value.size() - 1, t / dt)));
 
-- 
2.43.0


From a8905619e990030fd15fa5bb70f0fe661850d74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:50 +0000
Subject: [PATCH 75/94] fix: variables of negative sizes corrupt the problem

---
 src/placo/problem/problem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index 2431ce5..6640869 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -28,6 +28,11 @@ Problem::~Problem()
 
 Variable& Problem::add_variable(int size)
 {
+  if (size < 0)
+  {
+    throw std::runtime_error("Problem: the size of a variable should be positive");
+  }
+
   Variable* variable = new Variable;
   variable->problem = this;
   variable->k_start = n_variables;
-- 
2.43.0


From 0304d26cfc55d48a151d0da4a1b5303673eb0669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:56 +0000
Subject: [PATCH 76/94] fix: integrators of negative orders corrupt memory

---
 src/placo/problem/integrator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index 5e4c0ad..63340da 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -105,6 +105,11 @@ std::pair<Eigen::MatrixXd, Eigen::VectorXd> Integrator::AB_matrices(Eigen::Matri
 
 Eigen::MatrixXd Integrator::upper_shift_matrix(int order)
 {
+  if (order < 1)
+  {
+    throw std::runtime_error("Integrator: the order should be at least 1");
+  }
+
   Eigen::MatrixXd M(order + 1, order + 1);
   M.setZero();
 
-- 
2.43.0


From da698205e7b602933593116366c00cedbf2ba95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:43 +0000
Subject: [PATCH 77/94] fix: derivatives of high degree polynoms overflow

---
 src/placo/tools/polynom.cpp | 4 ++--
 src/placo/tools/polynom.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/placo/tools/polynom.cpp b/src/placo/tools/polynom.cpp
index 6fa4f39..01e0a61 100644
--- a/src/placo/tools/polynom.cpp
+++ b/src/placo/tools/polynom.cpp
@@ -7,14 +7,14 @@ Polynom::Polynom(Eigen::VectorXd coefficients) : coefficients(coefficients)
 {
 }
 
-int Polynom::derivative_coefficient(int degree, int derivative)
+double Polynom::derivative_coefficient(int degree, int derivative)
 {
   if (derivative > degree)
   {
     return 0;
   }
 
-  int coefficient = 1;
+  double coefficient = 1;
 
   while (derivative > 0)
   {
diff --git a/src/placo/tools/polynom.h b/src/placo/tools/polynom.h
index 018bff7..187f0da 100644
--- a/src/placo/tools/polynom.h
+++ b/src/placo/tools/polynom.h
@@ -15,7 +15,7 @@ public:
    * @param derivative number of differentiations
    * @return coefficient
    */
-  static int derivative_coefficient(int degree, int derivative);
+  static double derivative_coefficient(int degree, int derivative);
 
   /**
    * @brief Computes the value of polynom
-- 
2.43.0


From 158a071e516391ae4b952ea4d68f62dda10cf8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:28 +0000
Subject: [PATCH 78/94] fix: RobotWrapper never frees its pinocchio data

---
 src/placo/model/robot_wrapper.cpp | 2 +-
 src/placo/model/robot_wrapper.h   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 6f61cec..cdef69a 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -127,7 +127,7 @@ RobotWrapper::RobotWrapper(std::string model_directory, int flags, std::string u
   }
 
   // Creating data
-  data = new pinocchio::Data(model);
+  data.reset(new pinocchio::Data(model));
 
   // Assuming that motors with limits both equals to zero are not defined in the
   // URDF, setting them to the maximum possible value
diff --git a/src/placo/model/robot_wrapper.h b/src/placo/model/robot_wrapper.h
index 4362ea9..1d7f58d 100644
--- a/src/placo/model/robot_wrapper.h
+++ b/src/placo/model/robot_wrapper.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <memory>
 #include <Eigen/Dense>
 #include "pinocchio/algorithm/frames.hpp"
 #include "pinocchio/algorithm/joint-configuration.hpp"
@@ -698,7 +699,7 @@ public:
   /**
    * @brief Pinocchio model data
    */
-  pinocchio::Data* data;
+  std::shared_ptr<pinocchio::Data> data;
 
 protected:
   /**
-- 
2.43.0


From 976fa1902ee032067eea169e04bcdc2b9bb34afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:37 +0000
Subject: [PATCH 79/94] fix: restore the line endings of cubic_spline.cpp,
 changed by 9aab70d

---
 src/placo/tools/cubic_spline.cpp | 382 +++++++++++++++----------------
 1 file changed, 191 insertions(+), 191 deletions(-)

diff --git a/src/placo/tools/cubic_spline.cpp b/src/placo/tools/cubic_spline.cpp
index 8beff2f..a324a9c 100644
--- a/src/placo/tools/cubic_spline.cpp
+++ b/src/placo/tools/cubic_spline.cpp
@@ -1,191 +1,191 @@
-#include "placo/tools/cubic_spline.h"
-#include "placo/tools/utils.h"
-#include <Eigen/Dense>
-#include <algorithm>
-#include <cmath>
-#include <iostream>
-#include <vector>
-
-namespace placo::tools
-{
-CubicSpline::CubicSpline(bool angular) : angular(angular)
-{
-}
-
-void CubicSpline::add_point(double t, double x, double dx)
-{
-  // Discontinuity of angle
-  if (angular && _points.size() > 0)
-  {
-    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
-  }
-  struct Point point = { t, x, dx };
-
-  if (_points.size() > 0 && t <= _points.back().t)
-  {
-    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
-  }
-
-  _points.push_back(point);
-  dirty = true;
-}
-
-void CubicSpline::clear()
-{
-  _points.clear();
-  _splines.clear();
-}
-
-double CubicSpline::duration() const
-{
-  // Splines are only computed when needed, relying on points
-  if (_points.size() < 2)
-  {
-    return 0.;
-  }
-
-  return _points.back().t - _points.front().t;
-}
-
-/**
- * Return the spline interpolation
- * for given x position
- */
-double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
-{
-  if (dirty)
-  {
-    compute_splines();
-    dirty = false;
-  }
-
-  if (_points.size() == 0)
-  {
-    return 0.0;
-  }
-  else if (_points.size() == 1)
-  {
-    if (type == Value)
-    {
-      return _points.front().x;
-    }
-    else
-    {
-      return _points.front().dx;
-    }
-  }
-  else
-  {
-    if (t < _splines.front().t_start)
-    {
-      t = _splines.front().t_start;
-    }
-    if (t > _splines.back().t_end)
-    {
-      t = _splines.back().t_end;
-    }
-
-    for (size_t i = 0; i < _splines.size(); i++)
-    {
-      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
-      {
-        if (type == Value)
-        {
-          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Speed)
-        {
-          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Acceleration)
-        {
-          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
-        }
-      }
-    }
-    return 0.0;
-  }
-}
-
-double CubicSpline::pos(double t)
-{
-  return interpolation(t, Value);
-}
-
-double CubicSpline::vel(double t)
-{
-  return interpolation(t, Speed);
-}
-
-double CubicSpline::acc(double t)
-{
-  return interpolation(t, Acceleration);
-}
-
-/**
- * Access to internal Points container
- */
-const CubicSpline::Points& CubicSpline::points() const
-{
-  return _points;
-}
-
-double CubicSpline::polynom_value(double t, const Polynom& p)
-{
-  return p.d + t * (t * (p.a * t + p.b) + p.c);
-}
-
-double CubicSpline::polynom_diff(double t, const Polynom& p)
-{
-  return t * (3 * p.a * t + 2 * p.b) + p.c;
-}
-
-double CubicSpline::polynom_diff2(double t, const Polynom& p)
-{
-  return 6 * p.a * t + 2 * p.b;
-}
-
-CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
-{
-  Eigen::Matrix4d M;
-  double t1_2 = t1 * t1;
-  double t1_3 = t1_2 * t1;
-  double t2_2 = t2 * t2;
-  double t2_3 = t2_2 * t2;
-
-  M << t1_3, t1_2, t1, 1,      //
-      3 * t1_2, 2 * t1, 1, 0,  //
-      t2_3, t2_2, t2, 1,       //
-      3 * t2_2, 2 * t2, 1, 0   //
-      ;
-
-  Eigen::Vector4d v;
-  v << x1, dx1, x2, dx2;
-
-  Eigen::Vector4d abcd = M.inverse() * v;
-
-  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
-
-  return polynom;
-}
-
-void CubicSpline::compute_splines()
-{
-  _splines.clear();
-  if (_points.size() < 2)
-  {
-    return;
-  }
-
-  for (size_t i = 1; i < _points.size(); i++)
-  {
-    double t_start = _points[i - 1].t;
-    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
-                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
-                             _points[i - 1].t, _points[i].t };
-
-    _splines.push_back(spline);
-  }
-}
-
-}  // namespace placo::tools
+#include "placo/tools/cubic_spline.h"
+#include "placo/tools/utils.h"
+#include <Eigen/Dense>
+#include <algorithm>
+#include <cmath>
+#include <iostream>
+#include <vector>
+
+namespace placo::tools
+{
+CubicSpline::CubicSpline(bool angular) : angular(angular)
+{
+}
+
+void CubicSpline::add_point(double t, double x, double dx)
+{
+  // Discontinuity of angle
+  if (angular && _points.size() > 0)
+  {
+    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
+  }
+  struct Point point = { t, x, dx };
+
+  if (_points.size() > 0 && t <= _points.back().t)
+  {
+    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
+  }
+
+  _points.push_back(point);
+  dirty = true;
+}
+
+void CubicSpline::clear()
+{
+  _points.clear();
+  _splines.clear();
+}
+
+double CubicSpline::duration() const
+{
+  // Splines are only computed when needed, relying on points
+  if (_points.size() < 2)
+  {
+    return 0.;
+  }
+
+  return _points.back().t - _points.front().t;
+}
+
+/**
+ * Return the spline interpolation
+ * for given x position
+ */
+double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
+{
+  if (dirty)
+  {
+    compute_splines();
+    dirty = false;
+  }
+
+  if (_points.size() == 0)
+  {
+    return 0.0;
+  }
+  else if (_points.size() == 1)
+  {
+    if (type == Value)
+    {
+      return _points.front().x;
+    }
+    else
+    {
+      return _points.front().dx;
+    }
+  }
+  else
+  {
+    if (t < _splines.front().t_start)
+    {
+      t = _splines.front().t_start;
+    }
+    if (t > _splines.back().t_end)
+    {
+      t = _splines.back().t_end;
+    }
+
+    for (size_t i = 0; i < _splines.size(); i++)
+    {
+      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
+      {
+        if (type == Value)
+        {
+          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Speed)
+        {
+          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Acceleration)
+        {
+          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
+        }
+      }
+    }
+    return 0.0;
+  }
+}
+
+double CubicSpline::pos(double t)
+{
+  return interpolation(t, Value);
+}
+
+double CubicSpline::vel(double t)
+{
+  return interpolation(t, Speed);
+}
+
+double CubicSpline::acc(double t)
+{
+  return interpolation(t, Acceleration);
+}
+
+/**
+ * Access to internal Points container
+ */
+const CubicSpline::Points& CubicSpline::points() const
+{
+  return _points;
+}
+
+double CubicSpline::polynom_value(double t, const Polynom& p)
+{
+  return p.d + t * (t * (p.a * t + p.b) + p.c);
+}
+
+double CubicSpline::polynom_diff(double t, const Polynom& p)
+{
+  return t * (3 * p.a * t + 2 * p.b) + p.c;
+}
+
+double CubicSpline::polynom_diff2(double t, const Polynom& p)
+{
+  return 6 * p.a * t + 2 * p.b;
+}
+
+CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
+{
+  Eigen::Matrix4d M;
+  double t1_2 = t1 * t1;
+  double t1_3 = t1_2 * t1;
+  double t2_2 = t2 * t2;
+  double t2_3 = t2_2 * t2;
+
+  M << t1_3, t1_2, t1, 1,      //
+      3 * t1_2, 2 * t1, 1, 0,  //
+      t2_3, t2_2, t2, 1,       //
+      3 * t2_2, 2 * t2, 1, 0   //
+      ;
+
+  Eigen::Vector4d v;
+  v << x1, dx1, x2, dx2;
+
+  Eigen::Vector4d abcd = M.inverse() * v;
+
+  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
+
+  return polynom;
+}
+
+void CubicSpline::compute_splines()
+{
+  _splines.clear();
+  if (_points.size() < 2)
+  {
+    return;
+  }
+
+  for (size_t i = 1; i < _points.size(); i++)
+  {
+    double t_start = _points[i - 1].t;
+    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
+                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
+                             _points[i - 1].t, _points[i].t };
+
+    _splines.push_back(spline);
+  }
+}
+
+}  // namespace placo::tools
-- 
2.43.0


From b083618ee429798d89d6333de9dd3f1707b68fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:35 +0000
Subject: [PATCH 80/94] fix: WalkTasks DCM error integral and last error are
 not initialized

---
 src/placo/humanoid/walk_tasks.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_tasks.h b/src/placo/humanoid/walk_tasks.h
index 8adfcdd..d10b30c 100644
--- a/src/placo/humanoid/walk_tasks.h
+++ b/src/placo/humanoid/walk_tasks.h
@@ -53,7 +53,7 @@ public:
   double K_d = 0.;
 
   double lambda = 0.01;
-  Eigen::Vector2d integral;
-  Eigen::Vector2d last_error;
+  Eigen::Vector2d integral = Eigen::Vector2d::Zero();
+  Eigen::Vector2d last_error = Eigen::Vector2d::Zero();
 };
 }  // namespace placo::humanoid
\ No newline at end of file
-- 
2.43.0


From 6a005ac4901a417ffc399ada27be719594ad65f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:35 +0000
Subject: [PATCH 81/94] fix: camera_look_at uses the distance from the pan
 instead of the tilt to the camera

---
 src/placo/humanoid/humanoid_robot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/humanoid/humanoid_robot.cpp b/src/placo/humanoid/humanoid_robot.cpp
index a33bd79..e6e2092 100644
--- a/src/placo/humanoid/humanoid_robot.cpp
+++ b/src/placo/humanoid/humanoid_robot.cpp
@@ -227,7 +227,7 @@ bool HumanoidRobot::camera_look_at(double& pan, double& tilt, const Eigen::Vecto
   double theta = M_PI / 2 - atan2(P_headPitchPlane_target.y(), P_headPitchPlane_target.x());
 
   // We just use beta = cos(opposed / hypothenus) to watch it with camera
-  double ratio = dist_z_pan_camera / P_headPitchPlane_target.norm();
+  double ratio = (dist_z_pan_camera - dist_z_pan_tilt) / P_headPitchPlane_target.norm();
   if (ratio > 1 || ratio < -1)
   {
     return false;
-- 
2.43.0


From fc7352968028d75cd4300720bb23a47fb8c63c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:35 +0000
Subject: [PATCH 82/94] fix: files beside a model loaded from a relative
 filename are searched at the root

---
 src/placo/model/robot_wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index cdef69a..795c35e 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -26,7 +26,7 @@ RobotWrapper::RobotWrapper(std::string model_directory, int flags, std::string u
 
   if (fs::is_regular_file(model_directory))
   {
-    fs::path path = model_directory;
+    fs::path path = fs::absolute(model_directory);
     urdf_filename = model_directory;
     model_directory = path.parent_path().string();
   }
-- 
2.43.0


From 91688419f9963289e966cda4b566dc017bbf37f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:35 +0000
Subject: [PATCH 83/94] fix: WPGTrajectory.parts can not be read from Python

---
 bindings/expose-walk-pattern-generator.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bindings/expose-walk-pattern-generator.cpp b/bindings/expose-walk-pattern-generator.cpp
index c161a9f..7f0505b 100644
--- a/bindings/expose-walk-pattern-generator.cpp
+++ b/bindings/expose-walk-pattern-generator.cpp
@@ -36,7 +36,15 @@ void exposeWalkPatternGenerator()
       .add_property("com_target_z", &WalkPatternGenerator::Trajectory::com_target_z)
       .add_property("trunk_pitch", &WalkPatternGenerator::Trajectory::trunk_pitch)
       .add_property("trunk_roll", &WalkPatternGenerator::Trajectory::trunk_roll)
-      .add_property("parts", &WalkPatternGenerator::Trajectory::parts)
+      .add_property(
+          "parts", +[](const WalkPatternGenerator::Trajectory& trajectory) {
+            boost::python::list parts;
+            for (auto& part : trajectory.parts)
+            {
+              parts.append(part);
+            }
+            return parts;
+          })
       .add_property("replan_success", &WalkPatternGenerator::Trajectory::replan_success)
       .def("get_T_world_left", &WalkPatternGenerator::Trajectory::get_T_world_left)
       .def("get_T_world_right", &WalkPatternGenerator::Trajectory::get_T_world_right)
-- 
2.43.0


From fd004951c10bf4291dee5b68e48b5c59c3915da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:15 +0000
Subject: [PATCH 84/94] fix: footsteps planners that are not configured plan
 from uninitialized values

---
 src/placo/humanoid/footsteps_planner_naive.h      | 4 ++--
 src/placo/humanoid/footsteps_planner_repetitive.h | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/placo/humanoid/footsteps_planner_naive.h b/src/placo/humanoid/footsteps_planner_naive.h
index 24ead20..1d35e28 100644
--- a/src/placo/humanoid/footsteps_planner_naive.h
+++ b/src/placo/humanoid/footsteps_planner_naive.h
@@ -29,8 +29,8 @@ protected:
   int max_steps = 100;
 
   // Targetted position for the robot
-  Eigen::Affine3d T_world_targetLeft;
-  Eigen::Affine3d T_world_targetRight;
+  Eigen::Affine3d T_world_targetLeft = Eigen::Affine3d::Identity();
+  Eigen::Affine3d T_world_targetRight = Eigen::Affine3d::Identity();
 
   // Dimension of the accessibility window for the opposite foot
   double accessibility_width = 0.025;
diff --git a/src/placo/humanoid/footsteps_planner_repetitive.h b/src/placo/humanoid/footsteps_planner_repetitive.h
index 77cf63d..9e3fb72 100644
--- a/src/placo/humanoid/footsteps_planner_repetitive.h
+++ b/src/placo/humanoid/footsteps_planner_repetitive.h
@@ -29,12 +29,12 @@ public:
 
 protected:
   // Step configuration
-  double d_x;
-  double d_y;
-  double d_theta;
+  double d_x = 0.;
+  double d_y = 0.;
+  double d_theta = 0.;
 
   // Number of steps to plan
-  int nb_steps;
+  int nb_steps = 0;
 
   /**
    * @brief Generate the footsteps
-- 
2.43.0


From c049db053f4da83b0f83431b49cb568a5e455d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:15 +0000
Subject: [PATCH 85/94] fix: AxisesMask::apply reads out of bounds of matrices
 that don't have 3 rows

---
 src/placo/tools/axises_mask.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/placo/tools/axises_mask.cpp b/src/placo/tools/axises_mask.cpp
index 96e8d5a..323260f 100644
--- a/src/placo/tools/axises_mask.cpp
+++ b/src/placo/tools/axises_mask.cpp
@@ -61,6 +61,11 @@ void AxisesMask::set_axises(std::string axises, std::string frame_)
 
 Eigen::MatrixXd AxisesMask::apply(Eigen::MatrixXd M)
 {
+  if (M.rows() != 3)
+  {
+    throw std::runtime_error("AxisesMask::apply: the matrix should have 3 rows (got " + std::to_string(M.rows()) + ")");
+  }
+
   Eigen::MatrixXd M_masked;
 
   if (frame == ReferenceFrame::CustomFrame)
-- 
2.43.0


From c81882dd13ef1a82f2129de9512f41ff781eaaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:15 +0000
Subject: [PATCH 86/94] fix: asking the zmp of contacts before solving reads
 out of bounds

---
 src/placo/dynamics/contacts.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/placo/dynamics/contacts.cpp b/src/placo/dynamics/contacts.cpp
index 26f9b8e..cedea23 100644
--- a/src/placo/dynamics/contacts.cpp
+++ b/src/placo/dynamics/contacts.cpp
@@ -151,6 +151,11 @@ void Contact6D::add_constraints(Problem& problem)
 
 Eigen::Vector3d Contact6D::zmp()
 {
+  if (wrench.rows() != 6)
+  {
+    throw std::logic_error("Contact6D::zmp: the wrench is not available (the solver should solve first)");
+  }
+
   return Eigen::Vector3d(-wrench(M_Y, 0) / wrench(F_Z, 0), wrench(M_X, 0) / wrench(F_Z, 0), 0);
 }
 
@@ -226,6 +231,11 @@ void LineContact::add_constraints(Problem& problem)
 
 Eigen::Vector3d LineContact::zmp()
 {
+  if (wrench.rows() != 5)
+  {
+    throw std::logic_error("LineContact::zmp: the wrench is not available (the solver should solve first)");
+  }
+
   Eigen::Vector3d f_surface = R_world_surface.transpose() * wrench.head(3);
   return Eigen::Vector3d(-wrench(LINE_M_Y, 0) / f_surface(F_Z), 0, 0);
 }
-- 
2.43.0


From f7dcb794d8aac53c95b3e92890f07c33939f15cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:02 +0000
Subject: [PATCH 87/94] fix: elements of vectors of Eigen matrices can not be
 accessed by index from Python

---
 bindings/expose-eigen.cpp | 4 ++--
 bindings/expose-tools.cpp | 2 +-
 bindings/expose-utils.hpp | 5 +++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/bindings/expose-eigen.cpp b/bindings/expose-eigen.cpp
index 5c6455a..bcd9b5b 100644
--- a/bindings/expose-eigen.cpp
+++ b/bindings/expose-eigen.cpp
@@ -28,8 +28,8 @@ struct Affine3d_to_np
 void exposeEigen()
 {
   // Vectors of points
-  exposeStdVector<Eigen::Vector2d>("vector_Vector2d");
-  exposeStdVector<Eigen::Vector3d>("vector_Vector3d");
+  exposeStdVector<Eigen::Vector2d, true>("vector_Vector2d");
+  exposeStdVector<Eigen::Vector3d, true>("vector_Vector3d");
 
   eigenpy::enableEigenPy();
 
diff --git a/bindings/expose-tools.cpp b/bindings/expose-tools.cpp
index 47d9295..918bd8a 100644
--- a/bindings/expose-tools.cpp
+++ b/bindings/expose-tools.cpp
@@ -44,7 +44,7 @@ void exposeTools()
   exposeStdVector<int>("vector_int");
   exposeStdVector<double>("vector_double");
   exposeStdVector<std::string>("vector_string");
-  exposeStdVector<Eigen::MatrixXd>("vector_MatrixXd");
+  exposeStdVector<Eigen::MatrixXd, true>("vector_MatrixXd");
 
   // exposeStdMap<std::string, double>("map_string_double");
 
diff --git a/bindings/expose-utils.hpp b/bindings/expose-utils.hpp
index 8765a6d..0dcf7ee 100644
--- a/bindings/expose-utils.hpp
+++ b/bindings/expose-utils.hpp
@@ -55,14 +55,15 @@ bool is_not_registered()
  * @brief Exposes a given type for std::vector
  * @tparam T type
  * @param name name of the type as exposed in Python
+ * @tparam NoProxy if the elements should be returned by value (needed for types that have no Python class, like Eigen ones)
  */
-template <typename T>
+template <typename T, bool NoProxy = false>
 void exposeStdVector(const std::string& class_name)
 {
   typedef typename std::vector<T> vector_T;
 
   if (is_not_registered<vector_T>()) {
-    class_<vector_T>(class_name.c_str()).def(vector_indexing_suite<vector_T>());
+    class_<vector_T>(class_name.c_str()).def(vector_indexing_suite<vector_T, NoProxy>());
 
     custom_vector_from_seq<T>();
   }
-- 
2.43.0


From a60fe61aa5bc275a8ead46d6f79e39a93cd3b264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:02 +0000
Subject: [PATCH 88/94] fix: get_torques reads out of bounds when the sizes of
 its arguments mismatch

---
 src/placo/humanoid/humanoid_robot.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/placo/humanoid/humanoid_robot.cpp b/src/placo/humanoid/humanoid_robot.cpp
index e6e2092..de3da15 100644
--- a/src/placo/humanoid/humanoid_robot.cpp
+++ b/src/placo/humanoid/humanoid_robot.cpp
@@ -169,6 +169,16 @@ Eigen::Vector3d HumanoidRobot::get_com_velocity(Side support, Eigen::Vector3d om
 Eigen::VectorXd HumanoidRobot::get_torques(Eigen::VectorXd acc_a, Eigen::VectorXd contact_forces,
                                            bool use_non_linear_effects)
 {
+  if (acc_a.rows() != model.nv - 6)
+  {
+    throw std::runtime_error("get_torques: acc_a should have one value per actuated DoF");
+  }
+
+  if (contact_forces.rows() != 8)
+  {
+    throw std::runtime_error("get_torques: contact_forces should have 8 values");
+  }
+
   // Contact Jacobians
   Eigen::MatrixXd J_c = Eigen::MatrixXd::Zero(model.nv, 8);
   for (int i = 0; i < 8; i++)
-- 
2.43.0


From 319587b4c99d991f9df97ebf3bb454445d10be73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:22 +0000
Subject: [PATCH 89/94] fix: truncate_supports reads out of bounds when
 supports miss footsteps

---
 bindings/expose-footsteps.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/expose-footsteps.cpp b/bindings/expose-footsteps.cpp
index aa83187..87107f1 100644
--- a/bindings/expose-footsteps.cpp
+++ b/bindings/expose-footsteps.cpp
@@ -83,17 +83,17 @@ void exposeFootsteps()
                 throw std::out_of_range("There is no next support to build the end support");
               }
 
-              FootstepsPlanner::Support end_support({ head.back().footsteps[0] });
+              FootstepsPlanner::Support end_support({ head.back().footsteps.at(0) });
               end_support.end = true;
               if (end_support.footsteps.size() == 1)
               {
-                if (HumanoidRobot::other_side(supports[index].footsteps[0].side) == end_support.footsteps[0].side)
+                if (HumanoidRobot::other_side(supports[index].footsteps.at(0).side) == end_support.footsteps[0].side)
                 {
                   end_support.footsteps.push_back(supports[index].footsteps[0]);
                 }
                 else
                 {
-                  end_support.footsteps.push_back(supports[index].footsteps[1]);
+                  end_support.footsteps.push_back(supports[index].footsteps.at(1));
                 }
               }
               head.push_back(end_support);
-- 
2.43.0


From f8f3e2ecdb0d37df95b1ab6f24140167ebb51e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:56 +0000
Subject: [PATCH 90/94] fix: times of walk trajectories and parts are not
 initialized

---
 src/placo/humanoid/walk_pattern_generator.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.h b/src/placo/humanoid/walk_pattern_generator.h
index 4a51b48..12f9b71 100644
--- a/src/placo/humanoid/walk_pattern_generator.h
+++ b/src/placo/humanoid/walk_pattern_generator.h
@@ -23,8 +23,8 @@ public:
   {
     TrajectoryPart(FootstepsPlanner::Support support, double t_start = 0.);
 
-    double t_start;
-    double t_end;
+    double t_start = 0.;
+    double t_end = 0.;
 
     FootstepsPlanner::Support support;
 
@@ -42,16 +42,16 @@ public:
     void print_parts_timings();
 
     // Trajectory duration
-    double t_start;
-    double t_end;
+    double t_start = 0.;
+    double t_end = 0.;
 
     // A part of the trajectory contain a support and the associated trajectories (CoM, swing foot)
     std::vector<TrajectoryPart> parts;
 
     // Constants of the trajectory
-    double com_target_z;
-    double trunk_pitch;
-    double trunk_roll;
+    double com_target_z = 0.;
+    double trunk_pitch = 0.;
+    double trunk_roll = 0.;
 
     // Replan succeeded?
     bool replan_success = true;
-- 
2.43.0


From f5acf05e0565b04c60fc1363e48ea9950d38c01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:56 +0000
Subject: [PATCH 91/94] fix: the error of a distance task is not initialized
 until it is updated

---
 src/placo/kinematics/distance_task.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/kinematics/distance_task.cpp b/src/placo/kinematics/distance_task.cpp
index 5f35054..359a653 100644
--- a/src/placo/kinematics/distance_task.cpp
+++ b/src/placo/kinematics/distance_task.cpp
@@ -7,7 +7,7 @@ DistanceTask::DistanceTask(model::RobotWrapper::FrameIndex frame_a, model::Robot
                            double distance)
   : frame_a(frame_a), frame_b(frame_b), distance(distance)
 {
-  b = Eigen::MatrixXd(1, 1);
+  b = Eigen::MatrixXd::Zero(1, 1);
 }
 
 void DistanceTask::update()
-- 
2.43.0


From bddb15bd18db3a98b7253dd9aad0e9ea4efa00bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:30 +0000
Subject: [PATCH 92/94] fix: a joints task that can not be updated holds
 uninitialized errors

---
 src/placo/dynamics/joints_task.cpp   | 3 +++
 src/placo/kinematics/joints_task.cpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/placo/dynamics/joints_task.cpp b/src/placo/dynamics/joints_task.cpp
index 52c262b..4adbfe2 100644
--- a/src/placo/dynamics/joints_task.cpp
+++ b/src/placo/dynamics/joints_task.cpp
@@ -31,6 +31,9 @@ void JointsTask::update()
   error = Eigen::MatrixXd(joints.size(), 1);
   derror = Eigen::MatrixXd(joints.size(), 1);
   A.setZero();
+  b.setZero();
+  error.setZero();
+  derror.setZero();
 
   int k = 0;
   for (auto& entry : joints)
diff --git a/src/placo/kinematics/joints_task.cpp b/src/placo/kinematics/joints_task.cpp
index 903d2af..f888494 100644
--- a/src/placo/kinematics/joints_task.cpp
+++ b/src/placo/kinematics/joints_task.cpp
@@ -27,6 +27,7 @@ void JointsTask::update()
   A = Eigen::MatrixXd(joints.size(), solver->N);
   b = Eigen::MatrixXd(joints.size(), 1);
   A.setZero();
+  b.setZero();
 
   int k = 0;
   for (auto& entry : joints)
-- 
2.43.0


From 31ba545ef0cbdbb49c9915550585d4161fd42bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:40 +0000
Subject: [PATCH 93/94] fix: solvers created by make_solver use a dangling
 robot when Python releases it first

---
 bindings/expose-robot-wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/expose-robot-wrapper.cpp b/bindings/expose-robot-wrapper.cpp
index 9fc8266..539b60a 100644
--- a/bindings/expose-robot-wrapper.cpp
+++ b/bindings/expose-robot-wrapper.cpp
@@ -137,7 +137,8 @@ void exposeRobotType(class_<RobotType, W1>& type)
           "joint_jacobian", +[](RobotType& robot, const std::string& joint,
                                 const std::string& reference) { return robot.joint_jacobian(joint, reference); })
       .def(
-          "make_solver", +[](RobotType& robot) { return placo::kinematics::KinematicsSolver(robot); })
+          "make_solver", +[](RobotType& robot) { return placo::kinematics::KinematicsSolver(robot); },
+          with_custodian_and_ward_postcall<0, 1>())
       .def("add_q_noise", &RobotType::add_q_noise);
 }
 
-- 
2.43.0


From be95ae75d0a62e9c053980b62f565098f2d52820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:57 +0000
Subject: [PATCH 94/94] fix: a contact with a task of another solver reads out
 of bounds

---
 src/placo/dynamics/dynamics_solver.cpp | 15 +++++++++++++++
 src/placo/dynamics/dynamics_solver.h   |  6 ++++++
 2 files changed, 21 insertions(+)

diff --git a/src/placo/dynamics/dynamics_solver.cpp b/src/placo/dynamics/dynamics_solver.cpp
index d88b142..36eb681 100644
--- a/src/placo/dynamics/dynamics_solver.cpp
+++ b/src/placo/dynamics/dynamics_solver.cpp
@@ -7,31 +7,37 @@ using namespace placo::problem;
 
 PointContact& DynamicsSolver::add_point_contact(PositionTask& position_task)
 {
+  check_contact_task(&position_task);
   return add_contact(new PointContact(position_task, false));
 }
 
 PointContact& DynamicsSolver::add_unilateral_point_contact(PositionTask& position_task)
 {
+  check_contact_task(&position_task);
   return add_contact(new PointContact(position_task, true));
 }
 
 Contact6D& DynamicsSolver::add_planar_contact(FrameTask& frame_task)
 {
+  check_contact_task(frame_task.position);
   return add_contact(new Contact6D(frame_task, true));
 }
 
 Contact6D& DynamicsSolver::add_fixed_contact(FrameTask& frame_task)
 {
+  check_contact_task(frame_task.position);
   return add_contact(new Contact6D(frame_task, false));
 }
 
 LineContact& DynamicsSolver::add_line_contact(FrameTask& frame_task)
 {
+  check_contact_task(frame_task.position);
   return add_contact(new LineContact(frame_task, false));
 }
 
 LineContact& DynamicsSolver::add_unilateral_line_contact(FrameTask& frame_task)
 {
+  check_contact_task(frame_task.position);
   return add_contact(new LineContact(frame_task, true));
 }
 
@@ -65,6 +71,7 @@ PuppetContact& DynamicsSolver::add_puppet_contact()
 
 TaskContact& DynamicsSolver::add_task_contact(Task& task)
 {
+  check_contact_task(&task);
   return add_contact(new TaskContact(task));
 }
 
@@ -629,6 +636,14 @@ void DynamicsSolver::set_torque_limit(std::string joint, double limit)
   overriden_torque_limits[v] = limit;
 }
 
+void DynamicsSolver::check_contact_task(Task* task)
+{
+  if (task != nullptr && task->solver_memory && task->solver != this)
+  {
+    throw std::runtime_error("DynamicsSolver: can't add a contact with a task that is owned by another solver");
+  }
+}
+
 void DynamicsSolver::add_task(Task& task)
 {
   if (task.solver_memory && task.solver != this)
diff --git a/src/placo/dynamics/dynamics_solver.h b/src/placo/dynamics/dynamics_solver.h
index d803bc6..28855e1 100644
--- a/src/placo/dynamics/dynamics_solver.h
+++ b/src/placo/dynamics/dynamics_solver.h
@@ -311,6 +311,12 @@ public:
    */
   void compute_limits_inequalities(problem::Expression& tau);
 
+  /**
+   * @brief Raises if a task can't be used for a contact of this solver, because another solver owns it
+   * @param task the task
+   */
+  void check_contact_task(Task* task);
+
   /**
    * @brief Clears the internal tasks
    */
-- 
2.43.0

