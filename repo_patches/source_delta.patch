From afa6f9e85bb7a102fcd1cfdb9f232a3c97cc7bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:12 +0000
Subject: [PATCH 01/33] fix: negating a composite expression keeps its meaning

-(f+g) and the other composite expressions became a NEGATIVE node with several
operands, which aborts on evaluation, and -(-f) evaluated to -f.
---
 src/Functions/FunctionMul.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/Functions/FunctionMul.cpp b/src/Functions/FunctionMul.cpp
index 9383f1a..3caa762 100644
--- a/src/Functions/FunctionMul.cpp
+++ b/src/Functions/FunctionMul.cpp
@@ -141,16 +141,30 @@ FunctionExpression::operator*(FunctionExpression &&_that) && {
 }
 FunctionExpression FunctionExpression::operator-() const & {
 
+  if (get_type() == UNIQUE) {
+    return FunctionExpression(get_domain(), get_codom_dim(),
+                              FunctionExpression::Type::NEGATIVE,
+                              function_array_);
+  }
+  std::list<std::unique_ptr<FunctionBase>> result_array;
+  result_array.push_back(this->clone());
   return FunctionExpression(get_domain(), get_codom_dim(),
                             FunctionExpression::Type::NEGATIVE,
-                            function_array_);
+                            std::move(result_array));
 }
 
 FunctionExpression FunctionExpression::operator-() && {
 
+  if (get_type() == UNIQUE) {
+    return FunctionExpression(get_domain(), get_codom_dim(),
+                              FunctionExpression::Type::NEGATIVE,
+                              std::move(function_array_));
+  }
+  std::list<std::unique_ptr<FunctionBase>> result_array;
+  result_array.push_back(this->move_clone());
   return FunctionExpression(get_domain(), get_codom_dim(),
                             FunctionExpression::Type::NEGATIVE,
-                            std::move(function_array_));
+                            std::move(result_array));
 }
 
 FunctionExpression operator*(double _value, const FunctionExpression &_that) {
-- 
2.43.0


From 3a82e5b96f7efeb3c010efa65a3302d7db6aee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:12 +0000
Subject: [PATCH 02/33] fix: extending a temporary concatenation or composition
 updates its domain

---
 src/Functions/FunctionsComp.cpp   | 1 +
 src/Functions/FunctionsConcat.cpp | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Functions/FunctionsComp.cpp b/src/Functions/FunctionsComp.cpp
index 8666a04..bd0f7b6 100644
--- a/src/Functions/FunctionsComp.cpp
+++ b/src/Functions/FunctionsComp.cpp
@@ -96,6 +96,7 @@ FunctionExpression::compose(const FunctionExpression &_that) && {
     } else {
       function_array_.push_front(_that.clone());
     }
+    set_domain(_that.get_domain().first, _that.get_domain().second);
     return std::move(*this);
   }
 
diff --git a/src/Functions/FunctionsConcat.cpp b/src/Functions/FunctionsConcat.cpp
index 094ca37..3048e14 100644
--- a/src/Functions/FunctionsConcat.cpp
+++ b/src/Functions/FunctionsConcat.cpp
@@ -97,8 +97,10 @@ FunctionExpression::concat(const FunctionExpression &_that) && {
     target_array.push_back(_that.clone());
   }
 
-  if (get_type() == CONCATENATION)
+  if (get_type() == CONCATENATION) {
+    set_domain(get_domain().first, _that.get_domain().second);
     return std::move(*this);
+  }
 
   target_array.push_front(this->move_clone());
 
@@ -124,8 +126,10 @@ FunctionExpression FunctionExpression::concat(FunctionExpression &&_that) && {
     target_array.push_back(_that.move_clone());
   }
 
-  if (get_type() == CONCATENATION)
+  if (get_type() == CONCATENATION) {
+    set_domain(get_domain().first, _that.get_domain().second);
     return std::move(*this);
+  }
 
   target_array.push_front(this->move_clone());
   return FunctionExpression(
-- 
2.43.0


From 73a78e1344402a073030f240d17c0f05b0b81536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:12 +0000
Subject: [PATCH 03/33] fix: += and *= refuse incompatible operands and leave
 the target intact on failure

They accepted operands with other domains or codomains (aborting on the next
evaluation) and left a half-updated expression when an allocation failed.
Also drops a leftover debugging printf from operator*.
---
 src/Functions/FunctionMul.cpp | 48 +++++++++++++++++------------------
 src/Functions/FunctionSum.cpp | 36 ++++++++++----------------
 2 files changed, 38 insertions(+), 46 deletions(-)

diff --git a/src/Functions/FunctionMul.cpp b/src/Functions/FunctionMul.cpp
index 3caa762..fb103cf 100644
--- a/src/Functions/FunctionMul.cpp
+++ b/src/Functions/FunctionMul.cpp
@@ -49,8 +49,6 @@ return_second_or_mim_codom_dim(const FunctionExpression &_f1,
 FunctionExpression
 FunctionExpression::operator*(const FunctionExpression &_that) const & {
 
-  printf("FunctionExpression::operator*(const FunctionExpression &_that) const "
-         "&\n");
   compatibility_mul(*this, _that);
 
   const FunctionExpression &f_vector =
@@ -176,35 +174,37 @@ FunctionExpression operator*(double _value, FunctionExpression &&_that) {
   return ConstFunction(_that.get_domain(), 1, _value) * std::move(_that);
 }
 
+void inplace_mul_throw(const FunctionExpression &_target,
+                       const FunctionExpression &_factor) {
+
+  compatibility_mul(_target, _factor);
+  if (_factor.get_codom_dim() > _target.get_codom_dim()) {
+    throw std::invalid_argument(
+        "A scalar function cannot be multiplied in place by a vector function");
+  }
+}
+
 void FunctionExpression::operator*=(FunctionExpression &&that) {
-  Type initial_type = get_type();
-  if (initial_type == UNIQUE) {
-    type_ = MULTIPLICATION;
-    initialize();
-  } else if (initial_type != MULTIPLICATION) {
-    FunctionExpression aux = FunctionExpression(std::move(*this));
+
+  inplace_mul_throw(*this, that);
+
+  // everything that can fail happens before this expression is touched
+  std::list<std::unique_ptr<FunctionBase>> operands;
+  operands.push_back(that.move_clone());
+  if (get_type() != UNIQUE and get_type() != MULTIPLICATION) {
+    operands.emplace_front();
+    operands.front() = this->move_clone();
     function_array_.clear();
-    type_ = MULTIPLICATION;
-    initialize();
-    function_array_.push_back(aux.move_clone());
   }
-  function_array_.push_back(that.move_clone());
+  function_array_.splice(function_array_.end(), operands);
+  type_ = MULTIPLICATION;
+  initialize();
 }
 
 void FunctionExpression::operator*=(const FunctionExpression &that) {
 
-  Type initial_type = get_type();
-  if (initial_type == UNIQUE) {
-    type_ = MULTIPLICATION;
-    initialize();
-  } else if (initial_type != MULTIPLICATION) {
-    FunctionExpression aux = FunctionExpression(std::move(*this));
-    function_array_.clear();
-    type_ = MULTIPLICATION;
-    initialize();
-    function_array_.push_back(aux.move_clone());
-  }
-  function_array_.push_back(that.clone());
+  inplace_mul_throw(*this, that);
+  *this *= FunctionExpression(that);
 }
 /* -----
  *  FunctionExpression Evaluation
diff --git a/src/Functions/FunctionSum.cpp b/src/Functions/FunctionSum.cpp
index fea1634..a09bda5 100644
--- a/src/Functions/FunctionSum.cpp
+++ b/src/Functions/FunctionSum.cpp
@@ -137,34 +137,26 @@ FunctionExpression *deriv_sum_functions(
 }
 
 void FunctionExpression::operator+=(FunctionExpression &&that) {
-  Type initial_type = get_type();
-  if (initial_type == UNIQUE) {
-    type_ = SUM;
-    initialize();
-  } else if (initial_type != SUM) {
-    FunctionExpression aux = FunctionExpression(std::move(*this));
+
+  sum_throw(*this, that);
+
+  // everything that can fail happens before this expression is touched
+  std::list<std::unique_ptr<FunctionBase>> operands;
+  operands.push_back(that.move_clone());
+  if (get_type() != UNIQUE and get_type() != SUM) {
+    operands.emplace_front();
+    operands.front() = this->move_clone();
     function_array_.clear();
-    type_ = SUM;
-    initialize();
-    function_array_.push_back(aux.move_clone());
   }
-  function_array_.push_back(that.move_clone());
+  function_array_.splice(function_array_.end(), operands);
+  type_ = SUM;
+  initialize();
 }
 
 void FunctionExpression::operator+=(const FunctionExpression &that) {
 
-  Type initial_type = get_type();
-  if (initial_type == UNIQUE) {
-    type_ = SUM;
-    initialize();
-  } else if (initial_type != SUM) {
-    FunctionExpression aux = FunctionExpression(std::move(*this));
-    function_array_.clear();
-    type_ = SUM;
-    initialize();
-    function_array_.push_back(aux.move_clone());
-  }
-  function_array_.push_back(that.clone());
+  sum_throw(*this, that);
+  *this += FunctionExpression(that);
 }
 } // namespace functions
 } // namespace gsplines
-- 
2.43.0


From f0806020330e8650c3c89c6a175b0b3c8e6f3a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:12 +0000
Subject: [PATCH 04/33] fix: a derivative that fails part-way releases the
 lower-order ones

---
 src/Functions/ElementalFunctions.cpp | 11 ++++-------
 src/Functions/FunctionMul.cpp        | 11 ++++-------
 src/Functions/FunctionsComp.cpp      | 11 ++++-------
 3 files changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/Functions/ElementalFunctions.cpp b/src/Functions/ElementalFunctions.cpp
index e69afe5..ee90b4b 100644
--- a/src/Functions/ElementalFunctions.cpp
+++ b/src/Functions/ElementalFunctions.cpp
@@ -242,17 +242,14 @@ FunctionExpression *DotProduct::deriv_impl(std::size_t _deg) const {
     return new FunctionExpression(*this);
   }
 
-  FunctionExpression *result = first_deriv_impl(_deg);
-  FunctionExpression *buffer_pointer = result;
+  std::unique_ptr<FunctionExpression> result(
+      first_deriv_impl(_deg));
 
   for (std::size_t k = 1; k < _deg; k++) {
-    result = result->deriv()->move_clone().release();
-    delete buffer_pointer;
-    buffer_pointer = result;
+    result = result->deriv();
   }
-  buffer_pointer = nullptr;
 
-  return result;
+  return result.release();
 }
 } // namespace functions
 } // namespace gsplines
diff --git a/src/Functions/FunctionMul.cpp b/src/Functions/FunctionMul.cpp
index fb103cf..62f0f82 100644
--- a/src/Functions/FunctionMul.cpp
+++ b/src/Functions/FunctionMul.cpp
@@ -291,17 +291,14 @@ FunctionExpression *deriv_mul_functions(
                                   _function_array);
   }
 
-  FunctionExpression *result = first_deriv_mul_functions(_function_array);
-  FunctionExpression *buffer_pointer = result;
+  std::unique_ptr<FunctionExpression> result(
+      first_deriv_mul_functions(_function_array));
 
   for (std::size_t k = 1; k < _deg; k++) {
-    result = result->deriv()->move_clone().release();
-    delete buffer_pointer;
-    buffer_pointer = result;
+    result = result->deriv();
   }
-  buffer_pointer = nullptr;
 
-  return result;
+  return result.release();
 }
 } // namespace functions
 } // namespace gsplines
diff --git a/src/Functions/FunctionsComp.cpp b/src/Functions/FunctionsComp.cpp
index bd0f7b6..25c2d88 100644
--- a/src/Functions/FunctionsComp.cpp
+++ b/src/Functions/FunctionsComp.cpp
@@ -270,17 +270,14 @@ FunctionExpression *deriv_compose_functions(
                                   _function_array);
   }
 
-  FunctionExpression *result = first_deriv_compose_functions(_function_array);
-  FunctionExpression *buffer_pointer = result;
+  std::unique_ptr<FunctionExpression> result(
+      first_deriv_compose_functions(_function_array));
 
   for (std::size_t k = 1; k < _deg; k++) {
-    result = result->deriv()->move_clone().release();
-    delete buffer_pointer;
-    buffer_pointer = result;
+    result = result->deriv();
   }
-  buffer_pointer = nullptr;
 
-  return result;
+  return result.release();
 }
 } // namespace functions
 } // namespace gsplines
-- 
2.43.0


From 5b4e9ce91c1cbe1b60a45423ae2e3a33c7acfd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:12 +0000
Subject: [PATCH 05/33] fix: a dot product of incompatible functions is refused
 with an exception

---
 src/Functions/ElementalFunctions.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/Functions/ElementalFunctions.cpp b/src/Functions/ElementalFunctions.cpp
index ee90b4b..7bfcad0 100644
--- a/src/Functions/ElementalFunctions.cpp
+++ b/src/Functions/ElementalFunctions.cpp
@@ -194,24 +194,33 @@ CanonicPolynomial *CanonicPolynomial::deriv_impl(std::size_t _deg) const {
   return new CanonicPolynomial(get_domain(), std::move(result.head(vsize)));
 } // namespace functions
 
+static void dot_throw(const FunctionBase &_f1, const FunctionBase &_f2) {
+  if (not FunctionBase::same_domain(_f1, _f2)) {
+    throw std::invalid_argument("Functions with different domains");
+  }
+  if (not FunctionBase::same_codomain(_f1, _f2)) {
+    throw std::invalid_argument("Functions with different codomains");
+  }
+}
+
 DotProduct::DotProduct(const FunctionBase &_f1, const FunctionBase &_f2)
     : FunctionInheritanceHelper(_f1.get_domain(), 1, "DotProduct"),
       f1_(_f1.to_expression()), f2_(_f2.to_expression()) {
 
-  assert(_f1.get_codom_dim() == _f2.get_codom_dim());
+  dot_throw(_f1, _f2);
 }
 DotProduct::DotProduct(FunctionBase &&_f1, FunctionBase &&_f2)
     : FunctionInheritanceHelper(_f1.get_domain(), 1, "DotProduct"),
       f1_(_f1.to_expression()), f2_(_f2.to_expression()) {
 
-  assert(_f1.get_codom_dim() == _f2.get_codom_dim());
+  dot_throw(_f1, _f2);
 }
 
 DotProduct::DotProduct(const FunctionBase &_f1, FunctionBase &&_f2)
     : FunctionInheritanceHelper(_f1.get_domain(), 1, "DotProduct"),
       f1_(_f1.to_expression()), f2_(_f2.to_expression()) {
 
-  assert(_f1.get_codom_dim() == _f2.get_codom_dim());
+  dot_throw(_f1, _f2);
 }
 
 DotProduct::DotProduct(const DotProduct &_that)
-- 
2.43.0


From 80657f7b0ab0084c635d74cea9f57803d748d6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:11 +0000
Subject: [PATCH 06/33] fix: Basis0101 derivative matrices of order three and
 above

---
 src/Basis/Basis0101.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Basis/Basis0101.cpp b/src/Basis/Basis0101.cpp
index fe4bd16..4d84990 100644
--- a/src/Basis/Basis0101.cpp
+++ b/src/Basis/Basis0101.cpp
@@ -169,8 +169,10 @@ Eigen::MatrixXd Basis0101::derivative_matrix_impl(std::size_t _deg) const {
 
   Q *= tauk;
 
+  const Eigen::MatrixXd Q1(Q);
+
   for (std::size_t i = 2; i <= _deg; i++) {
-    Q *= Q;
+    Q *= Q1;
   }
 
   return Q;
-- 
2.43.0


From 3389051c3e6e8eb06abdb8e96a1a143d7229fdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:11 +0000
Subject: [PATCH 07/33] fix: Basis0101 Gram matrix of second derivatives

---
 src/Basis/Basis0101.cpp | 123 ++--------------------------------------
 1 file changed, 5 insertions(+), 118 deletions(-)

diff --git a/src/Basis/Basis0101.cpp b/src/Basis/Basis0101.cpp
index 4d84990..1725e5e 100644
--- a/src/Basis/Basis0101.cpp
+++ b/src/Basis/Basis0101.cpp
@@ -9,8 +9,6 @@ void compute_Q_block(double _tau, double _alpha,
 
 void compute_Qd1_block(double _tau, double _alpha,
                        Eigen::Ref<Eigen::MatrixXd> _res);
-void compute_Qd2_block(double _tau, double _alpha,
-                       Eigen::Ref<Eigen::MatrixXd> _res);
 void compute_Qd3_block(double _tau, double _alpha,
                        Eigen::Ref<Eigen::MatrixXd> _res);
 
@@ -131,9 +129,12 @@ void Basis0101::add_derivative_matrix(double tau, std::size_t _deg,
     case 1:
       compute_Qd1_block(tau, alpha, qBuffer_);
       break;
-    case 2:
-      compute_Qd2_block(tau, alpha, qBuffer_);
+    case 2: {
+      const Eigen::MatrixXd d2 = derivative_matrix_impl(2);
+      compute_Q_block(tau, alpha, qBuffer_);
+      qBuffer_ = (d2.transpose() * qBuffer_ * d2).eval();
       break;
+    }
     case 3:
       compute_Qd3_block(tau, alpha, qBuffer_);
       break;
@@ -636,120 +637,6 @@ void compute_Qd1_dtau_block(double _tau, double _alpha,
   _res(5, 5) = 0;
 }
 
-void compute_Qd2_block(double _tau, double _alpha,
-                       Eigen::Ref<Eigen::MatrixXd> _res) {
-  double k =
-      0.35355339059327379 * pow(_alpha, 0.25) * pow(1.0 / (1.0 - _alpha), 0.25);
-  _res(0, 0) =
-      3.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) *
-          pow(sin(_tau * k), 2) -
-      2.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
-          cos(_tau * k) +
-      pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(cos(_tau * k), 2) -
-      (3.0 * pow(_tau, 2) * pow(k, 3) * pow(sin(_tau * k), 2) +
-       2.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
-       pow(_tau, 2) * pow(k, 3) * pow(cos(_tau * k), 2)) *
-          exp(-2 * _tau * k);
-  _res(0, 1) =
-      -pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(sin(_tau * k), 2) -
-      2.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
-          cos(_tau * k) +
-      pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(cos(_tau * k), 2) -
-      (-pow(_tau, 2) * pow(k, 3) * pow(sin(_tau * k), 2) +
-       2.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
-       pow(_tau, 2) * pow(k, 3) * pow(cos(_tau * k), 2)) *
-          exp(-2 * _tau * k);
-  _res(0, 2) = -8.0 * pow(_tau, 3) * pow(k, 4) +
-               8.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k);
-  _res(0, 3) = 0;
-  _res(0, 4) = 0;
-  _res(0, 5) = 0;
-  _res(1, 0) =
-      -pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(sin(_tau * k), 2) -
-      2.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
-          cos(_tau * k) +
-      pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(cos(_tau * k), 2) -
-      (-pow(_tau, 2) * pow(k, 3) * pow(sin(_tau * k), 2) +
-       2.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
-       pow(_tau, 2) * pow(k, 3) * pow(cos(_tau * k), 2)) *
-          exp(-2 * _tau * k);
-  _res(1, 1) =
-      pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(sin(_tau * k), 2) +
-      2.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
-          cos(_tau * k) +
-      3.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) *
-          pow(cos(_tau * k), 2) -
-      (pow(_tau, 2) * pow(k, 3) * pow(sin(_tau * k), 2) -
-       2.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
-       3.0 * pow(_tau, 2) * pow(k, 3) * pow(cos(_tau * k), 2)) *
-          exp(-2 * _tau * k);
-  _res(1, 2) = 0;
-  _res(1, 3) = -8.0 * pow(_tau, 3) * pow(k, 4) -
-               8.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k);
-  _res(1, 4) = 0;
-  _res(1, 5) = 0;
-  _res(2, 0) = -8.0 * pow(_tau, 3) * pow(k, 4) +
-               8.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k);
-  _res(2, 1) = 0;
-  _res(2, 2) =
-      3.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) *
-          pow(sin(_tau * k), 2) -
-      2.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
-          cos(_tau * k) +
-      pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(cos(_tau * k), 2) -
-      (3.0 * pow(_tau, 2) * pow(k, 3) * pow(sin(_tau * k), 2) +
-       2.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
-       pow(_tau, 2) * pow(k, 3) * pow(cos(_tau * k), 2)) *
-          exp(-2 * _tau * k);
-  _res(2, 3) =
-      pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(sin(_tau * k), 2) +
-      2.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
-          cos(_tau * k) -
-      pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(cos(_tau * k), 2) +
-      (-pow(_tau, 2) * pow(k, 3) * pow(sin(_tau * k), 2) +
-       2.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
-       pow(_tau, 2) * pow(k, 3) * pow(cos(_tau * k), 2)) *
-          exp(-2 * _tau * k);
-  _res(2, 4) = 0;
-  _res(2, 5) = 0;
-  _res(3, 0) = 0;
-  _res(3, 1) = -8.0 * pow(_tau, 3) * pow(k, 4) -
-               8.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k);
-  _res(3, 2) =
-      pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(sin(_tau * k), 2) +
-      2.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
-          cos(_tau * k) -
-      pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(cos(_tau * k), 2) +
-      (-pow(_tau, 2) * pow(k, 3) * pow(sin(_tau * k), 2) +
-       2.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
-       pow(_tau, 2) * pow(k, 3) * pow(cos(_tau * k), 2)) *
-          exp(-2 * _tau * k);
-  _res(3, 3) =
-      pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(sin(_tau * k), 2) +
-      2.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
-          cos(_tau * k) +
-      3.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) *
-          pow(cos(_tau * k), 2) -
-      (pow(_tau, 2) * pow(k, 3) * pow(sin(_tau * k), 2) -
-       2.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
-       3.0 * pow(_tau, 2) * pow(k, 3) * pow(cos(_tau * k), 2)) *
-          exp(-2 * _tau * k);
-  _res(3, 4) = 0;
-  _res(3, 5) = 0;
-  _res(4, 0) = 0;
-  _res(4, 1) = 0;
-  _res(4, 2) = 0;
-  _res(4, 3) = 0;
-  _res(4, 4) = 0;
-  _res(4, 5) = 0;
-  _res(5, 0) = 0;
-  _res(5, 1) = 0;
-  _res(5, 2) = 0;
-  _res(5, 3) = 0;
-  _res(5, 4) = 0;
-  _res(5, 5) = 0;
-}
-
 void compute_Q_block(double _tau, double _alpha,
                      Eigen::Ref<Eigen::MatrixXd> _res) {
   double k =
-- 
2.43.0


From c590c27ad962b609a17b779d26a42b6292fa768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:12 +0000
Subject: [PATCH 08/33] fix: Gram matrices of the Legendre and Lagrange bases

The matrices behind the Sobolev cost were D L D^T instead of D^T L D, and the
Lagrange ones also had uninitialised off-diagonal entries and ignored the
interpolation points. change_interpolation_points kept a match found in one row
for all the following rows.
---
 src/Basis/BasisLagrange.cpp | 20 +++++++++++---------
 src/Basis/BasisLegendre.cpp |  4 ++--
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/Basis/BasisLagrange.cpp b/src/Basis/BasisLagrange.cpp
index 7c5e3d3..5c46240 100644
--- a/src/Basis/BasisLagrange.cpp
+++ b/src/Basis/BasisLagrange.cpp
@@ -40,19 +40,22 @@ BasisLagrange::BasisLagrange(Eigen::Ref<const Eigen::VectorXd> _domain_points)
 
   Eigen::MatrixXd dmat(derivative_matrix_);
 
+  // one point more than the dimension: the product of two elements of the basis
+  // has degree 2 dim - 2, which is integrated exactly
   Eigen::MatrixXd points_to_glp_matrix(change_interpolation_points(
-      _domain_points, collocation::legendre_gauss_lobatto_points(get_dim())));
+      _domain_points,
+      collocation::legendre_gauss_lobatto_points(get_dim() + 1)));
 
-  Eigen::MatrixXd l2normbase_matrix(get_dim(), get_dim());
-
-  l2normbase_matrix.diagonal() =
-      collocation::legendre_gauss_lobatto_weights(get_dim());
+  Eigen::MatrixXd l2normbase_matrix(
+      points_to_glp_matrix.transpose() *
+      collocation::legendre_gauss_lobatto_weights(get_dim() + 1).asDiagonal() *
+      points_to_glp_matrix);
 
   derivative_matrices_buffer_.push_back(l2normbase_matrix);
 
   for (std::size_t i = 1; i < get_dim() + 1; i++) {
-    derivative_matrices_buffer_.push_back(dmat * l2normbase_matrix *
-                                          dmat.transpose());
+    derivative_matrices_buffer_.push_back(dmat.transpose() * l2normbase_matrix *
+                                          dmat);
     dmat = derivative_matrix(domain_points_, i + 1);
   }
   // get_derivative_matrix(get_dim());
@@ -260,12 +263,11 @@ Eigen::MatrixXd BasisLagrange::change_interpolation_points(
   std::size_t book_m = _new_points.size();
   std::size_t book_n = _old_points.size();
   double t_book, s_book;
-  bool book_row_has_match = false;
-
   Eigen::MatrixXd result(book_m, book_n);
   Eigen::VectorXd bw = barycentric_weights(_old_points);
 
   for (std::size_t k = 0; k < book_m; k++) {
+    bool book_row_has_match = false;
     for (std::size_t j = 0; j < book_n; j++) {
       result(k, j) = 0.0;
       if (almost_equal(_new_points(k), _old_points(j), 1.0e-9)) {
diff --git a/src/Basis/BasisLegendre.cpp b/src/Basis/BasisLegendre.cpp
index 9c3b328..8ec9616 100644
--- a/src/Basis/BasisLegendre.cpp
+++ b/src/Basis/BasisLegendre.cpp
@@ -28,8 +28,8 @@ BasisLegendre::BasisLegendre(std::size_t _dim)
 
   derivative_matrices_buffer_.push_back(l2normbase_matrix);
   for (std::size_t i = 1; i < _dim + 1; i++) {
-    derivative_matrices_buffer_.push_back(dmat * l2normbase_matrix *
-                                          dmat.transpose());
+    derivative_matrices_buffer_.push_back(dmat.transpose() * l2normbase_matrix *
+                                          dmat);
     dmat *= derivative_matrix_;
   }
   // get_derivative_matrix(get_dim());
-- 
2.43.0


From 1fe7727dc84822b86e5f4b94bbc20e82b1dfd7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:01 +0000
Subject: [PATCH 09/33] fix: continuity and derivative matrices of a basis
 depend only on the request

---
 include/gsplines/Basis/Basis.hpp |  17 +--
 src/Basis/Basis.cpp              | 195 ++++++++++++-------------------
 2 files changed, 77 insertions(+), 135 deletions(-)

diff --git a/include/gsplines/Basis/Basis.hpp b/include/gsplines/Basis/Basis.hpp
index 83483a3..5afa6f5 100644
--- a/include/gsplines/Basis/Basis.hpp
+++ b/include/gsplines/Basis/Basis.hpp
@@ -26,13 +26,9 @@ private:
 
   mutable std::vector<Eigen::MatrixXd> derivative_matrix_array_;
 
-  mutable std::map<
-      std::size_t,
-      std::map<
-          std::size_t,
-          std::map<std::size_t, Eigen::SparseMatrix<double, Eigen::RowMajor>>>>
-      continuity_matrix_buff_;
-
+  /* matrices handed out by continuity_matrix and gspline_derivative_matrix. The
+   * sparsity pattern depends only on the key, the values are set at every
+   * request. */
   mutable std::map<
       std::size_t,
       std::map<
@@ -40,13 +36,6 @@ private:
           std::map<std::size_t, Eigen::SparseMatrix<double, Eigen::RowMajor>>>>
       continuity_matrix_dynamic_buff_;
 
-  mutable std::map<
-      std::size_t,
-      std::map<
-          std::size_t,
-          std::map<std::size_t, Eigen::SparseMatrix<double, Eigen::RowMajor>>>>
-      derivative_matrix_buff_;
-
   mutable std::map<
       std::size_t,
       std::map<
diff --git a/src/Basis/Basis.cpp b/src/Basis/Basis.cpp
index 5d317fa..2e153d4 100644
--- a/src/Basis/Basis.cpp
+++ b/src/Basis/Basis.cpp
@@ -46,10 +46,15 @@ const Eigen::SparseMatrix<double, Eigen::RowMajor>& Basis::continuity_matrix(
     std::size_t _number_of_intervals, std::size_t _codom_dim,
     std::size_t _deriv_order,
     Eigen::Ref<const Eigen::VectorXd> _interval_lengths) const {
-  if (not(continuity_matrix_buff_.count(_number_of_intervals) and
-          continuity_matrix_buff_[_number_of_intervals].count(_codom_dim) and
-          continuity_matrix_buff_[_number_of_intervals][_codom_dim].count(
-              _deriv_order))) {
+  if (_number_of_intervals == 0 or
+      _interval_lengths.size() != static_cast<long>(_number_of_intervals)) {
+    throw std::invalid_argument(
+        "continuity_matrix: wrong number of interval lengths");
+  }
+  Eigen::SparseMatrix<double, Eigen::RowMajor>& mat =
+      continuity_matrix_dynamic_buff_[_number_of_intervals][_codom_dim]
+                                     [_deriv_order];
+  if (mat.cols() == 0) {
     // for each derivative degree, this fills
     // (_number_of_intervals-1)*_codom_dim rows
 
@@ -57,20 +62,6 @@ const Eigen::SparseMatrix<double, Eigen::RowMajor>& Basis::continuity_matrix(
         (_number_of_intervals - 1) * _codom_dim * (_deriv_order + 1),
         _number_of_intervals * _codom_dim * get_dim());
 
-    Eigen::MatrixXd left_buffer(_deriv_order + 1, get_dim());
-    Eigen::MatrixXd right_buffer(_deriv_order + 1, get_dim());
-
-    get_derivative_matrix_block(_deriv_order);
-
-    eval_derivative_on_window(-1.0, 2.0, 0, left_buffer.row(0));
-    eval_derivative_on_window(1.0, 2.0, 0, right_buffer.row(0));
-
-    for (std::size_t der = 1; der <= _deriv_order; der++) {
-      const Eigen::MatrixXd& dblock = get_derivative_matrix_block(der);
-      left_buffer.row(der) = dblock.row(0);
-      right_buffer.row(der) = dblock.bottomRows(1);
-    }
-
     std::size_t i0, j0;
 
     for (std::size_t der_coor = 0; der_coor <= _deriv_order; der_coor++) {
@@ -78,81 +69,55 @@ const Eigen::SparseMatrix<double, Eigen::RowMajor>& Basis::continuity_matrix(
            interval_coor < _number_of_intervals - 1; interval_coor++) {
         i0 = _codom_dim * (_number_of_intervals - 1) * der_coor +
              interval_coor * _codom_dim;
-        // fill components relative to the rhs value od the interval
-        j0 = interval_coor * get_dim() * _codom_dim;
-        for (std::size_t codom_coor = 0; codom_coor < _codom_dim;
-             codom_coor++) {
-          for (std::size_t basis_coor = 0; basis_coor < get_dim();
-               basis_coor++) {
-            result.insert(i0 + codom_coor,
-                          j0 + basis_coor * 1.0 + get_dim() * codom_coor) =
-                right_buffer(der_coor, basis_coor);
-          }
-        }
-        // fill components relative to the rhs value od the interval
-        j0 = (interval_coor + 1) * get_dim() * _codom_dim;
-        for (std::size_t codom_coor = 0; codom_coor < _codom_dim;
-             codom_coor++) {
-          for (std::size_t basis_coor = 0; basis_coor < get_dim();
-               basis_coor++) {
-            result.insert(i0 + codom_coor,
-                          j0 + basis_coor * 1.0 + get_dim() * codom_coor) =
-                -left_buffer(der_coor, basis_coor);
+        // one block for the value at the end of the interval, one for the value
+        // at the beginning of the next one
+        for (std::size_t side = 0; side < 2; side++) {
+          j0 = (interval_coor + side) * get_dim() * _codom_dim;
+          for (std::size_t codom_coor = 0; codom_coor < _codom_dim;
+               codom_coor++) {
+            for (std::size_t basis_coor = 0; basis_coor < get_dim();
+                 basis_coor++) {
+              result.insert(i0 + codom_coor,
+                            j0 + basis_coor + get_dim() * codom_coor) = 0.0;
+            }
           }
         }
       }
     }
-
-    // result.makeCompressed();
-    continuity_matrix_buff_[_number_of_intervals][_codom_dim][_deriv_order] =
-        result;
-
-    continuity_matrix_dynamic_buff_[_number_of_intervals][_codom_dim]
-                                   [_deriv_order] = std::move(result);
+    // the matrix is stored once it is complete
+    mat.swap(result);
   }
-  /*
-    continuity_matrix_dynamic_buff_
-        [_number_of_intervals][_codom_dim][_deriv_order] =
-            continuity_matrix_buff_[_number_of_intervals][_codom_dim]
-                                   [_deriv_order];
-                                   */
-
-  Eigen::SparseMatrix<double, Eigen::RowMajor>& mat_dest =
-      continuity_matrix_dynamic_buff_[_number_of_intervals][_codom_dim]
-                                     [_deriv_order];
-  Eigen::SparseMatrix<double, Eigen::RowMajor>& mat_src =
-      continuity_matrix_buff_[_number_of_intervals][_codom_dim][_deriv_order];
-
-  // in our case all the rows of the matrix have at more than one non-zero cell
-  // By this reason the outer index coincieds with the cols
-  for (long k = _codom_dim * (_number_of_intervals - 1);
-       k < mat_dest.outerSize(); ++k) {
-    std::size_t deg = k / (_codom_dim * (_number_of_intervals - 1));
-
-    Eigen::VectorXd deriv_factor =
-        Eigen::pow(2.0 / _interval_lengths.array(), deg);
-
-    Eigen::SparseMatrix<double, Eigen::RowMajor>::InnerIterator it_dest(
-        mat_dest, k);
-    Eigen::SparseMatrix<double, Eigen::RowMajor>::InnerIterator it_src(mat_src,
-                                                                       k);
-    for (/*already initialized*/; it_dest; ++it_dest, ++it_src) {
-      std::size_t interval = it_dest.col() / (get_dim() * _codom_dim);
-      it_dest.valueRef() = it_src.value() * deriv_factor(interval);
-      assert(it_dest.col() == it_dest.index());
-      assert(it_dest.row() == k);
-      /*
-      std::cout << "row " << it_dest.row() << " col " << it_dest.col() << "
-      index "
-                << it_dest.index() << " outer idx " << k << " interval " <<
-      interval
-                << " deg " << deg << " val " << it_dest.value() << std::endl;
-                */
+
+  Eigen::VectorXd left_buffer(get_dim());
+  Eigen::VectorXd right_buffer(get_dim());
+
+  for (std::size_t der_coor = 0; der_coor <= _deriv_order; der_coor++) {
+    for (std::size_t interval_coor = 0;
+         interval_coor < _number_of_intervals - 1; interval_coor++) {
+      eval_derivative_on_window(
+          1.0, _interval_lengths(static_cast<long>(interval_coor)),
+          static_cast<unsigned int>(der_coor), right_buffer);
+      eval_derivative_on_window(
+          -1.0, _interval_lengths(static_cast<long>(interval_coor) + 1),
+          static_cast<unsigned int>(der_coor), left_buffer);
+
+      const std::size_t i0 =
+          _codom_dim * (_number_of_intervals - 1) * der_coor +
+          interval_coor * _codom_dim;
+      for (std::size_t codom_coor = 0; codom_coor < _codom_dim; codom_coor++) {
+        for (Eigen::SparseMatrix<double, Eigen::RowMajor>::InnerIterator it(
+                 mat, static_cast<long>(i0 + codom_coor));
+             it; ++it) {
+          const std::size_t col = it.col();
+          it.valueRef() = (col / (get_dim() * _codom_dim) == interval_coor)
+                              ? right_buffer(col % get_dim())
+                              : -left_buffer(col % get_dim());
+        }
+      }
     }
   }
 
-  return continuity_matrix_dynamic_buff_[_number_of_intervals][_codom_dim]
-                                        [_deriv_order];
+  return mat;
 }
 
 const Eigen::SparseMatrix<double, Eigen::RowMajor>&
@@ -160,16 +125,21 @@ Basis::gspline_derivative_matrix(
     std::size_t _number_of_intervals, std::size_t _codom_dim,
     std::size_t _deriv_order,
     Eigen::Ref<const Eigen::VectorXd> _interval_lengths) const {
+  if (_interval_lengths.size() != static_cast<long>(_number_of_intervals)) {
+    throw std::invalid_argument(
+        "gspline_derivative_matrix: wrong number of interval lengths");
+  }
   std::size_t matrix_size = _number_of_intervals * _codom_dim * get_dim();
 
-  if (not(derivative_matrix_buff_.count(_number_of_intervals) and
-          derivative_matrix_buff_[_number_of_intervals].count(_codom_dim) and
-          derivative_matrix_buff_[_number_of_intervals][_codom_dim].count(
-              _deriv_order))) {
+  const Eigen::MatrixXd& dmat = get_derivative_matrix_block(_deriv_order);
+
+  Eigen::SparseMatrix<double, Eigen::RowMajor>& mat =
+      derivative_matrix_dynamic_buff_[_number_of_intervals][_codom_dim]
+                                     [_deriv_order];
+  if (mat.cols() == 0) {
     Eigen::SparseMatrix<double, Eigen::RowMajor> result(matrix_size,
                                                         matrix_size);
 
-    const Eigen::MatrixXd& dmat = get_derivative_matrix_block(_deriv_order);
     for (std::size_t block = 0; block < _number_of_intervals * _codom_dim;
          block++) {
       std::size_t i0 = block * get_dim();
@@ -179,42 +149,25 @@ Basis::gspline_derivative_matrix(
         }
       }
     }
-
-    derivative_matrix_buff_[_number_of_intervals][_codom_dim][_deriv_order] =
-        result;
-
-    derivative_matrix_dynamic_buff_[_number_of_intervals][_codom_dim]
-                                   [_deriv_order] = std::move(result);
-    // std::chrono::steady_clock::time_point end =
-    //    std::chrono::steady_clock::now();
+    // the matrix is stored once it is complete
+    mat.swap(result);
   }
 
-  Eigen::SparseMatrix<double, Eigen::RowMajor>& mat_dest =
-      derivative_matrix_dynamic_buff_[_number_of_intervals][_codom_dim]
-                                     [_deriv_order];
-
-  Eigen::SparseMatrix<double, Eigen::RowMajor>& mat_src =
-      derivative_matrix_buff_[_number_of_intervals][_codom_dim][_deriv_order];
-
-  Eigen::VectorXd deriv_factor =
-      Eigen::pow(2.0 / _interval_lengths.array(), _deriv_order);
-
-  for (long k = 0; k < mat_dest.outerSize(); ++k) {
-    // std::size_t deg = k / (_codom_dim * (_number_of_intervals - 1));
-
-    Eigen::SparseMatrix<double, Eigen::RowMajor>::InnerIterator it_dest(
-        mat_dest, k);
-
-    Eigen::SparseMatrix<double, Eigen::RowMajor>::InnerIterator it_src(mat_src,
-                                                                       k);
-    for (/*already initialized*/; it_dest; ++it_dest, ++it_src) {
-      std::size_t interval = it_dest.col() / (get_dim() * _codom_dim);
-      it_dest.valueRef() = it_src.value() * deriv_factor(interval);
+  /// the derivative matrix of Basis0101 does not depend on the interval lengths
+  const bool scaled = dynamic_cast<const Basis0101*>(this) == nullptr;
+
+  for (long k = 0; k < mat.outerSize(); ++k) {
+    for (Eigen::SparseMatrix<double, Eigen::RowMajor>::InnerIterator it(mat, k);
+         it; ++it) {
+      std::size_t interval = it.col() / (get_dim() * _codom_dim);
+      const double factor =
+          scaled ? std::pow(2.0 / _interval_lengths(interval), _deriv_order)
+                 : 1.0;
+      it.valueRef() = dmat(k % get_dim(), it.col() % get_dim()) * factor;
     }
   }
 
-  return derivative_matrix_dynamic_buff_[_number_of_intervals][_codom_dim]
-                                        [_deriv_order];
+  return mat;
 }
 
 bool Basis::operator==(const Basis& _that) const {
-- 
2.43.0


From 9094a8d40f25ed177093cabc208d68cf4bff51ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:52 +0000
Subject: [PATCH 10/33] fix: reading a basis or a spline from several threads

---
 include/gsplines/Basis/Basis.hpp         | 25 +++++++++++++++---------
 include/gsplines/Basis/BasisLegendre.hpp |  1 -
 include/gsplines/GSpline.hpp             |  1 -
 src/Basis/BasisLegendre.cpp              |  6 ++----
 src/GSpline.cpp                          | 18 ++++++++---------
 5 files changed, 26 insertions(+), 25 deletions(-)

diff --git a/include/gsplines/Basis/Basis.hpp b/include/gsplines/Basis/Basis.hpp
index 5afa6f5..df5029a 100644
--- a/include/gsplines/Basis/Basis.hpp
+++ b/include/gsplines/Basis/Basis.hpp
@@ -1,11 +1,13 @@
 #ifndef BASIS_H
 #define BASIS_H
 #include <cstddef>
+#include <deque>
 #include <eigen3/Eigen/Core>
 #include <eigen3/Eigen/SparseCore>
 #include <iostream>
 #include <map>
 #include <memory>
+#include <mutex>
 #include <string>
 #include <vector>
 
@@ -24,7 +26,15 @@ private:
   Eigen::VectorXd parameters_float_;
   Eigen::VectorXi parameters_int_;
 
-  mutable std::vector<Eigen::MatrixXd> derivative_matrix_array_;
+  /* grows on demand, also when several threads read the same basis. Its
+   * elements keep their address. */
+  mutable std::recursive_mutex derivative_matrix_mutex_;
+  mutable std::deque<Eigen::MatrixXd> derivative_matrix_array_;
+
+  std::deque<Eigen::MatrixXd> copy_derivative_matrix_array() const {
+    const std::lock_guard<std::recursive_mutex> lock(derivative_matrix_mutex_);
+    return derivative_matrix_array_;
+  }
 
   /* matrices handed out by continuity_matrix and gspline_derivative_matrix. The
    * sparsity pattern depends only on the key, the values are set at every
@@ -68,7 +78,7 @@ public:
       : dim_(that.get_dim()), name_(that.name_),
         parameters_float_(that.parameters_float_),
         parameters_int_(that.parameters_int_),
-        derivative_matrix_array_(that.derivative_matrix_array_),
+        derivative_matrix_array_(that.copy_derivative_matrix_array()),
         derivative_matrix_(that.derivative_matrix_) {}
 
   Basis(Basis &&that)
@@ -128,14 +138,11 @@ public:
 
   const Eigen::MatrixXd &
   get_derivative_matrix_block(std::size_t _deg = 1) const {
+    const std::lock_guard<std::recursive_mutex> lock(derivative_matrix_mutex_);
 
-    std::size_t current_deriv_calc = derivative_matrix_array_.size();
-    if (current_deriv_calc <= _deg) {
-      while (current_deriv_calc != _deg + 1) {
-        derivative_matrix_array_.push_back(
-            derivative_matrix_impl(current_deriv_calc));
-        current_deriv_calc++;
-      }
+    while (derivative_matrix_array_.size() <= _deg) {
+      derivative_matrix_array_.push_back(
+          derivative_matrix_impl(derivative_matrix_array_.size()));
     }
     return derivative_matrix_array_[_deg];
   }
diff --git a/include/gsplines/Basis/BasisLegendre.hpp b/include/gsplines/Basis/BasisLegendre.hpp
index c914a09..c279276 100644
--- a/include/gsplines/Basis/BasisLegendre.hpp
+++ b/include/gsplines/Basis/BasisLegendre.hpp
@@ -11,7 +11,6 @@ class BasisLegendre : public Basis {
 
 private:
   BasisLegendre &operator=(const BasisLegendre &) = delete;
-  mutable Eigen::VectorXd buff_next;
   std::vector<Eigen::MatrixXd> derivative_matrices_buffer_;
 
 public:
diff --git a/include/gsplines/GSpline.hpp b/include/gsplines/GSpline.hpp
index 07692ea..7bd8e96 100644
--- a/include/gsplines/GSpline.hpp
+++ b/include/gsplines/GSpline.hpp
@@ -30,7 +30,6 @@ class GSplineBase : public functions::FunctionInheritanceHelper<
   Eigen::VectorXd domain_interval_lengths_;
 
   std::unique_ptr<basis::Basis> basis_;
-  mutable Eigen::VectorXd basis_buffer_;
   double interval_to_window(double _domain_point, std::size_t _interval) const;
 
   Eigen::Ref<const Eigen::VectorXd> coefficient_segment(
diff --git a/src/Basis/BasisLegendre.cpp b/src/Basis/BasisLegendre.cpp
index 8ec9616..16822c1 100644
--- a/src/Basis/BasisLegendre.cpp
+++ b/src/Basis/BasisLegendre.cpp
@@ -13,7 +13,7 @@ std::shared_ptr<BasisLegendre> BasisLegendre::get(std::size_t _dim) {
 void gsplines_legendre_dmat(size_t _dim, Eigen::MatrixXd& _dmat);
 
 BasisLegendre::BasisLegendre(std::size_t _dim)
-    : Basis(_dim, "legendre"), buff_next(get_dim()) {
+    : Basis(_dim, "legendre") {
   gsplines_legendre_dmat(_dim, derivative_matrix_);
 
   derivative_matrix_.transposeInPlace();
@@ -37,12 +37,10 @@ BasisLegendre::BasisLegendre(std::size_t _dim)
 
 BasisLegendre::BasisLegendre(const BasisLegendre& that)
     : Basis(that),
-      buff_next(that.get_dim()),
       derivative_matrices_buffer_(that.derivative_matrices_buffer_) {}
 
 BasisLegendre::BasisLegendre(BasisLegendre&& that)
     : Basis(std::move(that)),
-      buff_next(that.get_dim()),
       derivative_matrices_buffer_(std::move(that.derivative_matrices_buffer_)) {
 }
 
@@ -53,7 +51,7 @@ void BasisLegendre::eval_derivative_on_window(
   double aux = 0;
   double mutiplier = 1.0;
   _buff.setZero();
-  buff_next.setZero();
+  Eigen::VectorXd buff_next(Eigen::VectorXd::Zero(get_dim()));
   _buff(0) = 1.0;
   _buff(1) = _s;
   for (unsigned int i = 1; i < get_dim() - 1; i++) {
diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index 7231b74..9add592 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -16,8 +16,7 @@ GSplineBase::GSplineBase(const GSplineBase& that)
     : FunctionInheritanceHelper(that),
       coefficients_(that.coefficients_),
       domain_interval_lengths_(that.domain_interval_lengths_),
-      basis_(that.basis_->clone()),
-      basis_buffer_(basis_->get_dim()) {
+      basis_(that.basis_->clone()) {
   if (coefficients_.size() !=
       (long)(get_number_of_intervals() * basis_->get_dim() * get_codom_dim())) {
     throw std::invalid_argument(
@@ -36,8 +35,7 @@ GSplineBase::GSplineBase(GSplineBase&& that) noexcept
     : FunctionInheritanceHelper(that),
       coefficients_(std::move(that.coefficients_)),
       domain_interval_lengths_(std::move(that.domain_interval_lengths_)),
-      basis_(that.basis_->move_clone()),
-      basis_buffer_(basis_->get_dim()) {}
+      basis_(that.basis_->move_clone()) {}
 
 GSplineBase::GSplineBase(std::pair<double, double> _domain,
                          std::size_t _codom_dim, std::size_t _n_intervals,
@@ -48,8 +46,7 @@ GSplineBase::GSplineBase(std::pair<double, double> _domain,
     : FunctionInheritanceHelper(_domain, _codom_dim, _name),
       coefficients_(_coefficents),
       domain_interval_lengths_(_tauv),
-      basis_(_basis.clone()),
-      basis_buffer_(basis_->get_dim()) {
+      basis_(_basis.clone()) {
   if (coefficients_.size() !=
       (long)(_n_intervals * basis_->get_dim() * _codom_dim)) {
     throw std::invalid_argument(
@@ -72,8 +69,7 @@ GSplineBase::GSplineBase(std::pair<double, double> _domain,
     : FunctionInheritanceHelper(_domain, _codom_dim, _name),
       coefficients_(std::move(_coefficents)),
       domain_interval_lengths_(std::move(_tauv)),
-      basis_(_basis.clone()),
-      basis_buffer_(basis_->get_dim()) {
+      basis_(_basis.clone()) {
   if (coefficients_.size() !=
       (long)(_n_intervals * basis_->get_dim() * _codom_dim)) {
     throw std::invalid_argument(
@@ -96,6 +92,8 @@ void GSplineBase::value_impl(
   double s = 0.0;
   double tau = 0.0;
 
+  Eigen::VectorXd basis_buffer(basis_->get_dim());
+
   std::size_t i = 0;
   std::size_t j = 0;
 
@@ -104,10 +102,10 @@ void GSplineBase::value_impl(
     s = interval_to_window(_domain_points(static_cast<long>(i)),
                            current_interval);
     tau = domain_interval_lengths_(static_cast<long>(current_interval));
-    basis_->eval_on_window(s, tau, basis_buffer_);
+    basis_->eval_on_window(s, tau, basis_buffer);
     for (j = 0; j < get_codom_dim(); j++) {
       _result(static_cast<long>(i), static_cast<long>(j)) =
-          coefficient_segment(current_interval, j).adjoint() * basis_buffer_;
+          coefficient_segment(current_interval, j).adjoint() * basis_buffer;
     }
   }
 }
-- 
2.43.0


From 5e79d62813e2a74958ec77f428186b44edbf44ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:12 +0000
Subject: [PATCH 11/33] fix: Legendre derivatives beyond the degree of the
 basis

---
 src/Basis/BasisLegendre.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Basis/BasisLegendre.cpp b/src/Basis/BasisLegendre.cpp
index 16822c1..2cf7143 100644
--- a/src/Basis/BasisLegendre.cpp
+++ b/src/Basis/BasisLegendre.cpp
@@ -51,10 +51,16 @@ void BasisLegendre::eval_derivative_on_window(
   double aux = 0;
   double mutiplier = 1.0;
   _buff.setZero();
+  /// all the derivatives of degree larger than the one of the polynomials vanish
+  if (_deg >= get_dim()) {
+    return;
+  }
   Eigen::VectorXd buff_next(Eigen::VectorXd::Zero(get_dim()));
   _buff(0) = 1.0;
-  _buff(1) = _s;
-  for (unsigned int i = 1; i < get_dim() - 1; i++) {
+  if (get_dim() > 1) {
+    _buff(1) = _s;
+  }
+  for (unsigned int i = 1; i + 1 < get_dim(); i++) {
     _buff(i + 1) =
         1.0 / ((double)i + 1.0) *
         ((2.0 * (double)i + 1.0) * _s * _buff(i) - (double)i * _buff(i - 1));
@@ -89,8 +95,10 @@ void BasisLegendre::eval_on_window(
     Eigen::Ref<Eigen::VectorXd, 0, Eigen::InnerStride<>> _buff) const {
   _buff.setZero();
   _buff(0) = 1.0;
-  _buff(1) = _s;
-  for (std::size_t i = 1; i < get_dim() - 1; i++) {
+  if (get_dim() > 1) {
+    _buff(1) = _s;
+  }
+  for (std::size_t i = 1; i + 1 < get_dim(); i++) {
     _buff(i + 1) =
         1.0 / ((double)i + 1.0) *
         ((2.0 * (double)i + 1.0) * _s * _buff(i) - (double)i * _buff(i - 1));
-- 
2.43.0


From 8fb0097df7be8ffe9832e6d59a3034aaaf99ff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:20 +0000
Subject: [PATCH 12/33] fix: an interpolator refuses or fails with an exception
 and never reuses a half-built matrix

---
 include/gsplines/Interpolator.hpp |   6 ++
 src/Interpolator.cpp              | 138 +++++++++++++++++++-----------
 2 files changed, 94 insertions(+), 50 deletions(-)

diff --git a/include/gsplines/Interpolator.hpp b/include/gsplines/Interpolator.hpp
index 7faf870..c39cd91 100644
--- a/include/gsplines/Interpolator.hpp
+++ b/include/gsplines/Interpolator.hpp
@@ -29,6 +29,12 @@ private:
   Eigen::VectorXi nnz_vec_;
   Eigen::VectorXd sol_buffer_;
 
+  void fill_interpolating_matrix(
+      const Eigen::Ref<const Eigen::VectorXd> _interval_lengths,
+      Eigen::SparseMatrix<double> &_mat);
+  Eigen::SparseMatrix<double> new_matrix() const;
+  Eigen::VectorXd solve(const Eigen::Ref<const Eigen::VectorXd> _rhs) const;
+
 public:
   Interpolator(std::size_t _codom_dim, std::size_t _num_intervals,
                const basis::Basis &_basis);
diff --git a/src/Interpolator.cpp b/src/Interpolator.cpp
index ef00399..65a21ac 100644
--- a/src/Interpolator.cpp
+++ b/src/Interpolator.cpp
@@ -17,7 +17,10 @@ Interpolator::Interpolator(std::size_t _codom_dim, std::size_t _num_intervals,
     throw std::invalid_argument(
         "Interpolator: The dimension of the basis must be pair");
   }
-  interpolating_matrix_.resize(matrix_size_, matrix_size_);
+  if (_codom_dim == 0 or _num_intervals == 0) {
+    throw std::invalid_argument(
+        "Interpolator: at least one interval and one component are required");
+  }
   interpolating_vector_.resize(matrix_size_);
   interpolating_vector_.setZero();
   coefficients_vector_.resize(matrix_size_);
@@ -26,27 +29,36 @@ Interpolator::Interpolator(std::size_t _codom_dim, std::size_t _num_intervals,
 
   position_buffer_.resize(basis_->get_dim());
 
-  std::size_t nnz_per_col =
-      2 * (basis_->get_dim() / 2 - 1) + 2 + 2 * (basis_->get_dim() - 2);
-  interpolating_matrix_.reserve(
-      Eigen::VectorXi::Constant(matrix_size_, nnz_per_col));
-  interpolating_matrix_.makeCompressed();
-
-  for (std::size_t i = 0; i < _num_intervals; i++) {
-    {
-      Eigen::SparseMatrix<double> mat;
-      interpolation_matrix_ders_.push_back(mat);
-      interpolation_matrix_ders_.back().resize(matrix_size_, matrix_size_);
-      interpolation_matrix_ders_.back().reserve(nnz_per_col *
-                                                basis_->get_dim() * codom_dim_);
-      interpolation_matrix_ders_.back().makeCompressed();
-    }
-  }
+  interpolation_matrix_ders_.resize(_num_intervals);
 }
 
 Interpolator::~Interpolator() {}
+
+Eigen::SparseMatrix<double> Interpolator::new_matrix() const {
+  const std::size_t nnz_per_col =
+      2 * (basis_->get_dim() / 2 - 1) + 2 + 2 * (basis_->get_dim() - 2);
+  Eigen::SparseMatrix<double> result(matrix_size_, matrix_size_);
+  result.reserve(Eigen::VectorXi::Constant(matrix_size_, nnz_per_col));
+  return result;
+}
+
 void Interpolator::fill_interpolating_matrix(
     const Eigen::Ref<const Eigen::VectorXd> _interval_lengths) {
+  if (interpolating_matrix_.nonZeros() != 0) {
+    // the sparsity pattern is there, only the values change
+    fill_interpolating_matrix(_interval_lengths, interpolating_matrix_);
+    return;
+  }
+  Eigen::SparseMatrix<double> mat(new_matrix());
+  fill_interpolating_matrix(_interval_lengths, mat);
+  mat.makeCompressed();
+  // the matrix is stored once it is complete
+  interpolating_matrix_.swap(mat);
+}
+
+void Interpolator::fill_interpolating_matrix(
+    const Eigen::Ref<const Eigen::VectorXd> _interval_lengths,
+    Eigen::SparseMatrix<double> &_mat) {
 
   unsigned int interval_coor = 0;
   unsigned int i0 = 0;
@@ -59,55 +71,55 @@ void Interpolator::fill_interpolating_matrix(
   }
   fill_buffers(-1.0, _interval_lengths(0));
 
-  fill_position_block(i0, j0, interpolating_matrix_);
+  fill_position_block(i0, j0, _mat);
   i0 += codom_dim_;
 
-  fill_boundary_derivative_block(i0, j0, interpolating_matrix_);
+  fill_boundary_derivative_block(i0, j0, _mat);
   i0 += codom_dim_ * (basis_->get_dim() / 2 - 1);
 
   fill_buffers(1.0, _interval_lengths(0));
 
-  fill_position_block(i0, j0, interpolating_matrix_);
+  fill_position_block(i0, j0, _mat);
   i0 += codom_dim_;
 
   if (num_intervals_ == 1) {
-    fill_boundary_derivative_block(i0, j0, interpolating_matrix_);
+    fill_boundary_derivative_block(i0, j0, _mat);
     return;
   }
 
-  fill_continuity_derivative_block(i0, j0, false, interpolating_matrix_);
+  fill_continuity_derivative_block(i0, j0, false, _mat);
   j0 += codom_dim_ * basis_->get_dim();
 
   for (interval_coor = 1; interval_coor < num_intervals_ - 1; interval_coor++) {
     fill_buffers(-1.0, _interval_lengths(interval_coor));
 
-    fill_continuity_derivative_block(i0, j0, true, interpolating_matrix_);
+    fill_continuity_derivative_block(i0, j0, true, _mat);
     i0 += codom_dim_ * (basis_->get_dim() - 2);
 
-    fill_position_block(i0, j0, interpolating_matrix_);
+    fill_position_block(i0, j0, _mat);
     i0 += codom_dim_;
 
     fill_buffers(1.0, _interval_lengths(interval_coor));
 
-    fill_position_block(i0, j0, interpolating_matrix_);
+    fill_position_block(i0, j0, _mat);
     i0 += codom_dim_;
 
-    fill_continuity_derivative_block(i0, j0, false, interpolating_matrix_);
+    fill_continuity_derivative_block(i0, j0, false, _mat);
     j0 += codom_dim_ * basis_->get_dim();
   }
   fill_buffers(-1.0, _interval_lengths(num_intervals_ - 1));
 
-  fill_continuity_derivative_block(i0, j0, true, interpolating_matrix_);
+  fill_continuity_derivative_block(i0, j0, true, _mat);
   i0 += codom_dim_ * (basis_->get_dim() - 2);
 
-  fill_position_block(i0, j0, interpolating_matrix_);
+  fill_position_block(i0, j0, _mat);
   i0 += codom_dim_;
 
   fill_buffers(1.0, _interval_lengths(num_intervals_ - 1));
-  fill_boundary_derivative_block(i0, j0, interpolating_matrix_);
+  fill_boundary_derivative_block(i0, j0, _mat);
   i0 += codom_dim_ * (basis_->get_dim() / 2 - 1);
 
-  fill_position_block(i0, j0, interpolating_matrix_);
+  fill_position_block(i0, j0, _mat);
 }
 void Interpolator::fill_interpolating_vector(
     const Eigen::Ref<const Eigen::MatrixXd> _waypoints) {
@@ -115,6 +127,11 @@ void Interpolator::fill_interpolating_vector(
   unsigned int interval_coor = 0;
   unsigned int codom_coor = 0;
   unsigned int vector_coor = 0;
+  if (_waypoints.rows() != (long)num_intervals_ + 1 or
+      _waypoints.cols() != (long)codom_dim_) {
+    throw std::invalid_argument(
+        "Interpolator: the matrix of waypoints is not of the required size");
+  }
   for (codom_coor = 0; codom_coor < codom_dim_; codom_coor++) {
     interpolating_vector_(vector_coor) = _waypoints(0, codom_coor);
     vector_coor++;
@@ -256,17 +273,24 @@ Eigen::Ref<const Eigen::VectorXd> Interpolator::get_coeff_derivative_wrt_tau(
     Eigen::Ref<const Eigen::VectorXd> _coeff,
     Eigen::Ref<const Eigen::VectorXd> _interval_lengths, std::size_t _tau_idx) {
 
-  if ((_interval_lengths.array() < 1.0e-6).any()) {
+  if (not(_interval_lengths.array() >= 1.0e-6).all()) {
     throw std::invalid_argument(
         "get_coeff_derivative_wrt_tau: Interval lenghts cannot be negative !");
   }
-  if (_interval_lengths.size() != (long)num_intervals_ or _tau_idx < 0 or
-      _tau_idx >= num_intervals_) {
-    fprintf(stderr, "Cannot compute derivative of coefficients wrt tau ");
-    return coefficients_vector_;
+  if (_interval_lengths.size() != (long)num_intervals_ or
+      _tau_idx >= num_intervals_ or _coeff.size() != (long)matrix_size_) {
+    throw std::invalid_argument(
+        "Cannot compute derivative of coefficients wrt tau");
   }
 
-  Eigen::SparseMatrix<double> &mat = interpolation_matrix_ders_[_tau_idx];
+  const bool has_pattern =
+      interpolation_matrix_ders_[_tau_idx].nonZeros() != 0;
+  Eigen::SparseMatrix<double> mat_buffer;
+  if (not has_pattern) {
+    mat_buffer = new_matrix();
+  }
+  Eigen::SparseMatrix<double> &mat =
+      has_pattern ? interpolation_matrix_ders_[_tau_idx] : mat_buffer;
   unsigned int i0 = 0;
   unsigned int j0 = 0;
   if (_tau_idx == 0) {
@@ -336,18 +360,38 @@ Eigen::Ref<const Eigen::VectorXd> Interpolator::get_coeff_derivative_wrt_tau(
     fill_position_block(i0, j0, mat);
   }
   mat.makeCompressed();
-  coefficients_vector_.noalias() = mat * _coeff;
+  const Eigen::VectorXd rhs = -(mat * _coeff);
+  if (not has_pattern) {
+    // the matrix is stored once it is complete
+    interpolation_matrix_ders_[_tau_idx].swap(mat_buffer);
+  }
   fill_interpolating_matrix(_interval_lengths);
+  coefficients_vector_ = solve(rhs);
+  return coefficients_vector_;
+}
+
+Eigen::VectorXd
+Interpolator::solve(const Eigen::Ref<const Eigen::VectorXd> _rhs) const {
   Eigen::SparseLU<Eigen::SparseMatrix<double>> solver;
   solver.compute(interpolating_matrix_);
-  coefficients_vector_ = -solver.solve(coefficients_vector_);
-  return coefficients_vector_;
+  if (solver.info() != Eigen::ComputationInfo::Success) {
+    throw std::runtime_error("Interpolator: the interpolating matrix is "
+                             "singular: " +
+                             solver.lastErrorMessage());
+  }
+  Eigen::VectorXd result = solver.solve(_rhs);
+  if (not result.allFinite()) {
+    throw std::runtime_error(
+        "Interpolator: the interpolation problem has no finite solution");
+  }
+  return result;
 }
+
 const Eigen::Ref<const Eigen::VectorXd> Interpolator::solve_interpolation(
     const Eigen::Ref<const Eigen::VectorXd> _interval_lengths,
     const Eigen::Ref<const Eigen::MatrixXd> _waypoints) {
 
-  if ((_interval_lengths.array() < 1.0e-6).any()) {
+  if (not(_interval_lengths.array() >= 1.0e-6).all()) {
     throw std::invalid_argument(" Interval lenghts cannot be negative !");
   }
   // 1. fill the interpolating matrix
@@ -355,16 +399,7 @@ const Eigen::Ref<const Eigen::VectorXd> Interpolator::solve_interpolation(
   // 2. fill the interpolating vector
   fill_interpolating_vector(_waypoints);
   // 3. Solve the interpolation problem
-  Eigen::SparseLU<Eigen::SparseMatrix<double>> solver;
-  solver.compute(interpolating_matrix_);
-  if (solver.info() != Eigen::ComputationInfo::Success) {
-    std::cerr << solver.lastErrorMessage() << "\n";
-    print_info();
-    std::cout << "interval lengths:\n" << _interval_lengths.transpose() << "\n";
-    print_interpolating_matrix();
-    return sol_buffer_;
-  }
-  sol_buffer_ = solver.solve(interpolating_vector_);
+  sol_buffer_ = solve(interpolating_vector_);
   // 4. Return the interpolating function
   return sol_buffer_;
 }
@@ -372,6 +407,9 @@ const Eigen::Ref<const Eigen::VectorXd> Interpolator::solve_interpolation(
 GSpline interpolate(const Eigen::Ref<const Eigen::VectorXd> _interval_lengths,
                     const Eigen::Ref<const Eigen::MatrixXd> _waypoints,
                     const basis::Basis &_basis) {
+  if (_waypoints.rows() < 2) {
+    throw std::invalid_argument("interpolate: at least two waypoints required");
+  }
   return Interpolator(_waypoints.cols(), _waypoints.rows() - 1, _basis)
       .interpolate(_interval_lengths, _waypoints);
 }
-- 
2.43.0


From a716a5707008714b38041da6215830383e2bdbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:31 +0000
Subject: [PATCH 13/33] fix: each weight of a Sobolev norm applies to its own
 derivative order

---
 src/FunctionalAnalysis/Sobolev.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/FunctionalAnalysis/Sobolev.cpp b/src/FunctionalAnalysis/Sobolev.cpp
index 4fd654c..3956352 100644
--- a/src/FunctionalAnalysis/Sobolev.cpp
+++ b/src/FunctionalAnalysis/Sobolev.cpp
@@ -4,13 +4,15 @@
 #include <gsplines/Functions/ElementalFunctions.hpp>
 #include <gsplines/GSpline.hpp>
 #include <iostream>
+#include <stdexcept>
 
 namespace gsplines {
 namespace functional_analysis {
 SobolevNorm::SobolevNorm(const Eigen::Ref<const Eigen::MatrixXd> _waypoints,
                          const basis::Basis &_basis,
                          std::vector<std::pair<std::size_t, double>> _weights)
-    : basis_(_basis.clone()), num_intervals_(_waypoints.rows() - 1),
+    : basis_(_basis.clone()),
+      num_intervals_(_waypoints.rows() > 0 ? _waypoints.rows() - 1 : 0),
       codom_dim_(_waypoints.cols()),
       interpolator_(codom_dim_, num_intervals_, _basis), weights_(_weights),
       waypoints_(_waypoints), matrix_(_basis.get_dim(), _basis.get_dim()),
@@ -36,6 +38,10 @@ void SobolevNorm::deriv_wrt_interval_len(
   unsigned int interval_coor;
   unsigned int codom_coor;
   double tau;
+  if (_buff.size() != static_cast<long>(num_intervals_)) {
+    throw std::invalid_argument(
+        "SobolevNorm: the gradient has one component per interval");
+  }
   const Eigen::Ref<const Eigen::VectorXd> coeff =
       interpolator_.solve_interpolation(_interval_lengths, waypoints_);
 
@@ -50,8 +56,9 @@ void SobolevNorm::deriv_wrt_interval_len(
     // initialize the matrix buffers and compute the de matrix values
     matrix_.setZero();
     for (std::pair<std::size_t, double> w : weights_) {
-      basis_->add_derivative_matrix_deriv_wrt_tau(tau, w.first, matrix_);
-      matrix_ *= w.second;
+      matrix_2_.setZero();
+      basis_->add_derivative_matrix_deriv_wrt_tau(tau, w.first, matrix_2_);
+      matrix_ += w.second * matrix_2_;
     }
     // compute y^T dQdtau_i y
     for (codom_coor = 0; codom_coor < codom_dim_; codom_coor++) {
@@ -79,8 +86,9 @@ double SobolevNorm::inner_prod(
     matrix_.setZero();
     tau = _interval_lengths(interval_coor);
     for (std::pair<std::size_t, double> w : weights_) {
-      basis_->add_derivative_matrix(tau, w.first, matrix_);
-      matrix_ *= w.second;
+      matrix_2_.setZero();
+      basis_->add_derivative_matrix(tau, w.first, matrix_2_);
+      matrix_ += w.second * matrix_2_;
     }
     for (codom_coor = 0; codom_coor < codom_dim_; codom_coor++) {
       const Eigen::Ref<const Eigen::VectorXd> v1 = get_coefficient_segment(
-- 
2.43.0


From 1b4a9c3ef4540e1887275283a89318383e638aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:12 +0000
Subject: [PATCH 14/33] fix: spline sums and differences require the same
 domain and keep their type

---
 include/gsplines/GSpline.hpp | 18 +++++++++---------
 src/GSpline.cpp              | 14 ++++++++++++--
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/include/gsplines/GSpline.hpp b/include/gsplines/GSpline.hpp
index 7bd8e96..83e43ae 100644
--- a/include/gsplines/GSpline.hpp
+++ b/include/gsplines/GSpline.hpp
@@ -53,7 +53,7 @@ class GSplineBase : public functions::FunctionInheritanceHelper<
               const std::string& _name = "GSplineBase");
 
   GSplineBase(const GSplineBase& that);
-  GSplineBase(GSplineBase&& that) noexcept;
+  GSplineBase(GSplineBase&& that);
 
  public:
   void value_impl(const Eigen::Ref<const Eigen::VectorXd> _domain_points,
@@ -150,7 +150,7 @@ class GSplineInheritanceHelper
     if (not Base::same_vector_space(that)) {
       throw std::invalid_argument("Cannot sum Incompatible Gspline");
     }
-    Current result = Current(*this);
+    Current result = Current(static_cast<const Current&>(*this));
     result.coefficients_ += that.coefficients_;
     return result;
   }
@@ -168,7 +168,7 @@ class GSplineInheritanceHelper
       throw std::invalid_argument("Cannot sum Incompatible Gspline");
     }
     Base::coefficients_ += that.coefficients_;
-    return std::move(*this);
+    return std::move(static_cast<Current&>(*this));
   }
 
   Current operator+(Current&& that) && {
@@ -176,14 +176,14 @@ class GSplineInheritanceHelper
       throw std::invalid_argument("Cannot sum Incompatible Gspline");
     }
     Base::coefficients_ += that.coefficients_;
-    return std::move(*this);
+    return std::move(static_cast<Current&>(*this));
   }
 
   Current operator-(const Current& that) const& {
     if (not Base::same_vector_space(that)) {
       throw std::invalid_argument("Cannot sum Incompatible Gspline");
     }
-    GSplineBase result = GSplineBase(*this);
+    Current result = Current(static_cast<const Current&>(*this));
     result.coefficients_ -= that.coefficients_;
     return result;
   }
@@ -201,7 +201,7 @@ class GSplineInheritanceHelper
       throw std::invalid_argument("Cannot sum Incompatible Gspline");
     }
     Base::coefficients_ -= that.coefficients_;
-    return std::move(*this);
+    return std::move(static_cast<Current&>(*this));
   }
 
   Current operator-(Current&& that) && {
@@ -209,7 +209,7 @@ class GSplineInheritanceHelper
       throw std::invalid_argument("Cannot sum Incompatible Gspline");
     }
     Base::coefficients_ -= that.coefficients_;
-    return std::move(*this);
+    return std::move(static_cast<Current&>(*this));
   }
 
   Current& operator+=(const Current& that) {
@@ -217,7 +217,7 @@ class GSplineInheritanceHelper
       throw std::invalid_argument("Cannot sum Incompatible Gspline");
     }
     Base::coefficients_ += that.coefficients_;
-    return *this;
+    return static_cast<Current&>(*this);
   }
 
   Current& operator-=(const Current& that) {
@@ -226,7 +226,7 @@ class GSplineInheritanceHelper
     }
 
     Base::coefficients_ -= that.coefficients_;
-    return *this;
+    return static_cast<Current&>(*this);
   }
 
   Current linear_scaling_new_execution_time(double _new_exec_time) const {
diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index 9add592..bd633a4 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -31,7 +31,7 @@ GSplineBase::GSplineBase(const GSplineBase& that)
   }
 }
 
-GSplineBase::GSplineBase(GSplineBase&& that) noexcept
+GSplineBase::GSplineBase(GSplineBase&& that)
     : FunctionInheritanceHelper(that),
       coefficients_(std::move(that.coefficients_)),
       domain_interval_lengths_(std::move(that.domain_interval_lengths_)),
@@ -47,6 +47,11 @@ GSplineBase::GSplineBase(std::pair<double, double> _domain,
       coefficients_(_coefficents),
       domain_interval_lengths_(_tauv),
       basis_(_basis.clone()) {
+  if (domain_interval_lengths_.size() != (long)_n_intervals) {
+    throw std::invalid_argument(
+        "GSplineBase instantation Error: The number of interval lengths is "
+        "incorrect");
+  }
   if (coefficients_.size() !=
       (long)(_n_intervals * basis_->get_dim() * _codom_dim)) {
     throw std::invalid_argument(
@@ -70,6 +75,11 @@ GSplineBase::GSplineBase(std::pair<double, double> _domain,
       coefficients_(std::move(_coefficents)),
       domain_interval_lengths_(std::move(_tauv)),
       basis_(_basis.clone()) {
+  if (domain_interval_lengths_.size() != (long)_n_intervals) {
+    throw std::invalid_argument(
+        "GSplineBase instantation Error: The number of interval lengths is "
+        "incorrect");
+  }
   if (coefficients_.size() !=
       (long)(_n_intervals * basis_->get_dim() * _codom_dim)) {
     throw std::invalid_argument(
@@ -193,7 +203,7 @@ Eigen::MatrixXd GSplineBase::get_waypoints() const {
 
 bool GSplineBase::same_vector_space(const GSplineBase& _that) const {
   return get_basis() == _that.get_basis() and
-         get_codom_dim() == _that.get_codom_dim() and
+         get_codom_dim() == _that.get_codom_dim() and same_domain(_that) and
          tools::approx_equal(get_interval_lengths(),
                              _that.get_interval_lengths(), 1.0e-8);
 }
-- 
2.43.0


From ad6bc6fa9dee8126e53ed119fa49b723a08c79f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:51 +0000
Subject: [PATCH 15/33] fix: time scaling accepts a single bound

---
 include/gsplines/GSpline.hpp | 50 ++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/include/gsplines/GSpline.hpp b/include/gsplines/GSpline.hpp
index 83e43ae..e903ae7 100644
--- a/include/gsplines/GSpline.hpp
+++ b/include/gsplines/GSpline.hpp
@@ -291,8 +291,10 @@ class GSplineInheritanceHelper
     if (_dt < 1.0e-8) {
       throw std::invalid_argument("dt cannot be negative or too small");
     }
-    if (_velocity_bound.value().size() != this->get_codom_dim() ||
-        _acceleration_bound.value().size() != this->get_codom_dim()) {
+    if ((_velocity_bound.has_value() &&
+         _velocity_bound.value().size() != this->get_codom_dim()) ||
+        (_acceleration_bound.has_value() &&
+         _acceleration_bound.value().size() != this->get_codom_dim())) {
       throw std::invalid_argument(
           "Bounds for velocity and acceleration must correspont to codom dim");
     }
@@ -311,26 +313,30 @@ class GSplineInheritanceHelper
     Eigen::MatrixXd gspline_diff_1_evaluated = gspline_diff_1(time_spam);
     Eigen::MatrixXd gspline_diff_2_evaluated = gspline_diff_2(time_spam);
 
-    const Eigen::Map<const Eigen::VectorXd> velocity_bound(
-        _velocity_bound.value().data(),
-        static_cast<long>(_velocity_bound.value().size()));
-    const Eigen::Map<const Eigen::VectorXd> acceleration_bound(
-        _acceleration_bound.value().data(),
-        static_cast<long>(_acceleration_bound.value().size()));
-
-    const double max_velocity_ratio =
-        (gspline_diff_1_evaluated.array().abs().colwise().maxCoeff() /
-         velocity_bound.transpose().array())
-            .maxCoeff();
-
-    const double max_acceleration_ratio =
-        Eigen::sqrt(
-            gspline_diff_2_evaluated.array().abs().colwise().maxCoeff() /
-            acceleration_bound.transpose().array())
-            .maxCoeff();
-
-    const double time_scale_factor =
-        std::max(max_velocity_ratio, max_acceleration_ratio);
+    double time_scale_factor = 0.0;
+
+    if (_velocity_bound.has_value()) {
+      const Eigen::Map<const Eigen::VectorXd> velocity_bound(
+          _velocity_bound.value().data(),
+          static_cast<long>(_velocity_bound.value().size()));
+      const double max_velocity_ratio =
+          (gspline_diff_1_evaluated.array().abs().colwise().maxCoeff() /
+           velocity_bound.transpose().array())
+              .maxCoeff();
+      time_scale_factor = std::max(time_scale_factor, max_velocity_ratio);
+    }
+
+    if (_acceleration_bound.has_value()) {
+      const Eigen::Map<const Eigen::VectorXd> acceleration_bound(
+          _acceleration_bound.value().data(),
+          static_cast<long>(_acceleration_bound.value().size()));
+      const double max_acceleration_ratio =
+          Eigen::sqrt(
+              gspline_diff_2_evaluated.array().abs().colwise().maxCoeff() /
+              acceleration_bound.transpose().array())
+              .maxCoeff();
+      time_scale_factor = std::max(time_scale_factor, max_acceleration_ratio);
+    }
 
     Eigen::VectorXd new_domain_interva_lengths =
         Base::domain_interval_lengths_ * time_scale_factor;
-- 
2.43.0


From 429c2c9c29bbb9449ac7a11b325500f2724cc819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:03 +0000
Subject: [PATCH 16/33] fix: a random spline has the requested domain and basis

---
 src/GSpline.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index bd633a4..b98d4ee 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -241,17 +241,19 @@ GSpline random_gspline(std::pair<double, double> _domain,
   std::uniform_int_distribution<std::size_t> uint_dist(2, 10);
   const std::size_t number_of_intervals = uint_dist(mt);
 
-  const Eigen::VectorXd tau =
+  Eigen::VectorXd tau =
       2.0 + (Eigen::VectorXd::Random(static_cast<long>(number_of_intervals))
                  .array()) /
                 2.0;
+  tau *= (_domain.second - _domain.first) / tau.sum();
 
   const Eigen::MatrixXd wp =
       3 * Eigen::MatrixXd::Random(static_cast<long>(number_of_intervals) + 1,
                                   static_cast<long>(_codom_dim));
 
   const GSpline result = interpolate(tau, wp, _basis);
-  return result.linear_scaling_new_execution_time(_domain.second);
+  return GSpline(_domain, _codom_dim, number_of_intervals, _basis,
+                 result.get_coefficients(), tau);
 }
 
 }  // namespace gsplines
-- 
2.43.0


From 9125c03f49de65705694e0ab19d2ec216a83c910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:30 +0000
Subject: [PATCH 17/33] fix: collocation nodes of intervals of different
 lengths

---
 include/gsplines/Collocation/GaussLobattoLagrange.hpp | 4 ++--
 src/Collocation/GaussLobattoPointsWeights.cpp         | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrange.hpp b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
index 7212784..49b323d 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrange.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
@@ -112,8 +112,8 @@ public:
 
   std::size_t get_nglp() const { return get_basis_dim(); }
   Eigen::VectorXd get_domain_discretization() const {
-    return legendre_gauss_lobatto_points(get_domain(), get_nglp(),
-                                         get_number_of_intervals());
+    return legendre_gauss_lobatto_points(get_domain().first, get_nglp(),
+                                         get_interval_lengths());
   }
 
   GaussLobattoLagrangeSpline
diff --git a/src/Collocation/GaussLobattoPointsWeights.cpp b/src/Collocation/GaussLobattoPointsWeights.cpp
index 6cca8b7..f5ea7a1 100644
--- a/src/Collocation/GaussLobattoPointsWeights.cpp
+++ b/src/Collocation/GaussLobattoPointsWeights.cpp
@@ -190,10 +190,10 @@ legendre_gauss_lobatto_points(double _left_bound, std::size_t _nglp,
 
   for (long interval = 0; interval < _intervals.size(); interval++) {
 
-    double local_left_bound = left_bound + interval * _intervals[interval];
-
     result.segment(interval * _nglp, _nglp) =
-        (glp.array() + 1.0) * _intervals[interval] / 2.0 + local_left_bound;
+        (glp.array() + 1.0) * _intervals[interval] / 2.0 + left_bound;
+
+    left_bound += _intervals[interval];
   }
   return result;
 }
-- 
2.43.0


From 2e0e487159387c5621d498252c27a58f08d1a93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:45 +0000
Subject: [PATCH 18/33] fix: assignments to a collocation spline take over the
 lengths or leave it as it was

---
 .../Collocation/GaussLobattoLagrange.hpp      | 29 +++++++++++--------
 src/Collocation/GaussLobattoLagrange.cpp      | 21 +++++++++-----
 2 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrange.hpp b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
index 49b323d..a94747a 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrange.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
@@ -136,38 +136,43 @@ public:
                       const IteratorType &_begin, const IteratorType &_end,
                       const Function &_fun) {
 
-    set_domain(_domain);
     auto dist = std::distance(_begin, _end);
     if (dist != static_cast<decltype(dist)>(get_basis().get_dim() *
                                             get_number_of_intervals())) {
       throw std::runtime_error("wrong number of elements");
     }
-    domain_interval_lengths_ =
-        domain_interval_lengths_ *
-        (get_domain_length() / domain_interval_lengths_.array().sum());
+    // this object changes once all the values are known
+    Eigen::VectorXd new_interval_lengths =
+        domain_interval_lengths_ * ((_domain.second - _domain.first) /
+                                    domain_interval_lengths_.array().sum());
+    Eigen::VectorXd new_coefficients(coefficients_.size());
 
     for (auto it = _begin; it != _end; ++it) {
       long index = std::distance(_begin, it);
       long interval = index / get_basis().get_dim();
       decltype(auto) vec = _fun(*it);
       if (vec.cols() != 1) {
-        std::invalid_argument("This function only accept eigen row vectors");
+        throw std::invalid_argument("This function only accept column vectors");
       }
       if (vec.rows() != static_cast<long>(get_codom_dim())) {
-        std::invalid_argument(__FILE__ "Vector dimension error");
+        throw std::invalid_argument(__FILE__ "Vector dimension error");
       }
-      get_value_block(interval).row(index % get_basis().get_dim()) = vec;
+      Eigen::Map<Eigen::MatrixXd>(new_coefficients.data() +
+                                      interval * get_basis().get_dim() *
+                                          get_codom_dim(),
+                                  get_basis().get_dim(), get_codom_dim())
+          .row(index % get_basis().get_dim()) = vec.transpose();
     }
+    set_domain(_domain);
+    domain_interval_lengths_ = new_interval_lengths;
+    coefficients_ = new_coefficients;
   }
 
   template <typename IteratorType>
   void set_from_array(std::pair<double, double> _domain,
                       const IteratorType &_begin, const IteratorType &_end) {
-    set_domain(_domain);
-    set_from_array(_begin, _end,
-                   [](const Eigen::MatrixXd &_in) -> const Eigen::MatrixXd & {
-                     return _in;
-                   });
+    set_from_array(_domain, _begin, _end,
+                   [](const auto &_in) -> const auto & { return _in; });
   }
 
   bool same_discretization(const GaussLobattoLagrangeSpline &_that) const;
diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index a856c26..4096dc9 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -55,7 +55,7 @@ GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(GSpline &&_that)
 GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(
     const ::gsplines::functions::FunctionBase &_that, std::size_t _n_intervals,
     std::size_t _n_glp)
-    : GaussLobattoLagrangeSpline(approximate(_that, _n_intervals, _n_glp)) {}
+    : GaussLobattoLagrangeSpline(approximate(_that, _n_glp, _n_intervals)) {}
 
 GaussLobattoLagrangeSpline &GaussLobattoLagrangeSpline::operator=(
     const GaussLobattoLagrangeSpline &_that) & {
@@ -67,6 +67,7 @@ GaussLobattoLagrangeSpline &GaussLobattoLagrangeSpline::operator=(
 
   set_domain(_that.get_domain());
 
+  domain_interval_lengths_ = _that.domain_interval_lengths_;
   coefficients_ = _that.coefficients_;
   return *this;
 }
@@ -81,6 +82,7 @@ GaussLobattoLagrangeSpline::operator=(GaussLobattoLagrangeSpline &&_that) & {
     throw std::invalid_argument("Assigmention requires same codomain");
 
   set_domain(_that.get_domain());
+  domain_interval_lengths_ = _that.domain_interval_lengths_;
   coefficients_ = std::move(_that.coefficients_);
   return *this;
 }
@@ -93,12 +95,13 @@ GaussLobattoLagrangeSpline &GaussLobattoLagrangeSpline::operator=(
   if (not(same_codomain(_that)))
     throw std::invalid_argument("Assigmention requires same codomain");
 
-  set_domain(_that.get_domain());
-  domain_interval_lengths_ =
+  // this object changes once all the values are known
+  Eigen::VectorXd new_interval_lengths =
       domain_interval_lengths_ *
       (_that.get_domain_length() / domain_interval_lengths_.array().sum());
+  Eigen::VectorXd new_coefficients(coefficients_.size());
 
-  double left_bound = get_domain().first;
+  double left_bound = _that.get_domain().first;
   Eigen::MatrixXd local_value(get_basis().get_dim(), get_codom_dim());
 
   for (std::size_t interval = 0; interval < get_number_of_intervals();
@@ -106,18 +109,22 @@ GaussLobattoLagrangeSpline &GaussLobattoLagrangeSpline::operator=(
 
     Eigen::VectorXd local_points =
         (get_basis().get_parameters().array() + 1.0) *
-            get_interval_lengths()(interval) / 2.0 +
+            new_interval_lengths(interval) / 2.0 +
         left_bound;
 
     _that.value(local_points, local_value);
 
     std::size_t i0 = interval * get_basis().get_dim() * get_codom_dim();
 
-    coefficients_.segment(i0, get_basis().get_dim() * get_codom_dim()) =
+    new_coefficients.segment(i0, get_basis().get_dim() * get_codom_dim()) =
         Eigen::Map<Eigen::VectorXd>(local_value.data(), local_value.size());
-    left_bound += get_interval_lengths()(interval);
+    left_bound += new_interval_lengths(interval);
   }
 
+  set_domain(_that.get_domain());
+  domain_interval_lengths_ = new_interval_lengths;
+  coefficients_ = new_coefficients;
+
   return *this;
 }
 
-- 
2.43.0


From 8b9dc5b09c96bb67fbc3c58886b01ca7150a3389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:01 +0000
Subject: [PATCH 19/33] fix: collocation splines are multiplied only on the
 same nodes and built only on the collocation basis

---
 .../Collocation/GaussLobattoLagrange.hpp      |  2 ++
 src/Collocation/GaussLobattoLagrange.cpp      | 29 +++++++++++++++----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrange.hpp b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
index a94747a..a9dfc97 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrange.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
@@ -175,6 +175,8 @@ public:
                    [](const auto &_in) -> const auto & { return _in; });
   }
 
+  bool same_nodes(const GaussLobattoLagrangeSpline &_that) const;
+
   bool same_discretization(const GaussLobattoLagrangeSpline &_that) const;
 
   Eigen::VectorXd value_at(std::size_t _i) const;
diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index 4096dc9..7274472 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -46,11 +46,21 @@ GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(
     GaussLobattoLagrangeSpline &&_that)
     : GSplineInheritanceHelper(std::move(_that)) {}
 
+static const GSpline &with_gauss_lobatto_basis(const GSpline &_that) {
+  if (_that.get_basis() !=
+      ::gsplines::basis::BasisLagrangeGaussLobatto(_that.get_basis_dim())) {
+    throw std::invalid_argument("The basis of the spline must be the Lagrange "
+                                "basis at the Gauss-Lobatto points");
+  }
+  return _that;
+}
+
 GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(const GSpline &_that)
-    : GSplineInheritanceHelper(_that) {}
+    : GSplineInheritanceHelper(with_gauss_lobatto_basis(_that)) {}
 
 GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(GSpline &&_that)
-    : GSplineInheritanceHelper(std::move(_that)) {}
+    : GSplineInheritanceHelper(
+          (with_gauss_lobatto_basis(_that), std::move(_that))) {}
 
 GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(
     const ::gsplines::functions::FunctionBase &_that, std::size_t _n_intervals,
@@ -214,6 +224,13 @@ bool GaussLobattoLagrangeSpline::same_discretization(
          get_number_of_intervals() == _that.get_number_of_intervals();
 }
 
+bool GaussLobattoLagrangeSpline::same_nodes(
+    const GaussLobattoLagrangeSpline &_that) const {
+  return same_discretization(_that) and
+         tools::approx_equal(get_interval_lengths(),
+                             _that.get_interval_lengths(), 1.0e-8);
+}
+
 Eigen::VectorXd GaussLobattoLagrangeSpline::value_at(std::size_t _i) const {
   if (_i >= get_nglp() * get_number_of_intervals()) {
     throw std::invalid_argument("Cannot access");
@@ -230,7 +247,7 @@ Eigen::VectorXd GaussLobattoLagrangeSpline::value_at(std::size_t _i) const {
 GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
     const GaussLobattoLagrangeSpline &_that) const & {
 
-  if (not same_discretization(_that))
+  if (not same_nodes(_that))
     throw std::invalid_argument("Discretization must be the same");
   if (not same_domain(_that))
     throw std::invalid_argument("GSplines must have same domain");
@@ -258,7 +275,7 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
 GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
     const GaussLobattoLagrangeSpline &_that) && {
 
-  if (not same_discretization(_that))
+  if (not same_nodes(_that))
     throw std::invalid_argument("Discretization must be the same");
   if (not same_domain(_that))
     throw std::invalid_argument("GSplines must have same domain");
@@ -298,7 +315,7 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
 GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
     GaussLobattoLagrangeSpline &&_that) const & {
 
-  if (not same_discretization(_that))
+  if (not same_nodes(_that))
     throw std::invalid_argument("Discretization must be the same");
   if (not same_domain(_that))
     throw std::invalid_argument("GSplines must have same domain");
@@ -338,7 +355,7 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
 GaussLobattoLagrangeSpline
 GaussLobattoLagrangeSpline::operator*(GaussLobattoLagrangeSpline &&_that) && {
 
-  if (not same_discretization(_that))
+  if (not same_nodes(_that))
     throw std::invalid_argument("Discretization must be the same");
   if (not same_domain(_that))
     throw std::invalid_argument("GSplines must have same domain");
-- 
2.43.0


From 2add9c418a40bb7b19e6d311ad9c2818374d0e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:56 +0000
Subject: [PATCH 20/33] fix: integral over intervals of different lengths and
 its in-place updates

---
 .../GaussLobattoLagrangeFunctionals.cpp          | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
index ce09d64..7cea748 100644
--- a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
+++ b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
@@ -63,21 +63,27 @@ Integral::Integral(std::tuple<double, double> _domain, std::size_t _nglp,
       nglp_(_nglp) {}
 
 Integral::Integral(const GaussLobattoLagrangeSpline &_in)
-    : Integral(_in.get_domain(), _in.get_basis().get_dim(),
-               _in.get_number_of_intervals()) {}
+    : LinearFunctionalDense(
+          legendre_gauss_lobatto_weights(_in.get_nglp(),
+                                         _in.get_interval_lengths())
+              .transpose()),
+      nglp_(_in.get_nglp()) {}
 
 void Integral::update(std::tuple<double, double> _domain, std::size_t _nglp,
                       std::size_t _n_intervals) {
-  mat_.noalias() =
+  Eigen::MatrixXd mat =
       legendre_gauss_lobatto_weights(_domain, _nglp, _n_intervals).transpose();
+  mat_.swap(mat);
+  nglp_ = _nglp;
 }
 
 void Integral::update(const Eigen::VectorXd &_intervals) {
-  if (static_cast<long>(_intervals.size() * nglp_) != mat_.rows()) {
+  if (static_cast<long>(_intervals.size() * nglp_) != mat_.cols()) {
     throw std::invalid_argument(" Invaled size of intervals vector");
   }
-  mat_.noalias() =
+  Eigen::MatrixXd mat =
       legendre_gauss_lobatto_weights(nglp_, _intervals).transpose();
+  mat_.swap(mat);
 }
 
 // ----------------
-- 
2.43.0


From 719a3266fd3e6eadabeea7adf2811fe7bdb6f9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:01 +0000
Subject: [PATCH 21/33] fix: in-place updates of collocation operators act like
 a fresh operator or leave it as it was

---
 .../GaussLobattoLagrangeFunctionals.hpp       | 90 +++++++------------
 .../GaussLobattoLagrangeFunctionals.cpp       | 25 +++---
 2 files changed, 46 insertions(+), 69 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
index d49e899..6725e44 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
@@ -28,6 +28,9 @@ public:
   std::size_t get_codom_dim() const { return codom_dim_; }
 
   virtual ~Functional() = default;
+
+protected:
+  void set_codom_dim(std::size_t _codom_dim) { codom_dim_ = _codom_dim; }
 };
 
 class LinearFunctionalBase : public Functional {
@@ -207,7 +210,7 @@ class Derivative : public LinearFunctionalSparse {
 
 private:
   gsplines::basis::BasisLagrangeGaussLobatto basis_;
-  const std::size_t n_intervals_;
+  std::size_t n_intervals_;
   const std::size_t codom_dim_;
   const std::size_t deg_;
 
@@ -248,25 +251,7 @@ public:
         n_inter_(_that.get_number_of_intervals()),
         codom_dim_(_that.get_codom_dim()) {
 
-    std::size_t n_glp = _that.get_basis().get_dim();
-    std::size_t n_inter = _that.get_number_of_intervals();
-    std::size_t codom_dim = _that.get_codom_dim();
-
-    const Eigen::VectorXd &vec = _that.get_coefficients();
-    // ---
-    for (std::size_t uic_interval = 0; uic_interval < n_inter; uic_interval++) {
-      for (std::size_t uic_coor = 0; uic_coor < codom_dim; uic_coor++) {
-        std::size_t i0 = uic_interval * n_glp;
-        std::size_t j0 = uic_coor * n_glp + uic_interval * n_glp * codom_dim;
-
-        for (std::size_t i = 0; i < n_glp; i++) {
-
-          mat_.coeffRef(i0 + i, j0 + i) =
-              vec(uic_interval * n_glp * codom_dim + uic_coor * n_glp + i);
-        }
-      }
-    }
-    mat_.makeCompressed();
+    set_values(_that.get_coefficients());
   }
 
   TransposeLeftMultiplication &
@@ -274,34 +259,25 @@ public:
     if (_that.get_codom_dim() != codom_dim_)
       throw std::invalid_argument("");
 
-    const Eigen::VectorXd vec =
-        GaussLobattoLagrangeSpline::approximate(_that, nglp_, n_inter_)
-            .get_coefficients();
-    // ---
-    for (std::size_t uic_interval = 0; uic_interval < n_inter_;
-         uic_interval++) {
-      for (std::size_t uic_coor = 0; uic_coor < codom_dim_; uic_coor++) {
-        std::size_t i0 = uic_interval * nglp_;
-        std::size_t j0 = uic_coor * nglp_ + uic_interval * nglp_ * codom_dim_;
-
-        for (std::size_t i = 0; i < nglp_; i++) {
-
-          mat_.coeffRef(i0 + i, j0 + i) =
-              vec(uic_interval * nglp_ * codom_dim_ + uic_coor * nglp_ + i);
-        }
-      }
-    }
-    mat_.makeCompressed();
+    set_values(GaussLobattoLagrangeSpline::approximate(_that, nglp_, n_inter_)
+                   .get_coefficients());
     return *this;
   }
 
   TransposeLeftMultiplication &
   operator=(const GaussLobattoLagrangeSpline &_that) {
-    if (_that.get_codom_dim() != codom_dim_)
-      throw std::invalid_argument("");
+    if (_that.get_codom_dim() != codom_dim_ or _that.get_nglp() != nglp_ or
+        _that.get_number_of_intervals() != n_inter_)
+      throw std::invalid_argument("Discretization must be the same");
+
+    set_values(_that.get_coefficients());
+    return *this;
+  }
 
-    const Eigen::VectorXd &vec = _that.get_coefficients();
-    // ---
+private:
+  void set_values(const Eigen::VectorXd &_vec) {
+    Eigen::SparseMatrix<double> new_mat(mat_.rows(), mat_.cols());
+    new_mat.reserve(Eigen::VectorXi::Constant(mat_.cols(), 1));
     for (std::size_t uic_interval = 0; uic_interval < n_inter_;
          uic_interval++) {
       for (std::size_t uic_coor = 0; uic_coor < codom_dim_; uic_coor++) {
@@ -309,14 +285,12 @@ public:
         std::size_t j0 = uic_coor * nglp_ + uic_interval * nglp_ * codom_dim_;
 
         for (std::size_t i = 0; i < nglp_; i++) {
-
-          mat_.coeffRef(i0 + i, j0 + i) =
-              vec(uic_interval * nglp_ * codom_dim_ + uic_coor * nglp_ + i);
+          new_mat.insert(i0 + i, j0 + i) = _vec(j0 + i);
         }
       }
     }
-    mat_.makeCompressed();
-    return *this;
+    new_mat.makeCompressed();
+    mat_.swap(new_mat);
   }
 };
 class MatrixLeftMultiplication : public LinearFunctionalSparse {
@@ -363,6 +337,9 @@ public:
       throw std::runtime_error("wrong number of elements");
     }
 
+    // this object changes once all the values are known
+    Eigen::SparseMatrix<double> new_mat(mat_);
+
     for (auto it = _begin; it != _end; ++it) {
       decltype(auto) mat = _fun(*it);
       if (mat.cols() != matrix_cols_ or mat.rows() != matrix_rows_) {
@@ -379,10 +356,11 @@ public:
               col * nglp_ + interval * nglp_ * matrix_cols_ + index % nglp_;
           std::size_t i0 =
               row * nglp_ + interval * nglp_ * matrix_rows_ + index % nglp_;
-          mat_.coeffRef(i0, j0) = mat(row, col);
+          new_mat.coeffRef(i0, j0) = mat(row, col);
         }
       }
     }
+    mat_.swap(new_mat);
   }
   void update(const Eigen::MatrixXd &_mat) {
 
@@ -395,13 +373,13 @@ public:
       long interval = index / nglp_;
 
       for (long col = 0; col < matrix_cols_; col++) {
-        for (long row = 0; row < matrix_cols_; row++) {
+        for (long row = 0; row < matrix_rows_; row++) {
 
           std::size_t j0 =
               col * nglp_ + interval * nglp_ * matrix_cols_ + index % nglp_;
           std::size_t i0 =
               row * nglp_ + interval * nglp_ * matrix_rows_ + index % nglp_;
-          mat_.coeffRef(i0, j0) = _mat(col, row);
+          mat_.coeffRef(i0, j0) = _mat(row, col);
         }
       }
     }
@@ -409,9 +387,7 @@ public:
   template <typename IteratorType>
   void update(const IteratorType &_begin, const IteratorType &_end) {
     update(_begin, _end,
-           [](const Eigen::MatrixXd &_in) -> const Eigen::MatrixXd & {
-             return _in;
-           });
+           [](const auto &_in) -> const auto & { return _in; });
   }
 };
 
@@ -439,8 +415,10 @@ public:
         basis_(_nglp), codom_dim_(_codom_dim), deg_(_deg) {}
 
   void update(const Eigen::VectorXd &_interval_lengths) {
-    mat_ = basis_.continuity_matrix(_interval_lengths.size(), codom_dim_, deg_,
-                                    _interval_lengths);
+    Eigen::SparseMatrix<double, Eigen::RowMajor> mat = basis_.continuity_matrix(
+        _interval_lengths.size(), codom_dim_, deg_, _interval_lengths);
+    mat_.swap(mat);
+    set_codom_dim(mat_.rows());
   }
 };
 
@@ -465,8 +443,6 @@ private:
   Integral int_;
   Derivative der_;
 
-  std::shared_ptr<LinearFunctionalDense> diff_;
-
 public:
   SobolevDistance(const gsplines::functions::FunctionBase &_fun,
                   std::size_t _nglp, std::size_t _n_inter, std::size_t _deg);
diff --git a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
index 7cea748..d3b4b1b 100644
--- a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
+++ b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
@@ -38,18 +38,18 @@ Derivative::Derivative(const GaussLobattoLagrangeSpline &_that)
 
 void Derivative::update(const Eigen::VectorXd &_interval_lengths) {
 
-  mat_ = basis_.gspline_derivative_matrix(_interval_lengths.size(), codom_dim_,
-                                          deg_, _interval_lengths);
+  Eigen::SparseMatrix<double> mat = basis_.gspline_derivative_matrix(
+      _interval_lengths.size(), codom_dim_, deg_, _interval_lengths);
 
-  mat_.makeCompressed();
+  mat.makeCompressed();
+  mat_.swap(mat);
+  n_intervals_ = _interval_lengths.size();
+  set_codom_dim(mat_.rows());
 }
 
 void Derivative::update(double _interval_length) {
 
-  mat_ = basis_.gspline_derivative_matrix(
-      n_intervals_, codom_dim_, deg_,
-      Eigen::VectorXd::Constant(n_intervals_, _interval_length));
-  mat_.makeCompressed();
+  update(Eigen::VectorXd::Constant(n_intervals_, _interval_length));
 }
 
 // ----------------
@@ -96,9 +96,7 @@ SobolevDistance::SobolevDistance(const gsplines::functions::FunctionBase &_fun,
       approx_(GaussLobattoLagrangeSpline::approximate(_fun, _nglp, _n_inter)),
       approx_d_(GaussLobattoLagrangeSpline::approximate(_fun.derivate(), _nglp,
                                                         _n_inter)),
-      int_(approx_), der_(approx_),
-      diff_(std::make_shared<LinearFunctionalDense>(
-          1u, _nglp * _n_inter * _fun.get_codom_dim())) {}
+      int_(approx_), der_(approx_) {}
 
 Eigen::VectorXd
 SobolevDistance::operator()(const GaussLobattoLagrangeSpline &_in) const {
@@ -113,9 +111,12 @@ SobolevDistance::differential(const GaussLobattoLagrangeSpline &_in) const {
   TransposeLeftMultiplication tr1_(approx_ - _in);
   TransposeLeftMultiplication tr2_(approx_d_ - der_ * _in);
 
-  diff_->set(-2 * int_ * (tr1_ + tr2_ * der_));
+  std::shared_ptr<LinearFunctionalDense> diff =
+      std::make_shared<LinearFunctionalDense>(
+          1u, static_cast<long>(_in.get_coefficients().size()));
+  diff->set(-2 * int_ * (tr1_ + tr2_ * der_));
 
-  return diff_;
+  return diff;
 }
 
 GLLSplineVariable::GLLSplineVariable(const GaussLobattoLagrangeSpline &_in)
-- 
2.43.0


From 2d90d00de5774bf68f7e951a701a6233b0a246f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:34 +0000
Subject: [PATCH 22/33] fix: a combination of collocation operators does not
 refer to its operands

---
 .../GaussLobattoLagrangeFunctionals.hpp            | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
index 6725e44..db70bab 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
@@ -46,6 +46,14 @@ public:
   ~LinearFunctionalBase() = default;
 };
 
+template <typename T> class LinearFunctional;
+
+/// evaluates the expression, so that the result does not refer to its operands
+template <typename E> auto make_linear_functional(const E &_expression) {
+  using Matrix = typename E::PlainObject;
+  return LinearFunctional<Matrix>(Matrix(_expression));
+}
+
 template <typename T> class LinearFunctional : public LinearFunctionalBase {
   template <typename M>
   friend LinearFunctional<M> operator*(double, const LinearFunctional<M> &);
@@ -120,16 +128,16 @@ public:
 
   template <typename M>
   inline auto operator*(const LinearFunctional<M> &_rhs) const {
-    return LinearFunctional(to_matrix() * _rhs.to_matrix());
+    return make_linear_functional(to_matrix() * _rhs.to_matrix());
   }
 
   template <typename M>
   inline auto operator+(const LinearFunctional<M> &_rhs) const {
-    return LinearFunctional(to_matrix() + _rhs.to_matrix());
+    return make_linear_functional(to_matrix() + _rhs.to_matrix());
   }
   template <typename M>
   inline auto operator-(const LinearFunctional<M> &_rhs) const {
-    return LinearFunctional(to_matrix() - _rhs.to_matrix());
+    return make_linear_functional(to_matrix() - _rhs.to_matrix());
   }
 
   inline LinearFunctional<T> operator-() const {
-- 
2.43.0


From 5a779c410b61a86bfc63d180b9f02ef9f1359b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:37 +0000
Subject: [PATCH 23/33] fix: keep the space reserved for the derivative of the
 interpolating matrix

Assigning the matrix dropped the reservation, so that every entry was inserted
with a reallocation of its own and a failed reallocation lost a block.
---
 src/Interpolator.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Interpolator.cpp b/src/Interpolator.cpp
index 65a21ac..88d8109 100644
--- a/src/Interpolator.cpp
+++ b/src/Interpolator.cpp
@@ -285,10 +285,9 @@ Eigen::Ref<const Eigen::VectorXd> Interpolator::get_coeff_derivative_wrt_tau(
 
   const bool has_pattern =
       interpolation_matrix_ders_[_tau_idx].nonZeros() != 0;
-  Eigen::SparseMatrix<double> mat_buffer;
-  if (not has_pattern) {
-    mat_buffer = new_matrix();
-  }
+  // an assignment would drop the reserved space
+  Eigen::SparseMatrix<double> mat_buffer(
+      has_pattern ? Eigen::SparseMatrix<double>() : new_matrix());
   Eigen::SparseMatrix<double> &mat =
       has_pattern ? interpolation_matrix_ders_[_tau_idx] : mat_buffer;
   unsigned int i0 = 0;
-- 
2.43.0


From b68223205d66d3fa08dada2d9f66a1cc1e0f9fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:44 +0000
Subject: [PATCH 24/33] fix: LinearFunctional::set keeps the announced number
 of results in step and changes nothing when it fails

---
 .../GaussLobattoLagrangeFunctionals.hpp       | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
index db70bab..fb348c0 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
@@ -85,19 +85,19 @@ public:
 
   template <typename M> void set(LinearFunctional<M> &&_other) {
     if constexpr (std::is_same_v<T, M>) {
-      mat_ = _other.mat_;
+      assign(T(_other.mat_));
       return;
     } else if constexpr (not std::is_same_v<Eigen::MatrixXd, T> and
                          not std::is_same_v<Eigen::MatrixXd, M>) {
-      mat_ = _other.mat_;
+      assign(T(_other.mat_));
       return;
     } else if constexpr (std::is_same_v<Eigen::MatrixXd, T> and
                          not std::is_same_v<Eigen::MatrixXd, M>) {
-      mat_ = _other.mat_.toDense();
+      assign(T(_other.mat_.toDense()));
       return;
     } else if constexpr (std::is_same_v<Eigen::MatrixXd, T> and
                          not std::is_same_v<Eigen::MatrixXd, M>) {
-      mat_ = _other.mat_.toDense();
+      assign(T(_other.mat_.toDense()));
       return;
     }
     throw std::runtime_error("This part of the code is not implement. An error "
@@ -106,19 +106,19 @@ public:
 
   template <typename M> void set(const LinearFunctional<M> &_other) {
     if constexpr (std::is_same_v<T, M>) {
-      mat_ = _other.mat_;
+      assign(T(_other.mat_));
       return;
     } else if constexpr (not std::is_same_v<Eigen::MatrixXd, T> and
                          not std::is_same_v<Eigen::MatrixXd, M>) {
-      mat_ = _other.mat_;
+      assign(T(_other.mat_));
       return;
     } else if constexpr (std::is_same_v<Eigen::MatrixXd, T> and
                          not std::is_same_v<Eigen::MatrixXd, M>) {
-      mat_ = _other.mat_.toDense();
+      assign(T(_other.mat_.toDense()));
       return;
     } else if constexpr (std::is_same_v<Eigen::MatrixXd, T> and
                          not std::is_same_v<Eigen::MatrixXd, M>) {
-      mat_ = _other.mat_.toDense();
+      assign(T(_other.mat_.toDense()));
       return;
     }
 
@@ -126,6 +126,14 @@ public:
                              "on expected types: LinearFunctional");
   }
 
+private:
+  /// this object changes once the new matrix is complete
+  void assign(T &&_mat) {
+    mat_.swap(_mat);
+    set_codom_dim(mat_.rows());
+  }
+
+public:
   template <typename M>
   inline auto operator*(const LinearFunctional<M> &_rhs) const {
     return make_linear_functional(to_matrix() * _rhs.to_matrix());
-- 
2.43.0


From 1b82db7a0d4e91705dbd8cd3e9d3dc0530cecde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:17 +0000
Subject: [PATCH 25/33] fix: optimal paths refuse fewer than two waypoints

---
 src/Optimization/ipopt_solver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Optimization/ipopt_solver.cpp b/src/Optimization/ipopt_solver.cpp
index a2f55ee..8dd6512 100644
--- a/src/Optimization/ipopt_solver.cpp
+++ b/src/Optimization/ipopt_solver.cpp
@@ -10,6 +10,7 @@
 #include <ifopt/ipopt_solver.h>
 #include <iostream>
 #include <memory>
+#include <stdexcept>
 
 namespace gsplines {
 namespace optimization {
@@ -106,6 +107,9 @@ std::optional<::gsplines::GSpline> optimal_sobolev_norm(
     const gsplines::basis::Basis& _basis,
     const std::vector<std::pair<std::size_t, double>>& _weights,
     double _exec_time) {
+  if (_waypoints.rows() < 2) {
+    throw std::invalid_argument("At least two waypoints are required");
+  }
   ifopt::Problem nlp;
   std::size_t num_intervals = _waypoints.rows() - 1;
   std::size_t codom_dim = _waypoints.cols();
-- 
2.43.0


From f7bc22109310b2e9f589c586bc0d1202c768e821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:17 +0000
Subject: [PATCH 26/33] fix: an option set again with another type replaces the
 earlier value

---
 src/Optimization/ipopt_solver.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/Optimization/ipopt_solver.cpp b/src/Optimization/ipopt_solver.cpp
index 8dd6512..7399d8e 100644
--- a/src/Optimization/ipopt_solver.cpp
+++ b/src/Optimization/ipopt_solver.cpp
@@ -8,6 +8,7 @@
 #include <gsplines/Optimization/ipopt_interface.hpp>
 #include <gsplines/Optimization/ipopt_solver.hpp>
 #include <ifopt/ipopt_solver.h>
+#include <algorithm>
 #include <iostream>
 #include <memory>
 #include <stdexcept>
@@ -50,6 +51,19 @@ IpoptSolverOptions& IpoptSolverOptions::instance() {
   return instance_.value();
 }
 
+namespace {
+/// removes an option from a table of options of another type
+template <typename T>
+void forget_option(std::vector<std::pair<std::string, T>>& _table,
+                   const std::string& _option_name) {
+  _table.erase(
+      std::remove_if(
+          _table.begin(), _table.end(),
+          [&_option_name](const auto& in) { return in.first == _option_name; }),
+      _table.end());
+}
+}  // namespace
+
 void IpoptSolverOptions::set_option(const std::string& _option_name,
                                     const std::string& _option_value) {
   auto iter = std::find_if(
@@ -61,6 +75,8 @@ void IpoptSolverOptions::set_option(const std::string& _option_name,
   } else {
     iter->second = _option_value;
   }
+  forget_option(instance().int_options_, _option_name);
+  forget_option(instance().double_options_, _option_name);
 }
 
 void IpoptSolverOptions::set_option(const std::string& _option_name,
@@ -74,6 +90,8 @@ void IpoptSolverOptions::set_option(const std::string& _option_name,
   } else {
     iter->second = _option_value;
   }
+  forget_option(instance().string_options_, _option_name);
+  forget_option(instance().double_options_, _option_name);
 }
 
 void IpoptSolverOptions::set_option(const std::string& _option_name,
@@ -87,6 +105,8 @@ void IpoptSolverOptions::set_option(const std::string& _option_name,
   } else {
     iter->second = _option_value;
   }
+  forget_option(instance().string_options_, _option_name);
+  forget_option(instance().int_options_, _option_name);
 }
 void IpoptSolverOptions::set_options_on_interface(ifopt::IpoptSolver& solver) {
   for (const auto& p : instance().string_options_) {
-- 
2.43.0


From 0db720077949cb54133e983f61874f1928cca69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:22 +0000
Subject: [PATCH 27/33] fix: the table of solver options is initialised once
 also when several threads ask for it first

---
 include/gsplines/Optimization/ipopt_solver.hpp | 1 -
 src/Optimization/ipopt_solver.cpp              | 8 ++------
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/gsplines/Optimization/ipopt_solver.hpp b/include/gsplines/Optimization/ipopt_solver.hpp
index 4299a73..0aefbee 100644
--- a/include/gsplines/Optimization/ipopt_solver.hpp
+++ b/include/gsplines/Optimization/ipopt_solver.hpp
@@ -18,7 +18,6 @@ namespace optimization {
 
 class IpoptSolverOptions {
  private:
-  static std::optional<IpoptSolverOptions> instance_;
   IpoptSolverOptions();
 
   std::vector<std::pair<std::string, std::string>> string_options_ = {
diff --git a/src/Optimization/ipopt_solver.cpp b/src/Optimization/ipopt_solver.cpp
index 7399d8e..ae50892 100644
--- a/src/Optimization/ipopt_solver.cpp
+++ b/src/Optimization/ipopt_solver.cpp
@@ -40,15 +40,11 @@ enum class IpoptReturnStatus : int {
   Internal_Error = -199
 };
 
-std::optional<IpoptSolverOptions> IpoptSolverOptions::instance_ = std::nullopt;
-
 IpoptSolverOptions::IpoptSolverOptions() = default;
 
 IpoptSolverOptions& IpoptSolverOptions::instance() {
-  if (!instance_.has_value()) {
-    instance_ = IpoptSolverOptions();
-  }
-  return instance_.value();
+  static IpoptSolverOptions instance;
+  return instance;
 }
 
 namespace {
-- 
2.43.0


From bbd9598955730c6305571eab813d86342476438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:13 +0000
Subject: [PATCH 28/33] fix: build ContinuityError without writing into the
 shared spline's basis

---
 .../gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
index fb348c0..fa56327 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
@@ -417,7 +417,7 @@ private:
 
 public:
   ContinuityError(const GaussLobattoLagrangeSpline &_that, std::size_t _deg)
-      : LinearFunctional(_that.get_basis().continuity_matrix(
+      : LinearFunctional(_that.get_basis().clone()->continuity_matrix(
             _that.get_number_of_intervals(), _that.get_codom_dim(), _deg,
             _that.get_interval_lengths())),
         basis_(_that.get_nglp()), codom_dim_(_that.get_codom_dim()),
-- 
2.43.0


From 584ccac31f32d6c86b1572c1fd7d81466f72deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:13 +0000
Subject: [PATCH 29/33] fix: python interpolator results own their memory

---
 bindings/bindings.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bindings/bindings.cpp b/bindings/bindings.cpp
index 2ddffab..00f0c17 100644
--- a/bindings/bindings.cpp
+++ b/bindings/bindings.cpp
@@ -348,11 +348,13 @@ PYBIND11_MODULE(pygsplines, gsplines_module) {
       .def(py::init<std::size_t, std::size_t, gsplines::basis::Basis&>())
       .def("interpolate", &gsplines::PyInterpolator::py_interpolate)
       .def("solve_interpolation",
-           &gsplines::PyInterpolator::py_solve_interpolation)
+           &gsplines::PyInterpolator::py_solve_interpolation,
+           py::return_value_policy::copy)
       .def("print_interpolating_matrix",
            &gsplines::PyInterpolator::print_interpolating_matrix)
       .def("get_coeff_derivative_wrt_tau",
-           &gsplines::PyInterpolator::get_coeff_derivative_wrt_tau)
+           &gsplines::PyInterpolator::get_coeff_derivative_wrt_tau,
+           py::return_value_policy::copy)
       .def("print_interpolating_vector",
            &gsplines::PyInterpolator::print_interpolating_vector);
 
-- 
2.43.0


From 764b6d60886759f01ca47cf13f5774e7ed2be703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:13 +0000
Subject: [PATCH 30/33] fix: refuse damaged spline records in the python
 deserializer

---
 python/gsplines/serialization.py | 42 +++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/python/gsplines/serialization.py b/python/gsplines/serialization.py
index b077a84..5149e06 100644
--- a/python/gsplines/serialization.py
+++ b/python/gsplines/serialization.py
@@ -1,9 +1,24 @@
 
 import gsplines
+from numbers import Real
 from typing import Dict
 from typing import List
 
 
+def _check_types(_dict: Dict, _required_keys: Dict) -> None:
+    for key, expected_type in _required_keys.items():
+        value = _dict.get(key)
+        # bool is a subclass of int
+        if isinstance(value, bool) or not isinstance(value, expected_type):
+            raise TypeError(
+                f"Incorrect type for key '{key}'. Expected {expected_type.__name__}, got {type(value).__name__}")
+        if expected_type is List and any(
+                isinstance(el, bool) or not isinstance(el, Real)
+                for el in value):
+            raise TypeError(
+                f"Incorrect type for key '{key}'. Expected a list of numbers")
+
+
 def basis_to_dict(_basis: gsplines.basis.Basis) -> Dict:
     result = {}
     result['name'] = _basis.get_name()
@@ -14,12 +29,16 @@ def basis_to_dict(_basis: gsplines.basis.Basis) -> Dict:
 
 def dict_to_basis(_dict: Dict) -> gsplines.basis.Basis:
     required_keys = {'name': str, 'dim': int, 'parameters': List}
-    for key, expected_type in required_keys.items():
-        if not isinstance(_dict.get(key), expected_type):
-            raise TypeError(
-                f"Incorrect type for key '{key}'. Expected {expected_type.__name__}, got {type(_dict.get(key)).__name__}")
-    return gsplines.basis.get_basis(
+    _check_types(_dict, required_keys)
+    if _dict['dim'] < 1:
+        raise ValueError("The dimension of a basis must be positive")
+    basis = gsplines.basis.get_basis(
         _dict['name'], _dict['dim'], _dict['parameters'])
+    if basis.get_dim() != _dict['dim'] or \
+            len(basis.get_parameters()) != len(_dict['parameters']):
+        raise ValueError(
+            f"The dimension and the parameters of the basis '{_dict['name']}' do not agree")
+    return basis
 
 
 def gspline_to_dict(_gspline: gsplines.GSpline) -> Dict:
@@ -47,10 +66,7 @@ def dict_to_gspline(_dict: Dict) -> gsplines.GSpline:
                      'basis': Dict,
                      'coefficients': List,
                      'interval_lengths': List}
-    for key, expected_type in required_keys.items():
-        if not isinstance(_dict.get(key), expected_type):
-            raise TypeError(
-                f"Incorrect type for key '{key}'. Expected {expected_type.__name__}, got {type(_dict.get(key)).__name__}")
+    _check_types(_dict, required_keys)
 
     domain = (_dict['domain_left_boundary'], _dict['domain_right_boundary'])
     codom_dim = _dict['codom_dim']
@@ -59,5 +75,13 @@ def dict_to_gspline(_dict: Dict) -> gsplines.GSpline:
     coefficients = _dict['coefficients']
     interval_lengths = _dict['interval_lengths']
 
+    if codom_dim < 1 or number_of_intervals < 1:
+        raise ValueError(
+            "The dimension and the number of intervals must be positive")
+    domain_length = domain[1] - domain[0]
+    if not abs(sum(interval_lengths) - domain_length) <= \
+            1.0e-6 * max(1.0, abs(domain_length)):
+        raise ValueError("The interval lengths do not cover the domain")
+
     return gsplines.GSpline(domain, codom_dim, number_of_intervals,
                             basis, coefficients, interval_lengths, "gspline")
-- 
2.43.0


From e8076ad35b861a8c38f00938b88bfcd84bb17183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:15 +0000
Subject: [PATCH 31/33] fix: refuse a spline record whose domain is not finite

---
 python/gsplines/serialization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/gsplines/serialization.py b/python/gsplines/serialization.py
index 5149e06..9d6e660 100644
--- a/python/gsplines/serialization.py
+++ b/python/gsplines/serialization.py
@@ -1,4 +1,6 @@
 
+import math
+
 import gsplines
 from numbers import Real
 from typing import Dict
@@ -79,8 +81,9 @@ def dict_to_gspline(_dict: Dict) -> gsplines.GSpline:
         raise ValueError(
             "The dimension and the number of intervals must be positive")
     domain_length = domain[1] - domain[0]
-    if not abs(sum(interval_lengths) - domain_length) <= \
-            1.0e-6 * max(1.0, abs(domain_length)):
+    if not (math.isfinite(domain_length) and
+            abs(sum(interval_lengths) - domain_length) <=
+            1.0e-6 * max(1.0, abs(domain_length))):
         raise ValueError("The interval lengths do not cover the domain")
 
     return gsplines.GSpline(domain, codom_dim, number_of_intervals,
-- 
2.43.0


From f093326047e65dedb0679bb186ffd7336c31aaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:36 +0000
Subject: [PATCH 32/33] fix: refuse a spline record with an empty or inverted
 domain or interval

---
 python/gsplines/serialization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/gsplines/serialization.py b/python/gsplines/serialization.py
index 9d6e660..c74fe7f 100644
--- a/python/gsplines/serialization.py
+++ b/python/gsplines/serialization.py
@@ -80,8 +80,10 @@ def dict_to_gspline(_dict: Dict) -> gsplines.GSpline:
     if codom_dim < 1 or number_of_intervals < 1:
         raise ValueError(
             "The dimension and the number of intervals must be positive")
+    if not all(length > 0 for length in interval_lengths):
+        raise ValueError("The interval lengths must be positive")
     domain_length = domain[1] - domain[0]
-    if not (math.isfinite(domain_length) and
+    if not (math.isfinite(domain_length) and domain_length > 0 and
             abs(sum(interval_lengths) - domain_length) <=
             1.0e-6 * max(1.0, abs(domain_length))):
         raise ValueError("The interval lengths do not cover the domain")
-- 
2.43.0


From 2785533f69e5bb6f6333eab28f049f9af49d56cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:50 +0000
Subject: [PATCH 33/33] fix: refuse an inverted function domain with an
 exception instead of terminating

---
 src/Functions/FunctionBase.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Functions/FunctionBase.cpp b/src/Functions/FunctionBase.cpp
index 2f3b5dc..813515b 100644
--- a/src/Functions/FunctionBase.cpp
+++ b/src/Functions/FunctionBase.cpp
@@ -14,7 +14,9 @@ FunctionBase::FunctionBase(std::pair<double, double> _domain,
                            std::size_t _codom_dim, const std::string &_name)
     : codom_dim_(_codom_dim), window_(_domain), domain_(_domain), name_(_name) {
 
-  assert(_domain.first <= _domain.second);
+  if (not(_domain.first <= _domain.second)) {
+    throw std::invalid_argument("The domain of a function cannot be inverted");
+  }
 }
 
 FunctionBase::FunctionBase(const FunctionBase &that)
-- 
2.43.0

