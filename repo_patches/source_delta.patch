From 0507c4bb16e52d9ff3da596292b86b86ef531330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:04 +0000
Subject: [PATCH 01/33] fix: variable_index_out_of_bounds_exception::what()
 returned a dangling pointer

---
 viennamath/exception.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/viennamath/exception.hpp b/viennamath/exception.hpp
index e5ce131..6d4bd7b 100644
--- a/viennamath/exception.hpp
+++ b/viennamath/exception.hpp
@@ -122,19 +122,22 @@ namespace viennamath
    */
   class variable_index_out_of_bounds_exception : public std::exception
   {
-    const char * what() const throw()
-    {
-      std::stringstream ss;
-      ss << "Encountered an variable<> type with id larger or equal to the size of the supplied vector of values. id=" << id_ << ", vector_size=" << vector_size_ << std::endl;
-      return ss.str().c_str();
-    }
+    const char * what() const throw() { return message_.c_str(); }
 
     public:
-      variable_index_out_of_bounds_exception(long id, long vector_size) : id_(id), vector_size_(vector_size) {}
+      variable_index_out_of_bounds_exception(long id, long vector_size) : id_(id), vector_size_(vector_size)
+      {
+        std::stringstream ss;
+        ss << "Encountered an variable<> type with id larger or equal to the size of the supplied vector of values. id=" << id_ << ", vector_size=" << vector_size_ << std::endl;
+        message_ = ss.str();
+      }
+
+      virtual ~variable_index_out_of_bounds_exception() throw () {}
 
     private:
       long id_;
       long vector_size_;
+      std::string message_;
   };
 
 
-- 
2.43.0


From 2169de4381f20d17583c75ca67bd905e7efd8d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:04 +0000
Subject: [PATCH 02/33] fix: deep_equal of expression vectors of different size

---
 viennamath/runtime/vector_expr.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viennamath/runtime/vector_expr.hpp b/viennamath/runtime/vector_expr.hpp
index b3bd26d..81830f7 100644
--- a/viennamath/runtime/vector_expr.hpp
+++ b/viennamath/runtime/vector_expr.hpp
@@ -139,6 +139,9 @@ namespace viennamath
         if (dynamic_cast< const self_type * >(other) != NULL)
         {
           const self_type * temp = dynamic_cast< const self_type * >(other);
+          if (temp->size() != BaseType::size())
+            return false;
+
           bool is_equal = true;
 
           for (std::size_t i=0; i<temp->size(); ++i)
-- 
2.43.0


From c73dff179ce7929be4960f27a89579253dcff0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:04 +0000
Subject: [PATCH 03/33] fix: integrals over different domains compared equal

---
 viennamath/runtime/integral.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/viennamath/runtime/integral.hpp b/viennamath/runtime/integral.hpp
index 6f1e71f..8efd41e 100644
--- a/viennamath/runtime/integral.hpp
+++ b/viennamath/runtime/integral.hpp
@@ -141,6 +141,16 @@ namespace viennamath
                                  );
   }
 
+  //needed for comparison of unary expressions:
+  /** @brief Compares two integral operations for equality with respect to the integration interval and the integration variable */
+  template <typename InterfaceType>
+  bool unary_op_equal(op_rt_integral<InterfaceType> const & lhs, op_rt_integral<InterfaceType> const & rhs)
+  {
+    return lhs.variable().id() == rhs.variable().id()
+           && lhs.interval().lower().get()->deep_equal(rhs.interval().lower().get())
+           && lhs.interval().upper().get()->deep_equal(rhs.interval().upper().get());
+  }
+
 
   //
   // Part 2: Symbolic integrals
@@ -185,6 +195,14 @@ namespace viennamath
       viennamath::rt_symbolic_interval<InterfaceType> interval_;
   };
 
+  //needed for comparison of unary expressions:
+  /** @brief Compares two symbolic integral operations for equality with respect to the symbolic interval */
+  template <typename InterfaceType>
+  bool unary_op_equal(op_rt_symbolic_integral<InterfaceType> const & lhs, op_rt_symbolic_integral<InterfaceType> const & rhs)
+  {
+    return lhs.interval().id() == rhs.interval().id();
+  }
+
 
   //
   // Convenience functions with symbolic integrals
-- 
2.43.0


From ca08e1ce7faa020ea8232970f9c938f7f27330f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:04 +0000
Subject: [PATCH 04/33] fix: numerical quadrature of a symbolic integral
 dereferenced a null pointer

---
 viennamath/runtime/numerical_quadrature.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/viennamath/runtime/numerical_quadrature.hpp b/viennamath/runtime/numerical_quadrature.hpp
index b04694d..01d1d50 100644
--- a/viennamath/runtime/numerical_quadrature.hpp
+++ b/viennamath/runtime/numerical_quadrature.hpp
@@ -152,9 +152,7 @@ namespace viennamath
 
             if (op_symb_tmp != NULL)
             {
-              return quadrature_rule_->eval(op_tmp->op().interval(),
-                                            rt_expr<InterfaceType>(integral_expression->lhs()->clone()),
-                                            op_tmp->op().variable());
+              throw symbolic_integral_evaluation_not_possible_exception();
             }
 
             //std::cerr << "ERROR: No integral encountered in numerical quadrature!" << std::endl;
-- 
2.43.0


From 6d4c64d57fbc2f670e4953e394ae07296fb90b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:04 +0000
Subject: [PATCH 05/33] fix: assigning a ct_variable to an rt_expr did not
 compile

---
 viennamath/runtime/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/expr.hpp b/viennamath/runtime/expr.hpp
index f2d767e..0b7998d 100644
--- a/viennamath/runtime/expr.hpp
+++ b/viennamath/runtime/expr.hpp
@@ -161,7 +161,7 @@ namespace viennamath
       template <id_type id>
       rt_expr & operator=(ct_variable<id> const &)
       {
-        rt_expr_ = std::auto_ptr<InterfaceType>(new rt_constant<InterfaceType>(id));
+        rt_expr_ = std::auto_ptr<InterfaceType>(new rt_variable<InterfaceType>(id));
         return *this;
       }
 
-- 
2.43.0


From bea6069f1e8e5e076dfe2838e0b2e14d919c2aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:04 +0000
Subject: [PATCH 06/33] fix: rt_interval::operator= returned nothing

---
 viennamath/runtime/interval.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennamath/runtime/interval.hpp b/viennamath/runtime/interval.hpp
index 2f1b5d2..c8095be 100644
--- a/viennamath/runtime/interval.hpp
+++ b/viennamath/runtime/interval.hpp
@@ -56,7 +56,8 @@ namespace viennamath
       {
         lower_ = other.lower().get()->clone();
         upper_ = other.upper().get()->clone();
-      };
+        return *this;
+      }
 
     private:
       rt_expr<InterfaceType> lower_;
-- 
2.43.0


From 9e7d5338239998c6342985213a4912a4c9b37e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:04 +0000
Subject: [PATCH 07/33] fix: substituting a symbolic interval replaced
 integrals over other symbolic intervals

---
 viennamath/manipulation/substitute.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/viennamath/manipulation/substitute.hpp b/viennamath/manipulation/substitute.hpp
index ab80b62..9912a1d 100644
--- a/viennamath/manipulation/substitute.hpp
+++ b/viennamath/manipulation/substitute.hpp
@@ -296,7 +296,8 @@ namespace viennamath
     class integral_substitution_functor : public viennamath::rt_manipulation_interface<InterfaceType>
     {
       public:
-        integral_substitution_functor(op_unary<op_rt_integral<InterfaceType>, InterfaceType> const * ptr) : ptr_(ptr) {}
+        integral_substitution_functor(rt_symbolic_interval<InterfaceType> const & search,
+                                      op_unary<op_rt_integral<InterfaceType>, InterfaceType> const * ptr) : search_(search), ptr_(ptr) {}
 
 
         InterfaceType * operator()(InterfaceType const * e) const
@@ -307,10 +308,13 @@ namespace viennamath
             typedef op_unary<op_rt_symbolic_integral<InterfaceType>, InterfaceType> const *  OpPtrType;
 
             OpPtrType op_ptr = dynamic_cast< OpPtrType >(ex_ptr->op());
-            if (op_ptr != NULL)
+            if (op_ptr != NULL && op_ptr->op().interval().id() == search_.id())
             {
               //std::cout << "Modifies!" << std::endl;
-              return new viennamath::rt_unary_expr<InterfaceType>(ex_ptr->lhs()->clone(), ptr_->clone());
+              //the integrand may contain further integrals over the same interval:
+              typedef op_unary<op_rt_integral<InterfaceType>, InterfaceType>   IntegralOpType;
+              viennamath::rt_manipulation_wrapper<InterfaceType> fun( new integral_substitution_functor(search_, new IntegralOpType(ptr_->op())) );
+              return new viennamath::rt_unary_expr<InterfaceType>(ex_ptr->lhs()->recursive_manipulation(fun), ptr_->clone());
             }
           }
 
@@ -327,7 +331,7 @@ namespace viennamath
             typedef op_unary<op_rt_symbolic_integral<InterfaceType>, InterfaceType> const *  OpPtrType;
 
             OpPtrType op_ptr = dynamic_cast< OpPtrType >(ex_ptr->op());
-            if (op_ptr != NULL)
+            if (op_ptr != NULL && op_ptr->op().interval().id() == search_.id())
             {
               //std::cout << "FOUND!" << std::endl;
               return true;
@@ -337,6 +341,7 @@ namespace viennamath
         }
 
       private:
+        rt_symbolic_interval<InterfaceType> search_;
         std::auto_ptr<const op_unary<op_rt_integral<InterfaceType>, InterfaceType> > ptr_;
     };
   } //namespace detail
@@ -348,13 +353,13 @@ namespace viennamath
    * @param e          The expression on which the substitution is carried out
    */
   template <typename InterfaceType, typename PairType>
-  rt_expr<InterfaceType> substitute(rt_symbolic_interval<InterfaceType> const & /*search*/,
+  rt_expr<InterfaceType> substitute(rt_symbolic_interval<InterfaceType> const & search,
                                     PairType const & repl,
                                     rt_expr<InterfaceType> const & e)
   {
     typedef op_rt_integral<InterfaceType>    OperatorT;
 
-    viennamath::rt_manipulation_wrapper<> fun( new detail::integral_substitution_functor<InterfaceType>(new op_unary<OperatorT>(OperatorT(repl.first, repl.second))) );
+    viennamath::rt_manipulation_wrapper<> fun( new detail::integral_substitution_functor<InterfaceType>(search, new op_unary<OperatorT>(OperatorT(repl.first, repl.second))) );
 
     rt_expr<InterfaceType> temp(e.get()->recursive_manipulation(fun));
 
-- 
2.43.0


From c49cb76e457bd69f15084fb41c5f9c012825fbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:05 +0000
Subject: [PATCH 08/33] fix: assigning an rt_unary_expr did not compile

---
 viennamath/runtime/unary_expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index d861e4d..2576b3a 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -93,7 +93,7 @@ namespace viennamath
 
       rt_unary_expr & operator=(rt_unary_expr const & other)
       {
-        expr_ = std::auto_ptr<InterfaceType>(other.lhs_->clone());
+        expr_ = std::auto_ptr<InterfaceType>(other.expr_->clone());
         op_  = std::auto_ptr<op_interface_type>(other.op_->clone());
         return *this;
       }
-- 
2.43.0


From 2cd62be2011eb5769ae92678f12d324193f30c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:05 +0000
Subject: [PATCH 09/33] fix: assigning an empty rt_expr dereferenced a null
 pointer

---
 viennamath/runtime/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/expr.hpp b/viennamath/runtime/expr.hpp
index 0b7998d..57e601d 100644
--- a/viennamath/runtime/expr.hpp
+++ b/viennamath/runtime/expr.hpp
@@ -128,7 +128,7 @@ namespace viennamath
 
       rt_expr & operator=(rt_expr const & other)
       {
-        rt_expr_ = std::auto_ptr<InterfaceType>(other.get()->clone());
+        rt_expr_ = std::auto_ptr<InterfaceType>(other.get() != NULL ? other.get()->clone() : NULL);
         return *this;
       }
 
-- 
2.43.0


From 0852e8afb64ef65f498c86c450b29f619bd0f338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:05 +0000
Subject: [PATCH 10/33] fix: assigning a ct_binary_expr to an rt_binary_expr
 did not compile or lost the operation

---
 viennamath/runtime/binary_expr.hpp | 36 +-----------------------------
 1 file changed, 1 insertion(+), 35 deletions(-)

diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index 6a8bd51..50cc121 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -160,43 +160,9 @@ namespace viennamath
       template <typename LHS, typename OP, typename RHS>
       rt_binary_expr & operator=(ct_binary_expr<LHS, OP, RHS> const & other)
       {
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
-        op_ = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
-        return *this;
-      }
-
-      template <typename LHS, typename OP, long value>
-      rt_binary_expr & operator=(ct_binary_expr<LHS, OP, ct_constant<value> > const & other)
-      {
-        //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
-        op_ = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
-        return *this;
+        return *this = rt_binary_expr(other);
       }
 
-      template <long value, typename OP, typename RHS>
-      rt_binary_expr & operator=(ct_binary_expr<ct_constant<value>, OP, RHS > const & other)
-      {
-        //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
-        op_ = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
-        return *this;
-      }
-
-      template <long value1, typename OP, long value2>
-      rt_binary_expr & operator=(ct_binary_expr<ct_constant<value1>, OP, ct_constant<value2> > const &)
-      {
-        //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(OP().apply(value1, value2)));
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(OP().apply(value1, value2)));
-        return *this;
-      }
-
-
       rt_binary_expr & operator=(rt_binary_expr const & other)
       {
         lhs_ = std::auto_ptr<InterfaceType>(other.lhs()->clone());
-- 
2.43.0


From 898bcfaeffaf62a38df8d5051b80a9b5207dccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:05 +0000
Subject: [PATCH 11/33] fix: assigning a part of a unary or binary expression
 to the whole read released memory

---
 viennamath/runtime/binary_expr.hpp | 10 +++++++---
 viennamath/runtime/unary_expr.hpp  |  7 +++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index 50cc121..5070f70 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -165,9 +165,13 @@ namespace viennamath
 
       rt_binary_expr & operator=(rt_binary_expr const & other)
       {
-        lhs_ = std::auto_ptr<InterfaceType>(other.lhs()->clone());
-        op_  = std::auto_ptr<op_interface_type>(other.op()->clone());
-        rhs_ = std::auto_ptr<InterfaceType>(other.rhs()->clone());
+        // other may be part of this expression, hence copy everything before releasing anything:
+        std::auto_ptr<InterfaceType>     new_lhs(other.lhs()->clone());
+        std::auto_ptr<op_interface_type> new_op(other.op()->clone());
+        std::auto_ptr<InterfaceType>     new_rhs(other.rhs()->clone());
+        lhs_ = new_lhs;
+        op_  = new_op;
+        rhs_ = new_rhs;
         return *this;
       }
 
diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index 2576b3a..5d5d35c 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -93,8 +93,11 @@ namespace viennamath
 
       rt_unary_expr & operator=(rt_unary_expr const & other)
       {
-        expr_ = std::auto_ptr<InterfaceType>(other.expr_->clone());
-        op_  = std::auto_ptr<op_interface_type>(other.op_->clone());
+        // other may be part of this expression, hence copy everything before releasing anything:
+        std::auto_ptr<InterfaceType>     new_expr(other.expr_->clone());
+        std::auto_ptr<op_interface_type> new_op(other.op_->clone());
+        expr_ = new_expr;
+        op_   = new_op;
         return *this;
       }
 
-- 
2.43.0


From 321b911e61248a19e4ae372119586e9869595f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:52 +0000
Subject: [PATCH 12/33] fix: a constant assigned to an rt_binary_expr could not
 be evaluated

---
 viennamath/runtime/binary_expr.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index 5070f70..6dd03d6 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -178,9 +178,10 @@ namespace viennamath
       template <typename ScalarType>
       rt_binary_expr & operator=(rt_constant<ScalarType> const & other)
       {
+        // a constant c is represented as c + 0, because a binary expression cannot evaluate a unary operation
         lhs_ = std::auto_ptr<InterfaceType>(other.clone());
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(other.clone());
+        op_  = std::auto_ptr<op_interface_type>(new op_binary<op_plus<numeric_type>, InterfaceType>());
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(0));
         return *this;
       }
 
@@ -193,8 +194,8 @@ namespace viennamath
       rt_binary_expr & operator=(numeric_type value)
       {
         lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
+        op_  = std::auto_ptr<op_interface_type>(new op_binary<op_plus<numeric_type>, InterfaceType>());
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(0));
         return *this;
       }
 
-- 
2.43.0


From cafd2cde90e40323bf0aa77022fa8d219f7813ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:26 +0000
Subject: [PATCH 13/33] fix: compile-time integration treated every variable as
 the integration variable

---
 viennamath/manipulation/integrate.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/viennamath/manipulation/integrate.hpp b/viennamath/manipulation/integrate.hpp
index 0828d82..253615c 100644
--- a/viennamath/manipulation/integrate.hpp
+++ b/viennamath/manipulation/integrate.hpp
@@ -294,6 +294,7 @@ namespace viennamath
         typedef typename ct_function_symbol<TAG>::ERROR_INTEGRATION_OF_FUNCTION_SYMBOL_NOT_SUPPORTED    type;
       };
 
+      // a variable other than the integration variable is a parameter:
       template <typename LowerBound, typename UpperBound,
                 id_type id,
                 typename VariableType>
@@ -301,6 +302,27 @@ namespace viennamath
                             ct_variable<id>,
                             VariableType
                             >
+      {
+        typedef ct_binary_expr<UpperBound,
+                              op_minus<default_numeric_type>,
+                              LowerBound
+                              >                    interval_length;
+
+        typedef ct_binary_expr< ct_variable<id>,
+                                op_mult<default_numeric_type>,
+                                interval_length
+                              >    integrated_type;
+
+        typedef typename viennamath::result_of::simplify<integrated_type>::type   type;
+      };
+
+      // the integration variable itself:
+      template <typename LowerBound, typename UpperBound,
+                id_type id>
+      struct integrate_impl <LowerBound, UpperBound,
+                            ct_variable<id>,
+                            ct_variable<id>
+                            >
       {
         typedef ct_binary_expr< ct_binary_expr<UpperBound,
                                               op_mult<default_numeric_type>,
-- 
2.43.0


From e601ea59857f8eb147cb203f216e71f8ae18976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:36 +0000
Subject: [PATCH 14/33] fix: compile-time expressions could not be evaluated at
 a number

---
 viennamath/compiletime/ct_variable.hpp |  8 ++++++++
 viennamath/manipulation/eval.hpp       | 14 ++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/viennamath/compiletime/ct_variable.hpp b/viennamath/compiletime/ct_variable.hpp
index 728bd03..eb15b39 100644
--- a/viennamath/compiletime/ct_variable.hpp
+++ b/viennamath/compiletime/ct_variable.hpp
@@ -189,6 +189,14 @@ namespace viennamath
       return value;
     }
 
+    numeric_type operator()(numeric_type v) const
+    {
+      if (id > 0)
+        throw variable_index_out_of_bounds_exception(id, 0);
+
+      return v;
+    }
+
     //Vector argument (can be of type std::vector)
     template <typename VectorType>
     typename variable_traits<VectorType, id>::return_type
diff --git a/viennamath/manipulation/eval.hpp b/viennamath/manipulation/eval.hpp
index 12cd769..d081e01 100644
--- a/viennamath/manipulation/eval.hpp
+++ b/viennamath/manipulation/eval.hpp
@@ -289,6 +289,20 @@ namespace viennamath
     return v[id];
   }
 
+  /** @brief Evaluation of a ViennaMath compiletime variable at a number */
+  template <id_type id>
+  default_numeric_type eval(ct_variable<id> c, default_numeric_type v)
+  {
+    return c(v);
+  }
+
+  /** @brief Evaluation of a ViennaMath compiletime variable at a compiletime constant */
+  template <id_type id, long value>
+  default_numeric_type eval(ct_variable<id> c, ct_constant<value> const & v)
+  {
+    return c(v);
+  }
+
   /** @brief Evaluation of a ViennaMath compiletime variable using a compiletime vector with one entry */
   template <id_type id, typename T0>
   default_numeric_type eval(ct_variable<id>, ct_vector_1<T0> const & v)
-- 
2.43.0


From a4eeac2cc22c66f561ec2aea6f226c3faf29410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:07 +0000
Subject: [PATCH 15/33] fix: simplify() of a compile-time expression was
 ambiguous

---
 viennamath/manipulation/simplify.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 343b618..431c2c5 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -962,7 +962,8 @@ namespace viennamath
 
   /** @brief Returns a new, simplified expression. */
   template <typename T>
-  T simplify(T const & e)
+  typename enable_if<!result_of::is_compiletime<T>::value, T>::type
+  simplify(T const & e)
   {
     //do nothing, since primitive types cannot be simplified
     return e;
-- 
2.43.0


From b2313634ac087cd8e830a3386274beda74506084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:00 +0000
Subject: [PATCH 16/33] fix: compile-time simplification of many expressions
 with constants was ambiguous

---
 viennamath/manipulation/simplify.hpp | 290 +++++++++++++++++++++++++++
 1 file changed, 290 insertions(+)

diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 431c2c5..bb26b3b 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -777,6 +777,296 @@ namespace viennamath
         typedef ct_constant<-value_1>            type;
       };
 
+      //////// Resolve ambiguities: a fraction and zero or one:
+
+      template <long numerator, long denominator, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator>, op_div<NumericT>, ct_constant<denominator> >,
+                                          op_plus<NumericT>,
+                                          ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<numerator>, op_div<NumericT>, ct_constant<denominator> >                   type;
+      };
+
+      template <long numerator, long denominator, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+                                          op_plus<NumericT>,
+                                          ct_binary_expr<ct_constant<numerator>, op_div<NumericT>, ct_constant<denominator> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<numerator>, op_div<NumericT>, ct_constant<denominator> >                   type;
+      };
+
+      template <long numerator, long denominator, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator>, op_div<NumericT>, ct_constant<denominator> >,
+                                          op_mult<NumericT>,
+                                          ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>                   type;
+      };
+
+      template <long numerator, long denominator, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<numerator>, op_div<NumericT>, ct_constant<denominator> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>                   type;
+      };
+
+      template <long numerator, long denominator, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator>, op_div<NumericT>, ct_constant<denominator> >,
+                                          op_mult<NumericT>,
+                                          ct_constant<1>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<numerator>, op_div<NumericT>, ct_constant<denominator> >                   type;
+      };
+
+      template <long numerator, long denominator, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_constant<1>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<numerator>, op_div<NumericT>, ct_constant<denominator> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<numerator>, op_div<NumericT>, ct_constant<denominator> >                   type;
+      };
+
+      template <long numerator, long denominator, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator>, op_div<NumericT>, ct_constant<denominator> >,
+                                          op_div<NumericT>,
+                                          ct_constant<1>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<numerator>, op_div<NumericT>, ct_constant<denominator> >                   type;
+      };
+
+      template <long numerator, long denominator, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+                                          op_div<NumericT>,
+                                          ct_binary_expr<ct_constant<numerator>, op_div<NumericT>, ct_constant<denominator> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>                   type;
+      };
+
+      template <long value_1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
+                                          op_minus<NumericT>,
+                                          ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<value_1>                   type;
+      };
+
+      template <typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+                                          op_div<NumericT>,
+                                          ct_constant<-1>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>                   type;
+      };
+
+      //////// Resolve ambiguities: a negated or inverted expression and zero or one:
+
+      template <typename RHS1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS1 >,
+                                          op_minus<NumericT>,
+                                          ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS1 >                   type;
+      };
+
+      template <typename RHS1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS1 >,
+                                          op_plus<NumericT>,
+                                          ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS1 >                   type;
+      };
+
+      template <typename RHS1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+                                          op_plus<NumericT>,
+                                          ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS1 >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS1 >                   type;
+      };
+
+      template <typename RHS1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS1 >,
+                                          op_mult<NumericT>,
+                                          ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>                   type;
+      };
+
+      template <typename RHS1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS1 >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>                   type;
+      };
+
+      template <typename RHS1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS1 >,
+                                          op_mult<NumericT>,
+                                          ct_constant<1>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS1 >                   type;
+      };
+
+      template <typename RHS1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_constant<1>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS1 >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS1 >                   type;
+      };
+
+      //////// Resolve ambiguities: products with the inverse of a constant:
+
+      template <long numerator_1, long denominator_1, long denominator_2, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1> >,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2> >
+                                          > >
+      {
+        static const int value = 1;
+        static const long numerator = numerator_1;
+        static const long denominator = denominator_1 * denominator_2;
+
+        typedef ct_binary_expr< ct_constant<numerator / result_of::gcd<numerator, denominator>::value >,
+                                op_div<NumericT>,
+                                ct_constant<denominator / result_of::gcd<numerator, denominator>::value > >                   type;
+      };
+
+      template <long denominator_1, long numerator_2, long denominator_2, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1> >,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2> >
+                                          > >
+      {
+        static const int value = 1;
+        static const long numerator = numerator_2;
+        static const long denominator = denominator_1 * denominator_2;
+
+        typedef ct_binary_expr< ct_constant<numerator / result_of::gcd<numerator, denominator>::value >,
+                                op_div<NumericT>,
+                                ct_constant<denominator / result_of::gcd<numerator, denominator>::value > >                   type;
+      };
+
+      template <long denominator_1, long denominator_2, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1> >,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2> >
+                                          > >
+      {
+        static const int value = 1;
+        static const long numerator = 1;
+        static const long denominator = denominator_1 * denominator_2;
+
+        typedef ct_binary_expr< ct_constant<numerator / result_of::gcd<numerator, denominator>::value >,
+                                op_div<NumericT>,
+                                ct_constant<denominator / result_of::gcd<numerator, denominator>::value > >                   type;
+      };
+
+      template <long denominator_1, long value_2, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1> >,
+                                          op_mult<NumericT>,
+                                          ct_constant<value_2>
+                                          > >
+      {
+        static const int value = 1;
+        static const long numerator = value_2;
+        static const long denominator = denominator_1;
+
+        typedef ct_binary_expr< ct_constant<numerator / result_of::gcd<numerator, denominator>::value >,
+                                op_div<NumericT>,
+                                ct_constant<denominator / result_of::gcd<numerator, denominator>::value > >                   type;
+      };
+
+      template <long value_1, long denominator_2, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2> >
+                                          > >
+      {
+        static const int value = 1;
+        static const long numerator = value_1;
+        static const long denominator = denominator_2;
+
+        typedef ct_binary_expr< ct_constant<numerator / result_of::gcd<numerator, denominator>::value >,
+                                op_div<NumericT>,
+                                ct_constant<denominator / result_of::gcd<numerator, denominator>::value > >                   type;
+      };
+
+      template <long denominator_1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1> >,
+                                          op_mult<NumericT>,
+                                          ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>                   type;
+      };
+
+      template <long denominator_1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>                   type;
+      };
+
+      template <long denominator_1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1> >,
+                                          op_mult<NumericT>,
+                                          ct_constant<1>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1> >                   type;
+      };
+
+      template <long denominator_1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_constant<1>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1> >                   type;
+      };
 
     } //namespace detail
 
-- 
2.43.0


From 0b54259077b64a753b8f0b8ed52410ab0c325062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:00 +0000
Subject: [PATCH 17/33] fix: compile-time fractions were computed in int

---
 viennamath/manipulation/simplify.hpp | 52 ++++++++++++++--------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index bb26b3b..4bb0f68 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -365,8 +365,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2 + numerator_2 * denominator_1;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * denominator_2 + numerator_2 * denominator_1;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -384,8 +384,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2 + numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * denominator_2 + numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -403,8 +403,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 + value_2 * denominator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 + value_2 * denominator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -426,8 +426,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2 - numerator_2 * denominator_1;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * denominator_2 - numerator_2 * denominator_1;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -444,8 +444,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2 - numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * denominator_2 - numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -462,8 +462,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 - value_2 * denominator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 - value_2 * denominator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -480,8 +480,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -502,8 +502,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * numerator_2;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * numerator_2;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -520,8 +520,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = value_1 * numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -538,8 +538,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * value_2;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 * value_2;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -559,8 +559,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2;
-        static const int denominator = denominator_1 * numerator_2;
+        static const long numerator = numerator_1 * denominator_2;
+        static const long denominator = denominator_1 * numerator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -577,8 +577,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2;
-        static const int denominator = numerator_2;
+        static const long numerator = value_1 * denominator_2;
+        static const long denominator = numerator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -595,8 +595,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1;
-        static const int denominator = denominator_1 * value_2;
+        static const long numerator = numerator_1;
+        static const long denominator = denominator_1 * value_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
-- 
2.43.0


From f0076be7464c334f41e7fdff8458bf114cc20805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:01 +0000
Subject: [PATCH 18/33] fix: the compile-time gcd was computed in int

---
 viennamath/forwards.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/forwards.h b/viennamath/forwards.h
index 62d5a75..69be73e 100644
--- a/viennamath/forwards.h
+++ b/viennamath/forwards.h
@@ -657,14 +657,14 @@ namespace viennamath
     template <long a, long b>
     struct gcd
     {
-      static const int value = gcd<b, a % b>::value;
+      static const long value = gcd<b, a % b>::value;
     };
 
     /** @brief Specialization for the computation of the greatest common divisor of a and 0, which is a */
     template <long a>
     struct gcd <a, 0>
     {
-      static const int value = a;
+      static const long value = a;
     };
 
     /** @brief Specialization forcing a compile time error, since the greatest common divisor of 0 and 0 is not defined. */
-- 
2.43.0


From bfd9120f1c9bccae014714f45a5e154481131adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:31 +0000
Subject: [PATCH 19/33] fix: compile-time integration rejected polynomials
 whose simplification factors out a sign

---
 viennamath/manipulation/integrate.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/viennamath/manipulation/integrate.hpp b/viennamath/manipulation/integrate.hpp
index 253615c..bacd12f 100644
--- a/viennamath/manipulation/integrate.hpp
+++ b/viennamath/manipulation/integrate.hpp
@@ -366,8 +366,11 @@ namespace viennamath
       typedef typename viennamath::result_of::expand<IntegrandType>::type         expanded_integrand;
       typedef typename viennamath::result_of::simplify<expanded_integrand>::type  simplified_integrand;
 
+      // simplification may factor out signs, thus expand again:
+      typedef typename viennamath::result_of::expand<simplified_integrand>::type  reexpanded_integrand;
+
       typedef typename detail::integrate_impl<LowerBound, UpperBound,
-                                              simplified_integrand,
+                                              reexpanded_integrand,
                                               VariableType>::type    type;
 
     };
-- 
2.43.0


From a11912c7c6aacd5e0a6830941e6d4e6e5159d242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:44 +0000
Subject: [PATCH 20/33] fix: exp() of unary runtime expressions and grad() of
 rt_expr did not exist

All other functions accept an rt_unary_expr; laplace(rt_expr) could not be compiled without grad(rt_expr).
---
 .../manipulation/detail/unary_operations.hpp       | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/viennamath/manipulation/detail/unary_operations.hpp b/viennamath/manipulation/detail/unary_operations.hpp
index fcf4617..6fb3337 100644
--- a/viennamath/manipulation/detail/unary_operations.hpp
+++ b/viennamath/manipulation/detail/unary_operations.hpp
@@ -77,6 +77,13 @@ namespace viennamath
     return rt_unary_expr<>(new rt_variable<>(id), new op_unary<op_exp<default_numeric_type> >());
   }
 
+  /** @brief Overload of the exponential function for a ViennaMath runtime unary expression */
+  template <typename InterfaceType>
+  rt_unary_expr<InterfaceType> exp(rt_unary_expr<InterfaceType> const & other)
+  {
+    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_exp<typename InterfaceType::numeric_type>, InterfaceType>());
+  }
+
   /** @brief Overload of the exponential function for a ViennaMath runtime binary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> exp(rt_binary_expr<InterfaceType> const & other)
@@ -663,6 +670,13 @@ namespace viennamath
     return NULL;
   }
 
+  /** @brief Overload of the gradient function for a ViennaMath runtime expression wrapper */
+  template <typename InterfaceType>
+  rt_unary_expr<InterfaceType> grad(rt_expr<InterfaceType> const & other)
+  {
+    return rt_unary_expr<InterfaceType>(other.get()->clone(), new op_unary<op_gradient<typename InterfaceType::numeric_type>, InterfaceType>());
+  }
+
   /** @brief Overload of the gradient function for a ViennaMath runtime function symbol */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> grad(rt_function_symbol<InterfaceType> const & other)
-- 
2.43.0


From 895228204a8db2e32faa416148af5051febf1769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:44 +0000
Subject: [PATCH 21/33] fix: merged constants (ct_c +- X) +- c could neither be
 formed nor used

The merge yields a compiletime expression holding a runtime constant, for which
some overloads mismatched types and which could not be converted to a runtime
expression.
---
 .../compiletime/operations/ct_constant.hpp    |  8 +++----
 viennamath/runtime/binary_expr.hpp            | 22 +++++++++++++++++++
 viennamath/runtime/operations/constant.hpp    |  6 ++---
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/viennamath/compiletime/operations/ct_constant.hpp b/viennamath/compiletime/operations/ct_constant.hpp
index ae359f7..dd7a4fb 100644
--- a/viennamath/compiletime/operations/ct_constant.hpp
+++ b/viennamath/compiletime/operations/ct_constant.hpp
@@ -43,7 +43,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_plus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_plus<default_numeric_type>,
-                          RHS >(result_constant(value + other.lhs()), other.rhs());
+                          RHS >(result_constant(value + static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 + (ct_c2 + X) -> [ct_c1 + ct_c2] + X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -70,7 +70,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_plus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_minus<default_numeric_type>,
-                          RHS >(result_constant(value + other.lhs()), other.rhs());
+                          RHS >(result_constant(value + static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 + (ct_c2 - X) -> [ct_c1 + ct_c2] - X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -109,7 +109,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_minus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_minus<default_numeric_type>,
-                          RHS >(result_constant(value - other.lhs()), other.rhs());
+                          RHS >(result_constant(value - static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 - (ct_c2 + X) -> [ct_c1 - ct_c2] - X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -136,7 +136,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_minus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_plus<default_numeric_type>,
-                          RHS >(result_constant(value - other.lhs()), other.rhs());
+                          RHS >(result_constant(value - static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 - (ct_c2 - X) -> [ct_c1 - ct_c2] + X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index 6dd03d6..ee25326 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -136,6 +136,28 @@ namespace viennamath
         rhs_ = std::auto_ptr<InterfaceType>(new rt_variable<InterfaceType>(id));
       }
 
+      /////////////// special case: rt_constant merged into a compiletime expression: ////////////////////////
+      template <typename ScalarType, typename OP, typename RHS>
+      explicit rt_binary_expr(ct_binary_expr<rt_constant<ScalarType, InterfaceType>, OP, RHS> const & other) : op_(new op_binary<OP, InterfaceType>())
+      {
+        lhs_ = std::auto_ptr<InterfaceType>(other.lhs().clone());
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
+      }
+
+      template <typename ScalarType, typename OP, id_type id>
+      explicit rt_binary_expr(ct_binary_expr<rt_constant<ScalarType, InterfaceType>, OP, ct_variable<id> > const & other) : op_(new op_binary<OP, InterfaceType>())
+      {
+        lhs_ = std::auto_ptr<InterfaceType>(other.lhs().clone());
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_variable<InterfaceType>(id));
+      }
+
+      template <typename ScalarType, typename OP, long value>
+      explicit rt_binary_expr(ct_binary_expr<rt_constant<ScalarType, InterfaceType>, OP, ct_constant<value> > const & other) : op_(new op_binary<OP, InterfaceType>())
+      {
+        lhs_ = std::auto_ptr<InterfaceType>(other.lhs().clone());
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
+      }
+
       /*explicit rt_binary_expr(variable<InterfaceType> const & other) : lhs_(other.clone()),
                                                                     op_(new op_unary_id_type()),
                                                                     rhs_(other.clone()) {}
diff --git a/viennamath/runtime/operations/constant.hpp b/viennamath/runtime/operations/constant.hpp
index d00ef5d..2cb0821 100644
--- a/viennamath/runtime/operations/constant.hpp
+++ b/viennamath/runtime/operations/constant.hpp
@@ -116,16 +116,16 @@ namespace viennamath
 
     /** @brief Special overload for (ct_c1 - X) + c2 -> [ct_c1 + c2] - X, where ct_c1 is a compile constant, c2 is a runtime constant, and X is any expression: */
     template <long value, typename RHS, typename ScalarType, typename InterfaceType>
-    ct_binary_expr< rt_constant<default_numeric_type, InterfaceType >,
+    ct_binary_expr< rt_constant<typename promote_traits<long, op_plus<default_numeric_type>, ScalarType>::result_type, InterfaceType >,
                     op_minus<default_numeric_type>,
                     RHS >
     operator+(ct_binary_expr<ct_constant<value>, op_minus<default_numeric_type>, RHS> const & lhs,
               rt_constant<ScalarType, InterfaceType> const & other)
     {
-      typedef rt_constant<ScalarType, InterfaceType>    result_constant;
+      typedef rt_constant<typename promote_traits<long, op_plus<default_numeric_type>, ScalarType>::result_type, InterfaceType >    result_constant;
       return ct_binary_expr<result_constant,
                             op_minus<default_numeric_type>,
-                            RHS >(result_constant(value + other),
+                            RHS >(result_constant(value + static_cast<ScalarType>(other)),
                                   lhs.rhs());
     }
 
-- 
2.43.0


From c22180063cb8d6850aa58c6a7b09abda06b51c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:44 +0000
Subject: [PATCH 22/33] fix: compiletime operators lost runtime constants held
 by their operands

Expressions were default-constructed instead of being built from the operands,
and E1 / E2 of equal type was reduced to 1 although the constants may differ.
---
 viennamath/compiletime/operations/ct_ct.hpp   |  8 ++++----
 viennamath/compiletime/operations/ct_expr.hpp | 18 +++++++++++++++++-
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/viennamath/compiletime/operations/ct_ct.hpp b/viennamath/compiletime/operations/ct_ct.hpp
index 6eb3a95..e3a3eb5 100644
--- a/viennamath/compiletime/operations/ct_ct.hpp
+++ b/viennamath/compiletime/operations/ct_ct.hpp
@@ -40,7 +40,7 @@ namespace viennamath
                              op_plus<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
     /** @brief Metafunction for subtracting two compiletime expressions */
@@ -51,7 +51,7 @@ namespace viennamath
                              op_minus<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
     /** @brief Metafunction for multiplying two compiletime expressions */
@@ -62,7 +62,7 @@ namespace viennamath
                              op_mult<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
     /** @brief Metafunction for dividing two compiletime expressions */
@@ -73,7 +73,7 @@ namespace viennamath
                              op_div<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
   }
diff --git a/viennamath/compiletime/operations/ct_expr.hpp b/viennamath/compiletime/operations/ct_expr.hpp
index 1aa3b59..82a4c9a 100644
--- a/viennamath/compiletime/operations/ct_expr.hpp
+++ b/viennamath/compiletime/operations/ct_expr.hpp
@@ -29,6 +29,22 @@
 
 namespace viennamath
 {
+  namespace detail
+  {
+    /** @brief Helper metafunction: Checks whether the value of a compiletime expression depends on constants which are known at runtime only, i.e. whether two objects of the same type may denote different expressions. */
+    template <typename T>
+    struct has_runtime_value { static const bool value = false; };
+
+    template <typename ScalarType, typename InterfaceType>
+    struct has_runtime_value< rt_constant<ScalarType, InterfaceType> > { static const bool value = true; };
+
+    template <typename LHS, typename OP, typename RHS>
+    struct has_runtime_value< ct_binary_expr<LHS, OP, RHS> >
+    {
+      static const bool value = has_runtime_value<LHS>::value || has_runtime_value<RHS>::value;
+    };
+  }
+
   /////////////////////////////////// operator+ ///////////////////////////////////
 
       /** @brief Special overload: (ct_c1 + X) + ct_c2 becomes [ct_c1 + ct_c2] + X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -156,7 +172,7 @@ namespace viennamath
 
       /** @brief Special overload: division of the same thing leads to '1' */
       template <typename LHS, typename OP, typename RHS>
-      ct_constant<1>
+      typename enable_if< !detail::has_runtime_value< ct_binary_expr<LHS, OP, RHS> >::value, ct_constant<1> >::type
       operator/(ct_binary_expr<LHS, OP, RHS> const & /*lhs*/,
                 ct_binary_expr<LHS, OP, RHS> const & /*other*/)
       {
-- 
2.43.0


From 532f459bc44da11cf36e4fbc66a2b531ec6a835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:11 +0000
Subject: [PATCH 23/33] fix: diff() of a runtime variable could not be called

Its template parameters other_id and id are not deducible.
---
 viennamath/manipulation/diff.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/viennamath/manipulation/diff.hpp b/viennamath/manipulation/diff.hpp
index 5d52a3a..6baebdd 100644
--- a/viennamath/manipulation/diff.hpp
+++ b/viennamath/manipulation/diff.hpp
@@ -207,8 +207,7 @@ namespace viennamath
   //////////// derivative of a variable: /////////////////////////////////
 
   /** @brief Overload for computing the derivative of a runtime variable */
-  template <id_type other_id, typename InterfaceType,
-            id_type id>
+  template <typename InterfaceType>
   rt_constant<typename InterfaceType::numeric_type> diff(rt_variable<InterfaceType> const & c,
                                                          rt_variable<InterfaceType> const & var)
   {
@@ -218,6 +217,15 @@ namespace viennamath
     return rt_constant<typename InterfaceType::numeric_type>(0);
   }
 
+  /** @brief Overload for computing the derivative of a runtime variable with respect to a compiletime variable */
+  template <typename InterfaceType, id_type id>
+  rt_constant<typename InterfaceType::numeric_type> diff(rt_variable<InterfaceType> const & c,
+                                                         ct_variable<id> const & /*var*/)
+  {
+    rt_variable<InterfaceType> temp(id);
+    return diff(c, temp);
+  }
+
 
   //
   /////////////////// Derivative of compiletime expressions /////////////////////
-- 
2.43.0


From fbdedcf2aee26978e0f0d0e09b1b14436b008e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:51 +0000
Subject: [PATCH 24/33] fix: make_interval() and make_equation() overloads that
 could not be called

The overload for a compiletime variable as lower bound existed twice, and a
template parameter of the overloads for (number, rt_constant) is not deducible.
---
 viennamath/runtime/equation.hpp |  2 +-
 viennamath/runtime/interval.hpp | 10 +---------
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/viennamath/runtime/equation.hpp b/viennamath/runtime/equation.hpp
index aaf99fb..30025ab 100644
--- a/viennamath/runtime/equation.hpp
+++ b/viennamath/runtime/equation.hpp
@@ -72,7 +72,7 @@ namespace viennamath
 
   ////// scalar is first argument:
   /** @brief Generator for an equation with a (floating point) constant as left hand side and a ViennaMath runtime constant as right hand side */
-  template <typename NumericT, typename InterfaceType, typename RHSType>
+  template <typename NumericT, typename InterfaceType>
   rt_equation<InterfaceType> make_equation(typename InterfaceType::numeric_type lhs, rt_constant<NumericT, InterfaceType> const & rhs)
   {
     return rt_equation<InterfaceType>(lhs, rhs);
diff --git a/viennamath/runtime/interval.hpp b/viennamath/runtime/interval.hpp
index c8095be..20f382b 100644
--- a/viennamath/runtime/interval.hpp
+++ b/viennamath/runtime/interval.hpp
@@ -92,7 +92,7 @@ namespace viennamath
   }
 
   /** @brief Creates an interval, where the upper bound is given by a ViennaMath constant */
-  template <typename NumericT, typename InterfaceType, typename RHSType>
+  template <typename NumericT, typename InterfaceType>
   rt_interval<InterfaceType> make_interval(typename InterfaceType::numeric_type lhs, rt_constant<NumericT, InterfaceType> const & rhs)
   {
     return rt_interval<InterfaceType>(lhs, rhs);
@@ -224,14 +224,6 @@ namespace viennamath
     return rt_interval<typename RHSType::interface_type>(lhs, rhs);
   }
 
-  /** @brief Creates an interval, where the lower bound is given by a ViennaMath compiletime variable */
-  template <id_type id, typename RHSType>
-  rt_interval<typename RHSType::interface_type>
-  make_interval(ct_variable<id> const & lhs, RHSType const & rhs)
-  {
-    return rt_interval<typename RHSType::interface_type>(lhs, rhs);
-  }
-
 }
 
 #endif
-- 
2.43.0


From 96e6449c9ccadeaed4bc4ed99ce74c6e558ea6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:23 +0000
Subject: [PATCH 25/33] fix: diff() leaked the derivatives already formed when
 an operand cannot be differentiated

---
 .../manipulation/detail/binary_operations.hpp | 24 ++++++++-----
 .../manipulation/detail/unary_operations.hpp  | 35 ++++++++++---------
 viennamath/runtime/vector_expr.hpp            |  4 +--
 3 files changed, 37 insertions(+), 26 deletions(-)

diff --git a/viennamath/manipulation/detail/binary_operations.hpp b/viennamath/manipulation/detail/binary_operations.hpp
index 712db08..3df2b19 100644
--- a/viennamath/manipulation/detail/binary_operations.hpp
+++ b/viennamath/manipulation/detail/binary_operations.hpp
@@ -40,9 +40,11 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * lhs, op_plus<NumericT>, const InterfaceType * rhs, const InterfaceType * diff_var)
   {
-      return new rt_binary_expr<InterfaceType>( lhs->diff(diff_var),
+      std::auto_ptr<InterfaceType> dlhs(lhs->diff(diff_var));
+      std::auto_ptr<InterfaceType> drhs(rhs->diff(diff_var));
+      return new rt_binary_expr<InterfaceType>( dlhs.release(),
                                                 new op_binary<op_plus<NumericT>, InterfaceType>(),
-                                                rhs->diff(diff_var) );
+                                                drhs.release() );
   }
 
   /** @brief Implementation of the simplification procedures for an expression of the form e1 + e2 */
@@ -108,9 +110,11 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * lhs, op_minus<NumericT>, const InterfaceType * rhs, const InterfaceType * diff_var)
   {
-      return new rt_binary_expr<InterfaceType>( lhs->diff(diff_var),
+      std::auto_ptr<InterfaceType> dlhs(lhs->diff(diff_var));
+      std::auto_ptr<InterfaceType> drhs(rhs->diff(diff_var));
+      return new rt_binary_expr<InterfaceType>( dlhs.release(),
                                                 new op_binary<op_minus<NumericT>, InterfaceType>(),
-                                                rhs->diff(diff_var) );
+                                                drhs.release() );
   }
 
   /** @brief Implementation of the simplification procedures for an expression of the form e1 - e2 */
@@ -182,13 +186,15 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * lhs, op_mult<NumericT>, const InterfaceType * rhs, const InterfaceType * diff_var)
   {
-      return new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>(lhs->diff(diff_var),
+      std::auto_ptr<InterfaceType> dlhs(lhs->diff(diff_var));
+      std::auto_ptr<InterfaceType> drhs(rhs->diff(diff_var));
+      return new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>(dlhs.release(),
                                                                                   new op_binary<op_mult<NumericT>, InterfaceType>(),
                                                                                   rhs->clone()),
                                                 new op_binary<op_plus<NumericT>, InterfaceType>(),
                                                 new rt_binary_expr<InterfaceType>(lhs->clone(),
                                                                                   new op_binary<op_mult<NumericT>, InterfaceType>(),
-                                                                                  rhs->diff(diff_var) )
+                                                                                  drhs.release() )
                             );
   }
 
@@ -284,13 +290,15 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * lhs, op_div<NumericT>, const InterfaceType * rhs, const InterfaceType * diff_var)
   {
-    return new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>(lhs->diff(diff_var),
+    std::auto_ptr<InterfaceType> dlhs(lhs->diff(diff_var));
+    std::auto_ptr<InterfaceType> drhs(rhs->diff(diff_var));
+    return new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>(dlhs.release(),
                                                                                                                    new op_binary<op_mult<NumericT>, InterfaceType>(),
                                                                                                                    rhs->clone()),
                                                                                  new op_binary<op_minus<NumericT>, InterfaceType>(),
                                                                                  new rt_binary_expr<InterfaceType>(lhs->clone(),
                                                                                                                    new op_binary<op_mult<NumericT>, InterfaceType>(),
-                                                                                                                   rhs->diff(diff_var))
+                                                                                                                   drhs.release())
                                                                          ),
                                               new op_binary<op_div<NumericT>, InterfaceType>(),
                                               new rt_binary_expr<InterfaceType>(rhs->clone(),
diff --git a/viennamath/manipulation/detail/unary_operations.hpp b/viennamath/manipulation/detail/unary_operations.hpp
index 6fb3337..ff53a9a 100644
--- a/viennamath/manipulation/detail/unary_operations.hpp
+++ b/viennamath/manipulation/detail/unary_operations.hpp
@@ -51,9 +51,10 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * e, op_exp<NumericT>, const InterfaceType * diff_var)
   {
+    std::auto_ptr<InterfaceType> de(e->diff(diff_var));
     return new rt_binary_expr<InterfaceType>( new rt_unary_expr<InterfaceType>(e->clone(), new op_unary<op_exp<NumericT>, InterfaceType>()),
                                            new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
-                                           e->diff(diff_var));
+                                           de.release());
   }
 
   /** @brief Overload of the exponential function for a ViennaMath runtime constant */
@@ -123,9 +124,10 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * e, op_sin<NumericT>, const InterfaceType * diff_var)
   {
+    std::auto_ptr<InterfaceType> de(e->diff(diff_var));
     return new rt_binary_expr<InterfaceType>( new rt_unary_expr<InterfaceType>(e->clone(), new op_unary<op_cos<NumericT>, InterfaceType>()),
                                            new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
-                                           e->diff(diff_var) );
+                                           de.release() );
   }
 
   /** @brief Overload of the sine function for a ViennaMath runtime constant */
@@ -196,11 +198,12 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * e, op_cos<NumericT>, const InterfaceType * diff_var)
   {
+    std::auto_ptr<InterfaceType> de(e->diff(diff_var));
     return new rt_binary_expr<InterfaceType>( new rt_unary_expr<InterfaceType>(e->clone(), new op_unary<op_sin<NumericT>, InterfaceType>()),
                                            new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
                                            new rt_binary_expr<InterfaceType>( new rt_constant<NumericT, InterfaceType>(-1),
                                                                               new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
-                                                                              e->diff(diff_var) )
+                                                                              de.release() )
                                           );
   }
 
@@ -270,8 +273,9 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * e, op_tan<NumericT>, const InterfaceType * diff_var)
   {
+    std::auto_ptr<InterfaceType> de(e->diff(diff_var));
     // 1/cos^2(e):
-    return new rt_binary_expr<InterfaceType>( e->diff(diff_var),
+    return new rt_binary_expr<InterfaceType>( de.release(),
                                               new op_binary<op_div<typename InterfaceType::numeric_type>, InterfaceType>(),
                                               new rt_binary_expr<InterfaceType>( new rt_unary_expr<InterfaceType>(e->clone(),
                                                                                                                   new op_unary<op_cos<NumericT>, InterfaceType>()),
@@ -418,7 +422,8 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * e, op_sqrt<NumericT>, const InterfaceType * diff_var)
   {
-      return new rt_binary_expr<InterfaceType>( e->diff(diff_var),
+    std::auto_ptr<InterfaceType> de(e->diff(diff_var));
+      return new rt_binary_expr<InterfaceType>( de.release(),
                                              new op_binary<op_div<typename InterfaceType::numeric_type>, InterfaceType>(),
                                              new rt_binary_expr<InterfaceType>( new rt_constant<NumericT>(2),
                                                                              new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
@@ -494,7 +499,8 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * e, op_log<NumericT>, const InterfaceType * diff_var)
   {
-    return new rt_binary_expr<InterfaceType>( e->diff(diff_var),
+    std::auto_ptr<InterfaceType> de(e->diff(diff_var));
+    return new rt_binary_expr<InterfaceType>( de.release(),
                                            new op_binary<op_div<typename InterfaceType::numeric_type>, InterfaceType>(),
                                            new rt_unary_expr<InterfaceType>(e->clone())
                                          );
@@ -571,7 +577,8 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * e, op_log10<NumericT>, const InterfaceType * diff_var)
   {
-    return new rt_binary_expr<InterfaceType>( e->diff(diff_var),
+    std::auto_ptr<InterfaceType> de(e->diff(diff_var));
+    return new rt_binary_expr<InterfaceType>( de.release(),
                                            new op_binary<op_div<typename InterfaceType::numeric_type>, InterfaceType>(),
                                            new rt_binary_expr<InterfaceType>( new rt_constant<NumericT, InterfaceType>( ::log(10.0) ),
                                                                            new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
@@ -652,18 +659,14 @@ namespace viennamath
     const FunctionSymbolType * ptr = dynamic_cast< const FunctionSymbolType *>(diff_var);
     if (ptr != NULL)
     {
-      InterfaceType * c0 = new rt_constant<NumericT, InterfaceType>(0);
-      InterfaceType * new_expr = e->diff(diff_var);
+      std::auto_ptr<InterfaceType> new_expr(e->diff(diff_var));
+      std::auto_ptr<InterfaceType> c0(new rt_constant<NumericT, InterfaceType>(0));
 
-      if (new_expr->deep_equal(c0)) // grad(0) is directly compressed to 0
-      {
-        delete new_expr;
-        return c0;
-      }
+      if (new_expr->deep_equal(c0.get())) // grad(0) is directly compressed to 0
+        return c0.release();
 
       // return grad(...)
-      delete c0;
-      return new rt_unary_expr<InterfaceType>(e->diff(diff_var), new op_unary<op_gradient<NumericT>, InterfaceType>());
+      return new rt_unary_expr<InterfaceType>(new_expr.release(), new op_unary<op_gradient<NumericT>, InterfaceType>());
     }
 
     throw expression_not_differentiable_exception("Cannot differentiate gradient operator!");
diff --git a/viennamath/runtime/vector_expr.hpp b/viennamath/runtime/vector_expr.hpp
index 81830f7..211e39d 100644
--- a/viennamath/runtime/vector_expr.hpp
+++ b/viennamath/runtime/vector_expr.hpp
@@ -215,12 +215,12 @@ namespace viennamath
       /** @brief Returns the differentiated expression. Note that the returned pointer is not automatically deleted, thus the caller is responsible for proper deletion. */
       InterfaceType * diff(const InterfaceType * diff_var) const
       {
-        self_type * result = new self_type(BaseType::size());
+        std::auto_ptr<self_type> result(new self_type(BaseType::size()));
 
         for (std::size_t i=0; i<result->size(); ++i)
           (*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->diff(diff_var));
 
-        return result;
+        return result.release();
       }
 
 
-- 
2.43.0


From df486d0a3887455e5ac9685e29ad7b8e1ae52341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:09 +0000
Subject: [PATCH 26/33] fix: LaTeX output of runtime constants of other scalar
 types

---
 viennamath/manipulation/latex.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index ef06ebe..2760117 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -148,7 +148,7 @@ namespace viennamath
       std::string operator()(UnaryExpr  const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
 
       template <typename ScalarType>
-      std::string operator()(viennamath::rt_constant<ScalarType, InterfaceType> const & e, bool use_parenthesis = false) const { return process_impl(e, use_parenthesis); }
+      std::string operator()(viennamath::rt_constant<ScalarType, InterfaceType> const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(Variable   const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(FuncSymbol const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(Equation   const & e, bool use_parenthesis = false) const
@@ -420,21 +420,22 @@ namespace viennamath
 
       std::string process(InterfaceType const * ptr, bool use_parenthesis, rt_latex_translator<InterfaceType> const & translator) const
       {
-        if (dynamic_cast< const Constant * >(ptr) != NULL)
-        {
-          const Constant * temp = dynamic_cast< const Constant * >(ptr);
-          return process_impl(*temp, use_parenthesis, translator);
-        }
+        // constants of other scalar types are constant expressions without operands:
+        if (dynamic_cast< const Constant * >(ptr) != NULL
+            || (ptr->is_constant()
+                && dynamic_cast< const viennamath::rt_binary_expr<InterfaceType> * >(ptr) == NULL
+                && dynamic_cast< const viennamath::rt_unary_expr<InterfaceType> * >(ptr) == NULL))
+          return process_impl(ptr->unwrap(), use_parenthesis, translator);
 
         return "";
       }
 
     private:
 
-      std::string process_impl(Constant const & e, bool /*use_parenthesis*/, rt_latex_translator<InterfaceType> const & /*translator*/) const
+      std::string process_impl(NumericType value, bool /*use_parenthesis*/, rt_latex_translator<InterfaceType> const & /*translator*/) const
       {
         std::stringstream ss;
-        ss << " " << static_cast<NumericType>(e) << " ";
+        ss << " " << value << " ";
         return ss.str();
       }
 
-- 
2.43.0


From e0647879356b3807789b0ffd1c3768d8865b146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:20 +0000
Subject: [PATCH 27/33] fix: copies of a LaTeX translator lost its
 customizations, assigned ones shared its processors

---
 viennamath/manipulation/latex.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index 2760117..fbe8a45 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -125,6 +125,13 @@ namespace viennamath
         }
       }
 
+      rt_latex_translator & operator=(rt_latex_translator const & other)
+      {
+        rt_latex_translator temp(other);
+        processors_.swap(temp.processors_);
+        return *this;
+      }
+
       ~rt_latex_translator()
       {
         for (typename ProcessorArray::iterator it = processors_.begin();
@@ -456,7 +463,7 @@ namespace viennamath
       typedef viennamath::rt_variable<InterfaceType>                         Variable;
 
     public:
-      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_variable_processor(); }
+      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_variable_processor(*this); }
 
       std::string process(InterfaceType const * ptr, bool use_parenthesis, rt_latex_translator<InterfaceType> const & translator) const
       {
@@ -513,7 +520,7 @@ namespace viennamath
       typedef std::pair<id_type, id_type>           KeyType;
 
     public:
-      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_function_symbol_processor(); }
+      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_function_symbol_processor(*this); }
 
       std::string process(InterfaceType const * ptr, bool use_parenthesis, rt_latex_translator<InterfaceType> const & translator) const
       {
-- 
2.43.0


From 42852c5239bfcbdf701865f92bf3237495731e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:50 +0000
Subject: [PATCH 28/33] fix: evaluating a compiletime variable at a too short
 vector read outside the vector

---
 viennamath/manipulation/eval.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/manipulation/eval.hpp b/viennamath/manipulation/eval.hpp
index d081e01..7963e9a 100644
--- a/viennamath/manipulation/eval.hpp
+++ b/viennamath/manipulation/eval.hpp
@@ -284,9 +284,9 @@ namespace viennamath
    * @param v         Either a single number (typically of type double) or a vector type offering bracket-access (e.g. std::vector<>)
    */
   template <id_type id, typename VectorType>
-  default_numeric_type eval(ct_variable<id> /*c*/, VectorType const & v)
+  default_numeric_type eval(ct_variable<id> c, VectorType const & v)
   {
-    return v[id];
+    return c(v);
   }
 
   /** @brief Evaluation of a ViennaMath compiletime variable at a number */
-- 
2.43.0


From 6c630a0c9c3f8d03f9340a8302681e8796403318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:38 +0000
Subject: [PATCH 29/33] fix: function symbols of other tags than unknown and
 test had no detailed string

---
 viennamath/runtime/function_symbol.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/function_symbol.hpp b/viennamath/runtime/function_symbol.hpp
index d9f82bc..1404f6e 100644
--- a/viennamath/runtime/function_symbol.hpp
+++ b/viennamath/runtime/function_symbol.hpp
@@ -85,7 +85,7 @@ namespace viennamath
         else if (tag_id_ == test_tag<>::tag_id())
           ss << "test(" << id_ << ")>";
         else
-          ss << "invalid>";
+          ss << "tag" << tag_id_ << "(" << id_ << ")>";
 
         return ss.str();
       }
-- 
2.43.0


From ac6c33e51606f265a845bbc1d688a26d83a18bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:13 +0000
Subject: [PATCH 30/33] fix: a variable or binary expression could not be
 substituted by an rt_expr

---
 viennamath/manipulation/substitute.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/viennamath/manipulation/substitute.hpp b/viennamath/manipulation/substitute.hpp
index 9912a1d..5010b0e 100644
--- a/viennamath/manipulation/substitute.hpp
+++ b/viennamath/manipulation/substitute.hpp
@@ -183,6 +183,17 @@ namespace viennamath
     return temp;
   }
 
+  /** @brief Replaces all occurances of the variable 'u' in the expression 'e' with 'repl'. */
+  template <typename InterfaceType>
+  rt_expr<InterfaceType> substitute(rt_variable<InterfaceType> const & u,
+                                    rt_expr<InterfaceType> const & repl,
+                                    rt_expr<InterfaceType> const & e)
+  {
+    rt_expr<InterfaceType> temp(e.get()->substitute(&u, repl.get()));
+    inplace_simplify(temp);
+    return temp;
+  }
+
   /** @brief Replaces all occurances of the variable 'u' in the expression 'e' with 'repl'. */
   template <typename InterfaceType>
   rt_expr<InterfaceType> substitute(rt_variable<InterfaceType> const & u,
@@ -252,6 +263,17 @@ namespace viennamath
     return temp;
   }
 
+  /** @brief Replaces all occurances of the binary expression 'search' in the expression 'e' with 'repl'. */
+  template <typename InterfaceType>
+  rt_expr<InterfaceType> substitute(rt_binary_expr<InterfaceType> const & search,
+                                    rt_expr<InterfaceType> const & repl,
+                                    rt_expr<InterfaceType> const & e)
+  {
+    rt_expr<InterfaceType> temp(e.get()->substitute(&search, repl.get()));
+    inplace_simplify(temp);
+    return temp;
+  }
+
   /** @brief Replaces all occurances of the expression 'search' in the expression 'e' with 'repl'. */
   template <typename InterfaceType>
   rt_expr<InterfaceType> substitute(rt_expr<InterfaceType> const & search,
-- 
2.43.0


From 116951bab83bb69968701d1e5930eaf7a7d7cbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:13 +0000
Subject: [PATCH 31/33] fix: compile-time function symbols could not be printed

---
 viennamath/compiletime/ct_function_symbol.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viennamath/compiletime/ct_function_symbol.hpp b/viennamath/compiletime/ct_function_symbol.hpp
index 7560817..6d719f2 100644
--- a/viennamath/compiletime/ct_function_symbol.hpp
+++ b/viennamath/compiletime/ct_function_symbol.hpp
@@ -75,6 +75,7 @@ namespace viennamath
   template <typename Tag>
   class ct_function_symbol
   {
+    public:
       static std::string str()
       {
         return Tag::str();
-- 
2.43.0


From fb15706312d0141d0c706863ca8bf144a974d3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:53 +0000
Subject: [PATCH 32/33] fix: an rt_unary_expr could not be constructed from a
 ct_constant

---
 viennamath/runtime/unary_expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index 5d5d35c..2583a5d 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -75,7 +75,7 @@ namespace viennamath
                                                                       op_(new op_unary_id_type()) {}
 
       template <long value>
-      explicit rt_unary_expr(ct_constant<value> const & other) : expr_(other.clone()),
+      explicit rt_unary_expr(ct_constant<value> const & other) : expr_(new rt_constant<numeric_type, InterfaceType>(value)),
                                                               op_(new op_unary_id_type()) {}
 
       //Copy CTOR:
-- 
2.43.0


From 00f504c093710c17965bc03c84bb0b1318d60fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:21 +0000
Subject: [PATCH 33/33] fix: compile-time vectors of one and two entries keep
 their entries

ct_vector_1 and ct_vector_2 stored references to the arguments of their
constructor (ct_vector_3 stores copies), so that a vector returned by
make_vector() referred to temporaries that no longer exist.
---
 viennamath/compiletime/ct_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viennamath/compiletime/ct_vector.hpp b/viennamath/compiletime/ct_vector.hpp
index 7f0c4b9..e9d369f 100644
--- a/viennamath/compiletime/ct_vector.hpp
+++ b/viennamath/compiletime/ct_vector.hpp
@@ -54,7 +54,7 @@ namespace viennamath
       size_t size() const { return 1; }
 
     private:
-      T0 const & t0_;
+      T0 t0_;
   };
 
   /** @brief Convenience functionality for printing a compiletime vector with one entry to an output stream */
@@ -98,8 +98,8 @@ namespace viennamath
       std::size_t size() const { return 2; }
 
     private:
-      T0 const & t0_;
-      T1 const & t1_;
+      T0 t0_;
+      T1 t1_;
   };
 
   /** @brief Convenience functionality for printing a compiletime vector with two entries to an output stream */
-- 
2.43.0

