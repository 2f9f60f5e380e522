From ef06f5bfa0b215ce638df4086ba522daf0b210c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:40 +0000
Subject: [PATCH 01/35] fix: derivative of a power accounts for a variable
 exponent

d(f^g) was computed as g f^(g-1) df, dropping the f^g log(f) dg term
whenever the exponent depends on the variable of differentiation.
---
 core/src/function_tree/operators/arithmetic.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index 0fde38a..982c4ce 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -958,7 +958,15 @@ std::shared_ptr<Node> PowerOperator::Differentiate(std::shared_ptr<Variable> con
 	auto ret_mult = MultOperator::Make(base_->Differentiate(v));
 	ret_mult->AddOperand(exponent_);
 	ret_mult->AddOperand(PowerOperator::Make(base_, exp_minus_one));
-	return ret_mult;
+
+	if (exponent_->Degree(v)==0) // the exponent does not depend on v, so the power rule is the whole story
+		return ret_mult;
+
+	// d(f^g) = g f^(g-1) df + f^g log(f) dg
+	auto exponent_term = MultOperator::Make(exponent_->Differentiate(v));
+	exponent_term->AddOperand(LogOperator::Make(base_));
+	exponent_term->AddOperand(PowerOperator::Make(base_, exponent_));
+	return SumOperator::Make(ret_mult, true, exponent_term, true);
 }
 
 
-- 
2.43.0


From 2691b26f59b363991a6b53b13bdc426d46f2b23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:45 +0000
Subject: [PATCH 02/35] fix: degrees of negations, powers, sums and products in
 a variable group

---
 .../function_tree/operators/arithmetic.hpp    |  15 +++
 .../function_tree/operators/arithmetic.cpp    | 113 +++++++-----------
 2 files changed, 59 insertions(+), 69 deletions(-)

diff --git a/core/include/bertini2/function_tree/operators/arithmetic.hpp b/core/include/bertini2/function_tree/operators/arithmetic.hpp
index 379982d..032eb8f 100644
--- a/core/include/bertini2/function_tree/operators/arithmetic.hpp
+++ b/core/include/bertini2/function_tree/operators/arithmetic.hpp
@@ -309,6 +309,16 @@ namespace node{
 		 */
 		std::shared_ptr<Node> Differentiate(std::shared_ptr<Variable> const& v = nullptr) const override;
 
+		using UnaryOperator::Degree;
+
+		/**
+		Negation leaves the degree unchanged.
+		*/
+		int Degree(VariableGroup const& vars) const override
+		{
+			return operand_->Degree(vars);
+		}
+
 		bool IsHomogeneous(std::shared_ptr<Variable> const& v = nullptr) const override
 		{
 			return operand_->IsHomogeneous(v);
@@ -728,6 +738,11 @@ namespace node{
 		 */
 		int Degree(std::shared_ptr<Variable> const& v = nullptr) const override;
 		
+		/**
+		 Compute the degree with respect to a variable group.
+		 */
+		int Degree(VariableGroup const& vars) const override;
+		
 		
 		bool IsHomogeneous(std::shared_ptr<Variable> const& v = nullptr) const override
 		{
diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index 982c4ce..59a639c 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -248,16 +248,9 @@ int SumOperator::Degree(VariableGroup const& vars) const
 
 std::vector<int> SumOperator::MultiDegree(VariableGroup const& vars) const
 {
-	std::vector<int> deg(vars.size(),0);
-	for (auto iter : operands_)
-	{
-		auto term_deg = iter->MultiDegree(vars);
-
-		for (auto iter = term_deg.begin(); iter!= term_deg.end(); ++iter)
-		{
-			*(deg.begin()+(iter-term_deg.begin())) = std::max(*(deg.begin()+(iter-term_deg.begin())), *iter);
-		}
-	}
+	std::vector<int> deg;
+	for (const auto& v : vars)
+		deg.push_back(this->Degree(v));
 	return deg;
 }
 
@@ -814,16 +807,9 @@ int MultOperator::Degree(VariableGroup const& vars) const
 
 std::vector<int> MultOperator::MultiDegree(VariableGroup const& vars) const
 {
-	std::vector<int> deg(vars.size(),0);
-	for (auto iter : operands_)
-	{
-		auto term_deg = iter->MultiDegree(vars);
-
-		for (auto iter = term_deg.begin(); iter!= term_deg.end(); ++iter)
-		{
-			*(deg.begin()+(iter-term_deg.begin())) += *iter;
-		}
-	}
+	std::vector<int> deg;
+	for (const auto& v : vars)
+		deg.push_back(this->Degree(v));
 	return deg;
 }
 
@@ -970,63 +956,43 @@ std::shared_ptr<Node> PowerOperator::Differentiate(std::shared_ptr<Variable> con
 }
 
 
-int PowerOperator::Degree(std::shared_ptr<Variable> const& v) const
+// the degree of a power, given the degrees of its base and exponent.
+static int DegreeOfPower(int base_deg, int exp_deg, std::shared_ptr<Node> const& exponent)
 {
+	if (exp_deg!=0) // there may be an edge case here where the base is the number 0 or 1.  but that would be stupid, wouldn't it.
+		return -1;
+
+	if (base_deg==0) // a constant to a constant power
+		return 0;
+
+	auto exp_val = exponent->Eval<dbl>();
+	bool exp_is_int = false;
 	
-	auto base_deg = base_->Degree(v);
-	auto exp_deg = exponent_->Degree(v);
+	if (fabs(imag(exp_val))< 10*std::numeric_limits<double>::epsilon()) // so a real thresholding step
+		if (fabs(real(exp_val) - std::round(real(exp_val))) < 10*std::numeric_limits<double>::epsilon()) // then check that the real part is close to an integer
+			exp_is_int = true;
 	
-	if (exp_deg==0)
-	{
-		auto exp_val = exponent_->Eval<dbl>();
-		bool exp_is_int = false;
-		
-		if (fabs(imag(exp_val))< 10*std::numeric_limits<double>::epsilon()) // so a real thresholding step
-			if (fabs(real(exp_val) - std::round(real(exp_val))) < 10*std::numeric_limits<double>::epsilon()) // then check that the real part is close to an integer
-				exp_is_int = true;
-		
-		if (exp_is_int)
-		{
-			if (abs(exp_val-dbl(0.0))< 10*std::numeric_limits<double>::epsilon())
-				return 0;
-			else if (real(exp_val)<0)
-				return -1;
-			else  // positive integer.
-			{
-				if (base_deg<0)
-					return -1;
-				else
-					return base_deg*std::round(real(exp_val));
-			}
-			
-		}
-		else
-		{
-			if (base_deg==0)
-				return 0;
-			else
-				return -1;
-		}
-		
-	}
-	else
-	{
-		// there may be an edge case here where the base is the number 0 or 1.  but that would be stupid, wouldn't it.
+	if (!exp_is_int)
 		return -1;
-	}
+
+	if (abs(exp_val-dbl(0.0))< 10*std::numeric_limits<double>::epsilon())
+		return 0;
+	else if (real(exp_val)<0 || base_deg<0)
+		return -1;
+	else  // positive integer.
+		return base_deg*std::round(real(exp_val));
+}
+
+
+int PowerOperator::Degree(std::shared_ptr<Variable> const& v) const
+{
+	return DegreeOfPower(base_->Degree(v), exponent_->Degree(v), exponent_);
 }
 
+
 int PowerOperator::Degree(VariableGroup const& vars) const
 {
-	auto multideg = MultiDegree(vars);
-	auto deg = 0;
-	std::for_each(multideg.begin(),multideg.end(),[&](int n){
-					if (n < 0)
-						deg = -1;
-					else
-						deg += n;
-					});
-	return deg;
+	return DegreeOfPower(base_->Degree(vars), exponent_->Degree(vars), exponent_);
 }
 
 
@@ -1181,6 +1147,15 @@ int IntegerPowerOperator::Degree(std::shared_ptr<Variable> const& v) const
 	
 }
 
+int IntegerPowerOperator::Degree(VariableGroup const& vars) const
+{
+	auto base_deg = operand_->Degree(vars);
+	if (base_deg<0)
+		return base_deg;
+	else
+		return exponent_*base_deg;
+}
+
 
 
 
-- 
2.43.0


From f0174d524534ace7fee35437f84e3bff59f10d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:44 +0000
Subject: [PATCH 03/35] fix: homogenizing a sum whose operands are already
 homogenized leaves it unchanged

---
 core/src/function_tree/operators/arithmetic.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index 59a639c..84fd038 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -267,13 +267,17 @@ void SumOperator::Homogenize(VariableGroup const& vars, std::shared_ptr<Variable
 	
 	// then, homogenize this sum.
 	
+	// the homogenizing variable counts towards the degree of a summand, since a node appearing more than once in the tree may be homogenized already.
+	VariableGroup vars_and_homvar = vars;
+	if (std::find(vars.begin(), vars.end(), homvar)==vars.end())
+		vars_and_homvar.push_back(homvar);
+
 	// compute the highest degree among all summands.
 	int maxdegree = 0;
 	std::vector<int> term_degrees;
-	// first homogenize each summand.
 	for (auto iter: operands_)
 	{
-		auto local_degree = iter->Degree(vars);
+		auto local_degree = iter->Degree(vars_and_homvar);
 		if (local_degree<0)
 			throw std::runtime_error("asking for homogenization on non-polynomial node");
 		// TODO: this throw would leave the tree in a partially homogenized state.  this is scary.
-- 
2.43.0


From 1d3fdb24ee0559deac19aaf1dce646ccb3b50911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:19 +0000
Subject: [PATCH 04/35] fix: SLP compiler visits the same time derivative nodes
 it made room for

---
 core/src/system/straight_line_program.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 176ec8f..29b3429 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -807,9 +807,10 @@ namespace bertini{
 
 
 		// sometimes have time derivatives
+		std::vector<std::shared_ptr<node::Node>> ds_dt;
 		if (sys.HavePathVariable()) {
 			
-			auto ds_dt = sys.GetTimeDerivatives();  // a linear object, so can just run down the object
+			ds_dt = sys.GetTimeDerivatives();  // a linear object, so can just run down the object
 			slp_under_construction_.number_of_.TimeDeriv = ds_dt.size();
 			slp_under_construction_.output_locations_.TimeDeriv = next_available_complex_; // note the start of the block in memory.  the size was also recorded in the previous line.
 			for (auto n: ds_dt)
@@ -848,7 +849,6 @@ namespace bertini{
 		if (sys.HavePathVariable()) {
 			
 			// we need derivatives with respect to time only if the system has a path variable defined
-			auto ds_dt = sys.GetTimeDerivatives();  // a linear object, so can just run down the object
 			for (auto n: ds_dt)
 				n->Accept(*this);
 		}
-- 
2.43.0


From da24300e61e2d8ddfd96fd150fcd93d9d95681f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:19 +0000
Subject: [PATCH 05/35] fix: System evaluation by function tree does not fall
 through to the SLP

---
 core/include/bertini2/system/system.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index b19b93d..d25d548 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -286,11 +286,13 @@ namespace bertini {
 					for (auto iter=functions_.begin(); iter!=functions_.end(); iter++, counter++) {
 						(*iter)->EvalInPlace<T>(function_values(counter));
 					}
+					break;
 				}
 
 				case EvalMethod::SLP:
 					{
 						slp_.GetFuncValsInPlace<T>(function_values);
+						break;
 					}
 			}
 
-- 
2.43.0


From 2a8a98a2f52efb500d9f750a93100a8055b3881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:19 +0000
Subject: [PATCH 06/35] fix: copying, moving and swapping a System carries its
 SLP and its settings

---
 core/src/system/system.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index c5598d9..75d04fd 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -83,8 +83,13 @@ namespace bertini
 		swap(a.space_derivatives_,b.space_derivatives_);
 		swap(a.time_derivatives_,b.time_derivatives_);
 
+		swap(a.slp_,b.slp_);
+		swap(a.current_variable_values_,b.current_variable_values_);
+
 		swap(a.assume_uniform_precision_,b.assume_uniform_precision_);
 		swap(a.eval_method_,b.eval_method_);
+		swap(a.deriv_method_,b.deriv_method_);
+		swap(a.auto_simplify_,b.auto_simplify_);
 
 		swap(a.precision_,b.precision_);
 		swap(a.is_patched_,b.is_patched_);
@@ -110,9 +115,12 @@ namespace bertini
 		time_derivatives_ = other.time_derivatives_;
 
 		is_differentiated_ = other.is_differentiated_;
+		slp_ = other.slp_;
 
 		assume_uniform_precision_ = other.assume_uniform_precision_;
 		eval_method_ = other.eval_method_;
+		deriv_method_ = other.deriv_method_;
+		auto_simplify_ = other.auto_simplify_;
 
 		time_order_of_variable_groups_ = other.time_order_of_variable_groups_;
 
-- 
2.43.0


From b99ba99aaed324600b8d774a0e92ab5405e0d765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:40 +0000
Subject: [PATCH 07/35] fix: adding and scaling Systems leaves other systems
 alone and forgets old derivatives

---
 core/src/system/system.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 75d04fd..0e7075a 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1327,9 +1327,11 @@ namespace bertini
 			if (this->patch_ != rhs.patch_)
 				throw std::runtime_error("System+=System cannot combine two patched systems whose patches differ.");
 
+		// the functions may be shared with other systems, so make new ones rather than re-rooting the existing.
 		for (auto iter=functions_.begin(); iter!=functions_.end(); iter++)
-			(*iter)->SetRoot( (*(rhs.functions_.begin()+(iter-functions_.begin())))->EntryNode() + (*iter)->EntryNode());
+			*iter = Function::Make((*(rhs.functions_.begin()+(iter-functions_.begin())))->EntryNode() + (*iter)->EntryNode(), (*iter)->name());
 
+		is_differentiated_ = false;
 		return *this;
 	}
 
@@ -1341,10 +1343,12 @@ namespace bertini
 
 	System& System::operator*=(std::shared_ptr<node::Node> const& N)
 	{
+		// the functions may be shared with other systems, so make new ones rather than re-rooting the existing.
 		for (auto iter=functions_.begin(); iter!=functions_.end(); iter++)
 		{
-			(*iter)->SetRoot( N * (*iter)->EntryNode());
+			*iter = Function::Make(N * (*iter)->EntryNode(), (*iter)->name());
 		}
+		is_differentiated_ = false;
 		return *this;
 	}
 
-- 
2.43.0


From 2225b53316b2365814bfe0643853a9410cf8ca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:40 +0000
Subject: [PATCH 08/35] fix: Concatenate takes the patch from the patched
 system

---
 core/src/system/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 0e7075a..5da113b 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1380,7 +1380,7 @@ namespace bertini
 				throw std::runtime_error("concatenating systems with incompatible patches");
 
 		if (sys2.IsPatched() && !sys1.IsPatched())
-			sys1.CopyPatches(sys1);
+			sys1.CopyPatches(sys2);
 		// the other cases are automatically covered.  sys1 already patched, or neither patched.
 
 		for (unsigned ii(0); ii<sys2.NumNaturalFunctions(); ++ii)
-- 
2.43.0


From c683f8ecbb94da18aabdb394fdbd17acf3908999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:08 +0000
Subject: [PATCH 09/35] fix: reordering functions, changing evaluation method
 or variables makes a System differentiate afresh

---
 core/include/bertini2/system/system.hpp | 2 ++
 core/src/system/system.cpp              | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index d25d548..fd1304d 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -1585,6 +1585,7 @@ namespace bertini {
 		void SetEvalMethod(EvalMethod method)
 		{
 			eval_method_ = method;
+			is_differentiated_ = false;
 		}
 
 		/**  
@@ -1604,6 +1605,7 @@ namespace bertini {
 		void SetDerivMethod(DerivMethod method)
 		{
 			deriv_method_ = method;
+			is_differentiated_ = false;
 		}
 
 		/**  
diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 5da113b..71e13a6 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1015,6 +1015,7 @@ namespace bertini
 		}
 
 		swap(functions_, re_ordered_functions);
+		is_differentiated_ = false;
 	}
 
 
@@ -1042,6 +1043,7 @@ namespace bertini
 		}
 
 		swap(functions_, re_ordered_functions);
+		is_differentiated_ = false;
 	}
 
 
@@ -1069,6 +1071,11 @@ namespace bertini
 
 		path_variable_.reset();
 		have_path_variable_ = false;
+
+		time_order_of_variable_groups_.clear();
+		have_ordering_ = false;
+		is_differentiated_ = false;
+		is_patched_ = false;
 	}
 
 
-- 
2.43.0


From 2fab7affa32bf52844d56dca234aef3d63a55ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:08 +0000
Subject: [PATCH 10/35] fix: an unpatched System has no patches to count

---
 core/include/bertini2/system/system.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index fd1304d..0b203fc 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -873,7 +873,7 @@ namespace bertini {
 		*/
 		size_t NumPatches() const
 		{
-			return patch_.NumVariableGroups();
+			return is_patched_ ? patch_.NumVariableGroups() : 0;
 		}
 
 		/**
-- 
2.43.0


From 572aea24ab02ed8097434bb3061c724a5b4e8b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:08 +0000
Subject: [PATCH 11/35] fix: dehomogenizing a point steps through all variable
 groups

---
 core/include/bertini2/system/system.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index 0b203fc..fd9e888 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -1704,19 +1704,20 @@ namespace bertini {
 							auto h = x(hom_index++);
 							for (unsigned ii = 0; ii < variable_groups_[affine_group_counter].size(); ++ii)
 								x_dehomogenized(dehom_index++) = x(hom_index++) / h;
-							affine_group_counter++;
 						}
 						else
 						{
 							for (unsigned ii = 0; ii < variable_groups_[affine_group_counter].size(); ++ii)
 								x_dehomogenized(dehom_index++) = x(hom_index++);
 						}
+						affine_group_counter++;
 						break;
 					}
 					case VariableGroupType::Homogeneous:
 					{
 						for (unsigned ii = 0; ii < hom_variable_groups_[hom_group_counter].size(); ++ii)
 							x_dehomogenized(dehom_index++) = x(hom_index++);
+						hom_group_counter++;
 						break;
 					}
 					case VariableGroupType::Ungrouped:
-- 
2.43.0


From f3f58425958ea5df43b312aacd3a5f10372c7533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:08 +0000
Subject: [PATCH 12/35] fix: AssumeUniformPrecision uses its argument

---
 core/include/bertini2/system/system.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index fd9e888..5b035a1 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -1520,7 +1520,7 @@ namespace bertini {
 
 		void AssumeUniformPrecision(bool val)
 		{
-			assume_uniform_precision_ = false;
+			assume_uniform_precision_ = val;
 		}
 
 		/** 
-- 
2.43.0


From bde66e73621e90a221c270c04b62fcfe5e8d212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:08 +0000
Subject: [PATCH 13/35] fix: asking a System for its derivatives leaves it
 ready for evaluation

---
 core/src/system/system.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 71e13a6..3e0658a 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -400,7 +400,10 @@ namespace bertini
 
 	std::vector< Nd > System::GetSpaceDerivatives() const
 	{
-		if ( (deriv_method_==DerivMethod::JacobianNode) || (!is_differentiated_) )
+		if (!is_differentiated_)
+			Differentiate();
+
+		if (deriv_method_==DerivMethod::JacobianNode)
 			DifferentiateUsingDerivatives();
 
 		return space_derivatives_;
@@ -408,7 +411,10 @@ namespace bertini
 
 	std::vector< Nd > System::GetTimeDerivatives() const
 	{
-		if ( (deriv_method_==DerivMethod::JacobianNode) || (!is_differentiated_) )
+		if (!is_differentiated_)
+			Differentiate();
+
+		if (deriv_method_==DerivMethod::JacobianNode)
 			DifferentiateUsingDerivatives();
 		
 		return time_derivatives_;
-- 
2.43.0


From 32c1fa505c361197ec5fa7ea3ac2131d25da534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:34 +0000
Subject: [PATCH 14/35] fix: SLP tracks evaluation separately for double and
 multiple precision

---
 .../bertini2/system/straight_line_program.hpp | 24 +++++++++++++------
 core/src/system/straight_line_program.cpp     |  5 ++--
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/core/include/bertini2/system/straight_line_program.hpp b/core/include/bertini2/system/straight_line_program.hpp
index a91ff43..bb1a7fc 100644
--- a/core/include/bertini2/system/straight_line_program.hpp
+++ b/core/include/bertini2/system/straight_line_program.hpp
@@ -355,7 +355,7 @@ namespace bertini {
 		 */
 		template<typename NumT>
 		void GetFuncValsInPlace(Vec<NumT> & result) const{
-			if (!is_evaluated_)
+			if (!IsEvaluated<NumT>())
 				this->EvalFunctions<NumT>();
 
 			auto& memory =  std::get<std::vector<NumT>>(memory_);
@@ -379,7 +379,7 @@ namespace bertini {
 
 		template<typename NumT>
 		void GetJacobianInPlace(Mat<NumT> & result) const{
-			if (!is_evaluated_)
+			if (!IsEvaluated<NumT>())
 				this->EvalJacobian<NumT>();
 
 			auto& memory =  std::get<std::vector<NumT>>(memory_);
@@ -405,7 +405,7 @@ namespace bertini {
 
 		template<typename NumT>
 		void GetTimeDerivInPlace(Vec<NumT> & result) const{
-			if (!is_evaluated_)
+			if (!IsEvaluated<NumT>())
 				this->EvalTimeDeriv<NumT>();
 
 			auto& memory =  std::get<std::vector<NumT>>(memory_);
@@ -520,7 +520,7 @@ namespace bertini {
 				//assign  to memory
 				memory[ii + input_locations_.Variables] = variable_values(ii);
 			}
-			is_evaluated_ = false;
+			IsEvaluated<NumT>() = false;
 		}
 
 		/**
@@ -549,7 +549,7 @@ namespace bertini {
 			auto& memory =  std::get<std::vector<ComplexT>>(memory_); // unpack for local reference
 
 			memory[input_locations_.Time] = time;
-			is_evaluated_ = false;
+			IsEvaluated<ComplexT>() = false;
 		}
 
 
@@ -586,6 +586,14 @@ namespace bertini {
 		 */
 		void AddNumber(Nd const num, size_t loc);
 
+		/**
+		 \brief Whether the memory for a number type has been evaluated since its inputs were last set.
+		 */
+		template<typename NumT>
+		bool& IsEvaluated() const{
+			return std::is_same<NumT,dbl_complex>::value ? is_evaluated_dbl_ : is_evaluated_mpfr_;
+		}
+
 		template<typename NumT>
 		auto& GetMemory() const{
 			return std::get<std::vector<NumT>>(this->memory_);
@@ -609,7 +617,8 @@ namespace bertini {
 		std::vector<size_t> instructions_; //< The instructions.  The opcodes are  stored as size_t's, as well as the locations of operands and results.
 		std::vector< std::pair<Nd,size_t> > true_values_of_numbers_; //< the size_t is where in memory to downsample to.
 
-		mutable bool is_evaluated_ = false;
+		mutable bool is_evaluated_dbl_ = false; //< whether the double-precision memory holds values for the current inputs
+		mutable bool is_evaluated_mpfr_ = false; //< whether the multiple-precision memory holds values for the current inputs
 
 
 
@@ -632,7 +641,8 @@ namespace bertini {
 			ar & instructions_;
 			ar & true_values_of_numbers_;
 
-			ar & is_evaluated_;
+			ar & is_evaluated_dbl_;
+			ar & is_evaluated_mpfr_;
 		}
 
 	};
diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 29b3429..bd76908 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -85,6 +85,7 @@ namespace bertini{
 				Precision(n, new_precision);
 
 			this->precision_ = new_precision;
+			IsEvaluated<mpfr_complex>() = false;
 		}
 
 
@@ -216,7 +217,7 @@ namespace bertini{
 #endif
 
 
-		if (is_evaluated_)
+		if (IsEvaluated<NumT>())
 			return;
 
 		for (int ii = 0; ii<instructions_.size();/*the increment is done at end of loop depending on arity */) {
@@ -308,7 +309,7 @@ namespace bertini{
 			}
 		} // for loop around operations
 
-		is_evaluated_ = true;
+		IsEvaluated<NumT>() = true;
 	}
 
 	template void StraightLineProgram::Eval<dbl_complex>() const;
-- 
2.43.0


From 6ec946b260e6685a89178113460da69433b74cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:02 +0000
Subject: [PATCH 15/35] fix: SLP compilation of functions which refer to each
 other or appear more than once

---
 core/src/system/straight_line_program.cpp | 37 +++++++++++------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index bd76908..7d5bbd9 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -402,26 +402,20 @@ namespace bertini{
 		const std::shared_ptr<const node::Function> f_as_ptr = std::dynamic_pointer_cast<node::Function const>(f.shared_from_this());
 
 
+		if (this->locations_encountered_nodes_.find(f_as_ptr) != this->locations_encountered_nodes_.end())
+			return; // already compiled, because another function refers to it
+
 		if (this->locations_encountered_nodes_.find(n) == this->locations_encountered_nodes_.end())
 			n->Accept(*this); 
 		size_t location_entry = this->locations_encountered_nodes_[n];
 
 
-		size_t location_this_node;
-		if (this->locations_encountered_nodes_.find(f_as_ptr) == this->locations_encountered_nodes_.end()){
-			location_this_node = next_available_complex_;
-			locations_encountered_nodes_[f_as_ptr] = next_available_complex_++;
-		}
-		else
-			location_this_node = locations_encountered_nodes_[f_as_ptr];
-
+		// top-level functions and derivatives already have a place reserved for them
+		auto reserved = locations_top_level_functions_and_derivatives_.find(f_as_ptr);
+		size_t location_this_node = reserved != locations_top_level_functions_and_derivatives_.end() ? reserved->second : next_available_complex_++;
 
-		if (locations_top_level_functions_and_derivatives_.find(f_as_ptr)!= locations_top_level_functions_and_derivatives_.end()){ // top-level
-			slp_under_construction_.AddInstruction(Assign, location_entry, location_this_node);
-		}
-		else{ // not a top-level
-			slp_under_construction_.AddInstruction(Assign, location_entry, location_this_node);
-		}
+		locations_encountered_nodes_[f_as_ptr] = location_this_node;
+		slp_under_construction_.AddInstruction(Assign, location_entry, location_this_node);
 	}
 
 
@@ -774,7 +768,7 @@ namespace bertini{
 		for (auto f: sys.GetNaturalFunctions())
 		{
 			locations_top_level_functions_and_derivatives_[f] = next_available_complex_; // don't increment yet, we're listing it a few places. this is for an optimization that elides a copy for assignment.
-			locations_encountered_nodes_[f] = next_available_complex_++;
+			next_available_complex_++; // not encountered until visited, since another function may refer to this one
 
 			#ifndef BERTINI_DISABLE_FUNCTION_TREE_SANITY_CHECKS
 						try{
@@ -801,7 +795,7 @@ namespace bertini{
 		for (auto n: ds_dx)
 		{
 			locations_top_level_functions_and_derivatives_[n] = next_available_complex_; // don't increment yet, we're listing it a few places. this is for an optimization that elides a copy for assignment.
-			locations_encountered_nodes_[n] = next_available_complex_++;
+			next_available_complex_++;
 		}
 
 
@@ -817,7 +811,7 @@ namespace bertini{
 			for (auto n: ds_dt)
 			{
 				locations_top_level_functions_and_derivatives_[n] = next_available_complex_; // don't increment yet, we're listing it a few places. this is for an optimization that elides a copy for assignment.
-				locations_encountered_nodes_[n] = next_available_complex_++;
+				next_available_complex_++;
 			}
 		}
 
@@ -827,13 +821,16 @@ namespace bertini{
 
 		// now we're actually ready to start visiting using recursion, since we've recorded the locations of inputs and outputs.
 		
+		size_t function_location = slp_under_construction_.output_locations_.Functions;
 		for (auto& f: sys.GetNaturalFunctions())
 		{
 			f->shared_from_this();
 			f->Accept(*this);
 
-			// post visit function
-			/* code */
+			// the same function may appear more than once in the system
+			if (locations_encountered_nodes_[f] != function_location)
+				slp_under_construction_.AddInstruction(Assign, locations_encountered_nodes_[f], function_location);
+			++function_location;
 		}
 
 
@@ -873,6 +870,8 @@ namespace bertini{
 		next_available_int_ = 0;
 
 		locations_encountered_nodes_.clear();
+		locations_integers_.clear();
+		locations_top_level_functions_and_derivatives_.clear();
 		slp_under_construction_ = SLP();
 	}
 
-- 
2.43.0


From 825e2501d8dfdfb87d51691aab38ca7882fa71a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:03 +0000
Subject: [PATCH 16/35] fix: SLP evaluation of systems with implicit parameters

---
 core/include/bertini2/system/straight_line_program.hpp | 10 ++++++++++
 core/include/bertini2/system/system.hpp                |  2 ++
 core/src/system/straight_line_program.cpp              |  3 ++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/straight_line_program.hpp b/core/include/bertini2/system/straight_line_program.hpp
index bb1a7fc..2d41606 100644
--- a/core/include/bertini2/system/straight_line_program.hpp
+++ b/core/include/bertini2/system/straight_line_program.hpp
@@ -557,6 +557,16 @@ namespace bertini {
 
 
 
+		/**
+		 \brief Copy the numbers, including the values of implicit parameters, into memory again, since some of them changed.
+		 */
+		template<typename NumT>
+		void RefreshNumbers() const{
+			CopyNumbersIntoMemory<NumT>();
+			IsEvaluated<NumT>() = false;
+		}
+
+
 		using IntT = int;  // this needs to co-vary on the stored type inside the node.  node should stop using mpz, it's slow.
 
 		private:
diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index 5b035a1..65d3e95 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -1067,6 +1067,8 @@ namespace bertini {
 			for (auto iter=implicit_parameters_.begin(); iter!=implicit_parameters_.end(); iter++, counter++)
 				(*iter)->set_current_value(new_values(counter));
 
+			if (is_differentiated_ && eval_method_==EvalMethod::SLP)
+				slp_.RefreshNumbers<T>();
 		}
 
 
diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 7d5bbd9..64c5994 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -343,7 +343,8 @@ namespace bertini{
 
 
 	void SLPCompiler::Visit(node::Variable const& n){
-
+		// the system's variables and path variable are registered before visiting, so this is some other variable, such as an implicit parameter.
+		this->DealWithNumber(n);
 	}
 
 
-- 
2.43.0


From 7eece8fd560e61601af064f2e9c185be89d4a7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:30 +0000
Subject: [PATCH 17/35] fix: evaluating a System at a new point leaves no stale
 derivatives behind

---
 core/include/bertini2/system/system.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index 65d3e95..c46bf6a 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -352,7 +352,7 @@ namespace bertini {
 				throw std::runtime_error("not using a time value for evaluation of system, but path variable IS defined.");
 			
 			SetVariables(variable_values.eval());
-			ResetFunctions();
+			Reset();
 			EvalInPlace(function_values);
 		}
 		
@@ -416,7 +416,7 @@ namespace bertini {
 			SetVariables(variable_values.eval());//TODO: remove this eval
 			SetPathVariable(path_variable_value);
 
-			ResetFunctions(); // todo, elimiante this.  i feel like setting the variables or path variable should be enough to set the flag/ take the action
+			Reset(); // todo, elimiante this.  i feel like setting the variables or path variable should be enough to set the flag/ take the action
 
 			EvalInPlace(function_values);
 		}
@@ -619,7 +619,7 @@ namespace bertini {
 			
 			SetVariables(variable_values.eval()); // TODO: remove this eval
 			SetPathVariable(path_variable_value);
-			ResetJacobian();
+			Reset();
 			JacobianInPlace(J);
 		}
 
@@ -687,7 +687,7 @@ namespace bertini {
 
 			SetVariables(variable_values.eval()); //TODO: remove this eval()
 			SetPathVariable(path_variable_value);
-			ResetTimeDerivatives();
+			Reset();
 			TimeDerivativeInPlace(ds_dt);
 		}
 
@@ -728,7 +728,7 @@ namespace bertini {
 			static_assert(std::is_same<typename Derived::Scalar, T>::value, "scalar types must be the same");
 
 			SetVariables(variable_values.eval()); //TODO: remove this eval()
-			ResetTimeDerivatives();
+			Reset();
 			TimeDerivativeInPlace(ds_dt);
 		}
 
-- 
2.43.0


From a335680728e5364c86009bcd221db1a9b249b59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:31 +0000
Subject: [PATCH 18/35] fix: rows of the patch Jacobian are zero outside their
 variable group

---
 core/include/bertini2/system/patch.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/include/bertini2/system/patch.hpp b/core/include/bertini2/system/patch.hpp
index a98fb82..e62d7b7 100644
--- a/core/include/bertini2/system/patch.hpp
+++ b/core/include/bertini2/system/patch.hpp
@@ -371,8 +371,12 @@ namespace bertini {
 			unsigned offset(jacobian.rows() - NumVariableGroups()); // by precondition this number is at least 0.  the precondition is ensured by the public wrapper
 			unsigned counter(0);
 			for (unsigned ii = 0; ii < NumVariableGroups(); ++ii)
+			{
+				for (unsigned jj=0; jj<jacobian.cols(); ++jj)
+					jacobian(ii+offset,jj) = T(0);
 				for (unsigned jj=0; jj<variable_group_sizes_[ii]; ++jj)
 					jacobian(ii+offset,counter++) = coefficients[ii](jj);
+			}
 		}
 
 		/**
-- 
2.43.0


From 88e2263b2c716537848f77eaf26692a478dbd64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:45 +0000
Subject: [PATCH 19/35] fix: simplify the functions of a System at a generic
 point

---
 core/src/system/system.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 3e0658a..8cad872 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1089,8 +1089,37 @@ namespace bertini
 	void System::SimplifyFunctions()
 	{
 		using bertini::Simplify;
+
+		// simplification eliminates nodes which evaluate to 0 or 1, so do it at a generic point -- not at whatever values the variables happen to have.
+		auto num_vars = this->NumVariables();
+		std::vector<dbl> old_vals(num_vars);  dbl old_path_var_val;
+
+		auto vars = this->Variables();
+		for (unsigned ii=0; ii<num_vars; ++ii)
+		{
+			old_vals[ii] = vars[ii]->Eval<dbl>();
+			vars[ii]->SetToRandUnit<dbl>();
+		}
+
+		if (HavePathVariable())
+		{
+			old_path_var_val = path_variable_->Eval<dbl>();
+			path_variable_->SetToRandUnit<dbl>();
+		}
+
+		for (const auto& n : functions_)
+			n->Reset();
+
 		for (auto& iter : this->functions_)
 			Simplify(iter);
+
+		for (unsigned ii=0; ii<num_vars; ++ii)
+			vars[ii]->set_current_value<dbl>(old_vals[ii]);
+		if (HavePathVariable())
+			path_variable_->set_current_value(old_path_var_val);
+
+		for (const auto& n : functions_)
+			n->Reset();
 	}
 
 
-- 
2.43.0


From a29e5ab70b79144000739d678c9748c7a753c992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:38 +0000
Subject: [PATCH 20/35] fix: differentials serialize, with the variable they
 belong to

---
 .../function_tree/symbols/differential.hpp      | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/differential.hpp b/core/include/bertini2/function_tree/symbols/differential.hpp
index 1406f27..18ee4f6 100644
--- a/core/include/bertini2/function_tree/symbols/differential.hpp
+++ b/core/include/bertini2/function_tree/symbols/differential.hpp
@@ -147,21 +147,14 @@ namespace node{
 		friend class boost::serialization::access;
 		
 		template<class Archive>
-		void save(Archive & ar, const unsigned int version) const
+		void serialize(Archive & ar, const unsigned int version)
 		{
 			ar & boost::serialization::base_object<NamedSymbol>(*this);
-			ar & differential_variable_;
-			// ar & const_cast<std::shared_ptr<const Variable> >(differential_variable_);
-		}
-		
-		template<class Archive>
-		void load(Archive & ar, const unsigned int version)
-		{
-			ar & boost::serialization::base_object<NamedSymbol>(*this);
-			ar & std::const_pointer_cast<Variable>(differential_variable_);
+
+			auto variable = std::const_pointer_cast<Variable>(differential_variable_);
+			ar & variable;
+			differential_variable_ = variable;
 		}
-		
-		// BOOST_SERIALIZATION_SPLIT_MEMBER()
 
 	};
 
-- 
2.43.0


From 687fc21f0431b3f30246f98bb26eb28bd7fe9ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:24 +0000
Subject: [PATCH 21/35] fix: adding Systems compares the numbers of functions
 which are added

---
 core/src/system/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 8cad872..dfb65de 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1344,7 +1344,7 @@ namespace bertini
 
 	System& System::operator+=(System const& rhs)
 	{
-		if (this->NumTotalFunctions()!=rhs.NumTotalFunctions())
+		if (this->NumNaturalFunctions()!=rhs.NumNaturalFunctions())
 			throw std::runtime_error("cannot add two Systems with differing numbers of functions");
 
 		if (this->NumVariables()!=rhs.NumVariables())
-- 
2.43.0


From a0678c1f5e4371b86e5e893b65f1969f945d79cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:44 +0000
Subject: [PATCH 22/35] fix: a copied Patch has the working precision of its
 source

---
 core/include/bertini2/system/patch.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/system/patch.hpp b/core/include/bertini2/system/patch.hpp
index e62d7b7..f9f99c4 100644
--- a/core/include/bertini2/system/patch.hpp
+++ b/core/include/bertini2/system/patch.hpp
@@ -102,7 +102,7 @@ namespace bertini {
 		Patch(Patch const& other)
 		{	
 			variable_group_sizes_ = other.variable_group_sizes_;
-			precision_ = DefaultPrecision();
+			precision_ = other.precision_;
 
 			// a little shorthand unpacking the tuple
 			std::vector<Vec<mpfr_complex> >& coefficients_mpfr = std::get<std::vector<Vec<mpfr_complex> > >(this->coefficients_working_);
@@ -127,7 +127,8 @@ namespace bertini {
 					coefficients_highest_precision_[ii](jj) = other.coefficients_highest_precision_[ii](jj);
 
 					coefficients_dbl[ii](jj) = dbl(coefficients_highest_precision_[ii](jj));
-					coefficients_mpfr[ii](jj) = mpfr_complex(coefficients_highest_precision_[ii](jj));
+					coefficients_mpfr[ii](jj) = coefficients_highest_precision_[ii](jj);
+					coefficients_mpfr[ii](jj).precision(precision_);
 
 					assert(coefficients_highest_precision_[ii](jj) == other.coefficients_highest_precision_[ii](jj));
 				}
-- 
2.43.0


From 0a916d70179aecb1868b56acb610f4462ca14090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:44 +0000
Subject: [PATCH 23/35] fix: random unit numbers have magnitude one

---
 core/include/bertini2/random.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/random.hpp b/core/include/bertini2/random.hpp
index 7485052..3b882f5 100644
--- a/core/include/bertini2/random.hpp
+++ b/core/include/bertini2/random.hpp
@@ -215,7 +215,7 @@ using bertini::RandomMp;
 	inline complex rand_unit()
 	{
 		complex returnme( RandomMp(mpfr_float(-1),mpfr_float(1)), RandomMp(mpfr_float(-1),mpfr_float(1)) );
-		return returnme / sqrt( abs(returnme));
+		return returnme / abs(returnme);
 	}
 
 	inline complex RandomUnit()
@@ -256,7 +256,7 @@ using bertini::RandomMp;
 		a.precision(num_digits);
 		
 		complex temp(RandomMp(num_digits),RandomMp(num_digits));
-		a = std::move(temp/sqrt(abs(temp)));
+		a = std::move(temp/abs(temp));
 		DefaultPrecision(cached);
 	}
 
-- 
2.43.0


From 8058f65a5abc76ec4cd65df73fb3c5286e159cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:33 +0000
Subject: [PATCH 24/35] fix: order of the Heun-Euler pair is that of its
 lower-order member

The embedded estimate of the pair is O(h^2), so the order, which the size proportion and the
adaptive step selection use as (order of the estimate) - 1, is 1, as for the other pairs.
---
 core/include/bertini2/trackers/explicit_predictors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/trackers/explicit_predictors.hpp b/core/include/bertini2/trackers/explicit_predictors.hpp
index 9f21863..f7a4e45 100644
--- a/core/include/bertini2/trackers/explicit_predictors.hpp
+++ b/core/include/bertini2/trackers/explicit_predictors.hpp
@@ -92,7 +92,7 @@ namespace bertini{
 					case (Predictor::Heun):
 						return 2;
 					case (Predictor::HeunEuler):
-						return 2;
+						return 1;
 					case (Predictor::RKNorsett34):
 						return 3;
 					case (Predictor::RK4):
-- 
2.43.0


From 305aabf2aaa8114183f0d8a0180324481f49f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:53 +0000
Subject: [PATCH 25/35] fix: step size bound of criterion B when more digits
 are needed than in use

---
 core/include/bertini2/trackers/amp_tracker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/trackers/amp_tracker.hpp b/core/include/bertini2/trackers/amp_tracker.hpp
index 233a74f..289b834 100644
--- a/core/include/bertini2/trackers/amp_tracker.hpp
+++ b/core/include/bertini2/trackers/amp_tracker.hpp
@@ -132,7 +132,7 @@ namespace bertini{
 										unsigned num_newton_iterations,
 										unsigned predictor_order = 0)
 		{
-			return pow(mpfr_float(10), -( digits_B - precision )*num_newton_iterations/(predictor_order+1));
+			return pow(mpfr_float(10), (mpfr_float(precision) - digits_B)*num_newton_iterations/(predictor_order+1));
 		}
 		
 
-- 
2.43.0


From 05b5f869a5198e1db26fdb7f62aadb8ec8000434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:27 +0000
Subject: [PATCH 26/35] fix: fixed precision trackers honour the step success
 settings

---
 .../trackers/fixed_precision_tracker.hpp      | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/core/include/bertini2/trackers/fixed_precision_tracker.hpp b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
index f8f6998..b796a49 100644
--- a/core/include/bertini2/trackers/fixed_precision_tracker.hpp
+++ b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
@@ -218,6 +218,7 @@ namespace bertini{
 
 				// copy the tentative vector into the current space vector;
 				current_space = tentative_next_space;
+				AdjustStepsizeSuccess();
 				return SuccessCode::Success;
 			}
 
@@ -253,6 +254,26 @@ namespace bertini{
 			//
 			////////////////
 
+			/**
+			\brief Increase the stepsize, if enough consecutive steps have been successful.
+
+			The stepsize never increases beyond the maximum from the stepping settings.
+			*/
+			void AdjustStepsizeSuccess() const
+			{
+				++this->num_successful_steps_since_stepsize_increase_;
+				if (this->num_successful_steps_since_stepsize_increase_ < Get<Stepping>().consecutive_successful_steps_before_stepsize_increase)
+					return;
+
+				const RT max_stepsize(Get<Stepping>().max_step_size);
+				this->next_stepsize_ = RT(Get<Stepping>().step_size_success_factor)*this->current_stepsize_;
+				if (this->next_stepsize_ > max_stepsize)
+					this->next_stepsize_ = max_stepsize;
+
+				UpdateStepsize();
+				this->num_successful_steps_since_stepsize_increase_ = 0;
+			}
+
 			/**
 			\brief Increment and reset counters after a successful TrackerIteration()
 			*/
-- 
2.43.0


From 9a7d4fdf82c5ad5300d600f6a5573fb517931c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:19 +0000
Subject: [PATCH 27/35] fix: adaptive precision tracking keeps all digits of
 the end time

The stored copy of the end time was cut to the precision of the start point,
so a path whose precision rose ended at a rounded end time.
---
 core/include/bertini2/trackers/amp_tracker.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/include/bertini2/trackers/amp_tracker.hpp b/core/include/bertini2/trackers/amp_tracker.hpp
index 289b834..c929286 100644
--- a/core/include/bertini2/trackers/amp_tracker.hpp
+++ b/core/include/bertini2/trackers/amp_tracker.hpp
@@ -448,7 +448,6 @@ namespace bertini{
 
 				
 				endtime_highest_precision_ = end_time;
-				endtime_highest_precision_.precision(initial_precision_);
 
 				endtime_ = end_time;
 				endtime_.precision(initial_precision_);
-- 
2.43.0


From 86a7958db3fdb302cf318cec10e814b1b5288e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:19 +0000
Subject: [PATCH 28/35] fix: adaptive precision never falls below the required
 precision

The candidate precisions started below the minimum because of rounding down, and
a requirement above the user's maximum selected an impossible precision, which
aborted instead of ending the path with MaxPrecisionReached.
---
 core/include/bertini2/trackers/amp_tracker.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/include/bertini2/trackers/amp_tracker.hpp b/core/include/bertini2/trackers/amp_tracker.hpp
index c929286..22d8b23 100644
--- a/core/include/bertini2/trackers/amp_tracker.hpp
+++ b/core/include/bertini2/trackers/amp_tracker.hpp
@@ -226,13 +226,14 @@ namespace bertini{
 			if (lowest_mp_precision_to_test < LowestMultiplePrecision())
 				lowest_mp_precision_to_test = LowestMultiplePrecision();
 			else
-				lowest_mp_precision_to_test = (lowest_mp_precision_to_test/PrecisionIncrement()) * PrecisionIncrement(); // use integer arithmetic to round.
+				lowest_mp_precision_to_test = ((lowest_mp_precision_to_test+PrecisionIncrement()-1)/PrecisionIncrement()) * PrecisionIncrement(); // use integer arithmetic to round up, so that no precision below the minimum is considered.
 
 
 			if (max_precision < LowestMultiplePrecision())
 				max_precision = LowestMultiplePrecision();
-			else
-				max_precision = (max_precision/PrecisionIncrement()) * PrecisionIncrement(); // use integer arithmetic to round.
+
+			if (lowest_mp_precision_to_test > max_precision && min_precision <= max_precision)
+				lowest_mp_precision_to_test = max_precision; // no multiple of the increment lies in the range
 
 			for (unsigned p = lowest_mp_precision_to_test; p <= max_precision; p+=PrecisionIncrement())
 				minimizer_routine(p);
@@ -878,7 +879,14 @@ namespace bertini{
 
 					unsigned max_precision = max(min_precision, a);
 
-					MinimizeTrackingCost(next_precision_, next_stepsize_, 
+					if (min_precision > Get<PrecConf>().maximum_precision)
+					{
+						// the necessary precision is not available, so tracking will stop before the next step
+						next_precision_ = min_precision;
+						next_stepsize_ = max_stepsize;
+					}
+					else
+						MinimizeTrackingCost(next_precision_, next_stepsize_, 
 							min_precision, min_stepsize,
 							Get<PrecConf>().maximum_precision, max_stepsize,
 							digits_B,
-- 
2.43.0


From f270156de63a4d93466278dba42815b85819cc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:50 +0000
Subject: [PATCH 29/35] fix: names beginning with an already declared name can
 be declared

---
 core/include/bertini2/io/parsing/system_rules.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/io/parsing/system_rules.hpp b/core/include/bertini2/io/parsing/system_rules.hpp
index d8083ed..08f9f57 100644
--- a/core/include/bertini2/io/parsing/system_rules.hpp
+++ b/core/include/bertini2/io/parsing/system_rules.hpp
@@ -214,7 +214,7 @@ namespace bertini {
 					
 					// this rule gets a string.
 					unencountered_symbol_.name("unencountered_symbol_");
-					unencountered_symbol_ = valid_variable_name_ - lexeme[( declarative_symbols_ | encountered_symbols_ )];
+					unencountered_symbol_ = valid_variable_name_ - lexeme[( declarative_symbols_ | encountered_symbols_ ) >> !( qi::alnum | qi::char_("[]_") )];
 					// i am unsure about the use of lexeme in the above rule (unencountered_symbol).
 					
 					
-- 
2.43.0


From 1b841ac630065ad7f7f795e075d86929a631fc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:50 +0000
Subject: [PATCH 30/35] fix: a sign in a parsed function applies to the
 following factor only

---
 .../bertini2/io/parsing/function_rules.hpp    | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/core/include/bertini2/io/parsing/function_rules.hpp b/core/include/bertini2/io/parsing/function_rules.hpp
index 3dcdf40..a3850f0 100644
--- a/core/include/bertini2/io/parsing/function_rules.hpp
+++ b/core/include/bertini2/io/parsing/function_rules.hpp
@@ -182,11 +182,19 @@ namespace bertini {
 						 )
 					;
 					
+					// a sign applies to the factor following it, and binds less tightly than ^, so that -x+y means (-x)+y and -x^2 means -(x^2).
 					factor_.name("factor_");
 					factor_ =
+					(lit('-') > factor_ [_val = -_1])
+					|   (lit('+') > factor_ [_val = _1])
+					|   power_ [_val = _1]
+					;
+					
+					power_.name("power_");
+					power_ =
 					exp_elem_ [_val = _1]
 					>> *(lit('^') // any number of ^somethings
-						 > exp_elem_ [ phx::bind( []
+						 > exponent_ [ phx::bind( []
 												 (std::shared_ptr<Node> & B, std::shared_ptr<Node> P)
 												 {
 													 B = pow(B,P);
@@ -194,12 +202,17 @@ namespace bertini {
 												 _val,_1)] )
 					;
 					
+					exponent_.name("exponent_");
+					exponent_ =
+					exp_elem_ [_val = _1]
+					|   (lit('-') > exponent_ [_val = -_1])
+					|   (lit('+') > exponent_ [_val = _1])
+					;
+					
 					exp_elem_.name("exp_elem_");
 					exp_elem_ =
 					(symbol_  >> !qi::alnum) [_val = _1]
 					|   ( '(' > expression_  [_val = _1] > ')'  ) // using the > expectation here.
-					|   (lit('-') > expression_  [_val = -_1])
-					|   (lit('+') > expression_  [_val = _1])
 					|   (lit("sin") > '(' > expression_ [_val = sin_lazy(_1)] > ')' )
 					|   (lit("cos") > '(' > expression_ [_val = cos_lazy(_1)] > ')' )
 					|   (lit("tan") > '(' > expression_ [_val = tan_lazy(_1)] > ')' )
@@ -286,7 +299,7 @@ namespace bertini {
 				qi::rule<Iterator, std::shared_ptr<Node>(), ascii::space_type > root_rule_;
 				// the rule for kicking the entire thing off
 				
-				qi::rule<Iterator, std::shared_ptr<Node>(), ascii::space_type> expression_, term_, factor_, exp_elem_;
+				qi::rule<Iterator, std::shared_ptr<Node>(), ascii::space_type> expression_, term_, factor_, power_, exponent_, exp_elem_;
 				// rules for how to turn +-*/^ into operator nodes.
 				
 				
-- 
2.43.0


From fee21e726354e42ccdc53570a6cff469d63d7656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:50 +0000
Subject: [PATCH 31/35] fix: integers with exponents and signed exponents can
 be parsed

---
 core/include/bertini2/io/parsing/function_rules.hpp | 11 ++++++++++-
 core/include/bertini2/io/parsing/number_rules.hpp   |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/io/parsing/function_rules.hpp b/core/include/bertini2/io/parsing/function_rules.hpp
index a3850f0..fc4edd9 100644
--- a/core/include/bertini2/io/parsing/function_rules.hpp
+++ b/core/include/bertini2/io/parsing/function_rules.hpp
@@ -249,7 +249,16 @@ namespace bertini {
 					number_ =
 					mpfr_rules_.long_number_string_ [ _val = make_shared_<Float>()(_1) ]
 					|
-					mpfr_rules_.integer_string_ [ _val = make_shared_<Integer>()(_1) ];
+					mpfr_rules_.integer_string_ [ phx::bind( []
+												 (std::shared_ptr<Node> & N, std::string const& str)
+												 {
+													 // an integer written with an exponent need not be an integer
+													 if (str.find('e')==std::string::npos)
+														 N = Integer::Make(str);
+													 else
+														 N = Float::Make(str);
+												 },
+												 _val,_1)];
 					
 					
 					
diff --git a/core/include/bertini2/io/parsing/number_rules.hpp b/core/include/bertini2/io/parsing/number_rules.hpp
index 8ced877..dea4ec7 100644
--- a/core/include/bertini2/io/parsing/number_rules.hpp
+++ b/core/include/bertini2/io/parsing/number_rules.hpp
@@ -149,7 +149,7 @@ namespace bertini{
 					 qi::lit('E')[_val += "e"] // get an opening 'e'
 					 )
 					>>
-					-(qi::lit('-')[_val += "-"]) // then an optional minus sign
+					-(qi::lit('-')[_val += "-"] | qi::lit('+')) // then an optional sign
 					>>
 					+(qi::char_(L'0',L'9')[_val += _1]) // then at least one number
 					); // finish the rule off
-- 
2.43.0


From d333521c149bc8735ec72efd85991022cde487c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:52 +0000
Subject: [PATCH 32/35] fix: input files without END are not read twice

---
 core/include/bertini2/io/parsing/classic_utilities.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/io/parsing/classic_utilities.hpp b/core/include/bertini2/io/parsing/classic_utilities.hpp
index 132bba0..38a01f9 100644
--- a/core/include/bertini2/io/parsing/classic_utilities.hpp
+++ b/core/include/bertini2/io/parsing/classic_utilities.hpp
@@ -185,6 +185,7 @@ namespace bertini {
 					using qi::eps;
 					using qi::lit;
 					using qi::char_;
+					using qi::hold;
 					using qi::omit;
 					using boost::spirit::lexeme;
 					using boost::spirit::as_string;
@@ -230,11 +231,11 @@ namespace bertini {
 					
 					only_input_.name("have_only_input");
 					only_input_ = (
-								   (omit[input_] >> end_ >> omit[no_decl_]) // 3
+								   hold[omit[input_] >> end_ >> omit[no_decl_]] // 3.  hold, so that text matched by an alternative which failed is dropped
 								   |
-								   (omit[input_] >> no_decl_) // 2
+								   hold[omit[input_] >> no_decl_] // 2
 								   |
-								   (end_ >> omit[no_decl_])  // 1
+								   hold[end_ >> omit[no_decl_]]  // 1
 								   |
 								   (no_decl_) // 0
 								   )
-- 
2.43.0


From 7f8a4858edbe31285a0591dd737f32e5a481b1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:41 +0000
Subject: [PATCH 33/35] fix: observers may be removed while events are
 delivered

---
 core/include/bertini2/detail/observable.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/core/include/bertini2/detail/observable.hpp b/core/include/bertini2/detail/observable.hpp
index 4ccc308..9bd1448 100644
--- a/core/include/bertini2/detail/observable.hpp
+++ b/core/include/bertini2/detail/observable.hpp
@@ -88,16 +88,20 @@ namespace bertini{
 		void NotifyObservers(AnyEvent const& e) const
 		{
 
-			for (auto& obs : current_watchers_)
-				obs.get().Observe(e);
+			// observers may add or remove observers while observing, so go through a copy.
+			for (auto const& obs : ObserverContainer(current_watchers_))
+				if (IsWatching(obs.get()))
+					obs.get().Observe(e);
 
 		}
 
 		void NotifyObservers(AnyEvent & e) const
 		{
 
-			for (auto& obs : current_watchers_)
-				obs.get().Observe(e);
+			// observers may add or remove observers while observing, so go through a copy.
+			for (auto const& obs : ObserverContainer(current_watchers_))
+				if (IsWatching(obs.get()))
+					obs.get().Observe(e);
 		}
 
 
@@ -105,6 +109,13 @@ namespace bertini{
 
 		using ObserverContainer = std::vector<std::reference_wrapper<AnyObserver>>;
 
+		bool IsWatching(AnyObserver const& observer) const
+		{
+			return find_if(begin(current_watchers_), end(current_watchers_), [&](const auto& held_obs)
+			                              { return &held_obs.get() == &observer; })!=end(current_watchers_);
+		}
+
+
 		mutable ObserverContainer current_watchers_;
 	};
 
-- 
2.43.0


From c73c2f035f2bd5c1add2323064b8bd452098d5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:54 +0000
Subject: [PATCH 34/35] fix: trackers announce the start of tracking, and
 precision recorders depend on it

---
 core/include/bertini2/trackers/amp_tracker.hpp      |  2 ++
 .../bertini2/trackers/fixed_precision_tracker.hpp   |  4 ++++
 core/include/bertini2/trackers/observers.hpp        | 13 ++++++++++---
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/trackers/amp_tracker.hpp b/core/include/bertini2/trackers/amp_tracker.hpp
index 22d8b23..afdac66 100644
--- a/core/include/bertini2/trackers/amp_tracker.hpp
+++ b/core/include/bertini2/trackers/amp_tracker.hpp
@@ -472,6 +472,8 @@ namespace bertini{
 
 				ChangePrecision<upsample_refine_off>(start_point(0).precision());
 
+				NotifyObservers(TrackingStarted<EmitterType>(*this));
+
 
 				auto initial_refinement_code = InitialRefinement();
 
diff --git a/core/include/bertini2/trackers/fixed_precision_tracker.hpp b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
index b796a49..9117ec1 100644
--- a/core/include/bertini2/trackers/fixed_precision_tracker.hpp
+++ b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
@@ -484,6 +484,8 @@ namespace bertini{
 
 				ResetCounters();
 
+				this->NotifyObservers(TrackingStarted<EmitterType>(*this));
+
 				return SuccessCode::Success;
 			}
 
@@ -569,6 +571,8 @@ namespace bertini{
 
 				ResetCounters();
 
+				this->NotifyObservers(TrackingStarted<EmitterType>(*this));
+
 				return SuccessCode::Success;
 			}
 
diff --git a/core/include/bertini2/trackers/observers.hpp b/core/include/bertini2/trackers/observers.hpp
index 427d6a5..664e79a 100644
--- a/core/include/bertini2/trackers/observers.hpp
+++ b/core/include/bertini2/trackers/observers.hpp
@@ -54,9 +54,14 @@ namespace bertini {
 			{
 				if(auto p = dynamic_cast<const TrackingStarted<EmitterT>*>(&e))
 				{
+					tracking_ = true;
 					precision_increased_ = false;
 					starting_precision_ = p->Get().CurrentPrecision();
 				}
+				else if (dynamic_cast<const TrackingEnded<EmitterT>*>(&e))
+					tracking_ = false;
+				else if (!tracking_)
+					return; // the changes of precision between paths are not of interest
 				else if (auto p = dynamic_cast<const PrecisionChanged<EmitterT>*>(&e))
 				{
 					auto& t = p->Get();
@@ -66,6 +71,7 @@ namespace bertini {
 						precision_increased_ = true;
 						next_precision_ = next;
 						time_of_first_increase_ = t.CurrentTime();
+						tracking_ = false;
 						t.RemoveObserver(*this);
 					}
 
@@ -101,9 +107,10 @@ namespace bertini {
 
 		private:
 
-			unsigned starting_precision_;
-			unsigned next_precision_;
-			bool precision_increased_;
+			unsigned starting_precision_ = 0;
+			unsigned next_precision_ = 0;
+			bool precision_increased_ = false;
+			bool tracking_ = false;
 			typename TrackerTraits<TrackerT>::BaseComplexType time_of_first_increase_;
 		};
 
-- 
2.43.0


From 979864544b3e9e58fe4dfeec1abd505290361df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:15 +0000
Subject: [PATCH 35/35] fix: endgame sample times approach the target time for
 every sample factor

---
 core/include/bertini2/endgames/base_endgame.hpp | 2 +-
 core/include/bertini2/endgames/powerseries.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/endgames/base_endgame.hpp b/core/include/bertini2/endgames/base_endgame.hpp
index 6fe1657..5eb9c6b 100644
--- a/core/include/bertini2/endgames/base_endgame.hpp
+++ b/core/include/bertini2/endgames/base_endgame.hpp
@@ -359,7 +359,7 @@ public:
 		//start at 1, because the input point is the 0th element.
 		for(int ii=1; ii < this->template Get<EndgameConfig>().num_sample_points; ++ii)
 		{ 
-			times.emplace_back((times[ii-1] + target_time) * RT(this->template Get<EndgameConfig>().sample_factor)); // next time is a point between the previous time and target time.
+			times.emplace_back(target_time + (times[ii-1] - target_time) * RT(this->template Get<EndgameConfig>().sample_factor)); // next time is a point between the previous time and target time.
 			samples.emplace_back(Vec<CT>(num_vars));											   // sample_factor gives us some point between the two, usually the midpoint.		
 
 			auto tracking_success = this->GetTracker().TrackPath(samples[ii],times[ii-1],times[ii],samples[ii-1]);
diff --git a/core/include/bertini2/endgames/powerseries.hpp b/core/include/bertini2/endgames/powerseries.hpp
index 8a6f5f4..d43fdfa 100644
--- a/core/include/bertini2/endgames/powerseries.hpp
+++ b/core/include/bertini2/endgames/powerseries.hpp
@@ -574,7 +574,7 @@ public:
 		AssertSizesTimeSpaceDeriv<CT>();
 
 		Vec<CT> next_sample;
-		CT next_time = (times.back() + target_time) * static_cast<RT>(this->EndgameSettings().sample_factor); //setting up next time value using the midpoint formula, sample_factor will give us some 
+		CT next_time = target_time + (times.back() - target_time) * static_cast<RT>(this->EndgameSettings().sample_factor); //setting up next time value using the midpoint formula, sample_factor will give us some 
 
   		if (abs(next_time - target_time) < this->EndgameSettings().min_track_time) // generalized for target_time not equal to 0.
   		{
-- 
2.43.0

