From 34ae8f2250fca966aa72f595bca1afc990bc40c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:54 +0000
Subject: [PATCH 01/14] fix: resetStartingPoint also forgets the dual starting
 point

The dual starting point lives in the storage of the primal one; after a reset
it was still registered although that storage had been dropped, so a following
get_starting_point (or setxInit) worked on stale multipliers.
---
 src/Interfaces/BonTMINLP2TNLP.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/BonTMINLP2TNLP.cpp b/src/Interfaces/BonTMINLP2TNLP.cpp
index e5ee820..7bb9e2a 100644
--- a/src/Interfaces/BonTMINLP2TNLP.cpp
+++ b/src/Interfaces/BonTMINLP2TNLP.cpp
@@ -281,6 +281,7 @@ namespace Bonmin
   {
     curr_warm_starter_ = NULL;
     x_init_.clear();
+    duals_init_ = NULL;
   }
 
   void TMINLP2TNLP::setxInit(Index n,const Number* x_init)
-- 
2.43.0


From fcef158a8f5a60da13d314c491e6553bc4fdd260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:56 +0000
Subject: [PATCH 02/14] fix: setDblParam refuses the primal tolerance instead
 of falling through

The OsiPrimalTolerance case said it could not set the parameter and then fell
through to the OsiObjOffset case, storing the value and returning true.
---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 7271c30..9598bdf 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -1613,6 +1613,7 @@ OsiTMINLPInterface::setDblParam(OsiDblParam key, double value)
   case OsiPrimalTolerance:
     (*handler_)<<"Can not set primal tolerance parameter"<<CoinMessageEol;
     retval = false;
+    break;
   case OsiObjOffset:
     retval = OsiSolverInterface::setDblParam(key,value);
     break;
-- 
2.43.0


From 4b896b9c15e0f46a0b1130ee149c07613fe7e1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:45 +0000
Subject: [PATCH 03/14] fix: assigning an NLP relaxation does not keep the old
 results

operator= copied x_sol_, g_sol_ and duals_sol_ only when the right-hand side
had them, so an assigned object kept the results of its former self.
---
 src/Interfaces/BonTMINLP2TNLP.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Interfaces/BonTMINLP2TNLP.cpp b/src/Interfaces/BonTMINLP2TNLP.cpp
index 7bb9e2a..d05b6b7 100644
--- a/src/Interfaces/BonTMINLP2TNLP.cpp
+++ b/src/Interfaces/BonTMINLP2TNLP.cpp
@@ -171,6 +171,10 @@ namespace Bonmin
 
   void
   TMINLP2TNLP::gutsOfDelete(){
+    // forget stored results (gutsOfCopy only copies those that other has)
+    x_sol_.clear();
+    g_sol_.clear();
+    duals_sol_.clear();
   }
 
   /** Copies all the arrays. 
-- 
2.43.0


From 8f2591c091bd86f4a2ab6efff5f774211f9d98ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:55 +0000
Subject: [PATCH 04/14] fix: keep row bounds and rows together when dropping
 non-binding rows from the linear relaxation

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 9598bdf..4f918e2 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2491,9 +2491,6 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
   CoinPackedMatrix mat(true, jRow_, jCol_, jValues_, nnz_jac_g);
   mat.setDimensions(m,n); // In case matrix was empty, this should be enough
   
-  //remove non-bindings equality constraints
-  mat.deleteRows(numNonBindings, nonBindings());
-
   int numcols=getNumCols();
   vector<double> obj(numcols);
   for(int i = 0 ; i < numcols ; i++){
@@ -2510,6 +2507,9 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
   }
 
   si.loadProblem(mat, colLower(), colUpper(), obj(), rowLow(), rowUp());
+  //remove non-bindings equality constraints (together with their bounds)
+  if(numNonBindings > 0)
+    si.deleteRows(numNonBindings, nonBindings());
   for(int i = 0 ; i < numcols ; i++) {
     if(isInteger(i))
       si.setInteger(i);
-- 
2.43.0


From 3968f438630d7a144d3ba6578315546ef6a31f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:36 +0000
Subject: [PATCH 05/14] fix: remove cleaned coefficients from the linear
 relaxation instead of keeping them with adjusted bounds

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 4f918e2..5a5f0e0 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2479,6 +2479,8 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
           if(rowUp[jRow_[i]] < infty)
           rowUp[jRow_[i]] += jValues_[i] *x[jCol_[i]];
        }
+       else
+          jValues_[i] = 0.;//removed, its effect is in the row bounds
     }
     else {
       //double value = jValues_[i] * x[jCol_[i]];
-- 
2.43.0


From 19a105df50ee7242f4aea0dfdf748ae15ac72ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:50 +0000
Subject: [PATCH 06/14] fix: Jacobian of the feasibility problem: size passed
 on, offsets of the extra rows

---
 src/Interfaces/BonTNLP2FPNLP.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.cpp b/src/Interfaces/BonTNLP2FPNLP.cpp
index 913f8e6..abfd829 100644
--- a/src/Interfaces/BonTNLP2FPNLP.cpp
+++ b/src/Interfaces/BonTNLP2FPNLP.cpp
@@ -254,7 +254,7 @@ namespace Bonmin
 
     if(use_cutoff_constraint_ && use_local_branching_constraint_) {
       int n_integers = (int)vals_.size();
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n - n_integers, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m - 2, nele_jac - n - n_integers, 
 				   iRow, jCol, values);
 
       if (iRow && jCol && !values) { //Initialization phase 
@@ -268,9 +268,8 @@ namespace Bonmin
 	  jCol[i] = i + index_correction;
 	}
 	// compute the jacobian contribution of the local branching constraint
-	k = nele_jac - n_integers;
-	iRow += k;
-	jCol += k;
+	iRow += n;
+	jCol += n;
 	for(int i = 0; i< n_integers; i++) {
 	  iRow[i] = m - 1 + index_correction;
 	  jCol[i] = inds_[i] + index_correction;
@@ -280,9 +279,8 @@ namespace Bonmin
 	// compute the jacobian contribution of the cutoff constraint
 	Number* grad_f = new Number[n];
 	bool ret_code_grad_f = eval_grad_f(n, x, new_x, grad_f);
+	values += nele_jac - n - n_integers;
 	if(ret_code_grad_f) {
-	  int k = nele_jac - n - n_integers;
-	  values += k;
 	  for(int i = 0; i< n; i++) {
 	    values[i] = grad_f[i];
 	  }
@@ -291,8 +289,7 @@ namespace Bonmin
 	  ret_code = false;
 	delete [] grad_f;
 	// compute the jacobian contribution of the local branching constraint
-	int k = nele_jac - n_integers;
-	values += k;
+	values += n;
 	for(int i = 0; i< n_integers; i++) {
 	  if(vals_[i] <= 0.1)
 	    values[i] = 1.0;
@@ -305,7 +302,7 @@ namespace Bonmin
       }
     }
     else if(use_cutoff_constraint_) {
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m - 1, nele_jac - n, 
 				   iRow, jCol, values);
       
       if (iRow && jCol && !values) { //Initialization phase 
@@ -338,7 +335,7 @@ namespace Bonmin
     }
     else if(use_local_branching_constraint_) {
       int n_integers = (int)vals_.size();
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n_integers, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m - 1, nele_jac - n_integers, 
 				   iRow, jCol, values);
       
       if (iRow && jCol && !values) { //Initialization phase 
-- 
2.43.0


From 5772e637721fe529643af79d1c600a0c813f6718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:50 +0000
Subject: [PATCH 07/14] fix: cutoff constraint of the feasibility problem is on
 the original objective

---
 src/Interfaces/BonTNLP2FPNLP.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.cpp b/src/Interfaces/BonTNLP2FPNLP.cpp
index abfd829..56e8c50 100644
--- a/src/Interfaces/BonTNLP2FPNLP.cpp
+++ b/src/Interfaces/BonTNLP2FPNLP.cpp
@@ -206,7 +206,7 @@ namespace Bonmin
       ret_code = tnlp_->eval_g(n, x, new_x, m-2, g);
       // compute the value of the cutoff constraint
       Number obj_value;
-      if(eval_f(n, x, new_x, obj_value))
+      if(tnlp_->eval_f(n, x, new_x, obj_value))
 	g[m-2] = obj_value;
       else
 	ret_code = false;
@@ -223,7 +223,7 @@ namespace Bonmin
     else if(use_cutoff_constraint_) {
       ret_code = tnlp_->eval_g(n, x, new_x, m-1, g);
       Number obj_value;
-      if(eval_f(n, x, new_x, obj_value))
+      if(tnlp_->eval_f(n, x, new_x, obj_value))
 	g[m-1] = obj_value;
       else
 	ret_code = false;
@@ -278,7 +278,7 @@ namespace Bonmin
       else if (!iRow & !jCol && values) { //computation phase
 	// compute the jacobian contribution of the cutoff constraint
 	Number* grad_f = new Number[n];
-	bool ret_code_grad_f = eval_grad_f(n, x, new_x, grad_f);
+	bool ret_code_grad_f = tnlp_->eval_grad_f(n, x, new_x, grad_f);
 	values += nele_jac - n - n_integers;
 	if(ret_code_grad_f) {
 	  for(int i = 0; i< n; i++) {
@@ -317,7 +317,7 @@ namespace Bonmin
       }
       else if (!iRow & !jCol && values) { //computation phase
 	Number* grad_f = new Number[n];
-	bool ret_code_grad_f = eval_grad_f(n, x, new_x, grad_f);
+	bool ret_code_grad_f = tnlp_->eval_grad_f(n, x, new_x, grad_f);
 	if(ret_code_grad_f) {
 	  int k = nele_jac - n;
 	  values += k;
-- 
2.43.0


From 2c8ef4458f6a02be7d7fc7c90ebf71bc1151f30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:50 +0000
Subject: [PATCH 08/14] fix: Hessian of the feasibility problem when the
 distance objective is off

---
 src/Interfaces/BonTNLP2FPNLP.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.cpp b/src/Interfaces/BonTNLP2FPNLP.cpp
index 56e8c50..4033d9e 100644
--- a/src/Interfaces/BonTNLP2FPNLP.cpp
+++ b/src/Interfaces/BonTNLP2FPNLP.cpp
@@ -377,27 +377,29 @@ namespace Bonmin
   {
     bool ret_code;
 
-    int  nnz_obj_h = (norm_ == 2) ? (int)inds_.size() : 0;
+    int  nnz_obj_h = (use_feasibility_pump_objective_ && norm_ == 2) ? (int)inds_.size() : 0;
+    // weight of the original objective, see eval_f
+    Number factor = use_feasibility_pump_objective_ ? obj_factor*(1-lambda_)*sigma_ : obj_factor;
 
     if(use_cutoff_constraint_ && use_local_branching_constraint_) {
       double coef_obj = (iRow != NULL)?0 : lambda[m - 2];
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_ + coef_obj, 
+      ret_code = tnlp_->eval_h(n, x, new_x, factor + coef_obj, 
 			       m - 2, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
     else if(use_cutoff_constraint_) {
       double coef_obj = (iRow != NULL)?0 : lambda[m - 1];
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_ + coef_obj, 
+      ret_code = tnlp_->eval_h(n, x, new_x, factor + coef_obj, 
 			       m - 1, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
     else if(use_local_branching_constraint_) {
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_, 
+      ret_code = tnlp_->eval_h(n, x, new_x, factor, 
 			       m - 1, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
     else { // this is the original feasibility pump implementation
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_, 
+      ret_code = tnlp_->eval_h(n, x, new_x, factor, 
 			       m, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
-- 
2.43.0


From b07d50e6b91066f90f097a6197a718039528a728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:50 +0000
Subject: [PATCH 09/14] fix: linearity of the extra constraints of the
 feasibility problem

---
 src/Interfaces/BonTNLP2FPNLP.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.hpp b/src/Interfaces/BonTNLP2FPNLP.hpp
index 991d989..683e872 100644
--- a/src/Interfaces/BonTNLP2FPNLP.hpp
+++ b/src/Interfaces/BonTNLP2FPNLP.hpp
@@ -166,14 +166,15 @@ namespace Bonmin
     virtual bool get_constraints_linearity(Ipopt::Index m, LinearityType* const_types)
     {
       int m2 = m;
-      if(use_cutoff_constraint_) {
-        m2--;
-        const_types[m2] = Ipopt::TNLP::NON_LINEAR;
-      } 
+      // the local branching constraint is the last one, after the cutoff constraint
       if(use_local_branching_constraint_) {
         m2--;
         const_types[m2] = Ipopt::TNLP::LINEAR;
       }
+      if(use_cutoff_constraint_) {
+        m2--;
+        const_types[m2] = Ipopt::TNLP::NON_LINEAR;
+      } 
       return tnlp_->get_constraints_linearity(m2, const_types);
     }
     /** @name Scaling of the objective function */
-- 
2.43.0


From 6280eaa9df97896971bb88f66bc7c2ad76a67006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:18 +0000
Subject: [PATCH 10/14] fix: branch-and-bound claims optimality by default

mipStatus() is FeasibleOptimal from construction on, and stays so when no
search was run (interrupt during the first solve), when a solve failed
(UnsolvedError) and when Cbc stops on numerical difficulties; a reused Bab also
kept the solution of the previous search.
---
 src/CbcBonmin/BonCbc.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index 65fcb20..fac723d 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -105,6 +105,11 @@ namespace Bonmin
   Bab::branchAndBound(BabSetupBase & s)
   {
 
+    // Nothing is known on the problem before the search.
+    mipStatus_ = NoSolutionKnown;
+    delete [] bestSolution_;
+    bestSolution_ = NULL;
+
     double remaining_time = s.getDoubleParameter(BabSetupBase::MaxTime) + CoinCpuTime();
     /* Put a link to this into solver.*/
     OsiBabSolver *  babInfo = dynamic_cast<OsiBabSolver *>(s.continuousSolver()->getAuxiliaryInfo());
@@ -679,8 +684,11 @@ namespace Bonmin
            mipStatus_ = NoSolutionKnown;
          }
     }
-    else if (model_.status()==2) {
-      status = TMINLP::MINLP_ERROR;
+    else {
+      if (model_.status()==2) {
+        status = TMINLP::MINLP_ERROR;
+      }
+      mipStatus_ = bestSolution_ ? Feasible : NoSolutionKnown;
     }
   }
   s.nonlinearSolver()->model()->finalize_solution(status,
-- 
2.43.0


From 149835cc6b0cea8636d719cbb6fca5f503753d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:29 +0000
Subject: [PATCH 11/14] fix: fixIntegers and relaxIntegers read past the
 variable types of the NLP

The feasibility checker and the outer approximation algorithm describe the LP,
which has one more column (the objective) than the NLP, and fix the NLP with it.
---
 src/Algorithms/BonSolverHelp.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Algorithms/BonSolverHelp.cpp b/src/Algorithms/BonSolverHelp.cpp
index f17db57..782f87d 100644
--- a/src/Algorithms/BonSolverHelp.cpp
+++ b/src/Algorithms/BonSolverHelp.cpp
@@ -58,7 +58,9 @@ void fixIntegers(OsiSolverInterface & si,
   }
   else {
     const double * colsol = info.solution_;
-    for (int i = 0; i < info.numberColumns_; i++) {
+    // info may describe the LP, which has one more column than the NLP
+    int numcols = si.getNumCols();
+    for (int i = 0; i < numcols; i++) {
       if (si.isInteger(i)) {
         double  value =  colsol[i];
 #ifndef NDEBUG
@@ -108,7 +110,8 @@ void relaxIntegers(OsiSolverInterface & si,
     }
   }
   else {
-    for (int i = 0; i < info.numberColumns_; i++) {
+    int numcols = si.getNumCols();
+    for (int i = 0; i < numcols; i++) {
       if (si.isInteger(i)) {
         const int &colNumber = i;
         si.setColLower(colNumber, si.getColLower()[colNumber] - integer_tolerance); 
-- 
2.43.0


From 0afd3bc9d8fadd5c3c997158388696f50fabec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:29 +0000
Subject: [PATCH 12/14] fix: outer approximation aborts when an incumbent has
 objective zero

The new cutoff is then equal to it; it is larger for a negative cutoff_decr,
which the option allows for non-convex problems.
---
 src/Algorithms/OaGenerators/BonOACutGenerator2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
index 33d9c80..e5bf05d 100644
--- a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
+++ b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
@@ -147,7 +147,7 @@ namespace Bonmin
         // Update the cutoff
         ub = std::min(nlp_->getObjValue(), ub);
         cutoff = ub > 0 ? ub *(1 - parameters_.cbcCutoffIncrement_) : ub*(1 + parameters_.cbcCutoffIncrement_);
-        assert(cutoff < ub);
+        assert(cutoff <= ub || parameters_.cbcCutoffIncrement_ < 0);
         // Update the lp solver cutoff
         lp->setDblParam(OsiDualObjectiveLimit, cutoff);
         numSols_++;
-- 
2.43.0


From 590e44bcede49f7933e6716e8b7817181aa219d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:14 +0000
Subject: [PATCH 13/14] fix: outer approximation never ended when the solution
 limit was reached at an integral LP optimum

---
 src/Algorithms/OaGenerators/BonOACutGenerator2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
index e5bf05d..1d6d923 100644
--- a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
+++ b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
@@ -264,7 +264,8 @@ namespace Bonmin
 		  feasible = 0;
 		}
       }
-      
+      else // no further integer point is available
+        break;
     }
 
    if(milpBound >= cutoff){
-- 
2.43.0


From 90c66cfa12e80678659431b57385ff463228d581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:18 +0000
Subject: [PATCH 14/14] fix: milp_solver=Cbc_Par fails on the unregistered
 option probing_cuts

---
 src/Algorithms/BonCbcLpStrategy.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Algorithms/BonCbcLpStrategy.cpp b/src/Algorithms/BonCbcLpStrategy.cpp
index 35efae8..6a44931 100644
--- a/src/Algorithms/BonCbcLpStrategy.cpp
+++ b/src/Algorithms/BonCbcLpStrategy.cpp
@@ -60,11 +60,10 @@ namespace Bonmin
 
     int k = 0;
     
-    bool set = s.options()->GetIntegerValue("probing_cuts", gen_freqs_[k], prefix);
-    if(set==0) gen_freqs_[k] = -99;
+    gen_freqs_[k] = -99;//probing_cuts is not a registered option
     k++;
 
-    set = s.options()->GetIntegerValue("Gomory_cuts", gen_freqs_[k], prefix);
+    bool set = s.options()->GetIntegerValue("Gomory_cuts", gen_freqs_[k], prefix);
     if(set==0) gen_freqs_[k] = -99;
     k++;
     
-- 
2.43.0

