From ec8eb9f29732b96da37b8f4a3e5233a3b1fa25de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:11 +0000
Subject: [PATCH 01/12] fix: keep factorize_Rn entries aligned with Rn when a
 product is empty

---
 src/ami_base_optimize.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ami_base_optimize.cpp b/src/ami_base_optimize.cpp
index f990fe9..8823f47 100644
--- a/src/ami_base_optimize.cpp
+++ b/src/ami_base_optimize.cpp
@@ -307,9 +307,9 @@ void AmiBase::factorize_Rn(Ri_t &Rn, g_prod_t &unique_g, R_ref_t &Rref,
       }
     }
 
-    if (ref_v.size() != 0) {
-      Rref.push_back(ref_v);
-    }
+    // An empty product keeps its (empty) entry, so that the indices stored in
+    // Eval_list stay those of Rn.
+    Rref.push_back(ref_v);
   }
 
 
-- 
2.43.0


From 71b327147e333d5b89c91037606a30f96c5076b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:11 +0000
Subject: [PATCH 02/12] fix: apply the prefactor once in the optimized
 evaluations

---
 src/ami_base_evaluate.cpp       | 15 +++++++--------
 src/ami_base_terms_evaluate.cpp | 12 +++++++-----
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 290ae54..94990ac 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -85,8 +85,9 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
   std::complex<double> gprod;
 #endif
   
-
-  
+  // the prefactor belongs to each term once, not to each of its G's
+  ami_vars no_prefactor = external;
+  no_prefactor.prefactor = 1.0;
 
   for (int i = 0; i < unique_g.size(); i++) {
     // Context: we pretend each G is a g_prod and use the same function as the normal
@@ -95,8 +96,7 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
     this_term.push_back(unique_g[i]);
 
 #ifdef BOOST_MP
-	gprod =
-        eval_gprod_mp(parms, this_term, external) * prefactor;
+	gprod = eval_gprod_mp(parms, this_term, no_prefactor);
 
 
 	if ((boost::multiprecision::abs(std::real(gprod)) > precision_cutoff) ||
@@ -104,8 +104,7 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
       overflow_detected = true;
     }
 #else
-	gprod =
-			eval_gprod(parms, this_term, external) * prefactor;
+	gprod = eval_gprod(parms, this_term, no_prefactor);
 	
 
     if ((std::abs(std::real(gprod)) > precision_cutoff) ||
@@ -114,8 +113,8 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
     }
 #endif
 
-    unique_vals.push_back(gprod); // This removes the overall prefactor for
-                                  // each g. we then add that back later
+    unique_vals.push_back(gprod); // The overall prefactor is left out of each
+                                  // g. we then add that back later
   }
 
 
diff --git a/src/ami_base_terms_evaluate.cpp b/src/ami_base_terms_evaluate.cpp
index d31d3ba..440c609 100644
--- a/src/ami_base_terms_evaluate.cpp
+++ b/src/ami_base_terms_evaluate.cpp
@@ -35,6 +35,10 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
 
   // std::cout<<"External prefactor is "<<external.prefactor<<std::endl;
 
+  // the prefactor belongs to each term once, not to each of its G's
+  ami_vars no_prefactor = external;
+  no_prefactor.prefactor = 1.0;
+
   for (int i = 0; i < unique_g.size(); i++) {
     // we pretend each G is a g_prod and use the same function as the normal
     // star operation for evaluating products of G's
@@ -42,8 +46,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
     this_term.push_back(unique_g[i]);
 
 #ifdef BOOST_MP
-	gprod =
-        eval_gprod_mp(parms, this_term, external) * prefactor;
+	gprod = eval_gprod_mp(parms, this_term, no_prefactor);
 
 
 	if ((boost::multiprecision::abs(std::real(gprod)) > precision_cutoff) ||
@@ -51,8 +54,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
       overflow_detected = true;
     }
 #else
-	gprod =
-			eval_gprod(parms, this_term, external) * prefactor;
+	gprod = eval_gprod(parms, this_term, no_prefactor);
 	
 
     if ((std::abs(std::real(gprod)) > precision_cutoff) ||
@@ -61,7 +63,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
     }
 #endif
 
-    unique_vals.push_back(gprod); // This removes the overall prefactor for each g. we then add that back later
+    unique_vals.push_back(gprod); // The overall prefactor is left out of each g. we then add that back later
   }
 
   // now evaluate each term in list
-- 
2.43.0


From df20b9438dcf90748fd63774395d9d89bc728ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:11 +0000
Subject: [PATCH 03/12] fix: propagate species_ through the residue
 substitution

---
 src/ami_base_construct.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ami_base_construct.cpp b/src/ami_base_construct.cpp
index 2a77cbb..c15bc74 100644
--- a/src/ami_base_construct.cpp
+++ b/src/ami_base_construct.cpp
@@ -129,6 +129,7 @@ AmiBase::g_prod_t AmiBase::simple_residue(AmiBase::g_prod_t G_in,
 AmiBase::g_struct AmiBase::update_G_pole(AmiBase::g_struct g_in,
                                          AmiBase::pole_struct pole) {
   AmiBase::g_struct g_new;
+  g_new.species_ = g_in.species_;
 
   for (int i = 0; i < g_in.alpha_.size(); i++) {
     if (i != pole.index_) {
-- 
2.43.0


From d9fae2bc1d67f314a5ab465baedddf759fd4407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:11 +0000
Subject: [PATCH 04/12] fix: initialise the members of a default constructed
 ami_parms

---
 src/ami_base.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ami_base.hpp b/src/ami_base.hpp
index e1e9100..21c74ce 100644
--- a/src/ami_base.hpp
+++ b/src/ami_base.hpp
@@ -206,7 +206,7 @@ public:
   /// Parameters for AMI construction/evaluation.
   struct ami_parms {
     /// Number of integrations to perform.
-    int N_INT_;
+    int N_INT_ = 0;
     /// Hardcoded as (1) in this version - represents number of external
     /// variables.
     int N_EXT_ = 1;
@@ -248,9 +248,9 @@ public:
 
     ami_parms() {}
 
-    graph_type TYPE_;
-    int_type int_type_;
-    disp_type dispersion_;
+    graph_type TYPE_ = Sigma;
+    int_type int_type_ = hubbard;
+    disp_type dispersion_ = tb;
   };
 
   /// A Green's function structure.  This is a symbolic vector of `epsilon_t`
-- 
2.43.0


From 3376b448a451158b5fdf6c70b969eb2806d7f5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 05/12] fix: evaluate_otf finds coincident poles of oppositely
 oriented lines

---
 src/ami_base_evaluate.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 94990ac..7297942 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -811,8 +811,18 @@ for (int ord=0; ord<R_array.size(); ord++){
         
         if(eps_m==eps_n){ // || std::abs(eps_m-eps_n)<1e-15){
         
-        std::vector<int> this_pair{ord,num,m,n};
+        std::vector<int> this_pair{ord,num,m,n,1};
         equal_pairs.push_back(this_pair);
+        } else if (eps_m == -eps_n) {
+          // Lines of opposite orientation have the same pole when their
+          // energies are opposite.
+          epsilon_t minus_n = R_array[ord][num][n].eps_;
+          for (int a = 0; a < minus_n.size(); a++) { minus_n[a] = -minus_n[a]; }
+
+          if (!isEqual(R_array[ord][num][m].eps_, minus_n)) {
+            std::vector<int> this_pair{ord,num,m,n,-1};
+            equal_pairs.push_back(this_pair);
+          }
         }
         
       }
@@ -967,8 +977,8 @@ std::complex<double> calc_result=evaluate(parms,R_array, P_array, S_array,  exte
   return calc_result;
 }
 
-int triggers_start;//=triggers[0][0];
-int pairs_start;//=pairs[0][0];
+int triggers_start=-1;//=triggers[0][0];
+int pairs_start=-1;//=pairs[0][0];
 
 int problem_start;
 
@@ -1043,6 +1053,11 @@ int m=pairs[i][2];
 int n=pairs[i][3];
 
 R_otf[a][b][m].eps_=R_otf[a][b][n].eps_;  
+
+// the last entry is -1 for a pair of opposite energies
+for(int k=0; k< R_otf[a][b][m].eps_.size(); k++){
+  R_otf[a][b][m].eps_[k]*=pairs[i][4];
+}
   
 }
 }
-- 
2.43.0


From bc4d1002f39f51b63d3fe667f5ec01812a405147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:35 +0000
Subject: [PATCH 06/12] fix: a bosonic external frequency does not turn a
 zero-energy pole into a Matsubara pole

---
 src/ami_base.hpp           | 14 +++++++++++---
 src/ami_base_construct.cpp | 13 +++++++++----
 src/ami_base_evaluate.cpp  |  8 +++-----
 src/ami_base_terms.cpp     | 19 +++++++++++--------
 4 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/ami_base.hpp b/src/ami_base.hpp
index 21c74ce..ba432b1 100644
--- a/src/ami_base.hpp
+++ b/src/ami_base.hpp
@@ -393,7 +393,8 @@ public:
                                   ami_vars &external);
 
   /// Integrates a single Matsubara index.
-  void integrate_step(int index, terms &in_terms, terms &out_terms);
+  void integrate_step(int index, terms &in_terms, terms &out_terms,
+                      bool bosonic_ext = false);
 
   void split_term(term &this_term, pole_struct this_pole, term &innert_part,
                   term &active_part);
@@ -421,6 +422,12 @@ public:
   */
   typedef std::vector<std::vector<std::complex<double>>> SorF_t;
 
+  /// True for the graph types whose external line is bosonic.
+  bool has_bosonic_external(graph_type type) {
+    return type == Pi_phuu || type == Pi_phud || type == doubleocc ||
+           type == Pi_ppuu || type == Pi_ppud || type == FORCE;
+  }
+
   // Functions for poles
   /*
   Given an array of Green's functions, finds all poles with respect to frequency
@@ -428,7 +435,7 @@ public:
   well as `which_g_`, an identifier that specifies which Green's function it was
   attached to.
   */
-  pole_array_t find_poles(int index, g_prod_t &R);
+  pole_array_t find_poles(int index, g_prod_t &R, bool bosonic_ext = false);
 
   // Residue Functions
   g_prod_t simple_residue(g_prod_t G_in, pole_struct pole);
@@ -445,7 +452,8 @@ public:
   void update_gprod_simple(int index, R_t &R_array, P_t &P_array, S_t &S_array);
 
   void update_gprod_general(int int_index, int array_index, R_t &R_array,
-                            P_t &P_array, S_t &S_array);
+                            P_t &P_array, S_t &S_array,
+                            bool bosonic_ext = false);
 
   // Functions for Evaluation
   std::complex<double> star(ami_parms &parms, SorF_t H, Ri_t R,
diff --git a/src/ami_base_construct.cpp b/src/ami_base_construct.cpp
index c15bc74..2640cf0 100644
--- a/src/ami_base_construct.cpp
+++ b/src/ami_base_construct.cpp
@@ -27,7 +27,8 @@ void AmiBase::construct(ami_parms &parms, g_prod_t R0, R_t &R_array,
   // residue for each and collect those in an array.
 
   for (int index = 0; index < dim; index++) {
-    update_gprod_general(index, index, R_array, P_array, S_array);
+    update_gprod_general(index, index, R_array, P_array, S_array,
+                         has_bosonic_external(parms.TYPE_));
   }
 }
 
@@ -46,7 +47,8 @@ void AmiBase::construct(ami_parms &parms, g_prod_t R0, R_t &R_array,
  */
 void AmiBase::update_gprod_general(int int_index, int array_index,
                                    AmiBase::R_t &R_array, AmiBase::P_t &P_array,
-                                   AmiBase::S_t &S_array) {
+                                   AmiBase::S_t &S_array,
+                                   bool bosonic_ext) {
   Ri_t g_in;
 
   g_prod_array_t temp_g_array;
@@ -58,7 +60,7 @@ void AmiBase::update_gprod_general(int int_index, int array_index,
     pole_array_t p_out, temp_p;
 
     pole_array_t poles;
-    poles = find_poles(int_index, R_array[array_index][j]);
+    poles = find_poles(int_index, R_array[array_index][j], bosonic_ext);
 
     pole_array_t cor_poles;
     sign_t col_signs;
@@ -191,7 +193,8 @@ AmiBase::pole_struct AmiBase::update_Z_pole(AmiBase::pole_struct p_in,
 poles with respect to index.
 
 */
-AmiBase::pole_array_t AmiBase::find_poles(int index, AmiBase::g_prod_t &R) {
+AmiBase::pole_array_t AmiBase::find_poles(int index, AmiBase::g_prod_t &R,
+                                          bool bosonic_ext) {
   pole_array_t pole_array;
   pole_struct pole;
 
@@ -258,6 +261,8 @@ AmiBase::pole_array_t AmiBase::find_poles(int index, AmiBase::g_prod_t &R) {
         if(!non_zero){
           int nucount=0;
           for(int i=0; i<pole.alpha_.size(); i++){
+            // a bosonic external frequency does not change the statistics
+            if(bosonic_ext && i==pole.alpha_.size()-1){ continue;}
             if(pole.alpha_[i]!=0){ nucount++;}
           }
           // int nucount = std::count(pole.alpha_.begin(), pole.alpha_.end(), 0);
diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 7297942..5120a13 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -446,10 +446,7 @@ std::complex<double> AmiBase::fermi_pole(ami_parms &parms, pole_struct pole,
   }
 
   // handle external based on graph type
-  if (pole.alpha_.back() != 0 && parms.TYPE_ != AmiBase::Pi_phuu &&
-      parms.TYPE_ != AmiBase::Pi_phud && parms.TYPE_ != AmiBase::doubleocc &&
-      parms.TYPE_ != AmiBase::Pi_ppuu && parms.TYPE_ != AmiBase::Pi_ppud &&
-      parms.TYPE_ != AmiBase::FORCE) {
+  if (pole.alpha_.back() != 0 && !has_bosonic_external(parms.TYPE_)) {
     eta++;
    
   }
@@ -1070,7 +1067,8 @@ int dim = parms.N_INT_;
  for (int index = R_otf.size()-1; index < dim; index++) {
    // std::cout<<"On index:"<< index<<std::endl;
    // std::cout<<"Size of R before "<<R_otf.size()<<std::endl;
-    update_gprod_general(index, index, R_otf, P_otf, S_otf);
+    update_gprod_general(index, index, R_otf, P_otf, S_otf,
+                         has_bosonic_external(parms.TYPE_));
     // std::cout<<"Size of R after "<<R_otf.size()<<std::endl;
     // if the last entry of R has size==0 then there were no suitable poles and the result is just zero 
     // debugging: if there are no poles then R will be empty. how is this separate from when R is empty when there are poles but no remaining Green's functions?
diff --git a/src/ami_base_terms.cpp b/src/ami_base_terms.cpp
index 0e9a0d9..02b774b 100644
--- a/src/ami_base_terms.cpp
+++ b/src/ami_base_terms.cpp
@@ -10,6 +10,11 @@
  * later evaluation.
  */
 void AmiBase::construct(int N_INT, g_prod_t R0, terms &terms_out) {
+  ami_parms parms(N_INT, 0);
+  construct(parms, R0, terms_out);
+}
+
+void AmiBase::construct(ami_parms &parms, g_prod_t R0, terms &terms_out) {
   terms_out.clear();
 
   pole_array_t p;
@@ -19,9 +24,10 @@ void AmiBase::construct(int N_INT, g_prod_t R0, terms &terms_out) {
 
   terms next_terms;
 
-  for (int index = 0; index < N_INT; index++) {
+  for (int index = 0; index < parms.N_INT_; index++) {
 
-    integrate_step(index, these_terms, next_terms);
+    integrate_step(index, these_terms, next_terms,
+                   has_bosonic_external(parms.TYPE_));
     these_terms = next_terms;
   }
 
@@ -29,16 +35,13 @@ void AmiBase::construct(int N_INT, g_prod_t R0, terms &terms_out) {
   terms_out.insert(terms_out.end(), these_terms.begin(), these_terms.end());
 }
 
-void AmiBase::construct(ami_parms &parms, g_prod_t R0, terms &terms_out) {
-  construct(parms.N_INT_, R0, terms_out);
-}
-
-void AmiBase::integrate_step(int index, terms &in_terms, terms &out_terms) {
+void AmiBase::integrate_step(int index, terms &in_terms, terms &out_terms,
+                             bool bosonic_ext) {
   out_terms.clear();
 
   for (int t_index = 0; t_index < in_terms.size(); t_index++) {
     pole_array_t poles;
-    poles = find_poles(index, in_terms[t_index].g_list);
+    poles = find_poles(index, in_terms[t_index].g_list, bosonic_ext);
 
     for (int i = 0; i < poles.size(); i++) {
       if (poles[i].multiplicity_ == 1) {
-- 
2.43.0


From 101bba80fa6044b61bd652f2a8171f0ab96ecf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:32 +0000
Subject: [PATCH 07/12] fix: terms evaluation reports contributions above
 precision_cutoff as overflow

---
 src/ami_base_terms_evaluate.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ami_base_terms_evaluate.cpp b/src/ami_base_terms_evaluate.cpp
index 440c609..2082246 100644
--- a/src/ami_base_terms_evaluate.cpp
+++ b/src/ami_base_terms_evaluate.cpp
@@ -232,6 +232,11 @@ std::complex<double> AmiBase::evaluate_term(ami_parms &parms, term &ami_term,
 
   output = ami_term.sign * gprod * fprod;
 
+  if ((std::abs(std::real(output)) > precision_cutoff) ||
+      (std::abs(std::imag(output)) > precision_cutoff)) {
+    overflow_detected = true;
+  }
+
   if (verbose) {
     std::cout << "Term gave " << ami_term.sign * fprod << " " << gprod << " "
               << output << std::endl;
@@ -262,6 +267,11 @@ std::complex<boost::multiprecision::float128> AmiBase::evaluate_term_mp(ami_parm
   std::complex<boost::multiprecision::float128> sign=dsign;
   output = sign * gprod * fprod;
 
+  if ((boost::multiprecision::abs(std::real(output)) > precision_cutoff) ||
+      (boost::multiprecision::abs(std::imag(output)) > precision_cutoff)) {
+    overflow_detected = true;
+  }
+
   if (verbose) {
     std::cout << "MP Term gave " << sign * fprod << " " << gprod << " "
               << output << std::endl;
-- 
2.43.0


From a41d4e1c87dcc093f3212c8025c109ec3592448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 08/12] fix: recognise products with repeated Green's functions
 as equivalent

---
 src/ami_base_optimize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ami_base_optimize.cpp b/src/ami_base_optimize.cpp
index 8823f47..cadc1eb 100644
--- a/src/ami_base_optimize.cpp
+++ b/src/ami_base_optimize.cpp
@@ -203,7 +203,7 @@ bool AmiBase::pair_v_equiv(ref_v_t &r1, ref_v_t &r2, int &r1sign, int &r2sign) {
     if ( (r1[i].first == r2[j].first) && v2[j]==1){
       found=true;
       v2[j]=0;
-      continue; //
+      break; // each entry of r2 matches only one of r1
       
     }
     
-- 
2.43.0


From 1ed85ab0c0cbd7fa3288f7f631b652f7357ae38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:39 +0000
Subject: [PATCH 09/12] fix: the derivative of a result without the external
 frequency is zero

---
 src/ami_base_evaluate.cpp       |  2 +-
 src/ami_base_optimize.cpp       | 11 +++++++++++
 src/ami_base_terms_evaluate.cpp |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 5120a13..c1c0429 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -8,7 +8,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, R_t &R_array,
                                        R_ref_t &Rref, ref_eval_t &Eval_list) {
   overflow_detected = false;
 
-  if (Rref.size() == 0 || unique_g.size() == 0 || Eval_list.size() == 0) {
+  if (Rref.size() == 0 || Eval_list.size() == 0) {
     return evaluate(parms, R_array, P_array, S_array, external);
   }
 
diff --git a/src/ami_base_optimize.cpp b/src/ami_base_optimize.cpp
index cadc1eb..b74a0ef 100644
--- a/src/ami_base_optimize.cpp
+++ b/src/ami_base_optimize.cpp
@@ -52,6 +52,17 @@ void AmiBase::derivative_opt(g_prod_t &unique_g, R_ref_t &Rref,
     }
   }
 
+  if (nRref.size() == 0) {
+    // nothing depends on the external frequency: the derivative is zero. (Empty
+    // lists would stand for an expression that was not factorized.)
+    for (int n = 0; n < Eval_list.size(); n++) {
+      for (int m = 0; m < Eval_list[n].size(); m++) {
+        Eval_list[n][m].second = 0;
+      }
+    }
+    return;
+  }
+
   Rref = nRref;
   Eval_list = nEval_list;
 }
diff --git a/src/ami_base_terms_evaluate.cpp b/src/ami_base_terms_evaluate.cpp
index 2082246..5e59509 100644
--- a/src/ami_base_terms_evaluate.cpp
+++ b/src/ami_base_terms_evaluate.cpp
@@ -7,7 +7,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
                                        R_ref_t &Rref, ref_eval_t &Eval_list) {
   overflow_detected = false;
 
-  if (Rref.size() == 0 || unique_g.size() == 0 || Eval_list.size() == 0) {
+  if (Rref.size() == 0 || Eval_list.size() == 0) {
 	  return evaluate(parms, ami_terms, external);
   }
 
-- 
2.43.0


From 4841d8543dd91c6ba83b1305a55ffe477f301240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:17 +0000
Subject: [PATCH 10/12] fix: the optimized evaluation without integrations uses
 the factorised form

---
 src/ami_base_evaluate.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index c1c0429..5da45fe 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -17,11 +17,8 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, R_t &R_array,
   SorF_t SorF_result;
 
   if (dim == 0) {
-    std::complex<double> gprod;
-
-    gprod = eval_gprod(parms, R_array[0][0], external);
-
-    return gprod;
+    // a single product, which nothing multiplies
+    SorF_result.push_back(std::vector<std::complex<double>>(1, 1.0));
   }
 
   if (dim == 1) {
-- 
2.43.0


From 3b4ae692d54ec49c34c0669d60014ada1189652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 11/12] fix: the simple-pole construction keeps one sign for
 each pole

find_signs lists the coefficients of all lines with the frequency, also of
those whose pole find_poles leaves out, so that signs and poles did not
match.
---
 src/ami_base_construct.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ami_base_construct.cpp b/src/ami_base_construct.cpp
index 2640cf0..baaf779 100644
--- a/src/ami_base_construct.cpp
+++ b/src/ami_base_construct.cpp
@@ -385,8 +385,8 @@ void AmiBase::update_gprod_simple(int index, AmiBase::R_t &R_array,
     pole_array_t poles;
     poles = find_poles(index, R_array[index][j]);
 
+    // one sign for each pole (find_poles can leave lines out)
     sign_t signs;
-    signs = find_signs(index, R_array[index][j]);
 
     pole_array_t cor_poles;
 
@@ -394,6 +394,7 @@ void AmiBase::update_gprod_simple(int index, AmiBase::R_t &R_array,
       for (int m = 0; m < poles[i].multiplicity_; m++) {
         temp_g_array.push_back(simple_residue(R_array[index][j], poles[i]));
         cor_poles.push_back(poles[i]);
+        signs.push_back(get_simple_sign(index, R_array[index][j], poles[i]));
       }
     }
 
-- 
2.43.0


From c53eac6be71f5d1199994de0d25c8f598ce2ace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 12/12] fix: factorials beyond 12! overflowed int, so that
 residues of poles of multiplicity 14 and more were wrong

---
 src/ami_base.hpp           | 2 +-
 src/ami_base_construct.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ami_base.hpp b/src/ami_base.hpp
index ba432b1..7022270 100644
--- a/src/ami_base.hpp
+++ b/src/ami_base.hpp
@@ -68,7 +68,7 @@ public:
 
   /// Simple factorial function. It is rarely called except for multipole
   /// problems, and typically for only small arguments.
-  int factorial(int n);
+  double factorial(int n);
 
   // AmiVars
 
diff --git a/src/ami_base_construct.cpp b/src/ami_base_construct.cpp
index baaf779..962025f 100644
--- a/src/ami_base_construct.cpp
+++ b/src/ami_base_construct.cpp
@@ -543,7 +543,7 @@ double AmiBase::get_starting_sign(AmiBase::g_prod_t G_in,
     result = result * (double)G_in[pole.which_g_[i]].alpha_[pole.index_];
   }
 
-  result = result / (double)factorial(pole.multiplicity_ - 1);
+  result = result / factorial(pole.multiplicity_ - 1);
 
   return result;
 }
@@ -574,6 +574,6 @@ AmiBase::g_prod_t AmiBase::reduce_gprod(AmiBase::g_prod_t G_in,
   return reduced;
 }
 
-int AmiBase::factorial(int n) {
+double AmiBase::factorial(int n) {
   return (n == 1 || n == 0) ? 1 : factorial(n - 1) * n;
 }
\ No newline at end of file
-- 
2.43.0

