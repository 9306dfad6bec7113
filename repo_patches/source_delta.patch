From 58edb543ba3b6b1b3353e2ea1fe77a870c790acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:15 +0000
Subject: [PATCH 01/13] fix: apply the overall prefactor once per term in the
 factorised evaluations

---
 src/ami_base_evaluate.cpp       | 8 ++++++--
 src/ami_base_terms_evaluate.cpp | 9 +++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 290ae54..b7af258 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -88,6 +88,10 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
 
   
 
+  // The overall prefactor belongs to each product, not to each unique G, so the
+  // unique G's are evaluated without it.
+  external.prefactor = 1.0;
+
   for (int i = 0; i < unique_g.size(); i++) {
     // Context: we pretend each G is a g_prod and use the same function as the normal
     // star operation for evaluating products of G's
@@ -96,7 +100,7 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
 
 #ifdef BOOST_MP
 	gprod =
-        eval_gprod_mp(parms, this_term, external) * prefactor;
+        eval_gprod_mp(parms, this_term, external);
 
 
 	if ((boost::multiprecision::abs(std::real(gprod)) > precision_cutoff) ||
@@ -105,7 +109,7 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
     }
 #else
 	gprod =
-			eval_gprod(parms, this_term, external) * prefactor;
+			eval_gprod(parms, this_term, external);
 	
 
     if ((std::abs(std::real(gprod)) > precision_cutoff) ||
diff --git a/src/ami_base_terms_evaluate.cpp b/src/ami_base_terms_evaluate.cpp
index d31d3ba..8fae3ba 100644
--- a/src/ami_base_terms_evaluate.cpp
+++ b/src/ami_base_terms_evaluate.cpp
@@ -35,6 +35,11 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
 
   // std::cout<<"External prefactor is "<<external.prefactor<<std::endl;
 
+  // The overall prefactor belongs to each product, not to each unique G, so the
+  // unique G's are evaluated without it.
+  ami_vars unit_external = external;
+  unit_external.prefactor = 1.0;
+
   for (int i = 0; i < unique_g.size(); i++) {
     // we pretend each G is a g_prod and use the same function as the normal
     // star operation for evaluating products of G's
@@ -43,7 +48,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
 
 #ifdef BOOST_MP
 	gprod =
-        eval_gprod_mp(parms, this_term, external) * prefactor;
+        eval_gprod_mp(parms, this_term, unit_external);
 
 
 	if ((boost::multiprecision::abs(std::real(gprod)) > precision_cutoff) ||
@@ -52,7 +57,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
     }
 #else
 	gprod =
-			eval_gprod(parms, this_term, external) * prefactor;
+			eval_gprod(parms, this_term, unit_external);
 	
 
     if ((std::abs(std::real(gprod)) > precision_cutoff) ||
-- 
2.43.0


From bc8fcbbc68944a6f9bd36b8eff890142ad3ea0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:15 +0000
Subject: [PATCH 02/13] fix: keep empty products in the factorised form so that
 entries stay aligned

---
 src/ami_base_optimize.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ami_base_optimize.cpp b/src/ami_base_optimize.cpp
index f990fe9..73171be 100644
--- a/src/ami_base_optimize.cpp
+++ b/src/ami_base_optimize.cpp
@@ -307,9 +307,9 @@ void AmiBase::factorize_Rn(Ri_t &Rn, g_prod_t &unique_g, R_ref_t &Rref,
       }
     }
 
-    if (ref_v.size() != 0) {
-      Rref.push_back(ref_v);
-    }
+    // an empty product (no G's left) is an entry as well: Rref has to stay
+    // aligned with Rn
+    Rref.push_back(ref_v);
   }
 
 
-- 
2.43.0


From 8c8da3111104c3ddac1d6832d44ba9acd4e5d9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:15 +0000
Subject: [PATCH 03/13] fix: match each factor once in pair_v_equiv so repeated
 factors compare equal

---
 src/ami_base_optimize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ami_base_optimize.cpp b/src/ami_base_optimize.cpp
index 73171be..20622ab 100644
--- a/src/ami_base_optimize.cpp
+++ b/src/ami_base_optimize.cpp
@@ -203,7 +203,7 @@ bool AmiBase::pair_v_equiv(ref_v_t &r1, ref_v_t &r2, int &r1sign, int &r2sign) {
     if ( (r1[i].first == r2[j].first) && v2[j]==1){
       found=true;
       v2[j]=0;
-      continue; //
+      break; // each entry of r2 is matched once
       
     }
     
-- 
2.43.0


From 0e6108704de12c5c522343fbffd8fd92fcc217cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:15 +0000
Subject: [PATCH 04/13] fix: do not read signs.back() of an empty vector in
 g_struct_equiv

---
 src/ami_base_optimize.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ami_base_optimize.cpp b/src/ami_base_optimize.cpp
index 20622ab..f97fb95 100644
--- a/src/ami_base_optimize.cpp
+++ b/src/ami_base_optimize.cpp
@@ -424,8 +424,11 @@ bool AmiBase::g_struct_equiv(g_struct &g1, g_struct &g2, int &sign) {
     }
   }
 
-  // in principle if the code gets here the size of signs is >0 so don't need
-  // to check that
+  // two all-zero structures are identical
+  if (signs.empty()) {
+    sign = 1;
+    return true;
+  }
 
 
   if (std::adjacent_find(signs.begin(), signs.end(),
-- 
2.43.0


From 023f39dba4a6ff8902dd9b346f7a18928339163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:15 +0000
Subject: [PATCH 05/13] fix: find_poles on an empty product returns no poles
 instead of reading R[0]

---
 src/ami_base_construct.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ami_base_construct.cpp b/src/ami_base_construct.cpp
index 2a77cbb..c674883 100644
--- a/src/ami_base_construct.cpp
+++ b/src/ami_base_construct.cpp
@@ -194,6 +194,10 @@ AmiBase::pole_array_t AmiBase::find_poles(int index, AmiBase::g_prod_t &R) {
   pole_array_t pole_array;
   pole_struct pole;
 
+  if (R.empty()) {
+    return pole_array; // no G's left, so no poles
+  }
+
   pole.alpha_.reserve(R[0].alpha_.size());
   pole.eps_.reserve(R[0].eps_.size());
 
-- 
2.43.0


From 8d30e2e06423c2d7fb5358a581522f9740c24dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:15 +0000
Subject: [PATCH 06/13] fix: propagate species_ through the residue
 substitution

---
 src/ami_base_construct.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ami_base_construct.cpp b/src/ami_base_construct.cpp
index c674883..db68a56 100644
--- a/src/ami_base_construct.cpp
+++ b/src/ami_base_construct.cpp
@@ -129,6 +129,7 @@ AmiBase::g_prod_t AmiBase::simple_residue(AmiBase::g_prod_t G_in,
 AmiBase::g_struct AmiBase::update_G_pole(AmiBase::g_struct g_in,
                                          AmiBase::pole_struct pole) {
   AmiBase::g_struct g_new;
+  g_new.species_ = g_in.species_;
 
   for (int i = 0; i < g_in.alpha_.size(); i++) {
     if (i != pole.index_) {
-- 
2.43.0


From 6d2ce39e6ac56693ca1e56c5312b384813928439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 07/13] fix: derivative_opt of an expression without external
 frequency evaluates to zero

---
 src/ami_base_optimize.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ami_base_optimize.cpp b/src/ami_base_optimize.cpp
index f97fb95..ea9cdab 100644
--- a/src/ami_base_optimize.cpp
+++ b/src/ami_base_optimize.cpp
@@ -52,6 +52,17 @@ void AmiBase::derivative_opt(g_prod_t &unique_g, R_ref_t &Rref,
     }
   }
 
+  // Nothing depends on the external frequency: the derivative is zero.  Empty
+  // lists would mean 'not factorised' to evaluate, so keep one zero entry.
+  if (nRref.empty() && !Rref.empty()) {
+    ref_v_t zero_list = Eval_list[0];
+    for (int m = 0; m < zero_list.size(); m++) {
+      zero_list[m].second = 0;
+    }
+    nRref.push_back(Rref[0]);
+    nEval_list.push_back(zero_list);
+  }
+
   Rref = nRref;
   Eval_list = nEval_list;
 }
-- 
2.43.0


From e8c5163dca7480813336503f9e35c81b78023e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 08/13] fix: initialise the OTF start indices that are compared
 when one list is empty

---
 src/ami_base_evaluate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index b7af258..785f81b 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -972,8 +972,8 @@ std::complex<double> calc_result=evaluate(parms,R_array, P_array, S_array,  exte
   return calc_result;
 }
 
-int triggers_start;//=triggers[0][0];
-int pairs_start;//=pairs[0][0];
+int triggers_start=-1;//=triggers[0][0];
+int pairs_start=-1;//=pairs[0][0];
 
 int problem_start;
 
-- 
2.43.0


From c9e9f7797cee6a9bbb4824b2c54064008d634306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 09/13] fix: OTF evaluation detects coincident poles of lines
 with opposite orientation

---
 src/ami_base.hpp          |  8 ++++++++
 src/ami_base_evaluate.cpp | 10 +++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/ami_base.hpp b/src/ami_base.hpp
index e1e9100..091f5a6 100644
--- a/src/ami_base.hpp
+++ b/src/ami_base.hpp
@@ -61,6 +61,14 @@ public:
               std::equal(v1.begin(), v1.end(), v2.begin()));
   }
 
+  // checks that every element of v1 is minus that of v2
+  bool isNegative(std::vector<int> const &v1, std::vector<int> const &v2)
+  {
+      return (v1.size() == v2.size() &&
+              std::equal(v1.begin(), v1.end(), v2.begin(),
+                         [](int a, int b) { return a == -b; }));
+  }
+
   // Maximum argument allowed for fermi and bose functions - to prevent inf due
   // to double precision numbers
   // Note: Possible that this prevents catching overflow issues 
diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 785f81b..3382787 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -816,7 +816,12 @@ for (int ord=0; ord<R_array.size(); ord++){
         
         if(eps_m==eps_n){ // || std::abs(eps_m-eps_n)<1e-15){
         
-        std::vector<int> this_pair{ord,num,m,n};
+        std::vector<int> this_pair{ord,num,m,n,1};
+        equal_pairs.push_back(this_pair);
+        }else if(eps_m==-eps_n && !isNegative(R_array[ord][num][m].eps_,R_array[ord][num][n].eps_)){
+        // the same line written with the opposite overall sign
+
+        std::vector<int> this_pair{ord,num,m,n,-1};
         equal_pairs.push_back(this_pair);
         }
         
@@ -1048,6 +1053,9 @@ int m=pairs[i][2];
 int n=pairs[i][3];
 
 R_otf[a][b][m].eps_=R_otf[a][b][n].eps_;  
+if(pairs[i][4]<0){
+std::transform(R_otf[a][b][m].eps_.begin(), R_otf[a][b][m].eps_.end(), R_otf[a][b][m].eps_.begin(), std::negate<int>());
+}
   
 }
 }
-- 
2.43.0


From 459d5f399c2dd75e7c85de526ee4b7803c31f101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 10/13] fix: a term without propagators is not an overflow

The product over an empty list of Green's functions is exactly the prefactor,
so an integer value of it does not indicate lost precision. It made the term by
term evaluation report an overflow at every point.
---
 src/ami_base_evaluate.cpp       |  5 +++--
 src/ami_base_terms_evaluate.cpp | 10 ++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 3382787..31d37d3 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -312,8 +312,9 @@ std::complex<double> AmiBase::star(ami_parms &parms, SorF_t K, Ri_t R,
         overflow_detected = true;
       } else {
         // edit -> G can be exactly equal to 1 without indicating an
-        // overflow
-        if ((std::floor(std::abs(std::real(gprod))) ==
+        // overflow. The same holds for an empty product, which is exactly the
+        // prefactor.
+        if (R[i].size() != 0 && (std::floor(std::abs(std::real(gprod))) ==
              std::abs(std::real(gprod))) &&
             std::abs(std::real(gprod)) != 1) {
          
diff --git a/src/ami_base_terms_evaluate.cpp b/src/ami_base_terms_evaluate.cpp
index 8fae3ba..d04d9dd 100644
--- a/src/ami_base_terms_evaluate.cpp
+++ b/src/ami_base_terms_evaluate.cpp
@@ -221,8 +221,9 @@ std::complex<double> AmiBase::evaluate_term(ami_parms &parms, term &ami_term,
 
   gprod = eval_gprod(parms, ami_term.g_list, external);
 
-  // check for overflow
-  if ((std::floor(std::abs(std::real(gprod))) == std::abs(std::real(gprod))) &&
+  // check for overflow. An empty product is exactly the prefactor.
+  if (ami_term.g_list.size() != 0 &&
+      (std::floor(std::abs(std::real(gprod))) == std::abs(std::real(gprod))) &&
       std::abs(std::real(gprod)) != 0) {
     overflow_detected = true;
   }
@@ -250,8 +251,9 @@ std::complex<boost::multiprecision::float128> AmiBase::evaluate_term_mp(ami_parm
 
   gprod = eval_gprod_mp(parms, ami_term.g_list, external);
 
-  // check for overflow
-  if ((boost::multiprecision::floor(boost::multiprecision::abs(std::real(gprod))) == boost::multiprecision::abs(std::real(gprod))) &&
+  // check for overflow. An empty product is exactly the prefactor.
+  if (ami_term.g_list.size() != 0 &&
+      (boost::multiprecision::floor(boost::multiprecision::abs(std::real(gprod))) == boost::multiprecision::abs(std::real(gprod))) &&
       boost::multiprecision::abs(std::real(gprod)) != 0) {
     overflow_detected = true;
   }
-- 
2.43.0


From 4e196ebcdb76f8df449efb562562f41ce783673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 11/13] fix: factorial in floating point, the int overflowed
 for poles of multiplicity 14 and higher

---
 src/ami_base.hpp           | 2 +-
 src/ami_base_construct.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ami_base.hpp b/src/ami_base.hpp
index 091f5a6..682c777 100644
--- a/src/ami_base.hpp
+++ b/src/ami_base.hpp
@@ -76,7 +76,7 @@ public:
 
   /// Simple factorial function. It is rarely called except for multipole
   /// problems, and typically for only small arguments.
-  int factorial(int n);
+  double factorial(int n);
 
   // AmiVars
 
diff --git a/src/ami_base_construct.cpp b/src/ami_base_construct.cpp
index db68a56..f8d26e7 100644
--- a/src/ami_base_construct.cpp
+++ b/src/ami_base_construct.cpp
@@ -541,7 +541,7 @@ double AmiBase::get_starting_sign(AmiBase::g_prod_t G_in,
     result = result * (double)G_in[pole.which_g_[i]].alpha_[pole.index_];
   }
 
-  result = result / (double)factorial(pole.multiplicity_ - 1);
+  result = result / factorial(pole.multiplicity_ - 1);
 
   return result;
 }
@@ -572,6 +572,6 @@ AmiBase::g_prod_t AmiBase::reduce_gprod(AmiBase::g_prod_t G_in,
   return reduced;
 }
 
-int AmiBase::factorial(int n) {
-  return (n == 1 || n == 0) ? 1 : factorial(n - 1) * n;
+double AmiBase::factorial(int n) {
+  return (n == 1 || n == 0) ? 1.0 : factorial(n - 1) * n;
 }
\ No newline at end of file
-- 
2.43.0


From 9e421ee7d6681cfb5631062268cd1b51983b20e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 12/13] fix: register the enumerations that exposed
 constructors and members of pyami use

---
 pyami_src/pyami_wrapper.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/pyami_src/pyami_wrapper.cpp b/pyami_src/pyami_wrapper.cpp
index b084c71..c5f4c53 100644
--- a/pyami_src/pyami_wrapper.cpp
+++ b/pyami_src/pyami_wrapper.cpp
@@ -38,6 +38,32 @@ void init_pyami_wrapper(py::module &m) {
   py::class_<AmiBase> AmiBase(m, "AmiBase");
   AmiBase.def(py::init<>());
   AmiBase.def(py::init<AmiBase::ami_parms &>());
+
+  // types of constructor arguments and data members exposed below
+  py::enum_<AmiBase::stat_type>(AmiBase, "stat_type")
+    .value("Bose", AmiBase::Bose)
+    .value("Fermi", AmiBase::Fermi);
+  py::enum_<AmiBase::graph_type>(AmiBase, "graph_type")
+    .value("Sigma", AmiBase::Sigma)
+    .value("Pi_phuu", AmiBase::Pi_phuu)
+    .value("Pi_phud", AmiBase::Pi_phud)
+    .value("Hartree", AmiBase::Hartree)
+    .value("Bare", AmiBase::Bare)
+    .value("Greens", AmiBase::Greens)
+    .value("density", AmiBase::density)
+    .value("doubleocc", AmiBase::doubleocc)
+    .value("Pi_ppuu", AmiBase::Pi_ppuu)
+    .value("Pi_ppud", AmiBase::Pi_ppud)
+    .value("DOS", AmiBase::DOS)
+    .value("ENERGY", AmiBase::ENERGY)
+    .value("FORCE", AmiBase::FORCE);
+  py::enum_<AmiBase::int_type>(AmiBase, "int_type")
+    .value("hubbard", AmiBase::hubbard)
+    .value("coulomb", AmiBase::coulomb);
+  py::enum_<AmiBase::disp_type>(AmiBase, "disp_type")
+    .value("tb", AmiBase::tb)
+    .value("fp", AmiBase::fp)
+    .value("hf", AmiBase::hf);
     
   py::class_<AmiBase::ami_vars> (AmiBase, "ami_vars")
     .def(py::init<>())
-- 
2.43.0


From 7c212c2d18d7d3cc4ac90c8718ac1a8c81a4af89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:38 +0000
Subject: [PATCH 13/13] fix: on-the-fly evaluation missed coincident energies
 that differ by the rounding of a sum

Energies such as e1 = e3 = 0.1, e2 = 0.2 make (e1 + e2) - e2 and e1 equal only up to rounding;
the degeneracy was then recognised in some products and not in others, giving NaN or a wrong value
where the plain evaluation is finite.
---
 src/ami_base_evaluate.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 31d37d3..341561b 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -1,4 +1,5 @@
 #include "ami_base.hpp"
+#include <limits>
 
 // TODO: since there is some duplication of code in these two evaluate commands
 // they should be separated
@@ -755,8 +756,10 @@ for(int i=0; i<R_array.size(); i++){
   std::complex<double> epsdenom(0, 0);
    std::complex<double> zero(0, 0);
    bool not_symbolic_zero=false;
+   double scale=0;
   for (int a = 0; a < R_array[i][j][m].eps_.size(); a++) {
       epsdenom += double(R_array[i][j][m].eps_[a]) * external.energy_[a];
+      scale += std::abs(double(R_array[i][j][m].eps_[a]) * external.energy_[a]);
 
     if(R_array[i][j][m].eps_[a]!=0){
       not_symbolic_zero=true;
@@ -764,8 +767,9 @@ for(int i=0; i<R_array.size(); i++){
 
     }
     // std::cout<<"On i,j: "<<i<<" "<<j<<" "<<m<<" eps denom gave "<<epsdenom<<std::endl;
-    bool is_zero= std::abs(epsdenom)<1e-15;
-    if((epsdenom==zero || epsdenom==-zero) && not_symbolic_zero){
+    // energies that cancel exactly may leave the rounding error of the sum
+    bool is_zero= std::abs(epsdenom)<=4*std::numeric_limits<double>::epsilon()*scale;
+    if(is_zero && not_symbolic_zero){
       std::vector<int> issue={i,j,m};
       triggers.push_back(issue);
     }
@@ -806,20 +810,25 @@ for (int ord=0; ord<R_array.size(); ord++){
       if(!isEqual(R_array[ord][num][m].eps_,R_array[ord][num][n].eps_)){
         std::complex<double> eps_m=0.0;
         std::complex<double> eps_n=0.0;
+        double scale=0;
         // if G's are not identical already
         for (int a = 0; a < R_array[ord][num][m].eps_.size(); a++) {
       eps_m += double(R_array[ord][num][m].eps_[a]) * external.energy_[a];
+      scale += std::abs(double(R_array[ord][num][m].eps_[a]) * external.energy_[a]);
         }
         
         for (int a = 0; a < R_array[ord][num][n].eps_.size(); a++) {
       eps_n += double(R_array[ord][num][n].eps_[a]) * external.energy_[a];
+      scale += std::abs(double(R_array[ord][num][n].eps_[a]) * external.energy_[a]);
         }
         
-        if(eps_m==eps_n){ // || std::abs(eps_m-eps_n)<1e-15){
+        // equal apart from the rounding error of the two sums
+        double round=4*std::numeric_limits<double>::epsilon()*scale;
+        if(std::abs(eps_m-eps_n)<=round){
         
         std::vector<int> this_pair{ord,num,m,n,1};
         equal_pairs.push_back(this_pair);
-        }else if(eps_m==-eps_n && !isNegative(R_array[ord][num][m].eps_,R_array[ord][num][n].eps_)){
+        }else if(std::abs(eps_m+eps_n)<=round && !isNegative(R_array[ord][num][m].eps_,R_array[ord][num][n].eps_)){
         // the same line written with the opposite overall sign
 
         std::vector<int> this_pair{ord,num,m,n,-1};
-- 
2.43.0

