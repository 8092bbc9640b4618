From 298b0f5a53a08f0622aa7ea1b443c0f6f9054629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:12 +0000
Subject: [PATCH 01/56] fix: use sub- and super-diagonal consistently in the
 spline solver

The matrix stored the sub-diagonal where the solver expected the
super-diagonal and the other way round. The solver therefore read two
entries that were never set and the spline had jumps in its derivative.
---
 include/catima/spline.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/catima/spline.h b/include/catima/spline.h
index 153b1e6..721a6f4 100644
--- a/include/catima/spline.h
+++ b/include/catima/spline.h
@@ -60,18 +60,18 @@ template<int N>
 double & tridiagonal_matrix<N>::operator () (unsigned int i, unsigned int j)
 {
     int k=j-i;
-    if(k == -1)return c[i];
+    if(k == -1)return a[i];
     else if(k==0) return d[i];
-    else return a[i];
+    else return c[i];
 }
 
 template<int N>
 double tridiagonal_matrix<N>::operator () (unsigned int i, unsigned int j) const
 {
     int k=j-i;
-    if(k==-1)return c[i];
+    if(k==-1)return a[i];
     else if(k==0) return d[i];
-    else if(k==1)return a[i];
+    else if(k==1)return c[i];
     else return 0.0;
 }
 
-- 
2.43.0


From f59c0b10eefbaf4a951baff750361c4014d3990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:12 +0000
Subject: [PATCH 02/56] fix: keep table index inside the table for nan and next
 to the last point

The calculated index was one past the end for energies slightly below the
highest table energy, and converting nan to an index was undefined.
---
 include/catima/storage.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/catima/storage.h b/include/catima/storage.h
index 93ce59e..0c3a884 100644
--- a/include/catima/storage.h
+++ b/include/catima/storage.h
@@ -51,12 +51,13 @@ namespace catima{
 	const double* begin()const{return values;}
     const double* end()const{return &values[num];}
     int index(double v)const noexcept{        
-        if(v<values[0] || step==0.0)return -1;
+        if(!(v>=values[0]) || step==0.0)return -1; // also for nan
         if(v>=values[N-1]-numeric_epsilon)return N-1;
         
         #ifdef ET_CALCULATED_INDEX
         double lxval = (std::log(v/values[0])/LN10);
         int i = static_cast<int> (std::floor(lxval/step));
+        if(i>N-2)i=N-2; // rounding just below the last point
         if(v >= values[i+1]-numeric_epsilon)i++; // this is correction for floating point precision
         return i;
         #else
@@ -70,7 +71,7 @@ namespace catima{
 	template<typename T>
 	double EnergyTable_interpolate(const T &table, double xval, double *y){
 	    double r;
-	    if(xval<table.values[0] || xval>table.values[table.size()-1])return 0.0;
+	    if(!(xval>=table.values[0]) || xval>table.values[table.size()-1])return 0.0;
 	    if(xval==table.values[table.size()-1])return y[table.size()-1];
         int i = table.index(xval);
 	    double linstep = table.values[i+1] - table.values[i];
@@ -94,10 +95,11 @@ namespace catima{
         double operator()(int i)const noexcept{return value(i);}
         double step_size()const noexcept{return step;}
         int index(double v)const noexcept{
-            if(v<value(0) || step==0.0)return -1;
+            if(!(v>=value(0)) || step==0.0)return -1; // also for nan
             if(v>= (value(N-1)-numeric_epsilon))return N-1;
             double lxval = (log(v/value(0))/LN10);
             int i = static_cast<int> (std::floor(lxval/step));
+            if(i>N-2)i=N-2; // rounding just below the last point
             if(v >= value(i+1)-numeric_epsilon)i++; // this is correction for floating point precision
             return i;
         }
@@ -119,7 +121,7 @@ namespace catima{
         constexpr static int size() noexcept{return N;}
         double operator[](int i)const noexcept{return i*step + min;}
         int index(double v)const noexcept{
-            if(v<min || step==0.0)return -1;
+            if(!(v>=min) || step==0.0)return -1; // also for nan
             if(v>=max)return N-1;
             assert(step>0.0);
             return static_cast<int> (std::floor((v-min)/step));
-- 
2.43.0


From af8bc11d2fa9b27c8483df509685afc632245a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:48 +0000
Subject: [PATCH 03/56] fix: compare scattering factors of configurations
 exactly

Configurations with scattering factors closer than 1e-3 shared one cache
entry, so the second one got the angular spread of the first.
---
 src/catima.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index c42c1cc..9ccd80e 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -23,7 +23,7 @@ bool operator==(const Config &a, const Config&b){
     if(a.corrections != b.corrections)return false;
     if(a.calculation != b.calculation)return false;
     if(a.low_energy != b.low_energy)return false;
-    if(fabs(a.scattering_factor-b.scattering_factor)>1e-3) return false;
+    if(a.scattering_factor != b.scattering_factor) return false;
     return true;
     }
 
-- 
2.43.0


From 4b058dbf3700ca221269d7972baa9dcf90ca0deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:48 +0000
Subject: [PATCH 04/56] fix: calculate time of flight with the configuration of
 the call

The time of flight of a layer was always integrated with the default
configuration, whatever configuration was used for the energy loss.
---
 src/catima.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 9ccd80e..7176005 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -336,7 +336,7 @@ Result calculate(Projectile p, const Material &t, const Config &c){
         }
         //Interpolator tof_spline(energy_table.values, tofdata.data(), energy_table.num,interpolation_t::linear);
         //res.tof = tof_spline(res.Ein) - tof_spline(res.Eout);
-        res.tof = calculate_tof_from_E(p,res.Eout,t);
+        res.tof = calculate_tof_from_E(p,res.Eout,t,c);
             
     } //end of else for non stopped case
     
-- 
2.43.0


From ade79fa42ab10e35bd90f2a65c1b01a2af3229d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:48 +0000
Subject: [PATCH 05/56] fix: apply the scattering factor to all angular and
 lateral variances

Only the tabulated angular spread used it. Position spread, covariance
and the angular spread of the other scattering models ignored it.
---
 src/catima.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 7176005..b3ffaf4 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -175,9 +175,9 @@ double angular_variance(Projectile p, const Material &t, const Config &c, int or
     
     // corrections      
     if(c.scattering == scattering_types::gottschalk){
-        return integrator.integrate(fx0p_2,0, rrange)*t.density();
+        return c.scattering_factor*integrator.integrate(fx0p_2,0, rrange)*t.density();
     }
-    return integrator.integrate(fx0p,0, rrange)*t.density()*ipow(p.Z,2)*Es2/X0;
+    return c.scattering_factor*integrator.integrate(fx0p,0, rrange)*t.density()*ipow(p.Z,2)*Es2/X0;
 }
 
 double angular_straggling(Projectile p, const Material &t, const Config &c){
-- 
2.43.0


From 8b621f98c283f6ffa28225cbe41054476d0bad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:48 +0000
Subject: [PATCH 06/56] fix: an empty stack of layers returns the incoming
 energy

The outgoing energy of a stack without layers was zero.
---
 src/catima.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/catima.cpp b/src/catima.cpp
index b3ffaf4..37cc463 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -359,6 +359,7 @@ MultiResult calculate(const Projectile &p, const Phasespace &ps, const Layers &l
     MultiResult res;
     double e = p.T;
     res.total_result.Ein = e;
+    res.total_result.Eout = e;
     res.total_result.sigma_a = ps.sigma_a*ps.sigma_a;
     res.total_result.sigma_x = ps.sigma_x*ps.sigma_x;
     res.total_result.cov = ps.cov_x;
-- 
2.43.0


From eb2972e4a36b7185cd79a537e3cad0cbee3cf5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:38 +0000
Subject: [PATCH 07/56] fix: bracket the outgoing energy iteration

The Newton iteration overshot where the range curve is concave. It then
reported a projectile as stopped although the layer was thinner than its
range, or returned a negative energy.
---
 src/catima.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 37cc463..e3f166b 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -210,13 +210,18 @@ double energy_out(double T, double thickness, const Interpolator &range_spline){
     dedx = 1.0/range_spline.derivative(T);
     if(range<= thickness) return 0.0;
     
+    double emin = Ezero, emax = (thickness<0.0)?std::numeric_limits<double>::max():T; // bracket of the solution
     e = T - (thickness*dedx);
     while(1){
+        if(!(e>=emin && e<=emax)){
+            e = 0.5*(emin+emax);
+            dedx = 1.0/range_spline.derivative(e);
+        }
         r = range - range_spline(e) - thickness;
         if(fabs(r)<Eout_th_epsilon)return e;
+        if(r<0)emax = e; else emin = e;
         double step = -r*dedx;
         e = e-step;
-        if(e<Ezero)return 0.0;
         dedx = 1.0/range_spline.derivative(e);
         counter++;
         assert(counter<=100);
-- 
2.43.0


From 61cc6dc35197ebad4a10568348863ba247c9b0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:05 +0000
Subject: [PATCH 08/56] fix: use the given energy in catima_range

---
 src/cwrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwrapper.cpp b/src/cwrapper.cpp
index 8ed94a3..4fd3bae 100644
--- a/src/cwrapper.cpp
+++ b/src/cwrapper.cpp
@@ -58,7 +58,7 @@ extern "C" {
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);
         catima::Material mat = make_material(ta,tz, 0, -1);
-        return range(p, mat);
+        return range(p(T), mat);
     }
 
     double catima_range_straggling(double pa, int pz, double T, double ta, double tz){
-- 
2.43.0


From d5446fb2d2617192c4f6d2d1ee2b31bd5a901c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:05 +0000
Subject: [PATCH 09/56] fix: honour the C defaults in every C function

Three functions used whatever effective charge an earlier call had set.
---
 src/cwrapper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cwrapper.cpp b/src/cwrapper.cpp
index 4fd3bae..bf70422 100644
--- a/src/cwrapper.cpp
+++ b/src/cwrapper.cpp
@@ -70,6 +70,7 @@ extern "C" {
     }
 
     double catima_angular_straggling_from_E(double pa, int pz, double Tin, double Tout,double ta, double tz){
+        catima::default_config.z_effective = catima_defaults.z_effective;
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);        
         catima::Material mat = make_material(ta,tz, 0, -1);
@@ -78,6 +79,7 @@ extern "C" {
     }
 
     double catima_energy_straggling_from_E(double pa, int pz, double Tin, double Tout,double ta, double tz){
+        catima::default_config.z_effective = catima_defaults.z_effective;
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);
         catima::Material mat = make_material(ta,tz, 0, -1);
@@ -87,6 +89,8 @@ extern "C" {
     double atomic_weight(int i){return catima::element_atomic_weight(i);}
 
     double catima_nonreaction_rate(double pa, int pz, double T, double ta, double tz, double thickness){
+        catima::default_config.z_effective = catima_defaults.z_effective;
+        catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);
         p.T = T;
         catima::Material mat = make_material(ta,tz, thickness, -1);
-- 
2.43.0


From ee24bd0912732cfea2fee9ba00840a2d5b5c6c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:05 +0000
Subject: [PATCH 10/56] fix: count every nucleus of a compound in the
 nonreaction rate

The cross section was averaged over the atoms of a molecule, but then
multiplied by the number of molecules. The survival probability therefore
depended on how the same compound was described.
---
 src/reactions.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/reactions.cpp b/src/reactions.cpp
index 6ce7958..dd6b2ed 100644
--- a/src/reactions.cpp
+++ b/src/reactions.cpp
@@ -28,15 +28,14 @@ double nonreaction_rate(Projectile &projectile, const Material &target, const Co
     if(energy_out(projectile.T, target.thickness(), range_spline) < emin_reaction)return -1.0;
     
     auto sigma_r = [&](double th){
-        double stn_sum=0.0, sum=0.0;
+        double sum=0.0;
         double e = energy_out(projectile.T, th, range_spline);
         for(unsigned int i = 0;i<target.ncomponents();i++){
             int zt = target.get_element(i).Z;
             int at = abundance::get_isotope_a(zt,0); // most abundand natural isotope mass
-            stn_sum += target.molar_fraction(i);
             sum += target.molar_fraction(i)*SigmaR_Kox(ap,zp,e,at,zt); 
         }
-        return sum/stn_sum;
+        return sum;
     };
 
     //nurex::Nucleus nurex_projectile = nurex::get_default_nucleus(ap,zp);
-- 
2.43.0


From bd18dd277177c18fc245fae32169d8871e7063e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:05 +0000
Subject: [PATCH 11/56] fix: sign of the Coulomb correction in the radiation
 length

Elements without tabulated value got a radiation length up to 25 percent
too short for heavy elements, for example 5.0 instead of 6.3 g/cm2 for Bi.
---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index bbbea36..fdb98a7 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -547,7 +547,7 @@ double radiation_length(int z, double m){
     double a2 = fine_structure*fine_structure*z2;
     double a4 = a2*a2;
     double a6 = a4*a2;
-    lr= 716.405*m/(z2* (log(184.15*z_13) + log(1194.0*z_23)/z - -1.202*a2 + 1.0369*a4 - 1.008*a6/(1+a2) ) );
+    lr= 716.405*m/(z2* (log(184.15*z_13) + log(1194.0*z_23)/z - 1.202*a2 + 1.0369*a4 - 1.008*a6/(1+a2) ) );
     return lr;
 }
 
-- 
2.43.0


From 3a59016b31c47b6dafb1e8c02568daf45769ed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:05 +0000
Subject: [PATCH 12/56] fix: pass velocity instead of energy to the effective
 charge formula

---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index fdb98a7..d146745 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -750,7 +750,7 @@ double z_eff_global(double pz, double E, double tz){
     if(E>2000)
         return pz;
     else if(E<30.0 || pz<29){        
-        return z_eff_Pierce_Blann(pz, E);
+        return z_eff_Pierce_Blann(pz, beta_from_T(E));
     }
     else{
         #ifdef GLOBAL
-- 
2.43.0


From d668c1a01c0df94f84989e4795bde239e03ebb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:05 +0000
Subject: [PATCH 13/56] fix: keep the last Lindhard-Sorensen value above the
 table

The documented limit value was replaced by zero.
---
 src/calculations.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index d146745..056f735 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -582,6 +582,7 @@ double precalculated_lindhard(const Projectile &p){
     int z = (int)p.Z ;
     if(z>LS_MAX_Z)z=LS_MAX_Z;
     if(p.T<ls_coefficients::ls_energy_table(0))T=ls_coefficients::ls_energy_table(0);
+    if(p.T>ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1))T=ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1);
 
     double da = (p.A - element_atomic_weight(z))/element_atomic_weight(z);
     z = z-1;
@@ -601,6 +602,7 @@ double precalculated_lindhard_X(const Projectile &p){
     if(z>LS_MAX_Z)z=LS_MAX_Z;
     //if(p.T<ls_coefficients::ls_energy_table(0))T=ls_coefficients::ls_energy_table(0);
     if(p.T<ls_coefficients::ls_energy_table(0))return 1.0;
+    if(p.T>ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1))T=ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1);
     double da = (p.A - element_atomic_weight(z))/element_atomic_weight(z);
     z = z-1;
 
-- 
2.43.0


From 3e9fa0e3b12b705574048ae31654216dd0c5acab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:05 +0000
Subject: [PATCH 14/56] fix: limit the Lindhard-Sorensen table to its number of
 rows

The table has 108 elements, but heavier ones were read behind its end.
---
 include/catima/generated_LS_coeff.h | 2 +-
 utils/generator.cpp                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/catima/generated_LS_coeff.h b/include/catima/generated_LS_coeff.h
index e55117e..840e4d2 100644
--- a/include/catima/generated_LS_coeff.h
+++ b/include/catima/generated_LS_coeff.h
@@ -2,7 +2,7 @@
  #include "catima/storage.h"
 
 #define LS_NUM_ENERGY_POINTS 200
-#define LS_MAX_Z 110
+#define LS_MAX_Z 108
 namespace catima{
 
 namespace ls_coefficients{
diff --git a/utils/generator.cpp b/utils/generator.cpp
index bfaffea..f5ef309 100644
--- a/utils/generator.cpp
+++ b/utils/generator.cpp
@@ -38,7 +38,7 @@ int main(){
     file<<"#include \"catima/storage.h\"";
     file<<"\n\n";
     file<<"#define LS_NUM_ENERGY_POINTS "<<num_LS_datapoints<<"\n";
-    file<<"#define LS_MAX_Z "<<ATOMIC_WEIGHT_MAXZ<<"\n";
+    file<<"#define LS_MAX_Z "<<ATOMIC_WEIGHT_MAXZ-2<<"\n";
     file<<"namespace catima{\n\n";
     file<<"namespace ls_coefficients{\n\n";
     file<<"// relative difference of mass number for 2nd mass point ls_coefficients_ahi \n\n";
-- 
2.43.0


From cfb0e7f413e85b2b87cb112f23879fc1c6ae3b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:05 +0000
Subject: [PATCH 15/56] fix: use the reflection formula also on the imaginary
 axis in lngamma

---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index 056f735..f1c55fc 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -889,7 +889,7 @@ std::complex<double> lngamma( const std::complex<double> &z )
         double aterm3=atan2(num,denom);
         double lterm3 = 0.5*log(num*num + denom*denom);
         std::complex<double> result(lterm1+lterm2+lterm3,aterm1+aterm2+aterm3);
-        if(z.real() < 0){
+        if(!(z.real() > 0)){
             std::complex<double> lpi(log(PI), 0.0);
             result = lpi - (result + std::log(std::sin(PI*z)));
         }
-- 
2.43.0


From 856bf9d68c2677010d69e4f0ad0943a94f833a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:05 +0000
Subject: [PATCH 16/56] fix: reject negative isotope index

---
 src/abundance_database.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/abundance_database.cpp b/src/abundance_database.cpp
index 2cda3b5..6eeb1fe 100644
--- a/src/abundance_database.cpp
+++ b/src/abundance_database.cpp
@@ -25,20 +25,20 @@ namespace abundance{
     
     int get_isotope_a(int z, int i){
         int num = get_isotopes_num(z);
-        if(num==0|| (i+1) > num)return 0;
+        if(i<0 || i>=num)return 0;
         return isotopes_a[abundance_z_index[z-1]+i];
     }
     
     float get_abundance(int z, int i){
         int num = get_isotopes_num(z);
-        if(num==0|| (i+1) > num)return 0;
+        if(i<0 || i>=num)return 0;
         return isotopes_abundance[abundance_z_index[z-1]+i];
     }
     
     std::pair<int,float> get_isotope(int z, int i){
         std::pair<int,float> res{0,0.0};
         int num = get_isotopes_num(z);
-        if(num==0|| (i+1) > num)return res;
+        if(i<0 || i>=num)return res;
         
         res.first = isotopes_a[abundance_z_index[z-1]+i];
         res.second = isotopes_abundance[abundance_z_index[z-1]+i];
-- 
2.43.0


From 18c0667b23855526bb8af7818d2e556b4a0011c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:05 +0000
Subject: [PATCH 17/56] fix: allow to append a stack of layers to itself

---
 src/structures.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structures.cpp b/src/structures.cpp
index 6257663..ef7c4b8 100644
--- a/src/structures.cpp
+++ b/src/structures.cpp
@@ -68,7 +68,8 @@ void Layers::add(Material m){
 }
 
 void Layers::add(const Layers& l){
-    for(auto m: l.get_materials()){
+    const std::vector<Material> other = l.get_materials(); // copy, l can be this object
+    for(auto& m: other){
       add(m);
     }
 }
-- 
2.43.0


From f4012eacb214b0dba4366d402cbd3071bd3ebdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:05 +0000
Subject: [PATCH 18/56] fix: composition of five predefined materials

Polyolefin had oxygen instead of carbon.
Na2CO3 had one sodium atom.
RW3 listed carbon twice instead of carbon and oxygen.
Suprasil is fused silica but had the composition of borosilicate glass.
PhotoEmulsion lacked its iodine, its fractions did not add up to one.
---
 src/material_database.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/material_database.cpp b/src/material_database.cpp
index 114cc81..db2028e 100644
--- a/src/material_database.cpp
+++ b/src/material_database.cpp
@@ -28,9 +28,9 @@ namespace catima{
 		 case material::Mylar:	 return Material({{0,6,10},{0,1,8},{0,8,4}},1.38);
 		 case material::NaF:	 return Material({{0,11,1},{0,9,1}},2.56);
 		 case material::P10:	 return Material({{0,18,9},{0,6,1},{0,1,4}},0.00166);
-		 case material::Polyolefin:	 return Material({{0,8,8},{0,1,16}},0.9);
+		 case material::Polyolefin:	 return Material({{0,6,8},{0,1,16}},0.9);
 		 case material::CmO2:	 return Material({{0,96,1},{0,8,2}},12);
-		 case material::Suprasil:	 return Material({{0,14,0.37722},{0,8,0.539562},{0,5,0.040064},{0,11,0.028191},{0,13,0.011644},{0,19,0.003321}},2.2);
+		 case material::Suprasil:	 return Material({{0,14,1},{0,8,2}},2.2);
 		 case material::HAVAR:	 return Material({{0,27,0.403228},{0,24,0.169412},{0,28,0.124301},{0,74,0.089847},{0,42,0.031259},{0,26,0.181952}},8.3);
 		 case material::Steel:	 return Material({{0,26,0.74621},{0,24,0.169},{0,28,0.08479}},8);
 		 case material::CO2:	 return Material({{0,6,1},{0,8,2}},0.001842);
@@ -118,7 +118,7 @@ namespace catima{
 		 case material::Muscle_strained:	 return Material({{0,1,0.101997},{0,6,0.123},{0,7,0.035},{0,8,0.729003},{0,11,0.0008},{0,12,0.0002},{0,15,0.002},{0,16,0.005},{0,19,0.003}},1.04);
 		 case material::Muscle_sucrose:	 return Material({{0,1,0.0982341},{0,6,0.156214},{0,7,0.035451},{0,8,0.710101}},1.11);
 		 case material::Muscle_no_sucrose:	 return Material({{0,1,0.101969},{0,6,0.120058},{0,7,0.035451},{0,8,0.742522}},1.07);
-		 case material::Na2CO3:	 return Material({{0,6,1},{0,8,3},{0,11,1}},2.532);
+		 case material::Na2CO3:	 return Material({{0,6,1},{0,8,3},{0,11,2}},2.532);
 		 case material::NaI:	 return Material({{0,11,1},{0,53,1}},3.667);
 		 case material::NaCl:	 return Material({{0,11,1},{0,17,1}},2.165);
 		 case material::Na2O:	 return Material({{0,8,1},{0,11,2}},2.27);
@@ -129,7 +129,7 @@ namespace catima{
 		 case material::Octane:	 return Material({{0,1,18},{0,6,8}},0.703);
 		 case material::Paraffin:	 return Material({{0,1,0.148605},{0,6,0.851395}},0.93);
 		 case material::nPentane:	 return Material({{0,1,12},{0,6,5}},0.626);
-		 case material::PhotoEmulsion:	 return Material({{0,1,0.0141},{0,6,0.072261},{0,7,0.01932},{0,8,0.066101},{0,16,0.00189},{0,35,0.349103},{0,47,0.474105}},3.815);
+		 case material::PhotoEmulsion:	 return Material({{0,1,0.0141},{0,6,0.072261},{0,7,0.01932},{0,8,0.066101},{0,16,0.00189},{0,35,0.349103},{0,47,0.474105},{0,53,0.00312}},3.815);
 		 case material::PuO2:	 return Material({{0,8,2},{0,94,1}},11.46);
 		 case material::Polyacrylonitrile:	 return Material({{0,1,3},{0,6,3},{0,7,1}},1.184);
 		 case material::Polycarbonate:	 return Material({{0,1,0.055491},{0,6,0.755751},{0,8,0.188758}},1.2);
@@ -160,7 +160,7 @@ namespace catima{
 		 case material::LLZO_electrolyte:	 return Material({{0,3,7},{0,57,3},{0,40,2},{0,8,12}},5.1);
 		 case material::Nylon:	 return Material({{0,6,6},{0,1,11},{0,7,1},{0,8,1}},1.14);
 		 case material::Brass:   return Material({{0,29,0.63},{0,30,0.35},{0,82,0.02}},8.73);
-	         case material::RW3:  return Material({{0,1,0.0759},{0,6,0.9041},{0,6,0.008},{0,22,0.012}},1.045);
+	         case material::RW3:  return Material({{0,1,0.0759},{0,6,0.9041},{0,8,0.008},{0,22,0.012}},1.045);
             default:break;
              }
         return Material();
-- 
2.43.0


From 37061c57b3f7bfe599e0821927964540786927be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:38 +0000
Subject: [PATCH 19/56] fix: return all points of odd-order quadrature rules

The middle point was duplicated and the last one left uninitialised.
---
 include/catima/gkq_integrator.h | 5 +++--
 include/catima/glq_integrator.h | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/catima/gkq_integrator.h b/include/catima/gkq_integrator.h
index 51db896..547ec13 100644
--- a/include/catima/gkq_integrator.h
+++ b/include/catima/gkq_integrator.h
@@ -158,8 +158,9 @@ std::array<double,order> GaussKronrodIntegration<order>::get_points(double a,  d
     double q = 0.5*(b+a);
 
     int num = (order/2);
-    for(int i=0;i< num;i++){
-        points[num-i-1] = -p*x(i) + q;
+    int odd = (order%2); // odd orders have the middle point
+    for(int i=0;i< num+odd;i++){
+        points[num+odd-i-1] = -p*x(i) + q;
         points[num+i] = p*x(i) + q;
     }
     return points;
diff --git a/include/catima/glq_integrator.h b/include/catima/glq_integrator.h
index d3aaf3e..728f822 100644
--- a/include/catima/glq_integrator.h
+++ b/include/catima/glq_integrator.h
@@ -56,8 +56,9 @@ std::array<double,order> GaussLegendreIntegration<order>::get_points(double a,
     double q = 0.5*(b+a);
 
     int num = (order/2);
-    for(int i=0;i< num;i++){
-        points[num-i-1] = -p*x(i) + q;
+    int odd = (order%2); // odd orders have the middle point
+    for(int i=0;i< num+odd;i++){
+        points[num+odd-i-1] = -p*x(i) + q;
         points[num+i] = p*x(i) + q;
     }
     return points;
-- 
2.43.0


From 93c5f7e7d8cc5e9efd7e31c4aebdff3dcbe63af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:38 +0000
Subject: [PATCH 20/56] fix: two-dimensional quadrature of odd order

The outermost points were left out and the middle ones counted twice.
---
 include/catima/glq_integrator.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/catima/glq_integrator.h b/include/catima/glq_integrator.h
index 728f822..3f26b99 100644
--- a/include/catima/glq_integrator.h
+++ b/include/catima/glq_integrator.h
@@ -86,13 +86,15 @@ double GaussLegendreIntegration2D<order>::integrate(F& f, double a, double b, do
     double s = (d+c)/2.0;
 
     double xx, yy, sum;
-    for(int i=0;i<order/2;i++){
+    for(int i=0;i<order/2 + order%2;i++){
         xx = (p*integrator.x(i));
-        for(int j=0;j<order/2;j++){
+        double wx = (order%2 && i==0)?0.5*integrator.w(i):integrator.w(i); // middle point of odd order is used twice
+        for(int j=0;j<order/2 + order%2;j++){
             yy = (r*integrator.x(j));
+            double wy = (order%2 && j==0)?0.5*integrator.w(j):integrator.w(j);
             sum = (f(xx + q, yy + s) + f(xx + q, -yy+s));
             sum += (f(-xx + q, yy + s) + f(-xx + q, -yy+s));
-            res += integrator.w(i) * integrator.w(j) * sum;
+            res += wx * wy * sum;
         }
     }
     return p*r*res;
@@ -120,13 +122,15 @@ double GaussLegendreIntegration2DA<order, order2>::integrate(F& f, double a, dou
     double s = (d+c)/2.0;
 
     double xx, yy, sum;
-    for(int i=0;i<order/2;i++){
+    for(int i=0;i<order/2 + order%2;i++){
         xx = (p*integrator.x(i));
-        for(int j=0;j<order2/2;j++){
+        double wx = (order%2 && i==0)?0.5*integrator.w(i):integrator.w(i); // middle point of odd order is used twice
+        for(int j=0;j<order2/2 + order2%2;j++){
             yy = (r*integrator2.x(j));
+            double wy = (order2%2 && j==0)?0.5*integrator2.w(j):integrator2.w(j);
             sum = (f(xx + q, yy + s) + f(xx + q, -yy+s));
             sum += (f(-xx + q, yy + s) + f(-xx + q, -yy+s));
-            res += integrator.w(i) * integrator2.w(j) * sum;
+            res += wx * wy * sum;
         }
     }
     return p*r*res;
-- 
2.43.0


From 484be5a4cbe0a2238e07473a2c99ebddd3eb67ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:38 +0000
Subject: [PATCH 21/56] fix: adaptive integration with reversed limits

The error estimate was negative, so the interval was never divided.
---
 include/catima/gkq_integrator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/catima/gkq_integrator.h b/include/catima/gkq_integrator.h
index 547ec13..6ab3f1d 100644
--- a/include/catima/gkq_integrator.h
+++ b/include/catima/gkq_integrator.h
@@ -95,7 +95,7 @@ std::pair<double,double> GaussKronrodIntegration<order>::integrate_nonadaptive(F
 
     double err = std::max( std::abs(gres-res), std::numeric_limits<double>::epsilon());
 
-    return std::make_pair(p*res, p*err);
+    return std::make_pair(p*res, std::abs(p)*err);
 }
 
 template<int order>
@@ -109,7 +109,7 @@ double GaussKronrodIntegration<order>::integrate_adaptive(F& f, double a, double
     result = r.first;
     err = r.second;
     //printf("level = %d, I=%lf, e=%lf, %lf - %lf\n",level,result,err,a,b);
-    if( (std::abs(result) < numlimit) || ((b-a)<numlimit)){
+    if( (std::abs(result) < numlimit) || (std::abs(b-a)<numlimit)){
         return result;
     }
 
-- 
2.43.0


From be2d2f48a2148d53a0e653dca09283275844b894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:38 +0000
Subject: [PATCH 22/56] fix: never return an unused cache slot

A default constructed projectile and material matched the empty slots,
whose interpolations are uninitialised.
---
 src/storage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage.cpp b/src/storage.cpp
index acd6ece..e7163a1 100644
--- a/src/storage.cpp
+++ b/src/storage.cpp
@@ -112,7 +112,7 @@ double InterpolatorGSL::derivative(double x)const{
 void Data::Add(const Projectile &p, const Material &t, const Config &c){
 	DataPoint dp(p,t,c);
 	for(auto &e:storage){
-	    if(e==dp)return; 
+	    if(!e.range.empty() && e==dp)return; 
 	}
     if(index==storage.end())index=storage.begin();
     *index = calculate_DataPoint(p,t,c);
@@ -129,7 +129,7 @@ void Data::Add(const Projectile &p, const Material &t, const Config &c){
     
  DataPoint& Data::Get(const Projectile &p, const Material &t, const Config &c){
 	for(auto &e:storage){
-	    if( (e.p==p) && (e.m==t) && (e.config==c)){
+	    if( !e.range.empty() && (e.p==p) && (e.m==t) && (e.config==c)){
         return e;
 	    }
 	}
-- 
2.43.0


From d2f68086ad4491f9596d5edc0ffd7f60f8f0962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:38 +0000
Subject: [PATCH 23/56] fix: export of predefined materials 348 and 349 and of
 the first layer

The last two predefined materials were not recognised. The separator of the
first layer was written on the last line of the beam.
---
 include/catima/convert.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/catima/convert.h b/include/catima/convert.h
index 9370865..01f275c 100644
--- a/include/catima/convert.h
+++ b/include/catima/convert.h
@@ -38,7 +38,7 @@ bool mocadi_material_match(const Material &a, const Material&b){
 }
 
 int materialdb_id(const Material &m){
-    for(int i=201;i<=347;i++){
+    for(int i=201;i<=349;i++){
         if(mocadi_material_match(get_material(i),m)){
             return i;
         }
@@ -53,7 +53,7 @@ bool save_mocadi(const char* filename, const Projectile p, const Layers &layers,
     fw<<"epax 2\natima-1.0\noption listmode root\n";
     std::string beam = "BEAM\n100000\n" + std::to_string(p.T) + ", 0, " + std::to_string(p.A) + ", " + std::to_string(p.Z) + "\n2\n" +
                             std::to_string(psx.sigma_x) +  ", " + std::to_string(1000*psx.sigma_a) + ", 0, 0, 0\n2\n" +
-                            std::to_string(psy.sigma_x) + ", " + std::to_string(1000*psy.sigma_a) + ", 0, 0, 0\n1\n0,  0, 0, 0, 0";
+                            std::to_string(psy.sigma_x) + ", " + std::to_string(1000*psy.sigma_a) + ", 0, 0, 0\n1\n0,  0, 0, 0, 0\n";
     fw<<beam;
     int c = 0;
     for (auto& m: layers.get_materials()){
-- 
2.43.0


From 61c1a2491a25465829549bfee7b39052f8058808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:53 +0000
Subject: [PATCH 24/56] fix: report a failed write of the exported file

---
 include/catima/convert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/convert.h b/include/catima/convert.h
index 01f275c..e70cbc1 100644
--- a/include/catima/convert.h
+++ b/include/catima/convert.h
@@ -73,7 +73,7 @@ bool save_mocadi(const char* filename, const Projectile p, const Layers &layers,
     }
     fw<<"ERWARTUNGSWERTE\nSAVE\nEND";
     fw.close();
-    return true;
+    return !fw.fail();
 }
 
 #endif
-- 
2.43.0


From 7626a07f945a9b2d9376a8a22d77f21269449559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:00 +0000
Subject: [PATCH 25/56] fix: do not truncate the atomic mass in the scattering
 length

---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index f1c55fc..69c85da 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -561,7 +561,7 @@ double radiation_length(const Material &material){
     return 1/sum;
 }
 
-double scattering_length(int a, int z){
+double scattering_length(double a, int z){
     double c = 0.00034896*z*z*(2*std::log(33219*std::pow(a*z,-1.0/3.0))-1)/a;
     return 1.0/c;
 }
-- 
2.43.0


From c4ea898d62aff2bc19572f6ceb5122ad530bede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:00 +0000
Subject: [PATCH 26/56] fix: build with reactions switched off

---
 include/catima/constants.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/constants.h b/include/catima/constants.h
index 4620abd..96d4ad4 100644
--- a/include/catima/constants.h
+++ b/include/catima/constants.h
@@ -15,8 +15,8 @@ constexpr double Eout_th_epsilon = 1e-5;  //
 
 constexpr double thin_target_limit = 1 - 1e-3;
 
-#ifdef REACTIONS
 constexpr double emin_reaction = 30.0;
+#ifdef REACTIONS
 constexpr bool reactions = true;
 #else
 constexpr bool reactions = false;
-- 
2.43.0


From e5d7c2086ff62bc6b83e91d58934a038f5922fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:00 +0000
Subject: [PATCH 27/56] fix: close the namespace of reactions.h inside its
 include guard

---
 include/catima/reactions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/reactions.h b/include/catima/reactions.h
index 2318e4d..e000120 100644
--- a/include/catima/reactions.h
+++ b/include/catima/reactions.h
@@ -63,5 +63,5 @@ inline double Ecm_from_T(double T, double Ap, double At){
 }
 
 #endif //NUREX
-#endif
 } // end of catime namespace
+#endif
-- 
2.43.0


From 1f787bf8987d70dab8ec60dc78e4438a42ec04ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:00 +0000
Subject: [PATCH 28/56] fix: linear interpolation next to the last table point

The value behind the end of the table was used.
---
 include/catima/storage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/catima/storage.h b/include/catima/storage.h
index 0c3a884..146711a 100644
--- a/include/catima/storage.h
+++ b/include/catima/storage.h
@@ -74,6 +74,7 @@ namespace catima{
 	    if(!(xval>=table.values[0]) || xval>table.values[table.size()-1])return 0.0;
 	    if(xval==table.values[table.size()-1])return y[table.size()-1];
         int i = table.index(xval);
+	    if(i>=table.size()-1)return y[table.size()-1]; // next to the last point
 	    double linstep = table.values[i+1] - table.values[i];
         if(linstep == 0.0)return table.values[i];
 	    double x = 1.0 - ((xval - table.values[i])/linstep);
-- 
2.43.0


From e9f1381f788d19a7d9b15785f22ba3b4919b08b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:00 +0000
Subject: [PATCH 29/56] fix: energy ranges of the calculator

A fractional step was truncated to an integer, possibly to zero. The step
was stretched when it did not divide the range. A range of two energies
was rejected.
---
 bin/catima_calculator.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bin/catima_calculator.cpp b/bin/catima_calculator.cpp
index 2b4d482..fc78e1f 100644
--- a/bin/catima_calculator.cpp
+++ b/bin/catima_calculator.cpp
@@ -82,12 +82,17 @@ int main( int argc, char * argv[] )
                         double emax = e["max"].get<double>();
                         int num=0;
                         if(e.count("step")){
-                            num = 1+(emax-emin)/e["step"].get<int>();
+                            double step = e["step"].get<double>();
+                            double n = (step>0.0)?std::floor((emax-emin)/step + 1e-6):0.0;
+                            if(n>=1.0 && n<1e6){
+                                num = 1+n;
+                                if(e.count("num")==0)emax = emin + n*step;
+                            }
                         }
                         if(e.count("num")){
                             num = e["num"].get<int>();
                         }
-                        if(num>2)
+                        if(num>=2)
                             energies  =  linspace_vector(emin,emax,num);
                     }
                 }
-- 
2.43.0


From 10b89fd354f229ba5a82354998f7ac7bbbe45e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:00 +0000
Subject: [PATCH 30/56] fix: use the loaded configuration in the calculator

The configuration was read but the calculation used the default one. The
v1.4 effective charge exists only in builds with the GLOBAL code.
---
 bin/catima_calculator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/catima_calculator.cpp b/bin/catima_calculator.cpp
index fc78e1f..756d226 100644
--- a/bin/catima_calculator.cpp
+++ b/bin/catima_calculator.cpp
@@ -127,8 +127,12 @@ int main( int argc, char * argv[] )
                         cout<<"using config: Atima v1.3\n";
                     }
                     if(cstr=="atimav1.4"){
+                        #ifdef GLOBAL
                         conf.z_effective = z_eff_type::atima14;
                         cout<<"using config: Atima v1.4\n";
+                        #else
+                        cout<<"config Atima v1.4 is not available in this build, using default\n";
+                        #endif
                     }
                 }
             }
@@ -163,7 +167,7 @@ int main( int argc, char * argv[] )
     for(double e:energies){ 
         cout<<"-------- T = "<<e<<" MeV/u -------\n";
         projectile.T = e;
-        auto res = calculate(projectile,layers);
+        auto res = calculate(projectile,layers,conf);
         for(unsigned int i=0;i<res.results.size();i++){
             auto entry = res.results[i];
             cout<<"material #"<<i<<":\n";
-- 
2.43.0


From 8d75c5d22a5ab89c69f1c578d4167080be901bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:00 +0000
Subject: [PATCH 31/56] fix: use given density and ionisation potential of
 predefined materials in the calculator

Unknown material ids are reported instead of calculating with an empty
material.
---
 bin/catima_calculator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bin/catima_calculator.cpp b/bin/catima_calculator.cpp
index 756d226..7a9db05 100644
--- a/bin/catima_calculator.cpp
+++ b/bin/catima_calculator.cpp
@@ -253,7 +253,7 @@ Material json_material(json &j){
             }
         
         if(density<=0){
-            density = element_density(z);
+            density = (z<200)?element_density(z):get_material(z).density();
             if(density<=0)cout<<"Warning: material density = "<<density<<"\n";
             }
         if(th<=0){
@@ -267,7 +267,9 @@ Material json_material(json &j){
             }
         else{
             Material m = get_material(z);
-            m.thickness(th);
+            if(m.ncomponents()==0)throw std::invalid_argument("unknown material id");
+            m.density(density).thickness(th);
+            if(ipot>0)m.I(ipot);
             return m;
             }
         
-- 
2.43.0


From 848239c8534b94535018f39f7d1628fc669ef019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:00 +0000
Subject: [PATCH 32/56] fix: report a projectile which is not an array in the
 calculator

---
 bin/catima_calculator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/catima_calculator.cpp b/bin/catima_calculator.cpp
index 7a9db05..ac5348b 100644
--- a/bin/catima_calculator.cpp
+++ b/bin/catima_calculator.cpp
@@ -55,6 +55,9 @@ int main( int argc, char * argv[] )
                     projectile.A = j["projectile"].at(0).get<double>();
                     projectile.Z = j["projectile"].at(1).get<double>();
                 }
+                else{
+                    throw std::invalid_argument("projectile must be an array");
+                }
             }
             else{
                 throw std::invalid_argument("projectile field is missing");
-- 
2.43.0


From bb2200df72cd73a65faaef413ee9ac28bc53c678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:27 +0000
Subject: [PATCH 33/56] fix: no negative straggling factor from the mass
 interpolation

The direct calculation never returns a factor below zero. The tables could,
which gave a negative energy loss variance for e.g. 4He above 2.7 TeV/u.
---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index 69c85da..414a5d8 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -612,7 +612,7 @@ double precalculated_lindhard_X(const Projectile &p){
     //double dif = ls_X_ahi(T) - ls_X_a(T);
     //return ls_X_a(T)+(dif*da/ls_coefficients::a_rel_increase);
     double dif = v2 - v1;
-    return v1+(dif*da/ls_coefficients::a_rel_increase);
+    return std::max(0.0, v1+(dif*da/ls_coefficients::a_rel_increase)); // as in bethek_lindhard_X
 }
 
 double dedx_variance(const Projectile &p, const Target &t, const Config &c){
-- 
2.43.0


From 5e318dfd1252bae8d841bae450e15eba44d262a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:27 +0000
Subject: [PATCH 34/56] fix: angular variance of very thin layers

The Highland and Gottschalk corrections become negative or infinite when the
layer is too thin for them, the spreads were then not a number.
---
 src/calculations.cpp | 1 +
 src/catima.cpp       | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index 414a5d8..9249dc8 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -510,6 +510,7 @@ double angular_scattering_power_xs(const Projectile &p, const Material &mat, dou
     double cl1 = log10(1-ipow(pv/p1v1,2));
     double cl2 = log10(pv);
     double f = 0.5244 + 0.1975*cl1 + 0.2320*cl2 - (0.0098*cl2*cl1);
+    if(!(f>0.0))return 0.0; // no scattering when the energy loss is too small for the formula
     return f*Es2 * ipow(p.Z,2)/(Xs*ipow(_p*beta,2));
 }
 
diff --git a/src/catima.cpp b/src/catima.cpp
index e3f166b..22a93b3 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -161,7 +161,7 @@ double angular_variance(Projectile p, const Material &t, const Config &c, int or
         if(c.scattering == scattering_types::dhighland){
             double l = x*t.density()/X0;
             double lnl = log(l);
-            ff = 0.97*(1+lnl/20.7)*(1+lnl/22.7);
+            ff = (lnl>-20.7)?0.97*(1+lnl/20.7)*(1+lnl/22.7):0.0; // no scattering in layers too thin for the formula
         }
 	    //return d*ff*da2dx(p(e), t, c);
         return d*ff*Tfr(p(e),1, 1.0);
-- 
2.43.0


From 05e933f07e03281fa67aad5170eacdc457a77811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:27 +0000
Subject: [PATCH 35/56] fix: straggling where the interpolated variance is
 slightly negative

The difference of two interpolated variances can fall below zero by the
ringing of the spline, the straggling was then not a number.
---
 src/catima.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 22a93b3..6be2805 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -17,6 +17,11 @@ namespace catima{
 
 Config default_config;
 
+// square root of a variance, differences of interpolated variances can be slightly below zero
+static double sqrt_variance(double v){
+    return (v<0.0)?0.0:sqrt(v);
+}
+
 bool operator==(const Config &a, const Config&b){
     if(a.scattering != b.scattering)return false;
     if(a.z_effective != b.z_effective)return false;
@@ -94,7 +99,7 @@ double range_straggling(const Projectile &p, double T, const Material &t, const
     auto& data = _storage.Get(p,t,c);
     //Interpolator range_straggling_spline(energy_table.values,data.range_straggling.data(),energy_table.num);
     spline_type range_straggling_spline = get_range_straggling_spline(data);
-    return sqrt(range_straggling_spline(T));
+    return sqrt_variance(range_straggling_spline(T));
 }
 
 double range_variance(const Projectile &p, double T, const Material &t, const Config &c){
@@ -197,7 +202,7 @@ double energy_straggling_from_E(const Projectile &p, double T, double Tout,const
     spline_type range_spline = get_range_spline(data);
     spline_type range_straggling_spline = get_range_straggling_spline(data);
     double dEdxo = p.A/range_spline.derivative(Tout);
-    return dEdxo*sqrt(range_straggling_spline(T) - range_straggling_spline(Tout))/p.A;
+    return dEdxo*sqrt_variance(range_straggling_spline(T) - range_straggling_spline(Tout))/p.A;
 }
 
 double energy_out(double T, double thickness, const Interpolator &range_spline){
@@ -291,7 +296,7 @@ Result calculate(Projectile p, const Material &t, const Config &c){
     res.Ein = T;
     res.range = range_spline(T);
     res.dEdxi = p.A/range_spline.derivative(T);   
-    res.sigma_r = sqrt(range_straggling_spline(T));        
+    res.sigma_r = sqrt_variance(range_straggling_spline(T));        
 
     if(t.thickness()==0){
         res.dEdxo = res.dEdxi;
@@ -316,24 +321,24 @@ Result calculate(Projectile p, const Material &t, const Config &c){
             double edif = (res.Ein-res.Eout);            
             double s1 = range_straggling_spline.derivative(T);
             double s2 = range_straggling_spline.derivative(res.Eout);
-            res.sigma_E = res.dEdxo*sqrt(edif*0.5*(s1+s2))/p.A;
+            res.sigma_E = res.dEdxo*sqrt_variance(edif*0.5*(s1+s2))/p.A;
             if(use_angular_spline){
                 s1 = angular_variance_spline.derivative(T);
                 s2 = angular_variance_spline.derivative(res.Eout);
-                res.sigma_a = sqrt(0.5*(s1+s2)*edif);
+                res.sigma_a = sqrt_variance(0.5*(s1+s2)*edif);
             }        
         }
         else{
-            res.sigma_E = res.dEdxo*sqrt(range_straggling_spline(T) - range_straggling_spline(res.Eout))/p.A;            
+            res.sigma_E = res.dEdxo*sqrt_variance(range_straggling_spline(T) - range_straggling_spline(res.Eout))/p.A;            
             if(use_angular_spline){
-                res.sigma_a = sqrt(angular_variance_spline(T) - angular_variance_spline(res.Eout));
+                res.sigma_a = sqrt_variance(angular_variance_spline(T) - angular_variance_spline(res.Eout));
             }
             
         }        
         #else
-        res.sigma_E = res.dEdxo*sqrt(range_straggling_spline(T) - range_straggling_spline(res.Eout))/p.A;
+        res.sigma_E = res.dEdxo*sqrt_variance(range_straggling_spline(T) - range_straggling_spline(res.Eout))/p.A;
         if(use_angular_spline){
-            res.sigma_a = sqrt(angular_variance_spline(T) - angular_variance_spline(res.Eout));
+            res.sigma_a = sqrt_variance(angular_variance_spline(T) - angular_variance_spline(res.Eout));
         }        
         #endif
         if( (!use_angular_spline) && res.range>t.thickness()){ // do not calculate angle scattering when stopped inside material        
-- 
2.43.0


From 46e0ebea90992744764a880bfcf88ac37e464009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:45 +0000
Subject: [PATCH 36/56] fix: time of flight of layers which nearly stop the
 projectile

A single integration step over the whole energy loss was up to 30% off when
the projectile leaves with a small fraction of its energy.
---
 src/catima.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 6be2805..29d1876 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -456,9 +456,14 @@ DataPoint calculate_DataPoint(Projectile p, const Material &t, const Config &c){
 }
 
 double calculate_tof_from_E(Projectile p, double Eout, const Material &t, const Config &c){
-    double res;
+    double res = 0.0;
+    const double T = p.T;
     auto function = [&](double x)->double{return 1.0/(dedx(p(x),t,c)*beta_from_T(x));};
-    res = integrator.integrate(function,Eout,p.T);
+    while(Eout>0.0 && 2*Eout<T){ // smaller steps at the end of the range
+        res += integrator.integrate(function,Eout,2*Eout);
+        Eout *= 2;
+    }
+    res += integrator.integrate(function,Eout,T);
     res = res*10.0*p.A/(c_light*t.density());
     return res;
 }
-- 
2.43.0


From 5bc5e90eba3278f228b78d0ce2a53fb6711086a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:45 +0000
Subject: [PATCH 37/56] fix: angular and lateral spread near the end of the
 range

A single integration step over the whole layer missed most of the scattering
in the last part of the range.
---
 src/catima.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 29d1876..8f426dc 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -178,11 +178,24 @@ double angular_variance(Projectile p, const Material &t, const Config &c, int or
         return d*angular_scattering_power_xs(p(e),t,p1,beta1);
             };
     
+    // the scattering power grows steeply towards the end of the range, there smaller steps are needed
+    auto integrate_depth = [&](auto &f)->double{
+        double res = 0.0;
+        double x1 = 0.0;
+        double rest = 0.5*range/t.density();
+        while(x1 + rest < rrange && rest*t.density() > 100*Eout_th_epsilon){
+            res += integrator.integrate(f,x1, x1 + rest);
+            x1 += rest;
+            rest *= 0.5;
+        }
+        return res + integrator.integrate(f,x1, rrange);
+    };
+
     // corrections      
     if(c.scattering == scattering_types::gottschalk){
-        return c.scattering_factor*integrator.integrate(fx0p_2,0, rrange)*t.density();
+        return c.scattering_factor*integrate_depth(fx0p_2)*t.density();
     }
-    return c.scattering_factor*integrator.integrate(fx0p,0, rrange)*t.density()*ipow(p.Z,2)*Es2/X0;
+    return c.scattering_factor*integrate_depth(fx0p)*t.density()*ipow(p.Z,2)*Es2/X0;
 }
 
 double angular_straggling(Projectile p, const Material &t, const Config &c){
-- 
2.43.0


From 5d58cbbcecf377ba4e90297bd50eae2d8684596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:13 +0000
Subject: [PATCH 38/56] fix: no lateral drift behind the point where the
 projectile stops

The position spread of a layer stack was propagated through the full
length of the layer in which the projectile stops, and through all
layers behind it. Only the travelled path counts.
---
 src/catima.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 8f426dc..03dba90 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -395,10 +395,11 @@ MultiResult calculate(const Projectile &p, const Phasespace &ps, const Layers &l
         res.total_result.tof += r.tof;
         res.total_result.Eout = r.Eout;        
         double a2 = res.total_result.sigma_a;
-        res.total_result.sigma_x += (2*m.thickness_cm()*res.total_result.cov) 
-                                 + (a2*m.thickness_cm()*m.thickness_cm()) 
+        double l = std::min(r.range/m.density(), m.thickness_cm()); // path length, shorter than the layer if stopped
+        res.total_result.sigma_x += (2*l*res.total_result.cov) 
+                                 + (a2*l*l) 
                                  + r.sigma_x*r.sigma_x;
-        res.total_result.cov += a2*m.thickness_cm() + r.cov;
+        res.total_result.cov += a2*l + r.cov;
         res.total_result.sigma_a += r.sigma_a*r.sigma_a;
         #ifdef REACTIONS
         res.total_result.sp = (r.sp>=0.0)?res.total_result.sp*r.sp:-1;
-- 
2.43.0


From d19515b7ea6e5c658ad609847b26fd7fd0c25732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:18 +0000
Subject: [PATCH 39/56] fix: compute Kox cross section products in double

Products of the mass and proton numbers were formed in int and
overflowed for large arguments.
---
 src/reactions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reactions.cpp b/src/reactions.cpp
index dd6b2ed..30e5931 100644
--- a/src/reactions.cpp
+++ b/src/reactions.cpp
@@ -75,8 +75,8 @@ double SigmaR_Kox(int Ap, int Zp, double E, int At, int Zt){
     constexpr double c1 = 2-(10.0/(1.5*1.5*1.5*1.5*1.5));
     double Ap13 = pow(Ap,1.0/3.0);
     double At13 = pow(At,1.0/3.0);
-    double D = 5.0*(At-2*Zt)*Zp/(Ap*At);
-    double Bc = Zp*Zt/(rc*(Ap13+At13));
+    double D = 5.0*(At-2.0*Zt)*Zp/((double)Ap*At);
+    double Bc = (double)Zp*Zt/(rc*(Ap13+At13));
     double logE = std::log10(E);
     double c = 0;
     if(logE < 1.5){
-- 
2.43.0


From 990bb8cb929df9accfaede0f40eeb1aecc5fc7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:18 +0000
Subject: [PATCH 40/56] fix: square the proton number in double in
 radiation_length

The int product overflowed for large proton numbers.
---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index 9249dc8..9ef78c4 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -542,7 +542,7 @@ double radiation_length(int z, double m){
     if(z==82){return 6.37;}
     if(z==92){return 6.00;}
 
-    double z2 = z*z;
+    double z2 = (double)z*z;
     double z_13 = 1.0/std::pow(z,1./3.);
     double z_23 = z_13*z_13;
     double a2 = fine_structure*fine_structure*z2;
-- 
2.43.0


From 7b084cb977adf8784991728ea84d50396b513dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:18 +0000
Subject: [PATCH 41/56] fix: no density effect for proton numbers below 1

The parameter tables were read before their first entry.
---
 src/calculations.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index 9ef78c4..cf6023d 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -152,6 +152,7 @@ double bethek_density_effect(double beta, int zt){
     int i;
     double del = 0;
 
+    if(zt<1)return 0.0;
     if(zt>97){  // check if data are available, if not take highest z data
         zt=97;
         }
-- 
2.43.0


From 441611e9e69e2f455e81d3ee733ff00b47644c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:18 +0000
Subject: [PATCH 42/56] fix: keep the Lindhard table row inside the table

A projectile charge below 1 gave a negative row, and a charge outside of
the int range was converted before it was limited.
---
 src/calculations.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index cf6023d..747b797 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -581,8 +581,8 @@ double scattering_length(const Material& material){
 
 double precalculated_lindhard(const Projectile &p){
     double T = p.T;
-    int z = (int)p.Z ;
-    if(z>LS_MAX_Z)z=LS_MAX_Z;
+    if(!(p.Z>=1))return 0.0;
+    int z = (int)std::min(p.Z,(double)LS_MAX_Z);
     if(p.T<ls_coefficients::ls_energy_table(0))T=ls_coefficients::ls_energy_table(0);
     if(p.T>ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1))T=ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1);
 
@@ -600,8 +600,8 @@ double precalculated_lindhard(const Projectile &p){
 
 double precalculated_lindhard_X(const Projectile &p){
     double T = p.T;
-    int z = (int)p.Z ;
-    if(z>LS_MAX_Z)z=LS_MAX_Z;
+    if(!(p.Z>=1))return 1.0;
+    int z = (int)std::min(p.Z,(double)LS_MAX_Z);
     //if(p.T<ls_coefficients::ls_energy_table(0))T=ls_coefficients::ls_energy_table(0);
     if(p.T<ls_coefficients::ls_energy_table(0))return 1.0;
     if(p.T>ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1))T=ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1);
-- 
2.43.0


From 261b1a5f66bef1f0371f41d4dd35bca9093af5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:18 +0000
Subject: [PATCH 43/56] fix: no SRIM stopping power for proton numbers below 1

The coefficient tables were read before their first entry. The square of
the projectile proton number is now formed in double.
---
 src/srim.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/srim.cpp b/src/srim.cpp
index d7f6c13..bfb8bcc 100644
--- a/src/srim.cpp
+++ b/src/srim.cpp
@@ -9,6 +9,7 @@ namespace catima{
   */
 
 double p_se(int Z, double energy){
+    if(Z<1)return 0.0;
     double sp = -1;
     double e = 1000*energy; //e in keV/u
     int i = Z - 1;
@@ -32,6 +33,7 @@ double p_se(int Z, double energy){
   * @param energy - energy per nuclein in MeV/u
   */
 double p_se85(int Z, double energy){
+    if(Z<1)return 0.0;
     double sp = -1;
     double e = 1000*energy; //e in keV/u
     int i = Z - 1;
@@ -57,6 +59,7 @@ double p_se85(int Z, double energy){
   * @param energy - projectile energy in MeV/u unit
   */
 double srim_dedx_e(int pZ, int tZ, double energy, bool use_new){
+    if(pZ<1 || tZ<1)return 0.0;
     double e=energy*1000; // e in keV/u
     double se = 0;
     double (*const fp_se)(int, double) = (use_new)?p_se:p_se85;
@@ -135,7 +138,7 @@ double srim_dedx_e(int pZ, int tZ, double energy, bool use_new){
         zeta = q + (1./(2.*(vfermi*vfermi)))*(1. - q)* log1p(h1*h1);
          // ZP**3 EFFECT AS IN REF. 779?
         a = 7.6 - std::max(0.0, log(e));
-        zeta = zeta*(1. + (1./(pZ*pZ))*(0.18 + .0015*tZ)*exp(-a*a));
+        zeta = zeta*(1. + (1./((double)pZ*pZ))*(0.18 + .0015*tZ)*exp(-a*a));
         double c1 = zeta *pZ;
         if (yr <= ( std::max(YRmin, VRmin * pZ23_inv))){
             VRmin=std::max(VRmin, YRmin/pZ23_inv);
-- 
2.43.0


From aab19d1cd017e2011dca69c6c0b6e1fd6a14ebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:30 +0000
Subject: [PATCH 44/56] fix: check the range of proton numbers given as double

Converting a value outside of the int range is undefined.
---
 include/catima/structures.h | 7 +++++++
 src/calculations.cpp        | 2 +-
 src/catima.cpp              | 2 +-
 src/cwrapper.cpp            | 6 +++---
 src/structures.cpp          | 2 +-
 5 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/catima/structures.h b/include/catima/structures.h
index 3513653..f14f8b2 100644
--- a/include/catima/structures.h
+++ b/include/catima/structures.h
@@ -61,6 +61,13 @@ namespace catima{
         double stn=1.0;
     };
 
+    /**
+      * proton number as integer, 0 if the value does not fit
+      */
+    inline int proton_number(double z){
+        return (z>-2147483648.0 && z<2147483648.0)?static_cast<int>(z):0;
+    }
+
     /**
      * Material
      * class to store Material information
diff --git a/src/calculations.cpp b/src/calculations.cpp
index 747b797..91dd654 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -452,7 +452,7 @@ double sezi_dedx_e(const Projectile &p, const Material &mat, const Config &c){
     for(int i=0;i<mat.ncomponents();i++){
         auto t = mat.get_element(i);
         w = mat.weight_fraction(i);
-        sum += w*srim_dedx_e(p.Z,t.Z,T, use95)/t.A;
+        sum += w*srim_dedx_e(proton_number(p.Z),t.Z,T, use95)/t.A;
     }
     return 100*sum*Avogadro; // returning MeV/g/cm2
 }
diff --git a/src/catima.cpp b/src/catima.cpp
index 03dba90..b4a1be7 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -422,7 +422,7 @@ MultiResult calculate(const Projectile &p, const Phasespace &ps, const Layers &l
 
 Result calculate(double pa, int pz, double T, double ta, double tz, double thickness, double density){
     Projectile p(pa,pz);
-    Material m(ta,tz,density,thickness);
+    Material m(ta,proton_number(tz),density,thickness);
     return calculate(p(T),m);
 }
 
diff --git a/src/cwrapper.cpp b/src/cwrapper.cpp
index bf70422..546b305 100644
--- a/src/cwrapper.cpp
+++ b/src/cwrapper.cpp
@@ -11,14 +11,14 @@ extern "C" {
     catima::Material make_material(double ta, double tz, double thickness, double density){
         catima::Material mat;        
         if(tz>200){
-            mat = catima::get_material(tz);
+            mat = catima::get_material(catima::proton_number(tz));
         }
         else{            
-            mat.add_element(ta,tz,1.0);
+            mat.add_element(ta,catima::proton_number(tz),1.0);
         }
         mat.density(density).thickness(thickness);
         if(density<=0.0){
-            catima::Material m0 = catima::get_material(tz);
+            catima::Material m0 = catima::get_material(catima::proton_number(tz));
             mat.density(m0.density());
         }    
         return mat;
diff --git a/src/structures.cpp b/src/structures.cpp
index ef7c4b8..b6a5c2e 100644
--- a/src/structures.cpp
+++ b/src/structures.cpp
@@ -32,7 +32,7 @@ Material::Material(std::initializer_list<std::array<double,3>>list,double _densi
     std::initializer_list<std::array<double,3>>::iterator it;
     atoms.reserve(list.size());
     for ( it=list.begin(); it!=list.end(); ++it){
-        add_element((*it)[0],(*it)[1],(*it)[2]);
+        add_element((*it)[0],proton_number((*it)[1]),(*it)[2]);
     }
 
     if(mass!=0.0){
-- 
2.43.0


From 1a6706e0e787f14aae24adabdc056a6981608ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:07 +0000
Subject: [PATCH 45/56] fix: end the hypergeometric series when a term
 overflows

An infinite term never drops below the convergence limit and the loop did
not end. The number of terms is limited as well.
---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index 91dd654..1fb9aa9 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -854,7 +854,7 @@ std::complex<double> hyperg(const std::complex<double> &a,
             std::complex<double> Cm(dm-1.0, 0.0);
             term = previousterm * ((a + Cm)/(b + Cm)) * (z/dm);
             sumterm += term;
-        } while( std::abs(term) > 1.0e-6 && std::abs(previousterm) > 1.0e-6 );
+        } while( std::abs(term) > 1.0e-6 && std::abs(previousterm) > 1.0e-6 && std::isfinite(std::abs(term)) && dm < 1.0e6);
         return(sumterm);
 }
 
-- 
2.43.0


From 5ef7a66c8a9c08f7901bb6a3fb9353960e1b91c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:39:12 +0000
Subject: [PATCH 46/56] fix: refine integrals which are small because of
 cancellation

The adaptive integrator returned the first estimate whenever it was smaller
than the requested accuracy, whatever its error. Integrands which change
their sign were not refined.
---
 include/catima/gkq_integrator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/gkq_integrator.h b/include/catima/gkq_integrator.h
index 6ab3f1d..9f9b651 100644
--- a/include/catima/gkq_integrator.h
+++ b/include/catima/gkq_integrator.h
@@ -114,7 +114,7 @@ double GaussKronrodIntegration<order>::integrate_adaptive(F& f, double a, double
     }
 
     double aeps = std::max(rprec*std::abs(result), eps);
-    if((aeps<numlimit) || (std::abs(result)<aeps)){
+    if(aeps<numlimit){
 	    return result;
     }
 
-- 
2.43.0


From 4d17ea3d0f1f99708cd4f74dc0a4a423f4e95aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:45:20 +0000
Subject: [PATCH 47/56] fix: calculator takes huge Z and num values modulo 2^32

A proton number or number of energies that does not fit an int was
converted modulo 2^32, so Z=4294967302 was calculated as carbon. Such
values are refused now.
---
 bin/catima_calculator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bin/catima_calculator.cpp b/bin/catima_calculator.cpp
index ac5348b..45e5ac6 100644
--- a/bin/catima_calculator.cpp
+++ b/bin/catima_calculator.cpp
@@ -93,7 +93,8 @@ int main( int argc, char * argv[] )
                             }
                         }
                         if(e.count("num")){
-                            num = e["num"].get<int>();
+                            double n = e["num"].get<double>();
+                            num = (n>=2.0 && n<2147483648.0)?n:0;
                         }
                         if(num>=2)
                             energies  =  linspace_vector(emin,emax,num);
@@ -248,7 +249,7 @@ Material json_material(json &j){
             a = j["A"].get<double>();
             }
         if(j.count("Z")>0){
-            z = j["Z"].get<int>();
+            z = proton_number(j["Z"].get<double>());
             }
         if(z<=0){
             cout<<"Z="<<z<<"\n";
-- 
2.43.0


From 34e4af8ea2882c83dd9aac33724d8b0d56cf0c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:19:24 +0000
Subject: [PATCH 48/56] fix: define the declared da2de with an energy argument

catima.h declares and documents the derivative of the angular variance
with energy, but its definition was commented out, so that programs
calling it did not link.
---
 src/catima.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index b4a1be7..6f0bc42 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -123,14 +123,12 @@ double da2dx(const Projectile &p, const Material &mat, const Config &c){
     return c.scattering_factor*angular_scattering_power(p,mat, Es2);
 }
 
-/*
 double da2de(const Projectile &p, double T, const Material &t, const Config &c){
     auto& data = _storage.Get(p,t,c);
     //Interpolator angular_variance_spline(energy_table.values,data.angular_variance.data(),energy_table.num);
     spline_type angular_variance_spline = get_angular_variance_spline(data);
     return angular_variance_spline.derivative(T);
 }
-*/
 
 double da2de(const Projectile &p, const Material &mat, const Config &c){
     return da2dx(p,mat,c)/dedx(p,mat,c);    
-- 
2.43.0


From 033d9de49a52edcfb73cbf1e21ec5b6197480a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:54:00 +0000
Subject: [PATCH 49/56] fix: define p_from_T once

reactions.h defined it a second time as an inline function, with a formula
that differs in the last digit. Programs got one or the other depending on
the headers they included.
---
 include/catima/reactions.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/catima/reactions.h b/include/catima/reactions.h
index e000120..210caee 100644
--- a/include/catima/reactions.h
+++ b/include/catima/reactions.h
@@ -53,9 +53,7 @@ namespace catima{
     
 #ifndef NUREX
 double SigmaR_Kox(int Ap, int Zp, double E, int At, int Zt);
-inline double p_from_T(double T, double M=1.0){
-    return M*sqrt(T*T + 2*T*atomic_mass_unit);
-}
+double p_from_T(double T, double M=1.0);
 
 /// calculates Ecm fom T, return in MeV units
 inline double Ecm_from_T(double T, double Ap, double At){
-- 
2.43.0


From 3ee77d0d745828450ae10f42a9af36be81ac2bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:37:08 +0000
Subject: [PATCH 50/56] fix: let convert.h be included in several source files

---
 include/catima/convert.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/catima/convert.h b/include/catima/convert.h
index e70cbc1..b8b01f5 100644
--- a/include/catima/convert.h
+++ b/include/catima/convert.h
@@ -25,7 +25,7 @@
 
 using namespace catima;
 
-bool mocadi_material_match(const Material &a, const Material&b){
+inline bool mocadi_material_match(const Material &a, const Material&b){
     if(std::fabs(a.density() - b.density())> 1e-6)return false;
     if(a.ncomponents() != b.ncomponents())return false;
     for(int i=0;i<a.ncomponents();i++){
@@ -37,7 +37,7 @@ bool mocadi_material_match(const Material &a, const Material&b){
     return true;
 }
 
-int materialdb_id(const Material &m){
+inline int materialdb_id(const Material &m){
     for(int i=201;i<=349;i++){
         if(mocadi_material_match(get_material(i),m)){
             return i;
@@ -46,7 +46,7 @@ int materialdb_id(const Material &m){
     return 0;
 }
 
-bool save_mocadi(const char* filename, const Projectile p, const Layers &layers, const Phasespace &psx={}, const Phasespace &psy={}){
+inline bool save_mocadi(const char* filename, const Projectile p, const Layers &layers, const Phasespace &psx={}, const Phasespace &psy={}){
     std::ofstream fw;
     fw.open(filename, std::ios::out);
     if (!fw.is_open()) { return false;}
-- 
2.43.0


From af51a9425441c436515acf9f8e87c848dd2ba246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:37:08 +0000
Subject: [PATCH 51/56] fix: guard srim.h against repeated inclusion

---
 include/catima/srim.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/catima/srim.h b/include/catima/srim.h
index 52043bd..f83445a 100644
--- a/include/catima/srim.h
+++ b/include/catima/srim.h
@@ -1,4 +1,7 @@
 
+#ifndef SRIM_H
+#define SRIM_H
+
 namespace catima{
 
 /**
@@ -22,4 +25,6 @@ extern const double pse_95[92][8];
 extern const double atima_lambda_screening[92];
 extern const double atima_vfermi[92];
 extern const double proton_stopping_coef[92][8];
-}
\ No newline at end of file
+}
+
+#endif
-- 
2.43.0


From f01dafe73965615928926abd2cb355dba5369094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:37:08 +0000
Subject: [PATCH 52/56] fix: let config.h see the build options

---
 include/catima/config.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/catima/config.h b/include/catima/config.h
index fe1649e..3464a4c 100644
--- a/include/catima/config.h
+++ b/include/catima/config.h
@@ -2,6 +2,7 @@
 #ifndef CONFIG
 #define CONFIG
 #include <cstring>
+#include "catima/build_config.h"
 namespace catima{
 
     /**
-- 
2.43.0


From 53ed58ab5cb2ccc7300b0d83faee517622e58375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:37:08 +0000
Subject: [PATCH 53/56] fix: hand over the GSL spline when an interpolator is
 moved

---
 include/catima/storage.h | 17 ++++++++++++++---
 src/storage.cpp          |  4 ++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/catima/storage.h b/include/catima/storage.h
index 146711a..1b14562 100644
--- a/include/catima/storage.h
+++ b/include/catima/storage.h
@@ -21,6 +21,7 @@
 #include <array>
 #include <iterator>
 #include <cmath>
+#include <utility>
 //#include <unordered_set>
 #include "catima/build_config.h"
 #include "catima/constants.h"
@@ -145,8 +146,18 @@ namespace catima{
     /// Interpolation class, to store interpolated values
         class InterpolatorGSL{
             public:
-            InterpolatorGSL(){};
+            InterpolatorGSL()=default;
             InterpolatorGSL(const EnergyTable<max_datapoints>& x, const std::vector<double>& y, interpolation_t type=cspline);
+            InterpolatorGSL(const InterpolatorGSL&)=delete;
+            InterpolatorGSL(InterpolatorGSL&& o) noexcept {*this = std::move(o);}
+            InterpolatorGSL& operator=(const InterpolatorGSL&)=delete;
+            InterpolatorGSL& operator=(InterpolatorGSL&& o) noexcept {
+                std::swap(min, o.min);
+                std::swap(max, o.max);
+                std::swap(acc, o.acc);
+                std::swap(spline, o.spline);
+                return *this;
+            }
             ~InterpolatorGSL();
             double operator()(double x)const{return eval(x);};
             double eval(double x) const;
@@ -157,8 +168,8 @@ namespace catima{
             private:
             double min=0;
             double max=0;
-            gsl_interp_accel *acc;
-            gsl_spline *spline;
+            gsl_interp_accel *acc=nullptr;
+            gsl_spline *spline=nullptr;
         };
     #endif
 
diff --git a/src/storage.cpp b/src/storage.cpp
index e7163a1..5838eb0 100644
--- a/src/storage.cpp
+++ b/src/storage.cpp
@@ -51,8 +51,8 @@ InterpolatorGSL::InterpolatorGSL(const EnergyTable<max_datapoints>& x, const std
 }
 
 InterpolatorGSL::~InterpolatorGSL(){
-    gsl_interp_accel_free (acc);
-    gsl_spline_free (spline);
+    if(acc)gsl_interp_accel_free (acc);
+    if(spline)gsl_spline_free (spline);
 }
 
 double InterpolatorGSL::eval(double x) const{
-- 
2.43.0


From 5d0ee1f8a1eaca82d94d0a7250dba43d7b8a69b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:39:37 +0000
Subject: [PATCH 54/56] fix: give a copied data point splines of its own tables

---
 include/catima/storage.h |  2 +-
 src/storage.cpp          | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/catima/storage.h b/include/catima/storage.h
index 1b14562..8f29fe6 100644
--- a/include/catima/storage.h
+++ b/include/catima/storage.h
@@ -234,7 +234,7 @@ class DataPoint{
     DataPoint(const Projectile _p, const Material _m,const Config &_c=default_config):p(_p),m(_m),config(_c){}
     DataPoint(const DataPoint&)=delete;
     DataPoint(DataPoint&&)=default;
-    DataPoint& operator=(const DataPoint&)=default;
+    DataPoint& operator=(const DataPoint&);
     DataPoint& operator=(DataPoint&&)=default;
 	friend bool operator==(const DataPoint &a, const DataPoint &b);
     };
diff --git a/src/storage.cpp b/src/storage.cpp
index 5838eb0..f77bd3b 100644
--- a/src/storage.cpp
+++ b/src/storage.cpp
@@ -68,6 +68,23 @@ double InterpolatorGSL::derivative(double x)const{
 }
 #endif
 
+DataPoint& DataPoint::operator=(const DataPoint& o){
+    if(this==&o)return *this;
+    p = o.p;
+    m = o.m;
+    config = o.config;
+    range = o.range;
+    range_straggling = o.range_straggling;
+    angular_variance = o.angular_variance;
+#ifdef STORE_SPLINES
+    // the splines refer to the tables they are made of
+    range_spline = range.empty()?Interpolator():Interpolator(energy_table, range);
+    range_straggling_spline = range_straggling.empty()?Interpolator():Interpolator(energy_table, range_straggling);
+    angular_variance_spline = angular_variance.empty()?Interpolator():Interpolator(energy_table, angular_variance);
+#endif
+    return *this;
+}
+
 #ifdef STORE_SPLINES
     const Interpolator& get_range_spline(const DataPoint &data){
         return data.range_spline;
-- 
2.43.0


From 8b9ac8965b7e0c390ca8fe3fe2b263e8dcdbcb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:12:30 +0000
Subject: [PATCH 55/56] fix: upper limit of a spline on a table of another size

---
 include/catima/storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/storage.h b/include/catima/storage.h
index 8f29fe6..60deda6 100644
--- a/include/catima/storage.h
+++ b/include/catima/storage.h
@@ -179,7 +179,7 @@ namespace catima{
         //using xtype = EnergyTable<max_datapoints>;
         InterpolatorCSpline()=default;
         InterpolatorCSpline(const xtype &table, const std::vector<double> &y):
-            min(table[0]), max(table[max_datapoints-1]), ss(table,y){}
+            min(table[0]), max(table[xtype::size()-1]), ss(table,y){}
         double operator()(double x)const{return eval(x);}
         double eval(double x)const{return ss.evaluate(x);}
         double derivative(double x)const{return ss.deriv(x);}
-- 
2.43.0


From bce715b8c5283ee3d9c142e94663a89e99a2a05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:12:30 +0000
Subject: [PATCH 56/56] fix: tridiagonal solver returned uninitialised values
 for a vanishing first pivot

---
 include/catima/spline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/spline.h b/include/catima/spline.h
index 721a6f4..656c424 100644
--- a/include/catima/spline.h
+++ b/include/catima/spline.h
@@ -78,7 +78,7 @@ double tridiagonal_matrix<N>::operator () (unsigned int i, unsigned int j) const
 template<int N>
 std::array<double, N> tridiagonal_matrix<N>::trig_solve(const std::array<double, N>& b) const
 {
-    std::array<double, N> x;
+    std::array<double, N> x{};
     if(d[0] == 0.0){return x;}
     std::array<double, N> g;
     x[0] = b[0]/d[0];
-- 
2.43.0

