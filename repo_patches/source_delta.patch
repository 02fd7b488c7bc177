From 6a1f6fa6ed9e9966afab4bf205096871aff5252c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 1/9] fix: Cheb::to_po no longer halves the caller's
 coefficients in place

---
 Source/cheb.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Source/cheb.cpp b/Source/cheb.cpp
index d53b232..2755248 100644
--- a/Source/cheb.cpp
+++ b/Source/cheb.cpp
@@ -76,11 +76,13 @@ void Cheb::to_po(std::vector<double> &ch, std::vector<double> &po) const
    assert(po.size()==_n);
    /*
     * normalize coefficients for Fourier transform 
+    * (on a copy, so the caller's coefficients are unchanged)
     */
+   std::vector<double> tmp(ch);
    for (size_t i=1; i<_n-1; i++) {
-      ch[i] /= 2.0;
+      tmp[i] /= 2.0;
    }
-   fftw_execute_r2r(_plan_dct, ch.data(), po.data());
+   fftw_execute_r2r(_plan_dct, tmp.data(), po.data());
 }
 /*==========================================================================*/
 /* Compute derivative over interval */
-- 
2.43.0


From 1c57d5cd5419fab4f999391bf3cda72bda3095a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 2/9] fix: destroying a Cheb object no longer invalidates the
 plans of other Cheb objects

---
 Source/cheb.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/cheb.cpp b/Source/cheb.cpp
index 2755248..362242c 100644
--- a/Source/cheb.cpp
+++ b/Source/cheb.cpp
@@ -41,8 +41,9 @@ Cheb::~Cheb()
 {
    assert(_plan_dct!=nullptr);
 
+   /* no fftw_cleanup() here: it would invalidate the plans of
+    * every other Cheb object that is still alive */
    fftw_destroy_plan(_plan_dct);
-   fftw_cleanup();
 }
 /*==========================================================================*/
 /* position space to Chebyshev space */
-- 
2.43.0


From 7d6085ec6a7527e045236d28d2eda1ecca3614b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 3/9] fix: angular operators, filter and spectrum include the
 highest resolved l and m

---
 Source/sphere.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/Source/sphere.cpp b/Source/sphere.cpp
index 8d1ebfa..f595c1e 100644
--- a/Source/sphere.cpp
+++ b/Source/sphere.cpp
@@ -13,8 +13,8 @@ Sphere::Sphere(
    _mmax{nm},
    _nlat{nlat}, 
    _nphi{nphi}, 
-   _lap(_lmax,0),
-   _low_pass(_lmax,0)
+   _lap(_lmax+1,0),
+   _low_pass(_lmax+1,0)
 {
    std::cout<<"Initializing Sphere"<<std::endl;
    shtns_verbose(0);     /* displays informations during initialization. */
@@ -45,13 +45,13 @@ Sphere::Sphere(
    /* 
     * Set Laplacian in spherical harmonic space: \Delta Y_{lm} = -l(l+1) Y_{lm}
     */
-   for (size_t i=0; i<_lmax; i++) {
+   for (size_t i=0; i<=_lmax; i++) {
       _lap[i] = - double(i)*double(i+1.0);
    }
    /* 
     * Low pass filter in spherical harmonic space 
     */
-   for (size_t i=0; i<_lmax; i++) {
+   for (size_t i=0; i<=_lmax; i++) {
       _low_pass[i] = exp(-40.0*pow(double(i)/_lmax,16));
    }
    _nSph = NSPAT_ALLOC(_shtns);
@@ -202,8 +202,8 @@ void Sphere::laplace_beltrami(
    }
    spat_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;             l++) {
+   for (size_t m=0; m<=std::min(l,_mmax); m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= _lap[l];
    }
    }
@@ -233,8 +233,8 @@ void Sphere::partial_phi(const std::vector<double> &v, std::vector<double> &dv)
 
    const cplx img(0,1);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;             l++) {
+   for (size_t m=0; m<=std::min(l,_mmax); m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= img*cplx(m);
    }
    }
@@ -265,7 +265,7 @@ void Sphere::raise(const std::vector<double> &v, std::vector<cplx> &rv) const
    }
    spat_cplx_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax; l++) {
+   for (size_t l=0; l<=_lmax; l++) {
       for (int m=int(l); m>-int(l); m--) {
          Ylm_tmp[l*(l+1)+m] = pow((l-m+1)*(l+m),0.5)*Ylm_tmp[l*(l+1)+(m-1)];
       }
@@ -299,7 +299,7 @@ void Sphere::lower(const std::vector<double> &v, std::vector<cplx> &lv) const
    }
    spat_cplx_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax; l++) {
+   for (size_t l=0; l<=_lmax; l++) {
       for (int m=-int(l); m<int(l); m++) {
          Ylm_tmp[l*(l+1)+m] = pow((l+m+1)*(l-m),0.5)*Ylm_tmp[l*(l+1)+(m+1)];
       }
@@ -354,8 +354,8 @@ void Sphere::filter(std::vector<double> &v) const
    }
    spat_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;             l++) {
+   for (size_t m=0; m<=std::min(l,_mmax); m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= _low_pass[l]*_low_pass[m];
    }
    }
@@ -387,7 +387,7 @@ void Sphere::power_spectrum(const std::vector<double> &v, std::vector<double> &p
       const double i_Ylm = Ylm_tmp[LM(_shtns,l,0)].imag();
       p[l] = (pow(r_Ylm,2) + pow(i_Ylm,2));
 
-      for (size_t m=1; m<std::min(l+1,_mmax); m++) {
+      for (size_t m=1; m<=std::min(l,_mmax); m++) {
          /*
           * We double count positive m as we do not
           * count negative m.
-- 
2.43.0


From 982f1128a442bd18f905b46f2783c66dd35eaf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 4/9] fix: set_row_ph and get_row_R_ph use the number of
 azimuthal points

---
 Source/grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/grid.hpp b/Source/grid.hpp
index 8d710c5..ef35227 100644
--- a/Source/grid.hpp
+++ b/Source/grid.hpp
@@ -111,7 +111,7 @@ public:
    {
       assert(in.size() ==_nphi);
       assert(out.size()==_nx*_nphi*_nlat);
-      for (size_t ip=0; ip<_nlat; ip++) {
+      for (size_t ip=0; ip<_nphi; ip++) {
          out[indx_R_th_ph(ix,it,ip)] = in[ip];
       }
    } 
@@ -167,7 +167,7 @@ public:
          std::vector<double> &out) const
    {
       assert(in.size() ==_nx*_nphi*_nlat);
-      assert(out.size()==_nx*_nlat);
+      assert(out.size()==_nx*_nphi);
       for (size_t ix=0; ix<_nx;   ix++) {
       for (size_t ip=0; ip<_nphi; ip++) {
          out[indx_r_ph(ix,ip)] = in[indx_R_th_ph(ix,it,ip)];
-- 
2.43.0


From 9237c411d6baeda8db6832fe249ed08905f85c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 5/9] fix: Grid::filter applies the radial filter and keeps the
 radial end values

---
 Source/grid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/grid.cpp b/Source/grid.cpp
index 7819e4c..9c60d66 100644
--- a/Source/grid.cpp
+++ b/Source/grid.cpp
@@ -295,9 +295,10 @@ void Grid::filter(std::vector<double> &v) const
       get_row_R(it, ip, v, inter_radial); 
       const double lwr = inter_radial[0    ];
       const double upr = inter_radial[_nx-1];
-      set_row_R(it, ip, inter_radial, v); 
+      _radial.filter(inter_radial);
       inter_radial[0    ] = lwr;
       inter_radial[_nx-1] = upr;
+      set_row_R(it, ip, inter_radial, v); 
    }
    }
 }
-- 
2.43.0


From c38c0756fdae1a93e9f2e4547ac7a0a6c1709d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 6/9] fix: energy density counted the factor 1/2 of the kinetic
 terms twice

---
 Source/scalar_eom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/scalar_eom.cpp b/Source/scalar_eom.cpp
index 13124fa..b547412 100644
--- a/Source/scalar_eom.cpp
+++ b/Source/scalar_eom.cpp
@@ -343,7 +343,7 @@ void Scalar_eom::set_rho(
          );
          
       rho[i] = 
-      +  k*(1./2.)*(
+      +  k*( /* the overall 1/2 is in the coefficients below */
             _rho_vv[i]*pow(p[i],2) 
          +  _rho_vr[i]*p[i]*_dr_f[i]
          +  _rho_rr[i]*pow(_dr_f[i],2)
-- 
2.43.0


From 3b4cef392b4f4d60e15c8c9edfa1bd2df991d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 7/9] fix: sign of the time-radial cross term in the energy
 density

---
 Documentation/main.tex | 2 +-
 Source/scalar_eom.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Documentation/main.tex b/Documentation/main.tex
index 4ae33b5..92e67d6 100644
--- a/Documentation/main.tex
+++ b/Documentation/main.tex
@@ -306,7 +306,7 @@ In ingoing Eddington-Finkelstein coordinates we have
    \frac{1}{2}\Bigg[
       \left(1+\frac{2Mr}{\Sigma}\right)
       \left(\partial_v\psi\right)^2
-      +
+      -
       \frac{4Mr}{\Sigma}
       \left(\partial_v\psi\right)\left(\partial_r\psi\right)
       \nonumber\\&
diff --git a/Source/scalar_eom.cpp b/Source/scalar_eom.cpp
index b547412..ed760b8 100644
--- a/Source/scalar_eom.cpp
+++ b/Source/scalar_eom.cpp
@@ -112,7 +112,7 @@ Scalar_eom::Scalar_eom(
       _p_sphereX_f[indx]   *= _pre[indx];
 
       _rho_vv[indx]      = 0.5*(1. + 2.*m*inv_r/Sigma);
-      _rho_vr[indx]      = 2. *m*inv_r/Sigma;
+      _rho_vr[indx]      = -2.*m*inv_r/Sigma;
       _rho_rr[indx]      = 0.5*( 
             ((1. + (2.*m*inv_r)+pow(a*inv_r,2))/Sigma)
          -  (4.*m*inv_r/(2.*m*inv_r + Sigma))     
-- 
2.43.0


From 9f8023148d2bc6acfb367f668b185df73bd34af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 8/9] fix: compact pulse sets both radial ends and vanishes
 outside its support

---
 Source/initial_data.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Source/initial_data.cpp b/Source/initial_data.cpp
index 5d18d71..7fe1afb 100644
--- a/Source/initial_data.cpp
+++ b/Source/initial_data.cpp
@@ -36,7 +36,7 @@ void compact_pulse(
 
    std::vector<double> ylm = grid.compute_ylm(l_ang, m_ang);
 
-   for (size_t ix=0; ix<nx-1; ix++) { /* do not include ix=nx-1 as r=infty there */
+   for (size_t ix=0; ix<nx;   ix++) {
    for (size_t ip=0; ip<nphi; ip++) {
    for (size_t it=0; it<nlat; it++) {
       const std::vector<double> R_th_ph = grid.R_th_ph(ix,it,ip);
@@ -44,6 +44,11 @@ void compact_pulse(
       const double r = grid.R_to_r(R_th_ph[0]);
       double bump = 0.0;
 
+      if (!((r<ru) && (r>rl))) { /* outside of support (includes r=infty) */
+         f[grid.indx_R_th_ph(ix,it,ip)] = 0;
+         p[grid.indx_R_th_ph(ix,it,ip)] = 0;
+         continue;
+      }
       if ((r<ru) && (r>rl)) {
          bump = exp(-1.0*width/(r-rl))*exp(-2.0*width/(ru-r));
       }
-- 
2.43.0


From 890c6c86ff2d91f8eaa64fc35432793f1df66880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 9/9] fix: compile script and recompile option no longer link
 objects of the other radial scheme

---
 config.py    | 4 ++++
 sim_class.py | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/config.py b/config.py
index 6ad5508..7b9fa8c 100755
--- a/config.py
+++ b/config.py
@@ -20,6 +20,9 @@ args = parser.parse_args()
 print("=====================================================")
 print("Compiling radial Chebyshev executable")
 print("=====================================================")
+## the two executables are compiled from the same object files,
+## but with different flags
+subprocess.call('make clean_Source', shell=True)
 subprocess.call(
       'make debug={} profile={} use_cheb=true use_contiguous_longitudes=true'.format(args.debug, args.profile), 
       shell=True
@@ -27,6 +30,7 @@ subprocess.call(
 print("=====================================================")
 print("Compiling radial finite difference executable")
 print("=====================================================")
+subprocess.call('make clean_Source', shell=True)
 subprocess.call(
       'make debug={} profile={} use_contiguous_longitudes=true'.format(args.debug, args.profile), 
       shell=True
diff --git a/sim_class.py b/sim_class.py
index 19b5c61..b6ccdc9 100644
--- a/sim_class.py
+++ b/sim_class.py
@@ -145,5 +145,8 @@ class Sim:
          os.chdir(self.home_dir)
 #=============================================================================
    def then_recompile(self)->None:
-      subprocess.call('make clean_obj'+self.bin_name,shell=True)
-      subprocess.call('make '+self.bin_name,shell=True)
+      flags= ' use_contiguous_longitudes=true'
+      if (self.use_cheb==True):
+         flags+= ' use_cheb=true'
+      subprocess.call('make clean_Source',shell=True)
+      subprocess.call('make '+self.bin_name+flags,shell=True)
-- 
2.43.0

