From ca9d6fa4f91258e967dd5edc381ef5d68857454c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 01/16] fix: erfc of large negative arguments is 2, not 0

For x < -26.7 erfcx saturates at f64::MAX while exp(x^2) overflows, so erfc returned 0 and erf returned +1
instead of -1. The isotensional EFJC functions were therefore wrong for nondimensional link stiffnesses above
about 1400 unless the force is large.
---
 src/math/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 0b66ce9..e38f41f 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -250,7 +250,14 @@ pub fn erf(x: &f64) -> f64
 
 pub fn erfc(x: &f64) -> f64
 {
-    erfcx(x)/(x.powi(2)).exp()
+    if x < &-6.1
+    {
+        2.0
+    }
+    else
+    {
+        erfcx(x)/(x.powi(2)).exp()
+    }
 }
 
 pub fn erfcx(x: &f64) -> f64
-- 
2.43.0


From 15041dc6245ac0426c1ee6939634d99174f4be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 02/16] fix: modified Bessel functions of large negative
 arguments

The branch selection compared the signed argument, so every x < -7.75 was evaluated with the polynomial meant
for |x| < 7.75 (relative error 0.3 at -30, 1 at -300). The worm-like chain calls bessel_i with negative arguments.
---
 src/math/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index e38f41f..072640b 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -96,11 +96,11 @@ pub fn bessel_i(nu: &u8, x: &f64) -> f64
 {
     if nu == &0
     {
-        bessel_i0(x)
+        bessel_i0(&x.abs())
     }
     else if nu == &1
     {
-        bessel_i1(x)
+        bessel_i1(&x.abs()).copysign(*x)
     }
     else
     {
-- 
2.43.0


From c1e02ec67f3e454f0c8f3e880ee7632e411e2b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 03/16] fix: isotensional EFJC end-to-end length is the
 derivative of its Gibbs free energy

The derivative of the error-function term missed erf((eta + kappa)/sqrt(2 kappa)) and was divided by 1 + fraction
where the partition function has 1/2 + fraction. The length did not vanish at zero force and was wrong by
up to its own size for nondimensional link stiffnesses below about 30.
---
 .../efjc/thermodynamics/isotensional/legendre/mod.rs            | 2 +-
 .../single_chain/efjc/thermodynamics/isotensional/mod.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/single_chain/efjc/thermodynamics/isotensional/legendre/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isotensional/legendre/mod.rs
index dbf87c5..f0e0262 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isotensional/legendre/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isotensional/legendre/mod.rs
@@ -66,7 +66,7 @@ pub fn nondimensional_helmholtz_free_energy_per_link(link_length: &f64, hinge_ma
 {
     let denominator = 4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness);
     let fraction = ((nondimensional_force/nondimensional_link_stiffness + 1.0)*nondimensional_force.exp()*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())) - (nondimensional_force/nondimensional_link_stiffness - 1.0)/nondimensional_force.exp()*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())))/denominator;
-    -(nondimensional_force.sinh()/nondimensional_force).ln() - 0.5*nondimensional_force.powi(2)/nondimensional_link_stiffness - (1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness).ln() - (0.5 + ((nondimensional_force/nondimensional_link_stiffness + 1.0)*nondimensional_force.exp()*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())) - (nondimensional_force/nondimensional_link_stiffness - 1.0)/nondimensional_force.exp()*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())))/(4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness))).ln() - 0.5*(2.0*PI*link_length.powi(2)/nondimensional_link_stiffness).ln() - (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln() + nondimensional_force*(1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/nondimensional_link_stiffness*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/nondimensional_link_stiffness)) + (nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness + 1.0)*(-(nondimensional_force + nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 + nondimensional_force)/nondimensional_link_stiffness)) - 1.0/nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness - 1.0)*(-(nondimensional_force - nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 - nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - fraction*(4.0*(nondimensional_force.cosh()*(1.0 + (1.0 + nondimensional_force/nondimensional_force.tanh())/nondimensional_link_stiffness) - nondimensional_force/nondimensional_link_stiffness/nondimensional_force.sinh())))/denominator/(1.0 + fraction))
+    -(nondimensional_force.sinh()/nondimensional_force).ln() - 0.5*nondimensional_force.powi(2)/nondimensional_link_stiffness - (1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness).ln() - (0.5 + ((nondimensional_force/nondimensional_link_stiffness + 1.0)*nondimensional_force.exp()*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())) - (nondimensional_force/nondimensional_link_stiffness - 1.0)/nondimensional_force.exp()*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())))/(4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness))).ln() - 0.5*(2.0*PI*link_length.powi(2)/nondimensional_link_stiffness).ln() - (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln() + nondimensional_force*(1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/nondimensional_link_stiffness*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/nondimensional_link_stiffness)) + (nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness + 1.0)*(-(nondimensional_force + nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 + nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - 1.0/nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness - 1.0)*(-(nondimensional_force - nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 - nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - fraction*(4.0*(nondimensional_force.cosh()*(1.0 + (1.0 + nondimensional_force/nondimensional_force.tanh())/nondimensional_link_stiffness) - nondimensional_force/nondimensional_link_stiffness/nondimensional_force.sinh())))/denominator/(0.5 + fraction))
 }
 
 /// The nondimensional relative Helmholtz free energy as a function of the applied nondimensional force, parameterized by the number of links and nondimensional link stiffness.
diff --git a/src/physics/single_chain/efjc/thermodynamics/isotensional/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isotensional/mod.rs
index 80cbc73..96c1a13 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isotensional/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isotensional/mod.rs
@@ -66,7 +66,7 @@ pub fn nondimensional_end_to_end_length_per_link(nondimensional_link_stiffness:
 {
     let denominator = 4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness);
     let fraction = ((nondimensional_force/nondimensional_link_stiffness + 1.0)*nondimensional_force.exp()*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())) - (nondimensional_force/nondimensional_link_stiffness - 1.0)/nondimensional_force.exp()*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())))/denominator;
-    1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/(nondimensional_link_stiffness)*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/(nondimensional_link_stiffness))) + (nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness + 1.0)*(-(nondimensional_force + nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 + nondimensional_force)/nondimensional_link_stiffness)) - 1.0/nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness - 1.0)*(-(nondimensional_force - nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 - nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - fraction*(4.0*(nondimensional_force.cosh()*(1.0 + (1.0 + nondimensional_force/nondimensional_force.tanh())/nondimensional_link_stiffness) - nondimensional_force/nondimensional_link_stiffness/nondimensional_force.sinh())))/denominator/(1.0 + fraction)
+    1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/(nondimensional_link_stiffness)*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/(nondimensional_link_stiffness))) + (nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness + 1.0)*(-(nondimensional_force + nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 + nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - 1.0/nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness - 1.0)*(-(nondimensional_force - nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 - nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - fraction*(4.0*(nondimensional_force.cosh()*(1.0 + (1.0 + nondimensional_force/nondimensional_force.tanh())/nondimensional_link_stiffness) - nondimensional_force/nondimensional_link_stiffness/nondimensional_force.sinh())))/denominator/(0.5 + fraction)
 }
 
 /// The Gibbs free energy as a function of the applied force and temperature, parameterized by the number of links, link length, hinge mass, and link stiffness.
-- 
2.43.0


From 86f191ad8abbc16d334c3748ba3b9d54af6997b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 04/16] fix: isometric Legendre SWFJC force overflows near full
 extension

---
 .../single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs b/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs
index e7ac8b6..810df2a 100644
--- a/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs
+++ b/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs
@@ -67,7 +67,7 @@ pub fn nondimensional_force(link_length: &f64, well_width: &f64, nondimensional_
         {
             10.0
         };
-        inverse_newton_raphson(nondimensional_end_to_end_length_per_link, &|nondimensional_force: &f64| (nondimensional_well_parameter.powi(2)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.sinh())/(nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - (nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.cosh() + nondimensional_force.sinh()) - 3.0/nondimensional_force, &|nondimensional_force: &f64| (nondimensional_force.sinh() + nondimensional_force*nondimensional_force.cosh() - nondimensional_well_parameter.powi(3)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - nondimensional_well_parameter.powi(2)*(nondimensional_well_parameter*nondimensional_force).sinh())/((nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - nondimensional_force.sinh() + nondimensional_force*nondimensional_force.cosh()) - (nondimensional_force.powi(2)*(nondimensional_force.sinh() - nondimensional_well_parameter.powi(2)*(nondimensional_well_parameter*nondimensional_force).sinh()).powi(2))/((nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - nondimensional_force.sinh() + nondimensional_force*nondimensional_force.cosh()).powi(2) + 3.0/nondimensional_force.powi(2), &guess, &1e-6, &100)
+        inverse_newton_raphson(nondimensional_end_to_end_length_per_link, &|nondimensional_force: &f64| (nondimensional_well_parameter.powi(2)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.sinh())/(nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - (nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.cosh() + nondimensional_force.sinh()) - 3.0/nondimensional_force, &|nondimensional_force: &f64| (nondimensional_force.sinh() + nondimensional_force*nondimensional_force.cosh() - nondimensional_well_parameter.powi(3)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - nondimensional_well_parameter.powi(2)*(nondimensional_well_parameter*nondimensional_force).sinh())/((nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - nondimensional_force.sinh() + nondimensional_force*nondimensional_force.cosh()) - (nondimensional_force*(nondimensional_force.sinh() - nondimensional_well_parameter.powi(2)*(nondimensional_well_parameter*nondimensional_force).sinh())/((nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - nondimensional_force.sinh() + nondimensional_force*nondimensional_force.cosh())).powi(2) + 3.0/nondimensional_force.powi(2), &guess, &1e-6, &100)
     }
 }
 
-- 
2.43.0


From 0976b6b4b4a412ac8795ede202a48735e980efbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 05/16] fix: inverse Langevin function of negative arguments

---
 src/math/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 072640b..a2882ed 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -34,7 +34,11 @@ pub fn inverse_newton_raphson(y: &f64, f: &dyn Fn(&f64) -> f64, fp: &dyn Fn(&f64
 
 pub fn inverse_langevin(y: &f64) -> f64
 {
-    if y <= &1e-3
+    if y < &0.0
+    {
+        -inverse_langevin(&-y)
+    }
+    else if y <= &1e-3
     {
         3.0*y
     }
-- 
2.43.0


From a59d5ada6ba36d00087601f7755ca26c04598783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 06/16] fix: modified canonical ensemble underflows (0/0) for
 distant potentials

---
 .../fjc/thermodynamics/modified_canonical/mod.rs       | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/physics/single_chain/fjc/thermodynamics/modified_canonical/mod.rs b/src/physics/single_chain/fjc/thermodynamics/modified_canonical/mod.rs
index 4876dc5..8cff913 100644
--- a/src/physics/single_chain/fjc/thermodynamics/modified_canonical/mod.rs
+++ b/src/physics/single_chain/fjc/thermodynamics/modified_canonical/mod.rs
@@ -75,13 +75,14 @@ pub fn nondimensional_force(number_of_links: &u8, nondimensional_potential_dista
 {
     let number_of_links_f64 = *number_of_links as f64;
     let number_of_links_squared_times_nondimensional_potential_stiffness = number_of_links_f64.powi(2)*nondimensional_potential_stiffness;
+    let nondimensional_potential_distance_offset = (nondimensional_potential_distance - 1.0).max(0.0).powi(2);
     let integrand_numerator = |nondimensional_end_to_end_length_per_link: &f64|
     {
-        4.0*PI*nondimensional_end_to_end_length_per_link.powi(2)*treloar_sum_0_with_prefactor(number_of_links, nondimensional_end_to_end_length_per_link)*((number_of_links_squared_times_nondimensional_potential_stiffness*(nondimensional_potential_distance - nondimensional_end_to_end_length_per_link)*(-0.5*number_of_links_squared_times_nondimensional_potential_stiffness*(nondimensional_potential_distance - nondimensional_end_to_end_length_per_link).powi(2)).exp() - number_of_links_squared_times_nondimensional_potential_stiffness*(nondimensional_potential_distance + nondimensional_end_to_end_length_per_link)*(-0.5*number_of_links_squared_times_nondimensional_potential_stiffness*(nondimensional_potential_distance + nondimensional_end_to_end_length_per_link).powi(2)).exp())/(2.0*number_of_links_squared_times_nondimensional_potential_stiffness*nondimensional_potential_distance*nondimensional_end_to_end_length_per_link) + ((-0.5*number_of_links_squared_times_nondimensional_potential_stiffness*(nondimensional_potential_distance - nondimensional_end_to_end_length_per_link).powi(2)).exp() - (-0.5*number_of_links_squared_times_nondimensional_potential_stiffness*(nondimensional_potential_distance + nondimensional_end_to_end_length_per_link).powi(2)).exp())/(2.0*number_of_links_squared_times_nondimensional_potential_stiffness*nondimensional_potential_distance.powi(2)*nondimensional_end_to_end_length_per_link))
+        4.0*PI*nondimensional_end_to_end_length_per_link.powi(2)*treloar_sum_0_with_prefactor(number_of_links, nondimensional_end_to_end_length_per_link)*((number_of_links_squared_times_nondimensional_potential_stiffness*(nondimensional_potential_distance - nondimensional_end_to_end_length_per_link)*(-0.5*number_of_links_squared_times_nondimensional_potential_stiffness*((nondimensional_potential_distance - nondimensional_end_to_end_length_per_link).powi(2) - nondimensional_potential_distance_offset)).exp() - number_of_links_squared_times_nondimensional_potential_stiffness*(nondimensional_potential_distance + nondimensional_end_to_end_length_per_link)*(-0.5*number_of_links_squared_times_nondimensional_potential_stiffness*((nondimensional_potential_distance + nondimensional_end_to_end_length_per_link).powi(2) - nondimensional_potential_distance_offset)).exp())/(2.0*number_of_links_squared_times_nondimensional_potential_stiffness*nondimensional_potential_distance*nondimensional_end_to_end_length_per_link) + ((-0.5*number_of_links_squared_times_nondimensional_potential_stiffness*((nondimensional_potential_distance - nondimensional_end_to_end_length_per_link).powi(2) - nondimensional_potential_distance_offset)).exp() - (-0.5*number_of_links_squared_times_nondimensional_potential_stiffness*((nondimensional_potential_distance + nondimensional_end_to_end_length_per_link).powi(2) - nondimensional_potential_distance_offset)).exp())/(2.0*number_of_links_squared_times_nondimensional_potential_stiffness*nondimensional_potential_distance.powi(2)*nondimensional_end_to_end_length_per_link))
     };
     let integrand_denominator = |nondimensional_end_to_end_length_per_link: &f64|
     {
-        4.0*PI*nondimensional_end_to_end_length_per_link.powi(2)*treloar_sum_0_with_prefactor(number_of_links, nondimensional_end_to_end_length_per_link)*((-0.5*number_of_links_squared_times_nondimensional_potential_stiffness*(nondimensional_potential_distance - nondimensional_end_to_end_length_per_link).powi(2)).exp() - (-0.5*number_of_links_squared_times_nondimensional_potential_stiffness*(nondimensional_potential_distance + nondimensional_end_to_end_length_per_link).powi(2)).exp())/(2.0*number_of_links_squared_times_nondimensional_potential_stiffness*nondimensional_potential_distance*nondimensional_end_to_end_length_per_link)
+        4.0*PI*nondimensional_end_to_end_length_per_link.powi(2)*treloar_sum_0_with_prefactor(number_of_links, nondimensional_end_to_end_length_per_link)*((-0.5*number_of_links_squared_times_nondimensional_potential_stiffness*((nondimensional_potential_distance - nondimensional_end_to_end_length_per_link).powi(2) - nondimensional_potential_distance_offset)).exp() - (-0.5*number_of_links_squared_times_nondimensional_potential_stiffness*((nondimensional_potential_distance + nondimensional_end_to_end_length_per_link).powi(2) - nondimensional_potential_distance_offset)).exp())/(2.0*number_of_links_squared_times_nondimensional_potential_stiffness*nondimensional_potential_distance*nondimensional_end_to_end_length_per_link)
     };
     integrate_1d(&integrand_numerator, &ZERO, &ONE, &POINTS)/integrate_1d(&integrand_denominator, &ZERO, &ONE, &POINTS)/number_of_links_f64
 }
@@ -115,12 +116,13 @@ pub fn nondimensional_helmholtz_free_energy(number_of_links: &u8, link_length: &
 {
     let number_of_links_f64 = *number_of_links as f64;
     let number_of_links_squared_times_nondimensional_potential_stiffness = number_of_links_f64.powi(2)*nondimensional_potential_stiffness;
+    let nondimensional_potential_distance_offset = (nondimensional_potential_distance - 1.0).max(0.0).powi(2);
     let integrand = |nondimensional_end_to_end_length_per_link: &f64|
     {
-        4.0*PI*nondimensional_end_to_end_length_per_link.powi(2)*treloar_sum_0_with_prefactor(number_of_links, nondimensional_end_to_end_length_per_link)*((-0.5*number_of_links_squared_times_nondimensional_potential_stiffness*(nondimensional_potential_distance - nondimensional_end_to_end_length_per_link).powi(2)).exp() - (-0.5*number_of_links_squared_times_nondimensional_potential_stiffness*(nondimensional_potential_distance + nondimensional_end_to_end_length_per_link).powi(2)).exp())/(2.0*number_of_links_squared_times_nondimensional_potential_stiffness*nondimensional_potential_distance*nondimensional_end_to_end_length_per_link)
+        4.0*PI*nondimensional_end_to_end_length_per_link.powi(2)*treloar_sum_0_with_prefactor(number_of_links, nondimensional_end_to_end_length_per_link)*((-0.5*number_of_links_squared_times_nondimensional_potential_stiffness*((nondimensional_potential_distance - nondimensional_end_to_end_length_per_link).powi(2) - nondimensional_potential_distance_offset)).exp() - (-0.5*number_of_links_squared_times_nondimensional_potential_stiffness*((nondimensional_potential_distance + nondimensional_end_to_end_length_per_link).powi(2) - nondimensional_potential_distance_offset)).exp())/(2.0*number_of_links_squared_times_nondimensional_potential_stiffness*nondimensional_potential_distance*nondimensional_end_to_end_length_per_link)
     };
     let nondimensional_configurational_partition_function = integrate_1d(&integrand, &ZERO, &ONE, &POINTS);
-    -nondimensional_configurational_partition_function.ln() - (number_of_links_f64 - 1.0)*(8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln()
+    0.5*number_of_links_squared_times_nondimensional_potential_stiffness*nondimensional_potential_distance_offset - nondimensional_configurational_partition_function.ln() - (number_of_links_f64 - 1.0)*(8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln()
 }
 
 /// The nondimensional Helmholtz free energy per link as a function of the applied nondimensional potential distance, nondimensional potential stiffness, and temperature, parameterized by the number of links, link length, and hinge mass.
-- 
2.43.0


From b9e1fa976f81d3ea561e146fbbb2dc6a0912d09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:24 +0000
Subject: [PATCH 07/16] fix: powered Newton inverse returns NaN when the guess
 is the root

---
 src/math/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index a2882ed..1308853 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -2,14 +2,12 @@ pub fn inverse_newton_raphson_powered(y: &f64, f: &dyn Fn(&f64) -> f64, fp: &dyn
 {
     let mut x = *guess;
     let mut f_adj: f64;
-    let mut y_minus_f: f64;
     let mut iters = 0;
     let mut residual_rel = 1.0;
     while residual_rel > rel_tol && &iters < max_iters
     {
         f_adj = f(&x) - y;
-        y_minus_f = -f_adj.powi(power);
-        x += y_minus_f/f_adj.powi(power - 1)/fp(&x)/(power as f64);
+        x -= f_adj/fp(&x)/(power as f64);
         iters += 1;
         residual_rel = (f_adj/y).abs();
     }
-- 
2.43.0


From 56908c9be2ae8c52f64d3af921bed9184578ee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:01 +0000
Subject: [PATCH 08/16] fix: Lambert W unconverged near its branch point

---
 src/math/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 1308853..9f9af32 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -85,7 +85,7 @@ pub fn integrate_2d_symmetric_grid(f: &dyn Fn(&f64, &f64) -> f64, grid: &[f64],
 
 pub fn lambert_w(x: &f64) -> f64
 {
-    let amount_of_iterations = ((x.log10()/3.0).ceil() as u8).max(4_u8);
+    let amount_of_iterations = ((x.log10()/3.0).ceil() as u8).max(16_u8);
     let mut w = 0.75*(x + 1.0).ln();
     for _ in 0..amount_of_iterations
     {
-- 
2.43.0


From 4647487b0ca5baf500894c186d971a027e54dc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 09/16] fix: FRC Monte Carlo panics for chains of an odd number
 of links or of two links

---
 .../frc/thermodynamics/isometric/monte_carlo/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs b/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
index edf1dad..85fe1a6 100644
--- a/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
+++ b/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
@@ -57,18 +57,27 @@ pub fn nondimensional_equilibrium_radial_distribution<const NUMBER_OF_BINS: usiz
 {
     let mut rng = rand::thread_rng();
     let number_of_links_f64 = NUMBER_OF_LINKS as f64;
-    let gamma_max = (2.0 - 2.0*(PI - theta).cos()).sqrt()/2.0;
+    let gamma_max = if NUMBER_OF_LINKS % 2 == 0
+    {
+        (2.0 - 2.0*(PI - theta).cos()).sqrt()/2.0
+    }
+    else
+    {
+        ((number_of_links_f64.powi(2) + 1.0 - (number_of_links_f64.powi(2) - 1.0)*(PI - theta).cos())/2.0).sqrt()/number_of_links_f64
+    };
+    let gamma_max_rounded = gamma_max*(1.0 + 1e-8);
     let mut bin_edges = [0.0_f64; NUMBER_OF_BINS];
     bin_edges.iter_mut().enumerate().for_each(|(bin_index, bin_edge)|
         *bin_edge = gamma_max * (bin_index as f64 + 1.0)/(NUMBER_OF_BINS as f64)
     );
+    bin_edges[NUMBER_OF_BINS - 1] = gamma_max_rounded;
     let mut bin_counts = [0_u128; NUMBER_OF_BINS];
     let mut gamma: f64 = 0.0;
     (0..number_of_samples).for_each(|_|{
         gamma = random_nondimensional_end_to_end_length::<NUMBER_OF_LINKS>(theta, &mut rng)/number_of_links_f64;
         for (bin_edge, bin_count) in bin_edges.iter().zip(bin_counts.iter_mut())
         {
-            if gamma > gamma_max
+            if gamma >= gamma_max_rounded
             {
                 panic!()
             }
-- 
2.43.0


From bf5c45039a20f9c0190d0d4f73b8a0f755d0fd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 10/16] fix: FJC Monte Carlo drops fully extended
 configurations

---
 .../single_chain/fjc/thermodynamics/isometric/monte_carlo/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/physics/single_chain/fjc/thermodynamics/isometric/monte_carlo/mod.rs b/src/physics/single_chain/fjc/thermodynamics/isometric/monte_carlo/mod.rs
index 2baba63..18b8115 100644
--- a/src/physics/single_chain/fjc/thermodynamics/isometric/monte_carlo/mod.rs
+++ b/src/physics/single_chain/fjc/thermodynamics/isometric/monte_carlo/mod.rs
@@ -36,6 +36,7 @@ pub fn nondimensional_equilibrium_radial_distribution<const NUMBER_OF_BINS: usiz
     bin_edges.iter_mut().enumerate().for_each(|(bin_index, bin_edge)|
         *bin_edge = (bin_index as f64 + 1.0)/(NUMBER_OF_BINS as f64)
     );
+    bin_edges[NUMBER_OF_BINS - 1] = 1.0 + 1e-8;
     let mut gamma: f64 = 0.0;
     let mut bin_counts = [0_u128; NUMBER_OF_BINS];
     (0..number_of_samples).for_each(|_sample_num|{
-- 
2.43.0


From 493ea941e1b9b40728514b86a3c03211997168fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:36 +0000
Subject: [PATCH 11/16] fix: isometric Legendre EFJC force is NaN at the
 contour length

---
 .../isometric/asymptotic/alternative/legendre/mod.rs          | 4 ++--
 .../efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs  | 4 ++--
 .../isometric/asymptotic/reduced/legendre/mod.rs              | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/alternative/legendre/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/alternative/legendre/mod.rs
index d9a3cb8..635c288 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/alternative/legendre/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/alternative/legendre/mod.rs
@@ -46,11 +46,11 @@ pub fn nondimensional_force(nondimensional_link_stiffness: &f64, nondimensional_
 {
     let guess: f64 = if nondimensional_end_to_end_length_per_link < &1.0
     {
-        inverse_langevin(nondimensional_end_to_end_length_per_link)
+        inverse_langevin(nondimensional_end_to_end_length_per_link).min(nondimensional_link_stiffness*nondimensional_end_to_end_length_per_link)
     }
     else
     {
-        nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)
+        (nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)).max(1.0)
     };
     inverse_newton_raphson(nondimensional_end_to_end_length_per_link, &|nondimensional_force: &f64| 1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + (nondimensional_force + 1.0/nondimensional_force.tanh() - nondimensional_force/nondimensional_force.sinh().powi(2))/nondimensional_link_stiffness, &|nondimensional_force: &f64| 1.0/nondimensional_force.powi(2) - 1.0/nondimensional_force.sinh().powi(2) + (1.0 + 2.0*(nondimensional_force/nondimensional_force.tanh() - 1.0)/nondimensional_force.sinh().powi(2))/nondimensional_link_stiffness, &guess, &1e-6, &100)
 }
diff --git a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs
index 364f853..e5245ca 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs
@@ -46,11 +46,11 @@ pub fn nondimensional_force(nondimensional_link_stiffness: &f64, nondimensional_
 {
     let guess: f64 = if nondimensional_end_to_end_length_per_link < &1.0
     {
-        inverse_langevin(nondimensional_end_to_end_length_per_link)
+        inverse_langevin(nondimensional_end_to_end_length_per_link).min(nondimensional_link_stiffness*nondimensional_end_to_end_length_per_link)
     }
     else
     {
-        nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)
+        (nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)).max(1.0)
     };
     inverse_newton_raphson(nondimensional_end_to_end_length_per_link, &|nondimensional_force: &f64| 1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/nondimensional_link_stiffness*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/nondimensional_link_stiffness)), &|nondimensional_force: &f64| 1.0/nondimensional_force.powi(2) - 1.0/nondimensional_force.sinh().powi(2) + (nondimensional_link_stiffness*nondimensional_force.powi(2)/nondimensional_force.sinh().powi(4) - (2.0*nondimensional_link_stiffness + 1.0)*(nondimensional_link_stiffness - nondimensional_force.powi(2))/nondimensional_force.sinh().powi(2) + 2.0*nondimensional_link_stiffness*nondimensional_force/nondimensional_force.tanh()*(nondimensional_link_stiffness/nondimensional_force.sinh().powi(2) + 1.0) + (nondimensional_link_stiffness - 1.0)*nondimensional_link_stiffness + nondimensional_force.powi(2))/(nondimensional_link_stiffness + nondimensional_force/nondimensional_force.tanh()).powi(2)/nondimensional_link_stiffness, &guess, &1e-6, &100)
 }
diff --git a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs
index a10fb29..13bef44 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs
@@ -46,11 +46,11 @@ pub fn nondimensional_force(nondimensional_link_stiffness: &f64, nondimensional_
 {
     let guess: f64 = if nondimensional_end_to_end_length_per_link < &1.0
     {
-        inverse_langevin(nondimensional_end_to_end_length_per_link)
+        inverse_langevin(nondimensional_end_to_end_length_per_link).min(nondimensional_link_stiffness*nondimensional_end_to_end_length_per_link)
     }
     else
     {
-        nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)
+        (nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)).max(1.0)
     };
     inverse_newton_raphson(nondimensional_end_to_end_length_per_link, &|nondimensional_force: &f64| 1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/nondimensional_link_stiffness, &|nondimensional_force: &f64| 1.0/nondimensional_force.powi(2) - 1.0/nondimensional_force.sinh().powi(2) + 1.0/nondimensional_link_stiffness, &guess, &1e-6, &100)
 }
-- 
2.43.0


From 7d7abdde1702c1ca41deffb0638229695844b6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:36 +0000
Subject: [PATCH 12/16] fix: isometric Legendre EFJC free energy overflows at
 large forces

---
 .../isometric/asymptotic/alternative/legendre/mod.rs            | 2 +-
 .../efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs    | 2 +-
 .../thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/alternative/legendre/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/alternative/legendre/mod.rs
index 635c288..8c1ddb8 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/alternative/legendre/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/alternative/legendre/mod.rs
@@ -89,7 +89,7 @@ pub fn nondimensional_helmholtz_free_energy(number_of_links: &u8, link_length: &
 pub fn nondimensional_helmholtz_free_energy_per_link(number_of_links: &u8, link_length: &f64, hinge_mass: &f64, nondimensional_link_stiffness: &f64, nondimensional_end_to_end_length_per_link: &f64, temperature: &f64) -> f64
 {
     let nondimensional_force = nondimensional_force(nondimensional_link_stiffness, nondimensional_end_to_end_length_per_link);
-    -(nondimensional_force.sinh()/nondimensional_force).ln() - (0.5*nondimensional_force.powi(2) + nondimensional_force/nondimensional_force.tanh())/(nondimensional_link_stiffness) + nondimensional_force*nondimensional_end_to_end_length_per_link - (1.0 - 1.0/(*number_of_links as f64))*(0.5*(2.0*PI*link_length.powi(2)/nondimensional_link_stiffness).ln() + (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln())
+    -nondimensional_force - (-0.5*(-2.0*nondimensional_force).exp_m1()/nondimensional_force).ln() - (0.5*nondimensional_force.powi(2) + nondimensional_force/nondimensional_force.tanh())/(nondimensional_link_stiffness) + nondimensional_force*nondimensional_end_to_end_length_per_link - (1.0 - 1.0/(*number_of_links as f64))*(0.5*(2.0*PI*link_length.powi(2)/nondimensional_link_stiffness).ln() + (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln())
 }
 
 /// The nondimensional relative Helmholtz free energy as a function of the nondimensional end-to-end length per link, parameterized by the number of links and nondimensional link stiffness.
diff --git a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs
index e5245ca..58b2759 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs
@@ -89,7 +89,7 @@ pub fn nondimensional_helmholtz_free_energy(number_of_links: &u8, link_length: &
 pub fn nondimensional_helmholtz_free_energy_per_link(number_of_links: &u8, link_length: &f64, hinge_mass: &f64, nondimensional_link_stiffness: &f64, nondimensional_end_to_end_length_per_link: &f64, temperature: &f64) -> f64
 {
     let nondimensional_force = nondimensional_force(nondimensional_link_stiffness, nondimensional_end_to_end_length_per_link);
-    -(nondimensional_force.sinh()/nondimensional_force).ln() - 0.5*nondimensional_force.powi(2)/nondimensional_link_stiffness - (1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness).ln() + nondimensional_force*nondimensional_end_to_end_length_per_link - (1.0 - 1.0/(*number_of_links as f64))*(0.5*(2.0*PI*link_length.powi(2)/nondimensional_link_stiffness).ln() + (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln())
+    -nondimensional_force - (-0.5*(-2.0*nondimensional_force).exp_m1()/nondimensional_force).ln() - 0.5*nondimensional_force.powi(2)/nondimensional_link_stiffness - (1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness).ln() + nondimensional_force*nondimensional_end_to_end_length_per_link - (1.0 - 1.0/(*number_of_links as f64))*(0.5*(2.0*PI*link_length.powi(2)/nondimensional_link_stiffness).ln() + (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln())
 }
 
 /// The nondimensional relative Helmholtz free energy as a function of the nondimensional end-to-end length per link, parameterized by the number of links and nondimensional link stiffness.
diff --git a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs
index 13bef44..41f5d78 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs
@@ -89,7 +89,7 @@ pub fn nondimensional_helmholtz_free_energy(number_of_links: &u8, link_length: &
 pub fn nondimensional_helmholtz_free_energy_per_link(number_of_links: &u8, link_length: &f64, hinge_mass: &f64, nondimensional_link_stiffness: &f64, nondimensional_end_to_end_length_per_link: &f64, temperature: &f64) -> f64
 {
     let nondimensional_force = nondimensional_force(nondimensional_link_stiffness, nondimensional_end_to_end_length_per_link);
-    -(nondimensional_force.sinh()/nondimensional_force).ln() - 0.5*nondimensional_force.powi(2)/nondimensional_link_stiffness + nondimensional_force*nondimensional_end_to_end_length_per_link - (1.0 - 1.0/(*number_of_links as f64))*(0.5*(2.0*PI*link_length.powi(2)/nondimensional_link_stiffness).ln() + (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln())
+    -nondimensional_force - (-0.5*(-2.0*nondimensional_force).exp_m1()/nondimensional_force).ln() - 0.5*nondimensional_force.powi(2)/nondimensional_link_stiffness + nondimensional_force*nondimensional_end_to_end_length_per_link - (1.0 - 1.0/(*number_of_links as f64))*(0.5*(2.0*PI*link_length.powi(2)/nondimensional_link_stiffness).ln() + (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln())
 }
 
 /// The nondimensional relative Helmholtz free energy as a function of the nondimensional end-to-end length per link, parameterized by the number of links and nondimensional link stiffness.
-- 
2.43.0


From 1b2eeb7708331eb1798a00071bd065064a745b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:36 +0000
Subject: [PATCH 13/16] fix: damage model ignores swelling in its second method

---
 src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs b/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs
index 89682db..1a21557 100644
--- a/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs
+++ b/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs
@@ -91,7 +91,7 @@ pub fn uniaxial_tension(element: &[[f64; NUMGRID]], factor: &f64, grid: &[f64],
             cauchy_stress = element.iter().zip(grid.iter()).flat_map(|(element_i, z_i)|
                 element_i.iter().zip(grid.iter()).map(|(element_ij, r_j)|
                     element_ij / nondimensional_relative_helmholtz_free_energy(
-                        number_of_links, nondimensional_link_stiffness, &((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt()
+                        number_of_links, nondimensional_link_stiffness, &(((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt() / j_1_3)
                     ).exp() * ((
                         ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt()
                         <= *nondimensional_critical_extension
@@ -101,7 +101,7 @@ pub fn uniaxial_tension(element: &[[f64; NUMGRID]], factor: &f64, grid: &[f64],
             total_probability = grid.iter().flat_map(|z_i|
                 grid.iter().map(|r_j|
                     r_j / nondimensional_relative_helmholtz_free_energy(
-                        number_of_links, nondimensional_link_stiffness, &((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt()
+                        number_of_links, nondimensional_link_stiffness, &(((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt() / j_1_3)
                     ).exp() * ((
                         ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt()
                         <= *nondimensional_critical_extension
-- 
2.43.0


From f812658558468a3a64606f17b28dfa776b26f3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 14/16] fix: SWFJC isometric Legendre force is NaN for wide
 wells

The Newton-Raphson guess was not scaled by the well parameter (and was 10
beyond 90% extension), so it could lie above the root of the concave
extension, overshoot and diverge. The scaled guess is a lower bound.
---
 .../swfjc/thermodynamics/isometric/legendre/mod.rs       | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs b/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs
index 810df2a..eee30fd 100644
--- a/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs
+++ b/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs
@@ -59,14 +59,7 @@ pub fn nondimensional_force(link_length: &f64, well_width: &f64, nondimensional_
     }
     else
     {
-        let guess: f64 = if nondimensional_end_to_end_length_per_link/nondimensional_well_parameter < 0.9
-        {
-            inverse_langevin(&(nondimensional_end_to_end_length_per_link/nondimensional_well_parameter))
-        }
-        else
-        {
-            10.0
-        };
+        let guess: f64 = inverse_langevin(&(nondimensional_end_to_end_length_per_link/nondimensional_well_parameter))/nondimensional_well_parameter;
         inverse_newton_raphson(nondimensional_end_to_end_length_per_link, &|nondimensional_force: &f64| (nondimensional_well_parameter.powi(2)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.sinh())/(nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - (nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.cosh() + nondimensional_force.sinh()) - 3.0/nondimensional_force, &|nondimensional_force: &f64| (nondimensional_force.sinh() + nondimensional_force*nondimensional_force.cosh() - nondimensional_well_parameter.powi(3)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - nondimensional_well_parameter.powi(2)*(nondimensional_well_parameter*nondimensional_force).sinh())/((nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - nondimensional_force.sinh() + nondimensional_force*nondimensional_force.cosh()) - (nondimensional_force*(nondimensional_force.sinh() - nondimensional_well_parameter.powi(2)*(nondimensional_well_parameter*nondimensional_force).sinh())/((nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - nondimensional_force.sinh() + nondimensional_force*nondimensional_force.cosh())).powi(2) + 3.0/nondimensional_force.powi(2), &guess, &1e-6, &100)
     }
 }
-- 
2.43.0


From 29b456169fc9f0af4fc656e4002ae4cc769c804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:23 +0000
Subject: [PATCH 15/16] fix: freely jointed distribution overflows u128 for 27
 links and more

---
 src/physics/single_chain/fjc/thermodynamics/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/single_chain/fjc/thermodynamics/mod.rs b/src/physics/single_chain/fjc/thermodynamics/mod.rs
index 6b1cb99..272c211 100644
--- a/src/physics/single_chain/fjc/thermodynamics/mod.rs
+++ b/src/physics/single_chain/fjc/thermodynamics/mod.rs
@@ -71,5 +71,5 @@ fn treloar_sum_0_with_prefactor(number_of_links: &u8, nondimensional_end_to_end_
     let p: i32 = (number_of_links - 2).into();
     let m = -*nondimensional_end_to_end_length_per_link*0.5 + 0.5;
     let k = (number_of_links_f64*m).ceil() as u128;
-    0.125/PI/nondimensional_end_to_end_length_per_link*(n.pow(n as u32) as f64)/((1..=n-2).product::<u128>() as f64)*(0..=k-1).collect::<Vec::<u128>>().iter().map(|s| (-1.0_f64).powf(*s as f64)*(((1..=n).product::<u128>()/(1..=*s).product::<u128>()/(1..=n-s).product::<u128>()) as f64)*(m - (*s as f64)/number_of_links_f64).powi(p)).sum::<f64>()
+    0.125/PI/nondimensional_end_to_end_length_per_link*number_of_links_f64.powi(*number_of_links as i32)/((1..=n-2).product::<u128>() as f64)*(0..=k-1).collect::<Vec::<u128>>().iter().map(|s| (-1.0_f64).powf(*s as f64)*(((1..=n).product::<u128>()/(1..=*s).product::<u128>()/(1..=n-s).product::<u128>()) as f64)*(m - (*s as f64)/number_of_links_f64).powi(p)).sum::<f64>()
 }
\ No newline at end of file
-- 
2.43.0


From 62c937a1512ca284ed75873d66e0e8f123027af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:10 +0000
Subject: [PATCH 16/16] fix: SWFJC isometric Legendre force of wide wells is
 lost to cancellation at small lengths

---
 .../single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs b/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs
index eee30fd..708f323 100644
--- a/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs
+++ b/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs
@@ -53,7 +53,7 @@ pub fn force(number_of_links: &u8, link_length: &f64, well_width: &f64, end_to_e
 pub fn nondimensional_force(link_length: &f64, well_width: &f64, nondimensional_end_to_end_length_per_link: &f64) -> f64
 {
     let nondimensional_well_parameter = 1.0 + well_width/link_length;
-    if nondimensional_end_to_end_length_per_link <= &1e-3
+    if nondimensional_end_to_end_length_per_link <= &(1e-3*nondimensional_well_parameter)
     {
         nondimensional_end_to_end_length_per_link*5.0*(nondimensional_well_parameter.powi(2) + nondimensional_well_parameter + 1.0)/(nondimensional_well_parameter.powi(4) + nondimensional_well_parameter.powi(3) + nondimensional_well_parameter.powi(2) + nondimensional_well_parameter + 1.0)
     }
-- 
2.43.0

