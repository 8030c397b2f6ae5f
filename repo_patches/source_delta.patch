From e121aec29300ad840671e8ea9137939dca2e4bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 01/39] fix: import only the integrators that exist, so that
 the particles package loads

backward_differentiation, heun_method and MAX_BACKWARD_DIFF_ORDER are not
defined in common.integrators and are not used; importing them made every
user of Particle fail with ImportError.
---
 particles/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 75db7ed..28a10a8 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -12,8 +12,8 @@ import os
 import environment
 from common import GRID, UNITS, kinematics, statistics as STATISTICS
 from common.integrators import (
-    adams_bashforth_correction, adams_moulton_solver, implicit_euler, backward_differentiation, heun_method,
-    MAX_ADAMS_BASHFORTH_ORDER, MAX_ADAMS_MOULTON_ORDER, MAX_BACKWARD_DIFF_ORDER
+    adams_bashforth_correction, adams_moulton_solver, implicit_euler,
+    MAX_ADAMS_BASHFORTH_ORDER, MAX_ADAMS_MOULTON_ORDER
 )
 from common.utils import Dynamic2DArray, DynamicRecArray
 from scipy.integrate import simps
-- 
2.43.0


From cff30ce93fbb2146331043066a58e3dba2d0a777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 02/39] fix: return the rate of change from the Adams-Moulton
 collision step

The solver yields the advanced solution, but update_distribution adds
collision_integral * h to the distribution: a species without effective
collisions was multiplied by (1 + h) at every step, and the production part
was counted with the already complete collision term.
---
 particles/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 28a10a8..71021ec 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -320,8 +320,9 @@ class DistributionParticle(AbstractParticle):
             # Adams-Moulton method
             fs = list(self.data['collision_integral'][-MAX_ADAMS_MOULTON_ORDER:])
 
-            I_coll = adams_moulton_solver(y=self.distribution(ps), fs=fs,
-                                            A=AB, B=B, h=self.params.h)
+            # `AB` is the whole collision term at the current distribution, so the increment of the
+            # distribution d obeys d' = AB + B d with d = 0 at the beginning of the step
+            I_coll = adams_moulton_solver(y=0., fs=fs, A=AB, B=B, h=self.params.h) / self.params.h
 
             # # Backward differentiation method
             # ys = list(self.data['distribution'][-MAX_BACKWARD_DIFF_ORDER:])
-- 
2.43.0


From af93e5af3dba87e776a76936d6328bc62a79ee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 03/39] fix: give every Universe its own history

The data array was a class attribute, so a second Universe in the process
continued the history of the first one (rows, and the Adams-Bashforth terms
taken from it).
---
 evolution.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/evolution.py b/evolution.py
index c0506af..7df2126 100755
--- a/evolution.py
+++ b/evolution.py
@@ -33,17 +33,7 @@ class Universe(object):
 
     step_monitor = None
 
-    data = utils.DynamicRecArray([
-        ['aT', 'MeV', UNITS.MeV],
-        ['T', 'MeV', UNITS.MeV],
-        ['a', None, 1],
-        ['x', 'MeV', UNITS.MeV],
-        ['t', 's', UNITS.s],
-        ['rho', 'MeV^4', UNITS.MeV**4],
-        ['N_eff', None, 1],
-        ['fraction', None, 1],
-        ['S', 'MeV^3', UNITS.MeV**3]
-    ])
+    data = None
 
     def __init__(self, folder=None, params=None, max_log_rate=2):
         """
@@ -53,6 +43,18 @@ class Universe(object):
         self.particles = []
         self.interactions = []
 
+        self.data = utils.DynamicRecArray([
+            ['aT', 'MeV', UNITS.MeV],
+            ['T', 'MeV', UNITS.MeV],
+            ['a', None, 1],
+            ['x', 'MeV', UNITS.MeV],
+            ['t', 's', UNITS.s],
+            ['rho', 'MeV^4', UNITS.MeV**4],
+            ['N_eff', None, 1],
+            ['fraction', None, 1],
+            ['S', 'MeV^3', UNITS.MeV**3]
+        ])
+
         self.clock_start = time.time()
         self.log_throttler = utils.Throttler(max_log_rate)
 
-- 
2.43.0


From f949c688a66a0a89eae3c2bc20929bc1bf87c8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 04/39] fix: keep the integration bounds of one momentum out of
 the next one

For scattering, max_1 was raised to 3 * min_1 in the thread's private copy
and stayed raised for the later iterations of that thread, so the collision
integral depended on the order of the momenta and on the number of threads.
---
 interactions/four_particle/cpp/integral.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interactions/four_particle/cpp/integral.cpp b/interactions/four_particle/cpp/integral.cpp
index 8390b80..fbc5a5c 100644
--- a/interactions/four_particle/cpp/integral.cpp
+++ b/interactions/four_particle/cpp/integral.cpp
@@ -612,11 +612,14 @@ std::vector<dbl> integration(
 
     // Determine the integration bounds
     auto reaction_type = get_reaction_type(reaction);
+    const dbl input_min_1 = min_1, input_max_1 = max_1;
 
     // Note firstprivate() clause: those variables will be copied for each thread
-    #pragma omp parallel for default(none) shared(std::cout,ps, Ms, reaction, integral, stepsize, kind, reaction_type) firstprivate(min_1, max_1, min_2, max_2, max_3)
+    #pragma omp parallel for default(none) shared(std::cout,ps, Ms, reaction, integral, stepsize, kind, reaction_type, input_min_1, input_max_1) firstprivate(min_2, max_2, max_3)
     for (size_t i = 0; i < ps.size(); ++i) {
         dbl p0 = ps[i];
+        // Bounds of this momentum only: iterations executed by one thread share the private copies
+        dbl min_1 = input_min_1, max_1 = input_max_1;
 
         if (reaction_type == Kinematics::DECAY) {
             max_1 = sqrt(
-- 
2.43.0


From 22d32834b12772fdaf5c6a8cf190789da1b92a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 05/39] fix: interpolate between the two grid points around x

searchsorted returns the upper neighbour, so the value was extrapolated from
the next interval to the right.
---
 common/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/__init__.py b/common/__init__.py
index cff3255..9f53d88 100755
--- a/common/__init__.py
+++ b/common/__init__.py
@@ -308,7 +308,7 @@ def linear_interpolation(function, grid):
     """ ### Linear interpolation """
 
     def interpolation(x):
-        index = numpy.searchsorted(grid, x)
+        index = max(numpy.searchsorted(grid, x, side='right') - 1, 0)
 
         if index >= len(grid) - 1:
             return function[len(grid) - 1]
@@ -334,7 +334,7 @@ def cubic_interpolation(function, grid):
     """ # Cubic interpolation """
 
     def interpolation(x):
-        index = numpy.searchsorted(grid, x)
+        index = max(numpy.searchsorted(grid, x, side='right') - 1, 0)
 
         if index >= len(grid) - 1:
             return function[len(grid) - 1]
-- 
2.43.0


From c8e5fad05c0eb267ed377f494368d55be5214292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 06/39] fix: index the rows of DynamicRecArray within the rows
 that were appended

A negative index selected length + 1 + |index| (unwritten rows, or
IndexError), and an index beyond the end returned unwritten rows.
---
 common/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/common/utils.py b/common/utils.py
index 2d602ab..07e032b 100755
--- a/common/utils.py
+++ b/common/utils.py
@@ -247,10 +247,7 @@ class DynamicRecArray(object):
     def __getitem__(self, index):
         if index in self.columns:
             return self._data[index][:self.length]
-        index = int(index)
-        if index < 0:
-            index = self.length+1-index
-        return self._data[:][index]
+        return self.data[int(index)]
 
     def append(self, rec):
         if isinstance(rec, dict):
-- 
2.43.0


From 42f80b58efd04008e053e5a5ebcf8d9eabcefed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 07/39] fix: test the scaling result of four-particle integrals
 by identity

The truth value of an array is ambiguous: every non-Full integral raised
ValueError here.
---
 interactions/four_particle/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interactions/four_particle/__init__.py b/interactions/four_particle/__init__.py
index 186f4ef..31734da 100755
--- a/interactions/four_particle/__init__.py
+++ b/interactions/four_particle/__init__.py
@@ -188,7 +188,7 @@ class FourParticleIntegral(BoltzmannIntegral):
         fullstack = numpy.append(fullstack, slice_2)
 
         scaled_output = kinematics.scaling(self, fullstack, constant)
-        if not scaled_output:
+        if scaled_output is False:
             return kinematics.return_function(self, fullstack)
         else:
             fullstack = scaled_output
-- 
2.43.0


From 96a1bc9a2c9592e642d6db10941f3bda7d9ab871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 08/39] fix: pass the integral to reaction_type in the fast
 decay collision term

reaction_type reads the reaction attribute itself; the call raised
AttributeError for every fast decaying particle.
---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index eb87f66..2eb3f37 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -411,7 +411,7 @@ def Icoll_fast_decay(particle, ps):
 
     for index, Ff in enumerate(Ffs_temp):
         integral = particle.collision_integrals[index]
-        if utils.reaction_type(integral.reaction).DECAY: # line not necessary
+        if utils.reaction_type(integral).DECAY: # line not necessary
             sym = ''.join([item.specie.symbol for item in integral.reaction[1:]])
             for key in integral.reaction[0].specie.BR:
                 if Counter(sym) == Counter(key):
-- 
2.43.0


From 5a184c884334bef405602e407265de7cd07e6041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 09/39] fix: pass an integral number of samples to linspace

A float raises TypeError, so no grid finer than the four-particle resolution
could be used.
---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index 2eb3f37..7321ab3 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -352,7 +352,7 @@ def interpolation_4p(interaction, ps, slice_1):
     interpolate = False
     grid = interaction.particle.grid
     if grid.MAX_MOMENTUM / (grid.MOMENTUM_SAMPLES - 1) < environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV:
-        steps = np.ceil(slice_1[-1] / (environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV))
+        steps = int(np.ceil(slice_1[-1] / (environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV)))
         interp_pos = np.searchsorted(ps, np.linspace(ps[0], ps[-1], steps))
         ps = ps[interp_pos]
         interpolate = True
-- 
2.43.0


From af5670993e7f976d8c68a75061e5f522149d54aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 10/39] fix: do not overwrite the degrees of freedom above the
 QCD scale

The second if replaced 61.75 by 10.75 for every heavy sterile neutrino.
---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index 7321ab3..b32dc56 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -159,7 +159,7 @@ def decoupling_temperature_relativistic(mass, mixing_angle):
 
     if mass > CONST.lambda_QCD:
         g_star = 61.75
-    if muon_mass < mass < CONST.lambda_QCD:
+    elif muon_mass < mass < CONST.lambda_QCD:
         g_star = 14.25
     else:
         g_star = 10.75
-- 
2.43.0


From 5497dc67f78082b610f7d96e5b2a104b33f07760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 11/39] fix: let oscillations_map() work with its default
 arguments

matter_effects is on by default while the potentials were None (TypeError);
zero potentials give the vacuum pattern.
---
 library/SM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/SM.py b/library/SM.py
index 8c60e28..8be0c29 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -346,7 +346,7 @@ class particles(object):
         }
 
         @staticmethod
-        def oscillations_map(MSW_12=None, MSW_13=None, matter_effects=True):
+        def oscillations_map(MSW_12=0., MSW_13=0., matter_effects=True):
 
             # angles=(0.5905, 0., 0.152346) # theta_12, theta_23, theta_13
             theta_12 = 0.57636
-- 
2.43.0


From c5922ac5bf4fac967db9c778efb33ae31ae75123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 12/39] fix: mix the charged vector meson channel with the
 lepton's own flavour

The angle was taken from the loop variable left over by the neutrino loop.
---
 library/NuMSM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/NuMSM.py b/library/NuMSM.py
index d124624..9fde38b 100755
--- a/library/NuMSM.py
+++ b/library/NuMSM.py
@@ -322,7 +322,7 @@ class interactions(object):
                                                                kind=kind)
 
                         if particle.type == "vector":
-                            inters += cls.charged_vector_meson(theta=thetas[neutrino.flavour],
+                            inters += cls.charged_vector_meson(theta=thetas[lepton.flavour],
                                                                sterile=sterile,
                                                                lepton=lepton,
                                                                meson=particle,
-- 
2.43.0


From dd036d69936f1dd7eb35108c580e652e07d975c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 13/39] fix: read the six rates of the last KAWANO row by
 column name

A dtype cannot be sliced: the monitor raised TypeError as soon as there was
a KAWANO row.
---
 semianalytic.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/semianalytic.py b/semianalytic.py
index 640e4c1..addfcbf 100644
--- a/semianalytic.py
+++ b/semianalytic.py
@@ -8,10 +8,8 @@ def step_monitor(universe):
     from copy import deepcopy
 
     if not hasattr(universe, 'neutron_decoupling_parameters') and len(universe.kawano_data):
-        print([field[0] for field in universe.kawano_data.data.dtype[-6:]])
-        rates = universe.kawano_data.data[-1][
-            [field[0] for field in universe.kawano_data.data.dtype[-6:]]
-        ]
+        rates = [universe.kawano_data.data[-1][column]
+                 for column in universe.kawano_data.columns[-6:]]
         neutron_equilibration = (sum(rates[0::2]) / sum(rates[1::2]))
         if neutron_equilibration > 10 or neutron_equilibration < 0.1:
             universe.neutron_decoupling_parameters = deepcopy(universe.params)
-- 
2.43.0


From bef10d7e97878c80955266ea6716def938f8ce21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 14/39] fix: include the decays of every meson only once

A primary meson listed after a heavier one that produces it got its decay
channels twice.
---
 library/SM.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/SM.py b/library/SM.py
index 8be0c29..d38e12c 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -951,6 +951,10 @@ class interactions(object):
                                                     kind=kind)
 
         for meson in primary_mesons:
+            # The decay was already included together with a heavier meson
+            if already_there(inters, meson.name):
+                continue
+
             if meson.name == 'Neutral pion':
                 neutral_pion_decay(inters)
 
-- 
2.43.0


From 054104b6b70ddb43f7cf05b97fd4a850584e9089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:00 +0000
Subject: [PATCH 15/39] fix: let the Adams-Moulton solver use order 1 with a
 longer history

---
 common/integrators/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/integrators/__init__.py b/common/integrators/__init__.py
index 1860899..146ebc3 100644
--- a/common/integrators/__init__.py
+++ b/common/integrators/__init__.py
@@ -104,7 +104,7 @@ def adams_moulton_solver(y, fs, A, B, h, order=None):
         order = min(MAX_ADAMS_MOULTON_ORDER, len(fs) + 1)
 
     bs, divider = ADAMS_MOULTON_COEFFICIENTS[order]
-    fs = fs[-(order-1):] + [A]
+    fs = fs[len(fs) - (order - 1):] + [A]
     assert len(fs) == order, (len(fs), order)
 
     return (
-- 
2.43.0


From c1f227a347d7789d7dfcdb26abc6026d9a53f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:17 +0000
Subject: [PATCH 16/39] fix: integrate a pair of integrands over an empty
 interval to zeros

---
 common/integrators/paired.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/integrators/paired.py b/common/integrators/paired.py
index 605a57a..d38a101 100644
--- a/common/integrators/paired.py
+++ b/common/integrators/paired.py
@@ -11,6 +11,8 @@ def integrate_1D_simpsons(integrands, grid):
 
 
 def integrate_1D(integrands, bounds):
+    if bounds[0] == bounds[1]:
+        return 0., 0.
     integral_1, integral_f = gaussian(integrands, bounds[0], bounds[1])
     return integral_1, integral_f
 
-- 
2.43.0


From 9bac0e909a2a6d32982f849697d6683ac491d373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:26 +0000
Subject: [PATCH 17/39] fix: integrate thermal densities of heavy species over
 their whole momentum range

---
 particles/IntermediateParticle.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/particles/IntermediateParticle.py b/particles/IntermediateParticle.py
index 212a55a..1c3f38b 100644
--- a/particles/IntermediateParticle.py
+++ b/particles/IntermediateParticle.py
@@ -13,6 +13,13 @@ from common.integrators import gauss_laguerre
 name = 'intermediate'
 
 
+def max_momentum(particle):
+    """ Momentum at which the kinetic energy is $20 T$, so that the neglected tail is suppressed\
+        as $e^{-20}$ for any mass """
+    kinetic = 20 * particle.T
+    return numpy.sqrt(kinetic * (kinetic + 2 * particle.mass))
+
+
 def density(particle):
     """ ## Particle density
 
@@ -24,7 +31,7 @@ def density(particle):
         lambda p: (
             particle.equilibrium_distribution_function(particle.energy(p) / particle.T)
             * p**2 * particle.dof / 2. / numpy.pi**2
-        ), (0, 20 * particle.T)
+        ), (0, max_momentum(particle))
     )
     return density
 
@@ -51,7 +58,7 @@ def energy_density(particle):
     """
     energy_density, _ = integrators.integrate_1D(
         lambda p: energy_density_integrand(p, particle),
-        (0, 20 * particle.T)
+        (0, max_momentum(particle))
     )
     return energy_density
 
@@ -78,7 +85,7 @@ def pressure(particle):
     """
     pressure, _ = integrators.integrate_1D(
         lambda p: pressure_integrand(p, particle),
-        (0, 20 * particle.T)
+        (0, max_momentum(particle))
     )
     return pressure
 
-- 
2.43.0


From 0b1a5b1a099f72b46bb92fb1ca645450c5b5fa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:09 +0000
Subject: [PATCH 18/39] fix: keep the integrals passed to Interaction

---
 interactions/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interactions/__init__.py b/interactions/__init__.py
index a8981ae..292255c 100755
--- a/interactions/__init__.py
+++ b/interactions/__init__.py
@@ -35,7 +35,7 @@ class Interaction:
 
     def __init__(self, name=None, integrals=None):
         self.name = name
-        self.integrals = IntegralDeduplicator(self.integrals).integrals
+        self.integrals = IntegralDeduplicator(integrals or []).integrals
 
     def __str__(self):
         """ String-like representation of the interaction and all its integral """
-- 
2.43.0


From f7d1e575426055b41b6ac51608a34176a3f1891d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:21 +0000
Subject: [PATCH 19/39] fix: conserve charge in the meson decays written as
 two-to-two processes

---
 library/SM.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/SM.py b/library/SM.py
index d38e12c..d2798a3 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -777,7 +777,7 @@ class interactions(object):
                                                     ME=matrix_elements['KaonMinPi0ElecNue'],
                                                     kind=kind)
             inters += cls.four_particle_meson_decay(parts=[charged_kaon, charged_pion, charged_pion, charged_pion],
-                                                    antiparts=[False, True, False, False],
+                                                    antiparts=[False, False, False, False],
                                                     ME=matrix_elements['KaonMinPiPlusTwoPiMin'],
                                                     kind=kind)
             inters += cls.three_particle_meson_decay(parts=[charged_kaon, muon, neutrino_mu],
@@ -802,11 +802,11 @@ class interactions(object):
                                                 kind=kind)
 
             inters += cls.four_particle_meson_decay(parts=[kaon_long, charged_pion, electron, neutrino_e],
-                                                    antiparts=[False, True, False, True],
+                                                    antiparts=[False, False, False, True],
                                                     ME=matrix_elements['KaonLPiPlusElecNue'],
                                                     kind=kind)
             inters += cls.four_particle_meson_decay(parts=[kaon_long, charged_pion, muon, neutrino_mu],
-                                                    antiparts=[False, True, False, True],
+                                                    antiparts=[False, False, False, True],
                                                     ME=matrix_elements['KaonLPiPlusMuonNumu'],
                                                     kind=kind)
             inters += cls.four_particle_meson_decay(parts=[kaon_long, neutral_pion, neutral_pion, neutral_pion],
@@ -887,7 +887,7 @@ class interactions(object):
                 neutral_pion_decay(inters)
 
             inters += cls.four_particle_meson_decay(parts=[omega, charged_pion, charged_pion, neutral_pion],
-                                                    antiparts=[False, True, False, False],
+                                                    antiparts=[False, False, False, False],
                                                     ME=matrix_elements['OmegaPiPlusPiMinPi0'],
                                                     kind=kind)
             inters += cls.three_particle_meson_decay(parts=[omega, neutral_pion, photon],
-- 
2.43.0


From ef52f357bccd486a365b9216fcee117028558a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:21 +0000
Subject: [PATCH 20/39] fix: give the proton its positive charge

---
 library/SM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/SM.py b/library/SM.py
index d2798a3..478c01d 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -82,7 +82,7 @@ class particles(object):
             'mass': 938.272046 * UNITS.MeV,
             'dof': 4,
             'majorana': False,
-            'Q': -1
+            'Q': 1
         }
         neutral_pion = {
             'name': 'Neutral pion',
-- 
2.43.0


From f44e681d69526f7125e1630bcf2df301e36f10b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:04 +0000
Subject: [PATCH 21/39] fix: integrate constant four-particle matrix elements
 over their phase space

---
 interactions/four_particle/__init__.py      | 4 +++-
 interactions/four_particle/cpp/integral.cpp | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/interactions/four_particle/__init__.py b/interactions/four_particle/__init__.py
index 31734da..534dd93 100755
--- a/interactions/four_particle/__init__.py
+++ b/interactions/four_particle/__init__.py
@@ -160,7 +160,9 @@ class FourParticleIntegral(BoltzmannIntegral):
         stepsize *= constant
 
         if not self.cMs:
-            self.cMs = [M_t(list(M.order), M.K1 / unit, M.K2 / unit, M.K / unit) for M in self.Ms]
+            # `K` multiplies no momenta and does not scale with them as `K1` and `K2` do
+            self.cMs = [M_t(list(M.order), M.K1 / unit, M.K2 / unit,
+                            M.K / unit * (params.a / params.aT)**4) for M in self.Ms]
 
         kinematics.store_energy(self)
 
diff --git a/interactions/four_particle/cpp/integral.cpp b/interactions/four_particle/cpp/integral.cpp
index fbc5a5c..b75d00b 100644
--- a/interactions/four_particle/cpp/integral.cpp
+++ b/interactions/four_particle/cpp/integral.cpp
@@ -298,7 +298,11 @@ dbl integrand_full(
     dbl ds = 0.;
 
     if (Ms[0].K != 0.) {
-        ds += Ms[0].K;
+        if (p[0] != 0.) {
+            ds += Ms[0].K * D1(p[0], p[1], p[2], p[3]) / (p[0] * E[0]);
+        } else if (E[0] != 0.) {
+            ds += Ms[0].K * Db1(p[1], p[2], p[3]) / E[0];
+        }
     }
 
     else {
-- 
2.43.0


From 41997b865afc24fe5663dc0c478b69ab59d53fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:04 +0000
Subject: [PATCH 22/39] fix: drop the mass terms of massless particles at zero
 momentum

---
 interactions/four_particle/cpp/Ds.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interactions/four_particle/cpp/Ds.cpp b/interactions/four_particle/cpp/Ds.cpp
index 8b521e1..6d4a050 100644
--- a/interactions/four_particle/cpp/Ds.cpp
+++ b/interactions/four_particle/cpp/Ds.cpp
@@ -278,7 +278,10 @@ dbl Db(const std::array<dbl, 4> &p, const std::array<dbl, 4> &E, const std::arra
         dbl subresult = 0.;
 
         if (i * j == 0.) {
-            subresult += m[i+j] * (E[k] * E[l] * Db1(p[1], p[2], p[3]) + sksl * Db2(p[i+j], p[k], p[l]));
+            // m[0] / E[0] is 1 for a particle at rest, but massless particles have no such term
+            if (m[0] != 0.) {
+                subresult += m[i+j] * (E[k] * E[l] * Db1(p[1], p[2], p[3]) + sksl * Db2(p[i+j], p[k], p[l]));
+            }
         }
         else if (k * l == 0.) {
             subresult += m[i] * m[j] * E[k+l] * Db1(p[1], p[2], p[3]);
-- 
2.43.0


From 43cea57de73dbde2787e093e0d06334367b0ea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:03 +0000
Subject: [PATCH 23/39] fix: do not integrate rounding errors for massless
 reactions at zero momentum

---
 interactions/four_particle/cpp/integral.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interactions/four_particle/cpp/integral.cpp b/interactions/four_particle/cpp/integral.cpp
index b75d00b..34bc1a1 100644
--- a/interactions/four_particle/cpp/integral.cpp
+++ b/interactions/four_particle/cpp/integral.cpp
@@ -284,6 +284,10 @@ dbl integrand_full(
 
     if (!in_bounds(p, E, m)) { return integrand; }
 
+    // Massless particles with zero momentum do not interact with massless ones; the momenta of the rest
+    // are collinear there, which leaves only the rounding errors of the kernels
+    if (p[0] == 0. && m[0] == 0. && m[1] == 0. && m[2] == 0. && m[3] == 0.) { return integrand; }
+
     dbl temp = 1.;
 
     // Avoid rounding errors and division by zero
-- 
2.43.0


From 76fbe95588e6bee3e2ddfc692ac206589a2a04c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:03 +0000
Subject: [PATCH 24/39] fix: keep both ends of short momentum ranges of
 four-particle integrals

---
 common/kinematics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index b32dc56..f222678 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -352,7 +352,8 @@ def interpolation_4p(interaction, ps, slice_1):
     interpolate = False
     grid = interaction.particle.grid
     if grid.MAX_MOMENTUM / (grid.MOMENTUM_SAMPLES - 1) < environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV:
-        steps = int(np.ceil(slice_1[-1] / (environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV)))
+        # both ends are needed for the interpolation, no matter how coarse the resolution is
+        steps = max(2, int(np.ceil(slice_1[-1] / (environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV))))
         interp_pos = np.searchsorted(ps, np.linspace(ps[0], ps[-1], steps))
         ps = ps[interp_pos]
         interpolate = True
-- 
2.43.0


From 2da3b4cb11cfa415f34ed05f2fde3e8710bba41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:19 +0000
Subject: [PATCH 25/39] fix: treat decay terms implicitly with the coefficient
 of the distribution

---
 particles/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 71021ec..90c60f0 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -309,7 +309,8 @@ class DistributionParticle(AbstractParticle):
                     Bs.append(B)
                 elif integral.kind in [CollisionIntegralKind.F_f_vacuum_decay, CollisionIntegralKind.F_decay]:
                     G = integral.integrate(ps, stepsize=self.params.h)
-                    Bs.append(G)
+                    # `G` includes the distribution, its coefficient does not
+                    Bs.append(numpy.divide(G, self._distribution, out=numpy.zeros(len(ps)), where=self._distribution > 0))
                     ABs.append(G)
                 else:
                     ABs.append(integral.integrate(ps, stepsize=self.params.h))
-- 
2.43.0


From d445f37abbdd7b9dcc4b397cb085aeed1253c07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:15 +0000
Subject: [PATCH 26/39] fix: temperature steps use only derivatives of steps

---
 evolution.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/evolution.py b/evolution.py
index 7df2126..aa49df7 100755
--- a/evolution.py
+++ b/evolution.py
@@ -69,6 +69,8 @@ class Universe(object):
             self.init_log(folder=folder)
 
         self.fraction = 0
+        # Derivatives found by the steps made so far
+        self.fractions = []
 
         self.step = 1
 
@@ -187,9 +189,10 @@ class Universe(object):
             self.step_monitor(self)
 
         if environment.get('ADAMS_BASHFORTH_TEMPERATURE_CORRECTION'):
-            fs = (list(self.data['fraction'][-MAX_ADAMS_BASHFORTH_ORDER:]) + [self.fraction])
+            # The history holds also rows which were not the result of a step (initial states)
+            self.fractions = self.fractions[-MAX_ADAMS_BASHFORTH_ORDER:] + [self.fraction]
 
-            self.params.aT += adams_bashforth_correction(fs=fs, h=self.params.h)
+            self.params.aT += adams_bashforth_correction(fs=self.fractions, h=self.params.h)
         else:
             self.params.aT += self.fraction * self.params.h
 
-- 
2.43.0


From 1f937ffe89e660c3979172118116747165bec4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:15 +0000
Subject: [PATCH 27/39] fix: energy transfer to the plasma with linear time
 steps

---
 particles/NonEqParticle.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/particles/NonEqParticle.py b/particles/NonEqParticle.py
index 792f093..c55d6e4 100755
--- a/particles/NonEqParticle.py
+++ b/particles/NonEqParticle.py
@@ -11,6 +11,14 @@ from common import linear_interpolation
 from common.integrators import lambda_integrate
 
 
+def collision_rate(particle):
+    """ Derivative of the distribution function over the conformal scale factor $x$; collision
+        integral is the derivative over its logarithm if the time step is logarithmic """
+    if environment.get('LOGARITHMIC_TIMESTEP'):
+        return particle.collision_integral / particle.params.x
+    return particle.collision_integral
+
+
 name = 'non-equilibrium'
 aT = 0
 adec = 0
@@ -111,7 +119,7 @@ if not environment.get('SIMPSONS_NONEQ_PARTICLES'):
 
 
     def numerator(particle):
-        integral = linear_interpolation(particle.collision_integral / particle.params.x,
+        integral = linear_interpolation(collision_rate(particle),
                                         particle.grid.TEMPLATE)
         return lambda_integrate(particle.grid.BOUNDS)(lambda particle: numpy.vectorize(lambda y: (
             -1. * particle.dof / 2. / numpy.pi**2
@@ -201,7 +209,7 @@ else:
         return simps((
             -1. * particle.dof / 2. / numpy.pi**2
             * temp**2 * particle.conformal_energy(temp)
-            * particle.collision_integral / particle.params.x), temp
+            * collision_rate(particle)), temp
         )
 
 
-- 
2.43.0


From e6e37f7a4994b9cb49cec0c9e6821d539bdb345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:15 +0000
Subject: [PATCH 28/39] fix: energy of HNL is a property of their Universe, not
 of the process

---
 common/__init__.py   |  3 +++
 common/kinematics.py | 10 +++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/common/__init__.py b/common/__init__.py
index 9f53d88..b93e47f 100755
--- a/common/__init__.py
+++ b/common/__init__.py
@@ -95,6 +95,9 @@ class Params(object):
 
     h = None
 
+    # Conformal energy of the heavy neutral leptons, as soon as they interact
+    HNL_energy = None
+
     def __init__(self, **kwargs):
         """ ## Parameters
             Master object carrying the cosmological state of the system and initial conditions """
diff --git a/common/kinematics.py b/common/kinematics.py
index f222678..f869834 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -92,8 +92,8 @@ def four_particle_grid_cutoff_scattering(particle):
 
     if particle.name == 'Sterile neutrino (Dirac)':
         max_mom = particle.grid.MAX_MOMENTUM #3 * particle.params.T
-    elif particle.name != 'Sterile neutrino (Dirac)' and environment.get('HNL_ENERGY'):
-        HNL_energy = float(environment.get('HNL_ENERGY'))
+    elif particle.name != 'Sterile neutrino (Dirac)' and particle.params.HNL_energy:
+        HNL_energy = particle.params.HNL_energy
         max_mom = max(np.sqrt(HNL_energy**2 - particle.conformal_mass**2), environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV)
     else:
         max_mom = environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV
@@ -111,8 +111,8 @@ def four_particle_grid_cutoff_decay(particle):
 
     if particle.name == 'Sterile neutrino (Dirac)':
         max_mom = particle.grid.MAX_MOMENTUM
-    elif particle.name != 'Sterile neutrino (Dirac)' and environment.get('HNL_ENERGY'):
-        HNL_energy = float(environment.get('HNL_ENERGY'))
+    elif particle.name != 'Sterile neutrino (Dirac)' and particle.params.HNL_energy:
+        HNL_energy = particle.params.HNL_energy
         max_mom = max(np.sqrt(HNL_energy**2 - particle.conformal_mass**2), environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV)
     else:
         max_mom = particle.grid.MAX_MOMENTUM
@@ -346,7 +346,7 @@ def CollisionMultiplier3p(interaction):
 
 def store_energy(interaction):
     if interaction.particle.name == 'Sterile neutrino (Dirac)':
-        os.environ['HNL_ENERGY'] = str(np.sqrt((interaction.particle.grid.MAX_MOMENTUM/10)**2 + interaction.particle.conformal_mass**2))
+        interaction.particle.params.HNL_energy = np.sqrt((interaction.particle.grid.MAX_MOMENTUM/10)**2 + interaction.particle.conformal_mass**2)
 
 def interpolation_4p(interaction, ps, slice_1):
     interpolate = False
-- 
2.43.0


From 5997efb8c892167dbaad5f094bf8140098b15d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:38 +0000
Subject: [PATCH 29/39] fix: nuclear rates in a Universe without output folder

---
 evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evolution.py b/evolution.py
index aa49df7..647d7f9 100755
--- a/evolution.py
+++ b/evolution.py
@@ -352,7 +352,8 @@ class Universe(object):
 
             if self.log_throttler.output:
                 print("KAWANO", self.kawano_data.row_repr(-1, names=True))
-            self.kawano_log.write(self.kawano_data.row_repr(-1) + "\n")
+            if self.kawano_log:
+                self.kawano_log.write(self.kawano_data.row_repr(-1) + "\n")
 
     def init_log(self, folder=''):
         self.logfile = utils.ensure_path(os.path.join(self.folder, 'log.txt'))
-- 
2.43.0


From c2ad6821281f5a601920e0191085799e2f6c3f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:10 +0000
Subject: [PATCH 30/39] fix: nuclear rates of a Universe use its own species

---
 evolution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/evolution.py b/evolution.py
index 647d7f9..d54eb21 100755
--- a/evolution.py
+++ b/evolution.py
@@ -76,6 +76,7 @@ class Universe(object):
 
     def init_kawano(self, datafile='s4.dat', **kwargs):
         kawano.init_kawano(**kwargs)
+        self.kawano_particles = kawano.particles
         if self.folder:
             self.kawano_log = open(os.path.join(self.folder, datafile), 'w')
             self.kawano_log.write("\t".join([col[0] for col in kawano.heading]) + "\n")
@@ -329,6 +330,8 @@ class Universe(object):
             #     t[s]         x    Tg[10^9K]   dTg/dt[10^9K/s] rho_tot[g cm^-3]     H[s^-1]
             # n nue->p e  p e->n nue  n->p e nue  p e nue->n  n e->p nue  p nue->n e
 
+            # Another Universe might have been using the module in the meantime
+            self.kawano.particles = self.kawano_particles
             rates = self.kawano.baryonic_rates(self.params.a)
 
             if environment.get('LOGARITHMIC_TIMESTEP'):
-- 
2.43.0


From 96b48c5e5b33d949acaae89313af2c32ea75bb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:54 +0000
Subject: [PATCH 31/39] fix: QCD transition conserves the entropy of the
 current state, not of the one a step before

---
 evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evolution.py b/evolution.py
index d54eb21..ed8ad79 100755
--- a/evolution.py
+++ b/evolution.py
@@ -397,7 +397,7 @@ class Universe(object):
 
         dof_after_qcd = Params.entropic_dof_eq(self)
 
-        self.params.aT = self.data['aT'][-1] * (dof_before_qcd/dof_after_qcd)**(1/3)
+        self.params.aT *= (dof_before_qcd/dof_after_qcd)**(1/3)
 #        self.params.x = self.data['x'][-1] * (dof_before_qcd/dof_after_qcd)**(1/3)
 #        self.params.a = self.data['a'][-1] * (dof_before_qcd/dof_after_qcd)**(1/3)
         self.params.update(self.total_energy_density(), self.total_entropy()) # T will be updated here...
-- 
2.43.0


From a22c3a449b17fe07c8d48b9f4281a07e4466c47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:54 +0000
Subject: [PATCH 32/39] fix: QCD transition without hadrons

---
 evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evolution.py b/evolution.py
index ed8ad79..2850c67 100755
--- a/evolution.py
+++ b/evolution.py
@@ -393,7 +393,7 @@ class Universe(object):
                             'Strange quark', 'Top quark', 'Bottom quark', 'Gluon'],
                             self.particles
                             )
-        self.add_particles(hadrons)
+        self.add_particles(hadrons or [])
 
         dof_after_qcd = Params.entropic_dof_eq(self)
 
-- 
2.43.0


From ac6daab260a523090efdadad3633a8a185c5a81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:22 +0000
Subject: [PATCH 33/39] fix: density and expansion rate after the QCD
 transition are those of the new plasma

---
 evolution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evolution.py b/evolution.py
index 2850c67..fe31caf 100755
--- a/evolution.py
+++ b/evolution.py
@@ -403,6 +403,8 @@ class Universe(object):
         self.params.update(self.total_energy_density(), self.total_entropy()) # T will be updated here...
 #        self.params.T = CONST.lambda_QCD # That's why we change it here again
         self.update_particles()
+        # ... and the densities of the species follow it
+        self.params.update(self.total_energy_density(), self.total_entropy())
 
         if quarkic_interactions and self.interactions:
             for inter in quarkic_interactions:
-- 
2.43.0


From 47939839a30d1cc93c24182193329aebf9ca6c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:26 +0000
Subject: [PATCH 34/39] fix: thermalisation of short-lived species conserves
 their number

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index f869834..dbff88d 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -401,7 +401,7 @@ def Icoll_fast_decay(particle, ps):
 
     if hasattr(particle, 'thermalization'):
         distr_ini = distr_backg + sum(F1s) * particle.params.h
-        distr_bef = distr_backg + simps(sum(F1s) * particle.grid.TEMPLATE**2, particle.grid.TEMPLATE) * particle.params.h \
+        distr_bef = distr_backg + 4 * np.pi * simps(sum(F1s) * particle.grid.TEMPLATE**2, particle.grid.TEMPLATE) * particle.params.h \
                     / (2 * np.pi * particle.conformal_mass * particle.aT)**(3/2) \
                     * np.exp(-particle.grid.TEMPLATE**2 / (2 * particle.conformal_mass * particle.aT))
 
-- 
2.43.0


From 3267194e16ca3d11a28f4b77f7c9f67d129844df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:04 +0000
Subject: [PATCH 35/39] fix: degrees of freedom at decoupling of sterile
 neutrinos with a mass of exactly the QCD scale

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index dbff88d..24b29f5 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -159,7 +159,7 @@ def decoupling_temperature_relativistic(mass, mixing_angle):
 
     if mass > CONST.lambda_QCD:
         g_star = 61.75
-    elif muon_mass < mass < CONST.lambda_QCD:
+    elif muon_mass < mass <= CONST.lambda_QCD:
         g_star = 14.25
     else:
         g_star = 10.75
-- 
2.43.0


From c447631840a4e4d3b30d0f1cec8419f664024bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:04 +0000
Subject: [PATCH 36/39] fix: relativistic decoupling of one sterile neutrino
 does not apply to the next one

---
 common/kinematics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/kinematics.py b/common/kinematics.py
index 24b29f5..47c825d 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -170,6 +170,8 @@ def decoupling_temperature_relativistic(mass, mixing_angle):
 
 def decoupling_temperature(mass, mixing_angle):
     T_dec_rel = decoupling_temperature_relativistic(mass, mixing_angle)
+    # It might be not the first one this process asks about
+    os.environ.pop('Relativistic_decoupling', None)
     if 1.5 * T_dec_rel > 1.5 * mass:
         os.environ['Relativistic_decoupling'] = 'True'
         return 1.5 * T_dec_rel
-- 
2.43.0


From dae4bf24a62dc719581edacf9ecae3630413858e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 37/39] fix: length of a metre in natural units

---
 common/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/__init__.py b/common/__init__.py
index b93e47f..4ebcb65 100755
--- a/common/__init__.py
+++ b/common/__init__.py
@@ -28,7 +28,7 @@ class UNITS(object):
         UNITS.TeV = UNITS.GeV * 1e3
         UNITS.s = 1e22 / 6.582119 / UNITS.MeV
         UNITS.kg = 1e27 / 1.782662 * UNITS.GeV
-        UNITS.m = 1e15 / 1.239842 / UNITS.GeV
+        UNITS.m = 1e15 / 0.1973270 / UNITS.GeV
         UNITS.N = 1e-5 / 8.19 * UNITS.GeV**2
 
         # Temperature: $10^9 K$
-- 
2.43.0


From 56d1dc9e815c8bd1fa4401f40fa0ac30d1a0f4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 38/39] fix: strength of a newton in natural units

---
 common/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/__init__.py b/common/__init__.py
index 4ebcb65..15fc979 100755
--- a/common/__init__.py
+++ b/common/__init__.py
@@ -29,7 +29,7 @@ class UNITS(object):
         UNITS.s = 1e22 / 6.582119 / UNITS.MeV
         UNITS.kg = 1e27 / 1.782662 * UNITS.GeV
         UNITS.m = 1e15 / 0.1973270 / UNITS.GeV
-        UNITS.N = 1e-5 / 8.19 * UNITS.GeV**2
+        UNITS.N = 1e-5 / 8.1194 * UNITS.GeV**2
 
         # Temperature: $10^9 K$
         UNITS.K9 = UNITS.MeV / 11.6045
-- 
2.43.0


From 94b9127e536799ece0b3db78d2ce3b7d4f271414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:25 +0000
Subject: [PATCH 39/39] fix: accuracy of four-particle integrals with linear
 steps does not depend on units

---
 interactions/four_particle/__init__.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/interactions/four_particle/__init__.py b/interactions/four_particle/__init__.py
index 534dd93..6754750 100755
--- a/interactions/four_particle/__init__.py
+++ b/interactions/four_particle/__init__.py
@@ -121,9 +121,6 @@ class FourParticleIntegral(BoltzmannIntegral):
         if stepsize is None:
             stepsize = params.h
 
-        if not environment.get('LOGARITHMIC_TIMESTEP'):
-            stepsize /= params.aT
-
         if not self.creaction:
             self.creaction = [
                 reaction_t(
-- 
2.43.0

