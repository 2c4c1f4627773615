From d7053c7f37890a450fb4d8311668fb29e93a80f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:26 +0000
Subject: [PATCH 01/80] fix: keep all deposited sediment when deposition
 exceeds a bed layer mass

The deposits left after filling the top layers were discarded in every cell
that received more than one layer mass, so that the bed level did not follow
the deposition. Discard only what does not fit in the layered bed and derive
the bed level from the full net exchange.
---
 aeolis/bed.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index a71214d..7de477a 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -267,6 +267,9 @@ def update(s, p):
     # reshape mass matrix
     m = s['mass'].reshape((-1,nl,nf))
 
+    # remember net exchange that determines the bed level change
+    dm_net = dm[:,0].copy()
+
     # negative mass may occur in case of deposition due to numerics,
     # which should be prevented
     m, dm, pickup = prevent_negative_mass(m, dm, pickup)
@@ -310,7 +313,7 @@ def update(s, p):
     # update bathy
     if p['process_bedupdate']:
 
-        dz = dm[:, 0].reshape((ny + 1, nx + 1)) / (p['rhog'] * (1. - p['porosity']))
+        dz = dm_net.reshape((ny + 1, nx + 1)) / (p['rhog'] * (1. - p['porosity']))
         # s['dzb'] = dm[:, 0].reshape((ny + 1, nx + 1))
         s['dzb'] = dz.copy()
 
@@ -437,15 +440,16 @@ def prevent_negative_mass(m, dm, pickup):
             m[ix,i,:] = mx[ix,:].repeat(nf, axis=1) * d[ix,:]
 
             # remove deposited sediment from pickup
-            pickup[ix,:] -= m[ix,i,:]
+            pickup[ix,:] += m[ix,i,:]
 
         # discard any remaining deposits at locations where all layers
         # are filled with fresh deposits
-        ix = (dm[:,:1] > mx).flatten()
+        ix = (n >= nl).flatten()
         if np.any(ix):
             pickup[ix,:] = 0.
 
         # recompute sediment exchange mass
+        ix = (n > 0).flatten()
         dm[ix,:] = -np.sum(pickup[ix,:], axis=-1, keepdims=True).repeat(nf, axis=-1)
 
     return m, dm, pickup
-- 
2.43.0


From 5741de09d70a8afc956fa0f4ae0e06742e8b5ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:26 +0000
Subject: [PATCH 02/80] fix: use bedcomp_file also if grain_dist is given as
 integers

---
 aeolis/bed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index 7de477a..c2abfcd 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -83,7 +83,7 @@ def initialize(s, p):
     if isinstance(p['grain_dist'], str):
             logger.log_and_raise('Grain size file not recognized as array, check file path and whether all values have been filled in.', exc=ValueError) 
 
-    if p['bedcomp_file'] is None and p['grain_dist'].ndim == 1 and p['grain_dist'].dtype == 'float64' or p['grain_dist'].dtype == 'int': 
+    if p['bedcomp_file'] is None and p['grain_dist'].ndim == 1 and (p['grain_dist'].dtype == 'float64' or p['grain_dist'].dtype == 'int'): 
         # Both float and int are included as options for the grain dist to make sure there is no error when grain_dist is filled in as 1 instead of 1.0. 
         for i in range(nl):
             gs = makeiterable(p['grain_dist'])
-- 
2.43.0


From 7861f0d6b3890b430ef6939e667c7d96d922ddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 03/80] fix: align the diagonals of the lateral (negative n)
 transport in the solver matrix

The diagonal that couples a row to the next row in lateral direction was taken
one row ahead, so that transport in negative lateral direction used the velocity
of the wrong row (or of the boundary row) for laterally varying wind.
---
 aeolis/model.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 0759995..cd7032a 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -911,14 +911,14 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am2.flatten()[2:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
@@ -1282,14 +1282,14 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am2.flatten()[2:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
@@ -1616,12 +1616,12 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-1,0,1,j,j*p['ny']), format='csr')
             else:
@@ -2025,12 +2025,12 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-1,0,1,j,j*p['ny']), format='csr')
             else:
-- 
2.43.0


From cebbcd36be5fb6fd96b432bd8c57ad89ab71bf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 04/80] fix: exchange sediment across the circular lateral
 boundary with the opposite row's velocity

---
 aeolis/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index cd7032a..c631a33 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -792,6 +792,10 @@ class AeoLiS(IBmi):
             
             us_min[:,-1]  = s['us'][:,-1,i]
             un_min[-1,:]  = s['un'][-1,:,i]
+
+            if p['boundary_lateral'] == 'circular':
+                un_plus[0,:]  = s['un'][-1,:,i]
+                un_min[-1,:]  = s['un'][0,:,i]
             
             
             # define matrix coefficients to solve linear system of equations        
@@ -1163,6 +1167,10 @@ class AeoLiS(IBmi):
             
             us_min[:,-1]  = s['us'][:,-1,i]
             un_min[-1,:]  = s['un'][-1,:,i]
+
+            if p['boundary_lateral'] == 'circular':
+                un_plus[0,:]  = s['un'][-1,:,i]
+                un_min[-1,:]  = s['un'][0,:,i]
             
             
             # define matrix coefficients to solve linear system of equations        
-- 
2.43.0


From a3f5aa9d262f59d2ee9e49087b64583b5e2a8ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:57 +0000
Subject: [PATCH 05/80] fix: run the steadystate solver with more than one
 sediment fraction

---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index c631a33..9fe993c 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -738,7 +738,7 @@ class AeoLiS(IBmi):
 
         if self.t == 0.:
             # use initial guess for first time step
-            if p['grain_dist'] != None:
+            if p['grain_dist'] is not None:
                 w = p['grain_dist'].reshape((1,1,-1))
                 w = w.repeat(p['ny']+1, axis=0)
                 w = w.repeat(p['nx']+1, axis=1)
-- 
2.43.0


From e447845b5a2effbe5e12aa96c3e9c87a7f3bb20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:57 +0000
Subject: [PATCH 06/80] fix: set the concentration at the upper circular
 lateral face in the steadystatepieter solver

---
 aeolis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 9fe993c..f3a917f 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1667,6 +1667,7 @@ class AeoLiS(IBmi):
                 if p['boundary_lateral'] == 'circular':
                     Ctxfn_i[0,:] = ixfn[0,:] * Ct[-1,:,i] \
                                     + (1. - ixfn[0,:]) *  Ct[0,:,i] 
+                    Ctxfn_i[-1,:] = Ctxfn_i[0,:]
                 
                 # calculate pickup
                 D_i = s['dsdn'] / Ts * Ct[:,:,i]                                          
-- 
2.43.0


From d8a1d5cd8d85924a06a3c65cb6a4b5745b20ac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:57 +0000
Subject: [PATCH 07/80] fix: close the lateral balance of one-dimensional
 models in the implicit solvers

The lateral outflow of a single row was part of the matrix, its inflow was not,
so that an oblique wind removed sediment from the air. The explicit scheme and
the two-dimensional circular model do not have this leak.
---
 aeolis/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index f3a917f..08d3a90 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -926,6 +926,8 @@ class AeoLiS(IBmi):
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
+                # a single row exchanges sediment with itself in lateral direction
+                A0 = A0 + Amx + Apx
                 A = scipy.sparse.diags((Am2.flatten()[2:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
@@ -1301,6 +1303,8 @@ class AeoLiS(IBmi):
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
+                # a single row exchanges sediment with itself in lateral direction
+                A0 = A0 + Amx + Apx
                 A = scipy.sparse.diags((Am2.flatten()[2:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
@@ -1635,6 +1639,8 @@ class AeoLiS(IBmi):
             else:
                 j = p['nx']+1
                 ny = 0
+                # a single row exchanges sediment with itself in lateral direction
+                A0 = A0 + Amx + Apx
                 A = scipy.sparse.diags((Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1]),
@@ -2043,6 +2049,8 @@ class AeoLiS(IBmi):
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-1,0,1,j,j*p['ny']), format='csr')
             else:
+                # a single row exchanges sediment with itself in lateral direction
+                A0 = A0 + Amx + Apx
                 A = scipy.sparse.diags((Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1]),
-- 
2.43.0


From 2792f19f32ae92da0d5cb35900a3637bf1902045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 08/80] fix: advance in time with the explicit scheme when
 there is no wind

set_timestep returned False, so that update() returned before incrementing the
time and a run with a calm spell never ended.
---
 aeolis/model.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 08d3a90..cd766d7 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -587,16 +587,14 @@ class AeoLiS(IBmi):
         time step is given that is maximized by the CFL condition in
         case of an explicit numerical scheme.
 
-        Returns True except when:
+        In case there is no wind and the numerical scheme is explicit,
+        the CFL condition does not provide a time step. In this case
+        the time step is set arbitrarily to one second.
 
-        1. No time step could be determined, for example when there is
-        no wind and the numerical scheme is explicit. In this case the
-        time step is set arbitrarily to one second.
-
-        2. Or when the time step is smaller than -1. In this case the
-        time is updated with the absolute value of the time step, but
-        no model execution is performed. This funcionality can be used
-        to skip fast-forward in time.
+        Returns True except when the time step is smaller than -1. In
+        this case the time is updated with the absolute value of the
+        time step, but no model execution is performed. This
+        funcionality can be used to skip fast-forward in time.
 
         Parameters
         ----------
@@ -626,7 +624,6 @@ class AeoLiS(IBmi):
                     self.dt = np.minimum(self.dt, self.p['CFL'] / dtref)
                 else:
                     self.dt = np.minimum(self.dt, 1.)
-                    return False
            
         if self.p['max_bedlevel_change'] != 999. and np.max(self.s['dzb']) != 0. and self.dt_prev != 0.:
             
-- 
2.43.0


From 1f9fd78b8868aa10982d1006a8f5d2a3f1497f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 09/80] fix: limit the time step by the largest bed level
 change, erosion included

The largest value of the signed change was used: erosion was not limited and a
time step in which all cells erode resulted in a negative time step.
---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index cd766d7..3a59c66 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -625,9 +625,9 @@ class AeoLiS(IBmi):
                 else:
                     self.dt = np.minimum(self.dt, 1.)
            
-        if self.p['max_bedlevel_change'] != 999. and np.max(self.s['dzb']) != 0. and self.dt_prev != 0.:
+        if self.p['max_bedlevel_change'] != 999. and np.max(np.abs(self.s['dzb'])) != 0. and self.dt_prev != 0.:
             
-            dt_zb = self.dt_prev * self.p['max_bedlevel_change'] / np.max(self.s['dzb'])
+            dt_zb = self.dt_prev * self.p['max_bedlevel_change'] / np.max(np.abs(self.s['dzb']))
             self.dt = np.minimum(self.dt, dt_zb)
             
         self.p['dt_opt'] = self.dt
-- 
2.43.0


From 773498b92d462070803de85c9389abc8c9a3c503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 10/80] fix: rotate the grid back if update only skips time

---
 aeolis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 3a59c66..b062ba4 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -291,6 +291,7 @@ class AeoLiS(IBmi):
         # determine optimal time step
         self.dt_prev = self.dt
         if not self.set_timestep(dt):
+            self.s = self.grid_rotate(-self.p['alpha'])
             return
 
         # interpolate hydrodynamic time series
-- 
2.43.0


From 8adafb696ec517be3867a747fbd03dc2dca85a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:23 +0000
Subject: [PATCH 11/80] fix: respect immutable state variables when several
 variables are set at once

The solver result is stored with update(), which bypassed the check on
immutable variables. Variables passed to the constructor were immutable.
---
 aeolis/model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index b062ba4..70b2710 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -96,7 +96,8 @@ class ModelState(dict):
     def __init__(self, *args, **kwargs) -> None:
         """Initialize dictionary for model states"""
         self.ismutable = set()
-        super(ModelState, self).__init__(*args, **kwargs)
+        super(ModelState, self).__init__()
+        self.update(*args, **kwargs)
 
 
     def __setitem__(self, k:str, v:Any) -> None:
@@ -109,6 +110,12 @@ class ModelState(dict):
             self.set_mutable(k)
 
 
+    def update(self, *args, **kwargs) -> None:
+        """sets multiple model variables, immutable variables are ignored"""
+        for k, v in dict(*args, **kwargs).items():
+            self[k] = v
+
+
     def set_mutable(self, k:str) -> None:
         """Adds mutable variable to the model state"""
         self.ismutable.add(k)
-- 
2.43.0


From 34c220b3ca710dc848fdac975fec11d45c6894ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:23 +0000
Subject: [PATCH 12/80] fix: write and read restart files

Restart files were opened in text mode and a pickled model state could not be
loaded.
---
 aeolis/model.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 70b2710..d2a9f9d 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -116,6 +116,19 @@ class ModelState(dict):
             self[k] = v
 
 
+    def __reduce__(self):
+        """pickles the variables together with the set of mutable variables"""
+        return self._restore, (dict(self), set(self.ismutable))
+
+
+    @classmethod
+    def _restore(cls, items:dict, ismutable:set):
+        """restores a pickled model state"""
+        state = cls(items)
+        state.ismutable = ismutable
+        return state
+
+
     def set_mutable(self, k:str) -> None:
         """Adds mutable variable to the model state"""
         self.ismutable.add(k)
@@ -2871,7 +2884,7 @@ class AeoLiSRunner(AeoLiS):
         if restartfile:
             if os.path.exists(restartfile):
                 # Load model state
-                with open(restartfile, 'r') as fp:
+                with open(restartfile, 'rb') as fp:
                     state = pickle.load(fp)
 
                     self.t = state['t']
@@ -2892,7 +2905,7 @@ class AeoLiSRunner(AeoLiS):
         '''Dumps model state to restart file'''
 
         restartfile = '%s.r%010d' % (os.path.splitext(self.p['output_file'])[0], int(self.t))
-        with open(restartfile, 'w') as fp:
+        with open(restartfile, 'wb') as fp:
             pickle.dump({'t':self.t,
                          'p':self.p,
                          's':self.s,
-- 
2.43.0


From b7a375a21d1326a9e3d45a88cbf8533c66cbc708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:52 +0000
Subject: [PATCH 13/80] fix: write configuration files with Python 3

---
 aeolis/inout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index cfbdcc8..4e41d54 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -152,7 +152,7 @@ def write_configfile(configfile, p=None):
     if p is None:
         p = DEFAULT_CONFIG.copy()
 
-    fmt = '%%%ds = %%s\n' % np.max([len(k) for k in p.iterkeys()])
+    fmt = '%%%ds = %%s\n' % np.max([len(k) for k in p.keys()])
         
     with open(configfile, 'w') as fp:
 
@@ -162,7 +162,7 @@ def write_configfile(configfile, p=None):
         fp.write('%s\n' % ('%' * 70))
         fp.write('\n')
         
-        for k, v in sorted(p.iteritems()):
+        for k, v in sorted(p.items()):
             if k.endswith('_file') and isiterable(v):
                 fname = '%s.txt' % k.replace('_file', '')
                 backup(fname)
-- 
2.43.0


From 2995c0e6c90655ed3c7a741022962f076a4e9936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:52 +0000
Subject: [PATCH 14/80] fix: accept any whitespace between the values of a list
 in the configuration file

Repeated spaces resulted in additional None values.
---
 aeolis/inout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 4e41d54..4b7c2c7 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -273,8 +273,8 @@ def parse_value(val, parse_files=True, force_list=False):
         
     val = val.strip()
     
-    if ' ' in val or force_list:
-        return np.asarray([parse_value(x) for x in val.split(' ')])
+    if re.search(r'\s', val) or force_list:
+        return np.asarray([parse_value(x) for x in re.split(r'\s+', val)])
     elif re.match('^[TF]$', val):
         return val == 'T'
     elif re.match('^-?\d+$', val):
-- 
2.43.0


From 403ba7421d1230626f96cbd2a3ce93d54e3b3a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:52 +0000
Subject: [PATCH 15/80] fix: read numbers in scientific notation from the
 configuration file

Values like 1e-3 were read as text.
---
 aeolis/inout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 4b7c2c7..508206a 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -279,7 +279,7 @@ def parse_value(val, parse_files=True, force_list=False):
         return val == 'T'
     elif re.match('^-?\d+$', val):
         return int(val)
-    elif re.match('^-?[\d\.]+$', val):
+    elif re.match('^-?[\d\.]+([eE][-+]?\d+)?$', val):
         return float(val)
     elif re.match('None', val):
         return None
-- 
2.43.0


From 7c2a89e052ee856d9c0a095da42cd0adbb4ef3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 16/80] fix: write parameters to the configuration file without
 loss of precision

Changed parameters are written to the configuration file and read back before a
run. The values used were rounded to two decimals, or six if smaller than one.
---
 aeolis/inout.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 508206a..7f38c3f 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -169,7 +169,18 @@ def write_configfile(configfile, p=None):
                 np.savetxt(fname, v)
                 fp.write(fmt % (k, fname))
             else:
-                fp.write(fmt % (k, print_value(v, fill='')))
+                fp.write(fmt % (k, format_value(v)))
+
+
+def format_value(val):
+    '''Construct a string representation that is read back as the same value'''
+
+    if isiterable(val):
+        return ' '.join([format_value(x) for x in val])
+    elif isinstance(val, float):
+        return repr(float(val))
+    else:
+        return print_value(val, fill='')
 
 
 def check_configuration(p):
-- 
2.43.0


From e9453a20a9fb4d73caa3dff96e916370247a797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 17/80] fix: read a reference date with a time from the
 configuration file as text

The date and time were read as a list, which ended up in the units of the netCDF
time axis.
---
 aeolis/inout.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 7f38c3f..e82703c 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -102,6 +102,10 @@ def read_configfile(configfile, parse_files=True, load_defaults=True):
         p['grain_dist'] = makeiterable(p['grain_dist'])
         p['grain_size'] = makeiterable(p['grain_size'])
 
+    # a reference date with a time is read as a list
+    if 'refdate' in p and isiterable(p['refdate']):
+        p['refdate'] = ' '.join(p['refdate'])
+
     # set default output file, if not given
     if 'output_file' in p and not p['output_file']:
         p['output_file'] = '%s.nc' % os.path.splitext(configfile)[0]
-- 
2.43.0


From 4cac5b7f0fceafccb26fbeb0d1d5502cf39d8ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 18/80] fix: run with the default configuration

The default bed was created with a non-integer number of points and the shared
default configuration was modified.
---
 aeolis/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index d2a9f9d..5e4f8d0 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -28,6 +28,7 @@ The Netherlands                  The Netherlands
 from __future__ import absolute_import, division
 
 import os
+import copy
 import importlib.machinery
 import importlib.metadata
 import time
@@ -2445,13 +2446,13 @@ class AeoLiSRunner(AeoLiS):
         elif self.configfile.upper() == 'DEFAULT':
             self.changed = True
             self.configfile = os.path.abspath('aeolis.txt')
-            self.p = aeolis.constants.DEFAULT_CONFIG
+            self.p = copy.deepcopy(aeolis.constants.DEFAULT_CONFIG)
 
             # add default profile and time series
             self.p.update(dict(nx         = 99,
                                ny         = 0,
                                xgrid_file = np.arange(0.,100.,1.),
-                               bed_file   = np.linspace(-5.,5.,100.),
+                               bed_file   = np.linspace(-5.,5.,100),
                                wind_file  = np.asarray([[0.,10.,0.],
                                                         [3601.,10.,0.]])))
         else:
-- 
2.43.0


From 3c548c073edc11b4d2acb25491fe791d89bb67a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 19/80] fix: separate the default output variables mass and
 pickup

---
 aeolis/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/constants.py b/aeolis/constants.py
index a1c0c33..d74ae45 100644
--- a/aeolis/constants.py
+++ b/aeolis/constants.py
@@ -217,7 +217,7 @@ DEFAULT_CONFIG = {
     'output_vars'                   : ['zb', 'zs',
                                        'Ct', 'Cu',
                                        'uw', 'udir', 
-                                       'uth', 'mass'
+                                       'uth', 'mass',
                                        'pickup', 'w'],    # Names of spatial grids to be included in output
     'output_types'                  : [],                 # Names of statistical parameters to be included in output (avg, sum, var, min or max)
     'external_vars'                 : [],                 # Names of variables that are overwritten by an external (coupling) model, i.e. CoCoNuT
-- 
2.43.0


From 61cf6a3c83b61f3d40b4996ebedb2c70580e35e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 20/80] fix: read an empty list of external variables from the
 configuration file

A configuration written by write_configfile could not be run.
---
 aeolis/inout.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index e82703c..3bc2171 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -102,6 +102,10 @@ def read_configfile(configfile, parse_files=True, load_defaults=True):
         p['grain_dist'] = makeiterable(p['grain_dist'])
         p['grain_size'] = makeiterable(p['grain_size'])
 
+    # ensure that lists with less than two names are lists
+    if 'external_vars' in p:
+        p['external_vars'] = list(makeiterable(p['external_vars']))
+
     # a reference date with a time is read as a list
     if 'refdate' in p and isiterable(p['refdate']):
         p['refdate'] = ' '.join(p['refdate'])
-- 
2.43.0


From 31880510f31e5467f8c110a4f3850cf10cbeda7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 21/80] fix: return and output variables with an underscore in
 their name

The runner took everything behind an underscore for a statistic, so that
variables like theta_dyn and parameters like layer_thickness were not found.
---
 aeolis/model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 5e4f8d0..cf8caa6 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2662,10 +2662,10 @@ class AeoLiSRunner(AeoLiS):
 
         self.clear = clear
 
-        if '_' in var:
-            var, stat = var.split('_')
-            if var in self.o:
-                return self.get_statistic(var, stat)
+        if '_' in var and var not in self.s and var not in self.p:
+            name, stat = var.rsplit('_', 1)
+            if name in self.o:
+                return self.get_statistic(name, stat)
 
         # TODO: delete in future releases
         if '.' in var:
@@ -2739,8 +2739,8 @@ class AeoLiSRunner(AeoLiS):
         # determine unique combinations of variables and types
         self.p['_output_vars'] = {}
         for var in self.p['output_vars']:
-            if '_' in var:
-                var0, ext = var.split('_')
+            if '_' in var and var not in self.s:
+                var0, ext = var.rsplit('_', 1)
             # TODO: delete in future release
             elif '.' in var:
                 warnings.warn('The use of "%s" is deprecated, use '
-- 
2.43.0


From fbdea9fb1a1dbe219b72d623c9b51d716af5bb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 22/80] fix: reset the undisturbed saturated concentration
 every time step

In cells without wind the previous value was kept and multiplied by accfac again
every time step.
---
 aeolis/transport.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index 84a43d8..fc9e196 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -312,6 +312,7 @@ def equilibrium(s, p):
         
         s['Cu']  = np.zeros(uth.shape)
         s['Cuf'] = np.zeros(uth.shape)
+        s['Cu0'] = np.zeros(uth.shape)
     
                 
         ix = (ustar != 0.)*(u != 0.)
-- 
2.43.0


From 601ecad18f28202093622a748794f37a4e9f2a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 23/80] fix: compute the boundary flux for the Kawamura and
 Lettau formulations

---
 aeolis/transport.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index fc9e196..7b7ff9c 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -334,11 +334,15 @@ def equilibrium(s, p):
         elif p['method_transport'].lower() == 'kawamura':
             s['Cu'][ix]  = np.maximum(0., p['Ck'] * rhoa / g * (ustar[ix] + uth[ix])**2 * (ustar[ix] - uth[ix]) / u[ix])
             s['Cuf'][ix] = np.maximum(0, p['Ck'] * rhoa / g * (ustar[ix] + uthf[ix])**2 * (ustar[ix] - uthf[ix]) / u[ix])
+
+            s['Cu0'][ix] = np.maximum(0., p['Ck'] * rhoa / g * (ustar0[ix] + uth0[ix])**2 * (ustar0[ix] - uth0[ix]) / u[ix])
         
         elif p['method_transport'].lower() == 'lettau':
             s['Cu'][ix]  = np.maximum(0., p['Cl'] * rhoa / g * ustar[ix]**2 * (ustar[ix] - uth[ix]) / u[ix])
             s['Cuf'][ix] = np.maximum(0., p['Cl'] * rhoa / g * ustar[ix]**2 * (ustar[ix] - uthf[ix]) / u[ix])
 
+            s['Cu0'][ix] = np.maximum(0., p['Cl'] * rhoa / g * ustar0[ix]**2 * (ustar0[ix] - uth0[ix]) / u[ix])
+
         elif p['method_transport'].lower() == 'dk':
             s['Cu'][ix]  = np.maximum(0., p['Cdk'] * rhoa / g * 0.8*uth[ix] * (ustar[ix]**2 - (0.8*uth[ix])**2) / u[ix])
             s['Cuf'][ix] = np.maximum(0., p['Cdk'] * rhoa / g * 0.8*uthf[ix] * (ustar[ix]**2 - (0.8*uthf[ix])**2) / u[ix])
-- 
2.43.0


From 9f80d212d44f9784fddfb6799479170ce0371c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 24/80] fix: use the bagnold_gs transport formulation in
 two-dimensional models

---
 aeolis/transport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index 7b7ff9c..62d3acb 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -325,7 +325,7 @@ def equilibrium(s, p):
             
         elif p['method_transport'].lower() == 'bagnold_gs':
             Dref = 0.000250
-            d = p['grain_size'][np.newaxis,np.newaxis,:].repeat(nx+1, axis=1)
+            d = p['grain_size'][np.newaxis,np.newaxis,:].repeat(nx+1, axis=1).repeat(p['ny']+1, axis=0)
             s['Cu'][ix]  = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
             s['Cuf'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
             
-- 
2.43.0


From 85ed24d48b6b963b66e7ffe62346d64499a373a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:20 +0000
Subject: [PATCH 25/80] fix: allow updates of the model runner before any
 variable is requested

---
 aeolis/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index cf8caa6..05d400b 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2436,6 +2436,8 @@ class AeoLiSRunner(AeoLiS):
         self.n = 0 # time step counter
         self.o = {} # output stats
 
+        self.clear = False # clear output stats at next time step
+
         self.changed = False
         self.cwd = None
 
-- 
2.43.0


From 7c928d490e40d428c1d28dbf8b230d38abcfbfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:20 +0000
Subject: [PATCH 26/80] fix: print progress of runs that continue from a
 restart file

---
 aeolis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 05d400b..61dea19 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2432,6 +2432,7 @@ class AeoLiSRunner(AeoLiS):
         self.tlog = 0.
         self.plog = -1.
         self.trestart = 0.
+        self.dt_array = [] # time steps since last progress print
 
         self.n = 0 # time step counter
         self.o = {} # output stats
-- 
2.43.0


From c3fe5747e45690ad3caaa93ed415bc7e50afe7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:20 +0000
Subject: [PATCH 27/80] fix: use the surface layer as initial guess of the
 weights if grain_dist varies per layer

The distributions of all layers were taken as a single distribution.
---
 aeolis/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 61dea19..a55eebc 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -758,7 +758,7 @@ class AeoLiS(IBmi):
         if self.t == 0.:
             # use initial guess for first time step
             if p['grain_dist'] is not None:
-                w = p['grain_dist'].reshape((1,1,-1))
+                w = np.atleast_2d(p['grain_dist'])[0].reshape((1,1,-1))
                 w = w.repeat(p['ny']+1, axis=0)
                 w = w.repeat(p['nx']+1, axis=1)
             else:
@@ -1138,7 +1138,7 @@ class AeoLiS(IBmi):
                 w = w_init.copy()
             else:
                 # use initial guess for first time step
-                w = p['grain_dist'].reshape((1,1,-1))
+                w = np.atleast_2d(p['grain_dist'])[0].reshape((1,1,-1))
                 w = w.repeat(p['ny']+1, axis=0)
                 w = w.repeat(p['nx']+1, axis=1)
         else:
@@ -1505,7 +1505,7 @@ class AeoLiS(IBmi):
 
         if self.t == 0.:
             # use initial guess for first time step
-            w = p['grain_dist'].reshape((1,1,-1))
+            w = np.atleast_2d(p['grain_dist'])[0].reshape((1,1,-1))
             w = w.repeat(p['ny']+1, axis=0)
             w = w.repeat(p['nx']+1, axis=1)
             return dict(w=w)
@@ -1918,7 +1918,7 @@ class AeoLiS(IBmi):
 
         if self.t == 0.:
             # use initial guess for first time step
-            w = p['grain_dist'].reshape((1,1,-1))
+            w = np.atleast_2d(p['grain_dist'])[0].reshape((1,1,-1))
             w = w.repeat(p['ny']+1, axis=0)
             w = w.repeat(p['nx']+1, axis=1)
             return dict(w=w)
-- 
2.43.0


From 2d3c1c71cd803c04af93370a35d5079de63a1db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 28/80] fix: do not entrain sediment from a non-erodible layer
 or below a given threshold

The threshold for fluid entrainment ignored the non-erodible layer and the
threshold file, so that sediment appeared in the air that was not picked up from
the bed and was deposited further on.
---
 aeolis/threshold.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeolis/threshold.py b/aeolis/threshold.py
index db8f688..02758d2 100644
--- a/aeolis/threshold.py
+++ b/aeolis/threshold.py
@@ -99,12 +99,13 @@ def compute(s, p):
                     
         # apply complex mask
         s['uth'] = apply_mask(s['uth'], s['threshold_mask'])
-        s['uthf'] = s['uth'].copy()
         
     #non-erodible layer (NEW)
     if p['th_nelayer']:
         s = non_erodible(s,p)
 
+    s['uthf'] = s['uth'].copy()
+
     return s
 
 
-- 
2.43.0


From cc3527a59a1a20f0040c34cc9461c81da14d9950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 29/80] fix: accept a threshold file in one-dimensional models

---
 aeolis/bed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index c2abfcd..a648b92 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -113,7 +113,7 @@ def initialize(s, p):
 
     # initialize threshold
     if p['threshold_file'] is not None:
-        s['uth'] = p['threshold_file'][:,:,np.newaxis].repeat(nf, axis=-1)
+        s['uth'] = p['threshold_file'].reshape(s['zb'].shape)[:,:,np.newaxis].repeat(nf, axis=-1)
         
     return s
 
-- 
2.43.0


From 306d09cab798f24b047d0d98cd89108f5a99cf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 30/80] fix: keep the concentration constant in the corners of
 constant boundaries in the finite volume solvers

---
 aeolis/model.py | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index a55eebc..39d4a05 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1643,7 +1643,15 @@ class AeoLiS(IBmi):
                 Apx[-1,:] += s['ds'][-1,:] * ufn[-1,:] * (1. - ixfn[-1,:])      #upper y-face
             else:
                 raise ValueError('Unknown lateral boundary condition [%s]' % self.p['boundary_lateral'])
-         
+
+            # constant boundaries include the corner cells, also if
+            # sediment is exchanged across the lateral boundaries
+            for k, boundary in ((0, p['boundary_offshore']), (-1, p['boundary_onshore'])):
+                if boundary == 'constant':
+                    A0[:,k] = 1.
+                    Apx[:,k] = 0.
+                    Amx[:,k] = 0.
+
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
@@ -1768,7 +1776,13 @@ class AeoLiS(IBmi):
                     yCt_i[-1,:] -= s['ds'][-1,:] * ufn[-1,:] * Ctxfn_i[-1,:] #upper y-face
                 else:
                     raise ValueError('Unknown lateral boundary condition [%s]' % self.p['boundary_lateral'])
-                
+
+                # constant boundaries include the corner cells
+                if p['boundary_offshore'] == 'constant':
+                    yCt_i[:,0]  = p['constant_offshore_flux']
+                if p['boundary_onshore'] == 'constant':
+                    yCt_i[:,-1] = p['constant_onshore_flux']
+
                 # print("ugs = %.*g" % (3,s['ugs'][10,10]))
                 # print("ugn = %.*g" % (3,s['ugn'][10,10]))
                 # print("%.*g" % (3,np.amax(np.absolute(y_i))))
@@ -2055,7 +2069,15 @@ class AeoLiS(IBmi):
                 Apx[-1,:] += s['ds'][-1,:] * ufn[-1,:] * (1. - ixfn[-1,:]) * alpha #upper y-face
             else:
                 raise ValueError('Unknown lateral boundary condition [%s]' % self.p['boundary_lateral'])
-         
+
+            # constant boundaries include the corner cells, also if
+            # sediment is exchanged across the lateral boundaries
+            for k, boundary in ((0, p['boundary_offshore']), (-1, p['boundary_onshore'])):
+                if boundary == 'constant':
+                    A0[:,k] = 1.
+                    Apx[:,k] = 0.
+                    Amx[:,k] = 0.
+
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
@@ -2187,7 +2209,13 @@ class AeoLiS(IBmi):
                     yCt_i[-1,:] -= s['ds'][-1,:] * ufn[-1,:] * Ctxfn_i[-1,:] #upper y-face
                 else:
                     raise ValueError('Unknown lateral boundary condition [%s]' % self.p['boundary_lateral'])
-                
+
+                # constant boundaries include the corner cells
+                if p['boundary_offshore'] == 'constant':
+                    yCt_i[:,0]  = 0.
+                if p['boundary_onshore'] == 'constant':
+                    yCt_i[:,-1] = 0.
+
                 # print("ugs = %.*g" % (3,s['ugs'][10,10]))
                 # print("ugn = %.*g" % (3,s['ugn'][10,10]))
                 # print("%.*g" % (3,np.amax(np.absolute(y_i))))
-- 
2.43.0


From 095cab4fb0af50daf3d83bb6388a3376570b80d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 31/80] fix: prescribe instead of accumulate the constant
 boundary flux in the steadystatepieter solver

---
 aeolis/model.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 39d4a05..451a98d 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1682,6 +1682,11 @@ class AeoLiS(IBmi):
             # unity
             w = aeolis.transport.renormalize_weights(w, i)
 
+            # concentration that corresponds with the flux at constant boundaries
+            u = s['u'][:,:,i]
+            Ct_offshore = np.divide(p['constant_offshore_flux'], u[:,0], out=np.zeros(u[:,0].shape), where=u[:,0]>0.)
+            Ct_onshore = np.divide(p['constant_onshore_flux'], u[:,-1], out=np.zeros(u[:,-1].shape), where=u[:,-1]>0.)
+
             # iteratively find a solution of the linear system that
             # does not violate the availability of sediment in the bed
             for n in range(p['max_iter']):
@@ -1728,7 +1733,7 @@ class AeoLiS(IBmi):
                     yCt_i[:,0]  += s['dn'][:,0] * ufs[:,0] * s['Cu0'][:,0,i] * p['offshore_flux'] 
                 elif p['boundary_offshore'] == 'constant':
                     #constant sediment concentration (Ct) in the air 
-                    yCt_i[:,0]  = p['constant_offshore_flux']
+                    yCt_i[:,0]  = Ct_offshore - Ct[:,0,i]
 
                 elif p['boundary_offshore'] == 'gradient':
                     #remove the flux at the inner face of the cell
@@ -1746,7 +1751,7 @@ class AeoLiS(IBmi):
 
                 elif p['boundary_onshore'] == 'constant':
                     #constant sediment concentration (Ct) in the air 
-                    yCt_i[:,-1]  = p['constant_onshore_flux']
+                    yCt_i[:,-1]  = Ct_onshore - Ct[:,-1,i]
 
                 elif p['boundary_onshore'] == 'gradient':
                     #remove the flux at the inner face of the cell
@@ -1779,9 +1784,9 @@ class AeoLiS(IBmi):
 
                 # constant boundaries include the corner cells
                 if p['boundary_offshore'] == 'constant':
-                    yCt_i[:,0]  = p['constant_offshore_flux']
+                    yCt_i[:,0]  = Ct_offshore - Ct[:,0,i]
                 if p['boundary_onshore'] == 'constant':
-                    yCt_i[:,-1] = p['constant_onshore_flux']
+                    yCt_i[:,-1] = Ct_onshore - Ct[:,-1,i]
 
                 # print("ugs = %.*g" % (3,s['ugs'][10,10]))
                 # print("ugn = %.*g" % (3,s['ugn'][10,10]))
-- 
2.43.0


From 426fdd1a08f634c4175e95409a334ad3947f22fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 32/80] fix: compute the boundary flux for the bagnold_gs
 formulation from the undisturbed wind

---
 aeolis/transport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index 62d3acb..ce50317 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -329,7 +329,7 @@ def equilibrium(s, p):
             s['Cu'][ix]  = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
             s['Cuf'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
             
-            s['Cu0'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
+            s['Cu0'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar0[ix] - uth0[ix])**3 / u[ix])
         
         elif p['method_transport'].lower() == 'kawamura':
             s['Cu'][ix]  = np.maximum(0., p['Ck'] * rhoa / g * (ustar[ix] + uth[ix])**2 * (ustar[ix] - uth[ix]) / u[ix])
-- 
2.43.0


From 54ee957114bdf83434febdfa495cc52c319f6928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 33/80] fix: assign the right wave numbers in the wind shear
 computation such that a flat bed does not perturb the wind

---
 aeolis/shear.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index dd33ee5..4ab1721 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -544,9 +544,14 @@ class WindShear:
             return
                                 
         ny, nx = gc['z'].shape
-        kx, ky = np.meshgrid(2. * np.pi * np.fft.fftfreq(nx+1, gc['dx'])[1:],
-                             2. * np.pi * np.fft.fftfreq(ny+1, gc['dy'])[1:])
-        
+        kx, ky = np.meshgrid(2. * np.pi * np.fft.fftfreq(nx, gc['dx']),
+                             2. * np.pi * np.fft.fftfreq(ny, gc['dy']))
+
+        # the mean bed level and ridges parallel to the wind do not
+        # perturb the shear stress, these are removed afterwards
+        ix0 = kx == 0.
+        kx[ix0] = 2. * np.pi / (nx * gc['dx'])
+
         hs = np.fft.fft2(gc['z'])
         hs = self.filter_highfrequenies(kx, ky, hs, nfilter)
         
@@ -591,7 +596,9 @@ class WindShear:
         dtauy_t = hs * kx * ky / k * 2 / ul**2 * \
                     2. * np.sqrt(2.) * sigma * sc_kv(1., 2. * np.sqrt(2.) * sigma)
 
-        
+        dtaux_t[ix0] = 0.
+        dtauy_t[ix0] = 0.
+
         gc['dtaux'] = np.real(np.fft.ifft2(dtaux_t))
         gc['dtauy'] = np.real(np.fft.ifft2(dtauy_t))
         
@@ -669,7 +676,8 @@ class WindShear:
             n1 = np.min(nfilter)
             n2 = np.max(nfilter)
             px = 2 * np.pi / self.cgrid['dx'] / np.abs(kx)
-            py = 2 * np.pi / self.cgrid['dy'] / np.abs(ky)
+            with np.errstate(divide='ignore'):
+                py = 2 * np.pi / self.cgrid['dy'] / np.abs(ky)
             s1 =  n1 / np.log(1. / .01 - 1.)
             s2 = -n2 / np.log(1. / .99 - 1.)
             f1 = 1. / (1. + np.exp(-(px + n1 - n2) / s1))
-- 
2.43.0


From d4e15161250f9e23969c965600f7aeb77ad59d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 34/80] fix: store the components of the undisturbed shear
 velocity

---
 aeolis/wind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/wind.py b/aeolis/wind.py
index c4f51d9..962a2c9 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -136,8 +136,8 @@ def interpolate(s, p, t):
     s = velocity_stress(s,p)
         
     s['ustar0'] = s['ustar'].copy()
-    s['ustars0'] = s['ustar'].copy()
-    s['ustarn0'] = s['ustar'].copy()
+    s['ustars0'] = s['ustars'].copy()
+    s['ustarn0'] = s['ustarn'].copy()
         
     s['tau0'] = s['tau'].copy()
     s['taus0'] = s['taus'].copy()
-- 
2.43.0


From d4acb0fe6d0f28e38d3aa739205a3d184d388fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 35/80] fix: do not create separation bubbles over beds below
 the reference level

---
 aeolis/shear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index 4ab1721..3c0a319 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -396,7 +396,7 @@ class WindShear:
         
         k = np.array(range(0, nx))
               
-        zsep =  np.zeros(z.shape)                                                  # total separation bubble      
+        zsep =  z.copy()                                                           # total separation bubble      
         zsep_new =  np.zeros(z.shape)                                               # first-oder separation bubble surface
                 
         zfft = np.zeros((ny,nx), dtype=complex)
@@ -469,7 +469,7 @@ class WindShear:
             zsep_new[j,i:i_max] = (a3*xs**3 + a2*xs**2 + dzdx0*xs + z[j,i])
             
             # Choose maximum of bedlevel, previous zseps and new zseps
-            zsep[j,:] = np.maximum.reduce([z[j,:], zsep[j,:], zsep_new[j,:]])
+            zsep[j,i:i_max] = np.maximum.reduce([z[j,i:i_max], zsep[j,i:i_max], zsep_new[j,i:i_max]])
             
             for filter_iter in range(sep_filter_iterations):
                 
@@ -507,7 +507,7 @@ class WindShear:
                 zsep_new[j, i:i_max1] = (a3*xs1**3 + a2*xs1**2 + dzdx1*xs1 + zbrink)
             
                 # Pick the maximum seperation bubble hieght at all locations
-                zsep[j,:] = np.maximum.reduce([z[j,:], zsep[j,:], zsep_new[j,:]])
+                zsep[j,i:i_max1] = np.maximum.reduce([z[j,i:i_max1], zsep[j,i:i_max1], zsep_new[j,i:i_max1]])
 
         
         # Smooth surface of separation bubbles over y direction
-- 
2.43.0


From f7a59b4e19376721f31d826b854235a74a11e53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 36/80] fix: avalanche also without a non-erodible layer

---
 aeolis/avalanching.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/avalanching.py b/aeolis/avalanching.py
index 7d7cd3e..0409516 100644
--- a/aeolis/avalanching.py
+++ b/aeolis/avalanching.py
@@ -135,6 +135,7 @@ def avalanche(s, p):
                 # Calculation of flux
 
                 grad_h_nonerod = (s['zb'] - s['zne']) / s['ds'] # HAS TO BE ADJUSTED!    
+                grad_h_nonerod[np.isnan(grad_h_nonerod)] = np.inf # without non-erodible layer (no ne_file)
 				
                 ix = np.logical_and(grad_h > tan_dyn, grad_h_nonerod > 0)
                 slope_diff[ix] = np.tanh(grad_h[ix]) - np.tanh(0.9*tan_dyn)    
-- 
2.43.0


From c7c42912aafa34ed32ff0249120c9d0f2ab22cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 37/80] fix: do not avalanche below the non-erodible layer

---
 aeolis/avalanching.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aeolis/avalanching.py b/aeolis/avalanching.py
index 0409516..e98cfbd 100644
--- a/aeolis/avalanching.py
+++ b/aeolis/avalanching.py
@@ -143,6 +143,10 @@ def avalanche(s, p):
                 ix = grad_h_nonerod < grad_h - tan_dyn 
                 slope_diff[ix] = np.tanh(grad_h_nonerod[ix])				                    
 
+                # Sediment below the non-erodible layer does not move
+                slope_diff = np.minimum(slope_diff, np.maximum(grad_h_nonerod, 0.))
+                slope_diff = np.maximum(slope_diff, 0.)
+
                 ix = grad_h != 0
                 
                 if ny == 1:
-- 
2.43.0


From 5773d4a973843138f616bc014717217d0ade1e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:47 +0000
Subject: [PATCH 38/80] fix: let the total and dynamic water level follow the
 still water level if runup is off

---
 aeolis/hydro.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 620e629..ebb06c7 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -175,6 +175,10 @@ def interpolate(s, p, t):
             s['TWL'][:] = s['SWL'][:]  + s['R'][:]
             s['DSWL'][:] = s['SWL'][:] # + s['eta'][:]       # DSWL is actually provided by FM (?)
 
+    else:
+        s['TWL'][:] = s['SWL'][:]
+        s['DSWL'][:] = s['SWL'][:]
+
 
     if p['process_wave'] and p['wave_file'] is not None:
 
-- 
2.43.0


From 6a097c5197de5a1f3c168afddc9b712107b8eac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:47 +0000
Subject: [PATCH 39/80] fix: use the published coefficient in the runup
 formulation of Stockdon (2006)

---
 aeolis/hydro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index ebb06c7..fe8f617 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -648,7 +648,7 @@ def calc_runup_stockdon(Ho, Tp, beta):
         i_iri = (Ho > 0) * (iribarren > 0.3)
         nsigma = 2  # nsigma=1 for R16% and nsigma=2 for R2%
         eta[i_iri] = 0.35 * beta * np.sqrt(Ho[i_iri] * Lo[i_iri])
-        sigma_s[i_iri] = np.sqrt(Ho[i_iri] * Lo[i_iri] * (0.563 * (beta * beta) + 0.0004)) * nsigma / 2 / 2
+        sigma_s[i_iri] = np.sqrt(Ho[i_iri] * Lo[i_iri] * (0.563 * (beta * beta) + 0.004)) * nsigma / 2 / 2
         R[i_iri] = 1.1 * (eta[i_iri] + sigma_s[i_iri]) #result for non-dissipative conditions
 
     else:
@@ -664,7 +664,7 @@ def calc_runup_stockdon(Ho, Tp, beta):
                 nsigma = 2  # nsigma=1 for R16% and nsigma=2 for R2%
                 Lo = 9.81 * Tp * Tp /(2 * np.pi)
                 eta = 0.35 * beta * np.sqrt(Ho * Lo)
-                sigma_s = np.sqrt(Ho * Lo * (0.563 * (beta * beta) + 0.0004)) * nsigma / 2 / 2
+                sigma_s = np.sqrt(Ho * Lo * (0.563 * (beta * beta) + 0.004)) * nsigma / 2 / 2
                 R = 1.1 * (eta + sigma_s) #result for non-dissipative conditions
         else:
             R = 0
-- 
2.43.0


From 35b64881041e6cea984363719b2f5f8666133140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:47 +0000
Subject: [PATCH 40/80] fix: compute runup of external waves at an Iribarren
 number of 0.3 as well

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index fe8f617..ba0917e 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -645,7 +645,7 @@ def calc_runup_stockdon(Ho, Tp, beta):
         sigma_s[i_iri] = 0.046 * np.sqrt(Ho[i_iri] * Lo[i_iri]) /2
         eta[i_iri] = R[i_iri] - sigma_s[i_iri]
 
-        i_iri = (Ho > 0) * (iribarren > 0.3)
+        i_iri = (Ho > 0) * (iribarren >= 0.3)
         nsigma = 2  # nsigma=1 for R16% and nsigma=2 for R2%
         eta[i_iri] = 0.35 * beta * np.sqrt(Ho[i_iri] * Lo[i_iri])
         sigma_s[i_iri] = np.sqrt(Ho[i_iri] * Lo[i_iri] * (0.563 * (beta * beta) + 0.004)) * nsigma / 2 / 2
-- 
2.43.0


From 6a309efeca67038c1baee2f2d7ebbf58ce3f11f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 41/80] fix: use the documented discretisation of the
 groundwater flow

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index ba0917e..1e3fa47 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -463,7 +463,7 @@ def Boussinesq (GW, DSWL, ds, GW_stat, K_gw, ne_gw, D_gw,shl_ix, bound,zb,proces
     for i in range(len(a[:,0])):
         if shl_ix[i] < len(a[0,:]) - 3:   
             a[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]+1:-1] - 2 * GW[i,shl_ix[i]:-2] + GW[i,shl_ix[i]-1:-3]) / ds[i,shl_ix[i]:-2] ** 2
-            b[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]:-2] * (GW[i,shl_ix[i]+1:-1] + GW[i,shl_ix[i]-1:-3])) / ds[i,shl_ix[i]:-2]                  
+            b[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]:-2] * (GW[i,shl_ix[i]+1:-1] - GW[i,shl_ix[i]-1:-3])) / ds[i,shl_ix[i]:-2]                  
             c[i,shl_ix[i]+1:-3]=(b[i,shl_ix[i]+2:-2]-b[i,shl_ix[i]:-4])/ds[i,shl_ix[i]+1:-3]
             dGW[i,shl_ix[i]+1:-3]=K_gw / ne_gw * (D_gw * a[i,shl_ix[i]+1:-3] + c[i,shl_ix[i]+1:-3])
 
-- 
2.43.0


From 8ae59303d163defd94393d51336118f6e047003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 42/80] fix: set the seaward groundwater boundary at the
 shoreline of the row itself

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 1e3fa47..817976f 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -427,7 +427,7 @@ def Boussinesq (GW, DSWL, ds, GW_stat, K_gw, ne_gw, D_gw,shl_ix, bound,zb,proces
     #Define seaward boundary gw=setup
     for i in range (len(GW[:,0])):
         GW[i,shl_ix[i]] = DSWL[i,shl_ix[i]]
-        GW[i,shl_ix[i-1]] = DSWL[i,shl_ix[i-1]]
+        GW[i,shl_ix[i]-1] = DSWL[i,shl_ix[i]-1]
     # GW[:,shl_ix] = s['DSWL'][:,shl_ix]
     # GW[:,shl_ix-1] = s['DSWL'][:,shl_ix-1]
 
-- 
2.43.0


From 537fde5fde57534088182f577d31d14e4c114a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 43/80] fix: remember the previous groundwater level rather
 than a reference to the current one

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 817976f..af08977 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -255,7 +255,7 @@ def update(s, p, dt,t):
         #Specify wetting or drying conditions in previous timestep
         s['wetting'] = s['gw'] > s['gw_prev']
         #Save groundwater from previous timestep
-        s['gw_prev'] = s['gw']        
+        s['gw_prev'] = s['gw'].copy()
         
         #Decrease timestep for GW computations
         dt_gw = int(dt / p['tfac_gw'])
-- 
2.43.0


From 03461269a6b173a4efee16b0816cf3a58a362cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 44/80] fix: compute groundwater with time steps that are no
 multiple of the number of substeps

---
 aeolis/hydro.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index af08977..d6943e4 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -258,8 +258,9 @@ def update(s, p, dt,t):
         s['gw_prev'] = s['gw'].copy()
         
         #Decrease timestep for GW computations
-        dt_gw = int(dt / p['tfac_gw'])
-        for i in range(int(dt / dt_gw)):
+        n_gw = max(1, int(p['tfac_gw']))
+        dt_gw = dt / n_gw
+        for i in range(n_gw):
             t_gw = t + i * dt_gw
             interpolate(s,p,t_gw)
                 
-- 
2.43.0


From a4cef3af7fbe82ec1c697db4255a3a7094482798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 45/80] fix: compute groundwater in entirely flooded and
 entirely dry transects

---
 aeolis/hydro.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index d6943e4..d5cf814 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -265,11 +265,10 @@ def update(s, p, dt,t):
             interpolate(s,p,t_gw)
                 
             #Define index of shoreline location
-            shl_ix =np.argmax(s['zb'] > s['DSWL'],axis=1) - 1
-            
+            shl_ix = last_wet_cell(s['zb'], s['DSWL'])
 
             #Define index of runup limit
-            runup_ix =np.argmax(s['zb'] > s['TWL'],axis=1) - 1
+            runup_ix = np.maximum(shl_ix, last_wet_cell(s['zb'], s['TWL']))
             
             # Landward boundary condition
             if p['boundary_gw'].lower() == 'no_flow':
@@ -418,6 +417,21 @@ def update(s, p, dt,t):
 
 
 
+def last_wet_cell(zb, level):
+    '''Index of the cell seaward of the first cell above a water level, in each row
+
+    Equals the landward cell if the entire row is below the water
+    level and is never seaward of the second cell, which is needed for
+    the seaward boundary condition.
+
+    '''
+
+    dry = zb > level
+    ix = np.argmax(dry, axis=1) - 1
+    ix[~np.any(dry, axis=1)] = zb.shape[1] - 1
+    return np.maximum(ix, 1)
+
+
 @njit
 def Boussinesq (GW, DSWL, ds, GW_stat, K_gw, ne_gw, D_gw,shl_ix, bound,zb,process_seepage_face):
     '''
@@ -482,7 +496,8 @@ def runup_overheight_distr(fx, fx_ix,shl_ix,runup_ix, x):
         #Compute f(X)
         fx[i,shl_ix[i]:fx_ix[i]] = (x[i,shl_ix[i]:fx_ix[i]] - x[i,shl_ix[i]]) / (2 / 3 * (x[i,runup_ix[i]] - x[i,shl_ix[i]]))
         fx[i,fx_ix[i]+1:runup_ix[i]] = 3 - (x[i,fx_ix[i]+1:runup_ix[i]]- x[i,shl_ix[i]])  / (1 / 3 * (x[i,runup_ix[i]] - x[i,shl_ix[i]]))
-        fx[i,fx_ix[i]]=1
+        if runup_ix[i] > shl_ix[i]:
+            fx[i,fx_ix[i]]=1
     return fx
 
 @njit
-- 
2.43.0


From d47595b6ef14febe05ab7e574a265fbaeb538230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 46/80] fix: initialize the soil water retention at the start
 of the simulation, also if that is not at zero

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index d5cf814..d617c4e 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -357,7 +357,7 @@ def update(s, p, dt,t):
             
             if p['process_scanning']:
             #Initialize value of surface moisture due to capillary rise
-                if t == 0:
+                if t == p['tstart']:
                     s['moist_swr'] = p['resw_moist'] + (p['satw_moist'] - p['resw_moist']) \
                           / (1 + abs(p['alfaw_moist'] * h) ** p['nw_moist']) ** p['mw_moist']
                     s['h_delta'][:,:]=np.maximum(0,(s['zb'] - s['gw'])*100)
-- 
2.43.0


From a89c742c4a67553d0299a67054912c8865321618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 47/80] fix: use the onshore boundary condition noflux
 independent of the offshore boundary

---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 451a98d..3497227 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1268,7 +1268,7 @@ class AeoLiS(IBmi):
             else:
                 logger.log_and_raise('Unknown offshore boundary condition [%s]' % self.p['boundary_offshore'], exc=ValueError)
 
-            if (p['boundary_onshore'] == 'flux') | (p['boundary_offshore'] == 'noflux'):                              
+            if (p['boundary_onshore'] == 'flux') | (p['boundary_onshore'] == 'noflux'):                              
                 Am2[:,-1] = 0.
                 Am1[:,-1] = 0.            
             elif p['boundary_onshore'] == 'constant':                              
-- 
2.43.0


From 93c38902d7595e696e695d8c34260d5fc516ea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 48/80] fix: keep the concentration constant at constant
 lateral boundaries instead of accumulating the source term

---
 aeolis/model.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 3497227..50ee47b 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -920,6 +920,9 @@ class AeoLiS(IBmi):
                 Ap1[-1,:] = 0.
                 Amx[-1,:] = 0.
                 Am1[-1,:] = 0.
+
+                Am2[[0,-1],:] = 0.
+                Ap2[[0,-1],:] = 0.
             
                 #logger.log_and_raise('Lateral constant boundary condition not yet implemented', exc=NotImplementedError)
             elif p['boundary_lateral'] == 'uniform':
@@ -982,6 +985,9 @@ class AeoLiS(IBmi):
                     )
 
                 # add boundaries
+                if p['boundary_lateral'] == 'constant':
+                    y_i[0,1:-1] = l['Ct'][0,1:-1,i]
+                    y_i[-1,1:-1] = l['Ct'][-1,1:-1,i]
                 if p['boundary_offshore'] == 'flux':
                     y_i[:,0] = p['offshore_flux'] * s['Cu0'][:,0,i] 
                 if p['boundary_onshore'] == 'flux':
@@ -1297,6 +1303,9 @@ class AeoLiS(IBmi):
                 Ap1[-1,:] = 0.
                 Amx[-1,:] = 0.
                 Am1[-1,:] = 0.
+
+                Am2[[0,-1],:] = 0.
+                Ap2[[0,-1],:] = 0.
             
                 #logger.log_and_raise('Lateral constant boundary condition not yet implemented', exc=NotImplementedError)
             elif p['boundary_lateral'] == 'uniform':
@@ -1378,6 +1387,9 @@ class AeoLiS(IBmi):
                 y_i[:,1:-1] = l['Ct'][:,1:-1,i] + alpha * y_im[:,1:-1] + (1. - alpha) * y_ex[:,1:-1]
 
                 # add boundaries
+                if p['boundary_lateral'] == 'constant':
+                    y_i[0,1:-1] = l['Ct'][0,1:-1,i]
+                    y_i[-1,1:-1] = l['Ct'][-1,1:-1,i]
                 if p['boundary_offshore'] == 'flux':
                     y_i[:,0] = p['offshore_flux'] * s['Cu0'][:,0,i] 
                 if p['boundary_onshore'] == 'flux':
-- 
2.43.0


From 445156c3f402cb292b1d167c779e86bd3030f8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 49/80] fix: limit the entrainment in the finite volume solvers
 to the sediment that leaves the bed

---
 aeolis/model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 50ee47b..1e869be 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1721,11 +1721,11 @@ class AeoLiS(IBmi):
                 
                 # calculate pickup
                 D_i = s['dsdn'] / Ts * Ct[:,:,i]                                          
-                A_i = s['dsdn'] / Ts * s['mass'][:,:,0,i] + D_i # Availability
                 U_i = s['dsdn'] / Ts *  w[:,:,i] *  s['Cu'][:,:,i] 
                                             
-                #deficit_i = E_i - A_i
-                E_i= np.minimum(U_i, A_i)
+                # entrainment, the availability of sediment in the bed is
+                # accounted for by the weights
+                E_i = U_i
                 #pickup_i = E_i - D_i
 
                 # create the right hand side of the linear system
@@ -2151,11 +2151,11 @@ class AeoLiS(IBmi):
                 # calculate pickup
                 D_i = s['dsdn'] / Ts * ( alpha * Ct[:,:,i]  \
                                             + (1. - alpha ) * l['Ct'][:,:,i] )
-                A_i = s['dsdn'] / Ts * s['mass'][:,:,0,i] + D_i # Availability
                 U_i = s['dsdn'] / Ts * ( w[:,:,i] * alpha * s['Cu'][:,:,i] \
                                             + (1. - alpha ) * l['w'][:,:,i] * l['Cu'][:,:,i] )
-                #deficit_i = E_i - A_i
-                E_i= np.minimum(U_i, A_i)
+                # entrainment, the availability of sediment in the bed is
+                # accounted for by the weights
+                E_i = U_i
                 #pickup_i = E_i - D_i
 
                 # create the right hand side of the linear system
-- 
2.43.0


From ca2f88247be45d710f2772644fe1a60489c6c03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 50/80] fix: prevent a division by zero in the finite volume
 solvers if there is no sediment in the air

---
 aeolis/model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 1e869be..110b6b7 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1820,7 +1820,10 @@ class AeoLiS(IBmi):
 #                                           minvalue=Ct_i.min(),
 #                                           **logprops))
 
-                    Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    if Ct_i[~ix].sum() != 0:
+                        Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    else:
+                        Ct_i[~ix] = 0
                     Ct_i[ix] = 0.
 
                 # determine pickup and deficit for current fraction
@@ -2253,7 +2256,10 @@ class AeoLiS(IBmi):
 #                                           minvalue=Ct_i.min(),
 #                                           **logprops))
 
-                    Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    if Ct_i[~ix].sum() != 0:
+                        Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    else:
+                        Ct_i[~ix] = 0
                     Ct_i[ix] = 0.
 
                 # determine pickup and deficit for current fraction
-- 
2.43.0


From 7805a87aee4b85157c5e35488da3fb6f5a4ce902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 51/80] fix: determine the time step after a skipped period
 from the last time step instead of the skipped period

---
 aeolis/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 110b6b7..c18614c 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -309,8 +309,9 @@ class AeoLiS(IBmi):
         if self.p['process_vegetation']: 
             self.s = aeolis.vegetation.vegshear(self.s, self.p)
         
-        # determine optimal time step
-        self.dt_prev = self.dt
+        # determine optimal time step, skipped periods are no time steps
+        if self.dt >= 0.:
+            self.dt_prev = self.dt
         if not self.set_timestep(dt):
             self.s = self.grid_rotate(-self.p['alpha'])
             return
-- 
2.43.0


From 102b4b686c042dab48c5bdfad59273f8101bc425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 52/80] fix: use the grid size in s-direction for the columns
 and in n-direction for the rows of two-dimensional grids

---
 aeolis/gridparams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/gridparams.py b/aeolis/gridparams.py
index a3ae3fa..185245a 100644
--- a/aeolis/gridparams.py
+++ b/aeolis/gridparams.py
@@ -200,8 +200,8 @@ def initialize(s:Dict, p:Dict) -> Tuple[Dict, Dict]:
         s['ds'][:, 1:] = np.diff(s['x'], axis=1)
         s['ds'][:, 0] = s['ds'][:, 1]
     else:
-        s['dn'][:,:] = ((yr[0,1]-yr[0,0])**2.+(xr[0,1]-xr[0,0])**2.)**0.5
-        s['ds'][:,:] = ((xr[1,0]-xr[0,0])**2.+(yr[1,0]-yr[0,0])**2.)**0.5
+        s['ds'][:,:] = ((yr[0,1]-yr[0,0])**2.+(xr[0,1]-xr[0,0])**2.)**0.5
+        s['dn'][:,:] = ((xr[1,0]-xr[0,0])**2.+(yr[1,0]-yr[0,0])**2.)**0.5
          
     # compute cell areas
     s['dsdn'][:,:] = s['ds'] * s['dn']
-- 
2.43.0


From dbbb485890b470c5b64a041e0d44e32d269a41c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 53/80] fix: grow vegetation over the actual time step

---
 aeolis/vegetation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index 6fc5832..2c2a19f 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -154,7 +154,7 @@ def grow (s, p): #DURAN 2006
             s['drhoveg'][ix] = (rhoveg_max - s['rhoveg'][ix])/t_veg - (v_gam/p['hveg_max'])*np.abs(s['dzbveg'][ix] - p['dzb_opt'])*p['veg_gamma']
         else:
             s['drhoveg'][ix] = 0
-        s['rhoveg'] += s['drhoveg']*(p['dt']*p['accfac'])/(365.25 * 24 *3600)
+        s['rhoveg'] += s['drhoveg']*(p['dt_opt']*p['accfac'])/(365.25 * 24 *3600)
         irem = s['rhoveg'] < 0
         s['rhoveg'][irem] = 0
         s['rhoveg'][ixzero] = 0 #here only grow vegetation that already existed
-- 
2.43.0


From 716183822b7d0b2d022b8656d983b4c008b0c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 54/80] fix: do not grow vegetation if the vertical growth rate
 is zero

---
 aeolis/vegetation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index 2c2a19f..32272b8 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -153,7 +153,7 @@ def grow (s, p): #DURAN 2006
         if p['V_ver'] > 0:
             s['drhoveg'][ix] = (rhoveg_max - s['rhoveg'][ix])/t_veg - (v_gam/p['hveg_max'])*np.abs(s['dzbveg'][ix] - p['dzb_opt'])*p['veg_gamma']
         else:
-            s['drhoveg'][ix] = 0
+            s['drhoveg'][:,:] = 0
         s['rhoveg'] += s['drhoveg']*(p['dt_opt']*p['accfac'])/(365.25 * 24 *3600)
         irem = s['rhoveg'] < 0
         s['rhoveg'][irem] = 0
-- 
2.43.0


From a631b4d0145f4605e1fc09c154999e653126e6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 55/80] fix: do not regrow vegetation that died before it
 germinates again

---
 aeolis/vegetation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index 32272b8..ac581a3 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -137,6 +137,7 @@ def grow (s, p): #DURAN 2006
                                                     
     # Reduction of vegetation growth due to sediment burial
     s['dhveg'][ix] = p['V_ver'] * (1 - s['hveg'][ix] / p['hveg_max']) - np.abs(s['dzbveg'][ix]-p['dzb_opt']) * p['veg_gamma']  # m/year
+    s['dhveg'][~ix] = 0.
 
     # Adding growth
     if p['veggrowth_type'] == 'orig': #based primarily on vegetation height
-- 
2.43.0


From 03e72f534a61f81155bed396010df7b27b839f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:13 +0000
Subject: [PATCH 56/80] fix: do not truncate the growth rate of the vegetation
 density to whole numbers

---
 aeolis/vegetation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index ac581a3..0d85b76 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -121,7 +121,7 @@ def germinate(s,p):
     
     lat_veg = drhoveg > 0.
     
-    s['drhoveg'] = np.sum(lat_veg[:,:,:], 2)
+    s['drhoveg'][:,:] = np.sum(lat_veg[:,:,:], 2)
     
     p_lateral = p_lateral_cell * s['drhoveg']
     
-- 
2.43.0


From 81050d07e3208d4109e1e75d9ec61bbd421d3c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:22 +0000
Subject: [PATCH 57/80] fix: do not alter the pickup of the time step when it
 is distributed over the bed layers

---
 aeolis/bed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index a648b92..cced48b 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -255,7 +255,7 @@ def update(s, p):
     nf = p['nfractions']
 
     # determine net erosion
-    pickup = s['pickup'].reshape((-1,nf))
+    pickup = s['pickup'].reshape((-1,nf)).copy()
 
     # determine total mass that should be exchanged between layers
     dm = -np.sum(pickup, axis=-1, keepdims=True).repeat(nf, axis=-1)
-- 
2.43.0


From dfde3c9cf0790b71c32c96b9757b048d138a46d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 58/80] fix: determine the orientation of grids that point to
 the second quadrant

---
 aeolis/gridparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/gridparams.py b/aeolis/gridparams.py
index 185245a..91a9b55 100644
--- a/aeolis/gridparams.py
+++ b/aeolis/gridparams.py
@@ -188,7 +188,7 @@ def initialize(s:Dict, p:Dict) -> Tuple[Dict, Dict]:
     else:
         p['alpha'] = np.rad2deg(np.arctan(dy/dx))
 
-    if dx <= 0 and dy <= 0:
+    if dx < 0 or (dx == 0 and dy <= 0):
         p['alpha'] += 180.
         
     # Rotate grids to allign with horizontal
-- 
2.43.0


From 617858e15897e14a64fa274a6991ae5572b1e314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 59/80] fix: read values that only start with None from the
 configuration file as text

---
 aeolis/inout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 3bc2171..dab91bb 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -300,7 +300,7 @@ def parse_value(val, parse_files=True, force_list=False):
         return int(val)
     elif re.match('^-?[\d\.]+([eE][-+]?\d+)?$', val):
         return float(val)
-    elif re.match('None', val):
+    elif re.match('^None$', val):
         return None
     elif os.path.isfile(val) and parse_files:
         for dtype in [float, complex]:
-- 
2.43.0


From 6331cfcbdeb426d780103dc2047e170a81edc607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 60/80] fix: return rank and shape of scalar state variables

---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index c18614c..5956290 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -496,7 +496,7 @@ class AeoLiS(IBmi):
         '''
 
         if var in self.s:
-            return len(self.s[var].shape)
+            return np.ndim(self.s[var])
         else:
             return -1
 
@@ -515,7 +515,7 @@ class AeoLiS(IBmi):
         '''
 
         if var in self.s:
-            return self.s[var].shape
+            return np.shape(self.s[var])
         else:
             return -1
 
-- 
2.43.0


From 7473f479ae8d9c748ba0c4c53df4598ce7e7059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:24 +0000
Subject: [PATCH 61/80] fix: update the sediment flux before its statistics are
 computed

---
 aeolis/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 5956290..44052ed 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2848,6 +2848,9 @@ class AeoLiSRunner(AeoLiS):
 
         '''
 
+        # update the q variable first, so its statistics are up to date
+        self.s['q'] = np.hypot(self.s['qs'], self.s['qn'])
+
         for k, exts in self.p['_output_vars'].items():
             v = self.get_var(k, clear=False).copy()
             if 'min' in exts:
@@ -2859,9 +2862,6 @@ class AeoLiSRunner(AeoLiS):
             if 'var' in exts:
                 self.o[k]['var'] = self.o[k]['var'] + v**2
 
-        #also update the q variable here
-        self.s['q'] = np.hypot(self.s['qs'], self.s['qn'])
-
         self.n += 1
 
 
-- 
2.43.0


From 5637fa4f5936b3ce88477c5e2a7989c188f9e384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 62/80] fix: write state variables that are the same in all
 cells to the output file

---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 44052ed..1b68358 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2852,7 +2852,7 @@ class AeoLiSRunner(AeoLiS):
         self.s['q'] = np.hypot(self.s['qs'], self.s['qn'])
 
         for k, exts in self.p['_output_vars'].items():
-            v = self.get_var(k, clear=False).copy()
+            v = np.array(self.get_var(k, clear=False))
             if 'min' in exts:
                 self.o[k]['min'] = np.minimum(self.o[k]['min'], v)
             if 'max' in exts:
@@ -2882,7 +2882,7 @@ class AeoLiSRunner(AeoLiS):
             for k, exts in self.p['_output_vars'].items():
                 for ext in exts:
                     if ext is None:
-                        variables[k] = self.get_var(k, clear=False).copy()
+                        variables[k] = np.array(self.get_var(k, clear=False))
                     else:
                         variables['%s_%s' % (k, ext)] = self.get_statistic(k, ext)
 
-- 
2.43.0


From 287f12ef54bf94407b17aba18c06b56eeca6fd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 63/80] fix: let the wind generator converge for every wind
 speed distribution

---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 1b68358..2f63ffb 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -3178,7 +3178,7 @@ class WindGenerator():
             pp = p
             r = self.matmult4(P,self.matmult4(G,p))
             r = r/sum(r)
-            p = p+0.5*(p0-r)
+            p = p*np.sqrt(np.divide(p0, r, out=np.zeros(n_rows), where=r>0))
             P = np.diag(p)
 
             rmse = np.sqrt(np.mean((p - pp)**2))
-- 
2.43.0


From dca057b68ff7984416c01fdf1324746e36980abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 64/80] fix: use exactly the requested number of wind speed
 bins

---
 aeolis/model.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 2f63ffb..92f075b 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -3152,9 +3152,7 @@ class WindGenerator():
         weib_scale=scale*float(mean_speed)/np.sqrt(np.pi);
 
         # wind speed bins
-        self.bins = np.arange(self.bin_size/2.0,
-                              float(max_speed) + self.bin_size/2.0,
-                              self.bin_size)
+        self.bins = (np.arange(n_states) + 0.5) * self.bin_size
 
         # distribution of probabilities, normalised
         fdpWind = self.weibullpdf(self.bins, weib_scale, weib_shape)
-- 
2.43.0


From a3961ddead66674bac952ff9da33779e9fc791d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 65/80] fix: draw wind speeds from within their bin

---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 92f075b..e1057d6 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -3237,7 +3237,7 @@ class WindGenerator():
         self.state = next(j for j,v in enumerate(self.MTMcum[self.state]) if v > r1)
         self.states.append(self.state)
 
-        u = np.maximum(0., self.bins[self.state] - 0.5 + r2 * self.bin_size)
+        u = np.maximum(0., self.bins[self.state] + (r2 - 0.5) * self.bin_size)
         self.wind_speeds.append(u)
 
         self.t += self.dt
-- 
2.43.0


From d805b6841f9343639ed8083510acf6ebabc0ebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 66/80] fix: limit the first time step after a restart by the
 previous one

---
 aeolis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index e1057d6..7b562a6 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2948,6 +2948,7 @@ class AeoLiSRunner(AeoLiS):
                     self.s = state['s']
                     self.l = state['l']
                     self.c = state['c']
+                    self.dt = self.p.get('dt_opt', self.dt)
 
                     self.trestart = self.t
 
-- 
2.43.0


From f3a0de5b162ca26adfa09139e6423a159ea892c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 67/80] fix: erode dunes without waves

---
 aeolis/erosion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeolis/erosion.py b/aeolis/erosion.py
index ee51217..086b234 100644
--- a/aeolis/erosion.py
+++ b/aeolis/erosion.py
@@ -81,7 +81,8 @@ def run_ph12(s, p, t):
     for iy in range(ny + 1):
         twl = s['R'][iy][0] * Kd + wl
 
-        if twl > zToe:
+        # without waves there are no collisions with the dune
+        if twl > zToe and s['sigma_s'][iy][0] > 0.:
             x = s['x'][iy, :]
             zb = s['zb'][iy, :]
             eta = s['eta'][iy][0]
-- 
2.43.0


From 5e5ef75fb6765c3ea5a7493d9f61c9033069246f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 68/80] fix: store the setup of externally provided waves

---
 aeolis/hydro.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index d617c4e..15d0488 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -167,6 +167,8 @@ def interpolate(s, p, t):
 
             eta, sigma_s, R = calc_runup_stockdon(s['Hs'], s['Tp'], p['beach_slope'])
             s['R'][:] = R
+            s['eta'][:] = eta
+            s['sigma_s'][:] = sigma_s
 
             if hasattr(s['runup_mask'], "__len__"):
                 s['eta'] = apply_mask(s['eta'], s['runup_mask'])
-- 
2.43.0


From e5292ee749ad38823a5da889e6fae7b21395bd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 69/80] fix: mean grain size of a bed with different layers

---
 aeolis/threshold.py | 8 ++++----
 aeolis/wind.py      | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/aeolis/threshold.py b/aeolis/threshold.py
index 02758d2..4020412 100644
--- a/aeolis/threshold.py
+++ b/aeolis/threshold.py
@@ -195,7 +195,7 @@ def compute_moisture(s, p):
     elif p['method_moist_threshold'].lower() == 'shao':
         s['uth'][ix] *= np.exp(22.7 * mg[ix])
     elif p['method_moist_threshold'].lower() == 'dong_2002':
-        d = np.sum(p['grain_size'] * p['grain_dist']) * 1000
+        d = np.sum(p['grain_size'] * np.atleast_2d(p['grain_dist'])[0]) * 1000
         if d < 0.135:
             K = 2.51
         elif d < 0.150:
@@ -210,7 +210,7 @@ def compute_moisture(s, p):
             K = 2.15
         s['uth'][ix] *= np.sqrt(1 + K * 100 * mg[ix])
     elif p['method_moist_threshold'].lower() == 'gregory_darwish':
-        d = np.sum(p['grain_size'] * p['grain_dist'])
+        d = np.sum(p['grain_size'] * np.atleast_2d(p['grain_dist'])[0])
         wdiff = np.zeros(mg.shape)
         wdiff[ix] = np.maximum(mg[ix] - 0.5 * p['w1_5'],0)
         a1 = 6.12e-05
@@ -219,7 +219,7 @@ def compute_moisture(s, p):
         s['uth'][ix] *= np.sqrt(1 + mg[ix] + 6 / np.pi * a1 / (p['rhog'] * p['g'] * d ** 2) \
                                 + a2 / (p['rhow'] * p['g'] * d) * np.exp(-a3 * mg[ix] / p['w1_5']) * wdiff[ix])
     elif p['method_moist_threshold'].lower() == 'cornelis':
-        d = np.sum(p['grain_size'] * p['grain_dist'])
+        d = np.sum(p['grain_size'] * np.atleast_2d(p['grain_dist'])[0])
         a1 = 0.013
         a2 = 1.7e-4
         a3 = 3e14
@@ -227,7 +227,7 @@ def compute_moisture(s, p):
                                       * (1 + a3 * 0.075 ** 2 * d / (10 ** 9 * np.exp(-6.5 * mg[ix] / p['w1_5']))) \
                                           * (p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * d))
     elif p['method_moist_threshold'].lower() == 'dong_2007':
-        d = np.sum(p['grain_size'] * p['grain_dist'])   
+        d = np.sum(p['grain_size'] * np.atleast_2d(p['grain_dist'])[0])   
         s['uth'][ix] = 0.16 * np.sqrt((p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * d) * (1 + 478.2 * mg[ix] ** 1.52)
     else:
         logger.log_and_raise('Unknown moisture formulation [%s]' % p['method_moist'], exc=ValueError)
diff --git a/aeolis/wind.py b/aeolis/wind.py
index 962a2c9..e42b0b9 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -179,7 +179,7 @@ def calculate_z0(p, s):
     if p['method_roughness'] == 'constant_nikuradse':
         z0    = p['k'] / 30   # This equaion follows the definition of the bed roughness as introduced by Nikuradse
     if p['method_roughness'] == 'mean_grainsize_initial': #(based on Nikuradse and Bagnold, 1941), can only be applied in case with uniform grain size and is most applicable to a flat bed
-        z0    = np.sum(p['grain_size']*p['grain_dist']) / 30.
+        z0    = np.sum(p['grain_size']*np.atleast_2d(p['grain_dist'])[0]) / 30.
     if p['method_roughness'] == 'mean_grainsize_adaptive': # makes Nikuradse roughness method variable through time and space depending on grain size variations
         z0    = calc_mean_grain_size(p, s) / 30.
     if p['method_roughness'] == 'median_grainsize_adaptive': # based on Sherman and Greenwood, 1982 - only appropriate for naturally occurring grain size distribution
-- 
2.43.0


From d83432d8d8de75e419811a561802744b51f854ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:03 +0000
Subject: [PATCH 70/80] fix: start all solvers from the composition in
 bedcomp_file

---
 aeolis/model.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 7b562a6..aa67bf4 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -758,7 +758,7 @@ class AeoLiS(IBmi):
 
         if self.t == 0.:
             # use initial guess for first time step
-            if p['grain_dist'] is not None:
+            if p['bedcomp_file'] is None:
                 w = np.atleast_2d(p['grain_dist'])[0].reshape((1,1,-1))
                 w = w.repeat(p['ny']+1, axis=0)
                 w = w.repeat(p['nx']+1, axis=1)
@@ -1518,9 +1518,12 @@ class AeoLiS(IBmi):
 
         if self.t == 0.:
             # use initial guess for first time step
-            w = np.atleast_2d(p['grain_dist'])[0].reshape((1,1,-1))
-            w = w.repeat(p['ny']+1, axis=0)
-            w = w.repeat(p['nx']+1, axis=1)
+            if p['bedcomp_file'] is None:
+                w = np.atleast_2d(p['grain_dist'])[0].reshape((1,1,-1))
+                w = w.repeat(p['ny']+1, axis=0)
+                w = w.repeat(p['nx']+1, axis=1)
+            else:
+                w = w_init.copy()
             return dict(w=w)
         else:
             w = w_init.copy()
@@ -1953,9 +1956,12 @@ class AeoLiS(IBmi):
 
         if self.t == 0.:
             # use initial guess for first time step
-            w = np.atleast_2d(p['grain_dist'])[0].reshape((1,1,-1))
-            w = w.repeat(p['ny']+1, axis=0)
-            w = w.repeat(p['nx']+1, axis=1)
+            if p['bedcomp_file'] is None:
+                w = np.atleast_2d(p['grain_dist'])[0].reshape((1,1,-1))
+                w = w.repeat(p['ny']+1, axis=0)
+                w = w.repeat(p['nx']+1, axis=1)
+            else:
+                w = w_init.copy()
             return dict(w=w)
         else:
             w = w_init.copy()
-- 
2.43.0


From 48ea63d4634c191ab3ba619c3361614356b50851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:03 +0000
Subject: [PATCH 71/80] fix: normalize the grain size distribution of each
 layer

---
 aeolis/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index aa67bf4..317fa9f 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -223,6 +223,10 @@ class AeoLiS(IBmi):
 
         #self.p['nfractions'] = len(self.p['grain_dist'])
         self.p['nfractions'] = len(self.p['grain_size'])
+
+        # normalize grain size distribution (of each layer)
+        if self.p['grain_dist'].dtype.kind in 'fi':
+            self.p['grain_dist'] = normalize(self.p['grain_dist'], axis=-1)
 		
         # initialize time
         self.t = self.p['tstart']
-- 
2.43.0


From 2950f84ff6c7e7bc1079fd9c3dc4fd7268436c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:10 +0000
Subject: [PATCH 72/80] fix: shelter by fences on a grid with several rows

---
 aeolis/fences.py | 43 +++++++++----------------------------------
 1 file changed, 9 insertions(+), 34 deletions(-)

diff --git a/aeolis/fences.py b/aeolis/fences.py
index 38611d3..9de90fa 100644
--- a/aeolis/fences.py
+++ b/aeolis/fences.py
@@ -186,35 +186,13 @@ def calc_fence_shear(igrid, cgrid, udir, x0, y0, p):
     # Compute wind shear stresses on computational grid
     gc = compute_fenceshear(gi, gc, udir, p)
 
-    ustarx_init = gc['ustarx'][0,0]
-    gc['ustarx'] = gc['ustarx'] * gc['mult_all']
-    gc['ustary'] = np.zeros(gc['x'].shape)
+    # Interpolate reduction factor to real grid
+    xr, yr = rotate(gi['x'], gi['y'], -(udir + 90.), origin=(x0, y0))
+    mult = interpolate(gc['xi'], gc['yi'], gc['mult_all'], xr, yr)
 
-    #ensure bad data doesnt make it through
-    #ix = gc['mindist'] > 20
-    #gc['ustarx'][ix] = ustarx_init
-
-
-    gc['ustarx'], gc['ustary'] = rotate(gc['ustarx'], gc['ustary'], udir + 90)
-
-    # Rotate both (i&c) grids + results in opposite dir.
-    gi['x'], gi['y'] = rotate(gi['x'], gi['y'], -(udir + 90.), origin=(x0, y0))
-
-    gc['x'], gc['y'] = rotate(gc['x'], gc['y'], -(udir + 90.), origin=(x0, y0))
-
-    gc['ustary'], gc['ustarx'] = rotate(gc['ustarx'], gc['ustary'], -(udir + 90))
-
-    # Interpolate wind shear results to real grid
-    gi['ustarx'] = interpolate(gc['x'], gc['y'], gc['ustarx'],
-                               gi['x'], gi['y'])
-    gi['ustary'] = interpolate(gc['x'], gc['y'], gc['ustary'],
-                               gi['x'], gi['y'])
-
-    # Rotate real grid and wind shear results back to orignal orientation
-    gc['x'], gc['y'] = rotate(gc['x'], gc['y'], udir + 90., origin=(x0, y0))
-    gi['x'], gi['y'] = rotate(gi['x'], gi['y'], +(udir + 90.), origin=(x0, y0))
-
-    gi['ustarx'], gi['ustary'] = rotate(gi['ustarx'], gi['ustary'], +(udir + 90))
+    # Reduce wind shear on real grid
+    gi['ustarx'] = gi['ustarx'] * mult
+    gi['ustary'] = gi['ustary'] * mult
 
     #avoid any boundary effects
     #gi['ustarx'][1,:] = gi['ustarx'][2,:]
@@ -342,7 +320,7 @@ def compute_fenceshear(igrid, cgrid, udir, p):
     for iy in range(ny):
 
         # intialize other grid parameters
-        x = gc['x'][iy, :]
+        x = gc['xi'][iy, :] # in wind direction
         zp = gc['z'][iy, :]
         red_all = np.zeros(x.shape)
 
@@ -352,15 +330,12 @@ def compute_fenceshear(igrid, cgrid, udir, p):
 
         for igrid in range(nx2):
 
-            # only look at cells with a roughness element
+            # only look at cells with a roughness element, not at interpolation noise
             if zp[igrid] > 0:
 
                 # print(zp[igrid])
                 # local parameters
-                if udir >= 180 and udir <= 360:
-                    xrel = x - x[igrid]
-                else:
-                    xrel = -(x - x[igrid])
+                xrel = x - x[igrid]
 
                 red = np.zeros(x.shape)
                 mult = np.ones(x.shape)
-- 
2.43.0


From e3bd7962f9ac962f5c148ddbd21017d168e7a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:10 +0000
Subject: [PATCH 73/80] fix: no fences from interpolation noise

---
 aeolis/fences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/fences.py b/aeolis/fences.py
index 9de90fa..f5fb33c 100644
--- a/aeolis/fences.py
+++ b/aeolis/fences.py
@@ -331,7 +331,7 @@ def compute_fenceshear(igrid, cgrid, udir, p):
         for igrid in range(nx2):
 
             # only look at cells with a roughness element, not at interpolation noise
-            if zp[igrid] > 0:
+            if zp[igrid] > 1e-6:
 
                 # print(zp[igrid])
                 # local parameters
-- 
2.43.0


From 264a709721c7e8884becbc156ea18bcce904309f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:58 +0000
Subject: [PATCH 74/80] fix: salt without the surface moisture method

---
 aeolis/hydro.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 15d0488..af21820 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -196,7 +196,8 @@ def interpolate(s, p, t):
         s['Hsmix'] = apply_mask(s['Hsmix'], s['wave_mask'])
 
         
-    if p['process_moist'] and p['method_moist_process'].lower() == 'surf_moisture' and p['meteo_file'] is not None: 
+    if p['meteo_file'] is not None and (p['process_salt'] or \
+                                        p['process_moist'] and p['method_moist_process'].lower() == 'surf_moisture'):
 
         m = interp_array(t,
                          p['meteo_file'][:,0],
@@ -408,12 +409,14 @@ def update(s, p, dt,t):
 
     # salinitation
     if p['process_salt']:
-        met = s['meteo']
         F2 = -np.log(.5) / p['Tsalt']
+        if not p['process_moist']:
+            ix = s['TWL'] - s['zb'] > p['eps']
         s['salt'][ ix,0] = 1.
         s['salt'][~ix,0] *= np.exp(-F2 * dt)
-        pcp = met['RH'] / 3600. / 1000. # convert precipitation from mm/hr to m/s
-        s['salt'][:,:,0] = np.minimum(1., s['salt'][:,:,0] + pcp * dt / p['layer_thickness'])
+        if 'meteo' in s:
+            pcp = s['meteo']['RH'] / 3600. / 1000. # convert precipitation from mm/hr to m/s
+            s['salt'][:,:,0] = np.minimum(1., s['salt'][:,:,0] + pcp * dt / p['layer_thickness'])
 
     return s
 
-- 
2.43.0


From 96e65cc1988adaaae2def0655222ed0c066510c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:54 +0000
Subject: [PATCH 75/80] fix: shear velocity below the separation bubble of a
 transect

---
 aeolis/wind.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/wind.py b/aeolis/wind.py
index e42b0b9..81eb5df 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -248,6 +248,7 @@ def shear(s,p):
             zsepdelta = np.minimum(np.maximum(1. - delta * s['hsep'], 0.), 1.)
             s['taus'] *= zsepdelta
             s['taun'] *= zsepdelta
+            s['tau'] = np.hypot(s['taus'], s['taun'])
             s = stress_velocity(s, p)
 
     # if p['process_nelayer']:
-- 
2.43.0


From 2d71d37725569a8b7d68878396476090cb8b44c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:54 +0000
Subject: [PATCH 76/80] fix: volume of dune erosion in transects with cells of
 different sizes

---
 aeolis/erosion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/erosion.py b/aeolis/erosion.py
index 086b234..3e21f65 100644
--- a/aeolis/erosion.py
+++ b/aeolis/erosion.py
@@ -90,7 +90,7 @@ def run_ph12(s, p, t):
             sigma_s = s['sigma_s'][iy][0]
 
             # parameter set up
-            dx = np.abs(x[1] - x[0])
+            dx = np.abs(s['ds'][iy, :])
             Bt = beta * 0.54  # dune toe slope trajectory
             Cs = p['Cs']
             dVResidual_prev = 0  # add this parameter in to be consistent with other codes
@@ -108,7 +108,7 @@ def run_ph12(s, p, t):
             zbT[ix] = zb[ix]
 
             # initial volume calcs
-            Vc = np.cumsum(dx * (zb[st0:] - zbT[st0:]))
+            Vc = np.cumsum(dx[st0:] * (zb[st0:] - zbT[st0:]))
             Vc = Vc - Vc[0]
 
             # collision calcs
@@ -129,7 +129,7 @@ def run_ph12(s, p, t):
             dVResidual = Vc[ds] - dVT
 
             # lets add this residual back to the dune toe so have mass conservation
-            dz = -dVResidual / dx
+            dz = -dVResidual / dx[st]
             numcells = np.size(np.arange(st0, st))
 
             # update morphology
-- 
2.43.0


From d3eeca33c8912ec6f178b9fc6141381cc9482d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:54 +0000
Subject: [PATCH 77/80] fix: default factor for sheltering by roughness
 elements

---
 aeolis/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/constants.py b/aeolis/constants.py
index d74ae45..43abeea 100644
--- a/aeolis/constants.py
+++ b/aeolis/constants.py
@@ -246,7 +246,7 @@ DEFAULT_CONFIG = {
     'Ck'                            : 2.78,               # [-] Constant in kawamura formulation for equilibrium sediment concentration
     'Cl'                            : 6.7,                # [-] Constant in lettau formulation for equilibrium sediment concentration
     'Cdk'                           : 5.,                 # [-] Constant in DK formulation for equilibrium sediment concentration
-    # 'm'                             : 0.5,                # [-] Factor to account for difference between average and maximum shear stress
+    'm'                             : 0.5,                # [-] Factor to account for difference between average and maximum shear stress
 #    'alpha'                         : 0.4,               # [-] Relation of vertical component of ejection velocity and horizontal velocity difference between impact and ejection
     'kappa'                         : 0.41,               # [-] Von Kármán constant
     'sigma'                         : 4.2,                # [-] Ratio between basal area and frontal area of roughness elements
-- 
2.43.0


From 7663af1452a89503c35323f770413ee05279726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:54 +0000
Subject: [PATCH 78/80] fix: sheltering factor keeps the shape of the grid

---
 aeolis/threshold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/threshold.py b/aeolis/threshold.py
index 4020412..5fa1cd4 100644
--- a/aeolis/threshold.py
+++ b/aeolis/threshold.py
@@ -388,7 +388,7 @@ def compute_sheltering(s, p):
 
     # compute inverse of shear stress ratio
     Rti = np.sqrt((1. - p['m'] * gd) * (1. + p['m'] * p['beta'] / p['sigma'] * gd))
-    s['Rti'] = Rti
+    s['Rti'] = Rti.reshape((ny,nx))
 
     # modify shear velocity threshold
     s['uth'] *= Rti.reshape((ny,nx,1)).repeat(nf, axis=-1)
-- 
2.43.0


From 24da70705a9bfcde446f2ab137d00352278d4ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:55 +0000
Subject: [PATCH 79/80] fix: unknown moisture formulation for the threshold
 raises the intended error

---
 aeolis/threshold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/threshold.py b/aeolis/threshold.py
index 5fa1cd4..781ed04 100644
--- a/aeolis/threshold.py
+++ b/aeolis/threshold.py
@@ -230,7 +230,7 @@ def compute_moisture(s, p):
         d = np.sum(p['grain_size'] * np.atleast_2d(p['grain_dist'])[0])   
         s['uth'][ix] = 0.16 * np.sqrt((p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * d) * (1 + 478.2 * mg[ix] ** 1.52)
     else:
-        logger.log_and_raise('Unknown moisture formulation [%s]' % p['method_moist'], exc=ValueError)
+        logger.log_and_raise('Unknown moisture formulation [%s]' % p['method_moist_threshold'], exc=ValueError)
 
     # should be .04 according to Pye and Tsoar
     # should be .64 according to Delgado-Fernandez (10% vol.)
-- 
2.43.0


From 31a7cba2c1be458450ccedecaf0a5f68bff8430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:55 +0000
Subject: [PATCH 80/80] fix: unknown groundwater boundary condition raises the
 intended error

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index af21820..ea2f787 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -283,7 +283,7 @@ def update(s, p, dt,t):
                 bound = 1
                 
             else:
-                 logger.log_and_raise('Unknown landward groundwater boundary condition' % p['boundary_gw'], exc=ValueError)
+                 logger.log_and_raise('Unknown landward groundwater boundary condition [%s]' % p['boundary_gw'], exc=ValueError)
 
         
             #Runge-Kutta timestepping
-- 
2.43.0

